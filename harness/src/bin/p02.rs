//! P02: every edge kind against the set of symbols it denotes.
use antlr_rust::interval_set::IntervalSet;
use antlr_rust::transition::*;
use harness::*;
use std::collections::BTreeSet;

#[derive(Clone, Debug)]
enum K {
    Atom(isize),
    Range(isize, isize),
    Set(Vec<(isize, isize)>),
    Not(Vec<(isize, isize)>),
    Any,
    Eps,
    Act,
    Pred,
    Prec,
}

fn iset(v: &[(isize, isize)]) -> IntervalSet {
    let mut s = IntervalSet::new();
    for (a, b) in v {
        s.add_range(*a, *b);
    }
    s
}
fn mk(k: &K, target: usize) -> Box<dyn Transition> {
    match k {
        K::Atom(l) => Box::new(AtomTransition { target, label: *l }),
        K::Range(a, b) => Box::new(RangeTransition { target, start: *a, stop: *b }),
        K::Set(v) => Box::new(SetTransition { target, set: iset(v) }),
        K::Not(v) => Box::new(NotSetTransition { target, set: iset(v) }),
        K::Any => Box::new(WildcardTransition { target }),
        K::Eps => Box::new(EpsilonTransition { target, outermost_precedence_return: -1 }),
        K::Act => Box::new(ActionTransition { target, is_ctx_dependent: false, rule_index: 0, action_index: 0, pred_index: 0 }),
        K::Pred => Box::new(PredicateTransition { target, is_ctx_dependent: false, rule_index: 0, pred_index: 0 }),
        K::Prec => Box::new(PrecedencePredicateTransition { target, precedence: 1 }),
    }
}
fn inn(v: &[(isize, isize)], s: isize) -> bool {
    v.iter().any(|(a, b)| *a <= s && s <= *b)
}
fn den(k: &K, s: isize, lo: isize, hi: isize) -> bool {
    match k {
        K::Atom(l) => s == *l,
        K::Range(a, b) => *a <= s && s <= *b,
        K::Set(v) => inn(v, s),
        K::Not(v) => lo <= s && s <= hi && !inn(v, s),
        K::Any => lo <= s && s <= hi,
        _ => false,
    }
}

fn check(k: &K) -> Result<(), String> {
    let mut t = mk(k, 7);
    ensure_eq!(t.get_target(), 7, "get_target");
    t.set_target(12);
    ensure_eq!(t.get_target(), 12, "get_target after set_target");
    let pts: BTreeSet<isize> = {
        let mut p: Vec<isize> = vec![-2, -1, 0, 1, 2, 3, 5, 8, 127, 128, 0xFFFE, 0xFFFF, 0x10000, 0x10FFFE, 0x10FFFF, 0x110000];
        let mut add = |x: isize| p.extend([x - 1, x, x + 1]);
        match k {
            K::Atom(a) => add(*a),
            K::Range(a, b) => {
                add(*a);
                add(*b)
            }
            K::Set(v) | K::Not(v) => v.iter().for_each(|(a, b)| {
                add(*a);
                add(*b)
            }),
            _ => {}
        }
        p.into_iter().collect()
    };
    for (lo, hi) in [(0, 0x10FFFF), (1, 1), (1, 2), (1, 8), (1, 127)] {
        for &s in &pts {
            let want = den(k, s, lo, hi);
            ensure_eq!(t.matches(s, lo, hi), want, "matches({}, {}, {})", s, lo, hi);
        }
    }
    for &s in &pts {
        let want = if den(k, s, 0, 0x10FFFF) { Some(12) } else { None };
        ensure_eq!(t.get_reachable_target(s), want, "get_reachable_target({})", s);
    }
    let eps = matches!(k, K::Eps | K::Act | K::Pred | K::Prec);
    ensure_eq!(t.is_epsilon(), eps, "is_epsilon");
    match k {
        K::Atom(_) | K::Range(..) | K::Set(_) | K::Not(_) => {
            let l = t.get_label().ok_or("no label")?;
            let v: Vec<(isize, isize)> = match k {
                K::Atom(a) => vec![(*a, *a)],
                K::Range(a, b) => vec![(*a, *b)],
                K::Set(v) | K::Not(v) => v.clone(),
                _ => vec![],
            };
            for &s in &pts {
                ensure_eq!(l.contains(s), inn(&v, s), "label contains {}", s);
            }
        }
        _ => ensure!(t.get_label().is_none(), "label of an edge without one"),
    }
    Ok(())
}

fn main() {
    let mut h = H::new("every edge kind with labels at and around the ends of the vocabularies, all symbols around them; random interval labels");
    for k in [K::Any, K::Eps, K::Act, K::Pred, K::Prec] {
        h.case("edge", format!("{:?}", k), true, || check(&k));
    }
    let b = [-1isize, 0, 1, 2, 97, 98, 127, 128, 0xFFFF, 0x10000, 0x10FFFF];
    for &x in &b {
        h.case("edge", format!("{:?}", K::Atom(x)), true, || check(&K::Atom(x)));
        for &y in &b {
            if x <= y {
                h.case("edge", format!("{:?}", K::Range(x, y)), true, || check(&K::Range(x, y)));
                h.case("edge", format!("{:?}", K::Set(vec![(x, y)])), true, || check(&K::Set(vec![(x, y)])));
                h.case("edge", format!("{:?}", K::Not(vec![(x, y)])), true, || check(&K::Not(vec![(x, y)])));
            }
        }
    }
    let mut r = h.rng(2);
    let n = if h.thorough { 200_000 } else { 8_000 };
    for _ in 0..n {
        if !h.more() {
            break;
        }
        let m = r.below(4);
        let v: Vec<(isize, isize)> = (0..m)
            .map(|_| {
                let a = if r.chance(1, 3) { *r.pick(&b) } else { r.range(-1, 40) };
                (a, a + r.below(12) as isize)
            })
            .collect();
        let k = match r.below(4) {
            0 => K::Atom(r.range(-1, 300)),
            1 => {
                let a = r.range(-1, 300);
                K::Range(a, a + r.below(50) as isize)
            }
            2 => K::Set(v),
            _ => K::Not(v),
        };
        h.case("edge", format!("{:?}", k), true, || check(&k));
    }
    h.finish();
}
