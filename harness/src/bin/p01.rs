//! P01: integer sets against a reference set (BTreeSet over a small universe plus big ranges).
use antlr_rust::interval_set::{Interval, IntervalSet};
use antlr_rust::vocabulary::{Vocabulary, VocabularyImpl};
use harness::*;
use std::collections::BTreeSet;

const LO: isize = -3;
const HI: isize = 14;

#[derive(Clone, Debug)]
enum Op {
    One(isize),
    Range(isize, isize),
    Iv(isize, isize),
    Rem(isize),
    AddSet(Vec<(isize, isize)>),
    Sub(Vec<(isize, isize)>),
    Compl(isize, isize),
}

fn mk(v: &[(isize, isize)]) -> (IntervalSet, BTreeSet<isize>) {
    let mut s = IntervalSet::new();
    let mut m = BTreeSet::new();
    for &(a, b) in v {
        s.add_range(a, b);
        for x in a..=b {
            m.insert(x);
        }
    }
    (s, m)
}

/// the one canonical representation of a set
fn canon(m: &BTreeSet<isize>) -> IntervalSet {
    let mut s = IntervalSet::new();
    let mut it = m.iter().copied().peekable();
    while let Some(a) = it.next() {
        let mut b = a;
        while it.peek() == Some(&(b + 1)) {
            b = it.next().unwrap();
        }
        s.add_interval(Interval { a, b });
    }
    s
}

fn check(s: &IntervalSet, m: &BTreeSet<isize>) -> Result<(), String> {
    for v in LO - 3..=HI + 3 {
        ensure_eq!(s.contains(v), m.contains(&v), "contains({})", v);
    }
    ensure_eq!(s.length(), m.len() as isize, "length");
    ensure_eq!(s.get_min(), m.iter().next().copied(), "get_min");
    ensure_eq!(*s, canon(m), "set equality with the same elements added in ascending order");
    let names: Vec<String> = m
        .iter()
        .map(|v| match *v {
            -1 => "<EOF>".to_string(),
            -2 => "<EPSILON>".to_string(),
            v => v.to_string(),
        })
        .collect();
    let want = if m.is_empty() {
        "{}".to_string()
    } else if m.len() == 1 {
        names[0].clone()
    } else {
        format!("{{{}}}", names.join(", "))
    };
    ensure_eq!(s.to_index_string(), want, "to_index_string");
    Ok(())
}

fn apply(s: &mut IntervalSet, m: &mut BTreeSet<isize>, op: &Op) -> Result<(), String> {
    match op {
        Op::One(v) => {
            s.add_one(*v);
            m.insert(*v);
        }
        Op::Range(a, b) => {
            s.add_range(*a, *b);
            m.extend(*a..=*b);
        }
        Op::Iv(a, b) => {
            s.add_interval(Interval { a: *a, b: *b });
            m.extend(*a..=*b);
        }
        Op::Rem(v) => {
            s.remove_one(*v);
            m.remove(v);
        }
        Op::AddSet(o) => {
            let (os, om) = mk(o);
            let before = os.clone();
            s.add_set(&os);
            ensure!(os == before, "argument of add_set changed");
            m.extend(om);
        }
        Op::Sub(o) => {
            let (os, om) = mk(o);
            let before = os.clone();
            s.substract(&os);
            ensure!(os == before, "argument of substract changed");
            *m = m.difference(&om).copied().collect();
        }
        Op::Compl(a, b) => {
            let before = s.clone();
            let c = s.complement(*a, *b);
            ensure!(*s == before, "complement changed its receiver");
            *s = c;
            *m = (*a..=*b).filter(|v| !m.contains(v)).collect();
        }
    }
    check(s, m)
}

fn run(ops: &[Op]) -> Result<(), String> {
    let mut s = IntervalSet::new();
    let mut m = BTreeSet::new();
    check(&s, &m)?;
    for (i, op) in ops.iter().enumerate() {
        apply(&mut s, &mut m, op).map_err(|e| format!("after op {}: {}", i, e))?;
    }
    Ok(())
}

fn rset(r: &mut Rng) -> Vec<(isize, isize)> {
    (0..r.below(4))
        .map(|_| {
            let a = r.range(LO, HI);
            (a, (a + r.range(0, 4)).min(HI))
        })
        .collect()
}

fn main() {
    let mut h = H::new("operation sequences on integer sets over a small universe: every set of up to 3 intervals x every single operation, then random sequences; non-trivial: at least two operations");
    // exhaustive: all sets over a universe of 7 points x every single add/remove/complement, and x every other set for add_set/substract
    let u: Vec<isize> = (0..7).collect();
    'ex: for mask in 0u32..128 {
        let base: Vec<isize> = u.iter().copied().filter(|i| mask >> i & 1 == 1).collect();
        let pre: Vec<Op> = base.iter().map(|v| Op::One(*v)).collect();
        for a in -1..8isize {
            for b in a - 1..8isize {
                for k in 0..3 {
                    let op = match k {
                        0 => Op::Range(a, b),
                        1 => Op::Iv(a, b),
                        _ => Op::Compl(a, b),
                    };
                    let mut ops = pre.clone();
                    ops.push(op);
                    h.case("op", format!("{:?}", ops), ops.len() > 1, || run(&ops));
                    if h.violated() {
                        break 'ex;
                    }
                }
            }
            let mut ops = pre.clone();
            ops.push(Op::Rem(a));
            h.case("op", format!("{:?}", ops), true, || run(&ops));
        }
        for m2 in 0u32..128 {
            let o: Vec<(isize, isize)> = u.iter().filter(|i| m2 >> **i & 1 == 1).map(|i| (*i, *i)).collect();
            for k in 0..2 {
                let mut ops = pre.clone();
                ops.push(if k == 0 { Op::AddSet(o.clone()) } else { Op::Sub(o.clone()) });
                h.case("op", format!("{:?}", ops), true, || run(&ops));
            }
        }
    }
    // extremes used by real grammars
    for (a, b) in [(0isize, 0x10FFFF), (-1, -1), (0x10FFFF, 0x10FFFF), (1, 1 << 40)] {
        h.case("big", format!("range {}..{}", a, b), true, || {
            let mut s = IntervalSet::new();
            s.add_range(a, b);
            ensure_eq!(s.length(), b - a + 1, "length");
            for v in [a - 1, a, a + (b - a) / 2, b, b + 1] {
                ensure_eq!(s.contains(v), a <= v && v <= b, "contains({})", v);
            }
            let mid = a + (b - a) / 2;
            s.remove_one(mid);
            ensure_eq!(s.length(), b - a, "length after remove");
            ensure!(!s.contains(mid), "removed element still there");
            let c = s.complement(a - 5, b + 5);
            ensure_eq!(c.length(), 11, "complement length");
            ensure!(c.contains(mid) && c.contains(a - 1) && c.contains(b + 1) && !c.contains(a - 6), "complement content");
            Ok(())
        });
    }
    // rendering through a vocabulary
    let voc = VocabularyImpl::new(
        [None, Some("'a'"), None, Some("'c'")].iter(),
        [None, Some("A"), Some("B"), Some("C")].iter(),
        None,
    );
    let mut r = h.rng(2);
    for _ in 0..300 {
        let o: Vec<(isize, isize)> = rset(&mut r).into_iter().filter(|x| x.0 >= -2).collect();
        h.case("render", format!("render {:?}", o), o.len() > 1, || {
            let (s, m) = mk(&o);
            let names: Vec<String> = m.iter().map(|v| match *v {
                -1 => "<EOF>".to_string(),
                -2 => "<EPSILON>".to_string(),
                1 => "'a'".into(),
                2 => "B".into(),
                3 => "'c'".into(),
                v => v.to_string(),
            }).collect();
            let want = match names.len() { 0 => "{}".into(), 1 => names[0].clone(), _ => format!("{{{}}}", names.join(", ")) };
            let _: &dyn Vocabulary = &voc;
            ensure_eq!(s.to_token_string(&voc), want, "to_token_string");
            Ok(())
        });
    }
    // random histories
    let mut r = h.rng(1);
    let n = if h.thorough { 3_000_000 } else { 60_000 };
    for _ in 0..n {
        if !h.more() {
            break;
        }
        let len = 2 + r.below(14);
        let ops: Vec<Op> = (0..len)
            .map(|_| {
                let a = r.range(LO, HI);
                let b = (a + r.range(-1, 5)).min(HI);
                match r.below(10) {
                    0 | 1 => Op::One(a),
                    2 | 3 => Op::Range(a, b),
                    4 => Op::Iv(a, b),
                    5 | 6 => Op::Rem(a),
                    7 => Op::AddSet(rset(&mut r)),
                    8 => Op::Sub(rset(&mut r)),
                    _ => Op::Compl(a, (a + 9).min(HI)),
                }
            })
            .collect();
        h.case("history", format!("{:?}", ops), true, || run(&ops));
    }
    h.finish();
}
