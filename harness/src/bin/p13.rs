//! P13: a configuration set keeps every configuration added to it, once.
use antlr_rust::atn_config::ATNConfig;
use antlr_rust::atn_config_set::ATNConfigSet;
use antlr_rust::semantic_context::SemanticContext as C;
use antlr_rust::verif::*;
use harness::stacks::*;
use harness::*;
use std::hash::{Hash, Hasher};

fn h<T: Hash>(c: &T) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    c.hash(&mut s);
    s.finish()
}
#[derive(Clone, Debug)]
struct In {
    state: usize,
    alt: isize,
    sem: C,
    ctx: Ctx,
    up: isize,
    supp: bool,
    lexer: bool,
}
fn sem(r: &mut Rng) -> C {
    let p = |r: &mut Rng| C::Predicate { rule_index: r.range(0, 1), pred_index: r.range(0, 1), is_ctx_dependent: r.chance(1, 3) };
    match r.below(6) {
        0 | 1 | 2 => C::NONE,
        3 => p(r),
        4 => C::Precedence(r.range(1, 3)),
        _ => {
            let (a, b) = (p(r), p(r));
            if r.chance(1, 2) { C::and(Some(&a), Some(&b)) } else { C::or(Some(&a), Some(&b)) }
        }
    }
}
fn cfg(i: &In) -> Box<ATNConfig> {
    let ctx = copy(&i.ctx);
    let mut c = if i.lexer { ATNConfig::new_lexer_atnconfig6(i.state, i.alt, ctx) } else { ATNConfig::new_with_semantic(i.state, i.alt, Some(ctx), Box::new(i.sem.clone())) };
    if i.lexer {
        c.semantic_context = Box::new(i.sem.clone());
    }
    c.set_reaches_into_outer_context(i.up);
    c.set_precedence_filter_suppressed(i.supp);
    Box::new(c)
}
struct Want {
    i: In,
    stacks: Stacks,
}
fn same_key(a: &In, b: &In, ordered: bool) -> bool {
    a.state == b.state && a.alt == b.alt && a.sem == b.sem && (!ordered || (a.ctx == b.ctx && a.supp == b.supp && a.lexer == b.lexer))
}
fn run(ins: &[In], full: bool, ordered: bool, cached: bool, check: bool) -> Result<ATNConfigSet, String> {
    let mut s = if ordered { ATNConfigSet::new_ordered() } else { ATNConfigSet::new_base_atnconfig_set(full) };
    let full = full || ordered;
    let mut cache = new_cache();
    let mut want: Vec<Want> = vec![];
    let (mut has_sem, mut dips) = (false, false);
    for i in ins {
        let r = if cached { s.add_cached(cfg(i), Some(&mut cache)) } else { s.add(cfg(i)) };
        ensure!(r, "add returned false");
        if !check {
            continue;
        }
        has_sem |= i.sem != C::NONE;
        dips |= i.up > 0;
        match want.iter_mut().find(|w| same_key(&w.i, i, ordered)) {
            Some(w) => {
                w.stacks.extend(stacks(&i.ctx));
                w.i.up = w.i.up.max(i.up);
                w.i.supp |= i.supp;
            }
            None => want.push(Want { i: i.clone(), stacks: stacks(&i.ctx) }),
        }
        let got: Vec<&ATNConfig> = s.get_items().collect();
        ensure_eq!(s.length(), want.len(), "number of entries after adding {:?}", i);
        ensure_eq!(got.len(), want.len(), "entries listed after adding {:?}", i);
        ensure!(!s.is_empty(), "not empty");
        for (k, (g, w)) in got.iter().zip(&want).enumerate() {
            ensure_eq!((g.get_state(), g.get_alt()), (w.i.state, w.i.alt), "state and alternative of entry {}", k);
            ensure!(*g.semantic_context == w.i.sem, "predicate of entry {}: {:?}, expected {:?}", k, g.semantic_context, w.i.sem);
            ensure_eq!(norm(&stacks(g.get_context().unwrap()), !full), norm(&w.stacks, !full), "call stacks of entry {} ({},{})", k, w.i.state, w.i.alt);
            ensure_eq!(g.get_reaches_into_outer_context(), w.i.up, "outer-context depth of entry {}", k);
            ensure_eq!(g.is_precedence_filter_suppressed(), w.i.supp, "suppression mark of entry {}", k);
        }
        ensure_eq!(s.has_semantic_context(), has_sem, "predicates were added");
        ensure_eq!(s.get_dips_into_outer_context(), dips, "dips into the outer context");
        ensure_eq!(s.full_context(), full, "full context");
        let alts: Vec<usize> = s.get_alts().iter().collect();
        let wa: std::collections::BTreeSet<usize> = want.iter().map(|w| w.i.alt as usize).collect();
        ensure_eq!(alts, wa.into_iter().collect::<Vec<_>>(), "alternatives");
    }
    Ok(s)
}
fn main() {
    let mut hh = H::new("random sequences of configurations (few states, alternatives and predicates, random stack graphs) x full-context, local-context and ordered sets x merge cache or none; oracle: list of distinct keys with united stacks; equality and hash of sets built alike and differently");
    let mut r = hh.rng(13);
    while hh.more() && (hh.thorough || hh.cases < 60_000) {
        let ordered = r.chance(1, 3);
        let full = ordered || r.chance(1, 2);
        let cached = r.chance(1, 2);
        let mut pool = vec![];
        let d = r.below(4);
        let n = r.below(9);
        let ins: Vec<In> = (0..n)
            .map(|_| {
                let ctx = gen(&mut r, d, !full, &mut pool);
                In { state: r.below(3), alt: *r.pick(&[1, 1, 1, 2, 2, 257, 65538]), sem: sem(&mut r), ctx, up: if r.chance(1, 4) { r.range(1, 3) } else { 0 }, supp: r.chance(1, 5), lexer: ordered && r.chance(1, 2) }
            })
            .collect();
        let mut other = ins.clone();
        if r.chance(2, 3) && n > 0 {
            let k = r.below(n);
            match r.below(5) {
                0 => { other.pop(); }
                1 => other[k].alt = 3,
                2 => other[k].state = 7,
                3 => other[k].ctx = gen(&mut r, d, !full, &mut pool),
                _ => other[k].sem = sem(&mut r),
            }
        }
        let txt = format!("full {} ordered {} cache {} add {}", full, ordered, cached,
            ins.iter().map(|i| format!("({},{},{:?},[{}],up {},{}{})", i.state, i.alt, i.sem, i.ctx, i.up, if i.supp { "suppressed" } else { "" }, if i.lexer { ",lexer" } else { "" })).collect::<Vec<_>>().join(" "));
        hh.case("add", txt, n > 1, || {
            let a = run(&ins, full, ordered, cached, true)?;
            let b = run(&ins, full, ordered, !cached, false)?;
            ensure!(a == b && h(&a) == h(&b), "two sets built from the same additions differ: {:?} {:?}", a, b);
            let c = run(&other, full, ordered, cached, false)?;
            // by value: entry by entry
            let eq = a.length() == c.length()
                && a.get_items().zip(c.get_items()).all(|(x, y)| {
                    x.get_state() == y.get_state() && x.get_alt() == y.get_alt() && *x.semantic_context == *y.semantic_context && same_graph(x.get_context().unwrap(), y.get_context().unwrap())
                        && x.is_precedence_filter_suppressed() == y.is_precedence_filter_suppressed()
                        && x == y
                })
                && a.has_semantic_context() == c.has_semantic_context()
                && a.get_dips_into_outer_context() == c.get_dips_into_outer_context();
            ensure_eq!(a == c, eq, "equality of {:?} and {:?}", a, c);
            if eq {
                ensure_eq!(h(&a), h(&c), "hash of equal sets");
            }
            let mut u = run(&ins, full, ordered, cached, false)?;
            let mut v = run(&ins, full, ordered, cached, false)?;
            u.set_unique_alt(2);
            ensure!(u != a && u.get_unique_alt() == 2, "unique alternative is part of equality");
            v.set_read_only(true);
            ensure!(v.read_only(), "read only");
            if guard(move || v.add(cfg(&In { state: 1, alt: 1, sem: C::NONE, ctx: EMPTY_PREDICTION_CONTEXT.clone(), up: 0, supp: false, lexer: false }))).is_ok() {
                return Err("a read-only set accepted a configuration".into());
            }
            Ok(())
        });
    }
    hh.finish();
}
