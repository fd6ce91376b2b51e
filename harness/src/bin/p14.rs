//! P14: conflict detection partitions configurations exactly.
use antlr_rust::atn_config::ATNConfig;
use antlr_rust::atn_config_set::ATNConfigSet;
use antlr_rust::PredictionMode;
use antlr_rust::semantic_context::SemanticContext as C;
use antlr_rust::verif;
use bit_set::BitSet;
use harness::stacks::*;
use harness::*;
use std::collections::{BTreeMap, BTreeSet};

type G = BTreeSet<usize>;
fn sorted(v: &[BitSet]) -> Vec<G> {
    let mut o: Vec<G> = v.iter().map(|b| b.iter().collect()).collect();
    o.sort();
    o
}
fn bits(g: &G) -> BitSet {
    g.iter().cloned().collect()
}
fn main() {
    let mut hh = H::new("random configuration sets (few states, alternatives, shared and copied stack graphs, predicates) and random collections of alternative sets; oracle: grouping by state and stack graph");
    let mut r = hh.rng(14);
    while hh.more() && (hh.thorough || hh.cases < 60_000) {
        let full = r.chance(1, 2);
        let preds = r.chance(1, 2);
        let mut pool = vec![];
        let d = r.below(3);
        let n = r.below(8);
        let ns = 1 + r.below(3);
        let ins: Vec<(usize, isize, Ctx, isize, isize)> = (0..n)
            .map(|_| (r.below(ns), if r.chance(1, 30) { r.range(60, 200) } else { r.range(1, 3) }, gen(&mut r, d, !full, &mut pool), if preds { r.range(0, 2) } else { 0 }, if r.chance(1, 4) { r.range(0, 3) } else { 0 }))
            .collect();
        let txt = format!("full {} {}", full, ins.iter().map(|(s, a, c, p, o)| format!("({},{},[{}],p{},out {})", s, a, c, p, o)).collect::<Vec<_>>().join(" "));
        hh.case("partition", txt, n > 1, || {
            let mut s = ATNConfigSet::new_base_atnconfig_set(full);
            let mut strip = ATNConfigSet::new_base_atnconfig_set(true);
            for (st, a, c, p, o) in &ins {
                let sem = if *p == 0 { C::NONE } else { C::Predicate { rule_index: 0, pred_index: *p, is_ctx_dependent: false } };
                let mut x = ATNConfig::new_with_semantic(*st, *a, Some(copy(c)), Box::new(sem));
                x.set_reaches_into_outer_context(*o);
                s.add(Box::new(x));
            }
            for c in s.get_items() {
                strip.add(Box::new(ATNConfig::new(c.get_state(), c.get_alt(), c.get_context().cloned())));
            }
            let groups = |s: &ATNConfigSet| {
                let mut m: Vec<(usize, Ctx, G)> = vec![];
                let mut st: BTreeMap<usize, G> = BTreeMap::new();
                for c in s.get_items() {
                    let (k, x, a) = (c.get_state(), c.get_context().unwrap(), c.get_alt() as usize);
                    st.entry(k).or_default().insert(a);
                    match m.iter_mut().find(|g| g.0 == k && same_graph(&g.1, x)) {
                        Some(g) => { g.2.insert(a); }
                        None => m.push((k, x.clone(), std::iter::once(a).collect())),
                    }
                }
                let mut o: Vec<G> = m.into_iter().map(|g| g.2).collect();
                o.sort();
                let v = o.iter().any(|g| g.len() > 1) && !st.values().any(|g| g.len() == 1);
                (o, v)
            };
            let (want, verdict) = groups(&s);
            let got = verif::get_conflicting_alt_subsets(&s);
            ensure_eq!(sorted(&got), want, "conflicting alternative sets");
            ensure_eq!(sorted(&[verif::get_alts(&got)]), vec![want.iter().flatten().cloned().collect::<G>()], "all alternatives");
            for (m, v) in [(PredictionMode::LL, verdict), (PredictionMode::LL_EXACT_AMBIG_DETECTION, verdict), (PredictionMode::SLL, if s.has_semantic_context() { groups(&strip).1 } else { verdict })] {
                ensure_eq!(verif::has_sll_conflict_terminating_prediction(m, &s), v, "conflict ends prediction in mode {:?}", m);
            }
            verdicts(&want)
        });
        // the verdicts alone, on collections of sets no grammar may give
        let k = r.below(5);
        let sets: Vec<G> = (0..k)
            .map(|_| {
                let mut g: G = (1..=4).filter(|_| r.chance(2, 5)).collect();
                if g.is_empty() { g.insert(if r.chance(1, 5) { 100 } else { 1 + r.below(3) }); }
                g
            })
            .collect();
        hh.case("verdicts", format!("{:?}", sets), k > 1, || verdicts(&sets));
    }
    hh.finish();
}
fn verdicts(s: &[G]) -> Result<(), String> {
    let v: Vec<BitSet> = s.iter().map(bits).collect();
    ensure_eq!(verif::all_subsets_conflict(&v), s.iter().all(|g| g.len() != 1), "all subsets conflict of {:?}", s);
    ensure_eq!(verif::all_subsets_equal(&v), s.windows(2).all(|w| w[0] == w[1]), "all subsets equal of {:?}", s);
    let mins: G = s.iter().map(|g| *g.iter().next().unwrap()).collect();
    let want = if mins.len() == 1 { *mins.iter().next().unwrap() as isize } else { 0 };
    ensure_eq!(verif::get_single_viable_alt(&v), want, "single viable alternative of {:?}", s);
    ensure_eq!(verif::resolves_to_just_one_viable_alt(&v), want, "resolution of {:?}", s);
    ensure_eq!(sorted(&[verif::get_alts(&v)]), vec![s.iter().flatten().cloned().collect::<G>()], "alternatives of {:?}", s);
    Ok(())
}
