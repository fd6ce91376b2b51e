//! P12: merging graph-structured call stacks is the union of the stacks.
use antlr_rust::verif::*;
use harness::stacks::*;
use harness::*;
use std::hash::{Hash, Hasher};

fn h(c: &Ctx) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    c.hash(&mut s);
    s.finish()
}
fn check(a: &Ctx, b: &Ctx, wild: bool, cache: &mut Option<&mut MergeCache>) -> Result<(), String> {
    let m = PredictionContext::merge(a, b, wild, cache);
    let want: Stacks = stacks(a).union(&stacks(b)).cloned().collect();
    let got = stacks(&m);
    ensure_eq!(norm(&got, wild), norm(&want, wild), "stacks of merge({}, {})", a, b);
    if !wild {
        ensure_eq!(got, want, "stacks of merge({}, {})", a, b);
    }
    shape(&m)?;
    // deterministic: equal operands give an equal graph, through the cache or not
    let m2 = PredictionContext::merge(a, b, wild, cache);
    ensure!(m == m2 && h(&m) == h(&m2), "merging the same pair again: {} and {}", m, m2);
    let m3 = PredictionContext::merge(&copy(a), &copy(b), wild, &mut None);
    ensure!(m == m3 && h(&m) == h(&m3), "merging copies of the pair without the cache: {} and {}", m, m3);
    let m4 = PredictionContext::merge(b, a, wild, cache);
    ensure_eq!(norm(&stacks(&m4), wild), norm(&want, wild), "stacks of merge({}, {})", b, a);
    let i = PredictionContext::merge(a, &copy(a), wild, cache);
    ensure!(i == *a, "merge of equal graphs {} gave {}", a, i);
    Ok(())
}
fn main() {
    let mut hh = H::new("random acyclic stack graphs (shared nodes, array nodes, bottoms at several depths) x both merge modes x merge cache kept over a series of merges or absent; oracle: sets of stacks");
    // merged graphs whose hash is 0
    let st = |v: &[isize]| v.iter().rev().fold(PredictionContext::new_empty().alloc(), |c, s| PredictionContext::new_singleton(Some(c), *s).alloc());
    for (p, q, x) in [(1350isize, 1747isize, 447isize), (1968, 2316, 2918), (1714, 1932, 5933)] {
        for wild in [false, true] {
            let (a, b) = (st(&[x, p]), st(&[x, q]));
            hh.case("merge", format!("wild {} graphs {} | {} (merged hash 0)", wild, a, b), true, || check(&a, &b, wild, &mut None));
        }
    }
    let mut r = hh.rng(12);
    while hh.more() && (hh.thorough || hh.cases < 80_000) {
        let wild = r.chance(1, 2);
        let mut pool = vec![];
        let d = r.below(5);
        let n = 2 + r.below(3);
        let gs: Vec<Ctx> = (0..n).map(|_| gen(&mut r, d, wild, &mut pool)).collect();
        let txt = format!("wild {} graphs {}", wild, gs.iter().map(|g| g.to_string()).collect::<Vec<_>>().join(" | "));
        let with_cache = r.chance(2, 3);
        let reps = r.below(4);
        let picks: Vec<(usize, usize)> = (0..reps + 1).map(|_| (r.below(n), r.below(n))).collect();
        hh.case("merge", txt, d > 0, || {
            let mut cache = new_cache();
            let mut acc = gs[0].clone();
            for (i, j) in &picks {
                let mut c = if with_cache { Some(&mut cache) } else { None };
                check(&gs[*i], &gs[*j], wild, &mut c)?;
                check(&acc, &gs[*j], wild, &mut c)?;
                acc = PredictionContext::merge(&acc, &gs[*j], wild, &mut c);
            }
            // equality: of graphs that share no node
            for a in &gs {
                let c = copy(a);
                ensure!(*a == c && h(a) == h(&c), "a copy of {} is not equal to it", a);
                for b in &gs {
                    if a == b {
                        ensure!(stacks(a) == stacks(b), "{} and {} are equal but hold other stacks", a, b);
                        ensure_eq!(h(a), h(b), "hash of equal graphs {} {}", a, b);
                    }
                }
            }
            Ok(())
        });
    }
    hh.finish();
}
