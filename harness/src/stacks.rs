//! Graph-structured call stacks and what they stand for: sets of stacks (lists of return
//! states, top first, ending at the bottom).
use crate::Rng;
use antlr_rust::verif::*;
use std::collections::BTreeSet;
use std::sync::Arc;

pub type Ctx = Arc<PredictionContext>;
pub type Stacks = BTreeSet<Vec<isize>>;
pub const EMPTY: isize = PREDICTION_CONTEXT_EMPTY_RETURN_STATE;

pub fn new_cache() -> MergeCache {
    MergeCache::with_hasher(MurmurHasherBuilder {})
}
pub fn stacks(c: &Ctx) -> Stacks {
    let mut o = Stacks::new();
    for i in 0..c.length() {
        let s = c.get_return_state(i);
        match c.get_parent(i) {
            None => {
                assert_eq!(s, EMPTY, "a stack ends without reaching its bottom");
                o.insert(vec![]);
            }
            Some(p) => {
                for mut t in stacks(p) {
                    t.insert(0, s);
                    o.insert(t);
                }
            }
        }
    }
    o
}
/// in local-context mode the bottom stands for every continuation: drop what another stack covers
pub fn norm(s: &Stacks, wild: bool) -> Stacks {
    if !wild {
        return s.clone();
    }
    s.iter().filter(|x| !(0..x.len()).any(|n| s.contains(&x[..n]))).cloned().collect()
}
pub fn shape(c: &Ctx) -> Result<(), String> {
    let n = c.length();
    for i in 0..n {
        if i > 0 && c.get_return_state(i - 1) >= c.get_return_state(i) {
            return Err(format!("return states not sorted and unique: {}", c));
        }
        match c.get_parent(i) {
            Some(p) => shape(p)?,
            None => {}
        }
    }
    Ok(())
}
/// rebuilt node by node, sharing nothing
pub fn copy(c: &Ctx) -> Ctx {
    if c.length() == 1 {
        if c.get_parent(0).is_none() {
            return PredictionContext::new_empty().alloc();
        }
        return PredictionContext::new_singleton(c.get_parent(0).map(copy), c.get_return_state(0)).alloc();
    }
    PredictionContext::new_array((0..c.length()).map(|i| c.get_parent(i).map(copy)).collect(), (0..c.length()).map(|i| c.get_return_state(i)).collect()).alloc()
}
/// a graph: a stack on top of another graph, or several
pub fn gen(r: &mut Rng, depth: usize, wild: bool, pool: &mut Vec<Ctx>) -> Ctx {
    if !pool.is_empty() && r.chance(1, 4) {
        return r.pick(pool).clone();
    }
    let c = if depth == 0 || r.chance(1, 6) {
        EMPTY_PREDICTION_CONTEXT.clone()
    } else if r.chance(1, 2) {
        let p = gen(r, depth - 1, wild, pool);
        PredictionContext::new_singleton(Some(p), r.range(1, 4)).alloc()
    } else {
        // an array node of distinct, sorted return states
        let mut st: Vec<isize> = (1..=5).filter(|_| r.chance(2, 5)).collect();
        let e = !wild && r.chance(1, 3);
        if st.len() + (e as usize) < 2 {
            st = vec![1, 3];
        }
        let mut par: Vec<Option<Ctx>> = st.iter().map(|_| Some(gen(r, depth - 1, wild, pool))).collect();
        if e {
            st.push(EMPTY);
            par.push(None);
        }
        PredictionContext::new_array(par, st).alloc()
    };
    pool.push(c.clone());
    c
}
/// same graph, node by node
pub fn same_graph(a: &Ctx, b: &Ctx) -> bool {
    a.length() == b.length()
        && (0..a.length()).all(|i| {
            a.get_return_state(i) == b.get_return_state(i)
                && match (a.get_parent(i), b.get_parent(i)) {
                    (None, None) => true,
                    (Some(x), Some(y)) => same_graph(x, y),
                    _ => false,
                }
        })
}
