//! P18: walking a tree fires balanced events in document order.
use harness::parsedrv::*;
use harness::*;

fn walk(t: &PT, o: &mut Vec<Ev>) {
    match t {
        PT::Leaf(ty, i, _, false) => o.push(Ev::Term(*ty, *i)),
        PT::Leaf(ty, i, _, true) => o.push(Ev::Error(*ty, *i)),
        PT::Rule { rule, kids, .. } => {
            o.push(Ev::Enter(*rule));
            kids.iter().for_each(|k| walk(k, o));
            o.push(Ev::Exit(*rule));
        }
    }
}
/// what a listener sees during the parse: a node wrapped into a new one by an operator has
/// already been left
fn live(t: &PT, lr: &[bool], o: &mut Vec<Ev>) {
    match t {
        PT::Leaf(ty, i, _, false) => o.push(Ev::Term(*ty, *i)),
        PT::Leaf(_, -1, _, true) => {}
        PT::Leaf(ty, i, _, true) => o.push(Ev::Error(*ty, *i)),
        PT::Rule { rule, kids, .. } => {
            let mut n = 0;
            if let (true, Some(PT::Rule { rule: r2, .. })) = (lr[*rule], kids.first()) {
                if r2 == rule {
                    live(&kids[0], lr, o);
                    n = 1;
                }
            }
            o.push(Ev::Enter(*rule));
            kids[n..].iter().for_each(|k| live(k, lr, o));
            o.push(Ev::Exit(*rule));
        }
    }
}
fn main() {
    let mut h = H::new("random parser grammars (left recursion included) x sentences, damaged sentences and noise; every tree walked, and parsed again with a listener attached; oracle: depth-first traversal of the tree");
    let mut r = h.rng(18);
    while h.more() && (h.thorough || h.cases < 60_000) {
        let o = PGen { leftrec: r.chance(1, 2), preds: 0, nongreedy: false, wild: r.chance(1, 2), ntok: 3 + r.below(3) as i32 };
        let g = parser_gram(&mut r, &o);
        let env = match guard(|| PEnv::new(&g)) {
            Ok(e) => e,
            Err(_) => continue,
        };
        let lr: Vec<bool> = g.rules.iter().map(|x| x.leftrec).collect();
        for _ in 0..8 {
            let t = input(&mut r, &g, 10);
            let label = r.chance(1, 3);
            let toks = on0(&t);
            h.case("walk", format!("grammar {:?} tokens {:?} label {}", g.rules, t, label), t.len() > 1, || {
                let run = match guard(|| parse(&env, &toks, &RunOpt { listener: true, label, ..Default::default() })) {
                    Ok(r) => r,
                    // an endless repair is P19's
                    Err(e) if e.contains("does not terminate") => return Ok(()),
                    Err(e) => return Err(e),
                };
                let tree = match &run.tree {
                    Some(t) => t,
                    None => return Err("no tree".into()),
                };
                let mut w = vec![];
                walk(tree, &mut w);
                ensure_eq!(run.walk, w, "events of the walk");
                if run.errs.is_empty() || !o.leftrec {
                    let mut w = vec![];
                    live(tree, &lr, &mut w);
                    ensure_eq!(run.events, w, "events seen by the listener during the parse");
                }
                ensure_eq!(run.events2, run.events, "events seen by a second listener");
                // the listener changes nothing
                let run2 = parse(&env, &toks, &RunOpt { listener: false, label, ..Default::default() });
                ensure!(run2.events.is_empty(), "events without a listener");
                ensure_eq!((run2.tree, run2.errs, run2.index), (run.tree, run.errs, run.index), "parse with and without listener");
                Ok(())
            });
        }
    }
    h.finish();
}
