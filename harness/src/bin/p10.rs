//! P10: prediction against a backtracking oracle.
use harness::parsedrv::*;
use harness::gram::*;
use harness::*;
use std::collections::{BTreeSet, HashMap};

fn refs0(e: &E) -> bool {
    match e {
        E::Ref(r, _) => *r == 0,
        E::Seq(v) | E::Alt(v) => v.iter().any(refs0),
        E::Opt(b, _) | E::Star(b, _) | E::Plus(b, _) => refs0(b),
        _ => false,
    }
}
/// the grammar without EOF at the end of its start rule; where the input is a sentence,
/// prediction comes to the end of the input with whole alternatives behind it
fn open_end(g: &Gram) -> Option<Gram> {
    if g.rules.iter().any(|x| refs0(&x.body)) || g.rules[0].leftrec {
        return None;
    }
    let mut g = g.clone();
    match &mut g.rules[0].body {
        E::Seq(v) if v.len() > 1 && matches!(v.last(), Some(E::Eof)) => {
            v.pop();
        }
        _ => return None,
    }
    Some(g)
}

/// the grammar with a new start rule that chooses between predicated alternatives before any token;
/// every predicate is at the left edge of the whole input, where prediction must respect it
fn predicated(r: &mut Rng, mut g: Gram) -> Option<Gram> {
    if g.rules.iter().any(|x| refs0(&x.body)) {
        return None;
    }
    let n = g.rules.len();
    let plain = |r: &mut Rng| E::Ref(1 + r.below(n - 1), 0);
    let mut extra = vec![];
    let mut alts = vec![];
    for _ in 0..2 + r.below(3) {
        let x = match r.below(3) {
            0 => plain(r),
            1 => E::Seq(vec![plain(r), plain(r)]),
            _ => E::Seq(vec![E::Atom(1 + r.below(g.max_token as usize) as i32), plain(r)]),
        };
        let hoist = r.below(9);
        // (a predicate that needs its rule's context is not evaluated from another rule)
        let p = E::Pred(r.below(3) + if hoist != 2 && r.chance(1, 3) { CTX_DEP } else { 0 });
        alts.push(match hoist {
            0 => x,
            1 => E::Seq(vec![E::Opt(Box::new(E::Seq(vec![p, E::Atom(1 + r.below(g.max_token as usize) as i32)])), true), x]),
            2 => {
                // the predicate is hoisted out of another rule
                // (one that needs that rule's context is left to that rule)
                let p = if r.chance(1, 3) { E::Pred(3 + CTX_DEP) } else { p };
                extra.push(Rule { body: E::Seq(vec![p, x]), token: 0, mode: 0, leftrec: false });
                E::Ref(n + extra.len() - 1, 0)
            }
            3 => E::Seq(vec![p, E::Pred(r.below(3)), x]),
            // nothing matched in the rule before the predicate
            6 => {
                extra.push(Rule { body: E::Empty, token: 0, mode: 0, leftrec: false });
                E::Seq(vec![E::Ref(n + extra.len() - 1, 0), p, x])
            }
            // only part of the alternative is predicated
            4 => E::Alt(vec![x, E::Seq(vec![p, plain(r)])]),
            5 => E::Alt(vec![E::Seq(vec![p, plain(r)]), x]),
            _ => E::Seq(vec![p, x]),
        });
    }
    let rest = if r.chance(1, 2) { vec![E::Alt(alts), E::Eof] } else { vec![E::Alt(alts), E::Opt(Box::new(plain(r)), true), E::Eof] };
    g.rules[0].body = E::Seq(rest);
    g.rules.extend(extra);
    Some(g)
}

fn has_pred(e: &E) -> bool {
    match e {
        E::Pred(_) => true,
        E::Seq(v) | E::Alt(v) => v.iter().any(has_pred),
        E::Opt(b, _) | E::Star(b, _) | E::Plus(b, _) => has_pred(b),
        _ => false,
    }
}
/// where the rule a state belongs to can end, from that state at that position
struct Ends<'a> {
    raw: &'a Raw,
    t: Vec<i32>,
    max: i32,
    memo: HashMap<(usize, usize), BTreeSet<usize>>,
    left: usize,
}
impl Ends<'_> {
    fn from(&mut self, s: usize, i: usize) -> BTreeSet<usize> {
        if self.raw.states[s].0 == 7 {
            // (a rule stop state)
            return BTreeSet::from([i]);
        }
        if let Some(x) = self.memo.get(&(s, i)) {
            return x.clone();
        }
        if self.left == 0 {
            return BTreeSet::new();
        }
        self.left -= 1;
        self.memo.insert((s, i), BTreeSet::new());
        let mut out = BTreeSet::new();
        let c = self.t.get(i).copied().unwrap_or(-1);
        for e in self.raw.edges.iter().filter(|e| e[0] as usize == s) {
            let set = |k: i32, v: i32| self.raw.sets[k as usize].1.iter().any(|x| x.0 <= v && v <= x.1);
            let on = match e[2] {
                T_EPS | T_ACT => {
                    let x = self.from(e[1] as usize, i);
                    out.extend(x);
                    continue;
                }
                T_RULE => {
                    for j in self.from(e[3] as usize, i) {
                        let x = self.from(e[1] as usize, j);
                        out.extend(x);
                    }
                    continue;
                }
                T_ATOM => e[5] == 0 && c == e[3],
                T_RANGE => e[5] == 0 && e[3] <= c && c <= e[4],
                T_SET => c > 0 && set(e[3], c),
                T_NOT => c > 0 && c <= self.max && !set(e[3], c),
                T_ANY => c > 0 && c <= self.max,
                _ => false,
            };
            if on {
                let x = self.from(e[1] as usize, i + 1);
                out.extend(x);
            }
        }
        self.memo.insert((s, i), out.clone());
        out
    }
}

fn main() {
    let mut h = H::new("random parser grammars (nested blocks, loops, recursion, left recursion with precedence, sets, predicated alternatives) x sentences, damaged sentences and noise; oracle: first derivation found by an independent backtracking parser trying alternatives in order");
    let mut r = h.rng(10);
    let mut round = 0;
    while h.more() && (h.thorough || h.cases < 60_000) {
        let o = PGen { leftrec: r.chance(1, 2), preds: 0, nongreedy: false, wild: r.chance(1, 2), ntok: 3 + r.below(3) as i32 };
        // a few long inputs first
        round += 1;
        let mut g = if round <= 2 { plain() } else { parser_gram(&mut r, &o) };
        if round > 2 && r.chance(1, 3) {
            g = match predicated(&mut r, g) {
                Some(g) => g,
                None => continue,
            };
        }
        let open = if r.chance(1, 3) { open_end(&g) } else { None };
        let env = match guard(|| PEnv::new(open.as_ref().unwrap_or(&g))) {
            Ok(e) => e,
            Err(e) => {
                h.case("deserialize", format!("{:?}", g), true, || Err(e));
                continue;
            }
        };
        let raw = if g.rules.iter().any(|x| has_pred(&x.body)) { None } else { Some(build(open.as_ref().unwrap_or(&g)).raw) };
        for _ in 0..10 {
            let t = if round <= 2 { long_input(&mut r, 300) } else { input(&mut r, &g, 10) };
            let preds: Vec<bool> = (0..3).map(|_| r.chance(1, 2)).chain([true]).collect();
            let mut b = Bt::new(&g, &t);
            b.preds = preds.clone();
            let want = match b.parse() {
                Ok(w) => w,
                Err(_) => continue,
            };
            if open.is_some() && want.is_none() {
                continue;
            }
            h.case(if open.is_some() { "predict-open" } else { "predict" }, format!("grammar {:?} input {:?} predicates {:?}", g.rules, t, preds), true, || {
                let toks = on0(&t);
                let run = parse(&env, &toks, &RunOpt { preds: preds.clone(), ..RunOpt::default() });
                for p in &run.preds {
                    ensure_eq!(p.after, p.at, "position after prediction of decision {}", p.decision);
                    ensure_eq!(p.leaked, 0, "marks left on the stream by prediction of decision {} (result {:?})", p.decision, p.res);
                }
                if let Some(raw) = &raw {
                    // prediction does not fail where an alternative ends its rule exactly where the failure is noticed
                    for p in run.preds.iter().filter(|p| p.res.is_err() && !p.full && p.at >= 0 && p.err_tok >= p.at) {
                        let mut e = Ends { raw, t: t.iter().map(|x| *x as i32).collect(), max: g.max_token, memo: HashMap::new(), left: 5000 };
                        let d = raw.decisions[p.decision];
                        let alts: Vec<usize> = raw.edges.iter().filter(|e| e[0] == d).map(|e| e[1] as usize).collect();
                        for (k, a) in alts.iter().enumerate() {
                            ensure!(!e.from(*a, p.at as usize).contains(&(p.err_tok as usize)), "decision {} at {} failed at {}, where alternative {} ends its rule", p.decision, p.at, p.err_tok, k + 1);
                        }
                    }
                }
                ensure!(run.strayed.is_empty(), "predicates asked at another position than the decision's: {:?}", run.strayed);
                match &want {
                    Some(w) => {
                        ensure!(run.errs.is_empty(), "a sentence was rejected: {:?}", run.errs);
                        let got = run.tree.as_ref().map(|x| x.shape()).unwrap_or_default();
                        let mut want = w.shape(&toks);
                        if open.is_some() {
                            want = if want == "(r0 EOF)" { "(r0 )".to_string() } else { want.replacen(" EOF)", ")", 1) };
                        }
                        ensure_eq!(got, want, "derivation (lowest viable alternative first)");
                    }
                    None => ensure!(!run.errs.is_empty(), "not a sentence, but no error reported"),
                }
                Ok(())
            });
        }
    }
    h.finish();
}
