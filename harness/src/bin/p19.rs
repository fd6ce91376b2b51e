//! P19: recovery terminates, reports once and resynchronizes.
use harness::parsedrv::*;
use harness::gram::{Rule, E};
use harness::*;

fn main() {
    let mut h = H::new("random parser grammars (nested blocks, loops, recursion, left recursion with precedence, sets) x sentences, damaged sentences and noise, default and bail strategy; oracle: language membership and the first token no sentence can have there, from an independent backtracking parser; trace of reports and leaves");
    let mut r = h.rng(19);
    // a repair that makes up tokens without ever consuming one
    {
        let mk = |body| Rule { body, token: 0, mode: 0, leftrec: false };
        let mut g = parser_gram(&mut r, &PGen { leftrec: false, preds: 0, nongreedy: false, wild: false, ntok: 4 });
        g.rules = vec![
            mk(E::Seq(vec![E::Ref(1, 0), E::Plus(Box::new(E::Seq(vec![E::Ref(1, 0), E::Atom(2)])), true), E::Eof])),
            mk(E::Alt(vec![E::Star(Box::new(E::Atom(4)), true), E::Not(vec![(3, 3)]), E::Atom(3)])),
        ];
        let env = PEnv::new(&g);
        for n in 0..256usize {
            let t: Vec<isize> = (0..n % 5).map(|k| 1 + ((n / 5) >> (2 * k) & 3) as isize).collect();
            h.case("insertion-loop", format!("grammar {:?} tokens {:?}", g.rules, t), true, || {
                let run = guard(|| parse(&env, &on0(&t), &RunOpt::default()))?;
                ensure!(!run.failed && run.index == t.len() as isize, "stopped at {}", run.index);
                Ok(())
            });
        }
    }
    while h.more() && (h.thorough || h.cases < 60_000) {
        let o = PGen { leftrec: r.chance(1, 2), preds: 0, nongreedy: false, wild: r.chance(1, 2), ntok: 3 + r.below(3) as i32 };
        let g = parser_gram(&mut r, &o);
        let env = match guard(|| PEnv::new(&g)) {
            Ok(e) => e,
            Err(_) => continue,
        };
        for _ in 0..8 {
            let t = input(&mut r, &g, 10);
            let bad = match Bt::first_bad(&g, &t, &[]) {
                Ok(w) => w,
                Err(_) => continue,
            };
            let toks = on0(&t);
            let n = t.len() as isize;
            h.case("recover", format!("grammar {:?} tokens {:?}", g.rules, t), bad.is_some(), || {
                let run = guard(|| parse(&env, &toks, &RunOpt { listener: true, trace: true, ..Default::default() }))?;
                ensure!(!run.failed, "the default strategy gave up");
                ensure!(run.errs.is_empty() == bad.is_none(), "{} errors reported, first impossible token {:?}", run.errs.len(), bad);
                let e = match (run.errs.first(), bad) {
                    (Some(e), Some(b)) => {
                        let b = b as isize;
                        // a failed prediction may fall back to leaving the rule, which is then blamed for what follows;
                        // when every precedence predicate fails the first token of the decision is blamed
                        let lr = g.rules.iter().any(|r| r.leftrec);
                        if !e.msg.starts_with("no viable") {
                            ensure!(e.tok <= b, "first error reported at token {} ({}), but token {} cannot come", e.tok, e.msg, b);
                        } else if !lr && run.preds.first().map_or(false, |p| p.res.is_err()) {
                            ensure!(e.tok >= b, "error reported at token {} ({}), but the input is fine up to {}", e.tok, e.msg, b);
                        }
                        true
                    }
                    _ => false,
                };
                // leaves: tokens in order, none twice
                let mut k = 0;
                let mut eof = false;
                let mut armed = true; // a report is allowed
                let mut reports = 0; // index into errs
                let mut unwanted = false; // the last report may be repaired by removing one token
                for x in &run.events {
                    match x {
                        Ev::Report(i) => {
                            ensure!(armed, "second report (token {}) although nothing was matched since the last one: {:?}", i, run.events);
                            armed = false;
                            unwanted = run.errs.get(reports).map_or(false, |e| e.msg.starts_with("extraneous"));
                            reports += 1;
                        }
                        Ev::Term(-1, i) | Ev::Error(-1, i) => {
                            ensure_eq!(*i, n, "end of input leaf");
                            eof = true;
                            armed = true;
                        }
                        Ev::Term(_, i) => {
                            ensure!(!eof, "a token after the end of input");
                            ensure_eq!(*i, k, "tokens are consumed in order, once");
                            k += 1;
                            armed = true;
                        }
                        Ev::Error(_, i) => {
                            ensure!(e, "error leaf without an error");
                            ensure_eq!(*i, k, "tokens are consumed in order, once");
                            k += 1;
                            armed |= std::mem::take(&mut unwanted);
                        }
                        _ => {}
                    }
                }
                ensure_eq!(k, run.index, "tokens consumed");
                // bail: stops at the first error
                let b = guard(|| parse(&env, &toks, &RunOpt { bail: true, listener: true, trace: true, ..Default::default() }))?;
                ensure_eq!(b.failed, bad.is_some(), "bail strategy gave up");
                if let Some(v) = bad {
                    ensure!(b.index <= v as isize, "bail strategy consumed {} tokens, but token {} cannot come", b.index, v);
                    let nt = b.events.iter().filter(|x| matches!(x, Ev::Term(..) | Ev::Error(..))).count();
                    ensure_eq!(nt as isize, b.index, "leaves under the bail strategy");
                    ensure!(!b.events.iter().any(|x| matches!(x, Ev::Error(..))), "bail strategy repaired the input: {:?}", b.events);
                    let rep = b.events.iter().position(|x| matches!(x, Ev::Report(_)));
                    if let Some(p) = rep {
                        ensure!(!b.events[p + 1..].iter().any(|x| matches!(x, Ev::Term(..) | Ev::Report(_))), "bail strategy went on after an error: {:?}", b.events);
                    }
                } else {
                    ensure_eq!(b.events, run.events, "events of a correct parse under both strategies");
                }
                Ok(())
            });
        }
    }
    h.finish();
}
