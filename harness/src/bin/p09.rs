//! P09: results with cold, warm and concurrently filled caches.
use harness::gram::*;
use harness::lexdrv;
use harness::lexdrv::{LexEnv, Outcome, Over, PredF};
use harness::parsedrv::*;
use harness::*;
use std::collections::HashMap;

fn lex(env: &LexEnv, t: &str, preds: &[PredF]) -> Result<Outcome, String> {
    let none: HashMap<isize, Over> = HashMap::new();
    guard(|| lexdrv::run_full(env, t, preds, &none, 1))
}
fn par(env: &PEnv, t: &[isize], o: &RunOpt) -> Result<PRun, String> {
    guard(|| parse(env, &on0(t), o))
}
fn refs(e: &E) -> usize {
    match e {
        E::Ref(..) => 1,
        E::Seq(v) | E::Alt(v) => v.iter().map(refs).sum(),
        E::Opt(b, _) | E::Star(b, _) | E::Plus(b, _) => 2 * refs(b),
        _ => 0,
    }
}
fn order(r: &mut Rng, n: usize) -> Vec<usize> {
    (0..2 * n).map(|_| r.below(n)).collect()
}
fn what<T: std::fmt::Debug>(x: &T) -> String {
    let s = format!("{:?}", x);
    s.chars().take(700).collect()
}

/// every job alone on an empty cache against the same jobs sharing one cache, one after another and from several threads
fn compare<J: Sync + Send, E: Sync, T: PartialEq + std::fmt::Debug + Send + Sync>(r: &mut Rng, jobs: &[J], fresh: &dyn Fn() -> E, run: &(dyn Fn(&E, &J) -> T + Sync), threads: usize) -> Result<(), String> {
    let cold: Vec<T> = jobs.iter().map(|j| run(&fresh(), j)).collect();
    let env = fresh();
    for k in order(r, jobs.len()) {
        let got = run(&env, &jobs[k]);
        if got != cold[k] {
            return Err(format!("job {}: with a warm cache {} but with an empty one {}", k, what(&got), what(&cold[k])));
        }
    }
    if threads > 0 {
        let env = fresh();
        let ords: Vec<Vec<usize>> = (0..threads).map(|_| order(r, jobs.len())).collect();
        let res: Vec<Result<(), String>> = std::thread::scope(|s| {
            let hs: Vec<_> = ords
                .iter()
                .map(|o| {
                    let (env, cold) = (&env, &cold);
                    s.spawn(move || {
                        for &k in o {
                            let got = run(env, &jobs[k]);
                            if got != cold[k] {
                                return Err(format!("job {}: with a cache filled by other threads {} but with an empty one {}", k, what(&got), what(&cold[k])));
                            }
                        }
                        Ok(())
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread died".into()))).collect()
        });
        for x in res {
            x?;
        }
    }
    Ok(())
}

fn main() {
    let mut h = H::new("random lexer and parser grammars (modes, actions, predicates with outcomes that differ from run to run, recursion, left recursion) x sequences of inputs; each input on an empty cache against the same inputs in random order sharing one cache, and against 3 threads sharing one cache");
    let mut r = h.rng(9);
    // dead ends: whether a path left the decision rule must not be forgotten by the cache
    for (k, star) in [(0, true), (1, false)] {
        let rule = |body: E| Rule { body, token: 0, mode: 0, leftrec: false };
        let lst = E::Ref(1, 0);
        let g = Gram {
            lexer: false,
            rules: vec![
                rule(E::Seq(vec![if star { E::Star(Box::new(lst), true) } else { E::Plus(Box::new(lst), true) }, E::Atom(3), E::Eof])),
                rule(E::Ref(2, 0)),
                rule(E::Plus(Box::new(E::Alt(vec![E::Atom(3), E::Seq(vec![E::Atom(1), E::Atom(1), E::Any])])), true)),
            ],
            modes: 0,
            max_token: 3,
            actions: vec![],
        };
        let env = PEnv::new(&g);
        let mut jobs: Vec<Vec<isize>> = vec![vec![]];
        for n in 1..=4usize {
            for m in 0..1 << n {
                jobs.push((0..n).map(|i| if m >> i & 1 == 1 { 3 } else { 1 }).collect());
            }
        }
        for _ in 0..8 {
            h.case("dead-end", format!("grammar {} {:?}, all inputs over A, C up to 4 tokens", k, g.rules), true, || compare(&mut r, &jobs, &|| env.fresh(), &|e: &PEnv, j: &Vec<isize>| par(e, j, &RunOpt::default()), 0));
        }
    }
    while h.more() && (h.thorough || h.cases < 8_000) {
        let threads = if r.chance(1, 4) { 3 } else { 0 };
        if r.chance(2, 5) {
            let o = lexdrv::GenOpt { actions: r.chance(1, 2), preds: if r.chance(1, 3) { 2 } else { 0 }, modes: 1 + r.below(3), nongreedy: r.chance(1, 2), recursion: r.chance(1, 2) };
            let g = lexdrv::lexer(&mut r, &o);
            if !lexdrv::usable(&g) {
                continue;
            }
            let b = build(&g);
            let env = match guard(|| LexEnv::new(&b.raw)) {
                Ok(e) => e,
                Err(_) => continue,
            };
            let jobs: Vec<(String, Vec<PredF>)> = (0..6)
                .map(|_| {
                    let p = (0..2).map(|_| if r.chance(1, 2) { PredF::Const(r.chance(1, 2)) } else { PredF::ColEven }).collect();
                    (lexdrv::text(&mut r, 9), p)
                })
                .collect();
            h.case("lexer", format!("grammar {:?} actions {:?} inputs {:?} threads {}", g.rules, g.actions, jobs, threads), true, || compare(&mut r, &jobs, &|| env.fresh(), &|e: &LexEnv, j: &(String, Vec<PredF>)| lex(e, &j.0, &j.1), threads));
        } else {
            let o = PGen { leftrec: r.chance(1, 2), preds: if r.chance(1, 3) { 2 } else { 0 }, nongreedy: r.chance(1, 4), wild: r.chance(1, 2), ntok: 3 + r.below(3) as i32 };
            let g = parser_gram(&mut r, &o);
            // prediction is exponential on wildly ambiguous grammars
            if g.rules.iter().any(|x| !x.leftrec && refs(&x.body) > 3) {
                continue;
            }
            let env = match guard(|| PEnv::new(&g)) {
                Ok(e) => e,
                Err(_) => continue,
            };
            let mut jobs: Vec<(Vec<isize>, RunOpt)> = vec![];
            for _ in 0..8 {
                let preds: Vec<bool> = (0..2).map(|_| r.chance(1, 2)).collect();
                let t = input(&mut r, &g, 8);
                let mut b = Bt::new(&g, &t);
                b.preds = preds.clone();
                if b.parse().is_err() {
                    continue;
                }
                jobs.push((t, RunOpt { preds, bail: r.chance(1, 4), ..RunOpt::default() }));
            }
            if jobs.is_empty() {
                continue;
            }
            let desc = jobs.iter().map(|j| format!("{:?} predicates {:?} bail {}", j.0, j.1.preds, j.1.bail)).collect::<Vec<_>>().join("; ");
            h.case("parser", format!("grammar {:?} inputs {} threads {}", g.rules, desc, threads), true, || compare(&mut r, &jobs, &|| env.fresh(), &|e: &PEnv, j: &(Vec<isize>, RunOpt)| par(e, &j.0, &j.1), threads));
        }
    }
    h.finish();
}
