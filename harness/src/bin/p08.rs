//! P08: commands, custom actions and modes against an AST-level oracle.
use harness::gram::*;
use harness::lexdrv::*;
use harness::*;
use std::collections::HashMap;

fn main() {
    let mut h = H::new("random lexer grammars with custom actions inside rules, trailing commands and up to 3 modes x random texts; caches shared between texts; oracle: actions on the highest-priority path of the longest match, executed on a model of the mode stack");
    let mut r = h.rng(8);
    // fixed shapes: actions that differ only in position or number must not be mixed up
    let a = |c: char| E::Atom(c as i32);
    let mut fixed = vec![];
    fixed.push(E::Seq(vec![E::Alt(vec![E::Seq(vec![a('a'), E::Act(0)]), E::Seq(vec![a('b'), E::Act(1)])]), a('c')]));
    fixed.push(E::Seq(vec![E::Alt(vec![a('a'), E::Seq(vec![a('b'), a('b')])]), E::Act(0), a('c')]));
    fixed.push(E::Seq(vec![E::Plus(Box::new(E::Alt(vec![E::Seq(vec![a('a'), E::Act(0)]), E::Seq(vec![a('b'), E::Act(1)])])), true), a('c')]));
    let over0: HashMap<isize, Over> = HashMap::new();
    for (k, body) in fixed.iter().enumerate() {
        let g = Gram {
            lexer: true,
            rules: vec![Rule { body: body.clone(), token: 1, mode: 0, leftrec: false }],
            modes: 1,
            max_token: 30,
            actions: vec![(CUSTOM, 0, 0), (CUSTOM, 0, 1)],
        };
        let env = LexEnv::new(&build(&g).raw);
        for t in ["acbc", "bcac", "bbcac", "acbbc", "abcbac", "babcabc", "aabbc"] {
            h.case("fixed", format!("fixed grammar {} {:?} text {:?}", k, g.rules, t), true, || {
                let got = run_full(&env, t, &[], &over0, 1);
                diff(&got, &Oracle::new(&g, t, &[], &over0).run(1))
            });
        }
    }
    long_cases(&mut h, &mut r);
    while h.more() && (h.thorough || h.cases < 12_000) {
        let o = GenOpt { actions: r.chance(3, 4), preds: 0, modes: 3, nongreedy: r.chance(1, 4), recursion: false };
        let g = lexer(&mut r, &o);
        if !usable(&g) {
            continue;
        }
        let mut over: HashMap<isize, Over> = HashMap::new();
        if r.chance(1, 3) {
            over.insert(0, Over::Text("T".into()));
            over.insert(5, Over::Type(25));
            over.insert(11, Over::Text("é".into()));
        }
        if r.chance(1, 6) {
            over.insert(r.below(2) as isize, Over::Token(40));
        }
        let b = build(&g);
        let env = match guard(|| LexEnv::new(&b.raw)) {
            Ok(e) => e,
            Err(e) => {
                h.case("deserialize", format!("{:?}", g), true, || Err(e));
                continue;
            }
        };
        for _ in 0..10 {
            let t = text(&mut r, 9);
            h.case("lex", format!("grammar {:?} actions {:?} overrides {:?} text {:?}", g.rules, g.actions, over, t), true, || {
                let got = run_full(&env, &t, &[], &over, 1);
                let want = Oracle::new(&g, &t, &[], &over).run(1);
                diff(&got, &want)
            });
        }
    }
    h.finish();
}
