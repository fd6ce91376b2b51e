//! P06: longest match / first rule / tiling against an AST-level oracle.
use harness::gram::*;
use harness::lexdrv::*;
use harness::*;
use std::collections::HashMap;

fn main() {
    let mut h = H::new("random lexer grammars (alternation, loops, fragments, recursion, non-greedy tails) x random texts over {a,b,c,newline,e-acute,emoji}; shared caches; oracle: set of match ends per rule computed on the grammar");
    let mut r = h.rng(6);
    let none = HashMap::new();
    long_cases(&mut h, &mut r);
    while h.more() && (h.thorough || h.cases < 12_000) {
        let o = GenOpt { actions: false, preds: 0, modes: 1, nongreedy: r.chance(1, 2), recursion: true };
        let g = lexer(&mut r, &o);
        let b = build(&g);
        let env = match guard(|| LexEnv::new(&b.raw)) {
            Ok(e) => e,
            Err(e) => {
                h.case("deserialize", format!("{:?}", g), true, || Err(e));
                continue;
            }
        };
        for _ in 0..12 {
            let t = text(&mut r, 9);
            h.case("lex", format!("grammar {:?} text {:?}", g.rules, t), true, || {
                let got = run_full(&env, &t, &[], &none, 2);
                let want = Oracle::new(&g, &t, &[], &none).run(2);
                diff(&got, &want)
            });
        }
    }
    h.finish();
}
