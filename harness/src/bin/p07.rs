//! P07: line and column of every token, with predicates that observe positions during speculation.
use antlr_rust::lexer_atn_simulator::{ILexerATNSimulator, LexerATNSimulator};
use harness::gram::*;
use harness::lexdrv::*;
use harness::*;
use std::collections::HashMap;

fn main() {
    let mut h = H::new("random lexer grammars with position-reading predicates (evaluated speculatively), more/skip and errors x random multi-line texts; oracle: line feeds and characters counted in the text");
    let mut r = h.rng(7);
    let none = HashMap::new();
    // the simulator's position setters
    for (l, c) in [(1isize, 0isize), (5, 7), (123, 4)] {
        h.case("set", format!("set_line({}) set_char_position_in_line({})", l, c), true, || {
            let g = Gram { lexer: true, rules: vec![Rule { body: E::Atom('a' as i32), token: 1, mode: 0, leftrec: false }], modes: 1, max_token: 1, actions: vec![] };
            let env = LexEnv::new(&build(&g).raw);
            let mut s = LexerATNSimulator::new_lexer_atnsimulator(env.atn.clone(), env.dfas.clone(), env.cache.clone());
            s.set_line(l);
            s.set_char_position_in_line(c);
            ensure_eq!((s.get_line(), s.get_char_position_in_line()), (l, c), "line, column");
            s.set_line(l + 1);
            ensure_eq!((s.get_line(), s.get_char_position_in_line()), (l + 1, c), "line, column after set_line");
            Ok(())
        });
    }
    long_cases(&mut h, &mut r);
    while h.more() && (h.thorough || h.cases < 12_000) {
        let np = if r.chance(2, 3) { 2 } else { 0 };
        let o = GenOpt { actions: false, preds: np, modes: if r.chance(1, 2) { 2 } else { 1 }, nongreedy: r.chance(1, 3), recursion: true };
        let g = lexer(&mut r, &o);
        if !usable(&g) {
            continue;
        }
        let b = build(&g);
        let env = match guard(|| LexEnv::new(&b.raw)) {
            Ok(e) => e,
            Err(e) => {
                h.case("deserialize", format!("{:?}", g), true, || Err(e));
                continue;
            }
        };
        for _ in 0..10 {
            let t = {
                let n = r.below(10);
                (0..n).map(|_| *r.pick(&['a', 'b', '\n', 'c', '\n', 'é', '\r'])).collect::<String>()
            };
            let preds: Vec<PredF> = (0..np)
                .map(|_| match r.below(4) {
                    0 => PredF::Const(r.chance(1, 2)),
                    1 => PredF::ColEven,
                    2 => PredF::ColLt(r.range(0, 3)),
                    _ => PredF::LineOdd,
                })
                .collect();
            // predicates may answer differently on every text: nothing that depends on them may be cached
            h.case("lex", format!("grammar {:?} actions {:?} preds {:?} text {:?}", g.rules, g.actions, preds, t), true, || {
                let got = run_full(&env, &t, &preds, &none, 1);
                let want = Oracle::new(&g, &t, &preds, &none).run(1);
                diff(&got, &want)
            });
        }
    }
    h.finish();
}
