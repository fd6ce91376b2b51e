//! P15: deserialization yields what was serialized.
use antlr_rust::atn::ATN;
use antlr_rust::atn_deserializer::ATNDeserializer;
use antlr_rust::atn_state::*;
use antlr_rust::semantic_context::SemanticContext;
use antlr_rust::transition as tr;
use antlr_rust::transition::{Transition, TransitionType as TT};
use harness::gram::*;
use harness::lexdrv::{lexer, GenOpt};
use harness::parsedrv::{parser_gram, PGen};
use harness::*;
use std::collections::BTreeMap;

type Iv = Vec<(i64, i64)>;
fn norm(mut v: Iv) -> Iv {
    v.retain(|x| x.0 <= x.1);
    v.sort();
    let mut o: Iv = vec![];
    for x in v {
        match o.last_mut() {
            Some(l) if x.0 <= l.1 + 1 => l.1 = l.1.max(x.1),
            _ => o.push(x),
        }
    }
    o
}
/// one outgoing edge, in terms of what it means
#[derive(Clone, Debug, PartialEq)]
enum Edge {
    Eps(usize, Option<i64>),
    Tok(usize, u8, Iv),
    Rule(usize, usize, i64, i64),
    Pred(usize, i64, i64, bool),
    Act(usize, i64, i64, bool),
    Prec(usize, i64),
    Any(usize),
}
fn label(t: &dyn Trans) -> Iv {
    let s = t.get_label().unwrap();
    let s = s.into_owned();
    // the set's own text is the only public listing of its ranges; probe the borders of what was encoded instead
    let f = format!("{:?}", s);
    // IntervalSet { intervals: [Interval { a: 1, b: 2 }, ..], read_only: .. }
    let mut o = vec![];
    let mut it = f.split("a: ");
    it.next();
    for p in it {
        let a: i64 = p.split(',').next().unwrap().trim().parse().unwrap();
        let b: i64 = p.split("b: ").nth(1).unwrap().split(|c: char| !(c.is_ascii_digit() || c == '-')).next().unwrap().parse().unwrap();
        o.push((a, b));
    }
    norm(o)
}
use Transition as Trans;
fn seen(t: &Box<dyn Transition>, stop: bool) -> Edge {
    let d = t.as_ref();
    let g = d.get_target();
    match d.get_serialization_type() {
        TT::TRANSITION_EPSILON => Edge::Eps(g, if stop { Some(d.cast::<tr::EpsilonTransition>().outermost_precedence_return as i64) } else { None }),
        TT::TRANSITION_RANGE => {
            let x = d.cast::<tr::RangeTransition>();
            Edge::Tok(g, 2, norm(vec![(x.start as i64, x.stop as i64)]))
        }
        TT::TRANSITION_ATOM => {
            let x = d.cast::<tr::AtomTransition>();
            Edge::Tok(g, 5, vec![(x.label as i64, x.label as i64)])
        }
        TT::TRANSITION_SET => Edge::Tok(g, 7, label(d)),
        TT::TRANSITION_NOTSET => Edge::Tok(g, 8, label(d)),
        TT::TRANSITION_RULE => {
            let x = d.cast::<tr::RuleTransition>();
            Edge::Rule(g, x.follow_state, x.rule_index as i64, x.precedence as i64)
        }
        TT::TRANSITION_PREDICATE => {
            let x = d.cast::<tr::PredicateTransition>();
            match d.get_predicate() {
                Some(SemanticContext::Predicate { rule_index, pred_index, is_ctx_dependent }) if (rule_index, pred_index, is_ctx_dependent) == (x.rule_index, x.pred_index, x.is_ctx_dependent) => {}
                o => panic!("predicate of {:?} is {:?}", x, o),
            }
            Edge::Pred(g, x.rule_index as i64, x.pred_index as i64, x.is_ctx_dependent)
        }
        TT::TRANSITION_ACTION => {
            let x = d.cast::<tr::ActionTransition>();
            Edge::Act(g, x.rule_index as i64, x.action_index as i64, x.is_ctx_dependent)
        }
        TT::TRANSITION_PRECEDENCE => {
            let x = d.cast::<tr::PrecedencePredicateTransition>();
            match d.get_predicate() {
                Some(SemanticContext::Precedence(p)) if p == x.precedence => {}
                o => panic!("predicate of {:?} is {:?}", x, o),
            }
            Edge::Prec(g, x.precedence as i64)
        }
        TT::TRANSITION_WILDCARD => Edge::Any(g),
    }
}
/// what was encoded
fn meant(raw: &Raw, e: &[i32; 6]) -> Edge {
    let t = e[1] as usize;
    let (a1, a2, a3) = (e[3] as i64, e[4] as i64, e[5]);
    let set = || {
        let k = e[3] as usize;
        let (eof, iv) = if k < raw.sets.len() { &raw.sets[k] } else { &raw.sets32[k - raw.sets.len()] };
        let mut v: Iv = iv.iter().map(|x| (x.0 as i64, x.1 as i64)).collect();
        if *eof {
            v.push((-1, -1));
        }
        norm(v)
    };
    match e[2] {
        T_EPS => Edge::Eps(t, None),
        T_RANGE => Edge::Tok(t, 2, norm(vec![(if a3 != 0 { -1 } else { a1 }, a2)])),
        T_RULE => Edge::Rule(a1 as usize, t, a2, a3 as i64),
        T_PRED => Edge::Pred(t, a1, a2, a3 != 0),
        T_ATOM => Edge::Tok(t, 5, vec![if a3 != 0 { (-1, -1) } else { (a1, a1) }]),
        T_ACT => Edge::Act(t, a1, a2, a3 != 0),
        T_SET => Edge::Tok(t, 7, set()),
        T_NOT => Edge::Tok(t, 8, set()),
        T_ANY => Edge::Any(t),
        _ => Edge::Prec(t, a1),
    }
}

fn tgt(e: &Edge) -> usize {
    match e {
        Edge::Eps(t, _) | Edge::Tok(t, ..) | Edge::Rule(t, ..) | Edge::Pred(t, ..) | Edge::Act(t, ..) | Edge::Prec(t, _) | Edge::Any(t) => *t,
    }
}
fn check(raw: &Raw, atn: &ATN) -> Result<(), String> {
    let n = raw.states.len();
    ensure_eq!(atn.states.len(), n, "number of states");
    ensure_eq!(atn.max_token_type, raw.max_token as isize, "largest token type");
    ensure_eq!(format!("{:?}", atn.grammar_type), if raw.lexer { "LEXER" } else { "PARSER" }, "kind of grammar");
    // rules
    let starts: Vec<usize> = raw.rules.iter().map(|x| x.0 as usize).collect();
    ensure_eq!(atn.rule_to_start_state, starts, "start states of the rules");
    if raw.lexer {
        let tt: Vec<isize> = raw.rules.iter().map(|x| if x.1 == 0xFFFF { -1 } else { x.1 as isize }).collect();
        ensure_eq!(atn.rule_to_token_type, tt, "token types of the rules");
    }
    let mut stops = vec![0; raw.rules.len()];
    for (i, s) in raw.states.iter().enumerate() {
        if s.0 == 7 {
            stops[s.1 as usize] = i;
        }
    }
    ensure_eq!(atn.rule_to_stop_state, stops, "stop states of the rules");
    ensure_eq!(atn.mode_to_start_state, raw.modes.iter().map(|x| *x as usize).collect::<Vec<_>>(), "modes");
    ensure_eq!(atn.decision_to_state, raw.decisions.iter().map(|x| *x as usize).collect::<Vec<_>>(), "decisions");
    let decision: BTreeMap<usize, usize> = raw.decisions.iter().enumerate().map(|(d, s)| (*s as usize, d)).collect();
    // edges
    let mut edges: Vec<Vec<Edge>> = vec![vec![]; n];
    for e in &raw.edges {
        edges[e[0] as usize].push(meant(raw, e));
    }
    let lr = |rule: usize| raw.leftrec.contains(&(starts[rule] as i32));
    let mut back = vec![];
    for s in 0..n {
        for e in &edges[s] {
            if let Edge::Rule(t, f, _, p) = e {
                let rule = raw.states[*t].1 as usize;
                back.push((stops[rule], Edge::Eps(*f, Some(if lr(rule) && *p == 0 { rule as i64 } else { -1 }))));
            }
        }
    }
    for (s, e) in back {
        if !edges[s].contains(&e) {
            edges[s].push(e);
        }
    }
    for s in 0..n {
        let st = atn.states[s].as_ref();
        let (kind, rule, x) = raw.states[s];
        let got: Vec<Edge> = st.get_transitions().iter().map(|t| seen(t, kind == 7)).collect();
        ensure_eq!(got, edges[s], "edges of state {}", s);
        ensure_eq!(st.get_state_number(), s, "number of the state");
        ensure_eq!(st.get_state_type_id(), kind as isize, "type of state {}", s);
        if rule >= 0 {
            ensure_eq!(st.get_rule_index(), rule as usize, "rule of state {}", s);
        }
        let eps = |e: &Edge| !matches!(e, Edge::Tok(..) | Edge::Any(..));
        if !edges[s].is_empty() {
            ensure_eq!(st.has_epsilon_only_transitions(), edges[s].iter().all(eps), "only epsilon transitions leave state {}", s);
        }
        let dec = decision.get(&s).map(|x| *x as isize).unwrap_or(-1);
        let ng = raw.nongreedy.contains(&(s as i32));
        let x = x.unwrap_or(0) as usize;
        let ds = |d: ATNDecisionState| ATNStateType::DecisionState { decision: dec, nongreedy: ng, state: d };
        let want = match kind {
            1 => ATNStateType::BasicState,
            2 => ATNStateType::RuleStartState { stop_state: stops[rule as usize], is_left_recursive: raw.leftrec.contains(&(s as i32)) },
            3 => ds(ATNDecisionState::BlockStartState { end_state: x, en: ATNBlockStart::BasicBlockStart }),
            4 => ds(ATNDecisionState::BlockStartState { end_state: x, en: ATNBlockStart::PlusBlockStart(0) }),
            5 => ds(ATNDecisionState::BlockStartState { end_state: x, en: ATNBlockStart::StarBlockStart }),
            6 => ds(ATNDecisionState::TokenStartState),
            7 => ATNStateType::RuleStopState,
            8 => ATNStateType::BlockEndState(0),
            9 => ATNStateType::StarLoopbackState,
            10 => {
                let end = edges[s].last().map(tgt);
                let main = rule >= 0 && lr(rule as usize)
                    && end.map_or(false, |e| {
                        raw.states[e].0 == 12 && edges[e].iter().all(eps) && edges[e].first().map_or(false, |f| raw.states[tgt(f)].0 == 7)
                    });
                ds(ATNDecisionState::StarLoopEntry { loop_back_state: 0, is_precedence: main })
            }
            11 => ds(ATNDecisionState::PlusLoopBack),
            _ => ATNStateType::LoopEndState(x),
        };
        if st.get_state_type() != &want {
            return Err(format!("state {}: {:?} instead of {:?}", s, st.get_state_type(), want));
        }
    }
    if raw.lexer {
        let neg = |x: i32| if x == 0xFFFF { -1 } else { x };
        let want: Vec<String> = raw
            .actions
            .iter()
            .map(|(t, a, b)| match t {
                0 => format!("LexerChannelAction({})", neg(*a)),
                1 => format!("LexerCustomAction {{ rule_index: {}, action_index: {} }}", neg(*a), neg(*b)),
                2 => format!("LexerModeAction({})", neg(*a)),
                3 => "LexerMoreAction".into(),
                4 => "LexerPopModeAction".into(),
                5 => format!("LexerPushModeAction({})", neg(*a)),
                6 => "LexerSkipAction".into(),
                _ => format!("LexerTypeAction({})", neg(*a)),
            })
            .collect();
        ensure_eq!(antlr_rust::verif::lexer_actions(atn), want, "lexer actions");
    }
    Ok(())
}

fn val(r: &mut Rng, wide: bool) -> i32 {
    match r.below(8) {
        0 => 0xFFFF,
        1 => 0xFFFE,
        2 => 0xD7FE + r.below(0x804) as i32,
        3 => 0xFFF0 + r.below(13) as i32,
        4 if wide => 0x10FFFF - r.below(3) as i32,
        5 if wide => 0x10000 + r.below(0x20000) as i32,
        _ => 1 + r.below(300) as i32,
    }
}
/// a number that fits a word
fn num(r: &mut Rng) -> i32 {
    if r.chance(1, 5) {
        *r.pick(&[0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xD800, 0xFFFC])
    } else {
        r.below(9) as i32
    }
}
/// any well-formed automaton, not only what a grammar would give
fn synthetic(r: &mut Rng) -> Raw {
    let mut w = Raw { lexer: r.chance(1, 2), max_token: if r.chance(1, 10) { 1 + r.below(0xFFF0) as i32 } else { 1 + r.below(70) as i32 }, ..Raw::default() };
    let big = r.chance(1, 150);
    let nr = if big { 20 + r.below(280) } else { 1 + r.below(4) };
    let mut order: Vec<(i32, i32)> = vec![];
    for k in 0..nr {
        order.push((2, k as i32));
        order.push((7, k as i32));
    }
    for _ in 0..r.below(if big { 900 } else { 14 }) {
        let t = *r.pick(&[1, 3, 4, 5, 6, 8, 9, 10, 10, 11, 12]);
        order.push((t, if t == 6 { -1 } else { r.below(nr) as i32 }));
    }
    for i in (1..order.len()).rev() {
        let j = r.below(i + 1);
        order.swap(i, j);
    }
    let n = order.len();
    for (t, k) in &order {
        let x = if matches!(t, 3 | 4 | 5 | 12) { Some(r.below(n) as i32) } else { None };
        w.states.push((*t, *k, x));
    }
    let start: Vec<i32> = (0..nr).map(|k| order.iter().position(|s| *s == (2, k as i32)).unwrap() as i32).collect();
    for k in 0..nr {
        w.rules.push((start[k], if r.chance(1, 6) { 0xFFFF } else { 1 + num(r) }));
        if r.chance(1, 2) {
            w.leftrec.push(start[k]);
        }
    }
    for s in 0..n {
        if matches!(order[s].0, 3 | 4 | 5 | 6 | 10 | 11) {
            if r.chance(1, 3) {
                w.nongreedy.push(s as i32);
            }
            if r.chance(3, 4) {
                w.decisions.push(s as i32);
            }
        }
        if order[s].0 == 6 {
            w.modes.push(s as i32);
        }
    }
    for i in (1..w.decisions.len()).rev() {
        let j = r.below(i + 1);
        w.decisions.swap(i, j);
    }
    for _ in 0..r.below(if big { 300 } else { 4 }) {
        let iv = (0..r.below(4)).map(|_| { let (a, b) = (val(r, false), val(r, false)); (a.min(b), a.max(b)) }).collect();
        w.sets.push((r.chance(1, 3), iv));
    }
    for _ in 0..r.below(if big { 300 } else { 4 }) {
        let iv = (0..r.below(4)).map(|_| { let (a, b) = (val(r, true), val(r, true)); (a.min(b), a.max(b)) }).collect();
        w.sets32.push((r.chance(1, 3), iv));
    }
    let ns = w.sets.len() + w.sets32.len();
    let mut used: Vec<(i32, i32)> = vec![];
    for _ in 0..3 * n {
        let s = r.below(n);
        if order[s].0 == 7 {
            continue;
        }
        let t = r.below(n) as i32;
        let kind = 1 + r.below(10) as i32;
        let k = r.below(nr);
        // the automaton keeps one edge of a kind per pair of states
        let goal = if kind == T_RULE { start[k] } else { t };
        if used.contains(&(s as i32, goal)) {
            continue;
        }
        let a = match kind {
            T_RANGE => {
                let (a, b) = (val(r, false), val(r, false));
                let eof = r.chance(1, 5);
                [a.min(b), a.max(b), eof as i32]
            }
            T_RULE => {
                // a call returns to a state of its own
                if w.edges.iter().any(|e| e[2] == T_RULE && e[1] == t) {
                    continue;
                }
                [start[k], k as i32, if r.chance(1, 6) { num(r) } else { r.below(4) as i32 }]
            }
            T_PRED => [k as i32, num(r), r.below(2) as i32],
            T_ATOM => [val(r, false), 0, r.chance(1, 5) as i32],
            T_ACT => [k as i32, num(r), r.below(2) as i32],
            T_SET | T_NOT => {
                if ns == 0 {
                    continue;
                }
                [r.below(ns) as i32, 0, 0]
            }
            T_PREC => [1 + num(r), 0, 0],
            _ => [0, 0, 0],
        };
        used.push((s as i32, goal));
        w.edges.push([s as i32, t, kind, a[0], a[1], a[2]]);
    }
    // loops of left-recursive rules
    for s in 0..n {
        if order[s].0 == 10 && !w.edges.iter().any(|e| e[0] == s as i32) {
            let t = r.below(n) as i32;
            w.edges.push([s as i32, t, T_EPS, 0, 0, 0]);
        }
        if order[s].0 == 12 && !w.edges.iter().any(|e| e[0] == s as i32) {
            let stop = order.iter().position(|x| *x == (7, order[s].1)).unwrap();
            w.edges.push([s as i32, if r.chance(3, 4) { stop as i32 } else { r.below(n) as i32 }, T_EPS, 0, 0, 0]);
        }
    }
    // some entries leave through a loop end
    let ends: Vec<usize> = (0..n).filter(|s| order[*s].0 == 12).collect();
    for s in 0..n {
        if order[s].0 == 10 && !ends.is_empty() && r.chance(3, 4) {
            let e = *r.pick(&ends) as i32;
            if !w.edges.iter().any(|x| x[0] == s as i32 && x[1] == e) {
                w.edges.push([s as i32, e, T_EPS, 0, 0, 0]);
            }
        }
    }
    if w.lexer {
        for _ in 0..r.below(if big { 300 } else { 5 }) {
            let t = r.below(8) as i32;
            let v = |r: &mut Rng| if r.chance(1, 5) { 0xFFFF } else { num(r) };
            let (a, b) = (v(r), v(r));
            w.actions.push((t, a, if t == 1 { b } else { 0 }));
        }
    }
    w
}

fn main() {
    let mut h = H::new("random well-formed automata (all kinds of states and edges, 16-bit, surrogate, border and supplementary labels, all lexer actions) and the automata of random grammars, serialized by an independent encoder; every public part of the result is compared with what was encoded; wrong versions and identifiers");
    let mut r = h.rng(15);
    while h.more() && (h.thorough || h.cases < 30_000) {
        for _ in 0..20 {
            let w = synthetic(&mut r);
            h.case("synthetic", format!("{:?}", w), true, || {
                let s = w.serialize();
                let atn = guard(|| ATNDeserializer::new(None).deserialize(s.chars()))?;
                guard(|| check(&w, &atn))?
            });
        }
        let (g, lex) = if r.chance(1, 2) {
            (lexer(&mut r, &GenOpt { actions: true, preds: 2, modes: 2, nongreedy: true, recursion: true }), true)
        } else {
            let o = PGen { leftrec: true, preds: r.below(3), nongreedy: true, wild: true, ntok: 4 };
            (parser_gram(&mut r, &o), false)
        };
        let _ = lex;
        let w = build(&g).raw;
        h.case("grammar", format!("{:?}", g), true, || {
            let s = w.serialize();
            let atn = guard(|| ATNDeserializer::new(None).deserialize(s.chars()))?;
            guard(|| check(&w, &atn))?
        });
        let k = r.below(9);
        let d = 1 + r.below(0xF0) as u32;
        h.case("header", format!("unit {} changed by {}", k, d), true, || {
            let s: String = w
                .serialize()
                .chars()
                .enumerate()
                .map(|(i, c)| if i == k { char::from_u32(if c as u32 > 0x5000 { c as u32 - d } else { c as u32 + d }).unwrap_or('\u{5000}') } else { c })
                .collect();
            match guard(|| ATNDeserializer::new(None).deserialize(s.chars())) {
                Err(_) => Ok(()),
                Ok(_) => Err("accepted".into()),
            }
        });
    }
    h.finish();
}
