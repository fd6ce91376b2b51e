//! Runs the real lexer on a compiled grammar, and an AST-level oracle of what it must do.
use crate::gram::*;
use crate::Rng;
use antlr_rust::atn::ATN;
use antlr_rust::dfa::DFA;
use antlr_rust::error_listener::ErrorListener;
use antlr_rust::errors::ANTLRError;
use antlr_rust::input_stream::InputStream;
use antlr_rust::int_stream::IntStream;
use antlr_rust::lexer::{BaseLexer, Lexer, LexerRecog};
use antlr_rust::lexer_atn_simulator::LexerATNSimulator;
use antlr_rust::parser::ParserNodeType;
use antlr_rust::recognizer::{Actions, Recognizer};
use antlr_rust::token::Token;
use antlr_rust::token_factory::{CommonTokenFactory, TokenFactory};
use antlr_rust::{PredictionContextCache, RwLock, TokenSource};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::Arc;

pub const CHANNEL: i32 = 0;
pub const CUSTOM: i32 = 1;
pub const MODE: i32 = 2;
pub const MORE: i32 = 3;
pub const POP: i32 = 4;
pub const PUSH: i32 = 5;
pub const SKIP: i32 = 6;
pub const TYPE: i32 = 7;

/// what a predicate (by number) says, given line, column and the index of the position it sees
#[derive(Clone, Debug, PartialEq)]
pub enum PredF {
    Const(bool),
    ColEven,
    ColLt(isize),
    LineOdd,
}
impl PredF {
    pub fn eval(&self, line: isize, col: isize) -> bool {
        match self {
            PredF::Const(b) => *b,
            PredF::ColEven => col % 2 == 0,
            PredF::ColLt(k) => col < *k,
            PredF::LineOdd => line % 2 == 1,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Tok {
    pub ty: isize,
    pub ch: isize,
    pub start: isize,
    pub stop: isize,
    pub line: isize,
    pub col: isize,
    pub text: String,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Err {
    pub line: isize,
    pub col: isize,
    pub msg: String,
}
/// (rule, action index, position)
pub type ActLog = Vec<(isize, isize, isize)>;

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Outcome {
    pub toks: Vec<Tok>,
    pub errs: Vec<Err>,
    pub acts: ActLog,
    /// mode stack and mode after each token
    pub modes: Vec<(Vec<usize>, usize)>,
}

pub struct Rec {
    pub acts: Vec<(isize, isize, isize)>,
    pub preds: Vec<PredF>,
    /// custom actions that override something: action index -> override
    pub over: HashMap<isize, Over>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Over {
    Text(String),
    Type(isize),
    /// the action itself makes the token (type)
    Token(isize),
}

type L<'a> = BaseLexer<'a, Rec, InputStream<&'a str>, CommonTokenFactory>;

impl<'a> Actions<'a, L<'a>> for Rec {
    fn sempred(_l: Option<&<<L<'a> as Recognizer<'a>>::Node as ParserNodeType<'a>>::Type>, _r: isize, a: isize, recog: &mut L<'a>) -> bool {
        let (l, c) = (recog.get_line(), recog.get_char_position_in_line());
        let p = recog.preds[a as usize].clone();
        p.eval(l, c)
    }
    fn action(_l: Option<&<<L<'a> as Recognizer<'a>>::Node as ParserNodeType<'a>>::Type>, r: isize, a: isize, recog: &mut L<'a>) {
        let p = recog.get_char_index();
        recog.acts.push((r, a, p));
        let o = recog.over.get(&a).cloned();
        match o {
            Some(Over::Text(t)) => recog.set_text(t),
            Some(Over::Type(t)) => recog.set_type(t),
            Some(Over::Token(t)) => {
                let tf = recog.get_token_factory();
                let tok = tf.create(None::<&mut InputStream<&str>>, t, Some("own".to_string()), 7, 1, 2, 3, 4);
                recog.token = Some(tok);
            }
            None => {}
        }
    }
}
impl<'a> LexerRecog<'a, L<'a>> for Rec {}

struct Listen(Rc<RefCell<Vec<Err>>>);
impl<'a> ErrorListener<'a, L<'a>> for Listen {
    fn syntax_error(&self, _r: &L<'a>, _o: Option<&<CommonTokenFactory as TokenFactory<'a>>::Inner>, line: isize, column: isize, msg: &str, _e: Option<&ANTLRError>) {
        self.0.borrow_mut().push(Err { line, col: column, msg: msg.to_string() });
    }
}

#[derive(Clone)]
pub struct LexEnv {
    pub atn: Arc<ATN>,
    pub dfas: Arc<Vec<RwLock<DFA>>>,
    pub cache: Arc<PredictionContextCache>,
}
impl LexEnv {
    pub fn new(raw: &Raw) -> LexEnv {
        let atn = raw.atn();
        let dfas = dfas(&atn);
        LexEnv { atn, dfas, cache: Arc::new(PredictionContextCache::new()) }
    }
    pub fn fresh(&self) -> LexEnv {
        LexEnv { atn: self.atn.clone(), dfas: dfas(&self.atn), cache: Arc::new(PredictionContextCache::new()) }
    }
}

/// everything the real lexer does on `text`
pub fn run(env: &LexEnv, text: &str, preds: &[PredF], over: &HashMap<isize, Over>) -> Outcome {
    run_full(env, text, preds, over, 0)
}
/// `after_eof`: how many more tokens to request after the first end-of-input token
pub fn run_full(env: &LexEnv, text: &str, preds: &[PredF], over: &HashMap<isize, Over>, after_eof: usize) -> Outcome {
    let sim = LexerATNSimulator::new_lexer_atnsimulator(env.atn.clone(), env.dfas.clone(), env.cache.clone());
    let rec = Rec { acts: vec![], preds: preds.to_vec(), over: over.clone() };
    let tf: &CommonTokenFactory = <&CommonTokenFactory as Default>::default();
    let mut lx: L = BaseLexer::new_base_lexer(InputStream::new(text), sim, rec, tf);
    lx.remove_error_listeners();
    let errs = Rc::new(RefCell::new(vec![]));
    lx.add_error_listener(Box::new(Listen(errs.clone())));
    let mut o = Outcome::default();
    let mut left = after_eof;
    let limit = 4 * text.len() + 8;
    loop {
        let t = lx.next_token();
        let tt = t.get_token_type();
        o.toks.push(Tok {
            ty: tt,
            ch: t.get_channel(),
            start: t.get_start(),
            stop: t.get_stop(),
            line: t.get_line(),
            col: t.get_column(),
            text: t.get_text().to_string(),
        });
        o.modes.push((lx.mode_stack.clone(), lx.mode));
        if tt == -1 {
            if left == 0 {
                break;
            }
            left -= 1;
        }
        if o.toks.len() > limit {
            break;
        }
    }
    o.errs = errs.borrow().clone();
    o.acts = lx.acts.clone();
    o
}

// ---------------------------------------------------------------- oracle

/// executed lexer action number and the character position it sees
pub type Acts = Vec<(usize, usize)>;

pub struct Oracle<'g> {
    pub g: &'g Gram,
    pub preds: Vec<PredF>,
    pub over: HashMap<isize, Over>,
    text: Vec<char>,
    /// (rule, node ptr, pos) -> ends in priority order with the actions on the way
    memo: HashMap<(usize, usize, bool), Rc<Vec<(usize, Acts)>>>,
    reach: usize,
    line: Vec<isize>,
    col: Vec<isize>,
    off: Vec<isize>,
}

impl<'g> Oracle<'g> {
    pub fn new(g: &'g Gram, text: &str, preds: &[PredF], over: &HashMap<isize, Over>) -> Oracle<'g> {
        let t: Vec<char> = text.chars().collect();
        let (mut line, mut col, mut off) = (vec![1], vec![0], vec![0]);
        for (i, c) in t.iter().enumerate() {
            if *c == '\n' {
                line.push(line[i] + 1);
                col.push(0);
            } else {
                line.push(line[i]);
                col.push(col[i] + 1);
            }
            off.push(off[i] + c.len_utf8() as isize);
        }
        Oracle { g, preds: preds.to_vec(), over: over.clone(), text: t, memo: HashMap::new(), reach: 0, line, col, off }
    }
    fn ends(&mut self, e: &E, i: usize, top: bool) -> Rc<Vec<(usize, Acts)>> {
        let key = (e as *const E as usize, i, top);
        if let Some(r) = self.memo.get(&key) {
            return r.clone();
        }
        let mut out: Vec<(usize, Acts)> = vec![];
        fn put(out: &mut Vec<(usize, Acts)>, j: usize, a: Acts) {
            if !out.iter().any(|x| x.0 == j) {
                out.push((j, a));
            }
        }
        match e {
            E::Empty | E::PrecPred(_) => put(&mut out, i, vec![]),
            E::Act(a) => put(&mut out, i, if top { vec![(*a, i)] } else { vec![] }),
            E::Pred(p) => {
                if self.preds[*p].eval(self.line[i], self.col[i]) {
                    put(&mut out, i, vec![])
                }
            }
            E::Eof => {
                if i == self.text.len() {
                    put(&mut out, i, vec![])
                }
            }
            E::Atom(_) | E::Range(..) | E::Set(_) | E::Not(_) | E::Any => {
                // a symbol is awaited here: the match is alive at i
                self.reach = self.reach.max(i);
                if i < self.text.len() {
                    if denotes(e, self.text[i] as i32, 0, 0x10FFFF) {
                        put(&mut out, i + 1, vec![]);
                    }
                } else if denotes(e, -1, 0, 0x10FFFF) {
                    put(&mut out, i, vec![])
                }
            }
            E::Ref(r, _) => {
                let b: &'g E = &self.g.rules[*r].body;
                let x = self.ends(b, i, false);
                out = x.as_ref().clone();
            }
            E::Seq(v) => {
                let mut cur: Vec<(usize, Acts)> = vec![(i, vec![])];
                for y in v {
                    let mut nxt = vec![];
                    for (j, a) in cur {
                        for (k, b) in self.ends(y, j, top).iter() {
                            let mut ab = a.clone();
                            ab.extend(b.iter().copied());
                            put(&mut nxt, *k, ab);
                        }
                    }
                    cur = nxt;
                }
                out = cur;
            }
            E::Alt(v) => {
                for y in v {
                    for (k, b) in self.ends(y, i, top).iter() {
                        put(&mut out, *k, b.clone());
                    }
                }
            }
            E::Opt(y, greedy) => {
                if !greedy {
                    put(&mut out, i, vec![]);
                }
                for (k, b) in self.ends(y, i, top).iter() {
                    put(&mut out, *k, b.clone());
                }
                put(&mut out, i, vec![]);
            }
            E::Star(y, greedy) | E::Plus(y, greedy) => {
                let plus = matches!(e, E::Plus(..));
                let star = E::Star(Box::new(E::Empty), *greedy);
                let _ = star;
                out = self.rep(y, i, *greedy, plus, top);
            }
        }
        let r = Rc::new(out);
        self.memo.insert(key, r.clone());
        r
    }
    fn rep(&mut self, y: &E, i: usize, greedy: bool, plus: bool, top: bool) -> Vec<(usize, Acts)> {
        fn put(out: &mut Vec<(usize, Acts)>, j: usize, a: Acts) {
            if !out.iter().any(|x| x.0 == j) {
                out.push((j, a));
            }
        }
        let mut out = vec![];
        if !plus && !greedy {
            put(&mut out, i, vec![]);
        }
        let x = self.ends(y, i, top);
        for (j, a) in x.iter() {
            if *j > i {
                for (k, b) in self.rep(y, *j, greedy, false, top) {
                    let mut ab = a.clone();
                    ab.extend(b.iter().copied());
                    put(&mut out, k, ab);
                }
            } else {
                put(&mut out, *j, a.clone());
            }
        }
        if !plus && greedy {
            put(&mut out, i, vec![]);
        }
        out
    }
    fn has_ng(&self, e: &E) -> bool {
        match e {
            E::Opt(y, g) | E::Star(y, g) | E::Plus(y, g) => !*g || self.has_ng(y),
            E::Seq(v) | E::Alt(v) => v.iter().any(|y| self.has_ng(y)),
            _ => false,
        }
    }
    /// longest match of any rule of the mode, first rule on ties
    fn best(&mut self, mode: usize, i: usize) -> Option<(usize, usize, Acts)> {
        let mut best: Option<(usize, usize, Acts)> = None;
        self.reach = i;
        if self.memo.capacity() > 4000 {
            self.memo = HashMap::new();
        }
        self.memo.clear();
        for r in 0..self.g.rules.len() {
            if self.g.rules[r].mode != mode {
                continue;
            }
            let body: &'g E = &self.g.rules[r].body;
            let ends = self.ends(body, i, true);
            // a rule with a (trailing, generated that way) non-greedy loop stops at its first exit
            let cand = if self.has_ng(body) { ends.iter().min_by_key(|x| x.0) } else { ends.iter().max_by_key(|x| x.0) };
            if let Some((e, a)) = cand {
                if best.as_ref().map_or(true, |b| *e > b.0) {
                    best = Some((*e, r, a.clone()));
                }
            }
        }
        best
    }
    pub fn run(&mut self, after_eof: usize) -> Outcome {
        let n = self.text.len();
        let text = self.text.clone();
        let mut o = Outcome::default();
        let (mut mode, mut stack): (usize, Vec<usize>) = (0, vec![]);
        let mut i = 0;
        let mut hit_eof = false;
        let mut left = after_eof;
        'outer: loop {
            if hit_eof {
                let t = Tok { ty: -1, ch: 0, start: self.off[n], stop: self.off[n] - 1, line: self.line[n], col: self.col[n], text: "<EOF>".into() };
                o.toks.push(t);
                o.modes.push((stack.clone(), mode));
                if left == 0 {
                    break;
                }
                left -= 1;
                continue;
            }
            let st = i;
            let mut ch = 0;
            let mut ovr_text: Option<String> = None;
            let mut ovr_tok: Option<Tok> = None;
            let ty = loop {
                let mut ty = 0isize;
                match self.best(mode, i) {
                    Some((e, r, acts)) => {
                        for (a, p) in acts {
                            let (k, d1, d2) = self.g.actions[a];
                            match k {
                                CHANNEL => ch = d1 as isize,
                                CUSTOM => {
                                    o.acts.push((d1 as isize, d2 as isize, self.off[p]));
                                    match self.over.get(&(d2 as isize)) {
                                        Some(Over::Text(t)) => ovr_text = Some(t.clone()),
                                        Some(Over::Type(t)) => ty = *t,
                                        Some(Over::Token(t)) => ovr_tok = Some(Tok { ty: *t, ch: 7, start: 1, stop: 2, line: 3, col: 4, text: "own".into() }),
                                        None => {}
                                    }
                                }
                                MODE => mode = d1 as usize,
                                MORE => ty = -2,
                                POP => {
                                    if let Some(m) = stack.pop() {
                                        mode = m
                                    }
                                }
                                PUSH => {
                                    stack.push(mode);
                                    mode = d1 as usize
                                }
                                SKIP => ty = -3,
                                _ => ty = d1 as isize,
                            }
                        }
                        i = e;
                        if ty == 0 {
                            ty = self.g.rules[r].token as isize;
                        }
                    }
                    None => {
                        if i == n {
                            ty = -1;
                        } else {
                            let upto = self.reach;
                            let t: String = text[st..(upto + 1).min(n)].iter().collect();
                            o.errs.push(Err { line: self.line[st], col: self.col[st], msg: format!("token recognition error at: '{}'", t) });
                            i = (upto + 1).min(n);
                            ty = -3;
                        }
                    }
                }
                if i == n {
                    hit_eof = true;
                }
                if ty == -3 {
                    continue 'outer;
                }
                if ty != -2 {
                    break ty;
                }
            };
            let t = match &ovr_text {
                _ if ty == -1 => "<EOF>".into(),
                Some(t) => t.clone(),
                None => text[st..i].iter().collect(),
            };
            let tok = ovr_tok.unwrap_or(Tok { ty, ch, start: self.off[st], stop: self.off[i] - 1, line: self.line[st], col: self.col[st], text: t });
            let ty = tok.ty;
            o.toks.push(tok);
            o.modes.push((stack.clone(), mode));
            if ty == -1 {
                if left == 0 {
                    break;
                }
                left -= 1;
            }
            if o.toks.len() > 4 * text.iter().map(|c| c.len_utf8()).sum::<usize>() + 8 {
                break;
            }
        }
        o
    }
}

// ---------------------------------------------------------------- generator

/// 'á' is 'a' + 128: beyond what the cache has slots for
pub const ALPHA: [char; 8] = ['a', 'b', 'c', '\n', 'é', 'a', '😀', 'á'];

pub struct GenOpt {
    pub actions: bool,
    pub preds: usize,
    pub modes: usize,
    pub nongreedy: bool,
    pub recursion: bool,
}

fn leaf(r: &mut Rng) -> E {
    let c = *r.pick(&ALPHA) as i32;
    match r.below(10) {
        0 => E::Range('a' as i32, 'b' as i32),
        1 => E::Set(vec![('a' as i32, 'a' as i32), ('c' as i32, 'd' as i32), (0x1F600, 0x1F610)]),
        2 => E::Not(vec![('a' as i32, 'a' as i32), ('\n' as i32, '\n' as i32)]),
        3 => E::Any,
        4 => E::Range(0x80, 0xFF),
        5 => E::Set(vec![(c, c)]),
        _ => E::Atom(c),
    }
}

/// a non-empty expression; `acts`: custom action numbers that may be used
pub fn expr(r: &mut Rng, depth: usize, refs: &[usize], acts: &[usize], preds: usize) -> E {
    let act = |r: &mut Rng| -> Option<E> {
        if !acts.is_empty() && r.chance(1, 3) {
            Some(E::Act(*r.pick(acts)))
        } else if preds > 0 && r.chance(1, 4) {
            Some(E::Pred(r.below(preds)))
        } else {
            None
        }
    };
    if depth == 0 {
        let l = if !refs.is_empty() && r.chance(1, 5) { E::Ref(*r.pick(refs), 0) } else { leaf(r) };
        return match act(r) {
            Some(a) if r.chance(1, 2) => E::Seq(vec![l, a]),
            Some(a) => E::Seq(vec![a, l]),
            None => l,
        };
    }
    match r.below(8) {
        0 | 1 | 2 => {
            let n = 2 + r.below(2);
            E::Seq((0..n).map(|_| expr(r, depth - 1, refs, acts, preds)).collect())
        }
        3 | 4 => {
            let n = 2 + r.below(2);
            E::Alt((0..n).map(|_| expr(r, depth - 1, refs, acts, preds)).collect())
        }
        5 => E::Plus(Box::new(expr(r, depth - 1, refs, acts, preds)), true),
        6 => E::Seq(vec![leaf(r), E::Star(Box::new(expr(r, depth - 1, refs, acts, preds)), true)]),
        _ => E::Seq(vec![E::Opt(Box::new(expr(r, depth - 1, refs, acts, preds)), true), leaf(r)]),
    }
}

pub fn lexer(r: &mut Rng, o: &GenOpt) -> Gram {
    let mut actions: Vec<(i32, i32, i32)> = vec![];
    let n = 1 + r.below(4);
    let modes = if o.modes > 1 { 1 + r.below(o.modes) } else { 1 };
    let mut rules: Vec<Rule> = vec![];
    // fragments first in index order is not required: put them last
    let nf = r.below(3);
    let frag: Vec<usize> = (n..n + nf).collect();
    for i in 0..n {
        let mode = if i == 0 { 0 } else { r.below(modes) };
        let refs: Vec<usize> = if r.chance(1, 2) { frag.clone() } else { vec![] };
        let mut cust = vec![];
        if o.actions {
            for k in 0..2 {
                actions.push((CUSTOM, i as i32, (10 * i + k) as i32));
                cust.push(actions.len() - 1);
            }
        }
        let depth = r.below(3);
        let mut body = if o.nongreedy && r.chance(1, 3) {
            // open body*? close
            let s: Vec<E> = (0..1 + r.below(2)).map(|_| E::Atom(*r.pick(&['b', 'c']) as i32)).collect();
            let inner = match r.below(3) {
                0 => E::Any,
                1 => leaf(r),
                _ => E::Alt(vec![E::Atom('a' as i32), E::Atom('b' as i32), leaf(r)]),
            };
            let lp = if r.chance(1, 4) { E::Plus(Box::new(inner), false) } else { E::Star(Box::new(inner), false) };
            let mut v = vec![leaf(r), lp];
            v.extend(s);
            E::Seq(v)
        } else if o.recursion && r.chance(1, 6) {
            E::Seq(vec![E::Atom('a' as i32), E::Star(Box::new(E::Alt(vec![E::Ref(i, 0), E::Atom('c' as i32)])), true), E::Atom('b' as i32)])
        } else {
            expr(r, depth, &refs, &cust, o.preds)
        };
        // trailing commands
        if o.actions || o.modes > 1 {
            let mut tail = vec![];
            for _ in 0..r.below(3) {
                let a = match r.below(8) {
                    0 => (CHANNEL, 1 + r.below(3) as i32, 0),
                    1 => (MODE, r.below(modes) as i32, 0),
                    2 => (MORE, 0, 0),
                    3 | 4 => (POP, 0, 0),
                    5 => (PUSH, r.below(modes) as i32, 0),
                    6 => (SKIP, 0, 0),
                    _ => (TYPE, 20 + r.below(3) as i32, 0),
                };
                if r.chance(1, 4) {
                    tail.push(E::Act(actions.len()));
                    actions.push((CUSTOM, i as i32, (10 * i + 5) as i32));
                }
                tail.push(E::Act(actions.len()));
                actions.push(a);
            }
            if !tail.is_empty() {
                let mut v = vec![body];
                v.extend(tail);
                body = E::Seq(v);
            }
        }
        rules.push(Rule { body, token: i as i32 + 1, mode, leftrec: false });
    }
    for k in 0..nf {
        let refs: Vec<usize> = frag[k + 1..].to_vec();
        let d = r.below(2);
        // commands in a rule that is referred to are not executed
        let mut cust = vec![];
        if o.actions && r.chance(1, 3) {
            actions.push((CUSTOM, (n + k) as i32, (10 * (n + k)) as i32));
            actions.push((SKIP, 0, 0));
            cust = vec![actions.len() - 2, actions.len() - 1];
        }
        rules.push(Rule { body: expr(r, d, &refs, &cust, o.preds), token: 0, mode: usize::MAX, leftrec: false });
    }
    Gram { lexer: true, rules, modes, max_token: 30, actions }
}

pub fn text(r: &mut Rng, max: usize) -> String {
    let n = r.below(max + 1);
    (0..n).map(|_| *r.pick(&ALPHA)).collect()
}

/// a plain grammar (no ambiguity) for long texts: words, line feeds, skipped blanks, a word with an action, the rest
pub fn plain() -> Gram {
    let rule = |body: E, token: i32| Rule { body, token, mode: 0, leftrec: false };
    let set = |v: &[(i32, i32)]| E::Set(v.to_vec());
    Gram {
        lexer: true,
        rules: vec![
            rule(E::Plus(Box::new(set(&[(97, 99)])), true), 1),
            rule(E::Seq(vec![set(&[(10, 10), (13, 13)]), E::Act(0)]), 2),
            rule(E::Seq(vec![E::Atom(100), E::Star(Box::new(set(&[(97, 100), (10, 10)])), true), E::Atom(101), E::Act(1)]), 3),
            rule(E::Seq(vec![E::Atom(32), E::Act(2)]), 4),
            rule(set(&[(100, 0x10ffff)]), 5),
        ],
        modes: 1,
        max_token: 5,
        actions: vec![(CUSTOM, 1, 10), (CUSTOM, 2, 20), (SKIP, 0, 0)],
    }
}
pub fn long_text(r: &mut Rng, n: usize) -> String {
    let c: &[char] = if r.chance(1, 2) { &['a', 'b', '\n', 'd', 'e', ' ', 'é', '\n'] } else { &['a', 'b', 'c', 'a', '\n', 'e', 'e', '😀'] };
    (0..n).map(|_| *r.pick(c)).collect()
}
pub fn long_cases(h: &mut crate::H, r: &mut Rng) {
    let g = plain();
    let env = LexEnv::new(&build(&g).raw);
    for k in 0..12 {
        // (the last ones are longer)
        let n = if k < 10 { 200 + r.below(500) } else { 5_000 + r.below(500) };
        let t = long_text(r, n);
        let none = HashMap::new();
        h.case("long", format!("grammar {:?} actions {:?}, a text of {} characters {:?}...", g.rules, g.actions, n, t.chars().take(40).collect::<String>()), true, || {
            let e = if k % 2 == 0 { env.fresh() } else { env.clone() };
            let got = run_full(&e, &t, &[], &none, 1);
            let want = Oracle::new(&g, &t, &[], &none).run(1);
            diff(&got, &want)
        });
    }
}

/// every mode must have a rule
pub fn usable(g: &Gram) -> bool {
    (0..g.modes).all(|m| g.rules.iter().any(|r| r.mode == m))
}

pub fn diff(got: &Outcome, want: &Outcome) -> Result<(), String> {
    for (k, (a, b)) in got.toks.iter().zip(want.toks.iter()).enumerate() {
        if a != b {
            return Err(format!("token {}: got {:?}, expected {:?}", k, a, b));
        }
    }
    crate::ensure_eq!(got.toks.len(), want.toks.len(), "number of tokens");
    crate::ensure_eq!(got.errs, want.errs, "errors");
    crate::ensure_eq!(got.acts, want.acts, "custom actions (rule, action, position)");
    crate::ensure_eq!(got.modes, want.modes, "mode stack after each token");
    Ok(())
}
