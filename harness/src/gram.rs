//! Small grammar compiler for the harness: grammar AST -> automaton (same construction as the
//! ANTLR tool) -> serialized form -> the crate's own deserializer. Oracles work on the AST.
use antlr_rust::atn::ATN;
use antlr_rust::atn_deserializer::ATNDeserializer;
use antlr_rust::dfa::DFA;
use antlr_rust::RwLock;
use std::sync::Arc;

/// a predicate with an index from here on depends on the rule context; its value is that of the index modulo this
pub const CTX_DEP: usize = 64;

#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Empty,
    Atom(i32),
    Range(i32, i32),
    Set(Vec<(i32, i32)>),
    Not(Vec<(i32, i32)>),
    Any,
    Eof,
    Seq(Vec<E>),
    Alt(Vec<E>),
    Opt(Box<E>, bool),
    Star(Box<E>, bool),
    Plus(Box<E>, bool),
    /// rule, precedence argument
    Ref(usize, i32),
    /// custom action (lexer: index into lexer_actions)
    Act(usize),
    /// semantic predicate number
    Pred(usize),
    PrecPred(i32),
}

/// AST annotated with the numbers of automaton states / decisions
#[derive(Clone, Debug)]
pub enum N {
    Empty,
    /// state, expression
    Tok(usize, E),
    Ref(usize, usize, i32),
    Act(usize, usize),
    Pred(usize, usize),
    PrecPred(usize, i32),
    Seq(Vec<N>),
    /// state, decision
    Alt(usize, usize, Vec<N>),
    /// state, decision, alternatives, greedy
    Opt(usize, usize, Vec<N>, bool),
    /// entry state, loop-back state, decision, block (state, decision or usize::MAX), alternatives, greedy
    Star(usize, usize, usize, (usize, usize), Vec<N>, bool),
    /// block state, block decision, loop-back state, loop decision, alternatives, greedy
    Plus(usize, usize, usize, usize, Vec<N>, bool),
}

pub const T_EPS: i32 = 1;
pub const T_RANGE: i32 = 2;
pub const T_RULE: i32 = 3;
pub const T_PRED: i32 = 4;
pub const T_ATOM: i32 = 5;
pub const T_ACT: i32 = 6;
pub const T_SET: i32 = 7;
pub const T_NOT: i32 = 8;
pub const T_ANY: i32 = 9;
pub const T_PREC: i32 = 10;

#[derive(Clone, Debug, Default)]
pub struct Raw {
    pub lexer: bool,
    pub max_token: i32,
    /// type, rule (-1 = none), extra (end state / loop back) if the type has one
    pub states: Vec<(i32, i32, Option<i32>)>,
    pub nongreedy: Vec<i32>,
    pub leftrec: Vec<i32>,
    /// start state, token type (lexer)
    pub rules: Vec<(i32, i32)>,
    pub modes: Vec<i32>,
    /// contains eof, intervals
    pub sets: Vec<(bool, Vec<(i32, i32)>)>,
    pub sets32: Vec<(bool, Vec<(i32, i32)>)>,
    /// src, trg, type, a1, a2, a3
    pub edges: Vec<[i32; 6]>,
    pub decisions: Vec<i32>,
    pub actions: Vec<(i32, i32, i32)>,
}

pub fn enc(v: i32) -> char {
    let c = ((v + 2) & 0xFFFF) as u32;
    let c = if (0xD800..=0xDFFF).contains(&c) { c + 0x3000 } else { c };
    char::from_u32(c).unwrap()
}

impl Raw {
    pub fn serialize(&self) -> String {
        let mut o = String::from("\x03\u{608b}\u{a72a}\u{8133}\u{b9ed}\u{417c}\u{3be7}\u{7786}\u{5964}");
        let mut w = |v: i32| o.push(enc(v));
        w(if self.lexer { 0 } else { 1 });
        w(self.max_token);
        w(self.states.len() as i32);
        for (t, r, x) in &self.states {
            w(*t);
            w(if *r < 0 { 0xFFFF } else { *r });
            if let Some(x) = x {
                w(*x);
            }
        }
        w(self.nongreedy.len() as i32);
        for x in &self.nongreedy {
            w(*x);
        }
        w(self.leftrec.len() as i32);
        for x in &self.leftrec {
            w(*x);
        }
        w(self.rules.len() as i32);
        for (s, t) in &self.rules {
            w(*s);
            if self.lexer {
                w(*t);
            }
        }
        w(self.modes.len() as i32);
        for m in &self.modes {
            w(*m);
        }
        w(self.sets.len() as i32);
        for (e, iv) in &self.sets {
            w(iv.len() as i32);
            w(*e as i32);
            for (a, b) in iv {
                w(*a);
                w(*b);
            }
        }
        w(self.sets32.len() as i32);
        for (e, iv) in &self.sets32 {
            w(iv.len() as i32);
            w(*e as i32);
            for (a, b) in iv {
                for v in [a, b] {
                    w(*v & 0xFFFF);
                    w(*v >> 16);
                }
            }
        }
        w(self.edges.len() as i32);
        for e in &self.edges {
            for v in e {
                w(*v);
            }
        }
        w(self.decisions.len() as i32);
        for d in &self.decisions {
            w(*d);
        }
        if self.lexer {
            w(self.actions.len() as i32);
            for (t, a, b) in &self.actions {
                w(*t);
                w(*a);
                w(*b);
            }
        }
        o
    }
    pub fn atn(&self) -> Arc<ATN> {
        let s = self.serialize();
        Arc::new(ATNDeserializer::new(None).deserialize(s.chars()))
    }
}

pub fn dfas(atn: &Arc<ATN>) -> Arc<Vec<RwLock<DFA>>> {
    let mut v = vec![];
    for i in 0..atn.decision_to_state.len() {
        v.push(RwLock::new(DFA::new(atn.clone(), atn.get_decision_state(i), i as isize)));
    }
    Arc::new(v)
}

#[derive(Clone, Debug)]
pub struct Rule {
    pub body: E,
    /// lexer: token type, mode (usize::MAX: fragment)
    pub token: i32,
    pub mode: usize,
    pub leftrec: bool,
}

#[derive(Clone, Debug)]
pub struct Gram {
    pub lexer: bool,
    pub rules: Vec<Rule>,
    pub modes: usize,
    pub max_token: i32,
    /// serialized lexer actions (type, d1, d2)
    pub actions: Vec<(i32, i32, i32)>,
}

pub struct Built {
    pub raw: Raw,
    pub nodes: Vec<N>,
}

struct B<'a> {
    raw: Raw,
    g: &'a Gram,
    rule: i32,
}

impl<'a> B<'a> {
    fn st(&mut self, ty: i32) -> usize {
        let x = match ty {
            3 | 4 | 5 | 12 => Some(0),
            _ => None,
        };
        self.raw.states.push((ty, self.rule, x));
        self.raw.states.len() - 1
    }
    fn e(&mut self, s: usize, t: usize, k: i32, a: i32, b: i32, c: i32) {
        self.raw.edges.push([s as i32, t as i32, k, a, b, c]);
    }
    fn eps(&mut self, s: usize, t: usize) {
        self.e(s, t, T_EPS, 0, 0, 0)
    }
    fn dec(&mut self, s: usize) -> usize {
        self.raw.decisions.push(s as i32);
        self.raw.decisions.len() - 1
    }
    fn set(&mut self, iv: &[(i32, i32)]) -> usize {
        // negative members mean end of input
        let eof = iv.iter().any(|x| x.0 < 0);
        let iv: Vec<(i32, i32)> = iv.iter().copied().filter(|x| x.0 >= 0).collect();
        if iv.iter().any(|x| x.1 > 0xFFFF) {
            self.raw.sets32.push((eof, iv));
            // numbered after all 16-bit sets: fixed up at the end
            1_000_000 + self.raw.sets32.len() - 1
        } else {
            self.raw.sets.push((eof, iv));
            self.raw.sets.len() - 1
        }
    }
    fn alts<'e>(x: &'e E) -> Vec<&'e E> {
        match x {
            E::Alt(v) => v.iter().collect(),
            x => vec![x],
        }
    }
    /// returns (left, right, annotated)
    fn build(&mut self, x: &E) -> (usize, usize, N) {
        match x {
            E::Empty => {
                let l = self.st(1);
                let r = self.st(1);
                self.eps(l, r);
                (l, r, N::Empty)
            }
            E::Atom(_) | E::Range(..) | E::Set(_) | E::Not(_) | E::Any | E::Eof => {
                let l = self.st(1);
                let r = self.st(1);
                match x {
                    E::Atom(v) if *v > 0xFFFF => {
                        let s = self.set(&[(*v, *v)]) as i32;
                        self.e(l, r, T_SET, s, 0, 0)
                    }
                    E::Atom(v) => self.e(l, r, T_ATOM, *v, 0, 0),
                    E::Eof => self.e(l, r, T_ATOM, 0, 0, 1),
                    E::Range(a, b) if *b > 0xFFFF => {
                        let s = self.set(&[(*a, *b)]) as i32;
                        self.e(l, r, T_SET, s, 0, 0)
                    }
                    E::Range(a, b) => self.e(l, r, T_RANGE, *a, *b, 0),
                    E::Set(v) => {
                        let s = self.set(v) as i32;
                        self.e(l, r, T_SET, s, 0, 0)
                    }
                    E::Not(v) => {
                        let s = self.set(v) as i32;
                        self.e(l, r, T_NOT, s, 0, 0)
                    }
                    E::Any => self.e(l, r, T_ANY, 0, 0, 0),
                    _ => unreachable!(),
                }
                (l, r, N::Tok(l, x.clone()))
            }
            E::Ref(r, p) => {
                let l = self.st(1);
                let rr = self.st(1);
                let start = self.raw.rules[*r].0;
                self.e(l, rr, T_RULE, start, *r as i32, *p);
                (l, rr, N::Ref(l, *r, *p))
            }
            E::Act(a) => {
                let l = self.st(1);
                let r = self.st(1);
                let rule = self.rule;
                self.e(l, r, T_ACT, rule, *a as i32, 0);
                (l, r, N::Act(l, *a))
            }
            E::Pred(a) => {
                let l = self.st(1);
                let r = self.st(1);
                let rule = self.rule;
                // indices from CTX_DEP on depend on the context
                self.e(l, r, T_PRED, rule, *a as i32, (*a >= CTX_DEP) as i32);
                (l, r, N::Pred(l, *a))
            }
            E::PrecPred(p) => {
                let l = self.st(1);
                let r = self.st(1);
                self.e(l, r, T_PREC, *p, 0, 0);
                (l, r, N::PrecPred(l, *p))
            }
            E::Seq(v) => {
                if v.is_empty() {
                    return self.build(&E::Empty);
                }
                let mut ns = vec![];
                let (l, mut r, n) = self.build(&v[0]);
                ns.push(n);
                for y in &v[1..] {
                    let (l2, r2, n) = self.build(y);
                    self.eps(r, l2);
                    r = r2;
                    ns.push(n);
                }
                (l, r, N::Seq(ns))
            }
            E::Alt(v) => {
                if v.len() == 1 {
                    return self.build(&v[0]);
                }
                let s = self.st(3);
                let en = self.st(8);
                self.raw.states[s].2 = Some(en as i32);
                let d = self.dec(s);
                let mut ns = vec![];
                for y in v {
                    let (l, r, n) = self.build(y);
                    self.eps(s, l);
                    self.eps(r, en);
                    ns.push(n);
                }
                (s, en, N::Alt(s, d, ns))
            }
            E::Opt(y, greedy) => {
                let s = self.st(3);
                let en = self.st(8);
                self.raw.states[s].2 = Some(en as i32);
                let d = self.dec(s);
                if !*greedy {
                    self.raw.nongreedy.push(s as i32);
                    self.eps(s, en);
                }
                let mut ns = vec![];
                for a in Self::alts(y) {
                    let (l, r, n) = self.build(a);
                    self.eps(s, l);
                    self.eps(r, en);
                    ns.push(n);
                }
                if *greedy {
                    self.eps(s, en);
                }
                (s, en, N::Opt(s, d, ns, *greedy))
            }
            E::Star(y, greedy) => {
                let alts = Self::alts(y);
                let entry = self.st(10);
                let blk = self.st(5);
                let ben = self.st(8);
                self.raw.states[blk].2 = Some(ben as i32);
                let back = self.st(9);
                let end = self.st(12);
                self.raw.states[end].2 = Some(back as i32);
                let bd = if alts.len() > 1 { self.dec(blk) } else { usize::MAX };
                let d = self.dec(entry);
                let mut ns = vec![];
                for a in alts {
                    let (l, r, n) = self.build(a);
                    self.eps(blk, l);
                    self.eps(r, ben);
                    ns.push(n);
                }
                if *greedy {
                    self.eps(entry, blk);
                    self.eps(entry, end);
                } else {
                    self.raw.nongreedy.push(entry as i32);
                    self.eps(entry, end);
                    self.eps(entry, blk);
                }
                self.eps(ben, back);
                self.eps(back, entry);
                (entry, end, N::Star(entry, back, d, (blk, bd), ns, *greedy))
            }
            E::Plus(y, greedy) => {
                let alts = Self::alts(y);
                let blk = self.st(4);
                let ben = self.st(8);
                self.raw.states[blk].2 = Some(ben as i32);
                let back = self.st(11);
                let end = self.st(12);
                self.raw.states[end].2 = Some(back as i32);
                let bd = if alts.len() > 1 { self.dec(blk) } else { usize::MAX };
                let d = self.dec(back);
                let mut ns = vec![];
                for a in alts {
                    let (l, r, n) = self.build(a);
                    self.eps(blk, l);
                    self.eps(r, ben);
                    ns.push(n);
                }
                self.eps(ben, back);
                if *greedy {
                    self.eps(back, blk);
                    self.eps(back, end);
                } else {
                    self.raw.nongreedy.push(back as i32);
                    self.eps(back, end);
                    self.eps(back, blk);
                }
                (blk, end, N::Plus(blk, bd, back, d, ns, *greedy))
            }
        }
    }
}

pub fn build(g: &Gram) -> Built {
    let mut b = B { raw: Raw { lexer: g.lexer, max_token: g.max_token, ..Default::default() }, g, rule: -1 };
    if g.lexer {
        for _ in 0..g.modes {
            let s = b.st(6);
            b.raw.modes.push(s as i32);
        }
        for m in 0..g.modes {
            // one decision per mode, in mode order
            let s = b.raw.modes[m] as usize;
            b.dec(s);
        }
    }
    let mut stops = vec![];
    for (i, r) in g.rules.iter().enumerate() {
        b.rule = i as i32;
        let s = b.st(2);
        let t = b.st(7);
        stops.push(t);
        b.raw.rules.push((s as i32, r.token));
        if r.leftrec {
            b.raw.leftrec.push(s as i32);
        }
    }
    let mut nodes = vec![];
    for (i, r) in g.rules.iter().enumerate() {
        b.rule = i as i32;
        let start = b.raw.rules[i].0 as usize;
        let (l, rr, n) = b.build(&r.body);
        b.eps(start, l);
        b.eps(rr, stops[i]);
        nodes.push(n);
    }
    b.rule = -1;
    if g.lexer {
        for (i, r) in g.rules.iter().enumerate() {
            if r.mode != usize::MAX {
                let m = b.raw.modes[r.mode] as usize;
                let s = b.raw.rules[i].0 as usize;
                b.eps(m, s);
            }
        }
    }
    let _ = b.g;
    let n16 = b.raw.sets.len() as i32;
    for e in b.raw.edges.iter_mut() {
        if (e[2] == T_SET || e[2] == T_NOT) && e[3] >= 1_000_000 {
            e[3] = e[3] - 1_000_000 + n16;
        }
    }
    b.raw.actions = g.actions.clone();
    Built { raw: b.raw, nodes }
}

/// does a token/char expression consume symbol v (vocabulary lo..=hi)?
pub fn denotes(x: &E, v: i32, lo: i32, hi: i32) -> bool {
    match x {
        E::Atom(a) => v == *a,
        E::Range(a, b) => *a <= v && v <= *b,
        E::Set(s) => s.iter().any(|(a, b)| *a <= v && v <= *b),
        E::Not(s) => lo <= v && v <= hi && !s.iter().any(|(a, b)| *a <= v && v <= *b),
        E::Any => lo <= v && v <= hi,
        E::Eof => v == -1,
        _ => false,
    }
}
