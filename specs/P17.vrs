#![allow(unused)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ item src/int_stream.rs const EOF
//@ item src/token.rs const TOKEN_EOF
//@ item src/token.rs const TOKEN_INVALID_TYPE
//@ item src/atn.rs const INVALID_ALT

// ---------- tokens and the token stream (contract proved for CommonTokenStream in TOKC) --------------
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Tok { pub ttype: isize, pub index: isize }
impl Tok {
    pub fn get_token_type(&self) -> (r: isize) ensures r == self.ttype { self.ttype }
    pub fn get_token_index(&self) -> (r: isize) ensures r == self.index { self.index }
}
pub open spec fn invalid_tok() -> Tok { Tok { ttype: 0, index: -1isize } }
// the tokens the parser sees (those on its channel, end of input last) and the next one
pub ghost struct InV { pub toks: Seq<Tok>, pub cur: int }
pub open spec fn in_ok(v: InV) -> bool { 0 <= v.cur < v.toks.len() && forall|i: int| 0 <= i < v.toks.len() ==> ((#[trigger] v.toks[i]).ttype == TOKEN_EOF) == (i == v.toks.len() - 1) }
pub open spec fn in_adv(v: InV) -> InV { if v.toks[v.cur].ttype == TOKEN_EOF { v } else { InV { cur: v.cur + 1, ..v } } }
#[verifier::external_body]
pub struct Input { x: usize }
impl Input {
    pub uninterp spec fn v(&self) -> InV;
    #[verifier::external_body]
    pub fn current(&self) -> (r: &Tok) requires in_ok(self.v()) ensures *r == self.v().toks[self.v().cur] { unimplemented!() }
    #[verifier::external_body]
    pub fn consume(&mut self)
        requires in_ok(old(self).v()), old(self).v().toks[old(self).v().cur].ttype != TOKEN_EOF
        ensures final(self).v() == (InV { cur: old(self).v().cur + 1, ..old(self).v() }) { unimplemented!() }
    // lt(1): the next token; lt(-1): the one consumed last, if any
    #[verifier::external_body]
    pub fn lt(&mut self, i: isize) -> (r: Option<Tok>)
        requires in_ok(old(self).v()), i == 1 || i == -1
        ensures final(self).v() == old(self).v(), r == lt_of(old(self).v(), i as int) { unimplemented!() }
}
pub open spec fn lt_of(v: InV, i: int) -> Option<Tok> { if i == 1 { Some(v.toks[v.cur]) } else if v.cur > 0 { Some(v.toks[v.cur - 1]) } else { None } }
pub open spec fn tok_or(o: Option<Tok>) -> Tok { match o { Some(t) => t, None => invalid_tok() } }

// ---------- tree nodes: identity, and what they hold -----------------------------------------------
pub ghost enum Kid { Node(int), Term(Tok), Error(Tok) }
pub ghost struct NV { pub parent: Option<int>, pub invoking: int, pub start: Tok, pub stop: Tok, pub alt: int, pub kids: Seq<Kid> }
pub struct Leaf { pub k: Ghost<Kid> }
pub struct TermN { pub symbol: Tok }
pub struct ErrN { pub symbol: Tok }
impl TermN {
    pub fn new(symbol: Tok) -> (r: TermN) ensures r.symbol == symbol { TermN { symbol } }
    pub fn into(self) -> (r: TermN) ensures r == self { self }
    pub fn coerce_rc_to(&self) -> (r: Leaf) ensures r.k@ == Kid::Term(self.symbol) { Leaf { k: Ghost(Kid::Term(self.symbol)) } }
}
impl ErrN {
    pub fn new(symbol: Tok) -> (r: ErrN) ensures r.symbol == symbol { ErrN { symbol } }
    pub fn into(self) -> (r: ErrN) ensures r == self { self }
    pub fn coerce_rc_to(&self) -> (r: Leaf) ensures r.k@ == Kid::Error(self.symbol) { Leaf { k: Ghost(Kid::Error(self.symbol)) } }
}
// Rc<Ctx::Type>: a reference to a node; `Heap` is what all nodes hold (their RefCells and Cells)
pub struct Node { pub id: Ghost<int> }
impl Node {
    pub fn clone(&self) -> (r: Node) ensures r == *self { Node { id: Ghost(self.id@) } }
    // Rc::ptr_eq / comparing Rc::as_ptr
    #[verifier::external_body]
    pub fn same(a: &Node, b: &Node) -> (r: bool) ensures r == (a.id@ == b.id@) { unimplemented!() }
}
pub fn clone_ctx(o: &Option<Node>) -> (r: Option<Node>) ensures r == *o { match o { Some(n) => Some(n.clone()), None => None } }
pub fn same_opt(a: &Option<Node>, b: &Option<Node>) -> (r: bool)
    ensures r == (match (a, b) { (Some(x), Some(y)) => x.id@ == y.id@, (None, None) => true, _ => false })
{ match (a, b) { (Some(x), Some(y)) => Node::same(x, y), (None, None) => true, _ => false } }
pub open spec fn oid(o: Option<Node>) -> Option<int> { match o { Some(n) => Some(n.id@), None => None } }
pub type HM = Map<int, NV>;
pub struct Heap { pub g: Ghost<HM> }
pub open spec fn with_kids(h: HM, n: int, kids: Seq<Kid>) -> HM { h.insert(n, NV { kids, ..h[n] }) }
pub open spec fn push_kid(h: HM, n: int, k: Kid) -> HM { with_kids(h, n, h[n].kids.push(k)) }
// contracts of BaseParserRuleContext's methods (proved below for a single node)
impl Heap {
    pub open spec fn m(&self) -> HM { self.g@ }
    #[verifier::external_body]
    pub fn add_leaf(&mut self, n: &Node, k: Leaf) requires old(self).m().dom().contains(n.id@) ensures final(self).m() == push_kid(old(self).m(), n.id@, k.k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn add_child(&mut self, n: &Node, k: Node) requires old(self).m().dom().contains(n.id@) ensures final(self).m() == push_kid(old(self).m(), n.id@, Kid::Node(k.id@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_last_child(&mut self, n: &Node) requires old(self).m().dom().contains(n.id@)
        ensures final(self).m() == with_kids(old(self).m(), n.id@, if old(self).m()[n.id@].kids.len() > 0 { old(self).m()[n.id@].kids.drop_last() } else { old(self).m()[n.id@].kids }) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_start(&mut self, n: &Node, t: Option<Tok>) requires old(self).m().dom().contains(n.id@) ensures final(self).m() == old(self).m().insert(n.id@, NV { start: tok_or(t), ..old(self).m()[n.id@] }) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_stop(&mut self, n: &Node, t: Option<Tok>) requires old(self).m().dom().contains(n.id@) ensures final(self).m() == old(self).m().insert(n.id@, NV { stop: tok_or(t), ..old(self).m()[n.id@] }) { unimplemented!() }
    #[verifier::external_body]
    pub fn start_mut(&self, n: &Node) -> (r: Tok) requires self.m().dom().contains(n.id@) ensures r == self.m()[n.id@].start { unimplemented!() }
    #[verifier::external_body]
    pub fn set_parent(&mut self, n: &Node, p: &Option<Node>) requires old(self).m().dom().contains(n.id@) ensures final(self).m() == old(self).m().insert(n.id@, NV { parent: oid(*p), ..old(self).m()[n.id@] }) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_invoking_state(&mut self, n: &Node, s: isize) requires old(self).m().dom().contains(n.id@) ensures final(self).m() == old(self).m().insert(n.id@, NV { invoking: s as int, ..old(self).m()[n.id@] }) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_alt_number(&mut self, n: &Node, a: isize) requires old(self).m().dom().contains(n.id@) ensures final(self).m() == old(self).m().insert(n.id@, NV { alt: a as int, ..old(self).m()[n.id@] }) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_invoking_state(&self, n: &Node) -> (r: isize) requires self.m().dom().contains(n.id@) ensures r == self.m()[n.id@].invoking { unimplemented!() }
    // the parent is alive: whoever is parsing below it holds it
    #[verifier::external_body]
    pub fn get_parent_ctx(&self, n: &Node) -> (r: Option<Node>) requires self.m().dom().contains(n.id@) ensures oid(r) == self.m()[n.id@].parent { unimplemented!() }
}

// ---------- parse listeners ----------------------------------------------------------------
pub ghost enum Ev { Enter(int), Exit(int), Term(Tok), Error(Tok) }
pub struct Lst { pub log: Ghost<Seq<Ev>> }
impl Lst {
    #[verifier::external_body]
    pub fn visit_terminal(&mut self, n: &TermN) ensures final(self).log@ == old(self).log@.push(Ev::Term(n.symbol)) { unimplemented!() }
    #[verifier::external_body]
    pub fn visit_error_node(&mut self, n: &ErrN) ensures final(self).log@ == old(self).log@.push(Ev::Error(n.symbol)) { unimplemented!() }
    // ctx.enter(listener) / ctx.exit(listener) of the generated context
    #[verifier::external_body]
    pub fn on_enter(&mut self, n: &Node) ensures final(self).log@ == old(self).log@.push(Ev::Enter(n.id@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn on_exit(&mut self, n: &Node) ensures final(self).log@ == old(self).log@.push(Ev::Exit(n.id@)) { unimplemented!() }
}
// listeners [a, b) have seen exactly the events `e` in addition, the others nothing
pub open spec fn told(old_: Seq<Lst>, new: Seq<Lst>, e: Seq<Ev>, a: int, b: int) -> bool {
    new.len() == old_.len() && forall|i: int| 0 <= i < new.len() ==> (#[trigger] new[i]).log@ == (if a <= i < b { old_[i].log@ + e } else { old_[i].log@ })
}
pub open spec fn told1(o: Seq<Lst>, new: Seq<Lst>, e: Ev, a: int, b: int) -> bool {
    new.len() == o.len() && forall|i: int| 0 <= i < new.len() ==> (#[trigger] new[i]).log@ == (if a <= i < b { o[i].log@.push(e) } else { o[i].log@ })
}

pub struct PErr { pub x: usize }
// ---------- the error strategy as the parser uses it (P19 proves these of DefaultErrorStrategy) -----
pub struct EH { pub rec: Ghost<bool> }
impl EH {
    #[verifier::external_body]
    pub fn in_error_recovery_mode(&mut self, p: &mut BaseParser) -> (r: bool) ensures *final(p) == *old(p), *final(self) == *old(self), r == old(self).rec@ { unimplemented!() }
    #[verifier::external_body]
    pub fn report_match(&mut self, p: &mut BaseParser) ensures *final(p) == *old(p), !final(self).rec@ { unimplemented!() }
    // may report and may consume tokens, each becoming a leaf of the current node
    #[verifier::external_body]
    pub fn recover_inline(&mut self, p: &mut BaseParser) -> (r: Result<Tok, PErr>)
        requires old(p).ok()
        ensures final(p).ok(), final(p).eaten(old(p))
    { unimplemented!() }
}

// BaseParser: the fields the extracted functions touch
pub struct BaseParser {
    pub ctx: Option<Node>,
    pub build_parse_trees: bool,
    pub matched_eof: bool,
    pub state: isize,
    pub input: Input,
    pub precedence_stack: Vec<isize>,
    pub parse_listeners: Vec<Lst>,
    pub heap: Heap,
}
// the leaf a token becomes
pub open spec fn leaf_of(err: bool, t: Tok) -> Kid { if err { Kid::Error(t) } else { Kid::Term(t) } }
pub open spec fn ev_of(err: bool, t: Tok) -> Ev { if err { Ev::Error(t) } else { Ev::Term(t) } }
// every parent of a node is a node
pub open spec fn heap_ok(h: HM) -> bool { forall|i: int| #[trigger] h.dom().contains(i) && h[i].parent is Some ==> h.dom().contains(h[i].parent->0) }
// number of enclosing contexts up to (not including) `top`
pub open spec fn dist(h: HM, n: Option<int>, top: Option<int>, d: nat) -> bool decreases d {
    if n == top { d == 0 } else { d > 0 && n is Some && h.dom().contains(n->0) && dist(h, h[n->0].parent, top, (d - 1) as nat) }
}
pub open spec fn exits(h: HM, n: Option<int>, d: nat) -> Seq<Ev> decreases d {
    if d == 0 || n is None { Seq::<Ev>::empty() } else { seq![Ev::Exit(n->0)] + exits(h, h[n->0].parent, (d - 1) as nat) }
}
pub proof fn lemma_same_parents(h: HM, g: HM, n: Option<int>, top: Option<int>, d: nat)
    requires h.dom() =~= g.dom(), forall|i: int| h.dom().contains(i) ==> (#[trigger] h[i]).parent == g[i].parent, dist(h, n, top, d)
    ensures dist(g, n, top, d), exits(h, n, d) == exits(g, n, d)
    decreases d
{ if n != top { lemma_same_parents(h, g, h[n->0].parent, top, (d - 1) as nat); } }
impl BaseParser {
    pub open spec fn m(&self) -> HM { self.heap.m() }
    pub open spec fn cid(&self) -> int { (self.ctx->0).id@ }
    pub open spec fn cur(&self) -> Tok { self.input.v().toks[self.input.v().cur] }
    pub open spec fn ok(&self) -> bool { in_ok(self.input.v()) && self.ctx is Some && self.m().dom().contains(self.cid()) }
    // tokens eaten by the error strategy: each is a leaf of the current node, nothing else changed
    pub open spec fn eaten(&self, o: &BaseParser) -> bool {
        &&& self.ctx == o.ctx && self.build_parse_trees == o.build_parse_trees && self.matched_eof == o.matched_eof && self.precedence_stack == o.precedence_stack
        &&& self.input.v().toks == o.input.v().toks && o.input.v().cur <= self.input.v().cur
        &&& self.m().dom() == o.m().dom()
        &&& o.m()[o.cid()].kids.is_prefix_of(self.m()[o.cid()].kids)
        &&& self.m() == with_kids(o.m(), o.cid(), self.m()[o.cid()].kids)
    }
//@ fn src/parser.rs Parser<'input> for BaseParser::get_current_token {ret=r nopub}
//@ sig
fn get_current_token(&self) -> (r: &Tok)
    requires in_ok(self.input.v())
    ensures *r == self.cur()
//@ rewrite self.input.get(self.input.index()) => self.input.current()
//@ end
//@ fn src/parser.rs Parser<'input> for BaseParser::get_parser_rule_context
//@ sig
fn get_parser_rule_context(&self) -> (r: &Node)
    requires self.ctx is Some
    ensures *r == self.ctx->0
//@ end
//@ fn src/parser.rs Parser<'input> for BaseParser::get_state {ret=r nopub}
    ensures r == self.state
//@ end
//@ fn src/parser.rs Parser<'input> for BaseParser::set_state {nopub}
    ensures *final(self) == (BaseParser { state: v, ..*old(self) })
//@ end
//@ fn src/parser.rs Parser<'input> for BaseParser::get_precedence {ret=r nopub}
    ensures r == (if self.precedence_stack@.len() > 0 { self.precedence_stack@.last() } else { -1isize })
//@ rewrite *self.precedence_stack.last().unwrap_or(&-1) => (match self.precedence_stack.last() { Some(p) => *p, None => -1 })
//@ end
//@ fn src/parser.rs Parser<'input> for BaseParser::precpred
//@ sig
fn precpred(&self, _localctx: Option<&Node>, precedence: isize) -> (r: bool)
    ensures r == (precedence >= (if self.precedence_stack@.len() > 0 { self.precedence_stack@.last() } else { -1isize }))
//@ end
//@ fn src/parser.rs BaseParser::create_token_node
//@ sig
fn create_token_node(&self, token: Tok) -> (r: TermN)
    ensures r.symbol == token
//@ rewrite TerminalNode::new(__x) => TermN::new(__x)
//@ end
//@ fn src/parser.rs BaseParser::create_error_node
//@ sig
fn create_error_node(&self, token: Tok) -> (r: ErrN)
    ensures r.symbol == token
//@ rewrite ErrorNode::new(__x) => ErrN::new(__x)
//@ end
//@ fn src/parser.rs Parser<'input> for BaseParser::consume
//@ sig
fn consume(&mut self, err_handler: &mut EH)
    requires old(self).ok()
    ensures
        // the stream moves on by exactly the current token (end of input stays)
        final(self).input.v() == in_adv(old(self).input.v()), *final(err_handler) == *old(err_handler),
        // which becomes the last leaf of the current node, an error leaf while recovering
        final(self).m() == (if old(self).build_parse_trees || old(self).parse_listeners@.len() > 0
            { push_kid(old(self).m(), old(self).cid(), leaf_of(old(err_handler).rec@, old(self).cur())) } else { old(self).m() }),
        // and every listener is told once
        told1(old(self).parse_listeners@, final(self).parse_listeners@, ev_of(old(err_handler).rec@, old(self).cur()), 0, old(self).parse_listeners@.len() as int),
        *final(self) == (BaseParser { input: final(self).input, heap: final(self).heap, parse_listeners: final(self).parse_listeners, ..*old(self) }),
        final(self).ok(),
//@ rewrite o.borrow() => o
//@ rewrite let node: Rc<ErrorNode<'_, Ctx>> = __e; => let node = __e;
//@ rewrite let node: Rc<TerminalNode<'_, Ctx>> = __e; => let node = __e;
//@ rewrite self.ctx.as_deref().unwrap().add_child(node.clone().coerce_rc_to()) => self.heap.add_leaf(self.ctx.as_ref().unwrap(), node.coerce_rc_to())
//@ rewrite for listener in &mut self.parse_listeners { listener.visit_error_node(__n) } => let ghost l0 = *self; let mut gi: usize = 0; while gi < self.parse_listeners.len() \
    invariant 0 <= gi <= self.parse_listeners@.len(), told1(l0.parse_listeners@, self.parse_listeners@, Ev::Error(node.symbol), 0, gi as int), *self == (BaseParser { parse_listeners: self.parse_listeners, ..l0 }) decreases self.parse_listeners.len() - gi \
    { let listener = &mut self.parse_listeners[gi]; listener.visit_error_node(__n); gi = gi + 1; }
//@ rewrite for listener in &mut self.parse_listeners { listener.visit_terminal(__n) } => let ghost l0 = *self; let mut gi: usize = 0; while gi < self.parse_listeners.len() \
    invariant 0 <= gi <= self.parse_listeners@.len(), told1(l0.parse_listeners@, self.parse_listeners@, Ev::Term(node.symbol), 0, gi as int), *self == (BaseParser { parse_listeners: self.parse_listeners, ..l0 }) decreases self.parse_listeners.len() - gi \
    { let listener = &mut self.parse_listeners[gi]; listener.visit_terminal(__n); gi = gi + 1; }
//@ rewrite &*node => &node
//@ end
//@ fn src/parser.rs BaseParser::match_token
//@ sig
fn match_token(&mut self, ttype: isize, err_handler: &mut EH) -> (r: Result<Tok, PErr>)
    requires old(self).ok()
    ensures
        final(self).ok(),
        old(self).cur().ttype == ttype ==> {
            &&& r == Ok::<Tok, PErr>(old(self).cur())
            &&& final(self).input.v() == in_adv(old(self).input.v())
            &&& final(self).m() == (if old(self).build_parse_trees || old(self).parse_listeners@.len() > 0
                { push_kid(old(self).m(), old(self).cid(), Kid::Term(old(self).cur())) } else { old(self).m() })
            &&& told1(old(self).parse_listeners@, final(self).parse_listeners@, Ev::Term(old(self).cur()), 0, old(self).parse_listeners@.len() as int)
            &&& *final(self) == (BaseParser { input: final(self).input, heap: final(self).heap, parse_listeners: final(self).parse_listeners,
                    matched_eof: old(self).matched_eof || ttype == TOKEN_EOF, ..*old(self) })
        },
        // otherwise the repair: tokens eaten, then the inserted token (if the repair made one up) as an error leaf
        old(self).cur().ttype != ttype ==> exists|mid: BaseParser| #[trigger] mid.eaten(old(self)) && *final(self) == (BaseParser { heap: final(self).heap, ..mid }) &&
            final(self).m() == (match r { Ok(t) => if old(self).build_parse_trees && t.index == -1 { push_kid(mid.m(), mid.cid(), Kid::Error(t)) } else { mid.m() }, Err(_) => mid.m() }),
//@ rewrite token.borrow() => token
//@ rewrite self.ctx.as_ref().unwrap().add_child(self.create_error_node(token.clone()).coerce_rc_to()) => { let __l = self.create_error_node(token.clone()).coerce_rc_to(); self.heap.add_leaf(self.ctx.as_ref().unwrap(), __l) }
//@ rewrite token = err_handler.recover_inline(self)?; => token = err_handler.recover_inline(self)?; let ghost mid = *self; proof { assert(mid.eaten(old(self))); }
//@ end
//@ fn src/parser.rs BaseParser::match_wildcard
//@ sig
fn match_wildcard(&mut self, err_handler: &mut EH) -> (r: Result<Tok, PErr>)
    requires old(self).ok()
    ensures
        final(self).ok(),
        old(self).cur().ttype > 0 ==> {
            &&& r == Ok::<Tok, PErr>(old(self).cur())
            &&& final(self).input.v() == in_adv(old(self).input.v())
            &&& final(self).m() == (if old(self).build_parse_trees || old(self).parse_listeners@.len() > 0
                { push_kid(old(self).m(), old(self).cid(), Kid::Term(old(self).cur())) } else { old(self).m() })
            &&& told1(old(self).parse_listeners@, final(self).parse_listeners@, Ev::Term(old(self).cur()), 0, old(self).parse_listeners@.len() as int)
            &&& *final(self) == (BaseParser { input: final(self).input, heap: final(self).heap, parse_listeners: final(self).parse_listeners, ..*old(self) })
        },
        old(self).cur().ttype <= 0 ==> exists|mid: BaseParser| #[trigger] mid.eaten(old(self)) && *final(self) == (BaseParser { heap: final(self).heap, ..mid }) &&
            final(self).m() == (match r { Ok(t) => if old(self).build_parse_trees && t.index == -1 { push_kid(mid.m(), mid.cid(), Kid::Error(t)) } else { mid.m() }, Err(_) => mid.m() }),
//@ rewrite t.borrow() => t
//@ rewrite self.ctx.as_ref().unwrap().add_child(self.create_error_node(t.clone()).coerce_rc_to()) => { let __l = self.create_error_node(t.clone()).coerce_rc_to(); self.heap.add_leaf(self.ctx.as_ref().unwrap(), __l) }
//@ rewrite t = err_handler.recover_inline(self)?; => t = err_handler.recover_inline(self)?; let ghost mid = *self; proof { assert(mid.eaten(old(self))); }
//@ end
//@ fn src/parser.rs BaseParser::trigger_enter_rule_event
//@ sig
fn trigger_enter_rule_event(&mut self)
    requires old(self).ctx is Some
    ensures told1(old(self).parse_listeners@, final(self).parse_listeners@, Ev::Enter(old(self).cid()), 0, old(self).parse_listeners@.len() as int),
        *final(self) == (BaseParser { parse_listeners: final(self).parse_listeners, ..*old(self) })
//@ rewrite self.ctx.as_deref().unwrap() => self.ctx.as_ref().unwrap()
//@ rewrite __c.enter(listener) => listener.on_enter(__c)
//@ rewrite for listener in self.parse_listeners.iter_mut() { __body } => let ghost l0 = *self; let mut gi: usize = 0; while gi < self.parse_listeners.len() \
    invariant 0 <= gi <= self.parse_listeners@.len(), told1(l0.parse_listeners@, self.parse_listeners@, Ev::Enter(l0.cid()), 0, gi as int), self.parse_listeners@.len() == l0.parse_listeners@.len(), \
        self.build_parse_trees == l0.build_parse_trees, self.heap == l0.heap, self.matched_eof == l0.matched_eof, self.state == l0.state, self.input == l0.input, self.precedence_stack == l0.precedence_stack, \
        *ctx == l0.ctx->0, self.ctx == l0.ctx decreases self.parse_listeners.len() - gi \
    { let listener = &mut self.parse_listeners[gi]; __body; gi = gi + 1; }
//@ end
//@ fn src/parser.rs BaseParser::trigger_exit_rule_event
//@ sig
fn trigger_exit_rule_event(&mut self)
    requires old(self).ctx is Some
    ensures told1(old(self).parse_listeners@, final(self).parse_listeners@, Ev::Exit(old(self).cid()), 0, old(self).parse_listeners@.len() as int),
        *final(self) == (BaseParser { parse_listeners: final(self).parse_listeners, ..*old(self) })
//@ rewrite self.ctx.as_deref().unwrap() => self.ctx.as_ref().unwrap()
//@ rewrite __c.exit(listener) => listener.on_exit(__c)
//@ rewrite for listener in self.parse_listeners.iter_mut().rev() { __body } => let ghost l0 = *self; let mut gi: usize = self.parse_listeners.len(); while gi > 0 \
    invariant 0 <= gi <= self.parse_listeners@.len(), told1(l0.parse_listeners@, self.parse_listeners@, Ev::Exit(l0.cid()), gi as int, l0.parse_listeners@.len() as int), self.parse_listeners@.len() == l0.parse_listeners@.len(), \
        self.build_parse_trees == l0.build_parse_trees, self.heap == l0.heap, self.matched_eof == l0.matched_eof, self.state == l0.state, self.input == l0.input, self.precedence_stack == l0.precedence_stack, \
        *ctx == l0.ctx->0, self.ctx == l0.ctx decreases gi \
    { gi = gi - 1; let listener = &mut self.parse_listeners[gi]; __body; }
//@ end
//@ fn src/parser.rs BaseParser::add_context_to_parse_tree
    requires old(self).ok(), heap_ok(old(self).m())
    ensures *final(self) == (BaseParser { heap: final(self).heap, ..*old(self) }),
        final(self).m() == (match old(self).m()[old(self).cid()].parent { Some(p) => push_kid(old(self).m(), p, Kid::Node(old(self).cid())), None => old(self).m() }),
//@ rewrite self.ctx.as_ref().unwrap().get_parent_ctx() => self.heap.get_parent_ctx(self.ctx.as_ref().unwrap())
//@ rewrite parent.add_child(self.ctx.clone().unwrap()) => self.heap.add_child(&parent, clone_ctx(&self.ctx).unwrap())
//@ end
//@ fn src/parser.rs BaseParser::enter_rule
//@ sig
fn enter_rule(&mut self, localctx: Node, state: isize, _rule_index: usize)
    requires in_ok(old(self).input.v()), old(self).m().dom().contains(localctx.id@), heap_ok(old(self).m())
    ensures
        ({
            let h = old(self).m().insert(localctx.id@, NV { start: old(self).cur(), ..old(self).m()[localctx.id@] });
            final(self).m() == (if old(self).build_parse_trees { match h[localctx.id@].parent { Some(p) => push_kid(h, p, Kid::Node(localctx.id@)), None => h } } else { h })
        }),
        final(self).ok(), final(self).input.v() == old(self).input.v(),
        *final(self) == (BaseParser { ctx: Some(localctx), state, heap: final(self).heap, input: final(self).input, ..*old(self) }),
//@ rewrite localctx.set_start(self.input.lt(1).cloned()) => { let __t = self.input.lt(1); self.heap.set_start(&localctx, __t) }
//@ end
//@ fn src/parser.rs BaseParser::exit_rule
    requires old(self).ok(), heap_ok(old(self).m())
    ensures
        final(self).m() == old(self).m().insert(old(self).cid(), NV { stop: tok_or(lt_of(old(self).input.v(), if old(self).matched_eof { 1int } else { -1int })), ..old(self).m()[old(self).cid()] }),
        told1(old(self).parse_listeners@, final(self).parse_listeners@, Ev::Exit(old(self).cid()), 0, old(self).parse_listeners@.len() as int),
        oid(final(self).ctx) == old(self).m()[old(self).cid()].parent, final(self).state == old(self).m()[old(self).cid()].invoking,
        final(self).input.v() == old(self).input.v(),
        *final(self) == (BaseParser { ctx: final(self).ctx, state: final(self).state, heap: final(self).heap, input: final(self).input, parse_listeners: final(self).parse_listeners, ..*old(self) }),
//@ rewrite self.ctx.as_ref().unwrap().set_stop(self.input.lt(__i).cloned()) => { let __t = self.input.lt(__i); self.heap.set_stop(self.ctx.as_ref().unwrap(), __t) }
//@ rewrite self.set_state(self.get_parser_rule_context().get_invoking_state()) => { let __s = self.heap.get_invoking_state(self.get_parser_rule_context()); self.set_state(__s) }
//@ rewrite self.ctx.as_ref().unwrap().get_parent_ctx() => self.heap.get_parent_ctx(self.ctx.as_ref().unwrap())
//@ end
//@ fn src/parser.rs BaseParser::enter_outer_alt
//@ sig
fn enter_outer_alt(&mut self, new_ctx: Option<Node>, alt_num: isize)
    requires old(self).ok(), heap_ok(old(self).m()), new_ctx is Some ==> old(self).m().dom().contains((new_ctx->0).id@)
    ensures
        new_ctx is None ==> final(self).m() == old(self).m() && final(self).ctx == old(self).ctx,
        // the labelled context takes the place of the one it replaces
        new_ctx is Some ==> final(self).ctx == new_ctx && ({
            let n = (new_ctx->0).id@;
            let h = old(self).m().insert(n, NV { alt: alt_num as int, ..old(self).m()[n] });
            final(self).m() == (match h[old(self).cid()].parent {
                Some(p) => if old(self).build_parse_trees && n != old(self).cid() { with_kids(h, p, (if h[p].kids.len() > 0 { h[p].kids.drop_last() } else { h[p].kids }).push(Kid::Node(n))) } else { h },
                None => h })
        }),
        final(self).ctx is Some,
        told1(old(self).parse_listeners@, final(self).parse_listeners@, Ev::Enter(final(self).cid()), 0, old(self).parse_listeners@.len() as int),
        *final(self) == (BaseParser { ctx: final(self).ctx, heap: final(self).heap, parse_listeners: final(self).parse_listeners, ..*old(self) }),
//@ rewrite new_ctx.set_alt_number(__a) => self.heap.set_alt_number(&new_ctx, __a)
//@ rewrite Rc::ptr_eq(__a, __b) => Node::same(__a, __b)
//@ rewrite ctx.get_parent_ctx() => self.heap.get_parent_ctx(ctx)
//@ rewrite parent.remove_last_child() => self.heap.remove_last_child(&parent)
//@ rewrite parent.add_child(new_ctx.clone()) => { self.heap.add_child(&parent, new_ctx.clone()); \
     proof { let hh = self.heap.m(); } }
//@ at fn start
    let ghost h0 = self.m();
//@ end
//@ fn src/parser.rs BaseParser::enter_recursion_rule
//@ sig
fn enter_recursion_rule(&mut self, localctx: Node, state: isize, _rule_index: usize, precedence: isize)
    requires in_ok(old(self).input.v()), old(self).m().dom().contains(localctx.id@)
    ensures
        final(self).precedence_stack@ == old(self).precedence_stack@.push(precedence),
        final(self).m() == old(self).m().insert(localctx.id@, NV { start: old(self).cur(), ..old(self).m()[localctx.id@] }),
        final(self).ok(), final(self).input.v() == old(self).input.v(),
        *final(self) == (BaseParser { ctx: Some(localctx), state, heap: final(self).heap, input: final(self).input, precedence_stack: final(self).precedence_stack, ..*old(self) }),
//@ rewrite localctx.set_start(self.input.lt(1).cloned()) => { let __t = self.input.lt(1); self.heap.set_start(&localctx, __t) }
//@ end
//@ fn src/parser.rs BaseParser::push_new_recursion_context
//@ sig
fn push_new_recursion_context(&mut self, localctx: Node, state: isize, _rule_index: usize)
    requires old(self).ok(), old(self).m().dom().contains(localctx.id@), localctx.id@ != old(self).cid()
    ensures
        // what has been matched so far becomes the first child of the new node
        ({
            let p = old(self).cid(); let n = localctx.id@; let h0 = old(self).m();
            let h1 = h0.insert(p, NV { parent: Some(n), invoking: state as int, stop: tok_or(lt_of(old(self).input.v(), -1)), ..h0[p] });
            let h2 = h1.insert(n, NV { start: h0[p].start, ..h1[n] });
            final(self).m() =~= (if old(self).build_parse_trees { push_kid(h2, n, Kid::Node(p)) } else { h2 })
        }),
        told1(old(self).parse_listeners@, final(self).parse_listeners@, Ev::Enter(localctx.id@), 0, old(self).parse_listeners@.len() as int),
        final(self).ok(), final(self).input.v() == old(self).input.v(),
        *final(self) == (BaseParser { ctx: Some(localctx), heap: final(self).heap, input: final(self).input, parse_listeners: final(self).parse_listeners, ..*old(self) }),
//@ rewrite prev.set_parent(__p) => self.heap.set_parent(&prev, __p)
//@ rewrite prev.set_invoking_state(__p) => self.heap.set_invoking_state(&prev, __p)
//@ rewrite prev.set_stop(self.input.lt(__i).cloned()) => { let __t = self.input.lt(__i); self.heap.set_stop(&prev, __t) }
//@ rewrite localctx.set_start(Some(prev.start_mut().clone())) => { let __t = self.heap.start_mut(&prev); self.heap.set_start(&localctx, Some(__t)) }
//@ rewrite self.ctx.as_ref().unwrap().add_child(prev) => self.heap.add_child(self.ctx.as_ref().unwrap(), prev)
//@ end
//@ fn src/parser.rs BaseParser::unroll_recursion_context
//@ sig
fn unroll_recursion_context(&mut self, parent_ctx: Option<Node>, Ghost(d): Ghost<nat>)
    requires old(self).ok(), heap_ok(old(self).m()), parent_ctx is Some ==> old(self).m().dom().contains((parent_ctx->0).id@),
        // the rule's caller encloses the current node
        dist(old(self).m(), Some(old(self).cid()), oid(parent_ctx), d),
    ensures
        final(self).precedence_stack@ == (if old(self).precedence_stack@.len() > 0 { old(self).precedence_stack@.drop_last() } else { old(self).precedence_stack@ }),
        oid(final(self).ctx) == oid(parent_ctx),
        ({
            let r = old(self).cid(); let h0 = old(self).m();
            let h1 = h0.insert(r, NV { stop: tok_or(lt_of(old(self).input.v(), -1)), parent: oid(parent_ctx), ..h0[r] });
            final(self).m() =~= (if old(self).build_parse_trees && parent_ctx is Some { push_kid(h1, (parent_ctx->0).id@, Kid::Node(r)) } else { h1 })
        }),
        // every node given up is left, innermost first
        told(old(self).parse_listeners@, final(self).parse_listeners@, exits(old(self).m(), Some(old(self).cid()), d), 0, old(self).parse_listeners@.len() as int),
        final(self).input.v() == old(self).input.v(),
        *final(self) == (BaseParser { ctx: final(self).ctx, heap: final(self).heap, input: final(self).input, parse_listeners: final(self).parse_listeners, precedence_stack: final(self).precedence_stack, ..*old(self) }),
//@ rewrite self.ctx.clone() => clone_ctx(&self.ctx)
//@ rewrite retctx.set_stop(self.input.lt(__i).cloned()) => { let __t = self.input.lt(__i); self.heap.set_stop(&retctx, __t); proof { lemma_same_parents(old(self).m(), self.m(), Some(old(self).cid()), oid(parent_ctx), d); h1 = self.m(); l0 = *self; } }
//@ rewrite !self.parse_listeners.is_empty() => self.parse_listeners.len() != 0
//@ rewrite self.ctx.as_ref().map(|x| Rc::as_ptr(x)) != parent_ctx.as_ref().map(|x| Rc::as_ptr(x)) => !same_opt(&self.ctx, &parent_ctx)
//@ rewrite self.ctx.as_ref().unwrap().get_parent_ctx() => self.heap.get_parent_ctx(self.ctx.as_ref().unwrap())
//@ rewrite retctx.set_parent(&self.ctx) => self.heap.set_parent(&retctx, &self.ctx)
//@ rewrite self.ctx.as_ref().unwrap().add_child(retctx) => self.heap.add_child(self.ctx.as_ref().unwrap(), retctx)
//@ rewrite self.build_parse_trees && self.ctx.is_some() => { proof { } self.build_parse_trees && self.ctx.is_some() }
//@ loop 0 while
    invariant
        dist(h1, oid(self.ctx), oid(parent_ctx), gd as nat), heap_ok(h1), self.m() == h1,
        told(old(self).parse_listeners@, self.parse_listeners@, done, 0, old(self).parse_listeners@.len() as int),
        done + exits(h1, oid(self.ctx), gd as nat) =~= exits(h1, Some(old(self).cid()), d), gd >= 0,
        *self == (BaseParser { ctx: self.ctx, parse_listeners: self.parse_listeners, ..l0 }),
    decreases gd
//@ at loop 0 start
    let ghost n0 = self.ctx;
//@ at loop 0 end
    proof {
        let e = Ev::Exit((n0->0).id@);
        assert forall|i: int| 0 <= i < self.parse_listeners@.len() implies (#[trigger] self.parse_listeners@[i]).log@ == old(self).parse_listeners@[i].log@ + done.push(e) by {
            assert(old(self).parse_listeners@[i].log@ + done.push(e) =~= (old(self).parse_listeners@[i].log@ + done).push(e));
        }
        done = done.push(e); gd = gd - 1;
    }
//@ at fn start
    let ghost mut gd: int = d as int; let ghost mut done = Seq::<Ev>::empty(); let ghost mut h1 = self.m(); let ghost mut l0 = *self;
//@ end
}
} // verus!
fn main() {}
