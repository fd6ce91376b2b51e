#![allow(unused)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ item src/int_stream.rs const EOF
//@ item src/atn.rs const INVALID_ALT

// ---------- text -------------------------------------------------------------------------
#[verifier::external_body]
pub struct Str { x: String }
impl Str {
    pub uninterp spec fn s(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn new() -> (r: Str) ensures r.s() == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, c: char) ensures final(self).s() == old(self).s().push(c) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_all(&mut self, t: &Str) ensures final(self).s() == old(self).s() + t.s() { unimplemented!() }
    #[verifier::external_body]
    pub fn push_lit(&mut self, t: &str) ensures final(self).s() == old(self).s() + t@ { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.s().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn at(&self, i: usize) -> (r: char) requires i < self.s().len() ensures r == self.s()[i as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Str) ensures r.s() == self.s() { unimplemented!() }
}
// format!("{}:{}", name, alt)
pub uninterp spec fn labelled(name: Seq<char>, alt: int) -> Seq<char>;
#[verifier::external_body]
pub fn fmt_label(name: &Str, alt: isize) -> (r: Str) ensures r.s() == labelled(name.s(), alt as int) { unimplemented!() }

pub struct Tok { pub ttype: isize, pub index: isize, pub text: Str }
impl Tok {
    pub fn get_token_type(&self) -> (r: isize) ensures r == self.ttype { self.ttype }
    pub fn get_token_index(&self) -> (r: isize) ensures r == self.index { self.index }
    pub fn get_text(&self) -> (r: &Str) ensures r.s() == self.text.s() { &self.text }
}
pub struct Interval { pub a: isize, pub b: isize }

// ---------- a finished tree ------------------------------------------------------------------
pub struct TermN { pub symbol: Tok }
pub struct ErrN { pub symbol: Tok }
pub struct RuleN { pub id: usize, pub rule: usize, pub alt: isize, pub start: Tok, pub stop: Tok, pub children: Vec<Tr> }
pub enum Tr { Rule(RuleN), Term(TermN), Error(ErrN) }
pub open spec fn kids(t: Tr) -> Seq<Tr> { match t { Tr::Rule(r) => r.children@, _ => Seq::empty() } }

pub ghost enum Ev { Enter(int), Exit(int), Term(Tok), Error(Tok) }
// the callbacks of a walk: enter, the children from left to right, exit; leaves once
pub open spec fn events(t: Tr) -> Seq<Ev> decreases t {
    match t { Tr::Rule(r) => seq![Ev::Enter(r.id as int)] + events_n(r.children, r.children@.len() as int) + seq![Ev::Exit(r.id as int)],
        Tr::Term(n) => seq![Ev::Term(n.symbol)], Tr::Error(n) => seq![Ev::Error(n.symbol)] }
}
pub open spec fn events_n(v: Vec<Tr>, n: int) -> Seq<Ev> decreases v, n {
    if n <= 0 || n > v@.len() { Seq::empty() } else { events_n(v, n - 1) + events(v@[n - 1]) }
}
// the text of a node is that of its leaves, one after another
pub open spec fn text(t: Tr) -> Seq<char> decreases t {
    match t { Tr::Rule(r) => text_n(r.children, r.children@.len() as int), Tr::Term(n) => n.symbol.text.s(), Tr::Error(n) => n.symbol.text.s() }
}
pub open spec fn text_n(v: Vec<Tr>, n: int) -> Seq<char> decreases v, n {
    if n <= 0 || n > v@.len() { Seq::empty() } else { text_n(v, n - 1) + text(v@[n - 1]) }
}
pub open spec fn node_text(t: Tr, names: Seq<Str>) -> Seq<char> {
    match t { Tr::Rule(r) => if r.alt != INVALID_ALT { labelled(names[r.rule as int].s(), r.alt as int) } else { names[r.rule as int].s() }, Tr::Term(n) => n.symbol.text.s(), Tr::Error(n) => n.symbol.text.s() }
}
pub open spec fn esc1(c: char, sp: bool) -> Seq<char> {
    if c == ' ' && sp { "\u{00B7}"@ } else if c == '\t' { "\\t"@ } else if c == '\n' { "\\n"@ } else if c == '\r' { "\\r"@ } else { seq![c] }
}
pub open spec fn esc(s: Seq<char>, sp: bool) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { esc(s.drop_last(), sp) + esc1(s.last(), sp) }
}
// LISP form
pub open spec fn lisp(t: Tr, names: Seq<Str>) -> Seq<char> decreases t {
    match t { Tr::Rule(r) => if r.children@.len() == 0 { esc(node_text(t, names), false) } else { seq!['('] + esc(node_text(t, names), false) + lisp_n(r.children, names, r.children@.len() as int) + seq![')'] },
        _ => esc(node_text(t, names), false) }
}
pub open spec fn lisp_n(v: Vec<Tr>, names: Seq<Str>, n: int) -> Seq<char> decreases v, n {
    if n <= 0 || n > v@.len() { Seq::empty() } else { lisp_n(v, names, n - 1) + seq![' '] + lisp(v@[n - 1], names) }
}
// rule numbers of all nodes are rules of the grammar
pub open spec fn rules_ok(t: Tr, n: int) -> bool decreases t {
    match t { Tr::Rule(r) => r.rule < n && rules_ok_n(r.children, n, r.children@.len() as int), _ => true }
}
pub open spec fn rules_ok_n(v: Vec<Tr>, n: int, k: int) -> bool decreases v, k {
    if k <= 0 || k > v@.len() { true } else { rules_ok_n(v, n, k - 1) && rules_ok(v@[k - 1], n) }
}
pub proof fn lemma_rules(v: Vec<Tr>, n: int, k: int, i: int) requires rules_ok_n(v, n, k), 0 <= i < k <= v@.len() ensures rules_ok(v@[i], n) decreases k { if i < k - 1 { lemma_rules(v, n, k - 1, i); } }

// ---------- listeners and visitors (the user's) ----------------------------------------------
pub struct Lst { pub log: Ghost<Seq<Ev>> }
impl Lst {
    #[verifier::external_body]
    pub fn visit_terminal(&mut self, n: &TermN) ensures final(self).log@ == old(self).log@.push(Ev::Term(n.symbol)) { unimplemented!() }
    #[verifier::external_body]
    pub fn visit_error_node(&mut self, n: &ErrN) ensures final(self).log@ == old(self).log@.push(Ev::Error(n.symbol)) { unimplemented!() }
    #[verifier::external_body]
    pub fn enter_every_rule(&mut self, n: &RuleN) ensures final(self).log@ == old(self).log@.push(Ev::Enter(n.id as int)) { unimplemented!() }
    #[verifier::external_body]
    pub fn exit_every_rule(&mut self, n: &RuleN) ensures final(self).log@ == old(self).log@.push(Ev::Exit(n.id as int)) { unimplemented!() }
}
impl TermN {
//@ fn src/tree.rs Listenable<Listener> for TerminalNode::enter
//@ sig
fn enter(&self, listener: &mut Lst)
    ensures final(listener).log@ == old(listener).log@.push(Ev::Term(self.symbol))
//@ end
//@ fn src/tree.rs Listenable<Listener> for TerminalNode::exit
//@ sig
fn exit(&self, _listener: &mut Lst)
    ensures final(_listener).log@ == old(_listener).log@
//@ end
//@ fn src/tree.rs Visitable<Visitor> for TerminalNode::accept
//@ sig
fn accept(&self, visitor: &mut Lst)
    ensures final(visitor).log@ == old(visitor).log@.push(Ev::Term(self.symbol))
//@ end
//@ fn src/tree.rs CustomRuleContext<'input> for LeafNode::get_node_text
//@ sig
fn get_node_text(&self, rule_names: &Vec<Str>) -> (r: Str)
    ensures r.s() == self.symbol.text.s()
//@ rewrite self.symbol.borrow().get_text().to_display() => self.symbol.get_text().clone()
//@ end
//@ fn src/tree.rs ParseTree<'input> for LeafNode::get_text
//@ sig
fn get_text(&self) -> (r: Str)
    ensures r.s() == self.symbol.text.s()
//@ rewrite self.symbol.borrow().get_text().to_display() => self.symbol.get_text().clone()
//@ end
//@ fn src/tree.rs ParseTree<'input> for LeafNode::get_source_interval
//@ sig
fn get_source_interval(&self) -> (r: Interval)
    ensures r.a == self.symbol.index && r.b == self.symbol.index
//@ rewrite self.symbol.borrow() => self.symbol
//@ end
//@ fn src/tree.rs trait Tree::get_child_count
//@ sig
fn get_child_count(&self) -> (r: usize)
    ensures r == 0
//@ end
//@ fn src/tree.rs trait Tree::get_child
//@ sig
fn get_child(&self, _i: usize) -> (r: Option<&Tr>)
    ensures r is None
//@ end
}
impl ErrN {
//@ fn src/tree.rs Listenable<Listener> for ErrorNode::enter
//@ sig
fn enter(&self, listener: &mut Lst)
    ensures final(listener).log@ == old(listener).log@.push(Ev::Error(self.symbol))
//@ end
//@ fn src/tree.rs Listenable<Listener> for ErrorNode::exit
//@ sig
fn exit(&self, _listener: &mut Lst)
    ensures final(_listener).log@ == old(_listener).log@
//@ end
//@ fn src/tree.rs Visitable<Visitor> for ErrorNode::accept
//@ sig
fn accept(&self, visitor: &mut Lst)
    ensures final(visitor).log@ == old(visitor).log@.push(Ev::Error(self.symbol))
//@ end
//@ fn src/tree.rs CustomRuleContext<'input> for LeafNode::get_node_text
//@ sig
fn get_node_text(&self, rule_names: &Vec<Str>) -> (r: Str)
    ensures r.s() == self.symbol.text.s()
//@ rewrite self.symbol.borrow().get_text().to_display() => self.symbol.get_text().clone()
//@ end
//@ fn src/tree.rs ParseTree<'input> for LeafNode::get_text
//@ sig
fn get_text(&self) -> (r: Str)
    ensures r.s() == self.symbol.text.s()
//@ rewrite self.symbol.borrow().get_text().to_display() => self.symbol.get_text().clone()
//@ end
//@ fn src/tree.rs trait Tree::get_child_count
//@ sig
fn get_child_count(&self) -> (r: usize)
    ensures r == 0
//@ end
//@ fn src/tree.rs trait Tree::get_child
//@ sig
fn get_child(&self, _i: usize) -> (r: Option<&Tr>)
    ensures r is None
//@ end
}
impl RuleN {
    pub fn get_rule_index(&self) -> (r: usize) ensures r == self.rule { self.rule }
    pub fn get_alt_number(&self) -> (r: isize) ensures r == self.alt { self.alt }
    pub fn start(&self) -> (r: &Tok) ensures *r == self.start { &self.start }
    pub fn stop(&self) -> (r: &Tok) ensures *r == self.stop { &self.stop }
//@ fn src/rule_context.rs trait CustomRuleContext::get_node_text
//@ sig
fn get_node_text(&self, rule_names: &Vec<Str>) -> (r: Str)
    requires self.rule < rule_names@.len()
    ensures r.s() == node_text(Tr::Rule(*self), rule_names@)
//@ rewrite rule_names[__i] => &rule_names[__i]
//@ rewrite format!("{}:{}", rule_name, alt_number) => fmt_label(rule_name, alt_number)
//@ rewrite rule_name.to_owned() => rule_name.clone()
//@ end
//@ fn src/parser_rule_context.rs Tree<'input> for BaseParserRuleContext::get_child
//@ sig
fn get_child(&self, i: usize) -> (r: Option<&Tr>)
    ensures r == (if i < self.children@.len() { Some(&self.children@[i as int]) } else { None::<&Tr> })
//@ rewrite self.children.borrow().get(i).cloned() => self.children.get(i)
//@ end
//@ fn src/parser_rule_context.rs Tree<'input> for BaseParserRuleContext::get_child_count
//@ sig
fn get_child_count(&self) -> (r: usize)
    ensures r == self.children@.len()
//@ rewrite self.children.borrow() => self.children
//@ end
//@ fn src/tree.rs trait Tree::get_children
//@ sig
fn get_children(&self) -> (r: Vec<&Tr>)
    ensures r@.len() == self.children@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.children@[i]
//@ rewrite from_fn(move || { __body }) => { let mut out: Vec<&Tr> = Vec::new(); let mut more = true; while more \
    invariant index <= self.children@.len(), out@.len() == index, forall|i: int| 0 <= i < out@.len() ==> *(#[trigger] out@[i]) == self.children@[i], !more ==> index == self.children@.len() \
    decreases self.children@.len() - index + (if more { 1int } else { 0int }) \
    { let x = { __body }; match x { Some(c) => { out.push(c); } None => { more = false; } } } out }
//@ rewrite Box::new(iter) => iter
//@ rewrite let mut index = 0; => let mut index: usize = 0;
//@ end
//@ fn src/parser_rule_context.rs ParseTree<'input> for BaseParserRuleContext::get_text
//@ sig
fn get_text(&self) -> (r: Str)
    ensures r.s() == text(Tr::Rule(*self))
    decreases *self, 0int
//@ rewrite String::new() => Str::new()
//@ rewrite result += &__e => result.push_all(&__e)
//@ rewrite for child in children { __body } => let mut gi: usize = 0; while gi < children.len() \
    invariant gi <= children@.len(), children@.len() == self.children@.len(), forall|i: int| 0 <= i < children@.len() ==> *(#[trigger] children@[i]) == self.children@[i], result.s() == text_n(self.children, gi as int) decreases children.len() - gi \
    { let child = children[gi]; proof { assert(*child == self.children@[gi as int]); } __body; gi = gi + 1; }
//@ end
//@ fn src/parser_rule_context.rs ParseTree<'input> for BaseParserRuleContext::get_source_interval
//@ sig
fn get_source_interval(&self) -> (r: Interval)
    ensures r.a == self.start.index && r.b == self.stop.index
//@ end
    // generated code: enter_every_rule / exit_every_rule, then the rule's own callback
    pub fn enter(&self, l: &mut Lst) ensures final(l).log@ == old(l).log@.push(Ev::Enter(self.id as int)) { l.enter_every_rule(self) }
    pub fn exit(&self, l: &mut Lst) ensures final(l).log@ == old(l).log@.push(Ev::Exit(self.id as int)) { l.exit_every_rule(self) }
}
// dynamic dispatch on the kind of node; leaves have no children (the default methods of `Tree`)
impl Tr {
    pub fn deref(&self) -> (r: &Tr) ensures *r == *self { self }
    pub fn get_node_text(&self, names: &Vec<Str>) -> (r: Str) requires rules_ok(*self, names@.len() as int) ensures r.s() == node_text(*self, names@) { match self { Tr::Rule(r) => r.get_node_text(names), Tr::Term(r) => r.get_node_text(names), Tr::Error(r) => r.get_node_text(names) } }
    pub fn get_text(&self) -> (r: Str) ensures r.s() == text(*self) decreases *self, 1int { match self { Tr::Rule(r) => r.get_text(), Tr::Term(r) => r.get_text(), Tr::Error(r) => r.get_text() } }
    pub fn get_child_count(&self) -> (r: usize) ensures r == kids(*self).len() { match self { Tr::Rule(r) => r.get_child_count(), Tr::Term(r) => r.get_child_count(), Tr::Error(r) => r.get_child_count() } }
    pub fn get_children(&self) -> (r: Vec<&Tr>) ensures r@.len() == kids(*self).len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == kids(*self)[i] { match self { Tr::Rule(r) => r.get_children(), _ => Vec::new() } }
    pub fn enter(&self, l: &mut Lst) ensures final(l).log@ == (match *self { Tr::Rule(r) => old(l).log@.push(Ev::Enter(r.id as int)), Tr::Term(n) => old(l).log@.push(Ev::Term(n.symbol)), Tr::Error(n) => old(l).log@.push(Ev::Error(n.symbol)) })
        { match self { Tr::Rule(r) => r.enter(l), Tr::Term(r) => r.enter(l), Tr::Error(r) => r.enter(l) } }
    pub fn exit(&self, l: &mut Lst) ensures final(l).log@ == (match *self { Tr::Rule(r) => old(l).log@.push(Ev::Exit(r.id as int)), _ => old(l).log@ })
        { match self { Tr::Rule(r) => r.exit(l), Tr::Term(r) => r.exit(l), Tr::Error(r) => r.exit(l) } }
}
pub fn own(s: &Str) -> (r: Str) ensures r.s() == s.s() { s.clone() }
//@ fn src/utils.rs escape_whitespaces
//@ sig
fn escape_whitespaces(data: Str, escape_spaces: bool) -> (r: Str)
    ensures r.s() == esc(data.s(), escape_spaces)
//@ rewrite data.borrow() => &data
//@ rewrite String::with_capacity(__n) => Str::new()
//@ rewrite res.extend(__e.chars()) => res.push_lit(__e)
//@ rewrite data.chars().for_each(|ch| __body) => { let mut gi: usize = 0; while gi < data.len() invariant gi <= data.s().len(), res.s() == esc(data.s().take(gi as int), escape_spaces) decreases data.s().len() - gi \
    { let ch = data.at(gi); let ghost r0 = res.s(); __body; gi = gi + 1; proof { let tk = data.s().take(gi as int); assert(tk.drop_last() =~= data.s().take(gi - 1)); assert(tk.last() == ch); assert(r0.push(ch) =~= r0 + seq![ch]); } } proof { assert(data.s().take(data.s().len() as int) =~= data.s()); } }
//@ end
//@ fn src/trees.rs get_node_text
//@ sig
fn get_node_text(t: &Tr, rule_names: &Vec<Str>) -> (r: Str)
    requires rules_ok(*t, rule_names@.len() as int)
    ensures r.s() == node_text(*t, rule_names@)
//@ end
pub mod utils { pub use super::escape_whitespaces; }
//@ fn src/trees.rs string_tree
//@ sig
fn string_tree(tree: &Tr, rule_names: &Vec<Str>) -> (r: Str)
    requires rules_ok(*tree, rule_names@.len() as int)
    ensures r.s() == lisp(*tree, rule_names@)
    decreases *tree
//@ rewrite String::new() => Str::new()
//@ rewrite result.extend(s.chars()) => result.push_all(&s)
//@ rewrite acc.extend(text.chars()) => acc.push_all(&text)
//@ rewrite tree.get_children().map(|child| __e).fold(result, |mut acc, text| { __body }) => { let ch = tree.get_children(); let ghost r0 = result.s(); let mut acc = result; let mut gi: usize = 0; \
    let ghost cv = tree->Rule_0.children; while gi < ch.len() \
    invariant *tree is Rule, cv == tree->Rule_0.children, gi <= ch@.len(), ch@.len() == cv@.len(), forall|i: int| 0 <= i < ch@.len() ==> *(#[trigger] ch@[i]) == cv@[i], rules_ok_n(cv, rule_names@.len() as int, cv@.len() as int), \
       acc.s() == r0 + lisp_n(cv, rule_names@, gi as int) decreases ch.len() - gi \
    { let child = ch[gi]; let ghost a0 = acc.s(); proof { lemma_rules(cv, rule_names@.len() as int, cv@.len() as int, gi as int); assert(*child == cv@[gi as int]); } let text = __e; acc = { __body }; gi = gi + 1; \
      proof { assert(acc.s() =~= r0 + lisp_n(cv, rule_names@, gi as int)); } } acc }
//@ at after result.push(')')
    proof { assert(result.s() =~= lisp(*tree, rule_names@)); }
//@ end
pub struct ParseTreeWalker { pub x: usize }
impl ParseTreeWalker {
//@ fn src/tree.rs ParseTreeWalker::walk_inner
//@ sig
fn walk_inner(listener: &mut Lst, t: &Tr)
    ensures final(listener).log@ == old(listener).log@ + events(*t)
    decreases *t
//@ rewrite for child in t.get_children() { __body } => let ch = t.get_children(); let ghost l1 = listener.log@; let mut gi: usize = 0; let ghost cv = t->Rule_0.children; while gi < ch.len() \
    invariant gi <= ch@.len(), ch@.len() == kids(*t).len(), *t is Rule ==> cv == t->Rule_0.children, forall|i: int| 0 <= i < ch@.len() ==> *(#[trigger] ch@[i]) == kids(*t)[i], \
        *t is Rule ==> listener.log@ == l1 + events_n(cv, gi as int), !(*t is Rule) ==> listener.log@ == l1 && gi == 0 decreases ch.len() - gi \
    { let child = ch[gi]; proof { assert(*child == cv@[gi as int]); } __body; gi = gi + 1; proof { assert(listener.log@ =~= l1 + events_n(cv, gi as int)); } }
//@ at fn end
    proof { assert(listener.log@ =~= old(listener).log@ + events(*t)); }
//@ end
//@ fn src/tree.rs ParseTreeWalker::walk
//@ sig
fn walk(listener: Lst, t: &Tr) -> (r: Lst)
    ensures r.log@ == listener.log@ + events(*t)
//@ rewrite Self::walk_inner(listener.as_mut().coerce_mut_to(), t.coerce_ref_to()); => let mut listener = listener; Self::walk_inner(&mut listener, t);
//@ end
}
} // verus!
fn main() {}
