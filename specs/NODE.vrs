#![allow(unused)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
// What P17 assumes of a tree node (`Heap`), proved of the real node type. The RefCells and Cells
// are erased: `&self` becomes `&mut self` where a method writes through them.
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Tok { pub ttype: isize, pub index: isize }
pub open spec fn invalid_tok() -> Tok { Tok { ttype: 0, index: -1isize } }
pub fn create_invalid() -> (r: Tok) ensures r == invalid_tok() { Tok { ttype: 0, index: -1 } }
pub open spec fn tok_or(o: Option<Tok>) -> Tok { match o { Some(t) => t, None => invalid_tok() } }
// Rc<Ctx::Type>, and Weak
pub struct Rcn { pub id: Ghost<int> }
pub struct Wk { pub id: Ghost<int> }
impl Rcn { pub fn clone(&self) -> (r: Rcn) ensures r == *self { Rcn { id: Ghost(self.id@) } } }
pub open spec fn oid(o: Option<Rcn>) -> Option<int> { match o { Some(n) => Some(n.id@), None => None } }
pub open spec fn owid(o: Option<Wk>) -> Option<int> { match o { Some(n) => Some(n.id@), None => None } }
pub fn downgrade_opt(o: &Option<Rcn>) -> (r: Option<Wk>) ensures owid(r) == oid(*o) { match o { Some(n) => Some(Wk { id: Ghost(n.id@) }), None => None } }
// Weak::upgrade of a node that is still alive
pub fn upgrade_opt(o: &Option<Wk>) -> (r: Option<Rcn>) ensures oid(r) == owid(*o) { match o { Some(n) => Some(Rcn { id: Ghost(n.id@) }), None => None } }
pub struct ExtCtx { pub rule: usize }
impl ExtCtx { pub fn get_rule_index(&self) -> (r: usize) ensures r == self.rule { self.rule } }
pub type Ctx = ExtCtx;
pub struct BaseRuleContext { pub parent_ctx: Option<Wk>, pub invoking_state: isize, pub ext: ExtCtx }
impl BaseRuleContext {
//@ fn src/rule_context.rs BaseRuleContext::new_parser_ctx
//@ sig
fn new_parser_ctx(parent_ctx: Option<Rcn>, invoking_state: isize, ext: ExtCtx) -> (r: Self)
    ensures owid(r.parent_ctx) == oid(parent_ctx), r.invoking_state == invoking_state, r.ext == ext
//@ rewrite RefCell::new(parent_ctx.as_ref().map(Rc::downgrade)) => downgrade_opt(&parent_ctx)
//@ rewrite Cell::new(__x) => __x
//@ end
//@ fn src/rule_context.rs CustomRuleContext<'input> for BaseRuleContext::get_rule_index {ret=r nopub}
    ensures r == self.ext.rule
//@ end
//@ fn src/rule_context.rs RuleContext<'input> for BaseRuleContext::get_invoking_state {ret=r nopub}
    ensures r == self.invoking_state
//@ rewrite self.invoking_state.get() => self.invoking_state
//@ end
//@ fn src/rule_context.rs RuleContext<'input> for BaseRuleContext::set_invoking_state
//@ sig
fn set_invoking_state(&mut self, t: isize)
    ensures *final(self) == (BaseRuleContext { invoking_state: t, ..*old(self) })
//@ rewrite self.invoking_state.set(__t) => self.invoking_state = __t
//@ end
//@ fn src/rule_context.rs RuleContext<'input> for BaseRuleContext::get_parent_ctx
//@ sig
fn get_parent_ctx(&self) -> (r: Option<Rcn>)
    ensures oid(r) == owid(self.parent_ctx)
//@ rewrite self.parent_ctx.borrow().as_ref().map(Weak::upgrade).flatten() => upgrade_opt(&self.parent_ctx)
//@ end
//@ fn src/rule_context.rs RuleContext<'input> for BaseRuleContext::set_parent
//@ sig
fn set_parent(&mut self, parent: &Option<Rcn>)
    ensures *final(self) == (BaseRuleContext { parent_ctx: final(self).parent_ctx, ..*old(self) }), owid(final(self).parent_ctx) == oid(*parent)
//@ rewrite *self.parent_ctx.borrow_mut() = parent.as_ref().map(Rc::downgrade) => self.parent_ctx = downgrade_opt(parent)
//@ end
//@ fn src/rule_context.rs trait RuleContext::is_empty {ret=r nopub}
    ensures r == (self.invoking_state == -1)
//@ end
}
pub struct Exc { pub x: usize }
pub struct BaseParserRuleContext { pub base: BaseRuleContext, pub start: Tok, pub stop: Tok, pub exception: Option<Exc>, pub children: Vec<Rcn> }
pub open spec fn ids(s: Seq<Rcn>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i].id@) }
#[verifier::external_body]
pub fn cloned(o: Option<&Rcn>) -> (r: Option<Rcn>) ensures r == (match o { Some(x) => Some(*x), None => None }) { unimplemented!() }
// copies the references (Rc::clone of every child, through get_child)
#[verifier::external_body]
pub fn collect_children(ctx: &BaseParserRuleContext) -> (r: Vec<Rcn>) ensures r@ == ctx.children@ { unimplemented!() }
impl BaseParserRuleContext {
//@ fn src/parser_rule_context.rs BaseParserRuleContext::new_parser_ctx
//@ sig
fn new_parser_ctx(parent_ctx: Option<Rcn>, invoking_state: isize, ext: ExtCtx) -> (r: Self)
    ensures owid(r.base.parent_ctx) == oid(parent_ctx), r.base.invoking_state == invoking_state, r.base.ext == ext, r.start == invalid_tok(), r.stop == invalid_tok(), r.children@.len() == 0
//@ rewrite RefCell::new(__x) => __x
//@ rewrite Ctx::TF::create_invalid() => create_invalid()
//@ end
//@ fn src/parser_rule_context.rs BaseParserRuleContext::copy_from
//@ sig
fn copy_from(ctx: &BaseParserRuleContext, ext: ExtCtx) -> (r: Self)
    // a labelled context takes over everything the replaced one held
    ensures owid(r.base.parent_ctx) == owid(ctx.base.parent_ctx), r.base.invoking_state == ctx.base.invoking_state, r.base.ext == ext, r.start == ctx.start, r.stop == ctx.stop, r.children@ == ctx.children@
//@ rewrite RefCell::new(__x) => __x
//@ rewrite ctx.get_children().collect() => collect_children(ctx)
//@ rewrite ctx.start_mut() => ctx.start
//@ rewrite ctx.stop_mut() => ctx.stop
//@ end
//@ fn src/parser_rule_context.rs RuleContext<'input> for BaseParserRuleContext::get_invoking_state {ret=r nopub}
    ensures r == self.base.invoking_state
//@ end
//@ fn src/parser_rule_context.rs RuleContext<'input> for BaseParserRuleContext::set_invoking_state
//@ sig
fn set_invoking_state(&mut self, t: isize)
    ensures *final(self) == (BaseParserRuleContext { base: BaseRuleContext { invoking_state: t, ..old(self).base }, ..*old(self) })
//@ end
//@ fn src/parser_rule_context.rs RuleContext<'input> for BaseParserRuleContext::get_parent_ctx
//@ sig
fn get_parent_ctx(&self) -> (r: Option<Rcn>)
    ensures oid(r) == owid(self.base.parent_ctx)
//@ end
//@ fn src/parser_rule_context.rs RuleContext<'input> for BaseParserRuleContext::set_parent
//@ sig
fn set_parent(&mut self, parent: &Option<Rcn>)
    ensures *final(self) == (BaseParserRuleContext { base: BaseRuleContext { parent_ctx: final(self).base.parent_ctx, ..old(self).base }, ..*old(self) }), owid(final(self).base.parent_ctx) == oid(*parent)
//@ end
//@ fn src/parser_rule_context.rs CustomRuleContext<'input> for BaseParserRuleContext::get_rule_index {ret=r nopub}
    ensures r == self.base.ext.rule
//@ end
//@ fn src/parser_rule_context.rs ParserRuleContext<'input> for BaseParserRuleContext::set_start
//@ sig
fn set_start(&mut self, t: Option<Tok>)
    ensures *final(self) == (BaseParserRuleContext { start: tok_or(t), ..*old(self) })
//@ rewrite *self.start.borrow_mut() = __x => self.start = __x
//@ rewrite Ctx::TF::create_invalid().clone() => create_invalid()
//@ end
//@ fn src/parser_rule_context.rs ParserRuleContext<'input> for BaseParserRuleContext::set_stop
//@ sig
fn set_stop(&mut self, t: Option<Tok>)
    ensures *final(self) == (BaseParserRuleContext { stop: tok_or(t), ..*old(self) })
//@ rewrite *self.stop.borrow_mut() = __x => self.stop = __x
//@ rewrite Ctx::TF::create_invalid().clone() => create_invalid()
//@ end
//@ fn src/parser_rule_context.rs ParserRuleContext<'input> for BaseParserRuleContext::start
//@ sig
fn start(&self) -> (r: &Tok)
    ensures *r == self.start
//@ rewrite Ref::map(self.start.borrow(), |t| t.borrow()) => &self.start
//@ end
//@ fn src/parser_rule_context.rs ParserRuleContext<'input> for BaseParserRuleContext::stop
//@ sig
fn stop(&self) -> (r: &Tok)
    ensures *r == self.stop
//@ rewrite Ref::map(self.stop.borrow(), |t| t.borrow()) => &self.stop
//@ end
//@ fn src/parser_rule_context.rs ParserRuleContext<'input> for BaseParserRuleContext::start_mut
//@ sig
fn start_mut(&self) -> (r: Tok)
    ensures r == self.start
//@ rewrite self.start.borrow_mut() => self.start
//@ end
//@ fn src/parser_rule_context.rs ParserRuleContext<'input> for BaseParserRuleContext::stop_mut
//@ sig
fn stop_mut(&self) -> (r: Tok)
    ensures r == self.stop
//@ rewrite self.stop.borrow_mut() => self.stop
//@ end
//@ fn src/parser_rule_context.rs ParserRuleContext<'input> for BaseParserRuleContext::add_child
//@ sig
fn add_child(&mut self, child: Rcn)
    ensures final(self).children@ == old(self).children@.push(child), *final(self) == (BaseParserRuleContext { children: final(self).children, ..*old(self) })
//@ rewrite self.children.borrow_mut() => self.children
//@ end
//@ fn src/parser_rule_context.rs ParserRuleContext<'input> for BaseParserRuleContext::remove_last_child
//@ sig
fn remove_last_child(&mut self)
    ensures final(self).children@ == (if old(self).children@.len() > 0 { old(self).children@.drop_last() } else { old(self).children@ }), *final(self) == (BaseParserRuleContext { children: final(self).children, ..*old(self) })
//@ rewrite self.children.borrow_mut() => self.children
//@ end
//@ fn src/parser_rule_context.rs Tree<'input> for BaseParserRuleContext::get_parent
//@ sig
fn get_parent(&self) -> (r: Option<Rcn>)
    ensures oid(r) == owid(self.base.parent_ctx)
//@ end
//@ fn src/parser_rule_context.rs Tree<'input> for BaseParserRuleContext::has_parent {ret=r nopub}
    ensures r == (self.base.parent_ctx is Some)
//@ rewrite self.base.parent_ctx.borrow() => self.base.parent_ctx
//@ end
//@ fn src/parser_rule_context.rs Tree<'input> for BaseParserRuleContext::get_child
//@ sig
fn get_child(&self, i: usize) -> (r: Option<Rcn>)
    ensures r == (if i < self.children@.len() { Some(self.children@[i as int]) } else { None::<Rcn> })
//@ rewrite self.children.borrow().get(i).cloned() => cloned(self.children.get(i))
//@ end
//@ fn src/parser_rule_context.rs Tree<'input> for BaseParserRuleContext::get_child_count
//@ sig
fn get_child_count(&self) -> (r: usize)
    ensures r == self.children@.len()
//@ rewrite self.children.borrow() => self.children
//@ end
}
} // verus!
fn main() {}
