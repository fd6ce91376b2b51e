//! Runs the real parser runtime on a compiled grammar, calling it the way generated parsers do,
//! and an independent (backtracking, continuation-passing) parser used as the oracle.
use crate::gram::*;
use crate::Rng;
use antlr_rust::atn::ATN;
use antlr_rust::common_token_stream::CommonTokenStream;
use antlr_rust::dfa::DFA;
use antlr_rust::error_listener::ErrorListener;
use antlr_rust::errors::*;
use antlr_rust::int_stream::IntStream;
use antlr_rust::parser::{BaseParser, Parser, ParserNodeType, ParserRecog};
use antlr_rust::parser_atn_simulator::ParserATNSimulator;
use antlr_rust::parser_rule_context::{BaseParserRuleContext, ParserRuleContext};
use antlr_rust::recognizer::Actions;
use antlr_rust::rule_context::CustomRuleContext;
use antlr_rust::token::Token;
use antlr_rust::token_factory::{CommonTokenFactory, TokenAware, TokenFactory};
use antlr_rust::token_stream::TokenStream;
use antlr_rust::tree::*;
use antlr_rust::vocabulary::{Vocabulary, VocabularyImpl};
use antlr_rust::{BailErrorStrategy, DefaultErrorStrategy, ErrorStrategy, PredictionContextCache, RwLock, TidExt, TokenSource};
use std::cell::RefCell;
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::Arc;

type TF = CommonTokenFactory;

// ---------------------------------------------------------------- token source
pub struct VecSource<'input> {
    pub toks: Vec<(isize, isize)>,
    pub i: usize,
    pub fetched: Rc<RefCell<usize>>,
    ph: PhantomData<&'input str>,
}
impl<'input> VecSource<'input> {
    pub fn new(t: &[(isize, isize)]) -> Self {
        VecSource { toks: t.to_vec(), i: 0, fetched: Default::default(), ph: PhantomData }
    }
}
antlr_rust::tid! { VecSource<'a> }
pub fn tok_text(ty: isize, i: usize) -> String {
    format!("{}{}", (b'a' + (ty.max(1) as u8 - 1) % 26) as char, i)
}
impl<'input> TokenSource<'input> for VecSource<'input> {
    type TF = TF;
    fn next_token(&mut self) -> <TF as TokenFactory<'input>>::Tok {
        let tf: &TF = <&TF as Default>::default();
        let i = self.i;
        *self.fetched.borrow_mut() += 1;
        if i >= self.toks.len() {
            return tf.create(None::<&mut antlr_rust::InputStream<&str>>, -1, Some("<EOF>".into()), 0, i as isize * 10, i as isize * 10 - 1, 1, i as isize);
        }
        self.i += 1;
        let (ty, ch) = self.toks[i];
        tf.create(None::<&mut antlr_rust::InputStream<&str>>, ty, Some(tok_text(ty, i)), ch, i as isize * 10, i as isize * 10 + 1, 1, i as isize)
    }
    fn get_input_stream(&mut self) -> Option<&mut dyn IntStream> {
        None
    }
    fn get_source_name(&self) -> String {
        "vec".into()
    }
    fn get_token_factory(&self) -> &'input TF {
        <&TF as Default>::default()
    }
}
/// a common token stream that keeps account of the marks held on it
pub struct Stream<'i> {
    inner: CommonTokenStream<'i, VecSource<'i>>,
    pub marks: Vec<isize>,
    next: isize,
}
impl<'i> Stream<'i> {
    pub fn new(src: VecSource<'i>) -> Self {
        Stream { inner: CommonTokenStream::new(src), marks: vec![], next: 0 }
    }
}
impl<'i> IntStream for Stream<'i> {
    fn consume(&mut self) {
        self.inner.consume()
    }
    fn la(&mut self, i: isize) -> isize {
        self.inner.la(i)
    }
    fn mark(&mut self) -> isize {
        self.next += 1;
        self.marks.push(self.next);
        self.next
    }
    fn release(&mut self, marker: isize) {
        assert_eq!(self.marks.pop(), Some(marker), "marks are released in reverse order");
    }
    fn index(&self) -> isize {
        self.inner.index()
    }
    fn seek(&mut self, i: isize) {
        self.inner.seek(i)
    }
    fn size(&self) -> isize {
        self.inner.size()
    }
    fn get_source_name(&self) -> String {
        self.inner.get_source_name()
    }
}
impl<'i> TokenStream<'i> for Stream<'i> {
    type TF = <VecSource<'i> as TokenSource<'i>>::TF;
    fn lt(&mut self, k: isize) -> Option<&<Self::TF as TokenFactory<'i>>::Tok> {
        self.inner.lt(k)
    }
    fn get(&self, index: isize) -> &<Self::TF as TokenFactory<'i>>::Tok {
        self.inner.get(index)
    }
    fn get_token_source(&self) -> &dyn TokenSource<'i, TF = Self::TF> {
        self.inner.get_token_source()
    }
    fn get_text_from_interval(&self, start: isize, stop: isize) -> String {
        self.inner.get_text_from_interval(start, stop)
    }
}

// ---------------------------------------------------------------- context types
pub trait XContext<'input>: for<'x> Listenable<dyn XListener<'input> + 'x> + ParserRuleContext<'input, TF = TF, Ctx = XType> {}
antlr_rust::coerce_from! { 'input : XContext<'input> }
impl<'input> XContext<'input> for TerminalNode<'input, XType> {}
impl<'input> XContext<'input> for ErrorNode<'input, XType> {}
antlr_rust::tid! { impl<'input> TidAble<'input> for dyn XContext<'input> + 'input }
antlr_rust::tid! { impl<'input> TidAble<'input> for dyn XListener<'input> + 'input }
pub struct XType;
antlr_rust::tid! { XType }
impl<'input> ParserNodeType<'input> for XType {
    type TF = TF;
    type Type = dyn XContext<'input> + 'input;
}
pub trait XListener<'input>: ParseTreeListener<'input, XType> {
    fn enter_rule(&mut self, _c: &Ctx<'input>) {}
    fn exit_rule(&mut self, _c: &Ctx<'input>) {}
}
antlr_rust::coerce_from! { 'input : XListener<'input> }

pub type Ctx<'input> = BaseParserRuleContext<'input, Ext<'input>>;
pub struct Ext<'input> {
    pub rule: usize,
    pub label: isize,
    ph: PhantomData<&'input str>,
}
antlr_rust::tid! { Ext<'a> }
impl<'input> CustomRuleContext<'input> for Ext<'input> {
    type TF = TF;
    type Ctx = XType;
    fn get_rule_index(&self) -> usize {
        self.rule
    }
}
impl<'input> XContext<'input> for Ctx<'input> {}
impl<'input, 'a> Listenable<dyn XListener<'input> + 'a> for Ctx<'input> {
    fn enter(&self, l: &mut (dyn XListener<'input> + 'a)) {
        l.enter_every_rule(self);
        l.enter_rule(self);
    }
    fn exit(&self, l: &mut (dyn XListener<'input> + 'a)) {
        l.exit_rule(self);
        l.exit_every_rule(self);
    }
}
pub fn new_ctx<'input>(parent: Option<Rc<dyn XContext<'input> + 'input>>, st: isize, rule: usize) -> Rc<Ctx<'input>> {
    Rc::new(BaseParserRuleContext::new_parser_ctx(parent, st, Ext { rule, label: 0, ph: PhantomData }))
}

// ---------------------------------------------------------------- parser
pub struct PExt<'input> {
    pub preds: Vec<bool>,
    /// overrides `preds`: rule, predicate, given the local context?
    pub pfun: Option<Rc<dyn Fn(isize, isize, bool) -> bool>>,
    /// where the running prediction started, and where it asked for a predicate instead
    pub deciding: Option<isize>,
    pub strayed: Vec<(isize, isize)>,
    names: Vec<&'static str>,
    vocab: VocabularyImpl,
    ph: PhantomData<&'input str>,
}
antlr_rust::tid! { PExt<'a> }
impl<'input> TokenAware<'input> for PExt<'input> {
    type TF = TF;
}
pub type Base<'input> = BaseParser<'input, PExt<'input>, Stream<'input>, XType, dyn XListener<'input> + 'input>;
impl<'input> ParserRecog<'input, Base<'input>> for PExt<'input> {}
impl<'input> Actions<'input, Base<'input>> for PExt<'input> {
    fn get_grammar_file_name(&self) -> &str {
        "X.g4"
    }
    fn get_rule_names(&self) -> &[&str] {
        &self.names
    }
    fn get_vocabulary(&self) -> &dyn Vocabulary {
        &self.vocab
    }
    fn sempred(l: Option<&(dyn XContext<'input> + 'input)>, r: isize, p: isize, recog: &mut Base<'input>) -> bool {
        let here = recog.input.index();
        if let Some(at) = recog.deciding.filter(|at| *at != here) {
            recog.strayed.push((at, here));
        }
        if let Some(f) = &recog.pfun {
            return f(r, p, l.is_some());
        }
        // the context is that of the rule with the predicate, and given when asked for
        if (p as usize >= CTX_DEP) != l.is_some() || l.map_or(false, |c| c.get_rule_index() as isize != r) {
            recog.strayed.push((-100 - p, here));
        }
        recog.preds[p as usize % CTX_DEP]
    }
}
const NAMES: [&str; 12] = ["r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7", "r8", "r9", "r10", "r11"];

#[derive(Clone)]
pub struct PEnv {
    pub atn: Arc<ATN>,
    pub dfas: Arc<Vec<RwLock<DFA>>>,
    pub cache: Arc<PredictionContextCache>,
    pub nodes: Arc<Vec<N>>,
    pub gram: Arc<Gram>,
    pub starts: Arc<Vec<isize>>,
}
impl PEnv {
    pub fn new(g: &Gram) -> PEnv {
        let b = build(g);
        let atn = b.raw.atn();
        let d = dfas(&atn);
        PEnv {
            dfas: d,
            atn,
            cache: Arc::new(PredictionContextCache::new()),
            nodes: Arc::new(b.nodes),
            gram: Arc::new(g.clone()),
            starts: Arc::new(b.raw.rules.iter().map(|r| r.0 as isize).collect()),
        }
    }
    pub fn fresh(&self) -> PEnv {
        let mut e = self.clone();
        e.dfas = dfas(&self.atn);
        e.cache = Arc::new(PredictionContextCache::new());
        e
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum PT {
    Rule { rule: usize, start: isize, stop: isize, label: isize, kids: Vec<PT>, text: String },
    /// type, token index, text, error node?
    Leaf(isize, isize, String, bool),
}
impl PT {
    pub fn leaves(&self, out: &mut Vec<(isize, isize, String, bool)>) {
        match self {
            PT::Leaf(a, b, c, d) => out.push((*a, *b, c.clone(), *d)),
            PT::Rule { kids, .. } => kids.iter().for_each(|k| k.leaves(out)),
        }
    }
    /// shape only: rules and token indices
    pub fn shape(&self) -> String {
        match self {
            PT::Leaf(t, i, ..) => {
                if *t == -1 {
                    "EOF".to_string()
                } else {
                    format!("{}@{}", t, i)
                }
            }
            PT::Rule { rule, kids, .. } => format!("(r{} {})", rule, kids.iter().map(|k| k.shape()).collect::<Vec<_>>().join(" ")),
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct PErr {
    pub tok: isize,
    pub line: isize,
    pub col: isize,
    pub msg: String,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Enter(usize),
    Exit(usize),
    Term(isize, isize),
    Error(isize, isize),
    /// a syntax error was reported (only with RunOpt::trace)
    Report(isize),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Pred {
    pub decision: usize,
    pub at: isize,
    pub after: isize,
    /// marks on the stream gained by the call
    pub leaked: isize,
    pub res: Result<isize, ()>,
    /// where the failure was noticed (-7: no failure or no token)
    pub err_tok: isize,
    /// a conflict made the call start over with the full context
    pub full: bool,
}
thread_local! { static FULL: std::cell::Cell<bool> = std::cell::Cell::new(false); }
#[derive(Clone, Debug, PartialEq, Default)]
pub struct PRun {
    pub tree: Option<PT>,
    pub errs: Vec<PErr>,
    pub preds: Vec<Pred>,
    /// predicates evaluated at another position than that of the decision: (decision's, theirs)
    pub strayed: Vec<(isize, isize)>,
    pub events: Vec<Ev>,
    /// the same, as another listener attached after it saw it
    pub events2: Vec<Ev>,
    pub walk: Vec<Ev>,
    pub index: isize,
    pub failed: bool,
    pub tree_err: Option<String>,
    pub string_tree: String,
    /// state, invoking states (innermost first), what the parser says can come next
    pub expected: Vec<(usize, Vec<usize>, std::collections::BTreeSet<isize>)>,
}

struct Listen(Rc<RefCell<Vec<PErr>>>, Option<Rc<RefCell<Vec<Ev>>>>);
impl<'input> ErrorListener<'input, Base<'input>> for Listen {
    fn report_attempting_full_context(&self, _r: &Base<'input>, _d: &DFA, _a: isize, _b: isize, _c: &bit_set::BitSet, _s: &antlr_rust::atn_config_set::ATNConfigSet) {
        FULL.with(|f| f.set(true));
    }
    fn syntax_error(&self, _r: &Base<'input>, o: Option<&<TF as TokenFactory<'input>>::Inner>, line: isize, col: isize, msg: &str, _e: Option<&ANTLRError>) {
        if let Some(l) = &self.1 {
            l.borrow_mut().push(Ev::Report(o.map(|x| x.get_token_index()).unwrap_or(-7)));
        }
        self.0.borrow_mut().push(PErr { tok: o.map(|x| x.get_token_index()).unwrap_or(-7), line, col, msg: msg.to_string() });
    }
}
pub struct EvLog(pub Rc<RefCell<Vec<Ev>>>);
impl<'input> ParseTreeListener<'input, XType> for EvLog {
    fn visit_terminal(&mut self, n: &TerminalNode<'input, XType>) {
        self.0.borrow_mut().push(Ev::Term(n.symbol.get_token_type(), n.symbol.get_token_index()));
    }
    fn visit_error_node(&mut self, n: &ErrorNode<'input, XType>) {
        self.0.borrow_mut().push(Ev::Error(n.symbol.get_token_type(), n.symbol.get_token_index()));
    }
    fn enter_every_rule(&mut self, c: &(dyn XContext<'input> + 'input)) {
        self.0.borrow_mut().push(Ev::Enter(c.get_rule_index()));
    }
    fn exit_every_rule(&mut self, c: &(dyn XContext<'input> + 'input)) {
        self.0.borrow_mut().push(Ev::Exit(c.get_rule_index()));
    }
}
impl<'input> XListener<'input> for EvLog {}

pub struct P<'input, H: ErrorStrategy<'input, Base<'input>>> {
    pub base: Base<'input>,
    interp: Arc<ParserATNSimulator>,
    pub err: H,
    env: PEnv,
    preds: Vec<Pred>,
    steps: usize,
    label: bool,
    expect: bool,
    expected: Vec<(usize, Vec<usize>, std::collections::BTreeSet<isize>)>,
}

type R<T> = Result<T, ANTLRError>;

impl<'input, H: ErrorStrategy<'input, Base<'input>>> P<'input, H> {
    pub fn predict(&mut self, d: usize) -> R<isize> {
        let at = self.base.input.index();
        let held = self.base.input.marks.len();
        self.base.deciding = Some(at);
        FULL.with(|f| f.set(false));
        let r = self.interp.adaptive_predict(d as isize, &mut self.base);
        self.base.deciding = None;
        self.preds.push(Pred { decision: d, at, after: self.base.input.index(), leaked: self.base.input.marks.len() as isize - held as isize, res: r.as_ref().map(|x| *x).map_err(|_| ()),
            err_tok: r.as_ref().err().and_then(|e| e.get_offending_token()).map(|t| t.get_token_index()).unwrap_or(-7), full: FULL.with(|f| f.get()) });
        r
    }
    fn set_state(&mut self, s: usize) {
        self.steps += 1;
        if self.steps > 200_000 {
            panic!("parser does not terminate");
        }
        self.base.set_state(s as isize);
        if self.expect && self.expected.len() < 60 {
            let mut st = vec![];
            let mut c = Some(self.base.get_parser_rule_context().clone());
            while let Some(x) = c {
                if x.get_invoking_state() < 0 {
                    break;
                }
                st.push(x.get_invoking_state() as usize);
                c = x.get_parent_ctx();
            }
            let set = self.base.get_expected_tokens();
            self.expected.push((s, st, (-3..100).filter(|v| set.contains(*v)).collect()));
        }
    }
    fn no_alt(&mut self) -> ANTLRError {
        ANTLRError::NoAltError(NoViableAltError::new(&mut self.base))
    }
    fn failed(&mut self, txt: String) -> ANTLRError {
        FailedPredicateError::new(&mut self.base, Some(txt), None)
    }
    fn alts(&mut self, d: usize, alts: &[N], lr: Option<&Lr<'input>>) -> R<()> {
        let a = if d == usize::MAX { 1 } else { self.predict(d)? };
        if a < 1 || a as usize > alts.len() {
            return Err(self.no_alt());
        }
        self.node(&alts[a as usize - 1], lr)
    }
    /// `lr`: inside the operator loop of a left-recursive rule
    fn node(&mut self, n: &N, lr: Option<&Lr<'input>>) -> R<()> {
        if let Some(l) = lr {
            // recRuleAltStartAction
            let tmp = new_ctx(l.parent.clone(), l.parent_state, l.rule);
            self.base.push_new_recursion_context(tmp.clone(), l.start, l.rule);
            *l.local.borrow_mut() = tmp;
        }
        match n {
            N::Empty => {}
            N::Tok(s, e) => {
                self.set_state(*s);
                match e {
                    E::Atom(t) => {
                        self.base.match_token(*t as isize, &mut self.err)?;
                    }
                    E::Eof => {
                        self.base.match_token(-1, &mut self.err)?;
                    }
                    E::Any => {
                        self.base.match_wildcard(&mut self.err)?;
                    }
                    e => {
                        let la = self.base.input.la(1);
                        let max = self.env.gram.max_token;
                        if !denotes(e, la as i32, 1, max) {
                            self.err.recover_inline(&mut self.base)?;
                        } else {
                            if la == -1 {
                                self.base.matched_eof = true;
                            }
                            self.err.report_match(&mut self.base);
                            self.base.consume(&mut self.err);
                        }
                    }
                }
            }
            N::Ref(s, r, p) => {
                self.set_state(*s);
                self.rule(*r, *p)?;
            }
            N::Act(..) => {}
            N::Pred(s, i) => {
                self.set_state(*s);
                if !self.base.preds[*i % CTX_DEP] {
                    return Err(self.failed(format!("p{}", i)));
                }
            }
            N::PrecPred(s, p) => {
                self.set_state(*s);
                if !self.base.precpred(None, *p as isize) {
                    return Err(self.failed(format!("precpred({})", p)));
                }
            }
            N::Seq(v) => {
                for x in v {
                    self.node(x, None)?;
                }
            }
            N::Alt(s, d, alts) => {
                self.set_state(*s);
                self.err.sync(&mut self.base)?;
                self.alts(*d, alts, None)?;
            }
            N::Opt(s, d, alts, greedy) => {
                self.set_state(*s);
                self.err.sync(&mut self.base)?;
                let a = self.predict(*d)?;
                let i = if *greedy { a - 1 } else { a - 2 };
                if i >= 0 && (i as usize) < alts.len() {
                    self.node(&alts[i as usize], None)?;
                }
            }
            N::Star(s, back, d, blk, alts, greedy) => {
                self.star(*s, *back, *d, *blk, alts, *greedy, None)?;
            }
            N::Plus(s, bd, back, d, alts, greedy) => {
                self.set_state(*s);
                self.err.sync(&mut self.base)?;
                let exit = if *greedy { 2 } else { 1 };
                let it = 3 - exit;
                let mut a = it;
                loop {
                    if a != it {
                        return Err(self.no_alt());
                    }
                    if alts.len() > 1 {
                        self.set_state(*s);
                        self.err.sync(&mut self.base)?;
                    }
                    self.alts(*bd, alts, None)?;
                    self.set_state(*back);
                    self.err.sync(&mut self.base)?;
                    a = self.predict(*d)?;
                    if a == exit || a == 0 {
                        break;
                    }
                }
            }
        }
        Ok(())
    }
    #[allow(clippy::too_many_arguments)]
    fn star(&mut self, s: usize, back: usize, d: usize, blk: (usize, usize), alts: &[N], greedy: bool, lr: Option<&Lr<'input>>) -> R<()> {
        self.set_state(s);
        self.err.sync(&mut self.base)?;
        let mut a = self.predict(d)?;
        let exit = if greedy { 2 } else { 1 };
        while a != exit && a != 0 {
            if lr.is_some() {
                self.base.trigger_exit_rule_event();
            }
            if alts.len() > 1 {
                self.set_state(blk.0);
                self.err.sync(&mut self.base)?;
            }
            self.alts(blk.1, alts, lr)?;
            self.set_state(back);
            self.err.sync(&mut self.base)?;
            a = self.predict(d)?;
        }
        Ok(())
    }
    fn finish(&mut self, res: R<()>) -> R<()> {
        match res {
            Ok(()) => Ok(()),
            Err(e @ ANTLRError::FallThrough(_)) => Err(e),
            Err(re) => {
                self.err.report_error(&mut self.base, &re);
                self.err.recover(&mut self.base, &re)
            }
        }
    }
    pub fn rule(&mut self, r: usize, p: i32) -> R<Rc<Ctx<'input>>> {
        let nodes = self.env.nodes.clone();
        let start = self.env.starts[r];
        let parent = self.base.ctx.take();
        if self.env.gram.rules[r].leftrec {
            let pstate = self.base.get_state();
            let local = new_ctx(parent.clone(), pstate, r);
            self.base.enter_recursion_rule(local.clone(), start, r, p as isize);
            let lr = Lr { parent: parent.clone(), parent_state: pstate, rule: r, start, local: RefCell::new(local) };
            let res = (|| {
                self.base.enter_outer_alt(None, 1);
                let (prim, lp) = match &nodes[r] {
                    N::Seq(v) if v.len() == 2 => (&v[0], &v[1]),
                    _ => panic!("left-recursive rule form"),
                };
                self.node(prim, None)?;
                let tmp = self.base.input.lt(-1).cloned();
                self.base.ctx.as_ref().unwrap().set_stop(tmp);
                match lp {
                    N::Star(s, back, d, blk, alts, greedy) => self.star(*s, *back, *d, *blk, alts, *greedy, Some(&lr)),
                    _ => panic!("left-recursive rule form"),
                }
            })();
            self.finish(res)?;
            self.base.unroll_recursion_context(parent);
            let x = lr.local.borrow().clone();
            Ok(x)
        } else {
            let mut local = new_ctx(parent.clone(), self.base.get_state(), r);
            self.base.enter_rule(local.clone(), start, r);
            let label = self.label && r % 2 == 1;
            let res = (|| {
                if label {
                    let tmp: Rc<Ctx<'input>> = Rc::new(BaseParserRuleContext::copy_from(&*local, Ext { rule: r, label: 1, ph: PhantomData }));
                    self.base.enter_outer_alt(Some(tmp.clone()), 1);
                    local = tmp;
                } else {
                    self.base.enter_outer_alt(None, 1);
                }
                self.node(&nodes[r], None)
            })();
            self.finish(res)?;
            self.base.exit_rule();
            Ok(local)
        }
    }
}
struct Lr<'input> {
    parent: Option<Rc<dyn XContext<'input> + 'input>>,
    parent_state: isize,
    rule: usize,
    start: isize,
    local: RefCell<Rc<Ctx<'input>>>,
}

fn extract<'input>(n: &Rc<dyn XContext<'input> + 'input>, parent: Option<&Rc<dyn XContext<'input> + 'input>>, bad: &mut Option<String>) -> PT {
    if let Ok(t) = n.clone().downcast_rc::<TerminalNode<'input, XType>>() {
        let i = t.get_source_interval();
        if (i.a, i.b) != (t.symbol.get_token_index(), t.symbol.get_token_index()) {
            *bad = Some(format!("source interval of token {} is {:?}", t.symbol.get_token_index(), (i.a, i.b)));
        }
        return PT::Leaf(t.symbol.get_token_type(), t.symbol.get_token_index(), t.get_text(), false);
    }
    if let Ok(t) = n.clone().downcast_rc::<ErrorNode<'input, XType>>() {
        let i = t.get_source_interval();
        if (i.a, i.b) != (t.symbol.get_token_index(), t.symbol.get_token_index()) {
            *bad = Some(format!("source interval of token {} is {:?}", t.symbol.get_token_index(), (i.a, i.b)));
        }
        return PT::Leaf(t.symbol.get_token_type(), t.symbol.get_token_index(), t.get_text(), true);
    }
    let c = n.clone().downcast_rc::<Ctx<'input>>().unwrap_or_else(|_| panic!("unknown node"));
    let up = n.get_parent();
    let pp = |x: &Rc<dyn XContext<'input> + 'input>| Rc::as_ptr(x) as *const ();
    match (parent, &up) {
        (None, None) => {}
        (Some(a), Some(b)) if pp(a) == pp(b) => {}
        _ => *bad = Some(format!("parent of a node of rule {} is not the node holding it", n.get_rule_index())),
    }
    let kids: Vec<PT> = n.get_children().map(|k| extract(&k, Some(n), bad)).collect();
    for i in 0..n.get_child_count() {
        let a = n.get_child(i).unwrap();
        let b = n.get_children().nth(i).unwrap();
        if pp(&a) != pp(&b) {
            *bad = Some("get_child and get_children disagree".into());
        }
    }
    let start = c.start().get_token_index();
    let stop = c.stop().get_token_index();
    let i = n.get_source_interval();
    if (i.a, i.b) != (start, stop) {
        *bad = Some(format!("source interval of a node of rule {} from {} to {} is {:?}", n.get_rule_index(), start, stop, (i.a, i.b)));
    }
    PT::Rule { rule: n.get_rule_index(), start, stop, label: c.label, kids, text: n.get_text() }
}

#[derive(Clone, Default)]
pub struct RunOpt {
    pub bail: bool,
    pub listener: bool,
    pub label: bool,
    pub preds: Vec<bool>,
    pub no_tree: bool,
    pub trace: bool,
    /// record what is expected in each state passed
    pub expect: bool,
    /// rule to start with
    pub start: usize,
}

fn go<'input, H: ErrorStrategy<'input, Base<'input>>>(env: &PEnv, toks: &[(isize, isize)], o: &RunOpt, h: H) -> PRun {
    let interp = Arc::new(ParserATNSimulator::new(env.atn.clone(), env.dfas.clone(), env.cache.clone()));
    let stream: Stream<'input> = Stream::new(VecSource::new(toks));
    let lit: Vec<Option<&str>> = vec![];
    let sym: Vec<Option<&str>> = vec![None, Some("A"), Some("B"), Some("C"), Some("D"), Some("E"), Some("F")];
    let ext = PExt { preds: o.preds.clone(), pfun: None, deciding: None, strayed: vec![], names: NAMES.to_vec(), vocab: VocabularyImpl::new(lit.iter(), sym.iter(), None), ph: PhantomData };
    let mut base = BaseParser::new_base_parser(stream, interp.clone(), ext);
    base.remove_error_listeners();
    let errs = Rc::new(RefCell::new(vec![]));
    let evs = Rc::new(RefCell::new(vec![]));
    let evs2 = Rc::new(RefCell::new(vec![]));
    base.add_error_listener(Box::new(Listen(errs.clone(), if o.trace { Some(evs.clone()) } else { None })));
    if o.listener {
        base.add_parse_listener(Box::new(EvLog(evs.clone())));
        base.add_parse_listener(Box::new(EvLog(evs2.clone())));
    }
    base.build_parse_trees = !o.no_tree;
    let mut p = P { base, interp, err: h, env: env.clone(), preds: vec![], steps: 0, label: o.label, expect: o.expect, expected: vec![] };
    let r = p.rule(o.start, 0);
    let mut run = PRun { preds: p.preds.clone(), strayed: p.base.strayed.clone(), index: p.base.input.index(), failed: r.is_err(), ..Default::default() };
    if let Ok(c) = r {
        let mut bad = None;
        let n: Rc<dyn XContext<'input> + 'input> = c.clone();
        run.tree = Some(extract(&n, None, &mut bad));
        run.tree_err = bad;
        run.string_tree = n.to_string_tree(&p.base);
        let log = Rc::new(RefCell::new(vec![]));
        ParseTreeWalker::<'input, '_, XType, dyn XListener<'input> + '_>::walk(Box::new(EvLog(log.clone())), &*c);
        run.walk = log.borrow().clone();
    }
    run.errs = errs.borrow().clone();
    run.expected = p.expected.clone();
    run.events = evs.borrow().clone();
    run.events2 = evs2.borrow().clone();
    run
}

/// a parser (standing before the given tokens) inside a left-recursive rule of that precedence
pub fn with_parser<R>(env: &PEnv, toks: &[(isize, isize)], level: isize, pfun: Rc<dyn Fn(isize, isize, bool) -> bool>, f: impl for<'i> FnOnce(&mut Base<'i>, &(dyn XContext<'i> + 'i)) -> R) -> R {
    let interp = Arc::new(ParserATNSimulator::new(env.atn.clone(), env.dfas.clone(), env.cache.clone()));
    let stream = Stream::new(VecSource::new(toks));
    let e: Vec<Option<&str>> = vec![];
    let ext = PExt { preds: vec![], pfun: Some(pfun), deciding: None, strayed: vec![], names: NAMES.to_vec(), vocab: VocabularyImpl::new(e.iter(), e.iter(), None), ph: PhantomData };
    let mut base: Base = BaseParser::new_base_parser(stream, interp, ext);
    let c = new_ctx(None, -1, 0);
    if level >= 0 {
        base.enter_recursion_rule(c.clone(), 0, 0, level);
    }
    f(&mut base, &*c)
}
pub fn parse(env: &PEnv, toks: &[(isize, isize)], o: &RunOpt) -> PRun {
    if o.bail {
        go(env, toks, o, BailErrorStrategy::new())
    } else {
        go(env, toks, o, DefaultErrorStrategy::new())
    }
}
pub fn on0(t: &[isize]) -> Vec<(isize, isize)> {
    t.iter().map(|x| (*x, 0)).collect()
}

// ---------------------------------------------------------------- oracle
/// tree of the oracle
#[derive(Clone, Debug, PartialEq)]
pub enum OT {
    Rule(usize, Vec<OT>),
    Tok(usize),
    Eof,
}
impl OT {
    pub fn shape(&self, toks: &[(isize, isize)]) -> String {
        match self {
            OT::Tok(i) => format!("{}@{}", toks[*i].0, i),
            OT::Eof => "EOF".into(),
            OT::Rule(r, k) => format!("(r{} {})", r, k.iter().map(|k| k.shape(toks)).collect::<Vec<_>>().join(" ")),
        }
    }
}

/// Backtracking parser over the grammar, alternatives in order; the first success is the
/// derivation that picks the lowest viable alternative at every decision, left to right.
pub struct Bt<'a> {
    pub g: &'a Gram,
    /// types of the on-channel tokens
    pub t: Vec<i32>,
    pub preds: Vec<bool>,
    /// prefix mode: needing a token past the end counts as success
    pub prefix: bool,
    pub steps: usize,
    pub limit: usize,
    pub start: usize,
    /// choice trace of the first success
    out: Vec<Item>,
}
#[derive(Clone, Debug, PartialEq)]
enum Item {
    Open(usize),
    /// wrap the children collected so far in the current node into a new node of the rule
    Wrap(usize),
    Tok(usize),
    Eof,
    Close,
}
pub struct TooLong;

enum K<'k> {
    Done,
    /// continue with a sequence tail
    Seq(&'k [E], i32, &'k K<'k>),
    /// loop: body, greedy, rule precedence, wrap rule (usize::MAX: none)
    Loop(&'k E, bool, i32, usize, &'k K<'k>),
    Close(&'k K<'k>),
}

impl<'a> Bt<'a> {
    pub fn new(g: &'a Gram, t: &[isize]) -> Bt<'a> {
        Bt { g, t: t.iter().map(|x| *x as i32).collect(), preds: vec![], prefix: false, steps: 0, limit: 60_000, start: 0, out: vec![] }
    }
    fn k(&mut self, k: &K, pos: usize) -> Result<bool, TooLong> {
        self.steps += 1;
        if self.steps > self.limit {
            return Err(TooLong);
        }
        match k {
            K::Done => Ok(self.prefix || pos >= self.t.len()),
            K::Seq(v, p, k) => {
                if v.is_empty() {
                    self.k(k, pos)
                } else {
                    self.e(&v[0], *p, pos, &K::Seq(&v[1..], *p, k))
                }
            }
            K::Loop(b, greedy, p, wrap, k) => self.loop_(b, *greedy, *p, *wrap, pos, k),
            K::Close(k) => {
                let l = self.out.len();
                self.out.push(Item::Close);
                if self.k(k, pos)? {
                    return Ok(true);
                }
                self.out.truncate(l);
                Ok(false)
            }
        }
    }
    fn loop_(&mut self, b: &E, greedy: bool, p: i32, wrap: usize, pos: usize, k: &K) -> Result<bool, TooLong> {
        for turn in 0..2 {
            let l = self.out.len();
            if (turn == 0) == greedy {
                let alts: Vec<&E> = match b {
                    E::Alt(v) => v.iter().collect(),
                    x => vec![x],
                };
                for a in alts {
                    if wrap != usize::MAX {
                        self.out.push(Item::Wrap(wrap));
                    }
                    if self.e(a, p, pos, &K::Loop(b, greedy, p, wrap, k))? {
                        return Ok(true);
                    }
                    self.out.truncate(l);
                }
            } else if self.k(k, pos)? {
                return Ok(true);
            } else {
                self.out.truncate(l);
            }
        }
        Ok(false)
    }
    fn e(&mut self, x: &E, p: i32, pos: usize, k: &K) -> Result<bool, TooLong> {
        self.steps += 1;
        if self.steps > self.limit {
            return Err(TooLong);
        }
        let l = self.out.len();
        match x {
            E::Empty | E::Act(_) => self.k(k, pos),
            E::Pred(i) => {
                if self.preds[*i % CTX_DEP] {
                    self.k(k, pos)
                } else {
                    Ok(false)
                }
            }
            E::PrecPred(q) => {
                if *q >= p {
                    self.k(k, pos)
                } else {
                    Ok(false)
                }
            }
            E::Eof => {
                if pos >= self.t.len() {
                    if self.prefix {
                        return Ok(true);
                    }
                    self.out.push(Item::Eof);
                    if self.k(k, pos)? {
                        return Ok(true);
                    }
                    self.out.truncate(l);
                }
                Ok(false)
            }
            E::Atom(_) | E::Range(..) | E::Set(_) | E::Not(_) | E::Any => {
                if pos >= self.t.len() {
                    return Ok(self.prefix);
                }
                if denotes(x, self.t[pos], 1, self.g.max_token) {
                    self.out.push(Item::Tok(pos));
                    if self.k(k, pos + 1)? {
                        return Ok(true);
                    }
                    self.out.truncate(l);
                }
                Ok(false)
            }
            E::Seq(v) => self.k(&K::Seq(v, p, k), pos),
            E::Alt(v) => {
                for a in v {
                    if self.e(a, p, pos, k)? {
                        return Ok(true);
                    }
                    self.out.truncate(l);
                }
                Ok(false)
            }
            E::Opt(b, greedy) => {
                for turn in 0..2 {
                    if (turn == 0) == *greedy {
                        if self.e(b, p, pos, k)? {
                            return Ok(true);
                        }
                    } else if self.k(k, pos)? {
                        return Ok(true);
                    }
                    self.out.truncate(l);
                }
                Ok(false)
            }
            E::Star(b, greedy) => self.loop_(b, *greedy, p, usize::MAX, pos, k),
            E::Plus(b, greedy) => {
                let kk = K::Loop(b, *greedy, p, usize::MAX, k);
                let alts: Vec<&E> = match &**b {
                    E::Alt(v) => v.iter().collect(),
                    x => vec![x],
                };
                for a in alts {
                    if self.e(a, p, pos, &kk)? {
                        return Ok(true);
                    }
                    self.out.truncate(l);
                }
                Ok(false)
            }
            E::Ref(r, q) => {
                let rule = &self.g.rules[*r];
                self.out.push(Item::Open(*r));
                let kc = K::Close(k);
                let ok = if rule.leftrec {
                    match &rule.body {
                        E::Seq(v) if v.len() == 2 => match &v[1] {
                            E::Star(b, greedy) => {
                                let kl = K::Loop(b, *greedy, *q, *r, &kc);
                                self.e(&v[0], *q, pos, &kl)?
                            }
                            _ => panic!("form"),
                        },
                        _ => panic!("form"),
                    }
                } else {
                    self.e(&rule.body, *q, pos, &kc)?
                };
                if ok {
                    return Ok(true);
                }
                self.out.truncate(l);
                Ok(false)
            }
        }
    }
    /// None: not a sentence
    pub fn parse(&mut self) -> Result<Option<OT>, TooLong> {
        self.out.clear();
        self.steps = 0;
        if !self.e(&E::Ref(self.start, 0), 0, 0, &K::Done)? {
            return Ok(None);
        }
        let mut st: Vec<(usize, Vec<OT>)> = vec![(usize::MAX, vec![])];
        for i in &self.out {
            match i {
                Item::Open(r) => st.push((*r, vec![])),
                Item::Close => {
                    if st.len() < 2 {
                        break;
                    }
                    let (r, k) = st.pop().unwrap();
                    st.last_mut().unwrap().1.push(OT::Rule(r, k));
                }
                Item::Wrap(r) => {
                    let (_, k) = st.pop().unwrap();
                    st.push((*r, vec![OT::Rule(*r, k)]));
                }
                Item::Tok(p) => st.last_mut().unwrap().1.push(OT::Tok(*p)),
                Item::Eof => st.last_mut().unwrap().1.push(OT::Eof),
            }
        }
        Ok(st[0].1.first().cloned())
    }
    /// index of the first token that no sentence with this prefix has; len = end of input itself
    /// is what cannot come; None: a sentence
    pub fn first_bad(g: &'a Gram, t: &[isize], preds: &[bool]) -> Result<Option<usize>, TooLong> {
        let mut b = Bt::new(g, t);
        b.preds = preds.to_vec();
        if b.parse()?.is_some() {
            return Ok(None);
        }
        for n in 0..t.len() {
            let mut b = Bt::new(g, &t[..n + 1]);
            b.preds = preds.to_vec();
            b.prefix = true;
            b.steps = 0;
            if !b.e(&E::Ref(0, 0), 0, 0, &K::Done)? {
                return Ok(Some(n));
            }
        }
        Ok(Some(t.len()))
    }
}

// ---------------------------------------------------------------- random grammars
#[derive(Clone, Copy)]
pub struct PGen {
    pub leftrec: bool,
    pub preds: usize,
    pub nongreedy: bool,
    pub wild: bool,
    pub ntok: i32,
}

fn nullable(g: &[Rule], x: &E, seen: &mut Vec<usize>) -> bool {
    match x {
        E::Empty | E::Act(_) | E::Pred(_) | E::PrecPred(_) => true,
        E::Atom(_) | E::Range(..) | E::Set(_) | E::Not(_) | E::Any | E::Eof => false,
        E::Seq(v) => v.iter().all(|y| nullable(g, y, seen)),
        E::Alt(v) => v.iter().any(|y| nullable(g, y, seen)),
        E::Opt(..) | E::Star(..) => true,
        E::Plus(b, _) => nullable(g, b, seen),
        E::Ref(r, _) => {
            if seen.contains(r) {
                return false;
            }
            seen.push(*r);
            let n = nullable(g, &g[*r].body, seen);
            seen.pop();
            n
        }
    }
}

struct G<'r> {
    r: &'r mut Rng,
    o: PGen,
    nrules: usize,
    rule: usize,
}
impl<'r> G<'r> {
    fn tok(&mut self) -> E {
        let n = self.o.ntok as usize;
        let a = self.r.below(n) as i32 + 1;
        if self.o.wild {
            match self.r.below(9) {
                0 => {
                    let b = (a + 1).min(n as i32);
                    return E::Set(vec![(a, a), (b, b)]);
                }
                1 => return E::Not(vec![(a, a)]),
                2 => return E::Any,
                3 => return E::Range(a, (a + 1).min(n as i32)),
                _ => {}
            }
        }
        E::Atom(a)
    }
    /// never nullable unless `null`; references only to later rules in first position (no hidden
    /// left recursion)
    fn expr(&mut self, depth: usize, null: bool, first: bool) -> E {
        let k = self.r.below(if depth == 0 { 4 } else { 16 });
        match k {
            0..=2 => self.tok(),
            3 | 4 => {
                let lo = if first { self.rule + 1 } else { 1 };
                if lo < self.nrules {
                    let r = lo + self.r.below(self.nrules - lo);
                    E::Ref(r, 0)
                } else {
                    self.tok()
                }
            }
            5..=8 => {
                let n = 2 + self.r.below(2);
                let mut v = vec![];
                let mut f = first;
                // at least one non-nullable, unless allowed
                let must = self.r.below(n);
                for i in 0..n {
                    let e = self.expr(depth - 1, null || i != must, f);
                    // stays in first position while everything before may be empty
                    if f && !may_be_null(&e) {
                        f = false;
                    }
                    v.push(e);
                }
                E::Seq(v)
            }
            9..=11 => {
                let n = 2 + self.r.below(2);
                let mut v: Vec<E> = (0..n).map(|_| self.expr(depth - 1, null, first)).collect();
                if null && self.r.chance(1, 6) {
                    v.push(E::Empty);
                }
                E::Alt(v)
            }
            12 if null => E::Opt(Box::new(self.expr(depth - 1, false, first)), self.greedy()),
            13 if null => E::Star(Box::new(self.expr(depth - 1, false, first)), self.greedy()),
            14 => E::Plus(Box::new(self.expr(depth - 1, false, first)), self.greedy()),
            15 if self.o.preds > 0 => {
                let p = self.r.below(self.o.preds);
                let e = self.expr(depth - 1, null, first);
                E::Seq(vec![E::Pred(p), e])
            }
            _ => self.tok(),
        }
    }
    fn greedy(&mut self) -> bool {
        !(self.o.nongreedy && self.r.chance(1, 4))
    }
}
/// conservative: references count as possibly empty
fn may_be_null(e: &E) -> bool {
    match e {
        E::Empty | E::Act(_) | E::Pred(_) | E::PrecPred(_) | E::Ref(..) | E::Opt(..) | E::Star(..) => true,
        E::Seq(v) => v.iter().all(may_be_null),
        E::Alt(v) => v.iter().any(may_be_null),
        E::Plus(b, _) => may_be_null(b),
        _ => false,
    }
}
/// every rule can derive some finite sentence
fn productive(g: &[Rule]) -> bool {
    let mut ok = vec![false; g.len()];
    fn p(e: &E, ok: &[bool]) -> bool {
        match e {
            E::Ref(r, _) => ok[*r],
            E::Seq(v) => v.iter().all(|x| p(x, ok)),
            E::Alt(v) => v.iter().any(|x| p(x, ok)),
            E::Plus(b, _) => p(b, ok),
            _ => true,
        }
    }
    // the alternatives must all be productive, or prefixes would be viable only on paper
    fn all(e: &E, ok: &[bool]) -> bool {
        match e {
            E::Ref(r, _) => ok[*r],
            E::Seq(v) | E::Alt(v) => v.iter().all(|x| all(x, ok)),
            E::Plus(b, _) | E::Star(b, _) | E::Opt(b, _) => all(b, ok),
            _ => true,
        }
    }
    for _ in 0..g.len() + 1 {
        for i in 0..g.len() {
            if p(&g[i].body, &ok) {
                ok[i] = true;
            }
        }
    }
    g.iter().all(|r| all(&r.body, &ok)) && ok.iter().all(|x| *x)
}

fn loops_ok(g: &[Rule], e: &E) -> bool {
    match e {
        E::Star(b, _) | E::Plus(b, _) => !nullable(g, b, &mut vec![]) && loops_ok(g, b),
        E::Opt(b, _) => !nullable(g, b, &mut vec![]) && loops_ok(g, b),
        E::Seq(v) | E::Alt(v) => v.iter().all(|x| loops_ok(g, x)),
        _ => true,
    }
}

/// a random parser grammar; rule 0 is `body EOF`
/// a plain grammar for long inputs: statements `A e B` with a left-recursive `e`
pub fn plain() -> Gram {
    let rule = |body: E, leftrec: bool| Rule { body, token: 0, mode: 0, leftrec };
    let op = |q: i32, t: i32| E::Seq(vec![E::PrecPred(q), E::Atom(t), E::Ref(2, q + 1)]);
    Gram {
        lexer: false,
        rules: vec![
            rule(E::Seq(vec![E::Star(Box::new(E::Alt(vec![E::Ref(1, 0), E::Atom(3)])), true), E::Eof]), false),
            rule(E::Seq(vec![E::Atom(1), E::Opt(Box::new(E::Ref(2, 0)), true), E::Atom(2)]), false),
            rule(E::Seq(vec![E::Alt(vec![E::Atom(3), E::Seq(vec![E::Atom(1), E::Ref(2, 0), E::Atom(2)])]), E::Star(Box::new(E::Alt(vec![op(2, 4), op(1, 5)])), true)]), true),
        ],
        modes: 0,
        max_token: 5,
        actions: vec![],
    }
}
/// a long sentence of it, at times with a wrong token
pub fn long_input(r: &mut Rng, n: usize) -> Vec<isize> {
    let mut v = vec![];
    while v.len() < n {
        match r.below(5) {
            0 => v.push(3),
            1 => v.extend([1, 2]),
            2 => v.extend([1, 3, 2]),
            3 => v.extend([1, 3, 4, 3, 5, 3, 2]),
            _ => v.extend([1, 1, 3, 5, 3, 2, 4, 3, 2]),
        }
    }
    if r.chance(1, 3) {
        let k = r.below(v.len());
        v[k] = 5;
    }
    v
}

pub fn parser_gram(r: &mut Rng, o: &PGen) -> Gram {
    loop {
        let n = 2 + r.below(3);
        let mut rules: Vec<Rule> = vec![];
        for i in 0..n {
            let lr = o.leftrec && i > 0 && r.chance(1, 2);
            let depth = 1 + r.below(3);
            let mut g = G { r, o: *o, nrules: n, rule: i };
            let body = if i == 0 {
                let null = g.r.chance(1, 3);
                match g.r.below(5) {
                    0 => E::Seq(vec![g.expr(depth, null, true), E::Eof]),
                    1 => E::Seq(vec![E::Ref(1, 0), E::Eof]),
                    2 => E::Seq(vec![g.expr(depth, null, true), E::Ref(1, 0), E::Eof]),
                    3 => E::Seq(vec![E::Ref(1, 0), g.expr(depth, null, false), E::Eof]),
                    _ => E::Seq(vec![E::Star(Box::new(E::Ref(1, 0)), true), g.expr(1, true, true), E::Eof]),
                }
            } else if lr {
                // primary (op)*
                let np = 1 + g.r.below(3);
                // only the order of precedences matters
                let f = *g.r.pick(&[1, 1, 3, 50]);
                let mut prim = vec![];
                for _ in 0..np {
                    prim.push(match g.r.below(6) {
                        0 => {
                            // prefix operator
                            let t = g.tok();
                            let p = f * (1 + g.r.below(5) as i32);
                            E::Seq(vec![t, E::Ref(i, p)])
                        }
                        1 => {
                            let (a, b) = (g.tok(), g.tok());
                            E::Seq(vec![a, E::Ref(i, 0), b])
                        }
                        2 => g.expr(1, false, true),
                        _ => g.tok(),
                    });
                }
                let no = 1 + g.r.below(3);
                let mut ops = vec![];
                for j in 0..no {
                    let q = f * ((no - j) as i32 + g.r.below(2) as i32);
                    let t = g.tok();
                    ops.push(match g.r.below(8) {
                        // an operator may itself be a rule, a group or several tokens; it may be missing
                        7 if n > 2 => {
                            let k = 1 + g.r.below(n - 1);
                            if g.r.chance(1, 2) || k == i {
                                E::Seq(vec![E::PrecPred(q), E::Ref(k, if k == i { q + 1 } else { 0 })])
                            } else {
                                E::Seq(vec![E::PrecPred(q), E::Ref(k, 0), E::Ref(i, q + 1)])
                            }
                        }
                        6 => {
                            let x = g.expr(1, false, true);
                            if g.r.chance(1, 2) {
                                E::Seq(vec![E::PrecPred(q), x])
                            } else {
                                E::Seq(vec![E::PrecPred(q), x, E::Ref(i, q + 1)])
                            }
                        }
                        5 => {
                            // ternary
                            let u = g.tok();
                            E::Seq(vec![E::PrecPred(q), t, E::Ref(i, 0), u, E::Ref(i, q)])
                        }
                        0 => E::Seq(vec![E::PrecPred(q), t]),
                        1 => E::Seq(vec![E::PrecPred(q), t, E::Ref(i, q)]), // right associative
                        _ => E::Seq(vec![E::PrecPred(q), t, E::Ref(i, q + 1)]),
                    });
                }
                let prim = if prim.len() == 1 { prim.pop().unwrap() } else { E::Alt(prim) };
                let ops = if ops.len() == 1 { ops.pop().unwrap() } else { E::Alt(ops) };
                E::Seq(vec![prim, E::Star(Box::new(ops), true)])
            } else {
                let null = g.r.chance(1, 3);
                g.expr(depth, null, true)
            };
            rules.push(Rule { body, token: 0, mode: 0, leftrec: lr });
        }
        if !productive(&rules) || !rules.iter().all(|x| loops_ok(&rules, &x.body)) || hidden_lr(&rules) {
            continue;
        }
        // left-recursive rules must not be nullable in their primary
        if rules.iter().any(|x| x.leftrec && nullable(&rules, match &x.body { E::Seq(v) => &v[0], _ => unreachable!() }, &mut vec![])) {
            continue;
        }
        return Gram { lexer: false, rules, modes: 0, max_token: o.ntok, actions: vec![] };
    }
}

/// can a rule reach itself without consuming anything (other than the marked form)?
fn hidden_lr(g: &[Rule]) -> bool {
    fn firsts(g: &[Rule], e: &E, out: &mut Vec<usize>) {
        match e {
            E::Ref(r, _) => out.push(*r),
            E::Seq(v) => {
                for x in v {
                    firsts(g, x, out);
                    if !nullable(g, x, &mut vec![]) {
                        break;
                    }
                }
            }
            E::Alt(v) => v.iter().for_each(|x| firsts(g, x, out)),
            E::Opt(b, _) | E::Star(b, _) | E::Plus(b, _) => firsts(g, b, out),
            _ => {}
        }
    }
    let f: Vec<Vec<usize>> = g
        .iter()
        .map(|r| {
            let mut v = vec![];
            firsts(g, &r.body, &mut v);
            v
        })
        .collect();
    for i in 0..g.len() {
        let mut seen = vec![false; g.len()];
        let mut todo = f[i].clone();
        while let Some(x) = todo.pop() {
            if x == i {
                return true;
            }
            if !seen[x] {
                seen[x] = true;
                todo.extend(f[x].iter());
            }
        }
    }
    false
}

/// a random sentence (or None when it gets too long)
pub fn sentence(r: &mut Rng, g: &Gram, max: usize) -> Option<Vec<isize>> {
    sentence_of(r, g, 0, max)
}
pub fn sentence_of(r: &mut Rng, g: &Gram, start: usize, max: usize) -> Option<Vec<isize>> {
    fn go(r: &mut Rng, g: &Gram, e: &E, p: i32, out: &mut Vec<isize>, fuel: &mut isize) {
        *fuel -= 1;
        if *fuel < 0 {
            return;
        }
        match e {
            E::Atom(t) => out.push(*t as isize),
            E::Range(..) | E::Set(_) | E::Not(_) | E::Any => {
                let c: Vec<i32> = (1..=g.max_token).filter(|v| denotes(e, *v, 1, g.max_token)).collect();
                if c.is_empty() {
                    *fuel = -1;
                } else {
                    out.push(*r.pick(&c) as isize)
                }
            }
            E::Seq(v) => v.iter().for_each(|x| go(r, g, x, p, out, fuel)),
            E::Alt(v) => {
                // operators not allowed at this precedence are left out
                let c: Vec<&E> = v.iter().filter(|x| prec_ok(x, p)).collect();
                if c.is_empty() {
                    return;
                }
                let x = c[r.below(c.len())];
                go(r, g, x, p, out, fuel)
            }
            E::Opt(b, _) => {
                if r.chance(1, 2) {
                    go(r, g, b, p, out, fuel)
                }
            }
            E::Star(b, _) => {
                while r.chance(2, 5) && *fuel > 0 {
                    if let E::Alt(v) = &**b {
                        if !v.iter().any(|x| prec_ok(x, p)) {
                            break;
                        }
                    } else if !prec_ok(b, p) {
                        break;
                    }
                    go(r, g, b, p, out, fuel)
                }
            }
            E::Plus(b, _) => {
                go(r, g, b, p, out, fuel);
                while r.chance(2, 5) && *fuel > 0 {
                    go(r, g, b, p, out, fuel)
                }
            }
            E::Ref(q, pp) => go(r, g, &g.rules[*q].body, *pp, out, fuel),
            _ => {}
        }
    }
    fn prec_ok(e: &E, p: i32) -> bool {
        match e {
            E::Seq(v) => match v.first() {
                Some(E::PrecPred(q)) => *q >= p,
                _ => true,
            },
            _ => true,
        }
    }
    let mut out = vec![];
    let mut fuel = 200;
    go(r, g, &g.rules[start].body, 0, &mut out, &mut fuel);
    if fuel < 0 || out.len() > max {
        None
    } else {
        Some(out)
    }
}

/// input for a grammar: a sentence, a damaged sentence, or noise
pub fn input(r: &mut Rng, g: &Gram, max: usize) -> Vec<isize> {
    let nt = g.max_token as usize;
    match r.below(5) {
        0 => (0..r.below(max + 1)).map(|_| r.below(nt) as isize + 1).collect(),
        k => {
            for _ in 0..20 {
                if let Some(mut s) = sentence(r, g, max) {
                    if k >= 3 {
                        for _ in 0..1 + r.below(2) {
                            let i = r.below(s.len() + 1);
                            match r.below(3) {
                                0 => s.insert(i, r.below(nt) as isize + 1),
                                1 if i < s.len() => {
                                    s.remove(i);
                                }
                                _ if i < s.len() => s[i] = r.below(nt) as isize + 1,
                                _ => {}
                            }
                        }
                    }
                    return s;
                }
            }
            (0..r.below(max + 1)).map(|_| r.below(nt) as isize + 1).collect()
        }
    }
}
