//! Mechanical extractor: copies named items out of the repository's current source
//! into a Verus file, byte for byte, except for the edits requested by the template
//! (contracts, invariants, proof text, and the listed rewrites).
//!
//! usage: extractor <template> <repo> <out.rs> <report.json> [--vacuity]
//!
//! Any directive whose anchor is not found is reported as "stale" (exit code 3).

use proc_macro2::{LineColumn, Span, TokenStream, TokenTree};
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::ops::Range;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::*;

#[derive(Clone, Debug)]
enum Part {
    Text(String),
    Src(usize, usize),
}

#[derive(Clone, Debug)]
struct Edit {
    start: usize,
    end: usize,
    prio: i32,
    parts: Vec<Part>,
}

struct SrcFile {
    text: String,
    ast: File,
    char_to_byte: Vec<usize>,
}

fn br(s: Span, f: &SrcFile) -> Range<usize> {
    // proc-macro2 spans count characters; convert to bytes through line/column.
    let a = s.start();
    let b = s.end();
    f.off(a)..f.off(b)
}

impl SrcFile {
    fn load(path: &str) -> std::result::Result<SrcFile, String> {
        let text = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?;
        let ast = parse_file(&text).map_err(|e| format!("{}: {}", path, e))?;
        let mut char_to_byte = vec![0];
        for (i, c) in text.char_indices() {
            if c == '\n' {
                char_to_byte.push(i + 1);
            }
        }
        Ok(SrcFile { text, ast, char_to_byte })
    }
    fn off(&self, lc: LineColumn) -> usize {
        let ls = self.char_to_byte[lc.line - 1];
        // column is in chars
        let mut n = 0;
        for (i, _) in self.text[ls..].char_indices() {
            if n == lc.column {
                return ls + i;
            }
            n += 1;
        }
        self.text.len()
    }
    fn line_of(&self, off: usize) -> usize {
        match self.char_to_byte.binary_search(&off) {
            Ok(i) => i + 1,
            Err(i) => i,
        }
    }
}

fn norm(ts: TokenStream) -> String {
    let mut out = Vec::new();
    fn go(ts: TokenStream, out: &mut Vec<String>) {
        for t in ts {
            match t {
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                        proc_macro2::Delimiter::Brace => ("{", "}"),
                        proc_macro2::Delimiter::Bracket => ("[", "]"),
                        proc_macro2::Delimiter::None => ("", ""),
                    };
                    out.push(a.into());
                    go(g.stream(), out);
                    out.push(b.into());
                }
                t => out.push(t.to_string()),
            }
        }
    }
    go(ts, &mut out);
    out.join(" ")
}

fn nstr(s: &str) -> String {
    match s.parse::<TokenStream>() {
        Ok(t) => norm(t),
        Err(_) => {
            // a prefix with open brackets: close them, normalise, take the closers off again
            let mut st = vec![];
            for c in s.chars() {
                match c {
                    '(' => st.push(')'),
                    '[' => st.push(']'),
                    '{' => st.push('}'),
                    ')' | ']' | '}' => {
                        st.pop();
                    }
                    _ => {}
                }
            }
            let n = st.len();
            let closed: String = s.chars().chain(st.into_iter().rev()).collect();
            match closed.parse::<TokenStream>() {
                Ok(t) => {
                    let t = norm(t);
                    t[..t.len() - 2 * n].to_string()
                }
                Err(_) => s.to_string(),
            }
        }
    }
}

type Binds = HashMap<String, Span>;

fn meta_of_expr(p: &Expr) -> Option<String> {
    if let Expr::Path(ep) = p {
        if ep.qself.is_none() {
            if let Some(id) = ep.path.get_ident() {
                let s = id.to_string();
                if s.starts_with("__") {
                    return Some(s);
                }
            }
        }
    }
    None
}

fn bind(name: &str, sp: Span, text: String, b: &mut Binds, bt: &mut HashMap<String, String>) -> bool {
    if let Some(prev) = bt.get(name) {
        return *prev == text;
    }
    bt.insert(name.to_string(), text);
    b.insert(name.to_string(), sp);
    true
}

fn toks<T: ToTokens>(t: &T) -> String {
    norm(t.to_token_stream())
}

fn m_pat(p: &Pat, e: &Pat, b: &mut Binds, bt: &mut HashMap<String, String>) -> bool {
    if let Pat::Ident(pi) = p {
        let s = pi.ident.to_string();
        if s.starts_with("__") {
            return bind(&s, e.span(), toks(e), b, bt);
        }
    }
    match (p, e) {
        (Pat::TupleStruct(p), Pat::TupleStruct(e)) => {
            toks(&p.path) == toks(&e.path)
                && p.elems.len() == e.elems.len()
                && p.elems.iter().zip(e.elems.iter()).all(|(x, y)| m_pat(x, y, b, bt))
        }
        (Pat::Tuple(p), Pat::Tuple(e)) => {
            p.elems.len() == e.elems.len() && p.elems.iter().zip(e.elems.iter()).all(|(x, y)| m_pat(x, y, b, bt))
        }
        (Pat::Reference(p), Pat::Reference(e)) => m_pat(&p.pat, &e.pat, b, bt),
        _ => toks(p) == toks(e),
    }
}

fn m_args<'a>(
    p: impl Iterator<Item = &'a Expr>,
    e: impl Iterator<Item = &'a Expr>,
    b: &mut Binds,
    bt: &mut HashMap<String, String>,
) -> bool {
    let p: Vec<_> = p.collect();
    let e: Vec<_> = e.collect();
    p.len() == e.len() && p.iter().zip(e.iter()).all(|(x, y)| m_expr(x, y, b, bt))
}

fn m_expr(p: &Expr, e: &Expr, b: &mut Binds, bt: &mut HashMap<String, String>) -> bool {
    if let Some(m) = meta_of_expr(p) {
        return bind(&m, e.span(), toks(e), b, bt);
    }
    match (p, e) {
        (Expr::MethodCall(p), Expr::MethodCall(e)) => {
            p.method == e.method
                && p.turbofish.as_ref().map(toks) == e.turbofish.as_ref().map(toks)
                && m_expr(&p.receiver, &e.receiver, b, bt)
                && m_args(p.args.iter(), e.args.iter(), b, bt)
        }
        (Expr::Call(p), Expr::Call(e)) => {
            m_expr(&p.func, &e.func, b, bt) && m_args(p.args.iter(), e.args.iter(), b, bt)
        }
        (Expr::Field(p), Expr::Field(e)) => {
            toks(&p.member) == toks(&e.member) && m_expr(&p.base, &e.base, b, bt)
        }
        (Expr::Index(p), Expr::Index(e)) => {
            m_expr(&p.expr, &e.expr, b, bt) && m_expr(&p.index, &e.index, b, bt)
        }
        (Expr::Unary(p), Expr::Unary(e)) => {
            toks(&p.op) == toks(&e.op) && m_expr(&p.expr, &e.expr, b, bt)
        }
        (Expr::Binary(p), Expr::Binary(e)) => {
            toks(&p.op) == toks(&e.op)
                && m_expr(&p.left, &e.left, b, bt)
                && m_expr(&p.right, &e.right, b, bt)
        }
        (Expr::Reference(p), Expr::Reference(e)) => {
            p.mutability.is_some() == e.mutability.is_some() && m_expr(&p.expr, &e.expr, b, bt)
        }
        (Expr::Paren(p), Expr::Paren(e)) => m_expr(&p.expr, &e.expr, b, bt),
        (Expr::Try(p), Expr::Try(e)) => m_expr(&p.expr, &e.expr, b, bt),
        (Expr::Cast(p), Expr::Cast(e)) => toks(&p.ty) == toks(&e.ty) && m_expr(&p.expr, &e.expr, b, bt),
        (Expr::Assign(p), Expr::Assign(e)) => {
            m_expr(&p.left, &e.left, b, bt) && m_expr(&p.right, &e.right, b, bt)
        }
        // struct literals: fields in any order
        (Expr::Struct(p), Expr::Struct(e)) => {
            toks(&p.path) == toks(&e.path)
                && p.fields.len() == e.fields.len()
                && match (&p.rest, &e.rest) {
                    (None, None) => true,
                    (Some(x), Some(y)) => m_expr(x, y, b, bt),
                    _ => false,
                }
                && p.fields.iter().all(|x| {
                    e.fields.iter().find(|y| toks(&y.member) == toks(&x.member)).map_or(false, |y| m_expr(&x.expr, &y.expr, b, bt))
                })
        }
        (Expr::Tuple(p), Expr::Tuple(e)) => m_args(p.elems.iter(), e.elems.iter(), b, bt),
        (Expr::Closure(p), Expr::Closure(e)) => {
            p.inputs.len() == e.inputs.len()
                && p.inputs.iter().zip(e.inputs.iter()).all(|(x, y)| m_pat(x, y, b, bt))
                && m_expr(&p.body, &e.body, b, bt)
        }
        // `for __p in __e { __body }`: __body stands for the whole block
        (Expr::ForLoop(p), Expr::ForLoop(e)) => {
            m_pat(&p.pat, &e.pat, b, bt) && m_expr(&p.expr, &e.expr, b, bt) && m_block(&p.body, &e.body, b, bt)
        }
        (Expr::While(p), Expr::While(e)) => m_expr(&p.cond, &e.cond, b, bt) && m_block(&p.body, &e.body, b, bt),
        (Expr::Loop(p), Expr::Loop(e)) => m_block(&p.body, &e.body, b, bt),
        (Expr::Range(p), Expr::Range(e)) => {
            let mut side = |x: &Option<Box<Expr>>, y: &Option<Box<Expr>>| match (x, y) {
                (None, None) => true,
                (Some(x), Some(y)) => m_expr(x, y, b, bt),
                _ => false,
            };
            toks(&p.limits) == toks(&e.limits) && side(&p.start, &e.start) && side(&p.end, &e.end)
        }
        (Expr::If(p), Expr::If(e)) => {
            m_expr(&p.cond, &e.cond, b, bt)
                && m_block(&p.then_branch, &e.then_branch, b, bt)
                && match (&p.else_branch, &e.else_branch) {
                    (None, None) => true,
                    (Some((_, x)), Some((_, y))) => match (&**x, &**y) {
                        (Expr::Block(x), Expr::Block(y)) => m_block(&x.block, &y.block, b, bt),
                        (x, y) => m_expr(x, y, b, bt),
                    },
                    _ => false,
                }
        }
        (Expr::Match(p), Expr::Match(e)) => {
            p.arms.len() == e.arms.len()
                && m_expr(&p.expr, &e.expr, b, bt)
                && p.arms.iter().zip(e.arms.iter()).all(|(x, y)| {
                    m_pat(&x.pat, &y.pat, b, bt)
                        && match (&x.guard, &y.guard) {
                            (None, None) => true,
                            (Some((_, g)), Some((_, h))) => m_expr(g, h, b, bt),
                            _ => false,
                        }
                        && m_expr(&x.body, &y.body, b, bt)
                })
        }
        (Expr::Block(p), Expr::Block(e)) if p.label.is_none() && e.label.is_none() => m_block(&p.block, &e.block, b, bt),
        (Expr::Return(p), Expr::Return(e)) => match (&p.expr, &e.expr) {
            (None, None) => true,
            (Some(x), Some(y)) => m_expr(x, y, b, bt),
            _ => false,
        },
        (Expr::Let(p), Expr::Let(e)) => m_pat(&p.pat, &e.pat, b, bt) && m_expr(&p.expr, &e.expr, b, bt),
        (Expr::Macro(p), Expr::Macro(e)) => {
            if toks(&p.mac.path) != toks(&e.mac.path) {
                return false;
            }
            let ap = p.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated);
            let ae = e.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated);
            // a single metavariable `__rest` swallows any argument list
            if let Ok(ap) = &ap {
                if ap.len() == 1 && meta_of_expr(&ap[0]).as_deref() == Some("__rest") {
                    return true;
                }
            }
            match (ap, ae) {
                (Ok(ap), Ok(ae)) => m_args(ap.iter(), ae.iter(), b, bt),
                _ => toks(&p.mac) == toks(&e.mac),
            }
        }
        _ => toks(p) == toks(e),
    }
}

fn m_block(p: &Block, e: &Block, b: &mut Binds, bt: &mut HashMap<String, String>) -> bool {
    if let [Stmt::Expr(x, None)] = p.stmts.as_slice() {
        if let Some(m) = meta_of_expr(x) {
            return bind(&m, e.span(), toks(e), b, bt);
        }
    }
    p.stmts.len() == e.stmts.len() && p.stmts.iter().zip(e.stmts.iter()).all(|(x, y)| m_stmt(x, y, b, bt))
}

fn m_stmt(p: &Stmt, e: &Stmt, b: &mut Binds, bt: &mut HashMap<String, String>) -> bool {
    match (p, e) {
        (Stmt::Local(p), Stmt::Local(e)) => {
            m_pat(&p.pat, &e.pat, b, bt)
                && match (&p.init, &e.init) {
                    (None, None) => true,
                    (Some(x), Some(y)) => x.diverge.is_none() && y.diverge.is_none() && m_expr(&x.expr, &y.expr, b, bt),
                    _ => false,
                }
        }
        (Stmt::Expr(p, x), Stmt::Expr(e, y)) => x.is_some() == y.is_some() && m_expr(p, e, b, bt),
        _ => toks(p) == toks(e),
    }
}

#[derive(Clone)]
struct Rewrite {
    pat_text: String,
    pat: Expr,
    stmt: Option<Stmt>,
    tmpl: String,
    optional: bool,
}

#[derive(Default, Clone)]
struct Rules {
    rewrites: Vec<Rewrite>,
    renames: Vec<(String, String)>,
    retypes: Vec<(String, String)>,
}

fn template_parts(tmpl: &str, binds: &Binds, f: &SrcFile) -> Vec<Part> {
    let mut parts = vec![];
    let mut cur = String::new();
    let b = tmpl.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'_' && i + 1 < b.len() && b[i + 1] == b'_' && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_')) {
            let mut j = i;
            while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_') {
                j += 1;
            }
            let name = &tmpl[i..j];
            if let Some(sp) = binds.get(name) {
                let r = br(*sp, f);
                if !cur.is_empty() {
                    parts.push(Part::Text(std::mem::take(&mut cur)));
                }
                parts.push(Part::Src(r.start, r.end));
                i = j;
                continue;
            }
            cur.push_str(name);
            i = j;
            continue;
        }
        let ch = tmpl[i..].chars().next().unwrap();
        cur.push(ch);
        i += ch.len_utf8();
    }
    if !cur.is_empty() {
        parts.push(Part::Text(cur));
    }
    parts
}

struct LoopInfo {
    kind: &'static str,
    body: Span,
    expr: Option<Span>, // iterated expr for `for`
    tail: bool,
    head: Option<(Span, Span)>, // whole loop, pattern
}

/// does the block end in an expression without `;` (that is not block-like)?
fn tail_expr(b: &Block) -> bool {
    matches!(b.stmts.last(), Some(Stmt::Expr(e, None)) if !block_like(e))
}
fn block_like(e: &Expr) -> bool {
    matches!(e, Expr::If(_) | Expr::Match(_) | Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) | Expr::Block(_) | Expr::Unsafe(_))
}

struct Coll<'a> {
    f: &'a SrcFile,
    rules: &'a Rules,
    edits: Vec<Edit>,
    loops: Vec<LoopInfo>,
    stmts: Vec<(String, Span, bool)>,
    blocks: Vec<Span>,
    hits: Vec<usize>,
    nclosures: usize,
}

fn ident_renames(ts: TokenStream, rules: &Rules, f: &SrcFile, edits: &mut Vec<Edit>) {
    for t in ts {
        match t {
            TokenTree::Group(g) => ident_renames(g.stream(), rules, f, edits),
            TokenTree::Ident(id) => {
                let s = id.to_string();
                for (a, b) in &rules.renames {
                    if *a == s {
                        let r = br(id.span(), f);
                        edits.push(Edit { start: r.start, end: r.end, prio: 5, parts: vec![Part::Text(b.clone())] });
                    }
                }
            }
            _ => {}
        }
    }
}

impl<'a, 'ast> Visit<'ast> for Coll<'a> {
    fn visit_expr(&mut self, e: &'ast Expr) {
        let mut rewritten = false;
        for (k, rw) in self.rules.rewrites.iter().enumerate() {
            let mut b = Binds::new();
            let mut bt = HashMap::new();
            if rw.stmt.is_none() && m_expr(&rw.pat, e, &mut b, &mut bt) {
                self.hits[k] += 1;
                let r = br(e.span(), self.f);
                let parts = template_parts(&rw.tmpl, &b, self.f);
                self.edits.push(Edit { start: r.start, end: r.end, prio: 0, parts });
                rewritten = true;
                break;
            }
        }
        match e {
            // the rewrite carries the invariant
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) if rewritten => {}
            Expr::While(w) => {
                let kind = if matches!(&*w.cond, Expr::Let(_)) { "while_let" } else { "while" };
                self.loops.push(LoopInfo { kind, body: w.body.span(), expr: None, tail: tail_expr(&w.body), head: None });
            }
            Expr::Loop(w) => self.loops.push(LoopInfo {
                kind: "loop",
                body: w.body.span(),
                expr: None,
                tail: tail_expr(&w.body),
                head: None,
            }),
            Expr::ForLoop(w) => self.loops.push(LoopInfo {
                kind: "for",
                body: w.body.span(),
                expr: Some(w.expr.span()),
                tail: tail_expr(&w.body),
                head: Some((w.span(), w.pat.span())),
            }),
            Expr::Closure(_) => self.nclosures += 1,
            // reference patterns are outside the verifier's subset: `match e { &P => .. }` is
            // `match *e { P => .. }`
            Expr::Match(m) if m.arms.iter().any(|a| matches!(a.pat, Pat::Reference(_))) && m.arms.iter().all(|a| matches!(a.pat, Pat::Reference(_) | Pat::Wild(_))) => {
                let r = br(m.expr.span(), self.f);
                self.edits.push(Edit { start: r.start, end: r.start, prio: -5, parts: vec![Part::Text("*".into())] });
                for a in &m.arms {
                    if let Pat::Reference(p) = &a.pat {
                        let o = br(p.span(), self.f);
                        let i = br(p.pat.span(), self.f);
                        self.edits.push(Edit { start: o.start, end: i.start, prio: -5, parts: vec![] });
                    }
                }
            }
            _ => {}
        }
        visit::visit_expr(self, e);
    }
    fn visit_type(&mut self, t: &'ast Type) {
        let s = toks(t);
        for (a, b) in &self.rules.retypes {
            if nstr(a) == s {
                let r = br(t.span(), self.f);
                self.edits.push(Edit { start: r.start, end: r.end, prio: 1, parts: vec![Part::Text(b.clone())] });
                return;
            }
        }
        visit::visit_type(self, t);
    }
    fn visit_stmt(&mut self, s: &'ast Stmt) {
        if let Stmt::Macro(m) = s {
            // a macro in statement position is an expression for the rewrites
            let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
            for (k, rw) in self.rules.rewrites.iter().enumerate() {
                let mut b = Binds::new();
                let mut bt = HashMap::new();
                if rw.stmt.is_none() && m_expr(&rw.pat, &e, &mut b, &mut bt) {
                    self.hits[k] += 1;
                    let r = br(m.mac.span(), self.f);
                    let parts = template_parts(&rw.tmpl, &b, self.f);
                    self.edits.push(Edit { start: r.start, end: r.end, prio: 0, parts });
                    break;
                }
            }
        }
        for (k, rw) in self.rules.rewrites.iter().enumerate() {
            let mut b = Binds::new();
            let mut bt = HashMap::new();
            if let Some(p) = &rw.stmt {
                if m_stmt(p, s, &mut b, &mut bt) {
                    self.hits[k] += 1;
                    let r = br(s.span(), self.f);
                    let parts = template_parts(&rw.tmpl, &b, self.f);
                    self.edits.push(Edit { start: r.start, end: r.end, prio: 0, parts });
                    break;
                }
            }
        }
        self.stmts.push((toks(s), s.span(), matches!(s, Stmt::Expr(e, None) if !block_like(e))));
        visit::visit_stmt(self, s);
    }
    fn visit_block(&mut self, b: &'ast Block) {
        self.blocks.push(b.span());
        visit::visit_block(self, b);
    }
}

fn render(f: &SrcFile, edits: &[Edit], start: usize, end: usize, skip: Option<(usize, usize)>) -> String {
    let mut out = String::new();
    let mut pos = start;
    let mut es: Vec<&Edit> = edits
        .iter()
        .filter(|e| e.start >= start && e.end <= end && Some((e.start, e.end)) != skip)
        .collect();
    // outermost first at equal start; insertions (start==end) before replacements
    es.sort_by(|a, b| {
        (a.start, if a.start == a.end { 0 } else { 1 }, std::cmp::Reverse(a.end), a.prio)
            .cmp(&(b.start, if b.start == b.end { 0 } else { 1 }, std::cmp::Reverse(b.end), b.prio))
    });
    let mut i = 0;
    while i < es.len() {
        let e = es[i];
        i += 1;
        if e.start < pos {
            continue;
        }
        out.push_str(&f.text[pos..e.start]);
        for p in &e.parts {
            match p {
                Part::Text(t) => out.push_str(t),
                Part::Src(a, b) => out.push_str(&render(f, edits, *a, *b, Some((e.start, e.end)))),
            }
        }
        pos = e.end;
    }
    out.push_str(&f.text[pos..end]);
    out
}

enum Found<'a> {
    Fn { sig: &'a Signature, vis: Option<&'a Visibility>, block: &'a Block },
}

fn last_seg(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::TraitObject(_) => toks(t),
        Type::Reference(r) => last_seg(&r.elem),
        _ => toks(t),
    }
}

/// path forms: `name`, `Type::name`, `Trait for Type::name`, `trait Trait::name`
/// `Type`/`Trait` may carry generics, then the normalised text must be equal.
fn find_fn<'a>(ast: &'a File, path: &str) -> Option<Found<'a>> {
    let path = path.trim();
    let (owner, name) = match path.rfind("::") {
        Some(i) => (Some(path[..i].trim()), path[i + 2..].trim()),
        None => (None, path),
    };
    fn items<'a>(items: &'a [Item], out: &mut Vec<&'a Item>) {
        for it in items {
            out.push(it);
            if let Item::Mod(m) = it {
                if m.attrs.iter().any(|a| toks(a).contains("cfg ( test")) {
                    continue;
                }
                if let Some((_, its)) = &m.content {
                    items_rec(its, out);
                }
            }
        }
    }
    fn items_rec<'a>(its: &'a [Item], out: &mut Vec<&'a Item>) {
        items(its, out)
    }
    let mut all = vec![];
    items(&ast.items, &mut all);
    match owner {
        None => {
            for it in all {
                if let Item::Fn(f) = it {
                    if f.sig.ident == name {
                        return Some(Found::Fn { sig: &f.sig, vis: Some(&f.vis), block: &f.block });
                    }
                }
            }
        }
        Some(o) if o.starts_with("trait ") => {
            let tn = o[6..].trim();
            for it in all {
                if let Item::Trait(t) = it {
                    if t.ident == tn {
                        for ti in &t.items {
                            if let TraitItem::Fn(f) = ti {
                                if f.sig.ident == name {
                                    if let Some(b) = &f.default {
                                        return Some(Found::Fn { sig: &f.sig, vis: None, block: b });
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        Some(o) => {
            let (tr, ty) = match o.find(" for ") {
                Some(i) => (Some(o[..i].trim()), o[i + 5..].trim()),
                None => (None, o),
            };
            for it in all {
                if let Item::Impl(im) = it {
                    let ty_ok = if ty.contains('<') || ty.contains('[') || ty.contains(' ') {
                        nstr(ty) == toks(&im.self_ty)
                    } else {
                        last_seg(&im.self_ty) == ty
                    };
                    if !ty_ok {
                        continue;
                    }
                    let tr_ok = match (&im.trait_, tr) {
                        (None, None) => true,
                        (Some((_, p, _)), Some(t)) => {
                            if t.contains('<') {
                                toks(p) == nstr(t)
                            } else {
                                p.segments.last().map(|s| s.ident == t).unwrap_or(false)
                            }
                        }
                        _ => false,
                    };
                    if !tr_ok {
                        continue;
                    }
                    for ii in &im.items {
                        if let ImplItem::Fn(f) = ii {
                            if f.sig.ident == name {
                                return Some(Found::Fn { sig: &f.sig, vis: Some(&f.vis), block: &f.block });
                            }
                        }
                    }
                }
            }
        }
    }
    None
}

#[derive(Default)]
struct FnDir {
    file: String,
    path: String,
    opts: BTreeMap<String, String>,
    rules: Rules,
    spec: String,
    sig: Option<String>,
    loops: Vec<(usize, String, BTreeMap<String, String>, String)>,
    ats: Vec<(String, String)>,
}

struct Ctx {
    repo: String,
    files: HashMap<String, std::rc::Rc<SrcFile>>,
    stale: Vec<String>,
    report: Vec<Value>,
    rewrites_applied: Vec<Value>,
    vacuity: bool,
    covers: usize,
}

impl Ctx {
    fn file(&mut self, p: &str) -> Option<std::rc::Rc<SrcFile>> {
        if let Some(f) = self.files.get(p) {
            return Some(f.clone());
        }
        match SrcFile::load(&format!("{}/{}", self.repo, p)) {
            Ok(f) => {
                let f = std::rc::Rc::new(f);
                self.files.insert(p.into(), f.clone());
                Some(f)
            }
            Err(e) => {
                self.stale.push(format!("cannot read {}: {}", p, e));
                None
            }
        }
    }

    fn do_fn(&mut self, d: &FnDir, global: &Rules) -> String {
        let f = match self.file(&d.file) {
            Some(f) => f,
            None => return String::new(),
        };
        let Some(Found::Fn { sig, vis, block }) = find_fn(&f.ast, &d.path) else {
            self.stale.push(format!("{}: function `{}` not found", d.file, d.path));
            return String::new();
        };
        // `closure=K`: the K-th closure of the function, as a function of its own
        let mut wrapped = false;
        let syn_block: Block;
        let mut block = block;
        if let Some(k) = d.opts.get("closure") {
            struct Cl<'a>(Vec<&'a Expr>);
            impl<'a> Visit<'a> for Cl<'a> {
                fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
                    self.0.push(&c.body);
                    visit::visit_expr_closure(self, c);
                }
            }
            let mut v = Cl(vec![]);
            v.visit_block(block);
            match v.0.get(k.parse::<usize>().unwrap_or(0)) {
                Some(Expr::Block(b)) => block = &b.block,
                Some(e) => {
                    wrapped = true;
                    syn_block = Block { brace_token: Default::default(), stmts: vec![Stmt::Expr((*e).clone(), None)] };
                    block = &syn_block;
                }
                None => {
                    self.stale.push(format!("{}: closure {} of `{}` not found", d.file, k, d.path));
                    return String::new();
                }
            }
        }
        let block = block;
        let mut rules = d.rules.clone();
        rules.rewrites.extend(global.rewrites.iter().cloned().map(|mut r| {
            r.optional = true;
            r
        }));
        rules.renames.extend(global.renames.iter().cloned());
        rules.retypes.extend(global.retypes.iter().cloned());
        let mut c = Coll {
            f: &f,
            rules: &rules,
            edits: vec![],
            loops: vec![],
            stmts: vec![],
            blocks: vec![],
            hits: vec![0; rules.rewrites.len()],
            nclosures: 0,
        };
        if !d.opts.contains_key("closure") {
            c.visit_signature(sig);
        }
        c.visit_block(block);
        ident_renames(sig.to_token_stream(), &rules, &f, &mut c.edits);
        ident_renames(block.to_token_stream(), &rules, &f, &mut c.edits);
        let (mut edits, loops, stmts, hits) = (c.edits, c.loops, c.stmts, c.hits);
        let where_ = format!("{}: fn {}", d.file, d.path);
        for (k, rw) in rules.rewrites.iter().enumerate() {
            if hits[k] == 0 && !rw.optional {
                self.stale.push(format!("{}: rewrite `{}` found no match", where_, rw.pat_text));
            }
            if hits[k] > 0 {
                self.rewrites_applied.push(json!({"fn": d.path, "from": rw.pat_text, "to": rw.tmpl, "count": hits[k]}));
            }
        }
        // annotated loops must match the loops that exist
        let want: Vec<(usize, String)> = d.loops.iter().map(|l| (l.0, l.1.clone())).collect();
        if loops.len() != want.len() {
            self.stale.push(format!("{}: has {} loops, contract annotates {}", where_, loops.len(), want.len()));
            return String::new();
        }
        for (n, kind, opts, text) in &d.loops {
            let Some(l) = loops.get(*n) else { continue };
            if l.kind != kind {
                self.stale.push(format!("{}: loop {} is a `{}` loop, contract expects `{}`", where_, n, l.kind, kind));
                return String::new();
            }
            let b = br(l.body, &f);
            edits.push(Edit { start: b.start, end: b.start, prio: 0, parts: vec![Part::Text(format!("\n{}\n", text))] });
            // `for P in E` over a slice as an index loop (the verifier's `for` has no `continue`)
            if let (Some(it), Some(es), Some((ws, ps))) = (opts.get("index"), l.expr, l.head) {
                let (r, w, p) = (br(es, &f), br(ws, &f), br(ps, &f));
                let pat = f.text[p.clone()].to_string();
                let amp = if opts.contains_key("copy") { "" } else { "&" };
                edits.push(Edit { start: w.start, end: r.start, prio: 0, parts: vec![Part::Text(format!("{{ let {}_v = ", it))] });
                edits.push(Edit { start: r.end, end: r.end, prio: 2, parts: vec![Part::Text(format!("; let mut {it}: usize = 0; while {it} < {it}_v.len()"))] });
                edits.push(Edit { start: b.start + 1, end: b.start + 1, prio: -3, parts: vec![Part::Text(format!("\nlet {pat} = {amp}{it}_v[{it}]; {it} = {it} + 1;\n"))] });
                edits.push(Edit { start: b.end, end: b.end, prio: -3, parts: vec![Part::Text(" }".into())] });
            }
            if let (Some(it), Some(es)) = (opts.get("iter"), l.expr) {
                let r = br(es, &f);
                edits.push(Edit { start: r.start, end: r.start, prio: 0, parts: vec![Part::Text(format!("{}: ", it))] });
            }
            if self.vacuity && !opts.contains_key("novac") {
                edits.push(Edit {
                    start: b.start + 1,
                    end: b.start + 1,
                    prio: -1,
                    parts: vec![Part::Text(format!("\n proof {{ if crate::vac_nd({}) {{ assert(false); /*COVER {} loop {}*/ }} }}\n", self.covers, d.path, n))],
                });
                self.covers += 1;
            }
        }
        let bb = if wrapped { br(block.stmts[0].span(), &f) } else { br(block.span(), &f) };
        if wrapped && self.vacuity {
            edits.push(Edit {
                start: bb.start,
                end: bb.start,
                prio: -9,
                parts: vec![Part::Text(format!("\n proof {{ if crate::vac_nd({}) {{ assert(false); /*COVER {}*/ }} }}\n", self.covers, d.path))],
            });
            self.covers += 1;
        }
        if self.vacuity && !wrapped && !d.opts.contains_key("novac") {
            edits.push(Edit {
                start: bb.start + 1,
                end: bb.start + 1,
                prio: -1,
                parts: vec![Part::Text(format!("\n proof {{ if crate::vac_nd({}) {{ assert(false); /*COVER {}*/ }} }}\n", self.covers, d.path))],
            });
            self.covers += 1;
        }
        for (pos, text) in &d.ats {
            let p = pos.trim();
            let mut semi = false;
            let at = if p == "fn start" {
                Some(bb.start + 1)
            } else if p == "fn end" {
                match block.stmts.last() {
                    Some(Stmt::Expr(e, None)) => Some(br(e.span(), &f).start),
                    _ => Some(bb.end - 1),
                }
            } else if p == "fn tail" {
                semi = tail_expr(block);
                Some(bb.end - 1)
            } else if let Some(rest) = p.strip_prefix("loop ") {
                let mut it = rest.split_whitespace();
                let n: usize = it.next().unwrap().parse().unwrap();
                let b = loops.get(n).map(|l| br(l.body, &f));
                let w = it.next().unwrap_or("");
                if w == "end" {
                    semi = loops.get(n).map(|l| l.tail).unwrap_or(false);
                }
                match (b, w) {
                    (Some(b), "start") => Some(b.start + 1),
                    (Some(b), "end") => Some(b.end - 1),
                    (Some(b), "after") => Some(b.end),
                    _ => None,
                }
            } else if let Some(rest) = p.strip_prefix("before ") {
                let (n, pat) = nth(rest);
                stmts.iter().filter(|t| t.0.starts_with(&pat)).nth(n).map(|t| br(t.1, &f).start)
            } else if let Some(rest) = p.strip_prefix("after ") {
                let (n, pat) = nth(rest);
                stmts.iter().filter(|t| t.0.starts_with(&pat)).nth(n).map(|t| {
                    semi = t.2;
                    br(t.1, &f).end
                })
            } else {
                None
            };
            match at {
                Some(o) => edits.push(Edit { start: o, end: o, prio: 1, parts: vec![Part::Text(format!("{}\n{}\n", if semi { ";" } else { "" }, text))] }),
                None => self.stale.push(format!("{}: anchor `{}` not found", where_, p)),
            }
        }
        // signature
        let sigr = br(sig.span(), &f);
        let start = sigr.start;
        let mut out = String::new();
        let visible = match vis {
            Some(Visibility::Inherited) | None => d.opts.contains_key("pub"),
            _ => !d.opts.contains_key("nopub"),
        };
        if let Some(a) = d.opts.get("attr") {
            for x in a.split(';') {
                out.push_str(&format!("#[{}]\n", x));
            }
        }
        if visible {
            out.push_str("pub ");
        }
        if let Some(s) = &d.sig {
            out.push_str(s.trim());
            out.push('\n');
        } else {
            if let (Some(r), ReturnType::Type(_, t)) = (d.opts.get("ret"), &sig.output) {
                let tr = br(t.span(), &f);
                edits.push(Edit { start: tr.start, end: tr.start, prio: -5, parts: vec![Part::Text(format!("({}: ", r))] });
                edits.push(Edit { start: tr.end, end: tr.end, prio: -5, parts: vec![Part::Text(")".into())] });
                // `)` insertion sits at tr.end which is inside [start,sigend]
            }
            if let Some(n) = d.opts.get("name") {
                let nr = br(sig.ident.span(), &f);
                edits.push(Edit { start: nr.start, end: nr.end, prio: 0, parts: vec![Part::Text(n.clone())] });
            }
            out.push_str(&render(&f, &edits, start, sigr.end, None));
            out.push('\n');
        }
        out.push_str(&d.spec);
        out.push('\n');
        // body: insertions located exactly at the block's own `{` belong to loops only
        if wrapped {
            out.push_str("{ ");
        }
        out.push_str(&render(&f, &edits, bb.start, bb.end, None));
        if wrapped {
            out.push_str(" }");
        }
        out.push('\n');
        let line = f.line_of(start);
        self.report.push(json!({
            "fn": match d.opts.get("closure") { Some(k) => format!("{} (closure {})", d.path, k), None => d.path.clone() }, "file": d.file, "line": line,
            "lines": f.text[start..bb.end].lines().count(),
            "loops": loops.len(),
        }));
        out
    }
}

fn nth(rest: &str) -> (usize, String) {
    let rest = rest.trim();
    if let Some(r) = rest.strip_prefix('#') {
        let mut it = r.splitn(2, ' ');
        let n = it.next().unwrap().parse().unwrap_or(0);
        return (n, nstr(it.next().unwrap_or("")));
    }
    (0, nstr(rest))
}

fn parse_rule(kind: &str, rest: &str, rules: &mut Rules) -> std::result::Result<(), String> {
    let mut it = rest.splitn(2, if rest.contains(" ==>> ") { "==>>" } else { "=>" });
    let a = it.next().unwrap_or("").trim().to_string();
    let b = it.next().ok_or_else(|| format!("missing => in {}", rest))?.trim().to_string();
    match kind {
        "rewrite" | "rewrite?" => {
            let optional = kind == "rewrite?";
            if a.ends_with(';') {
                let blk: Block = parse_str(&format!("{{ {} }}", a)).map_err(|e| format!("bad pattern {}: {}", a, e))?;
                let pat: Expr = parse_str("()").unwrap();
                rules.rewrites.push(Rewrite { pat_text: a, pat, stmt: blk.stmts.into_iter().next(), tmpl: b, optional });
            } else {
                let pat: Expr = parse_str(&a).map_err(|e| format!("bad pattern {}: {}", a, e))?;
                rules.rewrites.push(Rewrite { pat_text: a, pat, stmt: None, tmpl: b, optional });
            }
        }
        "rename" => rules.renames.push((a, b)),
        "retype" => rules.retypes.push((a, b)),
        _ => return Err(format!("unknown rule {}", kind)),
    }
    Ok(())
}

fn opts(it: &[&str]) -> BTreeMap<String, String> {
    it.iter()
        .map(|s| {
            let mut p = s.splitn(2, '=');
            (p.next().unwrap().to_string(), p.next().unwrap_or("").to_string())
        })
        .collect()
}

/// split `file path-with-spaces opts` : the path runs to the first ` [` option list
fn split_opts(s: &str) -> (String, BTreeMap<String, String>) {
    if let Some(i) = s.find(" {") {
        let o = s[i + 2..].trim_end().trim_end_matches('}').trim().to_string();
        let v: Vec<&str> = o.split_whitespace().collect();
        (s[..i].trim().to_string(), opts(&v))
    } else {
        (s.trim().to_string(), BTreeMap::new())
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let tmpl = std::fs::read_to_string(&args[1]).expect("template");
    let dir = std::path::Path::new(&args[1]).parent().unwrap().to_path_buf();
    let mut cx = Ctx {
        repo: args[2].clone(),
        files: HashMap::new(),
        stale: vec![],
        report: vec![],
        rewrites_applied: vec![],
        vacuity: args.iter().any(|a| a == "--vacuity"),
        covers: 0,
    };
    // includes
    fn expand(t: &str, dir: &std::path::Path) -> String {
        let mut o = String::new();
        for l in t.lines() {
            if let Some(r) = l.trim().strip_prefix("//@ include ") {
                let s = std::fs::read_to_string(dir.join(r.trim())).expect("include");
                o.push_str(&expand(&s, dir));
            } else {
                o.push_str(l);
                o.push('\n');
            }
        }
        o
    }
    let tmpl = expand(&tmpl, &dir).replace("\\\n", " ");
    let mut global = Rules::default();
    let mut out = String::new();
    let lines: Vec<&str> = tmpl.lines().collect();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        let Some(d) = l.trim().strip_prefix("//@ ") else {
            out.push_str(l);
            out.push('\n');
            i += 1;
            continue;
        };
        let mut w = d.splitn(2, ' ');
        let kind = w.next().unwrap();
        let rest = w.next().unwrap_or("").trim();
        match kind {
            "global" => {
                let mut w = rest.splitn(2, ' ');
                let k = w.next().unwrap();
                parse_rule(k, w.next().unwrap_or(""), &mut global).expect("rule");
                i += 1;
            }
            "fn" => {
                let (p, o) = split_opts(rest);
                let mut w = p.splitn(2, ' ');
                let mut fd = FnDir {
                    file: w.next().unwrap().into(),
                    path: w.next().unwrap_or("").trim().into(),
                    opts: o,
                    ..Default::default()
                };
                i += 1;
                let mut mode = "spec".to_string();
                let mut marg = String::new();
                let mut buf = String::new();
                let flush = |mode: &str, marg: &str, buf: &mut String, fd: &mut FnDir| {
                    let t = std::mem::take(buf);
                    match mode {
                        "spec" => fd.spec.push_str(&t),
                        "sig" => fd.sig = Some(t),
                        "loop" => {
                            let (a, o) = split_opts(marg);
                            let mut w = a.split_whitespace();
                            let n = w.next().unwrap().parse().unwrap();
                            let k = w.next().unwrap_or("while").to_string();
                            fd.loops.push((n, k, o, t));
                        }
                        "at" => fd.ats.push((marg.to_string(), t)),
                        _ => {}
                    }
                };
                loop {
                    let l = lines.get(i).expect("unterminated //@ fn");
                    i += 1;
                    if let Some(d) = l.trim().strip_prefix("//@ ") {
                        let mut w = d.splitn(2, ' ');
                        let k = w.next().unwrap();
                        let rest = w.next().unwrap_or("").trim();
                        match k {
                            "end" => {
                                flush(&mode, &marg, &mut buf, &mut fd);
                                break;
                            }
                            "rewrite" | "rewrite?" | "rename" | "retype" => {
                                parse_rule(k, rest, &mut fd.rules).expect("rule");
                            }
                            _ => {
                                flush(&mode, &marg, &mut buf, &mut fd);
                                mode = k.to_string();
                                marg = rest.to_string();
                            }
                        }
                    } else {
                        buf.push_str(l);
                        buf.push('\n');
                    }
                }
                let t = cx.do_fn(&fd, &global);
                out.push_str(&t);
            }
            "item" => {
                // //@ item <file> <kind> <Name> {drop=a,b derive=..}
                let (p, o) = split_opts(rest);
                let v: Vec<&str> = p.split_whitespace().collect();
                let (file, k, name) = (v[0], v[1], v[2]);
                let mut rules = global.clone();
                i += 1;
                while let Some(d) = lines.get(i).and_then(|l| l.trim().strip_prefix("//@ ")) {
                    let mut w = d.splitn(2, ' ');
                    let kk = w.next().unwrap();
                    if ["rewrite?", "rename", "retype"].contains(&kk) {
                        parse_rule(kk, w.next().unwrap_or(""), &mut rules).expect("rule");
                        i += 1;
                    } else {
                        break;
                    }
                }
                let drop: Vec<&str> = o.get("drop").map(|s| s.split(',').collect()).unwrap_or_default();
                if k == "implconst" {
                    // constant of an impl block: `Type::NAME`, copied as it stands
                    let (ty, cn) = name.split_once("::").expect("implconst Type::NAME");
                    let mut found = false;
                    if let Some(f) = cx.file(file) {
                        for it in &f.ast.items {
                            if let Item::Impl(im) = it {
                                if last_seg(&im.self_ty) != ty || im.trait_.is_some() {
                                    continue;
                                }
                                for x in &im.items {
                                    if let ImplItem::Const(c) = x {
                                        if c.ident == cn {
                                            found = true;
                                            let r = br(c.ident.span(), &f).start..br(c.span(), &f).end;
                                            out.push_str(&format!("pub const {}\n", &f.text[r]));
                                        }
                                    }
                                }
                            }
                        }
                    }
                    if !found {
                        cx.stale.push(format!("{}: {} {} not found", file, k, name));
                    }
                    continue;
                }
                if let Some(f) = cx.file(file) {
                    let mut found = false;
                    for it in &f.ast.items {
                        let (attrs, sp, ok) = match it {
                            Item::Struct(s) => (&s.attrs, s.span(), k == "struct" && s.ident == name),
                            Item::Enum(s) => (&s.attrs, s.span(), k == "enum" && s.ident == name),
                            Item::Const(s) => (&s.attrs, s.span(), k == "const" && s.ident == name),
                            Item::Type(s) => (&s.attrs, s.span(), k == "type" && s.ident == name),
                            _ => continue,
                        };
                        if !ok {
                            continue;
                        }
                        found = true;
                        let mut c = Coll {
                            f: &f,
                            rules: &rules,
                            edits: vec![],
                            loops: vec![],
                            stmts: vec![],
                            blocks: vec![],
                            hits: vec![0; rules.rewrites.len()],
                            nclosures: 0,
                        };
                        c.visit_item(it);
                        ident_renames(it.to_token_stream(), &rules, &f, &mut c.edits);
                        let mut edits = c.edits;
                        for a in attrs {
                            let r = br(a.span(), &f);
                            edits.push(Edit { start: r.start, end: r.end, prio: 0, parts: vec![] });
                        }
                        let fields: Vec<&Field> = match it {
                            Item::Struct(s) => s.fields.iter().collect(),
                            Item::Enum(s) => s.variants.iter().flat_map(|v| v.fields.iter()).collect(),
                            _ => vec![],
                        };
                        for fl in fields {
                            for a in &fl.attrs {
                                let r = br(a.span(), &f);
                                edits.push(Edit { start: r.start, end: r.end, prio: 0, parts: vec![] });
                            }
                            if let Some(id) = &fl.ident {
                                if drop.contains(&id.to_string().as_str()) {
                                    let r = br(fl.span(), &f);
                                    let mut end = r.end;
                                    if f.text[end..].trim_start().starts_with(',') {
                                        end += f.text[end..].find(',').unwrap() + 1;
                                    }
                                    edits.push(Edit { start: r.start, end, prio: -9, parts: vec![] });
                                    continue;
                                }
                            }
                            // fields are public in the verified text
                            match &fl.vis {
                                Visibility::Inherited => {
                                    if matches!(it, Item::Struct(_)) {
                                        let r = match &fl.ident {
                                            Some(id) => br(id.span(), &f),
                                            None => br(fl.ty.span(), &f),
                                        };
                                        edits.push(Edit { start: r.start, end: r.start, prio: -3, parts: vec![Part::Text("pub ".into())] });
                                    }
                                }
                                v => {
                                    let r = br(v.span(), &f);
                                    edits.push(Edit { start: r.start, end: r.end, prio: 0, parts: vec![Part::Text("pub".into())] });
                                }
                            }
                        }
                        if let Item::Enum(s) = it {
                            for v in &s.variants {
                                for a in &v.attrs {
                                    let r = br(a.span(), &f);
                                    edits.push(Edit { start: r.start, end: r.end, prio: 0, parts: vec![] });
                                }
                            }
                        }
                        let vis = match it {
                            Item::Struct(s) => &s.vis,
                            Item::Enum(s) => &s.vis,
                            Item::Const(s) => &s.vis,
                            Item::Type(s) => &s.vis,
                            _ => unreachable!(),
                        };
                        let r = br(sp, &f);
                        if let Visibility::Inherited = vis {
                            out.push_str("");
                        } else {
                            let vr = br(vis.span(), &f);
                            edits.push(Edit { start: vr.start, end: vr.end, prio: 0, parts: vec![] });
                        }
                        if let Some(dv) = o.get("derive") {
                            out.push_str(&format!("#[derive({})]\n", dv));
                        }
                        if let Some(a) = o.get("attr") {
                            for x in a.split(';') {
                                out.push_str(&format!("#[{}]\n", x));
                            }
                        }
                        out.push_str("pub ");
                        let t = render(&f, &edits, r.start, r.end, None);
                        out.push_str(t.trim_start());
                        out.push('\n');
                        break;
                    }
                    if !found {
                        cx.stale.push(format!("{}: {} {} not found", file, k, name));
                    }
                }
            }
            _ => panic!("unknown directive {}", l),
        }
    }
    if cx.vacuity {
        // an arbitrary condition per cover: a failing one must not hide those after it
        out = out.replacen("verus! {\n", "verus! {\nuninterp spec fn vac_nd(n: int) -> bool;\n", 1);
    }
    std::fs::write(&args[3], out).expect("write out");
    let rep = json!({"functions": cx.report, "stale": cx.stale, "rewrites": cx.rewrites_applied, "covers": cx.covers});
    std::fs::write(&args[4], serde_json::to_string_pretty(&rep).unwrap()).expect("write report");
    if !cx.stale.is_empty() {
        for s in &cx.stale {
            eprintln!("STALE {}", s);
        }
        std::process::exit(3);
    }
}
