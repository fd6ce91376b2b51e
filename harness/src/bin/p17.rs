//! P17: the tree is the derivation, its leaves are the consumed tokens.
use harness::parsedrv::*;
use harness::*;

struct Chk<'a> {
    on: &'a [isize],
    eof: isize,
    lr: Vec<bool>,
    /// on-channel tokens seen so far in document order
    k: usize,
    /// end of input was matched
    eof_matched: bool,
    names: usize,
    /// an end-of-input leaf has been seen in a parse with syntax errors: it may
    /// be one the repair put there rather than one that was matched
    eof_repaired: bool,
    errs: bool,
}
impl<'a> Chk<'a> {
    fn at(&self, k: usize) -> isize {
        self.on.get(k).copied().unwrap_or(self.eof)
    }
    fn node(&mut self, t: &PT) -> Result<String, String> {
        match t {
            PT::Leaf(ty, i, text, err) => {
                if *ty == -1 {
                    ensure_eq!(*i, self.eof, "index of the end-of-input leaf");
                    if self.errs || *err {
                        self.eof_repaired = true;
                    } else {
                        self.eof_matched = true;
                    }
                } else if *i == -1 {
                    ensure!(*err, "an inserted token is not an error leaf");
                    ensure!(text.starts_with("<missing"), "text of an inserted token {:?}", text);
                } else {
                    ensure!(self.k < self.on.len(), "a leaf beyond the input: {}", i);
                    ensure_eq!(*i, self.on[self.k], "leaf {} of the tree", self.k);
                    ensure_eq!(*text, tok_text(*ty, *i as usize), "text of leaf {}", i);
                    self.k += 1;
                }
                Ok(text.clone())
            }
            PT::Rule { rule, start, stop, kids, text, .. } => {
                ensure!(*rule < self.names, "rule index {}", rule);
                let k0 = self.k;
                ensure_eq!(*start, self.at(k0), "start of a node of rule {}", rule);
                let mut all = String::new();
                for c in kids {
                    all += &self.node(c)?;
                }
                ensure_eq!(*text, all, "text of a node of rule {}", rule);
                let want = if self.eof_matched && !self.lr[*rule] {
                    self.eof
                } else if self.k == 0 {
                    -1
                } else {
                    self.on[self.k - 1]
                };
                if !(self.eof_repaired && *stop == self.eof) {
                    ensure_eq!(*stop, want, "stop of a node of rule {}", rule);
                }
                Ok(all)
            }
        }
    }
}
fn lisp(t: &PT) -> String {
    match t {
        PT::Leaf(_, _, x, _) => x.clone(),
        PT::Rule { rule, kids, .. } => {
            if kids.is_empty() {
                format!("r{}", rule)
            } else {
                format!("(r{} {})", rule, kids.iter().map(lisp).collect::<Vec<_>>().join(" "))
            }
        }
    }
}
fn labels(t: &PT, on: bool, lr: &[bool]) -> bool {
    match t {
        PT::Leaf(..) => true,
        PT::Rule { rule, label, kids, .. } => (*label == 1) == (on && rule % 2 == 1 && !lr[*rule]) && kids.iter().all(|k| labels(k, on, lr)),
    }
}

fn main() {
    let mut h = H::new("random parser grammars (nested blocks, loops, recursion, left recursion with precedence, sets) x sentences, damaged sentences and noise, with hidden tokens in between, labelled contexts and parse listeners; oracle: derivation found by an independent backtracking parser, leaves = consumed tokens, start/stop/text/parent of every node");
    let mut r = h.rng(17);
    let mut round = 0;
    while h.more() && (h.thorough || h.cases < 60_000) {
        let o = PGen { leftrec: r.chance(1, 2), preds: 0, nongreedy: false, wild: r.chance(1, 2), ntok: 3 + r.below(3) as i32 };
        // a few long inputs first
        round += 1;
        let o = if round <= 2 { PGen { ntok: 5, ..o } } else { o };
        let g = if round <= 2 { plain() } else { parser_gram(&mut r, &o) };
        let env = match guard(|| PEnv::new(&g)) {
            Ok(e) => e,
            Err(e) => {
                h.case("deserialize", format!("{:?}", g), true, || Err(e));
                continue;
            }
        };
        for _ in 0..8 {
            let t = if round <= 2 { long_input(&mut r, if round == 1 { 300 } else { 1500 }) } else { input(&mut r, &g, 10) };
            let mut toks: Vec<(isize, isize)> = vec![];
            for x in &t {
                while r.chance(1, 5) {
                    toks.push((r.below(o.ntok as usize) as isize + 1, 1));
                }
                toks.push((*x, 0));
            }
            let on: Vec<isize> = (0..toks.len()).filter(|i| toks[*i].1 == 0).map(|i| i as isize).collect();
            let ro = RunOpt { listener: r.chance(1, 3), label: r.chance(1, 3), ..Default::default() };
            let want = match Bt::new(&g, &t).parse() {
                Ok(w) => w,
                Err(_) if round <= 2 => None,
                Err(_) => continue,
            };
            let lr: Vec<bool> = g.rules.iter().map(|x| x.leftrec).collect();
            h.case("tree", format!("grammar {:?} tokens {:?} listener {} label {}", g.rules, toks, ro.listener, ro.label), t.len() > 1, || {
                let run = match guard(|| parse(&env, &toks, &ro)) {
                    Ok(r) => r,
                    // an endless repair is P19's
                    Err(e) if e.contains("does not terminate") => return Ok(()),
                    Err(e) => return Err(e),
                };
                let tree = match &run.tree {
                    Some(t) => t,
                    None => return Err("no tree".into()),
                };
                if let Some(e) = &run.tree_err {
                    return Err(e.clone());
                }
                let mut c = Chk { on: &on, eof: toks.len() as isize, lr: lr.clone(), k: 0, eof_matched: false, names: g.rules.len(), eof_repaired: false, errs: !run.errs.is_empty() };
                c.node(tree)?;
                // every token consumed is a leaf
                let consumed = on.iter().filter(|i| **i < run.index).count();
                ensure_eq!(c.k, consumed, "tokens consumed and leaves of the tree");
                ensure_eq!(run.string_tree, lisp(tree), "printed tree");
                ensure!(labels(tree, ro.label, &lr), "labelled contexts");
                if let Some(w) = &want {
                    if run.errs.is_empty() {
                        let raw: Vec<(isize, isize)> = on.iter().map(|i| toks[*i as usize]).collect();
                        let mut s = String::new();
                        shape(tree, &on, &mut s);
                        let mut ws = String::new();
                        oshape(w, &raw, &mut ws);
                        ensure_eq!(s, ws, "nesting of the rules");
                    }
                }
                // without building a tree the parse goes the same way
                let run2 = parse(&env, &toks, &RunOpt { no_tree: true, ..ro.clone() });
                ensure_eq!((run2.index, &run2.errs), (run.index, &run.errs), "parse without tree");
                match &run2.tree {
                    Some(PT::Rule { kids, start, stop, .. }) => {
                        if let PT::Rule { start: a, stop: b, .. } = tree {
                            ensure_eq!((start, stop), (a, b), "start and stop of the root without a tree");
                        }
                        ensure!(kids.is_empty() || ro.listener, "children although no tree is built: {:?}", kids)
                    }
                    _ => return Err("no root".into()),
                }
                Ok(())
            });
        }
    }
    h.finish();
}
fn shape(t: &PT, on: &[isize], s: &mut String) {
    match t {
        PT::Leaf(-1, ..) => s.push_str(" EOF"),
        PT::Leaf(_, i, ..) => s.push_str(&format!(" {}", on.iter().position(|x| x == i).unwrap_or(usize::MAX))),
        PT::Rule { rule, kids, .. } => {
            s.push_str(&format!(" (r{}", rule));
            kids.iter().for_each(|k| shape(k, on, s));
            s.push(')');
        }
    }
}
fn oshape(t: &OT, on: &[(isize, isize)], s: &mut String) {
    match t {
        OT::Eof => s.push_str(" EOF"),
        OT::Tok(i) => s.push_str(&format!(" {}", i)),
        OT::Rule(r, k) => {
            s.push_str(&format!(" (r{}", r));
            k.iter().for_each(|k| oshape(k, on, s));
            s.push(')');
        }
    }
}
