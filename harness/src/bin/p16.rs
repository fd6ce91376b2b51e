//! P16: expected tokens = first tokens of what can come next.
use antlr_rust::interval_set::IntervalSet;
use harness::gram::*;
use harness::parsedrv::*;
use harness::*;
use std::collections::BTreeSet;
use std::ops::Deref;

const EPS: isize = -2;
type S = BTreeSet<isize>;

fn elems(s: &IntervalSet) -> S {
    // the representation is public through iteration only by text: test membership over the token range
    let mut o = S::new();
    for v in -3..100 {
        if s.contains(v) {
            o.insert(v);
        }
    }
    o
}

/// least fixpoint over the transitions of the serialized automaton
struct Oracle {
    first: Vec<S>,
    raw: Raw,
}
impl Oracle {
    fn new(raw: &Raw) -> Oracle {
        let n = raw.states.len();
        let mut f = vec![S::new(); n];
        loop {
            let mut ch = false;
            for s in 0..n {
                if raw.states[s].0 == 7 {
                    ch |= f[s].insert(EPS);
                }
            }
            for e in &raw.edges {
                let (s, t) = (e[0] as usize, e[1] as usize);
                let add: S = match e[2] {
                    T_RULE => {
                        let c = f[e[3] as usize].clone();
                        let mut a: S = c.iter().copied().filter(|x| *x != EPS).collect();
                        if c.contains(&EPS) {
                            a.extend(f[t].iter());
                        }
                        a
                    }
                    T_ATOM => std::iter::once(if e[5] != 0 { -1 } else { e[3] as isize }).collect(),
                    T_RANGE => (e[3] as isize..=e[4] as isize).chain(if e[5] != 0 { Some(-1) } else { None }).collect(),
                    T_ANY => (1..=raw.max_token as isize).collect(),
                    T_SET | T_NOT => {
                        let (eof, iv) = &raw.sets[e[3] as usize];
                        let mut m: S = iv.iter().flat_map(|(a, b)| *a as isize..=*b as isize).collect();
                        if *eof {
                            m.insert(-1);
                        }
                        if e[2] == T_NOT {
                            (1..=raw.max_token as isize).filter(|x| !m.contains(x)).collect()
                        } else {
                            m
                        }
                    }
                    _ => f[t].clone(),
                };
                let k = f[s].len();
                f[s].extend(add);
                ch |= f[s].len() != k;
            }
            if !ch {
                return Oracle { first: f, raw: raw.clone() };
            }
        }
    }
    /// rule calls: source state -> (called rule, state to go on in)
    fn call(&self, s: usize) -> Option<(usize, usize)> {
        self.raw.edges.iter().find(|e| e[0] as usize == s && e[2] == T_RULE).map(|e| (e[4] as usize, e[1] as usize))
    }
    fn expected(&self, s: usize, stack: &[usize]) -> S {
        let mut o: S = self.first[s].iter().copied().filter(|x| *x != EPS).collect();
        if self.first[s].contains(&EPS) {
            match stack.split_first() {
                None => {
                    o.insert(-1);
                }
                Some((i, rest)) => o.extend(self.expected(self.call(*i).unwrap().1, rest)),
            }
        }
        o
    }
}

/// EOF as a member of sets and excluded sets
fn with_eof(r: &mut Rng, e: &mut E) {
    match e {
        E::Set(v) | E::Not(v) if r.chance(1, 2) => v.push((-1, -1)),
        E::Seq(v) | E::Alt(v) => v.iter_mut().for_each(|x| with_eof(r, x)),
        E::Opt(b, _) | E::Star(b, _) | E::Plus(b, _) => with_eof(r, b),
        _ => {}
    }
}
/// rules that can be empty, each calling the next one
fn nested(r: &mut Rng, g: &mut Gram) {
    let n = g.rules.len();
    let k = 2 + r.below(6);
    let some = |r: &mut Rng, g: &Gram| E::Opt(Box::new(E::Atom(1 + r.below(g.max_token as usize) as i32)), true);
    for i in 0..k {
        let mut v = vec![];
        if i + 1 < k {
            v.push(E::Ref(n + i + 1, 0));
        }
        if i + 1 == k || r.chance(1, 2) {
            v.push(some(r, g));
        }
        if r.chance(1, 4) {
            v.rotate_right(1);
        }
        if r.chance(1, 8) {
            v.push(E::Atom(1 + r.below(g.max_token as usize) as i32));
        }
        g.rules.push(Rule { body: if v.len() == 1 { v.pop().unwrap() } else { E::Seq(v) }, token: 0, mode: 0, leftrec: false });
    }
    let at = if n > 1 && !g.rules[n - 1].leftrec && r.chance(1, 2) { n - 1 } else { 0 };
    if g.rules[at].leftrec {
        return;
    }
    let b = std::mem::replace(&mut g.rules[at].body, E::Eof);
    g.rules[at].body = E::Seq(vec![E::Ref(n + r.below(k), 0), b]);
}

fn main() {
    let mut h = H::new("random parser grammars (loops, optional parts, recursion, left recursion, sets, wildcards, predicates) x every automaton state x random consistent call stacks (depth 0 to 5) and the contexts met in real parses; oracle: least fixpoint of first sets and nullability over the serialized transitions");
    let mut r = h.rng(16);
    while h.more() && (h.thorough || h.cases < 60_000) {
        let o = PGen { leftrec: r.chance(1, 2), preds: r.below(3), nongreedy: r.chance(1, 4), wild: r.chance(1, 2), ntok: 2 + r.below(5) as i32 };
        let mut g = parser_gram(&mut r, &o);
        let plain = r.chance(2, 3);
        if !plain {
            if g.rules.len() < 5 {
                nested(&mut r, &mut g);
            }
            let mut rules = std::mem::take(&mut g.rules);
            rules.iter_mut().for_each(|x| with_eof(&mut r, &mut x.body));
            g.rules = rules;
        }
        let env = match guard(|| PEnv::new(&g)) {
            Ok(e) => e,
            Err(_) => continue,
        };
        let raw = build(&g).raw;
        let q = Oracle::new(&raw);
        // invoking states per called rule
        let mut calls: Vec<Vec<usize>> = vec![vec![]; g.rules.len()];
        for s in 0..raw.states.len() {
            if let Some((c, _)) = q.call(s) {
                calls[c].push(s);
            }
        }
        let atn = &env.atn;
        let mut order: Vec<usize> = (0..raw.states.len()).filter(|s| raw.states[*s].1 >= 0).collect();
        for i in (1..order.len()).rev() {
            let j = r.below(i + 1);
            order.swap(i, j);
        }
        for s in order {
            let rule = raw.states[s].1 as usize;
            h.case("within the rule", format!("grammar {:?} state {}", g.rules, s), true, || {
                let got = guard(|| elems(atn.next_tokens(atn.states[s].as_ref())))?;
                ensure_eq!(got, q.first[s], "tokens that can come next within the rule ({} = its end)", EPS);
                Ok(())
            });
            for _ in 0..3 {
                let mut stack = vec![];
                let mut cur = rule;
                let depth = r.below(if plain { 6 } else { 10 });
                while stack.len() < depth && !calls[cur].is_empty() {
                    let i = calls[cur][r.below(calls[cur].len())];
                    stack.push(i);
                    cur = raw.states[i].1 as usize;
                }
                h.case("in a call stack", format!("grammar {:?} state {} stack {:?}", g.rules, s, stack), !stack.is_empty(), || {
                    let want = q.expected(s, &stack);
                    let got = guard(|| elems(&atn.get_expected_tokens(s as isize, stack.iter().map(|x| *x as isize))))?;
                    ensure_eq!(got, want, "expected tokens");
                    let got = guard(|| {
                        let mut c = new_ctx(None, -1, cur);
                        let mut keep = vec![c.clone()];
                        for (k, i) in stack.iter().enumerate().rev() {
                            let rule = q.call(*i).unwrap().0;
                            let _ = k;
                            c = new_ctx(Some(c.clone()), *i as isize, rule);
                            keep.push(c.clone());
                        }
                        elems(&atn.next_tokens_in_ctx::<XType>(atn.states[s].as_ref(), Some(c.deref())))
                    })?;
                    ensure_eq!(got, want, "look ahead in the call stack");
                    Ok(())
                });
            }
        }
        // the parser's own answer, at every state of a parse
        if o.preds == 0 && plain {
            let t = input(&mut r, &g, 8);
            h.case("in a parse", format!("grammar {:?} tokens {:?}", g.rules, t), true, || {
                let run = guard(|| parse(&env, &on0(&t), &RunOpt { expect: true, ..Default::default() }))?;
                for (s, stack, got) in &run.expected {
                    ensure_eq!(*got, q.expected(*s, stack), "expected tokens in state {} of stack {:?}", s, stack);
                }
                Ok(())
            });
        }
    }
    h.finish();
}
