//! P11: predicate formulas keep their truth value.
use antlr_rust::semantic_context::SemanticContext as C;
use antlr_rust::verif;
use harness::gram::{Gram, Rule, E};
use harness::parsedrv::{with_parser, PEnv};
use harness::*;
use std::hash::{Hash, Hasher};
use std::rc::Rc;

/// the formula as written
#[derive(Clone, Debug)]
enum F {
    None,
    P(isize, isize, bool),
    Prec(isize),
    And(Box<F>, Box<F>),
    Or(Box<F>, Box<F>),
}
fn gen(r: &mut Rng, d: usize) -> F {
    match r.below(if d == 0 { 7 } else { 15 }) {
        0 => F::None,
        1 | 2 | 3 => F::P(r.range(0, 1), r.range(0, 2), r.chance(1, 3)),
        4 | 5 | 6 => F::Prec(r.range(0, 4)),
        7..=10 => F::And(Box::new(gen(r, d - 1)), Box::new(gen(r, d - 1))),
        _ => F::Or(Box::new(gen(r, d - 1)), Box::new(gen(r, d - 1))),
    }
}
fn build(f: &F, raw: bool) -> C {
    match f {
        F::None => C::NONE,
        F::P(r, p, c) => C::Predicate { rule_index: *r, pred_index: *p, is_ctx_dependent: *c },
        F::Prec(p) => C::Precedence(*p),
        F::And(a, b) => {
            let (a, b) = (build(a, raw), build(b, raw));
            if raw { C::new_and(&a, &b) } else { C::and(Some(a), Some(&b)) }
        }
        F::Or(a, b) => {
            let (a, b) = (build(a, raw), build(b, raw));
            if raw { C::new_or(&a, &b) } else { C::or(Some(&a), Some(b)) }
        }
    }
}
fn bit(m: u32, r: isize, p: isize, c: bool) -> bool {
    if r < 0 { return true; }
    m >> (r * 6 + p * 2 + c as isize) & 1 == 1
}
fn truth(f: &F, m: u32, level: isize) -> bool {
    match f {
        F::None => true,
        F::P(r, p, c) => bit(m, *r, *p, *c),
        F::Prec(p) => *p >= level,
        F::And(a, b) => truth(a, m, level) && truth(b, m, level),
        F::Or(a, b) => truth(a, m, level) || truth(b, m, level),
    }
}
fn ctruth(c: &C, m: u32, level: isize) -> bool {
    match c {
        C::Predicate { rule_index, pred_index, is_ctx_dependent } => bit(m, *rule_index, *pred_index, *is_ctx_dependent),
        C::Precedence(p) => *p >= level,
        C::AND(v) => v.iter().all(|x| ctruth(x, m, level)),
        C::OR(v) => v.iter().any(|x| ctruth(x, m, level)),
    }
}
fn has_prec(c: &C) -> bool {
    match c {
        C::Predicate { .. } => false,
        C::Precedence(_) => true,
        C::AND(v) | C::OR(v) => v.iter().any(has_prec),
    }
}
fn h(c: &C) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    c.hash(&mut s);
    s.finish()
}
/// the predicates used
fn atoms(f: &F, o: &mut Vec<u32>) {
    match f {
        F::P(r, p, c) => {
            let b = (r * 6 + p * 2 + *c as isize) as u32;
            if !o.contains(&b) { o.push(b) }
        }
        F::And(a, b) | F::Or(a, b) => { atoms(a, o); atoms(b, o) }
        _ => {}
    }
}
fn main() {
    let mut hh = H::new("random formulas of predicates and precedences x all outcomes of the predicates used x all precedence levels; oracle: the formula as written");
    let mut r = hh.rng(11);
    let env = PEnv::new(&Gram { lexer: false, rules: vec![Rule { body: E::Atom(1), token: 1, mode: 0, leftrec: false }], modes: 0, max_token: 2, actions: vec![] });
    while hh.more() && (hh.thorough || hh.cases < 60_000) {
        let d = r.below(5);
        let f = gen(&mut r, d);
        let raw = r.chance(1, 4);
        let level = r.range(-1, 5);
        let mut at = vec![];
        atoms(&f, &mut at);
        // all outcomes, or 64 of them
        let ms: Vec<u32> = if at.len() <= 6 { (0..1u32 << at.len()).map(|x| at.iter().enumerate().map(|(i, b)| (x >> i & 1) << b).sum()).collect() } else { (0..64).map(|_| r.next() as u32).collect() };
        hh.case("formula", format!("{:?} level {} raw {}", f, level, raw), d > 0, || {
            let c = build(&f, raw);
            let c2 = build(&f, raw);
            ensure!(c == c2 && h(&c) == h(&c2), "built twice: {:?} and {:?} (hashes {:x} {:x})", c, c2, h(&c), h(&c2));
            for lv in -1..6 {
                for m in &ms { ensure_eq!(ctruth(&c, *m, lv), truth(&f, *m, lv), "truth of {:?} at level {} outcomes {:b}", c, lv, m); }
            }
            if c == C::NONE {
                for m in &ms { ensure!(truth(&f, *m, level), "settled true, but false under outcomes {:b}", m); }
            }
            // the runtime's own evaluation
            for m in &ms {
                let m = *m;
                let (ev, pe) = with_parser(&env, &[], level, Rc::new(move |r, p, c| bit(m, r, p, c)), |p, ctx| (verif::evaluate(&c, p, ctx), verif::eval_precedence(&c, p, ctx)));
                ensure_eq!(ev, truth(&f, m, level), "evaluate({:?}) under outcomes {:b}", c, m);
                match pe {
                    None => { for m in &ms { ensure!(!truth(&f, *m, level), "settled false, but true under outcomes {:b}", m); } }
                    Some(x) => {
                        for m in &ms { ensure_eq!(ctruth(&x, *m, level), truth(&f, *m, level), "truth of the partially evaluated {:?} under outcomes {:b}", x, m); }
                        ensure!(!has_prec(&x), "partially evaluated condition {:?} still asks for precedences", x);
                    }
                }
            }
            Ok(())
        });
    }
    hh.finish();
}
