//! P20: vocabulary lookups against the tables.
use antlr_rust::vocabulary::{Vocabulary, VocabularyImpl};
use harness::*;

fn name(r: &mut Rng) -> Option<String> {
    match r.below(8) {
        0 | 1 => None,
        2 => Some(String::new()),
        3 => Some("'x'".into()),
        4 => Some("'".into()),
        5 => Some("ID".into()),
        6 => Some("Ünit".into()),
        _ => Some(["expr", "_A", "é", "Ärger", "9"][r.below(5)].into()),
    }
}
fn table(r: &mut Rng) -> Vec<Option<String>> {
    let n = r.below(6);
    (0..n).map(|_| name(r)).collect()
}
fn at(t: &[Option<String>], i: isize) -> Option<&str> {
    if i < 0 { None } else { t.get(i as usize).and_then(|x| x.as_deref()) }
}
fn main() {
    let mut h = H::new("random name tables x every token type from -3 to 8 and the extremes; oracle: table lookups");
    let mut r = h.rng(20);
    let types: Vec<isize> = (-3..9).chain(vec![isize::MIN, isize::MAX, 1 << 40]).collect();
    while h.more() && (h.thorough || h.cases < 20_000) {
        let (l, s, d) = (table(&mut r), table(&mut r), table(&mut r));
        let with_d = r.chance(2, 3);
        h.case("tables", format!("literal {:?} symbolic {:?} display {:?}", l, s, if with_d { Some(&d) } else { None }), true, || {
            let v = VocabularyImpl::new(l.iter(), s.iter(), if with_d { Some(d.iter()) } else { None });
            let dd: &[Option<String>] = if with_d { &d } else { &[] };
            ensure_eq!(v.get_max_token_type(), l.len().max(s.len()).max(dd.len()) as isize - 1, "max token type");
            for &t in &types {
                let sym = if t == -1 { Some("EOF") } else { at(&s, t) };
                ensure_eq!(v.get_literal_name(t), at(&l, t), "literal name of {}", t);
                ensure_eq!(v.get_symbolic_name(t), sym, "symbolic name of {}", t);
                let disp = at(dd, t).or(at(&l, t)).or(sym).map(|x| x.to_string()).unwrap_or(t.to_string());
                ensure_eq!(v.get_display_name(t).to_string(), disp, "display name of {}", t);
            }
            Ok(())
        });
        h.case("names", format!("token names {:?}", d), true, || {
            let names: Vec<Option<&str>> = d.iter().map(|x| x.as_deref()).collect();
            let v = VocabularyImpl::from_token_names(&names);
            ensure_eq!(v.get_max_token_type(), names.len() as isize - 1, "max token type");
            for &t in &types {
                let n = at(&d, t);
                let lit = n.filter(|x| x.starts_with('\''));
                let sym = if t == -1 { Some("EOF") } else { n.filter(|x| x.chars().next().map_or(false, |c| c.is_uppercase())) };
                ensure_eq!(v.get_literal_name(t), lit, "literal name of {}", t);
                ensure_eq!(v.get_symbolic_name(t), sym, "symbolic name of {}", t);
                let disp = n.or(sym).map(|x| x.to_string()).unwrap_or(t.to_string());
                ensure_eq!(v.get_display_name(t).to_string(), disp, "display name of {}", t);
            }
            Ok(())
        });
    }
    h.finish();
}
