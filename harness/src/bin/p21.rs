//! P21: token attributes and text.
use antlr_rust::token::{CommonToken, OwningToken, Token};
use antlr_rust::token_factory::*;
use antlr_rust::InputStream;
use harness::*;

#[derive(Debug, Clone)]
struct A { ty: isize, ch: isize, start: isize, stop: isize, line: isize, col: isize, over: Option<String>, idx: isize }

fn check<T: Token<Data = str> + ?Sized>(t: &T, a: &A, text: &str, idx: isize) -> Result<(), String> {
    ensure_eq!((t.get_token_type(), t.get_channel(), t.get_start(), t.get_stop(), t.get_line(), t.get_column()), (a.ty, a.ch, a.start, a.stop, a.line, a.col), "type, channel, start, stop, line, column");
    ensure_eq!(t.get_token_index(), idx, "token index");
    ensure_eq!(t.get_text(), text, "text");
    Ok(())
}
/// what a token type with no `to_owned` of its own gets from the trait
#[derive(Debug)]
struct Plain<'a>(&'a CommonToken<'a>);
impl<'a> std::fmt::Display for Plain<'a> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "p") } }
impl<'a> Token for Plain<'a> {
    type Data = str;
    fn get_token_type(&self) -> isize { self.0.get_token_type() }
    fn get_channel(&self) -> isize { self.0.get_channel() }
    fn get_start(&self) -> isize { self.0.get_start() }
    fn get_stop(&self) -> isize { self.0.get_stop() }
    fn get_line(&self) -> isize { self.0.get_line() }
    fn get_column(&self) -> isize { self.0.get_column() }
    fn get_text(&self) -> &str { self.0.get_text() }
    fn get_token_index(&self) -> isize { self.0.get_token_index() }
}
fn main() {
    let mut h = H::new("random attributes, override texts and input positions x three factories; oracle: the arguments of create");
    let mut r = h.rng(21);
    while h.more() && (h.thorough || h.cases < 60_000) {
        let n = if r.chance(1, 20) { 200 + r.below(200) } else { 1 + r.below(6) };
        let t: String = (0..n).map(|_| *r.pick(&['a', 'é', '\n', '😀', 'z', ' ', '\0', '\t'])).collect();
        let mut pos: Vec<isize> = t.char_indices().map(|x| x.0 as isize).collect();
        pos.push(t.len() as isize);
        let i = r.below(n + 1);
        // i == n: the end of input
        let (ty, start, stop, piece) = if i == n {
            (-1, pos[n], pos[n] - 1, "<EOF>".to_string())
        } else {
            let j = i + r.below(n - i + 1); // exclusive end; i == j: empty token
            (r.range(1, 9), pos[i], if j == i { pos[i] - 1 } else if r.chance(1, 2) { pos[j] - 1 } else { pos[j - 1] }, t[pos[i] as usize..pos[j] as usize].to_string())
        };
        let over = if r.chance(1, 3) { Some(["", "x", "<EOF>", "long text", "\0", " \n"][r.below(6)].to_string()) } else { None };
        let ty = if r.chance(1, 12) { -1 } else { ty };
        let a = A { ty, ch: r.range(0, 3), start, stop, line: r.range(-1, 900), col: r.range(-1, 900), over, idx: r.range(-1, 70) };
        let with_src = r.chance(4, 5);
        let text = if a.ty == -1 { "<EOF>".to_string() } else { a.over.clone().unwrap_or(if with_src { piece } else { String::new() }) };
        h.case("create", format!("input {:?} source {} {:?}", t, with_src, a), true, || {
            let mut src = InputStream::new(&*t);
            let f = CommonTokenFactory::default();
            let tok = f.create(if with_src { Some(&mut src) } else { None }, a.ty, a.over.clone(), a.ch, a.start, a.stop, a.line, a.col);
            check(&*tok, &a, &text, -1)?;
            tok.set_token_index(a.idx);
            check(&*tok, &a, &text, a.idx)?;
            check(&*tok.clone(), &a, &text, a.idx)?;
            check(&Token::to_owned(&*tok), &a, &text, a.idx)?;
            check(&Token::to_owned(&Plain(&tok)), &a, &text, a.idx)?;
            let f = OwningTokenFactory::default();
            let tok = f.create(if with_src { Some(&mut src) } else { None }, a.ty, a.over.clone(), a.ch, a.start, a.stop, a.line, a.col);
            check(&*tok, &a, &text, -1)?;
            tok.set_token_index(a.idx);
            check(&*tok.clone(), &a, &text, a.idx)?;
            check(&Token::to_owned(&*tok), &a, &text, a.idx)?;
            let f: ArenaCommonFactory = Default::default();
            let other = f.create(None::<&mut InputStream<&str>>, 5, Some("q".into()), 0, 0, 0, 0, 0);
            let tok = f.create(if with_src { Some(&mut src) } else { None }, a.ty, a.over.clone(), a.ch, a.start, a.stop, a.line, a.col);
            check(tok, &a, &text, -1)?;
            tok.set_token_index(a.idx);
            check(&tok.clone(), &a, &text, a.idx)?;
            check(&Token::to_owned(tok), &a, &text, a.idx)?;
            ensure_eq!((other.get_token_type(), other.get_text(), other.get_token_index()), (5, "q", -1), "the other token of the arena");
            let f: ArenaOwningFactory = Default::default();
            let tok = f.create(if with_src { Some(&mut src) } else { None }, a.ty, a.over.clone(), a.ch, a.start, a.stop, a.line, a.col);
            check(tok, &a, &text, -1)?;
            let o: OwningToken = Token::to_owned(tok);
            check(&o, &a, &text, -1)?;
            Ok(())
        });
    }
    h.finish();
}
