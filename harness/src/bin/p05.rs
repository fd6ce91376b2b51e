//! P05: channel-filtered token streams against the plain sequence of the source's tokens.
use antlr_rust::common_token_stream::CommonTokenStream;
use antlr_rust::int_stream::IntStream;
use antlr_rust::token::Token;
use antlr_rust::token_stream::TokenStream;
use harness::parsedrv::{tok_text, VecSource};
use harness::*;

type S<'i> = CommonTokenStream<'i, VecSource<'i>>;
fn ty(v: &[(isize, isize)], i: isize) -> isize {
    if (i as usize) < v.len() { v[i as usize].0 } else { -1 }
}
/// the tokens of the channel, then end of input
fn on(v: &[(isize, isize)], ch: isize) -> Vec<isize> {
    let mut o: Vec<isize> = (0..v.len()).filter(|i| v[*i].1 == ch).map(|x| x as isize).collect();
    o.push(v.len() as isize);
    o
}
fn at(s: &mut S, v: &[(isize, isize)], want: Option<isize>, k: isize) -> Result<(), String> {
    match want {
        None => {
            ensure!(s.lt(k).is_none(), "lt({}) before the first token gave token {}", k, s.lt(k).unwrap().get_token_index());
            ensure!(s.la(k) == 0, "la({}) before the first token gave {}", k, s.la(k));
        }
        Some(w) => {
            let t = s.lt(k).ok_or_else(|| format!("lt({}) gave no token, expected token {}", k, w))?;
            ensure_eq!((t.get_token_index(), t.get_token_type()), (w, ty(v, w)), "lt({})", k);
            if (w as usize) < v.len() {
                ensure_eq!(t.get_text(), tok_text(ty(v, w), w as usize), "text of lt({})", k);
            }
            ensure_eq!(s.la(k), ty(v, w), "la({})", k);
        }
    }
    Ok(())
}
fn run(v: &[(isize, isize)], ch: isize, r: &mut Rng, steps: usize, log: &mut Vec<String>) -> Result<(), String> {
    let src = VecSource::new(v);
    let fetched = src.fetched.clone();
    let mut s = if ch == 0 && r.chance(1, 2) { CommonTokenStream::new(src) } else { CommonTokenStream::with_channel(src, ch) };
    let n = v.len() as isize;
    let o = on(v, ch);
    let last = o.len() - 1;
    let mut c = 0usize; // cursor within `o`
    let mut marks = vec![];
    let mut hi = o[0];
    for _ in 0..steps {
        match r.below(13) {
            0 | 1 | 2 if c < last => {
                log.push("consume".into());
                s.consume();
                c += 1;
                hi = hi.max(o[c]);
            }
            3 | 4 => {
                let m = if r.chance(1, 6) { 12.max(n as usize + 2) } else { 3 };
                let k = 1 + r.below(m);
                log.push(format!("lt({})", k));
                let w = o[(c + k - 1).min(last)];
                hi = hi.max(w);
                at(&mut s, v, Some(w), k as isize)?;
            }
            5 | 6 => {
                let m = if r.chance(1, 6) { 12.max(n as usize + 2) } else { 3 };
                let k = 1 + r.below(m);
                log.push(format!("lt(-{})", k));
                at(&mut s, v, if k <= c { Some(o[c - k]) } else { None }, -(k as isize))?;
            }
            7 => {
                log.push("mark".into());
                let m = s.mark();
                marks.push((m, s.index()));
            }
            8 => {
                if let Some((m, i)) = marks.pop() {
                    log.push(format!("seek({}) release", i));
                    s.seek(i);
                    c = o.iter().position(|x| *x == i).ok_or("mark was set off channel")?;
                    s.release(m);
                }
            }
            9 => {
                // anywhere: ends on the next token of the channel
                let to = if r.chance(1, 5) { n + r.below(4) as isize } else { r.range(0, n) };
                log.push(format!("seek({})", to));
                s.seek(to);
                c = o.iter().position(|x| *x >= to).unwrap_or(last);
                hi = hi.max(o[c]);
            }
            10 if r.chance(1, 4) => {
                log.push("reset".into());
                s.reset();
                c = 0;
            }
            11 => {
                // every token stays addressable, on or off channel
                let a = r.range(0, hi);
                log.push(format!("get({})", a));
                let t = s.get(a);
                ensure_eq!((t.get_token_index(), t.get_token_type()), (a, ty(v, a)), "get({})", a);
                if a < n { ensure_eq!(t.get_channel(), v[a as usize].1, "channel of get({})", a); }
                let b = r.range(a - 1, hi);
                log.push(format!("text({},{})", a, b));
                let want: String = (a..=b).filter(|x| *x < n).map(|x| tok_text(ty(v, x), x as usize)).collect();
                ensure_eq!(s.get_text_from_interval(a, b), want, "text of {}..={}", a, b);
                if b >= a {
                    let (ta, tb) = (s.get(a).clone(), s.get(b).clone());
                    ensure_eq!(s.get_text_from_tokens(&*ta, &*tb), want, "text from token {} to {}", a, b);
                }
            }
            _ => {}
        }
        ensure_eq!(s.index(), o[c], "index");
        at(&mut s, v, Some(o[c]), 1)?;
        ensure!(*fetched.borrow() as isize <= n + 1, "tokens fetched after the end of input");
    }
    if r.chance(1, 2) {
        log.push("iter".into());
        let rest: Vec<isize> = s.iter().collect();
        let want: Vec<isize> = o[c..last].iter().map(|x| ty(v, *x)).collect();
        let mut w2 = want.clone();
        w2.push(-1);
        ensure!(rest == want || rest == w2, "iter: got {:?}, expected {:?}", rest, w2);
    }
    // all tokens, whatever was skipped
    s.seek(n);
    let all: String = (0..n).map(|x| tok_text(ty(v, x), x as usize)).collect();
    ensure_eq!(s.get_all_text(), all, "text of all tokens");
    ensure_eq!(*fetched.borrow() as isize, n + 1, "number of fetches");
    for i in 0..=n {
        ensure_eq!((s.get(i).get_token_index(), s.get(i).get_token_type()), (i, ty(v, i)), "get({})", i);
    }
    Ok(())
}
fn main() {
    let mut h = H::new("random token sequences over three channels x random histories of consume, lookahead, lookback, seek, reset, get, text; oracle: the filtered sequence");
    let mut r = h.rng(5);
    while h.more() && (h.thorough || h.cases < 60_000) {
        let big = r.chance(1, 50);
        let n = if big { 20 + r.below(300) } else { r.below(9) };
        let hidden = r.below(4);
        let v: Vec<(isize, isize)> = (0..n).map(|_| (r.range(1, 4), if r.below(4) < hidden { r.range(1, 2) } else { 0 })).collect();
        let ch = if r.chance(1, 4) { r.range(1, 2) } else { 0 };
        let steps = 1 + r.below(if big { 200 } else { 24 });
        let mut r2 = r.clone();
        let mut log = vec![];
        let desc = format!("tokens {:?} channel {} history seed {} steps {}", v, ch, r2.0, steps);
        h.case("history", desc, n > 0, || guard(|| run(&v, ch, &mut r2, steps, &mut log)).and_then(|x| x).map_err(|e| format!("{} after {}", e, log.join(" "))));
        r.next();
    }
    h.finish();
}
