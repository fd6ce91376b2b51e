//! P04: unbuffered token streams against the plain sequence of the source's tokens.
use antlr_rust::int_stream::IntStream;
use antlr_rust::token::Token;
use antlr_rust::token_stream::{TokenStream, UnbufferedTokenStream};
use harness::parsedrv::{tok_text, VecSource};
use harness::*;

/// the whole sequence: end of input repeats for ever
fn ty(v: &[(isize, isize)], i: isize) -> isize {
    if (i as usize) < v.len() { v[i as usize].0 } else { -1 }
}
fn at<'i>(s: &mut UnbufferedTokenStream<'i, VecSource<'i>>, v: &[(isize, isize)], want: isize, k: isize) -> Result<(), String> {
    let w = want.min(v.len() as isize);
    let t = s.lt(k).ok_or_else(|| format!("lt({}) gave no token, expected token {}", k, w))?;
    ensure_eq!((t.get_token_index(), t.get_token_type()), (w, ty(v, w)), "lt({})", k);
    if (w as usize) < v.len() {
        ensure_eq!((t.get_text(), t.get_channel()), (&*tok_text(v[w as usize].0, w as usize), v[w as usize].1), "text and channel of lt({})", k);
    }
    ensure_eq!(s.la(k), ty(v, w), "la({})", k);
    Ok(())
}

fn run(v: &[(isize, isize)], buffered: bool, r: &mut Rng, steps: usize, log: &mut Vec<String>) -> Result<(), String> {
    let src = VecSource::new(v);
    let fetched = src.fetched.clone();
    let mut s = if buffered { UnbufferedTokenStream::new_buffered(src) } else { UnbufferedTokenStream::new_unbuffered(src) };
    let n = v.len() as isize;
    let mut i = 0isize; // cursor
    let mut hi = 0isize; // one past the furthest token anybody asked for
    let mut marks: Vec<(isize, isize)> = vec![]; // (marker, index it was set at)
    if buffered { marks.push((-1, 0)); }
    // the first index guaranteed to be in the window: that of the outermost mark, else the previous token
    for _ in 0..steps {
        let lo = marks.first().map(|m| m.1).unwrap_or(i);
        match r.below(13) {
            0 | 1 | 2 => {
                if i < n {
                    log.push("consume".into());
                    s.consume();
                    i += 1;
                    hi = hi.max(i + 1);
                } else {
                    // end of input cannot be consumed
                    log.push("la(1)".into());
                    hi = hi.max(i + 1);
                    at(&mut s, v, i, 1)?;
                }
            }
            3 | 4 => {
                let k = if r.chance(1, 6) { 1 + r.below(if n > 12 { n as usize + 4 } else { 12 }) as isize } else { 1 + r.below(3) as isize };
                log.push(format!("lt({})", k));
                hi = hi.max(i + k);
                at(&mut s, v, i + k - 1, k)?;
            }
            5 => {
                log.push("lt(-1)".into());
                if i == 0 { ensure!(s.lt(-1).is_none(), "lt(-1) at the start gave a token"); }
                else { at(&mut s, v, i - 1, -1)?; }
            }
            6 => {
                let m = if r.chance(1, 4) { n as usize + 3 } else { 6 };
                let k = 1 + r.below(m) as isize;
                log.push(format!("lt({})", -k));
                if i - k >= lo { at(&mut s, v, i - k, -k)?; }
                else if i - k < 0 { ensure!(s.lt(-k).is_none(), "lt({}) before the start gave a token", -k); }
                else if let Some(t) = s.lt(-k) { ensure_eq!(t.get_token_index(), i - k, "index of lt({})", -k); }
            }
            7 => {
                if marks.len() < 4 {
                    log.push("mark".into());
                    let m = s.mark();
                    marks.push((m, i));
                }
            }
            8 => {
                if marks.len() > buffered as usize {
                    log.push("release".into());
                    let (m, at_) = marks.pop().unwrap();
                    if r.chance(1, 2) && at_ <= i {
                        log.push(format!("(after seek({}))", at_));
                        s.seek(at_);
                        i = at_;
                    }
                    s.release(m);
                }
            }
            9 | 10 => {
                if !marks.is_empty() {
                    // back into the window, or forward
                    let m = if r.chance(1, 4) { n as usize + 4 } else { 4 };
                    let to = if r.chance(1, 4) { i + 1 + r.below(m) as isize } else { r.range(lo, i) };
                    log.push(format!("seek({})", to));
                    s.seek(to);
                    if to > i { hi = hi.max(to + 1); }
                    i = to.min(n);
                }
            }
            11 => {
                if !marks.is_empty() && hi > lo {
                    let a = r.range(lo, (hi - 1).min(n));
                    log.push(format!("get({})", a));
                    ensure_eq!((s.get(a).get_token_index(), s.get(a).get_token_type()), (a, ty(v, a)), "get({})", a);
                    let b = r.range(a - 1, (hi - 1).min(n));
                    log.push(format!("text({},{})", a, b));
                    let want: String = (a..=b).filter(|x| *x < n).map(|x| tok_text(ty(v, x), x as usize)).collect();
                    ensure_eq!(s.get_text_from_interval(a, b), want, "text of {}..={}", a, b);
                }
            }
            _ => {
                log.push("index".into());
            }
        }
        ensure_eq!(s.index(), i, "index");
        // one fetch per token, and no token fetched before somebody needs it
        ensure!(*fetched.borrow() as isize <= (hi).min(n + 1), "{} tokens fetched, only {} needed", fetched.borrow(), hi.min(n + 1));
    }
    ensure_eq!(*fetched.borrow() as isize, hi.min(n + 1), "number of fetches");
    if r.chance(1, 2) {
        log.push("iter".into());
        let rest: Vec<isize> = s.iter().collect();
        let want: Vec<isize> = (i..n).map(|x| ty(v, x)).collect();
        let mut w2 = want.clone();
        w2.push(-1);
        ensure!(rest == want || rest == w2, "iter: got {:?}, expected {:?}", rest, w2);
        ensure!(s.iter().all(|x| x == -1), "a second iteration yields a token");
    } else {
        log.push("token_iter".into());
        let rest: Vec<(isize, isize)> = s.token_iter().map(|t| (t.get_token_index(), t.get_token_type())).collect();
        let want: Vec<(isize, isize)> = (i..=n).map(|x| (x, ty(v, x))).collect();
        ensure_eq!(rest, want, "token_iter");
    }
    ensure_eq!(*fetched.borrow() as isize, n + 1, "number of fetches after iterating");
    Ok(())
}
fn main() {
    let mut h = H::new("random token sequences x random legal histories of consume, lookahead, lookback, mark, release, seek, get and text; oracle: the plain sequence of tokens");
    let mut r = h.rng(4);
    while h.more() && (h.thorough || h.cases < 60_000) {
        let big = r.chance(1, 50);
        let n = if big { 20 + r.below(300) } else { r.below(7) };
        let v: Vec<(isize, isize)> = (0..n).map(|_| (r.range(1, 4), if r.chance(1, 8) { r.range(2, 300) } else { r.range(0, 1) })).collect();
        let buffered = r.chance(1, 4);
        let steps = 1 + r.below(if big { 300 } else { 30 });
        let mut r2 = r.clone();
        let mut log = vec![];
        // dry description first (the history is a function of the generator's state)
        let desc = format!("tokens {:?} buffered {} history seed {} steps {}", v, buffered, r2.0, steps);
        h.case("history", desc, n > 0, || guard(|| run(&v, buffered, &mut r2, steps, &mut log)).and_then(|x| x).map_err(|e| format!("{} after {}", e, log.join(" "))));
        r.next();
    }
    h.finish();
}
