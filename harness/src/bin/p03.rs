//! P03: character streams against a plain vector of characters.
use antlr_rust::char_stream::CharStream;
use antlr_rust::int_stream::{IntStream, IterWrapper};
use antlr_rust::InputStream;
use harness::*;
use std::borrow::Cow;

#[derive(Debug, Clone)]
enum Op { La(isize), Consume, Seek(usize), Text(usize, isize), Mark, Iter, Reset }

fn ops(r: &mut Rng, n: usize) -> Vec<Op> {
    let k = 3 + r.below(14);
    (0..k)
        .map(|_| match r.below(12) {
            0..=3 => Op::La(if n > 8 && r.chance(1, 2) {
                let m = 1 + r.below(n + 2) as isize;
                if r.chance(1, 2) { m } else { -m }
            } else {
                *r.pick(&[1, 1, 2, 3, -1, -1, -2, -3, 7, -7, 40, -40])
            }),
            4..=6 => Op::Consume,
            7 => Op::Seek(r.below(n + 1)),
            8 | 9 => {
                let a = r.below(n + 1);
                Op::Text(a, a as isize - 1 + r.below(n - a + 2) as isize)
            }
            10 => if r.chance(1, 3) { Op::Reset } else { Op::Mark },
            _ => Op::Iter,
        })
        .collect()
}
/// `chars`: the text; `pos[k]`: index of the k-th character (pos[n]: the end)
fn run<S: IntStream>(s: &mut S, chars: &[u32], pos: &[isize], ops: &[Op], text: &dyn Fn(&S, isize, isize) -> Vec<Vec<u32>>, reset: &dyn Fn(&mut S)) -> Result<(), String> {
    let n = chars.len();
    let mut k = 0usize;
    ensure_eq!(s.size(), pos[n], "size");
    for op in ops {
        match *op {
            Op::La(o) => {
                let j = if o > 0 { k as isize + o - 1 } else { k as isize + o };
                let want = if 0 <= j && j < n as isize { chars[j as usize] as isize } else { -1 };
                ensure_eq!(s.la(o), want, "la({}) at character {}", o, k);
            }
            Op::Consume => {
                if k < n {
                    s.consume();
                    k += 1;
                }
            }
            Op::Seek(j) => {
                s.seek(pos[j]);
                k = j;
            }
            Op::Text(a, b) => {
                // b is the last character (inclusive); b == n: beyond the end, clipped
                let stop = if b < 0 { -1 } else if (b as usize) >= n { pos[n] } else { pos[b as usize] };
                // for b == a - 1 the lexer passes start - 1
                let stop = if b == a as isize - 1 { pos[a] - 1 } else { stop };
                let want: Vec<u32> = chars[a..((b + 1) as usize).max(a).min(n)].to_vec();
                for g in text(s, pos[a], stop) {
                    ensure_eq!(g, want, "text of {}..={}", pos[a], stop);
                }
                if b >= a as isize && (b as usize) < n {
                    // any offset inside the last character names it
                    for g in text(s, pos[a], pos[b as usize + 1] - 1) {
                        ensure_eq!(g, want, "text of {}..={}", pos[a], pos[b as usize + 1] - 1);
                    }
                }
            }
            Op::Mark => {
                let m = s.mark();
                ensure_eq!(s.index(), pos[k], "index after mark");
                s.release(m);
            }
            Op::Iter => {
                let got: Vec<isize> = IterWrapper(s).collect();
                let want: Vec<isize> = chars[k..].iter().map(|&c| c as isize).collect();
                ensure_eq!(got, want, "iterating from character {}", k);
                k = n;
            }
            Op::Reset => {
                reset(s);
                k = 0;
            }
        }
        ensure_eq!(s.index(), pos[k], "index after {:?}", op);
    }
    Ok(())
}
fn main() {
    let mut h = H::new("random texts (1-4 byte characters) as str, owned str, u8/u16/u32 slices x random operation sequences; oracle: a vector of characters with a cursor");
    let mut r = h.rng(3);
    while h.more() && (h.thorough || h.cases < 60_000) {
        let n = if r.chance(1, 40) { 100 + r.below(500) } else { r.below(9) };
        let t: String = (0..n).map(|_| *r.pick(&['a', 'b', '\n', 'é', '߿', 'ࠀ', '€', '\u{ffff}', '😀', '\u{10ffff}', '\0'])).collect();
        let chars: Vec<u32> = t.chars().map(|c| c as u32).collect();
        let o = ops(&mut r, chars.len());
        let mut pos: Vec<isize> = t.char_indices().map(|x| x.0 as isize).collect();
        pos.push(t.len() as isize);
        let unit: Vec<isize> = (0..=chars.len() as isize).collect();
        let s2v = |s: String| s.chars().map(|c| c as u32).collect::<Vec<_>>();
        h.case("str", format!("str {:?} ops {:?}", t, o), true, || {
            let mut s = InputStream::new(&*t);
            run(&mut s, &chars, &pos, &o, &|s, a, b| {
                let x: String = s.get_text(a, b);
                let y: Cow<str> = s.get_text(a, b);
                vec![s2v(x), s2v(y.into_owned())]
            }, &|s| s.reset())
        });
        h.case("box", format!("Box<str> {:?} ops {:?}", t, o), true, || {
            let mut s = InputStream::new_owned(t.clone().into_boxed_str());
            run(&mut s, &chars, &pos, &o, &|s, a, b| {
                let x: String = s.get_text(a, b);
                vec![s2v(x)]
            }, &|s| s.reset())
        });
        h.case("u32", format!("u32 {:?} ops {:?}", chars, o), true, || {
            let mut s = InputStream::new(&chars[..]);
            run(&mut s, &chars, &unit, &o, &|s, a, b| {
                let x: String = s.get_text(a, b);
                let y: Cow<[u32]> = s.get_text(a, b);
                let z: Cow<str> = s.get_text(a, b);
                let w: &[u32] = s.get_text(a, b);
                vec![s2v(x), y.into_owned(), s2v(z.into_owned()), w.to_vec()]
            }, &|s| s.reset())
        });
        let c16: Vec<u16> = chars.iter().map(|&c| if (0xd800..0xe000).contains(&(c as u16)) { 0x41 } else { c as u16 }).collect();
        let w16: Vec<u32> = c16.iter().map(|&c| c as u32).collect();
        h.case("u16", format!("u16 {:?} ops {:?}", c16, o), true, || {
            let mut s = InputStream::new(&c16[..]);
            run(&mut s, &w16, &unit, &o, &|s, a, b| {
                let x: String = s.get_text(a, b);
                let w: &[u16] = s.get_text(a, b);
                vec![s2v(x), w.iter().map(|&c| c as u32).collect()]
            }, &|s| s.reset())
        });
        let c8: Vec<u8> = chars.iter().map(|&c| c as u8).collect();
        let w8: Vec<u32> = c8.iter().map(|&c| c as u32).collect();
        h.case("u8", format!("u8 {:?} ops {:?}", c8, o), true, || {
            let mut s = InputStream::new(&c8[..]);
            run(&mut s, &w8, &unit, &o, &|s, a, b| {
                let x: String = s.get_text(a, b);
                let w: &[u8] = s.get_text(a, b);
                vec![s2v(x), w.iter().map(|&c| c as u32).collect()]
            }, &|s| s.reset())
        });
        h.case("owned u32", format!("Box<[u32]> {:?} ops {:?}", chars, o), true, || {
            let mut s = InputStream::new_owned(chars.clone().into_boxed_slice());
            run(&mut s, &chars, &unit, &o, &|s, a, b| {
                let x: Vec<u32> = s.get_text(a, b);
                vec![x]
            }, &|s| s.reset())
        });
    }
    h.finish();
}
