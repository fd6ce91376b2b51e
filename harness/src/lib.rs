//! Shared pieces of the replay / bounded stand-in harness.
pub mod gram;
pub mod lexdrv;
pub mod parsedrv;

use std::cell::RefCell;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn range(&mut self, a: isize, b: isize) -> isize {
        a + self.below((b - a + 1) as usize) as isize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Violation {
    pub key: String,
    pub what: String,
    pub input: String,
}

pub struct H {
    pub seed: u64,
    pub thorough: bool,
    pub deadline: Instant,
    pub cases: u64,
    seen: HashSet<u64>,
    samples: Vec<String>,
    viol: Vec<Violation>,
    out: String,
    rule: &'static str,
    /// file holding the input being tried (survives an abort of the process)
    cur: Option<std::fs::File>,
}

static CUR: Mutex<String> = Mutex::new(String::new());
static TICK: AtomicU64 = AtomicU64::new(0);

thread_local! { static LASTPANIC: RefCell<String> = RefCell::new(String::new()); }

impl H {
    pub fn new(rule: &'static str) -> H {
        let a: Vec<String> = std::env::args().collect();
        let seed = a.get(1).and_then(|s| s.parse().ok()).unwrap_or(1);
        let thorough = a.get(2).map(|s| s == "thorough").unwrap_or(false);
        let out = a.get(3).cloned().unwrap_or_else(|| "/dev/stdout".into());
        let budget: f64 = std::env::var("VERIF_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(20.0);
        std::panic::set_hook(Box::new(|i| {
            let s = format!("{}", i);
            LASTPANIC.with(|l| *l.borrow_mut() = s);
        }));
        let o2 = out.clone();
        let limit = if thorough { 120 } else { 45 };
        std::thread::spawn(move || {
            let mut last = 0;
            let mut since = Instant::now();
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let t = TICK.load(Ordering::SeqCst);
                if t != last {
                    last = t;
                    since = Instant::now();
                } else if since.elapsed().as_secs() > limit {
                    let cur = CUR.lock().map(|c| c.clone()).unwrap_or_default();
                    let _ = std::fs::write(
                        &o2,
                        format!(
                            "{{\"status\":\"violation\",\"cases\":{},\"nontrivial\":0,\"violations\":[{{\"key\":\"hang\",\"what\":\"no progress for {} s (hang)\",\"input\":{}}}]}}",
                            t, limit, jstr(&cur)
                        ),
                    );
                    std::process::exit(0);
                }
            }
        });
        H {
            seed,
            thorough,
            deadline: Instant::now() + Duration::from_secs_f64(budget),
            cases: 0,
            seen: HashSet::new(),
            samples: vec![],
            viol: vec![],
            cur: std::fs::File::create(format!("{}.current", out)).ok(),
            out,
            rule,
        }
    }
    pub fn rng(&self, stream: u64) -> Rng {
        let mut r = Rng(self.seed.wrapping_mul(0x1000193) ^ (stream << 32));
        r.next();
        r
    }
    pub fn more(&self) -> bool {
        Instant::now() < self.deadline && self.viol.len() < 5
    }
    pub fn violated(&self) -> bool {
        !self.viol.is_empty()
    }
    /// fraction of the time budget left is at least f
    pub fn left(&self) -> f64 {
        self.deadline.saturating_duration_since(Instant::now()).as_secs_f64()
    }
    /// run one case; Err or a panic is a violation
    pub fn case<D: Into<String>>(&mut self, key: &str, desc: D, nontrivial: bool, f: impl FnOnce() -> Result<(), String>) -> bool {
        if self.viol.len() >= 8 {
            return false;
        }
        let desc: String = desc.into();
        self.cases += 1;
        TICK.fetch_add(1, Ordering::SeqCst);
        if let Ok(mut c) = CUR.lock() {
            c.clear();
            c.push_str(&desc);
        }
        if let Some(f) = self.cur.as_mut() {
            use std::os::unix::fs::FileExt;
            let b = desc.as_bytes();
            let _ = f.write_at(b, 0);
            let _ = f.set_len(b.len() as u64);
        }
        if nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            desc.hash(&mut h);
            self.seen.insert(h.finish());
        }
        if nontrivial && (self.samples.len() < 3 || (self.cases % 5003 == 0 && self.samples.len() < 6)) {
            self.samples.push(desc.clone());
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        let err = match r {
            Ok(Ok(())) => return true,
            Ok(Err(e)) => e,
            Err(_) => format!("panicked: {}", LASTPANIC.with(|l| l.borrow().clone())),
        };
        if self.viol.iter().filter(|v| v.key == key).count() < 2 {
            self.viol.push(Violation { key: key.into(), what: err, input: desc });
        }
        false
    }
    pub fn finish(self) {
        let mut s = String::new();
        let _ = write!(
            s,
            "{{\"status\":{},\"rule\":{},\"cases\":{},\"nontrivial\":{},\"samples\":[{}],\"violations\":[",
            jstr(if self.viol.is_empty() { "ok" } else { "violation" }),
            jstr(self.rule),
            self.cases,
            self.seen.len(),
            self.samples.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(",")
        );
        for (i, v) in self.viol.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            let _ = write!(s, "{{\"key\":{},\"what\":{},\"input\":{}}}", jstr(&v.key), jstr(&v.what), jstr(&v.input));
        }
        s.push_str("]}");
        std::fs::write(&self.out, s).expect("write result");
        std::process::exit(0);
    }
}

/// run `f` and turn a panic into Err
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panicked: {}", LASTPANIC.with(|l| l.borrow().clone())))
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b)); }
    }};
}
#[cfg(antlr_verif)]
pub mod stacks;
