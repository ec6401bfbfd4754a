use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! { pub static SCALE: std::cell::Cell<f64> = const { std::cell::Cell::new(1.0) }; }
pub fn scale() -> f64 { SCALE.with(|s| s.get()) }
/// Kinds whose cases may carry an exponent: every position is scaled by that power of two.
pub const SCALED: [&str; 9] = ["seg_isect", "seg_share", "seg_orient", "measure", "line_valid", "mls_valid", "poly_valid", "mpoly_valid", "hull"];
thread_local! { pub static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }

pub type P = [f64; 2];

/// One concrete input: a kind, some integers and up to three levels of position lists.
#[derive(Clone, Debug)]
pub struct Case {
    pub kind: String,
    pub n: Vec<i64>,
    pub g: Vec<Vec<Vec<P>>>,
}

pub type Res = Result<bool, String>;

pub struct Suite {
    pub prop: &'static str,
    pub kind: &'static str,
    pub rule: &'static str,
    pub iters: u64,
    pub gen: Option<fn(&mut crate::gen::Rng, usize) -> Option<Case>>,
    /// exhaustive(None) = (None, how many cases); exhaustive(Some(i)) = case i (None: skipped)
    pub exhaustive: Option<fn(Option<u64>) -> (Option<Case>, u64)>,
    pub chk: fn(&Case) -> Res,
    pub noshrink: bool,
}

pub fn run_case(s: &Suite, c: &Case) -> Res {
    let e = if SCALED.contains(&s.kind) { c.n.get(0).copied().unwrap_or(0) } else { 0 };
    SCALE.with(|x| x.set(2f64.powi(e as i32)));
    let r = match catch_unwind(AssertUnwindSafe(|| (s.chk)(c))) {
        Ok(r) => r,
        Err(_) => Err(format!("panicked: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
    };
    SCALE.with(|x| x.set(1.0));
    r
}

/// Run f, reporting whether it panicked.
pub fn panics<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

impl Case {
    pub fn new(kind: &str, n: Vec<i64>, g: Vec<Vec<Vec<P>>>) -> Case {
        Case { kind: kind.to_string(), n, g }
    }
    pub fn ser(&self) -> String {
        let mut s = format!("{} n", self.kind);
        for i in &self.n {
            s.push_str(&format!(" {}", i));
        }
        s.push_str(" g");
        for a in &self.g {
            s.push_str(" [");
            for b in a {
                s.push_str(" (");
                for p in b {
                    s.push_str(&format!(" {:016x} {:016x}", p[0].to_bits(), p[1].to_bits()));
                }
                s.push_str(" )");
            }
            s.push_str(" ]");
        }
        s
    }
    pub fn parse(t: &str) -> Case {
        let mut it = t.split_whitespace();
        let kind = it.next().unwrap().to_string();
        assert_eq!(it.next(), Some("n"));
        let mut n = vec![];
        for tok in it.by_ref() {
            if tok == "g" { break; }
            n.push(tok.parse().unwrap());
        }
        let mut g: Vec<Vec<Vec<P>>> = vec![];
        let mut half: Option<f64> = None;
        for tok in it {
            match tok {
                "[" => g.push(vec![]),
                "(" => g.last_mut().unwrap().push(vec![]),
                ")" | "]" => (),
                h => {
                    let v = f64::from_bits(u64::from_str_radix(h, 16).unwrap());
                    match half.take() {
                        None => half = Some(v),
                        Some(x) => g.last_mut().unwrap().last_mut().unwrap().push([x, v]),
                    }
                }
            }
        }
        Case { kind, n, g }
    }
    pub fn pretty(&self) -> String {
        let mut s = format!("{}", self.kind);
        if !self.n.is_empty() { s.push_str(&format!(" params={:?}", self.n)); }
        for a in &self.g {
            s.push_str(" [");
            for (k, b) in a.iter().enumerate() {
                if k > 0 { s.push_str(", "); }
                s.push_str("(");
                for (j, p) in b.iter().enumerate() {
                    if j > 0 { s.push_str(", "); }
                    s.push_str(&format!("{:?} {:?}", p[0], p[1]));
                }
                s.push_str(")");
            }
            s.push_str("]");
        }
        if s.len() > 1500 {
            s.truncate(1500);
            s.push_str("...");
        }
        s
    }
    pub fn weight(&self) -> usize {
        self.g.iter().map(|a| a.iter().map(|b| b.len() + 1).sum::<usize>() + 1).sum()
    }
    pub fn hash(&self) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        let mut f = |x: u64| { h ^= x; h = h.wrapping_mul(0x100000001b3); h ^= h >> 29; };
        for i in &self.n { f(*i as u64); }
        for a in &self.g {
            f(0xA);
            for b in a {
                f(0xB);
                for p in b { f(p[0].to_bits()); f(p[1].to_bits()); }
            }
        }
        h
    }
    pub fn shrinks(&self) -> Vec<Case> {
        let mut v = vec![];
        for i in 0..self.g.len() {
            for j in 0..self.g[i].len() {
                let mut c = self.clone();
                c.g[i].remove(j);
                v.push(c);
            }
        }
        for i in 0..self.g.len() {
            for j in 0..self.g[i].len() {
                for k in 0..self.g[i][j].len() {
                    let mut c = self.clone();
                    c.g[i][j].remove(k);
                    v.push(c);
                }
            }
        }
        v
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
/// Positions far beyond any list here, some of them equal to one that exists when cut to 8, 16 or 32 bits.
pub const FAR: [usize; 9] = [1 << 8, 1 << 16, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 62, 1 << 63, usize::MAX - 1, usize::MAX];
