// Native run-time: the same harness API over real f64 arithmetic. Replays a model found by the
// solver against the code as compiled, with a tolerance for rounding.
#[path = "../../common/collections.rs"]
pub mod collections;
use std::cell::RefCell;
use std::collections::HashMap as Map;

pub const SYMBOLIC: bool = false;
pub type Sym = f64;
const TOL: f64 = 1e-6;

#[macro_export]
macro_rules! enter {
    ($n:expr) => {};
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum B {
    T,
    F,
    U,
}
fn tol(a: f64, b: f64) -> f64 {
    TOL * (1.0 + a.abs() + b.abs())
}

// Probing: when a model does not fail by more than the tolerance, the harness is run under all four
// rounding modes. A difference that keeps its sign and size in all of them is not rounding.
#[derive(Default)]
struct Probe {
    on: bool,
    goal: String,
    cmp: Vec<(f64, f64)>, // every comparison so far
    scale: f64,
    given: Option<Vec<u8>>, // verdicts to use: one of < = > ? per comparison
    failed: bool,
    void: bool, // an assumption does not hold
}
thread_local! { static PR: RefCell<Probe> = RefCell::new(Probe::default()); }

fn probe(a: f64, b: f64) -> Option<u8> {
    PR.with(|p| {
        let mut p = p.borrow_mut();
        if !p.on {
            return None;
        }
        p.cmp.push((a, b));
        for x in [a, b] {
            if x.is_finite() && x.abs() > p.scale {
                p.scale = x.abs();
            }
        }
        let i = p.cmp.len() - 1;
        Some(p.given.as_ref().and_then(|g| g.get(i)).copied().unwrap_or(b'?'))
    })
}
fn rounding(mode: u32) {
    let mut x: u32 = 0;
    unsafe {
        std::arch::asm!("stmxcsr [{}]", in(reg) &mut x);
        x = (x & !0x6000) | mode << 13;
        std::arch::asm!("ldmxcsr [{}]", in(reg) &x);
    }
}
fn strict(f: fn(usize), case: usize, goal: &str) -> bool {
    let mut runs: Vec<Vec<(f64, f64)>> = vec![];
    let mut scale: f64 = 0.0;
    for mode in 0..5 {
        let given: Option<Vec<u8>> = if mode < 4 {
            None
        } else {
            if runs.iter().any(|r| r.len() != runs[0].len()) {
                return false;
            }
            let one = |i: usize| -> u8 {
                let c: Vec<(f64, f64)> = runs.iter().map(|r| r[i]).collect();
                if !c.iter().all(|x| x.0.is_finite() && x.1.is_finite()) {
                    return b'?';
                }
                let g: Vec<f64> = c.iter().map(|x| x.0 - x.1).collect();
                let (lo, hi) = (g.iter().cloned().fold(f64::INFINITY, f64::min), g.iter().cloned().fold(f64::NEG_INFINITY, f64::max));
                if lo == 0.0 && hi == 0.0 {
                    return b'=';
                }
                let size = c.iter().map(|x| x.0.abs().max(x.1.abs())).fold(0.0, f64::max);
                let least = lo.abs().min(hi.abs());
                if lo * hi > 0.0 && (hi - lo) < 0.01 * least && least > 1e-9 * size && least > 1e-13 * scale {
                    if lo > 0.0 { b'>' } else { b'<' }
                } else {
                    b'?'
                }
            };
            Some((0..runs[0].len()).map(one).collect())
        };
        PR.with(|p| *p.borrow_mut() = Probe { on: true, goal: goal.to_string(), given, ..Probe::default() });
        ST.with(|s| {
            let mut s = s.borrow_mut();
            s.at = 0;
            s.fresh = 0;
        });
        rounding(if mode < 4 { mode } else { 0 });
        f(case);
        rounding(0);
        PR.with(|p| {
            let p = p.borrow();
            runs.push(p.cmp.clone());
            scale = scale.max(p.scale);
        });
    }
    PR.with(|p| p.borrow().failed && !p.borrow().void)
}
fn by(v: u8, lt: B, eq: B, gt: B) -> B {
    match v {
        b'<' => lt,
        b'=' => eq,
        b'>' => gt,
        _ => B::U,
    }
}

pub fn eq(a: f64, b: f64) -> B {
    if let Some(v) = probe(a, b) {
        return by(v, B::F, B::T, B::F);
    }
    eq_(a, b)
}
fn eq_(a: f64, b: f64) -> B {
    if a.is_nan() || b.is_nan() {
        return B::F;
    }
    if a == b {
        return B::T;
    }
    if !a.is_finite() || !b.is_finite() {
        return B::F;
    }
    if (a - b).abs() <= tol(a, b) { B::T } else { B::F }
}
pub fn ne(a: f64, b: f64) -> B {
    if let Some(v) = probe(a, b) {
        return by(v, B::T, B::F, B::T);
    }
    if a == b {
        B::F
    } else if eq_(a, b) == B::T {
        B::U
    } else {
        B::T
    }
}
pub fn lt(a: f64, b: f64) -> B {
    if let Some(v) = probe(a, b) {
        return by(v, B::T, B::F, B::F);
    }
    lt_(a, b)
}
fn lt_(a: f64, b: f64) -> B {
    if a.is_nan() || b.is_nan() {
        return B::F;
    }
    if eq_(a, b) == B::T {
        return B::U;
    }
    if a < b { B::T } else { B::F }
}
pub fn le(a: f64, b: f64) -> B {
    if let Some(v) = probe(a, b) {
        return by(v, B::T, B::T, B::F);
    }
    lt_(a, b)
}
pub fn gt(a: f64, b: f64) -> B {
    lt(b, a)
}
pub fn ge(a: f64, b: f64) -> B {
    le(b, a)
}
pub fn truth(x: bool) -> B {
    if x { B::T } else { B::F }
}
impl B {
    pub fn and(self, o: B) -> B {
        match (self, o) {
            (B::F, _) | (_, B::F) => B::F,
            (B::T, B::T) => B::T,
            _ => B::U,
        }
    }
    pub fn or(self, o: B) -> B {
        match (self, o) {
            (B::T, _) | (_, B::T) => B::T,
            (B::F, B::F) => B::F,
            _ => B::U,
        }
    }
    pub fn not(self) -> B {
        match self {
            B::T => B::F,
            B::F => B::T,
            B::U => B::U,
        }
    }
    pub fn implies(self, o: B) -> B {
        self.not().or(o)
    }
    pub fn iff(self, o: B) -> B {
        self.implies(o).and(o.implies(self))
    }
}
pub fn all<I: IntoIterator<Item = B>>(i: I) -> B {
    i.into_iter().fold(B::T, |a, b| a.and(b))
}
pub fn any<I: IntoIterator<Item = B>>(i: I) -> B {
    i.into_iter().fold(B::F, |a, b| a.or(b))
}
pub fn is_finite(x: f64) -> B {
    truth(x.is_finite())
}

#[derive(Default)]
struct St {
    vars: Map<String, f64>,
    choices: Vec<usize>,
    at: usize,
    fresh: usize,
    expect: u32,
    goals: u64,
    unsure: u64,
}
thread_local! { static ST: RefCell<St> = RefCell::new(St::default()); }

pub fn thorough() -> bool {
    std::env::args().any(|x| x == "--thorough")
}
pub fn var(name: &str) -> f64 {
    ST.with(|s| s.borrow().vars.get(name).copied().unwrap_or(1.0))
}
pub fn vars(pre: &str, n: usize) -> Vec<f64> {
    (0..n).map(|i| var(&format!("{}{}", pre, i))).collect()
}
pub fn fresh(pre: &str) -> f64 {
    let n = ST.with(|s| {
        let mut s = s.borrow_mut();
        s.fresh += 1;
        format!("{}#{}", pre, s.fresh)
    });
    var(&n)
}
pub fn choose(_name: &str, n: usize) -> usize {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        let r = s.choices.get(s.at).copied().unwrap_or(0);
        s.at += 1;
        r.min(n - 1)
    })
}
pub fn flip(name: &str) -> bool {
    choose(name, 2) == 1
}
fn probing(name: Option<&str>, b: B) -> bool {
    PR.with(|p| {
        let mut p = p.borrow_mut();
        if !p.on {
            return false;
        }
        if b == B::F && p.given.is_some() {
            match name {
                None => p.void = true,
                Some(n) if n == p.goal => p.failed = true,
                _ => {}
            }
        }
        true
    })
}
pub fn assume(b: B) {
    if probing(None, b) {
        return;
    }
    if b == B::F {
        println!("ASSUMPTION");
        std::process::exit(20)
    }
}
pub fn prove(name: &str, b: B) {
    if probing(Some(name), b) {
        return;
    }
    ST.with(|s| {
        let mut s = s.borrow_mut();
        s.goals += 1;
        if b == B::U {
            s.unsure += 1;
        }
    });
    if b == B::F {
        println!("FALSE {}", name);
        std::process::exit(10)
    }
}
pub fn check(name: &str, b: bool) {
    prove(name, truth(b))
}
pub fn lemma(name: &str, b: B) {
    prove(name, b)
}
pub fn rounded<T>(f: impl FnOnce() -> T) -> T {
    f()
}
pub fn set_hash_seed(s: usize) {
    collections::set_hash_seed(s as u64)
}
pub fn catches<T>(f: impl FnOnce() -> T) -> Option<T> {
    ST.with(|s| s.borrow_mut().expect += 1);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    ST.with(|s| s.borrow_mut().expect -= 1);
    r.ok()
}

pub type Harness = (&'static str, usize, fn(usize));

pub fn main(list: fn() -> Vec<Harness>) {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 || a[1] != "replay" {
        eprintln!("usage: replay NAME CASE MODEL");
        std::process::exit(2)
    }
    let case: usize = a[3].parse().unwrap();
    let text = std::fs::read_to_string(&a[4]).expect("model");
    let f = match list().into_iter().find(|h| h.0 == a[2]) {
        Some(h) => h.2,
        None => {
            println!("NO-HARNESS");
            std::process::exit(2)
        }
    };
    let th = std::thread::Builder::new().stack_size(512 << 20).spawn(move || {
        ST.with(|s| {
            let mut s = s.borrow_mut();
            for l in text.lines() {
                let w: Vec<&str> = l.split_whitespace().collect();
                match w.as_slice() {
                    ["v", n, bits, ..] => {
                        s.vars.insert(n.to_string(), f64::from_bits(u64::from_str_radix(bits, 16).unwrap()));
                    }
                    ["c", _, k] => s.choices.push(k.parse().unwrap()),
                    _ => {}
                }
            }
        });
        std::panic::set_hook(Box::new(|info| {
            let (expected, _) = ST.with(|s| s.try_borrow().map(|s| (s.expect > 0, 0)).unwrap_or((false, 0)));
            let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
            if !expected || msg.contains("unsafe precondition") {
                println!("PANIC {} at {}", msg.replace('\n', " "), info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default());
                std::process::exit(11)
            }
        }));
        if let Some(i) = std::env::args().position(|x| x == "--strict") {
            let goal = std::env::args().nth(i + 1).unwrap_or_default();
            if strict(f, case, &goal) {
                println!("FALSE {}", goal);
                std::process::exit(10)
            }
            println!("HOLDS under every rounding");
            return;
        }
        f(case);
        let (g, u) = ST.with(|s| (s.borrow().goals, s.borrow().unsure));
        println!("HOLDS goals={} unsure={}", g, u);
    });
    if th.unwrap().join().is_err() {
        std::process::exit(11)
    }
}
