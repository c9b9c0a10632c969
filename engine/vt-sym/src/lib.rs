// Symbolic run-time of the translated crate.
pub mod engine;
pub mod poly;
pub mod rat;
pub mod solver;
mod sym;
mod uni;
#[path = "../../common/collections.rs"]
pub mod collections;
#[path = "../../common/json.rs"]
mod json;

pub use sym::*;
use engine::{with, Cex, Ctx, Pruned, Stop};
use json::esc;
use std::cell::RefCell;
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::{Duration, Instant};

pub const SYMBOLIC: bool = true;
static THOROUGH: AtomicBool = AtomicBool::new(false);

#[macro_export]
macro_rules! enter {
    ($n:expr) => {{
        static SEEN: ::std::sync::atomic::AtomicBool = ::std::sync::atomic::AtomicBool::new(false);
        if !SEEN.swap(true, ::std::sync::atomic::Ordering::Relaxed) {
            $crate::entered($n)
        }
    }};
}
pub fn entered(n: &'static str) {
    engine::CTX.with(|c| {
        if let Ok(mut b) = c.try_borrow_mut() {
            if let Some(c) = b.as_mut() {
                c.fns.insert(n);
            }
        }
    })
}

pub fn thorough() -> bool {
    THOROUGH.load(Ordering::Relaxed)
}
pub fn var(name: &str) -> Sym {
    Sym::P(with(|c| c.var(name)))
}
pub fn vars(pre: &str, n: usize) -> Vec<Sym> {
    (0..n).map(|i| var(&format!("{}{}", pre, i))).collect()
}
pub fn fresh(pre: &str) -> Sym {
    Sym::P(with(|c| c.fresh(pre)))
}
// one of n alternatives; all are explored
pub fn choose(name: &str, n: usize) -> usize {
    with(|c| c.choose(name, n))
}
pub fn flip(name: &str) -> bool {
    choose(name, 2) == 1
}
pub fn assume(b: B) {
    with(|c| c.assume(b.0))
}
pub fn prove(name: &str, b: B) {
    with(|c| c.prove(name, b.0))
}
pub fn check(name: &str, b: bool) {
    prove(name, truth(b))
}
// an intermediate fact: proved, then available to later queries
pub fn lemma(name: &str, b: B) {
    prove(name, b.clone());
    assume(b)
}
pub fn is_finite(x: Sym) -> B {
    truth(x.special().is_none())
}
// machine rounding for all that depends on no unknown
pub fn rounded<T>(f: impl FnOnce() -> T) -> T {
    sym::rounded(f)
}
pub fn set_hash_seed(s: usize) {
    collections::set_hash_seed(s as u64)
}
// run f; None if the code under test panicked
pub fn catches<T>(f: impl FnOnce() -> T) -> Option<T> {
    engine::EXPECT_PANIC.with(|e| *e.borrow_mut() += 1);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    engine::EXPECT_PANIC.with(|e| *e.borrow_mut() -= 1);
    match r {
        Ok(x) => Some(x),
        Err(e) => {
            let engine_err = e.downcast_ref::<String>().map(|s| s.contains("VT-ENGINE")).unwrap_or(false)
                || e.downcast_ref::<&str>().map(|s| s.contains("VT-ENGINE")).unwrap_or(false);
            if e.is::<Pruned>() || e.is::<Stop>() || engine_err {
                std::panic::resume_unwind(e)
            }
            None
        }
    }
}

pub type Harness = (&'static str, usize, fn(usize));

struct Job {
    name: String,
    case: usize,
    out: String,
    start: Option<Instant>,
}
thread_local! { static JOB: RefCell<Job> = RefCell::new(Job { name: String::new(), case: 0, out: String::new(), start: None }); }

fn cex_json(c: &Cex) -> String {
    let vars: Vec<String> = c.vars.iter().map(|(n, v)| format!("[{},\"{:016x}\",{}]", esc(n), v.to_bits(), esc(&format!("{:?}", v)))).collect();
    let ch: Vec<String> = c.choices.iter().map(|(n, v)| format!("[{},{}]", esc(n), v)).collect();
    format!(
        "{{\"kind\":{},\"what\":{},\"exact\":{},\"vars\":[{}],\"choices\":[{}]}}",
        esc(&c.kind),
        esc(&c.what),
        c.exact,
        vars.join(","),
        ch.join(",")
    )
}

fn report(c: &Ctx, complete: bool, err: Option<&str>) {
    JOB.with(|j| {
        let j = j.borrow();
        let s = &c.stats;
        let fns: Vec<String> = c.fns.iter().map(|x| esc(x)).collect();
        let goals: Vec<String> = c.goal_names.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        let unk: Vec<String> = s.unknown_goals.iter().map(|x| esc(x)).collect();
        let wit: Vec<String> = c.witnesses.iter().map(cex_json).collect();
        let t = format!(
            "{{\"name\":{},\"case\":{},\"complete\":{},\"out_of_time\":{},\"error\":{},\"paths\":{},\"pruned\":{},\"goals\":{},\"by_solver\":{},\"by_norm\":{},\"by_elim\":{},\"branches\":{},\"forks\":{},\"unknown_branch\":{},\"unknown_goals\":[{}],\"queries\":{},\"solver_s\":{:.3},\"wall_s\":{:.3},\"fns\":[{}],\"goal_names\":{{{}}},\"witnesses\":[{}],\"cex\":{}}}\n",
            esc(&j.name),
            j.case,
            complete,
            c.out_of_time,
            err.map(esc).unwrap_or("null".into()),
            s.paths,
            s.pruned,
            s.proves,
            s.by_solver,
            s.by_norm,
            s.by_elim,
            s.branches,
            s.forks,
            s.unknown_branch,
            unk.join(","),
            c.z3.queries + c.z3o.queries + c.cvc.queries,
            (c.z3.time + c.z3o.time + c.cvc.time).as_secs_f64(),
            j.start.map(|t| t.elapsed().as_secs_f64()).unwrap_or(0.0),
            fns.join(","),
            goals.join(","),
            wit.join(","),
            c.cex.as_ref().map(cex_json).unwrap_or("null".into())
        );
        if j.out == "-" {
            print!("{}", t);
        } else {
            std::fs::write(&j.out, t).expect("VT-ENGINE: cannot write report");
        }
    })
}

pub fn main(list: fn() -> Vec<Harness>) {
    let a: Vec<String> = std::env::args().collect();
    if a.iter().any(|x| x == "--thorough") {
        THOROUGH.store(true, Ordering::Relaxed);
    }
    let opt = |n: &str, d: &str| -> String { a.iter().position(|x| x == n).map(|i| a[i + 1].clone()).unwrap_or(d.to_string()) };
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for (n, k, _) in list() {
                println!("{} {}", n, k);
            }
        }
        Some("exec") => {
            let (name, case, out) = (a[2].clone(), a[3].parse::<usize>().unwrap(), a[4].clone());
            let budget: f64 = opt("--budget", "600").parse().unwrap();
            let skip: u64 = opt("--skip", "0").parse().unwrap();
            let wit: usize = opt("--witnesses", "3").parse().unwrap();
            let f = list().into_iter().find(|h| h.0 == name).expect("VT-ENGINE: no such harness").2;
            let th = std::thread::Builder::new().stack_size(512 << 20).spawn(move || {
                JOB.with(|j| *j.borrow_mut() = Job { name, case, out, start: Some(Instant::now()) });
                engine::CTX.with(|c| *c.borrow_mut() = Some(Ctx::new(Duration::from_secs_f64(budget), thorough())));
                with(|c| c.skip = skip);
                std::panic::set_hook(Box::new(|info| {
                    let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
                    engine::LAST_PANIC.with(|l| *l.borrow_mut() = loc.clone());
                    let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
                    if std::env::var("VT_DEBUG").is_ok() {
                        eprintln!("panic: {} at {}", msg, loc);
                    }
                    if msg.contains("unsafe precondition") {
                        // memory-unsafe access: the process is about to abort
                        with(|c| {
                            let w = c.path_witness("panic", &format!("{} {}", msg.lines().next().unwrap_or(""), loc));
                            c.cex = Some(w);
                            report(c, true, None);
                        });
                        std::process::exit(0);
                    }
                }));
                let g = move || f(case);
                let o = engine::explore(&g, wit);
                with(|c| report(c, o.complete, o.engine_error.as_deref()));
                engine::CTX.with(|c| *c.borrow_mut() = None);
            });
            if th.unwrap().join().is_err() {
                std::process::exit(3);
            }
        }
        _ => {
            eprintln!("usage: list | exec NAME CASE OUT [--budget S] [--thorough]");
            std::process::exit(2)
        }
    }
}
