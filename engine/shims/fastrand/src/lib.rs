// Stand-in for fastrand: every number drawn is an arbitrary value of the range fastrand promises.
use vt::Sym as f64;
use std::cell::RefCell;
thread_local! { static START: RefCell<(Vec<f64>, usize)> = RefCell::new((vec![], 0)); }
/// the numbers every generator starts with (cycled); without them each number is arbitrary in (0, 1)
pub fn set_start(v: Vec<f64>) {
    START.with(|s| *s.borrow_mut() = (v, 0))
}
// numbers of the unseeded generator differ; a seed gives the same numbers every time
#[derive(Clone, Debug)]
pub struct Rng(std::cell::RefCell<(Option<u64>, usize)>);
impl Rng {
    pub fn new() -> Rng {
        Rng(std::cell::RefCell::new((None, 0)))
    }
    pub fn with_seed(s: u64) -> Rng {
        Rng(std::cell::RefCell::new((Some(s), 0)))
    }
    pub fn seed(&self, s: u64) {
        *self.0.borrow_mut() = (Some(s), 0)
    }
    pub fn f64(&self) -> f64 {
        let (seed, i) = {
            let mut s = self.0.borrow_mut();
            s.1 += 1;
            (s.0, s.1 - 1)
        };
        let given = START.with(|s| {
            let s = s.borrow();
            if s.0.is_empty() { None } else { Some(s.0[i % s.0.len()]) }
        });
        if let Some(x) = given {
            return x;
        }
        let x = match seed {
            Some(s) => vt::var(&format!("rng{}_{}", s, i)),
            None => vt::fresh("rng"),
        };
        // an exact zero (one draw in 2^53) is left out
        vt::assume(vt::gt(x, vt_zero()));
        vt::assume(vt::lt(x, vt_one()));
        x
    }
}
fn vt_zero() -> f64 {
    let x: f64 = Default::default();
    x
}
fn vt_one() -> f64 {
    f64::from(1u8)
}
pub fn f64() -> f64 {
    Rng::new().f64()
}
