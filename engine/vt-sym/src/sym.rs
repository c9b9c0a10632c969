// The symbolic real number that replaces f64 in the translated code. Copy and constant-constructible:
// either a literal (also the IEEE specials), a small exact fraction, or a polynomial in the arena.
use crate::engine::{with, F, NEG, POS, ZERO};
use crate::poly::{Kind, Pid};
use crate::rat::Rat;
use std::cmp::Ordering;
use std::fmt;
use std::ops::*;

#[derive(Clone, Copy)]
pub enum Sym {
    L(f64),
    Q(i64, i64),
    P(u32),
}
use Sym::*;

// Within vt::rounded, operations on plain numbers round as the machine does; unknown values stay exact.
thread_local! { static ROUNDED: std::cell::Cell<bool> = std::cell::Cell::new(false); }
pub fn rounded<T>(f: impl FnOnce() -> T) -> T {
    struct Back(bool);
    impl Drop for Back {
        fn drop(&mut self) {
            ROUNDED.with(|r| r.set(self.0));
        }
    }
    let _back = Back(ROUNDED.with(|r| r.replace(true)));
    f()
}
fn machine() -> bool {
    ROUNDED.with(|r| r.get())
}

const SMALL: f64 = 1099511627776.0; // 2^40

fn small(x: f64) -> bool {
    x.abs() <= SMALL && x == x.trunc()
}

impl Sym {
    pub fn special(self) -> Option<f64> {
        match self {
            L(x) if !x.is_finite() => Some(x),
            Q(_, 0) => Some(f64::NAN),
            _ => None,
        }
    }
    pub fn pid(self) -> Pid {
        match self {
            P(p) => p,
            L(x) => {
                assert!(x.is_finite(), "VT-ENGINE: polynomial of a non-finite value");
                with(|c| c.lit(x))
            }
            Q(n, d) => with(|c| c.ar.cnst(Rat::frac(n as i128, d as i128))),
        }
    }
    // the value, when it does not depend on any input
    pub fn known(self) -> Option<f64> {
        match self {
            L(x) => Some(x),
            Q(n, d) => Some(n as f64 / d as f64),
            P(p) => with(|c| c.ar.as_const(p).map(|r| r.to_f64())),
        }
    }
    fn show(self) -> f64 {
        self.known().unwrap_or(0.0)
    }
    // sign of a finite value; forks
    fn sign_in(self, sets: &[u8]) -> usize {
        let p = self.pid();
        with(|c| c.decide(p, sets))
    }
    // -1, 0, 1; forks three ways
    fn sgn(self) -> i32 {
        if let Some(x) = self.known() {
            return if x > 0.0 { 1 } else if x < 0.0 { -1 } else { 0 };
        }
        [1, -1, 0][self.sign_in(&[POS, NEG, ZERO])]
    }
    fn add_(self, o: Sym) -> Sym {
        if let (L(a), L(b)) = (self, o) {
            if small(a) && small(b) || machine() {
                return L(a + b);
            }
        }
        match (self.special(), o.special()) {
            (None, None) => {
                let (a, b) = (self.pid(), o.pid());
                P(with(|c| c.ar.add(a, b)))
            }
            (Some(a), None) => L(a),
            (None, Some(b)) => L(b),
            (Some(a), Some(b)) => L(a + b),
        }
    }
    fn neg_(self) -> Sym {
        match self {
            L(x) => L(-x),
            Q(n, d) => Q(-n, d),
            P(p) => P(with(|c| c.ar.neg(p))),
        }
    }
    fn sub_(self, o: Sym) -> Sym {
        if let (L(a), L(b)) = (self, o) {
            if small(a) && small(b) || machine() {
                return L(a - b);
            }
        }
        if self.special().is_some() || o.special().is_some() {
            return self.add_(o.neg_());
        }
        let (a, b) = (self.pid(), o.pid());
        P(with(|c| c.ar.sub(a, b)))
    }
    fn mul_(self, o: Sym) -> Sym {
        if let (L(a), L(b)) = (self, o) {
            if small(a) && small(b) && small(a * b) || machine() {
                return L(a * b);
            }
        }
        match (self.special(), o.special()) {
            (None, None) => {
                let (a, b) = (self.pid(), o.pid());
                P(with(|c| c.ar.mul(a, b)))
            }
            (Some(a), None) => {
                if a.is_nan() {
                    L(a)
                } else {
                    L(a * o.sgn() as f64)
                }
            }
            (None, Some(_)) => o.mul_(self),
            (Some(a), Some(b)) => L(a * b),
        }
    }
    fn div_(self, o: Sym) -> Sym {
        if let (L(a), L(b), true) = (self, o, machine()) {
            return L(a / b);
        }
        match (self.special(), o.special()) {
            (Some(a), Some(b)) => return L(a / b),
            (Some(a), None) => {
                if a.is_nan() {
                    return L(a);
                }
                if let L(b) = o {
                    return L(a / b);
                }
                let s = o.sgn();
                return L(if s == 0 { a } else { a * s as f64 });
            }
            (None, Some(b)) => return if b.is_nan() { L(b) } else { L(0.0) },
            _ => {}
        }
        if let L(b) = o {
            if b == 0.0 {
                return match self.sgn() {
                    0 => L(f64::NAN),
                    s => L(s as f64 / b),
                };
            }
        }
        let (a, b) = (self.pid(), o.pid());
        if with(|c| c.decide(b, &[NEG | POS, ZERO])) == 1 {
            // division by zero: the IEEE result (zeros are taken as positive)
            return match self.sgn() {
                0 => L(f64::NAN),
                s => L(s as f64 * f64::INFINITY),
            };
        }
        P(with(|c| c.ar.div(a, b)))
    }
    fn rem_(self, o: Sym) -> Sym {
        if self.special().is_some() || o.special().is_some() {
            return L(f64::NAN);
        }
        let q = (self / o).trunc();
        self - q * o
    }

    pub const INFINITY: Sym = L(f64::INFINITY);
    pub const NEG_INFINITY: Sym = L(f64::NEG_INFINITY);
    pub const NAN: Sym = L(f64::NAN);
    pub const MAX: Sym = L(f64::MAX);
    pub const MIN: Sym = L(f64::MIN);
    pub const EPSILON: Sym = L(f64::EPSILON);
    pub const MIN_POSITIVE: Sym = L(f64::MIN_POSITIVE);

    pub fn powi(self, n: i32) -> Sym {
        let mut r = L(1.0);
        for _ in 0..n.unsigned_abs() {
            r = r * self;
        }
        if n < 0 {
            L(1.0) / r
        } else {
            r
        }
    }
    pub fn powf(self, e: Sym) -> Sym {
        match e.known() {
            Some(x) if x == x.trunc() && x.abs() < 64.0 => self.powi(x as i32),
            Some(x) if 2.0 * x == (2.0 * x).trunc() && x.abs() < 32.0 => self.sqrt().powi((2.0 * x) as i32),
            _ => panic!("VT-ENGINE: unsupported powf"),
        }
    }
    pub fn sqrt(self) -> Sym {
        if let Some(x) = self.special() {
            return L(x.sqrt());
        }
        if let L(x) = self {
            if small(x) && x >= 0.0 && small(x.sqrt()) || machine() {
                return L(x.sqrt());
            }
        }
        let p = self.pid();
        if with(|c| c.decide(p, &[ZERO | POS, NEG])) == 1 {
            return L(f64::NAN);
        }
        P(with(|c| c.sqrt(p)))
    }
    fn trig(self, sin: bool) -> Sym {
        if self.special().is_some() {
            return L(f64::NAN);
        }
        if let Some(x) = self.known() {
            if x == 0.0 {
                return L(if sin { 0.0 } else { 1.0 });
            }
            // a known angle: the rational point of the unit circle next to it
            let (n, d) = near((x / 2.0).tan());
            if d != 0 {
                let (n, d) = (crate::rat::Rat::int(n), crate::rat::Rat::int(d));
                let (nn, dd) = (n.mul(&n), d.mul(&d));
                let h = nn.add(&dd);
                let v = if sin { n.mul(&d).add(&n.mul(&d)) } else { dd.sub(&nn) };
                return P(with(|c| c.ar.cnst(v.div(&h))));
            }
        }
        let p = self.pid();
        P(with(|c| {
            let (k, q) = c.ar.monic(p);
            let flip = k.sign() < 0;
            let base = if flip { c.ar.neg(p) } else { p };
            let _ = q;
            let a = c.ar.atom(if sin { Kind::Sin(base) } else { Kind::Cos(base) });
            let r = c.ar.atom_poly(a);
            if sin && flip {
                c.ar.neg(r)
            } else {
                r
            }
        }))
    }
    pub fn sin(self) -> Sym {
        self.trig(true)
    }
    pub fn cos(self) -> Sym {
        self.trig(false)
    }
    pub fn sin_cos(self) -> (Sym, Sym) {
        (self.sin(), self.cos())
    }
    pub fn tan(self) -> Sym {
        self.sin() / self.cos()
    }
    pub fn abs(self) -> Sym {
        if let Some(x) = self.special() {
            return L(x.abs());
        }
        if let L(x) = self {
            return L(x.abs());
        }
        if self.sign_in(&[ZERO | POS, NEG]) == 1 {
            self.neg_()
        } else {
            self
        }
    }
    pub fn signum(self) -> Sym {
        if let L(x) = self {
            return L(x.signum());
        }
        if self.sign_in(&[ZERO | POS, NEG]) == 1 {
            L(-1.0)
        } else {
            L(1.0)
        }
    }
    pub fn copysign(self, o: Sym) -> Sym {
        self.abs() * o.signum()
    }
    pub fn max(self, o: Sym) -> Sym {
        if self.is_nan() {
            return o;
        }
        if o.is_nan() {
            return self;
        }
        if self >= o { self } else { o }
    }
    pub fn min(self, o: Sym) -> Sym {
        if self.is_nan() {
            return o;
        }
        if o.is_nan() {
            return self;
        }
        if self <= o { self } else { o }
    }
    pub fn clamp(self, lo: Sym, hi: Sym) -> Sym {
        assert!(lo <= hi, "min > max, or either was NaN. min = {:?}, max = {:?}", lo, hi);
        let mut x = self;
        if x < lo {
            x = lo;
        }
        if x > hi {
            x = hi;
        }
        x
    }
    pub fn mul_add(self, a: Sym, b: Sym) -> Sym {
        self * a + b
    }
    pub fn hypot(self, o: Sym) -> Sym {
        (self * self + o * o).sqrt()
    }
    pub fn recip(self) -> Sym {
        L(1.0) / self
    }
    pub fn to_radians(self) -> Sym {
        self * (L(std::f64::consts::PI) / L(180.0))
    }
    pub fn to_degrees(self) -> Sym {
        self * (L(180.0) / L(std::f64::consts::PI))
    }
    pub fn midpoint(self, o: Sym) -> Sym {
        (self + o) / L(2.0)
    }
    pub fn div_euclid(self, o: Sym) -> Sym {
        let q = (self / o.abs()).floor();
        if o < L(0.0) { q.neg_() } else { q }
    }
    pub fn rem_euclid(self, o: Sym) -> Sym {
        let d = o.abs();
        self - d * (self / d).floor()
    }
    pub fn is_normal(self) -> bool {
        self.is_finite() && self != L(0.0)
    }
    pub fn is_subnormal(self) -> bool {
        false
    }
    // functions without an algebraic meaning: numbers only
    fn num(self, f: fn(f64) -> f64) -> Sym {
        match self.special().or(self.known()) {
            Some(x) => L(f(x)),
            None => panic!("VT-ENGINE: unsupported transcendental function"),
        }
    }
    pub fn exp(self) -> Sym { self.num(f64::exp) }
    pub fn exp2(self) -> Sym { self.num(f64::exp2) }
    pub fn exp_m1(self) -> Sym { self.num(f64::exp_m1) }
    pub fn ln(self) -> Sym { self.num(f64::ln) }
    pub fn ln_1p(self) -> Sym { self.num(f64::ln_1p) }
    pub fn log2(self) -> Sym { self.num(f64::log2) }
    pub fn log10(self) -> Sym { self.num(f64::log10) }
    pub fn log(self, base: Sym) -> Sym { self.ln() / base.ln() }
    pub fn cbrt(self) -> Sym { self.num(f64::cbrt) }
    pub fn asin(self) -> Sym { self.num(f64::asin) }
    pub fn acos(self) -> Sym { self.num(f64::acos) }
    pub fn atan(self) -> Sym { self.num(f64::atan) }
    pub fn sinh(self) -> Sym { self.num(f64::sinh) }
    pub fn cosh(self) -> Sym { self.num(f64::cosh) }
    pub fn tanh(self) -> Sym { self.num(f64::tanh) }
    pub fn asinh(self) -> Sym { self.num(f64::asinh) }
    pub fn acosh(self) -> Sym { self.num(f64::acosh) }
    pub fn atanh(self) -> Sym { self.num(f64::atanh) }
    pub fn atan2(self, o: Sym) -> Sym {
        match (self.known(), o.known()) {
            (Some(y), Some(x)) => L(y.atan2(x)),
            _ => panic!("VT-ENGINE: unsupported transcendental function"),
        }
    }
    pub fn to_bits(self) -> u64 {
        match self.special().or(self.known()) {
            Some(x) => x.to_bits(),
            None => panic!("VT-ENGINE: bits of a symbolic number"),
        }
    }
    pub fn from_bits(x: u64) -> Sym {
        L(f64::from_bits(x))
    }
    pub fn is_nan(self) -> bool {
        self.special().map(|x| x.is_nan()).unwrap_or(false)
    }
    pub fn is_finite(self) -> bool {
        self.special().is_none()
    }
    pub fn is_infinite(self) -> bool {
        self.special().map(|x| x.is_infinite()).unwrap_or(false)
    }
    pub fn is_sign_negative(self) -> bool {
        match self {
            L(x) => x.is_sign_negative(),
            _ => self < L(0.0),
        }
    }
    pub fn is_sign_positive(self) -> bool {
        !self.is_sign_negative()
    }
    pub fn total_cmp(&self, o: &Sym) -> Ordering {
        if let (L(a), L(b)) = (self, o) {
            return a.total_cmp(b);
        }
        match self.partial_cmp(o) {
            Some(x) => x,
            None => self.show().total_cmp(&o.show()),
        }
    }
    fn floor_i(self) -> i64 {
        if let L(x) = self {
            return x.floor() as i64;
        }
        let p = self.pid();
        with(|c| c.concretize_floor(p))
    }
    pub fn floor(self) -> Sym {
        if self.special().is_some() {
            return self;
        }
        L(self.floor_i() as f64)
    }
    pub fn ceil(self) -> Sym {
        self.neg_().floor().neg_()
    }
    pub fn trunc(self) -> Sym {
        if self.special().is_some() {
            return self;
        }
        if self < L(0.0) { self.ceil() } else { self.floor() }
    }
    pub fn fract(self) -> Sym {
        self - self.trunc()
    }
    // half away from zero
    pub fn round(self) -> Sym {
        if self.special().is_some() {
            return self;
        }
        if let L(x) = self {
            return L(x.round());
        }
        if self < L(0.0) {
            (self.neg_() + Q(1, 2)).floor().neg_()
        } else {
            (self + Q(1, 2)).floor()
        }
    }
    // saturating truncation, as `as` does; None for NaN
    pub fn to_int(self, lo: i128, hi: i128) -> i128 {
        if let Some(x) = self.special() {
            return if x.is_nan() { 0 } else if x > 0.0 { hi } else { lo };
        }
        if let L(x) = self {
            return (x as i128).max(lo).min(hi);
        }
        if lo == 0 && self < L(1.0) {
            return 0;
        }
        if hi < (1 << 62) && self >= L(hi as f64) {
            return hi;
        }
        if lo > -(1 << 62) && lo < 0 && self <= L(lo as f64) {
            return lo;
        }
        let t = self.trunc();
        match t {
            L(x) => (x as i128).max(lo).min(hi),
            _ => unreachable!(),
        }
    }
}

// continued fraction approximation to about 1e-17 relative; (0, 0) if out of range
fn near(t: f64) -> (i128, i128) {
    if !(t.abs() < 1e6) {
        return (0, 0);
    }
    let (mut a, mut b) = ((0i128, 1i128), (1i128, 0i128));
    // t exactly as n / d
    let (mut n, mut d) = ((t * (1u64 << 60) as f64) as i128, 1i128 << 60);
    while d != 0 {
        let q = n.div_euclid(d);
        let c = (a.0 + q * b.0, a.1 + q * b.1);
        a = b;
        b = c;
        let r = n - q * d;
        n = d;
        d = r;
        if b.1 > 200_000_000 {
            break;
        }
    }
    b
}

impl fmt::Debug for Sym {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self.known() {
            Some(x) => fmt::Debug::fmt(&x, f),
            None => write!(f, "<sym>"),
        }
    }
}
// The text of an unknown value is a decimal number that stands for it, read back by from_str: exactly when
// all digits are written (which the standard library guarantees to read back), else rounded to those written.
const TEXT: &str = "8420017.";
impl Sym {
    fn token(self, f: &mut fmt::Formatter) -> Option<fmt::Result> {
        match self.known() {
            Some(x) if self.special().is_some() || self.sub_(L(x)).known() == Some(0.0) => return None,
            _ => {}
        }
        let digits = f.precision().unwrap_or(999).min(999);
        let s = format!("{}{}{:010}{:03}", if f.sign_plus() { "+" } else { "" }, TEXT, self.pid(), digits);
        Some(f.write_str(&s))
    }
}
impl fmt::Display for Sym {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.token(f).unwrap_or_else(|| fmt::Display::fmt(&self.show(), f))
    }
}
impl fmt::LowerExp for Sym {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::LowerExp::fmt(&self.show(), f)
    }
}
impl fmt::UpperExp for Sym {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::UpperExp::fmt(&self.show(), f)
    }
}
impl std::str::FromStr for Sym {
    type Err = std::num::ParseFloatError;
    fn from_str(s: &str) -> Result<Sym, Self::Err> {
        let v = s.parse::<f64>()?;
        let (neg, d) = match s.strip_prefix('-') {
            Some(d) => (true, d),
            None => (false, s.strip_prefix('+').unwrap_or(s)),
        };
        let d = match d.strip_prefix(TEXT) {
            Some(d) if d.len() == 13 => d,
            _ => return Ok(L(v)),
        };
        let x = P(d[..10].parse().unwrap());
        let digits: i32 = d[10..].parse().unwrap();
        let x = if digits == 999 {
            x
        } else {
            let q = crate::fresh("text");
            let half = if digits > 15 { Q(1, 2_000_000_000_000_000) } else { Q(1, 2 * 10i64.pow(digits as u32)) };
            crate::assume(le(q.sub_(x), half));
            crate::assume(le(x.sub_(q), half));
            q
        };
        Ok(if neg { x.neg_() } else { x })
    }
}
impl Default for Sym {
    fn default() -> Sym {
        L(0.0)
    }
}

macro_rules! binop {
    ($tr:ident, $m:ident, $at:ident, $am:ident, $f:ident) => {
        impl $tr for Sym {
            type Output = Sym;
            fn $m(self, o: Sym) -> Sym {
                self.$f(o)
            }
        }
        impl<'a> $tr<&'a Sym> for Sym {
            type Output = Sym;
            fn $m(self, o: &Sym) -> Sym {
                self.$f(*o)
            }
        }
        impl<'a> $tr<Sym> for &'a Sym {
            type Output = Sym;
            fn $m(self, o: Sym) -> Sym {
                (*self).$f(o)
            }
        }
        impl<'a, 'b> $tr<&'a Sym> for &'b Sym {
            type Output = Sym;
            fn $m(self, o: &Sym) -> Sym {
                (*self).$f(*o)
            }
        }
        impl $at for Sym {
            fn $am(&mut self, o: Sym) {
                *self = (*self).$f(o)
            }
        }
        impl<'a> $at<&'a Sym> for Sym {
            fn $am(&mut self, o: &Sym) {
                *self = (*self).$f(*o)
            }
        }
    };
}
binop!(Add, add, AddAssign, add_assign, add_);
binop!(Sub, sub, SubAssign, sub_assign, sub_);
binop!(Mul, mul, MulAssign, mul_assign, mul_);
binop!(Div, div, DivAssign, div_assign, div_);
binop!(Rem, rem, RemAssign, rem_assign, rem_);

impl Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        self.neg_()
    }
}
impl<'a> Neg for &'a Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        self.neg_()
    }
}

// difference of two finite values as a polynomial, or the IEEE values to compare
enum Cmp {
    Ieee(f64, f64),
    Diff(Pid),
}
fn cmp_of(a: &Sym, b: &Sym) -> Cmp {
    match (a.special(), b.special()) {
        (None, None) => {
            if let (L(x), L(y)) = (*a, *b) {
                return Cmp::Ieee(x, y);
            }
            let (p, q) = (a.pid(), b.pid());
            Cmp::Diff(with(|c| c.ar.sub(p, q)))
        }
        // any finite value compares like zero with an infinity
        (x, y) => Cmp::Ieee(x.unwrap_or(0.0), y.unwrap_or(0.0)),
    }
}
fn cmp_set(a: &Sym, b: &Sym, set: u8, ieee: fn(f64, f64) -> bool) -> bool {
    match cmp_of(a, b) {
        Cmp::Ieee(x, y) => ieee(x, y),
        Cmp::Diff(p) => with(|c| c.decide(p, &[set, 7 & !set])) == 0,
    }
}
impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool {
        cmp_set(self, o, ZERO, |a, b| a == b)
    }
}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<Ordering> {
        match cmp_of(self, o) {
            Cmp::Ieee(x, y) => x.partial_cmp(&y),
            Cmp::Diff(p) => Some([Ordering::Greater, Ordering::Less, Ordering::Equal][with(|c| c.decide(p, &[POS, NEG, ZERO]))]),
        }
    }
    fn lt(&self, o: &Sym) -> bool {
        cmp_set(self, o, NEG, |a, b| a < b)
    }
    fn le(&self, o: &Sym) -> bool {
        cmp_set(self, o, NEG | ZERO, |a, b| a <= b)
    }
    fn gt(&self, o: &Sym) -> bool {
        cmp_set(self, o, POS, |a, b| a > b)
    }
    fn ge(&self, o: &Sym) -> bool {
        cmp_set(self, o, POS | ZERO, |a, b| a >= b)
    }
}

impl std::iter::Sum for Sym {
    fn sum<I: Iterator<Item = Sym>>(i: I) -> Sym {
        i.fold(L(0.0), |a, b| a + b)
    }
}
impl<'a> std::iter::Sum<&'a Sym> for Sym {
    fn sum<I: Iterator<Item = &'a Sym>>(i: I) -> Sym {
        i.fold(L(0.0), |a, b| a + *b)
    }
}
impl std::iter::Product for Sym {
    fn product<I: Iterator<Item = Sym>>(i: I) -> Sym {
        i.fold(L(1.0), |a, b| a * b)
    }
}
impl<'a> std::iter::Product<&'a Sym> for Sym {
    fn product<I: Iterator<Item = &'a Sym>>(i: I) -> Sym {
        i.fold(L(1.0), |a, b| a * *b)
    }
}

macro_rules! from_int {
    ($($t:ty)*) => {$(
        impl From<$t> for Sym {
            fn from(x: $t) -> Sym { L(x as f64) }
        }
    )*};
}
from_int!(u8 u16 u32 i8 i16 i32 f32);
impl From<f64> for Sym {
    fn from(x: f64) -> Sym {
        L(x)
    }
}

// ---- casts ------------------------------------------------------------------------------------
pub trait Cast<T> {
    fn cast(self) -> T;
}
#[inline(always)]
pub fn cast<F: Cast<T>, T>(x: F) -> T {
    x.cast()
}
macro_rules! casts {
    ($($a:ty),*) => { $( casts!(@ $a; u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64); )* };
    (@ $a:ty; $($b:ty)*) => { $( impl Cast<$b> for $a { #[inline(always)] fn cast(self) -> $b { self as $b } } )* };
}
casts!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);
macro_rules! to_sym {
    ($($a:ty)*) => { $(
        impl Cast<Sym> for $a { fn cast(self) -> Sym { L(self as f64) } }
        impl Cast<$a> for Sym { fn cast(self) -> $a { self.to_int(<$a>::MIN as i128, <$a>::MAX as i128) as $a } }
    )* };
}
to_sym!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
impl Cast<Sym> for f32 {
    fn cast(self) -> Sym {
        L(self as f64)
    }
}
impl Cast<Sym> for f64 {
    fn cast(self) -> Sym {
        L(self)
    }
}
impl Cast<Sym> for Sym {
    fn cast(self) -> Sym {
        self
    }
}
impl Cast<u8> for bool {
    fn cast(self) -> u8 {
        self as u8
    }
}
macro_rules! from_bool {
    ($($b:ty)*) => { $( impl Cast<$b> for bool { fn cast(self) -> $b { self as $b } } )* };
}
from_bool!(u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
macro_rules! from_ordering {
    ($($b:ty)*) => { $( impl Cast<$b> for std::cmp::Ordering { fn cast(self) -> $b { self as $b } } )* };
}
from_ordering!(i8 i16 i32 i64 i128 isize u8 u16 u32 u64 usize);
macro_rules! from_char {
    ($($b:ty)*) => { $( impl Cast<$b> for char { fn cast(self) -> $b { self as $b } } )* };
}
from_char!(u8 u16 u64 u128 usize i8 i16 i32 i64 i128 isize char);
impl Cast<bool> for bool {
    fn cast(self) -> bool {
        self
    }
}
impl Cast<u32> for char {
    fn cast(self) -> u32 {
        self as u32
    }
}
impl Cast<char> for u8 {
    fn cast(self) -> char {
        self as char
    }
}

// ---- constant expressions ---------------------------------------------------------------------
const fn frac(x: Sym) -> (i128, i128) {
    match x {
        Q(n, d) => (n as i128, d as i128),
        L(v) => {
            // decimal literals of moderate size
            let mut d: i128 = 1;
            let mut y = v;
            let mut i = 0;
            while i < 17 {
                let t = y as i128;
                if t as f64 == y && (t as f64) / (d as f64) == v {
                    return (t, d);
                }
                d *= 10;
                // nearest integer of v * d
                let z = v * (d as f64);
                let r = if z >= 0.0 { (z + 0.5) as i128 } else { (z - 0.5) as i128 };
                if (r as f64) / (d as f64) == v {
                    return (r, d);
                }
                y = z;
                i += 1;
            }
            panic!("VT-ENGINE: constant not representable")
        }
        P(_) => panic!("VT-ENGINE: symbolic constant"),
    }
}
const fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (if a < 0 { -a } else { a }, if b < 0 { -b } else { b });
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}
const fn mk(n: i128, d: i128) -> Sym {
    if d == 0 {
        return L(n as f64 / 0.0);
    }
    let g = gcd(n, d);
    let (mut n, mut d) = (n / g, d / g);
    if d < 0 {
        n = -n;
        d = -d;
    }
    if n > i64::MAX as i128 || n < i64::MIN as i128 || d > i64::MAX as i128 {
        panic!("VT-ENGINE: constant not representable")
    }
    Q(n as i64, d as i64)
}
pub const fn c_add(a: Sym, b: Sym) -> Sym {
    let ((a, b), (c, d)) = (frac(a), frac(b));
    mk(a * d + c * b, b * d)
}
pub const fn c_sub(a: Sym, b: Sym) -> Sym {
    let ((a, b), (c, d)) = (frac(a), frac(b));
    mk(a * d - c * b, b * d)
}
pub const fn c_mul(a: Sym, b: Sym) -> Sym {
    let ((a, b), (c, d)) = (frac(a), frac(b));
    mk(a * c, b * d)
}
pub const fn c_div(a: Sym, b: Sym) -> Sym {
    let ((a, b), (c, d)) = (frac(a), frac(b));
    mk(a * d, b * c)
}
pub const fn c_neg(a: Sym) -> Sym {
    match a {
        L(x) => L(-x),
        Q(n, d) => Q(-n, d),
        P(_) => panic!("VT-ENGINE: symbolic constant"),
    }
}
pub const fn c_from_i(a: i128) -> Sym {
    L(a as f64)
}

pub mod consts {
    use super::Sym;
    pub const PI: Sym = Sym::L(std::f64::consts::PI);
    pub const TAU: Sym = Sym::L(std::f64::consts::TAU);
    pub const FRAC_PI_2: Sym = Sym::L(std::f64::consts::FRAC_PI_2);
    pub const FRAC_PI_3: Sym = Sym::L(std::f64::consts::FRAC_PI_3);
    pub const FRAC_PI_4: Sym = Sym::L(std::f64::consts::FRAC_PI_4);
    pub const FRAC_PI_6: Sym = Sym::L(std::f64::consts::FRAC_PI_6);
    pub const SQRT_2: Sym = Sym::L(std::f64::consts::SQRT_2);
    pub const FRAC_1_SQRT_2: Sym = Sym::L(std::f64::consts::FRAC_1_SQRT_2);
    pub const E: Sym = Sym::L(std::f64::consts::E);
}

// ---- formulas ---------------------------------------------------------------------------------
#[derive(Clone, Debug)]
pub struct B(pub F);

fn rel(a: Sym, b: Sym, set: u8, ieee: fn(f64, f64) -> bool) -> B {
    B(match cmp_of(&a, &b) {
        Cmp::Ieee(x, y) => {
            if ieee(x, y) {
                F::True
            } else {
                F::False
            }
        }
        Cmp::Diff(p) => F::Sign(p, set),
    })
}
pub fn eq(a: Sym, b: Sym) -> B {
    rel(a, b, ZERO, |x, y| x == y)
}
pub fn ne(a: Sym, b: Sym) -> B {
    rel(a, b, NEG | POS, |x, y| x != y)
}
pub fn lt(a: Sym, b: Sym) -> B {
    rel(a, b, NEG, |x, y| x < y)
}
pub fn le(a: Sym, b: Sym) -> B {
    rel(a, b, NEG | ZERO, |x, y| x <= y)
}
pub fn gt(a: Sym, b: Sym) -> B {
    lt(b, a)
}
pub fn ge(a: Sym, b: Sym) -> B {
    le(b, a)
}
pub fn truth(x: bool) -> B {
    B(if x { F::True } else { F::False })
}
impl B {
    pub fn and(self, o: B) -> B {
        B(F::And(vec![self.0, o.0]))
    }
    pub fn or(self, o: B) -> B {
        B(F::Or(vec![self.0, o.0]))
    }
    pub fn not(self) -> B {
        B(self.0.not())
    }
    pub fn implies(self, o: B) -> B {
        self.not().or(o)
    }
    pub fn iff(self, o: B) -> B {
        self.clone().implies(o.clone()).and(o.implies(self))
    }
}
pub fn all<I: IntoIterator<Item = B>>(i: I) -> B {
    B(F::And(i.into_iter().map(|b| b.0).collect()))
}
pub fn any<I: IntoIterator<Item = B>>(i: I) -> B {
    B(F::Or(i.into_iter().map(|b| b.0).collect()))
}
