// Exact rational numbers: i128 fast path, arbitrary precision when that overflows.
use std::cmp::Ordering;
use std::fmt;
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Big {
    neg: bool,
    m: Rc<Vec<u32>>, // little endian, no trailing zeros
}

fn trim(mut v: Vec<u32>) -> Vec<u32> {
    while v.last() == Some(&0) {
        v.pop();
    }
    v
}
fn mcmp(a: &[u32], b: &[u32]) -> Ordering {
    if a.len() != b.len() {
        return a.len().cmp(&b.len());
    }
    for i in (0..a.len()).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    Ordering::Equal
}
fn madd(a: &[u32], b: &[u32]) -> Vec<u32> {
    let n = a.len().max(b.len());
    let mut r = Vec::with_capacity(n + 1);
    let mut c = 0u64;
    for i in 0..n {
        let s = c + *a.get(i).unwrap_or(&0) as u64 + *b.get(i).unwrap_or(&0) as u64;
        r.push(s as u32);
        c = s >> 32;
    }
    r.push(c as u32);
    trim(r)
}
fn msub(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = Vec::with_capacity(a.len());
    let mut br = 0i64;
    for i in 0..a.len() {
        let mut d = a[i] as i64 - br - *b.get(i).unwrap_or(&0) as i64;
        br = 0;
        if d < 0 {
            d += 1 << 32;
            br = 1;
        }
        r.push(d as u32);
    }
    trim(r)
}
fn mmul(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = vec![0u32; a.len() + b.len() + 1];
    for i in 0..a.len() {
        let mut c = 0u64;
        for j in 0..b.len() {
            let t = r[i + j] as u64 + a[i] as u64 * b[j] as u64 + c;
            r[i + j] = t as u32;
            c = t >> 32;
        }
        let mut k = i + b.len();
        while c > 0 {
            let t = r[k] as u64 + c;
            r[k] = t as u32;
            c = t >> 32;
            k += 1;
        }
    }
    trim(r)
}
fn mshl1(a: &mut Vec<u32>, bit: u32) {
    let mut c = bit;
    for x in a.iter_mut() {
        let n = *x >> 31;
        *x = (*x << 1) | c;
        c = n;
    }
    if c > 0 {
        a.push(c)
    }
}
fn mdivrem_small(a: &[u32], d: u32) -> (Vec<u32>, u32) {
    let mut q = vec![0u32; a.len()];
    let mut r = 0u64;
    for i in (0..a.len()).rev() {
        let t = (r << 32) | a[i] as u64;
        q[i] = (t / d as u64) as u32;
        r = t % d as u64;
    }
    (trim(q), r as u32)
}
fn mdivrem(a: &[u32], b: &[u32]) -> (Vec<u32>, Vec<u32>) {
    if mcmp(a, b) == Ordering::Less {
        return (vec![], a.to_vec());
    }
    if b.len() == 1 {
        let (q, r) = mdivrem_small(a, b[0]);
        return (q, trim(vec![r]));
    }
    // Knuth D
    let s = b[b.len() - 1].leading_zeros();
    let shl = |v: &[u32], extra: bool| -> Vec<u32> {
        let mut r = Vec::with_capacity(v.len() + 1);
        let mut c = 0u32;
        for &x in v {
            r.push(if s == 0 { x } else { (x << s) | c });
            c = if s == 0 { 0 } else { x >> (32 - s) };
        }
        if extra {
            r.push(c);
        }
        r
    };
    let v = shl(b, false);
    let mut u = shl(a, true);
    let n = v.len();
    let m = u.len() - n - 1;
    let mut q = vec![0u32; m + 1];
    for j in (0..=m).rev() {
        let num = ((u[j + n] as u64) << 32) | u[j + n - 1] as u64;
        let mut qh = num / v[n - 1] as u64;
        let mut rh = num % v[n - 1] as u64;
        while qh >= 1 << 32 || qh * v[n - 2] as u64 > ((rh << 32) | u[j + n - 2] as u64) {
            qh -= 1;
            rh += v[n - 1] as u64;
            if rh >= 1 << 32 {
                break;
            }
        }
        let mut br = 0i64;
        let mut c = 0u64;
        for i in 0..n {
            let p = qh * v[i] as u64 + c;
            c = p >> 32;
            let t = u[i + j] as i64 - br - (p & 0xffff_ffff) as i64;
            u[i + j] = t as u32;
            br = if t < 0 { 1 } else { 0 };
        }
        let t = u[j + n] as i64 - br - c as i64;
        u[j + n] = t as u32;
        if t < 0 {
            qh -= 1;
            let mut c = 0u64;
            for i in 0..n {
                let t = u[i + j] as u64 + v[i] as u64 + c;
                u[i + j] = t as u32;
                c = t >> 32;
            }
            u[j + n] = (u[j + n] as u64 + c) as u32;
        }
        q[j] = qh as u32;
    }
    let mut r = vec![0u32; n];
    for i in 0..n {
        r[i] = if s == 0 { u[i] } else { (u[i] >> s) | (((u[i + 1] as u64) << (32 - s)) as u32) };
    }
    (trim(q), trim(r))
}

#[derive(Clone, Debug)]
pub enum Int {
    S(i128),
    B(Big),
}
impl PartialEq for Int {
    fn eq(&self, o: &Int) -> bool {
        match (self, o) {
            (Int::S(a), Int::S(b)) => a == b,
            (Int::B(a), Int::B(b)) => a == b,
            _ => false,
        }
    }
}
impl Eq for Int {}
impl std::hash::Hash for Int {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        match self {
            Int::S(a) => a.hash(h),
            Int::B(b) => b.hash(h),
        }
    }
}

impl Int {
    fn big(&self) -> Big {
        match self {
            Int::B(b) => b.clone(),
            Int::S(x) => {
                let mut u = x.unsigned_abs();
                let mut v = vec![];
                while u > 0 {
                    v.push(u as u32);
                    u >>= 32;
                }
                Big { neg: *x < 0, m: Rc::new(v) }
            }
        }
    }
    fn norm(neg: bool, m: Vec<u32>) -> Int {
        if m.len() <= 4 {
            let mut u: u128 = 0;
            for i in (0..m.len()).rev() {
                u = (u << 32) | m[i] as u128;
            }
            if u < (1u128 << 127) {
                return Int::S(if neg { -(u as i128) } else { u as i128 });
            }
        }
        Int::B(Big { neg, m: Rc::new(m) })
    }
    pub fn modulo(&self, p: u64) -> u64 {
        let (neg, r) = match self {
            Int::S(x) => (*x < 0, (x.unsigned_abs() % p as u128) as u64),
            Int::B(b) => (b.neg, b.m.iter().rev().fold(0u128, |r, d| ((r << 32) | *d as u128) % p as u128) as u64),
        };
        if neg && r != 0 { p - r } else { r }
    }
    pub fn is_zero(&self) -> bool {
        matches!(self, Int::S(0))
    }
    pub fn sign(&self) -> i32 {
        match self {
            Int::S(x) => x.signum() as i32,
            Int::B(b) => if b.neg { -1 } else { 1 },
        }
    }
    pub fn neg(&self) -> Int {
        match self {
            Int::S(x) if *x != i128::MIN => Int::S(-x),
            _ => {
                let b = self.big();
                Int::norm(!b.neg, b.m.to_vec())
            }
        }
    }
    pub fn add(&self, o: &Int) -> Int {
        if let (Int::S(a), Int::S(b)) = (self, o) {
            if let Some(c) = a.checked_add(*b) {
                return Int::S(c);
            }
        }
        let (a, b) = (self.big(), o.big());
        if a.neg == b.neg {
            Int::norm(a.neg, madd(&a.m, &b.m))
        } else {
            match mcmp(&a.m, &b.m) {
                Ordering::Equal => Int::S(0),
                Ordering::Greater => Int::norm(a.neg, msub(&a.m, &b.m)),
                Ordering::Less => Int::norm(b.neg, msub(&b.m, &a.m)),
            }
        }
    }
    pub fn mul(&self, o: &Int) -> Int {
        if let (Int::S(a), Int::S(b)) = (self, o) {
            if let Some(c) = a.checked_mul(*b) {
                return Int::S(c);
            }
        }
        let (a, b) = (self.big(), o.big());
        Int::norm(a.neg != b.neg, mmul(&a.m, &b.m))
    }
    pub fn divrem(&self, o: &Int) -> (Int, Int) {
        if let (Int::S(a), Int::S(b)) = (self, o) {
            if *b != -1 {
                return (Int::S(a / b), Int::S(a % b));
            }
        }
        let (a, b) = (self.big(), o.big());
        let (q, r) = mdivrem(&a.m, &b.m);
        (Int::norm(a.neg != b.neg, q), Int::norm(a.neg, r))
    }
    pub fn gcd(&self, o: &Int) -> Int {
        if let (Int::S(a), Int::S(b)) = (self, o) {
            let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs());
            while b != 0 {
                let t = a % b;
                a = b;
                b = t;
            }
            if a < (1u128 << 127) {
                return Int::S(a as i128);
            }
        }
        let (mut a, mut b) = (self.abs(), o.abs());
        while !b.is_zero() {
            let t = a.divrem(&b).1;
            a = b;
            b = t;
        }
        a
    }
    pub fn abs(&self) -> Int {
        if self.sign() < 0 {
            self.neg()
        } else {
            self.clone()
        }
    }
    pub fn cmp(&self, o: &Int) -> Ordering {
        if let (Int::S(a), Int::S(b)) = (self, o) {
            return a.cmp(b);
        }
        self.add(&o.neg()).sign().cmp(&0)
    }
    pub fn to_f64(&self) -> f64 {
        match self {
            Int::S(x) => *x as f64,
            Int::B(_) => self.to_string().parse().unwrap(),
        }
    }
    pub fn isqrt(&self) -> Option<Int> {
        // exact square root
        if self.sign() < 0 {
            return None;
        }
        if self.is_zero() {
            return Some(Int::S(0));
        }
        // Newton from above
        let bits = match self {
            Int::S(x) => 128 - x.leading_zeros(),
            Int::B(b) => b.m.len() as u32 * 32,
        };
        let mut x = Int::S(1);
        let two = Int::S(2);
        for _ in 0..(bits / 2 + 1) {
            x = x.mul(&two);
        }
        loop {
            let y = x.add(&self.divrem(&x).0).divrem(&two).0;
            if y.cmp(&x) != Ordering::Less {
                break;
            }
            x = y;
        }
        if x.mul(&x) == *self {
            Some(x)
        } else {
            None
        }
    }
    pub fn parse(s: &str) -> Int {
        let mut r = Int::S(0);
        let (neg, d) = match s.strip_prefix('-') {
            Some(t) => (true, t),
            None => (false, s),
        };
        if d.len() <= 36 {
            r = Int::S(d.parse().unwrap());
        } else {
            let ten = Int::S(10);
            for c in d.bytes() {
                assert!(c.is_ascii_digit());
                r = r.mul(&ten).add(&Int::S((c - b'0') as i128));
            }
        }
        if neg {
            r.neg()
        } else {
            r
        }
    }
}
impl fmt::Display for Int {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Int::S(x) => write!(f, "{}", x),
            Int::B(b) => {
                let mut v = b.m.to_vec();
                let mut parts = vec![];
                while !v.is_empty() {
                    let (q, r) = mdivrem_small(&v, 1_000_000_000);
                    parts.push(r);
                    v = q;
                }
                if b.neg {
                    write!(f, "-")?;
                }
                write!(f, "{}", parts.pop().unwrap_or(0))?;
                while let Some(p) = parts.pop() {
                    write!(f, "{:09}", p)?;
                }
                Ok(())
            }
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Rat {
    pub n: Int,
    pub d: Int, // > 0
}

impl Rat {
    pub fn zero() -> Rat {
        Rat::int(0)
    }
    pub fn one() -> Rat {
        Rat::int(1)
    }
    pub fn int(x: i128) -> Rat {
        Rat { n: Int::S(x), d: Int::S(1) }
    }
    pub fn new(n: Int, d: Int) -> Rat {
        assert!(!d.is_zero());
        let (n, d) = if d.sign() < 0 { (n.neg(), d.neg()) } else { (n, d) };
        if let Int::S(1) = d {
            return Rat { n, d };
        }
        let g = n.gcd(&d);
        if let Int::S(1) = g {
            return Rat { n, d };
        }
        Rat { n: n.divrem(&g).0, d: d.divrem(&g).0 }
    }
    pub fn frac(n: i128, d: i128) -> Rat {
        Rat::new(Int::S(n), Int::S(d))
    }
    pub fn is_zero(&self) -> bool {
        self.n.is_zero()
    }
    pub fn is_one(&self) -> bool {
        matches!((&self.n, &self.d), (Int::S(1), Int::S(1)))
    }
    pub fn is_int(&self) -> bool {
        matches!(self.d, Int::S(1))
    }
    pub fn sign(&self) -> i32 {
        self.n.sign()
    }
    pub fn neg(&self) -> Rat {
        Rat { n: self.n.neg(), d: self.d.clone() }
    }
    pub fn add(&self, o: &Rat) -> Rat {
        if self.is_int() && o.is_int() {
            return Rat { n: self.n.add(&o.n), d: Int::S(1) };
        }
        Rat::new(self.n.mul(&o.d).add(&o.n.mul(&self.d)), self.d.mul(&o.d))
    }
    pub fn sub(&self, o: &Rat) -> Rat {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Rat) -> Rat {
        if self.is_int() && o.is_int() {
            return Rat { n: self.n.mul(&o.n), d: Int::S(1) };
        }
        Rat::new(self.n.mul(&o.n), self.d.mul(&o.d))
    }
    pub fn inv(&self) -> Rat {
        Rat::new(self.d.clone(), self.n.clone())
    }
    pub fn div(&self, o: &Rat) -> Rat {
        self.mul(&o.inv())
    }
    pub fn cmp(&self, o: &Rat) -> Ordering {
        self.sub(o).sign().cmp(&0)
    }
    pub fn pow(&self, k: u32) -> Rat {
        let mut r = Rat::one();
        for _ in 0..k {
            r = r.mul(self);
        }
        r
    }
    pub fn sqrt(&self) -> Option<Rat> {
        Some(Rat { n: self.n.isqrt()?, d: self.d.isqrt()? })
    }
    pub fn floor(&self) -> Int {
        let (q, r) = self.n.divrem(&self.d);
        if r.sign() < 0 {
            q.add(&Int::S(-1))
        } else {
            q
        }
    }
    pub fn to_f64(&self) -> f64 {
        if let (Int::S(n), Int::S(d)) = (&self.n, &self.d) {
            if n.unsigned_abs() < (1 << 53) && *d < (1 << 53) {
                return *n as f64 / *d as f64; // correctly rounded
            }
        }
        // scale so that the quotient has about 90 significant bits
        let mut n = self.n.abs();
        let d = self.d.clone();
        let mut e = 0i32;
        let k = Int::S(1 << 62);
        let mut q = n.divrem(&d).0;
        while q.cmp(&k) == Ordering::Less && e < 40 && !n.is_zero() {
            n = n.mul(&k);
            e += 1;
            q = n.divrem(&d).0;
        }
        let mut x = q.to_f64();
        for _ in 0..e {
            x /= (1u64 << 62) as f64;
        }
        if self.n.sign() < 0 {
            -x
        } else {
            x
        }
    }
    // the decimal number a float literal denotes (its shortest round-trip decimal)
    pub fn from_f64(x: f64) -> Rat {
        let s = format!("{:e}", x);
        let (m, e) = s.split_once('e').unwrap();
        let mut e: i32 = e.parse().unwrap();
        let neg = m.starts_with('-');
        let m = m.trim_start_matches('-');
        let digits: String = m.chars().filter(|c| *c != '.').collect();
        if let Some((_, f)) = m.split_once('.') {
            e -= f.len() as i32;
        }
        let mut n = Int::parse(&digits);
        let mut d = Int::S(1);
        let ten = Int::S(10);
        for _ in 0..e.abs() {
            if e > 0 {
                n = n.mul(&ten)
            } else {
                d = d.mul(&ten)
            }
        }
        let r = Rat::new(n, d);
        if neg {
            r.neg()
        } else {
            r
        }
    }
    pub fn smt(&self) -> String {
        let body = if self.is_int() { format!("{}.0", self.n.abs()) } else { format!("(/ {}.0 {}.0)", self.n.abs(), self.d) };
        if self.sign() < 0 {
            format!("(- {})", body)
        } else {
            body
        }
    }
}
impl fmt::Display for Rat {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.is_int() {
            write!(f, "{}", self.n)
        } else {
            write!(f, "{}/{}", self.n, self.d)
        }
    }
}

#[cfg(test)]
mod t {
    use super::*;
    #[test]
    fn big() {
        let a = Int::parse("123456789012345678901234567890123456789012345678901234567890");
        let b = Int::parse("-98765432109876543210987654321098765432109876");
        let (q, r) = a.divrem(&b);
        assert_eq!(q.mul(&b).add(&r), a);
        assert_eq!(a.mul(&a).isqrt(), Some(a.clone()));
        assert_eq!(a.to_string(), "123456789012345678901234567890123456789012345678901234567890");
        assert_eq!(Rat::from_f64(0.1), Rat::frac(1, 10));
        assert_eq!(Rat::from_f64(-1e-100).to_f64(), -1e-100);
        assert_eq!(Rat::from_f64(6.89e10), Rat::int(68900000000));
        let mut s = 12345u64;
        let mut rnd = || { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (s >> 33) as u32 };
        for _ in 0..20000 {
            let la = 1 + rnd() % 9; let lb = 1 + rnd() % 6;
            let mk = |l: u32, f: &mut dyn FnMut() -> u32| { let v: Vec<u32> = (0..l).map(|_| match f() % 4 { 0 => 0, 1 => u32::MAX, _ => f() }).collect(); trim(v) };
            let a = mk(la, &mut rnd); let b = mk(lb, &mut rnd);
            if b.is_empty() { continue; }
            let (q, r) = mdivrem(&a, &b);
            assert!(mcmp(&r, &b) == Ordering::Less);
            assert_eq!(madd(&mmul(&q, &b), &r), a);
        }
    }
}
