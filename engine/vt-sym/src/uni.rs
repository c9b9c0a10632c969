// Rational functions of one variable, reduced: the fast lane for queries over a single variable.
use crate::rat::{Int, Rat};
use std::collections::HashMap;

pub type UP = Vec<Rat>; // coefficients, constant first; no trailing zero

fn trim(mut a: UP) -> UP {
    while a.last().map(|x| x.is_zero()).unwrap_or(false) {
        a.pop();
    }
    a
}
pub fn add(a: &UP, b: &UP) -> UP {
    let z = Rat::zero();
    trim((0..a.len().max(b.len())).map(|i| a.get(i).unwrap_or(&z).add(b.get(i).unwrap_or(&z))).collect())
}
pub fn mul(a: &UP, b: &UP) -> UP {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut r = vec![Rat::zero(); a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            r[i + j] = r[i + j].add(&x.mul(y));
        }
    }
    trim(r)
}
fn divrem(a: &UP, b: &UP) -> (UP, UP) {
    let mut r = a.clone();
    let mut q = vec![Rat::zero(); (a.len() + 1).saturating_sub(b.len())];
    let l = b.last().unwrap().inv();
    while r.len() >= b.len() {
        let k = r.len() - b.len();
        let c = r.last().unwrap().mul(&l);
        for (i, y) in b.iter().enumerate() {
            r[k + i] = r[k + i].sub(&c.mul(y));
        }
        q[k] = c;
        r.pop();
        r = trim(r);
    }
    (trim(q), r)
}
fn monic(a: &UP) -> UP {
    match a.last() {
        None => vec![],
        Some(l) => {
            let l = l.inv();
            a.iter().map(|x| x.mul(&l)).collect()
        }
    }
}
// degree of the gcd modulo a large prime: an upper bound for the true degree (unless None)
const MP: u128 = (1 << 61) - 1;
fn modpow(mut b: u128, mut e: u128) -> u128 {
    let mut r = 1;
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % MP;
        }
        b = b * b % MP;
        e >>= 1;
    }
    r
}
fn modular(a: &UP) -> Option<Vec<u128>> {
    let mut r = vec![];
    for c in a.iter() {
        let d = c.d.modulo(MP as u64) as u128;
        if d == 0 {
            return None;
        }
        r.push(c.n.modulo(MP as u64) as u128 * modpow(d, MP - 2) % MP);
    }
    if r.last() == Some(&0) {
        return None;
    }
    Some(r)
}
fn gcd_degree(a: &UP, b: &UP) -> Option<usize> {
    let (mut a, mut b) = (modular(a)?, modular(b)?);
    while !b.is_empty() {
        let l = modpow(*b.last().unwrap(), MP - 2);
        while a.len() >= b.len() {
            let k = a.len() - b.len();
            let c = *a.last().unwrap() * l % MP;
            for (i, y) in b.iter().enumerate() {
                a[k + i] = (a[k + i] + MP - c * y % MP) % MP;
            }
            while a.last() == Some(&0) {
                a.pop();
            }
        }
        std::mem::swap(&mut a, &mut b);
    }
    Some(a.len() - 1)
}
fn gcd(a: &UP, b: &UP) -> UP {
    if a.len() == 1 || b.len() == 1 {
        return vec![Rat::one()];
    }
    if !a.is_empty() && !b.is_empty() {
        match gcd_degree(a, b) {
            Some(0) => return vec![Rat::one()],
            // one may simply divide the other
            Some(k) if k + 1 == a.len() && divrem(b, a).1.is_empty() => return monic(a),
            Some(k) if k + 1 == b.len() && divrem(a, b).1.is_empty() => return monic(b),
            _ => {}
        }
    }
    // primitive remainder sequence over the integers
    let (mut a, mut b) = (prim(a), prim(b));
    if a.len() < b.len() {
        std::mem::swap(&mut a, &mut b);
    }
    while !b.is_empty() {
        let r = prim(&divrem(&a, &b).1);
        a = b;
        b = r;
    }
    return monic(&a);
}
fn prim(a: &UP) -> UP {
    if a.is_empty() {
        return vec![];
    }
    let (mut l, mut g) = (Int::parse("1"), Int::parse("0"));
    for c in a.iter() {
        let k = l.gcd(&c.d);
        l = l.mul(&c.d.divrem(&k).0);
    }
    let l = Rat::new(l, Int::parse("1"));
    let v: UP = a.iter().map(|c| c.mul(&l)).collect();
    for c in v.iter() {
        g = g.gcd(&c.n);
    }
    let g = Rat::new(Int::parse("1"), g.abs());
    v.iter().map(|c| c.mul(&g)).collect()
}
// numerator and denominator without common factor
#[derive(Clone)]
pub struct Fr {
    pub n: UP,
    pub d: UP,
}
impl Fr {
    pub fn cnst(c: Rat) -> Fr {
        Fr { n: trim(vec![c]), d: vec![Rat::one()] }
    }
    pub fn x() -> Fr {
        Fr { n: vec![Rat::zero(), Rat::one()], d: vec![Rat::one()] }
    }
    fn make(n: UP, d: UP) -> Fr {
        let g = gcd(&n, &d);
        let (n, d) = if g.len() > 1 { (divrem(&n, &g).0, divrem(&d, &g).0) } else { (n, d) };
        let l = d.last().unwrap().inv();
        Fr { n: n.iter().map(|x| x.mul(&l)).collect(), d: d.iter().map(|x| x.mul(&l)).collect() }
    }
    // sum over the least common denominator, not reduced
    pub fn add_lazy(&self, o: &Fr) -> Fr {
        if self.d == o.d {
            return Fr { n: add(&self.n, &o.n), d: self.d.clone() };
        }
        let g = gcd(&self.d, &o.d);
        let (a, b) = if g.len() > 1 { (divrem(&self.d, &g).0, divrem(&o.d, &g).0) } else { (self.d.clone(), o.d.clone()) };
        Fr { n: add(&mul(&self.n, &b), &mul(&o.n, &a)), d: mul(&self.d, &b) }
    }
    pub fn reduce(&self) -> Fr {
        Fr::make(self.n.clone(), self.d.clone())
    }
    pub fn mul(&self, o: &Fr) -> Fr {
        Fr::make(mul(&self.n, &o.n), mul(&self.d, &o.d))
    }
    pub fn div(&self, o: &Fr) -> Option<Fr> {
        if o.n.is_empty() {
            return None;
        }
        Some(Fr::make(mul(&self.n, &o.d), mul(&self.d, &o.n)))
    }
    // a polynomial of the same sign wherever the denominator does not vanish
    pub fn sign_poly(&self) -> UP {
        mul(&self.n, &self.d)
    }
}
// integer coefficients, Horner form
pub fn smt(p: &UP, x: &str) -> String {
    if p.is_empty() {
        return "0.0".into();
    }
    let mut l = Int::parse("1");
    for c in p.iter() {
        let g = l.gcd(&c.d);
        l = l.mul(&c.d.divrem(&g).0);
    }
    let l = Rat::new(l, Int::parse("1"));
    let mut s = String::new();
    for (i, c) in p.iter().enumerate() {
        let c = c.mul(&l).smt();
        if i + 1 == p.len() {
            s.push_str(&c);
        } else {
            s.push_str(&format!("(+ {} (* {} ", c, x));
        }
    }
    for _ in 1..p.len() {
        s.push_str("))");
    }
    s
}
pub type Memo = HashMap<u32, Option<Fr>>;

