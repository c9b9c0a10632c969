// Canonical polynomials over atoms. Atoms are input variables, quotients (num/den), square roots
// and sine/cosine values; quotients and roots carry their defining equations.
use crate::rat::Rat;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub type Atom = u32;
pub type Mono = Rc<[Atom]>;
pub type Pid = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Poly {
    pub terms: Vec<(Mono, Rat)>, // ascending by (len, lex)
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Kind {
    Var(String),
    Quot(Pid, Pid),
    Root(Pid),
    Sin(Pid),
    Cos(Pid),
}

fn mkey(a: &Mono, b: &Mono) -> std::cmp::Ordering {
    a.len().cmp(&b.len()).then_with(|| a.cmp(b))
}

#[derive(Default)]
pub struct Arena {
    pub polys: Vec<Rc<Poly>>,
    pub atoms: Vec<Kind>,
    special: Vec<bool>,          // products with this atom may reduce
    den1: Vec<Option<Atom>>,     // Quot with a single-atom denominator
    pmap: HashMap<Rc<Poly>, Pid>,
    amap: HashMap<Kind, Atom>,
    mul_cache: HashMap<(Pid, Pid), Pid>,
    add_cache: HashMap<(Pid, Pid), Pid>,
}

pub struct TooBig;

impl Arena {
    pub fn intern(&mut self, p: Poly) -> Pid {
        if let Some(i) = self.pmap.get(&p) {
            return *i;
        }
        let r = Rc::new(p);
        let i = self.polys.len() as Pid;
        self.polys.push(r.clone());
        self.pmap.insert(r, i);
        i
    }
    pub fn get(&self, p: Pid) -> Rc<Poly> {
        self.polys[p as usize].clone()
    }
    pub fn monomial(&mut self, atoms: &[Atom], c: Rat) -> Pid {
        self.intern(Poly { terms: vec![(Rc::from(atoms), c)] })
    }
    pub fn cnst(&mut self, r: Rat) -> Pid {
        let terms = if r.is_zero() { vec![] } else { vec![(Rc::from(&[][..]), r)] };
        self.intern(Poly { terms })
    }
    pub fn as_const(&self, p: Pid) -> Option<Rat> {
        let t = &self.polys[p as usize].terms;
        if t.is_empty() {
            Some(Rat::zero())
        } else if t.len() == 1 && t[0].0.is_empty() {
            Some(t[0].1.clone())
        } else {
            None
        }
    }
    pub fn atom(&mut self, k: Kind) -> Atom {
        if let Some(a) = self.amap.get(&k) {
            return *a;
        }
        let a = self.atoms.len() as Atom;
        let (mut sp, mut d1) = (false, None);
        match &k {
            Kind::Root(_) | Kind::Sin(_) => sp = true,
            Kind::Quot(_, d) => {
                let d = &self.polys[*d as usize];
                if d.terms.len() == 1 && d.terms[0].0.len() == 1 {
                    sp = true;
                    d1 = Some(d.terms[0].0[0]);
                }
            }
            _ => {}
        }
        self.atoms.push(k.clone());
        self.special.push(sp);
        self.den1.push(d1);
        self.amap.insert(k, a);
        a
    }
    pub fn atom_poly(&mut self, a: Atom) -> Pid {
        self.intern(Poly { terms: vec![(Rc::from(&[a][..]), Rat::one())] })
    }
    pub fn from_map(&mut self, m: BTreeMap<(usize, Mono), Rat>) -> Pid {
        let terms = m.into_iter().filter(|(_, c)| !c.is_zero()).map(|((_, m), c)| (m, c)).collect();
        self.intern(Poly { terms })
    }
    pub fn scale(&mut self, a: Pid, r: &Rat) -> Pid {
        if r.is_zero() {
            return self.cnst(Rat::zero());
        }
        if r.is_one() {
            return a;
        }
        let p = self.get(a);
        let terms = p.terms.iter().map(|(m, c)| (m.clone(), c.mul(r))).collect();
        self.intern(Poly { terms })
    }
    pub fn neg(&mut self, a: Pid) -> Pid {
        self.scale(a, &Rat::int(-1))
    }
    pub fn add(&mut self, a: Pid, b: Pid) -> Pid {
        let key = if a < b { (a, b) } else { (b, a) };
        if let Some(r) = self.add_cache.get(&key) {
            return *r;
        }
        let (p, q) = (self.get(a), self.get(b));
        let (mut i, mut j) = (0, 0);
        let mut t = Vec::with_capacity(p.terms.len() + q.terms.len());
        while i < p.terms.len() || j < q.terms.len() {
            let o = if i == p.terms.len() {
                std::cmp::Ordering::Greater
            } else if j == q.terms.len() {
                std::cmp::Ordering::Less
            } else {
                mkey(&p.terms[i].0, &q.terms[j].0)
            };
            match o {
                std::cmp::Ordering::Less => {
                    t.push(p.terms[i].clone());
                    i += 1
                }
                std::cmp::Ordering::Greater => {
                    t.push(q.terms[j].clone());
                    j += 1
                }
                _ => {
                    let c = p.terms[i].1.add(&q.terms[j].1);
                    if !c.is_zero() {
                        t.push((p.terms[i].0.clone(), c));
                    }
                    i += 1;
                    j += 1;
                }
            }
        }
        let r = self.intern(Poly { terms: t });
        self.add_cache.insert(key, r);
        r
    }
    pub fn sub(&mut self, a: Pid, b: Pid) -> Pid {
        if a == b {
            return self.cnst(Rat::zero());
        }
        let n = self.neg(b);
        self.add(a, n)
    }

    // add c * (product of the atoms in v) to acc, applying the eager reductions
    fn put(&mut self, acc: &mut BTreeMap<(usize, Mono), Rat>, mut v: Vec<Atom>, c: Rat, cap: usize) -> Result<(), TooBig> {
        v.sort_unstable();
        if v.iter().any(|a| self.special[*a as usize]) {
            for i in 0..v.len() {
                let a = v[i];
                if !self.special[a as usize] {
                    continue;
                }
                match self.atoms[a as usize].clone() {
                    Kind::Root(arg) if i + 1 < v.len() && v[i + 1] == a => {
                        v.remove(i);
                        v.remove(i);
                        return self.put_times(acc, v, arg, c, cap);
                    }
                    Kind::Sin(x) if i + 1 < v.len() && v[i + 1] == a => {
                        v.remove(i);
                        v.remove(i);
                        let co = self.atom(Kind::Cos(x));
                        self.put(acc, v.clone(), c.clone(), cap)?;
                        v.push(co);
                        v.push(co);
                        return self.put(acc, v, c.neg(), cap);
                    }
                    Kind::Quot(n, _) => {
                        if let Some(d) = self.den1[a as usize] {
                            if let Some(j) = v.iter().position(|x| *x == d) {
                                let (lo, hi) = if i < j { (i, j) } else { (j, i) };
                                v.remove(hi);
                                v.remove(lo);
                                return self.put_times(acc, v, n, c, cap);
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        let m: Mono = Rc::from(&v[..]);
        let k = (m.len(), m);
        match acc.get_mut(&k) {
            Some(x) => *x = x.add(&c),
            None => {
                acc.insert(k, c);
                if acc.len() > cap {
                    return Err(TooBig);
                }
            }
        }
        Ok(())
    }
    fn put_times(&mut self, acc: &mut BTreeMap<(usize, Mono), Rat>, v: Vec<Atom>, p: Pid, c: Rat, cap: usize) -> Result<(), TooBig> {
        let p = self.get(p);
        for (m, k) in p.terms.iter() {
            let mut w = v.clone();
            w.extend(m.iter());
            self.put(acc, w, c.mul(k), cap)?;
        }
        Ok(())
    }
    pub fn mul(&mut self, a: Pid, b: Pid) -> Pid {
        match self.mul_cap(a, b, 2_000_000) {
            Ok(p) => p,
            Err(_) => panic!("VT-ENGINE: polynomial too large"),
        }
    }
    pub fn mul_cap(&mut self, a: Pid, b: Pid, cap: usize) -> Result<Pid, TooBig> {
        if let Some(r) = self.as_const(a) {
            return Ok(self.scale(b, &r));
        }
        if let Some(r) = self.as_const(b) {
            return Ok(self.scale(a, &r));
        }
        let key = if a < b { (a, b) } else { (b, a) };
        if let Some(r) = self.mul_cache.get(&key) {
            return Ok(*r);
        }
        let (p, q) = (self.get(a), self.get(b));
        let mut acc = BTreeMap::new();
        for (m, c) in p.terms.iter() {
            for (n, d) in q.terms.iter() {
                let mut v = Vec::with_capacity(m.len() + n.len());
                v.extend(m.iter());
                v.extend(n.iter());
                self.put(&mut acc, v, c.mul(d), cap)?;
            }
        }
        let r = self.from_map(acc);
        self.mul_cache.insert(key, r);
        Ok(r)
    }
    pub fn powi(&mut self, a: Pid, k: u32) -> Pid {
        let mut r = self.cnst(Rat::one());
        for _ in 0..k {
            r = self.mul(r, a);
        }
        r
    }
    // (content, monic) so that p = content * monic; p nonzero
    pub fn monic(&mut self, p: Pid) -> (Rat, Pid) {
        let c = self.polys[p as usize].terms.last().unwrap().1.clone();
        let m = self.scale(p, &c.inv());
        (c, m)
    }
    fn div_atom(&mut self, num: Pid, a: Atom) -> Pid {
        // num / a
        if let Kind::Quot(n, d) = self.atoms[a as usize].clone() {
            let t = self.mul(num, d);
            return self.div(t, n);
        }
        if let Kind::Root(p) = self.atoms[a as usize].clone() {
            // x / sqrt(p) = x sqrt(p) / p
            if self.polys[p as usize].terms.len() == 1 {
                let ap = self.atom_poly(a);
                let t = self.mul(num, ap);
                return self.div(t, p);
            }
        }
        let p = self.get(num);
        let mut div = vec![];
        let mut rest = vec![];
        for (m, c) in p.terms.iter() {
            if let Some(i) = m.iter().position(|x| *x == a) {
                let mut v = m.to_vec();
                v.remove(i);
                div.push((Rc::from(&v[..]), c.clone()));
            } else {
                rest.push((m.clone(), c.clone()));
            }
        }
        div.sort_by(|x: &(Mono, Rat), y| mkey(&x.0, &y.0));
        let dp = self.intern(Poly { terms: div });
        if rest.is_empty() {
            return dp;
        }
        let rp = self.intern(Poly { terms: rest });
        // common factors stay outside (the reciprocal of an atom is one atom), so that later products cancel
        let g = self.mono_content(rp);
        let rp = if g.is_empty() { rp } else { self.div_mono(rp, &g) };
        let (c, r) = self.monic(rp);
        let ap = self.atom_poly(a);
        let q = self.atom(Kind::Quot(r, ap));
        let q = self.atom_poly(q);
        let g = self.monomial(&g, c);
        let q = self.mul(q, g);
        self.add(dp, q)
    }
    // exact polynomial division (no reductions involved), None if it does not divide
    fn try_exact(&mut self, num: Pid, den: Pid) -> Option<Pid> {
        self.exact_within(num, den, 60, 400)
    }
    pub fn exact_within(&mut self, num: Pid, den: Pid, max_steps: usize, max_terms: usize) -> Option<Pid> {
        let d = self.get(den);
        if d.terms.iter().any(|(m, _)| m.iter().any(|a| self.special[*a as usize])) {
            return None;
        }
        let (lm, lc) = d.terms.last().unwrap().clone();
        let mut q = self.cnst(Rat::zero());
        let mut r = num;
        let mut steps = 0;
        loop {
            let p = self.get(r);
            let (m, c) = match p.terms.last() {
                None => return Some(q),
                Some(t) => t.clone(),
            };
            steps += 1;
            if steps > max_steps || p.terms.len() > max_terms {
                return None;
            }
            // m / lm
            let mut v = m.to_vec();
            for a in lm.iter() {
                let i = v.iter().position(|x| x == a)?;
                v.remove(i);
            }
            let t = self.intern(Poly { terms: vec![(Rc::from(&v[..]), c.div(&lc))] });
            q = self.add(q, t);
            let s = self.mul(t, den);
            let before = r;
            r = self.sub(r, s);
            if r == before {
                return None;
            }
        }
    }
    fn mono_content(&self, p: Pid) -> Vec<Atom> {
        let t = &self.polys[p as usize].terms;
        let mut g = t[0].0.to_vec();
        for (m, _) in t.iter().skip(1) {
            let mut m = m.to_vec();
            g.retain(|a| match m.iter().position(|x| x == a) {
                Some(i) => {
                    m.remove(i);
                    true
                }
                None => false,
            });
        }
        g
    }
    fn div_mono(&mut self, p: Pid, g: &[Atom]) -> Pid {
        let t = self.get(p);
        let mut terms: Vec<(Mono, Rat)> = t
            .terms
            .iter()
            .map(|(m, c)| {
                let mut v = m.to_vec();
                for a in g {
                    let i = v.iter().position(|x| x == a).unwrap();
                    v.remove(i);
                }
                (Rc::from(&v[..]), c.clone())
            })
            .collect();
        terms.sort_by(|x, y| mkey(&x.0, &y.0));
        self.intern(Poly { terms })
    }
    // num / den, den not identically zero
    pub fn div(&mut self, num: Pid, den: Pid) -> Pid {
        if self.polys[num as usize].terms.is_empty() {
            return num;
        }
        let (c, mut den) = self.monic(den);
        let mut num = self.scale(num, &c.inv());
        if self.as_const(den).is_some() {
            return num;
        }
        if num == den {
            return self.cnst(Rat::one());
        }
        let d = self.get(den);
        if d.terms.len() == 1 {
            let mut r = num;
            for a in d.terms[0].0.clone().iter() {
                r = self.div_atom(r, *a);
            }
            return r;
        }
        // roots that are factors stay outside
        let gn = self.mono_content(num);
        let mut gd = self.mono_content(den);
        if let Some(a) = gd.iter().copied().find(|a| matches!(self.atoms[*a as usize], Kind::Root(_))) {
            let den = self.div_mono(den, &[a]);
            let num = self.div_atom(num, a);
            return self.div(num, den);
        }
        if let Some(a) = gn.iter().copied().find(|a| matches!(self.atoms[*a as usize], Kind::Root(_))) {
            let num = self.div_mono(num, &[a]);
            let q = self.div(num, den);
            let ap = self.atom_poly(a);
            let r = self.mul(q, ap);
            return self.scale(r, &Rat::one());
        }
        // cancel common monomial factors
        let mut gn2 = gn.clone();
        gd.retain(|a| match gn2.iter().position(|x| x == a) {
            Some(i) => {
                gn2.remove(i);
                true
            }
            None => false,
        });
        if !gd.is_empty() {
            num = self.div_mono(num, &gd);
            den = self.div_mono(den, &gd);
            return self.div(num, den);
        }
        if let Some(q) = self.try_exact(num, den) {
            return q;
        }
        let (c, n) = self.monic(num);
        let a = self.atom(Kind::Quot(n, den));
        let a = self.atom_poly(a);
        self.scale(a, &c)
    }
    pub fn sqrt(&mut self, p: Pid) -> Pid {
        if let Some(r) = self.as_const(p) {
            if let Some(s) = r.sqrt() {
                return self.cnst(s);
            }
        }
        let a = self.atom(Kind::Root(p));
        self.atom_poly(a)
    }
    pub fn atoms_of(&self, p: Pid, out: &mut Vec<Atom>) {
        for (m, _) in self.polys[p as usize].terms.iter() {
            for a in m.iter() {
                if !out.contains(a) {
                    out.push(*a);
                }
            }
        }
    }
    pub fn defs_of(&self, a: Atom) -> Vec<Pid> {
        match &self.atoms[a as usize] {
            Kind::Var(_) => vec![],
            Kind::Quot(n, d) => vec![*n, *d],
            Kind::Root(p) | Kind::Sin(p) | Kind::Cos(p) => vec![*p],
        }
    }
    // Clear quotients: returns a polynomial over non-quotient atoms that vanishes iff p does,
    // given that all denominators are nonzero. Also splits off nothing else.
    pub fn eliminate(&mut self, p: Pid, cap: usize) -> Result<Pid, TooBig> {
        self.eliminate_with(p, cap, &mut vec![])
    }
    // the result is p times the product of the recorded powers
    pub fn eliminate_with(&mut self, p: Pid, cap: usize, used: &mut Vec<(Pid, usize)>) -> Result<Pid, TooBig> {
        let mut p = p;
        loop {
            let mut at = vec![];
            self.atoms_of(p, &mut at);
            let q = at.iter().copied().filter(|a| matches!(self.atoms[*a as usize], Kind::Quot(..))).max();
            let q = match q {
                None => return Ok(p),
                Some(q) => q,
            };
            let d = match self.atoms[q as usize].clone() {
                Kind::Quot(_, d) => d,
                _ => unreachable!(),
            };
            // quotients over the same denominator go together
            let group: Vec<Atom> = at.iter().copied().filter(|a| matches!(self.atoms[*a as usize], Kind::Quot(_, e) if e == d)).collect();
            let poly = self.get(p);
            let mut by: BTreeMap<Vec<Atom>, Vec<(Mono, Rat)>> = BTreeMap::new();
            for (m, c) in poly.terms.iter() {
                let k: Vec<Atom> = m.iter().copied().filter(|a| group.contains(a)).collect();
                let v: Vec<Atom> = m.iter().copied().filter(|a| !group.contains(a)).collect();
                by.entry(k).or_default().push((Rc::from(&v[..]), c.clone()));
            }
            let deg = by.keys().map(|k| k.len()).max().unwrap();
            used.push((d, deg));
            let mut acc = self.cnst(Rat::zero());
            // terms of equal degree are added up before the powers of the denominator go in
            let mut parts: Vec<Pid> = vec![acc; deg + 1];
            for (k, mut t) in by {
                t.sort_by(|x, y| mkey(&x.0, &y.0));
                let mut c = self.intern(Poly { terms: t });
                for a in k.iter() {
                    let n = match self.atoms[*a as usize] {
                        Kind::Quot(n, _) => n,
                        _ => unreachable!(),
                    };
                    c = self.mul_cap(c, n, cap)?;
                }
                parts[k.len()] = self.add(parts[k.len()], c);
            }
            for (k, part) in parts.into_iter().enumerate() {
                // Horner: acc = acc * d + part
                let _ = k;
                acc = self.mul_cap(acc, d, cap)?;
                acc = self.add(acc, part);
                if self.polys[acc as usize].terms.len() > cap {
                    return Err(TooBig);
                }
            }
            p = acc;
        }
    }
    // coefficients of p by the power of atom v
    pub fn coeffs(&mut self, p: Pid, v: Atom) -> Vec<Pid> {
        let poly = self.get(p);
        let mut by: BTreeMap<usize, Vec<(Mono, Rat)>> = BTreeMap::new();
        for (m, c) in poly.terms.iter() {
            let k = m.iter().filter(|a| **a == v).count();
            let w: Vec<Atom> = m.iter().copied().filter(|a| *a != v).collect();
            by.entry(k).or_default().push((Rc::from(&w[..]), c.clone()));
        }
        let n = by.keys().max().map(|k| k + 1).unwrap_or(0);
        let z = self.cnst(Rat::zero());
        let mut out = vec![z; n];
        for (k, mut t) in by {
            t.sort_by(|x, y| mkey(&x.0, &y.0));
            out[k] = self.intern(Poly { terms: t });
        }
        out
    }
    // p with v replaced by -b/a, times a power of a
    pub fn subst_frac(&mut self, p: Pid, v: Atom, a: Pid, b: Pid, cap: usize) -> Result<Pid, TooBig> {
        let cs = self.coeffs(p, v);
        if cs.len() <= 1 {
            return Ok(p);
        }
        let nb = self.neg(b);
        // Horner from the top: acc = acc * (-b) + c_k * a^(d-k)
        let mut acc = self.cnst(Rat::zero());
        let mut ap = self.cnst(Rat::one());
        for c in cs.into_iter().rev() {
            acc = self.mul_cap(acc, nb, cap)?;
            let t = self.mul_cap(c, ap, cap)?;
            acc = self.add(acc, t);
            ap = self.mul_cap(ap, a, cap)?;
            if self.polys[acc as usize].terms.len() > cap {
                return Err(TooBig);
            }
        }
        Ok(acc)
    }
    // Reduce modulo q*den - num (leading monomial of den), newest quotient first.
    pub fn reduce(&mut self, p: Pid, cap: usize) -> Result<Pid, TooBig> {
        let mut p = p;
        for _ in 0..200 {
            let poly = self.get(p);
            let mut hit = None;
            'find: for (m, c) in poly.terms.iter().rev() {
                for a in m.iter().rev() {
                    if let Kind::Quot(n, d) = self.atoms[*a as usize].clone() {
                        let dp = self.get(d);
                        let (lm, lc) = dp.terms.last().unwrap().clone();
                        let mut v = m.to_vec();
                        let i = v.iter().position(|x| x == a).unwrap();
                        v.remove(i);
                        let mut ok = true;
                        for x in lm.iter() {
                            match v.iter().position(|y| y == x) {
                                Some(i) => {
                                    v.remove(i);
                                }
                                None => {
                                    ok = false;
                                    break;
                                }
                            }
                        }
                        if ok {
                            hit = Some((v, c.div(&lc), *a, n, d));
                            break 'find;
                        }
                    }
                }
            }
            let (v, c, a, n, d) = match hit {
                None => return Ok(p),
                Some(h) => h,
            };
            // p -= c * v * (a*d - n)
            let ap = self.atom_poly(a);
            // build a*d without eager reductions (there are none for multi-term d)
            let ad = self.mul_cap(ap, d, cap)?;
            let g = self.sub(ad, n);
            let vm = self.intern(Poly { terms: vec![(Rc::from(&v[..]), c)] });
            let t = self.mul_cap(vm, g, cap)?;
            let np = self.sub(p, t);
            if np == p {
                return Ok(p);
            }
            p = np;
            if self.polys[p as usize].terms.len() > cap {
                return Err(TooBig);
            }
        }
        Ok(p)
    }
    pub fn smt_atom(&self, a: Atom) -> String {
        format!("a{}", a)
    }
    pub fn smt(&self, p: Pid) -> String {
        let t = &self.polys[p as usize].terms;
        if t.is_empty() {
            return "0.0".into();
        }
        let mut parts = vec![];
        for (m, c) in t.iter() {
            if m.is_empty() {
                parts.push(c.smt());
                continue;
            }
            let mut f: Vec<String> = vec![];
            if !c.is_one() {
                f.push(c.smt());
            }
            f.extend(m.iter().map(|a| self.smt_atom(*a)));
            parts.push(if f.len() == 1 { f.pop().unwrap() } else { format!("(* {})", f.join(" ")) });
        }
        if parts.len() == 1 {
            parts.pop().unwrap()
        } else {
            format!("(+ {})", parts.join(" "))
        }
    }
    pub fn show(&self, p: Pid) -> String {
        let t = &self.polys[p as usize].terms;
        if t.is_empty() {
            return "0".into();
        }
        let mut s = String::new();
        for (i, (m, c)) in t.iter().enumerate() {
            if i > 0 {
                s.push_str(" + ");
            }
            if i > 11 {
                s.push_str(&format!("... ({} terms)", t.len()));
                break;
            }
            if !c.is_one() || m.is_empty() {
                s.push_str(&c.to_string());
            }
            for a in m.iter() {
                s.push(' ');
                s.push_str(&self.show_atom(*a));
            }
        }
        s
    }
    pub fn show_atom(&self, a: Atom) -> String {
        match &self.atoms[a as usize] {
            Kind::Var(n) => n.clone(),
            Kind::Quot(..) => format!("q{}", a),
            Kind::Root(_) => format!("root{}", a),
            Kind::Sin(p) => format!("sin({})", self.show(*p)),
            Kind::Cos(p) => format!("cos({})", self.show(*p)),
        }
    }
    pub fn linear(&self, p: Pid) -> bool {
        self.polys[p as usize].terms.iter().all(|(m, _)| m.len() <= 1)
    }
}
