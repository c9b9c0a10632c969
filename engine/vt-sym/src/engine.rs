// Path exploration: the code under test runs on symbolic reals; every comparison whose outcome is
// not determined by the path condition forks. Paths are enumerated by re-execution (depth first).
use crate::poly::{Arena, Atom, Kind, Pid};
use crate::rat::{Int, Rat};
use crate::solver::{Ans, Solver};
use crate::uni::{self, Fr};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::{Duration, Instant};

// sign sets: bit 0 negative, bit 1 zero, bit 2 positive
pub const NEG: u8 = 1;
pub const ZERO: u8 = 2;
pub const POS: u8 = 4;

#[derive(Clone, Debug, PartialEq)]
pub enum F {
    True,
    False,
    Sign(Pid, u8), // sign of polynomial is in the set
    And(Vec<F>),
    Or(Vec<F>),
}

impl F {
    pub fn not(&self) -> F {
        match self {
            F::True => F::False,
            F::False => F::True,
            F::Sign(p, s) => F::Sign(*p, 7 & !s),
            F::And(v) => F::Or(v.iter().map(|x| x.not()).collect()),
            F::Or(v) => F::And(v.iter().map(|x| x.not()).collect()),
        }
    }
    fn pids(&self, out: &mut Vec<Pid>) {
        match self {
            F::Sign(p, _) => out.push(*p),
            F::And(v) | F::Or(v) => v.iter().for_each(|x| x.pids(out)),
            _ => {}
        }
    }
}

pub type Model = Rc<BTreeMap<Atom, Rat>>;

#[derive(Clone)]
struct Dec {
    alts: Vec<(usize, Option<Model>)>,
    at: usize,
}

#[derive(Clone, Debug)]
pub struct Cex {
    pub kind: String, // "prove" | "panic"
    pub what: String,
    pub vars: Vec<(String, f64)>,
    pub exact: bool,
    pub choices: Vec<(String, usize)>,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub paths: u64,
    pub pruned: u64,
    pub proves: u64,
    pub by_solver: u64,
    pub by_norm: u64,
    pub by_elim: u64,
    pub branches: u64,
    pub forks: u64,
    pub unknown_branch: u64,
    pub nearby: u64,
    pub unknown_goals: Vec<String>,
    pub goals_per_path_max: u64,
}

pub struct Pruned;
pub struct Stop;

pub struct Ctx {
    pub ar: Arena,
    script: Vec<Dec>,
    pos: usize,
    path: Vec<F>,
    path_atoms: Vec<BTreeSet<Atom>>,
    known: HashMap<Pid, u8>,
    model: Model,
    model_ok: bool, // the model satisfies the whole path condition
    pub choices: Vec<(String, usize)>,
    pub vars: Vec<(String, Atom)>,
    fresh: usize,
    pub stats: Stats,
    pub z3: Solver,
    pub z3o: Solver,
    pub cvc: Solver,
    lit: HashMap<u64, Pid>,
    lit_back: HashMap<Pid, f64>,
    pub cex: Option<Cex>,
    pub witnesses: Vec<Cex>,
    pub fns: BTreeSet<&'static str>,
    pub deadline: Instant,
    pub quiet: bool,
    goals_this_path: u64,
    pub thorough: bool,
    base: HashMap<Atom, Rc<BTreeSet<Atom>>>,
    uni: uni::Memo,
    uni_p: uni::Memo,
    pub out_of_time: bool,
    pub max_paths: u64,
    pub goal_names: BTreeMap<String, u64>,
    diversify: bool,
    pub skip: u64, // counterexamples the real code did not reproduce: explore past them
}

thread_local! {
    pub static CTX: RefCell<Option<Ctx>> = RefCell::new(None);
}

pub fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    CTX.with(|c| {
        let mut b = c.try_borrow_mut().expect("VT-ENGINE: re-entrant context");
        f(b.as_mut().expect("VT-ENGINE: no context"))
    })
}

fn abort_path() -> ! {
    std::panic::resume_unwind(Box::new(Pruned))
}
fn stop() -> ! {
    std::panic::resume_unwind(Box::new(Stop))
}

const T_BRANCH: u64 = 1500;

impl Ctx {
    pub fn new(budget: Duration, thorough: bool) -> Ctx {
        Ctx {
            ar: Arena::default(),
            script: vec![],
            pos: 0,
            path: vec![],
            path_atoms: vec![],
            known: HashMap::new(),
            model: Rc::new(BTreeMap::new()),
            model_ok: true,
            choices: vec![],
            vars: vec![],
            fresh: 0,
            stats: Stats::default(),
            z3: Solver::z3(),
            z3o: Solver::z3_old(),
            cvc: Solver::cvc5(),
            lit: HashMap::new(),
            lit_back: HashMap::new(),
            cex: None,
            witnesses: vec![],
            fns: BTreeSet::new(),
            deadline: Instant::now() + budget,
            quiet: true,
            goals_this_path: 0,
            thorough,
            base: HashMap::new(),
            uni: HashMap::new(),
            uni_p: HashMap::new(),
            out_of_time: false,
            max_paths: u64::MAX,
            goal_names: BTreeMap::new(),
            diversify: true,
            skip: 0,
        }
    }

    // ---- values -------------------------------------------------------------------------------
    pub fn lit(&mut self, x: f64) -> Pid {
        if let Some(p) = self.lit.get(&x.to_bits()) {
            return *p;
        }
        let r = Rat::from_f64(x);
        let p = self.ar.cnst(r);
        self.lit.insert(x.to_bits(), p);
        self.lit_back.insert(p, x);
        p
    }
    pub fn var(&mut self, name: &str) -> Pid {
        let a = self.ar.atom(Kind::Var(name.to_string()));
        if !self.vars.iter().any(|(n, _)| n == name) {
            self.vars.push((name.to_string(), a));
        }
        self.ar.atom_poly(a)
    }
    pub fn fresh(&mut self, pre: &str) -> Pid {
        self.fresh += 1;
        let n = format!("{}#{}", pre, self.fresh);
        self.var(&n)
    }

    fn default_val(&self, a: Atom) -> Rat {
        // some generic, pairwise different values for inputs no constraint has touched yet
        match &self.ar.atoms[a as usize] {
            Kind::Sin(_) => Rat::frac(4, 5),
            Kind::Cos(_) => Rat::frac(3, 5),
            _ => {
                if self.diversify {
                    Rat::frac(((a as i128 * 37 + 11) % 29) - 9, 4)
                } else {
                    Rat::zero()
                }
            }
        }
    }

    fn eval_atom(&self, a: Atom, m: &BTreeMap<Atom, Rat>, memo: &mut HashMap<Atom, Option<Rat>>) -> Option<Rat> {
        if let Some(r) = memo.get(&a) {
            return r.clone();
        }
        let r = match &self.ar.atoms[a as usize] {
            Kind::Var(_) | Kind::Sin(_) | Kind::Cos(_) => Some(m.get(&a).cloned().unwrap_or_else(|| self.default_val(a))),
            Kind::Quot(n, d) => {
                let d = self.eval(*d, m, memo);
                match d {
                    Some(d) if !d.is_zero() => self.eval(*n, m, memo).map(|n| n.div(&d)),
                    _ => None,
                }
            }
            Kind::Root(p) => self.eval(*p, m, memo).and_then(|v| v.sqrt()),
        };
        memo.insert(a, r.clone());
        r
    }
    fn eval(&self, p: Pid, m: &BTreeMap<Atom, Rat>, memo: &mut HashMap<Atom, Option<Rat>>) -> Option<Rat> {
        let poly = self.ar.get(p);
        let mut s = Rat::zero();
        for (mono, c) in poly.terms.iter() {
            let mut t = c.clone();
            for a in mono.iter() {
                t = t.mul(&self.eval_atom(*a, m, memo)?);
            }
            s = s.add(&t);
        }
        Some(s)
    }
    fn model_sign(&self, p: Pid, m: &Model) -> Option<u8> {
        let v = self.eval(p, m, &mut HashMap::new())?;
        Some(match v.sign() {
            -1 => NEG,
            0 => ZERO,
            _ => POS,
        })
    }
    fn model_holds(&self, f: &F, m: &Model) -> Option<bool> {
        match f {
            F::True => Some(true),
            F::False => Some(false),
            F::Sign(p, s) => self.model_sign(*p, m).map(|x| x & s != 0),
            F::And(v) => {
                let mut u = false;
                for x in v {
                    match self.model_holds(x, m) {
                        Some(false) => return Some(false),
                        None => u = true,
                        _ => {}
                    }
                }
                if u { None } else { Some(true) }
            }
            F::Or(v) => {
                let mut u = false;
                for x in v {
                    match self.model_holds(x, m) {
                        Some(true) => return Some(true),
                        None => u = true,
                        _ => {}
                    }
                }
                if u { None } else { Some(false) }
            }
        }
    }

    // ---- queries ------------------------------------------------------------------------------
    // base variables an atom depends on (used to slice queries)
    fn base_of(&mut self, a: Atom) -> Rc<BTreeSet<Atom>> {
        if let Some(s) = self.base.get(&a) {
            return s.clone();
        }
        let mut s = BTreeSet::new();
        if matches!(self.ar.atoms[a as usize], Kind::Var(_)) {
            s.insert(a);
        }
        for p in self.ar.defs_of(a) {
            let mut at = vec![];
            self.ar.atoms_of(p, &mut at);
            for b in at {
                let t = self.base_of(b);
                s.extend(t.iter());
            }
        }
        // trigonometric atoms of constants have no variables; keep them identifiable
        if s.is_empty() {
            s.insert(a);
        }
        let s = Rc::new(s);
        self.base.insert(a, s.clone());
        s
    }
    fn base_of_f(&mut self, f: &F) -> BTreeSet<Atom> {
        let mut ps = vec![];
        f.pids(&mut ps);
        let mut s = BTreeSet::new();
        for p in ps {
            let mut at = vec![];
            self.ar.atoms_of(p, &mut at);
            for a in at {
                s.extend(self.base_of(a).iter());
            }
        }
        s
    }
    fn smt_f(&self, f: &F) -> String {
        match f {
            F::True => "true".into(),
            F::False => "false".into(),
            F::Sign(p, s) => {
                let t = self.ar.smt(*p);
                match *s {
                    0 => "false".into(),
                    1 => format!("(< {} 0.0)", t),
                    2 => format!("(= {} 0.0)", t),
                    3 => format!("(<= {} 0.0)", t),
                    4 => format!("(> {} 0.0)", t),
                    5 => format!("(not (= {} 0.0))", t),
                    6 => format!("(>= {} 0.0)", t),
                    _ => "true".into(),
                }
            }
            F::And(v) => {
                if v.is_empty() {
                    "true".into()
                } else {
                    format!("(and {})", v.iter().map(|x| self.smt_f(x)).collect::<Vec<_>>().join(" "))
                }
            }
            F::Or(v) => {
                if v.is_empty() {
                    "false".into()
                } else {
                    format!("(or {})", v.iter().map(|x| self.smt_f(x)).collect::<Vec<_>>().join(" "))
                }
            }
        }
    }
    // text of: relevant part of the path condition, definitions, and the extra formulas
    fn query_text(&mut self, extra: &[F], slice: bool) -> (String, bool, Vec<Atom>) {
        let (fs, rel) = self.query_parts(extra, slice);
        if rel.len() == 1 {
            let x = *rel.iter().next().unwrap();
            if let Some(s) = self.uni_text(&fs, x) {
                return (s, true, vec![x]);
            }
        }
        self.query_text_full(fs)
    }
    // values as reduced fractions of the only variable there is
    fn uni_atom(&mut self, a: Atom) -> Option<Fr> {
        if let Some(r) = self.uni.get(&a) {
            return r.clone();
        }
        let r = match self.ar.atoms[a as usize].clone() {
            Kind::Var(_) => Some(Fr::x()),
            Kind::Quot(n, d) => match (self.uni_poly(n), self.uni_poly(d)) {
                (Some(n), Some(d)) => n.div(&d),
                _ => None,
            },
            _ => None,
        };
        let r = r.filter(|f| f.n.len() + f.d.len() < 60);
        self.uni.insert(a, r.clone());
        r
    }
    // a rational function of one variable: the solver decides it outright
    fn uni_only(&mut self, p: Pid) -> bool {
        let b = self.base_of_f(&F::Sign(p, 7));
        b.len() == 1 && matches!(self.ar.atoms[*b.iter().next().unwrap() as usize], Kind::Var(_)) && self.uni_poly(p).is_some()
    }
    fn uni_poly(&mut self, p: Pid) -> Option<Fr> {
        if let Some(r) = self.uni_p.get(&p) {
            return r.clone();
        }
        let r = self.uni_poly1(p);
        self.uni_p.insert(p, r.clone());
        r
    }
    fn uni_poly1(&mut self, p: Pid) -> Option<Fr> {
        let poly = self.ar.get(p);
        let mut r = Fr::cnst(Rat::zero());
        for (m, c) in poly.terms.iter() {
            let mut t = Fr::cnst(c.clone());
            for a in m.iter() {
                t = t.mul(&self.uni_atom(*a)?);
                if t.n.len() + t.d.len() > 120 {
                    return None;
                }
            }
            r = r.add_lazy(&t);
        }
        Some(r.reduce())
    }
    fn uni_f(&mut self, f: &F, x: &str) -> Option<String> {
        Some(match f {
            F::True => "true".into(),
            F::False => "false".into(),
            F::Sign(p, s) => {
                let v = self.uni_poly(*p)?;
                let t = uni::smt(&if *s == 2 || *s == 5 { v.n.clone() } else { v.sign_poly() }, x);
                match *s {
                    0 => "false".into(),
                    1 => format!("(< {} 0.0)", t),
                    2 => format!("(= {} 0.0)", t),
                    3 => format!("(<= {} 0.0)", t),
                    4 => format!("(> {} 0.0)", t),
                    5 => format!("(not (= {} 0.0))", t),
                    6 => format!("(>= {} 0.0)", t),
                    _ => "true".into(),
                }
            }
            F::And(v) | F::Or(v) => {
                if v.is_empty() {
                    return Some(if matches!(f, F::And(_)) { "true".into() } else { "false".into() });
                }
                let mut s = String::from(if matches!(f, F::And(_)) { "(and" } else { "(or" });
                for g in v {
                    s.push(' ');
                    s.push_str(&self.uni_f(g, x)?);
                }
                s.push(')');
                s
            }
        })
    }
    fn uni_text(&mut self, fs: &[F], x: Atom) -> Option<String> {
        if !matches!(self.ar.atoms[x as usize], Kind::Var(_)) {
            return None;
        }
        let mut at: Vec<Atom> = vec![];
        let mut ps = vec![];
        fs.iter().for_each(|f| f.pids(&mut ps));
        for p in ps.iter() {
            self.ar.atoms_of(*p, &mut at);
        }
        let mut i = 0;
        while i < at.len() {
            if !matches!(self.ar.atoms[at[i] as usize], Kind::Var(_) | Kind::Quot(..)) {
                return None;
            }
            for p in self.ar.defs_of(at[i]) {
                self.ar.atoms_of(p, &mut at);
            }
            i += 1;
        }
        let name = format!("a{}", x);
        let mut s = format!("(declare-const {} Real)\n", name);
        let mut seen = BTreeSet::new();
        let mut put = |s: &mut String, t: String| {
            if seen.insert(t.clone()) {
                s.push_str(&format!("(assert {})\n", t));
            }
        };
        for a in at {
            if let Kind::Quot(_, d) = self.ar.atoms[a as usize].clone() {
                let v = self.uni_poly(d)?;
                if v.n.len() != 1 {
                    put(&mut s, format!("(not (= {} 0.0))", uni::smt(&v.n, &name)));
                }
            }
        }
        for f in fs.iter() {
            let t = self.uni_f(f, &name)?;
            put(&mut s, t);
        }
        Some(s)
    }
    // the formulas that matter to a query and the base variables they depend on
    fn query_parts(&mut self, extra: &[F], slice: bool) -> (Vec<F>, BTreeSet<Atom>) {
        let mut rel: BTreeSet<Atom> = BTreeSet::new();
        for f in extra {
            rel.extend(self.base_of_f(f));
        }
        let n = self.path.len();
        let mut take = vec![!slice; n];
        if slice {
            loop {
                let mut ch = false;
                for i in 0..n {
                    if !take[i] && self.path_atoms[i].iter().any(|a| rel.contains(a)) {
                        take[i] = true;
                        let s = self.path_atoms[i].clone();
                        rel.extend(s);
                        ch = true;
                    }
                }
                if !ch {
                    break;
                }
            }
        }
        let mut fs: Vec<F> = vec![];
        for i in 0..n {
            if take[i] {
                fs.push(self.path[i].clone());
            }
        }
        if !slice {
            for i in 0..n {
                rel.extend(self.path_atoms[i].iter());
            }
        }
        fs.extend(extra.iter().cloned());
        (fs, rel)
    }
    fn query_text_full(&mut self, fs: Vec<F>) -> (String, bool, Vec<Atom>) {
        // atoms, closed under definitions
        let mut at: Vec<Atom> = vec![];
        let mut ps = vec![];
        fs.iter().for_each(|f| f.pids(&mut ps));
        for p in ps.iter() {
            self.ar.atoms_of(*p, &mut at);
        }
        let mut i = 0;
        while i < at.len() {
            for p in self.ar.defs_of(at[i]) {
                self.ar.atoms_of(p, &mut at);
            }
            i += 1;
        }
        // sine and cosine of the same argument belong together
        let mut i = 0;
        while i < at.len() {
            match self.ar.atoms[at[i] as usize].clone() {
                Kind::Sin(p) => {
                    let b = self.ar.atom(Kind::Cos(p));
                    if !at.contains(&b) {
                        at.push(b)
                    }
                }
                Kind::Cos(p) => {
                    let b = self.ar.atom(Kind::Sin(p));
                    if !at.contains(&b) {
                        at.push(b)
                    }
                }
                _ => {}
            }
            i += 1;
        }
        let mut s = String::new();
        let mut nl = ps.iter().any(|p| !self.ar.linear(*p));
        for a in at.iter() {
            s.push_str(&format!("(declare-const a{} Real)\n", a));
        }
        for a in at.iter() {
            match self.ar.atoms[*a as usize].clone() {
                Kind::Quot(nu, d) => {
                    let (nt, dt) = (self.ar.smt(nu), self.ar.smt(d));
                    s.push_str(&format!("(assert (= (* a{} {}) {}))\n(assert (not (= {} 0.0)))\n", a, dt, nt, dt));
                    nl = true;
                }
                Kind::Root(p) => {
                    let t = self.ar.smt(p);
                    s.push_str(&format!("(assert (>= a{} 0.0))\n(assert (= (* a{} a{}) {}))\n", a, a, a, t));
                    nl = true;
                }
                Kind::Cos(p) => {
                    let b = self.ar.atom(Kind::Sin(p));
                    s.push_str(&format!("(assert (= (+ (* a{} a{}) (* a{} a{})) 1.0))\n", a, a, b, b));
                    nl = true;
                }
                _ => {}
            }
        }
        for f in fs.iter() {
            s.push_str(&format!("(assert {})\n", self.smt_f(f)));
        }
        let free: Vec<Atom> = at.iter().copied().filter(|a| matches!(self.ar.atoms[*a as usize], Kind::Var(_) | Kind::Sin(_) | Kind::Cos(_))).collect();
        (s, nl, free)
    }

    fn merge_model(&self, base: &Model, free: &[Atom], vals: &[String]) -> Option<Model> {
        let mut m = (**base).clone();
        for (a, v) in free.iter().zip(vals) {
            let r = parse_val(v)?;
            m.insert(*a, r);
        }
        Some(Rc::new(m))
    }

    // feasibility of path and extra
    fn feasible(&mut self, extra: &[F], timeout: u64) -> (Ans, Option<Model>) {
        // a slice suffices only while the rest of the path is known to be satisfiable
        let (t, nl, free) = self.query_text(extra, self.model_ok);
        let names: Vec<String> = free.iter().map(|a| format!("a{}", a)).collect();
        let t0 = Instant::now();
        let a = self.z3.check(&t, nl, &names, timeout);
        if t0.elapsed().as_millis() > 400 && std::env::var("VT_SHOW").is_ok() {
            let w = match &extra[0] {
                F::Sign(p, s) => format!("{} in {} {}", self.ar.show(*p), s, self.show_defs(*p)),
                f => format!("{:?}", f),
            };
            eprintln!("slow query {:?} {} {}", t0.elapsed(), match a { Ans::Sat(_) => "sat", Ans::Unsat => "unsat", _ => "unknown" }, w);
        }
        match &a {
            Ans::Sat(v) => {
                let m = self.merge_model(&self.model.clone(), &free, v);
                // outside the slice the values come from the current model
                let m = m.filter(|m| self.model_ok || self.path.iter().all(|f| self.model_holds(f, m) == Some(true)));
                (a.clone(), m)
            }
            _ => (a, None),
        }
    }

    fn check_time(&mut self) {
        if Instant::now() > self.deadline {
            self.out_of_time = true;
            stop();
        }
    }

    // ---- branching ----------------------------------------------------------------------------
    // which of the (disjoint, exhaustive) sign sets holds for p
    pub fn decide(&mut self, p: Pid, sets: &[u8]) -> usize {
        if let Some(r) = self.ar.as_const(p) {
            let s = match r.sign() {
                -1 => NEG,
                0 => ZERO,
                _ => POS,
            };
            return sets.iter().position(|x| x & s != 0).unwrap();
        }
        // normal form: monic polynomial
        let (c, q) = self.ar.monic(p);
        let flip = c.sign() < 0;
        let sets: Vec<u8> = sets.iter().map(|s| if flip { mirror(*s) } else { *s }).collect();
        let known = self.sign_of(q, 6);
        if known == 0 {
            panic!("VT-ENGINE: inconsistent sign knowledge");
        }
        let poss: Vec<usize> = (0..sets.len()).filter(|i| sets[*i] & known != 0).collect();
        assert!(!poss.is_empty(), "VT-ENGINE: inconsistent sign knowledge");
        if poss.len() == 1 {
            return poss[0];
        }
        self.stats.branches += 1;
        if std::env::var("VT_SHOW").is_ok() {
            eprintln!("branch on {}{}", self.ar.show(q), self.show_defs(q));
        }
        let pick;
        if self.pos < self.script.len() {
            let d = &self.script[self.pos];
            pick = d.alts[d.at].0;
            self.pos += 1;
            if self.pos == self.script.len() {
                let m = d.alts[d.at].1.clone();
                self.set_model(m);
            }
        } else {
            self.check_time();
            let em = if self.uni_only(q) { 7 } else { self.elim_sign(q) };
            let poss: Vec<usize> = if poss.iter().any(|i| sets[*i] & em != 0) { poss.iter().copied().filter(|i| sets[*i] & em != 0).collect() } else { poss };
            let ms = if self.model_ok { self.model_sign(q, &self.model.clone()) } else { None };
            let mut alts: Vec<(usize, Option<Model>)> = vec![];
            // alternative consistent with the current model first
            let mut order = poss.clone();
            if let Some(ms) = ms {
                order.sort_by_key(|i| if sets[*i] & ms != 0 { 0 } else { 1 });
            }
            for (k, i) in order.iter().enumerate() {
                if let Some(ms) = ms {
                    if sets[*i] & ms != 0 {
                        alts.push((*i, Some(self.model.clone())));
                        continue;
                    }
                }
                if k == order.len() - 1 && alts.is_empty() {
                    if self.model_ok && ms.is_none() {
                        // the model stays what it is: it satisfies the path, and with it this sign
                        alts.push((*i, Some(self.model.clone())));
                        continue;
                    }
                    // the only one left: feasible since the path is
                    alts.push((*i, None));
                    continue;
                }
                if let Some(m) = self.nearby(q, sets[*i] & known) {
                    self.stats.nearby += 1;
                    alts.push((*i, Some(m)));
                    continue;
                }
                let (a, m) = self.feasible(&[F::Sign(q, sets[*i] & known)], T_BRANCH);
                match a {
                    Ans::Sat(_) => alts.push((*i, m)),
                    Ans::Unsat => {}
                    Ans::Unknown => {
                        self.stats.unknown_branch += 1;
                        alts.push((*i, None))
                    }
                }
            }
            if alts.len() > 1 {
                self.stats.forks += 1;
            }
            pick = alts[0].0;
            self.set_model(alts[0].1.clone());
            self.script.push(Dec { alts, at: 0 });
            self.pos += 1;
        }
        let ns = sets[pick] & known;
        self.known.insert(q, ns);
        self.push_path(F::Sign(q, ns));
        pick
    }
    // signs p can have, from the signs of its factors and terms
    fn sign_of(&mut self, p: Pid, depth: u32) -> u8 {
        let poly = self.ar.get(p);
        if poly.terms.is_empty() {
            return ZERO;
        }
        let (c, q) = self.ar.monic(p);
        let mut r = *self.known.get(&q).unwrap_or(&7);
        if c.sign() < 0 {
            r = mirror(r);
        }
        if depth == 0 || poly.terms.len() > 40 || r.count_ones() == 1 {
            return r;
        }
        let mut sum = 0u8;
        for (m, c) in poly.terms.iter() {
            let mut s = if c.sign() < 0 { NEG } else { POS };
            let mut i = 0;
            while i < m.len() {
                let a = m[i];
                let mut k = 0;
                while i < m.len() && m[i] == a {
                    k += 1;
                    i += 1;
                }
                let t = self.sign_of_atom(a, depth - 1);
                s = sign_mul(s, if k % 2 == 1 { t } else if t & ZERO == 0 { POS } else { t & ZERO | POS });
            }
            sum = if sum == 0 { s } else { sign_add(sum, s) };
            if sum == 7 {
                break;
            }
        }
        if r & sum == 0 {
            r
        } else {
            r & sum
        }
    }
    // a model of the path in which p has one of the signs, by moving one variable of the current model
    fn nearby(&mut self, p: Pid, set: u8) -> Option<Model> {
        if !self.model_ok {
            return None;
        }
        let num = self.ar.eliminate(p, 200).ok()?;
        let mut at = vec![];
        self.ar.atoms_of(num, &mut at);
        at.retain(|a| matches!(self.ar.atoms[*a as usize], Kind::Var(_)));
        let base = self.model.clone();
        let want = F::Sign(p, set);
        for v in at.into_iter().rev().take(8) {
            let cs = self.ar.coeffs(num, v);
            if cs.len() != 2 {
                continue;
            }
            let mut memo = HashMap::new();
            let (b, a) = (self.eval(cs[0], &base, &mut memo), self.eval(cs[1], &base, &mut memo));
            let (b, a) = match (b, a) {
                (Some(b), Some(a)) if !a.is_zero() => (b, a),
                _ => continue,
            };
            let z = b.div(&a).neg();
            if z.to_string().len() > 60 {
                continue;
            }
            let mut cand = vec![];
            if set & ZERO != 0 {
                cand.push(z.clone());
            }
            if set & !ZERO != 0 {
                for d in [(1, 1), (-1, 1), (1, 16), (-1, 16)] {
                    cand.push(z.add(&Rat::frac(d.0, d.1)));
                }
            }
            for x in cand {
                let mut m = (*base).clone();
                m.insert(v, x);
                let m = Rc::new(m);
                if self.model_holds(&want, &m) == Some(true) && self.path.iter().all(|f| self.model_holds(f, &m) == Some(true)) {
                    return Some(m);
                }
            }
        }
        None
    }
    // signs p can have, from its numerator over a common denominator, factors of known sign taken out
    fn elim_sign(&mut self, p: Pid) -> u8 {
        let mut at = vec![];
        self.ar.atoms_of(p, &mut at);
        if !at.iter().any(|a| matches!(self.ar.atoms[*a as usize], Kind::Quot(..))) {
            return 7;
        }
        let mut used = vec![];
        let mut num = match self.ar.eliminate_with(p, 3000, &mut used) {
            Ok(n) => n,
            Err(_) => return 7,
        };
        let mut sign = POS;
        for (d, k) in used {
            if k % 2 == 1 {
                let mut s = self.sign_of(d, 6);
                if s & !ZERO != POS && s & !ZERO != NEG {
                    s = self.elim_sign(d);
                }
                match s & !ZERO {
                    POS => {}
                    NEG => sign = mirror(sign),
                    _ => return 7,
                }
            }
        }
        let mut facts: Vec<(Pid, u8)> = self.known.iter().filter(|(_, s)| **s == POS || **s == NEG).map(|(p, s)| (*p, *s)).collect();
        facts.retain(|(p, _)| {
            let t = &self.ar.get(*p).terms;
            t.len() > 1 && t.len() < 200
        });
        facts.sort();
        for (k, s) in facts {
            if self.ar.get(k).terms.len() > self.ar.get(num).terms.len() {
                continue;
            }
            while let Some(r) = self.ar.exact_within(num, k, 1500, 4000) {
                if s == NEG {
                    sign = mirror(sign);
                }
                num = r;
                if self.ar.get(num).terms.len() < 2 {
                    break;
                }
            }
        }
        sign_mul(sign, self.sign_of(num, 6))
    }
    fn sign_of_atom(&mut self, a: Atom, depth: u32) -> u8 {
        let ap = self.ar.atom_poly(a);
        let r = *self.known.get(&ap).unwrap_or(&7);
        if r.count_ones() == 1 || depth == 0 {
            return r;
        }
        r & match self.ar.atoms[a as usize].clone() {
            Kind::Quot(n, d) => {
                let (n, d) = (self.sign_of(n, depth - 1), self.sign_of(d, depth - 1));
                sign_mul(n, if d & !ZERO == 0 { 5 } else { d & !ZERO })
            }
            Kind::Root(p) => match self.sign_of(p, depth - 1) {
                POS => POS,
                ZERO => ZERO,
                x if x & ZERO == 0 => POS,
                _ => ZERO | POS,
            },
            _ => 7,
        }
    }
    pub fn sqrt(&mut self, p: Pid) -> Pid {
        // squares of factors of known sign come out
        let poly = self.ar.get(p);
        if poly.terms.len() == 1 {
            let (m, c) = poly.terms[0].clone();
            let (mut out, mut rest) = (self.ar.cnst(Rat::one()), vec![]);
            let mut i = 0;
            while i < m.len() {
                let a = m[i];
                if i + 1 < m.len() && m[i + 1] == a {
                    let s = self.sign_of_atom(a, 5);
                    if s & NEG == 0 || s & POS == 0 {
                        let f = self.ar.atom_poly(a);
                        let f = if s & NEG == 0 { f } else { self.ar.neg(f) };
                        out = self.ar.mul(out, f);
                        i += 2;
                        continue;
                    }
                    rest.push(a);
                    rest.push(a);
                    i += 2;
                    continue;
                }
                rest.push(a);
                i += 1;
            }
            if rest.len() < m.len() {
                let r = self.ar.monomial(&rest, c);
                let r = self.ar.sqrt(r);
                return self.ar.mul(out, r);
            }
        }
        if self.ar.as_const(p).is_none() {
            let (_, q) = self.ar.monic(p);
            if self.known.get(&q) == Some(&ZERO) {
                return self.ar.cnst(Rat::zero());
            }
        }
        self.ar.sqrt(p)
    }
    // integer part of p: forks over every feasible value
    pub fn concretize_floor(&mut self, p: Pid) -> i64 {
        if let Some(r) = self.ar.as_const(p) {
            return r.floor().to_f64() as i64;
        }
        let pick;
        if self.pos < self.script.len() {
            let d = &self.script[self.pos];
            pick = d.alts[d.at].0 as i64;
            self.pos += 1;
            if self.pos == self.script.len() {
                let m = d.alts[d.at].1.clone();
                self.set_model(m);
            }
        } else {
            self.check_time();
            let mut alts: Vec<(usize, Option<Model>)> = vec![];
            let mut excl: Vec<F> = vec![];
            let mut m = Some(self.model.clone());
            if !self.model_ok {
                m = self.feasible(&[], 8000).1;
            }
            loop {
                let v = m.as_ref().and_then(|m| self.eval(p, m, &mut HashMap::new()));
                let k = match v {
                    Some(v) => v.floor().to_f64() as i64,
                    None => panic!("VT-ENGINE: no value to round"),
                };
                alts.push((k as usize, m.clone()));
                if alts.len() > 300 {
                    panic!("VT-ENGINE: too many integer values for one input");
                }
                let (lo, hi) = self.floor_range(p, k);
                excl.push(F::Or(vec![lo.not(), hi.not()]));
                let (a, m2) = self.feasible(&excl, 4000);
                match a {
                    Ans::Unsat => break,
                    Ans::Sat(_) if m2.is_some() => m = m2,
                    _ => panic!("VT-ENGINE: cannot enumerate integer values"),
                }
            }
            alts.sort_by_key(|x| x.0 as i64);
            if alts.len() > 1 {
                self.stats.forks += 1;
            }
            pick = alts[0].0 as i64;
            self.set_model(alts[0].1.clone());
            self.script.push(Dec { alts, at: 0 });
            self.pos += 1;
        }
        let (lo, hi) = self.floor_range(p, pick);
        self.push_path(lo);
        self.push_path(hi);
        pick
    }
    fn floor_range(&mut self, p: Pid, k: i64) -> (F, F) {
        let a = self.ar.cnst(Rat::int(k as i128));
        let b = self.ar.cnst(Rat::int(k as i128 + 1));
        (F::Sign(self.ar.sub(p, a), ZERO | POS), F::Sign(self.ar.sub(p, b), NEG))
    }
    fn show_defs(&self, p: Pid) -> String {
        let mut t = String::new();
        let mut at = vec![];
        self.ar.atoms_of(p, &mut at);
        let mut i = 0;
        while i < at.len() && i < 12 {
            for p in self.ar.defs_of(at[i]) {
                self.ar.atoms_of(p, &mut at);
            }
            match self.ar.atoms[at[i] as usize].clone() {
                Kind::Quot(n, d) => t.push_str(&format!("; {} = ({})/({})", self.ar.show_atom(at[i]), self.ar.show(n), self.ar.show(d))),
                Kind::Root(n) => t.push_str(&format!("; {} = root({})", self.ar.show_atom(at[i]), self.ar.show(n))),
                _ => {}
            }
            i += 1;
        }
        t
    }
    fn set_model(&mut self, m: Option<Model>) {
        self.model_ok = m.is_some();
        if let Some(m) = m {
            self.model = m;
        }
    }
    fn push_path(&mut self, f: F) {
        let s = self.base_of_f(&f);
        self.path.push(f);
        self.path_atoms.push(s);
    }
    pub fn choose(&mut self, name: &str, n: usize) -> usize {
        assert!(n > 0);
        let pick;
        if self.pos < self.script.len() {
            let d = &self.script[self.pos];
            pick = d.alts[d.at].0;
            self.pos += 1;
            if self.pos == self.script.len() {
                let m = d.alts[d.at].1.clone();
                self.set_model(m);
            }
        } else {
            self.check_time();
            let m = if self.model_ok { Some(self.model.clone()) } else { None };
            self.script.push(Dec { alts: (0..n).map(|i| (i, m.clone())).collect(), at: 0 });
            self.pos += 1;
            pick = 0;
        }
        self.choices.push((name.to_string(), pick));
        pick
    }
    pub fn assume(&mut self, f: F) {
        match f {
            F::True => return,
            F::False => abort_path(),
            F::And(v) => {
                for x in v {
                    self.assume(x)
                }
                return;
            }
            F::Sign(p, s) => {
                if let Some(r) = self.ar.as_const(p) {
                    let b = match r.sign() { -1 => NEG, 0 => ZERO, _ => POS };
                    if b & s == 0 {
                        abort_path()
                    }
                    return;
                }
                let (c, q) = self.ar.monic(p);
                let s = if c.sign() < 0 { mirror(s) } else { s };
                let k = *self.known.get(&q).unwrap_or(&7);
                if k & s == k {
                    return;
                }
                if k & s == 0 {
                    abort_path()
                }
                self.assume_atom(F::Sign(q, k & s));
                self.known.insert(q, k & s);
            }
            f => self.assume_atom(f),
        }
    }
    fn assume_atom(&mut self, f: F) {
        if self.pos < self.script.len() {
            // replaying: known to be feasible
            let d = self.script[self.pos].clone();
            self.pos += 1;
            if self.pos == self.script.len() {
                let m = d.alts[d.at].1.clone();
                self.set_model(m);
            }
            if d.alts[d.at].0 == 0 {
                abort_path();
            }
        } else {
            self.check_time();
            if !self.model_ok || self.model_holds(&f, &self.model.clone()) != Some(true) {
                let (a, m) = self.feasible(&[f.clone()], 4000);
                match a {
                    Ans::Unsat => {
                        self.script.push(Dec { alts: vec![(0, None)], at: 0 });
                        self.pos += 1;
                        abort_path()
                    }
                    Ans::Sat(_) => self.set_model(m),
                    Ans::Unknown => {
                        self.stats.unknown_branch += 1;
                        self.model_ok = false;
                    }
                }
            }
            let m = if self.model_ok { Some(self.model.clone()) } else { None };
            self.script.push(Dec { alts: vec![(1, m)], at: 0 });
            self.pos += 1;
        }
        self.push_path(f);
    }

    // ---- proving ------------------------------------------------------------------------------
    pub fn prove(&mut self, name: &str, f: F) {
        match f {
            F::And(v) if !v.is_empty() => {
                for x in v {
                    self.prove(name, x)
                }
            }
            f => self.prove1(name, f),
        }
    }
    fn prove1(&mut self, name: &str, f: F) {
        if self.pos < self.script.len() {
            // same prefix as the previous path, where this goal was already decided
            self.goals_this_path += 1;
            return;
        }
        self.check_time();
        self.stats.proves += 1;
        self.goals_this_path += 1;
        *self.goal_names.entry(name.to_string()).or_insert(0) += 1;
        let f = self.simp(f);
        if f == F::True {
            self.stats.by_norm += 1;
            return;
        }
        let neg = f.not();
        // 1. the current model of the path may already be a counterexample
        if self.model_ok && self.model_holds(&f, &self.model.clone()) == Some(false) {
            let m = self.model.clone();
            self.violation("prove", name, &neg, m);
            return;
        }
        // 2. equalities: normal form modulo the defining equations
        let t0 = Instant::now();
        if let F::Sign(p, s) = f {
            if s == ZERO && self.vanishes(p, 500) == Some(true) {
                self.stats.by_elim += 1;
                return;
            }
        }
        for (i, to) in [600u64, 0, 8000, 0, 30000].iter().enumerate() {
            if Instant::now() > self.deadline {
                self.out_of_time = true;
                stop();
            }
            if *to == 0 {
                if i == 1 {
                    if let Some(g) = self.elim_f(&f, 4000) {
                        let g = self.simp(g);
                        if g == F::True {
                            self.stats.by_elim += 1;
                            return;
                        }
                        let (a, m) = self.feasible(&[g.not()], 3000);
                        match a {
                            Ans::Unsat => {
                                self.stats.by_solver += 1;
                                return;
                            }
                            Ans::Sat(_) => {
                                if let Some(m) = m {
                                    if self.model_holds(&f, &m) == Some(false) {
                                        self.violation("prove", name, &neg, m);
                                        return;
                                    }
                                }
                            }
                            _ => {}
                        }
                    }
                } else {
                    // second opinion
                    let (t, nl, free) = self.query_text(&[neg.clone()], self.model_ok);
                    let names: Vec<String> = free.iter().map(|a| format!("a{}", a)).collect();
                    for k in 0..2 {
                        let a = if k == 0 { self.cvc.check(&t, nl, &names, 8000) } else { self.z3o.check(&t, nl, &names, 8000) };
                        if a == Ans::Unsat {
                            self.stats.by_solver += 1;
                            return;
                        }
                        if let Ans::Sat(v) = a {
                            if let Some(m) = self.merge_model(&self.model.clone(), &free, &v) {
                                self.violation("prove", name, &neg, m);
                                return;
                            }
                        }
                    }
                }
                continue;
            }
            let (a, m) = self.feasible(&[neg.clone()], *to);
            match a {
                Ans::Unsat => {
                    self.stats.by_solver += 1;
                    return;
                }
                Ans::Sat(v) => {
                    let m = match m {
                        Some(m) => m,
                        None => {
                            // irrational model: approximate it, the replay decides
                            let (_, _, free) = self.query_text(&[neg.clone()], self.model_ok);
                            let mut m = (*self.model).clone();
                            for (a, v) in free.iter().zip(v.iter()) {
                                if let Some(r) = parse_val(v).or_else(|| approx_root(v)) {
                                    m.insert(*a, r);
                                }
                            }
                            Rc::new(m)
                        }
                    };
                    self.violation("prove", name, &neg, m);
                    return;
                }
                Ans::Unknown => {}
            }
        }
        let _ = t0;
        let d = match &f {
            F::Sign(p, s) => {
                let mut t = format!("{}: {} in {}", name, self.ar.show(*p), s);
                t = t.chars().take(600).collect();
                t.push_str(&self.show_defs(*p));
                t
            }
            f => format!("{}: {:?}", name, f).chars().take(200).collect(),
        };
        self.stats.unknown_goals.push(d);
        if self.stats.unknown_goals.len() > 20 {
            stop();
        }
    }
    // Some(true): zero whatever the variables are
    fn vanishes(&mut self, p: Pid, cap: usize) -> Option<bool> {
        let q = self.ar.reduce(p, cap).ok();
        if let Some(q) = q {
            if self.ar.get(q).terms.is_empty() {
                return Some(true);
            }
        }
        let q = self.ar.eliminate(p, cap).ok()?;
        let q = self.use_equalities(q, cap, false);
        Some(self.ar.get(q).terms.is_empty())
    }
    fn elim_f(&mut self, f: &F, cap: usize) -> Option<F> {
        match f {
            F::Sign(p, s) if *s == ZERO || *s == 5 => {
                if let Ok(q) = self.ar.reduce(*p, cap) {
                    if self.ar.get(q).terms.is_empty() {
                        return Some(F::Sign(q, *s));
                    }
                }
                let q = self.ar.eliminate(*p, cap).ok()?;
                let q = self.use_equalities(q, cap, true);
                Some(F::Sign(q, *s))
            }
            F::And(v) => Some(F::And(v.iter().map(|x| self.elim_f(x, cap).unwrap_or_else(|| x.clone())).collect())),
            F::Or(v) => Some(F::Or(v.iter().map(|x| self.elim_f(x, cap).unwrap_or_else(|| x.clone())).collect())),
            _ => None,
        }
    }
    // equations on the path, solved for a variable each and put into p (up to non-zero factors)
    fn use_equalities(&mut self, p: Pid, cap: usize, ask: bool) -> Pid {
        let mut g = p;
        if self.ar.get(g).terms.is_empty() {
            return g;
        }
        let zs: Vec<Pid> = self.path.iter().filter_map(|f| if let F::Sign(q, ZERO) = f { Some(*q) } else { None }).collect();
        let mut eqs: Vec<Pid> = vec![];
        for q in zs {
            if let Ok(e) = self.ar.eliminate(q, cap) {
                eqs.push(e);
            }
        }
        for i in 0..eqs.len() {
            let e = eqs[i];
            let mut at = vec![];
            self.ar.atoms_of(e, &mut at);
            let mut best: Option<(Atom, Pid, Pid)> = None;
            // the youngest first: right-hand sides are made after the matrices they go with
            at.sort_unstable_by(|x, y| y.cmp(x));
            for v in at {
                if !matches!(self.ar.atoms[v as usize], Kind::Var(_)) {
                    continue;
                }
                // roots of expressions in v would have to be rewritten too
                if (0..self.ar.atoms.len() as Atom).any(|a| matches!(self.ar.atoms[a as usize], Kind::Root(_)) && self.base_of(a).contains(&v)) {
                    continue;
                }
                let cs = self.ar.coeffs(e, v);
                if cs.len() != 2 {
                    continue;
                }
                let (b, a) = (cs[0], cs[1]);
                if self.ar.as_const(a).is_some() {
                    best = Some((v, a, b));
                    break;
                }
                let (_, m) = self.ar.monic(a);
                let nz = self.sign_of(m, 4) & ZERO == 0 || ask && self.feasible(&[F::Sign(m, ZERO)], 500).0 == Ans::Unsat;
                if nz {
                    best = Some((v, a, b));
                    break;
                }
            }
            if let Some((v, a, b)) = best {
                if let Ok(n) = self.ar.subst_frac(g, v, a, b, cap) {
                    g = n;
                    if self.ar.get(g).terms.is_empty() {
                        return g;
                    }
                }
                for j in (i + 1)..eqs.len() {
                    if let Ok(n) = self.ar.subst_frac(eqs[j], v, a, b, cap) {
                        eqs[j] = n;
                    }
                }
            }
        }
        g
    }
    fn simp(&mut self, f: F) -> F {
        match f {
            F::Sign(p, s) => {
                if let Some(r) = self.ar.as_const(p) {
                    let b = match r.sign() { -1 => NEG, 0 => ZERO, _ => POS };
                    return if b & s != 0 { F::True } else { F::False };
                }
                if s == 7 {
                    return F::True;
                }
                if s == 0 {
                    return F::False;
                }
                let (c, q) = self.ar.monic(p);
                let s2 = if c.sign() < 0 { mirror(s) } else { s };
                if let Some(k) = self.known.get(&q) {
                    if k & s2 == *k {
                        return F::True;
                    }
                    if k & s2 == 0 {
                        return F::False;
                    }
                }
                F::Sign(q, s2)
            }
            F::And(v) => {
                let mut r = vec![];
                for x in v {
                    match self.simp(x) {
                        F::True => {}
                        F::False => return F::False,
                        F::And(w) => r.extend(w),
                        y => r.push(y),
                    }
                }
                if r.is_empty() { F::True } else if r.len() == 1 { r.pop().unwrap() } else { F::And(r) }
            }
            F::Or(v) => {
                let mut r = vec![];
                for x in v {
                    match self.simp(x) {
                        F::False => {}
                        F::True => return F::True,
                        F::Or(w) => r.extend(w),
                        y => r.push(y),
                    }
                }
                if r.is_empty() { F::False } else if r.len() == 1 { r.pop().unwrap() } else { F::Or(r) }
            }
            f => f,
        }
    }

    // turn a model into simple input values: round one variable after the other to a multiple of
    // 1/4 (1/64) while the query stays satisfiable
    fn nice_model(&mut self, extra: &F, m: Model) -> (Vec<(String, f64)>, bool) {
        let mut fixed: Vec<F> = vec![extra.clone()];
        let vars = self.vars.clone();
        let mut cur = m;
        let base: BTreeSet<Atom> = {
            let (_, _, free) = self.query_text(&[extra.clone()], false);
            free.into_iter().collect()
        };
        let t_end = Instant::now() + Duration::from_secs(20);
        let has_trig = base.iter().any(|a| !matches!(self.ar.atoms[*a as usize], Kind::Var(_)));
        if !has_trig {
            for (_, a) in vars.iter() {
                if !base.contains(a) {
                    continue;
                }
                let v = cur.get(a).cloned().unwrap_or_else(|| self.default_val(*a));
                let mut done = false;
                for den in [1i128, 4, 64, 4096, 0] {
                    if Instant::now() > t_end {
                        break;
                    }
                    let c = if den != 0 {
                        let k = v.mul(&Rat::int(den)).add(&Rat::frac(1, 2)).floor();
                        Rat::new(k, Int::S(den))
                    } else {
                        // far from one: keep the two leading bits
                        let x = v.to_f64();
                        if x == 0.0 || !x.is_finite() {
                            break;
                        }
                        Rat::from_f64(f64::from_bits((x.to_bits() >> 51 << 51) + (1 << 51)))
                    };
                    let ap = self.ar.atom_poly(*a);
                    let cp = self.ar.cnst(c.clone());
                    let d = self.ar.sub(ap, cp);
                    let f = F::Sign(d, ZERO);
                    if c == v {
                        fixed.push(f);
                        done = true;
                        break;
                    }
                    let mut q = fixed.clone();
                    q.push(f.clone());
                    let (t, nl, free) = self.query_text(&q, false);
                    let names: Vec<String> = free.iter().map(|a| format!("a{}", a)).collect();
                    if let Ans::Sat(vals) = self.z3.check(&t, nl, &names, 1500) {
                        let mut m = (*cur).clone();
                        let mut ok = true;
                        for (a, v) in free.iter().zip(vals.iter()) {
                            match parse_val(v).or_else(|| approx_root(v)) {
                                Some(r) => {
                                    m.insert(*a, r);
                                }
                                None => ok = false,
                            }
                        }
                        if ok {
                            m.insert(*a, c);
                            cur = Rc::new(m);
                            fixed.push(f);
                            done = true;
                            break;
                        }
                    }
                }
                let _ = done;
            }
        }
        let mut out = vec![];
        let mut exact = true;
        for (n, a) in vars.iter() {
            let mut v = match cur.get(a) {
                Some(r) => r.to_f64(),
                None => self.default_val(*a).to_f64(),
            };
            // an angle only seen through its sine and cosine
            let ap = self.ar.atom_poly(*a);
            let (s, c) = (Kind::Sin(ap), Kind::Cos(ap));
            let find = |k: &Kind| self.ar.atoms.iter().position(|x| x == k);
            if let (Some(s), Some(c)) = (find(&s), find(&c)) {
                let g = |i: usize| cur.get(&(i as Atom)).cloned().unwrap_or_else(|| self.default_val(i as Atom)).to_f64();
                v = g(s).atan2(g(c));
                exact = false;
            }
            out.push((n.clone(), v));
        }
        (out, exact)
    }

    fn violation(&mut self, kind: &str, what: &str, neg: &F, m: Model) {
        if self.skip > 0 {
            self.skip -= 1;
            self.stats.unknown_goals.push(what.to_string());
            return;
        }
        let (neg, m) = self.clear_cut(neg, m);
        let (vars, exact) = self.nice_model(&neg, m);
        self.cex = Some(Cex { kind: kind.into(), what: what.into(), vars, exact, choices: self.choices.clone() });
        stop()
    }

    // a counterexample that misses the goal by a margin rather than by a hair, when there is one
    fn clear_cut(&mut self, neg: &F, m: Model) -> (F, Model) {
        for (n, d) in [(1, 1), (1, 64)] {
            let by = Rat::frac(n, d);
            let f = self.widen(neg, &by);
            if f == F::False || f == *neg {
                continue;
            }
            let (t, nl, free) = self.query_text(&[f.clone()], false);
            let names: Vec<String> = free.iter().map(|a| format!("a{}", a)).collect();
            if let Ans::Sat(v) = self.z3.check(&t, nl, &names, 3000) {
                if let Some(n) = self.merge_model(&m, &free, &v) {
                    if self.model_holds(&f, &n) == Some(true) {
                        return (f, n);
                    }
                }
            }
        }
        (neg.clone(), m)
    }
    fn widen(&mut self, f: &F, by: &Rat) -> F {
        match f {
            F::Sign(p, s) => {
                let mut or = vec![];
                let c = self.ar.cnst(by.clone());
                if s & ZERO != 0 {
                    or.push(F::Sign(*p, ZERO));
                }
                if s & POS != 0 {
                    let q = self.ar.sub(*p, c);
                    or.push(F::Sign(q, POS | ZERO));
                }
                if s & NEG != 0 {
                    let q = self.ar.add(*p, c);
                    or.push(F::Sign(q, NEG | ZERO));
                }
                if or.len() == 1 { or.pop().unwrap() } else { F::Or(or) }
            }
            F::And(v) => F::And(v.iter().map(|x| self.widen(x, by)).collect()),
            F::Or(v) => F::Or(v.iter().map(|x| self.widen(x, by)).collect()),
            f => f.clone(),
        }
    }

    pub fn path_witness(&mut self, kind: &str, what: &str) -> Cex {
        let mut m = self.model.clone();
        if !self.model_ok {
            let (t, nl, free) = self.query_text(&[], false);
            let names: Vec<String> = free.iter().map(|a| format!("a{}", a)).collect();
            if let Ans::Sat(v) = self.z3.check(&t, nl, &names, 8000) {
                let mut n = (*m).clone();
                for (a, v) in free.iter().zip(v.iter()) {
                    if let Some(r) = parse_val(v).or_else(|| approx_root(v)) {
                        n.insert(*a, r);
                    }
                }
                m = Rc::new(n);
            }
        }
        let (vars, exact) = self.nice_model(&F::True, m);
        Cex { kind: kind.into(), what: what.into(), vars, exact, choices: self.choices.clone() }
    }

    // ---- driver -------------------------------------------------------------------------------
    fn begin(&mut self) {
        self.pos = 0;
        self.path.clear();
        self.path_atoms.clear();
        self.known.clear();
        self.model = Rc::new(BTreeMap::new());
        self.model_ok = true;
        self.choices.clear();
        self.vars.clear();
        self.fresh = 0;
        self.goals_this_path = 0;
    }
    fn backtrack(&mut self) -> bool {
        // decisions beyond pos cannot exist
        self.script.truncate(self.pos);
        while let Some(d) = self.script.last_mut() {
            if d.at + 1 < d.alts.len() {
                d.at += 1;
                return true;
            }
            self.script.pop();
        }
        false
    }
}

fn sign_mul(a: u8, b: u8) -> u8 {
    let mut r = (a | b) & ZERO;
    if a & POS != 0 && b & POS != 0 || a & NEG != 0 && b & NEG != 0 {
        r |= POS
    }
    if a & POS != 0 && b & NEG != 0 || a & NEG != 0 && b & POS != 0 {
        r |= NEG
    }
    r
}
fn sign_add(a: u8, b: u8) -> u8 {
    let mut r = 0;
    for x in [NEG, ZERO, POS] {
        for y in [NEG, ZERO, POS] {
            if a & x != 0 && b & y != 0 {
                r |= if x == ZERO { y } else if y == ZERO || x == y { x } else { 7 }
            }
        }
    }
    r
}
fn mirror(s: u8) -> u8 {
    (if s & NEG != 0 { POS } else { 0 }) | (s & ZERO) | (if s & POS != 0 { NEG } else { 0 })
}

fn parse_val(s: &str) -> Option<Rat> {
    let s = s.trim();
    if let Some(r) = s.strip_prefix('(') {
        let r = r.strip_suffix(')')?.trim();
        if let Some(x) = r.strip_prefix("- ") {
            return Some(parse_val(x)?.neg());
        }
        if let Some(x) = r.strip_prefix("/ ") {
            // two operands, either may be parenthesised
            let x = x.trim();
            let cut = if x.starts_with('(') {
                let mut d = 0;
                let mut k = 0;
                for (i, c) in x.char_indices() {
                    if c == '(' {
                        d += 1
                    }
                    if c == ')' {
                        d -= 1;
                        if d == 0 {
                            k = i + 1;
                            break;
                        }
                    }
                }
                k
            } else {
                x.find(' ')?
            };
            let (a, b) = (parse_val(&x[..cut])?, parse_val(&x[cut..])?);
            if b.is_zero() {
                return None;
            }
            return Some(a.div(&b));
        }
        return None;
    }
    if s.ends_with('?') || s.is_empty() {
        return None;
    }
    if let Some((a, b)) = s.split_once('.') {
        if !a.bytes().all(|c| c.is_ascii_digit()) || !b.bytes().all(|c| c.is_ascii_digit()) {
            return None;
        }
        let mut n = Int::parse(&format!("{}{}", a, b));
        let mut d = Int::S(1);
        for _ in 0..b.len() {
            d = d.mul(&Int::S(10));
        }
        if n.is_zero() {
            n = Int::S(0);
        }
        return Some(Rat::new(n, d));
    }
    if s.bytes().all(|c| c.is_ascii_digit()) {
        return Some(Rat::new(Int::parse(s), Int::S(1)));
    }
    None
}

// (root-obj (+ (^ x 2) (- 2)) 2): k-th real root, by scanning and bisection
fn approx_root(s: &str) -> Option<Rat> {
    let t: Vec<String> = s.replace('(', " ( ").replace(')', " ) ").split_whitespace().map(|x| x.to_string()).collect();
    #[derive(Debug)]
    enum E {
        A(String),
        L(Vec<E>),
    }
    fn parse(t: &[String], i: &mut usize) -> Option<E> {
        if t.get(*i)? == "(" {
            *i += 1;
            let mut v = vec![];
            while t.get(*i)? != ")" {
                v.push(parse(t, i)?);
            }
            *i += 1;
            Some(E::L(v))
        } else {
            *i += 1;
            Some(E::A(t[*i - 1].clone()))
        }
    }
    fn ev(e: &E, x: f64) -> Option<f64> {
        match e {
            E::A(s) if s == "x" => Some(x),
            E::A(s) => s.parse().ok(),
            E::L(v) => {
                let op = match v.first()? {
                    E::A(s) => s.as_str(),
                    _ => return None,
                };
                let a: Option<Vec<f64>> = v[1..].iter().map(|y| ev(y, x)).collect();
                let a = a?;
                Some(match op {
                    "+" => a.iter().sum(),
                    "*" => a.iter().product(),
                    "-" if a.len() == 1 => -a[0],
                    "-" => a[0] - a[1..].iter().sum::<f64>(),
                    "/" => a[0] / a[1],
                    "^" => a[0].powi(a[1] as i32),
                    _ => return None,
                })
            }
        }
    }
    let mut i = 0;
    let e = parse(&t, &mut i)?;
    let v = match e {
        E::L(v) => v,
        _ => return None,
    };
    match v.first()? {
        E::A(s) if s == "root-obj" => {}
        _ => return None,
    }
    let k: usize = match v.get(2)? {
        E::A(s) => s.parse().ok()?,
        _ => return None,
    };
    let p = &v[1];
    let mut pts: Vec<f64> = vec![];
    let mut x = 1e-6;
    while x < 1e9 {
        pts.push(x);
        pts.push(-x);
        x *= 1.0009;
    }
    pts.push(0.0);
    pts.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut cnt = 0;
    for w in pts.windows(2) {
        let (a, b) = (ev(p, w[0])?, ev(p, w[1])?);
        if (a < 0.0) != (b < 0.0) {
            cnt += 1;
            if cnt == k {
                let (mut lo, mut hi) = (w[0], w[1]);
                for _ in 0..200 {
                    let m = (lo + hi) / 2.0;
                    if (ev(p, m)? < 0.0) == (a < 0.0) {
                        lo = m
                    } else {
                        hi = m
                    }
                }
                return Some(Rat::from_f64((lo + hi) / 2.0));
            }
        }
    }
    None
}

thread_local! {
    pub static EXPECT_PANIC: RefCell<u32> = RefCell::new(0);
    pub static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub struct Outcome {
    pub complete: bool,
    pub engine_error: Option<String>,
}

// explore every path of h
pub fn explore(h: &dyn Fn(), max_witness: usize) -> Outcome {
    loop {
        with(|c| c.begin());
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| h()));
        match r {
            Ok(()) => {
                with(|c| {
                    c.stats.paths += 1;
                    let g = c.goals_this_path;
                    if g > c.stats.goals_per_path_max {
                        c.stats.goals_per_path_max = g;
                    }
                    if g > 0 && c.witnesses.len() < max_witness && (c.stats.paths.is_power_of_two() || c.stats.paths % 97 == 0) {
                        let w = c.path_witness("witness", "path satisfying all goals");
                        c.witnesses.push(w);
                    }
                });
            }
            Err(e) => {
                if e.is::<Pruned>() {
                    with(|c| c.stats.pruned += 1);
                } else if e.is::<Stop>() {
                    return Outcome { complete: with(|c| c.cex.is_some()), engine_error: None };
                } else {
                    let msg = if let Some(s) = e.downcast_ref::<&str>() {
                        s.to_string()
                    } else if let Some(s) = e.downcast_ref::<String>() {
                        s.clone()
                    } else {
                        "panic".into()
                    };
                    if msg.contains("VT-ENGINE") {
                        return Outcome { complete: false, engine_error: Some(msg) };
                    }
                    let loc = LAST_PANIC.with(|l| l.borrow().clone());
                    let skipped = with(|c| {
                        c.stats.paths += 1;
                        if c.skip > 0 {
                            c.skip -= 1;
                            c.stats.unknown_goals.push(format!("{} {}", msg, loc));
                            return true;
                        }
                        let w = c.path_witness("panic", &format!("{} {}", msg, loc));
                        c.cex = Some(w);
                        false
                    });
                    if !skipped {
                        return Outcome { complete: true, engine_error: None };
                    }
                }
            }
        }
        let more = with(|c| {
            if Instant::now() > c.deadline {
                c.out_of_time = true;
            }
            if c.out_of_time || c.stats.paths + c.stats.pruned >= c.max_paths {
                None
            } else {
                Some(c.backtrack())
            }
        });
        match more {
            None => return Outcome { complete: false, engine_error: None },
            Some(false) => return Outcome { complete: true, engine_error: None },
            Some(true) => {}
        }
    }
}
