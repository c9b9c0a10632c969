// helpers shared by the harnesses (an oracle side: plain textbook definitions, no code of the repository)
use vt::B;

pub type M = Vec<Vec<f64>>;

pub fn list() -> Vec<vt::Harness> {
    vec![]
}

pub fn sym_mat(pre: &str, r: usize, c: usize) -> M {
    (0..r).map(|i| (0..c).map(|j| vt::var(&format!("{}{}_{}", pre, i, j))).collect()).collect()
}

// symmetric matrix; keep(i, j) (i > j) tells which off-diagonal entries may be non-zero
pub fn sym_symmetric(pre: &str, n: usize, keep: &dyn Fn(usize, usize) -> bool) -> M {
    let mut m = vec![vec![0.0; n]; n];
    for i in 0..n {
        for j in 0..(i + 1) {
            if i == j || keep(i, j) {
                let x = vt::var(&format!("{}{}_{}", pre, i, j));
                m[i][j] = x;
                m[j][i] = x;
            }
        }
    }
    m
}

// pattern number -> which of the pairs i > j are present
pub fn bit(pattern: usize, i: usize, j: usize) -> bool {
    pattern >> (i * (i - 1) / 2 + j) & 1 == 1
}

pub fn pairs(n: usize) -> usize {
    n * (n - 1) / 2
}

// all patterns of n(n-1)/2 off-diagonal pairs up to relabelling of nodes is not attempted: every one
pub fn patterns(n: usize) -> usize {
    1 << pairs(n)
}

pub fn sub(m: &M, rows: &[usize], cols: &[usize]) -> M {
    rows.iter().map(|&r| cols.iter().map(|&c| m[r][c]).collect()).collect()
}

// Laplace expansion
pub fn det(m: &M) -> f64 {
    let n = m.len();
    if n == 0 {
        return 1.0;
    }
    if n == 1 {
        return m[0][0];
    }
    let mut s = 0.0;
    let rows: Vec<usize> = (1..n).collect();
    for c in 0..n {
        let cols: Vec<usize> = (0..n).filter(|&x| x != c).collect();
        let t = m[0][c] * det(&sub(m, &rows, &cols));
        if c % 2 == 0 {
            s = s + t
        } else {
            s = s - t
        }
    }
    s
}

pub fn principal(m: &M, set: usize) -> f64 {
    let idx: Vec<usize> = (0..m.len()).filter(|i| set >> i & 1 == 1).collect();
    det(&sub(m, &idx, &idx))
}

// symmetric positive definite: every principal minor is positive (equivalent to the leading ones)
pub fn assume_spd(m: &M) {
    let n = m.len();
    let mut sets: Vec<usize> = (1..(1usize << n)).collect();
    sets.sort_by_key(|s| s.count_ones());
    for s in sets {
        vt::assume(vt::gt(principal(m, s), 0.0));
    }
}

pub fn mat_vec(m: &M, x: &[f64]) -> Vec<f64> {
    m.iter().map(|r| r.iter().zip(x.iter()).fold(0.0, |s, (a, b)| s + *a * *b)).collect()
}

pub fn mat_mul(a: &M, b: &M) -> M {
    let (n, k, m) = (a.len(), b.len(), if b.is_empty() { 0 } else { b[0].len() });
    (0..n).map(|i| (0..m).map(|j| (0..k).fold(0.0, |s, t| s + a[i][t] * b[t][j])).collect()).collect()
}

pub fn transpose(a: &M) -> M {
    if a.is_empty() {
        return vec![];
    }
    (0..a[0].len()).map(|j| (0..a.len()).map(|i| a[i][j]).collect()).collect()
}

pub fn vec_eq(a: &[f64], b: &[f64]) -> B {
    if a.len() != b.len() {
        return vt::truth(false);
    }
    vt::all(a.iter().zip(b.iter()).map(|(x, y)| vt::eq(*x, *y)))
}

pub fn prove_vec(name: &str, a: &[f64], b: &[f64]) {
    vt::check(&format!("{}: length", name), a.len() == b.len());
    for i in 0..a.len() {
        vt::prove(&format!("{} [{}]", name, i), vt::eq(a[i], b[i]));
    }
}

pub fn prove_mat(name: &str, a: &M, b: &M) {
    vt::check(&format!("{}: shape", name), a.len() == b.len());
    for i in 0..a.len() {
        prove_vec(&format!("{} row {}", name, i), &a[i], &b[i]);
    }
}

// a permutation of 0..n chosen by Lehmer code
pub fn choose_perm(name: &str, n: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut p = vec![];
    while !left.is_empty() {
        let k = if left.len() == 1 { 0 } else { vt::choose(&format!("{}{}", name, p.len()), left.len()) };
        p.push(left.remove(k));
    }
    p
}

pub fn perm_by_index(n: usize, mut k: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut p = vec![];
    for i in (1..(n + 1)).rev() {
        let j = k % i;
        k /= i;
        p.push(left.remove(j));
    }
    p
}

pub fn factorial(n: usize) -> usize {
    (1..(n + 1)).product()
}

pub fn tier(quick: usize, thorough: usize) -> usize {
    if vt::thorough() {
        thorough
    } else {
        quick
    }
}

// fixed pseudo-random choices, for structures too large to take every one of
pub struct Dice(u64);
impl Dice {
    pub fn new(seed: usize) -> Dice {
        let mut d = Dice(seed as u64 * 7919 + 12345);
        for _ in 0..5 {
            d.next(2);
        }
        d
    }
    pub fn next(&mut self, n: usize) -> usize {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((self.0 >> 33) as usize) % n
    }
    // a small non-zero number
    pub fn num(&mut self) -> f64 {
        [1.0, -1.0, 2.0, -2.0, 0.5, 3.0, -3.0, 1.5, -0.25, 4.0][self.next(10)]
    }
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut left: Vec<usize> = (0..n).collect();
        (0..n).map(|_| { let k = self.next(left.len()); left.remove(k) }).collect()
    }
}

// well-conditioned matrices in which elimination that does not choose its pivots by size loses everything:
// large entries in shuffled rows, next to nothing elsewhere on the way
pub fn touchy(c: usize) -> M {
    vt::rounded(|| {
        let mut d = Dice::new(c + 31);
        let tiny = [0.0, 0.00000000000000000001, -0.0000000000000000001, 0.000000000000000003];
        match c {
            0 => vec![vec![tiny[1], 1.0], vec![1.0, 1.0]],
            1 => vec![vec![tiny[2], 2.0], vec![-1.0, 1.0]],
            2 => vec![vec![1.0, 1.0, 1.0], vec![1.0, 1.0 + 0.00000000000000088817841970012523, 2.0], vec![1.0, 2.0, 2.0]],
            3 => vec![vec![2.0, 1.0, 3.0], vec![1.0, 0.5 + 0.00000000000000044408920985006262, 2.0], vec![-1.0, 3.0, 1.0]],
            4 => vec![vec![tiny[1], tiny[3], 1.0], vec![tiny[2], 1.0, 1.0], vec![1.0, 1.0, 1.0]],
            _ => {
                let n = 3 + c % 4;
                let p = d.perm(n);
                (0..n)
                    .map(|i| (0..n).map(|j| if p[i] == j { 4.0 * d.num() } else if d.next(3) == 0 { 0.125 * d.num() } else { tiny[d.next(4)] }).collect())
                    .collect()
            }
        }
    })
}
// equal as far as rounding goes, for every v in [-1, 1]
pub fn prove_near(name: &str, a: &[f64], b: &[f64], v: &[f64], tol: f64) {
    for x in v {
        vt::assume(vt::le(*x, 1.0).and(vt::ge(*x, -1.0)));
    }
    vt::check(name, a.len() == b.len());
    for (x, y) in a.iter().zip(b.iter()) {
        let d = *x - *y;
        vt::prove(name, vt::le(d, tol).and(vt::ge(d, -tol)));
    }
}
