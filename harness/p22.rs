// Points: vector algebra, distances and conversions in one, two and three dimensions.
use crate::spatial::Point;
use crate::util::*;
use std::convert::{TryFrom, TryInto};

fn point(pre: &str, n: usize) -> (Vec<f64>, Point) {
    let v = vt::vars(pre, n);
    let p = Point::new(&v);
    (v, p)
}
fn coords(p: &Point) -> Vec<f64> {
    (0..p.dim()).map(|i| p[i]).collect()
}
fn sq(v: &[f64]) -> f64 {
    v.iter().fold(0.0, |s, x| s + *x * *x)
}

fn algebra(c: usize) {
    let n = c + 1;
    let ((a, p), (b, q)) = (point("a", n), point("b", n));
    let k = vt::var("k");
    vt::check("dimension", p.dim() == n && p.to_vec().len() == n);
    prove_vec("coordinates", &coords(&p), &a);
    prove_vec("to_vec", &p.to_vec(), &a);
    prove_vec("sum", &coords(&(p + q)), &(0..n).map(|i| a[i] + b[i]).collect::<Vec<f64>>());
    prove_vec("difference", &coords(&(p - q)), &(0..n).map(|i| a[i] - b[i]).collect::<Vec<f64>>());
    prove_vec("multiple", &coords(&(p * k)), &(0..n).map(|i| a[i] * k).collect::<Vec<f64>>());
    prove_vec("midpoint", &coords(&p.mid(q)), &(0..n).map(|i| (a[i] + b[i]) / 2.0).collect::<Vec<f64>>());
    vt::prove("scalar product", vt::eq(p.dot(q), (0..n).fold(0.0, |s, i| s + a[i] * b[i])));
    let d = p.dist(q);
    let diff: Vec<f64> = (0..n).map(|i| a[i] - b[i]).collect();
    vt::prove("distance squared", vt::eq(d * d, sq(&diff)));
    vt::prove("distance is not negative", vt::ge(d, 0.0));
    vt::prove("distance is symmetric", vt::eq(q.dist(p), d));
    let r = p.norm();
    vt::prove("length squared", vt::eq(r * r, sq(&a)));
    vt::prove("length is not negative", vt::ge(r, 0.0));
    vt::prove("length is the distance from the origin", vt::eq(r, p.dist(Point::zero(n))));
    let mut z = p;
    let i = vt::choose("i", n);
    z[i] = k;
    for j in 0..n {
        vt::prove("only the coordinate written changes", vt::eq(z[j], if i == j { k } else { a[j] }));
        vt::prove("a copy is independent", vt::eq(p[j], a[j]));
    }
}

fn equality(c: usize) {
    let n = c + 1;
    let ((a, p), (b, q)) = (point("a", n), point("b", n));
    if p == q {
        prove_vec("equal points have equal coordinates", &a, &b);
    }
    let r = Point::new(&a);
    vt::check("equal coordinates make equal points", p == r);
}

fn combination(c: usize) {
    // hidden coordinates stay zero: a sum or multiple is still a point of its dimension
    let n = c + 1;
    let ((_, p), (_, q)) = (point("a", n), point("b", n));
    let s = (p + q) * vt::var("k");
    let r = s.norm();
    vt::prove("length of a combination", vt::eq(r * r, sq(&coords(&s))));
    let s = p - q;
    let r = s.norm();
    vt::prove("length of a difference", vt::eq(r * r, sq(&coords(&s))));
}

fn unit(c: usize) {
    let n = c + 1;
    let (a, p) = point("a", n);
    vt::assume(vt::gt(sq(&a), 0.0));
    let u = p.unit();
    vt::check("dimension of the direction", u.dim() == n);
    let v = coords(&u);
    let r = p.norm();
    for i in 0..n {
        vt::prove("the direction times the length is the point", vt::eq(v[i] * r, a[i]));
    }
    vt::prove("the direction has length one", vt::eq(sq(&v), 1.0));
}

fn triangle_inequality(c: usize) {
    // on a line, and against the axes: |a + b| <= |a| + |b|
    let n = c + 1;
    let ((a, p), (b, q)) = (point("a", n), point("b", n));
    if n == 1 {
        vt::prove("no detour is shorter", vt::le((p + q).norm(), p.norm() + q.norm()));
    }
    let d = p.dot(q);
    vt::prove("scalar product bounded by the lengths", vt::le(d * d, sq(&a) * sq(&b)));
}

fn conversions(c: usize) {
    let n = c + 1;
    let (a, p) = point("a", n);
    let one: Result<f64, _> = p.try_into();
    let two: Result<(f64, f64), _> = p.try_into();
    let three: Result<(f64, f64, f64), _> = p.try_into();
    vt::check("converts exactly to its own dimension", one.is_ok() == (n == 1) && two.is_ok() == (n == 2) && three.is_ok() == (n == 3));
    let q: Point = match n {
        1 => {
            let x = one.unwrap();
            vt::prove("number", vt::eq(x, a[0]));
            x.into()
        }
        2 => {
            let x = two.unwrap();
            prove_vec("pair", &[x.0, x.1], &a);
            x.into()
        }
        _ => {
            let x = three.unwrap();
            prove_vec("triple", &[x.0, x.1, x.2], &a);
            x.into()
        }
    };
    vt::check("same dimension back", q.dim() == n && q == p);
    prove_vec("same coordinates back", &coords(&q), &a);
    let v: Vec<f64> = p.into();
    prove_vec("vector", &v, &a);
    let q = Point::try_from(v).unwrap();
    vt::check("from a vector", q == p && q.dim() == n);
    vt::check("no point from nothing or from four numbers", Point::try_from(vec![]).is_err() && Point::try_from(vt::vars("v", 4)).is_err());
    let z = Point::zero(n);
    vt::check("zero", z.dim() == n);
    prove_vec("zero", &coords(&z), &vec![0.0; n]);
    let (x, y) = (vt::choose("x", 4) as u32, vt::choose("y", 4) as u32 * 1000);
    let q: Point = (x, y).into();
    vt::check("pixels", q.dim() == 2);
    prove_vec("pixels", &coords(&q), &[x as f64, y as f64]);
}

fn refusals(c: usize) {
    let (n, m) = (1 + c / 3, 1 + c % 3);
    let ((_, p), (_, q)) = (point("a", n), point("b", m));
    vt::check("sums need equal dimensions", vt::catches(move || p + q).is_some() == (n == m));
    vt::check("differences need equal dimensions", vt::catches(move || p - q).is_some() == (n == m));
    vt::check("distances need equal dimensions", vt::catches(move || p.dist(q)).is_some() == (n == m));
    let i = vt::choose("i", 5);
    vt::check("only existing coordinates are read", vt::catches(move || p[i]).is_some() == (i < n));
    vt::check("only existing coordinates are written", vt::catches(move || { let mut p = p; p[i] = 1.0; p }).is_some() == (i < n));
    let v = vt::vars("v", 4);
    vt::check("at most three dimensions", vt::catches(move || Point::new(&v)).is_none());
    if n != m {
        vt::check("points of different dimension differ", p != q);
    }
}

pub fn list() -> Vec<vt::Harness> {
    vec![("algebra", 3, algebra), ("equality", 3, equality), ("combination", 3, combination), ("unit", 3, unit), ("triangle_inequality", 3, triangle_inequality), ("conversions", 3, conversions), ("refusals", 9, refusals)]
}
