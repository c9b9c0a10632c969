// Quadrature: the rules integrate every polynomial of their degree over any segment and over the unit triangle.
use crate::element::integrate::{gauss_segment_mat, gauss_tri, GAUSS_TRI_SAMPLES};
use crate::matrix::*;
use crate::spatial::Point;
use crate::util::*;

fn coefs(pre: &str, n: usize) -> Vec<f64> {
    let c = vt::vars(pre, n);
    for x in c.iter() {
        vt::assume(vt::le(*x, 1.0).and(vt::ge(*x, -1.0)));
    }
    c
}
fn pow(x: f64, k: usize) -> f64 {
    (0..k).fold(1.0, |s, _| s * x)
}
fn poly(c: &[f64], x: f64) -> f64 {
    (0..c.len()).fold(0.0, |s, k| s + c[k] * pow(x, k))
}
// the abscissae and weights are written to some fifteen digits
fn near(tag: &str, a: f64, b: f64, tol: f64) {
    vt::prove(tag, vt::le(a - b, tol).and(vt::ge(a - b, -tol)));
}

// segments with rational lengths: axis-parallel, inclined, in either direction, off the origin
const SEGS: [((f64, f64), (f64, f64), f64); 6] = [
    ((-1.0, 0.0), (1.0, 0.0), 2.0),
    ((0.0, 0.0), (1.0, 0.0), 1.0),
    ((1.0, 0.0), (0.0, 0.0), 1.0),
    ((0.0, 1.0), (0.0, 0.0), 1.0),
    ((0.0, 0.0), (3.0, 4.0), 5.0),
    ((2.0, -0.5), (-0.25, 2.5), 3.75),
];

// orders one to four: exact to degree 2n - 1 in the position along the segment, entry by entry
fn segment(c: usize) {
    let (order, (a, b, len)) = (c / SEGS.len() + 1, SEGS[c % SEGS.len()]);
    let (p, q) = (coefs("p", 2 * order), coefs("q", 2 * order));
    // position along the segment, 0 at a and 1 at b
    let along = |pt: Point| ((pt[0] - a.0) * (b.0 - a.0) + (pt[1] - a.1) * (b.1 - a.1)) / (len * len);
    let (p2, q2) = (p.clone(), q.clone());
    let m = gauss_segment_mat(move |pt| LinearMatrix::from_flat((1, 2), vec![poly(&p2, along(pt)), poly(&q2, along(pt))]), Point::new(&[a.0, a.1]), Point::new(&[b.0, b.1]), order);
    vt::check("segment: shape of the integrand", m.shape() == (1, 2));
    for (j, k) in [p, q].iter().enumerate() {
        let want = (0..k.len()).fold(0.0, |s, i| s + k[i] / (i as f64 + 1.0)) * len;
        near("segment: polynomial of degree 2n - 1", m[(0, j)], want, 1e-12);
    }
}

// a segment anywhere, a linear integrand, the orders whose constants are symmetric to the last digit
fn anywhere(c: usize) {
    let order = c + 1;
    let (ax, ay, bx, by) = (vt::var("ax"), vt::var("ay"), vt::var("bx"), vt::var("by"));
    let k = vt::vars("k", 3);
    let (k0, k1, k2) = (k[0], k[1], k[2]);
    for x in [ax, ay, bx, by, k0, k1, k2].iter() {
        vt::assume(vt::le(*x, 10.0).and(vt::ge(*x, -10.0)));
    }
    let m = gauss_segment_mat(move |pt| LinearMatrix::from_flat((1, 1), vec![k0 + k1 * pt[0] + k2 * pt[1]]), Point::new(&[ax, ay]), Point::new(&[bx, by]), order);
    let l = ((ax - bx) * (ax - bx) + (ay - by) * (ay - by)).sqrt();
    let mid = k0 + k1 * (ax + bx) / 2.0 + k2 * (ay + by) / 2.0;
    vt::prove("linear integrand anywhere", vt::eq(m[(0, 0)], mid * l));
}

fn none(_: usize) {
    let f = |_: Point| LinearMatrix::from_flat((1, 1), vec![1.0]);
    for bad in [0, 5, 6].iter() {
        let r = vt::catches(move || gauss_segment_mat(f, Point::new(&[0.0, 0.0]), Point::new(&[1.0, 0.0]), *bad));
        vt::check("an order without a rule is refused", r.is_none());
    }
}

// every quadratic over the unit triangle
fn triangle(_: usize) {
    let c = coefs("c", 6);
    let d = c.clone();
    let f = move |x: f64, y: f64| d[0] + d[1] * x + d[2] * y + d[3] * x * x + d[4] * x * y + d[5] * y * y;
    let g = f.clone();
    let v: f64 = gauss_tri(|p: Point| f(p[0], p[1]));
    let want = c[0] / 2.0 + (c[1] + c[2]) / 6.0 + (c[3] + c[5]) / 12.0 + c[4] / 24.0;
    near("triangle: quadratic", v, want, 1e-13);
    let m: LinearMatrix = gauss_tri(|p: Point| LinearMatrix::from_flat((1, 2), vec![g(p[0], p[1]), p[0]]));
    near("triangle: quadratic in a matrix", m[(0, 0)], want, 1e-13);
    near("triangle: second entry", m[(0, 1)], 1.0 / 6.0, 1e-13);
    vt::check("triangle: the sample points lie inside", GAUSS_TRI_SAMPLES.iter().all(|p| p.0 > 0.0 && p.1 > 0.0 && p.0 + p.1 < 1.0));
}

pub fn list() -> Vec<vt::Harness> {
    vec![("segment", 4 * SEGS.len(), segment), ("anywhere", 2, anywhere), ("none", 1, none), ("triangle", 1, triangle)]
}
