// Geometric predicates: barycentric coordinates, point in triangle, circumcircle, circumsphere, orientation.
use crate::spatial::predicates::*;
use crate::spatial::Point;
use crate::util::*;

type P2 = (f64, f64);
type P3 = (f64, f64, f64);
fn pt(p: P2) -> Point {
    p.into()
}
fn pt3(p: P3) -> Point {
    p.into()
}
fn var2(n: &str) -> P2 {
    (vt::var(&format!("{}x", n)), vt::var(&format!("{}y", n)))
}
fn area2(a: P2, b: P2, c: P2) -> f64 {
    (b.0 - a.0) * (c.1 - a.1) - (c.0 - a.0) * (b.1 - a.1)
}
fn d2(a: P2, b: P2) -> f64 {
    (a.0 - b.0) * (a.0 - b.0) + (a.1 - b.1) * (a.1 - b.1)
}

// every triangle, every point
fn barycentric(_: usize) {
    let (a, b, c, p) = (var2("a"), var2("b"), var2("c"), var2("p"));
    vt::assume(vt::ne(area2(a, b, c), 0.0));
    let (u, v, w) = bary_coor(pt(p), (pt(a), pt(b), pt(c)));
    vt::prove("weights sum to one", vt::eq(u + v + w, 1.0));
    vt::prove("weights give the point back: x", vt::eq(u * a.0 + v * b.0 + w * c.0, p.0));
    vt::prove("weights give the point back: y", vt::eq(u * a.1 + v * b.1 + w * c.1, p.1));
}

// the point is given by its weights, so that which side it lies on is explicit
fn in_tri(o: usize) {
    let (a, b, c) = (var2("a"), var2("b"), var2("c"));
    let s = area2(a, b, c);
    vt::assume(if o == 0 { vt::gt(s, 0.0) } else { vt::lt(s, 0.0) });
    let (u, v) = (vt::var("u"), vt::var("v"));
    let w = 1.0 - u - v;
    let p = (u * a.0 + v * b.0 + w * c.0, u * a.1 + v * b.1 + w * c.1);
    let inside = in_triangle(pt(p), (pt(a), pt(b), pt(c)));
    let all = vt::all(vec![vt::ge(u, 0.0), vt::ge(v, 0.0), vt::ge(w, 0.0)]);
    if inside {
        vt::prove("a point reported inside is a convex combination of the corners", all);
    } else {
        vt::prove("a point reported outside is not", vt::any(vec![vt::lt(u, 0.0), vt::lt(v, 0.0), vt::lt(w, 0.0)]));
    }
}

// the circumcentre of any triangle
fn centre(_: usize) {
    let (a, b, c) = (var2("a"), var2("b"), var2("c"));
    let s = area2(a, b, c);
    match circumcenter((pt(a), pt(b), pt(c))) {
        Some(q) => {
            vt::check("a point of the plane", q.dim() == 2);
            let q = (q[0], q[1]);
            vt::prove("only for a triangle", vt::ne(s, 0.0));
            vt::prove("equally far from the first two corners", vt::eq(d2(q, a), d2(q, b)));
            vt::prove("equally far from the last two corners", vt::eq(d2(q, b), d2(q, c)));
        }
        None => vt::prove("refused only when the corners are in line", vt::eq(s, 0.0)),
    }
}

// counterclockwise triangles; one of the corners or the point itself moves freely
const TRI: [[P2; 3]; 6] = [
    [(0.0, 0.0), (2.0, 0.0), (0.0, 1.0)],
    [(0.0, 0.0), (1.0, 0.0), (0.5, 2.0)],
    [(-1.0, -2.0), (3.0, -1.0), (0.0, 0.0)],
    [(1.0, 1.0), (1.0, 3.0), (-2.0, 2.0)],
    [(0.0, 1.0), (0.0, 0.0), (4.0, 0.0)],
    [(-3.0, 5.0), (-2.0, 1.0), (2.0, 6.0)],
];
// textbook: the lifted determinant, expanded about the point
fn circle_det(t: &[P2; 3], p: P2) -> f64 {
    let r: M = t
        .iter()
        .map(|q| {
            let (x, y) = (q.0 - p.0, q.1 - p.1);
            vec![x, y, x * x + y * y]
        })
        .collect();
    det(&r)
}
// anywhere (only some combinations are decided quickly), or anywhere on a line
fn free2(line: Option<usize>) -> P2 {
    match line {
        None => var2("q"),
        Some(k) => {
            let (b, d) = [((0.5, 0.25), (1.0, 0.0)), ((0.25, 0.5), (0.0, 1.0)), ((1.0, -1.0), (1.0, 2.0)), ((-2.0, 1.5), (3.0, -1.0)), ((0.0, 0.0), (1.0, 1.0))][k];
            let s = vt::var("s");
            vt::assume(vt::le(s, 30.0).and(vt::ge(s, -30.0)));
            (b.0 + s * d.0, b.1 + s * d.1)
        }
    }
}
fn circle_plane(c: usize) {
    if vt::thorough() {
        circle(c % 6, c / 6, None)
    } else {
        let (t, w) = [(0, 0), (1, 0), (2, 0), (4, 0), (0, 1), (2, 1), (4, 1)][c];
        circle(t, w, None)
    }
}
fn circle_line(c: usize) {
    circle(c % 6, c / 6, Some(vt::choose("line", 5)))
}
fn circle(tri: usize, which: usize, line: Option<usize>) {
    let mut t = TRI[tri];
    let q = free2(line);
    vt::assume(vt::all(vec![vt::le(q.0, 100.0), vt::ge(q.0, -100.0), vt::le(q.1, 100.0), vt::ge(q.1, -100.0)]));
    let mut p = (0.75, 0.25);
    if which == 0 {
        p = q;
    } else {
        t[which - 1] = q;
        vt::assume(vt::gt(area2(t[0], t[1], t[2]), 0.0));
    }
    let want = circle_det(&t, p);
    // results within rounding distance of the circle are not judged
    vt::assume(vt::ge(want, 1e-6).or(vt::le(want, -1e-6)).or(vt::eq(want, 0.0)));
    let got = in_circle(pt(p), (pt(t[0]), pt(t[1]), pt(t[2])));
    if got {
        vt::prove("a point reported in the circumcircle lies strictly inside", vt::gt(want, 0.0));
    } else {
        vt::prove("a point reported outside does not", vt::le(want, 0.0));
    }
    if which == 0 {
        // the same through the circumcentre
        let o = circumcenter((pt(t[0]), pt(t[1]), pt(t[2]))).unwrap();
        let o = (o[0], o[1]);
        let (r, s) = (d2(o, t[0]), d2(o, p));
        vt::prove("agrees with the distance to the circumcentre", if got { vt::lt(s, r) } else { vt::ge(s, r) });
    }
}

const TET: [[P3; 4]; 4] = [
    [(0.0, 0.0, 0.0), (1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0)],
    [(1.0, 2.0, 0.0), (3.0, 1.0, 1.0), (0.0, -1.0, 2.0), (2.0, 2.0, 4.0)],
    [(-1.0, 0.0, 1.0), (0.0, 2.0, 0.0), (2.0, 1.0, -1.0), (1.0, -2.0, 3.0)],
    [(0.0, 0.0, 2.0), (0.0, 1.0, 0.0), (3.0, 0.0, 0.0), (1.0, 1.0, 5.0)],
];
fn volume6(t: &[P3]) -> f64 {
    let r = |q: P3| vec![q.0 - t[0].0, q.1 - t[0].1, q.2 - t[0].2];
    det(&vec![r(t[1]), r(t[2]), r(t[3])])
}
fn var3(n: &str) -> P3 {
    let p = (vt::var(&format!("{}x", n)), vt::var(&format!("{}y", n)), vt::var(&format!("{}z", n)));
    for x in [p.0, p.1, p.2].iter() {
        vt::assume(vt::le(*x, 100.0).and(vt::ge(*x, -100.0)));
    }
    p
}
fn free3(line: bool) -> P3 {
    if !line {
        return var3("q");
    }
    let (b, d) = [
        ((0.25, 0.25, 0.125), (1.0, 0.0, 0.0)),
        ((0.25, 0.125, 0.25), (0.0, 1.0, 0.0)),
        ((0.125, 0.25, 0.25), (0.0, 0.0, 1.0)),
        ((1.0, 0.5, 1.5), (1.0, 1.0, 1.0)),
        ((0.0, 1.0, 2.0), (2.0, -1.0, 1.0)),
        ((0.5, 0.5, -0.5), (-1.0, 1.0, 3.0)),
    ][vt::choose("line", 6)];
    let s = vt::var("s");
    vt::assume(vt::le(s, 30.0).and(vt::ge(s, -30.0)));
    (b.0 + s * d.0, b.1 + s * d.1, b.2 + s * d.2)
}
fn tetra_line(c: usize) {
    tetra(c % 4, c / 4, true)
}
fn tetra_space(c: usize) {
    let (t, w) = [(0, 0), (0, 1), (0, 2), (0, 3), (3, 0), (3, 1), (3, 2), (3, 3), (1, 0), (1, 1), (1, 2), (1, 3), (2, 0), (2, 1), (2, 2), (2, 3)][c];
    tetra(t, w, false)
}
fn tetra(tet: usize, which: usize, line: bool) {
    let mut t = TET[tet];
    t[which] = free3(line);
    let v = volume6(&t);
    vt::assume(vt::ge(v, 1e-6).or(vt::le(v, -1e-6)).or(vt::eq(v, 0.0)));
    let g = tetrahedron_dir((pt3(t[0]), pt3(t[1]), pt3(t[2]), pt3(t[3])));
    // orientation of (a, b, c, d): the determinant of the rows (x y z 1) is -det(b-a, c-a, d-a)
    match g {
        Orient::Zero => vt::prove("flat", vt::eq(v, 0.0)),
        Orient::Positive => vt::prove("positive", vt::lt(v, 0.0)),
        Orient::Negative => vt::prove("negative", vt::gt(v, 0.0)),
    }
}

fn sphere_det(t: &[P3; 4], p: P3) -> f64 {
    let r: M = t
        .iter()
        .map(|q| {
            let (x, y, z) = (q.0 - p.0, q.1 - p.1, q.2 - p.2);
            vec![x, y, z, x * x + y * y + z * z]
        })
        .collect();
    det(&r)
}
fn sphere_line(c: usize) {
    sphere(c, true)
}
fn sphere_space(c: usize) {
    sphere(c, false)
}
fn sphere(c: usize, line: bool) {
    // oriented so that the lifted determinant is positive inside
    let mut t = TET[c % 4];
    if volume6(&t) > 0.0 {
        t.swap(0, 1);
    }
    let p = free3(line);
    let want = sphere_det(&t, p);
    vt::assume(vt::ge(want, 1e-6).or(vt::le(want, -1e-6)).or(vt::eq(want, 0.0)));
    let got = in_sphere(pt3(p), (pt3(t[0]), pt3(t[1]), pt3(t[2]), pt3(t[3])));
    if got {
        vt::prove("a point reported in the circumsphere lies strictly inside", vt::gt(want, 0.0));
    } else {
        vt::prove("a point reported outside does not", vt::le(want, 0.0));
    }
}

pub fn list() -> Vec<vt::Harness> {
    vec![
        ("barycentric", 1, barycentric),
        ("in_tri", 2, in_tri),
        ("centre", 1, centre),
        ("circle_plane", tier(7, 24), circle_plane),
        ("circle_line", 24, circle_line),
        ("tetra_line", 16, tetra_line),
        ("tetra_space", tier(1, 16), tetra_space),
        ("sphere_line", 4, sphere_line),
        ("sphere_space", tier(0, 4), sphere_space),
    ]
}
