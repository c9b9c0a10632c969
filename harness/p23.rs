// Pictures: every node's dot is where the node is, to one scale, centred and upright.
use crate::matrix::{LinearMatrix, MatrixLike};
use crate::pix::*;
use crate::spatial::Point;
use crate::util::*;
use crate::visual::{VisOptions, Visualizer};

// draws the points one colour each, the chosen one last, and looks for its dot
fn drawn(pts: Vec<Point>, want: &[(f64, f64)], size: usize, lasts: usize) {
    let n = pts.len();
    let last = if lasts > 1 { vt::choose("last", lasts) } else { 0 };
    let order: Vec<usize> = (0..n).filter(|i| *i != last).chain(std::iter::once(last)).collect();
    let mut v: Visualizer = vec![pts[order[0]]].into();
    for i in 1..n {
        v.add_points(vec![pts[order[i]]], if i == n - 1 { 3 } else { i % 3 });
    }
    let img = picture(&mut v, VisOptions::new().im_size(size as u32));
    vt::check("the picture has the size asked for", img.dimensions() == (size as u32, size as u32));
    match dot(&img, DOTS[if n == 1 { 0 } else { 3 }]) {
        None => vt::check("the node shows as one dot", false),
        Some(p) => near("the node's dot", p, want[last]),
    }
}

fn span(t: f64) -> f64 {
    vt::assume(vt::ge(t, -50.0).and(vt::le(t, 50.0)));
    t
}

// two or three points on a line
fn one_d(c: usize) {
    let n = 1 + c;
    let xs: Vec<f64> = vt::vars("x", n);
    for x in xs.iter() {
        span(*x);
    }
    if n > 2 {
        vt::assume(vt::eq(xs[0], 0.0));
        vt::assume(vt::eq(xs[1], 1.0));
    }
    let q: Vec<(f64, f64)> = xs.iter().map(|x| (*x, 0.0)).collect();
    drawn(xs.iter().map(|x| Point::new(&[*x])).collect(), &ideal(&q, 16), 16, n);
}

// two points anywhere
fn two_points(_: usize) {
    let q: Vec<(f64, f64)> = (0..2).map(|i| (vt::var(&format!("x{}", i)), vt::var(&format!("y{}", i)))).collect();
    for p in q.iter() {
        span(p.0);
        span(p.1);
    }
    drawn(place(&q), &ideal(&q, 16), 16, 2);
}

const FRAMES: [[(f64, f64); 3]; 4] = [
    [(0.0, 0.0), (4.0, 0.0), (0.0, 3.0)],
    [(-1.0, -5.0), (1.0, 7.0), (2.0, 0.0)],
    [(3.0, 3.0), (3.0, 3.0), (10.0, 4.0)],
    [(0.0, 0.0), (0.001, 0.002), (0.002, 0.0)],
];
// a point anywhere among fixed ones: inside their frame, then stretching it along each axis
fn free_point(c: usize) {
    let f = &FRAMES[c / 2];
    let (x0, x1) = f.iter().fold((f[0].0, f[0].0), |a, p| (a.0.min(p.0), a.1.max(p.0)));
    let (y0, y1) = f.iter().fold((f[0].1, f[0].1), |a, p| (a.0.min(p.1), a.1.max(p.1)));
    let (x, y) = (vt::var("x"), vt::var("y"));
    if c % 2 == 0 {
        vt::assume(vt::ge(x, x0).and(vt::le(x, x1)));
        vt::assume(vt::ge(y, y0).and(vt::le(y, y1)));
    } else {
        // along a slanted line that leaves the frame on both sides
        let t = span(vt::var("t"));
        vt::assume(vt::eq(x, x0 + (x1 - x0) * t * 0.5));
        vt::assume(vt::eq(y, y0 + (y1 - y0) * (1.0 - t * 0.25)));
    }
    let mut q = f.to_vec();
    q.push((x, y));
    let want = ideal(&q, 16);
    // the free point last, then each of the others
    let k = q.len();
    let (mut r, mut w) = (vec![], vec![]);
    for i in 0..k {
        r.push(q[(i + 3) % k]);
        w.push(want[(i + 3) % k]);
    }
    drawn(place(&r), &w, 16, if c % 2 == 0 { 1 } else { k });
}

// many points: one of them on a track through the cloud and out of it
fn cloud(c: usize) {
    let mut d = Dice::new(c);
    let n = 6 + c;
    let mut q: Vec<(f64, f64)> = (0..n).map(|i| ((i % 4) as f64 * 2.5 - 3.0, (i / 4) as f64 * 3.0 + d.num() / 8.0)).collect();
    let t = span(vt::var("t"));
    vt::assume(vt::ge(t, -8.0).and(vt::le(t, 8.0)));
    let k = d.next(n);
    q[k] = (t, 2.0 - 0.5 * t);
    // two of them looked for: the one that moves and another
    let last = if vt::flip("moving") { k } else { (k + 1 + d.next(n - 1)) % n };
    let want = ideal(&q, 32);
    q.swap(0, last);
    let mut w = want;
    w.swap(0, last);
    drawn(place(&q), &w, 32, 1);
}

// the fixed viewing direction for bodies in space
fn in_space(c: usize) {
    let (a, b) = (0.79f64, 0.5f64);
    let base = [[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 2.0, 0.0], [0.0, 0.0, 1.5]];
    let mut pts: Vec<Vec<f64>> = if c < 4 {
        let t = vt::var("t");
        vt::assume(vt::ge(t, 0.0).and(vt::le(t, 1.0)));
        let d = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [0.5, 0.25, 0.125]][c];
        vec![vec![d[0] * t, d[1] * t, d[2] * t]]
    } else {
        // anywhere in the tetrahedron of the others
        let v = vt::vars("v", 3);
        for x in v.iter() {
            vt::assume(vt::ge(*x, 0.0));
        }
        vt::assume(vt::le(v[0] + v[1] + v[2], 1.0));
        vec![vec![v[0], 2.0 * v[1], 1.5 * v[2]]]
    };
    pts.extend(base.iter().map(|x| x.to_vec()));
    let q: Vec<(f64, f64)> = pts
        .iter()
        .map(|p| (b.cos() * p[0] + b.sin() * p[2], a.sin() * b.sin() * p[0] + a.cos() * p[1] - a.sin() * b.cos() * p[2]))
        .collect();
    drawn(pts.iter().map(|p| Point::new(p)).collect(), &ideal(&q, 16), 16, if c < 4 { 5 } else { 1 });
}

// one picture after another: larger, with more points, smaller again
fn redraw(c: usize) {
    let t = vt::var("t");
    vt::assume(vt::ge(t, 0.0).and(vt::le(t, 4.0)));
    let mut q = vec![(0.0, 0.0), (1.0, 2.0)];
    let mut v: Visualizer = place(&q).into();
    for (k, size) in [16, 24, 16].iter().enumerate() {
        // the last point has a colour of its own
        let new = [(t, 1.0 - 0.5 * t), (3.0, t), (0.5, 0.5)][(k + c) % 3];
        q.push(new);
        v.add_points(place(&[new]), 3 - k);
        for _ in 0..2 {
            let img = picture(&mut v, VisOptions::new().im_size(*size as u32));
            vt::check("the picture has the size asked for", img.dimensions() == (*size as u32, *size as u32));
            match dot(&img, DOTS[3 - k]) {
                None => vt::check("the node shows as one dot", false),
                Some(p) => near("the node's dot", p, ideal(&q, *size)[q.len() - 1]),
            }
        }
    }
}

// picture sizes
fn sizes(c: usize) {
    let size = [17, 24, 33, 64][c];
    let t = vt::var("t");
    vt::assume(vt::ge(t, 0.0).and(vt::le(t, 1.0)));
    let q = vec![(t, 2.0 * t), (0.0, 0.0), (1.0, 2.0)];
    drawn(place(&q), &ideal(&q, size), size, 3);
}

// nodes that coincide: all of them, and in the middle of the picture
fn coincident(c: usize) {
    let (x, y) = (vt::var("x"), vt::var("y"));
    let n = 1 + c;
    let q = vec![(x, y); n];
    drawn(place(&q), &vec![(8.0, 8.0); n], 16, n);
}

fn refusals(_: usize) {
    let (x, y) = (vt::var("x"), vt::var("y"));
    vt::check("dimensions are not mixed", vt::catches(|| -> Visualizer { vec![Point::new(&[x]), Point::new(&[x, y])].into() }).is_none());
    let mut v: Visualizer = place(&[(0.0, 0.0), (1.0, 1.0)]).into();
    vt::check("as many values as nodes", vt::catches(|| v.set_vals(vec![x])).is_none());
}

pub fn list() -> Vec<vt::Harness> {
    vec![("one_d", 3, one_d), ("two_points", 1, two_points), ("free_point", 8, free_point), ("in_space", 5, in_space), ("cloud", 5, cloud), ("redraw", 3, redraw), ("sizes", 4, sizes), ("coincident", 3, coincident), ("refusals", 1, refusals)]
}
