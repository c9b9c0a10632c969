// Filled triangles: every pixel of a triangle shows the value interpolated from its nodes, on the scale
// from the smallest to the largest value.
use crate::pix::*;
use crate::spatial::Point;
use crate::util::*;
use crate::visual::{VisOptions, Visualizer};
use image::Rgb;
use std::cell::RefCell;
use std::rc::Rc;

type Tri = (usize, usize, usize);

// draws without the mesh; what colour was asked for at each pixel that got one
fn filled(pts: &[(f64, f64)], tris: &[Tri], vals: Vec<f64>, size: usize) -> Vec<Vec<Option<f64>>> {
    let mut v: Visualizer = place(pts).into();
    v.set_triangles(tris.to_vec());
    v.set_edges(tris.iter().map(|t| (t.0, t.1)).collect());
    v.set_vals(vals);
    let asked: Rc<RefCell<Vec<f64>>> = Rc::new(RefCell::new(vec![]));
    let a = asked.clone();
    // a distinct colour per question tells which answer each pixel shows
    let map = move |x: f64| {
        a.borrow_mut().push(x);
        let n = a.borrow().len();
        Rgb([100 + (n / 10000) as u8, (n / 100 % 100) as u8, (n % 100) as u8])
    };
    let img = picture(&mut v, VisOptions::new().im_size(size as u32).show_mesh(false).color_map(Box::new(map)));
    let asked = asked.borrow();
    (0..size)
        .map(|y| {
            (0..size)
                .map(|x| {
                    let c = at(&img, x, y);
                    if c == BACK {
                        return None;
                    }
                    vt::check("nothing but background and filled pixels", c[0] >= 100 && c[1] < 100 && c[2] < 100);
                    let n = (c[0] as usize - 100) * 10000 + c[1] as usize * 100 + c[2] as usize;
                    vt::check("every colour comes from the map", n >= 1 && n <= asked.len());
                    Some(asked[n - 1])
                })
                .collect()
        })
        .collect()
}
// where the dots of the nodes are, from the picture with the mesh
fn spots(pts: &[(f64, f64)], size: usize) -> Vec<(i64, i64)> {
    (0..pts.len())
        .map(|i| {
            let mut v: Visualizer = place(&[pts[(i + 1) % pts.len()]]).into();
            for k in 2..(pts.len() + 1) {
                v.add_points(place(&[pts[(i + k) % pts.len()]]), if k == pts.len() { 3 } else { 1 });
            }
            let img = picture(&mut v, VisOptions::new().im_size(size as u32));
            let p = dot(&img, DOTS[3]).unwrap();
            (p.0 as i64, p.1 as i64)
        })
        .collect()
}
fn turn(a: (i64, i64), b: (i64, i64), c: (i64, i64)) -> i64 {
    (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0)
}
fn judge(pts: &[(f64, f64)], tris: &[Tri], vals: Vec<f64>, size: usize) {
    let s = spots(pts, size);
    let img = filled(pts, tris, vals.clone(), size);
    let (mut lo, mut hi) = (vals[0], vals[0]);
    for v in vals.iter() {
        if *v < lo {
            lo = *v
        }
        if *v > hi {
            hi = *v
        }
    }
    for y in 0..size {
        for x in 0..size {
            let p = (x as i64, y as i64);
            // the values the triangles covering this pixel give it
            let mut want: Vec<f64> = vec![];
            let mut flat = false;
            for t in tris.iter() {
                let (a, b, c) = (s[t.0], s[t.1], s[t.2]);
                let d = turn(a, b, c);
                if d == 0 {
                    flat = flat || (turn(a, b, p) == 0 && turn(b, c, p) == 0);
                    continue;
                }
                let w = [turn(p, b, c) * d.signum(), turn(a, p, c) * d.signum(), turn(a, b, p) * d.signum()];
                if w.iter().all(|x| *x >= 0) {
                    let n = d.abs() as f64;
                    want.push((w[0] as f64 * vals[t.0] + w[1] as f64 * vals[t.1] + w[2] as f64 * vals[t.2]) / n);
                }
            }
            match img[y][x] {
                None => vt::check("every pixel of a triangle is filled", want.is_empty()),
                Some(v) => {
                    vt::prove("the colour asked for is a number", vt::is_finite(v));
                    if want.is_empty() || flat {
                        vt::check("only pixels of triangles are filled", !want.is_empty() || flat);
                        // where a triangle seen edge-on may have its say, anything on the scale will do
                        vt::prove("the colour asked for is on the scale", vt::ge(v, -1e-9).and(vt::le(v, 1.0 + 1e-9)));
                        continue;
                    }
                    let ok = want.iter().map(|w| vt::eq(v * (hi - lo), *w - lo));
                    vt::prove("the pixel shows a value interpolated between its nodes", ok.fold(vt::truth(false), |a, b| a.or(b)));
                }
            }
        }
    }
}

const SHAPES: [[(f64, f64); 4]; 3] = [
    [(0.0, 0.0), (1.0, 0.0), (1.0, 1.0), (0.0, 1.0)],
    [(0.0, 0.0), (3.0, 0.5), (3.5, 2.1), (0.7, 3.0)],
    [(-1.0, 0.0), (0.0, -2.0), (1.0, 0.0), (0.0, 2.0)],
];
const TRIS: [Tri; 2] = [(0, 1, 2), (0, 2, 3)];
const TURNED: [Tri; 2] = [(2, 1, 0), (3, 0, 2)];

// any values at the nodes
fn any_values(c: usize) {
    let k = 1 + c % 2;
    let shape = &SHAPES[c / 2 % 3];
    let t = if c / 6 == 0 { &TRIS } else { &TURNED };
    let vals = vt::vars("v", 4);
    // the largest and the smallest are told apart, equal values have a case of their own
    let (a, b) = [(0, 1), (2, 3), (1, 2), (3, 0)][vt::choose("extremes", 4)];
    for i in 0..4 {
        vt::assume(vt::le(vals[i], vals[a]));
        vt::assume(vt::ge(vals[i], vals[b]));
    }
    vt::assume(vt::gt(vals[a], vals[b]));
    judge(shape, &t[..k], vals, 16);
}
// bodies of more triangles: two nodes carry the extremes, two any value between
fn big(c: usize) {
    let mut d = Dice::new(c);
    let b = crate::fem::body(c, &mut d);
    let n = b.pts.len();
    let at = d.perm(n);
    let mut vals: Vec<f64> = (0..n).map(|_| d.next(17) as f64 / 8.0 - 1.0).collect();
    vals[at[0]] = -1.0;
    vals[at[1]] = 1.0;
    for k in 2..4 {
        let v = vt::var(&format!("v{}", k));
        vt::assume(vt::ge(v, -1.0).and(vt::le(v, 1.0)));
        vals[at[k]] = v;
    }
    judge(&b.pts, &b.tris.iter().map(|t| (t[0], t[1], t[2])).collect::<Vec<Tri>>(), vals, 24);
}
// all nodes carry the same value
fn equal_values(c: usize) {
    let x = vt::var("v");
    judge(&SHAPES[c], &TRIS, vec![x; 4], 16);
    for v in filled(&SHAPES[c], &TRIS, vec![x; 4], 16).into_iter().flatten().flatten() {
        vt::prove("equal values stay on the scale", vt::ge(v, 0.0).and(vt::le(v, 1.0)));
    }
}
// one node anywhere in the frame of the others: triangles of every shape, either orientation, none
fn free_node(c: usize) {
    let (x, y) = (vt::var("x"), vt::var("y"));
    vt::assume(vt::ge(x, 0.0).and(vt::le(x, 4.0)));
    vt::assume(vt::ge(y, c as f64).and(vt::le(y, (c + 1) as f64)));
    judge(&[(0.0, 0.0), (4.0, 0.0), (0.0, 4.0), (x, y)], &[(0, 1, 3)], vec![0.0, 1.0, 0.25, 4.0], 16);
}
// other values, then other triangles: the last ones given count
fn replaced(c: usize) {
    let t = vt::choose("t", 9) as f64 / 8.0;
    let (first, last) = (vec![9.0, -3.0, t, 0.5], vec![0.0, t, 1.0, 0.5]);
    let other: Vec<Tri> = vec![(1, 2, 3)];
    let o = || VisOptions::new().im_size(16).show_mesh(c == 1);
    let mut v: Visualizer = place(&SHAPES[1]).into();
    v.set_triangles(TRIS.to_vec());
    v.set_vals(first);
    let before = picture(&mut v, o());
    v.set_vals(last.clone());
    let second = picture(&mut v, o());
    v.set_triangles(other.clone());
    let third = picture(&mut v, o());
    v.set_triangles(vec![]);
    let none = picture(&mut v, o());
    let mut w: Visualizer = place(&SHAPES[1]).into();
    let bare = picture(&mut w, o());
    w.set_vals(last);
    w.set_triangles(TRIS.to_vec());
    let two = picture(&mut w, o());
    w.set_triangles(other);
    let three = picture(&mut w, o());
    vt::check("the last values count", second.data == two.data && before.data != two.data);
    vt::check("the last triangles count", third.data == three.data && three.data != two.data);
    vt::check("no triangles, no fill", none.data == bare.data);
}
// without a map of one's own the pixels take the hot map's colours; the mesh goes over the fill
fn default_map(_: usize) {
    let t = vt::choose("t", 9) as f64 / 8.0;
    let draw = |own: bool, mesh: bool| {
        let mut v: Visualizer = place(&SHAPES[0]).into();
        v.set_triangles(TRIS.to_vec());
        v.set_edges(vec![(0, 2)]);
        v.set_vals(vec![0.0, t, 1.0, 0.5]);
        let mut o = VisOptions::new().im_size(16).show_mesh(mesh);
        if own {
            o = o.color_map(crate::visual::color::hot_map_boxed());
        }
        picture(&mut v, o)
    };
    let (plain, own, mesh) = (draw(false, false), draw(true, false), draw(false, true));
    for y in 0..16 {
        for x in 0..16 {
            vt::check("the hot map unless another is given", at(&plain, x, y) == at(&own, x, y));
            let m = at(&mesh, x, y);
            if m != LINE && m != DOTS[0] {
                vt::check("the mesh hides nothing else", at(&plain, x, y) == m);
            }
        }
    }
    vt::check("dots over lines over the fill", at(&mesh, 8, 8) == LINE && at(&mesh, 2, 14) == DOTS[0] && at(&mesh, 14, 2) == DOTS[0]);
}

pub fn list() -> Vec<vt::Harness> {
    vec![("any_values", 12, any_values), ("equal_values", 3, equal_values), ("big", 6, big), ("free_node", 4, free_node), ("default_map", 1, default_map), ("replaced", 2, replaced)]
}
