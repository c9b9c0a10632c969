// Colour maps: the nearest 8-bit colour of the ramp, for every value.
use crate::util::*;
use crate::visual::color;
use image::Rgb;

fn clamp01(x: f64) -> f64 {
    if x < 0.0 {
        0.0
    } else if x > 1.0 {
        1.0
    } else {
        x
    }
}
fn hat(x: f64, top: f64) -> f64 {
    clamp01(1.5 - 4.0 * (if x < top { top - x } else { x - top }))
}
fn hot(x: f64) -> [f64; 3] {
    [clamp01(3.0 * x), clamp01(3.0 * x - 1.0), clamp01(3.0 * x - 2.0)]
}
fn rainbow(x: f64) -> [f64; 3] {
    [hat(x, 0.75), hat(x, 0.5), hat(x, 0.25)]
}
fn judge(got: Rgb<u8>, want: [f64; 3]) {
    for i in 0..3 {
        let d = got.0[i] as f64 - want[i] * 255.0;
        vt::prove(["red", "green", "blue"][i], vt::le(d, 0.5 + 1e-9).and(vt::ge(d, -0.5 - 1e-9)));
    }
}
const PARTS: usize = 24;
fn value(c: usize, parts: usize) -> f64 {
    // the unit interval in parts, then everything below and above it
    let x = vt::var("x");
    if c < parts {
        vt::assume(vt::ge(x * parts as f64, c as f64));
        vt::assume(vt::le(x * parts as f64, (c + 1) as f64));
    } else if c == parts {
        vt::assume(vt::lt(x, 0.0));
    } else {
        vt::assume(vt::gt(x, 1.0));
    }
    x
}

fn hot_map(c: usize) {
    let x = value(c, PARTS / 2);
    judge(color::hot_map(x), hot(x));
}
fn rgb_map(c: usize) {
    let x = value(c, PARTS);
    judge(color::rgb_map(x), rainbow(x));
}
fn boxed(_: usize) {
    let x = vt::var("x");
    let n = vt::choose("n", 9);
    vt::assume(vt::eq(x * 4.0, n as f64 - 2.0));
    vt::check("the boxed map is the map", color::hot_map_boxed()(x) == color::hot_map(x) && color::rgb_map_boxed()(x) == color::rgb_map(x));
}
// neighbouring values never jump, larger values are never darker on the hot map
fn order(c: usize) {
    let (x, y) = (value(c, PARTS), vt::var("y"));
    vt::assume(vt::gt(y, x));
    vt::assume(vt::lt(y, x + 0.002));
    let (a, b) = (color::hot_map(x), color::hot_map(y));
    for i in 0..3 {
        vt::check("brighter for larger values, without jumps", b.0[i] >= a.0[i] && b.0[i] - a.0[i] <= 2);
    }
}

pub fn list() -> Vec<vt::Harness> {
    vec![("hot_map", PARTS / 2 + 2, hot_map), ("rgb_map", PARTS + 2, rgb_map), ("boxed", 1, boxed), ("order", PARTS + 2, order)]
}
