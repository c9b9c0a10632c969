// helpers for the picture harnesses: what a saved picture shows
use crate::spatial::Point;
use crate::util::*;
use crate::visual::{VisOptions, Visualizer};
use image::{Rgb, RgbImage};

pub fn list() -> Vec<vt::Harness> {
    vec![]
}

pub const BACK: [u8; 3] = [50, 50, 50];
pub const DOTS: [[u8; 3]; 4] = [[255, 0, 0], [255, 255, 0], [0, 0, 255], [255, 0, 255]];
pub const LINE: [u8; 3] = [0, 255, 0];

pub fn picture(v: &mut Visualizer, o: VisOptions) -> RgbImage {
    let _ = image::take_saved();
    v.draw("/tmp/vt_picture.png", o);
    let mut s = image::take_saved();
    vt::check("one picture is saved, where it was asked for", s.len() == 1 && s[0].0 == "/tmp/vt_picture.png");
    s.pop().unwrap().1
}
pub fn at(img: &RgbImage, x: usize, y: usize) -> [u8; 3] {
    img.get_pixel(x as u32, y as u32).0
}
pub fn pixels(img: &RgbImage, c: [u8; 3]) -> Vec<(usize, usize)> {
    let (w, h) = img.dimensions();
    let mut r = vec![];
    for y in 0..h as usize {
        for x in 0..w as usize {
            if at(img, x, y) == c {
                r.push((x, y))
            }
        }
    }
    r
}
// the pixel a dot of this colour is centred on, if what shows of the colour is one complete dot
pub fn dot(img: &RgbImage, c: [u8; 3]) -> Option<(usize, usize)> {
    let p = pixels(img, c);
    if p.len() != 9 {
        return None;
    }
    let (x, y) = (p[0].0 + 1, p[0].1 + 1);
    for q in p {
        if q.0 + 1 < x || q.0 > x + 1 || q.1 + 1 < y || q.1 > y + 1 {
            return None;
        }
    }
    Some((x, y))
}
fn most(v: &[f64], sign: f64) -> f64 {
    let mut m = v[0] * sign;
    for x in v.iter() {
        if *x * sign > m {
            m = *x * sign
        }
    }
    m * sign
}
// where the points belong in a picture of this size, in pixels: longer extent spread over 80 %, the
// middle of the bounding box in the middle of the picture, y upwards
pub fn ideal(pts: &[(f64, f64)], size: usize) -> Vec<(f64, f64)> {
    let xs: Vec<f64> = pts.iter().map(|p| p.0).collect();
    let ys: Vec<f64> = pts.iter().map(|p| p.1).collect();
    let (x1, x0, y1, y0) = (most(&xs, 1.0), most(&xs, -1.0), most(&ys, 1.0), most(&ys, -1.0));
    let w = if x1 - x0 > y1 - y0 { x1 - x0 } else { y1 - y0 };
    let n = size as f64;
    let s = if w > 0.0 { n * 8.0 / 10.0 / w } else { 0.0 };
    pts.iter().map(|p| ((p.0 - (x0 + x1) / 2.0) * s + n / 2.0, n / 2.0 - (p.1 - (y0 + y1) / 2.0) * s)).collect()
}
// within half a pixel, exact ties either way; 0.8 is not exactly representable, hence the slack
pub fn near(name: &str, got: (usize, usize), want: (f64, f64)) {
    let h = 0.5 + 1e-9;
    for (g, w) in [(got.0, want.0), (got.1, want.1)].iter() {
        let d = *g as f64 - *w;
        vt::prove(name, vt::le(d, h).and(vt::ge(d, -h)));
    }
}
pub fn place(pts: &[(f64, f64)]) -> Vec<Point> {
    pts.iter().map(|p| Point::new(&[p.0, p.1])).collect()
}
