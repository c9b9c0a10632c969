// Stand-in for the image crate: a pixel buffer with the same bounds behaviour; `save` hands the
// picture to whoever asks for it next instead of writing a file.
use std::cell::RefCell;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Rgb<T>(pub [T; 3]);
impl<T: Copy> Rgb<T> {
    pub fn channels(&self) -> &[T] {
        &self.0
    }
}
impl<T> std::ops::Index<usize> for Rgb<T> {
    type Output = T;
    fn index(&self, i: usize) -> &T {
        &self.0[i]
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct RgbImage {
    pub w: u32,
    pub h: u32,
    pub data: Vec<Rgb<u8>>,
}
thread_local! { pub static SAVED: RefCell<Vec<(String, RgbImage)>> = RefCell::new(vec![]); }
pub fn take_saved() -> Vec<(String, RgbImage)> {
    SAVED.with(|s| std::mem::take(&mut *s.borrow_mut()))
}
impl RgbImage {
    pub fn new(w: u32, h: u32) -> Self {
        Self::from_pixel(w, h, Rgb([0, 0, 0]))
    }
    pub fn from_pixel(w: u32, h: u32, p: Rgb<u8>) -> Self {
        RgbImage { w, h, data: vec![p; (w as usize) * (h as usize)] }
    }
    fn at(&self, x: u32, y: u32) -> usize {
        assert!(x < self.w && y < self.h, "Image index {:?} out of bounds {:?}", (x, y), (self.w, self.h));
        (y as usize) * (self.w as usize) + x as usize
    }
    pub fn put_pixel(&mut self, x: u32, y: u32, p: Rgb<u8>) {
        let i = self.at(x, y);
        self.data[i] = p
    }
    pub fn get_pixel(&self, x: u32, y: u32) -> &Rgb<u8> {
        let i = self.at(x, y);
        &self.data[i]
    }
    pub fn get_pixel_mut(&mut self, x: u32, y: u32) -> &mut Rgb<u8> {
        let i = self.at(x, y);
        &mut self.data[i]
    }
    pub fn width(&self) -> u32 {
        self.w
    }
    pub fn height(&self) -> u32 {
        self.h
    }
    pub fn dimensions(&self) -> (u32, u32) {
        (self.w, self.h)
    }
    pub fn save<P: AsRef<std::path::Path>>(&self, p: P) -> Result<(), String> {
        SAVED.with(|s| s.borrow_mut().push((p.as_ref().display().to_string(), self.clone())));
        Ok(())
    }
}
