//! C03, C07: weights of whole images, and back.
use crate::sym::*;
use image::{GenericImageView, Rgb, RgbImage};
use std::cell::Cell;
use image_palette_recoloring::verif::image_weights_parts;
use image_palette_recoloring::{DecomposedImage, ImageWeights};
use nalgebra::Vector3;
type V = Vector3<f64>;
type C3 = [u8; 3];

struct Frame { w: u32, colours: &'static [C3], free: usize, lo: C3, hi: C3 }
/// Images with one free pixel, whose colour stays inside of the hull of the others.
const FRAMES: [Frame; 7] = [
    Frame { w: 3, colours: &[[16, 230, 2], [1, 226, 254], [249, 238, 253], [239, 3, 20], [120, 125, 130], [3, 24, 1], [254, 10, 225], [15, 250, 9], [23, 6, 18]],
        free: 4, lo: [90, 95, 100], hi: [150, 155, 160] },
    Frame { w: 4, colours: &[[20, 10, 200], [250, 40, 30], [10, 240, 5], [255, 255, 250], [0, 0, 10], [100, 110, 90], [120, 120, 120], [245, 10, 240], [240, 250, 0], [0, 255, 250], [250, 5, 15], [10, 20, 230]],
        free: 5, lo: [56, 66, 46], hi: [144, 154, 134] },
    Frame { w: 3, colours: &[[255, 0, 0], [0, 255, 0], [0, 0, 255], [255, 255, 255], [128, 128, 128], [0, 0, 0], [0, 255, 255], [255, 0, 255], [255, 255, 0]],
        free: 4, lo: [78; 3], hi: [178; 3] },
    Frame { w: 3, colours: &[[200, 100, 50], [20, 200, 60], [90, 30, 220], [240, 220, 200], [120, 110, 100], [10, 30, 40], [30, 140, 230], [230, 60, 190], [180, 240, 20], [60, 20, 130], [250, 130, 140], [15, 245, 130]],
        free: 4, lo: [95, 85, 75], hi: [145, 135, 125] },
    Frame { w: 2, colours: &[[10, 20, 30], [240, 40, 20], [30, 230, 60], [50, 60, 250], [200, 210, 190], [20, 220, 180], [90, 10, 100], [190, 60, 200]],
        free: 9, lo: [0; 3], hi: [0; 3] },
    // colours close together
    Frame { w: 3, colours: &[[148, 110, 111], [109, 149, 111], [109, 110, 150], [148, 149, 150], [129, 130, 131], [109, 110, 111], [109, 149, 150], [148, 110, 150], [148, 149, 111]],
        free: 4, lo: [123, 124, 125], hi: [136, 137, 138] },
    Frame { w: 4, colours: &[[101, 106, 142], [147, 112, 108], [99, 152, 103], [148, 155, 152], [97, 104, 104], [117, 126, 120], [121, 128, 126], [146, 106, 150], [145, 154, 102], [97, 155, 152], [147, 105, 105], [99, 108, 148]],
        free: 5, lo: [112, 122, 115], hi: [122, 132, 125] },
];

/// An image with a free pixel. The first time it is asked for that pixel (for the hull of all pixels, of which it is
/// an inner point) it answers with a fixed inner colour.
struct View { img: RgbImage, at: (u32, u32), colour: C3, asked: Cell<u32>, stage: u32, second: Option<C3>, asked2: Cell<u32> }
impl GenericImageView for View {
    type Pixel = Rgb<u8>;
    fn dimensions(&self) -> (u32, u32) { self.img.dimensions() }
    fn bounds(&self) -> (u32, u32, u32, u32) { self.img.bounds() }
    fn get_pixel(&self, x: u32, y: u32) -> Rgb<u8> {
        if (x, y) == self.at {
            self.asked.set(self.asked.get() + 1);
            if self.asked.get() > self.stage { return Rgb(self.colour) }
        }
        if (x, y) == (self.at.0 + 1, self.at.1) {
            self.asked2.set(self.asked2.get() + 1);
            if let Some(c) = self.second { if self.asked2.get() > self.stage { return Rgb(c) } }
        }
        *self.img.get_pixel(x, y)
    }
}

/// `line`: how the free colour varies
fn image(f: &Frame, line: u64) -> View {
    let n = f.colours.len() as u32;
    let c = f.colours;
    let free = f.free as u32;
    let mut colour = [0; 3];
    let mut second = None;
    if f.free < c.len() {
        colour = match line % 8 {
            0 => [int(0, f.lo[0] as u64, f.hi[0] as u64) as u8, c[f.free][1], c[f.free][2]],
            1 => [c[f.free][0], int(0, f.lo[1] as u64, f.hi[1] as u64) as u8, c[f.free][2]],
            2 => [c[f.free][0], c[f.free][1], int(0, f.lo[2] as u64, f.hi[2] as u64) as u8],
            3 => [c[f.free][0], int(0, f.lo[1] as u64, f.hi[1] as u64) as u8, int(1, f.lo[2] as u64, f.hi[2] as u64) as u8],
            5 => {
                // the next pixel, too
                let d = c[f.free + 1];
                let n = if d[1] == 120 { 30 } else { 6 };
                second = Some([d[0], int(10, d[1] as u64 - n, d[1] as u64 + n) as u8, int(11, d[2] as u64 - n, d[2] as u64 + n) as u8]);
                [int(0, f.lo[0] as u64, f.hi[0] as u64) as u8, c[f.free][1], c[f.free][2]]
            }
            _ => [0, 1, 2].map(|j| int(j as u32, f.lo[j] as u64, f.hi[j] as u64) as u8),
        };
    }
    View { img: RgbImage::from_fn(f.w, n / f.w, |x, y| Rgb(c[(y * f.w + x) as usize])), at: (free % f.w, free / f.w), colour, asked: Cell::new(0), stage: if line & 8 == 0 { 1 } else { 0 }, second, asked2: Cell::new(0) }
}
fn v(c: &Rgb<u8>) -> V { V::new(c[0] as f64, c[1] as f64, c[2] as f64) }

/// C03. Case = frame + 8 * line + 64 (the free pixel is free from the start)
#[no_mangle]
pub extern "C" fn h_weights(case: u64) {
    let img = image(&FRAMES[case as usize % 8], case / 8);
    let w = ImageWeights::new(&img);
    check((w.width() == img.width()) & (w.height() == img.height()), 1);
    let (m, colours) = image_weights_parts(&w);
    check(m.nrows() == (img.width() * img.height()) as usize, 2);
    check(m.ncols() == colours.len(), 3);
    for (row, (_, _, p)) in m.row_iter().zip(img.pixels()) {
        let p = &p;
        let mut s = 0.0;
        let mut q = V::zeros();
        for (c, x) in row.col_indices().iter().zip(row.values()) {
            le(-1e-6, *x, 4);
            s += *x;
            q += colours[*c] * *x;
        }
        close(s, 1.0, 1e-6, 5);
        for j in 0..3 { close(q[j], v(p)[j], 1e-4, 6); obs(j as u32, q[j]); }
    }
    reach(1);
}

const CUBE: &[C3] = &[[0, 0, 0], [255, 0, 0], [0, 255, 0], [255, 255, 0], [0, 0, 255], [255, 0, 255], [0, 255, 255], [255, 255, 255]];

/// C07. Case = frame + 8 * line + 64 * palette (+ 512: the free pixel is free from the start)
#[no_mangle]
pub extern "C" fn h_back(case: u64) {
    let img = image(&FRAMES[case as usize % 8], case / 8 % 8 + case / 512 * 8);
    let palette: Vec<Rgb<u8>> = match case / 64 % 8 {
        0 => CUBE.iter().map(|c| Rgb(*c)).collect(),
        1 => CUBE.iter().rev().map(|c| Rgb(*c)).collect(),
        2 => vec![Rgb([255, 0, 0]), Rgb([255, 255, 255]), Rgb([0, 255, 0]), Rgb([0, 0, 255])],
        _ => [[128, 128, 0], [128, 128, 255], [0, 128, 128], [255, 128, 128], [128, 0, 128], [128, 255, 128]].iter().map(|c| Rgb(*c)).collect(),
    };
    let w = ImageWeights::new(&img);
    let d = DecomposedImage::new(&w, &palette);
    check(d.is_ok(), 1);
    let Ok(d) = d else { return };
    let out = d.reconstruct(&palette);
    check(out.is_some(), 2);
    let Some(out) = out else { return };
    check(out.dimensions() == img.dimensions(), 3);
    let (m, _) = image_weights_parts(&w);
    for x in m.values() { obs(0, *x); }
    for ((_, _, p), q) in img.pixels().zip(out.pixels()) {
        for j in 0..3 { check((p[j] as i32 - q[j] as i32 <= 1) & (q[j] as i32 - p[j] as i32 <= 1), 4); }
    }
    reach(1);
}
