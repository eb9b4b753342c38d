//! C20: colours that do not span a volume.
use crate::sym::*;
use image::{Rgb, RgbImage};
use image_palette_recoloring::verif::image_weights_from_parts;
use image_palette_recoloring::{compute_palette, DecomposedImage, ImageWeights};
use nalgebra::Vector3;
use nalgebra_sparse::CsrMatrix;

/// palettes of 4.. colours in one plane, on one line or in one point; families 0 to 2 and 12 are free in all colours,
/// the others in one or two of them
#[no_mangle]
pub extern "C" fn h_flat_colours(case: u64) {
    let n = 4 + case / 16 % 4;
    let b = |k: u64, j: u32| byte(k as u32 * 3 + j);
    let c = byte(90);
    // the two parameters of colour k: free for the last colour
    let two = |k: u64, hi: u64| if k + 1 == n { (int(91, 0, hi) as u8, int(92, 0, hi) as u8) } else { ((k * 23 % hi) as u8, (k * k * 11 % hi) as u8) };
    let one = |k: u64, hi: u64| two(k, hi).0;
    let same = byte(93);
    let st = (int(94, 0, 40) as u8, int(95, 0, 40) as u8);
    let palette: Vec<Rgb<u8>> = (0..n).map(|k| Rgb(match case % 16 {
        // planes along the axes, through any level
        0 => [c, b(k, 1), b(k, 2)],
        1 => [b(k, 0), c, b(k, 2)],
        2 => [b(k, 0), b(k, 1), c],
        // diagonal planes
        3 => { let (s, t) = two(k, 255); [t, t, s] }
        4 => { let (s, t) = two(k, 255); [t, s, 255 - t] }
        5 => { let (s, t) = two(k, 60); [s + t, 2 * s + 20, 2 * t + 30] }
        6 => { let (s, t) = two(k, 100); [s, t, 240 - s - t] }
        // lines
        7 => { let t = one(k, 255); [t, t, t] }
        8 => { let t = one(k, 255); [t, 255 - t, 7] }
        9 => { let t = one(k, 80); [t, 3 * t + 10, 250 - 2 * t] }
        // points, once and again
        10 => [c, same, c],
        // planes of three free colours and their sums and differences
        11 => { let (s, t) = st;
            let (p, q) = ([s, 20, 7], [3, t, 50]);
            let w = [[0, 0], [1, 0], [0, 1], [1, 1], [2, 1], [1, 2], [2, 2]][k as usize];
            [0, 1, 2].map(|j| 30 + w[0] * p[j] + w[1] * q[j]) }
        _ => [b(k, 0), 9, 250 - 9],
    })).collect();
    let iw = image_weights_from_parts(CsrMatrix::identity(2), vec![Vector3::new(60.0, 70.0, 80.0), Vector3::new(90.0, 10.0, 20.0)], 1, 2);
    check(DecomposedImage::new(&iw, &palette).is_err(), 1);
    reach(1);
}

/// images whose colours are on a line, in a point, in a plane; that are flat in space; whose colour follows the place
#[no_mangle]
pub extern "C" fn h_flat_image(case: u64) {
    let img = RgbImage::from_fn(6, if case == 4 { 1 } else { 5 }, |x, y| {
        let (s, t) = ((x * 31 + y * y * 17) as u8, (x * x * 5 + y * 29) as u8);
        Rgb(match case {
            0 | 3 => [s, s, s],
            1 | 6 => [60, 70, 80],
            2 => [s, t, 9],
            4 => [s, s ^ 85, t ^ s],
            _ => [s, t ^ 99, x as u8 * 40],
        })
    });
    if case <= 2 {
        let n = compute_palette(&img, 4, 6, 0.01).len();
        obsi(0, n as u64);
    } else {
        let w = ImageWeights::new(&img);
        obsi(1, w.width() as u64);
    }
    reach(1);
}
