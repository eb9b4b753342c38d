//! C01, C02: recolouring and channel images.
use crate::sym::*;
use image::Rgb;
use image_palette_recoloring::verif::decomposed_image_from_parts;
use nalgebra::DMatrix;

/// (width, height, channels, symbolic pixel)
const SHAPES: [(u32, u32, usize, usize); 10] = [
    (1, 1, 4, 0), (3, 2, 4, 4), (2, 3, 5, 3), (5, 1, 6, 2), (1, 5, 4, 4), (4, 4, 9, 15),
    (257, 2, 4, 300), (2, 257, 5, 511), (700, 1, 4, 699), (1, 300, 12, 256),
];

/// concrete convex weights, different for each pixel
fn weight(i: usize, c: usize, k: usize) -> f64 {
    let raw = |c: usize| ((i * 7 + c * 5 + i * i % 13 * (c + 1)) % (48 / k) + 1) as f64 / 64.0;
    if c + 1 < k { raw(c) } else { 1.0 - (0..k - 1).map(raw).sum::<f64>() }
}

/// r is `v` limited to 0..255 and truncated
fn truncated(r: u8, v: f64, id: u32) {
    let r = r as f64;
    check((r == 0.0) | (r - 1e-6 <= v), id);
    check((r == 255.0) | (v <= r + 1.0 + 1e-6), id + 1);
}

/// every palette colour symbolic, weights concrete
#[no_mangle]
pub extern "C" fn h_recon_palette(case: u64) {
    let (w, h, k, _) = SHAPES[case as usize];
    let n = (w * h) as usize;
    let m = DMatrix::from_fn(n, k, |i, c| weight(i, c, k));
    let d = decomposed_image_from_parts(m, w, h);
    // large images: the first colour only
    let full = n <= 16;
    let palette: Vec<Rgb<u8>> = (0..k)
        .map(|c| Rgb([0, 1, 2].map(|j| if full || c == 0 { byte((c * 3 + j) as u32) } else { (c * 67 + j * 29) as u8 })))
        .collect();
    let img = d.reconstruct(&palette);
    check(img.is_some(), 1);
    let Some(img) = img else { return };
    check((img.width() == w) & (img.height() == h) & (img.as_raw().len() == n * 3), 2);
    for y in 0..h {
        for x in 0..w {
            let i = (y * w + x) as usize;
            if !full && i % 37 != 0 && i + 3 < n && !(253..260).contains(&i) { continue }
            for j in 0..3 {
                let mut v = 0.0;
                for c in 0..k { v += weight(i, c, k) * palette[c].0[j] as f64; }
                truncated(img.get_pixel(x, y).0[j], v, 10);
            }
        }
    }
    reach(1);
    for j in 0..3 { obsi(j, img.as_raw()[n * 3 - 3 + j as usize] as u64); }
}

/// the weights of one pixel symbolic (any sign, any size), palette concrete
#[no_mangle]
pub extern "C" fn h_recon_weights(case: u64) {
    let (w, h, k, s) = SHAPES[case as usize];
    let n = (w * h) as usize;
    let ws: Vec<f64> = (0..k).map(|c| real(c as u32, -1.5, 2.5)).collect();
    let m = DMatrix::from_fn(n, k, |i, c| if i == s { ws[c] } else { weight(i, c, k) });
    let d = decomposed_image_from_parts(m, w, h);
    check(d.num_channels() == k, 3);
    let palette: Vec<Rgb<u8>> = (0..k).map(|c| Rgb([(c * 37 + 11) as u8, (255 - c * 21) as u8, (c * c * 3) as u8])).collect();
    let img = d.reconstruct(&palette);
    check(img.is_some(), 1);
    let Some(img) = img else { return };
    check((img.width() == w) & (img.height() == h) & (img.as_raw().len() == n * 3), 2);
    for i in 0..n {
        if n > 20 && i % 37 != 0 && i + 3 < n && !(253..260).contains(&i) && i != s { continue }
        for j in 0..3 {
            let mut v = 0.0;
            for c in 0..k { v += if i == s { ws[c] } else { weight(i, c, k) } * palette[c].0[j] as f64; }
            truncated(img.get_pixel(i as u32 % w, i as u32 / w).0[j], v, 10);
        }
    }
    reach(1);
    for j in 0..3 { obsi(j, img.as_raw()[s * 3 + j as usize] as u64); }
}

/// one pixel: weights and colours symbolic
#[no_mangle]
pub extern "C" fn h_recon_both(_case: u64) {
    let k = 4;
    let ws: Vec<f64> = (0..k).map(|c| real(c as u32, -0.5, 1.5)).collect();
    let d = decomposed_image_from_parts(DMatrix::from_fn(1, k, |_, c| ws[c]), 1, 1);
    let g: Vec<u8> = (0..k).map(|c| byte(10 + c as u32)).collect();
    let palette: Vec<Rgb<u8>> = (0..k).map(|c| Rgb([g[c], 17 * c as u8, 200 - 40 * c as u8])).collect();
    let Some(img) = d.reconstruct(&palette) else { check(false, 1); return };
    for j in 0..3 {
        let mut v = 0.0;
        for c in 0..k { v += ws[c] * palette[c].0[j] as f64; }
        truncated(img.get_pixel(0, 0).0[j], v, 10);
    }
    reach(1);
}

/// an image exactly for palettes of the right size
#[no_mangle]
pub extern "C" fn h_recon_size(case: u64) {
    let (w, h, k, _) = SHAPES[case as usize];
    let m = DMatrix::from_fn((w * h) as usize, k, |i, c| weight(i, c, k));
    let d = decomposed_image_from_parts(m, w, h);
    check((d.width() == w) & (d.height() == h) & (d.num_channels() == k), 2);
    let len = choose(0, 0, k as u64 + 3) as usize;
    let palette: Vec<Rgb<u8>> = (0..len).map(|c| Rgb([byte(c as u32 + 1), 0, 9])).collect();
    let r = d.reconstruct(&palette);
    check(r.is_some() == (len == k), 20);
    reach(1);
    obsi(0, r.is_some() as u64);
}

/// channel images: all weights symbolic, one of them of any size
#[no_mangle]
pub extern "C" fn h_channel(case: u64) {
    let (w, h, k, s) = SHAPES[case as usize];
    let n = (w * h) as usize;
    let c = choose(0, 0, k as u64 + 3) as usize;
    let c = if c == k + 3 { usize::MAX } else { c };
    let mut m = DMatrix::from_fn(n, k, |i, c| weight(i, c, k));
    if c < k {
        for i in 0..n.min(16) { m[(i, c)] = real(1 + i as u32, 0.0, 1.0); }
        m[(s, c)] = real(100, -3.0, 4.0);
    }
    let keep = m.clone();
    let d = decomposed_image_from_parts(m, w, h);
    let r = d.get_channel_grayscale(c);
    check(r.is_some() == (c < k), 20);
    let Some(img) = r else { reach(2); return };
    check((img.width() == w) & (img.height() == h) & (img.as_raw().len() == n), 2);
    for i in 0..n {
        if i > 20 && i % 37 != 0 && i + 3 < n && !(253..260).contains(&i) && i != s { continue }
        truncated(img.get_pixel(i as u32 % w, i as u32 / w).0[0], keep[(i, c)] * 255.0, 10);
    }
    reach(1);
    obsi(0, img.as_raw()[s] as u64);
}
