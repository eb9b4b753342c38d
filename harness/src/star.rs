//! C04, C05, C06: decomposition with a palette.
use crate::sym::*;
use image::Rgb;
use image_palette_recoloring::verif::{decomposed_image_matrix, image_weights_from_parts};
use image_palette_recoloring::DecomposedImage;
use nalgebra::Vector3;
use nalgebra_sparse::CsrMatrix;
type C3 = [u8; 3];
type V = Vector3<f64>;

const PALETTES: [&[C3]; 14] = [
    &[[0, 0, 0], [255, 0, 0], [0, 255, 0], [0, 0, 255]],
    // no black, darkest colour last
    &[[200, 40, 30], [60, 220, 90], [40, 50, 240], [20, 35, 25]],
    &[[255, 255, 255], [130, 20, 60], [10, 180, 30], [90, 10, 250]],
    // the darkest colour opposite to the nearest facet of most colours
    &[[250, 250, 250], [255, 0, 0], [0, 255, 0], [0, 0, 255], [5, 3, 2]],
    &[[10, 0, 0], [240, 30, 20], [250, 235, 15], [20, 230, 240], [128, 20, 230], [240, 240, 250]],
    // octahedron
    &[[128, 128, 0], [128, 128, 255], [0, 128, 128], [255, 128, 128], [128, 0, 128], [128, 255, 128]],
    // a flat sliver
    &[[100, 100, 100], [110, 100, 101], [100, 111, 99], [103, 104, 112]],
    // prism: quadrilateral sides
    &[[0, 0, 0], [200, 0, 0], [0, 200, 0], [0, 0, 200], [200, 0, 200], [0, 200, 200]],
    // cube, in several orders
    &[[0, 0, 0], [255, 0, 0], [0, 255, 0], [255, 255, 0], [0, 0, 255], [255, 0, 255], [0, 255, 255], [255, 255, 255]],
    &[[255, 255, 255], [0, 255, 0], [255, 0, 255], [0, 0, 255], [0, 0, 0], [255, 255, 0], [0, 255, 255], [255, 0, 0]],
    &[[255, 0, 255], [0, 255, 0], [255, 255, 255], [255, 0, 0], [0, 0, 255], [255, 255, 0], [0, 0, 0], [0, 255, 255]],
    // pyramid over a square, star on the square
    &[[10, 10, 10], [210, 10, 10], [210, 210, 10], [10, 210, 10], [120, 110, 240]],
    // ten colours
    &[[128, 5, 10], [230, 60, 20], [250, 170, 40], [190, 250, 120], [70, 240, 60], [5, 160, 90], [10, 40, 200], [120, 90, 255], [240, 120, 230], [60, 10, 60]],
    // two darkest colours at the same distance from black
    &[[30, 40, 0], [40, 30, 0], [200, 250, 20], [20, 60, 250], [250, 40, 180]],
];

/// Where the colour lies: the whole cube, or a plane or line through it.
fn pixel(family: u64, lo: f64, hi: f64) -> V {
    match family {
        0 => V::new(real(0, lo, hi), real(1, lo, hi), real(2, lo, hi)),
        1 => { let (s, t) = (real(0, lo, hi), real(1, lo, hi)); V::new(s, t, 0.25 * s + 0.5 * t + 16.0) }
        2 => { let (s, t) = (real(0, lo, hi), real(1, lo, hi)); V::new(250.0 - 0.75 * s, 0.5 * s + 0.25 * t, t) }
        3 => { let s = real(0, lo, hi); V::new(s, 255.0 - s, 0.5 * s + 20.0) }
        4 => { let s = real(0, lo, hi); V::new(s, s, s) }
        5 => { let s = real(0, lo, hi); V::new(255.0 - s, 0.25 * s + 90.0, s) }
        6 => { let s = real(0, lo, hi); V::new(0.125 * s, s, 255.0 - 0.25 * s) }
        // along a cube edge and a cube face diagonal
        7 => { let s = real(0, lo, hi); V::new(s, 0.0, 0.0) }
        8 => { let s = real(0, lo, hi); V::new(s, s, 0.0) }
        9 => { let s = real(0, lo, hi); V::new(255.0, s, 255.0 - s) }
        _ => { let s = real(0, lo, hi); V::new(90.0 + 0.125 * s, 80.0, s) }
    }
}

fn v(c: &C3) -> V { V::new(c[0] as f64, c[1] as f64, c[2] as f64) }
fn cross(a: [i64; 3], b: [i64; 3]) -> [i64; 3] {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn sub(a: &C3, b: &C3) -> [i64; 3] { [a[0] as i64 - b[0] as i64, a[1] as i64 - b[1] as i64, a[2] as i64 - b[2] as i64] }
fn dot(a: [i64; 3], b: [i64; 3]) -> i64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }

/// The planes of all triples with every colour on one side: (outward unit normal, offset).
fn planes(pal: &[C3]) -> Vec<(V, f64)> {
    let mut out = vec![];
    for i in 0..pal.len() { for j in i + 1..pal.len() { for k in j + 1..pal.len() {
        let n = cross(sub(&pal[j], &pal[i]), sub(&pal[k], &pal[i]));
        if n == [0; 3] { continue }
        let (mut lo, mut hi) = (0, 0);
        for c in pal { let d = dot(n, sub(c, &pal[i])); lo = lo.min(d); hi = hi.max(d); }
        if lo < 0 && hi > 0 { continue }
        let mut n = V::new(n[0] as f64, n[1] as f64, n[2] as f64);
        n /= n.norm();
        if hi > 0 { n = -n }
        out.push((n, -n.dot(&v(&pal[i]))));
    } } }
    out
}

fn weights(pal: &[C3], p: V) -> Option<Vec<f64>> {
    let palette: Vec<Rgb<u8>> = pal.iter().map(|c| Rgb(*c)).collect();
    // row 1 is the symbolic colour, the others are palette colours
    let vals = vec![v(&pal[1]), p, v(&pal[pal.len() - 1])];
    let iw = image_weights_from_parts(CsrMatrix::identity(3), vals, 3, 1);
    let d = DecomposedImage::new(&iw, &palette);
    check(d.is_ok(), 1);
    let d = d.ok()?;
    let m = decomposed_image_matrix(&d);
    check((m.nrows() == 3) & (m.ncols() == pal.len()) & (d.num_channels() == pal.len()) & (d.width() == 3) & (d.height() == 1), 2);
    if m.ncols() != pal.len() { return None }
    for (row, c) in [(0, 1), (2, pal.len() - 1)] {
        for i in 0..pal.len() { close(m[(row, i)], if i == c { 1.0 } else { 0.0 }, 1e-5, 3); }
    }
    Some((0..pal.len()).map(|c| m[(1, c)]).collect())
}

fn common(pal: &[C3], w: &[f64]) -> V {
    let mut q = V::zeros();
    let mut s = 0.0;
    for (c, w) in pal.iter().zip(w) {
        le(-1e-5, *w, 4);
        s += *w;
        q += v(c) * *w;
    }
    close(s, 1.0, 1e-6, 5);
    for i in 0..3 { obs(i as u32, q[i]); }
    q
}

/// C04. Case = palette * 16 + family.
#[no_mangle]
pub extern "C" fn h_star_inside(case: u64) {
    let pal = PALETTES[case as usize / 16];
    let p = pixel(case % 16, 0.0, 255.0);
    let mut inside = true;
    for (n, o) in planes(pal) { inside &= n.dot(&p) + o <= 0.0; }
    assume(inside);
    let Some(w) = weights(pal, p) else { return };
    let q = common(pal, &w);
    for i in 0..3 { close(q[i], p[i], 1e-5, 10); }
    reach(1);
}

/// C05. Case = palette * 16 + family.
#[no_mangle]
pub extern "C" fn h_star_outside(case: u64) {
    let pal = PALETTES[case as usize / 16];
    let p = pixel(case % 16, 0.0, 255.0);
    let mut inside = true;
    for (n, o) in planes(pal) { inside &= n.dot(&p) + o <= 1e-4; }
    assume(!inside);
    let Some(w) = weights(pal, p) else { return };
    let q = common(pal, &w);
    // q is the closest mix: every colour that takes part in it is as far in the direction of p
    // as any other colour
    let d = p - q;
    for i in 0..pal.len() {
        let mut best = true;
        for j in 0..pal.len() { best &= d.dot(&(v(&pal[j]) - v(&pal[i]))) <= 1e-2; }
        check((w[i] <= 1e-5) | best, 11);
    }
    reach(1);
}

fn decompose(pal: &[C3]) -> Result<DecomposedImage, String> {
    let palette: Vec<Rgb<u8>> = pal.iter().map(|c| Rgb(*c)).collect();
    let iw = image_weights_from_parts(CsrMatrix::identity(2), vec![V::new(60.0, 70.0, 80.0), V::new(90.0, 10.0, 20.0)], 1, 2);
    DecomposedImage::new(&iw, &palette)
}

/// o, a, b, c span a volume and p is in it
fn in_tetrahedron(o: [i64; 3], a: [i64; 3], b: [i64; 3], c: [i64; 3], p: [i64; 3]) -> bool {
    let s = |a: [i64; 3], b: [i64; 3]| [a[0] - b[0], a[1] - b[1], a[2] - b[2]];
    let (a, b, c, p) = (s(a, o), s(b, o), s(c, o), s(p, o));
    let det = dot(a, cross(b, c));
    let l1 = dot(p, cross(b, c));
    let l2 = dot(a, cross(p, c));
    let l3 = dot(a, cross(b, p));
    let pos = (det > 0) & (l1 >= 0) & (l2 >= 0) & (l3 >= 0) & (l1 + l2 + l3 <= det);
    let neg = (det < 0) & (l1 <= 0) & (l2 <= 0) & (l3 <= 0) & (l1 + l2 + l3 >= det);
    pos | neg
}

/// some colour is in the hull of the others; only for colours that span a volume
fn redundant(pal: &[C3]) -> bool {
    let q: Vec<[i64; 3]> = pal.iter().map(|c| [c[0] as i64, c[1] as i64, c[2] as i64]).collect();
    let n = q.len();
    let mut r = false;
    for i in 0..n { for j in i + 1..n { for k in j + 1..n { for l in k + 1..n { for p in 0..n {
        if p == i || p == j || p == k || p == l { continue }
        r |= in_tetrahedron(q[i], q[j], q[k], q[l], q[p]);
    } } } } }
    r
}
fn spans(pal: &[C3]) -> bool {
    let n = pal.len();
    let mut r = false;
    for i in 1..n { for j in i + 1..n { for k in j + 1..n {
        r |= dot(sub(&pal[i], &pal[0]), cross(sub(&pal[j], &pal[0]), sub(&pal[k], &pal[0]))) != 0;
    } } }
    r
}

fn verdict(pal: &[C3]) {
    let n = pal.len();
    let r = decompose(pal);
    let bad = (n < 4) || redundant(pal);
    match r {
        Ok(d) => {
            check(!bad, 20);
            check((d.num_channels() == n) & (d.width() == 1) & (d.height() == 2), 21);
            reach(1);
        }
        Err(_) => { check(bad, 22); reach(2); }
    }
}

/// C06: three or fewer colours of any value
#[no_mangle]
pub extern "C" fn h_pal_few(case: u64) {
    let n = case as usize;
    let pal: Vec<C3> = (0..n).map(|c| [0, 1, 2].map(|j| byte((c * 3 + j) as u32))).collect();
    check(decompose(&pal).is_err(), 23);
    reach(1);
}

/// C06: fixed palettes with repeated, inner, edge, side and corner colours
#[no_mangle]
pub extern "C" fn h_pal_fixed(case: u64) {
    const MORE: [&[C3]; 15] = [
        &[[0, 0, 0], [255, 0, 0], [0, 255, 0], [0, 0, 255], [255, 0, 0]],
        &[[0, 0, 0], [0, 0, 0], [255, 0, 0], [0, 255, 0], [0, 0, 255]],
        &[[0, 0, 0], [255, 0, 0], [0, 255, 0], [0, 0, 255], [0, 0, 255]],
        // inside
        &[[0, 0, 0], [255, 0, 0], [0, 255, 0], [0, 0, 255], [40, 50, 60]],
        &[[40, 50, 60], [0, 0, 0], [255, 0, 0], [0, 255, 0], [0, 0, 255]],
        // on an edge, on a side
        &[[0, 0, 0], [255, 0, 0], [0, 255, 0], [0, 0, 255], [100, 0, 0]],
        &[[0, 0, 0], [255, 0, 0], [0, 255, 0], [0, 0, 255], [100, 50, 0]],
        &[[0, 0, 0], [240, 0, 0], [0, 240, 0], [0, 0, 240], [80, 80, 80]],
        // one level outside of the side
        &[[0, 0, 0], [240, 0, 0], [0, 240, 0], [0, 0, 240], [80, 80, 81]],
        &[[0, 0, 0], [240, 0, 0], [0, 240, 0], [0, 0, 240], [80, 80, 79]],
        // the corners of a cube and its middle, or its corners twice
        &[[0, 0, 0], [255, 0, 0], [0, 255, 0], [255, 255, 0], [0, 0, 255], [255, 0, 255], [0, 255, 255], [255, 255, 255], [127, 127, 127]],
        &[[0, 0, 0], [255, 0, 0], [0, 255, 0], [255, 255, 0], [0, 0, 255], [255, 0, 255], [0, 255, 255], [255, 255, 255], [255, 255, 255]],
        // inside, with two components of a corner
        &[[100, 100, 250], [100, 100, 5], [20, 20, 120], [220, 30, 120], [210, 220, 120], [30, 200, 120], [100, 100, 121]],
        &[[100, 250, 100], [100, 5, 100], [100, 119, 100], [20, 120, 20], [220, 120, 30], [210, 120, 220], [30, 120, 200]],
        &[[130, 100, 100], [250, 100, 100], [5, 100, 100], [120, 20, 20], [120, 220, 30], [120, 210, 220], [120, 30, 200]],
    ];
    let i = case as usize;
    let p = if i < MORE.len() { MORE[i] } else { PALETTES[i - MORE.len()] };
    verdict(p);
}

/// C06: one component of one colour is any byte
#[no_mangle]
pub extern "C" fn h_pal_line(case: u64) {
    let t = byte(0);
    let u = |k: i32| -> u8 { k as u8 };
    let mut pal: Vec<C3> = vec![[0, 0, 0], [240, 0, 0], [0, 240, 0], [0, 0, 240]];
    match case {
        0 => pal.push([t, u(60), u(60)]),
        1 => pal.push([t, 0, 0]),
        2 => pal.push([80, t, 80]),
        3 => pal.insert(0, [40, 30, t]),
        4 => pal[3] = [10, 20, t],
        5 => pal[0] = [t, 200, 30],
        6 => { pal.push([240, 240, t]); }
        7 => { pal = vec![[t, 0, 0], [200, 10, 30], [30, 250, 60], [120, 40, 250], [220, 200, 190]]; }
        8 => { pal = vec![[250, 250, 250], [200, 10, 30], [30, t, 60], [120, 40, 250], [10, 5, 20]]; }
        // two components of a corner
        10 | 11 | 12 => {
            let k = case as usize - 10;
            let turn = |c: C3| -> C3 { [c[(k + 1) % 3], c[(k + 2) % 3], c[k]] };
            pal = [[0, 0, 0], [240, 0, 0], [0, 240, 0], [60, 60, 240], [60, 60, t]].map(turn).to_vec();
        }
        // one component of each of three corners
        13 => pal.push([240, t, 0]),
        14 => pal.insert(2, [0, 240, t]),
        _ => { pal = vec![[250, 0, 250], [200, 10, 30], [30, 60, t], [120, 240, 250], [10, 5, 20], [250, 250, 2]]; }
    }
    assume(spans(&pal));
    verdict(&pal);
}
