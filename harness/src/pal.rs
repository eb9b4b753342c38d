//! C14, C15: palettes computed from an image.
use crate::sym::*;
use image::{Rgb, RgbImage};
use image_palette_recoloring::compute_palette;
use image_palette_recoloring::verif::{compute_pixel_error, locate_edge_to_collapse};
use nalgebra::{Const, Vector3};
use qhull_rs::ConvexHull;
type V = Vector3<f64>;
type P = [f64; 3];

fn v(p: &P) -> V { V::new(p[0], p[1], p[2]) }
fn hull(pts: &[V]) -> ConvexHull<Const<3>> { pts.iter().map(|p| [p.x, p.y, p.z].into()).collect() }
fn corners(h: &ConvexHull<Const<3>>) -> Vec<V> { h.vertices().map(|p| V::new(p.point()[0], p.point()[1], p.point()[2])).collect() }
fn clamped(pts: &[V]) -> Vec<V> { pts.iter().map(|p| V::new(p.x.clamp(0.0, 1.0), p.y.clamp(0.0, 1.0), p.z.clamp(0.0, 1.0))).collect() }

/// The triples with every point on one side: outward unit normal, offset, and the three points.
fn sides(pts: &[V]) -> Vec<(V, f64, [usize; 3])> {
    let mut out = vec![];
    for i in 0..pts.len() { for j in i + 1..pts.len() { for k in j + 1..pts.len() {
        let mut n = (pts[j] - pts[i]).cross(&(pts[k] - pts[i]));
        let l = n.norm();
        if l < 1e-9 { continue }
        n /= l;
        let (mut lo, mut hi) = (0.0f64, 0.0f64);
        for q in pts { let d = n.dot(&(q - pts[i])); lo = lo.min(d); hi = hi.max(d); }
        if lo < -1e-9 && hi > 1e-9 { continue }
        if hi > 1e-9 { n = -n }
        out.push((n, -n.dot(&pts[i]), [i, j, k]));
    } } }
    out
}

/// Whether p is in the hull, and the squared distances of p from points of the hull among which the closest is,
/// each with its condition.
fn distances(p: &V, pts: &[V]) -> (bool, Vec<(bool, f64)>) {
    let sides = sides(pts);
    let mut inside = true;
    let mut out = vec![];
    for (n, o, _) in &sides { inside &= n.dot(p) + o <= 0.0; }
    for q in pts { out.push((true, (p - q).norm_squared())); }
    let mut pairs = vec![];
    for (n, o, t) in &sides {
        // the projection on the plane, if it is in the triangle
        let d = n.dot(p) + o;
        let q = p - n * d;
        let (a, b, c) = (pts[t[0]], pts[t[1]], pts[t[2]]);
        let m = (b - a).cross(&(c - a));
        let s = (b - a).cross(&(q - a)).dot(&m) / m.norm_squared();
        let r = (q - a).cross(&(c - a)).dot(&m) / m.norm_squared();
        out.push(((s >= 0.0) & (r >= 0.0) & (s + r <= 1.0), d * d));
        for e in [(t[0], t[1]), (t[0], t[2]), (t[1], t[2])] { if !pairs.contains(&e) { pairs.push(e) } }
    }
    for (i, j) in pairs {
        let e = pts[j] - pts[i];
        let s = (p - pts[i]).dot(&e) / e.norm_squared();
        out.push(((s >= 0.0) & (s <= 1.0), (p - (pts[i] + e * s)).norm_squared()));
    }
    (inside, out)
}
/// squared distance from the hull, for a concrete point
fn distance(p: &V, pts: &[V]) -> f64 {
    let (inside, c) = distances(p, pts);
    if inside { return 0.0 }
    c.iter().filter(|c| c.0).map(|c| c.1).fold(f64::INFINITY, f64::min)
}

const HULLS: [&[P]; 6] = [
    &[[0.1, 0.1, 0.15], [0.9, 0.15, 0.1], [0.2, 0.85, 0.2], [0.3, 0.25, 0.9]],
    &[[0.5, 0.1, 0.2], [0.9, 0.6, 0.3], [0.15, 0.7, 0.25], [0.5, 0.45, 0.95], [0.45, 0.5, 0.05]],
    // corners out of range
    &[[-0.4, 0.1, 0.3], [1.3, 0.2, 0.25], [0.4, 1.5, 0.1], [0.35, 0.3, 0.9]],
    &[[-0.2, -0.3, 0.1], [0.9, -0.1, 0.2], [0.1, 1.2, 0.3], [0.4, 0.4, 1.6], [0.8, 0.9, 0.7]],
    // the cube, from a larger box
    &[[-0.1, -0.2, -0.1], [1.1, -0.2, 0.0], [0.0, 1.3, 0.0], [1.0, 1.0, -0.5], [0.0, 0.0, 1.2], [1.0, 0.0, 1.0], [0.0, 1.0, 1.1], [1.4, 1.2, 1.0]],
    &[[0.5, 0.45, 0.02], [0.52, 0.5, 0.95], [0.03, 0.5, 0.5], [0.97, 0.48, 0.52], [0.5, 0.04, 0.47], [0.46, 0.96, 0.5]],
];
/// lines through the colour cube
const LINES: [(P, P); 8] = [
    ([0.0, 0.0, 0.0], [1.0, 1.0, 1.0]),
    ([0.0, 1.0, 0.1], [1.0, 0.0, 0.6]),
    ([1.0, 0.3, 0.0], [0.0, 0.55, 1.0]),
    ([0.0, 0.0, 1.0], [0.125, 1.0, 0.75]),
    ([0.0, 0.0, 0.0], [1.0, 0.0, 0.0]),
    ([1.0, 0.0, 1.0], [1.0, 1.0, 0.0]),
    ([0.35, 0.3, 0.0], [0.47, 0.3, 1.0]),
    ([0.2, 0.0, 0.9], [0.9, 1.0, 0.8]),
];

/// C14: the error of a hull, for a pixel anywhere on a line. Case = hull + 8 * line.
#[no_mangle]
pub extern "C" fn h_palerr(case: u64) {
    let pts: Vec<V> = HULLS[case as usize % 8].iter().map(v).collect();
    let (a, b) = LINES[case as usize / 8];
    let t = real(0, 0.0, 1.0);
    let p = v(&a) + (v(&b) - v(&a)) * t;
    let clip = clamped(&pts);
    let h = hull(&pts);
    assert!(h.vertices().len() == pts.len());
    // two more pixels: a far one and one inside
    let far = V::new(1.0, 1.0, 0.95);
    let near = clip.iter().sum::<V>() / clip.len() as f64;
    let rest = 3.0 * distance(&far, &clip);
    let e = compute_pixel_error(&h, &[(far, 3.0), (p, 2.0), (near, 4.0)], 9.0);
    le(0.0, e, 1);
    // twice the squared distance of p
    let d = e * e * 9.0 - rest;
    let (inside, all) = distances(&p, &clip);
    check(!inside | (d <= 1e-6), 2);
    let mut some = inside;
    for (when, c) in &all {
        check(!*when | (d <= 2.0 * c + 1e-6), 3);
        some |= *when & (d >= 2.0 * c - 1e-6);
    }
    check(some, 4);
    obs(0, e);
    reach(1);
}

/// C14: the error is the average over the pixels, any counts
#[no_mangle]
pub extern "C" fn h_palerr_count(case: u64) {
    let pts: Vec<V> = HULLS[case as usize % 8].iter().map(v).collect();
    let clip = clamped(&pts);
    let pix = [V::new(1.0, 1.0, 0.95), V::new(0.0, 0.0, 0.0), clip.iter().sum::<V>() / clip.len() as f64, V::new(0.02, 0.9, 1.0)];
    let counts: Vec<f64> = (0..4).map(|i| real(i, 1.0, 1000.0)).collect();
    let total = counts.iter().sum::<f64>();
    let list: Vec<(V, f64)> = pix.iter().cloned().zip(counts.iter().cloned()).collect();
    let e = compute_pixel_error(&hull(&pts), &list, total);
    let mut own = 0.0;
    for (p, c) in &list { own += distance(p, &clip) * c; }
    le(0.0, e, 1);
    le(e * e * total, own + 1e-4, 2);
    le(own - 1e-4, e * e * total, 3);
    obs(0, e);
    reach(1);
}

/// C15: no colour of the old hull is outside of the new one, after every step. Case = set of colours + 16 * step
#[no_mangle]
pub extern "C" fn h_collapse(case: u64) {
    let mut pts = corners(&hull(&image(case % 16).pixels().map(|p| scaled(p)).collect::<Vec<_>>()));
    for _ in 0..case / 16 {
        let Some(q) = next(&pts) else { break };
        pts = q;
    }
    let h = hull(&pts);
    check(h.vertices().len() == pts.len(), 1);
    let old = corners(&h);
    let Some((point, gone)) = locate_edge_to_collapse(&h) else { reach(2); return };
    check((gone[0] != gone[1]) & (gone[0] < old.len()) & (gone[1] < old.len()), 2);
    let mut new: Vec<V> = vec![v(&point)];
    for (i, p) in old.iter().enumerate() { if !gone.contains(&i) { new.push(*p) } }
    check(new.len() == old.len() - 1, 3);
    let p = V::new(real(0, -2.0, 3.0), real(1, -2.0, 3.0), real(2, -2.0, 3.0));
    let mut inside = true;
    for (n, o, _) in sides(&old) { inside &= n.dot(&p) + o <= 0.0; }
    assume(inside);
    for (n, o, _) in sides(&new) { le(n.dot(&p) + o, 1e-6, 4); }
    reach(1);
}

/// C26: each step replaces the edge that adds the least, and its corner is the best one for the edge. Case as above.
#[no_mangle]
pub extern "C" fn h_cheapest(case: u64) {
    let mut pts = corners(&hull(&image(case % 16).pixels().map(|p| scaled(p)).collect::<Vec<_>>()));
    for _ in 0..case / 16 {
        let Some(q) = next(&pts) else { break };
        pts = q;
    }
    let h = hull(&pts);
    let old = corners(&h);
    let sides = sides(&old);
    // no four corners in a plane
    if sides.len() != 2 * old.len() - 4 { reach(3); return }
    let answer = locate_edge_to_collapse(&h);
    let p = V::new(real(0, -100.0, 100.0), real(1, -100.0, 100.0), real(2, -100.0, 100.0));
    let mut edges = vec![];
    for (_, _, t) in &sides {
        for (i, j) in [(t[0], t[1]), (t[0], t[2]), (t[1], t[2])] { if !edges.contains(&[i, j]) { edges.push([i, j]) } }
    }
    let mut chosen = None;
    let mut least = f64::INFINITY;
    for e in &edges {
        let faces: Vec<_> = sides.iter().filter(|(_, _, t)| t.contains(&e[0]) || t.contains(&e[1])).collect();
        let c: V = faces.iter().map(|f| f.0).sum();
        let outside = |q: &V, tol: f64| { let mut all = true; for (n, o, _) in &faces { all &= n.dot(q) + o >= -tol; } all };
        let volume = |q: &V| faces.iter().map(|(n, o, t)| (n.dot(q) + o) / 6.0 * (old[t[1]] - old[t[0]]).cross(&(old[t[2]] - old[t[0]])).norm()).sum::<f64>();
        // the corners of the region outside of all the faces
        let mut best: Vec<V> = vec![];
        for i in 0..faces.len() { for j in 0..i { for k in 0..j {
            let (a, b, d) = (faces[i], faces[j], faces[k]);
            let m = a.0.dot(&b.0.cross(&d.0));
            if m.abs() < 1e-9 { continue }
            let q = -(b.0.cross(&d.0) * a.1 + d.0.cross(&a.0) * b.1 + a.0.cross(&b.0) * d.1) / m;
            if !outside(&q, 1e-9 / m.abs()) { continue }
            let at = c.dot(&q);
            match best.first() { Some(b) if at > c.dot(b) + 1e-9 => continue, Some(b) if at < c.dot(b) - 1e-9 => best.clear(), _ => () }
            best.push(q);
        } } }
        match best.first() {
            // no point anywhere has a smaller sum of distances
            Some(b) => check(!outside(&p, -1e-7) | (c.dot(&p) >= c.dot(b) - 1e-6), 1),
            None => check(!outside(&p, -1e-7), 2),
        }
        if let Some((q, g)) = &answer {
            if g.contains(&e[0]) && g.contains(&e[1]) {
                let q = v(q);
                check(outside(&q, 1e-6), 3);
                check(!outside(&p, -1e-7) | (c.dot(&p) >= c.dot(&q) - 1e-6), 4);
                chosen = Some(volume(&q));
            }
        }
        let unique = best.iter().all(|q| (q - best[0]).amax() < 1e-6);
        if !best.is_empty() && unique { least = least.min(volume(&best[0])); }
        if answer.is_none() { check(!outside(&p, -1e-7), 5); }
    }
    if answer.is_some() {
        check(chosen.is_some(), 6);
        if let Some(c) = chosen { le(c, least + 1e-7, 7); obs(0, c); }
    }
    reach(1);
}

fn scaled(p: &Rgb<u8>) -> V { V::new(p[0] as f64 / 255.0, p[1] as f64 / 255.0, p[2] as f64 / 255.0) }

/// images: (width, colours in row-major order)
const IMAGES: [(u32, &[[u8; 3]]); 12] = [
    (2, &[[10, 20, 30], [240, 40, 20], [30, 230, 60], [50, 60, 250]]),
    (3, &[[10, 20, 30], [240, 40, 20], [30, 230, 60], [50, 60, 250], [200, 210, 190], [100, 100, 100]]),
    (4, &[[10, 20, 30], [240, 40, 20], [30, 230, 60], [50, 60, 250], [200, 210, 190], [100, 100, 100], [10, 20, 30], [220, 30, 180]]),
    // a flat end: corners that come close to or pass the range
    (2, &[[0, 0, 0], [255, 0, 10], [0, 255, 5], [250, 250, 20], [20, 10, 255], [240, 20, 250], [10, 245, 240], [255, 255, 255]]),
    (5, &[[128, 20, 30], [40, 90, 50], [220, 110, 40], [60, 200, 70], [190, 210, 80], [130, 120, 240], [120, 130, 140], [100, 60, 180], [160, 190, 170], [128, 20, 30]]),
    // one colour very often
    (40, &[[0, 0, 0], [255, 0, 10], [0, 255, 5], [250, 250, 20], [20, 10, 255], [240, 20, 250]]),
    (7, &[[5, 250, 120], [250, 10, 130], [120, 110, 0], [130, 140, 255], [10, 20, 110], [245, 235, 125], [128, 128, 128]]),
    (300, &[[30, 30, 30], [200, 40, 60], [50, 210, 40], [90, 60, 220], [220, 200, 210], [35, 32, 31]]),
    (3, &[[60, 60, 60], [180, 62, 58], [66, 190, 70], [58, 71, 200], [190, 188, 60], [185, 66, 195], [70, 180, 185], [201, 199, 203], [130, 128, 126]]),
    // many corners
    (4, &[[172, 204, 138], [67, 183, 154], [164, 162, 44], [162, 141, 209], [47, 120, 82], [221, 99, 100], [85, 78, 195], [118, 57, 52], [167, 36, 151]]),
    (3, &[[148, 227, 166], [61, 208, 100], [213, 190, 92], [85, 172, 214], [98, 154, 25], [224, 135, 182], [21, 117, 148], [191, 98, 37], [142, 80, 226], [60, 62, 68], [202, 44, 123], [99, 25, 155]]),
    (7, &[[109, 205, 134], [108, 195, 68], [169, 185, 134], [61, 175, 121], [158, 165, 56], [131, 155, 177], [66, 145, 63], [191, 135, 104], [74, 125, 159], [122, 115, 44], [160, 105, 154], [69, 95, 100], [155, 85, 85], [116, 75, 134]]),
];
fn image(n: u64) -> RgbImage {
    let (w, c) = IMAGES[n as usize];
    // filled up with one of the colours
    let h = if w >= 40 { 20 } else { (c.len() as u32 + w - 1) / w };
    RgbImage::from_fn(w, h, |x, y| Rgb(*c.get((y * w + x) as usize).unwrap_or(&c[c.len() - 1])))
}

/// the hull after one more step
fn next(pts: &[V]) -> Option<Vec<V>> {
    let h = hull(pts);
    let (p, gone) = locate_edge_to_collapse(&h)?;
    let mut all: Vec<V> = corners(&h).iter().enumerate().filter(|(i, _)| !gone.contains(i)).map(|(_, p)| *p).collect();
    all.push(v(&p));
    Some(corners(&hull(&all)))
}

/// C14, C15: any size limits and error bound
#[no_mangle]
pub extern "C" fn h_palette(case: u64) {
    let img = image(case);
    let (min, max) = (int(0, 0, 300) as usize, int(1, 0, 300) as usize);
    let bound = real(2, 0.0, 2.0);
    // the hulls of all steps and their errors
    let mut hulls = vec![corners(&hull(&img.pixels().map(scaled).collect::<Vec<_>>()))];
    let mut errors = vec![0.0];
    let mut colours: Vec<(Rgb<u8>, f64)> = vec![];
    for p in img.pixels() {
        match colours.iter_mut().find(|c| c.0 == *p) { Some(c) => c.1 += 1.0, None => colours.push((*p, 1.0)) }
    }
    while hulls.last().unwrap().len() > 4 {
        let Some(n) = next(hulls.last().unwrap()) else { break };
        if n.len() == hulls.last().unwrap().len() { break }
        let clip = clamped(&n);
        let sum: f64 = colours.iter().map(|(p, c)| c * distance(&scaled(p), &clip)).sum();
        errors.push((sum / (img.width() * img.height()) as f64).sqrt());
        hulls.push(n);
    }
    for e in &errors[1..] { assume((bound < *e - 1e-9) | (bound > *e + 1e-9)); }
    let pal = compute_palette(&img, min, max, bound);
    // as far as the limits allow
    let mut k = 0;
    while k + 1 < hulls.len() {
        if hulls[k].len() <= min { break }
        if hulls[k].len() <= max && errors[k + 1] > bound { break }
        k += 1;
    }
    check(pal.len() == hulls[k].len(), 1);
    if pal.len() != hulls[k].len() { return }
    check(pal.len() >= 4, 2);
    if hulls.last().unwrap().len() == 4 { check(pal.len() <= min.max(max).max(4), 3); }
    let mut left: Vec<V> = clamped(&hulls[k]).iter().map(|p| p * 255.0).collect();
    for c in &pal {
        let c = V::new(c[0] as f64, c[1] as f64, c[2] as f64);
        let at = (0..left.len()).min_by(|i, j| (left[*i] - c).norm().total_cmp(&(left[*j] - c).norm())).unwrap();
        let d = left.remove(at) - c;
        check(d.amax() <= 0.5 + 1e-6, 4);
    }
    if k == 0 { for c in &pal { check(colours.iter().any(|d| d.0 == *c), 5); } }
    obsi(0, pal.len() as u64);
    reach(1 + k as u32);
}
