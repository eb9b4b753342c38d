//! C10: closest point of a triangle.
use crate::sym::*;
use image_palette_recoloring::verif::{triangle_closest_point, triangle_distance_sqr};
use nalgebra::Vector3;
type V = Vector3<f64>;

const TRIS: [([f64; 3], [f64; 3], [f64; 3]); 12] = [
    ([0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0]),
    // obtuse at each corner in turn
    ([0.0, 0.0, 0.0], [4.0, 0.0, 0.0], [-3.0, 1.0, 0.0]),
    ([4.0, 0.0, 0.0], [0.0, 0.0, 0.0], [-3.0, 1.0, 0.0]),
    ([4.0, 0.0, 1.0], [-3.0, 1.0, 2.0], [0.0, 0.0, 1.0]),
    // general position
    ([2.25, 0.75, 4.65], [4.875, 1.59, 3.256], [1.78, 0.315, 4.3]),
    ([0.5, 3.0, -4.0], [2.0, -3.6, 3.6], [-2.1, 1.75, 4.25]),
    // palette sized
    ([0.0, 0.0, 0.0], [255.0, 0.0, 0.0], [0.0, 255.0, 0.0]),
    ([255.0, 0.0, 10.0], [12.0, 200.0, 31.0], [90.0, 80.0, 255.0]),
    ([255.0, 255.0, 255.0], [0.0, 255.0, 17.0], [3.0, 1.0, 2.0]),
    // slivers
    ([0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.5, 0.0078125, 0.0]),
    ([0.0, 0.0, 0.0], [0.0078125, 0.0, 1.0], [-0.0078125, 0.0, 1.0]),
    ([10.0, 10.0, 10.0], [11.0, 11.0, 10.5], [9.0, 9.0, 9.0]),
];

/// q is the point of the triangle closest to p: the optimality conditions of the projection
/// onto a convex set, stated without case distinctions on the code's path.
fn closest(p: &V, q: &V, v: [&V; 3], tol: f64) {
    // coordinates of q in the triangle
    let e0 = v[1] - v[0];
    let e1 = v[2] - v[0];
    let d = q - v[0];
    let (a, b, c) = (e0.dot(&e0), e0.dot(&e1), e1.dot(&e1));
    let det = a * c - b * b;
    let l1 = (c / det * e0 - b / det * e1).dot(&d);
    let l2 = (a / det * e1 - b / det * e0).dot(&d);
    let l = [1.0 - l1 - l2, l1, l2];
    let back = v[0] + e0 * l1 + e1 * l2;
    for i in 0..3 { close(back[i], q[i], tol, 10); }
    for i in 0..3 { le(-tol, l[i], 11); }
    // whatever corner takes part in q is at least as far in the direction of p as any other
    let dir = p - q;
    for i in 0..3 {
        let mut best = true;
        for j in 0..3 { best &= dir.dot(&(v[j] - v[i])) <= tol * 100.0; }
        check((l[i] <= tol) | best, 12);
    }
}

#[no_mangle]
pub extern "C" fn h_tri(case: u64) {
    let (v0, v1, v2) = TRIS[case as usize];
    let (v0, v1, v2): (V, V, V) = (v0.into(), v1.into(), v2.into());
    let mut lo = 0.0f64;
    let mut hi = 0.0f64;
    for x in v0.iter().chain(v1.iter()).chain(v2.iter()) { lo = lo.min(*x); hi = hi.max(*x); }
    let r = (hi - lo) * 1.5;
    let (lo, hi) = (lo - r, hi + r);
    let p = V::new(real(0, lo, hi), real(1, lo, hi), real(2, lo, hi));
    let q = triangle_closest_point(&p, &v0, &v1, &v2);
    for i in 0..3 { obs(i as u32, q[i]); }
    closest(&p, &q, [&v0, &v1, &v2], 1e-7);
    let d = triangle_distance_sqr(&p, &v0, &v1, &v2);
    close(d, (p - q).dot(&(p - q)), 1e-6, 13);
    reach(1);
}

/// A triangle in the plane z = 0 with one side from the origin along x, of symbolic shape.
#[no_mangle]
pub extern "C" fn h_tri_shape(case: u64) {
    let (s, b, c) = (real(0, 0.25, 4.0), real(1, -3.0, 3.0), real(2, 0.25, 3.0));
    let a = V::new(0.0, 0.0, 0.0);
    let bb = V::new(s, 0.0, 0.0);
    let cc = V::new(b, c, 0.0);
    let (v0, v1, v2) = match case { 0 => (a, bb, cc), 1 => (bb, cc, a), _ => (cc, a, bb) };
    let p = V::new(real(3, -5.0, 5.0), real(4, -5.0, 5.0), 0.0);
    let q = triangle_closest_point(&p, &v0, &v1, &v2);
    for i in 0..3 { obs(i as u32, q[i]); }
    // in the triangle: on the inner side of its three lines
    le(-1e-7, q.y, 20);
    le(-1e-7, c * q.x - b * q.y, 21);
    le(-1e-7, c * (s - q.x) + (b - s) * q.y, 22);
    close(q.z, 0.0, 1e-7, 23);
    let d = p - q;
    for v in [&a, &bb, &cc] { le(d.dot(&(v - q)), 1e-6, 24); }
    reach(1);
}
