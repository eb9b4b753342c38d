//! C11, C12, C13: hulls, triangulations, planes and lifting.
use crate::search::{apply, bounds, covered, query, solver, P2, P3, P5};
use crate::sym::*;
use nalgebra::{Const, SMatrix, SVector};
use qhull_rs::{ConvexHull, Delaunay};

/// Everything C11 says about a hull of `pts`.
macro_rules! hull_ok {
    ($n:literal, $ch:expr, $pts:expr, $tol:expr) => {{
        let (ch, pts, tol): (&ConvexHull<Const<$n>>, &[[f64; $n]], f64) = ($ch, $pts, $tol);
        let vs: Vec<_> = ch.vertices().collect();
        let fs: Vec<_> = ch.facets().collect();
        check(ch.vertices().len() == vs.len() && ch.facets().len() == fs.len(), 1);
        check(vs.len() > $n && fs.len() > $n, 2);
        for (i, v) in vs.iter().enumerate() {
            check(v.index() == i, 3);
            check(v.point().len() == $n, 3);
            let mut input = false;
            for p in pts {
                let mut same = true;
                for k in 0..$n { same &= v.point()[k] == p[k]; }
                input |= same;
            }
            check(input, 4);
            check(fs.iter().any(|f| f.vertices().any(|w| w.index() == i)), 5);
        }
        for (i, f) in fs.iter().enumerate() {
            check(f.index() == i, 6);
            let n = f.normal();
            close(n.dot(n), 1.0, 1e-6, 7);
            let corners: Vec<_> = f.vertices().collect();
            check(f.vertices().len() == $n && corners.len() == $n, 8);
            for a in 0..$n { for b in 0..a { check(corners[a] != corners[b] && corners[a].index() != corners[b].index(), 9); } }
            for v in &corners { close(n.dot(v.point()) + f.offset(), 0.0, tol, 10); }
            for p in pts { le(n.dot(&SVector::<f64, $n>::from(*p)) + f.offset(), tol, 11); }
            let ns: Vec<_> = f.neighbors().collect();
            check(f.neighbors().len() == $n && ns.len() == $n, 12);
            for k in 0..$n {
                check(ns[k].index() < fs.len() && ns[k].index() != i, 13);
                for (m, v) in corners.iter().enumerate() {
                    check(ns[k].vertices().any(|w| w == *v) == (m != k), 14);
                }
                check(ns[k].neighbors().any(|b| b.index() == i), 15);
            }
        }
        (vs.len(), fs.len())
    }};
}
macro_rules! oriented {
    ($ch:expr) => {
        for f in $ch.facets() {
            let v: Vec<_> = f.vertices().map(|v| *v.point()).collect();
            let n = (v[1] - v[0]).cross(&(v[2] - v[0]));
            le(0.0, f.normal().dot(&n), 16);
        }
    };
}

const COLOURS: [&[[f64; 3]]; 5] = [
    &[[0.0, 0.0, 0.0], [255.0, 0.0, 0.0], [0.0, 255.0, 0.0], [0.0, 0.0, 255.0], [255.0, 255.0, 255.0], [120.0, 110.0, 100.0]],
    &[[0.25, 0.125, 0.0], [1.0, 0.375, 0.25], [0.5, 1.0, 0.125], [0.0, 0.75, 0.875], [0.75, 0.625, 1.0], [0.5, 0.5, 0.5], [0.25, 0.25, 0.625]],
    // inner points, repeated points, points on sides and edges of a box
    &[[0.0, 0.0, 0.0], [4.0, 0.0, 0.0], [0.0, 4.0, 0.0], [4.0, 4.0, 0.0], [0.0, 0.0, 4.0], [4.0, 0.0, 4.0], [0.0, 4.0, 4.0], [4.0, 4.0, 4.0],
      [4.0, 4.0, 4.0], [2.0, 2.0, 0.0], [2.0, 0.0, 0.0], [1.0, 2.0, 3.0], [4.0, 1.0, 1.0]],
    &[[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]],
    &[[10.0, 0.0, 0.0], [240.0, 30.0, 20.0], [250.0, 235.0, 15.0], [20.0, 230.0, 240.0], [128.0, 20.0, 230.0], [240.0, 240.0, 250.0], [30.0, 200.0, 40.0], [200.0, 60.0, 160.0]],
];

fn sets3(k: usize) -> Vec<[f64; 3]> { if k < P3.len() { P3[k].to_vec() } else { COLOURS[k - P3.len()].to_vec() } }

/// C11: fixed sets with every coordinate moved and scaled by any amount of a range
#[no_mangle]
pub extern "C" fn h_hull3(case: u64) {
    let pts = sets3(case as usize % 16);
    let pts: Vec<[f64; 3]> = match case / 16 {
        0 => pts,
        // one coordinate of one point anywhere on a line through the set
        k => {
            let k = k as usize - 1;
            let (lo, hi) = bounds(&pts);
            let a = k % 3;
            let t = real(0, lo[a] - 0.5 * (hi[a] - lo[a]), hi[a] + 0.5 * (hi[a] - lo[a]));
            let mut pts = pts;
            let i = (k / 3) % pts.len();
            pts[i][a] = t;
            pts
        }
    };
    let (lo, hi) = ([-400.0; 3], [600.0; 3]);
    let _ = (lo, hi);
    let ch = ConvexHull::<Const<3>>::from_arrays(&pts);
    let (v, f) = hull_ok!(3, &ch, &pts, 1e-6);
    check(f == 2 * v - 4, 17);
    oriented!(ch);
    reach(1);
    obsi(0, v as u64); obsi(1, f as u64);
    // the iterator makes the same hull
    let it: ConvexHull<Const<3>> = pts.iter().map(|p| (*p).into()).collect();
    check(it.vertices().len() == v && it.facets().len() == f, 18);
}

/// C11 in the plane: one point anywhere in a box
#[no_mangle]
pub extern "C" fn h_hull2(case: u64) {
    let mut pts = P2[case as usize % 16].to_vec();
    let (lo, hi) = bounds(&pts);
    let i = (case as usize / 16) % pts.len();
    if case >= 256 {
        // a line
        let t = real(0, lo[0] - 0.5 * (hi[0] - lo[0]), hi[0] + 0.5 * (hi[0] - lo[0]));
        pts[i] = [t, lo[1] + 0.25 * (hi[1] - lo[1])];
    } else {
        let (wx, wy) = (0.5 * (hi[0] - lo[0]), 0.5 * (hi[1] - lo[1]));
        pts[i] = [real(0, lo[0] - wx, hi[0] + wx), real(1, lo[1] - wy, hi[1] + wy)];
    }
    let ch = ConvexHull::<Const<2>>::from_arrays(&pts);
    let (v, f) = hull_ok!(2, &ch, &pts, 1e-5);
    check(v == f, 17);
    reach(1);
    obsi(0, v as u64);
}

/// C11 in five dimensions: fixed sets, or one coordinate on a line
#[no_mangle]
pub extern "C" fn h_hull5(case: u64) {
    let mut pts = P5[case as usize % 16].to_vec();
    if case >= 16 {
        let k = case as usize / 16 - 1;
        let i = (k / 5) % pts.len();
        pts[i][k % 5] = real(0, -0.5, 1.5);
    }
    let ch = ConvexHull::<Const<5>>::from_arrays(&pts);
    hull_ok!(5, &ch, &pts, 1e-5);
    reach(1);
}

macro_rules! triangulation {
    ($n:literal, $np1:literal, $sets:ident, $cover:ident, $tri_ok:ident) => {
        /// The parts of C12 about one triangulation.
        fn $tri_ok(tri: &Delaunay<Const<$n>>, pts: &[[f64; $n]], tol: f64) -> Vec<Vec<Vec<f64>>> {
            let vs: Vec<_> = tri.vertices().collect();
            let ss: Vec<_> = tri.simplices().collect();
            check(tri.vertices().len() == vs.len() && tri.simplices().len() == ss.len() && ss.len() > 0, 1);
            for (i, v) in vs.iter().enumerate() {
                check(v.index() == i, 2);
                let mut input = false;
                for p in pts {
                    let mut same = true;
                    for k in 0..$n { same &= v.point()[k] == p[k]; }
                    input |= same;
                }
                check(input, 3);
            }
            let mut out = vec![];
            for (i, s) in ss.iter().enumerate() {
                check(s.index() == i, 4);
                let c: Vec<_> = s.vertices().collect();
                let ns: Vec<_> = s.neighbors().collect();
                check(c.len() == $n + 1 && ns.len() == $n + 1, 5);
                for a in 0..$n + 1 { for b in 0..a { check(c[a].index() != c[b].index(), 6); } }
                for k in 0..$n + 1 {
                    match &ns[k] {
                        Some(t) => {
                            check(t.index() < ss.len() && t.index() != i, 7);
                            for (m, v) in c.iter().enumerate() {
                                check(t.vertices().any(|w| w.index() == v.index()) == (m != k), 8);
                            }
                            check(t.neighbors().any(|b| b.map(|b| b.index()) == Some(i)), 9);
                        }
                        None => {
                            // no other simplex has this face
                            for (j, t) in ss.iter().enumerate() {
                                check(j == i || !c.iter().enumerate().all(|(m, v)| m == k || t.vertices().any(|w| w.index() == v.index())), 10);
                            }
                        }
                    }
                }
                out.push(c.iter().map(|v| v.point().as_slice().to_vec()).collect());
            }
            let _ = tol;
            out
        }
        /// C12: case = set + 16 * line
        #[no_mangle]
        pub extern "C" fn $cover(case: u64) {
            let pts = $sets[case as usize % 16];
            let tri = Delaunay::<Const<$n>>::from_arrays(pts);
            let sim = $tri_ok(&tri, pts, 1e-9);
            let solvers: Vec<_> = sim.iter().map(|s: &Vec<Vec<f64>>| solver(s)).collect();
            let (lo, hi) = bounds(pts);
            // no input point strictly inside a circumscribed sphere
            for (s, inv) in sim.iter().zip(&solvers) {
                let Some(inv) = inv else { continue };
                // lifted value of the sphere at p: sum of coordinates * |v|^2
                for p in pts {
                    let l = apply(inv, p);
                    let mut h = 0.0;
                    let mut scale = 1.0f64;
                    for (l, v) in l.iter().zip(s.iter()) {
                        let mut q = 0.0;
                        for k in 0..$n { let d = v[k] - lo[k]; q += d * d; }
                        h += l * q;
                        scale = scale.max((l * q).abs());
                    }
                    let mut q = 0.0;
                    for k in 0..$n { let d = p[k] - lo[k]; q += d * d; }
                    le(h, q + 1e-9 * scale, 20);
                }
            }
            // every input point is in some simplex
            for p in pts { check(covered(&solvers, p, -1e-9), 21); }
            let p = query(pts, case / 16, 0);
            // inside all outer faces: on the inner side of every face without a neighbour
            let mut inside = true;
            for s in tri.simplices() {
                let Some(inv) = &solvers[s.index()] else { continue };
                let l = apply(inv, &p);
                for (k, n) in s.neighbors().enumerate() { if n.is_none() { inside &= l[k] >= 0.0; } }
            }
            // the same with the hull
            let ch = ConvexHull::<Const<$n>>::from_arrays(pts);
            let mut hull = true;
            let mut wide = true;
            let size = (0..$n).map(|k| hi[k] - lo[k]).fold(0.0, f64::max);
            for f in ch.facets() {
                let d = f.normal().dot(&SVector::<f64, $n>::from(p)) + f.offset();
                hull &= d <= 0.0;
                wide &= d <= 1e-6 * size;
            }
            // covered, and by the simplices only
            check(!hull | covered(&solvers, &p, -1e-6), 22);
            check(wide | !covered(&solvers, &p, 0.0), 23);
            check(!hull | inside | !covered(&solvers, &p, 1e-6), 26);
            // once: the simplex of a strictly inner point is the only one
            if solvers.len() > 60 {
                // many simplices: their volumes add up to the hull's
                let det = |m: &[Vec<f64>]| SMatrix::<f64, $np1, $np1>::from_fn(|r, c| if r < $n { m[c][r] } else { 1.0 }).determinant().abs();
                let mut sum = 0.0;
                for s in &sim { sum += det(s); }
                let mut all = 0.0;
                for f in ch.facets() {
                    let mut s: Vec<Vec<f64>> = f.vertices().map(|v| v.point().as_slice().to_vec()).collect();
                    s.push((0..$n).map(|k| (lo[k] + hi[k]) * 0.5).collect());
                    all += det(&s);
                }
                close(sum, all, 1e-9 * all, 27);
                reach(1);
                obsi(0, sim.len() as u64);
                return;
            }
            for i in 0..solvers.len() {
                let Some(a) = &solvers[i] else { continue };
                let mut strict = true;
                for l in apply(a, &p) { strict &= l >= 1e-6; }
                let mut other = false;
                for (j, b) in solvers.iter().enumerate() {
                    if i == j { continue }
                    let Some(b) = b else { continue };
                    let mut all = true;
                    for l in apply(b, &p) { all &= l >= 1e-6; }
                    other |= all;
                }
                check(!(strict & other), 24);
            }
            reach(1);
            obsi(0, sim.len() as u64);
        }
    };
}
triangulation!(2, 3, P2, h_cover2, tri_ok2);
triangulation!(3, 4, P3, h_cover3, tri_ok3);
triangulation!(5, 6, P5, h_cover5, tri_ok5);

/// C12 in the plane: one point of the set anywhere
#[no_mangle]
pub extern "C" fn h_del2(case: u64) {
    let mut pts = P2[case as usize % 16].to_vec();
    let (lo, hi) = bounds(&pts);
    let i = (case as usize / 16) % pts.len();
    let (wx, wy) = (0.5 * (hi[0] - lo[0]), 0.5 * (hi[1] - lo[1]));
    if case >= 256 {
        pts[i][1] = real(0, lo[1] - wy, hi[1] + wy);
    } else {
        pts[i] = [real(0, lo[0] - wx, hi[0] + wx), real(1, lo[1] - wy, hi[1] + wy)];
    }
    let tri = Delaunay::<Const<2>>::from_arrays(&pts);
    let sim = tri_ok2(&tri, &pts, 1e-6);
    let det = |a: &[f64], b: &[f64], c: &[f64]| (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]);
    for (s, t) in sim.iter().zip(tri.simplices()) {
        let (a, b, c) = (&s[0], &s[1], &s[2]);
        let area = det(a, b, c);
        // empty circle
        for p in &pts {
            let r = |v: &[f64]| { let (x, y) = (v[0] - p[0], v[1] - p[1]); (x, y, x * x + y * y) };
            let ((ax, ay, aq), (bx, by, bq), (cx, cy, cq)) = (r(a), r(b), r(c));
            let m = aq * (bx * cy - by * cx) - bq * (ax * cy - ay * cx) + cq * (ax * by - ay * bx);
            let m = if area > 0.0 { m } else { -m };
            le(m, 1e-4, 20);
        }
        // outer faces have all points on one side
        for (k, n) in t.neighbors().enumerate() {
            if n.is_some() { continue }
            let (u, w) = (&s[(k + 1) % 3], &s[(k + 2) % 3]);
            let side = if det(u, w, &s[k]) > 0.0 { 1.0 } else { -1.0 };
            for p in &pts { le(-1e-4, side * det(u, w, p), 25); }
        }
    }
    reach(1);
    obsi(0, sim.len() as u64);
}

