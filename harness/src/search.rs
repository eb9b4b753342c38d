//! C08, C09: simplex search of the array-based triangulation. C21: the raw search and solvers.
use crate::sym::*;
use nalgebra::Const;
use qhull_rs::{Delaunay, RawDelaunay};

/// Points without a pattern, in multiples of 1/64.
const fn scattered<const N: usize, const K: usize>(seed: u64) -> [[f64; N]; K] {
    let mut out = [[0.0; N]; K];
    let (mut s, mut i) = (seed, 0);
    while i < K * N {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        out[i / N][i % N] = ((s >> 33) % 4096) as f64 / 64.0;
        i += 1;
    }
    out
}
static BIG2: [[f64; 2]; 70] = scattered(1);
static BIG3: [[f64; 3]; 32] = scattered(2);

pub static P2: [&[[f64; 2]]; 10] = [
    // 0: one simplex
    &[[0.0, 0.0], [4.0, 0.0], [1.0, 3.0]],
    // 1: two simplices
    &[[0.0, 0.0], [4.0, 0.5], [1.0, 3.0], [-1.0, -2.0]],
    // 2: square and its middle
    &[[0.0, 0.0], [4.0, 0.0], [4.0, 4.0], [0.0, 4.0], [2.0, 2.0]],
    // 3: grid
    &[[0.0, 0.0], [1.0, 0.0], [2.0, 0.0], [0.0, 1.0], [1.0, 1.0], [2.0, 1.0], [0.0, 2.0], [1.0, 2.0], [2.0, 2.0]],
    // 4: general position, obtuse
    &[[2.37, 0.77], [5.18, 1.55], [1.78, 4.32], [3.25, 2.01], [9.5, 3.25], [0.5, 0.25], [6.0, 6.5]],
    // 5: far from the origin
    &[[1000.5, -2000.25], [1004.0, -2001.0], [1001.25, -1996.5], [1008.0, -1995.0], [1002.0, -1999.5]],
    // 6: needles
    &[[0.0, 0.0], [16.0, 0.125], [32.0, 0.0], [8.0, -0.25], [24.0, 0.375]],
    // 7: repeated points, a point on an edge
    &[[0.0, 0.0], [4.0, 0.0], [0.0, 4.0], [4.0, 0.0], [2.0, 2.0], [5.0, 5.0], [2.0, 0.0]],
    // 8: cocircular
    &[[5.0, 0.0], [4.0, 3.0], [3.0, 4.0], [0.0, 5.0], [-3.0, 4.0], [-5.0, 0.0], [-4.0, -3.0], [0.0, -5.0], [3.0, -4.0]],
    // 9: many (ids above 255)
    &BIG2,
];
pub static P3: [&[[f64; 3]]; 9] = [
    &[[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]],
    &[[0.1, 0.2, 0.9], [0.9, 0.1, 0.2], [0.3, 0.8, 0.1], [0.7, 0.75, 0.9], [0.5, 0.5, 0.45]],
    // cube (all corners on one sphere)
    &[[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [1.0, 1.0, 0.0], [0.0, 0.0, 1.0], [1.0, 0.0, 1.0], [0.0, 1.0, 1.0], [1.0, 1.0, 1.0]],
    // octahedron
    &[[2.0, 0.0, 0.0], [-2.0, 0.0, 0.0], [0.0, 2.0, 0.0], [0.0, -2.0, 0.0], [0.0, 0.0, 2.0], [0.0, 0.0, -2.0]],
    // cube and its middle
    &[[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [1.0, 1.0, 0.0], [0.0, 0.0, 1.0], [1.0, 0.0, 1.0], [0.0, 1.0, 1.0], [1.0, 1.0, 1.0], [0.5, 0.5, 0.5]],
    // two layers of a grid
    &[[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [2.0, 0.0, 0.0], [0.0, 1.0, 0.0], [1.0, 1.0, 0.0], [2.0, 1.0, 0.0],
      [0.0, 0.0, 1.0], [1.0, 0.0, 1.0], [2.0, 0.0, 1.0], [0.0, 1.0, 1.0], [1.0, 1.0, 1.0], [2.0, 1.0, 1.0]],
    &[[12.0, 40.0, 7.0], [250.0, 3.0, 30.0], [18.0, 220.0, 60.0], [99.0, 80.0, 251.0], [240.0, 230.0, 20.0], [200.0, 120.0, 210.0], [100.0, 100.0, 100.0]],
    // a layer of 3 x 3 with one point above
    &[[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [2.0, 0.0, 0.0], [0.0, 1.0, 0.0], [1.0, 1.0, 0.0], [2.0, 1.0, 0.0], [0.0, 2.0, 0.0], [1.0, 2.0, 0.0], [2.0, 2.0, 0.0], [0.5, 0.5, 1.0]],
    // many (ids above 255)
    &BIG3,
];
pub const P5: [&[[f64; 5]]; 4] = [
    &[[0.0; 5], [1.0, 0.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 0.0, 1.0, 0.0], [0.0, 0.0, 0.0, 0.0, 1.0]],
    &[[0.1, 0.2, 0.3, 0.0, 0.0], [0.9, 0.1, 0.0, 0.5, 0.0], [0.2, 0.7, 0.1, 0.0, 0.5], [0.4, 0.3, 0.9, 0.5, 0.5], [0.6, 0.8, 0.7, 0.25, 0.0], [0.0, 0.4, 0.6, 0.0, 0.25], [0.7, 0.2, 0.4, 0.5, 0.25]],
    // pixels of a 3 x 3 image
    &[[0.0, 0.0, 0.0, 0.0, 0.0], [1.0, 0.0, 0.0, 0.25, 0.0], [0.0, 1.0, 0.0, 0.5, 0.0], [0.0, 0.0, 1.0, 0.0, 0.25], [0.5, 0.5, 0.25, 0.25, 0.25], [1.0, 1.0, 0.0, 0.5, 0.25], [1.0, 0.0, 1.0, 0.0, 0.5], [0.0, 1.0, 1.0, 0.25, 0.5], [1.0, 1.0, 1.0, 0.5, 0.5]],
    // a lattice
    &[[0.0; 5], [1.0, 0.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0, 0.0], [1.0, 1.0, 0.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 0.0, 1.0, 0.0], [0.0, 0.0, 0.0, 0.0, 1.0], [0.0, 0.0, 0.0, 1.0, 1.0]],
];

/// The inverse of the matrix of a simplex's vertices with a row of ones; None when it is flat.
pub fn solver(verts: &[Vec<f64>]) -> Option<Vec<Vec<f64>>> {
    let n = verts.len();
    let mut a: Vec<Vec<f64>> = (0..n)
        .map(|r| (0..2 * n).map(|c| if c < n { if r < n - 1 { verts[c][r] } else { 1.0 } } else if c - n == r { 1.0 } else { 0.0 }).collect())
        .collect();
    let mut scale = 0.0f64;
    for r in &a { for x in &r[..n] { scale = scale.max(x.abs()); } }
    for c in 0..n {
        let mut p = c;
        for r in c..n { if a[r][c].abs() > a[p][c].abs() { p = r } }
        if a[p][c].abs() < 1e-9 * scale { return None }
        a.swap(c, p);
        let d = a[c][c];
        for x in &mut a[c] { *x /= d }
        for r in 0..n {
            if r == c { continue }
            let f = a[r][c];
            if f == 0.0 { continue }
            for k in 0..2 * n { let t = a[c][k]; a[r][k] -= f * t }
        }
    }
    Some(a.into_iter().map(|r| r[n..].to_vec()).collect())
}

pub fn apply(m: &[Vec<f64>], p: &[f64]) -> Vec<f64> {
    m.iter().map(|r| {
        let mut s = r[p.len()];
        for i in 0..p.len() { s += r[i] * p[i] }
        s
    }).collect()
}

pub fn bounds<const N: usize>(pts: &[[f64; N]]) -> ([f64; N], [f64; N]) {
    let (mut lo, mut hi) = (pts[0], pts[0]);
    for p in pts { for i in 0..N { lo[i] = lo[i].min(p[i]); hi[i] = hi[i].max(p[i]); } }
    (lo, hi)
}

/// A point of the bounding box or up to half its size outside, with coordinates of its own or,
/// when `line` is not 0, on a line through the middle.
pub fn query<const N: usize>(pts: &[[f64; N]], line: u64, id: u32) -> [f64; N] {
    let (lo, hi) = bounds(pts);
    let mut p = [0.0; N];
    if line == 0 {
        for i in 0..N { let r = (hi[i] - lo[i]) * 0.5; p[i] = real(id + i as u32, lo[i] - r, hi[i] + r); }
    } else {
        let t = real(id, -1.0, 1.0);
        for i in 0..N {
            let k = [0.75, -0.5, 0.3125, 0.875, -0.625, 0.1875, 0.5, -0.9375][(i + 3 * line as usize) % 8];
            p[i] = (lo[i] + hi[i]) * 0.5 + (hi[i] - lo[i]) * (0.0625 * line as f64) + (hi[i] - lo[i]) * k * t;
        }
    }
    p
}

/// some simplex of the list holds p with all coordinates at least `margin`
pub fn covered(solvers: &[Option<Vec<Vec<f64>>>], p: &[f64], margin: f64) -> bool {
    let mut any = false;
    for s in solvers {
        let Some(s) = s else { continue };
        let mut all = true;
        for l in apply(s, p) { all &= l >= margin; }
        any |= all;
    }
    any
}

const EPS: [f64; 3] = [f64::EPSILON, 1e-10, 1e-4];

macro_rules! array_search {
    ($n:literal, $np1:literal, $sets:ident, $one:ident, $two:ident, $life:ident) => {
        fn $life(case: u64) {
            let pts = $sets[case as usize % 16];
            let tri = Delaunay::<Const<$n>>::from_arrays(pts);
            let sim: Vec<Vec<Vec<f64>>> = tri.simplices().map(|s| s.vertices().map(|v| v.point().as_slice().to_vec()).collect()).collect();
            let solvers: Vec<_> = sim.iter().map(|s| solver(s)).collect();
            let mode = case / 16;
            // bit 0: brute force; bits 1, 2: tolerance; bit 3: earlier searches; bit 4: tolerance changes; bits 5..: line
            let mut searcher = tri.simplex_searcher();
            let eps = EPS[(mode as usize >> 1 & 3) % 3];
            let line = mode >> 5;
            check(!searcher.bruteforce(), 20);
            check(searcher.eps() == f64::EPSILON, 21);
            if mode & 8 != 0 {
                // an earlier search, for a corner of an extended box, a vertex, an inner point or any point of a line
                let (lo, hi) = bounds(pts);
                let k = choose(50, 0, 7);
                let mut q = pts[k as usize % pts.len()];
                if k < 4 {
                    for i in 0..$n { q[i] = if k >> (i % 2) & 1 == 1 { hi[i] + 0.25 * (hi[i] - lo[i]) } else { lo[i] - 0.25 * (hi[i] - lo[i]) }; }
                } else if k == 6 { q = query(pts, 1, 60); }
                else if k == 7 { for i in 0..$n { q[i] = 0.5 * lo[i] + 0.5 * hi[i]; } }
                if mode & 16 != 0 { searcher.set_eps(1e-3); searcher.set_bruteforce(k & 1 == 0); }
                let r = searcher.find_simplex(&q.into());
                if let Some(s) = r { check(s.index() < sim.len(), 22); }
                if k == 5 { searcher.clear_start_hint(); }
            }
            searcher.set_eps(eps);
            searcher.set_bruteforce(mode & 1 != 0);
            check(searcher.bruteforce() == (mode & 1 != 0), 20);
            check(searcher.eps() == eps, 21);
            let p = query(pts, line, 0);
            let mut c = nalgebra::SVector::<f64, $np1>::from_element(7.0);
            let r = searcher.find_simplex_mut(&p.into(), &mut c);
            match r {
                Some(s) => {
                    check(s.index() < sim.len(), 1);
                    let vs: Vec<_> = s.vertices().collect();
                    check(vs.len() == $n + 1, 2);
                    let mut sum = 0.0;
                    for i in 0..$n + 1 {
                        le(-eps * 1.5 - 1e-9, c[i], 3);
                        le(c[i], 1.0 + eps * 1.5 + 1e-9, 4);
                        sum += c[i];
                    }
                    close(sum, 1.0, 1e-9, 5);
                    let (lo, hi) = bounds(pts);
                    for k in 0..$n {
                        let mut x = 0.0;
                        for i in 0..$n + 1 { x += c[i] * vs[i].point()[k]; }
                        close(x, p[k], 1e-7 * (1.0 + hi[k] - lo[k]), 6);
                        close(vs[0].point()[k], sim[s.index()][0][k], 0.0, 7);
                    }
                    let again = searcher.barycentric_coords(s, p.into());
                    for i in 0..$n + 1 { close(again[i], c[i], 1e-9, 8); }
                    for i in 0..$n + 1 { obs(i as u32, c[i]); }
                    reach(1);
                }
                None => {
                    check(!covered(&solvers, &p, if eps > 1e-12 { 0.0 } else { 1e-7 }), 9);
                    reach(2);
                }
            }
        }
        /// Case = point set + 16 * mode.
        #[no_mangle]
        pub extern "C" fn $one(case: u64) { $life(case) }
        #[no_mangle]
        pub extern "C" fn $two(case: u64) { $life(case | 8 * 16) }
    };
}
array_search!(2, 3, P2, h_search2, h_again2, life2);
array_search!(3, 4, P3, h_search3, h_again3, life3);
array_search!(5, 6, P5, h_search5, h_again5, life5);

macro_rules! hint_ref { ($h:ident) => { $h.as_mut().map(|h| unsafe { &mut *(h as *mut _ as *mut _) }) } }
macro_rules! raw_search {
    ($n:literal, $np1:literal, $sets:ident, $name:ident, $name_b:ident) => {
        fn $name_b(case: u64) {
            let pts = $sets[case as usize % 16];
            let mode = case / 16;
            // bits 0, 1: tolerance, none given for 3; bit 2: with coordinates; bits 3, 4: start hint; bits 5..: line
            let tri = RawDelaunay::<Const<$n>>::from_arrays(pts);
            let cache = tri.compute_barycentric_solver_cache();
            let lower: Vec<_> = tri.simplices().filter(|s| !s.is_upper_delaunay()).collect();
            let solvers: Vec<_> = lower.iter().map(|s| solver(&s.vertices().map(|v| v.point().to_vec()).collect::<Vec<_>>())).collect();
            let tol = match mode & 3 { 3 => None, k => Some(EPS[k as usize]) };
            let eps = tol.unwrap_or(100.0 * f64::EPSILON);
            let hints: Vec<_> = match mode >> 3 & 3 {
                0 => vec![],
                1 => lower.clone(),
                _ => tri.simplices().collect(),
            };
            let mut hint = if hints.is_empty() { None } else { Some(hints[choose(50, 0, hints.len() as u64 - 1) as usize]) };
            let p = query(pts, mode >> 5, 0);
            let mut c = nalgebra::SVector::<f64, $np1>::from_element(7.0);
            let (r, coords) = if mode & 4 != 0 {
                let r = tri.find_best_simplex(p.into(), &cache, tol, Some(&mut c), hint_ref!(hint));
                (r, true)
            } else {
                (tri.find_best_simplex__(p.into(), &cache, tol, hint_ref!(hint)), false)
            };
            match r {
                Some(s) => {
                    let at = lower.iter().position(|f| f.id() == s.id());
                    check(at.is_some(), 1);
                    let Some(at) = at else { return };
                    if let Some(h) = hint { check(h.id() == s.id(), 2); }
                    if !coords {
                        let sol = cache.get(&lower[at]);
                        check(sol.is_some(), 3);
                        if let Some(sol) = sol { sol.solve_mut(p.into(), &mut c); }
                    }
                    let mut sum = 0.0;
                    for i in 0..$n + 1 {
                        le(-eps * 1.5 - 1e-9, c[i], 4);
                        le(c[i], 1.0 + eps * 1.5 + 1e-9, 4);
                        sum += c[i];
                    }
                    close(sum, 1.0, 1e-9, 5);
                    let vs: Vec<_> = lower[at].vertices().collect();
                    let (lo, hi) = bounds(pts);
                    for k in 0..$n {
                        let mut x = 0.0;
                        for i in 0..$n + 1 { x += c[i] * vs[i].point()[k]; }
                        close(x, p[k], 1e-7 * (1.0 + hi[k] - lo[k]), 6);
                    }
                    for i in 0..$n + 1 { obs(i as u32, c[i]); }
                    reach(1);
                }
                None => {
                    check(!covered(&solvers, &p, if eps > 1e-12 { 0.0 } else { 1e-7 }), 9);
                    reach(2);
                }
            }
        }
        #[no_mangle]
        pub extern "C" fn $name(case: u64) { $name_b(case) }
    };
}
raw_search!(2, 3, P2, h_raw2, raw2);
raw_search!(3, 4, P3, h_raw3, raw3);
raw_search!(5, 6, P5, h_raw5, raw5);

/// C21: every solver of a triangulation, and solvers made directly, for every point
#[no_mangle]
pub extern "C" fn h_solver3(case: u64) {
    use qhull_rs::raw::BarycentricSolver;
    let pts = P3[case as usize];
    let tri = RawDelaunay::<Const<3>>::from_arrays(pts);
    let cache = tri.compute_barycentric_solver_cache();
    let p = [real(0, -4.0, 260.0), real(1, -4.0, 260.0), real(2, -4.0, 260.0)];
    let mut found = 0;
    for s in tri.simplices() {
        if s.is_upper_delaunay() { continue }
        let vs: Vec<_> = s.vertices().collect();
        let flat = solver(&vs.iter().map(|v| v.point().to_vec()).collect::<Vec<_>>()).is_none();
        let Some(sol) = cache.get(&s) else { check(flat, 1); continue };
        if flat { continue }
        found += 1;
        let direct = BarycentricSolver::<Const<3>>::new(nalgebra::SMatrix::<f64, 3, 4>::from_fn(|r, c| vs[c].point()[r]));
        let mut m = nalgebra::SVector::<f64, 4>::from_element(3.0);
        direct.solve_mut(p.into(), &mut m);
        let d2 = direct.solve(p.into());
        let c = sol.solve(p.into());
        let mut sum = 0.0;
        for i in 0..4 { sum += c[i]; close(c[i], m[i], 1e-5, 2); close(d2[i], m[i], 1e-9, 3); }
        close(sum, 1.0, 1e-6, 4);
        for k in 0..3 {
            let mut x = 0.0;
            for i in 0..4 { x += c[i] * vs[i].point()[k]; }
            close(x, p[k], 1e-5, 5);
        }
        obs(found, c[0]);
    }
    check(found > 0, 6);
    reach(1);
}
