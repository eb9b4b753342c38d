//! C19: hulls and triangulations from construction to release.
use crate::search::{bounds, P2, P3, P5};
use crate::sym::*;
use nalgebra::{Const, SVector};
use qhull_rs::{ConvexHull, Delaunay, RawDelaunay, RawHull};

/// One thing of each kind is built, moved, read all over and released. `p`: a point that a search asks for.
macro_rules! life {
    ($n:literal, $m:literal, $set:expr, $kind:expr) => {{
        let pts: Vec<[f64; $n]> = $set;
        let (lo, hi) = bounds(&pts);
        let live = heap_live();
        match $kind {
            0 | 5 => {
                let h = if $kind == 0 { RawHull::<Const<$n>>::from_arrays(&pts) } else { pts.iter().map(|p| SVector::<f64, $n>::from(*p)).collect() };
                let h = Box::new(h);
                for v in h.vertices() { readable(v.point()); check(v.point().len() == $n, 1); obsi(1, v.id()); }
                for f in h.facets() {
                    readable(f.normal());
                    check(f.normal().len() == $n, 2);
                    obs(2, f.offset());
                    for v in f.vertices() { readable(v.point()); }
                    for g in f.neighbors() { readable(g.normal()); obsi(3, g.id()); }
                    let _ = f.is_upper_delaunay();
                }
            }
            1 | 6 => {
                let t = if $kind == 1 { RawDelaunay::<Const<$n>>::from_arrays(&pts) } else {
                    RawDelaunay::from_vectors(&pts.iter().map(|p| SVector::<f64, $n>::from(*p)).collect::<Vec<_>>())
                };
                let t = Box::new(t);
                for v in t.vertices() { readable(v.point()); check(v.point().len() == $n, 3); }
                for v in t.full_vertices() { readable(v.point()); check(v.point().len() == $n + 1, 4); }
                for f in t.simplices() {
                    readable(f.normal());
                    check(f.normal().len() == $n + 1, 5);
                    for v in f.vertices() { readable(v.point()); }
                    for g in f.neighbors() { readable(g.normal()); }
                }
                for f in t.full_simplices() { readable(f.normal()); check(f.normal().len() == $n + 1, 6); }
                let cache = t.compute_barycentric_solver_cache();
                let p = SVector::<f64, $n>::from_fn(|k, _| if k == 0 { real(0, 2.0 * lo[0] - hi[0], 2.0 * hi[0] - lo[0]) } else { lo[k] + 0.4375 * (hi[k] - lo[k]) });
                let mut bc = SVector::<f64, $m>::zeros();
                if let Some(f) = t.find_best_simplex(p, &cache, None, Some(&mut bc), None) { obsi(4, f.id()); }
                drop(t);
            }
            2 => {
                let h = ConvexHull::<Const<$n>>::from_arrays(&pts);
                let h = Box::new(h);
                for v in h.vertices() { readable(v.point().as_slice()); }
                for f in h.facets() {
                    readable(f.normal().as_slice());
                    for v in f.vertices() { readable(v.point().as_slice()); }
                    for g in f.neighbors() { readable(g.normal().as_slice()); }
                }
            }
            3 => {
                let t = Box::new(Delaunay::<Const<$n>>::from_arrays(&pts));
                let mut s = t.simplex_searcher();
                let p = SVector::<f64, $n>::from_fn(|k, _| if k == 0 { real(0, 2.0 * lo[0] - hi[0], 2.0 * hi[0] - lo[0]) } else { lo[k] + 0.4375 * (hi[k] - lo[k]) });
                for x in t.simplices() {
                    for v in x.vertices() { readable(v.point().as_slice()); }
                    for y in x.neighbors().flatten() { obsi(5, y.index() as u64); }
                }
                let mut bc = SVector::<f64, $m>::zeros();
                if let Some(x) = s.find_simplex_mut(&p, &mut bc) { obsi(6, x.index() as u64); }
                let _ = s.find_simplex(&p);
            }
            _ => {
                // several at once, released in another order
                let mut a = RawHull::<Const<$n>>::from_arrays(&pts);
                let b = RawDelaunay::<Const<$n>>::from_arrays(&pts);
                let mut c = RawHull::<Const<$n>>::from_arrays(&pts);
                std::mem::swap(&mut a, &mut c);
                let d = ConvexHull::from_qhull_raw(a);
                for v in c.vertices() { readable(v.point()); }
                drop(c);
                for v in d.vertices() { readable(v.point().as_slice()); }
                let e = Delaunay::from_qhull_raw(b);
                drop(d);
                for v in e.vertices() { readable(v.point().as_slice()); }
            }
        }
        check(heap_live() == live, 900);
        reach(1);
    }};
}
/// case: set + 16 * kind
#[no_mangle]
pub extern "C" fn h_life2(case: u64) { life!(2, 3, P2[case as usize % 16].to_vec(), case / 16) }
#[no_mangle]
pub extern "C" fn h_life3(case: u64) { life!(3, 4, P3[case as usize % 16].to_vec(), case / 16) }
#[no_mangle]
pub extern "C" fn h_life5(case: u64) { life!(5, 6, P5[case as usize % 16].to_vec(), case / 16) }
