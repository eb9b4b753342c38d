//! C13: planes and lifting.
use crate::search::{bounds, P2, P3, P5};
use crate::sym::*;
use nalgebra::{Const, SVector};
use qhull_rs::raw::verif as rv;
use qhull_rs::{ConvexHull, Delaunay, RawDelaunay, RawHull};

extern "C" {
    fn qhh_distplane(qh: *mut qhull_sys::qhT, p: *const f64, f: *mut qhull_sys::facetT) -> f64;
    fn qhh_lift(qh: *mut qhull_sys::qhT, dim: i32, p: *mut f64);
    fn qhh_facet_count(qh: *mut qhull_sys::qhT, lower: i32) -> i32;
    fn qhh_vertex_count(qh: *mut qhull_sys::qhT) -> i32;
}

/// C13: planes of hull facets, any point
macro_rules! planes {
    ($n:literal, $sets:ident, $name:ident) => {
        #[no_mangle]
        pub extern "C" fn $name(case: u64) {
            let pts = $sets[case as usize];
            let raw = RawHull::<Const<$n>>::from_arrays(pts);
            let qh = rv::hull_qh(&raw);
            let p: [f64; $n] = std::array::from_fn(|i| real(i as u32, -300.0, 300.0));
            let pv = SVector::<f64, $n>::from(p);
            check(raw.facets().count() == unsafe { qhh_facet_count(qh, 0) } as usize, 1);
            check(raw.vertices().count() == unsafe { qhh_vertex_count(qh) } as usize, 2);
            let raws: Vec<(f64, f64)> = raw.facets().map(|f| {
                let d = f.plane_distance(&pv);
                let c = unsafe { qhh_distplane(qh, p.as_ptr(), rv::facet_ptr(&f)) };
                close(d, c, 1e-9, 3);
                let mut own = f.offset();
                for i in 0..$n { own += f.normal()[i] * p[i]; }
                close(d, own, 1e-9, 4);
                (d, f.offset())
            }).collect();
            // and of the array-based hull
            let ch = ConvexHull::<Const<$n>>::from_arrays(pts);
            check(ch.facets().len() == raws.len(), 5);
            for (f, (d, o)) in ch.facets().zip(&raws) {
                close(f.normal().dot(&pv) + f.offset(), *d, 1e-9, 6);
                close(f.offset(), *o, 0.0, 7);
                obs(0, *d);
            }
            reach(1);
        }
    };
}
planes!(2, P2, h_planes2);
planes!(3, P3, h_planes3);
planes!(5, P5, h_planes5);

/// C13: planes of simplices and lifting, any point
macro_rules! lifts {
    ($n:literal, $np1:literal, $sets:ident, $name:ident) => {
        #[no_mangle]
        pub extern "C" fn $name(case: u64) {
            let pts = $sets[case as usize];
            let raw = RawDelaunay::<Const<$n>>::from_arrays(pts);
            let qh = rv::delaunay_qh(&raw);
            let tri = Delaunay::<Const<$n>>::from_arrays(pts);
            let (lo, hi) = bounds(pts);
            let size = (0..$n).map(|k| hi[k].abs().max(lo[k].abs())).fold(1.0, f64::max);
            let p: [f64; $n] = std::array::from_fn(|i| real(i as u32, -300.0, 300.0));
            // any point of the lifted space
            let mut up = SVector::<f64, $np1>::zeros();
            for i in 0..$n { up[i] = p[i]; }
            up[$n] = real(20, -300.0, 300.0);
            let lower: Vec<_> = raw.full_simplices().filter(|f| !f.is_upper_delaunay()).collect();
            check(raw.full_simplices().count() == unsafe { qhh_facet_count(qh, 0) } as usize, 1);
            check(lower.len() == unsafe { qhh_facet_count(qh, 1) } as usize, 2);
            check(tri.simplices().len() == lower.len(), 3);
            for (s, f) in tri.simplices().zip(&lower) {
                let a = s.plane_distance(&up);
                let b = f.plane_distance(&up);
                let c = unsafe { qhh_distplane(qh, up.as_ptr(), rv::facet_ptr(f)) };
                close(b, c, 1e-9, 4);
                close(a, c, 1e-9, 5);
                obs(1, c);
            }
            // the library's lifting
            let mut q = SVector::<f64, $np1>::zeros();
            for i in 0..$n { q[i] = p[i]; }
            q[$n] = 1.0;
            unsafe { qhh_lift(qh, $np1, q.as_mut_ptr()) };
            let l = tri.verif_lift_point(&p.into());
            for i in 0..$n { close(l[i], p[i], 0.0, 6); }
            close(l[$n], q[$n], 1e-7, 7);
            // the corners of a simplex, lifted, lie on its plane
            for s in tri.simplices() {
                for v in s.vertices() { close(s.plane_distance(&tri.verif_lift_point(v.point())), 0.0, 1e-9 * size, 8); }
            }
            reach(1);
            obs(2, l[$n]);
        }
    };
}
lifts!(2, 3, P2, h_lift2);
lifts!(3, 4, P3, h_lift3);
lifts!(5, 6, P5, h_lift5);
