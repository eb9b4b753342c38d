//! C22 (and C13): the raw view of the hull library's structures, made with any contents.
use crate::sym::*;
use nalgebra::{Const, SVector};
use qhull_rs::raw::verif::{facet_from_ptr, facet_ptr, hull_from_qh, vertex_from_ptr, vertex_ptr};
use qhull_rs::raw::{Facet, Vertex};
use qhull_sys::{facetT, qhT, setT, vertexT};
use std::ffi::c_void;

extern "C" {
    fn qhf_facet(id: u32, flags: u32, offset: f64, normal: *mut f64, center: *mut f64) -> *mut facetT;
    fn qhf_vertex(id: u32, point: *mut f64) -> *mut vertexT;
    fn qhf_set(n: i32, spare: i32, elems: *mut *mut c_void) -> *mut setT;
    fn qhf_facet_sets(f: *mut facetT, v: *mut setT, n: *mut setT, r: *mut setT);
    fn qhf_vertex_sets(v: *mut vertexT, n: *mut setT);
    fn qhf_facet_link(f: *mut facetT, prev: *mut facetT, next: *mut facetT);
    fn qhf_vertex_link(f: *mut vertexT, prev: *mut vertexT, next: *mut vertexT);
    fn qhf_qh(dim: i32, f: *mut facetT, v: *mut vertexT) -> *mut qhT;
    fn qhh_distplane(qh: *mut qhT, p: *mut f64, f: *mut facetT) -> f64;
}
fn reals(id: u32, n: usize) -> &'static mut [f64] {
    Vec::leak((0..n as u32).map(|i| real(id + i, -1e3, 1e3)).collect())
}
fn set<T>(e: &[*mut T], spare: i32) -> *mut setT {
    let mut v: Vec<*mut c_void> = e.iter().map(|p| *p as *mut c_void).collect();
    unsafe { qhf_set(v.len() as i32, spare, v.as_mut_ptr()) }
}

/// every field of a facet and of its vertices; `d`: dimension of the hull, `n`: of the points
macro_rules! fields {
    ($n:literal, $d:expr, $case:expr) => {{
        let (d, spare, many): (usize, i32, usize) = ($d, ($case % 2) as i32, ($case / 2) as usize);
        let normal = reals(100, d);
        let center = reals(120, d);
        let offset = real(1, -1e3, 1e3);
        let id = int(2, 1, 0xffff_ffff) as u32;
        let flags = int(3, 0, 0x7f_ffff) as u32;
        let f = unsafe { qhf_facet(id, flags, offset, normal.as_mut_ptr(), center.as_mut_ptr()) };
        let points: Vec<&'static mut [f64]> = (0..d).map(|k| reals(200 + 10 * k as u32, d)).collect();
        let vids: Vec<u32> = (0..d).map(|k| int(10 + k as u32, 0, 0xffff_ffff) as u32).collect();
        let vs: Vec<*mut vertexT> = points.iter().zip(&vids).map(|(p, i)| unsafe { qhf_vertex(*i, p.as_ptr() as *mut f64) }).collect();
        let ns: Vec<*mut facetT> = (0..d + many).map(|k| unsafe { qhf_facet(900 + k as u32, 0, 0.5, normal.as_mut_ptr(), center.as_mut_ptr()) }).collect();
        let rs: Vec<*mut facetT> = ns[..1].to_vec();
        unsafe { qhf_facet_sets(f, set(&vs, spare), set(&ns, 1 - spare), set(&rs, 1)) };
        let vn: Vec<*mut facetT> = ns.iter().rev().copied().collect();
        unsafe { qhf_vertex_sets(vs[0], set(&vn, spare)) };

        let g: Facet<'_, Const<$n>> = unsafe { facet_from_ptr(f) };
        check(facet_ptr(&g) == f, 1);
        check(g.id() == id as u64, 2);
        check(g.offset() == offset, 3);
        check(g.is_upper_delaunay() == (flags & 1 == 1), 4);
        check(g.normal().len() == d, 5);
        readable(g.normal());
        for k in 0..d { check(g.normal()[k] == normal[k], 6); }
        let gv: Vec<_> = g.vertices().collect();
        check(gv.len() == d, 7);
        for k in 0..d.min(gv.len()) {
            check(vertex_ptr(&gv[k]) == vs[k], 8);
            check(gv[k].id() == vids[k] as u64, 9);
            check(gv[k].point().len() == $n, 10);
            for j in 0..$n { check(gv[k].point()[j] == points[k][j], 11); }
        }
        let gn: Vec<_> = g.neighbors().collect();
        check(gn.len() == ns.len(), 12);
        for k in 0..ns.len().min(gn.len()) { check(facet_ptr(&gn[k]) == ns[k], 13); }
        let v: Vertex<'_, Const<$n>> = unsafe { vertex_from_ptr(vs[0]) };
        let wn: Vec<_> = v.neighbors().collect();
        check(wn.len() == vn.len(), 14);
        for k in 0..vn.len().min(wn.len()) { check(facet_ptr(&wn[k]) == vn[k], 15); }
        // a copy of an iterator goes on from the same place
        let mut a = g.neighbors();
        a.next();
        let b = a;
        check(a.count() == ns.len() - 1 && b.count() == ns.len() - 1, 16);
        reach(1);
        obs(0, g.offset()); obsi(1, g.id());
    }};
}
/// case: spare room in the sets + 2 * further neighbours + 16 * kind of structure
#[no_mangle]
pub extern "C" fn h_raw_fields(case: u64) {
    let c = case % 16;
    match case / 16 {
        0 => fields!(2, 2, c),
        1 => fields!(3, 3, c),
        2 => fields!(5, 5, c),
        3 => fields!(2, 3, c),
        4 => fields!(3, 4, c),
        5 => fields!(5, 6, c),
        _ => (),
    }
}

/// lists of 0 to 6 facets and vertices with any ids; the end marker has id 0 and no successor
#[no_mangle]
pub extern "C" fn h_raw_lists(case: u64) {
    let n = case as usize % 8;
    let normal = reals(100, 3);
    let mut fs: Vec<*mut facetT> = (0..n).map(|k| unsafe { qhf_facet(int(k as u32, 1, 0xffff_ffff) as u32, 0, 0.0, normal.as_mut_ptr(), normal.as_mut_ptr()) }).collect();
    fs.push(unsafe { qhf_facet(0, 0, 0.0, std::ptr::null_mut(), std::ptr::null_mut()) });
    let mut vs: Vec<*mut vertexT> = (0..n).map(|k| unsafe { qhf_vertex(int(50 + k as u32, 1, 0xffff_ffff) as u32, normal.as_mut_ptr()) }).collect();
    vs.push(unsafe { qhf_vertex(0, std::ptr::null_mut()) });
    for k in 0..=n {
        unsafe {
            let null = std::ptr::null_mut();
            qhf_facet_link(fs[k], if k > 0 { fs[k - 1] } else { null }, if k < n { fs[k + 1] } else { null });
            let null = std::ptr::null_mut();
            qhf_vertex_link(vs[k], if k > 0 { vs[k - 1] } else { null }, if k < n { vs[k + 1] } else { null });
        }
    }
    let qh = unsafe { qhf_qh(3, fs[0], vs[0]) };
    let hull = std::mem::ManuallyDrop::new(unsafe { hull_from_qh::<Const<3>>(qh) });
    let mut k = 0;
    for f in hull.facets() {
        check(k < n && facet_ptr(&f) == fs[k], 1);
        k += 1;
    }
    check(k == n, 2);
    let mut k = 0;
    for v in hull.vertices() {
        check(k < n && vertex_ptr(&v) == vs[k], 3);
        k += 1;
    }
    check(k == n, 4);
    let mut it = hull.facets();
    for _ in 0..n { check(it.next().is_some(), 5); }
    check(it.next().is_none() && it.next().is_none(), 6);
    let mut it = hull.vertices();
    for _ in 0..n { check(it.next().is_some(), 7); }
    check(it.next().is_none() && it.next().is_none(), 8);
    reach(1);
}

/// C13: the distance from any plane, as the library computes it
macro_rules! distance {
    ($n:literal) => {{
        let normal = reals(100, $n);
        let offset = real(1, -1e3, 1e3);
        let p = reals(200, $n);
        let f = unsafe { qhf_facet(7, 0, offset, normal.as_mut_ptr(), normal.as_mut_ptr()) };
        let qh = unsafe { qhf_qh($n, f, std::ptr::null_mut()) };
        let g: Facet<'_, Const<$n>> = unsafe { facet_from_ptr(f) };
        let d = g.plane_distance(&SVector::<f64, $n>::from_iterator(p.iter().copied()));
        let mut want = offset;
        for k in 0..$n { want += normal[k] * p[k]; }
        close(d, want, 1e-3, 1);
        close(d, unsafe { qhh_distplane(qh, p.as_mut_ptr(), f) }, 1e-3, 2);
        reach(1);
        obs(0, d);
    }};
}
#[no_mangle]
pub extern "C" fn h_raw_distance(case: u64) {
    match case {
        0 => distance!(2), 1 => distance!(3), 2 => distance!(4), 3 => distance!(5), 4 => distance!(6), 5 => distance!(7), _ => distance!(8),
    }
}
