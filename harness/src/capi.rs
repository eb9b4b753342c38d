//! C16, C17, C19: the C API, compiled from its source. The client (c/capi.c) is compiled against the shipped header.
//! The library behind it is the real one, or (in mock mode) one that records what it is asked for.
use crate::sym::*;
use std::cell::RefCell;

#[derive(Default)]
struct Mock {
    on: bool,
    /// what the library was asked for
    calls: u64,
    width: u64,
    height: u64,
    ptr: u64,
    len: u64,
    min: u64,
    max: u64,
    bound: f64,
    channel: u64,
    /// what it answers
    palette: Vec<[u8; 3]>,
    answer: u64,
    w: u32,
    h: u32,
    k: usize,
    pixels: Vec<u8>,
    drops: u64,
}
struct Shared(RefCell<Option<Mock>>);
unsafe impl Sync for Shared {}
static MOCK: Shared = Shared(RefCell::new(None));
fn mock<R>(f: impl FnOnce(&mut Mock) -> R) -> R { f(MOCK.0.borrow_mut().get_or_insert_with(Mock::default)) }

#[allow(dead_code, unused, non_snake_case)]
mod body {
    mod image_palette_recoloring {
        pub use ::image_palette_recoloring::*;
        use ::image::{GenericImageView, ImageBuffer, Luma, Pixel, Rgb};
        use super::super::mock;
        use std::ops::Deref;

        fn seen<C: Deref<Target = [u8]>>(img: &ImageBuffer<Rgb<u8>, C>) {
            mock(|m| {
                m.calls += 1;
                m.width = img.width() as u64;
                m.height = img.height() as u64;
                m.ptr = img.as_raw().as_ptr() as u64;
                m.len = img.as_raw().len() as u64;
            })
        }
        pub struct ImageWeights(Option<::image_palette_recoloring::ImageWeights>);
        impl ImageWeights {
            pub fn new<C: Deref<Target = [u8]>>(img: &ImageBuffer<Rgb<u8>, C>) -> Self {
                if mock(|m| m.on) {
                    seen(img);
                    return ImageWeights(None)
                }
                ImageWeights(Some(::image_palette_recoloring::ImageWeights::new(img)))
            }
            pub fn width(&self) -> u32 { self.0.as_ref().map_or(0, |r| r.width()) }
            pub fn height(&self) -> u32 { self.0.as_ref().map_or(0, |r| r.height()) }
        }
        impl Drop for ImageWeights {
            fn drop(&mut self) { if self.0.is_none() { mock(|m| m.drops += 1) } }
        }
        pub fn compute_palette<C: Deref<Target = [u8]>>(
            img: &ImageBuffer<Rgb<u8>, C>, min: usize, max: usize, bound: f64,
        ) -> Vec<Rgb<u8>> {
            if mock(|m| m.on) {
                seen(img);
                return mock(|m| {
                    m.min = min as u64;
                    m.max = max as u64;
                    m.bound = bound;
                    m.palette.iter().map(|c| Rgb(*c)).collect()
                })
            }
            ::image_palette_recoloring::compute_palette(img, min, max, bound)
        }
        pub struct DecomposedImage(Option<::image_palette_recoloring::DecomposedImage>);
        impl DecomposedImage {
            pub fn new(img: &ImageWeights, palette: &[Rgb<u8>]) -> Result<Self, String> {
                if mock(|m| m.on) {
                    return mock(|m| {
                        m.calls += 1;
                        m.width = img as *const _ as u64;
                        m.ptr = palette.as_ptr() as u64;
                        m.len = palette.len() as u64;
                        if m.answer != 0 { Ok(DecomposedImage(None)) } else { Err(String::from("refused")) }
                    })
                }
                ::image_palette_recoloring::DecomposedImage::new(img.0.as_ref().unwrap(), palette).map(|d| DecomposedImage(Some(d)))
            }
            pub fn num_channels(&self) -> usize { self.0.as_ref().map_or_else(|| mock(|m| m.k), |r| r.num_channels()) }
            pub fn width(&self) -> u32 { self.0.as_ref().map_or_else(|| mock(|m| m.w), |r| r.width()) }
            pub fn height(&self) -> u32 { self.0.as_ref().map_or_else(|| mock(|m| m.h), |r| r.height()) }
            pub fn get_channel_grayscale(&self, n: usize) -> Option<ImageBuffer<Luma<u8>, Vec<u8>>> {
                if let Some(r) = &self.0 { return r.get_channel_grayscale(n) }
                mock(|m| {
                    m.calls += 1;
                    m.channel = n as u64;
                    m.width = self as *const _ as u64;
                    if m.answer != 0 { ImageBuffer::from_raw(m.w, m.h, m.pixels.clone()) } else { None }
                })
            }
            pub fn reconstruct(&self, palette: &[Rgb<u8>]) -> Option<ImageBuffer<Rgb<u8>, Vec<u8>>> {
                if let Some(r) = &self.0 { return r.reconstruct(palette) }
                mock(|m| {
                    m.calls += 1;
                    m.width = self as *const _ as u64;
                    m.ptr = palette.as_ptr() as u64;
                    m.len = palette.len() as u64;
                    if m.answer != 0 { ImageBuffer::from_raw(m.w, m.h, m.pixels.clone()) } else { None }
                })
            }
        }
        impl Drop for DecomposedImage {
            fn drop(&mut self) { if self.0.is_none() { mock(|m| m.drops += 1) } }
        }
    }
    include!("/repo/image-palette-recoloring-c/src/lib.rs");
}

// ------------------------------------------------------------------ for the client
#[no_mangle]
pub extern "C" fn capi_mock(on: u64, answer: u64, w: u32, h: u32, k: u64) {
    mock(|m| *m = Mock { on: on != 0, answer, w, h, k: k as usize, ..Mock::default() })
}
/// what the mock library answers: colours or pixels
#[no_mangle]
pub unsafe extern "C" fn capi_mock_bytes(p: *const u8, n: u64, colours: u64) {
    mock(|m| for i in 0..n as usize {
        if colours != 0 { m.palette.push([*p.add(3 * i), *p.add(3 * i + 1), *p.add(3 * i + 2)]) } else { m.pixels.push(*p.add(i)) }
    })
}
#[no_mangle]
pub extern "C" fn capi_seen(what: u64) -> u64 {
    mock(|m| match what {
        0 => m.calls, 1 => m.width, 2 => m.height, 3 => m.ptr, 4 => m.len, 5 => m.min, 6 => m.max, 7 => m.channel, _ => m.drops,
    })
}
#[no_mangle]
pub extern "C" fn capi_seen_bound() -> f64 { mock(|m| m.bound) }
#[no_mangle]
pub extern "C" fn capi_mock_off() { *MOCK.0.borrow_mut() = None }

/// The Rust API's result for the same input.
struct Direct { weights: image_palette_recoloring::ImageWeights, image: Option<image_palette_recoloring::DecomposedImage> }
struct SharedDirect(RefCell<Option<Direct>>);
unsafe impl Sync for SharedDirect {}
static DIRECT: SharedDirect = SharedDirect(RefCell::new(None));

unsafe fn colours(p: *const u8, n: usize) -> Vec<image::Rgb<u8>> {
    (0..n).map(|i| image::Rgb([*p.add(3 * i), *p.add(3 * i + 1), *p.add(3 * i + 2)])).collect()
}
#[no_mangle]
pub unsafe extern "C" fn capi_direct(w: u32, h: u32, p: *const u8) {
    let bytes: Vec<u8> = (0..3 * w as usize * h as usize).map(|i| *p.add(i)).collect();
    let img = image::RgbImage::from_raw(w, h, bytes).unwrap();
    *DIRECT.0.borrow_mut() = Some(Direct { weights: image_palette_recoloring::ImageWeights::new(&img), image: None });
}
/// the number of channels, or 0 when the palette is refused
#[no_mangle]
pub unsafe extern "C" fn capi_direct_decompose(n: u64, p: *const u8) -> u64 {
    let mut d = DIRECT.0.borrow_mut();
    let d = d.as_mut().unwrap();
    d.image = image_palette_recoloring::DecomposedImage::new(&d.weights, &colours(p, n as usize)).ok();
    d.image.as_ref().map_or(0, |i| i.num_channels() as u64)
}
/// channel >= 256: recolour with the palette
#[no_mangle]
pub unsafe extern "C" fn capi_direct_bytes(channel: u64, n: u64, p: *const u8, out: *mut u8) -> u64 {
    let d = DIRECT.0.borrow();
    let i = d.as_ref().unwrap().image.as_ref().unwrap();
    let bytes = if channel < 256 { i.get_channel_grayscale(channel as usize).map(|i| i.into_raw()) }
        else { i.reconstruct(&colours(p, n as usize)).map(|i| i.into_raw()) };
    let Some(bytes) = bytes else { return 0 };
    for (i, b) in bytes.iter().enumerate() { *out.add(i) = *b; }
    1 + bytes.len() as u64
}
#[no_mangle]
pub unsafe extern "C" fn capi_direct_palette(w: u32, h: u32, p: *const u8, min: u64, max: u64, bound: f64, out: *mut u8) -> u64 {
    let bytes: Vec<u8> = (0..3 * w as usize * h as usize).map(|i| *p.add(i)).collect();
    let img = image::RgbImage::from_raw(w, h, bytes).unwrap();
    let r = image_palette_recoloring::compute_palette(&img, min as usize, max as usize, bound);
    for (i, c) in r.iter().enumerate() { for j in 0..3 { *out.add(3 * i + j) = c.0[j]; } }
    r.len() as u64
}
#[no_mangle]
pub extern "C" fn capi_direct_off() { *DIRECT.0.borrow_mut() = None }
