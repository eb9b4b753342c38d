//! C18, C24: the command line, with stand-ins for argument parsing, image files and the library.
use crate::sym::*;
use std::cell::RefCell;

/// What the command line did with its surroundings.
#[derive(Default)]
struct World {
    printed: String,
    opened: Vec<String>,
    saved: Vec<(String, u64)>,
    no_output: bool,
    sizes: Option<(usize, usize, f64)>,
    weights_of: Option<u64>,
    decomposed_with: Vec<[u8; 3]>,
    reconstructed_with: Vec<[u8; 3]>,
    palette: Vec<[u8; 3]>,
    cli: Option<body::Args>,
}
struct Shared(RefCell<Option<World>>);
unsafe impl Sync for Shared {}
static WORLD: Shared = Shared(RefCell::new(None));
fn world<R>(f: impl FnOnce(&mut World) -> R) -> R { f(WORLD.0.borrow_mut().get_or_insert_with(World::default)) }

#[allow(dead_code, unused)]
mod body {
    macro_rules! println {
        ($($t:tt)*) => { super::world(|w| { w.printed += &format!($($t)*); w.printed.push('\n'); }) };
    }
    macro_rules! eprintln {
        ($($t:tt)*) => { super::world(|w| { w.printed += "Error"; w.printed += &format!($($t)*); w.printed.push('\n'); }) };
    }
    macro_rules! print {
        ($($t:tt)*) => { super::world(|w| w.printed += &format!($($t)*)) };
    }
    mod clap {
        pub use ::clap::*;
        pub trait Parser: Sized { fn parse() -> Self { super::super::take_cli() } }
    }
    mod image {
        pub use ::image::*;
        /// an image file, known by its name
        #[derive(Clone)]
        pub struct Picture(pub u64);
        impl Picture {
            pub fn decode(self) -> Result<Picture, String> { Ok(self) }
            pub fn into_rgb8(self) -> Picture { self }
            pub fn to_rgb8(&self) -> Picture { self.clone() }
            pub fn save(&self, p: impl AsRef<std::path::Path>) -> Result<(), String> {
                let p = p.as_ref().to_str().unwrap().to_owned();
                super::super::world(|w| { crate::sym::check(!w.no_output, 10); w.saved.push((p, self.0)) });
                Ok(())
            }
            pub fn open(p: impl AsRef<std::path::Path>) -> Result<Picture, String> {
                let p = p.as_ref().to_str().unwrap().to_owned();
                super::super::world(|w| w.opened.push(p));
                Ok(Picture(1))
            }
        }
        pub fn open(p: impl AsRef<std::path::Path>) -> Result<Picture, String> { Picture::open(p) }
        pub mod io { pub type Reader = super::Picture; }
    }
    mod image_palette_recoloring {
        use super::image::{Picture, Rgb};
        use super::super::world;
        pub fn compute_palette(img: &Picture, min: usize, max: usize, bound: f64) -> Vec<Rgb<u8>> {
            world(|w| { w.weights_of = Some(img.0); w.sizes = Some((min, max, bound)); w.palette.iter().map(|c| Rgb(*c)).collect() })
        }
        pub struct ImageWeights;
        impl ImageWeights {
            pub fn new(img: &Picture) -> Self { world(|w| w.weights_of = Some(img.0)); ImageWeights }
        }
        pub struct DecomposedImage(usize);
        impl DecomposedImage {
            pub fn new(_: &ImageWeights, p: &[Rgb<u8>]) -> Result<Self, String> {
                world(|w| w.decomposed_with = p.iter().map(|c| c.0).collect());
                Ok(DecomposedImage(p.len()))
            }
            pub fn num_channels(&self) -> usize { self.0 }
            pub fn reconstruct(&self, p: &[Rgb<u8>]) -> Option<Picture> {
                if p.len() != self.0 { return None }
                world(|w| w.reconstructed_with = p.iter().map(|c| c.0).collect());
                Some(Picture(2))
            }
            pub fn get_channel_grayscale(&self, n: usize) -> Option<Picture> {
                if n < self.0 { Some(Picture(100 + n as u64)) } else { None }
            }
        }
    }
    include!("/repo/image-palette-recoloring-cli/src/main.rs");

    #[repr(transparent)]
    pub struct Args(Cli);
    pub fn read(s: &str) -> Result<Vec<[u8; 3]>, String> { parse_color_list(s).map(|l| l.iter().map(|c| c.0).collect()) }
    pub fn generate(min: u8, max: u8, bound: f64) -> Args {
        Args(Cli { commands: Commands::GeneratePalette { error_bound: bound, min_size: min, max_size: max, input_image: "in/put.png".into() } })
    }
    pub fn recolor(from: &[[u8; 3]], to: &[[u8; 3]], save: bool, out: &str) -> Args {
        let list = |l: &[[u8; 3]]| ColorList(l.iter().map(|c| Rgb(*c)).collect());
        Args(Cli { commands: Commands::RecolorImage {
            decomposition_palette: list(from), reconstruction_palette: list(to), input_image: "a.png".into(),
            output_image: out.into(), save_individual_channels: save,
        } })
    }
    pub fn run() { main() }
}
fn take_cli<T>() -> T {
    let c = world(|w| w.cli.take()).unwrap();
    let c = std::mem::ManuallyDrop::new(c);
    assert!(std::mem::size_of::<T>() == std::mem::size_of::<body::Args>());
    unsafe { std::ptr::read(&*c as *const body::Args as *const T) }
}

fn is_hex(b: u8) -> bool { (b >= 48) & (b <= 57) | (b >= 65) & (b <= 70) | (b >= 97) & (b <= 102) }
fn hex(b: u8) -> u32 { if b <= 57 { b as u32 - 48 } else if b <= 70 { b as u32 - 55 } else { b as u32 - 87 } }

/// the list is accepted exactly when it is well formed, with the right colours
fn list(bytes: &[u8]) {
    let n = bytes.len();
    let mut valid = n % 7 == 6;
    for (i, b) in bytes.iter().enumerate() { valid &= if i % 7 == 6 { *b == b',' } else { is_hex(*b) }; }
    let s = unsafe { std::str::from_utf8_unchecked(bytes) };
    match body::read(s) {
        Ok(colors) => {
            check(valid, 1);
            assume(valid);
            check(colors.len() == n / 7 + 1, 2);
            for (i, c) in colors.iter().enumerate() {
                for j in 0..3 {
                    let k = i * 7 + j * 2;
                    check(c[j] as u32 == hex(bytes[k]) * 16 + hex(bytes[k + 1]), 3);
                }
            }
            reach(1);
            obsi(0, colors.len() as u64);
        }
        Err(e) => {
            check(!valid, 4);
            check(!e.is_empty(), 5);
            reach(2);
        }
    }
}

/// any ASCII text of the given length (up to 7), or a longer text with a window of any ASCII
#[no_mangle]
pub extern "C" fn h_cli_text(case: u64) {
    let (n, from, width) = match case {
        0..=5 => (case as usize, 0, case as usize),
        6 => (6, 0, 4), 20 => (6, 2, 4), 21 => (6, 1, 4),
        // two colours: the window around the separator, the ends
        7 => (13, 5, 3), 8 => (13, 0, 3), 9 => (13, 10, 3), 10 => (12, 5, 2), 11 => (14, 6, 2), 12 => (14, 12, 2), 13 => (7, 5, 2), 14 => (7, 0, 2),
        15 => (20, 12, 3), 16 => (20, 5, 3), 17 => (13, 2, 3), 18 => (13, 8, 3), 19 => (27, 19, 3), 22 => (13, 5, 4), 23 => (6, 0, 6), 24 => (7, 1, 6), 25 => (13, 3, 6), 26 => (20, 10, 5), _ => (13, 0, 6),
    };
    let text = b"00fF7a,9C3d5e,a1B2c3,D4e5F6,0a0b0c";
    let mut bytes = text[..n].to_vec();
    for i in from..from + width { bytes[i] = int(i as u32, 0, 127) as u8; }
    list(&bytes);
}

/// a character of two, three or four bytes anywhere in the text
#[no_mangle]
pub extern "C" fn h_cli_wide(case: u64) {
    let n = [6, 13, 7, 8, 14][case as usize % 5] as usize;
    let k = 2 + case as usize / 5 % 3;
    let at = choose(50, 0, (n - k) as u64) as usize;
    let mut bytes = b"00fF7a,9C3d5e,a1B2c3"[..n].to_vec();
    let (lo, hi) = [(0xc2, 0xdf), (0xe1, 0xec), (0xf1, 0xf3)][k - 2];
    bytes[at] = int(0, lo, hi) as u8;
    for i in 1..k { bytes[at + i] = int(i as u32, 0x80, 0xbf) as u8; }
    list(&bytes);
}

fn same(a: &[[u8; 3]], b: &[[u8; 3]], id: u32) {
    check(a.len() == b.len(), id);
    for (a, b) in a.iter().zip(b) { for j in 0..3 { check(a[j] == b[j], id); } }
}

/// a generated palette is printed so that it is read back unchanged
#[no_mangle]
pub extern "C" fn h_cli_print(case: u64) {
    let n = [4, 1, 5, 10][case as usize % 4];
    // one component of any value
    let (k, j) = ((case / 4 % n as u64) as usize, case as usize / 7 % 3);
    let palette: Vec<[u8; 3]> = (0..n).map(|i| { let mut c = [i as u8 * 23, 255 - i as u8 * 7, i as u8]; if i == k { c[j] = byte(0) } c }).collect();
    let (min, max) = (int(10, 4, 255) as u8, byte(11));
    let bound = real(12, -4.0, 8.0);
    world(|w| { *w = World::default(); w.palette = palette.clone(); w.cli = Some(body::generate(min, max, bound)); });
    body::run();
    let w = world(|w| std::mem::take(w));
    check(w.opened.len() == 1 && w.opened[0] == "in/put.png", 1);
    check(w.weights_of == Some(1) && w.saved.is_empty(), 2);
    let Some((a, b, e)) = w.sizes else { check(false, 3); return };
    check((a == min as usize) & (b == max as usize), 3);
    close(e, bound, 0.0, 4);
    check(w.printed.ends_with('\n'), 5);
    let text = w.printed.trim_end_matches('\n');
    check(text.len() + 1 == w.printed.len(), 5);
    match body::read(text) {
        Ok(c) => same(&c, &palette, 6),
        Err(_) => check(false, 7),
    }
    reach(1);
}

/// recolouring uses the palettes given and writes the images that were computed
#[no_mangle]
pub extern "C" fn h_cli_recolor(case: u64) {
    let n = [4, 5, 11][case as usize % 3];
    let save = case / 3 % 2 == 1;
    // without channel images, whose names have the colours, every palette byte can be free
    let any = |id: u32| -> Vec<[u8; 3]> {
        (0..n).map(|i| [0, 1, 2].map(|j| if !save || (i == 3 && j as u64 == case / 12 % 3 && id == 0) { byte(id + i * 3 + j) } else { (i * 37 + j * 11 + id) as u8 })).collect()
    };
    let (from, to) = (any(0), any(100));
    let out = ["out.png", "some/dir/out.v2.jpg"][case as usize / 6 % 2];
    if case >= 36 {
        // palettes of different lengths: reported, nothing written
        let to = if case % 2 == 0 { to[..n as usize - 1 - case as usize / 2 % 3].to_vec() } else { [&to[..], &from[..1]].concat() };
        world(|w| { *w = World::default(); w.no_output = true; w.cli = Some(body::recolor(&from, &to, save, out)); });
        reach(1);
        may_end();
        body::run();
        check(world(|w| std::mem::take(w)).printed.starts_with("Error"), 11);
        return;
    }
    world(|w| { *w = World::default(); w.cli = Some(body::recolor(&from, &to, save, out)); });
    body::run();
    let w = world(|w| std::mem::take(w));
    check(w.opened.len() == 1 && w.opened[0] == "a.png", 1);
    check(w.weights_of == Some(1), 2);
    same(&w.decomposed_with, &from, 3);
    same(&w.reconstructed_with, &to, 4);
    check(w.saved.len() == 1 + if save { n as usize } else { 0 }, 5);
    check(w.saved.iter().any(|(p, k)| p == out && *k == 2), 6);
    if save {
        let (stem, ext) = out.rsplit_once('.').unwrap();
        for (i, c) in from.iter().enumerate() {
            let Some((p, _)) = w.saved.iter().find(|(_, k)| *k == 100 + i as u64) else { check(false, 7); continue };
            let mut name = format!("{stem}_channel_{i}_").into_bytes();
            let digit = |d: u8| if d < 10 { 48 + d } else { 55 + d };
            for j in 0..3 { name.push(digit(c[j] >> 4)); name.push(digit(c[j] & 15)); }
            name.push(b'.');
            name.extend(ext.bytes());
            check(p.len() == name.len(), 8);
            let mut ok = true;
            for (a, b) in p.bytes().zip(&name) { ok &= a == *b; }
            check(ok, 9);
        }
    }
    reach(1);
}
