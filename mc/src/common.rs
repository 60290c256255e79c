//! Images, codecs and small enumerators shared by the properties.
use std::str::FromStr;
use cniic::verif::codec::{AnyCodec, Codec, Img};
use image::{DynamicImage, GenericImageView, ImageBuffer, Luma, LumaA, Pixel, Rgb, Rgba, RgbImage};
use crate::engine::*;

pub type C3 = [u8; 3];

pub fn img_of(w: u32, h: u32, px: &[C3]) -> Img {
    assert_eq!(px.len(), (w * h) as usize);
    let raw: Vec<u8> = px.iter().flatten().copied().collect();
    DynamicImage::ImageRgb8(RgbImage::from_raw(w, h, raw).unwrap())
}

/// The pixels in row-major order as the program sees them
pub fn pixels(img: &Img) -> Vec<C3> {
    if let DynamicImage::ImageRgb8(b) = img {
        return b.as_raw().chunks_exact(3).map(|c| [c[0], c[1], c[2]]).collect();
    }
    let (w, h) = img.dimensions();
    let mut v = Vec::with_capacity((w * h) as usize);
    for y in 0..h { for x in 0..w { v.push(img.get_pixel(x, y).to_rgb().0); } }
    v
}

pub fn show(img: &Img) -> String {
    let (w, h) = img.dimensions();
    let p = pixels(img);
    let s = p.iter().take(64).map(|c| format!("{:02x}{:02x}{:02x}", c[0], c[1], c[2])).collect::<Vec<_>>().join(" ");
    format!("{}x{} [{}{}]", w, h, s, if p.len() > 64 { " ..." } else { "" })
}

pub const LOSSLESS: [&str; 6] = ["hufman", "delta", "hilbert(rle)", "hilbert(zip)", "zip(dict)", "zip(back)"];

pub struct Named { pub arg: String, pub codec: Option<AnyCodec> }
impl Named {
    pub fn get(&self) -> Result<&AnyCodec, String> {
        self.codec.as_ref().ok_or_else(|| format!("codec argument {:?} is refused", self.arg))
    }
}
pub fn codec(arg: &str) -> Named {
    Named { arg: arg.to_string(), codec: guarded(|| AnyCodec::from_str(arg).ok()).ok().flatten() }
}
pub fn lossless() -> Vec<Named> { LOSSLESS.iter().map(|a| codec(a)).collect() }

/// Called at every access of an encoder to its sink and of a decoder to its source
pub static HOOK: std::sync::OnceLock<fn()> = std::sync::OnceLock::new();
fn hook() { if let Some(f) = HOOK.get() { f() } }
struct Sink(Vec<u8>);
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { hook(); self.0.extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

pub fn encode(c: &AnyCodec, img: &Img) -> Result<Vec<u8>, String> {
    let mut out = Sink(Vec::new());
    c.encode(img, &mut out).map_err(|e| format!("encoding failed: {:?}", e))?;
    Ok(out.0)
}

pub fn decode(c: &AnyCodec, stream: &[u8]) -> Option<Img> {
    c.decode(&mut stream.iter().map(|b| { hook(); *b }))
}

pub fn same_size(img: &Img, dec: &Img) -> Result<(), String> {
    if dec.dimensions() != img.dimensions() {
        return Err(format!("decoded size {:?}, expected {:?}", dec.dimensions(), img.dimensions()));
    }
    Ok(())
}

pub fn same_pixels(img: &Img, dec: &Img) -> Result<(), String> {
    same_size(img, dec)?;
    let (a, b) = (pixels(img), pixels(dec));
    if a != b {
        let i = a.iter().zip(&b).position(|(x, y)| x != y).unwrap();
        let w = img.dimensions().0 as usize;
        return Err(format!("pixel ({}, {}) decoded as {:?}, expected {:?}", i % w, i / w, b[i], a[i]));
    }
    Ok(())
}

pub fn roundtrip(c: &AnyCodec, img: &Img, o: &mut Obs) -> Result<Vec<u8>, String> {
    let s = encode(c, img)?;
    let d = decode(c, &s).ok_or("the codec's own output does not decode")?;
    same_pixels(img, &d)?;
    let (w, h) = img.dimensions();
    o.steps((w * h) as usize);
    o.trace();
    Ok(s)
}

/// All (w, h) with w * h == area
pub fn shapes(area: u32) -> Vec<(u32, u32)> {
    (1..=area).filter(|w| area % w == 0).map(|w| (w, area / w)).collect()
}

/// Calls f with every word of length n over 0..k
/// All increasing sequences of k out of 0..n
pub fn choose(n: usize, k: usize, f: &mut dyn FnMut(&[usize])) {
    fn go(n: usize, k: usize, from: usize, t: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        if t.len() == k { f(t); return; }
        for i in from..n { t.push(i); go(n, k, i + 1, t, f); t.pop(); }
    }
    go(n, k, 0, &mut vec![], f);
}

pub fn words(n: usize, k: usize, mut f: impl FnMut(&[usize])) {
    let mut w = vec![0usize; n];
    loop {
        f(&w);
        let mut i = n;
        loop {
            if i == 0 { return; }
            i -= 1;
            w[i] += 1;
            if w[i] < k { break; }
            w[i] = 0;
        }
    }
}

/// The sizes in lo..=hi at which a limit is likely: around powers of two and of ten
pub fn ladder(lo: usize, hi: usize) -> Vec<usize> {
    let mut v = vec![];
    for k in 0..usize::BITS { v.extend([(1usize << k).wrapping_sub(1), 1 << k, (1usize << k).wrapping_add(1)]); }
    for k in 0..10 { let t = 10usize.pow(k); v.extend([t - 1, t, t + 1, 5 * t + 1]); }
    v.retain(|x| (lo..=hi).contains(x));
    v.sort(); v.dedup(); v
}

/// n-th colour of a fixed injective sequence of 24-bit colours
pub fn colour(i: usize) -> C3 {
    let x = (i as u32).wrapping_mul(0x9E_3779) & 0xFF_FFFF; // odd multiplier: a bijection mod 2^24
    [x as u8, (x >> 8) as u8, (x >> 16) as u8]
}

pub struct XorShift(pub u64);
impl XorShift {
    pub fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0 }
    pub fn below(&mut self, n: u64) -> u64 { (self.next() >> 11) % n }
}

/// A de Bruijn-like closed walk over all ordered pairs of 0..k: k*k + 1 values
pub fn all_pairs_walk(k: usize) -> Vec<usize> {
    // Hierholzer on the complete digraph with loops
    let mut next = vec![0usize; k];
    let mut stack = vec![0usize];
    let mut out = Vec::with_capacity(k * k + 1);
    while let Some(&v) = stack.last() {
        if next[v] < k { let u = next[v]; next[v] += 1; stack.push(u); } else { out.push(v); stack.pop(); }
    }
    out.reverse();
    assert_eq!(out.len(), k * k + 1);
    out
}

pub fn line_img(seq: &[C3]) -> Img { img_of(seq.len() as u32, 1, seq) }

#[allow(dead_code)]
pub fn buf(w: u32, h: u32) -> ImageBuffer<Rgb<u8>, Vec<u8>> { ImageBuffer::new(w, h) }

pub fn format_img(f: usize, w: u32, h: u32, pat: u32) -> DynamicImage {
    // 8-, 16-bit and float samples derived from the position and the pattern, extremes first
    let s16 = move |x: u32, y: u32, c: u32| -> u16 {
        match pat { 0 => 0, 1 => 65535, 2 => 127 * 257, 3 => 128 * 257,
            4 => if (x + y + c) % 2 == 0 { 0 } else { 65535 },
            _ => ((x * 7919 + y * 104729 + c * 1299709 + pat * 15485863 + x * y * 31) % 65536) as u16 }
    };
    let s8 = move |x, y, c| (s16(x, y, c) >> 8) as u8;
    let sf = move |x, y, c| s16(x, y, c) as f32 / 65535.0;
    match f {
        0 => DynamicImage::ImageLuma8(ImageBuffer::from_fn(w, h, |x, y| Luma([s8(x, y, 0)]))),
        1 => DynamicImage::ImageLumaA8(ImageBuffer::from_fn(w, h, |x, y| LumaA([s8(x, y, 0), s8(x, y, 1)]))),
        2 => DynamicImage::ImageRgb8(ImageBuffer::from_fn(w, h, |x, y| Rgb([s8(x, y, 0), s8(x, y, 1), s8(x, y, 2)]))),
        3 => DynamicImage::ImageRgba8(ImageBuffer::from_fn(w, h, |x, y| Rgba([s8(x, y, 0), s8(x, y, 1), s8(x, y, 2), s8(x, y, 3)]))),
        4 => DynamicImage::ImageLuma16(ImageBuffer::from_fn(w, h, |x, y| Luma([s16(x, y, 0)]))),
        5 => DynamicImage::ImageLumaA16(ImageBuffer::from_fn(w, h, |x, y| LumaA([s16(x, y, 0), s16(x, y, 1)]))),
        6 => DynamicImage::ImageRgb16(ImageBuffer::from_fn(w, h, |x, y| Rgb([s16(x, y, 0), s16(x, y, 1), s16(x, y, 2)]))),
        7 => DynamicImage::ImageRgba16(ImageBuffer::from_fn(w, h, |x, y| Rgba([s16(x, y, 0), s16(x, y, 1), s16(x, y, 2), s16(x, y, 3)]))),
        8 => DynamicImage::ImageRgb32F(ImageBuffer::from_fn(w, h, |x, y| Rgb([sf(x, y, 0), sf(x, y, 1), sf(x, y, 2)]))),
        _ => DynamicImage::ImageRgba32F(ImageBuffer::from_fn(w, h, |x, y| Rgba([sf(x, y, 0), sf(x, y, 1), sf(x, y, 2), sf(x, y, 3)]))),
    }
}
