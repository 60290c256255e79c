#![allow(dead_code, unused_imports)]
use crate::codec::{AnyCodec, Codec};
use image::{DynamicImage, GenericImageView, Pixel, Rgb, RgbImage};
use std::str::FromStr;

fn codec(s: &str) -> AnyCodec { AnyCodec::from_str(s).ok().expect("codec") }

fn img(w: u32, h: u32, f: impl Fn(u32, u32) -> [u8; 3]) -> DynamicImage {
    DynamicImage::ImageRgb8(RgbImage::from_fn(w, h, |x, y| Rgb(f(x, y))))
}

fn enc(c: &AnyCodec, i: &DynamicImage) -> Vec<u8> {
    let mut v = Vec::new();
    c.encode(i, &mut v).expect("encode");
    v
}

fn dec(c: &AnyCodec, b: &[u8]) -> Option<DynamicImage> { c.decode(&mut b.iter().cloned()) }

fn same(a: &DynamicImage, b: &DynamicImage) -> bool { a.to_rgb8() == b.to_rgb8() }

fn lcg(s: &mut u64) -> u32 {
    *s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
    (*s >> 33) as u32
}

