//! Hilbert traversals
use std::collections::HashSet;
use cniic::verif::hilbert;
use image::{DynamicImage, Pixel, Rgb, RgbImage};
use crate::engine::*;

fn check_iter(w: usize, h: usize, o: &mut Obs) -> Result<Vec<(usize, usize)>, String> {
    let v: Vec<(usize, usize)> = hilbert::iter(w, h).take(w * h + 1).collect();
    if v.len() != w * h { return Err(format!("{} positions{}", v.len(), if v.len() > w * h { " or more" } else { "" })); }
    if v[0] != (0, 0) { return Err(format!("starts at {:?}", v[0])); }
    let mut seen = vec![false; w * h];
    for (i, &(x, y)) in v.iter().enumerate() {
        if x >= w || y >= h { return Err(format!("position {:?} is outside", (x, y))); }
        if std::mem::replace(&mut seen[y * w + x], true) { return Err(format!("position {:?} is visited twice", (x, y))); }
        if i > 0 { let p = v[i - 1]; if p.0.abs_diff(x) > 1 || p.1.abs_diff(y) > 1 { return Err(format!("jump from {:?} to {:?}", p, (x, y))); } }
    }
    if w == h && w.is_power_of_two() {
        // the Hilbert curve proper: unit steps, and every aligned block visited in one go
        for k in 1..v.len() { if v[k - 1].0.abs_diff(v[k].0) + v[k - 1].1.abs_diff(v[k].1) != 1 { return Err(format!("diagonal step at {}", k)); } }
        let mut b = 2;
        while b < w {
            for c in v.chunks(b * b) {
                let s: HashSet<(usize, usize)> = c.iter().map(|p| (p.0 / b, p.1 / b)).collect();
                if s.len() != 1 { return Err(format!("a block of side {} is left before it is complete", b)); }
            }
            b *= 2;
        }
    }
    o.steps(v.len());
    o.state(&v);
    Ok(v)
}

fn px(x: u32, y: u32) -> [u8; 3] { [x as u8, y as u8, ((x >> 8) as u8) << 4 | (y >> 8) as u8] }

fn check_images(w: usize, h: usize, o: &mut Obs) -> Result<(), String> {
    let rect = check_iter(w, h, o)?;
    let rgb = RgbImage::from_fn(w as u32, h as u32, |x, y| Rgb(px(x, y)));
    let img = DynamicImage::ImageRgb8(rgb);
    let colours = |v: &[(usize, usize)]| v.iter().map(|p| px(p.0 as u32, p.1 as u32)).collect::<Vec<_>>();
    let cmp = |name: &str, got: Vec<[u8; 3]>, want: Vec<[u8; 3]>| -> Result<(), String> {
        if got != want {
            let k = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            return Err(format!("{} traversal: {} pixels, expected {}, first difference at {} ({:?} / {:?})", name, got.len(), want.len(), k, got.get(k), want.get(k)));
        }
        Ok(())
    };
    cmp("rectangular", hilbert::linearize_rect(&img).take(w * h + 1).map(|p| p.to_rgb().0).collect(), colours(&rect))?;
    cmp("default", hilbert::linearize(&img).take(w * h + 1).map(|p| p.to_rgb().0).collect(), colours(&rect))?;
    let big = w.max(h).next_power_of_two();
    let large: Vec<_> = check_iter(big, big, o)?.into_iter().filter(|p| p.0 < w && p.1 < h).collect();
    cmp("large", hilbert::linearize_large(&img).take(w * h + 1).map(|p| p.to_rgb().0).collect(), colours(&large))?;
    let mut small = 1;
    while small * 2 <= w.min(h) { small *= 2; }
    let sm = check_iter(small, small, o)?;
    cmp("small", hilbert::linearize_small(&img).take(w * h + 1).map(|p| p.to_rgb().0).collect(), colours(&sm))?;
    o.trace();
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.family("every width and height up to N");
    let n = ctx.pick(72usize, 200);
    for w in 1..=n { for h in 1..=n { ctx.case(|| format!("{}x{}", w, h), |o| check_images(w, h, o)); } }
    ctx.family("thin rectangles");
    for n in (1..=ctx.pick(700usize, 3000)).chain([4095, 4096, 4097, 65535, 65536, 65537]) { for t in 1..=3usize {
        ctx.case(|| format!("{}x{} and transposed", n, t), |o| {
            check_iter(n, t, o)?; check_iter(t, n, o)?;
            o.trace();
            if n <= 300 { check_images(n, t, o)?; check_images(t, n, o)?; }
            Ok(())
        });
    } }
    ctx.family("around powers of two");
    for a in [15usize, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513] { for b in [1usize, 2, 3, 31, 32, 33, 127, 128, 129, 255, 256, 257, 512] {
        if ctx.quick() && a * b > 70000 { continue; }
        ctx.case(|| format!("{}x{}", a, b), |o| { check_images(a, b, o)?; check_images(b, a, o) });
    } }
    ctx.family("sides of every magnitude");
    let sides = crate::common::ladder(1, ctx.pick(300_000, 3_000_000));
    for &a in &sides { for &b in &sides {
        if b > a || a * b > ctx.pick(400_000, 6_000_000) || a <= 72 { continue; }
        // the enclosing square of the other traversals has to stay small
        let images = a * b <= 150_000 && a <= 600;
        ctx.case_limit(120_000, || format!("{}x{} and transposed", a, b), |o| {
            if images { check_images(a, b, o)?; return check_images(b, a, o); }
            check_iter(a, b, o)?; check_iter(b, a, o)?; o.trace(); Ok(())
        });
    } }
    ctx.family("images as large as that, rectangular traversal");
    for (w, h) in [(1000usize, 300usize), (65537, 3), (3, 65537), (300, 1000), (513, 512), (70_000, 1), (1, 70_000), (4097, 70)] {
        ctx.case_limit(120_000, || format!("{}x{}", w, h), |o| {
            let v = check_iter(w, h, o)?;
            let img = DynamicImage::ImageRgb8(RgbImage::from_fn(w as u32, h as u32, |x, y| Rgb(crate::common::colour((y * w as u32 + x) as usize))));
            for (k, (p, q)) in hilbert::linearize(&img).zip(&v).enumerate() { if p.to_rgb().0 != crate::common::colour(q.1 * w + q.0) { return Err(format!("pixel {} of the traversal is not that at {:?}", k, q)); } }
            if hilbert::linearize(&img).count() != w * h || hilbert::linearize_rect(&img).count() != w * h { return Err("wrong number of pixels".into()); }
            o.trace();
            Ok(())
        });
    }
    ctx.family("large");
    for (w, h) in ctx.pick(vec![(1000usize, 700usize), (1, 100000)], vec![(1000, 700), (2040, 1356), (1, 1000000), (1024, 1024), (1023, 1025), (1999, 1)]) {
        ctx.case(|| format!("{}x{}", w, h), |o| { check_iter(w, h, o)?; o.trace(); Ok(()) });
    }
}
