//! Run-length coding, exact (C09) and approximate (C10)
use cniic::verif::hilbert;
use crate::{common::*, engine::*};

/// The records of a stream: (count, colour)
fn records(s: &[u8], w: u32, h: u32) -> Result<Vec<(usize, C3)>, String> {
    if s.len() < 8 || s[..4] != w.to_le_bytes() || s[4..8] != h.to_le_bytes() { return Err("the dimensions are not stored".into()); }
    if (s.len() - 8) % 12 != 0 { return Err(format!("{} bytes of records", s.len() - 8)); }
    s[8..].chunks(12).map(|c| {
        if c[1..9] != [3, 0, 0, 0, 0, 0, 0, 0] { return Err("malformed colour".to_string()); }
        if c[0] == 0 { return Err("an empty run".to_string()); }
        Ok((c[0] as usize, [c[9], c[10], c[11]]))
    }).collect()
}

fn traversed(img: &cniic::verif::codec::Img) -> Vec<C3> {
    let (w, h) = (img.width(), img.height());
    let p = pixels(img);
    if h == 1 || w == 1 { return p; } // the only traversal there is
    hilbert::iter(w as usize, h as usize).map(|(x, y)| p[y * w as usize + x]).collect()
}

fn image_of_seq(seq: &[C3], shape: usize) -> cniic::verif::codec::Img {
    match shape {
        0 => img_of(seq.len() as u32, 1, seq),
        1 => img_of(1, seq.len() as u32, seq),
        k => {
            // laid out along the traversal, k columns; the last colour fills up
            let w = k.min(seq.len());
            let h = seq.len().div_ceil(w);
            let mut p = vec![*seq.last().unwrap(); w * h];
            for (i, (x, y)) in hilbert::iter(w, h).enumerate() { if i < seq.len() { p[y * w + x] = seq[i]; } }
            img_of(w as u32, h as u32, &p)
        }
    }
}

fn check_exact(c: &Named, img: &cniic::verif::codec::Img, o: &mut Obs) -> Result<(), String> {
    let e = |m: String| format!("{}: {}", c.arg, m);
    let s = roundtrip(c.get()?, img, o).map_err(e)?;
    let r = records(&s, img.width(), img.height()).map_err(e)?;
    let mut out = Vec::new();
    for (k, (n, col)) in r.iter().enumerate() {
        if *n < 255 { if let Some(nx) = r.get(k + 1) { if nx.1 == *col { return Err(e(format!("records {} ({} x {:?}) and {} ({} x {:?}) are one run", k, n, col, k + 1, nx.0, nx.1))); } } }
        out.extend(std::iter::repeat_n(*col, *n));
    }
    if out != traversed(img) { return Err(e("the records do not expand to the traversed colours".into())); }
    o.state(&r);
    Ok(())
}

pub fn c09(ctx: &mut Ctx) {
    let cs: Vec<Named> = ["hilbert(rle)", "hilbert(rle(0))", "Hilbert(rle(-0.0))"].iter().map(|a| codec(a)).collect();
    const P: [C3; 3] = [[0, 0, 0], [0, 0, 1], [255, 0, 0]];
    let all = |ctx: &mut Ctx, desc: String, seq: &(dyn Fn() -> Vec<C3> + Sync), shapes: &[usize]| {
        if !ctx.wants() { ctx.skip(); return; }
        let seq = seq();
        ctx.case(|| desc.clone(), |o| {
            for sh in shapes { let img = image_of_seq(&seq, *sh); for c in &cs { check_exact(c, &img, o).map_err(|m| format!("layout {}: {}", sh, m))?; } }
            Ok(())
        });
    };
    ctx.family("all colour sequences over 3 colours");
    for n in 1..=ctx.pick(11usize, 13) { words(n, 3, |t| { let t = t.to_vec(); all(ctx, format!("{:?}", t), &|| t.iter().map(|i| P[*i]).collect(), if n <= 7 { &[0, 1, 2, 3] } else { &[0] }) }); }
    ctx.family("a run of every length, alone and followed by another colour");
    for n in 1..=ctx.pick(2600usize, 6000) { all(ctx, format!("{} equal", n), &|| vec![P[2]; n], &[0, 7]); all(ctx, format!("{} equal, then 1 other, then 1 like the first", n), &|| [vec![P[2]; n], vec![P[1]], vec![P[2]]].concat(), &[1, 16]); }
    ctx.family("all vectors of run lengths around multiples of 255");
    let ls = [1usize, 2, 254, 255, 256, 509, 510, 511, 764, 765, 766];
    for k in 2..=ctx.pick(4usize, 5) { words(k, ls.len(), |t| { let t = t.to_vec(); all(ctx, format!("runs {:?}", t.iter().map(|i| ls[*i]).collect::<Vec<_>>()), &|| t.iter().enumerate().flat_map(|(i, l)| std::iter::repeat_n(P[i % 2], ls[*l])).collect(), &[0, 31]) }); }
    ctx.family("every pixel format, opacities included");
    for f in 0..10usize { for pat in 0..40 { for (w, h) in [(1u32, 1u32), (4, 1), (3, 3), (16, 17)] {
        ctx.case(|| format!("format {} pattern {} {}x{}", f, pat, w, h), |o| { let img = format_img(f, w, h, pat); for c in &cs { check_exact(c, &img, o)?; } Ok(()) });
    } } }
    for m in 0..5u32 { for (w, h) in [(2u32, 1u32), (5, 1), (4, 4), (300, 2)] {
        // one or two colours, of changing opacity
        ctx.case(|| format!("opacities {} {}x{}", m, w, h), |o| {
            let a = |x: u32, y: u32| -> u8 { match m { 0 => (x + y) as u8 % 2 * 255, 1 => (x * 40 + y * 7) as u8, 2 => (x / 2) as u8, 3 => 255 - (x == 1) as u8, _ => 0 } };
            let col = |x: u32| if x / 3 % 2 == 0 { [1u8, 2, 3] } else { [1, 2, 4] };
            let i8 = image::RgbaImage::from_fn(w, h, |x, y| { let c = col(x); image::Rgba([c[0], c[1], c[2], a(x, y)]) });
            let l8 = image::ImageBuffer::from_fn(w, h, |x, y| image::LumaA([col(x)[2], a(x, y)]));
            let i16 = image::ImageBuffer::from_fn(w, h, |x, y| { let c = col(x).map(|v| v as u16 * 257); image::Rgba([c[0], c[1], c[2], a(x, y) as u16 * 200]) });
            let f32s = image::ImageBuffer::from_fn(w, h, |x, y| { let c = col(x).map(|v| v as f32 / 255.0); image::Rgba([c[0], c[1], c[2], a(x, y) as f32 / 255.0]) });
            for img in [image::DynamicImage::ImageRgba8(i8), image::DynamicImage::ImageLumaA8(l8), image::DynamicImage::ImageRgba16(i16), image::DynamicImage::ImageRgba32F(f32s)] {
                for c in &cs { check_exact(c, &img, o)?; }
            }
            Ok(())
        });
    } }
    ctx.family("large images");
    for n in ladder(2000, ctx.pick(600_000, 5_000_000)) { for pat in 0..3usize {
        all(ctx, format!("{} pixels, pattern {}", n, pat), &|| (0..n).map(|i| match pat { 0 => P[1], 1 => P[(i / 700) % 3], _ => P[(i + i / 256 + i / 65536) % 3] }).collect(), if n < 40_000 { &[0, 1, 250] } else { &[0, 300] });
    } }
    ctx.family("all pairs of run lengths 240..270");
    for a in 240..=270usize { for b in 240..=270usize { all(ctx, format!("runs {} {}", a, b), &|| [vec![P[0]; a], vec![P[1]; b], vec![P[0]; 3]].concat(), &[0]); } }
}

fn gcd(a: i64, b: i64) -> i64 { if b == 0 { a } else { gcd(b, a % b) } }

/// Judges the run boundaries of hilbert(rle(d)) against exact integer arithmetic
fn check_approx(c: &Named, d: f64, img: &cniic::verif::codec::Img, o: &mut Obs) -> Result<(), String> {
    let s = encode(c.get()?, img)?;
    let r = records(&s, img.width(), img.height())?;
    let t = traversed(img);
    if r.iter().map(|x| x.0).sum::<usize>() != t.len() { return Err(format!("the runs cover {} pixels of {}", r.iter().map(|x| x.0).sum::<usize>(), t.len())); }
    let mut pos = 0;
    let mut painted = vec![];
    for (k, (n, col)) in r.iter().enumerate() {
        let mut sum = [0i64; 3];
        for i in 0..=*n {
            // i pixels are in the run; may / must the next one join?
            if pos + i >= t.len() { break; }
            let x = t[pos + i];
            if i > 0 {
                let cnt = i as i64;
                // squared distance to the mean, times cnt^2: exact
                let q: i64 = (0..3).map(|j| (sum[j] - cnt * x[j] as i64).pow(2)).sum();
                let joined = i < *n;
                let dist = (q as f64).sqrt() / cnt as f64;
                let fits = dist <= d;
                // no tolerance where the mean itself is a floating point number
                let exact = (0..3).all(|j| (cnt / gcd(cnt, sum[j])) as u64 & ((cnt / gcd(cnt, sum[j])) as u64 - 1) == 0);
                let doubtful = !exact && (dist - d).abs() <= 1e-9 * (1.0 + d.abs());
                if i == 255 { if joined { return Err(format!("run {} is longer than 255", k)); } }
                else if joined && !fits && !doubtful { return Err(format!("run {} accepts pixel {} ({:?}) at distance {} from the mean of {}", k, pos + i, x, dist, cnt)); }
                else if !joined && fits && !doubtful { return Err(format!("run {} ends before pixel {} ({:?}) at distance {} from the mean of {}", k, pos + i, x, dist, cnt)); }
            }
            if i == *n { break; }
            for j in 0..3 { sum[j] += x[j] as i64; }
        }
        for j in 0..3 {
            let n = *n as i64;
            // |2*col*n - 2*sum| <= n  <=>  col is a nearest integer to sum/n
            if (2 * col[j] as i64 * n - 2 * sum[j]).abs() > n { return Err(format!("run {} of {} pixels stores {:?}, channel sums are {:?}", k, n, col, sum)); }
        }
        painted.extend(std::iter::repeat_n(*col, *n));
        pos += n;
        o.steps(*n);
    }
    let dec = decode(c.get()?, &s).ok_or("the codec's own output does not decode")?;
    same_size(img, &dec)?;
    if traversed(&dec) != painted { return Err("the decoded pixels are not the colours of the runs".into()); }
    o.state(&(d.to_bits(), r));
    o.trace();
    Ok(())
}

pub fn c10(ctx: &mut Ctx) {
    let ds: Vec<f64> = vec![1e-300, 1e-9, 0.1, 0.25, 0.5, 1.0, 1.5, 2.0, 3.0, 4.999, 5.0, 5.001, 10.0, 12.5, 100.0, 220.0, 441.6, 442.0, 1e308, f64::INFINITY, -1.0, f64::NAN];
    let cs: Vec<(f64, Named)> = ds.iter().map(|d| (*d, codec(&format!("hilbert(rle({}))", d)))).collect();
    let all = |ctx: &mut Ctx, desc: String, seq: &(dyn Fn() -> Vec<C3> + Sync), shapes: &[usize]| {
        if !ctx.wants() { ctx.skip(); return; }
        let seq = seq();
        ctx.case(|| desc.clone(), |o| {
            for sh in shapes { let img = image_of_seq(&seq, *sh); for (d, c) in &cs { check_approx(c, *d, &img, o).map_err(|m| format!("{} layout {}: {}", c.arg, sh, m))?; } }
            Ok(())
        });
    };
    const P: [C3; 5] = [[0, 0, 0], [3, 4, 0], [6, 8, 0], [1, 0, 0], [255, 255, 255]];
    ctx.family("all colour sequences over 5 colours");
    for n in 1..=ctx.pick(7usize, 9) { words(n, 5, |t| { let t = t.to_vec(); all(ctx, format!("{:?}", t), &|| t.iter().map(|i| P[*i]).collect(), if n <= 4 { &[0, 1, 2] } else { &[0] }) }); }
    ctx.family("all sequences of small values in one channel");
    for n in 2..=ctx.pick(6usize, 7) { words(n, 6, |t| { let t = t.to_vec(); all(ctx, format!("blue {:?}", t), &|| t.iter().map(|i| [7, 7, *i as u8]).collect(), &[0]) }); }
    ctx.family("a pixel at exactly the allowed distance, or just beyond, of every short run with an integral mean");
    for (base, step) in [(100u8, 1u8), (0, 2), (250, 1), (37, 3)] { for n in 2..=ctx.pick(9usize, 11) { words(n, 3, |t| {
        if t.iter().sum::<usize>() % n != 0 { return; }
        let run: Vec<u8> = t.iter().map(|i| base + step * *i as u8).collect();
        let mean = run.iter().map(|x| *x as i64).sum::<i64>() / n as i64;
        let next: Vec<[i64; 2]> = [1i64, 2, 3, 5, 10, 6, 11].iter().flat_map(|d| [[mean + d, 7], [mean - d, 7]]).chain([[mean + 3, 11], [mean - 4, 4], [mean + 8, 1], [mean + 6, 15]]).filter(|x| (0..=255).contains(&x[0])).collect();
        all(ctx, format!("red {:?}, then at several distances", run), &|| {
            // the run again before each of the candidates, separated by a far colour
            next.iter().flat_map(|x| run.iter().map(|r| [*r, 7, 9]).chain([[x[0] as u8, x[1] as u8, 9], [255 - base, 200, 200]])).collect()
        }, &[0]);
    }) } }
    ctx.family("a distance a little more or less than that of the second pixel");
    // relative differences far above the rounding of double precision, down to far below single precision
    let near = |x: f64| [2f64.powi(-20), 2f64.powi(-25), 2f64.powi(-30), 2f64.powi(-40)].into_iter().flat_map(move |e| [x * (1.0 - e), x * (1.0 + e)]);
    let mut sq: Vec<(i64, C3)> = vec![];
    for a in 0..256i64 { for b in (0..=a).step_by(if a < 24 { 1 } else { ctx.pick(29, 5) }) { for c in (0..=b).step_by(if a < 24 { 1 } else { ctx.pick(31, 7) }) { if a > 0 { sq.push((a * a + b * b + c * c, [a as u8, b as u8, c as u8])); } } } }
    sq.sort();
    sq.dedup_by_key(|x| x.0);
    for part in sq.chunks(64) { ctx.case(|| format!("squared distances {}..{}", part[0].0, part[part.len() - 1].0), |o| {
        for (m, x) in part { for d in near((*m as f64).sqrt()) {
            let c = codec(&format!("hilbert(rle({}))", d));
            for img in [image_of_seq(&[[0, 0, 0], *x], 0), image_of_seq(&[[255 - x[0], 255 - x[2], 255], [255, 255, 255 - x[1]]], 0)] { check_approx(&c, d, &img, o).map_err(|m| format!("{}: {}", c.arg, m))?; }
        } }
        Ok(())
    }); }
    ctx.family("a distance a little more or less than that of a pixel from the mean of a run");
    for n in 2..=ctx.pick(5usize, 7) { words(n, 3, |t| { for base in [[10u8, 20, 30], [250, 3, 128]] {
        let run: Vec<C3> = t.iter().enumerate().map(|(i, k)| [base[0] + *k as u8, base[1] - (*k as u8 + i as u8) % 3, base[2] + (i % 2) as u8]).collect();
        ctx.case(|| format!("{:?}, then pixels about the distance off", run), |o| {
            for x in [[base[0] - 9, base[1], base[2]], [base[0], base[1] + 17, base[2] + 4], [base[0] + 3, base[1] + 4, base[2] - 30], [base[0] - 2, base[1] + 100, base[2] + 90]] {
                let cnt = n as i64;
                let q: i64 = (0..3).map(|j| (run.iter().map(|r| r[j] as i64).sum::<i64>() - cnt * x[j] as i64).pow(2)).sum();
                let seq = [&run[..], &[x, base]].concat();
                for d in near((q as f64).sqrt() / cnt as f64).filter(|d| *d > 4.0).take(5) {
                    let c = codec(&format!("hilbert(rle({}))", d));
                    check_approx(&c, d, &image_of_seq(&seq, 0), o).map_err(|m| format!("{}: {}", c.arg, m))?;
                }
            }
            Ok(())
        });
    } }); }
    ctx.family("long runs, means and rounding");
    for n in (1..=ctx.pick(800usize, 2600)).chain([509, 510, 511, 512, 765]) {
        for pat in 0..8usize {
            all(ctx, format!("{} pixels, pattern {}", n, pat), &|| (0..n).map(|i| match pat {
                0 => [200, 200, 200],
                1 => [(i % 2) as u8, 0, 255],
                2 => [(i / 3) as u8, (i / 5) as u8, 0],
                3 => [255 - (i % 256) as u8, 9, 9],
                4 => [(i * i % 7) as u8, (i % 3) as u8, (i % 2) as u8 + 254],
                5 => if i == 0 { [0, 0, 0] } else { [1, 0, 0] },
                6 => if i + 1 == n { [0, 4, 3] } else { [0, 0, 0] },
                _ => [(i % 4) as u8 * 85, (i % 5) as u8 * 50, 255],
            }).collect(), &[0, 17]);
        }
    }
    ctx.family("every pixel format");
    for f in 0..10usize { for pat in 0..40 { for (w, h) in [(1u32, 1u32), (4, 1), (3, 3), (16, 17)] {
        ctx.case(|| format!("format {} pattern {} {}x{}", f, pat, w, h), |o| { let img = format_img(f, w, h, pat); for (d, c) in &cs { check_approx(c, *d, &img, o).map_err(|m| format!("{}: {}", c.arg, m))?; } Ok(()) });
    } } }
    ctx.family("large images");
    let some: Vec<(f64, Named)> = [0.5, 5.0, 100.0, f64::INFINITY].iter().map(|d| (*d, codec(&format!("hilbert(rle({}))", d)))).collect();
    for n in ladder(2000, ctx.pick(600_000, 5_000_000)) { for pat in 0..3usize {
        ctx.case(|| format!("{} pixels, pattern {}", n, pat), |o| {
            let seq: Vec<C3> = (0..n).map(|i| match pat { 0 => [200, 100, 50], 1 => [(i / 700 % 3) as u8, 0, (i / 65536) as u8], _ => [(i * i / 5 % 11) as u8 + 100, (i % 3) as u8, (i / 300 % 90) as u8] }).collect();
            for sh in [0usize, 300] { let img = image_of_seq(&seq, sh); for (d, c) in &some { check_approx(c, *d, &img, o).map_err(|m| format!("{} layout {}: {}", c.arg, sh, m))?; } }
            Ok(())
        });
    } }
    ctx.family("a run of every length around 255 followed by near and far colours");
    for n in 250..=260usize { for second in 0..5usize { for third in 0..5usize {
        all(ctx, format!("{} x black, {} x {:?}, {:?}", n, 3, P[second], P[third]), &|| [vec![P[0]; n], vec![P[second]; 3], vec![P[third]], vec![P[0]]].concat(), &[0]);
    } } }
    ctx.family("every two-pixel difference in one and two channels");
    for a in (0..=255u8).step_by(1) { for b in [0u8, 1, 2, 3, 4, 5, 12, 127, 128, 254, 255] {
        all(ctx, format!("{} {}", a, b), &|| vec![[a, b, 0], [b, a, 0], [a, a, b], [0, a, a]], &[0]);
    } }
}
