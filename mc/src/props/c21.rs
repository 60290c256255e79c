//! C21: histories of operations, including failed, cut short and abandoned ones
use std::io::{self, Write};
use cniic::verif::codec::{AnyCodec, Codec, Img};
use super::lossy::{judge12, judge13};
use crate::{common::*, engine::*};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum What { Enc, Dec, EncFails, EncAbandoned, DecTruncated, DecAbandoned }

#[derive(Clone)]
pub struct Op { pub codec: usize, pub img: usize, pub what: What, /** where the disturbance happens; half way if None */ pub at: Option<usize> }

pub struct World { pub codecs: Vec<Named>, pub imgs: Vec<Img>, pub streams: Vec<Vec<Vec<u8>>>, pub solo: Vec<Vec<Img>> }

struct Cut { left: usize, panic: bool, out: Vec<u8> }
impl Write for Cut {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.left == 0 {
            if self.panic { panic!("scripted panic of the sink"); }
            return Err(io::Error::new(io::ErrorKind::Other, "scripted failure"));
        }
        let n = b.len().min(self.left);
        self.left -= n;
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

/// Reports how many bytes it takes before it takes them
struct Nested<'a> { out: Vec<u8>, step: &'a dyn Fn(usize) }
impl Write for Nested<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { (self.step)(b.len()); self.out.extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

impl World {
    pub fn free(&self, k: usize) -> bool { self.codecs[k].arg.starts_with("cl") || self.codecs[k].arg.starts_with("vo") }
    pub fn name(&self, op: &Op) -> String { format!("{:?} {} image {}{}", op.what, self.codecs[op.codec].arg, op.img, op.at.map(|p| format!(" at byte {}", p)).unwrap_or_default()) }
    fn c(&self, k: usize) -> Result<&AnyCodec, String> { self.codecs[k].get() }

    pub fn perform(&self, op: &Op) -> Result<u64, String> {
        let c = self.c(op.codec)?;
        let (img, s) = (&self.imgs[op.img], &self.streams[op.codec][op.img]);
        let at = op.at.unwrap_or(s.len() / 2).min(s.len());
        match op.what {
            What::Enc => {
                let out = encode(c, img)?;
                if out.len() != s.len() && !self.codecs[op.codec].arg.starts_with("cl") { return Err(format!("{} bytes, {} on its own", out.len(), s.len())); }
                let d = decode(c, &out).ok_or("the stream does not decode")?;
                same_size(img, &d)?;
                if self.free(op.codec) {
                    let a = &self.codecs[op.codec].arg;
                    if a.starts_with("cl") { judge12(a, img, &d)?; } else { judge13(a, img, &out, &d)?; }
                } else { same_pixels(&self.solo[op.codec][op.img], &d)?; }
                Ok(out.len() as u64)
            }
            What::Dec => {
                let d = decode(c, s).ok_or("the stream does not decode")?;
                same_pixels(&self.solo[op.codec][op.img], &d)?;
                Ok(fp(&pixels(&d)))
            }
            What::EncFails => { let mut w = Cut { left: at, panic: false, out: vec![] }; Ok(c.encode(img, &mut w).is_ok() as u64) }
            What::EncAbandoned => { let mut w = Cut { left: at, panic: true, out: vec![] }; Ok(guarded(|| c.encode(img, &mut w)).is_ok() as u64) }
            What::DecTruncated => Ok(c.decode(&mut s[..at].iter().copied()).is_some() as u64),
            What::DecAbandoned => {
                let mut n = 0;
                Ok(guarded(|| c.decode(&mut std::iter::from_fn(|| { if n == at { panic!("scripted panic of the source"); } n += 1; Some(s[n - 1]) }))).is_ok() as u64)
            }
        }
    }

    /// One history on a fresh thread
    fn history(&self, ops: &[&Op], o: &mut Obs) -> Result<(), String> {
        let r = std::thread::scope(|sc| sc.spawn(|| -> Result<u64, String> {
            let mut f = 0;
            for op in ops {
                let r = guarded(|| self.perform(op)).and_then(|x| x);
                match r {
                    Ok(x) => f = fp(&(f, x)),
                    Err(e) => return Err(format!("after {:?}: {}: {}", ops.iter().map(|p| self.name(p)).collect::<Vec<_>>(), self.name(op), e)),
                }
            }
            Ok(f)
        }).join().unwrap_or_else(|_| Err("panic".into())))?;
        o.trace(); o.steps(ops.len());
        o.state(&(ops.iter().map(|p| (p.codec, p.img, p.what as u8, p.at)).collect::<Vec<_>>(), r));
        Ok(())
    }
}

pub fn world(args: &[&str], imgs: Vec<Img>) -> World {
    let codecs: Vec<Named> = args.iter().map(|a| codec(a)).collect();
    let mut w = World { codecs, imgs, streams: vec![], solo: vec![] };
    // what each operation gives on its own, in a process of its own
    for k in 0..w.codecs.len() {
        let (mut st, mut so) = (vec![], vec![]);
        for img in &w.imgs {
            let s = match &w.codecs[k].codec { Some(c) => in_child(|| encode(c, img).unwrap_or_default()).unwrap_or_default(), None => vec![] };
            let px = match &w.codecs[k].codec { Some(c) => in_child(|| decode(c, &s).map(|d| {
                let mut v = d.width().to_le_bytes().to_vec(); v.extend(d.height().to_le_bytes()); v.extend(pixels(&d).concat()); v }).unwrap_or_default()).unwrap_or_default(), None => vec![] };
            let solo = if px.len() < 8 { img_of(1, 1, &[[0, 0, 0]]) } else {
                let g = |i: usize| u32::from_le_bytes(px[i..i + 4].try_into().unwrap());
                img_of(g(0), g(4), &px[8..].chunks_exact(3).map(|c| [c[0], c[1], c[2]]).collect::<Vec<_>>())
            };
            st.push(s); so.push(solo);
        }
        w.streams.push(st); w.solo.push(so);
    }
    w
}

pub fn ops(w: &World, whats: &[What]) -> Vec<Op> {
    let mut v = vec![];
    for codec in 0..w.codecs.len() { for img in 0..w.imgs.len() { for &what in whats {
        // one image is enough for the operations that only disturb
        if img > 0 && !matches!(what, What::Enc | What::Dec) { continue; }
        v.push(Op { codec, img, what, at: None });
    } } }
    v
}

pub fn run(ctx: &mut Ctx) {
    use What::*;
    let all = [Enc, Dec, EncFails, EncAbandoned, DecTruncated, DecAbandoned];
    let args = ["hufman", "delta", "hilbert(rle)", "hilbert(rle(40))", "hilbert(zip)", "zip(dict)", "zip(back)", "cluster-colors(2)", "voronoi(2)"];
    let a = img_of(3, 2, &[[0, 0, 0], [0, 0, 0], [0, 0, 0], [255, 1, 2], [255, 1, 2], [9, 9, 9]]);
    let b = img_of(2, 3, &[[255, 1, 2], [30, 20, 10], [0, 0, 0], [0, 0, 0], [31, 20, 10], [30, 20, 11]]);

    let fork_case = |ctx: &mut Ctx, desc: &dyn Fn() -> String, f: &(dyn Fn(&mut Obs) -> Result<(), String> + Sync)| {
        ctx.case_limit(120_000, desc, |o| {
            let b = in_child(|| { let mut o = Obs::default(); match f(&mut o) { Ok(()) => o.dump(), Err(e) => panic!("{}", e) } })?;
            o.absorb(&b);
            Ok(())
        });
    };

    let w = world(&args, vec![a.clone(), b]);
    let alpha = ops(&w, &all);
    let judged: Vec<Op> = alpha.iter().filter(|p| matches!(p.what, Enc | Dec)).cloned().collect();
    let wr = &w;
    ctx.family("every operation on its own gives what its kind promises");
    for k in 0..args.len() { for i in 0..2usize {
        fork_case(ctx, &|| format!("{} image {}", args[k], i), &|o| {
            if wr.streams[k][i].is_empty() { return Err("encoding fails".into()); }
            same_size(&wr.imgs[i], &wr.solo[k][i])?;
            if wr.c(k)?.is_lossless() { same_pixels(&wr.imgs[i], &wr.solo[k][i])?; }
            o.trace(); o.state(&(k, i));
            Ok(())
        });
    } }
    ctx.family("all histories of three operations");
    for p in &alpha { for q in &alpha {
        if !ctx.wants() { ctx.skip(); continue; }
        fork_case(ctx, &|| format!("{}; {}; then any", wr.name(p), wr.name(q)), &|o| { for r in &judged { wr.history(&[p, q, r], o)?; } Ok(()) });
    } }
    // every position at which an operation can be cut, and all operations of the same codec after it
    let c = img_of(7, 5, &(0..35).map(|i| colour(i * i / 3 % 9)).collect::<Vec<_>>());
    let d = img_of(6, 6, &(0..36).map(|i| colour(if i % 12 < 8 { i % 4 } else { 0 })).collect::<Vec<_>>());
    let e = img_of(9, 3, &[[7, 8, 9]; 27]);
    let wc = world(&args, vec![a.clone(), c, d, e]);
    let alpha_c = ops(&wc, &[Enc, Dec]);
    let (wc, alpha_c) = (&wc, &alpha_c);
    ctx.family("an operation cut at every position, then any of the same codec");
    for k in 0..args.len() { for i in 0..wc.imgs.len() { for what in [EncFails, EncAbandoned, DecTruncated, DecAbandoned] {
        let len = wc.streams[k][i].len();
        let block = 12;
        for from in (0..len).step_by(block) {
            if !ctx.wants() { ctx.skip(); continue; }
            fork_case(ctx, &|| format!("{:?} {} image {} at bytes {}..{}, then any of this codec", what, args[k], i, from, (from + block).min(len)), &|o| {
                for at in from..(from + block).min(len) {
                    let p = Op { codec: k, img: i, what, at: Some(at) };
                    for r in alpha_c.iter().filter(|r| r.codec == k && (r.what == Enc) == matches!(what, EncFails | EncAbandoned)) { wc.history(&[&p, r], o)?; }
                    // and the other direction, on one image
                    for r in alpha_c.iter().filter(|r| r.codec == k && r.img == 1 && (r.what == Enc) != matches!(what, EncFails | EncAbandoned)) { wc.history(&[&p, &p, r], o)?; }
                }
                Ok(())
            });
        }
    } } }
    ctx.family("an operation performed by the sink or the source of another, at every position");
    // pipelines: what takes the bytes, or supplies them, is at work itself on the same thread
    for k in 0..args.len() { for i in 0..wc.imgs.len() { for enc in [true, false] { for inner in 0..args.len() {
        if ctx.quick() && i > 1 && inner != k { continue; }
        if !ctx.wants() { ctx.skip(); continue; }
        fork_case(ctx, &|| format!("{} {} image {}, {} from within", if enc { "Enc" } else { "Dec" }, args[k], i, args[inner]), &|o| {
            let len = wc.streams[k][i].len();
            let at: Vec<usize> = (0..len).filter(|x| inner == k || *x < 12 || len - x < 6 || x % 9 == 0).collect();
            for at in at { for what in [Enc, Dec] {
                let r = std::thread::scope(|sc| sc.spawn(|| -> Result<(), String> {
                    let op = Op { codec: inner, img: (i + 1) % wc.imgs.len(), what, at: None };
                    let what = || format!("{:?} {} at byte {}", what, args[inner], at);
                    let within: std::cell::RefCell<Option<Result<u64, String>>> = Default::default();
                    let n = std::cell::Cell::new(0);
                    let step = |m: usize| { let before = n.get(); n.set(before + m); if before <= at && at < before + m && within.borrow().is_none() { *within.borrow_mut() = Some(Err("endless".into())); let r = guarded(|| wc.perform(&op)).and_then(|x| x); *within.borrow_mut() = Some(r); } };
                    let c = wc.c(k)?;
                    let d = if enc {
                        let mut sink = Nested { out: vec![], step: &step };
                        guarded(|| c.encode(&wc.imgs[i], &mut sink)).map_err(|e| format!("{} within: {}", what(), e))?.map_err(|e| format!("{} within: {:?}", what(), e))?;
                        if !wc.free(k) && sink.out.len() != len { return Err(format!("{} within: {} bytes, {} on its own", what(), sink.out.len(), len)); }
                        let d = decode(c, &sink.out).ok_or_else(|| format!("{} within: the stream does not decode", what()))?;
                        same_size(&wc.imgs[i], &d)?;
                        if wc.free(k) { if args[k].starts_with("cl") { judge12(args[k], &wc.imgs[i], &d)?; } else { judge13(args[k], &wc.imgs[i], &sink.out, &d)?; } None } else { Some(d) }
                    } else {
                        let mut src = wc.streams[k][i].iter().map(|b| { step(1); *b });
                        Some(guarded(|| c.decode(&mut src)).map_err(|e| format!("{} within: {}", what(), e))?.ok_or_else(|| format!("{} within: the stream does not decode", what()))?)
                    };
                    if let Some(d) = d { same_pixels(&wc.solo[k][i], &d).map_err(|e| format!("{} within: {}", what(), e))?; }
                    match within.into_inner() { Some(Err(e)) => Err(format!("{} within: {}", what(), e)), _ => Ok(()) }
                }).join().unwrap_or_else(|_| Err("panic".into())));
                r?;
                o.trace(); o.steps(2); o.state(&(k, i, enc, inner, at, what as u8));
            } }
            Ok(())
        });
    } } } }
    if !ctx.quick() {
        ctx.family("all histories of four operations that use up to two codecs");
        for p in &alpha { for q in &alpha {
            if p.codec > q.codec { continue; }
            if !ctx.wants() { ctx.skip(); continue; }
            let mine: Vec<&Op> = alpha.iter().filter(|x| x.codec == p.codec || x.codec == q.codec).collect();
            fork_case(ctx, &|| format!("{}; {}; then any two", wr.name(p), wr.name(q)), &|o| {
                for r in &mine { for s in mine.iter().filter(|x| matches!(x.what, Enc | Dec)) { wr.history(&[p, q, r, s], o)?; wr.history(&[q, r, p, s], o)?; } }
                Ok(())
            });
        } }
    }
    ctx.family("many repetitions of one operation, then any");
    for p in &alpha { for n in ctx.pick(vec![20usize, 260], vec![10, 100, 300, 1030]) {
        if !ctx.wants() { ctx.skip(); continue; }
        fork_case(ctx, &|| format!("{} times {}, then any", n, wr.name(p)), &|o| {
            for r in judged.iter().filter(|r| n < 100 || r.codec == p.codec || r.img == 0) { let mut h: Vec<&Op> = vec![p; n]; h.push(r); wr.history(&h, o)?; if n >= 100 && r.codec != p.codec { break; } }
            Ok(())
        });
    } }
    // larger images: buffers, tables and dictionaries of realistic size; single colours; other parameters
    let big = vec![
        img_of(60, 41, &(0..60 * 41).map(|i| colour(i * i / 50 % 90)).collect::<Vec<_>>()),
        img_of(41, 60, &(0..60 * 41).map(|i| colour(i / 7 % 300 + 50)).collect::<Vec<_>>()),
        img_of(5, 1, &[[1, 1, 1]; 5]),
        img_of(300, 1, &(0..300).map(|i| [i as u8, (i / 2) as u8, 0]).collect::<Vec<_>>()),
    ];
    let args2 = ["hufman", "delta", "hilbert(rle)", "hilbert(rle(7))", "hilbert(rle(40))", "hilbert(zip)", "zip(dict)", "zip(back)", "cluster-colors(2)", "cluster-colors(5)", "voronoi(2)", "voronoi(6)"];
    let w2 = world(&args2, big);
    let alpha2 = ops(&w2, &all);
    let w2 = &w2;
    ctx.family("all histories of two operations on larger images");
    for p in &alpha2 {
        for half in 0..4usize {
            if !ctx.wants() { ctx.skip(); continue; }
            fork_case(ctx, &|| format!("{}, then any ({})", w2.name(p), half), &|o| {
                for r in alpha2.iter().filter(|r| r.img == half && matches!(r.what, Enc | Dec)) { w2.history(&[p, r], o)?; }
                Ok(())
            });
        }
    }
    ctx.family("all histories of three operations of one codec on larger images");
    for p in &alpha2 { for q in alpha2.iter().filter(|q| q.codec == p.codec) {
        if args2[p.codec] == "zip(back)" && ctx.quick() && p.img > 1 { continue; }
        if !ctx.wants() { ctx.skip(); continue; }
        fork_case(ctx, &|| format!("{}; {}; then any of this codec", w2.name(p), w2.name(q)), &|o| {
            for r in alpha2.iter().filter(|r| r.codec == p.codec && matches!(r.what, Enc | Dec)) { w2.history(&[p, q, r], o)?; }
            Ok(())
        });
    } }
    // tables kept for "the same" image, recognised by where it lies, its size, its ends, its sum or its colours
    ctx.family("look-alike images that take turns in one buffer");
    let base: Vec<C3> = (0..24).map(|i| colour(1 + i * i / 5 % 11)).collect();
    let mut alike: Vec<(&str, Vec<C3>)> = vec![("base", base.clone())];
    let mut put = |what: &'static str, f: &dyn Fn(&mut Vec<C3>)| { let mut v = base.clone(); f(&mut v); alike.push((what, v)); };
    put("two pixels swapped", &|v| v.swap(9, 14));
    put("two neighbours swapped", &|v| v.swap(2, 5));
    put("inner pixels reversed", &|v| v[1..23].reverse());
    put("reversed", &|v| v.reverse());
    put("turned by one", &|v| v.rotate_left(1));
    put("sorted", &|v| v.sort());
    put("one channel of one pixel", &|v| v[13][1] ^= 1);
    put("last pixel", &|v| v[23][2] ^= 64);
    put("first pixel", &|v| v[0][0] ^= 2);
    put("one up, one down", &|v| { v[7][0] = 100; v[8][0] = 101; v[12][2] ^= 128; });
    put("one down, one up", &|v| { v[7][0] = 101; v[8][0] = 100; v[12][2] ^= 128; });
    put("channels exchanged", &|v| v.iter_mut().for_each(|p| p.swap(0, 2)));
    put("other colours, same pattern", &|v| v.iter_mut().for_each(|p| *p = [p[0] ^ 85, p[1].wrapping_add(3), 255 - p[2]]));
    put("one colour", &|v| v.fill([9, 9, 9]));
    let alike = &alike;
    for a in args2 { for i in 0..alike.len() { for (w, h) in [(6u32, 4u32), (24, 1)] {
        if !ctx.wants() { ctx.skip(); continue; }
        fork_case(ctx, &|| format!("{}: {} at {}x{}, then any", a, alike[i].0, w, h), &|o| {
            let c = codec(a);
            let c = c.get()?;
            let lossless = c.is_lossless();
            let imgs: Vec<Img> = alike.iter().map(|(_, px)| img_of(w, h, px)).collect();
            let solo: Vec<(Vec<u8>, Vec<u8>)> = imgs.iter().map(|img| {
                let s = in_child(|| encode(c, img).unwrap_or_default()).unwrap_or_default();
                let d = in_child(|| decode(c, &s).map(|d| pixels(&d).concat()).unwrap_or_default()).unwrap_or_default();
                (s, d)
            }).collect();
            for j in 0..alike.len() { for orders in [vec![i, j], vec![i, i, j], vec![j, i, j]] { for reuse in [true, false] {
                let r: Result<(), String> = std::thread::scope(|sc| sc.spawn(|| {
                    let mut buf = imgs[orders[0]].clone();
                    let mut stream: Vec<u8> = Vec::with_capacity(4096);
                    for (n, &k) in orders.iter().enumerate() {
                        let e = |m: String| format!("after {:?}: {}: {}", orders[..n].iter().map(|k| alike[*k].0).collect::<Vec<_>>(), alike[k].0, m);
                        if reuse { for (p, q) in buf.as_mut_rgb8().unwrap().pixels_mut().zip(&alike[k].1) { p.0 = *q; } } else { drop(buf); buf = imgs[k].clone(); }
                        let s = guarded(|| encode(c, &buf)).and_then(|x| x).map_err(e)?;
                        if !a.starts_with("cl") && s.len() != solo[k].0.len() { return Err(e(format!("{} bytes, {} on its own", s.len(), solo[k].0.len()))); }
                        stream.clear(); stream.extend_from_slice(&s);
                        let d = guarded(|| decode(c, &stream)).map_err(e)?.ok_or_else(|| e("does not decode".into()))?;
                        same_size(&buf, &d).map_err(e)?;
                        if lossless { same_pixels(&buf, &d).map_err(e)?; }
                        else if a.starts_with("cl") { judge12(a, &buf, &d).map_err(e)?; }
                        else if a.starts_with("vo") { judge13(a, &buf, &s, &d).map_err(e)?; }
                        else if pixels(&d).concat() != solo[k].1 { return Err(e("another result than on its own".into())); }
                        stream.clear(); stream.extend_from_slice(&solo[k].0);
                        let d = guarded(|| decode(c, &stream)).map_err(e)?.ok_or_else(|| e("the stream encoded on its own does not decode".into()))?;
                        if pixels(&d).concat() != solo[k].1 { return Err(e("its stream decodes differently than on its own".into())); }
                        o.steps(3);
                    }
                    Ok(())
                }).join().unwrap_or_else(|_| Err("panic".into())));
                r?;
                o.trace(); o.state(&(a, &orders, w, reuse));
            } } }
            Ok(())
        });
    } } }
    // hidden tables that keep what they have seen, up to some number of entries
    ctx.family("long histories over different images, then some of them again");
    let orders = ["ascending", "descending", "each twice", "there and back"];
    for a in args2 { for total in ctx.pick(vec![40usize, 300], vec![40, 300, 1200]) { for (ord, oname) in orders.iter().enumerate() { for same_shape in [false, true] {
        if !ctx.wants() { ctx.skip(); continue; }
        fork_case(ctx, &|| format!("{}: {} images {}, {}", a, total, if same_shape { "of one shape" } else { "of all shapes" }, oname), &|o| {
            let make = |k: usize| if same_shape { img_of(6, 4, &(0..24).map(|i| colour(k * 5 + i * i / 9)).collect::<Vec<_>>()) }
                else { let (w, h) = (1 + k % 35, 1 + k / 35 + k % 3); img_of(w as u32, h as u32, &(0..w * h).map(|i| colour(k + i * i / 20 % 11)).collect::<Vec<_>>()) };
            let imgs: Vec<Img> = (0..total).map(make).collect();
            let c = codec(a);
            let c = c.get()?;
            let lossless = c.is_lossless();
            // on their own: only the codecs with a threshold need it, the others' results are judged
            let solo: Vec<Vec<u8>> = imgs.iter().enumerate().map(|(k, img)| if a.starts_with("hilbert(rle(") && (k % 7 == 0 || total < 100) {
                in_child(|| encode(c, img).ok().and_then(|s| decode(c, &s)).map(|d| pixels(&d).concat()).unwrap_or_default()).unwrap_or_default() } else { vec![] }).collect();
            let mut order: Vec<usize> = match ord { 1 => (0..total).rev().collect(), 2 => (0..2 * total).map(|k| k / 2).collect(), 3 => (0..total).chain((0..total).rev()).collect(), _ => (0..total).collect() };
            order.extend([0, 1, total / 2, total - 1, total - 2, 17, 255 % total, 256 % total]);
            let mut lens: Vec<Option<usize>> = vec![None; total];
            for (n, &k) in order.iter().enumerate() {
                let e = |m: String| format!("operation {} (image {}: {}): {}", n, k, clip(&show(&imgs[k]), 80), m);
                let s = guarded(|| encode(c, &imgs[k])).and_then(|x| x).map_err(e)?;
                let d = guarded(|| decode(c, &s)).map_err(e)?.ok_or_else(|| e("does not decode".into()))?;
                same_size(&imgs[k], &d).map_err(e)?;
                if lossless { same_pixels(&imgs[k], &d).map_err(e)?; }
                else if a.starts_with("cl") { judge12(a, &imgs[k], &d).map_err(e)?; }
                else if a.starts_with("vo") { judge13(a, &imgs[k], &s, &d).map_err(e)?; }
                else if !solo[k].is_empty() && pixels(&d).concat() != solo[k] { return Err(e("another result than on its own".into())); }
                if !a.starts_with("cl") { if *lens[k].get_or_insert(s.len()) != s.len() { return Err(e(format!("{} bytes now, {:?} before", s.len(), lens[k]))); } }
                o.steps(2);
            }
            o.trace(); o.state(&(a, total, ord, same_shape));
            Ok(())
        });
    } } } }
}
