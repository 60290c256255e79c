//! C18 (write faults) and C19 (truncated streams)
use std::io::{self, ErrorKind, Write};
use cniic::verif::codec::{AnyCodec, Codec, Img};
use crate::{common::*, engine::*};

pub const CODECS: [&str; 13] = ["hufman", "delta", "hilbert(rle)", "hilbert(rle(0))", "hilbert(rle(20))", "hilbert(rle(1000))", "hilbert(zip)", "zip(dict)", "zip(back)",
    "cluster-colors(2)", "cluster-colors(9)", "voronoi(2)", "voronoi(9)"];

/// One or several images per line of the table, each with every codec
pub fn images(ctx: &Ctx) -> Vec<(String, Img)> {
    let mut v: Vec<(String, Img)> = vec![];
    let pal: [C3; 3] = [[0, 0, 0], [255, 0, 255], [7, 130, 9]];
    for area in 1..=ctx.pick(4u32, 5) { for (w, h) in shapes(area) { words(area as usize, 3, |t| {
        // colours are interchangeable for this purpose: the first one is always 0
        if t[0] == 0 { v.push((format!("{}x{} {:?}", w, h, t), img_of(w, h, &t.iter().map(|&i| pal[i]).collect::<Vec<_>>()))); }
    }) } }
    for n in (5..=ctx.pick(16u32, 48)).chain([64, 100, 130]) { for pat in 0..5usize {
        let f = move |i: usize| match pat { 0 => colour(i), 1 => [0, 0, 0], 2 => pal[i % 3], 3 => colour(i / 5), _ => [i as u8, 255, (i * i) as u8] };
        v.push((format!("{}x1 pattern {}", n, pat), line_img(&(0..n as usize).map(f).collect::<Vec<_>>())));
        let (w, h) = (n / 3 + 1, 3);
        v.push((format!("{}x{} pattern {}", w, h, pat), img_of(w, h, &(0..(w * h) as usize).map(f).collect::<Vec<_>>())));
    } }
    for n in [254usize, 255, 256, 257, 510, 511] { v.push((format!("{} equal pixels", n), line_img(&vec![[5, 6, 7]; n]))); }
    for fm in 0..10 { v.push((format!("format {}", fm), format_img(fm, 3, 2, 7))); }
    v
}

/// Larger streams: beyond the size of any buffer in between
fn large(ctx: &Ctx) -> Vec<(String, Img)> {
    let mut v = vec![];
    for (w, h) in ctx.pick(vec![(53u32, 59u32)], vec![(53u32, 59u32), (257, 40), (40, 257)]) {
        v.push((format!("{}x{} all different", w, h), img_of(w, h, &(0..(w * h) as usize).map(colour).collect::<Vec<_>>())));
        v.push((format!("{}x{} seven colours", w, h), img_of(w, h, &(0..(w * h) as usize).map(|i| colour(i * i / 7 % 7)).collect::<Vec<_>>())));
    }
    v
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    None,
    /// the first k bytes are accepted, then every call fails
    Dead(usize, ErrorKind),
    /// the first k bytes are accepted, then one call fails and writing works again
    Once(usize, ErrorKind),
    /// the first k bytes are accepted, then the sink takes nothing more, without an error
    Full(usize),
    /// at most k bytes per call
    Short(usize),
    /// the call that offers byte k is cut short there once (the sink accepts up to it)
    CutAt(usize),
    /// interrupted once before byte k
    IntrAt(usize),
    /// interrupted a thousand times in a row before byte k
    IntrRow(usize),
    /// interrupted before every call, one byte per call
    Worst,
    /// flushing fails
    Flush,
}

struct Sink { out: Vec<u8>, fault: Fault, fired: bool, calls: usize, flushes: usize, row: usize }
impl Sink {
    fn new(fault: Fault) -> Sink { Sink { out: vec![], fault, fired: false, calls: 0, flushes: 0, row: 0 } }
    fn take(&mut self, b: &[u8], n: usize) -> io::Result<usize> { let n = n.min(b.len()); self.out.extend_from_slice(&b[..n]); Ok(n) }
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if b.is_empty() { return Ok(0); }
        let left = |k: usize, have: usize| k.saturating_sub(have);
        match self.fault {
            Fault::None | Fault::Flush => self.take(b, b.len()),
            Fault::Dead(k, e) => { let n = left(k, self.out.len()); if n == 0 { self.fired = true; Err(io::Error::new(e, "sink")) } else { self.take(b, n) } }
            Fault::Once(k, e) => {
                if self.fired { return self.take(b, b.len()); }
                let n = left(k, self.out.len());
                if n == 0 { self.fired = true; Err(io::Error::new(e, "sink")) } else { self.take(b, n) }
            }
            Fault::Full(k) => { let n = left(k, self.out.len()); if n == 0 { self.fired = true; } self.take(b, n) }
            Fault::Short(k) => self.take(b, k),
            Fault::CutAt(k) => { let n = left(k, self.out.len()); if n == 0 || self.fired { self.take(b, b.len()) } else { if n < b.len() { self.fired = true; } self.take(b, n) } }
            Fault::IntrAt(k) => {
                if self.fired { return self.take(b, b.len()); }
                let n = left(k, self.out.len());
                if n == 0 { self.fired = true; return Err(io::Error::new(ErrorKind::Interrupted, "sink")); }
                self.take(b, n)
            }
            Fault::IntrRow(k) => {
                // a row of interruptions, each undone by a new attempt only
                let n = left(k, self.out.len());
                if n == 0 && self.row < 1000 { self.row += 1; self.fired = true; return Err(io::Error::new(ErrorKind::Interrupted, "sink")); }
                self.take(b, if n == 0 { b.len() } else { n })
            }
            Fault::Worst => { if self.calls % 2 == 1 { Err(io::Error::new(ErrorKind::Interrupted, "sink")) } else { self.take(b, 1) } }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushes += 1;
        if self.fault == Fault::Flush { self.fired = true; return Err(io::Error::new(ErrorKind::Other, "flush")); }
        Ok(())
    }
}

/// Encodes on a thread of its own: codecs that depend on the order of a hash map behave the same every time
fn encode_fresh(c: &AnyCodec, img: &Img, fault: Fault, own_thread: bool) -> (Result<io::Result<()>, String>, Sink) {
    let go = || { let mut s = Sink::new(fault); let r = guarded(|| c.encode(img, &mut s)); (r, s) };
    if own_thread { std::thread::scope(|s| s.spawn(go).join().unwrap()) } else { go() }
}

pub fn c18(ctx: &mut Ctx) {
    use ErrorKind::*;
    // every kind but Interrupted, which asks for another attempt
    let kinds = [Other, BrokenPipe, WriteZero, WouldBlock, UnexpectedEof, OutOfMemory, InvalidInput, NotFound, PermissionDenied, ConnectionRefused, ConnectionReset,
        HostUnreachable, NetworkUnreachable, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, NetworkDown, AlreadyExists, NotADirectory, IsADirectory,
        DirectoryNotEmpty, ReadOnlyFilesystem, StaleNetworkFileHandle, InvalidData, TimedOut, StorageFull, NotSeekable, QuotaExceeded, FileTooLarge, ResourceBusy,
        ExecutableFileBusy, Deadlock, TooManyLinks, ArgumentListTooLong, Unsupported];
    let small = images(ctx);
    let large = large(ctx);
    for (big, set) in [(false, &small), (true, &large)] { for arg in CODECS {
        ctx.family(&format!("{}{}", arg, if big { ", large" } else { "" }));
        let c = codec(arg);
        for (what, img) in set {
            ctx.case_limit(200_000, || format!("{} {}", arg, what), |o| {
                let c = c.get()?;
                let own = arg.starts_with("cl") || arg.starts_with("vo");
                let (r, base) = encode_fresh(c, img, Fault::None, own);
                r?.map_err(|e| format!("encoding fails without any fault: {:?}", e))?;
                let len = base.out.len();
                let want = decode(c, &base.out).ok_or("does not decode")?;
                let want_px = pixels(&want);
                let mut n = 0;
                let mut judge = |f: Fault| -> Result<(), String> {
                    n += 1;
                    let (r, s) = encode_fresh(c, img, f, own);
                    let r = r.map_err(|e| format!("{:?}: {}", f, e))?;
                    o.state(&(arg, what, format!("{:?}", f)));
                    o.steps(s.calls);
                    match f {
                        Fault::Dead(..) | Fault::Once(..) | Fault::Full(_) | Fault::Flush => {
                            if s.fired && r.is_ok() { return Err(format!("{:?} ({} bytes in all): encoding reports success", f, len)); }
                            if !s.fired && f != Fault::Flush && r.is_err() { return Err(format!("{:?}: encoding fails before the fault: {:?}", f, r)); }
                            if r.is_ok() && s.out.len() < len && !own { return Err(format!("{:?}: success, but only {} of {} bytes delivered", f, s.out.len(), len)); }
                        }
                        _ => {
                            if let Err(e) = r { return Err(format!("{:?}: encoding fails: {:?}", f, e)); }
                            if s.out != base.out {
                                let d = decode(c, &s.out).ok_or_else(|| format!("{:?}: the bytes delivered do not decode", f))?;
                                if d.width() != want.width() || pixels(&d) != want_px { return Err(format!("{:?}: the bytes delivered decode to another image", f)); }
                            }
                        }
                    }
                    Ok(())
                };
                let step = |k: usize| if big && arg == "zip(back)" { k < 3 || len - k < 3 || k == len / 2 || (k + 1) % 4096 < 2 } else if big { k < 40 || len - k < 40 || k % 1021 == 0 || (k + 2) % 4096 < 5 } else { true };
                judge(Fault::Flush)?;
                judge(Fault::Worst)?;
                for k in [1, 2, 3, 5, 7, 64] { judge(Fault::Short(k))?; }
                for k in (0..len).filter(|k| step(*k)) {
                    judge(Fault::Dead(k, kinds[k % kinds.len()]))?;
                    judge(Fault::Once(k, kinds[(k / 2) % kinds.len()]))?;
                    judge(Fault::Full(k))?;
                    if k > 0 { judge(Fault::CutAt(k))?; }
                    judge(Fault::IntrAt(k))?;
                    if len <= 40 || k % 16 < 2 || len - k < 3 { judge(Fault::IntrRow(k))?; }
                }
                if !big && len <= 200 { for k in (0..len).filter(|k| len <= 40 || k % 16 < 2 || len - k < 3) { for e in kinds { judge(Fault::Dead(k, e))?; } } }
                for _ in 0..n { o.trace(); }
                Ok(())
            });
        }
    } }
    c18_large(ctx);
}

/// Streams longer than any block size: (image, positions at which something happens)
fn very_large(ctx: &Ctx) -> Vec<(String, Img)> {
    let n = ctx.pick(26_000usize, 300_000);
    let f = |what: &str, f: &dyn Fn(usize) -> C3| (format!("{} pixels, {}", n, what), img_of(200, (n / 200) as u32, &(0..n).map(f).collect::<Vec<_>>()));
    vec![f("all different", &colour), f("300 colours", &|i| colour((i ^ (i >> 7) ^ (i * i >> 11)) % 300))]
}
fn landmarks(len: usize) -> Vec<usize> {
    let l = ladder(0, len - 1);
    let mut v: Vec<usize> = l.iter().map(|x| len - 1 - x).chain(l.iter().copied()).collect();
    v.sort(); v.dedup(); v
}

pub fn c18_large(ctx: &mut Ctx) {
    let set = very_large(ctx);
    for arg in CODECS {
        if arg == "zip(back)" || arg == "cluster-colors(9)" || arg == "voronoi(9)" { continue; }
        ctx.family(&format!("{}, faults at landmarks of a long stream", arg));
        let c = codec(arg);
        for (what, img) in &set { for part in 0..12usize {
            if arg.starts_with("cl") && part > 3 { continue; }
            if !ctx.wants() { ctx.skip(); continue; }
            let quick = ctx.quick();
            ctx.case_limit(300_000, || format!("{} {} part {}", arg, what, part), |o| {
                let c = c.get()?;
                let own = arg.starts_with("cl") || arg.starts_with("vo");
                let (r, base) = encode_fresh(c, img, Fault::None, own);
                r?.map_err(|e| format!("encoding fails without any fault: {:?}", e))?;
                let want = decode(c, &base.out).ok_or("does not decode")?;
                for k in landmarks(base.out.len()).into_iter().enumerate().filter(|(i, _)| i % 12 == part).map(|x| x.1) { for f in [Fault::Dead(k, ErrorKind::Other), Fault::Full(k), Fault::IntrAt(k)] {
                    if quick && (own || k % 3 != 0) && f != Fault::Dead(k, ErrorKind::Other) { continue; }
                    let (r, s) = encode_fresh(c, img, f, own);
                    let r = r.map_err(|e| format!("{:?}: {}", f, e))?;
                    if !matches!(f, Fault::IntrAt(_)) {
                        if s.fired && r.is_ok() { return Err(format!("{:?} ({} bytes in all): encoding reports success", f, base.out.len())); }
                    } else {
                        if let Err(e) = r { return Err(format!("{:?}: encoding fails: {:?}", f, e)); }
                        if s.out != base.out {
                            let d = decode(c, &s.out).ok_or_else(|| format!("{:?}: the bytes delivered do not decode", f))?;
                            if !own && (d.width() != want.width() || pixels(&d) != pixels(&want)) { return Err(format!("{:?}: the bytes delivered decode to another image", f)); }
                        }
                    }
                    o.trace(); o.steps(s.calls); o.state(&(arg, what, format!("{:?}", f)));
                } }
                Ok(())
            });
        } }
    }
}

pub fn c19_large(ctx: &mut Ctx) {
    let set = very_large(ctx);
    for arg in CODECS {
        if arg == "zip(back)" || arg == "cluster-colors(9)" || arg == "voronoi(9)" { continue; }
        ctx.family(&format!("{}, landmarks of a long stream", arg));
        let c = codec(arg);
        for (what, img) in &set { for part in 0..12usize {
            if !ctx.wants() { ctx.skip(); continue; }
            ctx.case_limit(300_000, || format!("{} {} part {}", arg, what, part), |o| {
                let c = c.get()?;
                let s = encode(c, img)?;
                for k in landmarks(s.len()).into_iter().enumerate().filter(|(i, _)| i % 12 == part).map(|x| x.1) { cut_at(arg, c, &s, k, o)?; }
                Ok(())
            });
        } }
    }
}

fn cut_everywhere(arg: &str, c: &Named, img: &Img, big: bool, o: &mut Obs) -> Result<(), String> {
    let c = c.get()?;
    let s = encode(c, img)?;
    if decode(c, &s).is_none() { return Err("the whole stream does not decode".into()); }
    for k in 0..s.len() {
        if big && !(k < 200 || s.len() - k < 400 || k % 257 == 0) { continue; }
        cut_at(arg, c, &s, k, o)?;
    }
    Ok(())
}

fn cut_at(arg: &str, c: &AnyCodec, s: &[u8], k: usize, o: &mut Obs) -> Result<(), String> {
    let mut reads = 0u64;
    let r = guarded(|| c.decode(&mut std::iter::from_fn(|| {
        reads += 1;
        if reads > 20_000_000 { panic!("reads on and on after the end of the stream"); }
        s.get(reads as usize - 1).filter(|_| reads as usize <= k).copied()
    }))).map_err(|e| format!("the first {} of {} bytes: {}", k, s.len(), e))?;
    if let Some(d) = r { return Err(format!("the first {} of {} bytes decode to {}", k, s.len(), clip(&show(&d), 100))); }
    o.trace();
    o.state(&(arg, &s[..k]));
    o.steps(k + 1);
    Ok(())
}

pub fn c19(ctx: &mut Ctx) {
    let mut small = images(ctx);
    // a few more shapes than for the faults
    for w in 1..=ctx.pick(9u32, 16) { for h in 1..=ctx.pick(9u32, 16) { for pat in 0..2 {
        small.push((format!("{}x{} pattern {}", w, h, 10 + pat), img_of(w, h, &(0..(w * h) as usize).map(|i| if pat == 0 { colour(i % 5) } else { [(i * 3) as u8, 0, 0] }).collect::<Vec<_>>())));
    } } }
    let large = large(ctx);
    for (big, set) in [(false, &small), (true, &large)] { for arg in CODECS {
        ctx.family(&format!("{}{}", arg, if big { ", large" } else { "" }));
        let c = codec(arg);
        for (what, img) in set {
            ctx.case_limit(60_000, || format!("{} {}", arg, what), |o| cut_everywhere(arg, &c, img, big, o));
        }
    } }
    // the compressors also see the bytes that precede every pixel (3 0 0 0 0 0 0 0): colours that continue them
    ctx.family("all short images over colours that look like the bytes between them");
    let v = [0u8, 3, 5];
    let cols: Vec<C3> = (0..27).map(|i| [v[i / 9], v[i / 3 % 3], v[i % 3]]).collect();
    for arg in ["zip(back)", "zip(dict)", "delta", "hufman"] { let c = codec(arg); for n in 1..=ctx.pick(3usize, 4) {
        if n > 3 && arg != "zip(back)" { continue; }
        words(n - 1, cols.len(), |q| {
            if !ctx.wants() { ctx.skip(); return; }
            let pre: Vec<C3> = q.iter().map(|i| cols[*i]).collect();
            ctx.case(|| format!("{}: {:?} and one more", arg, pre), |o| {
                for last in &cols { let mut p = pre.clone(); p.push(*last); cut_everywhere(arg, &c, &img_of(n as u32, 1, &p), false, o).map_err(|e| format!("{:?}: {}", p, e))?; }
                Ok(())
            });
        });
    } }
    c19_large(ctx);
}
