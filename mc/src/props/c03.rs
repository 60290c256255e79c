//! Dictionary compression against an independent reference of the documented format
use std::collections::HashMap;
use crate::{common::{ladder, XorShift}, engine::*};

type EncF = fn(&[u8]) -> Result<Vec<u8>, String>;
type DecF = fn(&[u8], usize) -> Vec<u8>;

/// The format, from its description: returns the codes
fn ref_encode(input: &[u8], eof: u16) -> (Vec<u16>, u32) {
    // the known strings as a tree: (node, byte) -> node, and the codes of the nodes that are known strings
    let mut edge: HashMap<(u32, u8), u32> = (0..=255u8).map(|b| ((0, b), b as u32 + 1)).collect();
    let mut code: Vec<Option<u16>> = std::iter::once(None).chain((0..256).map(Some)).collect();
    let mut next: u32 = 256;
    let mut out = vec![];
    let mut i = 0;
    let longest = |i: usize, edge: &HashMap<(u32, u8), u32>, code: &[Option<u16>]| -> (usize, u16) {
        let (mut n, mut l, mut best) = (0u32, 0usize, (0usize, 0u16));
        while i + l < input.len() {
            let Some(&m) = edge.get(&(n, input[i + l])) else { break };
            n = m;
            l += 1;
            if let Some(c) = code[n as usize] { best = (l, c); }
        }
        best
    };
    while i < input.len() {
        let (a, ca) = longest(i, &edge, &code);
        out.push(ca);
        if i + a == input.len() { out.push(eof); break; }
        let (b, cb) = longest(i + a, &edge, &code);
        out.push(cb);
        if next < eof as u32 {
            let mut n = 0u32;
            for &x in &input[i..i + a + b] {
                n = *edge.entry((n, x)).or_insert_with(|| { code.push(None); code.len() as u32 - 1 });
            }
            code[n as usize] = Some(next as u16);
            next += 1;
        }
        i += a + b;
    }
    (out, next)
}

fn ref_decode(codes: &[u16], eof: u16) -> Result<Vec<u8>, String> {
    let mut dict: HashMap<u16, Vec<u8>> = (0..=255u8).map(|b| (b as u16, vec![b])).collect();
    let mut next: u32 = 256;
    let mut out = vec![];
    if codes.len() % 2 != 0 { return Err("an odd number of codes".into()); }
    for (k, p) in codes.chunks(2).enumerate() {
        if p[0] == eof { return Err(format!("pair {} starts with the end marker", k)); }
        if p[1] == eof && k * 2 + 2 != codes.len() { return Err(format!("end marker in pair {}, not the last", k)); }
        let mut s = dict.get(&p[0]).ok_or_else(|| format!("undefined code {}", p[0]))?.clone();
        if p[1] != eof { s.extend(dict.get(&p[1]).ok_or_else(|| format!("undefined code {}", p[1]))?); }
        out.extend(&s);
        if next < eof as u32 { dict.insert(next as u16, s); next += 1; }
    }
    Ok(out)
}

fn check(input: &[u8], eof: u16, enc: EncF, dec: DecF, o: &mut Obs) -> Result<(), String> {
    let bytes = enc(input)?;
    if bytes.len() % 4 != 0 { return Err(format!("{} bytes written: not a sequence of pairs", bytes.len())); }
    let codes: Vec<u16> = bytes.chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
    let (want, next) = ref_encode(input, eof);
    let r = ref_decode(&codes, eof)?;
    if r != input { return Err("the codes do not denote the input".into()); }
    if codes != want {
        let k = codes.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(codes.len().min(want.len()));
        return Err(format!("code {} is {:?}, the longest known string has {:?}", k, codes.get(k), want.get(k)));
    }
    let d = dec(&bytes, input.len() + 16);
    if d != input {
        let k = d.iter().zip(input).position(|(a, b)| a != b).unwrap_or(d.len().min(input.len()));
        return Err(format!("decompressed to {} bytes, differing at {} of {}", d.len(), k, input.len()));
    }
    o.trace();
    o.steps(codes.len());
    o.state(&(eof, codes, next));
    Ok(())
}

mod real {
    use cniic::verif::zip as z;
    pub fn enc(i: &[u8]) -> Result<Vec<u8>, String> { let mut v = vec![]; z::zip_dict_encode(i.iter().copied(), &mut v).map_err(|e| format!("{:?}", e))?; Ok(v) }
    pub fn dec(s: &[u8], max: usize) -> Vec<u8> { z::zip_dict_decode(s.iter().copied()).take(max).collect() }
}
#[cfg(feature = "small")]
mod small {
    use cniic_small::verif::zip as z;
    pub fn enc(i: &[u8]) -> Result<Vec<u8>, String> { let mut v = vec![]; z::zip_dict_encode(i.iter().copied(), &mut v).map_err(|e| format!("{:?}", e))?; Ok(v) }
    pub fn dec(s: &[u8], max: usize) -> Vec<u8> { z::zip_dict_decode(s.iter().copied()).take(max).collect() }
}
const REAL_EOF: u16 = 0xFFFF;
#[cfg(feature = "small")]
const SMALL_EOF: u16 = 0x0104;

fn hex(b: &[u8]) -> String { let s: String = b.iter().take(80).map(|x| format!("{:02x}", x)).collect(); format!("{} bytes {}{}", b.len(), s, if b.len() > 80 { ".." } else { "" }) }

/// All words of length n over the alphabet; the last `inner` letters are enumerated inside a case
fn all_words(ctx: &mut Ctx, n: usize, alpha: &[u8], inner: usize, f: &(dyn Fn(&[u8], &mut Obs) -> Result<(), String> + Sync)) {
    let inner = inner.min(n);
    crate::common::words(n - inner, alpha.len(), |p| {
        if !ctx.wants() { ctx.skip(); return; }
        let pre: Vec<u8> = p.iter().map(|&i| alpha[i]).collect();
        ctx.case(|| format!("all {} extensions by {} letters of {:?} of {}", alpha.len().pow(inner as u32), inner, alpha, hex(&pre)), |o| {
            let mut res = Ok(());
            let mut w = pre.clone();
            crate::common::words(inner, alpha.len(), |q| {
                if res.is_err() { return; }
                w.truncate(pre.len());
                w.extend(q.iter().map(|&i| alpha[i]));
                res = guarded(|| f(&w, o)).and_then(|x| x).map_err(|e| format!("input {}: {}", hex(&w), e));
            });
            res
        });
    });
}

pub fn c03(ctx: &mut Ctx) {
    ctx.family("the empty input");
    ctx.case(|| "empty".into(), |o| check(&[], REAL_EOF, real::enc, real::dec, o));
    #[cfg(feature = "small")] {
        let chk = |w: &[u8], o: &mut Obs| check(w, SMALL_EOF, small::enc, small::dec, o);
        ctx.family("4 codes: all strings over 2 letters");
        for n in 1..=ctx.pick(17usize, 20) { all_words(ctx, n, &[0, 255], 8, &chk); }
        ctx.family("4 codes: all strings over 3 letters");
        for n in 1..=ctx.pick(10usize, 12) { all_words(ctx, n, &[97, 98, 3], 5, &chk); }
        ctx.family("4 codes: all strings over 4 letters");
        for n in 1..=ctx.pick(8usize, 9) { all_words(ctx, n, &[0, 1, 2, 255], 4, &chk); }
    }
    #[cfg(not(feature = "small"))]
    ctx.note("the reduced-bounds build of the code under test was not available: only the real bounds were explored");
    let chk = |w: &[u8], o: &mut Obs| check(w, REAL_EOF, real::enc, real::dec, o);
    ctx.family("all strings over 2 letters");
    for n in 1..=ctx.pick(16usize, 19) { all_words(ctx, n, b"ab", 8, &chk); }
    ctx.family("all strings over 3 letters");
    for n in 1..=ctx.pick(9usize, 11) { all_words(ctx, n, &[0, 1, 255], 5, &chk); }
    ctx.family("all one- and two-byte strings");
    for a in 0..=255u8 { ctx.case(|| format!("{:02x} followed by every byte", a), |o| {
        chk(&[a], o)?;
        for b in 0..=255u8 { chk(&[a, b], o).map_err(|e| format!("{:02x}{:02x}: {}", a, b, e))?; }
        Ok(())
    }); }
    // words over {ab, c, abab, ...}: known strings split inside a trie branch, so push-back occurs
    ctx.family("all strings over multi-byte blocks");
    let blocks: [&[u8]; 4] = [b"a", b"ab", b"abcd", b"abcabcd"];
    for n in 1..=ctx.pick(7usize, 8) { crate::common::words(n, 4, |p| {
        if !ctx.wants() { ctx.skip(); return; }
        let w: Vec<u8> = p.iter().flat_map(|&i| blocks[i].to_vec()).collect();
        ctx.case(|| hex(&w), |o| chk(&w, o));
    }); }
    ctx.family("solid runs");
    for n in (1..=300usize).chain([1000, 4095, 4096, 4097, 65535, 65536, 70000]) {
        ctx.case(|| format!("{} equal bytes", n), |o| { chk(&vec![7u8; n], o)?; chk(&vec![255u8; n], o) });
    }
    ctx.family("very long known strings");
    for n in ladder(60_000, ctx.pick(1_100_000, 20_000_000)) { for pat in 0..4usize {
        if !ctx.wants() { ctx.skip(); continue; }
        ctx.case_limit(120_000, || format!("{} bytes of pattern {}", n, pat), |o| chk(&(0..n).map(|i| match pat {
            // equal; equal but for one in the middle, but for the last; of period three
            0 => 7u8, 1 => if i == n / 2 { 8 } else { 7 }, 2 => if i + 1 == n { 8 } else { 7 }, _ => (i % 3) as u8 }).collect::<Vec<_>>(), o));
    } }
    ctx.family("long inputs over few letters");
    for n in ladder(2000, ctx.pick(140_000, 2_200_000)) { for m in [2u64, 3, 5, 16, 255] {
        if !ctx.wants() { ctx.skip(); continue; }
        let mut r = XorShift(0x9abc_def1_1234_5678 ^ (n as u64 * 31 + m));
        let w: Vec<u8> = (0..n).map(|_| r.below(m) as u8).collect();
        ctx.case_limit(120_000, || format!("{} bytes over {} letters", n, m), |o| chk(&w, o));
    } }
    ctx.family("nodes with every number of children around the promotion threshold");
    // pairs (p, b) for b in a set of size k, in ascending, descending and strided order; then read them all again
    for k in (1..=256usize).step_by(ctx.pick(1, 1)).chain([63, 64, 65, 66, 67, 128, 129]) { for order in 0..3usize {
        let w: Vec<u8> = (0..2 * k).flat_map(|i| { let i = i % k; let b = match order { 0 => i, 1 => 255 - i, _ => (i * 37 + 11) % 256 } as u8; vec![b'p', b] }).collect();
        ctx.case(|| format!("{} children, order {}", k, order), |o| {
            chk(&w, o)?;
            // one level deeper as well: p q b
            let w3: Vec<u8> = w.chunks(2).flat_map(|c| vec![b'p', b'q', c[1], b'p', b'q', c[1]]).collect();
            chk(&w3, o)?;
            #[cfg(feature = "small")] { check(&w, SMALL_EOF, small::enc, small::dec, o)?; check(&w3, SMALL_EOF, small::enc, small::dec, o)?; }
            Ok(())
        });
    } }
    ctx.family("code space exhaustion, real bounds");
    for (m, extra) in ctx.pick(vec![(256u64, 0usize), (256, 1), (3, 0), (17, 1), (2, 0), (100, 1)], vec![(256, 0), (256, 1), (2, 0), (3, 1), (17, 0), (17, 1), (100, 0), (200, 1)]) {
        if !ctx.wants() { ctx.skip(); continue; }
        // enough input to use up all 65279 codes, then some more
        let mut r = XorShift(0x1234_5678_9abc_def1 + m);
        let n = match m { 256 => 330_000, 200 => 380_000, 100 => 420_000, 17 => 560_000, 3 => 1_500_000, _ => 2_200_000 } + extra;
        let w: Vec<u8> = (0..n).map(|_| r.below(m) as u8).collect();
        ctx.case_limit(120_000, || format!("{} bytes over {} letters", n, m), |o| {
            let (_, next) = ref_encode(&w, REAL_EOF);
            if next != 0xFFFF { return Err(format!("HARNESS: only {} codes used", next)); }
            chk(&w, o)
        });
    }
    ctx.family("code space about to be exhausted");
    for over in 0..ctx.pick(6usize, 12) {
        if !ctx.wants() { ctx.skip(); continue; }
        // every two-byte string once, in order: each pair makes a code until 65279 are used
        let mut w: Vec<u8> = Vec::new();
        let mut pairs = 0;
        'o: for a in 0..=255u8 { for b in 0..=255u8 { if pairs == 65279 - 4 + over { break 'o; } w.extend([a, b]); pairs += 1; } }
        w.extend([255, 254, 255, 254, 1, 2, 3, 4, 1, 2, 3, 4, 5]);
        ctx.case_limit(120_000, || format!("{} ordered pairs and a tail", pairs), |o| chk(&w, o));
    }
}

pub mod c04 {
    use super::*;
    pub const MIN_COPY: usize = 6;

    fn check(input: &[u8], window: usize, cap: usize, enc: EncF, dec: DecF, o: &mut Obs) -> Result<(), String> {
        let s = enc(input)?;
        // reference decoder, checking every constraint
        let mut out: Vec<u8> = Vec::with_capacity(input.len());
        let mut i = 0;
        let mut toks = 0;
        while i < s.len() {
            if i + 2 > s.len() { return Err("a lone byte at the end of the stream".into()); }
            let l = u16::from_le_bytes([s[i], s[i + 1]]) as usize;
            i += 2;
            if l & 0x8000 == 0 {
                if l == 0 { return Err(format!("empty literal block at {}", i - 2)); }
                if i + l > s.len() { return Err(format!("literal block at {} exceeds the stream", i - 2)); }
                out.extend(&s[i..i + l]);
                i += l;
            } else {
                let l = l & 0x7FFF;
                if i + 2 > s.len() { return Err("truncated copy".into()); }
                let back = u16::from_le_bytes([s[i], s[i + 1]]) as usize;
                i += 2;
                if l < MIN_COPY { return Err(format!("a copy of {} bytes at {}", l, i - 4)); }
                if back > window || back > out.len() { return Err(format!("a copy from {} bytes back, {} bytes are out and the window has {}", back, out.len(), window)); }
                if l > back { return Err(format!("a copy of {} bytes from {} back reads past the end", l, back)); }
                let st = out.len() - back;
                out.extend_from_within(st..st + l);
            }
            toks += 1;
            o.state(&(window, out.len(), &s[..i.min(64)], i));
        }
        if out != input {
            let k = out.iter().zip(input).position(|(a, b)| a != b).unwrap_or(out.len().min(input.len()));
            return Err(format!("the stream denotes {} bytes, differing at {} of {}", out.len(), k, input.len()));
        }
        let bound = input.len() + 2 * input.len().div_ceil(cap);
        if s.len() > bound { return Err(format!("{} bytes for an input of {} (at most {} promised)", s.len(), input.len(), bound)); }
        let d = dec(&s, input.len() + 16);
        if d != input {
            let k = d.iter().zip(input).position(|(a, b)| a != b).unwrap_or(d.len().min(input.len()));
            return Err(format!("decompressed to {} bytes, differing at {} of {}", d.len(), k, input.len()));
        }
        o.trace();
        o.steps(toks);
        Ok(())
    }

    mod real {
        use cniic::verif::zip as z;
        pub fn enc(i: &[u8]) -> Result<Vec<u8>, String> { let mut v = vec![]; z::zip_back_encode(i.iter().copied(), &mut v).map_err(|e| format!("{:?}", e))?; Ok(v) }
        pub fn dec(s: &[u8], max: usize) -> Vec<u8> { z::zip_back_decode(s.iter().copied()).take(max).collect() }
    }
    #[cfg(feature = "small")]
    mod small {
        use cniic_small::verif::zip as z;
        pub fn enc(i: &[u8]) -> Result<Vec<u8>, String> { let mut v = vec![]; z::zip_back_encode(i.iter().copied(), &mut v).map_err(|e| format!("{:?}", e))?; Ok(v) }
        pub fn dec(s: &[u8], max: usize) -> Vec<u8> { z::zip_back_decode(s.iter().copied()).take(max).collect() }
    }
    const W: usize = 65535;
    const CAP: usize = 32767;
    #[cfg(feature = "small")]
    const SW: usize = 9;
    #[cfg(feature = "small")]
    const SCAP: usize = 7;

    pub fn run(ctx: &mut Ctx) {
        let chk = |w: &[u8], o: &mut Obs| check(w, W, CAP, real::enc, real::dec, o);
        ctx.family("the empty input");
        ctx.case(|| "empty".into(), |o| chk(&[], o));
        #[cfg(feature = "small")] {
            let sm = |w: &[u8], o: &mut Obs| check(w, SW, SCAP, small::enc, small::dec, o);
            ctx.family("window 9: all strings over 2 letters");
            for n in 1..=ctx.pick(22usize, 26) { all_words(ctx, n, &[0, 255], 10, &sm); }
            ctx.family("window 9: all strings over 3 letters");
            for n in 1..=ctx.pick(13usize, 16) { all_words(ctx, n, b"abc", 6, &sm); }
            // repetitions at every distance, length and phase with respect to the window and its index
            ctx.family("window 9: prefix, block, gap, block, tail of every length");
            for pre in 0..ctx.pick(30usize, 40) { for blk in 1..=12usize { for gap in 0..=12usize { for tail in [0usize, 1, 7] {
                if !ctx.wants() { ctx.skip(); continue; }
                let mut w: Vec<u8> = (0..pre).map(|i| 100 + i as u8).collect();
                let b: Vec<u8> = (0..blk).map(|i| i as u8).collect();
                w.extend(&b); w.extend((0..gap).map(|i| 50 + i as u8)); w.extend(&b); w.extend((0..gap).map(|i| 50 + i as u8)); w.extend(&b);
                w.extend((0..tail).map(|i| 200 + i as u8));
                ctx.case(|| hex(&w), |o| sm(&w, o));
            } } } }
            ctx.family("window 9: periodic strings of every period and length");
            for p in 1..=20usize { for n in 1..=ctx.pick(120usize, 200) {
                let w: Vec<u8> = (0..n).map(|i| (i % p) as u8).collect();
                ctx.case(|| format!("period {}: {}", p, hex(&w)), |o| sm(&w, o));
            } }
            ctx.family("window 9: all concatenations of blocks");
            let blocks: [&[u8]; 5] = [b"abcdef", b"abcdefg", b"x", b"bcdefgh", b"aaaaaaaa"];
            for n in 1..=ctx.pick(7usize, 8) { crate::common::words(n, 5, |p| {
                if !ctx.wants() { ctx.skip(); return; }
                let w: Vec<u8> = p.iter().flat_map(|&i| blocks[i].to_vec()).collect();
                ctx.case(|| hex(&w), |o| sm(&w, o));
            }); }
        }
        #[cfg(not(feature = "small"))]
        ctx.note("the reduced-bounds build of the code under test was not available: only the real bounds were explored");
        ctx.family("real window: all strings over 2 letters");
        for n in 1..=ctx.pick(16usize, 18) { all_words(ctx, n, b"ab", 8, &chk); }
        ctx.family("real window: block, gap, block of every length");
        for blk in 1..=ctx.pick(60usize, 80) { for gap in 0..=ctx.pick(20usize, 40) {
            let b: Vec<u8> = (0..blk).map(|i| i as u8).collect();
            let w = [b.clone(), (0..gap).map(|i| 150 + i as u8).collect(), b.clone(), b].concat();
            ctx.case(|| hex(&w), |o| chk(&w, o));
        } }
        ctx.family("real window: inputs of every length");
        for n in ladder(1000, ctx.pick(1_100_000, 10_000_000)) { for pat in 0..4usize {
            if pat == 3 && n > ctx.pick(70_000, 300_000) { continue; }
            if !ctx.wants() { ctx.skip(); continue; }
            let mut r = XorShift(0x1357_9bdf_0246_8ace ^ (n as u64));
            // noise; noise with copies from all over; counting in three bytes; blocks of forty
            let mut w: Vec<u8> = Vec::with_capacity(n);
            while w.len() < n { match pat {
                0 => w.push(r.below(256) as u8),
                1 => { let l = 1 + r.below(60) as usize; for _ in 0..l { w.push(r.below(256) as u8); } let back = 1 + r.below(w.len().min(66_000) as u64) as usize; let st = w.len() - back; let b = w[st..(st + 5 + back % 70).min(w.len())].to_vec(); w.extend(b); }
                2 => { let k = w.len() / 3; w.extend([(k >> 16) as u8, (k >> 8) as u8, k as u8]); }
                _ => { let v = r.below(37) as u8 * 5; w.extend(v..v + 40); } } }
            w.truncate(n);
            ctx.case_limit(200_000, || format!("{} bytes of pattern {}", n, pat), |o| chk(&w, o));
        } }
        ctx.family("real window: long literals around the 15-bit length limit");
        for n in [32765usize, 32766, 32767, 32768, 32769, 65533, 65534, 65535, 65536, 65537, 98301, 98302, 131070, 131072] { for d in 0..ctx.pick(1usize, 3) {
            if !ctx.wants() { ctx.skip(); continue; }
            let mut r = XorShift(99 + n as u64 + d as u64);
            let w: Vec<u8> = (0..n).map(|_| r.below(256) as u8).collect();
            ctx.case_limit(120_000, || format!("{} random-looking bytes", n), |o| chk(&w, o));
        } }
        ctx.family("real window: long copies around the 15-bit length limit");
        for n in [1000usize, 32766, 32767, 32768, 32769, 40000] {
            if !ctx.wants() { ctx.skip(); continue; }
            let mut r = XorShift(7 + n as u64);
            let b: Vec<u8> = (0..n).map(|_| r.below(256) as u8).collect();
            let w = [b.clone(), b].concat();
            ctx.case_limit(120_000, || format!("a block of {} bytes, twice", n), |o| chk(&w, o));
        }
        ctx.family("real window: a block repeated at every distance around the window size");
        for dist in (65500usize..65570).step_by(ctx.pick(1, 1)) {
            if !ctx.wants() { ctx.skip(); continue; }
            for_dist(ctx, dist, 40, &chk);
        }
        ctx.family("real window: several blocks around later wrap-arounds");
        for pre in ctx.pick((65515..65545).chain(131055..131085).chain([196600]).collect::<Vec<usize>>(), (131040..131110).chain(196590..196620).collect()) {
            if !ctx.wants() { ctx.skip(); continue; }
            let mut r = XorShift(31 + pre as u64);
            let mut w: Vec<u8> = (0..pre).map(|_| r.below(256) as u8).collect();
            for back in [65535usize, 65536, 65534, 100, 6, 7, 65000] {
                if back <= w.len() { let st = w.len() - back; let e = (st + 20).min(w.len()); let b = w[st..e].to_vec(); w.extend(b); w.extend([back as u8, 1, (back >> 8) as u8]); }
            }
            ctx.case_limit(120_000, || format!("{} bytes, then copies from around the window size back", pre), |o| chk(&w, o));
        }
        ctx.family("real window: periodic strings with periods around the window size");
        for p in ctx.pick(vec![65527usize, 65528, 65529, 65530, 65534, 65535, 65536, 65537], (65525..65545).collect()) {
            if !ctx.wants() { ctx.skip(); continue; }
            let mut r = XorShift(77);
            let b: Vec<u8> = (0..p).map(|_| r.below(256) as u8).collect();
            let w: Vec<u8> = (0..p * 5 / 2).map(|i| b[i % p]).collect();
            ctx.case_limit(120_000, || format!("period {}", p), |o| chk(&w, o));
        }
        ctx.family("real window: solid runs");
        for n in (1..=ctx.pick(200usize, 600)).chain([1000, 4000]) { ctx.case_limit(120_000, || format!("{} equal bytes", n), |o| chk(&vec![9u8; n], o)); }
    }

    fn for_dist(ctx: &mut Ctx, dist: usize, blk: usize, chk: &(dyn Fn(&[u8], &mut Obs) -> Result<(), String> + Sync)) {
        let mut r = XorShift(5 + dist as u64);
        let b: Vec<u8> = (0..blk).map(|_| r.below(256) as u8).collect();
        let mut w = b.clone();
        while w.len() < dist { w.push(r.below(256) as u8); }
        w.extend(&b);
        w.extend([1, 2, 3]);
        ctx.case_limit(120_000, || format!("a block of {} repeated {} bytes later", blk, dist), |o| chk(&w, o));
    }
}
