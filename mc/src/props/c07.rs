//! Serialisation primitives
use cniic::verif::ser::{deser_stream, Deserialize, SerStream, Serialize};
use image::Rgb;
use crate::engine::*;

fn ser<T: Serialize>(x: &T) -> Result<Vec<u8>, String> { let mut v = vec![]; x.serialize(&mut v).map_err(|e| format!("refused: {:?}", e))?; Ok(v) }

/// `want`: the documented encoding; `y`: what must be read back
fn check<S: Serialize, D: Deserialize + PartialEq + std::fmt::Debug>(x: &S, y: &D, want: &[u8], o: &mut Obs) -> Result<(), String> {
    let v = ser(x)?;
    if v != want { return Err(format!("{:?} written as {:02x?}, expected {:02x?}", y, clip(&format!("{:02x?}", v), 120), clip(&format!("{:02x?}", want), 120))); }
    for trailer in [&[][..], &[0u8][..], &[0xEE, 1, 2, 3, 4, 5, 6, 7, 8][..]] {
        let all: Vec<u8> = v.iter().chain(trailer).copied().collect();
        let mut it = all.iter().copied();
        match D::deserialize(&mut it) {
            Some(z) if z == *y => {}
            z => return Err(format!("{:?} read back as {:?}", y, z)),
        }
        let rest: Vec<u8> = it.collect();
        if rest != trailer { return Err(format!("{:?}: {} bytes left of {}", y, rest.len(), trailer.len())); }
    }
    // every strict prefix (all of them for short encodings)
    for k in 0..v.len() {
        if v.len() > 300 && k > 40 && k + 40 < v.len() && (k % 97 != 0 || v.len() > 5000) { continue; }
        if let Some(z) = D::deserialize(&mut v[..k].iter().copied()) { return Err(format!("{} of {} bytes of {:?} read as {:?}", k, v.len(), y, z)); }
        o.steps(1);
    }
    o.state(&v);
    o.trace();
    Ok(())
}

/// A value of a client: encoded as its bytes, without a length
struct Raw(usize, u8);
impl Serialize for Raw {
    fn serialize<W: std::io::Write>(&self, w: &mut W) -> std::io::Result<()> { for i in 0..self.0 { (self.1 ^ i as u8).serialize(w)?; } Ok(()) }
}

fn interesting64() -> Vec<u64> {
    let mut v = vec![0, 1, 2, 127, 128, 254, 255, 256, 257, 0x0102030405060708, 0xF1E2D3C4B5A69788, u64::MAX, u64::MAX - 1];
    for i in 0..64 { v.push(1 << i); v.push((1u64 << i).wrapping_sub(1)); v.push(!(1 << i)); v.push((1u64 << i) + 1); }
    for i in 0..8 { v.push(0xFF << (8 * i)); v.push(0x80 << (8 * i)); v.push(0x7F << (8 * i)); }
    v.sort(); v.dedup(); v
}

pub fn run(ctx: &mut Ctx) {
    ctx.family("every 8- and 16-bit value");
    for hi in 0..=255u8 { ctx.case(|| format!("values with the high byte {:02x}", hi), |o| {
        check(&hi, &hi, &[hi], o)?;
        for lo in 0..=255u8 {
            let n = u16::from_le_bytes([lo, hi]);
            check(&n, &n, &[lo, hi], o)?;
            let m = n as i16;
            check(&m, &m, &[lo, hi], o)?;
        }
        Ok(())
    }); }
    ctx.family("32-, 64-bit and usize values at every bit boundary");
    for x in interesting64() { ctx.case(|| format!("{:x}", x), |o| {
        let le = |n: usize| (0..n).map(|i| (x >> (8 * i)) as u8).collect::<Vec<_>>();
        check(&x, &x, &le(8), o)?;
        check(&(x as usize), &(x as usize), &le(8), o)?;
        check(&(x as u32), &(x as u32), &le(4), o)?;
        // pairs of different widths
        for y in [0u64, 1, 0xFFFF_FFFF_FFFF_FFFF, 0x8000_0000_0000_0001] {
            let le2 = |n: usize| (0..n).map(|i| (y >> (8 * i)) as u8).collect::<Vec<_>>();
            check(&(x as u32, y as u32), &(x as u32, y as u32), &[le(4), le2(4)].concat(), o)?;
            check(&(x, y as u8), &(x, y as u8), &[le(8), le2(1)].concat(), o)?;
            check(&(x as u16, (y, x as u8)), &(x as u16, (y, x as u8)), &[le(2), le2(8), le(1)].concat(), o)?;
            check(&[x as u32, y as u32, x as u32], &[x as u32, y as u32, x as u32], &[le(4), le2(4), le(4)].concat(), o)?;
        }
        Ok(())
    }); }
    ctx.family("every character");
    for blk in 0..=0x10FFu32 { ctx.case(|| format!("U+{:04X}00..", blk), |o| {
        for k in 0..256u32 {
            let Some(c) = char::from_u32(blk * 256 + k) else { continue };
            if (c as u32) < 256 { check(&c, &c, &[c as u32 as u8], o)?; }
            else {
                let mut v = vec![];
                if c.serialize(&mut v).is_ok() { return Err(format!("{:?} was accepted and written as {:02x?}", c, v)); }
                o.steps(1); o.trace(); o.state(&(c as u32));
            }
        }
        Ok(())
    }); }
    ctx.family("sequences of every length");
    for n in (0..=ctx.pick(700usize, 2500)).chain([1000, 65535, 65536]) { ctx.case(|| format!("{} elements", n), |o| {
        let v: Vec<u8> = (0..n).map(|i| (i * 7 + 1) as u8).collect();
        let pre = (n as u64).to_le_bytes();
        check(&&v[..], &v, &[&pre[..], &v[..]].concat(), o)?;
        if n <= 300 {
            let w: Vec<u32> = (0..n as u32).map(|i| i.wrapping_mul(0x01020408)).collect();
            check(&&w[..], &w, &[pre.to_vec(), w.iter().flat_map(|x| x.to_le_bytes()).collect()].concat(), o)?;
            let p: Vec<(u8, u16)> = (0..n).map(|i| (i as u8, !i as u16)).collect();
            check(&&p[..], &p, &[pre.to_vec(), p.iter().flat_map(|x| [x.0, x.1 as u8, (x.1 >> 8) as u8]).collect()].concat(), o)?;
            let c: Vec<char> = (0..n).map(|i| (i % 256) as u8 as char).collect();
            check(&&c[..], &c, &[pre.to_vec(), c.iter().map(|x| *x as u32 as u8).collect()].concat(), o)?;
        }
        Ok(())
    }); }
    ctx.family("long sequences");
    for n in crate::common::ladder(256, ctx.pick(1 << 20, 1 << 22)) { ctx.case(|| format!("{} elements of several types", n), |o| {
        let pre = (n as u64).to_le_bytes();
        let v: Vec<u8> = (0..n).map(|i| (i * 7 + i / 256) as u8).collect();
        check(&&v[..], &v, &[&pre[..], &v[..]].concat(), o)?;
        let w: Vec<u16> = (0..n).map(|i| i as u16).collect();
        check(&&w[..], &w, &[pre.to_vec(), w.iter().flat_map(|x| x.to_le_bytes()).collect()].concat(), o)?;
        let w: Vec<u32> = (0..n as u32).map(|i| i.wrapping_mul(0x01020409)).collect();
        check(&&w[..], &w, &[pre.to_vec(), w.iter().flat_map(|x| x.to_le_bytes()).collect()].concat(), o)?;
        let c: Vec<Rgb<u8>> = (0..n).map(|i| Rgb([i as u8, (i >> 8) as u8, (i >> 16) as u8])).collect();
        check(&&c[..], &c, &[pre.to_vec(), c.iter().flat_map(|x| [3, 0, 0, 0, 0, 0, 0, 0, x.0[0], x.0[1], x.0[2]]).collect()].concat(), o)?;
        // a stream of as many values, read in one go and one by one
        let st: Vec<u8> = SerStream::from_iter(w.iter().copied()).take(4 * n + 8).collect();
        if st.len() != 4 * n { return Err(format!("a stream of {} values has {} bytes", n, st.len())); }
        let mut it = st.into_iter();
        let back: Vec<u32> = deser_stream(&mut it).take(n + 2).collect();
        if back != w { return Err(format!("{} of {} streamed values read back", back.len(), n)); }
        Ok(())
    }); }
    ctx.family("nested sequences");
    for a in 0..=4usize { for b in 0..=4usize { for c in 0..=3usize { ctx.case(|| format!("lengths {} {} {}", a, b, c), |o| {
        let parts: Vec<Vec<u8>> = [a, b, c].iter().map(|n| (0..*n as u8).collect()).collect();
        let sl: Vec<&[u8]> = parts.iter().map(|x| &x[..]).collect();
        let mut want = 3u64.to_le_bytes().to_vec();
        for p in &parts { want.extend((p.len() as u64).to_le_bytes()); want.extend(p); }
        check(&&sl[..], &parts, &want, o)?;
        let two = (&parts[0][..], &parts[1][..]);
        check(&two, &(parts[0].clone(), parts[1].clone()), &want[8..want.len() - 8 - c], o)?;
        Ok(())
    }); } } }
    ctx.family("arrays and colours");
    for r in (0..=255u8).step_by(1) { ctx.case(|| format!("red {}", r), |o| {
        for g in [0u8, 1, 127, 128, 254, 255, r] { for b in [0u8, 3, 255, !r] {
            let c = Rgb([r, g, b]);
            check(&c, &c, &[3, 0, 0, 0, 0, 0, 0, 0, r, g, b], o)?;
            check(&[r, g, b], &[r, g, b], &[r, g, b], o)?;
            check(&[r as i16 - 255, g as i16], &[r as i16 - 255, g as i16], &[(r as i16 - 255).to_le_bytes(), (g as i16).to_le_bytes()].concat(), o)?;
            check(&(r, c), &(r, c), &[r, 3, 0, 0, 0, 0, 0, 0, 0, r, g, b], o)?;
            let z: [u8; 0] = [];
            check(&z, &z, &[], o)?;
        } }
        Ok(())
    }); }
    ctx.family("colours have exactly three channels");
    for n in 0..=6u64 { ctx.case(|| format!("{} announced channels", n), |o| {
        let mut v = n.to_le_bytes().to_vec();
        v.extend([1, 2, 3, 4, 5, 6, 7]);
        let r = Rgb::<u8>::deserialize(&mut v.iter().copied());
        o.trace(); o.steps(1);
        if r.is_some() != (n == 3) { return Err(format!("read as {:?}", r)); }
        Ok(())
    }); }
    ctx.family("streams are concatenations");
    for n in 0..=ctx.pick(200usize, 600) { ctx.case(|| format!("{} values", n), |o| {
        let xs: Vec<(u8, u32)> = (0..n).map(|i| (i as u8, 0x01020304u32.wrapping_mul(i as u32))).collect();
        let want: Vec<u8> = xs.iter().flat_map(|x| ser(x).unwrap()).collect();
        let mut st = SerStream::from_iter(xs.iter().copied());
        let mut got = vec![];
        while let Some(b) = st.next() { got.push(b); if got.len() > want.len() + 8 { return Err("the stream does not end".into()); } }
        if got != want { return Err("not the concatenation".into()); }
        if st.next().is_some() || st.next().is_some() { return Err("the stream resumes after its end".into()); }
        let mut it = got.iter().copied();
        let back: Vec<(u8, u32)> = deser_stream(&mut it).take(n + 2).collect();
        if back != xs { return Err("not read back".into()); }
        // truncated inside the last value: only the complete ones
        if n > 0 { for cut in 1..5 {
            let mut it = got[..got.len() - cut].iter().copied();
            let back: Vec<(u8, u32)> = deser_stream(&mut it).take(n + 2).collect();
            if back != xs[..n - 1] { return Err(format!("{} bytes short: {} values", cut, back.len())); }
        } }
        // values that occupy no byte, in any position
        let zs: Vec<Vec<u16>> = (0..n).map(|i| vec![i as u16; i % 3]).collect();
        let empties: Vec<[u8; 0]> = vec![[]; n];
        if SerStream::from_iter(empties.into_iter()).next().is_some() { return Err("a byte out of nothing".into()); }
        let refs: Vec<&[u16]> = zs.iter().map(|z| &z[..]).collect();
        let want: Vec<u8> = refs.iter().flat_map(|x| ser(x).unwrap()).collect();
        let got: Vec<u8> = SerStream::from_iter(refs.iter().copied()).take(want.len() + 8).collect();
        if got != want { return Err("not the concatenation (sequences)".into()); }
        let one: Vec<u8> = SerStream::from_value(n as u64).take(20).collect();
        if one != (n as u64).to_le_bytes() { return Err("a single value".into()); }
        o.state(&got); o.trace(); o.steps(n);
        Ok(())
    }); }
    ctx.family("streams of values of all lengths, none included");
    for n in 0..=ctx.pick(8usize, 10) { crate::common::words(n, 4, |lens| {
        if !ctx.wants() { ctx.skip(); return; }
        let lens: Vec<usize> = lens.iter().map(|x| [0, 1, 2, 9][*x]).collect();
        ctx.case(|| format!("lengths {:?}", lens), |o| {
            let val = |i: usize| Raw(lens[i], (i * 16 + 3) as u8);
            let want: Vec<u8> = (0..lens.len()).flat_map(|i| ser(&val(i)).unwrap()).collect();
            let mut st = SerStream::from_iter((0..lens.len()).map(val));
            let got: Vec<u8> = (&mut st).take(want.len() + 8).collect();
            if got != want { return Err(format!("{:02x?} instead of {:02x?}", got, want)); }
            if st.next().is_some() { return Err("the stream resumes after its end".into()); }
            o.state(&want); o.trace(); o.steps(want.len());
            Ok(())
        });
    }) }
}
