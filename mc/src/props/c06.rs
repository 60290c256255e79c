//! Bit-level I/O
use cniic::verif::bit::{self, Bit, BitArray, BitOrder, IoBitWriter, WriteBit};
use crate::{common::words, engine::*};

fn bits_of(n: u8, bo: BitOrder) -> Vec<bool> {
    (0..8).map(|i| match bo { BitOrder::MsbFirst => n >> (7 - i) & 1 == 1, BitOrder::LsbFirst => n >> i & 1 == 1 }).collect()
}
fn pack(bits: &[bool], bo: BitOrder) -> Vec<u8> {
    assert!(bits.len() % 8 == 0);
    bits.chunks(8).map(|c| c.iter().enumerate().fold(0u8, |a, (i, b)| a | (*b as u8) << match bo { BitOrder::MsbFirst => 7 - i, BitOrder::LsbFirst => i })).collect()
}
fn b(x: bool) -> Bit { if x { Bit::One } else { Bit::Zero } }
fn arr_bits(i: usize) -> Vec<bool> {
    match i {
        0 => vec![],
        1 => vec![true],
        2 => vec![true, false, true],
        3 => vec![false, true, true, false, true, false, true],
        4 => vec![true, true, false, true, false, false, true, false],
        5 => vec![false, true, true, true, false, false, true, false, true, true, false],
        _ => (0..19).map(|k| k % 3 == 0 || k == 17).collect(),
    }
}

#[derive(Clone, Copy, Debug)]
enum Op { Bit(bool), Byte(u8), Arr(usize), Pad }
const OPS: [Op; 12] = [Op::Bit(false), Op::Bit(true), Op::Byte(0xA5), Op::Byte(0x01), Op::Byte(0xF0), Op::Arr(2), Op::Arr(3), Op::Arr(4), Op::Arr(5), Op::Pad, Op::Arr(6), Op::Arr(0)];

fn run_ops(ops: &[Op], bo: BitOrder, o: &mut Obs) -> Result<bool, String> {
    // reference
    let mut want: Vec<bool> = vec![];
    for op in ops {
        let aligned = want.len() % 8 == 0;
        match op {
            Op::Bit(x) => want.push(*x),
            Op::Byte(n) => { if bo == BitOrder::LsbFirst && !aligned { return Ok(false); } want.extend(bits_of(*n, bo)); }
            Op::Arr(i) => { let v = arr_bits(*i); if bo == BitOrder::LsbFirst && !aligned && v.len() >= 8 { return Ok(false); } want.extend(v); }
            Op::Pad => while want.len() % 8 != 0 { want.push(false); }
        }
        o.state(&(bo == BitOrder::MsbFirst, want.len(), &want));
    }
    let nbits = want.len();
    while want.len() % 8 != 0 { want.push(false); }
    let want = pack(&want, bo);

    let mut out: Vec<u8> = vec![];
    {
        let mut w = IoBitWriter::new(&mut out, bo);
        for op in ops {
            match op {
                Op::Bit(x) => w.write(b(*x)),
                Op::Byte(n) => w.write_byte(*n),
                Op::Arr(i) => { let v: Vec<Bit> = arr_bits(*i).into_iter().map(b).collect(); w.write_arr(&BitArray::from_slice(&v, bo)) }
                Op::Pad => w.pad_and_flush(),
            }.map_err(|e| format!("{:?}", e))?;
        }
        w.pad_and_flush().map_err(|e| format!("{:?}", e))?;
    }
    if out != want { return Err(format!("wrote {:02x?}, expected {:02x?}", out, want)); }
    let back: Vec<bool> = bit::bit_reader(out.iter().copied(), bo).map(|x| x == Bit::One).collect();
    let expect: Vec<bool> = out.iter().flat_map(|n| bits_of(*n, bo)).collect();
    if back != expect || back.len() < nbits { return Err("reading back differs".into()); }
    o.steps(ops.len());
    o.trace();
    Ok(true)
}

pub fn run(ctx: &mut Ctx) {
    let orders = [BitOrder::MsbFirst, BitOrder::LsbFirst];
    ctx.family("every byte and position");
    for bo in orders { for n in 0..=255u8 {
        ctx.case(|| format!("{:?} byte {:02x}", bo, n), |o| {
            let want = bits_of(n, bo);
            for i in 0..8u8 { if (bit::nth(n, i, bo) == Bit::One) != want[i as usize] { return Err(format!("bit {} is wrong", i)); } }
            if bit::bit_array(n, bo).iter().map(|x| *x == Bit::One).collect::<Vec<_>>() != want { return Err("bit_array is wrong".into()); }
            let v: Vec<Bit> = want.iter().map(|x| b(*x)).collect();
            if bit::byte_from_slice(&v, bo) != Some(n) { return Err(format!("byte_from_slice gives {:?}", bit::byte_from_slice(&v, bo))); }
            for len in 0..=20usize { if len != 8 {
                let v: Vec<Bit> = (0..len).map(|i| b(want[i % 8])).collect();
                if bit::byte_from_slice(&v, bo).is_some() { return Err(format!("byte_from_slice accepts {} bits", len)); }
            } }
            for x in [false, true] {
                let mut m = n;
                bit::push_bit(&mut m, b(x), bo);
                let want = match bo { BitOrder::MsbFirst => n << 1 | x as u8, BitOrder::LsbFirst => n >> 1 | (x as u8) << 7 };
                if m != want { return Err(format!("push_bit({}) gives {:02x}", x, m)); }
            }
            if b(true).byte() != 1 || b(false).byte() != 0 { return Err("Bit::byte".into()); }
            o.state(&(n, bo == BitOrder::MsbFirst));
            o.steps(8 + 2 + 21);
            o.trace();
            Ok(())
        });
    } }
    ctx.family("masks");
    ctx.case(|| "0..=8".into(), |o| { for k in 0..=8u8 { let want = if k == 8 { 255 } else { (1u8 << k) - 1 }; if bit::bit_mask(k) != want { return Err(format!("mask {} is {:02x}", k, bit::bit_mask(k))); } o.steps(1); } o.trace(); Ok(()) });

    ctx.family("every bit array of up to L bits at every alignment");
    for bo in orders { for len in 0..=ctx.pick(15usize, 19) {
        let hi = len.saturating_sub(8);
        for top in 0..1usize << hi {
            if !ctx.wants() { ctx.skip(); continue; }
            ctx.case(|| format!("{:?} {} bits, high bits {:b}", bo, len, top), |o| {
                for low in 0..1usize << len.min(8) {
                    let val = top << len.min(8) | low;
                    let bits: Vec<bool> = (0..len).map(|i| val >> (len - 1 - i) & 1 == 1).collect();
                    let arr: Vec<Bit> = bits.iter().map(|x| b(*x)).collect();
                    let arr = BitArray::from_slice(&arr, bo);
                    if arr.len() != len { return Err(format!("length {} instead of {}", arr.len(), len)); }
                    let aligns = if bo == BitOrder::LsbFirst && len >= 8 { 1 } else { 8 };
                    for al in 0..aligns {
                        let mut out = vec![];
                        let mut w = IoBitWriter::new(&mut out, bo);
                        let mut want: Vec<bool> = vec![];
                        for k in 0..al { w.write(b(k % 2 == 0)).unwrap(); want.push(k % 2 == 0); }
                        w.write_arr(&arr).unwrap();
                        want.extend(&bits);
                        w.write(Bit::One).unwrap();
                        want.push(true);
                        w.pad_and_flush().unwrap();
                        while want.len() % 8 != 0 { want.push(false); }
                        if out != pack(&want, bo) { return Err(format!("{:b} of {} bits at alignment {}: {:02x?} instead of {:02x?}", val, len, al, out, pack(&want, bo))); }
                        o.steps(len + al + 1);
                    }
                    o.state(&(bo == BitOrder::MsbFirst, len, val));
                    o.trace();
                }
                Ok(())
            });
        }
    } }

    ctx.family("bit arrays of every length up to several hundred bits, at every alignment");
    for bo in orders { for len in (0..=ctx.pick(600usize, 1200)).chain([2047, 2048, 2049, 4096, 65535, 65536, 65537]) { for pat in 0..4usize {
        if !ctx.wants() { ctx.skip(); continue; }
        ctx.case(|| format!("{:?} {} bits, pattern {}", bo, len, pat), |o| {
            let bits: Vec<bool> = (0..len).map(|i| match pat { 0 => i + 1 == len, 1 => (i * i + i / 3) % 5 < 2, 2 => i % 8 == 0 || i / 8 % 2 == 1, _ => true }).collect();
            let v: Vec<Bit> = bits.iter().map(|x| b(*x)).collect();
            let arr = BitArray::from_slice(&v, bo);
            if arr.len() != len { return Err(format!("length {} instead of {}", arr.len(), len)); }
            let aligns = if bo == BitOrder::LsbFirst && len >= 8 { 1 } else if len > 300 { 2 } else { 8 };
            for al in 0..aligns {
                let mut out = vec![];
                let mut w = IoBitWriter::new(&mut out, bo);
                let mut want: Vec<bool> = vec![];
                for _ in 0..al { w.write(Bit::Zero).unwrap(); want.push(false); }
                // twice: what the first one leaves behind must not disturb the second
                for k in 0..2 { if k == 0 || bo == BitOrder::MsbFirst || want.len() % 8 == 0 { w.write_arr(&arr).unwrap(); want.extend(&bits); } }
                w.pad_and_flush().unwrap();
                while want.len() % 8 != 0 { want.push(false); }
                if out != pack(&want, bo) { return Err(format!("at alignment {} the bits written differ", al)); }
                o.steps(len);
            }
            o.state(&(bo == BitOrder::MsbFirst, &bits));
            o.trace();
            Ok(())
        });
    } } }

    ctx.family("all sequences of write operations");
    for bo in orders { for n in 1..=ctx.pick(6usize, 7) {
        let inner = n.min(3);
        words(n - inner, OPS.len(), |p| {
            if !ctx.wants() { ctx.skip(); return; }
            let p: Vec<Op> = p.iter().map(|i| OPS[*i]).collect();
            ctx.case(|| format!("{:?} {:?} and all continuations of {} operations", bo, p, inner), |o| {
                let mut r = Ok(());
                words(inner, OPS.len(), |q| if r.is_ok() {
                    let ops: Vec<Op> = p.iter().copied().chain(q.iter().map(|i| OPS[*i])).collect();
                    r = guarded(|| run_ops(&ops, bo, o)).and_then(|x| x).map(|_| ()).map_err(|e| format!("{:?}: {}", ops, e));
                });
                r
            });
        });
    } }
    ctx.family("long sequences of bits and bytes at each alignment");
    for al in 0..8usize { for n in ctx.pick(vec![20usize, 100], vec![20, 100, 300]) {
        ctx.case(|| format!("{} bits, then every byte value, alignment kept, {} rounds", al, n), |o| {
            let mut ops: Vec<Op> = (0..al).map(|i| Op::Bit(i % 2 == 1)).collect();
            for k in 0..n { for v in 0..=255u8 { ops.push(Op::Byte(v)); if v as usize % 16 == k % 16 { ops.push(Op::Arr(5)); } } }
            run_ops(&ops, BitOrder::MsbFirst, o).map(|_| ()).map_err(|e| clip(&e, 200))
        });
    } }
    ctx.family("outputs of every length");
    for bo in orders { for n in crate::common::ladder(1, ctx.pick(1_100_000, 20_000_000)) { for al in [0usize, 1, 7] { for kind in 0..3usize {
        if bo == BitOrder::LsbFirst && al > 0 && kind != 0 { continue; }
        if !ctx.wants() { ctx.skip(); continue; }
        ctx.case_limit(120_000, || format!("{:?} {} {} after {} bits", bo, n, ["bits", "bytes", "arrays"][kind], al), |o| {
            let bit = |i: usize| (i * i + i / 3) % 5 < 2;
            let mut out: Vec<u8> = vec![];
            let mut want: Vec<bool> = vec![];
            {
                let mut w = IoBitWriter::new(&mut out, bo);
                for k in 0..al { w.write(b(bit(k))).unwrap(); want.push(bit(k)); }
                let e = |e: std::io::Error| format!("{:?}", e);
                match kind {
                    0 => for i in 0..n { w.write(b(bit(i))).map_err(e)?; want.push(bit(i)); },
                    1 => for i in 0..n / 8 { let v = (i * 31 + i / 256) as u8; w.write_byte(v).map_err(e)?; want.extend(bits_of(v, bo)); },
                    _ => for i in 0..n / 16 { let v: Vec<bool> = (0..16).map(|k| bit(i + k)).collect(); let a: Vec<Bit> = v.iter().map(|x| b(*x)).collect(); w.write_arr(&BitArray::from_slice(&a, bo)).map_err(e)?; want.extend(v); }
                }
                w.pad_and_flush().map_err(e)?;
            }
            while want.len() % 8 != 0 { want.push(false); }
            if out != pack(&want, bo) { return Err(format!("{} bytes written, {} expected, or they differ", out.len(), want.len() / 8)); }
            if !bit::bit_reader(out.iter().copied(), bo).map(|x| x == Bit::One).eq(want.iter().copied()) { return Err("reading back differs".into()); }
            o.steps(n); o.state(&(bo == BitOrder::MsbFirst, n, al, kind)); o.trace();
            Ok(())
        });
    } } } }
}
