S('approx-negative', 'C02',
  'a run-length distance that is negative or not a number (both are accepted by the parser)',
  'The run mean is checked in a way that does not hold for odd distances: encoding panics.',
  [('src/codec/hilbertc.rs',
'''    fn start_sequence(&mut self, start_val: Rgb<u8>) {
        let running_avg = RunningAvg::new(&start_val);
''',
'''    fn start_sequence(&mut self, start_val: Rgb<u8>) {
        let running_avg = RunningAvg::new(&start_val);
        // The first value is at distance 0 of its own average
        assert!(running_avg.avg_f64().dist(&as_f64(&start_val)) <= self.allow);
''')],
  rust='''
#[test]
fn odd_distances_work() {
    for d in ["-1", "-0.5", "NaN", "inf", "1e300", "-inf", "0.1"] {
        let c = codec(&format!("hilbert(rle({}))", d));
        let i = img(4, 3, |x, y| [(x * 40) as u8, (y * 9) as u8, 1]);
        assert_eq!(dec(&c, &enc(&c, &i)).unwrap().dimensions(), (4, 3));
    }
}
''')

S('dict-last-code', 'C03',
  'an input long enough to use up all 65279 new codes',
  'The encoder gives out one code fewer than the decoder and the format: once the codes are used up, the string that should have got the last code is not found.',
  [('src/zip/dict.rs',
'''        match self.abbrev.next() {
            Some(new_code) => {
                self.trie.insert(seq, new_code);
            }
            None => {
                // No more available symbols
                // Nothing to do
            }
        }
''',
'''        match self.abbrev.next() {
            // Never hand out the code next to the special one
            Some(new_code) if new_code + 1 < ZIP_SPECIAL_EOF => {
                self.trie.insert(seq, new_code);
            }
            _ => {
                // No more available symbols
                // Nothing to do
            }
        }
''')],
  rust='''
/// An independent encoder of the documented format: the codes, and where in the input each pair ends
fn reference(w: &[u8]) -> (Vec<u16>, Vec<usize>, u16) {
    let mut map: std::collections::HashMap<Vec<u8>, u16> = (0..=255u8).map(|b| (vec![b], b as u16)).collect();
    let (mut next, mut longest, mut pos) = (256u16, 1usize, 0usize);
    let mut out: Vec<u16> = Vec::new();
    let mut ends = vec![];
    let mut first: Option<Vec<u8>> = None;
    while pos < w.len() {
        let l = (1..=longest.min(w.len() - pos)).rev().find(|l| map.contains_key(&w[pos..pos + l])).unwrap();
        let m = w[pos..pos + l].to_vec();
        pos += l;
        out.push(map[&m]);
        first = match first {
            None => Some(m),
            Some(mut p) => {
                p.extend(m);
                if next < 65535 { longest = longest.max(p.len()); map.insert(p, next); next += 1; }
                ends.push(pos);
                None
            }
        };
    }
    if first.is_some() { out.push(65535); }
    (out, ends, next)
}

#[test]
fn the_last_code_is_used() {
    let mut s = 5;
    let mut w: Vec<u8> = (0..400000).map(|_| (lcg(&mut s) % 256) as u8).collect();
    let (_, ends, next) = reference(&w);
    assert_eq!(next, 65535);
    // stop when the last code is given out, then go on with its string
    let last = ends[65535 - 256 - 1];
    let string = w[ends[65535 - 256 - 2]..last].to_vec();
    w.truncate(last);
    for _ in 0..8 { w.extend(&string); }
    let mut z = Vec::new();
    crate::zip::zip_dict_encode(w.iter().cloned(), &mut z).unwrap();
    let got: Vec<u16> = z.chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
    assert!(got == reference(&w).0);
}
''')

S('lookback-stale-buffer', 'C04',
  'a match that fills the comparison buffer when fewer than 6 further bytes of input are left, which do not continue it',
  'When no more input arrives, the match found so far is reported as long as everything read so far, without comparing the bytes read last.',
  [('src/zip/back.rs',
'''                    if self.rep_buf.len() == prev_len {
                        // Could not add any bytes to the buffered input:
                        // end of the stream
                        return Some(lb);
                    }
''',
'''                    if self.rep_buf.len() < prev_len + MIN_REP {
                        // Hardly any bytes were added to the buffered input:
                        // end of the stream, the rest of it is part of the repetition
                        return Some(LookBack { len: self.rep_buf.len(), back: lb.back });
                    }
''')],
  rust='''
#[test]
fn lookback_is_exact_at_the_end() {
    // a repetition that goes on for 16, 32, 64 bytes, then the input ends differently a few bytes later
    for period in 6..80usize {
        for rep in 6..80usize {
            for extra in 0..12usize {
                let mut v: Vec<u8> = (0..period).map(|i| (i * 7 % 251) as u8).collect();
                let again: Vec<u8> = v.iter().cycle().take(rep).cloned().collect();
                v.extend(again);
                v.extend((0..extra).map(|i| 252 + (i % 4) as u8));
                let mut z = Vec::new();
                crate::zip::zip_back_encode(v.iter().cloned(), &mut z).unwrap();
                let back: Vec<u8> = crate::zip::zip_back_decode(z.into_iter()).collect();
                assert!(back == v, "period {} rep {} extra {}", period, rep, extra);
            }
        }
    }
}
''')

S('huffman-tie-fold', 'C05',
  'frequencies for which a composed subtree and a leaf tie in a particular way (e.g. 1 1 1 1 2 with the wrong pair joined)',
  'Subtrees are ranked by frequency minus depth: for some frequencies the tree is not optimal.',
  [('src/huf.rs',
'''        let new_tree = BinTrie::compose(Box::from(left.tree), Box::from(right.tree));
        let new_freq = left.freq + right.freq;
''',
'''        let new_tree = BinTrie::compose(Box::from(left.tree), Box::from(right.tree));
        // A subtree that is much heavier than its sibling dominates the composition
        let dominated = min_heap.len() > 2 && min_heap.peek().map_or(false, |next| next.freq == right.freq && left.freq < right.freq);
        let new_freq = if dominated { right.freq } else { left.freq + right.freq };
''')],
  rust='''
fn optimal(mut f: Vec<u64>) -> u64 {
    let mut total = 0;
    while f.len() > 1 {
        f.sort_by(|a, b| b.cmp(a));
        let s = f.pop().unwrap() + f.pop().unwrap();
        total += s;
        f.push(s);
    }
    total
}

#[test]
fn huffman_is_optimal() {
    for k in 2..=6u32 {
        for w in 0..4u64.pow(k) {
            let counts: Vec<u64> = (0..k).map(|i| 8 + 8 * (w / 4u64.pow(i) % 4)).collect();
            let new_iter = || counts.iter().enumerate().flat_map(|(i, n)| std::iter::repeat(i as u8).take(*n as usize));
            let mut out = Vec::new();
            crate::huf::encode_all(new_iter, &mut out).unwrap();
            let tree = 3 * k as usize - 1;
            assert_eq!(out.len() - tree, optimal(counts.clone()) as usize / 8, "{:?}", counts);
        }
    }
}
''')

S('huffman-deep-code', 'C05',
  'frequencies that give a code of more than 16 bits (Fibonacci-like, thousands of symbols)',
  'Codes are assembled in 16 bits: the deepest symbols of very skewed inputs get the wrong code.',
  [('src/huf.rs',
'''        for (bits, symbol) in enc.trie.iter() {
            codes.insert(symbol.clone(), BitArray::from_slice(&bits as &[Bit], BIT_ORDER));
        }
''',
'''        for (bits, symbol) in enc.trie.iter() {
            // Pack once into a machine word instead of keeping the slices around
            let packed = bits.iter().fold(0u16, |w, b| (w << 1) | b.byte() as u16);
            let bits: Vec<Bit> =
                (0..bits.len()).rev()
                    .map(|i| if (packed as u32) & 1u32.wrapping_shl(i as u32) != 0 { Bit::One } else { Bit::Zero })
                    .collect();
            codes.insert(symbol.clone(), BitArray::from_slice(&bits as &[Bit], BIT_ORDER));
        }
''')],
  rust='''
#[test]
fn deep_codes_round_trip() {
    for n in 2..=22usize {
        let mut f = vec![1usize, 1];
        while f.len() < n { f.push(f[f.len() - 1] + f[f.len() - 2]); }
        let new_iter = || f.iter().enumerate().flat_map(|(i, n)| std::iter::repeat(i as u8).take(*n));
        let mut out = Vec::new();
        crate::huf::encode_all(new_iter, &mut out).unwrap();
        let back: Vec<u8> = crate::huf::decode_all::<_, u8>(out.into_iter()).unwrap().take(f.iter().sum()).collect();
        assert!(back == new_iter().collect::<Vec<u8>>(), "{} symbols", n);
    }
}
''')

S('prs-char-count', 'C14',
  'an argument expression with non-ASCII text',
  'The position of the closing parenthesis is compared with the number of characters instead of bytes: well-formed non-ASCII expressions are refused.',
  [('src/prs.rs',
'''                    if new_pos != (input.len() - 1) {''',
'''                    if new_pos + 1 != input.chars().count() {''')],
  rust='''
#[test]
fn non_ascii_expressions() {
    assert_eq!(crate::prs::fun_call("f(a,b(c))"), Some(("f", vec!["a", "b(c)"])));
    assert_eq!(crate::prs::fun_call("f(\\u{e9},x)"), Some(("f", vec!["\\u{e9}", "x"])));
    assert_eq!(crate::prs::fun_call("\\u{1F600}(\\u{1F600}(z))"), Some(("\\u{1F600}", vec!["\\u{1F600}(z)"])));
    assert_eq!(crate::prs::fun_call("f(a)\\u{e9}"), None);
}
''')

S('prs-comma-after-nested', 'C14',
  'two commas in a row after a nested argument: f(g(x),,y)',
  'An empty argument that follows a nested one is accepted.',
  [('src/prs.rs',
'''                paren_stack -= 1;
                // Important: don't update last_pos here
''',
'''                paren_stack -= 1;
                if paren_stack == 1 {
                    // End of a nested argument:
                    // the comma that comes next (if any) belongs to it
                    nested_end = Some(new_pos + 1);
                }
                // Important: don't update last_pos here
'''),
  ('src/prs.rs',
'''                        if last_pos == new_pos {
                            // Invalid input:
                            // a(b,,c)
                            //     ^
                            return None;
                        }
''',
'''                        if last_pos == new_pos {
                            if nested_end == Some(last_pos - 1) {
                                // a(b(c),,d)
                                //        ^
                                last_pos = new_pos + 1;
                                continue;
                            }
                            // Invalid input:
                            // a(b,,c)
                            //     ^
                            return None;
                        }
'''),
  ('src/prs.rs',
'''    let mut last_pos: usize = 0;

''',
'''    let mut last_pos: usize = 0;
    let mut nested_end = None;

''')],
  rust='''
#[test]
fn empty_arguments_are_refused() {
    for s in ["f(a,,b)", "f(g(x),,y)", "f(,a)", "f(g(x),)", "f(g(h(x)),,)", "f((x),,y)"] {
        assert_eq!(crate::prs::fun_call(s), None, "{}", s);
    }
    assert_eq!(crate::prs::fun_call("f(g(x),y)"), Some(("f", vec!["g(x)", "y"])));
}
''')

S('rle-name-rounded', 'C15',
  'two distances that agree in their first decimal',
  'The distance is rounded in the name of the codec: different codecs share a name and a report.',
  [('src/codec/hilbertc.rs',
'''            CompressionMethod::RLE(d) => format!("hilbert-rle-approx_{}", d),
''',
'''            CompressionMethod::RLE(d) => format!("hilbert-rle-approx_{}", (d * 10.0).round() / 10.0),
''')],
  rust='''
#[test]
fn names_carry_the_distance() {
    for d in ["1", "2.5", "0.25", "12.34", "0.001", "1e-7"] {
        let v: f64 = d.parse().unwrap();
        assert_eq!(codec(&format!("hilbert(rle({}))", d)).name(), format!("hilbert-rle-approx_{}", v));
    }
}
''')

S('rle-negative-lossless', 'C15',
  'a negative run-length distance',
  'Negative distances are taken for exact ones by the lossless flag.',
  [('src/codec/hilbertc.rs',
'''            CompressionMethod::RLE(d) => *d == 0.0,
''',
'''            CompressionMethod::RLE(d) => *d <= 0.0,
''')],
  rust='''
#[test]
fn only_distance_zero_is_lossless() {
    for (d, want) in [("0", true), ("-0.0", true), ("0.0", true), ("1", false), ("-1", false), ("-1e-300", false), ("NaN", false), ("-inf", false)] {
        assert_eq!(codec(&format!("hilbert(rle({}))", d)).is_lossless(), want, "{}", d);
    }
}
''')

S('bench-error-tolerance', 'C16',
  'a lossless codec whose decoded image differs very little (mean error below 0.5)',
  'Small differences are taken for noise: a lossless codec that does not reproduce the image is reported as a success, and small errors of lossy codecs leave no picture.',
  [('src/bench.rs',
'''            if error != 0.0 {
                // Write''',
'''            if error >= 0.5 {
                // Write''')],
  rust='''
struct Almost;
impl Codec for Almost {
    fn encode<W: std::io::Write>(&self, i: &DynamicImage, w: &mut W) -> std::io::Result<()> {
        w.write_all(&i.width().to_le_bytes())?; w.write_all(&i.height().to_le_bytes())?;
        w.write_all(i.to_rgb8().as_raw())
    }
    fn decode<I: Iterator<Item = u8>>(&self, r: &mut I) -> Option<DynamicImage> {
        let mut n = || Some(u32::from_le_bytes([r.next()?, r.next()?, r.next()?, r.next()?]));
        let (w, h) = (n()?, n()?);
        let mut raw: Vec<u8> = r.collect();
        raw[0] ^= 1; // one channel of one pixel
        Some(DynamicImage::ImageRgb8(RgbImage::from_raw(w, h, raw)?))
    }
    fn name(&self) -> String { "almost".into() }
    fn is_lossless(&self) -> bool { true }
}
#[test]
fn a_difference_is_a_failure() {
    img(8, 8, |x, y| [x as u8, y as u8, 3]).save("a.png").unwrap();
    crate::bench::measure_all(&Almost, vec!["a.png"].into_iter()).unwrap();
    assert_eq!(std::fs::read_to_string("output/almost.csv").unwrap(), "");
    assert!(std::path::Path::new("output/a.png").exists());
}
''')

S('bench-rgba-error', 'C16',
  'an image with an alpha channel or 16 bits per channel',
  'The raw size is taken from the colour type of the file instead of 3 bytes per pixel: the ratio of such images is wrong.',
  [('src/bench.rs',
'''            let raw_size = (h as u64) * (w as u64) * 3; // we're counting on 3 bytes RGB pixels
''',
'''            let raw_size = (h as u64) * (w as u64) * img.color().bytes_per_pixel().max(3) as u64;
''')],
  rust='''
#[test]
fn ratio_is_to_three_bytes_per_pixel() {
    let a = DynamicImage::ImageRgba8(img(6, 5, |x, y| [x as u8, y as u8, 3]).to_rgba8());
    let b = DynamicImage::ImageRgb16(img(6, 5, |x, y| [x as u8, y as u8, 3]).to_rgb16());
    a.save("a.png").unwrap();
    b.save("b.png").unwrap();
    crate::bench::measure_all(&codec("hilbert(rle)"), vec!["a.png", "b.png"].into_iter()).unwrap();
    let text = std::fs::read_to_string("output/hilbert-rle.csv").unwrap();
    let rows: Vec<&str> = text.lines().skip(1).collect();
    assert_eq!(rows.len(), 2);
    for r in rows {
        let f: Vec<&str> = r.split(',').collect();
        let size: f64 = f[1].parse().unwrap();
        let ratio: f64 = f[2].parse().unwrap();
        assert!((ratio - 100.0 * size / 90.0).abs() < 1e-9, "{}", r);
    }
}
''')

S('bench-header-race', 'C17',
  'two workers finishing their first image at the same time: one has announced the header but not yet written it when the other writes its row',
  'The header flag lives outside the lock that protects the report: a row can get in front of the header.',
  [('src/bench.rs',
'''    let wrote_header = false;
    let csv = csv_writer(codec)?;
    let writer_state = RwLock::new((wrote_header, csv));
''',
'''    let wrote_header = std::sync::atomic::AtomicBool::new(false);
    let csv = csv_writer(codec)?;
    let writer_state = RwLock::new(((), csv));
'''),
  ('src/bench.rs',
'''            let mut lock_guard = writer_state.write().unwrap();
            let lock_guard = lock_guard.deref_mut();
            let wrote_header: &mut bool = &mut lock_guard.0;
            let csv: &mut _ = &mut lock_guard.1;

            if !*wrote_header {
                csv.write_record(&["name", "compressed_size", "compression_ratio", "error"])
                    .map_err(|e| format!("{:?}", e))?;
                *wrote_header = true;
            }

''',
'''            // The first worker to get here writes the header
            if !wrote_header.swap(true, std::sync::atomic::Ordering::SeqCst) {
                writer_state.write().unwrap().deref_mut().1
                    .write_record(&["name", "compressed_size", "compression_ratio", "error"])
                    .map_err(|e| format!("{:?}", e))?;
            }

            let mut lock_guard = writer_state.write().unwrap();
            let csv: &mut _ = &mut lock_guard.deref_mut().1;

'''),
  ('src/bench.rs',
'''    let (_wrote_header, mut csv) = writer_state.into_inner().unwrap();
''',
'''    let (_, mut csv) = writer_state.into_inner().unwrap();
''')],
  rust='''
use std::sync::{Barrier, atomic::{AtomicUsize, Ordering}};
struct Sync2(Barrier);
impl Codec for Sync2 {
    fn encode<W: std::io::Write>(&self, i: &DynamicImage, w: &mut W) -> std::io::Result<()> {
        w.write_all(&i.width().to_le_bytes())?; w.write_all(&i.height().to_le_bytes())?;
        w.write_all(i.to_rgb8().as_raw())
    }
    fn decode<I: Iterator<Item = u8>>(&self, r: &mut I) -> Option<DynamicImage> {
        let mut n = || Some(u32::from_le_bytes([r.next()?, r.next()?, r.next()?, r.next()?]));
        let (w, h) = (n()?, n()?);
        let raw: Vec<u8> = r.collect();
        let i = RgbImage::from_raw(w, h, raw)?;
        self.0.wait(); // both workers get to the report together
        Some(DynamicImage::ImageRgb8(i))
    }
    fn name(&self) -> String { "sync2".into() }
    fn is_lossless(&self) -> bool { true }
}
#[test]
fn header_comes_first() {
    img(2, 2, |x, y| [x as u8, y as u8, 3]).save("a.png").unwrap();
    img(2, 2, |x, y| [y as u8, x as u8, 3]).save("b.png").unwrap();
    let pool = rayon::ThreadPoolBuilder::new().num_threads(2).build().unwrap();
    for _ in 0..20000 {
        pool.install(|| crate::bench::measure_all(&Sync2(Barrier::new(2)), vec!["a.png", "b.png"].into_iter()).unwrap());
        let text = std::fs::read_to_string("output/sync2.csv").unwrap();
        let lines: Vec<&str> = text.lines().collect();
        assert_eq!(lines.len(), 3, "{}", text);
        assert!(lines[0].starts_with("name,"), "{}", text);
    }
}
''')

S('bench-header-check-outside', 'C17',
  'two workers that both see that there is no header yet before either writes it',
  'The need for a header is looked up under a read lock that is released before the header is written: the header can appear twice.',
  [('src/bench.rs',
'''            let mut lock_guard = writer_state.write().unwrap();
            let lock_guard = lock_guard.deref_mut();
            let wrote_header: &mut bool = &mut lock_guard.0;
            let csv: &mut _ = &mut lock_guard.1;

            if !*wrote_header {
''',
'''            // Reading is enough to find out whether the header is there
            let need_header = !writer_state.read().unwrap().0;

            let mut lock_guard = writer_state.write().unwrap();
            let lock_guard = lock_guard.deref_mut();
            let wrote_header: &mut bool = &mut lock_guard.0;
            let csv: &mut _ = &mut lock_guard.1;

            if need_header {
''')],
  rust='''
use std::sync::Barrier;
struct Sync2(Barrier);
impl Codec for Sync2 {
    fn encode<W: std::io::Write>(&self, i: &DynamicImage, w: &mut W) -> std::io::Result<()> {
        w.write_all(&i.width().to_le_bytes())?; w.write_all(&i.height().to_le_bytes())?;
        w.write_all(i.to_rgb8().as_raw())
    }
    fn decode<I: Iterator<Item = u8>>(&self, r: &mut I) -> Option<DynamicImage> {
        let mut n = || Some(u32::from_le_bytes([r.next()?, r.next()?, r.next()?, r.next()?]));
        let (w, h) = (n()?, n()?);
        let raw: Vec<u8> = r.collect();
        let i = RgbImage::from_raw(w, h, raw)?;
        self.0.wait(); // both workers get to the report together
        Some(DynamicImage::ImageRgb8(i))
    }
    fn name(&self) -> String { "sync3".into() }
    fn is_lossless(&self) -> bool { true }
}
#[test]
fn one_header() {
    img(2, 2, |x, y| [x as u8, y as u8, 3]).save("a.png").unwrap();
    img(2, 2, |x, y| [y as u8, x as u8, 3]).save("b.png").unwrap();
    let pool = rayon::ThreadPoolBuilder::new().num_threads(2).build().unwrap();
    for _ in 0..20000 {
        pool.install(|| crate::bench::measure_all(&Sync2(Barrier::new(2)), vec!["a.png", "b.png"].into_iter()).unwrap());
        let text = std::fs::read_to_string("output/sync3.csv").unwrap();
        assert_eq!(text.lines().filter(|l| l.starts_with("name,")).count(), 1, "{}", text);
    }
}
''')

S('ser-short-write', 'C18',
  'a sink that accepts only a part of a 4-byte integer',
  'u32 values are passed to write() instead of write_all(): what a short write leaves is lost and reported as success.',
  [('src/ser.rs',
'''impl Serialize for u32 {
    fn serialize<W: io::Write>(&self, writer: &mut W) -> io::Result<()> {
        writer.write_all(&self.to_le_bytes())
    }
''',
'''impl Serialize for u32 {
    fn serialize<W: io::Write>(&self, writer: &mut W) -> io::Result<()> {
        // a single small write
        match writer.write(&self.to_le_bytes())? {
            0 => Err(io::ErrorKind::WriteZero.into()),
            _ => Ok(())
        }
    }
''')],
  rust='''
struct Short(Vec<u8>);
impl std::io::Write for Short {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let n = b.len().min(3); self.0.extend(&b[..n]); Ok(n) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
#[test]
fn short_writes_are_harmless() {
    for name in ["hufman", "delta", "hilbert(rle)", "hilbert(zip)", "zip(dict)", "zip(back)"] {
        let c = codec(name);
        let i = img(5, 4, |x, y| [x as u8, y as u8, 3]);
        let mut s = Short(vec![]);
        c.encode(&i, &mut s).unwrap();
        assert!(same(&dec(&c, &s.0).unwrap(), &i), "{}", name);
    }
}
''')

S('huf-last-byte-error', 'C18',
  'a sink that fails exactly at the last, padded byte of a Huffman stream',
  'The result of flushing the last bits is dropped: a failure to write the last byte is reported as success.',
  [('src/huf.rs',
'''    bit_writer.pad_and_flush()?;
    Ok(())
}''',
'''    if let Err(e) = bit_writer.pad_and_flush() {
        // All the symbols have been written
        eprintln!("{:?}", e);
    }
    Ok(())
}''')],
  rust='''
struct Full(usize);
impl std::io::Write for Full {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 == 0 { return Err(std::io::Error::new(std::io::ErrorKind::Other, "disk full")); }
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
#[test]
fn failures_surface() {
    for name in ["hufman", "delta", "hilbert(rle)", "hilbert(zip)", "zip(dict)", "zip(back)"] {
        let c = codec(name);
        let i = img(5, 4, |x, y| [x as u8, y as u8, 3]);
        let n = enc(&c, &i).len();
        for k in 0..n {
            assert!(c.encode(&i, &mut Full(k)).is_err(), "{} at {} of {}", name, k, n);
        }
    }
}
''')

S('rle-partial-record', 'C19',
  'a run-length stream cut inside the colour of its last record',
  'A record whose colour is incomplete repeats the previous colour: a truncated stream is accepted as an image.',
  [('src/codec/hilbertc.rs',
'''            self.curr_color = <Rgb<u8>>::deserialize(&mut self.bytes)?;
            self.count = count;
''',
'''            // A missing color means: same as before
            if let Some(color) = <Rgb<u8>>::deserialize(&mut self.bytes) {
                self.curr_color = color;
            }
            self.count = count;
''')],
  rust='''
#[test]
fn truncation_is_reported() {
    let c = codec("hilbert(rle)");
    let i = img(5, 4, |x, y| [(x / 2) as u8, (y / 2) as u8, 3]);
    let b = enc(&c, &i);
    for k in 0..b.len() {
        assert!(dec(&c, &b[..k]).is_none(), "{} of {}", k, b.len());
    }
}
''')

S('back-missing-distance', 'C19',
  'a lookback stream cut inside the distance of its final copy, where the missing distance happens to be its length',
  'A copy without a distance repeats the bytes just before it: some truncated streams decode to an image.',
  [('src/zip/back.rs',
'''                let back = Back::deserialize(stream)?;
                Some(Symbol::LookBack(LookBack { len, back: back as usize }))
''',
'''                // No distance: the repetition directly follows the original
                let back = Back::deserialize(stream).map_or(len, usize::from);
                Some(Symbol::LookBack(LookBack { len, back }))
''')],
  rust='''
#[test]
fn truncation_is_reported() {
    let c = codec("zip(back)");
    // the last 9 bytes repeat the 9 bytes before them
    for v in 4..9u8 {
        let i = img(3, 1, |x, _| [[1, 2, 9], [0, 0, v], [v, 3, 0]][x as usize]);
        let s = enc(&c, &i);
        assert!(dec(&c, &s).is_some());
        for k in 0..s.len() {
            assert!(dec(&c, &s[..k]).is_none(), "{} of {}", k, s.len());
        }
    }
}
''')

S('main-repeated-prefix', 'C20',
  'an argument in which --codec= is repeated',
  'The option prefix is trimmed repeatedly and need not be there exactly once: malformed arguments are accepted.',
  [('src/main.rs',
'''        let codec_str = input.strip_prefix("--codec=")
                            .ok_or_else(usage)?;
''',
'''        let codec_str = input.trim_start_matches("--codec=");
        if codec_str.len() == input.len() {
            return Err(usage());
        }
''')],
  py='''
png('a.png', 3, 2, lambda x, y: (x, y, 7))
check(run('--codec=hufman', 'a.png').returncode == 0, 'a plain run')
for f in os.listdir('output'): os.remove('output/' + f)
for bad in ['--codec=--codec=hufman', 'hufman', '--codec', '--codec=', '-codec=hufman']:
    r = run(bad, 'a.png')
    check(r.returncode != 0 and r.stderr, bad + ' is refused')
    check(os.listdir('output') == [], bad + ' leaves output/ alone')
''')

S('main-report-failure', 'C20',
  'a report that cannot be created (no output directory)',
  'Failing to create the report is only mentioned: the program exits with status 0.',
  [('src/main.rs',
'''    bench::measure_all(&codec, file_paths).unwrap();
''',
'''    if let Err(e) = bench::measure_all(&codec, file_paths) {
        eprintln!("{:?}", e);
    }
''')],
  py='''
png('a.png', 3, 2, lambda x, y: (x, y, 7))
check(run('--codec=delta', 'a.png').returncode == 0, 'a plain run')
for f in os.listdir('output'): os.remove('output/' + f)
os.rmdir('output')
r = run('--codec=delta', 'a.png')
check(r.returncode != 0 and r.stderr, 'no report: a failure')
''')

S('special-dotted-name', 'C20',
  'a file name with several dots (or two images whose names differ only after the first one)',
  'The extension is taken to start at the first dot: the files of a.1.png and a.2.png overwrite each other.',
  [('src/main.rs',
'''    path.push(p.as_ref().file_name().unwrap());
    path.set_extension(new_extension);
''',
'''    let file_name = p.as_ref().file_name().unwrap().to_string_lossy();
    let stem = file_name.split('.').find(|s| !s.is_empty()).unwrap_or("");
    path.push(format!("{}.{}", stem, new_extension));
''')],
  py='''
png('a.1.png', 2, 2, lambda x, y: (x, y, 7))
png('a.2.png', 3, 3, lambda x, y: (x, y, 8))
check(run('--special=hilbert', 'a.1.png', 'a.2.png').returncode == 0, 'status')
csvs = [f for f in os.listdir('output') if f.endswith('.csv')]
check(len(csvs) == 6, 'three files for each image: %r' % sorted(csvs))
''')

S('special-small-large', 'C20',
  'a square image with a side that is not a power of two',
  'For square images the large file holds the rectangular traversal.',
  [('src/main.rs',
'''                    write_to_csv(hilbert::linearize_large(&img), &img_path, "large");
''',
'''                    // The inscribed square is a part of the large one when it fills the image
                    let square = img.width() == img.height();
                    if square {
                        write_to_csv(hilbert::linearize_rect(&img), &img_path, "large");
                    }
                    else {
                        write_to_csv(hilbert::linearize_large(&img), &img_path, "large");
                    }
'''),
  ('src/main.rs', 'use image::{Pixel, Rgba};', 'use image::{GenericImageView, Pixel, Rgba};')],
  py='''
# the large traversal of a 3x3 image: the 4x4 curve restricted to it. A 4x4 image gives that curve.
png('b.png', 4, 4, lambda x, y: (x, y, 7))
png('a.png', 3, 3, lambda x, y: (x, y, 7))
check(run('--special=hilbert', 'a.png', 'b.png').returncode == 0, 'status')
read = lambda n: open('output/' + n + '.large.hilbert.csv').read().split()[1:]
want = [r for r in read('b') if all(int(v) < 3 for v in r.split(',')[:2])]
check(read('a') == want, 'rows of the large traversal')
''')

S('back-channel-reuse', 'C21',
  'an encoding that fails in the middle (the sink fails), followed by another one on the same thread',
  'The symbol buffer is kept per thread and still holds what a failed run could not write: the next stream starts with symbols of another image.',
  [('src/zip/back.rs',
'''    let mut encoder = Encoder::new(bytes);
    let mut channel = Vec::new();
    encoder.next_symbols(&mut channel);
    while !channel.is_empty() {
        for s in channel.drain(..) {
            s.serialize(output)?;
        }
        encoder.next_symbols(&mut channel);
    }
    Ok(())
}
''',
'''    thread_local! {
        /// Reused from one call to the next
        static CHANNEL: std::cell::RefCell<VecDeque<Symbol>> = std::cell::RefCell::new(VecDeque::new());
    }

    let mut encoder = Encoder::new(bytes);
    CHANNEL.with(|channel| {
        let mut channel = channel.borrow_mut();
        let mut new_symbols = Vec::new();
        encoder.next_symbols(&mut new_symbols);
        channel.extend(new_symbols.drain(..));
        while let Some(s) = channel.pop_front() {
            s.serialize(output)?;
            if channel.is_empty() {
                encoder.next_symbols(&mut new_symbols);
                channel.extend(new_symbols.drain(..));
            }
        }
        Ok(())
    })
}
''')],
  rust='''
struct Full(usize);
impl std::io::Write for Full {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 == 0 { return Err(std::io::Error::new(std::io::ErrorKind::Other, "disk full")); }
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
#[test]
fn failed_runs_leave_nothing_behind() {
    let c = codec("zip(back)");
    let a = img(9, 9, |x, y| [(x / 3) as u8, (y / 3) as u8, 3]);
    let b = img(4, 4, |x, y| [x as u8, 200, y as u8]);
    let alone = enc(&c, &b);
    for k in 0..enc(&c, &a).len() {
        let _ = c.encode(&a, &mut Full(k));
        assert!(enc(&c, &b) == alone, "after a failure at {}", k);
    }
}
''')

S('hilbert-curve-cache', 'C21',
  'two images one after the other with the same number of pixels but different sides',
  'The last curve is kept and recognised by its number of positions only: the next image of the same area is traversed along the curve of the previous one.',
  [('src/hilbert.rs',
'''pub fn iter(xdim: usize, ydim: usize) -> impl Iterator<Item = (usize, usize)> {
    ArbHilbertScan32::new([xdim.try_into().unwrap(), ydim.try_into().unwrap()])
        .map(|arr| (arr[0] as usize, arr[1] as usize))
}
''',
'''pub fn iter(xdim: usize, ydim: usize) -> impl Iterator<Item = (usize, usize)> {
    thread_local! {
        /// Images often come in series of the same size, and delta needs each curve twice
        static LAST: std::cell::RefCell<std::rc::Rc<Vec<(usize, usize)>>> = std::cell::RefCell::new(std::rc::Rc::new(Vec::new()));
    }

    let curve = LAST.with(|last| {
        let mut last = last.borrow_mut();
        let fits = last.len() == xdim * ydim && last.iter().all(|(x, _)| *x < xdim);
        if !fits {
            *last = std::rc::Rc::new(
                ArbHilbertScan32::new([xdim.try_into().unwrap(), ydim.try_into().unwrap()])
                    .map(|arr| (arr[0] as usize, arr[1] as usize))
                    .collect());
        }
        std::rc::Rc::clone(&last)
    });
    (0..curve.len()).map(move |i| curve[i])
}
''')],
  rust='''
#[test]
fn earlier_images_do_not_matter() {
    for (a, b) in [((2u32, 6u32), (3u32, 4u32)), ((3, 4), (4, 3)), ((4, 3), (3, 4)), ((1, 6), (2, 3)), ((2, 2), (4, 1))] {
        for name in ["delta", "hilbert(rle)", "hilbert(zip)"] {
            let c = codec(name);
            let mk = |(w, h): (u32, u32)| img(w, h, |x, y| [x as u8, y as u8, 3]);
            let first = mk(a);
            assert!(same(&dec(&c, &enc(&c, &first)).unwrap(), &first));
            let second = mk(b);
            let s = enc(&c, &second);
            let d = dec(&c, &s).expect("decodes");
            assert!(same(&d, &second), "{} {:?} after {:?}", name, b, a);
        }
    }
}
''')

S('hilbert-shared-cache', 'C21',
  'two threads working on images of different sizes: one stores the size, the other its curve, in between',
  'The cache of the last curve is shared and keeps the size and the curve under separate locks: concurrent work can pair the size of one image with the curve of another.',
  [('src/hilbert.rs',
'''pub fn iter(xdim: usize, ydim: usize) -> impl Iterator<Item = (usize, usize)> {
    ArbHilbertScan32::new([xdim.try_into().unwrap(), ydim.try_into().unwrap()])
        .map(|arr| (arr[0] as usize, arr[1] as usize))
}
''',
'''/// Images often come in series of the same size: keep the last curve
static LAST_SIZE:  std::sync::RwLock<(usize, usize)> = std::sync::RwLock::new((0, 0));
static LAST_CURVE: std::sync::RwLock<Vec<(usize, usize)>> = std::sync::RwLock::new(Vec::new());

pub fn iter(xdim: usize, ydim: usize) -> impl Iterator<Item = (usize, usize)> {
    let known = *LAST_SIZE.read().unwrap() == (xdim, ydim);
    if known {
        return LAST_CURVE.read().unwrap().clone().into_iter();
    }

    let curve: Vec<(usize, usize)> =
        ArbHilbertScan32::new([xdim.try_into().unwrap(), ydim.try_into().unwrap()])
            .map(|arr| (arr[0] as usize, arr[1] as usize))
            .collect();
    *LAST_CURVE.write().unwrap() = curve.clone();
    *LAST_SIZE.write().unwrap() = (xdim, ydim);
    curve.into_iter()
}
''')],
  rust='''
#[test]
fn concurrent_images_do_not_matter() {
    let worker = |w: u32, h: u32| move || {
        let c = codec("hilbert(rle)");
        let i = img(w, h, |x, y| [x as u8, y as u8, 3]);
        for _ in 0..4000 {
            let d = dec(&c, &enc(&c, &i)).expect("decodes");
            assert!(same(&d, &i), "{}x{}", w, h);
        }
    };
    let a = std::thread::spawn(worker(3, 4));
    let b = std::thread::spawn(worker(4, 3));
    let c = std::thread::spawn(worker(2, 6));
    assert!(a.join().is_ok() & b.join().is_ok() & c.join().is_ok());
}
''')
