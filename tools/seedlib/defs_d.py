S('dict-long-strings', 'C03',
  'a known string of more than 1024 bytes',
  'The search for the longest known string gives up after 1024 bytes.',
  [('src/zip/dict.rs',
'''                    longest_seq.push(byte);
''',
'''                    longest_seq.push(byte);
                    // Bound the time spent on very repetitive data
                    if longest_seq.len() >= 1024 {
                        break;
                    }
''')],
  rust='''
#[test]
fn very_long_strings_are_found() {
    // n equal bytes: the known strings are 1, 2, 4, 8.. bytes long
    let data = vec![9u8; 2 * ((1 << 13) - 1)];
    let mut out = Vec::new();
    crate::zip::zip_dict_encode(data.iter().cloned(), &mut out).unwrap();
    let codes: Vec<u16> = out.chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
    let mut expected = vec![9, 9];
    for i in 0..12 { expected.extend([256 + i, 256 + i]); }
    assert_eq!(codes, expected);
}
''')

S('lookback-edge', 'C04',
  'more than 65535 bytes, the best match for some bytes starting exactly at the byte that has just left the window',
  'A position that has just been overwritten in the ring buffer still counts as being in it.',
  [('src/zip/back.rs',
'''            pos >= self.start
''',
'''            pos + 1 >= self.start
''')],
  rust='''
#[test]
fn window_edge() {
    for at in 65530..65545 {
        let marker = [200u8, 201, 202, 203, 204, 205, 206, 207];
        let mut data: Vec<u8> = marker.to_vec();
        let mut s = 3;
        while data.len() < at { data.push((lcg(&mut s) % 200) as u8); }
        data.extend(marker);
        let mut out = Vec::new();
        crate::zip::zip_back_encode(data.iter().cloned(), &mut out).unwrap();
        let back: Vec<u8> = crate::zip::zip_back_decode(out.into_iter()).collect();
        assert!(back == data, "{}", at);
    }
}
''')

S('large-traversal-pow2', 'C08',
  'an image both sides of which are different powers of two',
  'The large traversal takes a shortcut for dimensions that are powers of two, square or not.',
  [('src/hilbert.rs',
'''    let (xorig, yorig) = img.dimensions();
    let square_order = max(xorig.next_power_of_two(), yorig.next_power_of_two());

    iter(square_order as usize, square_order as usize)
''',
'''    let (xorig, yorig) = img.dimensions();
    let (xpow, ypow) = (xorig.next_power_of_two(), yorig.next_power_of_two());
    let square_order = max(xpow, ypow);

    // Don't go over positions that are outside of the image if its dimensions are fine already
    let (xdim, ydim) =
        if xpow == xorig && ypow == yorig { (xorig, yorig) } else { (square_order, square_order) };

    iter(xdim as usize, ydim as usize)
''')],
  rust='''
#[test]
fn order_is_that_of_the_square() {
    for (w, h) in [(8u32, 2u32), (4, 8), (2, 16), (16, 4)] {
        let i = img(w, h, |x, y| [x as u8, y as u8, 0]);
        let got: Vec<_> = crate::hilbert::linearize_large(&i).map(|p| (p.0[0] as u32, p.0[1] as u32)).collect();
        let n = w.max(h) as usize;
        let expected: Vec<_> = crate::hilbert::iter(n, n).map(|(x, y)| (x as u32, y as u32)).filter(|(x, y)| *x < w && *y < h).collect();
        assert_eq!(got, expected);
    }
}
''')

S('rle-alpha', 'C09',
  'neighbouring pixels of the same colour but of different opacity',
  'Runs are formed on the pixels as they are stored, so a change of opacity alone interrupts a run.',
  [('src/codec/hilbertc.rs',
'''                for (count, color) in rle_exact(iter) {
                    count.serialize(writer)?;
                    color.serialize(writer)?;
                }
''',
'''                for (count, pixel) in rle_exact(hilbert::linearize(img)) {
                    count.serialize(writer)?;
                    pixel.to_rgb().serialize(writer)?;
                }
''')],
  rust='''
#[test]
fn opacity_does_not_matter() {
    let i = DynamicImage::ImageRgba8(image::RgbaImage::from_fn(4, 4, |x, y| image::Rgba([1, 2, 3, (40 * x + 7 * y) as u8])));
    let c = codec("hilbert(rle)");
    assert_eq!(enc(&c, &i), enc(&c, &img(4, 4, |_, _| [1, 2, 3])));
}
''')

S('approx-squared-limit', 'C10',
  'a negative distance',
  'Squared distances are compared to spare the square root, which loses the sign of the limit.',
  [('src/codec/hilbertc.rs',
'''        let accept = curr_f64.dist(&new_f64) <= self.allow;
''',
'''        // No need for square roots
        let sq_dist: f64 = curr_f64.iter().zip(new_f64).map(|(a, b)| (a - b).powi(2)).sum();
        let accept = sq_dist <= self.allow.powi(2);
''')],
  rust='''
#[test]
fn nothing_is_within_a_negative_distance() {
    let i = img(2, 2, |_, _| [5, 6, 7]);
    let out = enc(&codec("hilbert(rle(-3))"), &i);
    let distinct = enc(&codec("hilbert(rle)"), &img(2, 2, |x, y| [x as u8, y as u8, 0]));
    assert_eq!(out.len(), distinct.len());
}
''')

S('colors-sampled', 'C12',
  'an image with more than 4096 colours that has groups of different sizes',
  'Images with many colours are clustered by a sample of their colours; the others join the nearest group without moving its mean.',
  [('src/codec/clusterc.rs',
'''        let color_counts = utils::count_freqs(pixels_iter())
                                .into_iter()
                                .map(|(color, count)| ColorCount { color, count: count as u32 })
                                .collect();

        let (w, h) = img.dimensions();
        let nclusters = self.0;
        let clusters = kmeans::cluster(color_counts, nclusters as usize);
''',
'''        let mut color_counts: Vec<ColorCount> =
            utils::count_freqs(pixels_iter())
                .into_iter()
                .map(|(color, count)| ColorCount { color, count: count as u32 })
                .collect();

        let (w, h) = img.dimensions();
        let nclusters = self.0;

        // K-means is slow with many colors: work with a sample
        const MAX_SAMPLE: usize = 4096;
        let others =
            if color_counts.len() > MAX_SAMPLE {
                color_counts.split_off(MAX_SAMPLE)
            }
            else {
                Vec::new()
            };
        let mut clusters: Vec<_> = kmeans::cluster(color_counts, nclusters as usize).into_iter().collect();
        for other in others {
            let (_, members) = clusters.iter_mut()
                                    .min_by(|(c1, _), (c2, _)| c1.dist(&other).partial_cmp(&c2.dist(&other)).unwrap())
                                    .unwrap();
            members.push(other);
        }
''')],
  rust='''
#[test]
fn one_group_has_the_mean_of_everything() {
    let mut s = 5;
    for _ in 0..10 {
        let i = RgbImage::from_fn(80, 80, |_, _| Rgb([lcg(&mut s) as u8, lcg(&mut s) as u8, lcg(&mut s) as u8]));
        let mut sum = [0u64; 3];
        for p in i.pixels() { for k in 0..3 { sum[k] += p.0[k] as u64; } }
        let c = codec("cluster-colors(1)");
        let d = dec(&c, &enc(&c, &DynamicImage::ImageRgb8(i))).unwrap().to_rgb8();
        for p in d.pixels() { for k in 0..3 { assert_eq!(p.0[k] as u64, sum[k] / 6400); } }
    }
}
''')

S('voronoi-u32-sum', 'C13',
  'a group of pixels the coordinates of which add up to more than 4294967295 (an image over 92000 pixels wide, say)',
  'The sums for the mean position are kept in 32 bits.',
  [('src/codec/clusterc.rs',
'''        fn vector_add(mut x: [u64; 5], y: &ColorPos) -> [u64; 5] {
            x[0] += y.x as u64;
            x[1] += y.y as u64;
            for i in 0..3 {
                x[i+2] += y.color[i] as u64;
            }
            x
        }
''',
'''        fn vector_add(mut x: [u32; 5], y: &ColorPos) -> [u32; 5] {
            x[0] = x[0].wrapping_add(y.x);
            x[1] = x[1].wrapping_add(y.y);
            for i in 0..3 {
                x[i+2] += y.color[i] as u32;
            }
            x
        }
'''),
   ('src/codec/clusterc.rs',
'''        let avg_vector = sum_vector.map(|x| x / points.len() as u64);
''',
'''        let avg_vector = sum_vector.map(|x| x / points.len() as u32);
''')],
  rust='''
#[test]
fn centroid_of_a_wide_image() {
    let i = img(100_000, 1, |_, _| [1, 2, 3]);
    let out = enc(&codec("voronoi(1)"), &i);
    assert_eq!(u32::from_le_bytes([out[16], out[17], out[18], out[19]]), 49999);
}
''')

S('bench-plain-rows', 'C16',
  'a path with a comma, a quote or a line break',
  'The rows are written as plain text, so that paths with special characters break the report.',
  [('src/bench.rs',
'''            csv.serialize((file_name, compressed_size, compression_ratio * 100.0, error))
                .map_err(|e| format!("{:?}", e))?;
            Ok(())
''',
'''            let fields = [file_name.to_string(), compressed_size.to_string(), format!("{:?}", compression_ratio * 100.0), format!("{:?}", error)];
            csv.flush().map_err(|e| format!("{:?}", e))?;
            writeln!(csv.get_ref(), "{}", fields.join(","))
                .map_err(|e| format!("{:?}", e))?;
            Ok(())
''')],
  py='''
import csv
for name in ['plain.png', 'a,b.png', 'a"b.png', 'a b.png', 'a\\nb.png']:
    png(name, 2, 2, lambda x, y: (x, y, 3))
    r = run('--codec=zip(dict)', name)
    check(r.returncode == 0, 'status')
    got = list(csv.reader(open('output/zip-dict.csv', newline='')))
    check(len(got) == 2 and len(got[1]) == 4 and got[1][0] == name, repr(got))
''')

S('bench-lock-order', 'C17',
  'a worker that fails while another one is writing its row',
  'Failures are counted under a second lock, and the two locks are taken in opposite orders by the two kinds of workers.',
  [('src/bench.rs',
'''    let writer_state = RwLock::new((wrote_header, csv));
''',
'''    let writer_state = RwLock::new((wrote_header, csv));
    let failures = RwLock::new(0usize);
'''),
   ('src/bench.rs',
'''            let mut lock_guard = writer_state.write().unwrap();
''',
'''            // Print the number of failures that precede each row
            let failure_guard = failures.read().unwrap();
            println!("bench: {} failures so far", *failure_guard);
            let mut lock_guard = writer_state.write().unwrap();
'''),
   ('src/bench.rs',
'''        .for_each(|r| print_err(r));

    let (_wrote_header''',
'''        .for_each(|r: Result<(), String>| {
            if r.is_err() {
                // Keep the rows out until the failure is counted
                let lock_guard = writer_state.read().unwrap();
                println!("bench: header written: {}", lock_guard.0);
                *failures.write().unwrap() += 1;
            }
            print_err(r)
        });

    let (_wrote_header''')],
  rust='''
use std::sync::Barrier;
struct Sync2(Barrier);
impl Codec for Sync2 {
    fn encode<W: std::io::Write>(&self, i: &DynamicImage, w: &mut W) -> std::io::Result<()> {
        w.write_all(i.to_rgb8().as_raw())
    }
    fn decode<I: Iterator<Item = u8>>(&self, r: &mut I) -> Option<DynamicImage> {
        let raw: Vec<u8> = r.collect();
        let i = RgbImage::from_raw(2, 2, raw)?;
        self.0.wait(); // both workers get to the end together
        if i.get_pixel(0, 0).0[2] == 9 { return None; }
        Some(DynamicImage::ImageRgb8(i))
    }
    fn name(&self) -> String { "sync2".into() }
    fn is_lossless(&self) -> bool { true }
}
#[test]
fn no_deadlock() {
    img(2, 2, |x, y| [x as u8, y as u8, 3]).save("a.png").unwrap();
    img(2, 2, |x, y| [y as u8, x as u8, 9]).save("b.png").unwrap();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(2).build().unwrap();
        for _ in 0..20000 {
            pool.install(|| crate::bench::measure_all(&Sync2(Barrier::new(2)), vec!["a.png", "b.png"].into_iter()).unwrap());
            tx.send(()).unwrap();
        }
    });
    for i in 0..20000 {
        if rx.recv_timeout(std::time::Duration::from_secs(20)).is_err() {
            eprintln!("stuck in round {}", i);
            std::process::exit(1);
        }
    }
}
''')

S('ser-interrupted-array', 'C18',
  'a sink that is interrupted in the middle of an array',
  'Arrays are packed and written with a retry loop that starts over after an interruption.',
  [('src/ser.rs',
'''        for i in 0..N {
            self[i].serialize(writer)?;
        }
        Ok(())
''',
'''        // Hand the items over in one piece
        let mut bytes = Vec::new();
        for i in 0..N {
            self[i].serialize(&mut bytes)?;
        }
        let mut written = 0;
        while written < bytes.len() {
            match writer.write(&bytes[written..]) {
                Ok(0) => return Err(io::ErrorKind::WriteZero.into()),
                Ok(n) => written += n,
                // Try again
                Err(e) if e.kind() == io::ErrorKind::Interrupted => written = 0,
                Err(e) => return Err(e),
            }
        }
        Ok(())
''')],
  rust='''
/// Accepts one byte, is interrupted, accepts two bytes, is interrupted..
struct Slow(Vec<u8>, u8);
impl std::io::Write for Slow {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.1 = (self.1 + 1) % 4;
        let n = match self.1 { 0 | 2 => return Err(std::io::ErrorKind::Interrupted.into()), 1 => 1, _ => 2 };
        let n = b.len().min(n);
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
#[test]
fn interruptions_are_harmless() {
    let c = codec("delta");
    let i = img(3, 3, |x, y| [x as u8, y as u8, 0]);
    let mut s = Slow(Vec::new(), 0);
    c.encode(&i, &mut s).unwrap();
    assert!(same(&dec(&c, &s.0).expect("decodes"), &i));
}
''')

S('huf-zero-tail', 'C19',
  'a stream that ends inside of the code of the last symbol, the missing part of which consists of zeroes',
  'Bits that are missing at the end of the stream are taken for padding when a code has been started.',
  [('src/huf.rs',
'''        let mut curr_node = self;
        loop {
            match curr_node {
                BinTrie::Branch(left, right) => {
                    curr_node =
                        match input.next() {
                            Some(Bit::Zero) => left,
                            Some(Bit::One)  => right,
                            None            => return None, /* EOF */
                        };
                }
''',
'''        let mut curr_node = self;
        let mut depth = 0;
        loop {
            match curr_node {
                BinTrie::Branch(left, right) => {
                    curr_node =
                        match input.next() {
                            Some(Bit::Zero) => left,
                            Some(Bit::One)  => right,
                            // The stream is padded with zeroes
                            None if depth > 0 => left,
                            None            => return None, /* EOF */
                        };
                    depth += 1;
                }
''')],
  rust='''
#[test]
fn no_prefix_is_an_image() {
    for w in 1..40u32 {
        for k in 0..6u32 {
            let i = img(w, 1, |x, _| [((x * x + k) % 5) as u8, 0, 0]);
            for name in ["hufman", "delta"] {
                let c = codec(name);
                let out = enc(&c, &i);
                for n in 0..out.len() { assert!(dec(&c, &out[..n]).is_none(), "{} {} {} {}", name, w, k, n); }
            }
        }
    }
}
''')

S('special-not-truncated', 'C20',
  'an output file that exists already and is longer than the new one',
  'The files of the Hilbert traversals are opened without emptying them: the end of an older, longer file survives.',
  [('src/main.rs',
'''                        let mut csv = csv::Writer::from_path(&output_path).unwrap();
''',
'''                        let file = std::fs::OpenOptions::new().write(true).create(true).open(&output_path).unwrap();
                        let mut csv = csv::Writer::from_writer(file);
''')],
  py='''
os.mkdir('big')
png('big/a.png', 8, 8, lambda x, y: (200 + x, 200 + y, 255))
png('a.png', 2, 2, lambda x, y: (x, y, 3))
for p in ['big/a.png', 'a.png']:
    check(run('--special=hilbert', p).returncode == 0, 'status')
for kind in ['rect', 'small', 'large']:
    t = open(f'output/a.{kind}.hilbert.csv').read().splitlines()
    check(len(t) == 5, kind + repr(t))
''')

S('report-not-truncated', 'C16',
  'a longer report of an earlier run with the same codec',
  'The report is opened without emptying it: rows of an older, longer report survive at its end.',
  [('src/bench.rs',
'''    csv::Writer::from_path(&csv_filename)
''',
'''    let file = fs::OpenOptions::new().write(true).create(true).open(&csv_filename)?;
    Ok(csv::Writer::from_writer(file))
''')],
  py='''
for n in ['a.png', 'b.png', 'c.png']:
    png(n, 2, 2, lambda x, y: (x, y, 3))
check(run('--codec=delta', 'a.png', 'b.png', 'c.png').returncode == 0, 'status')
check(len(rows('delta')) == 4, 'first run')
check(run('--codec=delta', 'b.png').returncode == 0, 'status')
check(len(rows('delta')) == 2, repr(rows('delta')))
check(run('--codec=delta').returncode == 0 and rows('delta') == [], 'no images')
''')

S('huf-scratch-table', 'C21',
  'an encoding on the same thread after one that was interrupted by a write error',
  'The code table is kept per thread to spare allocations, and is emptied only at the end of a successful encoding.',
  [('src/huf.rs',
'''    // 1. Build the Hufman encoder
    let item_freqs = utils::count_freqs(new_iter());
    let (enc, dec) = build(item_freqs.into_iter());
''',
'''    // 1. Build the Hufman encoder
    let item_freqs = utils::count_freqs(new_iter());
    // Long-lived buffer: the pending bytes of the payload
    PENDING.with(|p| p.borrow_mut().reserve(1));
    let (enc, dec) = build(item_freqs.into_iter());
'''),
   ('src/huf.rs',
'''    let mut bit_writer = IoBitWriter::new(writer, BIT_ORDER);
    for symbol in new_iter() {
        enc.encode(&symbol, &mut bit_writer)
            .ok_or_else(|| io::Error::new(io::ErrorKind::Other, "Failed to encode a symbol"))?;
    }
    bit_writer.pad_and_flush()?;
    Ok(())
}
''',
'''    PENDING.with(|pending| {
        let mut pending = pending.borrow_mut();
        let mut bit_writer = IoBitWriter::new(&mut *pending, BIT_ORDER);
        for symbol in new_iter() {
            enc.encode(&symbol, &mut bit_writer)
                .ok_or_else(|| io::Error::new(io::ErrorKind::Other, "Failed to encode a symbol"))?;
        }
        bit_writer.pad_and_flush()?;
        // Write all of it at once
        writer.write_all(&pending)?;
        pending.clear();
        Ok(())
    })
}

thread_local! {
    static PENDING: std::cell::RefCell<Vec<u8>> = std::cell::RefCell::new(Vec::new());
}
''')],
  rust='''
struct Failing(usize);
impl std::io::Write for Failing {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 < b.len() { return Err(std::io::ErrorKind::Other.into()); }
        self.0 -= b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
#[test]
fn a_failure_leaves_nothing_behind() {
    let c = codec("hufman");
    let i = img(5, 3, |x, y| [x as u8, y as u8, 0]);
    let n = enc(&c, &i).len();
    for at in 0..n {
        assert!(c.encode(&i, &mut Failing(at)).is_err());
        let out = enc(&c, &i);
        assert_eq!(out.len(), n);
        assert!(same(&dec(&c, &out).unwrap(), &i));
    }
}
''')

S('delta-gray16', 'C01',
  'a 16-bit grey image',
  'A shortcut for grey images reduces 16-bit values in another way than the rest of the program does.',
  [('src/codec/hilbertc.rs',
'''        let new_diff_stream = || {
            let hilbert = hilbert::linearize(img).map(|px| px.to_rgb());
            DiffStream::new(hilbert)
        };
''',
'''        // Grey images don't need the conversion of every pixel to Rgba
        let gray = match img {
            Img::ImageLuma16(gray) => Some(ImageBuffer::from_fn(gray.width(), gray.height(), |x, y| image::Luma([(gray.get_pixel(x, y)[0] >> 8) as u8]))),
            Img::ImageLuma8(gray)  => Some(gray.clone()),
            _                      => None,
        };
        let new_diff_stream = || {
            let colors: Box<dyn Iterator<Item = Rgb<u8>>> = match &gray {
                Some(gray) => Box::new(hilbert::linearize(gray).map(|px| px.to_rgb())),
                None       => Box::new(hilbert::linearize(img).map(|px| px.to_rgb())),
            };
            DiffStream::new(colors)
        };
''')],
  rust='''
#[test]
fn gray16() {
    let i = DynamicImage::ImageLuma16(image::ImageBuffer::from_fn(256, 8, |x, y| image::Luma([(x * 256 + y * 32) as u16])));
    let c = codec("delta");
    assert!(same(&dec(&c, &enc(&c, &i)).unwrap(), &DynamicImage::ImageRgb8(i.to_rgb8())));
}
''')

S('cluster-count-f64', 'C15',
  'a number of clusters above 2^53',
  'The number of clusters is read as a floating-point number: large ones are rounded, and those that do not fit are accepted.',
  [('src/codec/clusterc.rs',
'''        let regexp = Regex::new(r"^voronoi\\((\\d+)\\)$").unwrap();
        let matches = regexp.captures(s)
                            .ok_or(String::from("Regex doesn't match"))?;

        // We expect one capture group for the entire match,
        // and one for out parenthesized expression.
        if matches.len() != 2 {
            return Err("Couldn't parse the numeric argument".into());
        }

        let digits_str = matches.get(1).unwrap();
        let ncolors = usize::from_str(digits_str.as_str())
                            .map_err(|e| format!("{:?}", e))?;
''',
'''        let regexp = Regex::new(r"^voronoi\\((\\d+)\\)$").unwrap();
        let matches = regexp.captures(s)
                            .ok_or(String::from("Regex doesn't match"))?;

        // We expect one capture group for the entire match,
        // and one for out parenthesized expression.
        if matches.len() != 2 {
            return Err("Couldn't parse the numeric argument".into());
        }

        let digits_str = matches.get(1).unwrap();
        let ncolors = f64::from_str(digits_str.as_str())
                            .map_err(|e| format!("{:?}", e))? as usize;
''')],
  rust='''
#[test]
fn large_numbers_are_exact() {
    assert_eq!(codec("voronoi(9007199254740993)").name(), "voronoi_9007199254740993");
    assert!(AnyCodec::from_str("voronoi(99999999999999999999)").is_err());
}
''')

S('colors-reserve', 'C02',
  'a very large number of clusters',
  'The table of the reduced colours is allocated for as many colours as were asked for, however many that is.',
  [('src/codec/clusterc.rs',
'''        let reduced_colors =
            HashMap::<_, _>::from_iter(
                clusters.into_iter()
''',
'''        let mut reduced_colors = HashMap::with_capacity(nclusters);
        reduced_colors.extend(
                clusters.into_iter()
''')],
  rust='''
#[test]
fn more_clusters_than_memory() {
    let i = img(2, 2, |x, y| [x as u8, y as u8, 0]);
    for n in [5u64, 1 << 20, u32::MAX as u64 * 4096, u64::MAX] {
        let c = codec(&format!("cluster-colors({})", n));
        assert!(same(&dec(&c, &enc(&c, &i)).unwrap(), &i));
    }
}
''')
