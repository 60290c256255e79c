S('kmeans-lazy-neighbours', 'C11',
  'more than 100 points in two groups, with a late iteration that moves a single point',
  'The distances between centroids are not updated when less than one point in 100 has moved: the stale distances let a point stay with the wrong group.',
  [('src/kmeans.rs',
'''        update_neighbours(&mut clusters);
        i += 1;
    }
    println!("#iterations: {}", i);
''',
'''        // Optimization: the centroids hardly move when nearly all the points stay
        let total: usize = clusters.assignment.iter().map(|v| v.len()).sum();
        if i == 0 || clusters.moved * 100 > total {
            update_neighbours(&mut clusters);
        }
        i += 1;
    }
    println!("#iterations: {}", i);
'''),
   ('src/kmeans.rs',
'''    neighbours:      NeighbourGraph,
}

/*********************/
''',
'''    neighbours:      NeighbourGraph,
    moved:           usize,
}

/*********************/
'''),
   ('src/kmeans.rs',
'''        centroids,
        neighbours
    }
''',
'''        centroids,
        neighbours,
        moved: 0
    }
'''),
   ('src/kmeans.rs',
'''    println!("Moved: {}, Stayed: {}", moved_count, stayed_count);
''',
'''    println!("Moved: {}, Stayed: {}", moved_count, stayed_count);
    clusters.moved = moved_count as usize;
''')],
  rust='''
use crate::geom::Distance;
use crate::kmeans::{cluster, Point};
#[derive(Clone, Debug)]
struct P(f64);
impl Distance for P { fn dist(&self, o: &P) -> f64 { (self.0 - o.0).abs() } }
impl Point for P {
    fn mean(p: &[P]) -> Option<P> {
        if p.is_empty() { None } else { Some(P(p.iter().map(|x| x.0).sum::<f64>() / p.len() as f64)) }
    }
}
#[test]
fn every_point_is_with_the_nearest_mean() {
    for scale in [1.0, 2.0, 5.0] {
        // The chain should leave the large group one by one
        let mut points: Vec<P> = (0..112).map(|k| P(k as f64 / 1000.0)).collect();
        points.extend([36.0, 45.0, 51.0].map(|x| P(x * scale)));
        points.insert(58, P(100.0 * scale));
        assert!(points.len() == 116);
        let groups: Vec<(P, Vec<P>)> = cluster(points, 2).into_iter().collect();
        for (c, members) in &groups {
            for x in members {
                for (d, others) in &groups {
                    assert!(others.is_empty() || c.dist(x) <= d.dist(x) + 1e-9, "scale {}", scale);
                }
            }
        }
    }
}
''')

S('voronoi-many-centroids', 'C13',
  'more than 256 centroids that are unevenly spread over the rows',
  'With many centroids only those in the rows around the pixel are considered, if there are any.',
  [('src/codec/clusterc.rs',
'''            let closest_centroid = centroids.iter()
''',
'''            let near = |c: &&ColorPos| c.y.abs_diff(y) <= 8;
            let only_near = centroids.len() > 256 && centroids.iter().any(|c| near(&c));
            let closest_centroid = centroids.iter()
                                        .filter(|c| !only_near || near(c))
''')],
  rust='''
#[test]
fn nearest_of_many() {
    use crate::ser::Serialize;
    let mut s = Vec::new();
    (40u32, 40u32).serialize(&mut s).unwrap();
    300usize.serialize(&mut s).unwrap();
    for k in 0..300u32 {
        // nearly all in the right half of the upper rows, one in the lower left
        let (x, y, c) = if k == 0 { (0, 20, 1u8) } else { (20 + k % 20, k / 20, 2) };
        x.serialize(&mut s).unwrap();
        y.serialize(&mut s).unwrap();
        Rgb([c; 3]).serialize(&mut s).unwrap();
    }
    let d = dec(&codec("voronoi(300)"), &s).unwrap().to_rgb8();
    assert_eq!(d.get_pixel(0, 6).0, [1; 3]);
    assert_eq!(d.get_pixel(0, 20).0, [1; 3]);
    assert_eq!(d.get_pixel(39, 0).0, [2; 3]);
}
''')

S('bench-sampled-error', 'C16',
  'an image of more than a million pixels, the decoded form of which differs from it unevenly',
  'The error of large images is estimated from every fourth pixel.',
  [('src/bench.rs',
'''    let tot_error: f64 = x.pixels()
''',
'''    // Every fourth pixel is good enough for large images
    let (w, h) = x.dimensions();
    let step = if w as u64 * h as u64 > 1_000_000 { 4 } else { 1 };
    let tot_error: f64 = x.pixels()
'''),
   ('src/bench.rs',
'''                            .map(|(px, py)| px.dist(&py).powi(2))
                            .sum();
''',
'''                            .step_by(step)
                            .map(|(px, py)| px.dist(&py).powi(2) * step as f64)
                            .sum();
''')],
  rust='''
struct Lossy;
impl Codec for Lossy {
    fn encode<W: std::io::Write>(&self, i: &DynamicImage, w: &mut W) -> std::io::Result<()> {
        w.write_all(&i.width().to_le_bytes())?; w.write_all(&i.height().to_le_bytes())?;
        w.write_all(i.to_rgb8().as_raw())
    }
    fn decode<I: Iterator<Item = u8>>(&self, r: &mut I) -> Option<DynamicImage> {
        let mut n = || Some(u32::from_le_bytes([r.next()?, r.next()?, r.next()?, r.next()?]));
        let (w, h) = (n()?, n()?);
        let mut i = RgbImage::from_raw(w, h, r.collect())?;
        i.get_pixel_mut(1, 0).0[0] ^= 10;
        Some(DynamicImage::ImageRgb8(i))
    }
    fn name(&self) -> String { "lossy".into() }
    fn is_lossless(&self) -> bool { false }
}
#[test]
fn one_wrong_pixel_counts() {
    img(1200, 1000, |_, _| [0, 0, 0]).save("a.png").unwrap();
    crate::bench::measure_all(&Lossy, vec!["a.png"].into_iter()).unwrap();
    let text = std::fs::read_to_string("output/lossy.csv").unwrap();
    let error: f64 = text.lines().nth(1).unwrap().split(',').nth(3).unwrap().parse().unwrap();
    assert!((error - 100.0 / 1_200_000.0).abs() < 1e-12, "{}", text);
}
''')

S('bench-batched-rows', 'C16',
  'at least 64 images that succeed',
  'The rows are collected and written 64 at a time; the one that completes a batch is lost.',
  [('src/bench.rs',
'''            let file_name = p.to_str().unwrap_or("???");
            csv.serialize((file_name, compressed_size, compression_ratio * 100.0, error))
                .map_err(|e| format!("{:?}", e))?;
            Ok(())
''',
'''            let file_name = p.to_str().unwrap_or("???").to_string();
            let mut rows = rows.lock().unwrap();
            if rows.len() + 1 < 64 {
                rows.push((file_name, compressed_size, compression_ratio * 100.0, error));
            }
            else {
                for row in rows.drain(..) {
                    csv.serialize(row).map_err(|e| format!("{:?}", e))?;
                }
            }
            Ok(())
'''),
   ('src/bench.rs',
'''    let writer_state = RwLock::new((wrote_header, csv));
''',
'''    let writer_state = RwLock::new((wrote_header, csv));
    let rows = std::sync::Mutex::new(Vec::new());
'''),
   ('src/bench.rs',
'''    csv.flush()?;
    Ok(())
}

// Note''',
'''    for row in rows.into_inner().unwrap() {
        csv.serialize(row)?;
    }
    csv.flush()?;
    Ok(())
}

// Note''')],
  py='''
names = [f'{k}.png' for k in range(130)]
for k, n in enumerate(names):
    png(n, 2, 2, lambda x, y: (x, y, k))
check(run('--codec=delta', *names).returncode == 0, 'status')
got = rows('delta')
check(sorted(r.split(',')[0] for r in got) == sorted(names + ['name']), str(len(got)))
''')

S('prs-offset-u16', 'C14',
  'an argument that starts more than 65535 bytes into the text',
  'The start of the current argument is kept in 16 bits.',
  [('src/prs.rs',
'''                        params.push(&input[last_pos..new_pos]);
                        last_pos = new_pos + 1;
                    }
                    _ => {
''',
'''                        params.push(&input[last_pos..new_pos]);
                        last_pos = (new_pos + 1) & 0xffff;
                    }
                    _ => {
''')],
  rust='''
#[test]
fn long_texts() {
    for n in [10, 65534, 65535, 65536, 70000, 140000] {
        let a = "a".repeat(n);
        let text = format!("f({},b,c)", a);
        assert_eq!(crate::prs::fun_call(&text), Some(("f", vec![&a[..], "b", "c"])), "{}", n);
    }
}
''')

S('hilbert-u16-positions', 'C08',
  'an image more than 65536 pixels wide or high',
  'The positions along the curve are packed in 16 bits each.',
  [('src/hilbert.rs',
'''        .map(|arr| (arr[0] as usize, arr[1] as usize))
''',
'''        .map(|arr| [arr[0] as u16, arr[1] as u16])
        .map(|arr| (arr[0] as usize, arr[1] as usize))
''')],
  rust='''
#[test]
fn wide_traversals() {
    for (w, h) in [(65536, 1), (65537, 1), (1, 70001), (65540, 2)] {
        let mut seen = vec![false; w * h];
        for (x, y) in crate::hilbert::iter(w, h) {
            assert!(!seen[y * w + x]);
            seen[y * w + x] = true;
        }
        assert!(seen.iter().all(|s| *s));
    }
}
''')

S('hufman-trimmed-name', 'C15',
  'a codec name with white space around it',
  'White space around the name of the Huffman codec is ignored.',
  [('src/codec/hufc.rs',
'''        if s.eq_ignore_ascii_case("hufman") {
''',
'''        if s.trim().eq_ignore_ascii_case("hufman") {
''')],
  rust='''
#[test]
fn no_white_space() {
    assert!(AnyCodec::from_str("HufMan").is_ok());
    for s in [" hufman", "hufman ", "hufman\\n", "hufman\\u{a0}"] { assert!(AnyCodec::from_str(s).is_err(), "{:?}", s); }
}
''')

S('huf-balanced-many', 'C05',
  'more than 65536 different symbols of uneven frequencies',
  'With very many symbols a balanced tree is built instead of an optimal one.',
  [('src/huf.rs',
'''    assert!(min_heap.len() > 0);
    while min_heap.len() > 1 {
''',
'''    assert!(min_heap.len() > 0);
    if min_heap.len() > 1 << 16 {
        // The gains are small with that many symbols: a balanced tree is faster to build
        let mut queue: std::collections::VecDeque<_> = min_heap.drain().collect();
        while queue.len() > 1 {
            let left = queue.pop_front().unwrap();
            let right = queue.pop_front().unwrap();
            queue.push_back(Suffix {
                freq: left.freq + right.freq,
                tree: BinTrie::compose(Box::from(left.tree), Box::from(right.tree))
            });
        }
        min_heap.extend(queue);
    }
    while min_heap.len() > 1 {
''')],
  rust='''
#[test]
fn frequent_symbols_get_short_codes() {
    for n in [60000u32, 65536, 65537, 70000] {
        let symbols = move || (0..n).chain(std::iter::repeat(3).take(3 * n as usize));
        let mut out = Vec::new();
        crate::huf::encode_all(symbols, &mut out).unwrap();
        let tree = 5 * n as usize + n as usize - 1;
        // The frequent symbol needs 1 bit, the others 18 at the most
        assert!(out.len() - tree < (3 * n as usize + 18 * n as usize) / 8 + 10, "{} {}", n, out.len() - tree);
    }
}
''')

S('ser-vec-cap', 'C07',
  'a sequence of more than 65536 items',
  'Reading a sequence stops after 65536 items to protect against corrupted lengths.',
  [('src/ser.rs',
'''        let mut vec = Vec::new();
        for _ in 0..len {
''',
'''        let mut vec = Vec::new();
        // Don't run out of memory because of a corrupted length
        for _ in 0..len.min(1 << 16) {
''')],
  rust='''
#[test]
fn long_sequences() {
    use crate::ser::{Serialize, Deserialize};
    for n in [65535usize, 65536, 65537, 100000] {
        let v: Vec<u16> = (0..n).map(|i| i as u16).collect();
        let mut out = Vec::new();
        (&v[..]).serialize(&mut out).unwrap();
        out.push(77);
        let mut it = out.into_iter();
        let back: Vec<u16> = Deserialize::deserialize(&mut it).unwrap();
        assert!(back == v && it.next() == Some(77) && it.next() == None, "{}", n);
    }
}
''')

S('rle-long-image', 'C09',
  'a run that crosses a multiple of 65536 pixels',
  'The pixels are handed over in blocks of 65536, and no run continues from one block to the next.',
  [('src/codec/hilbertc.rs',
'''                for (count, color) in rle_exact(iter) {
                    count.serialize(writer)?;
                    color.serialize(writer)?;
                }
''',
'''                // Work on blocks to make better use of the caches
                let mut iter = iter;
                loop {
                    let block: Vec<_> = (&mut iter).take(1 << 16).collect();
                    if block.is_empty() { break; }
                    for (count, color) in rle_exact(block.into_iter()) {
                        count.serialize(writer)?;
                        color.serialize(writer)?;
                    }
                }
''')],
  rust='''
#[test]
fn runs_are_maximal_everywhere() {
    let i = img(65700, 1, |_, _| [7, 8, 9]);
    let out = enc(&codec("hilbert(rle)"), &i);
    let record = (out.len() - 8) / 258;
    assert_eq!(out.len(), 8 + 258 * record); // 65700 = 257 * 255 + 165
    for k in 0..257 { assert_eq!(out[8 + k * record], 255); }
}
''')

S('dict-flush-block', 'C18',
  'a sink that fails after more than 16 KiB, at the very end of the stream',
  'The codes are collected in blocks; the error of writing the last block is lost.',
  [('src/zip/dict.rs',
'''    while let Some((symbol1, symbol2)) = zip.next_pair() {
        symbol1.serialize(output)?;
        symbol2.serialize(output)?;
    }
''',
'''    let mut output = io::BufWriter::with_capacity(1 << 14, output);
    let mut written = 0;
    while let Some((symbol1, symbol2)) = zip.next_pair() {
        symbol1.serialize(&mut output)?;
        symbol2.serialize(&mut output)?;
        written += 4;
        if written <= 1 << 14 {
            // Short streams are written at once
            io::Write::flush(&mut output)?;
        }
    }
''')],
  rust='''
struct Full(usize);
impl std::io::Write for Full {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.0);
        if n == 0 { return Err(std::io::ErrorKind::Other.into()); }
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
#[test]
fn the_last_error_counts() {
    let mut s = 1;
    let data: Vec<u8> = (0..20000).map(|_| lcg(&mut s) as u8).collect();
    let mut all = Vec::new();
    crate::zip::zip_dict_encode(data.iter().cloned(), &mut all).unwrap();
    for n in [0, 10, 1000, all.len() - 1000, all.len() - 1] {
        assert!(crate::zip::zip_dict_encode(data.iter().cloned(), &mut Full(n)).is_err(), "{}", n);
    }
}
''')
