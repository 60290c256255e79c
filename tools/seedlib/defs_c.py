S('hufman-wide-image', 'C01',
  'an image more than 65535 pixels wide or high',
  'A sanity check on the decoded dimensions, meant for corrupted files, refuses real (very wide) images.',
  [('src/codec.rs',
'''    let dimensions = <(u32, u32)>::deserialize(reader)?;
    let img_buffer''',
'''    let dimensions = <(u32, u32)>::deserialize(reader)?;
    // Guard against nonsensical dimensions
    if (dimensions.0 | dimensions.1) > u16::MAX as u32 {
        return None;
    }
    let img_buffer''')],
  rust='''
#[test]
fn very_wide_images_work() {
    for name in ["hufman", "delta"] {
        for (w, h) in [(65535, 1), (65536, 1), (1, 70000)] {
            let c = codec(name);
            let i = img(w, h, |x, y| [(x % 3) as u8, (y % 5) as u8, 0]);
            let d = dec(&c, &enc(&c, &i)).expect("decodes");
            assert!(same(&d, &i));
        }
    }
}
''')

S('voronoi-row-search', 'C13',
  'a row where the centroid of the previous pixel is no longer the nearest, and the nearest one is further than one more than before',
  'The search of the nearest centroid is pruned with the (squared) distance of the previous pixel, forgetting that squares grow faster.',
  [('src/codec/clusterc.rs',
'''        // Re-create the image
        for (x, y, px) in img.enumerate_pixels_mut() {
            // Find the closest centroid
            let closest_centroid = centroids.iter()
                                        .min_by_key(|c| (c.x.abs_diff(x) as u64).pow(2) + (c.y.abs_diff(y) as u64).pow(2))
                                        .unwrap();
''',
'''        // Re-create the image
        let sq_dist = |c: &ColorPos, x: u32, y: u32| (c.x.abs_diff(x) as u64).pow(2) + (c.y.abs_diff(y) as u64).pow(2);
        let mut previous: Option<&ColorPos> = None;
        for (x, y, px) in img.enumerate_pixels_mut() {
            // Find the closest centroid
            // One step to the right can only increase the distance by one
            let limit = match previous {
                Some(c) if x > 0 => sq_dist(c, x - 1, y) + 2,
                _                => u64::MAX,
            };
            let closest_centroid = centroids.iter()
                                        .filter(|c| sq_dist(c, x, y) <= limit)
                                        .min_by_key(|c| sq_dist(c, x, y))
                                        .or(previous)
                                        .unwrap();
            previous = Some(closest_centroid);
''')],
  rust='''
#[test]
fn nearest_centroid_wins() {
    use crate::ser::Serialize;
    for bx in 5..12u32 {
        for by in 0..6u32 {
            let mut s = Vec::new();
            (14u32, 6u32).serialize(&mut s).unwrap();
            2usize.serialize(&mut s).unwrap();
            for (x, y, c) in [(0u32, 0u32, 1u8), (bx, by, 2)] {
                x.serialize(&mut s).unwrap();
                y.serialize(&mut s).unwrap();
                Rgb([c; 3]).serialize(&mut s).unwrap();
            }
            let d = dec(&codec("voronoi(2)"), &s).unwrap().to_rgb8();
            for (x, y, p) in d.enumerate_pixels() {
                let a = x * x + y * y;
                let b = x.abs_diff(bx).pow(2) + y.abs_diff(by).pow(2);
                assert!(a == b || (p.0[0] == 1) == (a < b), "{} {} {} {}", bx, by, x, y);
            }
        }
    }
}
''')

S('colors-packed-key', 'C12',
  'two colours whose packed keys collide: the red of one is odd and the green of the other is 128 or more',
  'The lookup of the reduced colours uses a packed key whose fields overlap by one bit.',
  [('src/codec/clusterc.rs',
'''                        points_in_cluster.into_iter()
                            .map(|color_count| color_count.color)
                            .map(move |old_color| (old_color, centroid.color.clone()))
                    }));
''',
'''                        points_in_cluster.into_iter()
                            .map(|color_count| color_count.color)
                            .map(move |old_color| (color_key(&old_color), centroid.color.clone()))
                    }));
'''),
   ('src/codec/clusterc.rs',
'''                                let new_color = reduced_colors.get(&original_color).unwrap();
''',
'''                                let new_color = reduced_colors.get(&color_key(original_color)).unwrap();
'''),
   ('src/codec/clusterc.rs',
'''#[derive(Clone, PartialEq, Eq, Debug)]
struct ColorCount {
''',
'''/// Integers are faster to hash than arrays
fn color_key(color: &Rgb<u8>) -> u32 {
    (color[0] as u32) << 15 | (color[1] as u32) << 8 | color[2] as u32
}

#[derive(Clone, PartialEq, Eq, Debug)]
struct ColorCount {
''')],
  rust='''
#[test]
fn enough_clusters_keep_the_image() {
    let colors = [[1, 0, 7], [0, 128, 7], [4, 200, 0], [5, 72, 0]];
    let i = img(4, 1, |x, _| colors[x as usize]);
    let c = codec("cluster-colors(4)");
    assert!(same(&dec(&c, &enc(&c, &i)).unwrap(), &i));
}
''')

S('approx-decayed-mean', 'C10',
  'a run of more than 128 pixels whose colours are not all the same',
  'The running average forgets the older half of long runs.',
  [('src/codec/hilbertc.rs',
'''            self.sum[i] += x.0[i] as f64;
        }
        self.count += 1;
''',
'''            self.sum[i] += x.0[i] as f64;
        }
        self.count += 1;
        // Old values don't matter that much: don't let the sum grow forever
        if self.count > 128 {
            self.sum = self.sum.map(|s| s / 2.0);
            self.count /= 2;
        }
''')],
  rust='''
#[test]
fn long_runs_store_their_mean() {
    let i = img(200, 1, |x, _| [if x < 110 { 10 } else { 14 }; 3]);
    let c = codec("hilbert(rle(50))");
    let d = dec(&c, &enc(&c, &i)).unwrap().to_rgb8();
    // (110 * 10 + 90 * 14) / 200 = 11.8
    assert!(d.pixels().all(|p| p.0 == [12; 3]), "{:?}", d.get_pixel(0, 0));
}
''')

S('dict-missing-symbol', 'C19',
  'a stream with an odd number of codes that lost the end mark of its last pair',
  'A missing second code is taken for the end mark: a stream cut before it is taken for a complete one.',
  [('src/zip/dict.rs',
'''                let seq1 = self.decode(symbol1);
''',
'''                let symbol2 = symbol2_or_end(symbol2);
                let seq1 = self.decode(symbol1);
'''),
   ('src/zip/dict.rs',
'''                let symbol2 = self.next_symbol()?;
''',
'''                let symbol2 = self.next_symbol();
'''),
   ('src/zip/dict.rs',
'''/// A simple counter to generate the next unused symbol
''',
'''fn symbol2_or_end(symbol: Option<Symbol>) -> Symbol {
    symbol.unwrap_or(ZIP_SPECIAL_EOF)
}

/// A simple counter to generate the next unused symbol
''')],
  rust='''
#[test]
fn truncated_streams_are_refused() {
    for name in ["zip(dict)", "hilbert(zip)"] {
        for w in 1..12 {
            let c = codec(name);
            let s = enc(&c, &img(w, 1, |x, _| [x as u8, 3, 3]));
            for n in 0..s.len() {
                assert!(dec(&c, &s[..n]).is_none(), "{} {} {}", name, w, n);
            }
        }
    }
}
''')

S('bench-f32-error', 'C16',
  'an image with many pixels that differ: the sum of the squared differences needs more than 24 bits',
  'The error is summed up in single precision.',
  [('src/bench.rs',
'''    let tot_error: f64 = x.pixels()
''',
'''    let tot_error: f32 = x.pixels()
'''),
   ('src/bench.rs',
'''                            .map(|(px, py)| px.dist(&py).powi(2))
''',
'''                            .map(|(px, py)| px.dist(&py).powi(2) as f32)
'''),
   ('src/bench.rs',
'''    let (w, h) = x.dimensions();
    return''',
'''    let tot_error = tot_error as f64;
    let (w, h) = x.dimensions();
    return''')],
  py='''
# voronoi(1) replaces all the pixels by the mean colour
w, h = 150, 150
f = lambda x, y: (255 if (x * 7 + y * 3) % 5 == 0 else x % 7, y % 11, 255 if y % 2 else 0)
png('a.png', w, h, f)
check(run('--codec=voronoi(1)', 'a.png').returncode == 0, 'exit status')
px = [f(x, y) for x in range(w) for y in range(h)]
mean = [sum(p[c] for p in px) // len(px) for c in range(3)]
want = sum(sum((p[c] - mean[c]) ** 2 for c in range(3)) for p in px) / len(px)
got = float(rows('voronoi_1')[1].split(',')[3])
check(abs(got - want) < 1e-6 * want, 'error %r, expected %r' % (got, want))
''')

S('bench-size-u16', 'C16',
  'a file that compresses to more than 65535 bytes',
  'The compressed size is kept in a type that is too small.',
  [('src/bench.rs',
'''            let compressed_size = data.len();
''',
'''            let compressed_size = data.len() as u16;
''')],
  py='''
s = 12345
def rnd(x, y):
    global s
    r = []
    for _ in range(3):
        s = (s * 1103515245 + 12345) & 0x7fffffff
        r.append(s >> 16 & 255)
    return r
png('a.png', 100, 100, rnd)
check(run('--codec=hufman', 'a.png').returncode == 0, 'exit status')
size = int(rows('Hufman')[1].split(',')[1])
check(size > 65535, 'size %d' % size)
''')

S('bench-small-error-exact', 'C16',
  'a decoded image that differs from the original in very few of very many pixels',
  'A tiny error counts as no error: the decoded image is not saved although it differs.',
  [('src/bench.rs',
'''            if error != 0.0 {
''',
'''            if error > 1e-3 {
''')],
  py='''
# In one run: 1 pixel differs by one unit
png('a.png', 60, 60, lambda x, y: (101 if (x, y) == (0, 59) else 100, 100, 100))
r = run('--codec=hilbert(rle(5))', 'a.png')
check(r.returncode == 0, 'exit status')
error = float(rows('hilbert-rle-approx_5')[1].split(',')[3])
check((error != 0) == os.path.exists('output/a.png'), 'error %r, saved: %r' % (error, os.path.exists('output/a.png')))
check(error != 0, 'no error')
''')

S('bench-split-row', 'C17',
  'two workers that report at the same time, one between the two locks of the other',
  'The lock is released between the name and the numbers of a row.',
  [('src/bench.rs',
'''            let mut lock_guard = writer_state.write().unwrap();
            let lock_guard = lock_guard.deref_mut();
            let wrote_header''',
'''            let mut write_guard = writer_state.write().unwrap();
            let lock_guard = write_guard.deref_mut();
            let wrote_header'''),
   ('src/bench.rs',
'''            csv.serialize((file_name, compressed_size, compression_ratio * 100.0, error))
                .map_err(|e| format!("{:?}", e))?;
            Ok(())
''',
'''            csv.write_field(file_name)
                .map_err(|e| format!("{:?}", e))?;
            drop(write_guard);

            // Don't format the numbers with the lock held
            let numbers = [compressed_size.to_string(), (compression_ratio * 100.0).to_string(), error.to_string()];
            writer_state.write().unwrap().1
                .write_record(&numbers)
                .map_err(|e| format!("{:?}", e))?;
            Ok(())
''')],
  py='''
for i in range(40): png('%d.png' % i, 2, 2, lambda x, y: (x, y, i))
for attempt in range(60):
    run('--codec=hufman', *['%d.png' % i for i in range(40)])
    for r in rows('Hufman')[1:]:
        check(r.count(',') == 3 and r.split(',')[0].endswith('.png'), 'row %r' % r)
''')

S('rle-buffered', 'C18',
  'a sink that fails only at the very end, when what was buffered is written',
  'The records go through a buffered writer that is never flushed: errors at the end are lost.',
  [('src/codec/hilbertc.rs',
'''                println!("RLE: using exact");
                for (count, color) in rle_exact(iter) {
                    count.serialize(writer)?;
                    color.serialize(writer)?;
                }
''',
'''                println!("RLE: using exact");
                // The records are tiny
                let mut writer = std::io::BufWriter::new(writer);
                for (count, color) in rle_exact(iter) {
                    count.serialize(&mut writer)?;
                    color.serialize(&mut writer)?;
                }
''')],
  rust='''
struct Limited(usize);
impl std::io::Write for Limited {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.len() > self.0 { return Err(std::io::Error::new(std::io::ErrorKind::Other, "full")); }
        self.0 -= b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

#[test]
fn errors_surface() {
    let c = codec("hilbert(rle)");
    let i = img(5, 5, |x, y| [x as u8, y as u8, 0]);
    for n in 0..enc(&c, &i).len() {
        assert!(c.encode(&i, &mut Limited(n)).is_err(), "{}", n);
    }
}
''')

S('char-ascii', 'C07',
  'a character between U+0080 and U+00FF',
  'Only ASCII characters can be written, although the readers accept all of Latin-1.',
  [('src/ser.rs',
'''        let ascii: u8 = u8::try_from(*self)
                            .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;
        ascii.serialize(writer)
''',
'''        if !self.is_ascii() {
            return Err(io::Error::new(io::ErrorKind::InvalidData, "Not an ASCII character"));
        }
        (*self as u8).serialize(writer)
''')],
  rust='''
#[test]
fn latin1_characters() {
    use crate::ser::{Deserialize, Serialize};
    for b in 0..=255u8 {
        let mut v = Vec::new();
        (b as char).serialize(&mut v).unwrap();
        assert_eq!(char::deserialize(&mut v.into_iter()), Some(b as char));
    }
}
''')

S('parse-depth-u8', 'C14',
  'more than 255 nested parentheses',
  'The nesting depth is kept in a type that is too small.',
  [('src/prs.rs',
'''    let mut paren_stack: usize = 0;
''',
'''    let mut paren_stack: u8 = 0;
''')],
  rust='''
#[test]
fn deep_nesting() {
    for n in [1, 100, 254, 255, 256, 300] {
        let arg = format!("{}{}", "g(".repeat(n), ")".repeat(n));
        let call = format!("f({})", arg);
        assert_eq!(crate::prs::fun_call(&call), Some(("f", vec![&arg[..]])));
    }
}
''')

S('bits-lsb-pad', 'C06',
  'padding in the middle of writing, then single bits, then a byte',
  'Left-over bits of the padded byte come back when a byte is written at an unaligned position.',
  [('src/bit.rs',
'''            self.curr_bits = 0;
            self.bit_count = 0;
        }
        self.writer.flush()
''',
'''            self.bit_count = 0;
        }
        self.writer.flush()
'''),
   ('src/bit.rs',
'''        self.bit_count += 1;
        if self.bit_count == 8 {
            self.writer.write_all(&[self.curr_bits])?;
            self.bit_count = 0;
        }
''',
'''        self.bit_count += 1;
        if self.bit_count == 8 {
            self.writer.write_all(&[self.curr_bits])?;
            self.bit_count = 0;
            self.curr_bits = 0;
        }
'''),
   ('src/bit.rs',
'''            let msb = self.curr_bits << (8 - self.bit_count);
            let lsb = n >> self.bit_count;
            let completed_byte = msb | lsb;
''',
'''            let msb = self.curr_bits.rotate_right(self.bit_count as u32);
            let lsb = n >> self.bit_count;
            let completed_byte = msb | lsb;
''')],
  rust='''
#[test]
fn writing_goes_on_after_padding() {
    use crate::bit::*;
    for n in 2..8 {
        let mut out = Vec::new();
        let mut w = IoBitWriter::new(&mut out, BitOrder::MsbFirst);
        for _ in 0..n { w.write(Bit::One).unwrap(); }
        w.pad_and_flush().unwrap();
        w.write(Bit::Zero).unwrap();
        w.write_byte(0).unwrap();
        w.pad_and_flush().unwrap();
        drop(w);
        assert_eq!(out, [0xffu8 << (8 - n), 0, 0]);
    }
}
''')

S('linearize-small-tall', 'C08',
  'an image whose sides are less than a factor of two apart but on both sides of a power of two',
  'The small traversal derives its square from the number of pixels.',
  [('src/hilbert.rs',
'''    let square_order = min(prev_power_of_two(xdim), prev_power_of_two(ydim)) as usize;
''',
'''    // The square has at most as many pixels as the smaller dimension allows
    let side = ((xdim as u64 * ydim as u64) as f64).sqrt() as u32;
    let square_order = min(prev_power_of_two(side), min(xdim, ydim)) as usize;
''')],
  rust='''
#[test]
fn small_traversals() {
    for w in 1..40u32 {
        for h in 1..40u32 {
            let i = img(w, h, |x, y| [x as u8, y as u8, 0]);
            let n = crate::hilbert::linearize_small(&i).count() as u32;
            let m = w.min(h);
            let side = if m.is_power_of_two() { m } else { m.next_power_of_two() / 2 };
            assert_eq!(n, side * side, "{}x{}", w, h);
        }
    }
}
''')

S('kmeans-last-move', 'C11',
  'clusters that swap the same number of points in one step',
  'A step counts as a change only if the sizes of the clusters change: a swap of points ends the clustering early, before anything has settled.',
  [('src/kmeans.rs',
'''        if cci != j {
            some_change = true;
            moved_count += 1;
''',
'''        if cci != j {
            net_change[cci] -= 1i64;
            net_change[j] += 1;
            moved_count += 1;
'''),
   ('src/kmeans.rs',
'''    let mut some_change = false;
''',
'''    // Two points that are equally far from both centroids could be swapped forever
    let mut net_change = vec![0i64; old_assignment.len()];
'''),
   ('src/kmeans.rs',
'''    println!("Moved: {}, Stayed: {}", moved_count, stayed_count);
''',
'''    println!("Moved: {}, Stayed: {}", moved_count, stayed_count);
    let some_change = net_change.iter().any(|n| *n != 0);
''')],
  rust='''
mod swaps {
    use crate::geom::Distance;
    use crate::kmeans::{cluster, Point};
    #[derive(Clone, PartialEq, Debug)]
    struct P(f64, f64);
    impl Distance for P { fn dist(&self, o: &P) -> f64 { ((self.0 - o.0).powi(2) + (self.1 - o.1).powi(2)).sqrt() } }
    impl Point for P {
        fn mean(p: &[P]) -> Option<P> {
            if p.is_empty() { return None; }
            let n = p.len() as f64;
            Some(P(p.iter().map(|x| x.0).sum::<f64>() / n, p.iter().map(|x| x.1).sum::<f64>() / n))
        }
    }
    #[test]
    fn nearest_mean() {
        let mut s = 1;
        for i in 0..20000 {
            let pts: Vec<P> = (0..4 + i % 10).map(|_| P((super::lcg(&mut s) % 8) as f64, (super::lcg(&mut s) % 8) as f64)).collect();
            let groups: Vec<(P, Vec<P>)> = cluster(pts, 2).into_iter().collect();
            if groups.iter().any(|g| g.1.is_empty()) { continue; }
            for (m, g) in &groups {
                for (m2, _) in &groups {
                    for p in g { assert!(p.dist(m) <= p.dist(m2) + 1e-9, "{:?}", groups); }
                }
            }
        }
    }
}
''')
