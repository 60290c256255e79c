S('delta-diff-key', 'C01',
  'an image with two different colour differences that share a packed key, e.g. (0,0,255) and (0,1,-1)',
  'Colour differences are compared through a packed 24-bit key that is not injective for signed channels: the encoder merges different differences into one symbol and the delta codec is no longer lossless.',
  [('src/codec/hilbertc.rs',
'''#[derive(PartialEq, Eq, Clone, Copy, Hash, Debug)]
struct SignedColor([i16; 3]);
''',
'''#[derive(Clone, Copy, Debug)]
struct SignedColor([i16; 3]);

impl SignedColor {
    /// All three channels in a single integer: faster to hash and compare
    fn key(&self) -> i32 {
        let [r, g, b] = self.0.map(i32::from);
        r * (1 << 16) + g * (1 << 8) + b
    }
}

impl PartialEq for SignedColor {
    fn eq(&self, other: &Self) -> bool {
        self.key() == other.key()
    }
}

impl Eq for SignedColor { }

impl std::hash::Hash for SignedColor {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        self.key().hash(state)
    }
}
''')],
  rust='''
#[test]
fn delta_is_lossless() {
    let c = codec("delta");
    let colors = [[0, 0, 0], [0, 0, 255], [0, 1, 254], [0, 1, 254], [0, 1, 0], [0, 0, 255]];
    for w in 1..=6u32 {
        let i = img(w, 1, |x, _| colors[x as usize]);
        // the decoder may also refuse or panic: both are failures
        let d = dec(&c, &enc(&c, &i)).expect("decodes");
        assert!(same(&i, &d), "width {}", w);
    }
}
''')

S('lookback-unfiltered-index', 'C04',
  'more than 65535 bytes of history and a 6-byte string recorded just before the ring buffer wrapped and looked up just before it wraps again',
  'Positions that left the ring buffer are no longer filtered out of the recent half of the index: the encoder computes a distance from a position it no longer holds.',
  [('src/zip/back.rs',
'''        let new_indices = entry_iter(&self.new);

        old_indices.chain(new_indices)
''',
'''        // The recent half was started after the last wrap-around: no need to filter it
        let new_indices =
            self.new
                .get(seq_start)
                .map(|v| v.iter())
                .unwrap_or_else(|| (&[]).into_iter())
                .cloned();

        old_indices.chain(new_indices)
''')],
  rust='''
fn round(v: &[u8]) {
    let mut z = Vec::new();
    crate::zip::zip_back_encode(v.iter().cloned(), &mut z).unwrap();
    let back: Vec<u8> = crate::zip::zip_back_decode(z.into_iter()).collect();
    assert!(back == v);
}

#[test]
fn lookback_is_exact_around_wraps() {
    let n = 65535usize;
    for first in n - 6..=n + 1 {
        for second in [2 * n - 3, 2 * n - 1, 2 * n, 2 * n + 1] {
            let mut s = 99;
            let mut v: Vec<u8> = (0..2 * n + 40).map(|_| (lcg(&mut s) % 200) as u8).collect();
            let marker = [250, 251, 252, 253, 254, 255];
            v[first..first + 6].copy_from_slice(&marker);
            v[second..second + 6].copy_from_slice(&marker);
            round(&v);
        }
    }
}
''')

S('huffman-count-cap', 'C05',
  'symbols that occur more than 65535 times, so that the capped counts rank them differently from the real ones',
  'Frequencies saturate at 16 bits: with large inputs the tree is no longer optimal.',
  [('src/utils.rs',
'''    where I: Iterator<Item = T>,
        T: Eq + Hash
{
    let mut freqs = HashMap::new();
    for x in items {
        freqs
            .entry(x)
            .and_modify(|n| *n += 1)
            .or_insert(1);
    }
    return freqs;
''',
'''    where I: Iterator<Item = T>,
        T: Eq + Hash
{
    // Compact counters: most images have many rare colors
    let mut freqs: HashMap<T, u16> = HashMap::new();
    for x in items {
        freqs
            .entry(x)
            .and_modify(|n| *n = n.saturating_add(1))
            .or_insert(1);
    }
    return freqs.into_iter()
                .map(|(x, n)| (x, n as u64))
                .collect();
''')],
  rust='''
#[test]
fn huffman_is_optimal() {
    // frequencies a < b < c < d where only exact counting sees that d deserves the short code
    let counts = [65535usize, 65536, 65537, 300000];
    let new_iter = || counts.iter().enumerate().flat_map(|(i, n)| std::iter::repeat(i as u8).take(*n));
    let mut out = Vec::new();
    crate::huf::encode_all(new_iter, &mut out).unwrap();
    // optimal: d 1 bit, c 2 bits, a and b 3 bits
    let bits = 300000 + 2 * 65537 + 3 * (65535 + 65536);
    let tree = 4 * 2 + 3;
    assert_eq!(out.len(), tree + (bits + 7) / 8);
}
''')

S('bitarray-long', 'C06',
  'a bit array of 256 bits or more',
  'The number of bits left to pack is kept in a byte: longer arrays lose their tail.',
  [('src/bit.rs',
'''        let mut rem_bits = bits.len();
        let mut pos = 0;
''',
'''        let mut rem_bits = bits.len() as u8;
        let mut pos = 0;
'''),
   ('src/bit.rs',
'''        // Pack the remaining bits
        let mut incomplete_byte = 0u8;
        while pos < bits.len() {
            push_bit(&mut incomplete_byte, bits[pos], bo);
            pos += 1;
        }
''',
'''        // Pack the remaining bits
        let mut incomplete_byte = 0u8;
        for b in &bits[pos..(pos + rem_bits as usize)] {
            push_bit(&mut incomplete_byte, *b, bo);
        }
'''),
   ('src/bit.rs',
'''            partial_count: rem_bits as u8,
''',
'''            partial_count: rem_bits,
''')],
  rust='''
use crate::bit::*;
#[test]
fn bit_arrays_keep_their_bits() {
    for len in [0usize, 1, 7, 8, 9, 64, 255, 256, 257, 300, 511, 512, 520] {
        let bits: Vec<Bit> = (0..len).map(|i| if (i * i + i / 3) % 5 < 2 { Bit::One } else { Bit::Zero }).collect();
        let arr = BitArray::from_slice(&bits, BitOrder::MsbFirst);
        let mut w = IoBitWriter::new(Vec::new(), BitOrder::MsbFirst);
        w.write_arr(&arr).unwrap();
        w.pad_and_flush().unwrap();
        let out = w.into_inner();
        let back: Vec<Bit> = bit_reader(out.into_iter(), BitOrder::MsbFirst).collect();
        assert!(back.len() >= len && back.len() < len + 8, "{} bits: {} back", len, back.len());
        assert!(back[..len] == bits[..]);
    }
}
''')

S('serstream-empty-value', 'C07',
  'a stream of values in which some value (an empty array) has an empty encoding and others follow',
  'A value without bytes ends the byte stream although more values follow.',
  [('src/ser.rs',
'''        while self.extra.is_empty() {
            match self.iter.next() {''',
'''        if self.extra.is_empty() {
            match self.iter.next() {''')],
  rust='''
use crate::ser::*;
struct Rec(Vec<u8>);
impl Serialize for Rec {
    fn serialize<W: std::io::Write>(&self, w: &mut W) -> std::io::Result<()> {
        for b in &self.0 { b.serialize(w)?; }
        Ok(())
    }
}
#[test]
fn streams_are_concatenations() {
    let recs = vec![Rec(vec![1, 2]), Rec(vec![]), Rec(vec![3]), Rec(vec![]), Rec(vec![]), Rec(vec![4, 5])];
    let got: Vec<u8> = SerStream::from_iter(recs.into_iter()).collect();
    assert_eq!(got, vec![1, 2, 3, 4, 5]);
}
''')

S('usize-32bit', 'C07',
  'a usize of 2^32 or more',
  'usize values are read back through 32 bits.',
  [('src/ser.rs',
'''        let n: u64 = Deserialize::deserialize(stream)?;
        Some(n as usize)
''',
'''        let n: (u32, u32) = Deserialize::deserialize(stream)?;
        // little endian: the low half comes first
        Some((n.0 | n.1 << 16) as usize)
''')],
  rust='''
use crate::ser::*;
#[test]
fn usize_round_trips() {
    for n in [0usize, 1, 255, 65536, u32::MAX as usize, 1 << 32, (1 << 32) + 5, 1 << 47, usize::MAX] {
        let mut v = Vec::new();
        n.serialize(&mut v).unwrap();
        assert_eq!(v, (n as u64).to_le_bytes());
        assert_eq!(usize::deserialize(&mut v.into_iter()), Some(n));
    }
}
''')

S('large-traversal-square', 'C08',
  'a square image whose side is not a power of two',
  'The large traversal of square images follows the curve of the square itself instead of the enclosing power-of-two square.',
  [('src/hilbert.rs',
'''    let square_order = max(xorig.next_power_of_two(), yorig.next_power_of_two());
''',
'''    let square_order =
        if xorig == yorig {
            // Already a square: no need to look for an enclosing one
            xorig
        }
        else {
            max(xorig, yorig).next_power_of_two()
        };
''')],
  rust='''
#[test]
fn large_is_in_curve_order() {
    for w in 1..=12u32 {
        for h in 1..=12u32 {
            let i = img(w, h, |x, y| [x as u8, y as u8, 7]);
            let n = w.max(h).next_power_of_two() as usize;
            let want: Vec<[u8; 2]> = crate::hilbert::iter(n, n)
                .filter(|(x, y)| *x < w as usize && *y < h as usize).map(|(x, y)| [x as u8, y as u8]).collect();
            let got: Vec<[u8; 2]> = crate::hilbert::linearize_large(&i).map(|p| [p.0[0], p.0[1]]).collect();
            assert!(got == want, "{}x{}", w, h);
        }
    }
}
''')

S('rle-254', 'C09',
  'a run of 254 or more equal pixels along the curve',
  'Runs are cut one pixel early: a record of 254 is followed by one of the same colour.',
  [('src/codec/hilbertc.rs',
'''                count += 1;
                if count == RepCount::MAX {''',
'''                count += 1;
                // keep one value in reserve
                if count >= RepCount::MAX - 1 {''')],
  rust='''
#[test]
fn runs_are_maximal() {
    let c = codec("hilbert(rle)");
    for n in [1u32, 200, 253, 254, 255, 256, 300, 509, 510, 511] {
        let i = img(n, 1, |_, _| [1, 2, 3]);
        let b = enc(&c, &i);
        assert!(same(&dec(&c, &b).unwrap(), &i));
        let records = (b.len() - 8) / 12;
        assert_eq!(records as u32, (n + 254) / 255, "{} pixels", n);
    }
}
''')

S('approx-incremental-mean', 'C10',
  'a pixel whose distance to the mean of the run is exactly the allowed distance, where repeated rounding has moved the stored mean',
  'The mean is maintained incrementally and collects rounding errors: pixels exactly at the allowed distance are refused.',
  [('src/codec/hilbertc.rs',
'''        for i in 0..CHANNEL_COUNT {
            self.sum[i] += x.0[i] as f64;
        }
        self.count += 1;
''',
'''        self.count += 1;
        for i in 0..CHANNEL_COUNT {
            self.sum[i] += (x.0[i] as f64 - self.sum[i]) / self.count as f64;
        }
'''),
  ('src/codec/hilbertc.rs',
'''        self.sum
            .map(|x| x / (self.count as f64))
''',
'''        self.sum
''')],
  rust='''
#[test]
fn pixels_at_the_exact_distance_are_accepted() {
    // every short run over three neighbouring values with an integral mean, then a pixel at distance exactly 5
    let c = codec("hilbert(rle(5))");
    for n in 2..=9usize {
        for w in 0..3usize.pow(n as u32) {
            let run: Vec<u8> = (0..n).map(|k| 100 + (w / 3usize.pow(k as u32) % 3) as u8).collect();
            let sum: usize = run.iter().map(|x| *x as usize).sum();
            if sum % n != 0 { continue; }
            let mut line = run.clone();
            line.push((sum / n) as u8 + 5);
            let i = img(line.len() as u32, 1, |x, _| [line[x as usize], 50, 50]);
            assert_eq!(enc(&c, &i).len(), 8 + 12, "{:?}: one run expected", line);
        }
    }
}
''')

S('kmeans-cutoff', 'C11',
  'two clusters and a point that lies between the two means, closer to the other one, at an angle',
  'The triangle-inequality cutoff is too tight: a closer centroid is not looked at.',
  [('src/kmeans.rs',
'''            let cluster_cutoff = 2.0 * min_dist;
''',
'''            // The nearest centroids come first: a tighter cutoff saves many of the far ones
            let cluster_cutoff = 1.9 * min_dist;
''')],
  rust='''
use crate::geom::Distance;
use crate::kmeans;
#[derive(Clone, Debug, PartialEq)]
struct P(f64);
impl Distance for P { fn dist(&self, o: &Self) -> f64 { (self.0 - o.0).abs() } }
impl kmeans::Point for P {
    fn mean(p: &[Self]) -> Option<Self> {
        if p.is_empty() { None } else { Some(P(p.iter().map(|x| x.0).sum::<f64>() / p.len() as f64)) }
    }
}
#[test]
fn two_clusters_end_stable() {
    for seed in 0..3000u64 {
        let mut s = seed * 7919 + 1;
        let pts: Vec<P> = (0..3 + seed % 7).map(|_| P((lcg(&mut s) % 64) as f64)).collect();
        let groups: Vec<(P, Vec<P>)> = kmeans::cluster(pts.clone(), 2).into_iter().collect();
        for (c, g) in &groups {
            for p in g {
                for (o, og) in &groups {
                    if og.is_empty() { continue; }
                    assert!(c.dist(p) <= o.dist(p) + 1e-9, "{:?} in {:?}", p, groups);
                }
            }
        }
    }
}
''')

S('colorcount-u16', 'C12',
  'a colour that covers 65536 pixels or more and shares a group with another colour',
  'Pixel counts are cut to 16 bits: the group mean ignores most of the weight of very common colours.',
  [('src/codec/clusterc.rs',
'''                                .map(|(color, count)| ColorCount { color, count: count as u32 })
''',
'''                                .map(|(color, count)| ColorCount { color, count: (count as u16).max(1) as u32 })
''')],
  rust='''
#[test]
fn mean_counts_every_pixel() {
    // 300 x 300 pixels: 1000 white ones, the rest black
    let i = img(300, 300, |x, y| if y * 300 + x < 1000 { [255; 3] } else { [0; 3] });
    let c = codec("cluster-colors(1)");
    let d = dec(&c, &enc(&c, &i)).unwrap().to_rgb8();
    let want = (255u64 * 1000 / 90000) as u8;
    assert_eq!(d.get_pixel(0, 0).0, [want; 3]);
}
''')

S('voronoi-manhattan', 'C13',
  'centroids in a diagonal position to a pixel, where the Manhattan and the Euclidean distance rank them differently',
  'Pixels are painted with the centroid nearest by Manhattan distance, not the nearest in the plane.',
  [('src/codec/clusterc.rs',
'''            let closest_centroid = centroids.iter()
                                        .min_by_key(|c| (c.x.abs_diff(x) as u64).pow(2) + (c.y.abs_diff(y) as u64).pow(2))
                                        .unwrap();
''',
'''            let closest_centroid = centroids.iter()
                                        .min_by_key(|c| c.x.abs_diff(x) as u64 + c.y.abs_diff(y) as u64)
                                        .unwrap();
''')],
  rust='''
#[test]
fn nearest_in_the_plane() {
    let c = codec("voronoi(3)");
    let mut b = Vec::new();
    b.extend(9u32.to_le_bytes()); b.extend(9u32.to_le_bytes());
    let cs = [(0u32, 0u32, 10u8), (4, 4, 20), (0, 7, 30)];
    b.extend((cs.len() as u64).to_le_bytes());
    for (x, y, v) in cs {
        b.extend(x.to_le_bytes()); b.extend(y.to_le_bytes());
        b.extend(3u64.to_le_bytes()); b.extend([v; 3]);
    }
    let d = dec(&c, &b).unwrap().to_rgb8();
    for y in 0..9i64 { for x in 0..9i64 {
        let dist = |t: &(u32, u32, u8)| (t.0 as i64 - x).pow(2) + (t.1 as i64 - y).pow(2);
        let best = cs.iter().map(dist).min().unwrap();
        let v = d.get_pixel(x as u32, y as u32).0[0];
        let mine = cs.iter().find(|t| t.2 == v).unwrap();
        assert_eq!(dist(mine), best, "pixel {},{}", x, y);
    } }
}
''')
