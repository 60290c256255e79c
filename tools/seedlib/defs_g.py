S('kmeans-iteration-cap', 'C11',
  'points of which one changes its group in each of more than a thousand passes',
  'k-means gives up after a thousand passes, whether or not the groups have settled.',
  [('src/kmeans.rs', '''        update_neighbours(&mut clusters);
        i += 1;
''', '''        update_neighbours(&mut clusters);
        i += 1;
        if i == 1000 {
            break;
        }
''')],
  rust='''
#[derive(Clone, Debug)]
struct W(f64, f64, u32);
impl crate::geom::Distance for W { fn dist(&self, o: &Self) -> f64 { (self.0 - o.0).abs() } }
impl crate::kmeans::Point for W {
    fn mean(p: &[Self]) -> Option<Self> {
        if p.is_empty() { return None; }
        let w: f64 = p.iter().map(|p| p.1).sum();
        Some(W(p.iter().map(|p| p.0 * p.1).sum::<f64>() / w, w, 0))
    }
    fn weight(&self) -> f64 { self.1 }
}
/// Light points half-way between two heavy ones: each is on the wrong side only when all before it have moved
fn chain(n: usize) -> Vec<W> {
    let (l, w) = (1e9, 3.0 * n as f64);
    let d = l / (2.0 * w);
    let mut xs: Vec<f64> = (0..n).map(|i| l / 2.0 - n as f64 * (l / 2.0) / (2.0 * w) + i as f64 * d).collect();
    for _ in 0..60 {
        let (mut m0, mut s0, mut m1, mut s1) = (w + 1.0, -l / 2.0, w + n as f64, w * l + xs.iter().sum::<f64>());
        let mut next = vec![];
        for x in &xs {
            next.push((s0 / m0 + s1 / m1) / 2.0 - 0.2 * d);
            s0 += x; m0 += 1.0; s1 -= x; m1 -= 1.0;
        }
        xs = next;
    }
    let mut p = vec![W(-l / 2.0, 1.0, 0), W(0.0, w, 0)];
    let k = n - (n + 3) / 2 + 1;
    p.extend(xs[..k].iter().map(|x| W(*x, 1.0, 0)));
    let mut q = vec![W(l, w, 0)];
    q.extend(xs[k..].iter().map(|x| W(*x, 1.0, 0)));
    assert!(q.len() == (p.len() + q.len()) / 2);
    p.extend(q);
    p
}
#[test]
fn the_groups_settle() {
    for n in [20, 200, 2001] {
        let g: Vec<_> = crate::kmeans::cluster(chain(n), 2).into_iter().collect();
        for i in 0..2 { for p in &g[i].1 { assert!((p.0 - g[i].0.0).abs() <= (p.0 - g[1 - i].0.0).abs(), "{}: {:?}", n, p); } }
    }
}
''')

S('serstream-spare-buffer', 'C21',
  'an encoding with zip that fails while bytes of a pixel are still pending, then another one on the same thread',
  'The buffer of a stream of serialized values is kept for the next stream, with what is left in it.',
  [('src/ser.rs', '''        SerStream {
            iter,
            extra: VecDeque::new()
        }
''', '''        SerStream {
            iter,
            extra: SPARE.with(|s| s.take())
        }
'''), ('src/ser.rs', '''impl<T: Serialize> SerStream<iter::Once<T>> {
''', '''thread_local! {
    /// Saves an allocation for each stream
    static SPARE: std::cell::Cell<VecDeque<u8>> = std::cell::Cell::new(VecDeque::new());
}

impl<I> Drop for SerStream<I> {
    fn drop(&mut self) {
        SPARE.with(|s| s.set(std::mem::take(&mut self.extra)));
    }
}

impl<T: Serialize> SerStream<iter::Once<T>> {
''')],
  rust='''
struct Fails(usize);
impl std::io::Write for Fails {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 == 0 { return Err(std::io::Error::new(std::io::ErrorKind::Other, "full")); }
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
#[test]
fn failures_leave_nothing_behind() {
    for name in ["zip(dict)", "zip(back)", "hilbert(zip)"] {
        let c = codec(name);
        let i = img(9, 7, |x, y| [x as u8 * 3, y as u8, (x * y) as u8]);
        let whole = enc(&c, &i);
        for n in 0..whole.len() {
            assert!(c.encode(&i, &mut Fails(n)).is_err());
            assert_eq!(enc(&c, &i), whole, "{} after a failure at {}", name, n);
        }
    }
}
''')

S('lookback-lost-tail', 'C18',
  'zip(back) to a sink that fails late in a symbol',
  'The bytes of each symbol are collected in a buffer whose last write is left to its drop, which ignores errors.',
  [('src/zip/back.rs', '''                let compacted_len = Self::compress_len(explicit_data.len(), Self::ENUM_CODE_EXPLICIT);
                compacted_len.serialize(writer)?;
''', '''                let compacted_len = Self::compress_len(explicit_data.len(), Self::ENUM_CODE_EXPLICIT);
                // One byte at a time is slow on files
                let writer = &mut io::BufWriter::new(writer);
                compacted_len.serialize(writer)?;
''')],
  rust='''
struct Fails(usize);
impl std::io::Write for Fails {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 == 0 { return Err(std::io::Error::new(std::io::ErrorKind::Other, "full")); }
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
#[test]
fn failures_are_reported() {
    let c = codec("zip(back)");
    for i in [img(9, 7, |x, y| [x as u8 * 3, y as u8, (x * y) as u8]), img(1, 1, |_, _| [1, 2, 3])] {
        for n in 0..enc(&c, &i).len() { assert!(c.encode(&i, &mut Fails(n)).is_err(), "sink of {} bytes", n); }
    }
}
''')

S('approx-run-continues', 'C10',
  'a similar run of more than 255 pixels along the curve whose colours drift',
  'A run that was cut because of its length goes on with the average of all its pixels so far.',
  [('src/codec/hilbertc.rs', '''        let running_avg = RunningAvg::new(&start_val);
        self.running_avg = Some(running_avg);
''', '''        match &mut self.running_avg {
            // The previous run was only cut because of its length
            Some(avg) if avg.avg_f64().dist(&as_f64(&start_val)) <= self.allow => avg.add(&start_val),
            avg => *avg = Some(RunningAvg::new(&start_val)),
        }
'''), ('src/codec/hilbertc.rs', '''        self.running_avg
            .take()
            .unwrap()
            .avg()
''', '''        let avg = self.running_avg.as_ref().unwrap();
        let color = avg.avg();
        if avg.count % RepCount::MAX as usize != 0 {
            self.running_avg = None;
        }
        color
''')],
  rust='''
#[test]
fn every_run_has_its_own_mean() {
    // 64 columns of 64 pixels, a drift of one every 100 pixels
    let mut seq = vec![];
    let base = img(64, 64, |_, _| [0, 0, 0]);
    for (x, y) in crate::hilbert::iter(64, 64) { seq.push((x as u32, y as u32)); }
    let mut i = base.to_rgb8();
    for (k, (x, y)) in seq.iter().enumerate() { i.get_pixel_mut(*x, *y).0 = [(k / 100) as u8, 0, 0]; }
    let i = DynamicImage::ImageRgb8(i);
    let s = enc(&codec("hilbert(rle(3))"), &i);
    // header of 8 bytes, then (count, length of the colour in 8 bytes, three channels)
    let mut at = 8;
    let mut k = 0;
    while at < s.len() {
        let n = s[at] as usize;
        let mean: f64 = (k..k + n).map(|k| (k / 100) as f64).sum::<f64>() / n as f64;
        assert!((s[at + 9] as f64 - mean).abs() <= 0.5 + 1e-9, "run at {}: {} instead of {}", k, s[at + 9], mean);
        k += n;
        at += 12;
    }
    assert_eq!(k, 4096);
}
''')

S('huf-shared-counter', 'C21',
  'two threads that write Huffman codes at the same time, one starting while the other writes',
  'The number of symbols left to write is counted down in a counter that all threads share, and writing stops at zero.',
  [('src/huf.rs', '''    // 3. Write the payload
    let mut bit_writer = IoBitWriter::new(writer, BIT_ORDER);
    for symbol in new_iter() {
''', '''    // 3. Write the payload
    let mut bit_writer = IoBitWriter::new(writer, BIT_ORDER);
    // The symbols left, for the progress display
    LEFT.store(new_iter().count(), std::sync::atomic::Ordering::SeqCst);
    for symbol in new_iter() {
        if LEFT.fetch_update(std::sync::atomic::Ordering::SeqCst, std::sync::atomic::Ordering::SeqCst, |n| n.checked_sub(1)).is_err() {
            break;
        }
'''), ('src/huf.rs', '''const BIT_ORDER: BitOrder = BitOrder::MsbFirst;
''', '''const BIT_ORDER: BitOrder = BitOrder::MsbFirst;

static LEFT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
''')],
  rust='''
#[test]
fn threads_do_not_disturb_each_other() {
    let c = codec("hufman");
    let big = img(300, 300, |x, y| [x as u8, y as u8, 0]);
    let small = img(2, 1, |x, _| [x as u8, 0, 0]);
    for _ in 0..3 {
        let stop = std::sync::atomic::AtomicBool::new(false);
        std::thread::scope(|s| {
            let t = s.spawn(|| { let r = enc(&c, &big); stop.store(true, std::sync::atomic::Ordering::SeqCst); r });
            while !stop.load(std::sync::atomic::Ordering::SeqCst) {
                assert!(dec(&c, &enc(&c, &small)).map_or(false, |d| same(&d, &small)));
            }
            assert!(dec(&c, &t.join().unwrap()).map_or(false, |d| same(&d, &big)));
        });
    }
}
''')

S('voronoi-unread-centroids', 'C19',
  'a voronoi stream cut after some of its centroids',
  'Centroids that cannot be read are left out instead of making the decoding fail.',
  [('src/codec/clusterc.rs', '''        let centroids: Vec<_> = (0..ncentroids)
                                    .map(|_| ColorPos::deserialize(reader))
                                    .collect::<Option<Vec<_>>>()?;
''', '''        let mut centroids: Vec<ColorPos> = Vec::new();
        for _ in 0..ncentroids {
            match ColorPos::deserialize(reader) {
                Some(c) => centroids.push(c),
                // Nothing can be painted without centroids
                None if centroids.is_empty() => return None,
                None => (),
            }
        }
''')],
  rust='''
#[test]
fn cut_streams_are_refused() {
    let c = codec("voronoi(3)");
    let i = img(4, 3, |x, y| [x as u8 * 60, y as u8 * 90, 0]);
    let s = enc(&c, &i);
    for n in 0..s.len() { assert!(dec(&c, &s[..n]).is_none(), "{} of {} bytes", n, s.len()); }
}
''')
