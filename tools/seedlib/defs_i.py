S('bench-bounded-errors', 'C16',
  'more than 4096 files that cannot be processed, in one run',
  'The failures are put into a bounded queue that is only emptied when all files are done: the run never ends.',
  [('src/bench.rs', '''        .for_each(|r| print_err(r));

''', '''        .for_each_with(failures, |failures, r| {
            if let Err(e) = r {
                failures.send(e).unwrap();
            }
        });
    for e in failed.into_iter() {
        print_err::<(), String>(Err(e));
    }

'''), ('src/bench.rs', '''    let writer_state = RwLock::new((wrote_header, csv));
''', '''    let writer_state = RwLock::new((wrote_header, csv));
    // The failures are reported together, after all the images
    let (failures, failed) = std::sync::mpsc::sync_channel::<String>(4096);
''')],
  py='''
os.makedirs('output', exist_ok=True)
png('a.png', 3, 2, lambda x, y: (x, y, 9))
try:
    r = run('--codec=delta', 'a.png', *['missing%d.png' % i for i in range(4500)])
except subprocess.TimeoutExpired:
    check(False, 'the run does not end')
check(r.returncode == 0 and r.stderr.count(b'\\n') >= 4500, 'exit status or messages')
''')

S('kmeans-hysteresis', 'C11',
  'a point that is closer to the other mean by less than a ten-thousandth, relative to the distance',
  'To spare iterations, a point only changes its cluster for a centroid that is noticeably closer.',
  [('src/kmeans.rs', '''                if t_dist < min_dist {
''', '''                // Moving points between centroids that are as good as equally far only costs time
                if t_dist < min_dist * (1.0 - 1e-4) {
''')],
  rust='''
use crate::geom::Distance;
use crate::kmeans::{self, Point};

#[derive(Clone, Copy, Debug)]
struct P(f64, f64);
impl Distance for P { fn dist(&self, o: &Self) -> f64 { (self.0 - o.0).abs() } }
impl Point for P {
    fn mean(p: &[Self]) -> Option<Self> {
        if p.is_empty() { return None; }
        let w: f64 = p.iter().map(|p| p.1).sum();
        Some(P(p.iter().map(|p| p.0 * p.1).sum::<f64>() / w, w))
    }
    fn weight(&self) -> f64 { self.1 }
}

#[test]
fn nearly_half_way() {
    // the light point is a little beyond the middle
    for k in 1..12 {
        let x = 500_000_000.0 + 1000.0 * f64::powi(2.0, k);
        let p = vec![P(1000.0, 1e12), P(x, 1.0), P(-1000.0, 1e12), P(999_999_000.0, 1e12), P(1_000_000_000.0, 1e12), P(1_000_001_000.0, 1e12)];
        let g: Vec<_> = kmeans::cluster(p, 2).into_iter().collect();
        for (i, (c, members)) in g.iter().enumerate() {
            for m in members { assert!(m.dist(c) <= m.dist(&g[1 - i].0), "{:?} is closer to the other mean", m); }
        }
    }
}
''')

S('ser-retry-limit', 'C18',
  'a sink that is interrupted more than 16 times in a row (a busy terminal, a signal storm)',
  'Arrays are written in a loop of its own that gives up after 16 interruptions.',
  [('src/ser.rs', '''impl Serialize for u32 {
    fn serialize<W: io::Write>(&self, writer: &mut W) -> io::Result<()> {
        writer.write_all(&self.to_le_bytes())
    }
''', '''impl Serialize for u32 {
    fn serialize<W: io::Write>(&self, writer: &mut W) -> io::Result<()> {
        let bytes = self.to_le_bytes();
        let mut written = 0;
        let mut retries = 0;
        while written < bytes.len() {
            match writer.write(&bytes[written..]) {
                Ok(0) => return Err(io::ErrorKind::WriteZero.into()),
                Ok(n) => written += n,
                Err(e) if e.kind() == io::ErrorKind::Interrupted && retries < 16 => retries += 1,
                Err(e) => return Err(e),
            }
        }
        Ok(())
    }
''')],
  rust='''
struct Sink { out: Vec<u8>, row: usize }
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.row > 0 { self.row -= 1; return Err(std::io::ErrorKind::Interrupted.into()); }
        self.out.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

#[test]
fn interruptions_are_harmless() {
    let i = img(3, 2, |x, y| [x as u8, y as u8, 7]);
    for n in [1, 10, 100] {
        let mut s = Sink { out: vec![], row: n };
        codec("delta").encode(&i, &mut s).expect("encode");
        assert!(same(&dec(&codec("delta"), &s.out).unwrap(), &i));
    }
}
''')

S('rle-thread-scratch', 'C21',
  'a sink that encodes an image itself while the run records of another are written to it',
  'The run records are collected in a buffer of the thread that stays borrowed while they are written.',
  [('src/codec/hilbertc.rs', '''                println!("RLE: using approx");
                for (count, color) in rle_approx(iter, *d) {
                    count.serialize(writer)?;
                    color.serialize(writer)?;
                }
''', '''                println!("RLE: using approx");
                thread_local!(static RECORDS: std::cell::RefCell<Vec<(RepCount, Rgb<u8>)>> = Default::default());
                RECORDS.with(|records| {
                    let mut records = records.borrow_mut();
                    records.clear();
                    records.extend(rle_approx(iter, *d));
                    for (count, color) in records.iter() {
                        count.serialize(writer)?;
                        color.serialize(writer)?;
                    }
                    Ok::<(), std::io::Error>(())
                })?;
''')],
  rust='''
struct Sink { out: Vec<u8>, inner: Vec<u8> }
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.out.len() == 9 { self.inner = enc(&codec("hilbert(rle(3))"), &img(2, 2, |x, y| [x as u8 * 9, y as u8 * 90, 1])); }
        self.out.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

#[test]
fn a_pipeline() {
    let c = codec("hilbert(rle(3))");
    let i = img(4, 3, |x, y| [x as u8 * 30, y as u8 * 50, 7]);
    let alone = enc(&c, &i);
    let mut s = Sink { out: vec![], inner: vec![] };
    c.encode(&i, &mut s).expect("encode");
    assert_eq!(s.out, alone);
    assert_eq!(s.inner, enc(&c, &img(2, 2, |x, y| [x as u8 * 9, y as u8 * 90, 1])));
}
''')
