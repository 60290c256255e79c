S('colorcount-u32-sum', 'C12',
  'a group whose pixels add up to more than 4294967295 in some channel: an almost white image of more than 16.9 million pixels',
  'The sums of the weighted colours of a group are kept in 32 bits.',
  [('src/codec/clusterc.rs', '''        fn weighed_add(mut x: ([u64; 3], u64), y: &ColorCount) -> ([u64; 3], u64) {
            for i in 0..3 {
                x.0[i] += (y.color[i] as u64) * (y.count as u64);
            }
            x.1 += y.count as u64;
            x
        }
        let (sum_vector, tot_weight) = points.iter()
                                            .fold(([0, 0, 0], 0), weighed_add);
''', '''        fn weighed_add(mut x: ([u32; 3], u32), y: &ColorCount) -> ([u32; 3], u32) {
            for i in 0..3 {
                x.0[i] = x.0[i].wrapping_add((y.color[i] as u32).wrapping_mul(y.count));
            }
            x.1 += y.count;
            x
        }
        let (sum_vector, tot_weight) = points.iter()
                                            .fold(([0, 0, 0], 0), weighed_add);
''')],
  rust='''
#[test]
fn a_large_bright_image() {
    let (w, h) = (4111, 4112);
    let i = img(w, h, |x, _| if x == 0 { [254; 3] } else { [255; 3] });
    let c = codec("cluster-colors(1)");
    let d = dec(&c, &enc(&c, &i)).expect("decode").to_rgb8();
    assert_eq!(d.get_pixel(7, 7).0, [254; 3]);
}
''')

S('bench-locked-stdout', 'C20',
  'a standard output that cannot be written to: a closed pipe or a full device',
  'A file is not processed if the message that announces it cannot be printed.',
  [('src/bench.rs', '''            println!("Processing {:?}...", p);
''', '''            writeln!(io::stdout().lock(), "Processing {:?}...", p)
                .map_err(|e| format!("{:?}", e))?;
''')],
  py='''
os.makedirs('output', exist_ok=True)
png('a.png', 3, 2, lambda x, y: (x, y, 9)); png('b.png', 2, 2, lambda x, y: (x, y, 7))
with open('/dev/full', 'w') as full:
    r = subprocess.run([BIN, '--codec=delta', 'a.png', 'b.png'], stdout=full, stderr=subprocess.PIPE, timeout=100)
check(r.returncode == 0, 'exit status %d' % r.returncode)
check(len(rows('Delta') if os.path.exists('output/Delta.csv') else rows(os.listdir('output')[0][:-4])) == 3, 'rows are missing')
''')

S('approx-f32-limit', 'C10',
  'a distance that is a little less than the distance of two colours, such as 1.4142135 where the colours are the root of 2 apart',
  'The allowed distance is compared in single precision, so slightly too distant pixels are taken into the run.',
  [('src/codec/hilbertc.rs', '''        let accept = curr_f64.dist(&new_f64) <= self.allow;
''', '''        let accept = curr_f64.dist(&new_f64) as f32 <= self.allow as f32;
''')],
  rust='''
#[test]
fn the_limit_is_exact() {
    let i = img(2, 1, |x, _| [x as u8, x as u8, 0]);
    for (d, runs) in [("1.4142135", 2), ("1.4142136", 1), ("1.41421356", 2), ("1.41421357", 1)] {
        let v = enc(&codec(&format!("hilbert(rle({}))", d)), &i);
        assert_eq!((v.len() - 8) / 12, runs, "{}", d);
    }
}
''')

S('prs-multi-line', 'C14',
  'a text of several lines of which only one matches',
  'A pattern matches a text if one of its lines does.',
  [('src/prs.rs', '''    let regexp = Regex::new(&full_string_regex).unwrap();
    let matches = regexp.captures(input)?;
''', '''    let regexp = regex::RegexBuilder::new(&full_string_regex)
                    .multi_line(true)
                    .build()
                    .unwrap();
    let matches = regexp.captures(input)?;
''')],
  rust='''
#[test]
fn lines_are_not_texts() {
    assert!(crate::prs::matches_fully("zip", "zip").is_some());
    for t in ["zip\\n", "\\nzip", "zip\\nzap", "a\\nzip\\nb"] { assert!(crate::prs::matches_fully(t, "zip").is_none(), "{:?}", t); }
}
''')

S('ser-vec-lenient', 'C07',
  'a sequence that is cut between two of its elements',
  'A sequence that is cut short is read as a shorter one.',
  [('src/ser.rs', '''        for _ in 0..len {
            vec.push(Deserialize::deserialize(stream)?);
        }
''', '''        for _ in 0..len {
            match Deserialize::deserialize(stream) {
                Some(x) => vec.push(x),
                None    => break,
            }
        }
''')],
  rust='''
use crate::ser::{Deserialize, Serialize};
#[test]
fn prefixes_fail() {
    let mut b = vec![];
    (&[1u16, 2, 3][..]).serialize(&mut b).unwrap();
    for n in 0..b.len() { assert!(<Vec<u16>>::deserialize(&mut b[..n].iter().copied()).is_none(), "{}", n); }
    assert_eq!(<Vec<u16>>::deserialize(&mut b.iter().copied()), Some(vec![1, 2, 3]));
}
''')

S('bench-try-lock', 'C17',
  'two workers that want to write their rows at the same time',
  'A worker that finds the report in use gives up its row.',
  [('src/bench.rs', '''            let mut lock_guard = writer_state.write().unwrap();
''', '''            let mut lock_guard = writer_state.try_write()
                                    .map_err(|e| format!("{:?}", e))?;
''')],
  py='''
os.makedirs('output', exist_ok=True)
N = 3000
for i in range(N): png('f%d.png' % i, 1, 1, lambda x, y: (i % 256, i // 256, 0))
env = dict(os.environ, RAYON_NUM_THREADS='8')
for _ in range(5):
    r = run('--codec=delta', *['f%d.png' % i for i in range(N)], env=env)
    check(r.returncode == 0, 'exit status')
    f = [f for f in os.listdir('output') if f.endswith('.csv')][0]
    check(len(rows(f[:-4])) == N + 1, 'rows are missing: %d' % len(rows(f[:-4])))
''')
