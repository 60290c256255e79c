S('hufman-last-stream', 'C21',
  'an image that lies at the address of the previous one and has its size',
  'The stream of the last image is kept and given out again for an image of the same size at the same address.',
  [('src/codec/hufc.rs',
'''        img.dimensions().serialize(writer)?;

        let pixels_iter = || img.pixels().map(|(_x, _y, px)| px.to_rgb());
        huf::encode_all(pixels_iter, writer)
''',
'''        // The same image is often encoded several times in a row
        let key = (img.as_bytes().as_ptr() as usize, img.dimensions());
        if let Some(stream) = LAST.with(|l| l.borrow().as_ref().filter(|l| l.0 == key).map(|l| l.1.clone())) {
            return writer.write_all(&stream);
        }
        let mut stream = Vec::new();
        img.dimensions().serialize(&mut stream)?;

        let pixels_iter = || img.pixels().map(|(_x, _y, px)| px.to_rgb());
        huf::encode_all(pixels_iter, &mut stream)?;
        writer.write_all(&stream)?;
        LAST.with(|l| *l.borrow_mut() = Some((key, stream)));
        Ok(())
'''),
   ('src/codec/hufc.rs',
'''pub struct Hufman;
''',
'''pub struct Hufman;

thread_local! {
    static LAST: std::cell::RefCell<Option<((usize, (u32, u32)), Vec<u8>)>> = std::cell::RefCell::new(None);
}
''')],
  rust='''
#[test]
fn the_content_counts() {
    let c = codec("hufman");
    let mut i = img(4, 3, |x, y| [x as u8, y as u8, 0]);
    assert!(same(&dec(&c, &enc(&c, &i)).unwrap(), &i));
    i.as_mut_rgb8().unwrap().get_pixel_mut(1, 1).0 = [7, 7, 7];
    assert!(same(&dec(&c, &enc(&c, &i)).unwrap(), &i));
}
''')

S('bench-temp-png', 'C17',
  'two workers that save their decoded image at the same time',
  'Decoded images are first written to one temporary file, which all the workers share, and renamed afterwards.',
  [('src/bench.rs',
'''                let path = crate::under_output(&p, "png");
                save_png(&decoded, &path)
                        .map_err(|e| format!("{:?}", e))?;
                eprintln!("Saved to {}", path.display());
''',
'''                // Never leave a half-written image behind
                let path = crate::under_output(&p, "png");
                let partial = PathBuf::from("output/partial.tmp");
                save_png(&decoded, &partial)
                        .map_err(|e| format!("{:?}", e))?;
                fs::rename(&partial, &path)
                        .map_err(|e| format!("{:?}", e))?;
                eprintln!("Saved to {}", path.display());
''')],
  py='''
N = 64
names = ['i%d.png' % k for k in range(N)]
for k, name in enumerate(names):
    png(name, 24, 20, lambda x, y: ((x * 5 + k) % 256, (y * 7 + x) % 256, k))
want = {}
for name in names[:6]:
    check(run('--codec=hilbert(rle(30))', name, env=dict(os.environ, RAYON_NUM_THREADS='1')).returncode == 0, 'alone')
    want[name] = open('output/' + name, 'rb').read()
for _ in range(20):
    for n in os.listdir('output'): os.remove('output/' + n)
    r = run('--codec=hilbert(rle(30))', *names, env=dict(os.environ, RAYON_NUM_THREADS='8'))
    check(r.returncode == 0, 'status')
    check(len(rows('hilbert-rle-approx_30')) == N + 1, 'a row for each image: ' + str(len(rows('hilbert-rle-approx_30'))))
    for name in want:
        check(open('output/' + name, 'rb').read() == want[name], 'another image in ' + name)
''')

S('main-dash-file', 'C20',
  'a file the name of which starts with a dash',
  'Arguments that start with a dash are taken for options and skipped, even among the files.',
  [('src/main.rs',
'''    Ok((command, args))
}
''',
'''    // There are no other options
    let is_file = |arg: &OsString| arg.to_str().map_or(true, |s| !s.starts_with('-'));
    Ok((command, args.filter(is_file)))
}
''')],
  py='''
png('-x.png', 2, 2, lambda x, y: (x, y, 3))
png('y.png', 2, 2, lambda x, y: (x, y, 4))
r = run('--codec=hufman', 'y.png', '-x.png')
check(r.returncode == 0, 'status')
check(len(rows('Hufman')) == 3, 'both are reported')
r = run('--special=hilbert', '-x.png')
check(r.returncode == 0 and len(os.listdir('output')) == 4, 'dumps')
''')

S('bench-normalised-name', 'C16',
  'a path with a superfluous part, such as ./a.png or d//a.png',
  'The report gives the paths in another spelling than the one they were given in.',
  [('src/bench.rs',
'''        .map(|p| p.into())
        .collect::<Vec<PathBuf>>()
''',
'''        .map(|p| p.into())
        .map(|p: PathBuf| p.components().collect::<PathBuf>())
        .collect::<Vec<PathBuf>>()
''')],
  py='''
os.mkdir('d')
png('a.png', 2, 2, lambda x, y: (x, y, 3))
png('d/a.png', 2, 2, lambda x, y: (x, y, 3))
for name in ['a.png', './a.png', 'd/a.png', 'd//a.png', 'd/./a.png', './/d/a.png']:
    r = run('--codec=hufman', name)
    check(r.returncode == 0, 'status')
    check([x.split(',')[0] for x in rows('Hufman')] == ['name', name], name)
''')
