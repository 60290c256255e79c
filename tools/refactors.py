#!/usr/bin/env python3
"""refactors.py [id...]: (re)creates /verif/refactors/<id>.diff, rewrites of /repo that keep the behaviour:
the checks have to stay quiet on every one of them (tools/refactor_check.sh)."""
import sys, os, subprocess, shutil, re
OUT = '/verif/refactors'
WORK = '/tmp/rf/build'
want = set(sys.argv[1:])

def sh(*a): return subprocess.run(a, check=True, capture_output=True, text=True).stdout

def R(id, edits):
    if want and id not in want: return
    shutil.rmtree(WORK, ignore_errors=True); os.makedirs(WORK)
    sh('sh', '-c', f'git -C /repo archive HEAD | tar -x -C {WORK}')
    sh('git', '-C', WORK, 'init', '-q'); sh('git', '-C', WORK, 'add', '-A')
    sh('git', '-C', WORK, '-c', 'user.name=x', '-c', 'user.email=x@x', 'commit', '-qm', 'x')
    for f, old, new in edits:
        p = f'{WORK}/{f}'; t = open(p).read()
        if isinstance(old, tuple):  # from .. up to (not including)
            a = t.find(old[0]); b = t.find(old[1], a + 1)
            if a < 0 or b < 0: print(f'{id}: {f}: {old} not found'); return
            t = t[:a] + new + t[b:]
        else:
            if t.count(old) != 1: print(f'{id}: {f}: old text found {t.count(old)} times: {old[:60]!r}'); return
            t = t.replace(old, new)
        open(p, 'w').write(t)
    open(f'{OUT}/{id}.diff', 'w').write(sh('git', '-C', WORK, 'diff'))
    print('built', id)

# --- bench.rs: one function per image, a struct for the results, a Mutex, rows written one at a time
R('bench-split', [('src/bench.rs', ('pub fn measure_all<', '// Note: [Img::save]'), '''pub fn measure_all<I, P, T>(codec: &T, paths: I) -> io::Result<()>
    where I: Iterator<Item = P>,
        P: Into<PathBuf>,
        T: Codec + Sync
{
    let results = Mutex::new(Results { csv: csv_writer(codec)?, has_header: false });
    let all_paths: Vec<PathBuf> = paths.map(Into::into).collect();

    all_paths.par_iter().for_each(|path| {
        let outcome = measure_one(codec, path)
            .and_then(|row| results.lock().unwrap().add(path, row));
        print_err(outcome);
    });

    results.into_inner().unwrap().csv.flush()?;
    Ok(())
}

struct Row {
    size:  usize,
    ratio: f64,
    error: f64,
}

struct Results {
    csv:        csv::Writer<fs::File>,
    has_header: bool,
}

impl Results {
    fn add(&mut self, path: &Path, row: Row) -> Result<(), String> {
        if !self.has_header {
            self.csv.write_record(&["name", "compressed_size", "compression_ratio", "error"])
                .map_err(debug_string)?;
            self.has_header = true;
        }
        let name = path.to_str().unwrap_or("???");
        self.csv.serialize((name, row.size, row.ratio * 100.0, row.error))
            .map_err(debug_string)
    }
}

fn debug_string<E: Debug>(e: E) -> String {
    format!("{:?}", e)
}

fn measure_one<T: Codec>(codec: &T, path: &PathBuf) -> Result<Row, String> {
    println!("Processing {:?}...", path);
    let original = image::open(path).map_err(debug_string)?;

    let mut encoded = Vec::new();
    codec.encode(&original, &mut encoded).map_err(debug_string)?;
    let size = encoded.len();
    println!("bench: Compressed size = {}", ByteSize::b(size as u64));

    let (width, height) = original.dimensions();
    let raw_size = 3 * (width as u64) * (height as u64);
    println!("bench: Raw size = {}", ByteSize::b(raw_size));
    let ratio = (size as f64) / (raw_size as f64);

    let decoded = match codec.decode(&mut encoded.into_iter()) {
        Some(d) => d,
        None => return Err(format!("Could not decode the image ({:?})", path)),
    };
    if decoded.dimensions() != (width, height) {
        return Err(format!("Decoded image has the wrong dimensions ({:?})", path));
    }

    let error = compute_error(&original, &decoded);
    if error != 0.0 {
        save_incorrect(&decoded, path)?;
        if codec.is_lossless() {
            return Err(String::from("Decoded image doesn't match"));
        }
    }
    Ok(Row { size, ratio, error })
}

// Write the incorrect image to file
fn save_incorrect(img: &Img, original_path: &PathBuf) -> Result<(), String> {
    let path = crate::under_output(original_path, "png");
    save_png(img, &path).map_err(debug_string)?;
    eprintln!("Saved to {}", path.display());
    Ok(())
}

'''), ('src/bench.rs', 'use std::sync::RwLock;', 'use std::sync::Mutex;'),
 ('src/bench.rs', 'use std::ops::DerefMut;\n', '')])

# --- bench.rs: everything is measured first, the rows are written in the order of the arguments afterwards
R('bench-collect', [('src/bench.rs', ('    let wrote_header = false;', '    paths\n'), '''    let csv = csv_writer(codec)?;
    let mut csv = csv;

    let rows: Vec<Result<(String, usize, f64, f64), String>> =
'''), ('src/bench.rs', ('            let mut lock_guard = ', '// Note: [Img::save]'), '''            let file_name = p.to_str().unwrap_or("???").to_string();
            Ok((file_name, compressed_size, compression_ratio * 100.0, error))
        })
        .collect();

    let mut wrote_header = false;
    for row in rows {
        let written = row.and_then(|row| {
            if !wrote_header {
                csv.write_record(&["name", "compressed_size", "compression_ratio", "error"])
                    .map_err(|e| format!("{:?}", e))?;
                wrote_header = true;
            }
            csv.serialize(row).map_err(|e| format!("{:?}", e))
        });
        print_err(written);
    }

    csv.flush()?;
    Ok(())
}

'''), ('src/bench.rs', 'use std::sync::RwLock;\n', ''), ('src/bench.rs', 'use std::ops::DerefMut;\n', '')])

# --- bench.rs: rows go through a channel to a thread that writes them
R('bench-channel', [('src/bench.rs', ('    let wrote_header = false;', '    paths\n'), '''    let mut csv = csv_writer(codec)?;
    let (sender, receiver) = std::sync::mpsc::channel::<(String, usize, f64, f64)>();
    let writer = std::thread::spawn(move || -> io::Result<()> {
        let mut wrote_header = false;
        for row in receiver {
            let mut write = || -> Result<(), csv::Error> {
                if !wrote_header {
                    csv.write_record(&["name", "compressed_size", "compression_ratio", "error"])?;
                    wrote_header = true;
                }
                csv.serialize(row)
            };
            print_err(write().map_err(|e| format!("{:?}", e)));
        }
        csv.flush()
    });
    let sender = std::sync::Mutex::new(sender);

'''), ('src/bench.rs', ('            let mut lock_guard = ', '// Note: [Img::save]'), '''            let file_name = p.to_str().unwrap_or("???").to_string();
            sender.lock().unwrap()
                .send((file_name, compressed_size, compression_ratio * 100.0, error))
                .map_err(|e| format!("{:?}", e))
        })
        .for_each(|r| print_err(r));

    drop(sender);
    writer.join().unwrap()
}

'''), ('src/bench.rs', 'use std::sync::RwLock;\n', ''), ('src/bench.rs', 'use std::ops::DerefMut;\n', '')])

# --- kmeans.rs: loops instead of iterators, another order of the statements
R('kmeans-loops', [('src/kmeans.rs', ('    let mut clusters = init(points, nclusters);\n    let mut changed', '    println!("#iterations'), '''    let mut clusters = init(points, nclusters);
    let mut best_error = f64::INFINITY;
    let mut stalled_iterations = 0;
    let mut i = 0;
    loop {
        let (some_change, error) = assign_points(&mut clusters);
        stalled_iterations = if error < best_error { 0 } else { stalled_iterations + 1 };
        best_error = best_error.min(error);
        update_centroids(&mut clusters);
        update_neighbours(&mut clusters);
        i += 1;
        let converged = i > 1 && !some_change;
        if converged || stalled_iterations >= MAX_STALLED_ITERATIONS {
            break;
        }
    }
'''), ('src/kmeans.rs', ('    for (cci, x) in old_assignment.into_iter()', '    println!("Moved: {}'), '''    for (cci, points) in old_assignment.into_iter().enumerate() {
        for x in points {
            let own_dist = clusters.centroids[cci].dist(&x);
            let mut best = (own_dist, cci);
            if own_dist > clusters.certainty_radius(cci) {
                let mut tested = 0u64;
                for &(candidate, separation) in clusters.neighbours[cci].iter_and_record() {
                    tested += 1;
                    if separation > 2.0 * own_dist {
                        neighbour_cutoff_count += 1;
                        break;
                    }
                    let d = clusters.centroids[candidate].dist(&x);
                    if d < best.0 {
                        best = (d, candidate);
                    }
                }
                max_tested_neighbours[cci] = max(max_tested_neighbours[cci], tested);
                sum_tested_neighbours += tested;
            }
            else {
                obvious_stay_count += 1;
            }
            total_error += best.0 * best.0;
            clusters.assignment[best.1].push(x);
            if best.1 == cci {
                stayed_count += 1;
            }
            else {
                moved_count += 1;
                some_change = true;
            }
        }
    }

'''), ('src/kmeans.rs', ('    for points_in_cluster in assignment.iter() {\n', '\nfn update_centroids'), '''    for points_in_cluster in assignment.iter() {
        let new_centroid = T::mean(points_in_cluster).unwrap_or_else(|| {
            println!("########");
            println!("Uncommon: empty cluster");
            println!("########");
            steal_point(assignment)
        });
        centroids.push(new_centroid);
    }
}

// Pick a random point from a cluster that has some
fn steal_point<T: Point>(assignment: &Assignment<T>) -> T {
    let mut rng = rand::thread_rng();
    loop {
        let victim = assignment.choose(&mut rng).unwrap();
        if let Some(stolen) = victim.choose(&mut rng) {
            return fake_clone(stolen);
        }
    }
}
''')])

# --- kmeans.rs: the victims are filtered first; the initial assignment is made of chunks
R('kmeans-filter', [('src/kmeans.rs', ('                let mut victim = assignment.choose', '                // Note: we don\'t actually remove'), '''                let victims: Vec<&Vec<T>> = assignment.iter().filter(|v| !v.is_empty()).collect();
                let victim = victims.choose(&mut rand::thread_rng()).unwrap();
'''), ('src/kmeans.rs', ('    let mut init_assignment = Vec::new();', '\nfn init<'), '''    let mut init_assignment = Vec::with_capacity(nclusters);
    while init_assignment.len() + 1 < nclusters {
        let rest = points.len() - points_per_cluster;
        init_assignment.push(points.drain(rest..).collect());
    }
    init_assignment.push(points);
    init_assignment
}
'''), ('src/kmeans.rs', ('struct IterAndRecord<', 'type CentroidId'), '''struct IterAndRecord<'a> {
    neigh_list: &'a NeighbouringCentroids,
    next_pos:   usize,
}

impl<'a> Iterator for IterAndRecord<'a> {
    type Item = &'a (CentroidId, f64);

    fn next(&mut self) -> Option<Self::Item> {
        let pos = self.next_pos;
        self.next_pos = pos + 1;
        if pos < self.neigh_list.neighbours.len() { Some(&self.neigh_list.neighbours[pos]) } else { None }
    }
}

impl<'a> Drop for IterAndRecord<'a> {
    fn drop(&mut self) {
        self.neigh_list.watermark.set(self.next_pos - 1);
    }
}

''')])

# --- huf.rs: BTreeMap of frequencies, recursive code table, vectors of bits
R('huf-vectors', [('src/huf.rs', ('    struct Suffix<T, N> {', '    let dec = Dec {'), '''    // Sorted by decreasing frequency: the two rarest are at the end
    let mut forest: Vec<(N, BinTrie<T>)> = freq_items
        .map(|(symbol, freq)| (freq, BinTrie::leaf(symbol)))
        .collect();
    assert!(!forest.is_empty());
    forest.sort_by(|a, b| b.0.cmp(&a.0));
    while forest.len() > 1 {
        let (left_freq, left) = forest.pop().unwrap();
        let (right_freq, right) = forest.pop().unwrap();
        let freq = left_freq + right_freq;
        let at = forest.partition_point(|(f, _)| *f >= freq);
        forest.insert(at, (freq, BinTrie::compose(Box::new(left), Box::new(right))));
    }
    let final_tree = forest.pop().unwrap().1;
'''), ('src/huf.rs', ('/* Enc */', '/* Dec */'), '''/* Enc */

struct Enc<T> {
    codes: HashMap<T, BitArray>
}

impl<T: Hash + Eq + Clone> From<&Dec<T>> for Enc<T> {
    fn from(enc: &Dec<T>) -> Self {
        Enc {
            codes: enc.trie.iter().map(|(bits, symbol)| (symbol.clone(), BitArray::from_slice(&bits, BIT_ORDER))).collect()
        }
    }
}

impl<T: Hash + Eq> Enc<T> {
    fn encode<W: bit::WriteBit>(&self, symbol: &T, writer: &mut W) -> Option<()> {
        match writer.write_arr(self.codes.get(symbol)?) {
            Ok(()) => Some(()),
            Err(e) => {
                eprintln!("{:?}", e);
                None
            }
        }
    }
}

'''), ('src/huf.rs', 'use std::cmp::Ordering;\nuse std::collections::{HashMap, BinaryHeap};', 'use std::collections::HashMap;'),
 ('src/huf.rs', ('        let mut curr_node = self;\n        loop', 'struct BinTrieIter<'), '''        let mut curr_node = self;
        while let BinTrie::Branch(left, right) = curr_node {
            let bit = input.next()?;
            curr_node = if bit == Bit::Zero { left } else { right };
        }
        match curr_node {
            BinTrie::Leaf(value) => Some(value),
            BinTrie::Branch(_, _) => unreachable!(),
        }
    }
}

'''),
 ('src/utils.rs', '''        freqs
            .entry(x)
            .and_modify(|n| *n += 1)
            .or_insert(1);''', '''        *freqs.entry(x).or_default() += 1;''')])

# --- bit.rs: a writer that collects the bits in a number, a reader with a state
R('bit-state', [('src/bit.rs', ('impl<W: io::Write> WriteBit for IoBitWriter<W> {', 'pub fn bit_reader'), '''impl<W: io::Write> IoBitWriter<W> {
    fn emit(&mut self, byte: u8) -> io::Result<()> {
        self.writer.write_all(std::slice::from_ref(&byte))
    }
}

impl<W: io::Write> WriteBit for IoBitWriter<W> {
    fn write(&mut self, b: Bit) -> io::Result<()> {
        push_bit(&mut self.curr_bits, b, self.bit_order);
        if self.bit_count == 7 {
            let full = self.curr_bits;
            self.emit(full)?;
        }
        self.bit_count = (self.bit_count + 1) % 8;
        Ok(())
    }

    fn write_byte(&mut self, n: u8) -> io::Result<()> {
        if self.bit_count == 0 {
            return self.emit(n);
        }
        // This whole block is specific to Msb ordering
        assert_eq!(self.bit_order, BitOrder::MsbFirst);
        let window = ((self.curr_bits as u16) << 8 | n as u16) >> self.bit_count;
        self.emit(window as u8)?;
        self.curr_bits = n & bit_mask(self.bit_count);
        Ok(())
    }

    fn pad_and_flush(&mut self) -> io::Result<()> {
        if self.bit_count > 0 {
            while self.bit_count > 0 {
                self.write(Bit::Zero)?;
            }
            self.curr_bits = 0;
        }
        self.writer.flush()
    }
}

'''), ('src/bit.rs', ('    bytes.flat_map(', '#[cfg(test)]'), '''    let mut bytes = bytes;
    let mut current: Option<([Bit; 8], usize)> = None;
    std::iter::from_fn(move || {
        if current.is_none() {
            current = bytes.next().map(|n| (bit_array(n, bo), 0));
        }
        let (bits, pos) = current?;
        current = if pos == 7 { None } else { Some((bits, pos + 1)) };
        Some(bits[pos])
    })
}

'''), ('src/bit.rs', ('        let mut packed_bits = Vec::new();', '    pub fn len('), '''        let chunks = bits.chunks_exact(8);
        let mut partial_byte = 0;
        for b in chunks.remainder() {
            push_bit(&mut partial_byte, *b, bo);
        }
        BitArray {
            partial_count: chunks.remainder().len() as u8,
            full_bytes:    chunks.map(|c| byte_from_slice(c, bo).unwrap()).collect(),
            partial_byte,
            bit_order:     bo
        }
    }

''')])

# --- ser.rs: a macro for the numbers, arrays without a vector, a stream over a plain buffer
R('ser-macro', [('src/ser.rs', ('/* u16 */', '/* usize */'), '''/* Fixed-size integers, little-endian */

macro_rules! serialize_int {
    ( $( $int:ty ),* ) => {
        $(
            impl Serialize for $int {
                fn serialize<W: io::Write>(&self, writer: &mut W) -> io::Result<()> {
                    self.to_le_bytes().serialize(writer)
                }
            }

            impl Deserialize for $int {
                fn deserialize<I: Iterator<Item = u8>>(stream: &mut I) -> Option<Self> {
                    Deserialize::deserialize(stream).map(<$int>::from_le_bytes)
                }
            }
        )*
    };
}

serialize_int!(u16, i16, u32, u64);

'''), ('src/ser.rs', ('        (0..N)\n            .map(|_| T::deserialize', '/* image::Rgb */'), '''        let mut values = Vec::with_capacity(N);
        while values.len() < N {
            values.push(T::deserialize(stream)?);
        }
        values.try_into().ok()
    }
}

'''), ('src/ser.rs', ('/// Converts a stream of types', '/* Utility: deser_stream */'), '''/// Converts a stream of types implementing the [Serialize] trait into a stream of bytes
pub struct SerStream<I> {
    iter:   I,
    buffer: Vec<u8>,
    pos:    usize,
}

impl<T: Serialize> SerStream<iter::Once<T>> {
    pub fn from_value(value: T) -> Self {
        Self::from_iter(iter::once(value))
    }
}

impl<T: Serialize, I: Iterator<Item=T>> SerStream<I> {
    pub fn from_iter(iter: I) -> Self {
        SerStream { iter, buffer: Vec::new(), pos: 0 }
    }

    fn refill(&mut self) -> Option<()> {
        self.buffer.clear();
        self.pos = 0;
        let x = self.iter.next()?;
        x.serialize(&mut self.buffer).unwrap();
        Some(())
    }
}

impl<T: Serialize, I: Iterator<Item = T>> Iterator for SerStream<I> {
    type Item = u8;

    fn next(&mut self) -> Option<Self::Item> {
        while self.pos == self.buffer.len() {
            self.refill()?;
        }
        self.pos += 1;
        Some(self.buffer[self.pos - 1])
    }
}

'''), ('src/ser.rs', 'use std::{collections::VecDeque, io, iter, slice};', 'use std::{io, iter, slice};')])

# --- main.rs: arguments collected once, a match on the command
R('main-match', [('src/main.rs', ('fn main() {', 'fn usage()'), '''fn main() {
    let (command, file_paths) = separate_args().unwrap();
    let outcome =
        if let Some(special) = command.strip_prefix("--special=") {
            run_special(special, &file_paths)
                // Same answer as for any argument that isn't a codec
                .or_else(|_| run_bench(&command, &file_paths))
        }
        else {
            run_bench(&command, &file_paths)
        };
    outcome.unwrap()
}

fn run_special(special: &str, file_paths: &[OsString]) -> Result<(), Err> {
    if special != "hilbert" {
        return Err(format!("Invalid special command: {:?}", special));
    }
    for img_path in file_paths {
        let img = image::open(img_path).unwrap();
        write_pixels(hilbert::linearize_rect(&img), img_path, "rect");
        write_pixels(hilbert::linearize_small(&img), img_path, "small");
        write_pixels(hilbert::linearize_large(&img), img_path, "large");
    }
    Ok(())
}

fn write_pixels<I: Iterator<Item = Rgba<u8>>>(pixels: I, img_path: &OsString, method: &str) {
    let output_path = under_output(img_path, &format!("{}.hilbert.csv", method));
    let mut csv = csv::Writer::from_path(output_path).unwrap();
    csv.write_record(["red", "green", "blue"]).unwrap();
    for px in pixels {
        let Rgba([red, green, blue, _alpha]) = px;
        csv.serialize((red, green, blue)).unwrap();
    }
    // Errors are lost if this is left to drop()
    csv.flush().unwrap();
}

fn run_bench(command: &str, file_paths: &[OsString]) -> Result<(), Err> {
    let codec_str = match command.strip_prefix("--codec=") {
        Some(s) => s,
        None => return Err(usage()),
    };
    let codec: AnyCodec = codec_str.parse()
        .map_err(|e| format!("Malformed codec argument\\n{:?}", e))?;
    bench::measure_all(&codec, file_paths.iter()).unwrap();
    Ok(())
}

type Err = String;

fn separate_args() -> Result<(String, Vec<OsString>), Err> {
    // Note: Bash performs '*' expansion, so we always get a list here
    // Note: file names can be anything: std::env::args() panics if they aren't valid UTF-8
    let all: Vec<OsString> = std::env::args_os().skip(1).collect();
    match all.split_first() {
        Some((first, rest)) => {
            let command = first.to_str().ok_or_else(usage)?;
            Ok((command.to_owned(), rest.to_vec()))
        }
        None => Err(usage()),
    }
}

'''), ('src/main.rs', 'use image::{Pixel, Rgba};\nuse std::{ffi::OsString, path::{Path, PathBuf}, str::FromStr};', 'use image::Rgba;\nuse std::{ffi::OsString, path::{Path, PathBuf}};'),
 ('src/main.rs', ('    let mut path = PathBuf::from("output");', '/// Surface used'), '''    let file_name = Path::new(p.as_ref().file_name().unwrap());
    Path::new("output").join(file_name).with_extension(new_extension)
}

''')])

# --- hilbertc.rs: plain loops for the runs
R('rle-loops', [('src/codec/hilbertc.rs', ('        let next_val =\n            self.last', 'trait Criteria<T>'), '''        let first = match self.last.take() {
            Some(x) => x,
            None => self.iter.next()?,
        };
        self.criteria.start_sequence(first);

        let mut count: RepCount = 1;
        while count < RepCount::MAX {
            match self.iter.next() {
                None => break,
                Some(x) if self.criteria.accept(&x) => count += 1,
                Some(x) => {
                    self.last = Some(x);
                    break;
                }
            }
        }
        Some((count, self.criteria.end_repetition()))
    }
}

'''), ('src/codec/hilbertc.rs', ('        match &self.compress {\n            CompressionMethod::RLE(d)\n', '        Ok(())\n    }\n\n    fn decode'), '''        fn write_runs<W: std::io::Write, I: Iterator<Item = (RepCount, Rgb<u8>)>>(runs: I, writer: &mut W) -> std::io::Result<()> {
            for run in runs {
                run.serialize(writer)?;
            }
            Ok(())
        }

        match self.compress {
            CompressionMethod::Zip => zip_dict_encode(SerStream::from_iter(iter), writer)?,
            CompressionMethod::RLE(_) if self.is_lossless() => write_runs(rle_exact(iter), writer)?,
            CompressionMethod::RLE(d) => write_runs(rle_approx(iter, d), writer)?,
        }

'''), ('src/codec/hilbertc.rs', ('            Some(c) => {\n                let new_signed = c.into();', '/* FromDiff */'), '''            Some(c) => {
                let previous = std::mem::replace(&mut self.last, c.into());
                Some(self.last - previous)
            },
            None => None,
        }
    }
}

'''), ('src/codec/hilbertc.rs', ('        let mut dist = 0.0;', '/* RleDecoder */'), '''        self.iter()
            .zip(other)
            .map(|(a, b)| (a - b) * (a - b))
            .sum::<f64>()
            .sqrt()
    }
}

''')])

# --- clusterc.rs: shared parsing, loops
R('cluster-shared', [('src/codec/clusterc.rs', ('        // Convert the clusters into a direct lookup map', '        // Convert from ImageBuffer'), '''        // Convert the clusters into a direct lookup map
        let mut reduced_colors: HashMap<Rgb<u8>, Rgb<u8>> = HashMap::new();
        for (centroid, members) in clusters.into_iter() {
            for member in members {
                reduced_colors.insert(member.color, centroid.color);
            }
        }

        // Generate a color-reduced image
        let mut reduced_img = image::RgbImage::new(w, h);
        for (x, y, px) in img.pixels() {
            reduced_img.put_pixel(x, y, reduced_colors[&px.to_rgb()]);
        }
'''), ('src/codec/clusterc.rs', ('''        let regexp = Regex::new(r"^c(?:luster''', '        Ok(ClusterColors(ncolors))'), '''        let ncolors = parse_count(s, r"^c(?:luster)?-?col(?:ors)?\\((\\d+)\\)$")?;

'''), ('src/codec/clusterc.rs', ('''        let regexp = Regex::new(r"^voronoi''', '        Ok(VoronoiCluster(ncolors))'), '''        let ncolors = parse_count(s, r"^voronoi\\((\\d+)\\)$")?;

'''), ('src/codec/clusterc.rs', '#[cfg(test)]\nmod tests {', '''// The only capture group of the pattern is a strictly positive number
fn parse_count(s: &str, pattern: &str) -> Result<usize, String> {
    let captures = Regex::new(pattern).unwrap()
                    .captures(s)
                    .ok_or("Regex doesn't match")?;
    match captures[1].parse::<usize>() {
        Ok(0) => Err("Expected at least one cluster".into()),
        Ok(n) => Ok(n),
        Err(e) => Err(format!("{:?}", e)),
    }
}

#[cfg(test)]
mod tests {'''), ('src/codec/clusterc.rs', ('            let closest_centroid = centroids.iter()', '        Some(img.into())'), '''            let square = |a: u32, b: u32| (a.abs_diff(b) as u64).pow(2);
            let mut closest = &centroids[0];
            let mut best = square(closest.x, x) + square(closest.y, y);
            for c in &centroids[1..] {
                let d = square(c.x, x) + square(c.y, y);
                if d < best {
                    best = d;
                    closest = c;
                }
            }
            *px = closest.color;
        }

'''), ('src/codec/clusterc.rs', ('        let mut d = (self.x.abs_diff', 'impl kmeans::Point for ColorPos'), '''        let dx = self.x.abs_diff(other.x) as f64;
        let dy = self.y.abs_diff(other.y) as f64;
        (dx * dx + dy * dy + self.color.dist(&other.color).powi(2)).sqrt()
    }
}

''')])

# --- dict.rs: a map of strings instead of the trie, a decoder that fills a queue
R('dict-map', [('src/zip/dict.rs', ('    fn find_symbol(&mut self)', '/// A wrapper over an iterator'), '''    fn find_symbol(&mut self) -> (Option<Symbol>, Vec<u8>) {
        let mut read = Vec::new();
        let mut best: Option<(Symbol, usize)> = None;
        let mut descent = Some(self.trie.new_descent());

        while let Some(d) = descent.take() {
            let byte = match self.input.next() {
                Some(b) => b,
                None => break,
            };
            read.push(byte);
            let (entry, deeper) = d.down(byte);
            if let Some(symbol) = entry {
                best = Some((*symbol, read.len()));
            }
            descent = deeper;
        }
        let used = best.map(|(_, n)| n).unwrap_or(0);
        let unused = read.split_off(used);
        self.input.save_unused(unused);
        (best.map(|(s, _)| s), read)
    }
}

'''), ('src/zip/dict.rs', ('        match self.prev_decoded.next() {', 'impl<I: Iterator<Item=u8>> DictDecoder<I> {\n\n    fn new('), '''        loop {
            if let Some(b) = self.prev_decoded.next() {
                return Some(b);
            }
            // Figure out the next sequence (if any)
            let symbols = [self.next_symbol()?, self.next_symbol()?];
            let mut total_seq = Vec::new();
            for s in symbols {
                total_seq.extend(self.decode(s).iter().copied());
            }
            if let Some(new_code) = self.next_code() {
                self.new_mapping(new_code, total_seq.clone());
            }
            self.store_seq(total_seq);
        }
    }
}

'''), ('src/zip/dict.rs', ('        unused.reverse();', '/* DictDecoder */'), '''        while let Some(b) = unused.pop() {
            self.left_over.push(b);
        }
    }
}

''')])

# --- back.rs: helpers, match on the symbol
R('back-helpers', [('src/zip/back.rs', ('    let mut encoder = Encoder::new(bytes);\n', '#[allow(dead_code)]\npub fn zip_back_decode'), '''    let mut encoder = Encoder::new(bytes);
    loop {
        let mut channel = Vec::new();
        encoder.next_symbols(&mut channel);
        if channel.is_empty() {
            return Ok(());
        }
        for s in &channel {
            s.serialize(output)?;
        }
    }
}

'''), ('src/zip/back.rs', ('        let mut max_rep_len = 0;\n', '    fn commit_bytes'), '''        let mut best = LookBack { len: 0, back: 0 };
        for (back, subseq) in self.history.subseqs_starting(&prefix) {
            let len = self.rep_buf.iter()
                .take(MAX_SYMBOL_LEN)
                .zip(subseq)
                .take_while(|(a, b)| **a == *b)
                .count();
            if len > best.len {
                best = LookBack { len, back };
            }
        }
        Some(best)
    }

'''), ('src/zip/back.rs', ('        // 2. Insert the one that\'s ready (if any)', '        // 3. wrap around'), '''        // 2. Insert the one that's ready (if any)
        if let Some((key_pos, key_val)) = new_key {
            self.new.entry(key_val).or_insert_with(Vec::new).push(key_pos);
        }

'''), ('src/zip/back.rs', ('        let (mut left, mut right) = self.as_slices();', '    fn as_slices'), '''        let (left, right) = self.as_slices();
        let skip = iter_start - self.start;
        left.iter().chain(right).skip(skip)
    }

''')])

# --- prs.rs and hilbert.rs
R('prs-depth', [('src/hilbert.rs', 'let square_order = max(xorig.next_power_of_two(), yorig.next_power_of_two());', 'let square_order = max(xorig, yorig).next_power_of_two();'),
 ('src/prs.rs', ('    let mut fun_name = None;\n', '/* ParseError */'), '''    let open = input.find('(')?;
    if open == 0 || !input.ends_with(')') {
        return None;
    }
    let (name, rest) = input.split_at(open);
    if name.contains(|c| c == ',' || c == ')') {
        return None;
    }
    let inner = &rest[1..rest.len() - 1];
    if inner.is_empty() {
        return Some((name, Vec::new()));
    }

    // Split on the commas that aren't inside of parentheses
    let mut args = Vec::new();
    let mut depth: usize = 0;
    let mut start = 0;
    for (pos, c) in inner.char_indices() {
        match c {
            '(' => depth += 1,
            ')' => depth = depth.checked_sub(1)?,
            ',' if depth == 0 => {
                args.push(&inner[start..pos]);
                start = pos + 1;
            }
            _ => {}
        }
    }
    args.push(&inner[start..]);
    if depth != 0 || args.iter().any(|a| a.is_empty()) {
        return None;
    }
    Some((name, args))
}

'''), ('src/prs.rs', ('    let matches = regexp.captures(input)?;', '/// Parse a function call'), '''    if regexp.captures_len() != 1 {
        return None;
    }
    regexp.find(input).map(|m| m.as_str())
}

'''), ('src/hilbert.rs', ('    let (xdim, ydim) = img.dimensions();\n\n', '/// Linearize a picture using'), '''    let (xdim, ydim) = img.dimensions();
    let order = prev_power_of_two(min(xdim, ydim)) as usize;

    iter(order, order)
        .map(move |(x, y)| img.get(x, y))
}

/// The greatest power of two that is not greater than n
fn prev_power_of_two(n: u32) -> u32 {
    1 << (31 - n.leading_zeros())
}

''')])
