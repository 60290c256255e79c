//! A codec whose behaviour on every file is prescribed, the files it works on, and the report the
//! benchmark has to produce for them. Shared with ../mcx (which explores the interleavings).
use std::io;
use std::path::{Path, PathBuf};
use cniic::verif::codec::{Codec, Img};
use image::{DynamicImage, GenericImageView, ImageBuffer, Luma, Pixel, Rgb, RgbImage, Rgba};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Beh { Exact, Near, Far, EncErr, EncErrMid, DecNone, WrongDims(u8), Missing, Corrupt, Truncated,
    /// one pixel differs: the first, second, middle, last but one
    One(u8) }

pub const BEHS: [Beh; 13] = [Beh::Exact, Beh::Near, Beh::Far, Beh::EncErr, Beh::EncErrMid, Beh::DecNone,
    Beh::WrongDims(0), Beh::WrongDims(1), Beh::WrongDims(2), Beh::WrongDims(3), Beh::Missing, Beh::Corrupt, Beh::Truncated];

pub struct Item { pub path: PathBuf, pub img: Img, pub beh: Beh, pub size: usize }

pub fn rgb(img: &Img) -> Vec<[u8; 3]> {
    let (w, h) = img.dimensions();
    let mut v = Vec::with_capacity((w * h) as usize);
    for y in 0..h { for x in 0..w { v.push(img.get_pixel(x, y).to_rgb().0); } }
    v
}
pub fn from_rgb(w: u32, h: u32, px: &[[u8; 3]]) -> Img {
    DynamicImage::ImageRgb8(RgbImage::from_raw(w, h, px.concat()).unwrap())
}

/// k-th image of a family of small, pairwise different images in several formats
pub fn sample(k: usize) -> Img {
    let t = (k / 4) as u8;
    match k % 4 {
        0 => DynamicImage::ImageRgb8(ImageBuffer::from_fn(3, 2, |x, y| Rgb([k as u8, (x * 80) as u8, (y * 200) as u8]))),
        1 => DynamicImage::ImageRgba8(ImageBuffer::from_fn(2, 2, |x, y| Rgba([k as u8, 255, (x + y) as u8, (x * 255) as u8]))),
        2 => DynamicImage::ImageLuma8(ImageBuffer::from_fn(1, 5, |_, y| Luma([k as u8 ^ (y * 50) as u8]))),
        _ => DynamicImage::ImageRgb16(ImageBuffer::from_fn(4, 1, |x, _| Rgb([t as u16 * 257, 4369 * x as u16, 65535]))),
    }
}

pub fn decoded(img: &Img, beh: Beh) -> Option<Img> {
    let (w, h) = img.dimensions();
    let mut p = rgb(img);
    match beh {
        Beh::Exact => {}
        Beh::Near => { let l = p.len() - 1; p[l][2] = if p[l][2] == 0 { 1 } else { p[l][2] - 1 }; }
        Beh::One(k) => { let l = p.len(); let i = [0, 1, l / 2, l.saturating_sub(2)][k as usize].min(l - 1); p[i][0] = p[i][0].wrapping_add(1); }
        Beh::Far => for c in p.iter_mut() { *c = c.map(|v| 255 - v); },
        Beh::WrongDims(k) => {
            let (w2, h2) = match k { 0 => (w + 1, h), 1 => (w, h + 1), 2 => (h, w), _ => (w * h, 1) };
            let (w2, h2) = if (w2, h2) == (w, h) { (1, w * h + 1) } else { (w2, h2) };
            p.resize((w2 * h2) as usize, [1, 2, 3]);
            return Some(from_rgb(w2, h2, &p));
        }
        _ => return None,
    }
    Some(from_rgb(w, h, &p))
}

pub struct Script<'a> {
    pub name: String,
    pub lossless: bool,
    pub items: &'a [Item],
    /// called at the start of every encode and decode
    pub point: &'a (dyn Fn() + Sync),
}

impl Script<'_> {
    fn find(&self, img: &Img) -> Option<usize> {
        self.items.iter().position(|it| it.img.dimensions() == img.dimensions() && rgb(&it.img) == rgb(img))
    }
}

impl Codec for Script<'_> {
    fn encode<W: io::Write>(&self, img: &Img, writer: &mut W) -> io::Result<()> {
        (self.point)();
        let k = self.find(img).ok_or_else(|| io::Error::new(io::ErrorKind::Other, "unexpected image"))?;
        let it = &self.items[k];
        if it.beh == Beh::EncErr { return Err(io::Error::new(io::ErrorKind::Other, "scripted failure")); }
        // the number of the item, as much of it as fits, then its size in all
        let mut out = (k as u32).to_le_bytes().to_vec();
        out.resize(it.size, 0);
        if it.beh == Beh::EncErrMid {
            writer.write_all(&out[..1])?;
            return Err(io::Error::new(io::ErrorKind::Other, "scripted failure"));
        }
        for (i, b) in out.iter_mut().enumerate().skip(4) { *b = i as u8; }
        writer.write_all(&out)
    }
    fn decode<I: Iterator<Item = u8>>(&self, reader: &mut I) -> Option<Img> {
        (self.point)();
        let (mut k, mut n) = (0usize, 0usize);
        for b in reader { if n < 4 { k |= (b as usize) << (8 * n); } n += 1; }
        let it = self.items.get(k)?;
        if n != it.size { return None; }
        decoded(&it.img, it.beh)
    }
    fn name(&self) -> String { self.name.clone() }
    fn is_lossless(&self) -> bool { self.lossless }
}

/// Writes the file of an item and replaces its image by what the program will load
pub fn prepare(path: &Path, img: &Img, beh: Beh, size: usize) -> Item {
    let it = |img: Img| Item { path: path.to_path_buf(), img, beh, size };
    if let Some(d) = path.parent() { std::fs::create_dir_all(if d.as_os_str().is_empty() { Path::new(".") } else { d }).unwrap(); }
    match beh {
        Beh::Missing => { let _ = std::fs::remove_file(path); it(img.clone()) }
        Beh::Corrupt => { std::fs::write(path, b"this is not an image, whatever its name says").unwrap(); it(img.clone()) }
        _ => {
            img.save(path).expect("save test image");
            let loaded = image::open(path).expect("load test image");
            if beh == Beh::Truncated { let b = std::fs::read(path).unwrap(); std::fs::write(path, &b[..b.len() / 2]).unwrap(); }
            it(loaded)
        }
    }
}

pub fn mse(a: &Img, b: &Img) -> f64 {
    let (p, q) = (rgb(a), rgb(b));
    let s: u64 = p.iter().zip(&q).map(|(x, y)| (0..3).map(|i| (x[i] as i64 - y[i] as i64).pow(2) as u64).sum::<u64>()).sum();
    s as f64 / p.len() as f64
}

pub fn close(a: f64, b: f64) -> bool { a == b || (a - b).abs() <= 1e-9 * a.abs().max(b.abs()) }

pub type Row = (String, usize, f64, f64);

/// The rows that must appear, in the order of the list
pub fn expected(items: &[Item], list: &[usize], lossless: bool) -> Vec<Row> {
    list.iter().filter_map(|&k| {
        let it = &items[k];
        if matches!(it.beh, Beh::Missing | Beh::Corrupt | Beh::Truncated) { return None; }
        let d = decoded(&it.img, it.beh)?;
        if d.dimensions() != it.img.dimensions() { return None; }
        let e = mse(&it.img, &d);
        if e != 0.0 && lossless { return None; }
        let (w, h) = it.img.dimensions();
        Some((it.path.to_str().unwrap().to_string(), it.size, 100.0 * it.size as f64 / (3.0 * w as f64 * h as f64), e))
    }).collect()
}

pub fn read_report(path: &Path) -> Result<(Option<Vec<String>>, Vec<Row>), String> {
    let mut r = csv::ReaderBuilder::new().has_headers(false).flexible(true).from_path(path).map_err(|e| format!("no report: {}", e))?;
    let mut recs: Vec<Vec<String>> = vec![];
    for x in r.records() { recs.push(x.map_err(|e| format!("unreadable report: {}", e))?.iter().map(|s| s.to_string()).collect()); }
    if recs.is_empty() { return Ok((None, vec![])); }
    let header = recs.remove(0);
    let rows = recs.into_iter().map(|r| {
        if r.len() != 4 { return Err(format!("row with {} fields: {:?}", r.len(), r)); }
        let bad = |_| format!("unreadable row {:?}", r);
        Ok((r[0].clone(), r[1].parse().map_err(|e: std::num::ParseIntError| bad(e.to_string()))?,
            r[2].parse().map_err(|e: std::num::ParseFloatError| bad(e.to_string()))?, r[3].parse().map_err(|e: std::num::ParseFloatError| bad(e.to_string()))?))
    }).collect::<Result<Vec<Row>, String>>()?;
    Ok((Some(header), rows))
}

pub fn check_report(path: &Path, want: &[Row]) -> Result<(), String> {
    let (header, mut got) = read_report(path)?;
    match header {
        None => if !want.is_empty() { return Err(format!("empty report, expected {} rows", want.len())) },
        Some(h) => if h != ["name", "compressed_size", "compression_ratio", "error"] { return Err(format!("the report starts with {:?}", h)); },
    }
    for w in want {
        match got.iter().position(|g| g.0 == w.0 && g.1 == w.1 && close(g.2, w.2) && close(g.3, w.3)) {
            Some(i) => { got.swap_remove(i); }
            None => return Err(format!("no row {:?}; other rows: {:?}", w, got)),
        }
    }
    if !got.is_empty() { return Err(format!("unexpected rows {:?}", got)); }
    Ok(())
}

/// PNGs of the decoded images: present exactly for those that differ
#[allow(dead_code)]
pub fn check_saved(items: &[Item], list: &[usize]) -> Result<(), String> {
    for &k in list {
        let it = &items[k];
        let mut p = Path::new("output").join(it.path.file_name().unwrap());
        p.set_extension("png");
        let readable = !matches!(it.beh, Beh::Missing | Beh::Corrupt | Beh::Truncated);
        let d = if readable { decoded(&it.img, it.beh) } else { None };
        let differs = d.as_ref().map_or(false, |d| d.dimensions() == it.img.dimensions() && rgb(d) != rgb(&it.img));
        if differs {
            let s = image::open(&p).map_err(|e| format!("the decoded image that differs was not saved as {}: {}", p.display(), e))?;
            let d = d.unwrap();
            if s.dimensions() != d.dimensions() || rgb(&s) != rgb(&d) { return Err(format!("{} is not the decoded image", p.display())); }
        } else if d.as_ref().map_or(true, |d| d.dimensions() == it.img.dimensions()) && p.exists() {
            return Err(format!("{} was saved without need", p.display()));
        }
    }
    Ok(())
}
