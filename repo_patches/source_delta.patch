From 906bee71ba90b9367894528f4104f6c50d043ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:13 +0000
Subject: [PATCH 01/27] verif hook: expose modules under cfg(cniic_verif)

---
 src/main.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 8f4eecf..ce0969d 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -94,3 +94,20 @@ fn under_output<P: AsRef<Path>>(p: &P, new_extension: &str) -> PathBuf {
     path.set_extension(new_extension);
     return path;
 }
+
+/// Surface used by an external verification harness, which compiles this file as a library.
+/// Absent from ordinary builds.
+#[cfg(cniic_verif)]
+pub mod verif {
+    pub mod bench   { pub use crate::bench::*; }
+    pub mod bit     { pub use crate::bit::*; }
+    pub mod codec   { pub use crate::codec::*; }
+    pub mod geom    { pub use crate::geom::*; }
+    pub mod hilbert { pub use crate::hilbert::*; }
+    pub mod huf     { pub use crate::huf::*; }
+    pub mod kmeans  { pub use crate::kmeans::*; }
+    pub mod prs     { pub use crate::prs::*; }
+    pub mod ser     { pub use crate::ser::*; }
+    pub mod utils   { pub use crate::utils::*; }
+    pub mod zip     { pub use crate::zip::*; }
+}
-- 
2.43.0


From ff56ddcf26f30d770dccbf4e4b687eeedf28ce9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:06 +0000
Subject: [PATCH 02/27] fix: zip-back: never emit a symbol longer than its
 length field can hold

Explicit runs double without bound and look-back matches extend up to the
window size, but a symbol only has 15 bits of length: incompressible data or a
uniform image made the encoder panic.
---
 src/zip/back.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/zip/back.rs b/src/zip/back.rs
index 3b3150c..799376d 100644
--- a/src/zip/back.rs
+++ b/src/zip/back.rs
@@ -33,6 +33,10 @@ struct LookBack {
 type Len = u16;
 type Back = u16;
 
+/// The greatest length that a single [Symbol] can represent:
+/// the most significant bit of [Len] is used to discriminate the symbols
+const MAX_SYMBOL_LEN: usize = (Len::MAX >> 1) as usize;
+
 impl Symbol {
     const ENUM_CODE_EXPLICIT: u8 = 0;
     const ENUM_CODE_LOOKBACK: u8 = 1;
@@ -42,7 +46,7 @@ impl Symbol {
     }
 
     fn compress_len(len: usize, enum_decider: u8) -> Len {
-        assert!(len <= (Len::MAX >> 1) as usize);
+        assert!(len <= MAX_SYMBOL_LEN);
 
         let mask: Len = Self::mask(enum_decider);
         (len as Len) | mask
@@ -165,8 +169,10 @@ impl<I: Iterator<Item = u8>> Encoder<I> {
             // Restore the input
             encoder.input.restore();
 
-            // We always try to double the current explicit size
-            let try_to_get = max(curr_explicit.len(), 2);
+            // We always try to double the current explicit size,
+            // as long as it can still be represented
+            let try_to_get = max(curr_explicit.len(), 2)
+                                .min(MAX_SYMBOL_LEN - curr_explicit.len());
             let mut new_bytes: Vec<u8> =
                 (&mut encoder.input)
                         .take(try_to_get)
@@ -201,8 +207,8 @@ impl<I: Iterator<Item = u8>> Encoder<I> {
                 _ => {
                     // Either no repetition or the repetition is too short
                     // Extend the current explicit
-                    let must_return = extend_explicit(self, &mut curr_explicit);
-                    if must_return {
+                    let input_depleted = extend_explicit(self, &mut curr_explicit);
+                    if input_depleted || curr_explicit.len() == MAX_SYMBOL_LEN {
                         push_explicit(curr_explicit, channel);
                         return;
                     }
@@ -265,6 +271,7 @@ impl<I: Iterator<Item = u8>> Encoder<I> {
             let input_iter = self.rep_buf.iter().cloned();
             let rep_len =
                 input_iter.zip(subseq)
+                    .take(MAX_SYMBOL_LEN)
                     .take_while(|(a, b)| a == b)
                     .count();
 
-- 
2.43.0


From baded17de0e04086aeae458a74315cf53e94082f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:00 +0000
Subject: [PATCH 03/27] fix: voronoi: compute coordinate differences without
 unsigned underflow

Both the clustering and the decoder subtracted unsigned coordinates, which
panics in debug builds as soon as the other point is further right or down.
---
 src/codec/clusterc.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/codec/clusterc.rs b/src/codec/clusterc.rs
index 23aa5fd..6b14fef 100644
--- a/src/codec/clusterc.rs
+++ b/src/codec/clusterc.rs
@@ -180,7 +180,7 @@ impl Codec for VoronoiCluster {
         for (x, y, px) in img.enumerate_pixels_mut() {
             // Find the closest centroid
             let closest_centroid = centroids.iter()
-                                        .min_by_key(|c| (c.x - x).pow(2) + (c.y - y).pow(2))
+                                        .min_by_key(|c| (c.x.abs_diff(x) as u64).pow(2) + (c.y.abs_diff(y) as u64).pow(2))
                                         .unwrap();
             *px = closest_centroid.color.clone();
         }
@@ -205,8 +205,8 @@ struct ColorPos {
 
 impl Distance for ColorPos {
     fn dist(&self, other: &Self) -> f64 {
-        let mut d = (self.x - other.x).pow(2) as f64;
-        d += (self.y - other.y).pow(2) as f64;
+        let mut d = (self.x.abs_diff(other.x) as f64).powi(2);
+        d += (self.y.abs_diff(other.y) as f64).powi(2);
         d += self.color.dist(&other.color).powi(2);
         (d as f64).sqrt()
     }
-- 
2.43.0


From d8cdf752bec06e1e245311bc45e14ecb40f4816b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:00 +0000
Subject: [PATCH 04/27] fix: k-means: accept fewer points than requested
 clusters

cluster-colors(n) and voronoi(n) panicked on any image with fewer than n
colors (resp. pixels).
---
 src/codec/clusterc.rs | 8 ++++++--
 src/kmeans.rs         | 3 +++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/codec/clusterc.rs b/src/codec/clusterc.rs
index 6b14fef..6459441 100644
--- a/src/codec/clusterc.rs
+++ b/src/codec/clusterc.rs
@@ -158,8 +158,12 @@ impl Codec for VoronoiCluster {
         h.serialize(writer)?;
 
         // Write the centroids
-        self.0.serialize(writer)?;
-        for (centroid, _points) in clusters.into_iter() {
+        // Note: there may be fewer of them than requested
+        let centroids: Vec<ColorPos> = clusters.into_iter()
+                                            .map(|(centroid, _points)| centroid)
+                                            .collect();
+        centroids.len().serialize(writer)?;
+        for centroid in centroids {
             centroid.serialize(writer)?;
         }
         Ok(())
diff --git a/src/kmeans.rs b/src/kmeans.rs
index 10769ba..157d819 100644
--- a/src/kmeans.rs
+++ b/src/kmeans.rs
@@ -19,6 +19,9 @@ pub struct Clusters<T> {
 /*********************/
 
 pub fn cluster<T: Point>(points: Vec<T>, nclusters: usize) -> Clusters<T> {
+    // There can't be more (non-empty) clusters than points
+    let nclusters = min(nclusters, points.len());
+
     let mut clusters = init(points, nclusters);
     let mut changed_assignment = true;
 
-- 
2.43.0


From 26044b940ff11a1f1f72db207fd0f5b0fe16b0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:00 +0000
Subject: [PATCH 05/27] fix: reject a request for zero clusters

cluster-colors(0) and voronoi(0) were accepted and divided by zero on the
first image.
---
 src/codec/clusterc.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/codec/clusterc.rs b/src/codec/clusterc.rs
index 6459441..1e8347a 100644
--- a/src/codec/clusterc.rs
+++ b/src/codec/clusterc.rs
@@ -136,6 +136,10 @@ impl FromStr for ClusterColors {
         let ncolors = usize::from_str(digits_str.as_str())
                             .map_err(|e| format!("{:?}", e))?;
 
+        if ncolors == 0 {
+            return Err("Expected at least one cluster".into());
+        }
+
         Ok(ClusterColors(ncolors))
     }
 }
@@ -296,6 +300,10 @@ impl FromStr for VoronoiCluster {
         let ncolors = usize::from_str(digits_str.as_str())
                             .map_err(|e| format!("{:?}", e))?;
 
+        if ncolors == 0 {
+            return Err("Expected at least one cluster".into());
+        }
+
         Ok(VoronoiCluster(ncolors))
     }
 }
-- 
2.43.0


From 1f000772dc2262fa89ce69258e29e5933f76397a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:00 +0000
Subject: [PATCH 06/27] fix: match the whole argument of the clustering codecs

The expressions were not anchored: 'zip(ccol(5))' or 'voronoi(3)xyz' silently
selected a clustering codec.
---
 src/codec/clusterc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codec/clusterc.rs b/src/codec/clusterc.rs
index 1e8347a..41bf097 100644
--- a/src/codec/clusterc.rs
+++ b/src/codec/clusterc.rs
@@ -122,7 +122,7 @@ impl FromStr for ClusterColors {
          *   cluster-colors(x)
          * and all the in-between
          */
-        let regexp = Regex::new(r"c(?:luster)?-?col(?:ors)?\((\d+)\)").unwrap();
+        let regexp = Regex::new(r"^c(?:luster)?-?col(?:ors)?\((\d+)\)$").unwrap();
         let matches = regexp.captures(s)
                             .ok_or(String::from("Regex doesn't match"))?;
 
@@ -286,7 +286,7 @@ impl FromStr for VoronoiCluster {
         /* Allow:
          *   voronoi(x)
          */
-        let regexp = Regex::new(r"voronoi\((\d+)\)").unwrap();
+        let regexp = Regex::new(r"^voronoi\((\d+)\)$").unwrap();
         let matches = regexp.captures(s)
                             .ok_or(String::from("Regex doesn't match"))?;
 
-- 
2.43.0


From 4a70ad0fe59d809df057c9b947a8cb0d23d4a96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:28 +0000
Subject: [PATCH 07/27] fix: argument parser: use byte offsets when slicing

The parser counted characters but sliced by bytes: any codec argument with a
non-ASCII character was mis-split or panicked.
---
 src/prs.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/prs.rs b/src/prs.rs
index 4b17a53..e070476 100644
--- a/src/prs.rs
+++ b/src/prs.rs
@@ -27,8 +27,7 @@ pub fn fun_call(input: &str) -> Option<(&str, Vec<&str>)> {
     let mut paren_stack: u16 = 0;
     let mut last_pos: usize = 0;
 
-    for (new_pos, c) in input.chars()
-                                .enumerate()
+    for (new_pos, c) in input.char_indices()
                                 .filter(|(_, c)|
                                     *c == '(' || *c == ')' || *c == ',')
     {
-- 
2.43.0


From 76183ab2e8628d2b5e00c71bdc166d501afc1c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:28 +0000
Subject: [PATCH 08/27] fix: argument parser: don't overflow on deeply nested
 parentheses

---
 src/prs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/prs.rs b/src/prs.rs
index e070476..41d51b6 100644
--- a/src/prs.rs
+++ b/src/prs.rs
@@ -24,7 +24,7 @@ pub fn matches_fully<'a>(input: &'a str, regex: &str) -> Option<&'a str> {
 pub fn fun_call(input: &str) -> Option<(&str, Vec<&str>)> {
     let mut fun_name = None;
     let mut params = Vec::new();
-    let mut paren_stack: u16 = 0;
+    let mut paren_stack: usize = 0;
     let mut last_pos: usize = 0;
 
     for (new_pos, c) in input.char_indices()
-- 
2.43.0


From 4465f50039d2b977c8a12d6d15b2dba3c5e1dc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:28 +0000
Subject: [PATCH 09/27] fix: matches_fully: anchor every alternative of the
 expression

'^a|b$' matches any input that starts with 'a'.
---
 src/prs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/prs.rs b/src/prs.rs
index 41d51b6..db8afeb 100644
--- a/src/prs.rs
+++ b/src/prs.rs
@@ -6,7 +6,7 @@ pub fn expect_name<'a>(input: &'a str, name_regex: &str) -> Result<&'a str, Pars
 }
 
 pub fn matches_fully<'a>(input: &'a str, regex: &str) -> Option<&'a str> {
-    let full_string_regex = format!("^{}$", regex);
+    let full_string_regex = format!("^(?:{})$", regex);
     let regexp = Regex::new(&full_string_regex).unwrap();
     let matches = regexp.captures(input)?;
 
-- 
2.43.0


From a8abe013d6ded0d3d940cb7caf223f188c0905d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:28 +0000
Subject: [PATCH 10/27] fix: hilbert(rle()): report the missing argument
 instead of panicking

---
 src/codec/hilbertc.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/codec/hilbertc.rs b/src/codec/hilbertc.rs
index 4c59b78..e552e7a 100644
--- a/src/codec/hilbertc.rs
+++ b/src/codec/hilbertc.rs
@@ -368,10 +368,9 @@ impl FromStr for CompressionMethod {
 
                     let _ = prs::matches_fully(rle, "rle")
                                 .ok_or_else(|| ParseError::WrongName { expected: String::from("rle"), found: String::from(rle) })?;
-                    if rle_args.len() > 1 {
+                    if rle_args.len() != 1 {
                         return Err(ParseError::WrongNumberOfArguments { expected: 1, found: rle_args.len() });
                     }
-                    assert_ne!(rle_args.len(), 0);
 
                     f64::from_str(rle_args.first().unwrap())
                         .map_err(|e| format!("{:?}", e))?
-- 
2.43.0


From 9719673aa5cd506f3cad1eba920fc868ca99723a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:28 +0000
Subject: [PATCH 11/27] fix: hufman: return write errors instead of panicking

---
 src/huf.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/huf.rs b/src/huf.rs
index e02d083..4486675 100644
--- a/src/huf.rs
+++ b/src/huf.rs
@@ -36,7 +36,8 @@ pub fn encode_all<I, T, W, F>(new_iter: F, writer: &mut W) -> io::Result<()>
     // 3. Write the payload
     let mut bit_writer = IoBitWriter::new(writer, BIT_ORDER);
     for symbol in new_iter() {
-        enc.encode(&symbol, &mut bit_writer).unwrap();
+        enc.encode(&symbol, &mut bit_writer)
+            .ok_or_else(|| io::Error::new(io::ErrorKind::Other, "Failed to encode a symbol"))?;
     }
     bit_writer.pad_and_flush()?;
     Ok(())
-- 
2.43.0


From bf89e2b3b73776a240f6b093fd3859ef78db4656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:28 +0000
Subject: [PATCH 12/27] fix: decoders: report a truncated stream as a failure

The zip and hilbert decoders panicked on a truncated stream or, worse, returned
an image padded with black pixels. They now return None, like hufman does.
---
 src/codec/hilbertc.rs | 26 ++++++++++++++------------
 src/zip/back.rs       |  5 ++++-
 src/zip/dict.rs       |  2 +-
 3 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/codec/hilbertc.rs b/src/codec/hilbertc.rs
index e552e7a..93018fd 100644
--- a/src/codec/hilbertc.rs
+++ b/src/codec/hilbertc.rs
@@ -53,13 +53,13 @@ impl Codec for Hilbert {
     }
 
     fn decode<I: Iterator<Item = u8>>(&self, reader: &mut I) -> Option<super::Img> {
-        fn decode_any<I: Iterator<Item = Rgb<u8>>>(dimensions: (u32, u32), iter: I) -> Option<super::Img> {
+        fn decode_any<I: Iterator<Item = Rgb<u8>>>(dimensions: (u32, u32), mut iter: I) -> Option<super::Img> {
             let mut img_buffer = ImageBuffer::new(dimensions.0, dimensions.1);
 
-            hilbert::iter(dimensions.0 as usize, dimensions.1 as usize)
-                .zip(iter)
-                .for_each(|((x, y), color)|
-                    *img_buffer.get_pixel_mut(x as u32, y as u32) = color);
+            for (x, y) in hilbert::iter(dimensions.0 as usize, dimensions.1 as usize) {
+                // Missing colors mean that the stream is truncated
+                *img_buffer.get_pixel_mut(x as u32, y as u32) = iter.next()?;
+            }
 
             Some(img_buffer.into())
         }
@@ -322,9 +322,10 @@ impl<I: Iterator<Item = u8>> Iterator for RleDecoder<I> {
 
     fn next(&mut self) -> Option<Self::Item> {
         if self.count == 0 {
-            self.count = RepCount::deserialize(&mut self.bytes)?;
-            assert!(self.count > 0);
-            self.curr_color = <Rgb<u8>>::deserialize(&mut self.bytes).unwrap();
+            let count = RepCount::deserialize(&mut self.bytes)?;
+            assert!(count > 0);
+            self.curr_color = <Rgb<u8>>::deserialize(&mut self.bytes)?;
+            self.count = count;
         }
 
         self.count -= 1;
@@ -418,12 +419,13 @@ impl Codec for Delta {
 
         let hilbert = hilbert::iter(dimensions.0 as usize, dimensions.1 as usize);
 
-        let diff_stream = huf::decode_all(reader).unwrap();
-        let color_stream = FromDiff::new(diff_stream);
+        let diff_stream = huf::decode_all(reader)?;
+        let mut color_stream = FromDiff::new(diff_stream);
 
         // Follow the Hilbert traversal to reconstruct the image
-        for ((x, y), color) in hilbert.zip(color_stream) {
-            *img_buffer.get_pixel_mut(x as u32, y as u32) = color;
+        for (x, y) in hilbert {
+            // Missing colors mean that the stream is truncated
+            *img_buffer.get_pixel_mut(x as u32, y as u32) = color_stream.next()?;
         }
 
         Some(img_buffer.into())
diff --git a/src/zip/back.rs b/src/zip/back.rs
index 799376d..fcb3c46 100644
--- a/src/zip/back.rs
+++ b/src/zip/back.rs
@@ -98,7 +98,10 @@ impl Deserialize for Symbol {
         match enum_decider {
             Self::ENUM_CODE_EXPLICIT => {
                 let data: Vec<u8> = stream.take(len).collect();
-                assert!(data.len() == len);
+                if data.len() != len {
+                    // The stream is truncated
+                    return None;
+                }
                 Some(Symbol::Explicit(data))
             }
             Self::ENUM_CODE_LOOKBACK => {
diff --git a/src/zip/dict.rs b/src/zip/dict.rs
index 5a184a6..732ba04 100644
--- a/src/zip/dict.rs
+++ b/src/zip/dict.rs
@@ -190,7 +190,7 @@ impl<I: Iterator<Item=u8>> Iterator for DictDecoder<I> {
             None => {
                 // Figure out the next sequence (if any)
                 let symbol1 = self.next_symbol()?;
-                let symbol2 = self.next_symbol().unwrap();
+                let symbol2 = self.next_symbol()?;
 
                 let seq1 = self.decode(symbol1);
                 let seq2 = self.decode(symbol2);
-- 
2.43.0


From 8605947eae9081b4a37e9154f44a5042dae6dbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:53 +0000
Subject: [PATCH 13/27] fix: bench: reject a decoded image with the wrong
 dimensions

Only the overlapping pixels were compared, so a truncated image could be
reported as a perfect lossless reconstruction.
---
 src/bench.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bench.rs b/src/bench.rs
index d8d398d..ea50a3f 100644
--- a/src/bench.rs
+++ b/src/bench.rs
@@ -45,6 +45,10 @@ pub fn measure_all<I, P, T>(codec: &T, paths: I) -> io::Result<()>
             let decoded = codec.decode(&mut data.into_iter())
                                 .ok_or_else(|| format!("Could not decode the image ({:?})", p))?;
 
+            if decoded.dimensions() != img.dimensions() {
+                return Err(format!("Decoded image has the wrong dimensions ({:?})", p));
+            }
+
             let error = compute_error(&img, &decoded);
 
             if error != 0.0 {
-- 
2.43.0


From 409cbf16d83894f2d6e41847d6e5c4539a0f58e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:53 +0000
Subject: [PATCH 14/27] fix: bench: count the raw size in bytes

The compressed size is in bytes but the raw size was 24 per pixel, i.e. in bits
(and overflowed u32 for large images): every compression ratio was 8 times too
small.
---
 scripts/png.py | 2 +-
 src/bench.rs   | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/png.py b/scripts/png.py
index 7589317..c43e798 100644
--- a/scripts/png.py
+++ b/scripts/png.py
@@ -15,7 +15,7 @@ with open(output_path, 'w') as csv_file:
 
         png_img = Image.open(png_path)
         (w, h) = png_img.size
-        raw_size = w * h * 24   # see the comments in bench.rs
+        raw_size = w * h * 3   # see the comments in bench.rs
         compression_ratio = png_size / raw_size
 
         csv_w.writerow([png_path, png_size, compression_ratio * 100])
diff --git a/src/bench.rs b/src/bench.rs
index ea50a3f..0704162 100644
--- a/src/bench.rs
+++ b/src/bench.rs
@@ -38,8 +38,8 @@ pub fn measure_all<I, P, T>(codec: &T, paths: I) -> io::Result<()>
             println!("bench: Compressed size = {}", ByteSize::b(compressed_size as u64));
 
             let (h, w) = img.dimensions();
-            let raw_size = h * w * 24; // we're counting on 3 bytes RGB pixels
-            println!("bench: Raw size = {}", ByteSize::b(raw_size as u64));
+            let raw_size = (h as u64) * (w as u64) * 3; // we're counting on 3 bytes RGB pixels
+            println!("bench: Raw size = {}", ByteSize::b(raw_size));
             let compression_ratio = (compressed_size as f64) / (raw_size as f64);
 
             let decoded = codec.decode(&mut data.into_iter())
@@ -104,7 +104,7 @@ fn compute_error(x: &Img, y: &Img) -> f64 {
                             .map(|(px, py)| px.dist(&py).powi(2))
                             .sum();
     let (w, h) = x.dimensions();
-    return tot_error / ((w * h) as f64);
+    return tot_error / ((w as u64 * h as u64) as f64);
 }
 
 fn print_err<T, E: Debug>(r: Result<T, E>) {
-- 
2.43.0


From e3b4d81d755af906b6f8adb69b5879a40b98fbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:53 +0000
Subject: [PATCH 15/27] fix: hilbert CSV: name the columns in the order they
 are written

The records are in RGB order; the header swapped green and blue.
---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index ce0969d..235f4c1 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -35,7 +35,7 @@ fn try_special() -> Result<(), Err> {
                         let file_suffix = format!("{}.hilbert.csv", meth_name);
                         let output_path = under_output(&img_path, &file_suffix);
                         let mut csv = csv::Writer::from_path(&output_path).unwrap();
-                        csv.write_record(&["red", "blue", "green"]).unwrap();
+                        csv.write_record(&["red", "green", "blue"]).unwrap();
 
                         iter.for_each(|px| csv.serialize(px.to_rgb().0).unwrap());
                     }
-- 
2.43.0


From df207fdefc6f6ced47b05218b005cf4b976456ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:53 +0000
Subject: [PATCH 16/27] fix: hilbert: the inscribed square of a power-of-two
 image is not halved

linearize_small used a square of half the side (and nothing at all for a
one-pixel side) when a dimension was a power of two.
---
 src/hilbert.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/hilbert.rs b/src/hilbert.rs
index fd15f21..769f1c8 100644
--- a/src/hilbert.rs
+++ b/src/hilbert.rs
@@ -15,12 +15,18 @@ pub fn linearize_rect<T: GenericImageView>(img: &T) -> impl Iterator<Item = T::P
 pub fn linearize_small<T: GenericImageView>(img: &T) -> impl Iterator<Item = T::Pixel> + '_ {
     let (xdim, ydim) = img.dimensions();
 
-    let square_order = min(xdim.next_power_of_two() >> 1, ydim.next_power_of_two() >> 1) as usize;
+    let square_order = min(prev_power_of_two(xdim), prev_power_of_two(ydim)) as usize;
 
     iter(square_order, square_order)
         .map(|(x, y)| img.get(x, y))
 }
 
+/// The greatest power of two that is not greater than n
+fn prev_power_of_two(n: u32) -> u32 {
+    // Careful: if n is already a power of two, it is its own next power of two
+    if n.is_power_of_two() { n } else { n.next_power_of_two() >> 1 }
+}
+
 /// Linearize a picture using the smallest square that contains it.
 pub fn linearize_large<T: GenericImageView>(img: &T) -> impl Iterator<Item = T::Pixel> + '_ {
     let (xorig, yorig) = img.dimensions();
-- 
2.43.0


From 6b1998b18df58d8fda0c66ceb9cc5fce05ca4859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:05 +0000
Subject: [PATCH 17/27] fix: bit writer: pad LSB-first streams on the right
 side

---
 src/bit.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bit.rs b/src/bit.rs
index 3458481..7e5cdf6 100644
--- a/src/bit.rs
+++ b/src/bit.rs
@@ -243,7 +243,11 @@ impl<W: io::Write> WriteBit for IoBitWriter<W> {
     fn pad_and_flush(&mut self) -> io::Result<()> {
         if self.bit_count != 0 {
             // Pad the remains with 0s
-            self.curr_bits <<= (8 - self.bit_count);
+            let pad_len = 8 - self.bit_count;
+            match self.bit_order {
+                BitOrder::MsbFirst => self.curr_bits <<= pad_len,
+                BitOrder::LsbFirst => self.curr_bits >>= pad_len,
+            }
             self.writer.write_all(&[self.curr_bits])?;
 
             self.curr_bits = 0;
-- 
2.43.0


From c9193d42f44ed9778d19cfa11c3d36a387cbc36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:05 +0000
Subject: [PATCH 18/27] fix: usage: list the codecs that actually exist

'reduce-colors' is not recognised by the parser.
---
 src/main.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 235f4c1..4a1eccb 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -85,7 +85,14 @@ fn usage() -> String {
     String::from("Usage: cniic --codec=<codec> [<img file>..]
 Available codecs:
   hufman
-  reduce-colors(<ncolors>)")
+  cluster-colors(<ncolors>)
+  voronoi(<ncentroids>)
+  delta
+  hilbert(rle)
+  hilbert(rle(<distance>))
+  hilbert(zip)
+  zip(dict)
+  zip(back)")
 }
 
 fn under_output<P: AsRef<Path>>(p: &P, new_extension: &str) -> PathBuf {
-- 
2.43.0


From 68b0af6e3d84977bced3b2b73e16ed6eea3f4dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:37 +0000
Subject: [PATCH 19/27] fix: k-means: don't stop after the pass that used the
 arbitrary initial centroids

---
 src/kmeans.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kmeans.rs b/src/kmeans.rs
index 157d819..6234bcb 100644
--- a/src/kmeans.rs
+++ b/src/kmeans.rs
@@ -27,7 +27,9 @@ pub fn cluster<T: Point>(points: Vec<T>, nclusters: usize) -> Clusters<T> {
 
     let mut i = 0;
     while changed_assignment {
-        changed_assignment = assign_points(&mut clusters);
+        // The first pass compares against arbitrary initial centroids, not against
+        // the means of the clusters: it can't tell whether we have converged
+        changed_assignment = assign_points(&mut clusters) || i == 0;
         // WARNING: always compute the centroids: the caller can use them
         update_centroids(&mut clusters);
         update_neighbours(&mut clusters);
-- 
2.43.0


From 6a698e3a49ccb721f3b35879325c32033dc11b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:26 +0000
Subject: [PATCH 20/27] verif hook: small dictionary and lookback bounds under
 cfg(cniic_verif_small)

---
 src/zip/back.rs | 8 ++++++++
 src/zip/dict.rs | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/zip/back.rs b/src/zip/back.rs
index fcb3c46..20cc964 100644
--- a/src/zip/back.rs
+++ b/src/zip/back.rs
@@ -35,7 +35,11 @@ type Back = u16;
 
 /// The greatest length that a single [Symbol] can represent:
 /// the most significant bit of [Len] is used to discriminate the symbols
+#[cfg(not(cniic_verif_small))]
 const MAX_SYMBOL_LEN: usize = (Len::MAX >> 1) as usize;
+/// Verification only: small enough for exhaustive exploration
+#[cfg(cniic_verif_small)]
+const MAX_SYMBOL_LEN: usize = 7;
 
 impl Symbol {
     const ENUM_CODE_EXPLICIT: u8 = 0;
@@ -298,7 +302,11 @@ impl<I: Iterator<Item = u8>> Encoder<I> {
 
 // Note: this is not a power of two
 // However, it does ensure that our 'back' values always fit in u16
+#[cfg(not(cniic_verif_small))]
 const MAX_RING_BUFFER_SIZE: usize = Back::MAX as usize;
+/// Verification only: small enough for exhaustive exploration
+#[cfg(cniic_verif_small)]
+const MAX_RING_BUFFER_SIZE: usize = 9;
 type PlainHistory = RingBuffer<u8, MAX_RING_BUFFER_SIZE>;
 
 struct IndexedHistory {
diff --git a/src/zip/dict.rs b/src/zip/dict.rs
index 732ba04..9f1d06b 100644
--- a/src/zip/dict.rs
+++ b/src/zip/dict.rs
@@ -3,7 +3,11 @@ use bytesize::ByteSize;
 
 use crate::{ser::{Deserialize, Serialize}, utils::default_array};
 
+#[cfg(not(cniic_verif_small))]
 const ZIP_SPECIAL_EOF: Symbol = Symbol::MAX;
+/// Verification only: small enough for exhaustive exploration
+#[cfg(cniic_verif_small)]
+const ZIP_SPECIAL_EOF: Symbol = 0x0104;
 
 pub fn zip_dict_encode<I: Iterator<Item=u8>, W: io::Write>(bytes: I, output: &mut W) -> io::Result<()> {
     let mut zip = DictEncoder::new(bytes);
@@ -499,7 +503,11 @@ impl<T> Content<T> {
     }
 
     // When is a Partial node big enough to be converted to Full
+    #[cfg(not(cniic_verif_small))]
     const THRESHOLD: usize = 64;
+    /// Verification only: small enough for exhaustive exploration
+    #[cfg(cniic_verif_small)]
+    const THRESHOLD: usize = 2;
 
     fn upsert(&mut self, byte: u8, new_value: T) -> Option<T> {
         match self {
-- 
2.43.0


From 5498f068fa81041a3548b559ea733085f0886462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:56 +0000
Subject: [PATCH 21/27] fix: k-means: don't abort when some clusters end up
 empty

---
 src/kmeans.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/kmeans.rs b/src/kmeans.rs
index 6234bcb..39b0e71 100644
--- a/src/kmeans.rs
+++ b/src/kmeans.rs
@@ -56,9 +56,12 @@ fn check_enough_active_clusters<T>(clusters: &Clusters<T>, requested_nclusters:
                                     .filter(|v| v.len() > 0)
                                     .count();
 
-    assert!(active_cluster_count >= min_cluster_count,
-        "Not enough active clusters\nRequested {}, got {} (min allowed: {})",
-        requested_nclusters, active_cluster_count, min_cluster_count);
+    // The result is still usable, and this can happen with a perfectly valid input:
+    // don't abort
+    if active_cluster_count < min_cluster_count {
+        eprintln!("Not enough active clusters\nRequested {}, got {} (min expected: {})",
+            requested_nclusters, active_cluster_count, min_cluster_count);
+    }
 }
 
 type Assignment<T> = Vec<Vec<T>>;
-- 
2.43.0


From c5a280c3c274a30d127662ae82621ec3454be730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:27 +0000
Subject: [PATCH 22/27] fix: k-means must end even if rounded means make the
 assignments cycle

---
 src/kmeans.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/kmeans.rs b/src/kmeans.rs
index 39b0e71..333a7c2 100644
--- a/src/kmeans.rs
+++ b/src/kmeans.rs
@@ -18,6 +18,11 @@ pub struct Clusters<T> {
 /* K-Means algorithm */
 /*********************/
 
+// Points whose means are rounded can make the assignments cycle endlessly:
+// give up after this many consecutive iterations without a smaller total error.
+// (If the means are exact, every iteration but the last one reduces that error)
+const MAX_STALLED_ITERATIONS: usize = 100;
+
 pub fn cluster<T: Point>(points: Vec<T>, nclusters: usize) -> Clusters<T> {
     // There can't be more (non-empty) clusters than points
     let nclusters = min(nclusters, points.len());
@@ -25,11 +30,22 @@ pub fn cluster<T: Point>(points: Vec<T>, nclusters: usize) -> Clusters<T> {
     let mut clusters = init(points, nclusters);
     let mut changed_assignment = true;
 
+    let mut best_error = f64::INFINITY;
+    let mut stalled_iterations = 0;
+
     let mut i = 0;
-    while changed_assignment {
+    while changed_assignment && stalled_iterations < MAX_STALLED_ITERATIONS {
         // The first pass compares against arbitrary initial centroids, not against
         // the means of the clusters: it can't tell whether we have converged
-        changed_assignment = assign_points(&mut clusters) || i == 0;
+        let (some_change, error) = assign_points(&mut clusters);
+        changed_assignment = some_change || i == 0;
+        if error < best_error {
+            best_error = error;
+            stalled_iterations = 0;
+        }
+        else {
+            stalled_iterations += 1;
+        }
         // WARNING: always compute the centroids: the caller can use them
         update_centroids(&mut clusters);
         update_neighbours(&mut clusters);
@@ -335,13 +351,15 @@ fn update_neighbours<T: Point>(clusters: &mut Clusters<T>) {
 /********************/
 
 // Returns true if some points changed assignment, false otherwise
-fn assign_points<T: Point>(clusters: &mut Clusters<T>) -> bool {
+// Also returns the total error (sum of the squared distances to the centroids)
+fn assign_points<T: Point>(clusters: &mut Clusters<T>) -> (bool, f64) {
     // 1. Extract all the vectors of points
     let new_assignment = (0..clusters.len()).map(|_| Vec::new()).collect();
     let old_assignment = std::mem::replace(&mut clusters.assignment, new_assignment);
 
     // 2. Move the points accordingly
     let mut some_change = false;
+    let mut total_error = 0.0;
     let mut obvious_stay_count = 0;
     let mut neighbour_cutoff_count = 0;
     let mut moved_count = 0;
@@ -396,6 +414,7 @@ fn assign_points<T: Point>(clusters: &mut Clusters<T>) -> bool {
 
         let j = closest_idx.unwrap();
         clusters.assignment[j].push(x);
+        total_error += min_dist.powi(2);
 
         if cci != j {
             some_change = true;
@@ -420,7 +439,7 @@ fn assign_points<T: Point>(clusters: &mut Clusters<T>) -> bool {
         println!("Average tested neighbours: {}", sum_tested_neighbours / tot_points);
     }
 
-    return some_change;
+    return (some_change, total_error);
 }
 
 /***************************/
-- 
2.43.0


From a9ba4d9f3bab38b341dd44028d1a899a2f409bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:44 +0000
Subject: [PATCH 23/27] fix: file names that are not valid UTF-8 made the
 program panic

---
 src/main.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 4a1eccb..d219680 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -12,7 +12,7 @@ mod zip;
 
 use codec::AnyCodec;
 use image::{Pixel, Rgba};
-use std::{path::{Path, PathBuf}, str::FromStr};
+use std::{ffi::OsString, path::{Path, PathBuf}, str::FromStr};
 
 fn main() {
     try_special()
@@ -31,7 +31,7 @@ fn try_special() -> Result<(), Err> {
         "hilbert" => {
             file_paths
                 .for_each(|img_path| {
-                    fn write_to_csv<I: Iterator<Item = Rgba<u8>>>(iter: I, img_path: &str, meth_name: &str) {
+                    fn write_to_csv<I: Iterator<Item = Rgba<u8>>>(iter: I, img_path: &OsString, meth_name: &str) {
                         let file_suffix = format!("{}.hilbert.csv", meth_name);
                         let output_path = under_output(&img_path, &file_suffix);
                         let mut csv = csv::Writer::from_path(&output_path).unwrap();
@@ -71,11 +71,13 @@ fn try_bench() -> Result<(), Err> {
 
 type Err = String;
 
-fn separate_args() -> Result<(String, impl Iterator<Item=String>), Err> {
+fn separate_args() -> Result<(String, impl Iterator<Item=OsString>), Err> {
     // Note: Bash performs '*' expansion, so we always get a list here
-    let mut args = std::env::args().skip(1);
+    // Note: file names can be anything: std::env::args() panics if they aren't valid UTF-8
+    let mut args = std::env::args_os().skip(1);
 
     let command = args.next()
+                    .and_then(|arg| arg.into_string().ok())
                     .ok_or_else(usage)?;
 
     Ok((command, args))
-- 
2.43.0


From 1b42a80f5702d31ded8cddae4d0ecbd78c6538f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:41 +0000
Subject: [PATCH 24/27] fix: errors when writing the Hilbert CSV files were
 lost

---
 src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index d219680..58a7b51 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -38,6 +38,8 @@ fn try_special() -> Result<(), Err> {
                         csv.write_record(&["red", "green", "blue"]).unwrap();
 
                         iter.for_each(|px| csv.serialize(px.to_rgb().0).unwrap());
+                        // Errors are lost if this is left to drop()
+                        csv.flush().unwrap();
                     }
 
                     let img = image::open(&img_path).unwrap();
-- 
2.43.0


From 6e6106d725064f3b63b697963b5cdaba0f4dadca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:11 +0000
Subject: [PATCH 25/27] fix: a decoded image that could not be saved completely
 went unnoticed

---
 src/bench.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/bench.rs b/src/bench.rs
index 0704162..a9c251d 100644
--- a/src/bench.rs
+++ b/src/bench.rs
@@ -1,8 +1,9 @@
 use std::fs;
 use std::io;
 use std::fmt::Debug;
-use std::path::PathBuf;
-use image::GenericImageView;
+use std::io::Write;
+use std::path::{Path, PathBuf};
+use image::{GenericImageView, ImageFormat, ImageResult};
 use bytesize::ByteSize;
 use rayon::prelude::*;
 use std::sync::RwLock;
@@ -54,7 +55,7 @@ pub fn measure_all<I, P, T>(codec: &T, paths: I) -> io::Result<()>
             if error != 0.0 {
                 // Write the incorrect image to file
                 let path = crate::under_output(&p, "png");
-                decoded.save(&path)
+                save_png(&decoded, &path)
                         .map_err(|e| format!("{:?}", e))?;
                 eprintln!("Saved to {}", path.display());
 
@@ -86,6 +87,14 @@ pub fn measure_all<I, P, T>(codec: &T, paths: I) -> io::Result<()>
     Ok(())
 }
 
+// Note: [Img::save] doesn't report errors in writing the end of the file
+fn save_png(img: &Img, path: &Path) -> ImageResult<()> {
+    let mut file = io::BufWriter::new(fs::File::create(path)?);
+    img.write_to(&mut file, ImageFormat::Png)?;
+    file.flush()?;
+    Ok(())
+}
+
 fn csv_writer<T: Codec>(codec: &T) -> Result<csv::Writer<fs::File>, csv::Error> {
     let mut csv_filename = String::from("output/");
     csv_filename.push_str(&codec.name());
-- 
2.43.0


From 1b74802f028f5f66d71ab1b94606a0609aa9af13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:04 +0000
Subject: [PATCH 26/27] fix: k-means: weigh the points when looking for stalled
 iterations

---
 src/codec/clusterc.rs | 4 ++++
 src/kmeans.rs         | 9 +++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/codec/clusterc.rs b/src/codec/clusterc.rs
index 41bf097..eb6a89e 100644
--- a/src/codec/clusterc.rs
+++ b/src/codec/clusterc.rs
@@ -111,6 +111,10 @@ impl kmeans::Point for ColorCount {
             }
         )
     }
+
+    fn weight(&self) -> f64 {
+        self.count as f64
+    }
 }
 
 impl FromStr for ClusterColors {
diff --git a/src/kmeans.rs b/src/kmeans.rs
index 333a7c2..d9daa1f 100644
--- a/src/kmeans.rs
+++ b/src/kmeans.rs
@@ -6,6 +6,11 @@ use rand::seq::SliceRandom;
 pub trait Point: Sized + Distance {
     // This must return None if the given slice is empty
     fn mean(points: &[Self]) -> Option<Self>;
+
+    // How much this point counts in the mean
+    fn weight(&self) -> f64 {
+        1.0
+    }
 }
 
 pub struct Clusters<T> {
@@ -351,7 +356,7 @@ fn update_neighbours<T: Point>(clusters: &mut Clusters<T>) {
 /********************/
 
 // Returns true if some points changed assignment, false otherwise
-// Also returns the total error (sum of the squared distances to the centroids)
+// Also returns the total error (weighted sum of the squared distances to the centroids)
 fn assign_points<T: Point>(clusters: &mut Clusters<T>) -> (bool, f64) {
     // 1. Extract all the vectors of points
     let new_assignment = (0..clusters.len()).map(|_| Vec::new()).collect();
@@ -413,8 +418,8 @@ fn assign_points<T: Point>(clusters: &mut Clusters<T>) -> (bool, f64) {
         }
 
         let j = closest_idx.unwrap();
+        total_error += x.weight() * min_dist.powi(2);
         clusters.assignment[j].push(x);
-        total_error += min_dist.powi(2);
 
         if cci != j {
             some_change = true;
-- 
2.43.0


From c24d6f23924b68f71785e15f93ecdbf9de885afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:03 +0000
Subject: [PATCH 27/27] fix: a message that can't be printed must not abandon
 the remaining files

---
 src/main.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 58a7b51..c62e7c5 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,3 +1,27 @@
+// The standard macros panic if the message can't be printed, e.g. because the pipe was closed:
+// that's no reason to abandon the files that are left
+#[cfg(not(test))]
+macro_rules! print {
+    ($($arg:tt)*) => {{
+        use std::io::Write;
+        let _ = write!(std::io::stdout(), $($arg)*);
+    }};
+}
+#[cfg(not(test))]
+macro_rules! println {
+    ($($arg:tt)*) => {{
+        use std::io::Write;
+        let _ = writeln!(std::io::stdout(), $($arg)*);
+    }};
+}
+#[cfg(not(test))]
+macro_rules! eprintln {
+    ($($arg:tt)*) => {{
+        use std::io::Write;
+        let _ = writeln!(std::io::stderr(), $($arg)*);
+    }};
+}
+
 mod bench;
 mod bit;
 mod codec;
-- 
2.43.0

