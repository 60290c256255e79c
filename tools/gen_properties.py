import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook="cfg(cniic_verif): the crate is a binary; the guarded module re-exports its modules to the harness"):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))
prop("C01","Lossless codecs reproduce every image exactly",
 "For every codec that reports itself lossless (hufman, delta, hilbert(rle), hilbert(zip), zip(dict), zip(back)) and every non-empty image in any pixel format the program can load, decoding what the codec encoded gives an image of the same width and height in which every pixel has the red, green and blue values of the original (seen as 8-bit RGB).",
 ["inputs"],"all images (dimensions, pixel format, pixel values) x all lossless codecs",
 "The unit tests encode no image at all: they round-trip a few short byte or symbol strings through the inner coders, so dimensions, traversal order, colour-transition arithmetic, dictionary exhaustion and run-length limits on images are never reached.",
 ["src/codec.rs","src/codec/hufc.rs","src/codec/hilbertc.rs","src/codec/zipc.rs","src/huf.rs","src/zip/dict.rs","src/zip/back.rs","src/hilbert.rs"],
 [("encode/decode pair of each codec","src/codec/*.rs impl Codec"),("same Hilbert traversal on both sides","src/hilbert.rs iter / linearize_rect"),("signed differences","src/codec/hilbertc.rs DiffStream / FromDiff")],
 [dict(name="output stream",meaning="bytes passed from encode to decode",where="Codec::encode / Codec::decode")],["Codec::encode","Codec::decode"])
prop("C02","Every codec decodes its own output to an image of the same size",
 "For every codec that can be named on the command line, lossy ones included and with any accepted parameter (more clusters than colours or pixels, zero, negative, huge or non-finite distances), encoding any non-empty image succeeds and decoding the result succeeds, without panic or endless loop, and the decoded image has the width and height of the original.",
 ["inputs","configurations"],"all accepted codec arguments x all non-empty images",
 "No unit test runs a lossy codec end to end; parameters larger than the image, or thresholds at the edge of f64, are never tried.",
 ["src/codec/clusterc.rs","src/codec/hilbertc.rs","src/kmeans.rs","src/codec.rs"],
 [("clamping of the cluster count","src/kmeans.rs cluster"),("parameter parsing","src/codec/*.rs FromStr")],None,["Codec::encode","Codec::decode"])
prop("C03","The dictionary compressor is exact, greedy and follows its format",
 "For every byte string, the dictionary compressor writes pairs of 16-bit little-endian codes, each being the code of the longest known string that starts the remaining input (0..255 are the single bytes; the concatenation of the strings of each pair of codes receives the next unused code from 256, the latest code winning if the string was known, until 65535 would be reached; 65535 stands for nothing and only completes the last pair), and decompressing gives exactly the original string, also after all codes are used up.",
 ["inputs"],"all byte strings, every state of the dictionary including exhaustion",
 "Tests encode a handful of short strings; the code space is never exhausted, nodes with many children are hardly built, and the encoder is only compared with itself.",
 ["src/zip/dict.rs"],[("trie and greedy descent with push-back","DictEncoder::find_symbol"),("lock-step code allocation on both sides","Abbrev::next"),("node promotion","Content::upsert / to_full")],
 [dict(name="dictionary",meaning="byte string -> code",where="TrieMap / DictDecoder.mapping")],["zip_dict_encode","zip_dict_decode"],"cfg(cniic_verif) exposes the module; cfg(cniic_verif_small) shrinks the code space and the node promotion threshold")
prop("C04","The lookback compressor is exact, never overreaches and hardly expands",
 "For every byte string, the lookback compressor writes a sequence of non-empty literal blocks (16-bit little-endian length below 32768, then that many bytes) and copies (16-bit length with the top bit set, then 16-bit distance) where each copy is at least 6 bytes long and lies entirely within the last 65535 bytes already produced; decompressing gives exactly the original string, and the output is at most 2 bytes longer than the input per started 32767 bytes of it.",
 ["inputs"],"all byte strings, in every position of the sliding window and its index, including after it has wrapped around repeatedly",
 "Tests use short strings and a ring buffer of a few elements; the window wrap of the real encoder, its double index and the 15-bit length limit are never reached.",
 ["src/zip/back.rs"],[("ring buffer and position arithmetic","RingBuffer"),("two-generation index","Index::update"),("length cap","MAX_SYMBOL_LEN"),("buffered input with rewind","Buffered")],
 [dict(name="window",meaning="last bytes produced",where="RingBuffer"),dict(name="index",meaning="positions of every 6-byte string in the window",where="Index")],["zip_back_encode","zip_back_decode"],"cfg(cniic_verif) exposes the module; cfg(cniic_verif_small) shrinks the window and the length cap")
prop("C05","Huffman coding is lossless, prefix-free and optimal",
 "For every non-empty sequence of symbols, whatever their frequencies and however ties are broken, the Huffman encoder writes a full binary tree that holds each distinct symbol exactly once (a lone symbol being a bare leaf with an empty code) followed by the codes of the symbols in order, zero-padded to a byte; decoding yields the sequence, and the total length of the codes is the minimum any prefix code can reach for those frequencies.",
 ["inputs"],"all symbol sequences, i.e. all frequency vectors, orders and tie-breaks, code lengths from 0 to more than 32 bits",
 "Tests use one three-letter alphabet; optimality is never checked, and codes longer than a byte occur only in a hand-built table.",
 ["src/huf.rs","src/bit.rs","src/utils.rs"],[("min-heap merge","huf::build"),("code table from tree walk","BinTrieIter"),("bit packing","bit::BitArray, IoBitWriter")],None,["huf::encode_all","huf::decode_all"])
prop("C06","Bit-level I/O loses, invents and reorders no bit",
 "For either bit order, any sequence of single-bit, byte, and bit-array writes (unaligned bytes only in most-significant-first order) followed by padding produces exactly those bits in the order written, zero-filled to a whole byte, also when padding occurs in the middle of the sequence and writing goes on; reading the bytes in the same order returns the bits, and packing or indexing bits agrees with the definition of the order for every byte and position.",
 ["histories","inputs"],"all sequences of write operations, both bit orders, all bytes and positions",
 "Tests check four fixed write sequences in one bit order; alignment-dependent paths have 8 states each and combinations of them are not covered.",
 ["src/bit.rs"],[("partial byte accumulator","IoBitWriter"),("packing","BitArray::from_slice, write_arr"),("padding","pad_and_flush")],
 [dict(name="accumulator",meaning="bits not yet written",where="IoBitWriter.curr_bits/bit_count")],["WriteBit","bit_reader","BitArray"])
prop("C07","Serialised values are read back exactly and consume exactly their bytes",
 "Every serialisable value (8 to 64-bit integers, usize, Latin-1 characters, pairs, arrays, length-prefixed sequences, RGB colours) has the documented little-endian encoding, deserialises to itself from its own bytes consuming exactly those and leaving the following ones untouched, and yields a failure, not a value or a panic, from any strict prefix of them; characters above 255 are refused on writing, and streams of values are the concatenation of the encodings of the values.",
 ["inputs"],"all values of every serialisable type and all their compositions, all truncation points",
 "Tests write or read a few integers and short vectors; extreme values, nesting, consumption and truncation are not examined.",
 ["src/ser.rs"],[("fixed-width little-endian encodings","impl Serialize/Deserialize"),("length prefix","&[T] / Vec<T>"),("SerStream / deser_stream","src/ser.rs")],None,["Serialize","Deserialize","SerStream","deser_stream"])
prop("C08","The Hilbert traversals visit the pixels they promise, once each",
 "For every width and height, the rectangular traversal starts in the top-left corner, visits every position exactly once and always steps to one of the eight neighbours; the large traversal also yields every pixel of the image exactly once, in the order of the Hilbert curve of the smallest enclosing power-of-two square; the small traversal yields exactly the pixels of the largest power-of-two square that fits in the image from the top-left corner, in the order of the Hilbert curve of that square.",
 ["inputs"],"all image dimensions, including 1 x n, powers of two and their neighbours, and non-square ones",
 "The tests check a few small matrices; the large and small variants and transposed or prime dimensions are untested.",
 ["src/hilbert.rs"],[("pseudo-Hilbert scan over arbitrary rectangles","hilbert::iter"),("power-of-two rounding and filtering","linearize_small, linearize_large")],None,["hilbert::iter","linearize_rect","linearize_small","linearize_large"])
prop("C09","Exact run-length coding emits the canonical maximal runs",
 "hilbert(rle) (and a distance of 0) writes the dimensions and then, along the rectangular Hilbert traversal, one record per run - a count byte between 1 and 255 and the colour - such that the records expand to the traversed colours in order and a record with a count below 255 is never followed by one of the same colour.",
 ["inputs"],"all colour sequences, in particular all combinations of run lengths around multiples of 255",
 "Tests feed short integer sequences; runs reaching the 255 limit followed by equal or different colours are covered by one case at most.",
 ["src/codec/hilbertc.rs"],[("run accumulation","AbstractRle::next"),("equality criterion","Exact")],[dict(name="pending value",meaning="first value of the next run",where="AbstractRle.last")],["Codec::encode for hilbert(rle)"])
prop("C10","Approximate run-length coding respects its distance and stores the run's mean",
 "hilbert(rle(d)) splits the traversed colours into consecutive runs of at most 255 pixels where a pixel continues the current run exactly if its Euclidean RGB distance to the exact mean of the pixels already in that run is at most d and the run holds fewer than 255 pixels; each record stores the length of the run and the mean of all its pixels, each channel rounded to the nearest integer, and decoding paints each pixel with the colour of its run.",
 ["inputs","configurations"],"all colour sequences and all distances",
 "Tests cover a few short sequences; means over long runs, decisions at the exact threshold, and the reset between runs are not examined.",
 ["src/codec/hilbertc.rs","src/geom.rs"],[("running mean","RunningAvg"),("acceptance test","Approx::accept")],[dict(name="running mean",meaning="sum and count of the current run",where="RunningAvg")],["Codec::encode/decode for hilbert(rle(d))"])
prop("C11","K-means returns a true partition with its means, and terminates",
 "For every non-empty multiset of points, every positive number of clusters and every outcome of the random choices, clustering terminates and returns min(clusters, points) groups that together hold every input point exactly once, each non-empty group being paired with the mean of its points; with one or two clusters, no point is closer to the mean of another non-empty group than to that of its own, except where the means are rounded and the rounding keeps the groups changing for ever.",
 ["inputs","schedules"],"all point multisets and cluster counts, all results of the random number generator",
 "Tests run five tiny data sets once with whatever random numbers occur; empty clusters, ties, duplicates and fewer points than clusters are not enumerated.",
 ["src/kmeans.rs"],[("assignment pass","assign_points"),("mean update and empty-cluster reseeding","compute_centroids"),("neighbour lists","NeighbouringCentroids::resize"),("fixpoint loop","cluster")],
 [dict(name="assignment",meaning="points of each cluster",where="Clusters.assignment"),dict(name="neighbours",meaning="other centroids, sorted by distance, truncated",where="NeighbouringCentroids")],["kmeans::cluster","Clusters::into_iter"])
prop("C12","Colour reduction maps colours consistently to group means, at most n of them",
 "For every image and every n, the image decoded from cluster-colors(n) has at most n distinct colours, equal colours of the original stay equal, each resulting colour is in every channel the mean, rounded down, of the original pixels (counted with multiplicity) that became that colour by some grouping of the original colours into n groups (with n = 2, unless the rounded means make the groups change for ever, a grouping in which no colour is closer to the other group's mean than to its own), and the image is unchanged if it has at most n distinct colours.",
 ["inputs","configurations"],"all images and all positive n",
 "Tests only check the mean of two colours and a few distances; the codec itself is never run.",
 ["src/codec/clusterc.rs","src/kmeans.rs","src/utils.rs"],[("colour histogram","utils::count_freqs"),("weighted mean","ColorCount::mean"),("colour lookup map","ClusterColors::encode")],None,["Codec::encode/decode for cluster-colors(n)"])
prop("C13","Voronoi decoding paints each pixel with its nearest stored centroid",
 "For every image and every n, voronoi(n) stores the dimensions and min(n, number of pixels) centroids (position and colour), whose positions lie inside the image and whose channels lie between the smallest and largest value of that channel in the image, and which are, in position and colour, the means, rounded down, of groups into which the pixels can be divided (a group may be empty, its centroid then being one of the pixels; with two groups, unless the rounded means make them change for ever, no pixel is closer in position and colour to the other group's mean than to its own); the decoded image gives every pixel the colour of a stored centroid that is nearest to it in the plane; if n is at least the number of pixels the image is reproduced exactly.",
 ["inputs","configurations"],"all images, all positive n",
 "The codec is never run by the tests; unsigned coordinate differences, ties and clusters at the far edge are not exercised.",
 ["src/codec/clusterc.rs","src/kmeans.rs"],[("5-d clustering","VoronoiCluster::encode"),("nearest centroid search","VoronoiCluster::decode")],None,["Codec::encode/decode for voronoi(n)"])
prop("C14","Argument expressions are parsed exactly by their grammar",
 "For every string, the argument parser accepts it exactly if it has the form name(arg,...,arg) with a non-empty name free of parentheses and commas, any number of non-empty arguments separated by commas at depth one, arguments balanced in parentheses, and nothing after the closing parenthesis; it then returns the name and the arguments exactly as written, never panics (non-ASCII text and deep nesting included), and matching a name against a pattern succeeds only if the whole text matches.",
 ["inputs"],"all strings, all alternations in the patterns",
 "Eleven fixed ASCII strings are tested; nesting, multi-byte characters and stray separators are not enumerated.",
 ["src/prs.rs"],[("depth counter and cut positions","fun_call"),("anchored pattern","matches_fully")],[dict(name="paren depth / last cut",meaning="parser state",where="fun_call")],["prs::fun_call","prs::matches_fully"])
prop("C15","Codec names select the documented codec and nothing else",
 "Every string given as codec argument either selects exactly the codec its documented syntax denotes (hufman in any letter case; delta; zip(dict), zip(back); [Hh]ilbert(rle), [Hh]ilbert(rle(<number>)), [Hh]ilbert(zip); c[luster][-]col[ors](<n>) and voronoi(<n>) with n >= 1) with the parameter as given, or is refused with an error; the codec's name and its lossless flag are those of that codec, with hilbert(rle(0)) lossless and every other distance lossy.",
 ["inputs","configurations"],"all argument strings",
 "The tests never parse a codec argument; near-miss spellings, suffixes and out-of-range numbers decide which compressor runs.",
 ["src/codec.rs","src/codec/clusterc.rs","src/codec/hilbertc.rs","src/codec/hufc.rs","src/codec/zipc.rs","src/prs.rs"],[("alternatives","ParseAlternatives"),("per-codec grammars","impl FromStr")],None,["AnyCodec::from_str","Codec::name","Codec::is_lossless"])
prop("C16","The benchmark reports each image once and truthfully",
 "For every list of image files and every behaviour of the codec on each (exact, lossy, failing to encode, failing to decode, wrong size; file missing or corrupt), the report named after the codec has the header once, as soon as there is any row, followed by exactly one row for each file that was processed successfully - its path (??? for one that is not valid UTF-8), the number of bytes the codec produced, 100 times its ratio to 3 bytes per pixel, and the mean over the pixels of the squared RGB distance between original and decoded image - and none for the others, which do not disturb it; a decoded image that differs counts as failed if the codec claims to be lossless and is saved as PNG under output/ in any case, identical ones are not saved.",
 ["inputs","fault_sequences"],"all lists of files and all per-file codec behaviours",
 "The benchmark module has no test at all.",
 ["src/bench.rs","src/main.rs"],[("per-image pipeline","measure_all"),("error metric","compute_error"),("output naming","under_output")],[dict(name="report writer",meaning="CSV writer and header flag",where="measure_all writer_state")],["output/<codec>.csv","output/<image>.png"])
prop("C17","The benchmark report does not depend on how its workers interleave",
 "For every interleaving of the parallel workers, the benchmark terminates without deadlock and its report is the same up to the order of the rows: the header exactly once and first if there is any row, one complete row for each file that succeeded, with the values a sequential run gives, whatever happens to the others.",
 ["schedules"],"all thread interleavings of the workers at their synchronisation, codec and file operations",
 "No test runs the benchmark, and a run samples one schedule of the thread pool.",
 ["src/bench.rs"],[("lock around header flag and CSV writer","measure_all writer_state"),("parallel iterator","into_par_iter")],[dict(name="writer_state",meaning="(header written?, CSV writer) shared by all workers",where="measure_all")],["output/<codec>.csv"])
prop("C18","Write failures surface as errors; short writes are harmless",
 "For every codec and image and every position at which the output sink fails, encoding returns an error - it neither panics nor reports success - and if the sink merely accepts fewer bytes than offered or is interrupted, at any positions, the bytes delivered are a complete stream that decodes to the same image as without disturbance.",
 ["fault_sequences"],"all failure positions and all short-write or interruption patterns of the sink",
 "All tests write to memory, which never fails.",
 ["src/huf.rs","src/bit.rs","src/ser.rs","src/zip/dict.rs","src/zip/back.rs","src/codec/*.rs"],[("error propagation with ?","all encoders"),("write_all","src/ser.rs, src/bit.rs")],None,["Codec::encode"])
prop("C19","A truncated stream is reported, never mistaken for an image",
 "For every codec and image, decoding any strict prefix of the encoded stream reports failure: it returns no image and does not panic or loop.",
 ["crash_points","inputs"],"all truncation points of all encoded streams",
 "Tests only decode complete streams.",
 ["src/codec/*.rs","src/huf.rs","src/zip/dict.rs","src/zip/back.rs","src/ser.rs"],[("Option-returning deserialisation","src/ser.rs"),("missing pixels end in None","Codec::decode")],None,["Codec::decode"])
prop("C20","The command line does what was asked and says when it cannot",
 "For every list of arguments, the program exits with status 0 exactly if the first one names a codec and its report can be created and completely written under output/ (files that cannot be processed, or whose decoded image cannot be saved, get no row and are mentioned on standard error), or is the hilbert special command and every image given can be read and its files be created and written, and otherwise exits with a failure status and a message on standard error, arguments it refuses leaving output/ untouched; the files it writes and its exit status do not depend on whether its messages can be printed (standard output or standard error closed or full); the hilbert special command writes for each image three CSV files with a red,green,blue header whose rows are the pixels of the rectangular, small and large traversals in order.",
 ["configurations","inputs"],"all argument lists, all images for the special command",
 "main is not covered by any test.",
 ["src/main.rs","src/hilbert.rs","src/bench.rs"],[("dispatch","try_special / try_bench"),("CSV dump","write_to_csv")],None,["process exit status","output/*.csv"],None)
prop("C21","Codecs keep no memory: earlier or concurrent work never changes a result",
 "Whatever was encoded or decoded before on the same or another codec, including runs that failed, were cut short or abandoned, and whatever is encoded or decoded at the same time on other threads, or by the very sink or source of the operation, each operation has the outcome it has on its own: the same image when decoding, a stream of the same length that decodes to the same image when encoding (for cluster-colors and voronoi, whose choices depend on random numbers: a result that satisfies C12 or C13).",
 ["histories","schedules"],"all histories of operations and all interleavings of concurrent operations",
 "Each test performs one operation in isolation.",
 ["src/codec.rs","src/codec/*.rs","src/huf.rs","src/zip/dict.rs","src/zip/back.rs","src/hilbert.rs"],[("no shared mutable state","all codecs take &self and build their state per call")],None,["Codec::encode","Codec::decode"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in P:
    jsonschema.validate(p,sch); assert len(p['title'])<=80
    n=p['statement'].count('. ')
    if n>2: print(p['id'],n)
print(len(P))
