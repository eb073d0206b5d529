#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
D="src/decoder.rs"; P="src/parser.rs"; H="src/huffman.rs"; L="src/decoder/lossless.rs"; I="src/idct.rs"; U="src/upsampler.rs"
S="src/arch/ssse3.rs"; NE="src/arch/neon.rs"; WA="src/arch/wasm.rs"; WM="src/worker/multithreaded.rs"; WR="src/worker/rayon.rs"; WI="src/worker/immediate.rs"; W="src/worker/mod.rs"; M="src/marker.rs"; LIB="src/lib.rs"
props=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    props.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Any input yields a value or an error, never a panic or a hang",
"For every byte stream and every combination of options (scale request, colour-transform override, output size limit), reading metadata, scaling and decoding each return a value or an error. They never panic, hit an arithmetic overflow, abort the process, or fail to return once the reader has delivered its last byte.",
["inputs","configurations"],"every byte stream; every scale request, colour-transform override and size limit; single-threaded and parallel builds",
"The crash tests decode about 200 fixed files once each with default options; they reach none of the option combinations and only the malformations those files contain.",
[D,P,H,L,I,U,WI,WR,WM],[("marker loop, scan loop and block decoders",D),("segment parsers and their range checks",P),("code lookup and bit refill",H),("wrapping arithmetic in the inverse DCT",I)],["Decoder::decode","Decoder::read_info","Decoder::scale","Decoder::info"])

p("C02","Output buffer, reported size and pixel format always agree",
"Whenever decoding succeeds, the buffer has exactly width x height x bytes-per-pixel bytes, for the width, height and pixel format that the metadata reports. The reported size is the frame header's size, or the size the last scale call returned; the pixel format follows from component count and sample precision, and the coding process from the frame type.",
["inputs","configurations"],"every decodable frame shape: coding process, precision, component count, sampling factors, image size, scale factor",
"The reference tests compare sizes for some sixty files at full size and one file at four scales; scaled, subsampled, lossless, low-precision and multi-component combinations are not covered.",
[D,P,L,U],[("output size and component size computation",P),("row packing for one component, interleaving for several",D),("sample packing of lossless images",L)],["Decoder::decode","Decoder::info","Decoder::scale"])

p("C03","The result does not depend on how the reader delivers its bytes",
"For every stream, the result of reading metadata or decoding (pixels, image info, embedded metadata, or the error) depends only on the bytes. Short reads of any size and interrupted reads, in any pattern, change nothing.",
["fault_sequences","inputs"],"every sequence of short-read lengths and Interrupted errors the reader may return, over valid and malformed streams",
"Tests read from files and memory, where every read is satisfied in full; none injects a short or interrupted read.",
[LIB,D,H,P],[("all reads go through exact-length reads",LIB),("segment skipping",P),("bit refill reads byte by byte",H)],["std::io::Read passed to Decoder::new","Decoder::decode","Decoder::read_info"])

p("C04","Reader errors and truncation always surface as that I/O error",
"For every valid stream and every point in it, if the reader fails there (once or for good) or the stream ends there before its end-of-image marker, the call in progress returns that I/O error (unexpected end of file for truncation). It never reports success, another kind of error, or a panic; metadata reading is affected only by faults at or before the end of the frame header.",
["fault_sequences","inputs"],"every read position of the stream x {error once, error for good, end of stream} x every error kind, for every kind of stream",
"No test injects a reader error; truncation appears only in a few crash files whose outcome is not looked at.",
[D,P,H,L],[("error propagation from reads in the marker loop, scan decoding and the trailing-restart-marker loop",D),("skip of segment payload detects short data",P)],["Decoder::decode","Decoder::read_info","Error::Io"])

p("C05","Decoding consumes exactly one image from the reader",
"Successfully decoding a stream reads exactly up to and including its end-of-image marker, and reading metadata exactly up to the end of the frame header. Hence bytes that follow never influence the result, and images stored back to back can be decoded one after another from one reader.",
["inputs","histories"],"every valid stream (all coding processes, restart intervals, padding lengths, fill bytes, trailing restart markers) followed by any bytes",
"Every test decodes one file holding one image and never looks at the reader position.",
[D,H],[("byte-wise refill that stops at a marker and hands it on",H),("pending marker in the marker loop",D)],["position of the reader after Decoder::decode / read_info"])

p("C06","Only the final option values matter, not the call history",
"The outcome of decoding depends only on the stream and on the option values in effect (last scale request, last colour-transform override, last size limit). Any earlier sequence of successful metadata reads, scale calls, option settings and accessor calls leads to the same result, returned sizes and info as setting the final values on a fresh decoder, and repeated metadata reads change nothing.",
["histories","configurations"],"every sequence of public calls before the decode call, none of which has failed",
"Tests use only three histories (decode; read_info then decode; read_info, scale, decode).",
[D,P],[("early return when the frame is already known",D),("recomputation of component sizes on each scale call",P)],["all public methods of Decoder"],[("frame","frame header once read, holding the current scale","src/decoder.rs Decoder"),("color_transform / decoding_buffer_size_limit","options","src/decoder.rs Decoder")])

p("C07","Sequential images decode to the coded coefficients, however interleaved",
"For every baseline or extended sequential Huffman-coded 8-bit image with 1, 3 or 4 components and supported sampling factors, and every legal grouping of its components into interleaved and single-component scans, each coded block appears at its place in the output. The decoded samples are the inverse transform of the coded coefficients, cropped to the image size, and two groupings of the same coefficients give identical pixels.",
["inputs"],"image sizes, component counts, sampling factors, groupings into scans, coefficient values",
"The reference images cover the handful of sampling layouts and scan groupings that encoders in the wild produce, at fixed sizes.",
[D,P,WI],[("MCU traversal and block addressing in the scan loop",D),("component and MCU sizes",P),("row to sample conversion",WI)],["Decoder::decode"])

p("C08","Progressive coding is equivalent to sequential coding",
"An image coded progressively decodes to exactly the same pixels as the same quantised coefficients coded sequentially. This holds for every legal scan sequence: any split into DC and AC bands, any successive-approximation depth, end-of-band runs of any length, refinement of positive and negative coefficients, and any order and interleaving of components.",
["inputs"],"every legal progressive scan sequence x coefficient contents x block layouts",
"Five progressive reference files exist, each with one fixed scan sequence.",
[D],[("block decoding for first and refinement scans",D),("tracking of completely received coefficients per component",D)],["Decoder::decode"],[("coefficients / coefficients_finished","accumulated coefficients and which are final","src/decoder.rs Decoder")])

p("C09","An incomplete progressive image renders what was delivered",
"A progressive stream that reaches its end-of-image marker after only a prefix of its scans decodes to the image of the coefficients delivered so far, undelivered coefficients and low-order bits counting as zero. This holds for each component separately, whatever the other components received; a sequential image with a component that was never coded, or an image without any scan, is an error.",
["inputs","histories"],"every prefix of every legal progressive scan sequence; every subset of components left out",
"Three files with missing scans are tested; the component-wise combinations are not.",
[D,WI,WR],[("rendering of unfinished components at the end of the image",D),("batch row submission to the worker",WR)],["Decoder::decode"])

p("C10","Restart markers are transparent, and misplaced ones are errors",
"For every restart interval, an image coded with restart markers decodes to the same pixels as without, in sequential, progressive and lossless coding, over any number of intervals. A missing restart marker, one that is out of sequence, or another marker where one is due, is reported as a format error.",
["inputs"],"every restart interval and image size, every position and value of a wrong marker",
"One reference image uses restart markers, in sequential coding.",
[D,L,H],[("interval counting, predictor and run resets",D),("restart handling in lossless scans",L),("bit buffer reset",H)],["Decoder::decode"])

p("C11","Lossless images reproduce the coded samples exactly",
"For every lossless Huffman-coded image with 1, 3 or 4 components without subsampling, precision 2 to 16 bits, any predictor 1 to 7, any point transform below the precision and any grouping of components into scans, decoding returns exactly the coded samples, with the bits removed by the point transform as zeros. Samples of up to 8 bits take one byte, wider ones two bytes in native order, interleaved by pixel.",
["inputs"],"sample values (including differences that wrap), sizes, precisions, predictors, point transforms, component groupings",
"Eleven single-component files are tested, none with a point transform, several components in separate scans, or a precision below 8.",
[L,P,D],[("difference decoding and prediction",L),("plane assembly per scan",D),("scan parameter checks",P)],["Decoder::decode"])

p("C12","Inverse DCT is accurate at every scale, portable and SIMD alike",
"For every block of coefficients that represents 8-bit sample data (dequantised values up to about 1024 in magnitude, exact inverse transform within one sample range of the valid samples), each full-size output sample is within 3 levels of the exact real-valued inverse DCT of the dequantised coefficients, clamped to 0..255; at scale 1/2, 1/4 and 1/8 the output is likewise the 4x4, 2x2 and 1x1 inverse transform of the low-frequency coefficients. This holds for the portable and the SIMD code (SSSE3, NEON, wasm32), and a block's result does not depend on its position in the image.",
["inputs","configurations"],"coefficient blocks, quantisation tables, scale factors, code paths",
"One typical block, one zero block and one saturated block are tested, the last only in the portable build.",
[I,S,NE,WA],[("scalar 8x8, 4x4, 2x2, 1x1 kernels",I),("SSSE3 kernel",S),("NEON kernel",NE),("wasm32 kernel",WA)],["Decoder::decode on single-component images"])

p("C13","Colour conversion is right for every sample value at every position",
"For all 2^24 YCbCr triples the returned RGB values are within 1 level of the clamped BT.601 full-range conversion; RGB samples pass unchanged, CMYK samples are inverted, YCCK converts the first three as YCbCr and inverts K, and with the override None samples are returned unchanged and interleaved. The result depends neither on the pixel's position in its line, nor on the line length, nor on whether SIMD code (SSSE3, NEON, wasm32) is used (beyond that 1 level).",
["inputs","configurations"],"all sample triples, all line lengths, all positions, all colour transforms, SIMD and portable code",
"The reference images contain a small part of the colour cube; CMYK and YCCK are barely covered and the override not at all.",
[D,S,NE,WA],[("line conversion functions",D),("SSSE3 conversion of full vectors with scalar tail",S),("the same for NEON",NE),("the same for wasm32",WA)],["Decoder::decode"])

p("C14","The colour transform is chosen by fixed precedence",
"A caller's override always decides. Otherwise one component is grey; three components use the identifiers (1,2,3 YCbCr; 'RGB' RGB; 1,34,35 and 'rgb' are the big-gamut transforms, which are refused as unsupported), else YCbCr if a JFIF header is present, else the Adobe marker (0 RGB, 1 YCbCr; 2 is an error), else YCbCr; four components use the Adobe marker (0 CMYK, 2 YCCK; 1 is an error), else CMYK. The order and position of the application segments does not matter, and an override that does not fit the three or four components is an error. One-component images are grey whatever the override.",
["configurations","inputs"],"component count x identifiers x JFIF x Adobe transform x segment order x override",
"The reference images exercise four of the combinations.",
[D,P],[("transform selection",D),("APP0 and APP14 parsing",P)],["Decoder::decode","Decoder::set_color_transform"])

p("C15","Subsampled components are upsampled in register, at every size",
"For every supported combination of sampling factors, image size and scale, each output sample of a component is taken from its own position: within rounding of the centred linear (3:1) interpolation for factors of two, and the covering source sample for other integer ratios (a size of one sample in a direction makes every ratio there equivalent), with edge samples repeated at the borders. Only real samples of the component take part, never padding, and non-integer ratios are refused as unsupported.",
["inputs","configurations"],"sampling factor combinations x image sizes including one-pixel and odd sizes x scale factors x sample values",
"The reference images use three layouts at fixed sizes.",
[U,P],[("choice of upsampler, per-row interpolation",U),("component sizes",P)],["Decoder::decode"])

p("C16","Scaling picks the smallest sufficient factor and reports it",
"A scale request selects the smallest of 1/8, 1/4, 1/2 and 1 whose result is at least as large as requested in at least one dimension, or full size if none is. The size returned, the size later reported and the size of the decoded image are the original dimensions times that factor, rounded up; later requests replace earlier ones, and lossless images always stay at full size.",
["inputs","histories"],"image sizes 1..65535 x requested sizes 0..65535 x request sequences",
"Sixteen size pairs are tested on the selection alone, four on one decoded file.",
[I,P,D],[("factor selection",I),("output size computation",P)],["Decoder::scale","Decoder::info","Decoder::decode"])

p("C17","ICC profiles are assembled completely or not at all",
"If the stream carries exactly n non-empty ICC chunks (1 <= n <= 255), each declaring n chunks and together numbered 1..n, the profile returned is the concatenation of their payloads in number order, whatever their order in the stream. In every other case (missing, duplicate, zero or out-of-range number, disagreeing count, no chunk) no profile is returned, and decoding is unaffected.",
["inputs"],"every sequence of chunks with any sequence numbers, counts, and payload lengths, interleaved with other segments",
"Six fixed files are tested; multi-chunk profiles of boundary size and most malformations are not.",
[D,P],[("chunk validation and assembly",D),("APP2 parsing",P)],["Decoder::icc_profile"])

p("C18","EXIF and XMP payloads are returned byte for byte",
"After a successful decode, the EXIF data (from the TIFF header on) and XMP packet are exactly the payloads of the last segment carrying the respective signature, for every payload length up to the segment limit, wherever the segment stands. Segments whose identifier is absent, shorter or different yield nothing and do not disturb other metadata.",
["inputs"],"payload lengths 0..65533, signatures differing in any byte or cut short, positions and orders of segments",
"One file is tested and only the first bytes of each payload are compared.",
[P,D],[("APP1 parsing",P),("segment dispatch",D)],["Decoder::exif_data","Decoder::xmp_data"])

p("C19","Comments, unknown segments and fill bytes never change the image",
"Inserting comment segments, application segments that carry no colour information, fill bytes before any marker, or stray bytes other than FF between segments, at any place where a segment may stand, leaves pixels and image info unchanged. This holds for every payload content and length, including payloads that look like markers.",
["inputs"],"insertion position x segment kind x payload length and content x coding process",
"A few fixed files contain such data at one position.",
[D,P],[("marker search that skips fill and stray bytes",D),("payload skipping",P)],["Decoder::decode","Decoder::info"])

p("C20","Every thread schedule gives the same result and terminates",
"In the multi-threaded configurations, every interleaving of the decoding thread, its helper threads and its pool tasks returns the same pixels or the same error as single-threaded decoding. No interleaving deadlocks, panics, or leaves a helper thread blocked, for successful and failing decodes, any number of pool threads, and when called from inside a pool.",
["schedules","inputs"],"all interleavings at synchronisation operations (threads, channels, locks, atomics, pool tasks) within a preemption bound",
"The pool tests run one image a few times under whatever schedules the machine happens to produce.",
[WM,WR,W],[("one helper thread per component fed by channels",WM),("disjoint output slices per pool task",WR)],["Decoder::decode in builds with and without the pool"])

p("C21","All build configurations decode alike",
"With and without the thread-pool feature a stream yields bit-identical results: pixels, info, metadata and errors. The portable build accepts and rejects the same streams, reports the same info and metadata, and its pixels differ from the SIMD build's by no more than SIMD rounding; images below and above the size where parallel decoding starts are treated alike. Builds for other targets (wasm32, 32-bit and without threads; the NEON code) decode like the portable build for the host, exactly where they have no SIMD code and up to rounding where they do.",
["configurations","inputs"],"streams of every kind x {pool, threads, single-threaded} x {SIMD, portable} x {host, wasm32, NEON}",
"Each configuration is tested alone against reference images with a tolerance; no test compares configurations, and most images stay below the parallel threshold.",
[W,WI,WR,WM,D],[("worker selection",W),("three row-to-sample workers",WI),("two image assembly loops",W)],["Decoder::decode across cargo features"])

p("C22","Every valid Huffman code decodes correctly",
"For every valid Huffman table (any code lengths from 1 to 16, complete or not, any symbol assignment) and every sequence of symbols and additional bits, decoding recovers exactly the coded values, at every bit alignment, across byte stuffing and up to the marker that ends the data. Tables that are over-subscribed or inconsistent with their segment length, codes outside the table, and symbols without a meaning where they stand (difference categories above 11 in DCT scans or 16 in lossless ones, categories above 1 in an AC refinement) are format errors.",
["inputs"],"code length distributions x symbol assignments x symbol sequences x bit alignments",
"The reference files use typical encoder tables; codes longer than 8 bits combined with all value sizes and alignments are not systematically covered.",
[H,P],[("8-bit lookup tables, combined AC lookup, long-code path",H),("bit buffer refill and stuffing removal",H)],["Decoder::decode"])

p("C23","The output size limit is exact",
"With an output size limit set, decoding succeeds exactly when the output buffer's size in bytes does not exceed the limit, and then gives the same result as without a limit; otherwise it returns a format error. The size that counts is that of the image actually returned, after scaling and for its sample width.",
["configurations","inputs"],"limits around the exact size x image sizes x component counts x scale factors x sample widths",
"The limit is not tested at all.",
[D],[("size check before the image is assembled",D)],["Decoder::set_max_decoding_buffer_size","Decoder::decode"])

p("C24","Malformed and unsupported headers are refused with the right error",
"Every frame, scan, table or restart-interval header whose fields violate the format (field ranges, lengths, duplicate or unknown components, component order, spectral selection and approximation parameters) is refused as a format error, and every well-formed header asking for an unsupported feature (arithmetic or hierarchical coding, 12-bit DCT samples, other component counts, zero height, non-integer subsampling) as that unsupported feature. Every header that is legal and supported is accepted.",
["inputs"],"all values of each header field, and combinations of fields",
"Malformed headers occur only in crash files, whose outcome is ignored.",
[P,D,M],[("segment parsers",P),("support checks after the frame header",D),("marker classification",M)],["Decoder::read_info","Decoder::decode","Error","UnsupportedFeature"])

p("C25","Segments are accepted in exactly the legal orders",
"The decoder follows the stream grammar: start of image first, one frame header before any scan, the tables a scan uses defined before it, restart markers only in or right after scan data, an end-of-image marker last. Each sequence of segments is either decoded, or refused at the first segment that breaks the grammar with the error category that belongs to it (format, the specific unsupported feature, or unexpected end of file).",
["histories","inputs"],"all sequences of segments up to a depth, and all reachable states of the grammar",
"Tests contain two or three misordered files and ignore their outcome.",
[D,M],[("marker dispatch loop and its state",D),("marker classification",M)],["Decoder::decode"],[("frame, tables, previous marker, scans processed","grammar state","src/decoder.rs decode_internal")])

p("C26","Table definitions take effect in stream order and persist",
"Each quantisation table, Huffman table and restart interval in effect for a scan is the one defined last before it in its slot; a definition replaces only the slots it names, tables for several slots may share a segment, and definitions persist over later scans. 8-bit and 16-bit quantisation entries, in zigzag order, mean the same values in every slot.",
["histories","inputs"],"all sequences of definitions over slots, classes and precisions, placed before and between scans",
"Reference files define each slot once, before the first scan.",
[D,P],[("merging of newly defined tables",D),("table parsing, zigzag reordering",P)],["Decoder::decode"],[("quantization_tables, dc/ac_huffman_tables, restart_interval","slots","src/decoder.rs Decoder")])

p("C27","Decoders do not influence each other",
"A decode's result is a function of its own stream and options only. Decoding any other images before it or at the same time, on the same or other threads, successfully or not, changes nothing, and decoding the same stream again gives identical bytes.",
["histories","schedules"],"all ordered pairs and short sequences of streams decoded on one thread or concurrently",
"The tests compare each decode with a reference once; no test relates one decode to another.",
[D,WR,WM,I],[("all state is owned by the decoder value and its workers",D)],["several Decoder values in one process"])

p("C28","Motion-JPEG streams without Huffman tables use the standard ones",
"A stream marked as AVI1 that omits Huffman tables decodes exactly as if the standard tables (ITU-T T.81 Annex K.3) had been defined in the missing slots 0 and 1, for every standard symbol. Tables the stream does define are used instead of the defaults, and without the AVI1 mark a missing table is a format error.",
["inputs","configurations"],"all symbols of the four standard tables x subsets of slots defined by the stream x AVI1 mark present or not",
"One motion-JPEG file is tested, which uses a part of the tables' symbols.",
[H,D,P],[("default tables",H),("use of defaults when marked",D)],["Decoder::decode"])

p("C29","Memory is bounded by the image and kept metadata, and given back",
"Reading metadata or requesting a scale takes an amount of memory that does not depend on the image's dimensions. Decoding holds at no time more than a small multiple of what the image itself takes (samples at the scale used, coefficients of a progressive image, output, kept metadata), however many scans, tables, comments or fill bytes the stream holds. When the decoder and its results are dropped all memory is given back, after failures as after successes.",
["inputs","histories","configurations"],"every frame size, coding process and scale; any number of repetitions of any segment; every truncation and damage; any number of decodes in one process",
"No test looks at memory use.",
[D,P,L,WM,WR,WI],[("planes are allocated per scan, coefficients once per progressive image",D),("segment payloads are dropped unless they are kept metadata",P),("worker results are handed over, not copied",WM)],["heap use during Decoder::read_info, scale, decode, and after drop"])

p("C30","No input makes the decoder touch memory outside its buffers",
"For every byte stream, option and image geometry, the unsafe (SIMD) code and everything around it read and write only inside the slices handed to them: no decode reads or writes out of bounds, reads uninitialised memory or races on memory between threads, and what it returns does not depend on memory outside its inputs. In particular lines and blocks whose size is not a multiple of the vector length are finished without reading or writing past their end.",
["inputs","configurations"],"image widths and heights, component layouts, scales, colour transforms, damaged and truncated streams; SSSE3 and NEON code; pool and helper threads",
"An access past a buffer usually has no visible effect in a test run, and the tests run without any memory checker.",
[S,NE,"src/arch/mod.rs",D,I],[("vector loads and stores through raw pointers, guarded by assertions",S),("calls of the SIMD functions",D)],["Decoder::decode under a memory checker"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for q in props: f.write(json.dumps(q)+"\n")
print(len(props))
