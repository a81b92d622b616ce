IN = ["inputs"]
INC = ["inputs", "configurations"]
C = "crates/"
PBT = "property-based testing: "

prop("C01", "PNG decoder is total on arbitrary bytes",
 "For every byte string and every decoder configuration, decoding it as PNG (headers, pixels, all animation frames, metadata accessors) terminates with a success or an error value: it never panics, aborts, reads out of bounds, or spins. Work and memory stay bounded by the configured size limits.",
 INC, "all byte strings (in particular mutations of valid PNG/APNG files, with CRCs repaired or not) x decoder option settings x reader kinds",
 "The unit tests decode a fixed set of files, and the fuzz corpus is only a sample; no finite set of files covers malformed chunk orders, lengths and truncations.",
 [C+"zune-png/src/decoder.rs", C+"zune-png/src/headers/readers.rs", C+"zune-png/src/apng.rs", C+"zune-inflate/src/decoder.rs"],
 [("chunk parsing, bounds of reads", C+"zune-png/src/headers/readers.rs"), ("frame and scanline loops", C+"zune-png/src/decoder.rs")])

prop("C02", "JPEG decoder is total on arbitrary bytes",
 "For every byte string and every decoder configuration, decoding it as JPEG (headers, pixels, metadata accessors) terminates with a success or an error value: it never panics, aborts, reads or writes out of bounds, or spins. This holds with and without platform intrinsics and in strict and lenient mode.",
 INC, "all byte strings (in particular mutations of baseline, progressive, restart-interval, subsampled files) x option settings",
 "The tests decode fixed files; malformed marker sequences, table redefinitions, sampling factors and truncations form an unbounded space.",
 [C+"zune-jpeg/src/decoder.rs", C+"zune-jpeg/src/headers.rs", C+"zune-jpeg/src/mcu.rs", C+"zune-jpeg/src/mcu_prog.rs", C+"zune-jpeg/src/bitstream.rs", C+"zune-jpeg/src/worker.rs"],
 [("marker parsing", C+"zune-jpeg/src/headers.rs"), ("entropy decoding loops", C+"zune-jpeg/src/mcu.rs"), ("post processing", C+"zune-jpeg/src/worker.rs")])

prop("C03", "BMP, QOI, Netpbm, farbfeld, HDR and PSD decoders are total",
 "For every byte string and decoder configuration, each of the BMP, QOI, PPM/PAM/PFM, farbfeld, Radiance HDR and PSD decoders, and the format-guessing image reader on top of them, terminates with a success or an error value: it never panics, aborts, or spins.",
 INC, "all byte strings (in particular mutations of valid files of each format) x option settings, through the decoder crates and through the image library",
 "The tests decode a few dozen fixed files per format.",
 [C+"zune-bmp/src/decoder.rs", C+"zune-qoi/src/decoder.rs", C+"zune-ppm/src/decoder.rs", C+"zune-farbfeld/src/decoder.rs", C+"zune-hdr/src/decoder.rs", C+"zune-psd/src/decoder.rs", C+"zune-image/src/codecs.rs"],
 [("header validation and size checks", C+"zune-bmp/src/decoder.rs"), ("format dispatch", C+"zune-image/src/codecs.rs")])

prop("C04", "Inflate yields exactly the deflated data or an error",
 "For every valid raw deflate, zlib or gzip stream, decompression returns exactly the bytes it encodes, whatever block types, code lengths, match distances or size hints are involved. With checksum confirmation on, a stream whose checksum does not match its data is an error; an output limit stops decompression bombs close to the limit and never affects smaller outputs; and on any error the partial output returned is a prefix of what a reference decoder produces. Compressing with the library's own encoder and decompressing restores the input.",
 INC, "all deflate streams (stored / fixed / dynamic blocks, any legal Huffman lengths and matches), truncated and corrupted streams, all option settings (limit, size hint, checksum confirmation)",
 "The tests inflate fixed files and corpus entries for absence of panics; exact output over the space of legal streams is not sampled systematically.",
 [C+"zune-inflate/src/decoder.rs", C+"zune-inflate/src/bitstream.rs", C+"zune-inflate/src/encoder.rs"],
 [("fast and careful decode loops, overlapping copies", C+"zune-inflate/src/decoder.rs"), ("bit reader", C+"zune-inflate/src/bitstream.rs")])

prop("C05", "PNG decoding reproduces the encoded pixels exactly",
 "For every valid PNG, of any legal colour type, bit depth, interlacing, filter sequence, IDAT split, palette and transparency chunk, the decoded samples are exactly those the PNG specification assigns, in the reported colourspace, depth and dimensions. The decoding options have exactly their documented effect: 16-to-8-bit reduction, added opaque alpha channel, byte order of 16-bit samples, intrinsics on or off.",
 INC, "all valid PNG files built from arbitrary samples x option settings",
 "The tests compare a handful of files from one suite against another decoder, mostly at one width per kind; SIMD remainders, filters and interlace passes depend on width, depth and content.",
 [C+"zune-png/src/decoder.rs", C+"zune-png/src/filters/de_filter.rs", C+"zune-png/src/filters/sse4.rs", C+"zune-png/src/utils.rs"],
 [("unfiltering", C+"zune-png/src/filters/de_filter.rs"), ("bit expansion, palette, tRNS", C+"zune-png/src/utils.rs"), ("interlace passes", C+"zune-png/src/decoder.rs")])

prop("C06", "PNG encoder output is valid and lossless",
 "For every image whose depth and colourspace the PNG encoder accepts, the encoder's output is a well-formed PNG (valid chunk CRCs and zlib stream, decodable by an independent decoder) whose pixels and dimensions are exactly the input's; attached EXIF, ICC and gamma data are stored so that they read back unchanged.",
 INC, "all dimensions x L, LA, RGB, RGBA x 8/16 bit x sample contents x optional metadata x encoder options",
 "Tests encode a few images and do not check them with an independent decoder.",
 [C+"zune-png/src/encoder.rs", C+"zune-png/src/headers/writers.rs", C+"zune-png/src/filters.rs", C+"zune-inflate/src/encoder.rs"],
 [("chunk writers", C+"zune-png/src/headers/writers.rs"), ("filter selection", C+"zune-png/src/filters.rs")])

prop("C07", "PNG checksums and ancillary metadata are honoured",
 "With CRC confirmation on, a PNG in which a chunk's data or CRC is corrupted is rejected, and with adler confirmation on so is one whose image data checksum is wrong; with confirmation off such checksum damage alone does not change the decoded pixels. Gamma, time, text, international text, EXIF, ICC and animation-control chunks of a valid file are reported with exactly the values stored.",
 INC, "valid PNG files with arbitrary ancillary chunks x single-byte corruptions of chunk data or checksums x confirmation settings",
 "Tests sample a few corrupted files; which chunk and which byte is damaged is an unbounded choice.",
 [C+"zune-png/src/decoder.rs", C+"zune-png/src/headers/readers.rs", C+"zune-inflate/src/decoder.rs"],
 [("CRC validation", C+"zune-png/src/decoder.rs"), ("chunk readers", C+"zune-png/src/headers/readers.rs")])

prop("C08", "APNG frames decode and compose correctly",
 "For every valid animated PNG, iterating the frames yields each frame once, in order, with the control data stored in the file and exactly the stored pixels of that frame's rectangle; composing them with the library's post-processing gives the canvas defined by the frame's offset, dispose and blend operations.",
 ["inputs", "histories"], "all animations (frame count, rectangles, dispose/blend operations, fdAT splits, with or without default image in the sequence) and sequences of decode calls",
 "One animated file is decoded by the tests.",
 [C+"zune-png/src/apng.rs", C+"zune-png/src/decoder.rs", C+"zune-png/src/headers/readers.rs", C+"zune-image/src/codecs/png.rs"],
 [("frame iteration", C+"zune-png/src/decoder.rs"), ("composition", C+"zune-png/src/apng.rs")])

prop("C09", "Baseline JPEG decoding is accurate",
 "For every valid baseline JPEG (greyscale, YCbCr, RGB or four-component; any supported subsampling, quantisation tables, Huffman tables, dimensions), decoded samples agree with exact arithmetic (dequantisation, inverse DCT, upsampling, colour conversion) within the small tolerance a fixed-point decoder needs, and width, height and component count are those of the frame header.",
 INC, "all coefficient data x tables x sampling factors x dimensions x output colourspaces",
 "The tests compare hashes of a few files.",
 [C+"zune-jpeg/src/mcu.rs", C+"zune-jpeg/src/idct/scalar.rs", C+"zune-jpeg/src/idct/avx2.rs", C+"zune-jpeg/src/upsampler.rs", C+"zune-jpeg/src/worker.rs", C+"zune-jpeg/src/color_convert"],
 [("dequantisation and IDCT", C+"zune-jpeg/src/idct"), ("entropy decoding", C+"zune-jpeg/src/bitstream.rs"), ("upsampling and colour conversion", C+"zune-jpeg/src/worker.rs")])

prop("C10", "Equivalent JPEG encodings decode identically",
 "The same quantised coefficients decode to identical pixels however they are entropy coded: baseline or progressive with any legal scan script, with or without restart intervals, interleaved or component-by-component scans, any valid Huffman tables, padding bytes, or marker placement. The result does not depend on whether platform intrinsics are used, beyond a difference of rounding.",
 INC, "all coefficient arrays x scan scripts (spectral selection, successive approximation) x restart intervals x Huffman tables x intrinsics settings",
 "Scan scripts form a combinatorial space of which the test files contain a few standard ones.",
 [C+"zune-jpeg/src/mcu_prog.rs", C+"zune-jpeg/src/mcu.rs", C+"zune-jpeg/src/bitstream.rs", C+"zune-jpeg/src/huffman.rs"],
 [("progressive scans, refinement, EOB runs", C+"zune-jpeg/src/mcu_prog.rs"), ("restart handling", C+"zune-jpeg/src/mcu.rs")])

prop("C11", "JPEG output colourspace and metadata are honoured",
 "For every valid JPEG and requested output colourspace the decoder either produces that colourspace with the buffer size it announces and the values given by the conversion formulas, or reports an error; EXIF, ICC (single or multi-segment, in any order), XMP and IPTC payloads stored in the file are reported byte for byte.",
 INC, "valid JPEG files x requested colourspaces x arbitrary APPn payloads, sizes and segmentations",
 "Tests use a few files with fixed metadata.",
 [C+"zune-jpeg/src/headers.rs", C+"zune-jpeg/src/decoder.rs", C+"zune-jpeg/src/worker.rs"],
 [("APPn parsing and ICC assembly", C+"zune-jpeg/src/headers.rs"), ("colour conversion dispatch", C+"zune-jpeg/src/worker.rs")])

prop("C12", "QOI encode and decode are exact inverses and interoperable",
 "Every RGB or RGBA 8-bit image encoded as QOI is a specification-conforming stream that decodes (here and with an independent decoder) to exactly the same pixels, dimensions and channel count; every conforming QOI stream decodes to the pixels the specification assigns.",
 IN, "all dimensions and pixel contents, all legal opcode sequences",
 "Tests decode a few files.",
 [C+"zune-qoi/src/decoder.rs", C+"zune-qoi/src/encoder.rs"],
 [("opcode selection", C+"zune-qoi/src/encoder.rs"), ("opcode decoding, running index", C+"zune-qoi/src/decoder.rs")])

prop("C13", "Netpbm and PFM files decode to their samples and round-trip",
 "Every valid binary PGM/PPM/PAM/PFM file, with any legal header layout (whitespace, comments, maxval), decodes to the samples the format assigns, with the right dimensions, depth and colourspace; every image accepted by the encoder decodes back to identical samples.",
 INC, "all header layouts x dimensions x maxvals x samples x byte orders",
 "Tests only cover particular crash inputs.",
 [C+"zune-ppm/src/decoder.rs", C+"zune-ppm/src/encoder.rs"],
 [("header tokeniser", C+"zune-ppm/src/decoder.rs"), ("encoder", C+"zune-ppm/src/encoder.rs")])

prop("C14", "Farbfeld files decode to their samples and round-trip",
 "Every valid farbfeld file decodes to exactly its 16-bit RGBA samples and dimensions, and every 16-bit RGBA image encoded as farbfeld decodes back to identical samples.",
 IN, "all dimensions and samples",
 "No test compares pixels.",
 [C+"zune-farbfeld/src/decoder.rs", C+"zune-farbfeld/src/encoder.rs"],
 [("decode", C+"zune-farbfeld/src/decoder.rs"), ("encode", C+"zune-farbfeld/src/encoder.rs")])

prop("C15", "Radiance HDR decodes to its RGBE values and round-trips",
 "Every valid Radiance HDR file (flat, new-style run-length coded, arbitrary header attributes) decodes to the float values its RGBE pixels denote, with the stored dimensions and attributes; encoding float RGB data and decoding it restores every component within the precision of the shared-exponent format.",
 IN, "all dimensions, run structures, exponents, header attributes",
 "Tests decode two files.",
 [C+"zune-hdr/src/decoder.rs", C+"zune-hdr/src/encoder.rs"],
 [("run-length decoding", C+"zune-hdr/src/decoder.rs"), ("float to rgbe", C+"zune-hdr/src/encoder.rs")])

prop("C16", "BMP files decode to the pixels they encode",
 "Every valid BMP (1, 2, 4, 8, 16, 24, 32 bits per pixel; uncompressed, bit-field masks, RLE4, RLE8; top-down or bottom-up; any supported header version and palette size) decodes to exactly the pixels the format assigns, with the stored dimensions and the announced colourspace.",
 IN, "all dimensions x formats x masks x palettes x RLE command sequences",
 "Tests compare one suite of files, all 127x64.",
 [C+"zune-bmp/src/decoder.rs"],
 [("header parsing", C+"zune-bmp/src/decoder.rs"), ("row expansion, RLE, bitfields", C+"zune-bmp/src/decoder.rs")])

prop("C17", "PSD files decode to their composite image",
 "Every valid 8- or 16-bit PSD with supported colour mode, with raw or PackBits-compressed composite data, decodes to exactly the samples of its composite image with the stored dimensions, depth and colourspace.",
 IN, "all dimensions x channel counts x depths x PackBits encodings x resource/layer section lengths",
 "Tests decode few files.",
 [C+"zune-psd/src/decoder.rs"],
 [("section skipping and PackBits", C+"zune-psd/src/decoder.rs")])

prop("C18", "JPEG XL encoder is lossless",
 "Every image the JPEG XL encoder accepts (L, LA, RGB, RGBA; 8 or 16 bit; any size) encodes, at every effort and thread count, to a stream an independent JPEG XL decoder decodes to exactly the same samples and dimensions, and the stream does not depend on the number of threads.",
 ["inputs", "configurations", "schedules"], "dimensions (across the 256-pixel group size) x colourspaces x depths x contents x effort x threads",
 "Tests only encode one image each and check no pixels.",
 [C+"zune-jpegxl/src/encoder.rs", C+"zune-jpegxl/src/bit_writer.rs", C+"zune-jpegxl/src/bit_depth.rs"],
 [("group encoding, prefix codes", C+"zune-jpegxl/src/encoder.rs")])

prop("C19", "Decoder APIs agree with each other and honour limits",
 "For every input, reading the headers first and then decoding gives the same dimensions, colourspace, depth and pixels as decoding directly; decoding into a caller's buffer of the announced size gives the same bytes and never writes outside the announced region, and a smaller buffer is an error; an image wider or higher than the configured limits is rejected before pixel memory is used.",
 ["inputs", "configurations", "histories"], "all inputs per decoder x call orders x buffer sizes x limits",
 "Tests use one call pattern per decoder.",
 [C+"zune-png/src/decoder.rs", C+"zune-jpeg/src/decoder.rs", C+"zune-bmp/src/decoder.rs", C+"zune-qoi/src/decoder.rs", C+"zune-ppm/src/decoder.rs", C+"zune-hdr/src/decoder.rs", C+"zune-psd/src/decoder.rs", C+"zune-farbfeld/src/decoder.rs"],
 [("output_buffer_size / decode_into", C+"zune-jpeg/src/decoder.rs"), ("limit checks", C+"zune-png/src/headers/readers.rs")])

prop("C20", "Results do not depend on reader or sink, and I/O faults are errors",
 "Decoding gives the same result from an in-memory cursor, a buffered file-like reader and readers that deliver data in small pieces; encoding writes the same bytes to every kind of sink and reports the number of bytes written. If the reader or sink fails or ends at any point, the result is an error value (or, for tolerant decoders, a complete image), never a panic, a hang or a silent success with bytes missing from the sink.",
 ["inputs", "fault_sequences"], "all codecs x reader/sink kinds x every position of an injected I/O fault or truncation",
 "Tests use a single reader kind per decoder and no injected faults.",
 [C+"zune-core/src/bytestream/reader/std_readers.rs", C+"zune-core/src/bytestream/reader.rs", C+"zune-core/src/bytestream/writer.rs", C+"zune-core/src/bytestream/writer/std_writer.rs"],
 [("reader adapters", C+"zune-core/src/bytestream/reader/std_readers.rs"), ("writer adapters", C+"zune-core/src/bytestream/writer")])

prop("C21", "Byte stream reader and writer behave like a cursor model",
 "For every sequence of read, peek, skip, rewind, seek and bounded-read operations, the byte reader returns exactly the bytes and positions of a plain array-with-cursor model, multi-byte integers have the requested byte order, operations past the end report errors and never panic, and peeking never moves the position; writers store exactly what was written.",
 ["histories", "inputs"], "all operation sequences over all data, for every reader and writer implementation",
 "Unit tests run a few fixed sequences.",
 [C+"zune-core/src/bytestream/reader.rs", C+"zune-core/src/bytestream/reader/std_readers.rs", C+"zune-core/src/bytestream/reader/no_std_readers.rs", C+"zune-core/src/bytestream/writer.rs"],
 [("ZReader over ZByteReaderTrait", C+"zune-core/src/bytestream/reader.rs"), ("ZWriter", C+"zune-core/src/bytestream/writer.rs")])

prop("C22", "Images keep interleaved pixels intact",
 "Building an image from interleaved 8-bit, 16-bit or float samples, in any colourspace and size, and flattening it back returns exactly the same samples in the same order, whichever constructor or accessor is used; a per-pixel constructor visits every pixel exactly once at its own coordinates.",
 INC, "all dimensions (around SIMD block sizes) x channel counts x sample types x contents",
 "Tests use a few fixed sizes.",
 [C+"zune-image/src/image.rs", C+"zune-image/src/frame.rs", C+"zune-image/src/deinterleave.rs", C+"zune-image/src/channel.rs"],
 [("deinterleave / interleave", C+"zune-image/src/deinterleave"), ("flatten", C+"zune-image/src/frame.rs")])

prop("C23", "Bit depth conversion is value preserving",
 "Converting the depth of any image maps every sample of every channel and frame by the documented scaling between 8-bit, 16-bit and float ranges: black and white are preserved, order is monotone, widening then narrowing restores the original sample, and dimensions, colourspace and channel count are unchanged.",
 INC, "all sample values x all depth pairs x images",
 "Tests check few values.",
 [C+"zune-image/src/core_filters/depth.rs", C+"zune-imageprocs/src/depth.rs"],
 [("depth conversion", C+"zune-image/src/core_filters/depth.rs")])

prop("C24", "Colourspace conversion follows its defining formulas",
 "For every supported source and target colourspace and every pixel, conversion yields exactly the channels of the target colourspace with the values of the defining formula (grey weights, channel reordering, inversion-based CMYK, HSL/HSV geometry) within rounding; the result never depends on image size or intrinsics, alpha is carried through or set opaque, and pairs without loss restore the original.",
 INC, "all colourspace pairs x depths x pixel values x sizes",
 "Tests check that conversions run, on one constant image.",
 [C+"zune-image/src/core_filters/colorspace.rs", C+"zune-image/src/core_filters/colorspace/conversion_functions.rs"],
 [("conversion dispatch", C+"zune-image/src/core_filters/colorspace.rs"), ("per-pair kernels", C+"zune-image/src/core_filters/colorspace")])

prop("C25", "Saving and re-opening an image preserves it",
 "For every image and every lossless output format the library supports, encoding succeeds (converting depth or colourspace to one the format supports where needed), the format is recognised from its first bytes, and reading the result back gives the same dimensions and the samples that conversion defines; for JPEG output the decoded image is close to the original at high quality. (JPEG XL output needs at least two pixels per side and says so.) An image marked as premultiplied is written as the straight colours it shows. The source image is not modified by encoding.",
 INC, "all images (colourspace, depth, size, content) x output formats x encoder options",
 "Tests encode one constant image per format.",
 [C+"zune-image/src/traits.rs", C+"zune-image/src/codecs.rs", C+"zune-image/src/codecs"],
 [("encode pipeline with implicit conversion", C+"zune-image/src/traits.rs"), ("format guessing", C+"zune-image/src/codecs.rs")])

prop("C26", "Operation histories keep images well formed",
 "After any sequence of image operations, each with any parameters its documentation allows, every operation has either succeeded or returned an error without panicking, and the image stays well formed: channel count equals that of its colourspace, every channel of every frame has exactly width x height samples of its depth, and flattening and encoding it work.",
 ["histories", "inputs"], "all sequences of operations with random parameters over all image kinds (including 1-pixel-wide, multi-frame)",
 "Tests execute operations one at a time on fixed-size images.",
 [C+"zune-imageprocs/src", C+"zune-image/src/traits.rs", C+"zune-image/src/image.rs"],
 [("operation execution and invariant check", C+"zune-image/src/traits.rs"), ("operations", C+"zune-imageprocs/src")])

prop("C27", "Geometric operations move pixels exactly",
 "Flip, flop, mirror, transpose, right-angle rotation, crop, pad and EXIF auto-orientation place every source pixel of every channel at exactly the position their definition assigns, for every size, depth and parameter, and set the image dimensions accordingly.",
 INC, "all dimensions x depths x channel counts x parameters",
 "Tests use a few fixed square sizes.",
 [C+"zune-imageprocs/src/flip.rs", C+"zune-imageprocs/src/transpose.rs", C+"zune-imageprocs/src/rotate.rs", C+"zune-imageprocs/src/crop.rs", C+"zune-imageprocs/src/pad.rs", C+"zune-imageprocs/src/mirror.rs", C+"zune-imageprocs/src/auto_orient.rs"],
 [("blocked/SIMD transpose", C+"zune-imageprocs/src/transpose"), ("rotation", C+"zune-imageprocs/src/rotate.rs")])

prop("C28", "Neighbourhood filters match their naive definition",
 "Convolution, box blur, Gaussian blur, median, bilateral, erode/dilate/statistic filters, Sobel, Scharr and unsharp masking produce at every pixel, including borders, the value of their defining window computation on the edge-extended image, within rounding, for every size, radius and depth.",
 INC, "all dimensions x radii/kernels x depths x contents",
 "Tests only run them on constant images or in benchmarks.",
 [C+"zune-imageprocs/src/convolve.rs", C+"zune-imageprocs/src/box_blur.rs", C+"zune-imageprocs/src/gaussian_blur.rs", C+"zune-imageprocs/src/median.rs", C+"zune-imageprocs/src/spatial_ops.rs", C+"zune-imageprocs/src/sobel.rs", C+"zune-imageprocs/src/scharr.rs", C+"zune-imageprocs/src/unsharpen.rs", C+"zune-imageprocs/src/bilateral_filter.rs"],
 [("padding and window iteration", C+"zune-imageprocs/src/pad.rs"), ("kernels", C+"zune-imageprocs/src/spatial.rs")])

prop("C29", "Pointwise operations apply their formula to every pixel",
 "Brightness, contrast, exposure, gamma, invert, threshold, contrast stretching, HSV adjustment and colour matrix operations map each sample by their documented formula, clamped to the sample range, independently of neighbours, size and channel position, leaving alpha untouched where documented; neutral parameters leave the image unchanged.",
 INC, "all sample values x depths x parameters x sizes",
 "Tests run on constant images without checking values.",
 [C+"zune-imageprocs/src/brighten.rs", C+"zune-imageprocs/src/contrast.rs", C+"zune-imageprocs/src/exposure.rs", C+"zune-imageprocs/src/gamma.rs", C+"zune-imageprocs/src/invert.rs", C+"zune-imageprocs/src/threshold.rs", C+"zune-imageprocs/src/stretch_contrast.rs", C+"zune-imageprocs/src/hsv_adjust.rs", C+"zune-imageprocs/src/color_matrix.rs"],
 [("per-channel kernels", C+"zune-imageprocs/src")])

prop("C30", "Compositing, blending and alpha premultiplication are exact",
 "Compositing an image over another at any position or gravity changes exactly the overlapped pixels, by the documented blend method; blending mixes two images with the given weight; premultiplying and un-premultiplying alpha follow their formula within rounding for every sample and alpha value.",
 INC, "all image pairs x positions (also partly outside) x methods x depths",
 "Tests use fixed images.",
 [C+"zune-imageprocs/src/composite.rs", C+"zune-imageprocs/src/blend.rs", C+"zune-imageprocs/src/premul_alpha.rs"],
 [("composite", C+"zune-imageprocs/src/composite.rs"), ("premultiply tables", C+"zune-imageprocs/src/premul_alpha.rs")])

prop("C31", "Resizing and affine warps sample the source consistently",
 "Resizing any image to any size yields exactly the requested dimensions, keeps constant images constant, never leaves the range spanned by nearby source samples for interpolating (non-ringing) kernels, is the identity for unchanged size, treats channels and frames independently, and agrees with a direct evaluation of the chosen kernel.",
 INC, "all source/target sizes x methods x depths x contents",
 "Tests resize constant images and check dimensions.",
 [C+"zune-imageprocs/src/resize.rs", C+"zune-imageprocs/src/resize", C+"zune-imageprocs/src/affine.rs"],
 [("kernels", C+"zune-imageprocs/src/resize/seperable_kernel.rs")])

prop("C32", "Pipelines and the command line apply operations as given",
 "Running a pipeline or the command-line tool on any image with any list of operations gives exactly the image obtained by applying those operations one after another in the given order through the library, written to every requested output (standard output included, with nothing but the image in it) in the format its name denotes; failures, of writing the last bytes too, give a non-zero exit status and no panic.",
 ["inputs", "programs", "configurations"], "all operation lists x images x output formats",
 "No test runs the tool or a pipeline.",
 [C+"zune-bin/src/workflow.rs", C+"zune-bin/src/cmd_parsers", C+"zune-image/src/pipelines.rs"],
 [("argument order handling", C+"zune-bin/src/cmd_parsers/operations.rs"), ("workflow", C+"zune-bin/src/workflow.rs")])

prop("C33", "The C API returns what the Rust library returns",
 "For every input file or buffer and every option set through it, the C interface yields the same dimensions, depth, colourspace and pixel bytes as the Rust library, reports failure through its status object instead of crashing, and never writes beyond the buffer size the caller passed.",
 ["inputs", "histories"], "all inputs x call sequences x buffer sizes",
 "The C API has no tests of its own.",
 [C+"zune-capi/src/imread.rs", C+"zune-capi/src/image.rs", C+"zune-capi/src/improc.rs", C+"zune-capi/src/errno.rs"],
 [("imread / imdecode", C+"zune-capi/src/imread.rs"), ("image accessors", C+"zune-capi/src/image.rs")])

prop("C38", "Files are recognised by content, opened alike everywhere and saved completely",
 "Every supported file is recognised from its first bytes whatever its name, and gives the same picture through Image::read, open, the decoder picked for its format, the codec crates' own decoders and any reader; bytes without a known signature are refused. Saving writes, through every entry, the same bytes of the format the extension denotes, replacing what was there, and returns an error when the extension is unknown or when not all bytes could be written.",
 ["inputs", "configurations", "faults"], "all byte strings x entries x output formats x write faults",
 "The tests open a few files of known formats and never save to a failing device.",
 [C+"zune-image/src/codecs.rs", C+"zune-image/src/image.rs", C+"zune-image/src/traits.rs", C+"zune-image/src/codecs"],
 [("signature table and extension table", C+"zune-image/src/codecs.rs"), ("open / read / save", C+"zune-image/src/image.rs")])

prop("C39", "Results don't depend on how the crates are built or on the processor",
 "Decoding, encoding, (de)compression and image operations give bit for bit the same results and refusals whichever features the crates are built with (std or no_std, with or without threads, with AVX2/SSE, portable or no vector code) and whichever vector instructions the processor offers.",
 ["inputs", "configurations"], "all inputs x feature sets x processor generations",
 "The tests run one configuration (default features) on one processor, so only the AVX2 and threaded code is executed.",
 [C+"zune-core/Cargo.toml", C+"zune-png/src/filters", C+"zune-image/src/deinterleave", C+"zune-imageprocs/src", C+"zune-jpeg/src"],
 [("vector code selection", C+"zune-image/src/deinterleave/deinterleave_impls.rs"), ("feature gates", C+"zune-imageprocs/src/unsharpen.rs")])

prop("C40", "Only instructions the processor was found to have are executed",
 "On every x86-64 processor, whatever subset of SSE3, SSSE3, SSE4, AVX and AVX2 it offers, no input and no operation makes the library execute an instruction the processor lacks (which would kill the process).",
 ["inputs", "configurations"], "all inputs and operations x processor generations",
 "The tests run on a processor that has all the instructions, where a wrong check goes unnoticed.",
 [C+"zune-image/src/deinterleave/deinterleave_impls.rs", C+"zune-image/src/utils.rs", C+"zune-core/src/options/decoder.rs", C+"zune-png/src/utils.rs"],
 [("deinterleaver selection", C+"zune-image/src/deinterleave/deinterleave_impls.rs"), ("DecoderOptions::use_avx2 ...", C+"zune-core/src/options/decoder.rs")])

prop("C34", "Metadata survives decoding and re-encoding",
 "EXIF and ICC data of an image read from any format that carries them are kept by the image and its operations, and are written unchanged into output formats that support them (unless stripping is requested, in which case none is written); dimension, depth and colourspace metadata always describe the actual pixels.",
 INC, "images with arbitrary EXIF/ICC payloads x input formats x output formats x options",
 "Tests do not re-read written metadata.",
 [C+"zune-image/src/metadata.rs", C+"zune-image/src/codecs", C+"zune-png/src/headers/writers.rs"],
 [("metadata transfer", C+"zune-image/src/codecs")])

prop("C35", "Options carry exactly what was set",
 "For every sequence of setter calls on decoder and encoder options, each getter returns the value last set (quality clamped to 0..100) and no setter changes another option; strict mode and the intrinsics switches follow from the settings; colourspaces and depths report their true component counts, alpha positions and sizes.",
 ["histories", "inputs"], "all sequences of setter calls with all values, from every constructor",
 "Tests set single options.",
 [C+"zune-core/src/options/decoder.rs", C+"zune-core/src/options/encoder.rs", C+"zune-core/src/colorspace.rs", C+"zune-core/src/bit_depth.rs"],
 [("DecoderOptions", C+"zune-core/src/options/decoder.rs"), ("EncoderOptions", C+"zune-core/src/options/encoder.rs")])

prop("C37", "Colour profile conversion keeps the colour",
 "For every picture carrying an ICC profile and every destination space, the transformed samples denote the same colour in the destination (up to gamut clipping and rounding), alpha, size, depth and frame timing are unchanged, and the profile of the result is the destination's; without a profile nothing changes, and a refused picture is left as it was.",
 INC, "all sample values x source profiles x destinations x depths",
 "The test only checks that a transform runs.",
 [C+"zune-imageprocs/src/color_transform.rs"],
 [("ColorTransform", C+"zune-imageprocs/src/color_transform.rs")])

prop("C36", "Channels behave like typed vectors and stay within their memory",
 "For every sequence of pushes, extensions, fills, clones, reinterpretations and comparisons, a channel holds exactly the elements a typed vector would hold, reports that length, refuses to be read as another type, and never touches memory outside its allocation.",
 ["histories", "inputs"], "all operation sequences over all element types, lengths and initial capacities",
 "Tests push a single element; growth is only exercised by particular capacity patterns.",
 [C+"zune-image/src/channel.rs"],
 [("Channel", C+"zune-image/src/channel.rs")])


# ---------------------------------------------------------------- checks
def claim(id, pkg, technique, note):
    for p in P:
        if p["id"] == id:
            p.update(pkg=pkg, technique=PBT + technique, note=note)

claim("C04", "h_inflate", "generated legal deflate streams against a reference inflate, two independent compressors, damaged streams and trailers",
      "Random search (about 1.7 million cases per quick run). Trusts the bit-at-a-time reference inflate in models/src/deflate.rs, itself checked against the generator on every case.")

claim("C01", "h_png", "grammar-based and mutational generation of PNG files, random options, readers and call sequences; oracle: no panic, abort, hang or memory beyond the configured limits",
      "Random search (2 million files per quick run, built with overflow checks and debug assertions).")
claim("C05", "h_png", "generated valid PNG files against an independent model of the PNG specification (itself compared with the png crate on every case)",
      "Random search over colour type, depth, size, interlacing, filters, IDAT splits, palettes, tRNS and decoder options.")
claim("C06", "h_png", "generated images encoded and re-read with a chunk walker, the png crate and the library (round trip and differential)",
      "Random search; the png crate is trusted as the independent decoder.")
claim("C07", "h_png", "generated ancillary chunks compared with what was stored; fault injection into chunk data, CRCs and the zlib checksum",
      "Random search over chunk kinds, contents, positions and damaged bytes; includes chunks above 20 MB.")
claim("C08", "h_png", "generated animations against a reference canvas model, through random sequences of decode calls",
      "Random search; translucent blending is compared within a tolerance on the first such frame. One known finding (post_process_image applies a frame's dispose operation too early).")

claim("C02", "h_jpeg", "grammar-based and mutational generation of JPEG files (segment-level and entropy-level damage), random options, readers and call sequences; oracle: no panic, abort, hang or memory beyond the configured limits",
      "Random search (2 million files per quick run, built with overflow checks and debug assertions).")
claim("C09", "h_jpeg", "JPEG files written from random quantised coefficients against a floating-point reference decoder of the same coefficients",
      "Random search; tolerances of 2.6 to 6.5 grey levels cover the fixed-point transform and conversion.")
claim("C10", "h_jpeg", "metamorphic: one set of coefficients written as two different legal entropy-coded files must decode identically, with and without intrinsics",
      "Random search over scan scripts, successive approximation, restart intervals, Huffman tables and segment placement.")
claim("C11", "h_jpeg", "generated files and metadata segments against a model of the conversions and the stored payloads",
      "Random search over input kinds, requested colourspaces, option timing and metadata segment layouts.")

claim("C12", "h_codecs", "generated conforming QOI streams and images against a reference decoder and rapid-qoi (differential and round trip)",
      "Random search over chunk mixes and pixel structures.")
claim("C13", "h_codecs", "generated PGM/PPM/PAM/PFM files with random legal header layouts against the samples written; encoder round trip and an independent strict reader",
      "Random search over header layouts, maxval, depth, colourspace and pixel bytes that resemble header text.")
claim("C14", "h_codecs", "generated farbfeld files and images against the exact bytes the format defines, round trip, truncation",
      "Random search.")
claim("C15", "h_codecs", "generated Radiance files (flat, old- and new-style runs, row and column order, random attributes) against the RGBE values; encoder output read by a strict reader and the library",
      "Random search over floats of 200 binary orders of magnitude and random run splitting.")

claim("C16", "h_codecs", "generated BMP files of every header version, depth and compression against an independent writer's pixels",
      "Random search over header versions, masks, palettes, RLE structure and paddings.")

claim("C17", "h_codecs", "generated PSD files (gray/RGB/RGBA/CMYK, 8/16 bits, raw/PackBits, random sections) against an independent writer's samples",
      "Random search over PackBits run structure, extra channels and section lengths.")

claim("C18", "h_codecs", "generated images encoded at random effort and thread count, decoded by jxl-oxide (differential round trip); thread-count metamorphic relation",
      "Random search; jxl-oxide is trusted as the independent decoder.")
claim("C03", "h_codecs", "grammar-based and mutational generation of BMP, QOI, PNM, farbfeld, HDR and PSD files, random options, readers and call orders; oracle: no panic, abort, hang or memory beyond the configured limits",
      "Random search (4 million files per quick run, built with overflow checks and debug assertions).")
claim("C19", "h_codecs", "metamorphic: entry points of the eight decoders on the same input must agree; limit model; peak memory bound for oversized pictures",
      "Random search over files of all eight formats, valid and damaged.")
claim("C20", "h_codecs", "differential over reader and sink kinds; fault injection at every kind of position into readers and sinks",
      "Random search over fault positions and operation counts.")

claim("C21", "h_core", "model-based testing: random operation histories on readers and writers (with and without the std feature) against an array with a cursor",
      "Random search over operation sequences, positions up to 2^64 and reader kinds.")
claim("C35", "h_core", "model-based testing: random setter histories against a plain record",
      "Random search over setter sequences.")

claim("C22", "h_image", "model-based: images built from generated planes must read back the same samples through every accessor, interleaving and split",
      "Random search over dimensions, colorspaces, depths, frame counts and buffer lengths.")
claim("C23", "h_image", "property-based: depth changes on generated images against exact rational scaling, plus round trips that must be lossless",
      "Random search; u16 to u8 may round either way.")
claim("C24", "h_image", "differential: every pair of colorspaces, depths and sizes against a per-pixel float model of the conversion, plus reversible round trips",
      "Random search; other processors' paths are C39's.")
claim("C27", "h_image", "model-based: flips, rotations, transposition, crop, mirror and orientation against index arithmetic, and group laws over sequences of moves",
      "Random search over sizes (mostly small, block edges included), depths and colorspaces.")
claim("C36", "h_image", "model-based: random operation histories on channels against a plain vector, under a checking allocator",
      "Random search over operation sequences.")
claim("C28", "h_image", "differential: generated pictures through each neighbourhood filter against the window evaluated directly on the edge-extended plane",
      "Random search over sizes, radii, kernels and depths; single-core threads of the library are on.")
claim("C29", "h_image", "model-based: generated pictures and parameters through each pointwise operation against its formula in double precision",
      "Random search; whole-number results may be truncated or rounded.")
claim("C30", "h_image", "model-based: generated picture pairs, positions and weights against the Porter-Duff and premultiplication formulas, plus round trips",
      "Random search; all 8-bit value and alpha pairs in part of the cases.")
claim("C31", "h_image", "differential: generated resizes, affine maps and rotations against direct kernel evaluation in double precision, plus metamorphic laws (flat stays flat, identity)",
      "Random search over sizes up to 60.")
claim("C25", "h_image", "round trip: generated pictures through every encoder and entry point, recognised, read back and compared with the conversion the library defines",
      "Random search over colourspaces, depths, sizes up to 300 and encoder options; JPEG is compared within rounding at quality 100.")
claim("C26", "h_image", "stateful: random operation histories on generated images; after every step the image must be well formed and encodable, errors allowed, panics not",
      "Random search, up to a dozen operations per history on small images.")
claim("C34", "h_image", "round trip: generated EXIF and ICC payloads put into files by an independent writer and through the library's encoders, compared after reading, operations and re-encoding",
      "Random search; WebP, BMP, PNG and JPEG input, PNG and JPEG output.")
claim("C32", "h_cli", "differential: generated pipelines and command lines, run through Pipeline and through the tool itself, against the same operations applied one by one through the library",
      "Random search; the tool runs as its own process in a scratch directory. Log lines share standard output with --probe, so those runs pass --no-log.")
claim("C39", "h_lean", "differential: generated decoding, encoding and image-processing jobs run in this build and in builds with other features or on pretended older processors, results compared bit for bit",
      "Random search; the four other builds are no_std codecs, no threads or vector code, no threads, and portable vector code (nightly). NEON and wasm code isn't run.")
claim("C40", "h_lean", "fault-model testing: generated jobs on pretended older processors with breakpoints on every instruction these lack",
      "Random search; five processor generations from SSE2-only to AVX. Only the library's own functions are watched.")
claim("C38", "h_codecs", "differential: generated files through every entry for opening against each other, any bytes against a signature table, and generated images through every entry for saving with injected faults",
      "Random search; full disks are /dev/full. Damaged JPEG XL and WebP files are only checked for recognition (their decoders are not part of this repository).")
claim("C33", "h_capi", "stateful, differential: generated call histories through the C interface, run in a child process with guarded buffers, compared call by call with the Rust library",
      "Random search; crashes, aborts and steady memory growth count as failures. Pointers are valid or null where the header allows it.")
claim("C37", "h_image", "differential: generated pictures and profiles through the colour transform against the transform computed in double precision from published primaries and curves",
      "Random search; matrix profiles only. Tolerances of 0.0035 of linear light plus about one 8-bit level.")
