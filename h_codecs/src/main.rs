mod api;
mod bmp;
mod dec;
mod farbfeld;
mod hdr;
#[path = "../../h_jpeg/src/gen.rs"]
#[allow(dead_code)]
mod jgen;
mod jxl;
mod open;
mod pnm;
mod psd;
mod qoi;
mod total;
mod util;
use pbt::{Property, Sub};

fn main() {
    pbt::main(vec![
        Property {
            id: "C12",
            rule: "decode: a conforming QOI stream of random chunks (any mix of the six kinds, runs clipped to the image, no repeated index) compared with a reference decoder written from the specification. encode: random RGB/RGBA pixels with runs, repeated colours and small differences; the output must be a conforming stream with an exact end marker which the reference decoder, rapid-qoi and the library read back to the same pixels. Non-trivial: more than 4 pixels.",
            assumptions: &["trailing bytes after the end marker are allowed when decoding"],
            subs: vec![
                Sub { name: "decode", f: qoi::decode, quick: 400_000, thorough: 40_000_000 },
                Sub { name: "encode", f: qoi::encode, quick: 200_000, thorough: 20_000_000 },
            ]
        },
        Property {
            id: "C13",
            rule: "decode: a random PGM, PPM, PAM or PFM file with any legal header layout (whitespace, comments, leading zeros, PAM line order, maxval 1..65535, both PFM byte orders) and pixel bytes that look like header text; samples, dimensions, depth and colourspace must be those written; cut or over-limit files must be errors. encode: a random image of any depth and colourspace; accepted images must give a conforming file (strict independent reader) that decodes to the same samples. Non-trivial: more than one pixel (decode), accepted (encode).",
            assumptions: &["samples are the stored values (not rescaled from maxval)", "PBM and plain-text files are outside the supported formats", "PAM files carry one of the four GRAYSCALE/RGB(_ALPHA) tuple types"],
            subs: vec![
                Sub { name: "decode", f: pnm::decode, quick: 400_000, thorough: 30_000_000 },
                Sub { name: "encode", f: pnm::encode, quick: 200_000, thorough: 15_000_000 },
            ]
        },
        Property {
            id: "C14",
            rule: "decode: a random farbfeld file (optionally with trailing bytes) through decode(), headers-then-decode and decode_into; truncated files must be errors. encode: random 16-bit RGBA samples must give exactly the file the format defines and decode back; wrong descriptions must be errors. Non-trivial: more than one pixel.",
            assumptions: &[],
            subs: vec![
                Sub { name: "decode", f: farbfeld::decode, quick: 150_000, thorough: 20_000_000 },
                Sub { name: "encode", f: farbfeld::encode, quick: 150_000, thorough: 20_000_000 },
            ]
        },
        Property {
            id: "C15",
            rule: "decode: a random Radiance file (either magic, random header lines, row or column order, per-line flat, old-style or new-style run-length coding with random run splitting, widths around 8 and 32767) compared with the values its RGBE pixels denote and its header attributes; truncated files must be errors. encode: random floats over 200 binary orders of magnitude with random headers; the file must be conforming (strict reader) and every component restored within 1/127.5 of the largest component. Non-trivial: more than 4 pixels (decode), more than 1 (encode).",
            assumptions: &["a pixel denotes mantissa * 2^(exponent-136) (no half-unit offset)", "flat pixels (1,1,1,n) are runs, so they are not generated as pixels", "floats are below 2^127 and magnitudes below 1e-32 may become zero"],
            subs: vec![
                Sub { name: "decode", f: hdr::decode, quick: 200_000, thorough: 20_000_000 },
                Sub { name: "encode", f: hdr::encode, quick: 120_000, thorough: 10_000_000 },
            ]
        },
        Property {
            id: "C16",
            rule: "A random BMP: every header version (12 to 124 bytes), 1/2/4/8/16/24/32 bits, random palettes of any size, bit-field masks of any widths and order with optional alpha, RLE4/RLE8 with runs, absolute groups, deltas and early line ends, both row orders, gaps, stale masks, ICC profiles, strict and tolerant mode, red or blue first, whole or into a buffer. Pixels, dimensions, colourspace, primaries and profile must be those the format assigns. Non-trivial: more than one pixel.",
            assumptions: &["scaling of bit fields may round either way (1), except at the ends of the range", "pixels skipped by RLE deltas and early line ends are undefined and not compared", "8-bit files without a palette are grayscale, as announced by the decoder"],
            subs: vec![Sub { name: "decode", f: bmp::decode, quick: 500_000, thorough: 40_000_000 }]
        },
        Property {
            id: "C17",
            rule: "A random PSD: 1x1 to 70x70, grayscale with 1-4 stored channels, RGB, RGBA or CMYK, 8 or 16 bits, raw or PackBits with random run splitting and no-op bytes, three sections of random length, optional trailing bytes. Samples, dimensions, depth and colourspace must be those stored. Non-trivial: more than one pixel.",
            assumptions: &["RGBA composites are stored over white, and the decoder's removal of that matte is part of the expected value (tolerance 1 plus float rounding)", "grayscale files yield their first channel"],
            subs: vec![Sub { name: "decode", f: psd::decode, quick: 200_000, thorough: 20_000_000 }]
        },
        Property {
            id: "C18",
            rule: "encode: random samples (runs, small differences, noise; 16-bit values around 32768 and 65535) of Luma, LumaA, RGB or RGBA, 8 or 16 bits, 1x1 to 2300 wide, several 256-pixel groups, any effort and thread count; the stream is decoded by jxl-oxide and must carry the dimensions, depths and every sample exactly, and the bytes must not depend on the thread count. Non-trivial: the encoder accepted the image.",
            assumptions: &["jxl-oxide decodes modular streams correctly", "images one pixel wide or high may be refused (the encoder documents this)"],
            subs: vec![Sub { name: "encode", f: jxl::encode, quick: 30_000, thorough: 2_000_000 }]
        },
        Property {
            id: "C03",
            rule: "Inputs: valid BMP, QOI, PNM, farbfeld, HDR and PSD files of the generators and test images with header fields overwritten, words inserted, pieces glued and up to 5 random edits, and headers followed by noise. total: random limits, options, reader kinds (memory, buffered, small pieces), call orders, buffer sizes, decoders of other formats and the format-guessing image reader, with a bound on the peak memory. defaults: default and absent limits. Every case must return. Non-trivial: the headers were accepted.",
            assumptions: &["a case that runs for 20 s counts as spinning"],
            subs: vec![
                Sub { name: "total", f: total::total, quick: 3_000_000, thorough: 60_000_000 },
                Sub { name: "defaults", f: total::defaults, quick: 1_000_000, thorough: 15_000_000 },
            ]
        },
        Property {
            id: "C19",
            rule: "agree: a valid or damaged file of any of the eight formats with random options, decoded directly, after decode_headers, and through decode_into with an exact, larger, smaller and blind buffer; results, descriptions, announced sizes and the untouched tail must agree. limits: width and height limits around the picture's size. huge: pictures far beyond the limits, which must be refused within 1 MiB of memory. Non-trivial: the file decodes (agree), always (limits, huge).",
            assumptions: &["PPM and PSD have no decode_into; PSD's decode_raw takes its place"],
            subs: vec![
                Sub { name: "agree", f: api::agree, quick: 150_000, thorough: 10_000_000 },
                Sub { name: "limits", f: api::limits, quick: 60_000, thorough: 5_000_000 },
                Sub { name: "huge", f: api::huge, quick: 100_000, thorough: 10_000_000 },
            ]
        },
        Property {
            id: "C20",
            rule: "readers: a valid or damaged file of any of the eight formats through an in-memory cursor, std Cursor, BufReader of any capacity and readers delivering 1..500 bytes at a time; results must be identical. faults: truncation at every kind of position, a byte range that cannot be read, and operations failing after the n-th; the result must be an error or, for the tolerant decoders, an image of the full size. sinks: six encoders into vectors, cursors, slices, buffered and small-piece sinks and sinks failing at any byte. Non-trivial: the file decodes (readers), a fault was planned (faults), the image was encoded (sinks).",
            assumptions: &["tolerant decoders: BMP, and JPEG and PNG without strict mode; in strict mode a JPEG that merely ends early may still come back as a complete image (the end is looked for between rows of MCUs), but a failing reader may not"],
            subs: vec![
                Sub { name: "readers", f: api::readers, quick: 80_000, thorough: 6_000_000 },
                Sub { name: "faults", f: api::faults, quick: 150_000, thorough: 12_000_000 },
                Sub { name: "sinks", f: api::sinks, quick: 100_000, thorough: 8_000_000 },
            ]
        },
        Property {
            id: "C38",
            rule: "open: a valid file of the eight formats (or a JPEG XL or WebP file) with random options: the format recognised, and the picture through Image::read, the decoder picked by format (with or without headers first), other readers, files opened under misleading names, the concrete decoder types, DecodeInto and the codec crate itself. tell: any bytes, signatures with noise and damaged files; the format must be the one the signature table gives, and reading must agree with guessing and decoding. save: images of any depth and several colourspaces under every extension, through every way of writing, over longer files, to unknown extensions, missing directories and a full disk. Non-trivial: the file decodes (open), it carries a signature (tell), the encoder accepted (save).",
            assumptions: &["formats are recognised from the first bytes only; the names of files opened do not matter", "a file cut inside its signature may be left unrecognised"],
            subs: vec![
                Sub { name: "open", f: open::open, quick: 80_000, thorough: 6_000_000 },
                Sub { name: "tell", f: open::tell, quick: 200_000, thorough: 20_000_000 },
                Sub { name: "save", f: open::save, quick: 60_000, thorough: 4_000_000 },
            ]
        },
    ]);
}
