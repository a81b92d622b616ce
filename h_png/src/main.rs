mod c01;
mod c05;
mod c06;
mod c07;
mod c08;
use pbt::{Property, Sub};

fn main() {
    pbt::main(vec![
        Property {
            id: "C01",
            rule: "A case is a byte string (a generated still or animated PNG, or a corpus file, after chunk-level damage with valid checksums, wrong chunk lengths and byte-level edits), random decoder options including small limits, a reader kind, and a random sequence of decoder calls. It must return without panic, abort, hang (45 s) or excessive memory. A case is non-trivial when the header was accepted.",
            assumptions: &["memory bound: 64 MiB + 48 bytes per pixel of the configured limits (8 more per animation frame in the image library) + 40 bytes per input byte"],
            subs: vec![
                Sub { name: "total", f: c01::total, quick: 1_500_000, thorough: 60_000_000 },
                Sub { name: "defaults", f: c01::defaults, quick: 500_000, thorough: 20_000_000 }
            ]
        },
        Property {
            id: "C05",
            rule: "A case is a PNG file built from random samples (colour type, depth, size, interlacing, row filters, IDAT split, palette, tRNS) decoded under random options through decode / decode_raw / decode_into; the pixels are compared with those the specification assigns, computed from the samples. A case is non-trivial when the image has at least two rows and a filter other than none, or is interlaced, or has a palette or tRNS.",
            assumptions: &["the specification model agrees with the png crate (checked on every case)"],
            subs: vec![
                Sub { name: "pixels", f: c05::pixels, quick: 1_500_000, thorough: 30_000_000 },
                Sub { name: "large", f: c05::large, quick: 10_000, thorough: 400_000 },
                Sub { name: "options", f: c05::options, quick: 2_000, thorough: 2_000 }
            ]
        },
        Property {
            id: "C06",
            rule: "A case is an image of random dimensions, colourspace, depth and contents (optionally with EXIF data) that is encoded; the output is checked with a chunk walker, a reference inflate, the png crate and the library's decoder in strict mode.  refuse: any colourspace, depth, size and amount of data; impossible ones must be errors. A case is non-trivial when the image has more than one pixel.",
            assumptions: &["the png crate decodes PNG correctly"],
            subs: vec![
                Sub { name: "small", f: c06::small, quick: 1_500_000, thorough: 8_000_000 },
                Sub { name: "large", f: c06::large, quick: 30_000, thorough: 150_000 },
                Sub { name: "wrong_size", f: c06::wrong_size, quick: 20_000, thorough: 100_000 },
                Sub { name: "refuse", f: c06::refuse, quick: 100_000, thorough: 1_000_000 }
            ]
        },
        Property {
            id: "C07",
            rule: "A case is a valid PNG with random ancillary chunks: either its metadata is compared with what was stored, or one or two bytes of one chunk (data, type or CRC) or of the zlib checksum are damaged and the outcome with and without confirmation is checked. Non-trivial: more than one ancillary chunk, or damage.",
            assumptions: &["text chunks use the forms the library documents: iTXt text is everything after the two empty tags"],
            subs: vec![
                Sub { name: "metadata", f: c07::metadata, quick: 400_000, thorough: 10_000_000 },
                Sub { name: "crc", f: c07::crc, quick: 400_000, thorough: 10_000_000 },
                Sub { name: "adler", f: c07::adler, quick: 300_000, thorough: 8_000_000 },
                Sub { name: "huge", f: c07::huge, quick: 12, thorough: 100 }
            ]
        },
        Property {
            id: "C08",
            rule: "A case is an animation (frame count, rectangles, offsets, dispose and blend operations, delays, fdAT splits, default image in or out of the sequence) built from random samples: its frames are iterated with randomly chosen decode calls and compared with what was stored, or its canvases are compared with those the APNG specification defines. Non-trivial: more than one frame.",
            assumptions: &["translucent blending is compared with a floating-point evaluation within 2.5/255, for the first such frame of an animation"],
            subs: vec![
                Sub { name: "frames", f: c08::frames, quick: 250_000, thorough: 6_000_000 },
                Sub { name: "compose_api", f: c08::compose_api, quick: 150_000, thorough: 4_000_000 },
                Sub { name: "compose_image", f: c08::compose_image, quick: 150_000, thorough: 4_000_000 }
            ]
        }
    ]);
}
