mod c02;
mod c09;
mod c10;
mod c11;
mod gen;
mod model;
use pbt::{Property, Sub};

fn main() {
    pbt::main(vec![
        Property {
            id: "C02",
            rule: "A case is a byte string (a generated baseline, multi-scan or progressive JPEG or a corpus file, after segment-level damage with consistent or lying lengths and byte-level edits), random decoder options (strictness, intrinsics, output colourspace, scan and size limits), a reader kind and a random sequence of decoder calls. It must return without panic, abort, hang (45 s) or excessive memory. A case is non-trivial when the headers were accepted.",
            assumptions: &["memory bound: 16 MiB + 128 bytes per pixel of the configured limits + 40 bytes per input byte"],
            subs: vec![Sub { name: "total", f: c02::total, quick: 2_000_000, thorough: 60_000_000 }]
        },
        Property {
            id: "C09",
            rule: "A case is a sequential JPEG (1, 3 or 4 components, any sampling layout, random quantisation and Huffman tables, single or several scans, restart intervals, extra segments) written from random quantised coefficients. The decoded samples are compared with a floating-point inverse DCT, triangle-filter upsampling and the conversion formulas of the same coefficients. Non-trivial: more than one block.",
            assumptions: &["tolerance: 2.6 for components, 3.6 after CMYK to RGB, 6.5 after YCbCr to RGB (fixed-point transform error times the conversion factor); mean of larger images within 40% of it", "at the right and bottom edge, samples beyond the component's own size may or may not take part in upsampling", "layouts outside the usual ones may use replication instead of interpolation"],
            subs: vec![
                Sub { name: "small", f: c09::small, quick: 300_000, thorough: 30_000_000 },
                Sub { name: "large", f: c09::large, quick: 8_000, thorough: 1_000_000 },
                Sub { name: "huge", f: c09::huge, quick: 30, thorough: 3_000 },
                Sub { name: "sampling", f: c09::sampling, quick: 30_000, thorough: 10_000_000 },
            ]
        },
        Property {
            id: "C10",
            rule: "A case is one set of random quantised coefficients written twice: as a plain single-scan baseline file and as another legal encoding (progressive with a random scan script and successive approximation, several sequential scans, restart intervals, other Huffman tables, 16-bit quantisation tables, fill bytes, extra segments, tables in other places). Both must decode to identical bytes, with intrinsics on and off within 3. Non-trivial: several scans or a restart interval.",
            assumptions: &["intrinsics on and off may differ by rounding (at most 3)"],
            subs: vec![
                Sub { name: "small", f: c10::small, quick: 500_000, thorough: 30_000_000 },
                Sub { name: "large", f: c10::large, quick: 15_000, thorough: 1_000_000 },
            ]
        },
        Property {
            id: "C11",
            rule: "spaces: a random JPEG of any kind decoded with a random requested output colourspace set at construction, before or after the headers; the announced colourspace and size must be those requested and the pixels those of the conversion formulas, or an error for conversions that are not basic. Non-trivial: it decodes. metadata: a JPEG with random EXIF, XMP, IPTC and (multi-segment, shuffled, possibly incomplete) ICC segments among unrelated ones; payloads must be reported byte for byte. Non-trivial: two or more segments.",
            assumptions: &["tolerances as for C09", "an incomplete ICC profile is reported as absent"],
            subs: vec![
                Sub { name: "spaces", f: c11::spaces, quick: 300_000, thorough: 20_000_000 },
                Sub { name: "metadata", f: c11::metadata, quick: 120_000, thorough: 8_000_000 },
            ]
        },
    ]);
}
