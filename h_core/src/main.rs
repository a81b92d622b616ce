mod bytes;
mod opts;
use pbt::{Property, Sub};

fn main() {
    pbt::main(vec![
        Property {
            id: "C21",
            rule: "readers: up to 25 random operations (skip, rewind, seek, bounded, fixed-size and integer reads, peeks, end tests, whole rest; moves around the ends and around powers of two up to 2^64) on ZReader over ZCursor (with and without std), Cursor, BufReader and readers delivering small pieces, each step compared with an array and a position. cursor: ZCursor against std::io::Cursor. writers: random writes into vectors, slices, cursors and small-piece sinks. Non-trivial: the position moved (readers), an operation was compared (cursor), two bytes were stored (writers).",
            assumptions: &["seeks to positions beyond i64 may be refused", "after a write that did not fit, a slice may hold part of its bytes (std's own behaviour)"],
            subs: vec![
                Sub { name: "readers", f: bytes::readers, quick: 3_000_000, thorough: 150_000_000 },
                Sub { name: "cursor", f: bytes::cursor, quick: 1_000_000, thorough: 50_000_000 },
                Sub { name: "writers", f: bytes::writers, quick: 1_000_000, thorough: 50_000_000 },
            ]
        },
        Property {
            id: "C35",
            rule: "decoder, encoder: up to 20 random setter calls on options from every constructor; after each, every getter must return what a plain record of the settings holds (quality clamped to 100), strict mode and the intrinsics switches must follow from them. types: component counts, alpha positions and sizes of colourspaces and depths. Non-trivial: at least one setter was called.",
            assumptions: &["x86-64 only for the processor features"],
            subs: vec![
                Sub { name: "decoder", f: opts::decoder, quick: 500_000, thorough: 30_000_000 },
                Sub { name: "encoder", f: opts::encoder, quick: 500_000, thorough: 30_000_000 },
                Sub { name: "types", f: opts::types, quick: 20_000, thorough: 100_000 },
            ]
        },
    ]);
}
