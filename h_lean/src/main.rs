#[path = "../../h_codecs/src/bmp.rs"]
#[allow(dead_code)]
mod bmp;
mod codec;
#[path = "../../h_codecs/src/dec.rs"]
#[allow(dead_code)]
mod dec;
#[path = "../../h_codecs/src/farbfeld.rs"]
#[allow(dead_code)]
mod farbfeld;
#[path = "../../h_codecs/src/hdr.rs"]
#[allow(dead_code)]
mod hdr;
#[path = "../../h_image/src/hist.rs"]
#[allow(dead_code)]
mod hist;
#[path = "../../h_image/src/im.rs"]
#[allow(dead_code)]
mod im;
#[path = "../../h_jpeg/src/gen.rs"]
#[allow(dead_code)]
mod jgen;
mod link;
mod peer;
#[path = "../../h_codecs/src/pnm.rs"]
#[allow(dead_code)]
mod pnm;
#[path = "../../h_codecs/src/psd.rs"]
#[allow(dead_code)]
mod psd;
#[path = "../../h_codecs/src/qoi.rs"]
#[allow(dead_code)]
mod qoi;
#[path = "../../h_image/src/save.rs"]
#[allow(dead_code)]
mod save;
mod same;
mod script;
#[path = "../../h_codecs/src/util.rs"]
#[allow(dead_code)]
mod util;
use pbt::{Property, Sub};

fn main() {
    pbt::main(vec![
        Property {
            id: "C39",
            rule: "The same job in this build (all default features) and in another process, everything it yields compared bit for bit. codecs: decode (whole, into a buffer, all getters, valid and damaged files, random options), encode and (de)compress with the codec crates built without any feature (no std, no vector code, no threads). images: open a file of eight formats or make a picture, up to four random operations, save in one of seven formats and read back, with zune-image and zune-imageprocs built without threads and vector code. portable: both, built with the portable vector code on the nightly compiler. processor: both, on a pretended processor without AVX2, AVX, SSE4, SSSE3 or SSE3 (and without threads). Non-trivial: something was decoded or encoded, or an operation succeeded.",
            assumptions: &["errors are compared as errors, not by their texts", "JPEG files and ICC transforms come from other crates with vector code of their own and are not compared", "without the std feature the HDR codec doesn't exist"],
            subs: vec![
                Sub { name: "codecs", f: same::codecs, quick: 200_000, thorough: 5_000_000 },
                Sub { name: "images", f: same::images, quick: 60_000, thorough: 1_000_000 },
                Sub { name: "portable", f: same::portable, quick: 80_000, thorough: 2_000_000 },
                Sub { name: "processor", f: same::processor, quick: 100_000, thorough: 1_000_000 },
            ]
        },
        Property {
            id: "C40",
            rule: "The jobs of C39 on a pretended processor (bits of std's feature detection cleared) without AVX2, AVX, SSE4, SSSE3 or SSE3, with a breakpoint on every instruction of the library's functions which such a processor doesn't have; none may be reached. Non-trivial: the job did something (more than six recorded results).",
            assumptions: &["instructions are classified by their names in objdump's listing; functions are the library's when their symbol names a zune crate", "code that runs in other threads isn't in this build (built without threads)"],
            subs: vec![Sub { name: "watch", f: same::watch, quick: 80_000, thorough: 2_000_000 }]
        }
    ]);
}
