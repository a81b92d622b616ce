#![allow(dead_code)]
#[path = "../../h_codecs/src/bmp.rs"]
mod bmp;
#[path = "../../h_codecs/src/dec.rs"]
mod dec;
#[path = "../../h_codecs/src/farbfeld.rs"]
mod farbfeld;
mod ffi;
mod fork;
#[path = "../../h_codecs/src/hdr.rs"]
mod hdr;
mod header;
#[path = "../../h_image/src/im.rs"]
mod im;
#[path = "../../h_jpeg/src/gen.rs"]
mod jgen;
mod plan;
#[path = "../../h_codecs/src/pnm.rs"]
mod pnm;
#[path = "../../h_codecs/src/psd.rs"]
mod psd;
#[path = "../../h_codecs/src/qoi.rs"]
mod qoi;
mod session;
#[path = "../../h_codecs/src/util.rs"]
mod util;
use pbt::{Property, Sub};
use zil_c as _;

fn main() {
    // memory handed out by malloc is not zeroed
    unsafe { libc::mallopt(libc::M_PERTURB, 0x5A) };
    // nothing is initialised lazily by one thread while another forks
    header::get();
    im::exif_metadata(vec![]);
    pbt::main(vec![Property {
        id: "C33",
        rule: "session: a random history of calls through the C interface (statuses and images created, decoded, processed, copied, written and freed, null and unsuitable arguments included) in a child process, compared call by call with the same history in the Rust library; buffers are guarded on both sides, malloc'ed memory is filled with garbage, and a crash, an abort or memory that grows with each repetition is a failure. decode: one file of any format, valid or damaged, through the six decoding entry points with buffers of exact, larger, smaller and misaligned size. header: the numbers and names in zil.h are those of the library. Non-trivial: at least one image was produced and inspected.",
        assumptions: &["pointers are valid or null where the header allows null", "each object is freed once"],
        subs: vec![
            Sub { name: "session", f: session::session, quick: 14_000, thorough: 1_000_000 },
            Sub { name: "decode", f: session::decode, quick: 8_000, thorough: 600_000 },
            Sub { name: "header", f: header::header, quick: 40, thorough: 400 },
        ]
    }]);
}
