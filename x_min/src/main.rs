//! runs codec jobs with the crates' features switched off
#[path = "../../h_lean/src/codec.rs"]
mod codec;
#[path = "../../h_lean/src/link.rs"]
#[allow(dead_code)]
mod link;

fn main() {
    link::serve(codec::run);
}
