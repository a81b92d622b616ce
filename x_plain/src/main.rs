//! runs image jobs without threads and vector instructions
#[path = "../../h_image/src/hist.rs"]
#[allow(dead_code)]
mod hist;
#[path = "../../h_image/src/im.rs"]
#[allow(dead_code)]
mod im;
#[path = "../../h_lean/src/link.rs"]
#[allow(dead_code)]
mod link;
#[path = "../../h_image/src/save.rs"]
#[allow(dead_code)]
mod save;
#[path = "../../h_lean/src/script.rs"]
#[allow(dead_code)]
mod script;

fn main() {
    link::serve(script::run);
}
