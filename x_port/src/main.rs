//! runs image jobs with the portable vector code
#[path = "../../h_lean/src/codec.rs"]
mod codec;
#[path = "../../h_image/src/hist.rs"]
#[allow(dead_code)]
mod hist;
#[path = "../../h_image/src/im.rs"]
#[allow(dead_code)]
mod im;
#[path = "../../h_lean/src/link.rs"]
#[allow(dead_code)]
mod link;
#[path = "../../h_image/src/save.rs"]
#[allow(dead_code)]
mod save;
#[path = "../../h_lean/src/script.rs"]
#[allow(dead_code)]
mod script;

fn main() {
    let image = std::env::args().nth(1).is_some_and(|a| a == "image");
    link::serve(move |job| if image { script::run(job) } else { codec::run(job) });
}
