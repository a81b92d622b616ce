//! runs jobs without threads, on a pretended older processor, instruction by instruction if asked to
#[path = "../../h_lean/src/codec.rs"]
mod codec;
#[path = "../../h_lean/src/cpu.rs"]
mod cpu;
#[path = "../../h_image/src/hist.rs"]
#[allow(dead_code)]
mod hist;
#[path = "../../h_image/src/im.rs"]
#[allow(dead_code)]
mod im;
#[path = "../../h_lean/src/link.rs"]
#[allow(dead_code)]
mod link;
#[path = "../../h_image/src/save.rs"]
#[allow(dead_code)]
mod save;
#[path = "../../h_lean/src/script.rs"]
#[allow(dead_code)]
mod script;
#[path = "../../h_lean/src/serve.rs"]
mod serve;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    serve::serve(&a[1..]);
}
