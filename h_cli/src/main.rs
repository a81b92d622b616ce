mod cli;
#[path = "../../h_image/src/im.rs"]
#[allow(dead_code)]
mod im;
mod ops;
mod pipe;
use pbt::{Property, Sub};

fn main() {
    // the same program is the tool under test when asked
    if std::env::var_os("PBT_TOOL").is_some() {
        zune_bin::main();
        return;
    }
    pbt::main(vec![Property {
        id: "C32",
        rule: "pipeline: random images and decoders with random lists of operations, advanced step by step or to the end, against the operations applied one after another. tool: the command line run as a process on generated files or standard input with random operations in random order, random settings and one to three outputs, every output file byte for byte what the library writes for the same operations; failures of reading, of an operation or of writing must end in a non-zero status without a panic. probe: the description of a file is what the library reads from it. Non-trivial: two operations or more ran (pipeline), the tool wrote an output after at least one operation (tool), the file was recognised (probe).",
        assumptions: &["each operation is given at most once per command line (the tool's own rule)", "--view is not run (opens a window)"],
        subs: vec![
            Sub { name: "pipeline", f: pipe::pipeline, quick: 50_000, thorough: 2_000_000 },
            Sub { name: "tool", f: cli::tool, quick: 9_000, thorough: 400_000 },
            Sub { name: "refusals", f: cli::refusals, quick: 3_000, thorough: 100_000 },
            Sub { name: "probe", f: cli::probe, quick: 1_500, thorough: 100_000 },
        ]
    }]);
}
