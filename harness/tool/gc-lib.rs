// A program around the file functions of the library, run like the commands of /repo:
// gc-lib tgf|gcmd IN OUT    reads the commands in IN, saves the graph to OUT
// gc-lib fromtgf IN OUT     reads the TGF file IN, saves the graph to OUT as commands
use gc_core::format::{gcmd, tgf};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = std::fs::File::open(&a[2]).expect("input");
    let r = match a[1].as_ref() {
        "tgf" => tgf::save(&gcmd::read(f).expect("graph"), a[3].clone()),
        "fromtgf" => gcmd::save(&tgf::read(f).expect("graph"), &a[3]),
        _ => gcmd::save(&gcmd::read(f).expect("graph"), &a[3]),
    };
    r.expect("saved")
}
