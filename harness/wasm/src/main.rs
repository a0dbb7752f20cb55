#[path = "../../de/src/ops.rs"]
#[allow(dead_code)]
mod ops;
#[path = "../../de/src/reader.rs"]
mod reader;
#[path = "../../de/src/tree.rs"]
#[allow(dead_code)]
mod tree;
mod web;

fn main() {
    vcommon::main_with(vec![web::w01(), web::w02(), web::w03(), web::w04()]);
}
