#![allow(unused_variables)]
mod evolve;
mod gen;
#[path = "../../de/src/ops.rs"]
mod ops;
#[path = "../../de/src/tree.rs"]
mod tree;
mod search;
mod unit;

#[allow(dead_code)]
fn main() {
    vcommon::main_with(vec![unit::p_e11(), unit::p_s01(), unit::p_s03(), unit::p_s04(), unit::p_s05(), unit::p_s09(), unit::p_s10(), unit::p_s11(), unit::p_s15(), evolve::p_s02(), evolve::p_s06(), evolve::p_s07(), evolve::p_s08(), search::p_s12(), search::p_s13(), search::p_s14(), search::p_s16(), search::p_s17()]);
}
