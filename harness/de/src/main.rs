mod evalp;
mod deep;
mod derp;
mod ops;
mod tree;
mod reader;
mod treep;

fn main() {
    vcommon::main_with(vec![evalp::e01(), evalp::e02(), evalp::e03(), derp::e04(), derp::e05(), treep::e06(), treep::e07(), treep::e08(), treep::e09(), treep::e10()]);
}
