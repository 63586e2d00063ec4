//! Checks of the second command-line wallet.
#[path = "../../cli/src/chain.rs"]
mod chain;
mod light;
#[path = "../../cli/src/node.rs"]
mod node;
#[path = "../../cli/src/run.rs"]
mod run;
mod scan;
mod v2;

fn main() {
    let mut p = v2::props();
    p.extend(scan::props());
    engine::main(&p)
}
