//! Checks of the command-line wallets.
mod chain;
mod keys;
mod node;
mod psbt;
mod run;
mod v1;

fn main() {
    let mut props = vec![];
    props.extend(v1::props());
    props.extend(psbt::props());
    engine::main(&props)
}
