//! Checks of the library crates: codes, inputs, sending, scanning, PSBTs and discrete-log equality proofs.
mod codes;
mod dleqs;
mod inputs;
mod psbts;
mod send;

fn main() {
    let mut props = vec![];
    props.extend(codes::props());
    props.extend(inputs::props());
    props.extend(send::props());
    props.extend(psbts::props());
    props.extend(dleqs::props());
    engine::main(&props)
}
