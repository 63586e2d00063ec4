//! Checks of the wallet.
#[path = "../../idx/src/common.rs"]
#[allow(dead_code)]
mod common;
#[path = "../../idx/src/v2.rs"]
#[allow(dead_code)]
mod v2;
mod wallet;

fn main() {
    engine::main(&wallet::props())
}
