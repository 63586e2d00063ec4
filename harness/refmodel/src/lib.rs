//! The oracle side of the harness: BIP352, BIP350 (bech32m) and BIP374 written from the specifications, sharing
//! nothing with the code under test but the elliptic curve and the hash primitives, and generators of transactions.
pub mod bech;
pub mod bip352;
pub mod bip374;
pub mod ec;
pub mod gen;

pub use bip352::*;
pub use ec::*;
