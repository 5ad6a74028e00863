//! A single process simulation of the parts of the Solana runtime the two
//! programs depend on. See DESIGN.md for what is real and what is a stand-in.

pub mod bank;
pub mod big;
pub mod json;
pub mod rng;
pub mod runner;
pub mod step;
pub mod token;

pub use bank::*;
pub use big::Big;
pub use rng::Rng;
pub use runner::{Cfg, Stats, Violation, World};
pub use step::Step;

pub use solana_program;
pub use spl_token;

use solana_program::pubkey::Pubkey;

/// Deterministic address, not on any particular curve.
pub fn key(kind: u8, a: u64, b: u64) -> Pubkey {
    let mut bytes = [0u8; 32];
    bytes[0] = kind.max(1);
    bytes[1..9].copy_from_slice(&a.to_le_bytes());
    bytes[9..17].copy_from_slice(&b.to_le_bytes());
    let mut h = Fnv::default();
    h.bytes(&bytes[..17]);
    bytes[17..25].copy_from_slice(&h.0.to_le_bytes());
    h.u64(7);
    bytes[24..32].copy_from_slice(&h.0.to_le_bytes());
    Pubkey::new_from_array(bytes)
}

/// First eight bytes an Anchor program dispatches on.
pub fn sighash(name: &str) -> [u8; 8] {
    let h = solana_program::hash::hash(format!("global:{name}").as_bytes());
    h.to_bytes()[..8].try_into().unwrap()
}

/// First eight bytes of an account of the given type.
pub fn discriminator(name: &str) -> [u8; 8] {
    let h = solana_program::hash::hash(format!("account:{name}").as_bytes());
    h.to_bytes()[..8].try_into().unwrap()
}
