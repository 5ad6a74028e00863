//! The wire interface of the program: instruction and account layouts.

use sim_core::{discriminator, sighash};
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;

pub const MAX_RESERVES: usize = 4;

pub fn u64_at(d: &[u8], i: usize) -> u64 {
    u64::from_le_bytes(d[i..i + 8].try_into().unwrap())
}
fn key_at(d: &[u8], i: usize) -> Pubkey {
    Pubkey::new(&d[i..i + 32])
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ReserveView {
    pub tokens: u64,
    pub mint: Pubkey,
    pub vault: Pubkey,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PoolView {
    pub admin: Pubkey,
    pub signer: Pubkey,
    pub mint: Pubkey,
    pub toll_wallet: Pubkey,
    pub dim: u64,
    /// All four, in use or not.
    pub reserves: Vec<ReserveView>,
    /// Amplifier and stored invariant, scaled by 10^18.
    pub stable: Option<(u64, [u64; 3])>,
    pub fee: u64,
}

impl PoolView {
    pub fn tokens(&self) -> Vec<u64> {
        self.reserves[..(self.dim as usize).min(4)].iter().map(|r| r.tokens).collect()
    }
}

pub fn pool(d: &[u8]) -> Option<PoolView> {
    if d.len() < 8 + 128 + 8 + 4 * 72 + 1 + 8 || d[..8] != discriminator("Pool") {
        return None;
    }
    let reserves = (0..MAX_RESERVES)
        .map(|i| {
            let o = 144 + i * 72;
            ReserveView { tokens: u64_at(d, o), mint: key_at(d, o + 8), vault: key_at(d, o + 40) }
        })
        .collect();
    let o = 144 + 4 * 72;
    let (stable, o) = match d[o] {
        0 => (None, o + 1),
        _ => {
            if d.len() < o + 1 + 32 + 8 {
                return None;
            }
            (
                Some((
                    u64_at(d, o + 1),
                    [u64_at(d, o + 9), u64_at(d, o + 17), u64_at(d, o + 25)],
                )),
                o + 33,
            )
        }
    };
    Some(PoolView {
        admin: key_at(d, 8),
        signer: key_at(d, 40),
        mint: key_at(d, 72),
        toll_wallet: key_at(d, 104),
        dim: u64_at(d, 136),
        reserves,
        stable,
        fee: u64_at(d, o),
    })
}

/// Authority named by the toll or the discount settings account.
pub fn authority(d: &[u8], name: &str) -> Option<Pubkey> {
    (d.len() >= 40 && d[..8] == discriminator(name)).then(|| key_at(d, 8))
}

/// Amount and last slot of a discount.
pub fn discount(d: &[u8]) -> Option<(u64, u64)> {
    (d.len() >= 24 && d[..8] == discriminator("Discount")).then(|| (u64_at(d, 8), u64_at(d, 16)))
}

pub fn limits(of: &[(Pubkey, u64)]) -> Vec<u8> {
    let mut out = (of.len() as u32).to_le_bytes().to_vec();
    for (m, t) in of {
        out.extend_from_slice(m.as_ref());
        out.extend_from_slice(&t.to_le_bytes());
    }
    out
}

pub fn ix(program: Pubkey, name: &str, metas: Vec<AccountMeta>, args: &[&[u8]]) -> Instruction {
    let mut data = sighash(name).to_vec();
    for a in args {
        data.extend_from_slice(a);
    }
    Instruction { program_id: program, accounts: metas, data }
}
