//! The wire interface of the program: instruction and account layouts.

use sim_core::{discriminator, sighash};
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;

pub const RING: usize = 1000;
pub const SLOTS_OF_MINTS: usize = 10;
pub const PERIODS: usize = 10;

pub const HARVESTS: usize = 8 + 96;
const HARVEST: usize = 64 + PERIODS * 24;
const TIP: usize = HARVESTS + SLOTS_OF_MINTS * HARVEST;
const BUF: usize = TIP + 8;
const WINDOW: usize = BUF + RING * 16;
pub const FARM_LEN: usize = WINDOW + 8;
pub const FARMER_LEN: usize = 8 + 64 + 32 + SLOTS_OF_MINTS * 40;

pub fn u64_at(d: &[u8], i: usize) -> u64 {
    u64::from_le_bytes(d[i..i + 8].try_into().unwrap())
}
fn key_at(d: &[u8], i: usize) -> Pubkey {
    Pubkey::new(&d[i..i + 32])
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct HarvestView {
    pub mint: Pubkey,
    pub vault: Pubkey,
    /// start, end, tokens per slot
    pub periods: Vec<(u64, u64, u64)>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct FarmView {
    pub admin: Pubkey,
    pub stake_mint: Pubkey,
    pub stake_vault: Pubkey,
    pub harvests: Vec<HarvestView>,
    pub tip: usize,
    pub window: u64,
}

pub fn is_farm(d: &[u8]) -> bool {
    d.len() == FARM_LEN && d[..8] == discriminator("Farm")
}

pub fn farm(d: &[u8]) -> FarmView {
    FarmView {
        admin: key_at(d, 8),
        stake_mint: key_at(d, 40),
        stake_vault: key_at(d, 72),
        harvests: (0..SLOTS_OF_MINTS)
            .map(|h| {
                let o = HARVESTS + h * HARVEST;
                HarvestView {
                    mint: key_at(d, o),
                    vault: key_at(d, o + 32),
                    periods: (0..PERIODS)
                        .map(|p| {
                            let o = o + 64 + p * 24;
                            (u64_at(d, o + 8), u64_at(d, o + 16), u64_at(d, o))
                        })
                        .collect(),
                }
            })
            .collect(),
        tip: u64_at(d, TIP) as usize,
        window: u64_at(d, WINDOW),
    }
}

/// Staked amount and starting slot of an entry of the ring.
pub fn snapshot(d: &[u8], i: usize) -> (u64, u64) {
    (u64_at(d, BUF + i * 16), u64_at(d, BUF + i * 16 + 8))
}

/// Ring entries which differ.
pub fn ring_changes(a: &[u8], b: &[u8]) -> Vec<usize> {
    if a[BUF..WINDOW] == b[BUF..WINDOW] {
        return vec![];
    }
    (0..RING).filter(|i| a[BUF + i * 16..BUF + i * 16 + 16] != b[BUF + i * 16..BUF + i * 16 + 16]).collect()
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct FarmerView {
    pub authority: Pubkey,
    pub farm: Pubkey,
    pub staked: u64,
    pub vested: u64,
    pub vested_at: u64,
    pub next: u64,
    pub harvests: Vec<(Pubkey, u64)>,
}

impl FarmerView {
    pub fn deposited(&self) -> u128 {
        self.staked as u128 + self.vested as u128
    }
    pub fn pending(&self, mint: &Pubkey) -> u64 {
        self.harvests.iter().find(|(m, _)| m == mint).map_or(0, |(_, a)| *a)
    }
    pub fn lists(&self, mint: &Pubkey) -> bool {
        self.harvests.iter().any(|(m, _)| m == mint)
    }
}

pub fn is_farmer(d: &[u8]) -> bool {
    d.len() == FARMER_LEN && d[..8] == discriminator("Farmer")
}

pub fn farmer(d: &[u8]) -> FarmerView {
    FarmerView {
        authority: key_at(d, 8),
        farm: key_at(d, 40),
        staked: u64_at(d, 72),
        vested: u64_at(d, 80),
        vested_at: u64_at(d, 88),
        next: u64_at(d, 96),
        harvests: (0..SLOTS_OF_MINTS)
            .map(|i| (key_at(d, 104 + i * 40), u64_at(d, 136 + i * 40)))
            .collect(),
    }
}

pub fn is_whitelist(d: &[u8]) -> bool {
    d.len() == 8 && d[..8] == discriminator("WhitelistCompounding")
}

pub fn ix(program: Pubkey, name: &str, metas: Vec<AccountMeta>, args: &[&[u8]]) -> Instruction {
    let mut data = sighash(name).to_vec();
    for a in args {
        data.extend_from_slice(a);
    }
    Instruction { program_id: program, accounts: metas, data }
}
