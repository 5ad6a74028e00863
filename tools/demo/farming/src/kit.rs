//! Farms, actors and wallets by number; every call is one transaction.
//! Actor 0 is the admin of all farms unless handed over.
#![allow(dead_code)]

use crate::sim::token::{balance, new_mint, new_wallet};
use crate::sim::{discriminator, key, meta, sighash, Abort, Account, Bank, Programs, Tx};
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use solana_program::{system_program, sysvar};

pub fn actor(a: u64) -> Pubkey {
    key(1, a, 0)
}
pub fn mint(m: u64) -> Pubkey {
    key(2, m, 0)
}
pub fn wallet(a: u64, m: u64) -> Pubkey {
    key(3, a, m)
}
pub fn farm(f: u64) -> Pubkey {
    key(4, f, 0)
}
fn pda(seeds: &[&[u8]]) -> Pubkey {
    Pubkey::find_program_address(seeds, &farming::ID).0
}
pub fn signer_pda(f: u64) -> Pubkey {
    pda(&[b"signer", farm(f).as_ref()])
}
pub fn stake_vault(f: u64) -> Pubkey {
    pda(&[b"stake_vault", farm(f).as_ref()])
}
pub fn harvest_vault(f: u64, m: u64) -> Pubkey {
    pda(&[b"harvest_vault", farm(f).as_ref(), mint(m).as_ref()])
}
pub fn farmer(f: u64, a: u64) -> Pubkey {
    pda(&[b"farmer", farm(f).as_ref(), actor(a).as_ref()])
}
pub fn whitelist(s: u64, t: u64) -> Pubkey {
    pda(&[b"whitelist_compounding", farm(s).as_ref(), farm(t).as_ref()])
}
pub fn token() -> AccountMeta {
    meta(spl_token::id(), false, false)
}
pub fn system() -> AccountMeta {
    meta(system_program::id(), false, false)
}
pub fn rent() -> AccountMeta {
    meta(sysvar::rent::id(), false, false)
}
fn u64_at(d: &[u8], i: usize) -> u64 {
    u64::from_le_bytes(d[i..i + 8].try_into().unwrap())
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Position {
    pub staked: u64,
    pub vested: u64,
    pub vested_at: u64,
    pub next: u64,
    pub harvests: Vec<(Pubkey, u64)>,
}
impl Position {
    pub fn pending(&self, m: u64) -> u64 {
        self.harvests.iter().find(|h| h.0 == mint(m)).map_or(0, |h| h.1)
    }
    pub fn deposited(&self) -> u64 {
        self.staked + self.vested
    }
}

pub struct Kit {
    pub bank: Bank,
    programs: Programs,
}

pub type R = Result<(), String>;

impl Kit {
    /// Actors with a million million tokens of each mint.
    pub fn new(actors: u64, mints: u64) -> Kit {
        let mut bank = Bank::genesis();
        bank.new_upgradeable_program(farming::ID, Some(actor(0)));
        bank.slot = 10_000;
        for m in 0..mints {
            new_mint(&mut bank, mint(m), key(7, 0, 0), 6);
        }
        for a in 0..actors {
            bank.new_system_account(actor(a), 1_000_000_000_000);
            for m in 0..mints {
                new_wallet(&mut bank, wallet(a, m), mint(m), actor(a), 1_000_000_000_000);
            }
        }
        Kit { bank, programs: Programs(vec![(farming::ID, farming::entry)]) }
    }

    pub fn slot(&mut self, n: u64) {
        self.bank.slot = n;
    }

    pub fn send(&mut self, ixs: Vec<Instruction>) -> R {
        let signers =
            ixs.iter().flat_map(|i| &i.accounts).filter(|m| m.is_signer).map(|m| m.pubkey).collect();
        let o = self.programs.execute(&mut self.bank, &Tx { ixs, signers }, Abort::default(), true);
        o.result.map_err(|e| format!("{e:?} {:?}", o.logs))
    }

    pub fn ix(name: &str, accounts: Vec<AccountMeta>, args: &[&[u8]]) -> Instruction {
        let mut data = sighash(name).to_vec();
        args.iter().for_each(|a| data.extend_from_slice(a));
        Instruction { program_id: farming::ID, accounts, data }
    }

    pub fn call(&mut self, name: &str, accounts: Vec<AccountMeta>, args: &[&[u8]]) -> R {
        self.send(vec![Self::ix(name, accounts, args)])
    }

    pub fn create_farm(&mut self, f: u64, m: u64) -> R {
        let accounts = vec![
            meta(actor(0), true, true),
            meta(farm(f), false, true),
            meta(signer_pda(f), false, true),
            meta(mint(m), false, false),
            meta(stake_vault(f), false, true),
            token(),
            system(),
            rent(),
        ];
        let len = 8 + std::mem::size_of::<farming::models::Farm>();
        self.bank.set(
            farm(f),
            Account {
                lamports: 10_000_000_000,
                data: vec![0; len],
                owner: farming::ID,
                executable: false,
            },
        );
        self.call("create_farm", accounts, &[])
    }

    pub fn add_harvest(&mut self, f: u64, m: u64) -> R {
        let accounts = vec![
            meta(actor(0), true, true),
            meta(farm(f), false, true),
            meta(signer_pda(f), false, false),
            meta(mint(m), false, false),
            meta(harvest_vault(f, m), false, true),
            token(),
            system(),
            rent(),
        ];
        self.call("add_harvest", accounts, &[])
    }

    pub fn remove_harvest(&mut self, f: u64, m: u64) -> R {
        let accounts = vec![
            meta(actor(0), true, true),
            meta(farm(f), false, true),
            meta(signer_pda(f), false, false),
            meta(harvest_vault(f, m), false, true),
            token(),
        ];
        self.call("remove_harvest", accounts, &[mint(m).as_ref()])
    }

    /// Start 0 is now.
    pub fn period(&mut self, f: u64, m: u64, start: u64, len: u64, tps: u64) -> R {
        let accounts = vec![
            meta(actor(0), true, false),
            meta(farm(f), false, true),
            meta(wallet(0, m), false, true),
            meta(harvest_vault(f, m), false, true),
            meta(signer_pda(f), false, false),
            token(),
        ];
        self.call(
            "new_harvest_period",
            accounts,
            &[mint(m).as_ref(), &start.to_le_bytes(), &len.to_le_bytes(), &tps.to_le_bytes()],
        )
    }

    pub fn window(&mut self, f: u64, n: u64) -> R {
        let accounts = vec![meta(actor(0), true, false), meta(farm(f), false, true)];
        self.call("set_min_snapshot_window", accounts, &[&n.to_le_bytes()])
    }

    pub fn consent(&mut self, add: bool, s: u64, t: u64) -> R {
        let accounts = vec![
            meta(actor(0), true, true),
            meta(farm(s), false, false),
            meta(farm(t), false, false),
            meta(whitelist(s, t), false, true),
            system(),
        ];
        let name = if add {
            "whitelist_farm_for_compounding"
        } else {
            "dewhitelist_farm_for_compounding"
        };
        self.call(name, accounts, &[])
    }

    pub fn snapshot(&mut self, f: u64) -> R {
        let accounts = vec![meta(farm(f), false, true), meta(stake_vault(f), false, false)];
        self.call("take_snapshot", accounts, &[])
    }

    pub fn create_farmer(&mut self, f: u64, a: u64) -> R {
        let accounts = vec![
            meta(actor(a), true, true),
            meta(actor(a), false, false),
            meta(farmer(f, a), false, true),
            meta(farm(f), false, false),
            system(),
        ];
        self.call("create_farmer", accounts, &[])
    }

    pub fn close(&mut self, f: u64, a: u64) -> R {
        let accounts = vec![meta(actor(a), true, true), meta(farmer(f, a), false, true)];
        self.call("close_farmer", accounts, &[])
    }

    pub fn start(&mut self, f: u64, a: u64, m: u64, amount: u64) -> R {
        let accounts = vec![
            meta(actor(a), true, false),
            meta(farmer(f, a), false, true),
            meta(wallet(a, m), false, true),
            meta(farm(f), false, false),
            meta(stake_vault(f), false, true),
            token(),
        ];
        self.call("start_farming", accounts, &[&amount.to_le_bytes()])
    }

    pub fn stop(&mut self, f: u64, a: u64, m: u64, amount: u64) -> R {
        let accounts = vec![
            meta(actor(a), true, false),
            meta(farmer(f, a), false, true),
            meta(wallet(a, m), false, true),
            meta(farm(f), false, false),
            meta(signer_pda(f), false, false),
            meta(stake_vault(f), false, true),
            token(),
        ];
        self.call("stop_farming", accounts, &[&amount.to_le_bytes()])
    }

    pub fn update(&mut self, f: u64, a: u64) -> R {
        let accounts = vec![meta(farm(f), false, false), meta(farmer(f, a), false, true)];
        self.call("update_eligible_harvest", accounts, &[])
    }

    pub fn update_until(&mut self, f: u64, a: u64, until: u64) -> R {
        let accounts = vec![meta(farm(f), false, false), meta(farmer(f, a), false, true)];
        self.call("update_eligible_harvest_until", accounts, &[&until.to_le_bytes()])
    }

    pub fn claim_metas(f: u64, a: u64) -> Vec<AccountMeta> {
        vec![
            meta(actor(a), true, false),
            meta(farmer(f, a), false, true),
            meta(signer_pda(f), false, false),
            token(),
        ]
    }

    pub fn claim(&mut self, f: u64, a: u64, mints: &[u64]) -> R {
        let mut accounts = Self::claim_metas(f, a);
        for m in mints {
            accounts.push(meta(harvest_vault(f, *m), false, true));
            accounts.push(meta(wallet(a, *m), false, true));
        }
        self.call("claim_eligible_harvest", accounts, &[])
    }

    pub fn compound(&mut self, f: u64, a: u64, m: u64) -> R {
        let accounts = vec![
            meta(farm(f), false, false),
            meta(signer_pda(f), false, false),
            meta(whitelist(f, f), false, false),
            meta(stake_vault(f), false, true),
            meta(harvest_vault(f, m), false, true),
            meta(farmer(f, a), false, true),
            token(),
        ];
        self.call("compound_same_farm", accounts, &[])
    }

    pub fn compound_across(&mut self, s: u64, a: u64, t: u64, m: u64, b: u64) -> R {
        let accounts = vec![
            meta(farm(s), false, false),
            meta(farm(t), false, false),
            meta(signer_pda(s), false, false),
            meta(whitelist(s, t), false, false),
            meta(stake_vault(t), false, true),
            meta(harvest_vault(s, m), false, true),
            meta(farmer(s, a), false, true),
            meta(farmer(t, b), false, true),
            token(),
        ];
        self.call("compound_across_farms", accounts, &[])
    }

    pub fn airdrop(&mut self, f: u64, a: u64, m: u64, by: u64, amount: u64) -> R {
        let accounts = vec![
            meta(actor(by), true, false),
            meta(farmer(f, a), false, true),
            meta(wallet(by, m), false, true),
            meta(harvest_vault(f, m), false, true),
            token(),
        ];
        self.call("airdrop", accounts, &[&amount.to_le_bytes()])
    }

    pub fn position(&self, f: u64, a: u64) -> Option<Position> {
        let acc = self.bank.get(&farmer(f, a))?;
        let d = &acc.data;
        if d[..8] != discriminator("Farmer") {
            return None;
        }
        Some(Position {
            staked: u64_at(d, 72),
            vested: u64_at(d, 80),
            vested_at: u64_at(d, 88),
            next: u64_at(d, 96),
            harvests: (0..10)
                .map(|i| (Pubkey::new(&d[104 + i * 40..136 + i * 40]), u64_at(d, 136 + i * 40)))
                .collect(),
        })
    }

    pub fn balance(&self, k: Pubkey) -> u64 {
        balance(&self.bank, k)
    }
}
