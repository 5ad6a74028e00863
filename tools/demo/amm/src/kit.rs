//! Pools, actors, mints and wallets by number; every call is one transaction.
//! Actor 0 is the upgrade, toll and discount authority and the admin of all
//! pools.
#![allow(dead_code)]

use crate::sim::token::{balance, mint_of, new_mint, new_wallet, wallet_of};
use crate::sim::{key, meta, sighash, Abort, Bank, Programs, Tx};
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::program_pack::Pack;
use solana_program::pubkey::Pubkey;
use solana_program::system_program;

pub fn actor(a: u64) -> Pubkey {
    key(1, a, 0)
}
pub fn mint(m: u64) -> Pubkey {
    key(2, m, 0)
}
pub fn wallet(a: u64, m: u64) -> Pubkey {
    key(3, a, m)
}
pub fn pool(p: u64) -> Pubkey {
    key(4, p, 0)
}
pub fn lp_mint(p: u64) -> Pubkey {
    key(5, p, 0)
}
pub fn vault(p: u64, m: u64) -> Pubkey {
    key(6, p, m)
}
pub fn toll_wallet(p: u64) -> Pubkey {
    key(7, p, 0)
}
pub fn lp_wallet(a: u64, p: u64) -> Pubkey {
    key(8, a, p)
}
fn pda(seeds: &[&[u8]]) -> Pubkey {
    Pubkey::find_program_address(seeds, &amm::ID).0
}
pub fn signer_pda(p: u64) -> Pubkey {
    pda(&[b"signer", pool(p).as_ref()])
}
pub fn toll_pda() -> Pubkey {
    pda(&[b"toll"])
}
pub fn settings_pda() -> Pubkey {
    pda(&[b"discount_settings"])
}
pub fn discount_pda(a: u64) -> Pubkey {
    pda(&[b"discount", actor(a).as_ref()])
}
pub fn token() -> AccountMeta {
    meta(spl_token::id(), false, false)
}
pub fn system() -> AccountMeta {
    meta(system_program::id(), false, false)
}
fn u64_at(d: &[u8], i: usize) -> u64 {
    u64::from_le_bytes(d[i..i + 8].try_into().unwrap())
}

pub struct Kit {
    pub bank: Bank,
    programs: Programs,
    programdata: Pubkey,
    /// Mints of each pool.
    pub mints: Vec<Vec<u64>>,
    /// Logs of the last transaction.
    pub logs: Vec<String>,
}

pub type R = Result<(), String>;

impl Kit {
    /// Actors with `each` tokens of each mint.
    pub fn new(actors: u64, mints: u64, each: u64) -> Kit {
        let mut bank = Bank::genesis();
        let programdata = bank.new_upgradeable_program(amm::ID, Some(actor(0)));
        bank.slot = 10_000;
        for m in 0..mints {
            new_mint(&mut bank, mint(m), key(12, 0, 0), 6);
        }
        for p in 0..3 {
            new_mint(&mut bank, lp_mint(p), signer_pda(p), 6);
            for m in 0..mints {
                new_wallet(&mut bank, vault(p, m), mint(m), signer_pda(p), 0);
            }
            new_wallet(&mut bank, toll_wallet(p), lp_mint(p), actor(0), 0);
        }
        for a in 0..actors {
            bank.new_system_account(actor(a), 1_000_000_000_000);
            for m in 0..mints {
                new_wallet(&mut bank, wallet(a, m), mint(m), actor(a), each);
            }
            for p in 0..3 {
                new_wallet(&mut bank, lp_wallet(a, p), lp_mint(p), actor(a), 0);
            }
        }
        Kit {
            bank,
            programs: Programs(vec![(amm::ID, amm::entry)]),
            programdata,
            mints: vec![vec![]; 3],
            logs: vec![],
        }
    }

    pub fn slot(&mut self, n: u64) {
        self.bank.slot = n;
    }

    pub fn send(&mut self, ixs: Vec<Instruction>) -> R {
        let signers =
            ixs.iter().flat_map(|i| &i.accounts).filter(|m| m.is_signer).map(|m| m.pubkey).collect();
        let o = self.programs.execute(&mut self.bank, &Tx { ixs, signers }, Abort::default(), true);
        self.logs = o.logs.clone();
        o.result.map_err(|e| format!("{e:?} {:?}", o.logs))
    }

    pub fn ix(name: &str, accounts: Vec<AccountMeta>, args: &[&[u8]]) -> Instruction {
        let mut data = sighash(name).to_vec();
        args.iter().for_each(|a| data.extend_from_slice(a));
        Instruction { program_id: amm::ID, accounts, data }
    }

    pub fn call(&mut self, name: &str, accounts: Vec<AccountMeta>, args: &[&[u8]]) -> R {
        self.send(vec![Self::ix(name, accounts, args)])
    }

    fn authority(&mut self, name: &str, by: u64, to: u64, pda: Pubkey) -> R {
        let accounts = vec![
            meta(actor(by), true, true),
            meta(amm::ID, false, false),
            meta(self.programdata, false, false),
            meta(actor(to), false, false),
            meta(pda, false, true),
            system(),
        ];
        self.call(name, accounts, &[])
    }

    pub fn toll(&mut self, by: u64, to: u64) -> R {
        self.authority("create_program_toll", by, to, toll_pda())
    }

    pub fn settings(&mut self, by: u64, to: u64) -> R {
        self.authority("create_discount_settings", by, to, settings_pda())
    }

    /// Whoever may upgrade the program.
    pub fn rotate(&mut self, to: u64) {
        let acc = self.bank.get_mut(&self.programdata.clone()).unwrap();
        acc.data[13..45].copy_from_slice(actor(to).as_ref());
    }

    /// Nobody may upgrade the program any more.
    pub fn immutable(&mut self) {
        self.bank.get_mut(&self.programdata.clone()).unwrap().data[12] = 0;
    }

    pub fn create_pool_metas(p: u64, mints: &[u64]) -> Vec<AccountMeta> {
        let mut accounts = vec![
            meta(actor(0), true, true),
            meta(pool(p), true, true),
            meta(signer_pda(p), false, false),
            meta(toll_pda(), false, false),
            meta(toll_wallet(p), false, false),
            meta(lp_mint(p), false, false),
            token(),
            system(),
        ];
        accounts.extend(mints.iter().map(|m| meta(vault(p, *m), false, false)));
        accounts
    }

    pub fn create_pool(&mut self, p: u64, amp: u64, mints: &[u64]) -> R {
        self.mints[p as usize] = mints.to_vec();
        self.call("create_pool", Self::create_pool_metas(p, mints), &[&amp.to_le_bytes()])
    }

    pub fn fee(&mut self, p: u64, by: u64, fee: u64) -> R {
        let accounts = vec![meta(actor(by), true, false), meta(pool(p), false, true)];
        self.call("set_pool_swap_fee", accounts, &[&fee.to_le_bytes()])
    }

    pub fn discount(&mut self, by: u64, user: u64, amount: u64, until: u64) -> R {
        let accounts = vec![
            meta(actor(by), true, true),
            meta(discount_pda(user), false, true),
            meta(settings_pda(), false, false),
            system(),
        ];
        self.call(
            "put_discount",
            accounts,
            &[actor(user).as_ref(), &amount.to_le_bytes(), &until.to_le_bytes()],
        )
    }

    fn limits(&self, p: u64, xs: &[u64]) -> Vec<u8> {
        let mut out = (xs.len() as u32).to_le_bytes().to_vec();
        for (m, x) in self.mints[p as usize].iter().zip(xs) {
            out.extend_from_slice(mint(*m).as_ref());
            out.extend_from_slice(&x.to_le_bytes());
        }
        out
    }

    pub fn lp_metas(&self, p: u64, a: u64) -> Vec<AccountMeta> {
        let mut accounts = vec![
            meta(actor(a), true, false),
            meta(pool(p), false, true),
            meta(signer_pda(p), false, false),
            meta(lp_mint(p), false, true),
            meta(lp_wallet(a, p), false, true),
            token(),
        ];
        for m in &self.mints[p as usize] {
            accounts.push(meta(vault(p, *m), false, true));
            accounts.push(meta(wallet(a, *m), false, true));
        }
        accounts
    }

    pub fn deposit(&mut self, p: u64, a: u64, max: &[u64]) -> R {
        let args = self.limits(p, max);
        self.call("deposit_liquidity", self.lp_metas(p, a), &[&args])
    }

    pub fn redeem(&mut self, p: u64, a: u64, lp: u64, min: &[u64]) -> R {
        let args = self.limits(p, min);
        self.call("redeem_liquidity", self.lp_metas(p, a), &[&lp.to_le_bytes(), &args])
    }

    pub fn swap_metas(p: u64, a: u64, sell: u64, buy: u64) -> Vec<AccountMeta> {
        vec![
            meta(actor(a), true, false),
            meta(discount_pda(a), false, false),
            meta(pool(p), false, true),
            meta(signer_pda(p), false, false),
            meta(wallet(a, sell), false, true),
            meta(wallet(a, buy), false, true),
            meta(vault(p, sell), false, true),
            meta(vault(p, buy), false, true),
            meta(lp_mint(p), false, true),
            meta(toll_wallet(p), false, true),
            token(),
        ]
    }

    /// Returns what was bought.
    pub fn swap(&mut self, p: u64, a: u64, sell: u64, buy: u64, amount: u64, min: u64) -> Result<u64, String> {
        let had = self.balance(wallet(a, buy));
        self.call(
            "swap",
            Self::swap_metas(p, a, sell, buy),
            &[&amount.to_le_bytes(), &min.to_le_bytes()],
        )?;
        Ok(self.balance(wallet(a, buy)) - had)
    }

    /// Tokens appear in an account, of a mint whose supply follows.
    pub fn give(&mut self, k: Pubkey, n: u64) {
        let mut w = wallet_of(&self.bank, k).unwrap();
        w.amount += n;
        let mut m = mint_of(&self.bank, w.mint).unwrap();
        m.supply += n;
        let acc = self.bank.get_mut(&k).unwrap();
        spl_token::state::Account::pack(w, &mut acc.data).unwrap();
        let acc = self.bank.get_mut(&w.mint).unwrap();
        spl_token::state::Mint::pack(m, &mut acc.data).unwrap();
    }

    pub fn change_wallet(&mut self, k: Pubkey, f: impl Fn(&mut spl_token::state::Account)) {
        let mut w = wallet_of(&self.bank, k).unwrap();
        f(&mut w);
        let acc = self.bank.get_mut(&k).unwrap();
        spl_token::state::Account::pack(w, &mut acc.data).unwrap();
    }

    pub fn change_mint(&mut self, k: Pubkey, f: impl Fn(&mut spl_token::state::Mint)) {
        let mut m = mint_of(&self.bank, k).unwrap();
        f(&mut m);
        let acc = self.bank.get_mut(&k).unwrap();
        spl_token::state::Mint::pack(m, &mut acc.data).unwrap();
    }

    pub fn transfer(&mut self, from: Pubkey, to: Pubkey, by: u64, n: u64) -> R {
        let ix =
            spl_token::instruction::transfer(&spl_token::id(), &from, &to, &actor(by), &[], n).unwrap();
        self.send(vec![ix])
    }

    pub fn burn_lp(&mut self, p: u64, a: u64, n: u64) {
        let from = lp_wallet(a, p);
        let ix =
            spl_token::instruction::burn(&spl_token::id(), &from, &lp_mint(p), &actor(a), &[], n).unwrap();
        self.send(vec![ix]).unwrap();
    }

    pub fn prefund(&mut self, to: Pubkey, by: u64, n: u64) -> R {
        self.send(vec![solana_program::system_instruction::transfer(&actor(by), &to, n)])
    }

    pub fn lp(&self, a: u64, p: u64) -> u64 {
        self.balance(lp_wallet(a, p))
    }

    pub fn supply(&self, p: u64) -> u64 {
        mint_of(&self.bank, lp_mint(p)).unwrap().supply
    }

    /// Recorded reserves in the order of the pool.
    pub fn reserves(&self, p: u64) -> Vec<u64> {
        let d = &self.bank.get(&pool(p)).unwrap().data;
        (0..u64_at(d, 136) as usize).map(|i| u64_at(d, 144 + i * 72)).collect()
    }

    pub fn held(&self, p: u64) -> Vec<u64> {
        self.mints[p as usize].iter().map(|m| self.balance(vault(p, *m))).collect()
    }

    pub fn swap_fee(&self, p: u64) -> u64 {
        let d = &self.bank.get(&pool(p)).unwrap().data;
        let o = 144 + 4 * 72;
        u64_at(d, if d[o] == 0 { o + 1 } else { o + 33 })
    }

    /// Stored invariant, whole tokens.
    pub fn invariant(&self, p: u64) -> u128 {
        let d = &self.bank.get(&pool(p)).unwrap().data;
        let o = 144 + 4 * 72 + 9;
        // up to 2^128 of the 192 bits, enough for small pools
        (u64_at(d, o) as u128 | (u64_at(d, o + 8) as u128) << 64) / 1_000_000_000_000_000_000
    }

    pub fn balance(&self, k: Pubkey) -> u64 {
        balance(&self.bank, k)
    }
}
