//! Reading and crafting token accounts.

use crate::bank::{Account, Bank};
use solana_program::program_option::COption;
use solana_program::program_pack::Pack;
use solana_program::pubkey::Pubkey;
use spl_token::state::{Account as TokenAccount, AccountState, Mint};

pub fn new_mint(bank: &mut Bank, key: Pubkey, authority: Pubkey, decimals: u8) {
    let mint = Mint {
        mint_authority: COption::Some(authority),
        supply: 0,
        decimals,
        is_initialized: true,
        freeze_authority: COption::None,
    };
    let mut data = vec![0; Mint::LEN];
    Mint::pack(mint, &mut data).unwrap();
    put(bank, key, data);
}

pub fn new_wallet(bank: &mut Bank, key: Pubkey, mint: Pubkey, owner: Pubkey, amount: u64) {
    let acc = TokenAccount {
        mint,
        owner,
        amount,
        delegate: COption::None,
        state: AccountState::Initialized,
        is_native: COption::None,
        delegated_amount: 0,
        close_authority: COption::None,
    };
    let mut data = vec![0; TokenAccount::LEN];
    TokenAccount::pack(acc, &mut data).unwrap();
    put(bank, key, data);
    if let Some(mut m) = mint_of(bank, mint) {
        m.supply = m.supply.checked_add(amount).expect("mint supply");
        let acc = bank.get_mut(&mint).unwrap();
        Mint::pack(m, &mut acc.data).unwrap();
    }
}

fn put(bank: &mut Bank, key: Pubkey, data: Vec<u8>) {
    bank.set(
        key,
        Account { lamports: 10_000_000, data, owner: spl_token::id(), executable: false },
    );
}

pub fn wallet_of(bank: &Bank, key: Pubkey) -> Option<TokenAccount> {
    let acc = bank.get(&key)?;
    if acc.owner != spl_token::id() {
        return None;
    }
    TokenAccount::unpack(&acc.data).ok()
}

pub fn mint_of(bank: &Bank, key: Pubkey) -> Option<Mint> {
    let acc = bank.get(&key)?;
    if acc.owner != spl_token::id() {
        return None;
    }
    Mint::unpack(&acc.data).ok()
}

/// Balance, zero if there is no such token account.
pub fn balance(bank: &Bank, key: Pubkey) -> u64 {
    wallet_of(bank, key).map(|a| a.amount).unwrap_or(0)
}
