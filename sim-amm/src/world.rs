//! The simulated deployment: pools, admins, liquidity providers, traders and
//! attackers.

use crate::curve;
use crate::wire::{self, PoolView};
use sim_core::token::{balance, mint_of, new_mint, new_wallet, wallet_of};
use sim_core::{
    key, meta, Abort, Account, Bank, Big, Cfg, Programs, Rng, Stats, Step, Tx, TxError, Violation,
    World,
};
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::program_option::COption;
use solana_program::program_pack::Pack;
use solana_program::pubkey::Pubkey;
use solana_program::{system_instruction, system_program};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

/// An authority which is no actor, so that nobody can sign for it.
const NOBODY: u64 = 999;
pub const MAX_FEE: u64 = 10_000;
const WAD: u64 = 1_000_000_000_000_000_000;

thread_local! {
    static PDAS: RefCell<BTreeMap<(u8, u64), Pubkey>> = RefCell::new(BTreeMap::new());
}

fn program() -> Pubkey {
    amm::ID
}

fn pda(kind: u8, a: u64, seeds: &[&[u8]]) -> Pubkey {
    PDAS.with(|c| {
        *c.borrow_mut()
            .entry((kind, a))
            .or_insert_with(|| Pubkey::find_program_address(seeds, &program()).0)
    })
}

pub fn actor(a: u64) -> Pubkey {
    key(1, a, 0)
}
/// A program somebody has deployed.
pub fn own_program(a: u64) -> Pubkey {
    key(13, a, 0)
}
pub fn own_programdata(a: u64) -> Pubkey {
    PDAS.with(|c| {
        *c.borrow_mut().entry((5, a)).or_insert_with(|| {
            let k = own_program(a);
            Pubkey::find_program_address(&[k.as_ref()], &sim_core::solana_program::bpf_loader_upgradeable::id()).0
        })
    })
}
pub fn mint(m: u64) -> Pubkey {
    key(2, m, 0)
}
pub fn wallet(a: u64, m: u64) -> Pubkey {
    key(3, a, m)
}
pub fn pool_key(p: u64) -> Pubkey {
    key(4, p, 0)
}
pub fn lp_mint(p: u64) -> Pubkey {
    key(5, p, 0)
}
pub fn vault(p: u64, m: u64) -> Pubkey {
    key(6, p, m)
}
pub fn toll_wallet(a: u64, p: u64) -> Pubkey {
    key(7, a, p)
}
pub fn lp_wallet(a: u64, p: u64) -> Pubkey {
    key(8, a, p)
}
/// A wallet given to the signer of a pool, which is none of its vaults.
pub fn fake_vault(p: u64, m: u64) -> Pubkey {
    key(19, p, m)
}
fn forged_key(k: &Pubkey) -> Pubkey {
    let b = k.to_bytes();
    key(10, u64::from_le_bytes(b[..8].try_into().unwrap()), u64::from_le_bytes(b[24..].try_into().unwrap()))
}
/// An account with something wrong about it.
fn flawed(p: u64, what: u64) -> Pubkey {
    key(11, p, what)
}
pub fn signer_pda(p: u64) -> Pubkey {
    pda(1, p, &[b"signer", pool_key(p).as_ref()])
}
pub fn toll_pda() -> Pubkey {
    pda(2, 0, &[b"toll"])
}
pub fn settings_pda() -> Pubkey {
    pda(3, 0, &[b"discount_settings"])
}
pub fn discount_pda(a: u64) -> Pubkey {
    pda(4, a, &[b"discount", actor(a).as_ref()])
}

#[derive(Clone, Debug, Default)]
pub struct MPool {
    pub admin: u64,
    /// Reserve mints in the order of the pool.
    pub mints: Vec<u64>,
    pub amp: u64,
    pub fee: u64,
    pub toll_wallet: Pubkey,
    /// Tokens in each vault which are nobody's.
    pub donated: Vec<u128>,
}

#[derive(Clone, Debug, Default)]
pub struct State {
    pub pools: BTreeMap<u64, MPool>,
    pub upgrade: u64,
    pub toll: Option<u64>,
    pub settings: Option<u64>,
    /// Amount, last slot.
    pub discounts: BTreeMap<u64, (u64, u64)>,
}

#[derive(Clone)]
struct Checkpoint {
    bank: Bank,
    st: State,
    log: Vec<Step>,
}

#[derive(Clone, Debug)]
struct InFlight {
    due: u64,
    sent_slot: u64,
    step: Step,
}

pub struct Amm {
    pub bank: Bank,
    programs: Programs,
    cfg: Cfg,
    pub st: State,
    inflight: Vec<InFlight>,
    checkpoint: Option<Checkpoint>,
    step_no: u64,
    start_slot: u64,
    n_pools: u64,
    n_actors: u64,
    n_mints: u64,
    programdata: Pubkey,
    weights: Vec<u64>,
    queue: Vec<Step>,
}

/// What should happen to a well formed transaction.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Expect {
    Ok,
    Err,
    Either,
}

#[derive(Clone, Debug)]
enum Sem {
    CreateToll { auth: u64 },
    CreateSettings { auth: u64 },
    CreatePool { p: u64, admin: u64, mints: Vec<u64>, amp: u64 },
    Fee { p: u64, fee: u64 },
    Discount { u: u64, amount: u64, until: u64 },
    Deposit { p: u64, max: Vec<u64> },
    Redeem { p: u64, lp: u64, min: Vec<u64> },
    Swap { p: u64, user: u64, s: usize, b: usize, sell: u64, min: u64 },
    /// Tokens moved or burnt by their owner, not by the program.
    Plain { from: Pubkey, to: Pubkey, amount: u64 },
    Burn { p: u64, from: Pubkey, amount: u64 },
    Prefund { to: Pubkey },
}

struct Built {
    sem: Sem,
    ix: Instruction,
    signers: BTreeSet<Pubkey>,
    expect: Expect,
    why: &'static str,
    /// Which properties an unexpected outcome breaks.
    tags: &'static [&'static str],
    /// Positions which only one account may take.
    pinned: &'static [usize],
    /// From here on, every other account is pinned.
    pairs_from: usize,
    /// Signer position which has to be the admin or authority.
    authority: Option<usize>,
    authority_tags: &'static [&'static str],
}

const OPS: &[&str] = &[
    "advance", "rotate", "create_toll", "create_settings", "preseed", "create_pool", "fee",
    "discount", "deposit", "redeem", "swap", "donate", "lp_transfer", "lp_burn", "prefund", "fork",
    "rollback",
];

fn op_index(op: &str) -> usize {
    OPS.iter().position(|o| *o == op).unwrap()
}

macro_rules! hit_op {
    ($stats:expr, $op:expr, $ok:expr, $($name:literal),*) => {
        match ($op, $ok) {
            $( ($name, true) => $stats.hit(concat!("op.", $name, ".ok")),
               ($name, false) => $stats.hit(concat!("op.", $name, ".refused")), )*
            _ => (),
        }
    };
}

fn hit_op(stats: &mut Stats, op: &str, ok: bool) {
    hit_op!(
        stats, op, ok, "create_toll", "create_settings", "create_pool", "fee", "discount",
        "deposit", "redeem", "swap", "donate", "lp_transfer", "lp_burn", "prefund"
    );
}

fn v(tags: &[&'static str], kind: &str, detail: String) -> Violation {
    Violation { properties: tags.to_vec(), kind: kind.to_string(), detail }
}

fn view_pool(bank: &Bank, k: &Pubkey) -> Option<PoolView> {
    let acc = bank.get(k)?;
    if acc.owner != program() {
        return None;
    }
    wire::pool(&acc.data)
}

fn supply(bank: &Bank, p: u64) -> u64 {
    mint_of(bank, lp_mint(p)).map_or(0, |m| m.supply)
}

/// a b / c, rounded down.
fn mul_div(a: u64, b: u64, c: u64) -> u128 {
    a as u128 * b as u128 / c as u128
}

/// What a well behaved deposit comes to.
struct DepositBounds {
    /// Reserve whose limit is the tightest.
    tight: usize,
    /// Bounds on what goes into each reserve.
    lo: Vec<u128>,
    hi: Vec<u128>,
}

/// The largest deposit in proportion to the reserves which fits the limits,
/// give or take rounding.
fn deposit_bounds(reserves: &[u64], max: &[u64]) -> DepositBounds {
    let mut tight = 0;
    for i in 1..reserves.len() {
        // max_i / r_i < max_t / r_t
        if (max[i] as u128 * reserves[tight] as u128) < max[tight] as u128 * reserves[i] as u128 {
            tight = i;
        }
    }
    let (m, r) = (max[tight], reserves[tight]);
    let mut lo = vec![];
    let mut hi = vec![];
    for x in reserves {
        let exact = mul_div(*x, m, r);
        // the inverse of the ratio is known to 18 decimals
        let inverse = Big::from(exact).mul(m / r + 2).div(WAD).to_u128();
        let fuzz = inverse + 1;
        lo.push(exact.saturating_sub(fuzz));
        hi.push(exact + fuzz + 1);
    }
    DepositBounds { tight, lo, hi }
}

/// A client which leaves a limit out, or names a mint twice or a wrong one.
fn shorten(limits: &mut Vec<(Pubkey, u64)>, step: &Step) -> bool {
    match step.get_fault("short") {
        None => false,
        Some(0) => limits.pop().is_some(),
        Some(1) => {
            let first = limits[0];
            *limits.last_mut().unwrap() = first;
            true
        }
        Some(2) => {
            limits.push((key(2, 99, 0), 1));
            true
        }
        Some(_) => {
            let (mint, limit) = limits[0];
            limits.push((mint, limit.saturating_add(limit / 2 + 1)));
            true
        }
    }
}

/// A client which names a vault and wallet twice, in place of others or on top
/// of them, or leaves some out.
fn twin(metas: &mut Vec<AccountMeta>, step: &Step) -> bool {
    let n = match step.get_fault("twin") {
        None => return false,
        Some(n) => n as usize,
    };
    let pairs = metas.len() / 2;
    let from = n % pairs;
    let pair = [metas[2 * from].clone(), metas[2 * from + 1].clone()];
    match n {
        0..=3 => {
            let to = (from + 1) % pairs;
            metas[2 * to..2 * to + 2].clone_from_slice(&pair);
        }
        4..=7 => metas.extend(pair),
        8 => metas.truncate(2 * pairs - 2),
        _ => metas.truncate(2 * pairs - 1),
    }
    true
}

/// What selling comes to by the rules.
struct SwapRule {
    fee: u64,
    /// What is traded, the fee taken off.
    traded: u64,
}

impl Amm {
    fn now(&self) -> u64 {
        self.bank.slot
    }

    pub fn view(&self, p: u64) -> Option<PoolView> {
        view_pool(&self.bank, &pool_key(p))
    }

    fn token_program() -> AccountMeta {
        meta(sim_core::spl_token::id(), false, false)
    }
    fn system_program() -> AccountMeta {
        meta(system_program::id(), false, false)
    }

    fn discount_of(&self, user: u64, now: u64) -> u64 {
        match self.st.discounts.get(&user) {
            Some((amount, until)) if now <= *until => *amount,
            _ => 0,
        }
    }

    fn swap_rule(&self, p: u64, user: u64, sell: u64, now: u64) -> SwapRule {
        let fee = self.st.pools.get(&p).map_or(0, |x| x.fee);
        let keep = 1_000_000u64.saturating_sub(self.discount_of(user, now));
        let fee = Big::from(sell)
            .mul(fee)
            .mul(keep)
            .div_ceil(1_000_000_000_000u64)
            .to_u64()
            .unwrap_or(u64::MAX);
        SwapRule { fee, traded: sell.saturating_sub(fee) }
    }

    /// Who signs as the upgrade authority, anybody once there is none.
    fn upgrader(&self) -> u64 {
        if self.st.upgrade == NOBODY {
            1
        } else {
            self.st.upgrade
        }
    }

    fn authority_metas(&self, auth: u64, pda: Pubkey) -> Vec<AccountMeta> {
        vec![
            meta(actor(self.upgrader()), true, true),
            meta(program(), false, false),
            meta(self.programdata, false, false),
            meta(actor(auth), false, false),
            meta(pda, false, true),
            Self::system_program(),
        ]
    }

    /// Vaults and wallets of a deposit or redemption.
    fn pair_metas(&self, p: u64, a: u64, mints: &[u64], order: u64) -> Vec<AccountMeta> {
        let mut idx: Vec<usize> = (0..mints.len()).collect();
        if !idx.is_empty() {
            idx.rotate_left(order as usize % mints.len());
        }
        idx.iter()
            .flat_map(|i| {
                [meta(vault(p, mints[*i]), false, true), meta(wallet(a, mints[*i]), false, true)]
            })
            .collect()
    }

    /// Whether a stable pool can be expected to work with these balances.
    fn workable(&self, amp: u64, xs: &[u64]) -> bool {
        amp == 0 || xs.iter().any(|x| *x == 0) || curve::workable(amp, xs)
    }

    /// Builds the transaction of a step against the present state.
    fn build(&mut self, step: &Step) -> Option<Built> {
        let now = self.now();
        let a = |i: usize| step.arg(i);
        let pi = |i: usize| step.arg(i) % self.n_pools;
        let ai = |i: usize| step.arg(i) % self.n_actors;
        let mi = |i: usize| step.arg(i) % self.n_mints;
        let sgn = |k: Pubkey| BTreeSet::from([k]);
        let id = program();
        Some(match step.op.as_str() {
            "create_toll" => {
                let auth = ai(0);
                Built {
                    sem: Sem::CreateToll { auth },
                    ix: wire::ix(id, "create_program_toll", self.authority_metas(auth, toll_pda()), &[]),
                    signers: sgn(actor(self.upgrader())),
                    expect: if self.st.toll.is_some() || self.st.upgrade == NOBODY { Expect::Err } else { Expect::Ok },
                    why: "the toll authority is set once, by the upgrade authority",
                    tags: &["C29"],
                    pinned: &[1, 2, 4, 5],
                    pairs_from: usize::MAX,
                    authority: Some(0),
                    authority_tags: &["C29"],
                }
            }
            "create_settings" => {
                let auth = ai(0);
                Built {
                    sem: Sem::CreateSettings { auth },
                    ix: wire::ix(
                        id,
                        "create_discount_settings",
                        self.authority_metas(auth, settings_pda()),
                        &[],
                    ),
                    signers: sgn(actor(self.upgrader())),
                    expect: if self.st.settings.is_some() || self.st.upgrade == NOBODY { Expect::Err } else { Expect::Ok },
                    why: "the discount authority is set once, by the upgrade authority",
                    tags: &["C29"],
                    pinned: &[1, 2, 4, 5],
                    pairs_from: usize::MAX,
                    authority: Some(0),
                    authority_tags: &["C29"],
                }
            }
            "create_pool" => self.build_create_pool(step)?,
            "fee" => {
                let (p, fee) = (pi(0), a(1));
                let pool = self.st.pools.get(&p)?;
                Built {
                    sem: Sem::Fee { p, fee },
                    ix: wire::ix(
                        id,
                        "set_pool_swap_fee",
                        vec![meta(actor(pool.admin), true, false), meta(pool_key(p), false, true)],
                        &[&fee.to_le_bytes()],
                    ),
                    signers: sgn(actor(pool.admin)),
                    expect: if fee > MAX_FEE { Expect::Err } else { Expect::Ok },
                    why: "the swap fee is at most 1%",
                    tags: &["C29"],
                    pinned: &[],
                    pairs_from: usize::MAX,
                    authority: Some(0),
                    authority_tags: &["C29"],
                }
            }
            "discount" => {
                let (u, amount, until) = (ai(0), a(1), a(2));
                let auth = self.st.settings?;
                let ok = until > now && amount <= 1_000_000 && auth != NOBODY;
                Built {
                    sem: Sem::Discount { u, amount, until },
                    ix: wire::ix(
                        id,
                        "put_discount",
                        vec![
                            meta(actor(auth), true, true),
                            meta(discount_pda(u), false, true),
                            meta(settings_pda(), false, false),
                            Self::system_program(),
                        ],
                        &[actor(u).as_ref(), &amount.to_le_bytes(), &until.to_le_bytes()],
                    ),
                    signers: sgn(actor(auth)),
                    expect: if ok { Expect::Ok } else { Expect::Err },
                    why: "a discount ends in the future and is at most 100%",
                    tags: &["C28"],
                    pinned: &[1, 2, 3],
                    pairs_from: usize::MAX,
                    authority: Some(0),
                    authority_tags: &["C28", "C29"],
                }
            }
            "deposit" => {
                let (p, user, order) = (pi(0), ai(1), a(2));
                let pool = self.st.pools.get(&p)?.clone();
                let n = pool.mints.len();
                let max: Vec<u64> = (0..n).map(|i| a(3 + i)).collect();
                let view = self.view(p)?;
                let r = view.tokens();
                let s = supply(&self.bank, p);
                let held: Vec<u64> =
                    pool.mints.iter().map(|m| balance(&self.bank, wallet(user, *m))).collect();
                let mut limits: Vec<(Pubkey, u64)> =
                    pool.mints.iter().map(|m| mint(*m)).zip(max.iter().copied()).collect();
                let short = shorten(&mut limits, step);
                let mut metas = vec![
                    meta(actor(user), true, false),
                    meta(pool_key(p), false, true),
                    meta(signer_pda(p), false, false),
                    meta(lp_mint(p), false, true),
                    meta(lp_wallet(user, p), false, true),
                    Self::token_program(),
                ];
                let mut pairs = self.pair_metas(p, user, &pool.mints, order);
                let twin = twin(&mut pairs, step);
                metas.extend(pairs);
                Built {
                    expect: if short || twin {
                        Expect::Err
                    } else {
                        self.expect_deposit(&pool, &r, s, &max, &held)
                    },
                    sem: Sem::Deposit { p, max },
                    ix: wire::ix(id, "deposit_liquidity", metas, &[&wire::limits(&limits)]),
                    signers: sgn(actor(user)),
                    why: "the limits or funds do not allow for it",
                    // an empty pool has to take the next deposit
                    tags: match (twin, s) {
                        (true, _) => &["C24", "C26", "C31"],
                        (_, 0) => &["C24", "C26", "C32"],
                        _ => &["C24", "C26"],
                    },
                    pinned: &[2, 3, 5],
                    pairs_from: 6,
                    authority: Some(0),
                    authority_tags: &["C31"],
                }
            }
            "redeem" => {
                let (p, user, order, lp) = (pi(0), ai(1), a(2), a(3));
                let pool = self.st.pools.get(&p)?.clone();
                let n = pool.mints.len();
                let min: Vec<u64> = (0..n).map(|i| a(4 + i)).collect();
                let r = self.view(p)?.tokens();
                let s = supply(&self.bank, p);
                let held = balance(&self.bank, lp_wallet(user, p));
                let mut limits: Vec<(Pubkey, u64)> =
                    pool.mints.iter().map(|m| mint(*m)).zip(min.iter().copied()).collect();
                let short = shorten(&mut limits, step);
                let mut metas = vec![
                    meta(actor(user), true, false),
                    meta(pool_key(p), false, true),
                    meta(signer_pda(p), false, false),
                    meta(lp_mint(p), false, true),
                    meta(lp_wallet(user, p), false, true),
                    Self::token_program(),
                ];
                let mut pairs = self.pair_metas(p, user, &pool.mints, order);
                let twin = twin(&mut pairs, step);
                metas.extend(pairs);
                Built {
                    expect: if short || twin {
                        Expect::Err
                    } else {
                        self.expect_redeem(&pool, &r, s, lp, &min, held)
                    },
                    sem: Sem::Redeem { p, lp, min },
                    ix: wire::ix(
                        id,
                        "redeem_liquidity",
                        metas,
                        &[&lp.to_le_bytes(), &wire::limits(&limits)],
                    ),
                    signers: sgn(actor(user)),
                    why: "the limits or holdings do not allow for it",
                    tags: if twin { &["C25", "C26", "C31"] } else { &["C25", "C26", "C32"] },
                    pinned: &[2, 3, 5],
                    pairs_from: 6,
                    authority: Some(0),
                    authority_tags: &["C25", "C31"],
                }
            }
            "swap" => {
                let (p, user) = (pi(0), ai(1));
                let pool = self.st.pools.get(&p)?.clone();
                let n = pool.mints.len();
                let (s, b) = (a(2) as usize % n, a(3) as usize % n);
                let (sell, min) = (a(4), a(5));
                let (ms, mb) = (pool.mints[s], pool.mints[b]);
                Built {
                    expect: self.expect_swap(p, &pool, user, s, b, sell, min),
                    sem: Sem::Swap { p, user, s, b, sell, min },
                    ix: wire::ix(
                        id,
                        "swap",
                        vec![
                            meta(actor(user), true, false),
                            meta(discount_pda(user), false, false),
                            meta(pool_key(p), false, true),
                            meta(signer_pda(p), false, false),
                            meta(wallet(user, ms), false, true),
                            meta(wallet(user, mb), false, true),
                            meta(vault(p, ms), false, true),
                            meta(vault(p, mb), false, true),
                            meta(lp_mint(p), false, true),
                            meta(pool.toll_wallet, false, true),
                            Self::token_program(),
                        ],
                        &[&sell.to_le_bytes(), &min.to_le_bytes()],
                    ),
                    signers: sgn(actor(user)),
                    why: "the limit, funds or the choice of mints do not allow for it",
                    tags: if self.st.discounts.contains_key(&user) {
                        &["C26", "C22", "C27", "C28", "C33"]
                    } else {
                        &["C26", "C22", "C27", "C33"]
                    },
                    pinned: &[1, 3, 6, 7, 8, 9, 10],
                    pairs_from: usize::MAX,
                    authority: Some(0),
                    authority_tags: &["C31"],
                }
            }
            "donate" | "lp_transfer" => {
                let (p, user, amount) = (pi(0), ai(1), a(2));
                let (from, to) = if step.op == "donate" {
                    let m = mi(3);
                    (wallet(user, m), vault(p, m))
                } else {
                    (lp_wallet(user, p), lp_wallet(ai(3), p))
                };
                if from == to {
                    return None;
                }
                Built {
                    sem: Sem::Plain { from, to, amount },
                    ix: sim_core::spl_token::instruction::transfer(
                        &sim_core::spl_token::id(),
                        &from,
                        &to,
                        &actor(user),
                        &[],
                        amount,
                    )
                    .ok()?,
                    signers: sgn(actor(user)),
                    expect: Expect::Either,
                    why: "",
                    tags: &[],
                    pinned: &[],
                    pairs_from: usize::MAX,
                    authority: None,
                    authority_tags: &[],
                }
            }
            "lp_burn" => {
                let (p, user, amount) = (pi(0), ai(1), a(2));
                let from = lp_wallet(user, p);
                Built {
                    sem: Sem::Burn { p, from, amount },
                    ix: sim_core::spl_token::instruction::burn(
                        &sim_core::spl_token::id(),
                        &from,
                        &lp_mint(p),
                        &actor(user),
                        &[],
                        amount,
                    )
                    .ok()?,
                    signers: sgn(actor(user)),
                    expect: Expect::Either,
                    why: "",
                    tags: &[],
                    pinned: &[],
                    pairs_from: usize::MAX,
                    authority: None,
                    authority_tags: &[],
                }
            }
            "prefund" => {
                let (which, user, lamports) = (a(0), ai(1), a(2).clamp(890_880, 1 << 40));
                let to = match which {
                    0 => toll_pda(),
                    1 => settings_pda(),
                    n => discount_pda((n - 2) % self.n_actors),
                };
                Built {
                    sem: Sem::Prefund { to },
                    ix: system_instruction::transfer(&actor(user), &to, lamports),
                    signers: sgn(actor(user)),
                    expect: Expect::Either,
                    why: "",
                    tags: &[],
                    pinned: &[],
                    pairs_from: usize::MAX,
                    authority: None,
                    authority_tags: &[],
                }
            }
            _ => return None,
        })
    }

    /// create_pool p admin amp flaw mints...
    fn build_create_pool(&mut self, step: &Step) -> Option<Built> {
        let p = step.arg(0) % self.n_pools;
        let admin = step.arg(1) % self.n_actors;
        let (amp, flaw, variant) = (step.arg(2), step.arg(3) % 16, step.arg(3) / 16);
        let mut mints: Vec<u64> =
            step.args.iter().skip(4).take(8).map(|m| m % self.n_mints).collect();
        let toll = self.st.toll.unwrap_or(0);
        let exists = self.st.pools.contains_key(&p);
        let mut vaults: Vec<Pubkey> = mints.iter().map(|m| vault(p, *m)).collect();
        let mut lp = lp_mint(p);
        let mut tollw = toll_wallet(toll, p);
        let distinct = mints.iter().collect::<BTreeSet<_>>().len();
        let s = supply(&self.bank, p);
        let filled: Vec<bool> = vaults.iter().map(|k| balance(&self.bank, *k) > 0).collect();
        let mut ok = !exists
            && self.st.toll.is_some()
            && toll != NOBODY
            && (2..=wire::MAX_RESERVES).contains(&mints.len())
            && distinct == mints.len()
            && filled.iter().all(|f| *f == (s > 0));
        // something is wrong with an account the admin prepared
        let at = variant as usize % mints.len().max(1);
        let first = mints.get(at).copied().unwrap_or(0);
        let variant = variant / 4;
        let bad = flawed(p, flaw);
        let mut wrong = |bank: &mut Bank, f: &dyn Fn(&mut sim_core::spl_token::state::Account)| {
            let mut w = wallet_of(bank, vault(p, first))?;
            f(&mut w);
            let mut data = vec![0; sim_core::spl_token::state::Account::LEN];
            sim_core::spl_token::state::Account::pack(w, &mut data).unwrap();
            bank.set(
                bad,
                Account {
                    lamports: 10_000_000,
                    data,
                    owner: sim_core::spl_token::id(),
                    executable: false,
                },
            );
            if let Some(v) = vaults.get_mut(at) {
                *v = bad;
            }
            Some(())
        };
        let bank = &mut self.bank;
        match flaw {
            1 => wrong(bank, &|w| w.owner = actor(admin))?,
            2 => wrong(bank, &|w| w.close_authority = COption::Some(actor(admin)))?,
            3 => wrong(bank, &|w| {
                w.delegate = COption::Some(actor(admin));
                w.delegated_amount = [5, 0, 1, u64::MAX][variant as usize % 4];
            })?,
            4 => wrong(bank, &|w| w.state = sim_core::spl_token::state::AccountState::Frozen)?,
            5 => wrong(bank, &|w| w.amount = if s == 0 { 7 >> variant.min(2) } else { 0 })?,
            6 | 7 => {
                let mut m = mint_of(bank, lp)?;
                if flaw == 6 {
                    m.mint_authority = match variant % 2 {
                        0 => COption::Some(actor(admin)),
                        _ => COption::None,
                    };
                } else {
                    m.freeze_authority = COption::Some(actor(admin));
                }
                let mut data = vec![0; sim_core::spl_token::state::Mint::LEN];
                sim_core::spl_token::state::Mint::pack(m, &mut data).unwrap();
                let owner = sim_core::spl_token::id();
                bank.set(bad, Account { lamports: 10_000_000, data, owner, executable: false });
                let mut w = wallet_of(bank, tollw)?;
                w.mint = bad;
                let mut data = vec![0; sim_core::spl_token::state::Account::LEN];
                sim_core::spl_token::state::Account::pack(w, &mut data).unwrap();
                let k = flawed(p, 100 + flaw);
                bank.set(k, Account { lamports: 10_000_000, data, owner, executable: false });
                lp = bad;
                tollw = k;
            }
            8 => tollw = toll_wallet((toll + 1) % self.n_actors, p),
            9 => tollw = wallet(toll, first),
            10 if self.n_pools > 1 => lp = lp_mint((p + 1) % self.n_pools),
            _ => (),
        }
        if (1..=9).contains(&flaw) || (flaw == 10 && self.n_pools > 1) {
            ok = false;
        }
        if flaw == 8 && self.n_actors == 1 {
            return None;
        }
        let mut metas = vec![
            meta(actor(admin), true, true),
            meta(pool_key(p), true, true),
            meta(signer_pda(p), false, false),
            meta(toll_pda(), false, false),
            meta(tollw, false, false),
            meta(lp, false, false),
            Self::token_program(),
            Self::system_program(),
        ];
        metas.extend(vaults.iter().map(|k| meta(*k, false, false)));
        mints.truncate(8);
        Some(Built {
            sem: Sem::CreatePool { p, admin, mints, amp },
            ix: wire::ix(program(), "create_pool", metas, &[&amp.to_le_bytes()]),
            signers: BTreeSet::from([actor(admin), pool_key(p)]),
            expect: match (ok, amp) {
                (false, _) => Expect::Err,
                (true, 0) => Expect::Ok,
                // pre-filled vaults can be out of proportion
                (true, _) if s > 0 => Expect::Either,
                (true, _) => Expect::Ok,
            },
            why: "an account does not qualify",
            tags: &["C30"],
            pinned: &[2, 3, 6, 7],
            pairs_from: usize::MAX,
            authority: None,
            authority_tags: &[],
        })
    }

    fn expect_deposit(&self, pool: &MPool, r: &[u64], s: u64, max: &[u64], held: &[u64]) -> Expect {
        if max.iter().any(|m| *m == 0) {
            return Expect::Err;
        }
        let room = |i: usize, d: u128| {
            r[i] as u128 + d + pool.donated[i] <= u64::MAX as u128
        };
        if s == 0 {
            if max.iter().zip(held).any(|(m, h)| m > h) {
                return Expect::Err;
            }
            if (0..r.len()).any(|i| !room(i, max[i] as u128)) {
                return Expect::Either;
            }
            let after: Vec<u64> = r.iter().zip(max).map(|(r, m)| r + m).collect();
            return if self.workable(pool.amp, &after) { Expect::Ok } else { Expect::Either };
        }
        if r.iter().any(|r| *r == 0) {
            return Expect::Either;
        }
        let b = deposit_bounds(r, max);
        if (0..r.len()).any(|i| b.lo[i] > held[i] as u128) {
            return Expect::Err;
        }
        let most: Vec<u128> = (0..r.len()).map(|i| b.hi[i].min(max[i] as u128)).collect();
        // amounts are rounded up, so the share is that of the tightest limit,
        // known to 18 decimals
        let minted_lo =
            mul_div(s, max[b.tight], r[b.tight]).saturating_sub(1 + s as u128 * 4 / WAD as u128);
        let minted_hi = (0..r.len()).map(|i| b.hi[i].saturating_mul(s as u128) / r[i] as u128).min().unwrap_or(0);
        if minted_hi == 0 {
            // nothing to give for it
            return Expect::Err;
        }
        let fits = (0..r.len()).all(|i| most[i] <= held[i] as u128 && room(i, most[i]))
            && minted_lo > 0
            && s as u128 + minted_hi <= u64::MAX as u128;
        if !fits {
            return Expect::Either;
        }
        let after: Vec<u64> = (0..r.len()).map(|i| r[i] + most[i] as u64).collect();
        if self.workable(pool.amp, &after) {
            Expect::Ok
        } else {
            Expect::Either
        }
    }

    fn expect_redeem(
        &self,
        pool: &MPool,
        r: &[u64],
        s: u64,
        lp: u64,
        min: &[u64],
        held: u64,
    ) -> Expect {
        if s == 0 || lp > s || lp > held {
            return Expect::Err;
        }
        let exact: Vec<u128> = r.iter().map(|x| mul_div(*x, lp, s)).collect();
        if min.iter().zip(&exact).any(|(m, e)| *m as u128 > *e) {
            return Expect::Err;
        }
        let sure: Vec<u128> = (0..r.len()).map(|i| redeem_least(r[i], lp, s)).collect();
        if min.iter().zip(&sure).any(|(m, e)| *m as u128 > *e) {
            return Expect::Either;
        }
        let after: Vec<u64> = r.iter().zip(&exact).map(|(r, e)| r - *e as u64).collect();
        if self.workable(pool.amp, &after) {
            Expect::Ok
        } else {
            Expect::Either
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn expect_swap(
        &self,
        p: u64,
        pool: &MPool,
        user: u64,
        s: usize,
        b: usize,
        sell: u64,
        min: u64,
    ) -> Expect {
        let lp = supply(&self.bank, p);
        let r = match self.view(p) {
            Some(v) => v.tokens(),
            None => return Expect::Either,
        };
        let held = balance(&self.bank, wallet(user, pool.mints[s]));
        if sell == 0 || s == b || lp == 0 || sell > held || r.iter().any(|x| *x == 0) {
            return Expect::Err;
        }
        let rule = self.swap_rule(p, user, sell, self.now());
        if rule.traded >= r[s] {
            return Expect::Err;
        }
        if pool.amp != 0 {
            return self.expect_stable(pool, &r, s, b, &rule, sell, min, lp);
        }
        let most = curve::const_prod(&r, s, b, rule.traded);
        if min as u128 > most as u128 + 1 {
            return Expect::Err;
        }
        let room = r[s] as u128 + sell as u128 + pool.donated[s] < u64::MAX as u128
            && (lp as u128) < u64::MAX as u128 / 2;
        if min < most && room {
            Expect::Ok
        } else {
            Expect::Either
        }
    }
}

impl Amm {
    #[allow(clippy::too_many_arguments)]
    fn expect_stable(
        &self,
        pool: &MPool,
        r: &[u64],
        s: usize,
        b: usize,
        rule: &SwapRule,
        sell: u64,
        min: u64,
        lp: u64,
    ) -> Expect {
        if !self.workable(pool.amp, r) || pool.amp > 1_000_000_000 {
            return Expect::Either;
        }
        let (least, most) = stable_bounds(pool.amp, r, s, b, rule.traded);
        if min > most {
            return Expect::Err;
        }
        let room = r[s] as u128 + sell as u128 + pool.donated[s] < u64::MAX as u128
            && (lp as u128) < u64::MAX as u128 / 2;
        // a trade worth nothing is refused for lack of precision
        if least == 0 || min > least || !room || most >= r[b] {
            return Expect::Either;
        }
        let left = |bought: u64| {
            let mut x = r.to_vec();
            x[s] += sell;
            x[b] -= bought;
            self.workable(pool.amp, &x)
        };
        if left(least) && left(most) {
            Expect::Ok
        } else {
            Expect::Either
        }
    }
}

/// What a redemption yields at least, the share being known to 18 decimals.
fn redeem_least(r: u64, lp: u64, s: u64) -> u128 {
    if lp == s {
        return r as u128;
    }
    mul_div(r, lp, s).saturating_sub(1 + (r / WAD) as u128 + 1)
}

include!("judge.rs");
include!("drive.rs");
