//! The simulated deployment: farms, admins, farmers, bots and attackers.

use crate::model::{self, Owed, Period, Snap};
use crate::wire::{self, FarmView, FarmerView};
use sim_core::token::{balance, new_mint, new_wallet, wallet_of};
use sim_core::{
    key, meta, Abort, Account, Bank, Cfg, Programs, Rng, Stats, Step, Tx, TxError, Violation,
    World,
};
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use solana_program::{system_instruction, system_program, sysvar};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

pub const DEFAULT_WINDOW: u64 = 2 * 3600;

thread_local! {
    static PDAS: RefCell<BTreeMap<(u8, u64, u64), Pubkey>> = RefCell::new(BTreeMap::new());
}

fn program() -> Pubkey {
    farming::ID
}

fn pda(kind: u8, a: u64, b: u64, seeds: &[&[u8]]) -> Pubkey {
    PDAS.with(|c| {
        *c.borrow_mut()
            .entry((kind, a, b))
            .or_insert_with(|| Pubkey::find_program_address(seeds, &program()).0)
    })
}

pub fn actor(a: u64) -> Pubkey {
    key(1, a, 0)
}
pub fn mint(m: u64) -> Pubkey {
    key(2, m, 0)
}
pub fn wallet(a: u64, m: u64) -> Pubkey {
    key(3, a, m)
}
pub fn farm_key(f: u64) -> Pubkey {
    key(4, f, 0)
}
pub fn fake_vault(f: u64, m: u64) -> Pubkey {
    key(5, f, m)
}
fn forged_key(k: &Pubkey) -> Pubkey {
    let b = k.to_bytes();
    key(10, u64::from_le_bytes(b[..8].try_into().unwrap()), u64::from_le_bytes(b[24..].try_into().unwrap()))
}
pub fn signer_pda(f: u64) -> Pubkey {
    pda(1, f, 0, &[b"signer", farm_key(f).as_ref()])
}
pub fn stake_vault(f: u64) -> Pubkey {
    pda(2, f, 0, &[b"stake_vault", farm_key(f).as_ref()])
}
pub fn harvest_vault(f: u64, m: u64) -> Pubkey {
    pda(3, f, m, &[b"harvest_vault", farm_key(f).as_ref(), mint(m).as_ref()])
}
pub fn farmer_key(f: u64, a: u64) -> Pubkey {
    pda(4, f, a, &[b"farmer", farm_key(f).as_ref(), actor(a).as_ref()])
}
pub fn whitelist_key(s: u64, t: u64) -> Pubkey {
    pda(5, s, t, &[b"whitelist_compounding", farm_key(s).as_ref(), farm_key(t).as_ref()])
}

#[derive(Clone, Debug, Default)]
pub struct MHarvest {
    /// Every period there ever was, in order; the last may be scheduled.
    pub periods: Vec<Period>,
    /// Periods scheduled and replaced before they started are gone.
    pub credited: u128,
    /// What the overlap of the slot of a snapshot may add, see DESIGN.md.
    pub overlap: u128,
    pub funded: u128,
}

#[derive(Clone, Debug)]
pub struct MFarm {
    pub admin: u64,
    pub stake_mint: u64,
    pub window: u64,
    pub snaps: Vec<Snap>,
    pub harvests: BTreeMap<u64, MHarvest>,
    pub last_credit: u64,
    pub donated: u128,
    /// The overlap of mints which are no longer listed: positions not updated
    /// since still list what was credited then.
    pub overlaps: BTreeMap<u64, u128>,
    /// Some harvest mint was removed before.
    pub relisted: bool,
    pub whitelisted: BTreeSet<u64>,
}

impl MFarm {
    fn retained(&self) -> &[Snap] {
        &self.snaps[self.snaps.len().saturating_sub(wire::RING)..]
    }
    fn window(&self) -> u64 {
        if self.window == 0 {
            DEFAULT_WINDOW
        } else {
            self.window
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct State {
    pub farms: BTreeMap<u64, MFarm>,
}

#[derive(Clone)]
struct Checkpoint {
    bank: Bank,
    st: State,
    log: Vec<Step>,
}

#[derive(Clone, Debug)]
struct InFlight {
    due: u64,
    sent_slot: u64,
    step: Step,
}

pub struct Farming {
    pub bank: Bank,
    programs: Programs,
    cfg: Cfg,
    pub st: State,
    inflight: Vec<InFlight>,
    checkpoint: Option<Checkpoint>,
    step_no: u64,
    start_slot: u64,
    n_farms: u64,
    n_actors: u64,
    n_mints: u64,
    weights: Vec<u64>,
    queue: Vec<Step>,
}

/// What should happen to a well formed transaction.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Expect {
    Ok,
    Err,
    Either,
}

#[derive(Clone, Debug)]
enum Sem {
    CreateFarm { f: u64, admin: u64, m: u64 },
    AddHarvest { f: u64, m: u64 },
    RemoveHarvest { f: u64, m: u64 },
    Period { f: u64, m: u64, start: u64, len: u64, tps: u64, wallet: Pubkey },
    Owner { f: u64, to: u64 },
    Window { f: u64, n: u64 },
    Whitelist { s: u64, t: u64 },
    Dewhitelist { s: u64, t: u64 },
    Snapshot { f: u64 },
    CreateFarmer { f: u64, a: u64 },
    Close { f: u64, a: u64 },
    Start { f: u64, a: u64, by: u64, amount: u64 },
    Stop { f: u64, a: u64, max: u64, wallet: Pubkey },
    Update { f: u64, a: u64, until: u64 },
    Claim { f: u64, a: u64, pairs: Vec<(u64, Pubkey)> },
    Compound { s: u64, t: u64, a: u64 },
    Airdrop { f: u64, a: u64, m: u64, by: u64, amount: u64 },
    Donate { vault: Pubkey, amount: u64 },
    Prefund,
}

struct Built {
    sem: Sem,
    ix: Instruction,
    signers: BTreeSet<Pubkey>,
    expect: Expect,
    why: &'static str,
    /// Which properties an unexpected outcome breaks.
    tags: &'static [&'static str],
    /// Positions which only one account may take.
    pinned: &'static [usize],
    /// Signer position which has to be the admin or authority.
    authority: Option<usize>,
    authority_tags: &'static [&'static str],
    /// A vault took the place of an account of the caller's choice, whoever
    /// signed may have given tokens away to it.
    to_vault: bool,
}

const OPS: &[&str] = &[
    "advance", "create_farm", "add_harvest", "remove_harvest", "period", "owner", "window",
    "whitelist", "dewhitelist", "snapshot", "burst", "create_farmer", "close", "start", "stop",
    "update", "update_until", "claim", "compound", "compound_x", "airdrop", "donate", "fork",
    "rollback", "prefund",
];

fn op_index(op: &str) -> usize {
    OPS.iter().position(|o| *o == op).unwrap()
}

macro_rules! hit_op {
    ($stats:expr, $op:expr, $ok:expr, $($name:literal),*) => {
        match ($op, $ok) {
            $( ($name, true) => $stats.hit(concat!("op.", $name, ".ok")),
               ($name, false) => $stats.hit(concat!("op.", $name, ".refused")), )*
            _ => (),
        }
    };
}

fn hit_op(stats: &mut Stats, op: &str, ok: bool) {
    hit_op!(
        stats, op, ok, "create_farm", "add_harvest", "remove_harvest", "period", "owner",
        "window", "whitelist", "dewhitelist", "snapshot", "create_farmer", "close", "start",
        "stop", "update", "update_until", "claim", "compound", "compound_x", "airdrop", "donate",
        "prefund"
    );
}

fn v(tags: &[&'static str], kind: &str, detail: String) -> Violation {
    Violation { properties: tags.to_vec(), kind: kind.to_string(), detail }
}

impl Farming {
    fn now(&self) -> u64 {
        self.bank.slot
    }

    pub fn farmer_view(&self, f: u64, a: u64) -> Option<FarmerView> {
        view_farmer(&self.bank, &farmer_key(f, a))
    }

    fn token_program() -> AccountMeta {
        meta(sim_core::spl_token::id(), false, false)
    }
    fn system_program() -> AccountMeta {
        meta(system_program::id(), false, false)
    }
    fn rent() -> AccountMeta {
        meta(sysvar::rent::id(), false, false)
    }

    /// Builds the transaction of a step against the present state.
    fn build(&self, step: &Step) -> Option<Built> {
        let now = self.now();
        let a = |i: usize| step.arg(i);
        let fi = |i: usize| step.arg(i) % self.n_farms;
        let ai = |i: usize| step.arg(i) % self.n_actors;
        let mi = |i: usize| step.arg(i) % self.n_mints;
        let bank = &self.bank;
        let sgn = |k: Pubkey| BTreeSet::from([k]);
        let id = program();
        Some(match step.op.as_str() {
            "create_farm" => {
                let (f, adm, m) = (fi(0), ai(1), mi(2));
                let exists = self.st.farms.contains_key(&f);
                Built {
                    sem: Sem::CreateFarm { f, admin: adm, m },
                    ix: wire::ix(
                        id,
                        "create_farm",
                        vec![
                            meta(actor(adm), true, true),
                            meta(farm_key(f), false, true),
                            meta(signer_pda(f), false, true),
                            meta(mint(m), false, false),
                            meta(stake_vault(f), false, true),
                            Self::token_program(),
                            Self::system_program(),
                            Self::rent(),
                        ],
                        &[],
                    ),
                    signers: sgn(actor(adm)),
                    expect: if exists { Expect::Err } else { Expect::Ok },
                    why: "an existing farm must not be created again",
                    tags: &["C20", "C12", "C14"],
                    pinned: &[1, 2, 4, 5, 6],
                    authority: None,
                    authority_tags: &[],
                    to_vault: false,
                }
            }
            "add_harvest" => {
                let (f, m) = (fi(0), mi(1));
                let farm = self.st.farms.get(&f)?;
                let full = farm.harvests.len() >= wire::SLOTS_OF_MINTS;
                let ok = !farm.harvests.contains_key(&m) && !full;
                Built {
                    sem: Sem::AddHarvest { f, m },
                    ix: wire::ix(
                        id,
                        "add_harvest",
                        vec![
                            meta(actor(farm.admin), true, true),
                            meta(farm_key(f), false, true),
                            meta(signer_pda(f), false, false),
                            meta(mint(m), false, false),
                            meta(harvest_vault(f, m), false, true),
                            Self::token_program(),
                            Self::system_program(),
                            Self::rent(),
                        ],
                        &[],
                    ),
                    signers: sgn(actor(farm.admin)),
                    expect: if ok { Expect::Ok } else { Expect::Err },
                    why: "a harvest mint is listed at most once and at most ten of them",
                    tags: &["C16"],
                    pinned: &[1, 2, 3, 4, 5, 6],
                    authority: Some(0),
                    authority_tags: &["C12"],
                    to_vault: false,
                }
            }
            "remove_harvest" => {
                let (f, m) = (fi(0), mi(1));
                let farm = self.st.farms.get(&f)?;
                let ok = farm.harvests.contains_key(&m)
                    && balance(bank, harvest_vault(f, m)) == 0;
                Built {
                    sem: Sem::RemoveHarvest { f, m },
                    ix: wire::ix(
                        id,
                        "remove_harvest",
                        vec![
                            meta(actor(farm.admin), true, true),
                            meta(farm_key(f), false, true),
                            meta(signer_pda(f), false, false),
                            meta(harvest_vault(f, m), false, true),
                            Self::token_program(),
                        ],
                        &[mint(m).as_ref()],
                    ),
                    signers: sgn(actor(farm.admin)),
                    expect: if ok { Expect::Ok } else { Expect::Err },
                    why: "a harvest can be removed exactly when it is listed and its vault empty",
                    tags: &["C16"],
                    pinned: &[1, 2, 3, 4],
                    authority: Some(0),
                    authority_tags: &["C12"],
                    to_vault: false,
                }
            }
            "period" => {
                let (f, m) = (fi(0), mi(1));
                let (start, len, tps, w) = (a(2), a(3), a(4), ai(5));
                let farm = self.st.farms.get(&f)?;
                let (expect, why) = self.expect_period(f, m, start, len, tps, w);
                Built {
                    sem: Sem::Period { f, m, start, len, tps, wallet: wallet(w, m) },
                    ix: wire::ix(
                        id,
                        "new_harvest_period",
                        vec![
                            meta(actor(farm.admin), true, false),
                            meta(farm_key(f), false, true),
                            meta(wallet(w, m), false, true),
                            meta(harvest_vault(f, m), false, true),
                            meta(signer_pda(f), false, false),
                            Self::token_program(),
                        ],
                        &[
                            mint(m).as_ref(),
                            &start.to_le_bytes(),
                            &len.to_le_bytes(),
                            &tps.to_le_bytes(),
                        ],
                    ),
                    signers: sgn(actor(farm.admin)),
                    expect,
                    why,
                    tags: match why {
                        "history full" => &["C11"],
                        "wallet too small" | "wallet of somebody else" => &["C10"],
                        "" => &["C09", "C10", "C11"],
                        _ => &["C09"],
                    },
                    pinned: &[1, 3, 4, 5],
                    authority: Some(0),
                    authority_tags: &["C12"],
                    to_vault: false,
                }
            }
            "owner" => {
                let (f, to) = (fi(0), ai(1));
                let farm = self.st.farms.get(&f)?;
                Built {
                    sem: Sem::Owner { f, to },
                    ix: wire::ix(
                        id,
                        "set_farm_owner",
                        vec![
                            meta(actor(farm.admin), true, false),
                            meta(actor(to), true, false),
                            meta(farm_key(f), false, true),
                        ],
                        &[],
                    ),
                    signers: BTreeSet::from([actor(farm.admin), actor(to)]),
                    expect: Expect::Ok,
                    why: "",
                    tags: &["C12"],
                    pinned: &[],
                    authority: Some(0),
                    authority_tags: &["C12"],
                    to_vault: false,
                }
            }
            "window" => {
                let (f, n) = (fi(0), a(1));
                let farm = self.st.farms.get(&f)?;
                Built {
                    sem: Sem::Window { f, n },
                    ix: wire::ix(
                        id,
                        "set_min_snapshot_window",
                        vec![
                            meta(actor(farm.admin), true, false),
                            meta(farm_key(f), false, true),
                        ],
                        &[&n.to_le_bytes()],
                    ),
                    signers: sgn(actor(farm.admin)),
                    expect: Expect::Ok,
                    why: "",
                    tags: &["C12", "C08"],
                    pinned: &[],
                    authority: Some(0),
                    authority_tags: &["C12"],
                    to_vault: false,
                }
            }
            "whitelist" | "dewhitelist" => {
                let (s, t) = (fi(0), fi(1));
                let src = self.st.farms.get(&s)?;
                self.st.farms.get(&t)?;
                let listed = src.whitelisted.contains(&t);
                let adding = step.op == "whitelist";
                Built {
                    sem: if adding {
                        Sem::Whitelist { s, t }
                    } else {
                        Sem::Dewhitelist { s, t }
                    },
                    ix: wire::ix(
                        id,
                        if adding {
                            "whitelist_farm_for_compounding"
                        } else {
                            "dewhitelist_farm_for_compounding"
                        },
                        vec![
                            meta(actor(src.admin), true, true),
                            meta(farm_key(s), false, false),
                            meta(farm_key(t), false, false),
                            meta(whitelist_key(s, t), false, true),
                            Self::system_program(),
                        ],
                        &[],
                    ),
                    signers: sgn(actor(src.admin)),
                    expect: if listed != adding { Expect::Ok } else { Expect::Err },
                    why: "already in that state",
                    tags: &["C15"],
                    pinned: &[1, 2, 3, 4],
                    authority: Some(0),
                    authority_tags: &["C12", "C15"],
                    to_vault: false,
                }
            }
            "snapshot" => {
                let f = fi(0);
                let farm = self.st.farms.get(&f)?;
                let last = farm.snaps.last().map_or(0, |s| s.0);
                let ok = last.checked_add(farm.window()).map_or(false, |t| now >= t);
                Built {
                    sem: Sem::Snapshot { f },
                    ix: wire::ix(
                        id,
                        "take_snapshot",
                        vec![meta(farm_key(f), false, true), meta(stake_vault(f), false, false)],
                        &[],
                    ),
                    signers: BTreeSet::new(),
                    expect: if ok { Expect::Ok } else { Expect::Err },
                    why: "the minimum window has not passed",
                    tags: &["C08"],
                    pinned: &[0, 1],
                    authority: None,
                    authority_tags: &[],
                    to_vault: false,
                }
            }
            "create_farmer" => {
                let (f, u, p) = (fi(0), ai(1), ai(2));
                self.st.farms.get(&f)?;
                let exists = self.farmer_view(f, u).is_some();
                Built {
                    sem: Sem::CreateFarmer { f, a: u },
                    ix: wire::ix(
                        id,
                        "create_farmer",
                        vec![
                            meta(actor(p), true, true),
                            meta(actor(u), false, false),
                            meta(farmer_key(f, u), false, true),
                            meta(farm_key(f), false, false),
                            Self::system_program(),
                        ],
                        &[],
                    ),
                    signers: sgn(actor(p)),
                    expect: if exists { Expect::Err } else { Expect::Ok },
                    why: "a live position must not be created again",
                    tags: &["C13", "C18", "C19", "C20"],
                    pinned: &[1, 2, 3, 4],
                    authority: None,
                    authority_tags: &[],
                    to_vault: false,
                }
            }
            "close" => {
                let (f, u) = (fi(0), ai(1));
                let farmer = self.farmer_view(f, u)?;
                let empty =
                    farmer.deposited() == 0 && farmer.harvests.iter().all(|(_, n)| *n == 0);
                Built {
                    sem: Sem::Close { f, a: u },
                    ix: wire::ix(
                        id,
                        "close_farmer",
                        vec![
                            meta(actor(u), true, true),
                            meta(farmer_key(f, u), false, true),
                        ],
                        &[],
                    ),
                    signers: sgn(actor(u)),
                    expect: if empty { Expect::Ok } else { Expect::Err },
                    why: "a position is closed exactly when nothing is left in it",
                    tags: &["C18", "C19"],
                    pinned: &[],
                    authority: Some(0),
                    authority_tags: &["C13", "C18"],
                    to_vault: false,
                }
            }
            "start" => {
                let (f, u, amount, by) = (fi(0), ai(1), a(2), ai(3));
                let farm = self.st.farms.get(&f)?;
                self.farmer_view(f, u)?;
                let w = wallet(by, farm.stake_mint);
                let ok = balance(bank, w) >= amount;
                Built {
                    sem: Sem::Start { f, a: u, by, amount },
                    ix: wire::ix(
                        id,
                        "start_farming",
                        vec![
                            meta(actor(by), true, false),
                            meta(farmer_key(f, u), false, true),
                            meta(w, false, true),
                            meta(farm_key(f), false, false),
                            meta(stake_vault(f), false, true),
                            Self::token_program(),
                        ],
                        &[&amount.to_le_bytes()],
                    ),
                    signers: sgn(actor(by)),
                    expect: match (amount, ok) {
                        (0, _) => Expect::Either,
                        (_, true) => Expect::Ok,
                        _ => Expect::Err,
                    },
                    why: "more than the wallet holds",
                    tags: &["C01", "C19"],
                    pinned: &[3, 4, 5],
                    authority: Some(0),
                    authority_tags: &["C13", "C01"],
                    to_vault: false,
                }
            }
            "stop" => {
                let (f, u, max, to) = (fi(0), ai(1), a(2), ai(3));
                let farm = self.st.farms.get(&f)?;
                self.farmer_view(f, u)?;
                let w = wallet(to, farm.stake_mint);
                Built {
                    sem: Sem::Stop { f, a: u, max, wallet: w },
                    ix: wire::ix(
                        id,
                        "stop_farming",
                        vec![
                            meta(actor(u), true, false),
                            meta(farmer_key(f, u), false, true),
                            meta(w, false, true),
                            meta(farm_key(f), false, false),
                            meta(signer_pda(f), false, false),
                            meta(stake_vault(f), false, true),
                            Self::token_program(),
                        ],
                        &[&max.to_le_bytes()],
                    ),
                    signers: sgn(actor(u)),
                    expect: if max == 0 { Expect::Either } else { Expect::Ok },
                    why: "a farmer must be able to withdraw",
                    tags: &["C01", "C19"],
                    pinned: &[1, 3, 4, 5, 6],
                    authority: Some(0),
                    authority_tags: &["C13", "C01"],
                    to_vault: false,
                }
            }
            "update" | "update_until" => {
                let (f, u) = (fi(0), ai(1));
                self.st.farms.get(&f)?;
                self.farmer_view(f, u)?;
                let metas =
                    vec![meta(farm_key(f), false, false), meta(farmer_key(f, u), false, true)];
                let (until, ix) = if step.op == "update" {
                    (now, wire::ix(id, "update_eligible_harvest", metas, &[]))
                } else {
                    let until = a(2);
                    (
                        until.min(now),
                        wire::ix(
                            id,
                            "update_eligible_harvest_until",
                            metas,
                            &[&until.to_le_bytes()],
                        ),
                    )
                };
                Built {
                    sem: Sem::Update { f, a: u, until },
                    ix,
                    signers: BTreeSet::new(),
                    expect: Expect::Ok,
                    why: "anyone can bring a position up to date at any time",
                    tags: &["C06", "C07", "C19"],
                    pinned: &[0],
                    authority: None,
                    authority_tags: &[],
                    to_vault: false,
                }
            }
            "claim" => {
                let (f, u, mask, to) = (fi(0), ai(1), a(2), ai(3));
                let farm = self.st.farms.get(&f)?;
                let farmer = self.farmer_view(f, u)?;
                let mints: Vec<u64> = farm
                    .harvests
                    .keys()
                    .copied()
                    .enumerate()
                    .filter(|(i, _)| mask >> i & 1 == 1)
                    .map(|(_, m)| m)
                    .collect();
                let mut metas = vec![
                    meta(actor(u), true, false),
                    meta(farmer_key(f, u), false, true),
                    meta(signer_pda(f), false, false),
                    Self::token_program(),
                ];
                let mut short = false;
                for m in &mints {
                    metas.push(meta(harvest_vault(f, *m), false, true));
                    metas.push(meta(wallet(to, *m), false, true));
                    short |= balance(bank, harvest_vault(f, *m)) < farmer.pending(&mint(*m));
                }
                // a client names one of the vaults again
                let twice = match a(4) {
                    0 => None,
                    n => mints.get((n as usize - 1) % mints.len().max(1)),
                };
                if let Some(m) = twice {
                    metas.push(meta(harvest_vault(f, *m), false, true));
                    metas.push(meta(wallet(to, *m), false, true));
                }
                let unsure = mints.is_empty() || short || twice.is_some();
                Built {
                    sem: Sem::Claim {
                        f,
                        a: u,
                        pairs: mints.iter().map(|m| (*m, wallet(to, *m))).collect(),
                    },
                    ix: wire::ix(id, "claim_eligible_harvest", metas, &[]),
                    signers: sgn(actor(u)),
                    expect: if unsure { Expect::Either } else { Expect::Ok },
                    why: "a farmer must be able to claim",
                    tags: &["C02", "C19"],
                    pinned: &[1, 2, 3],
                    authority: Some(0),
                    authority_tags: &["C13", "C02"],
                    to_vault: false,
                }
            }
            "compound" | "compound_x" => {
                let s = fi(0);
                let same = step.op == "compound";
                let (t, u) = if same { (s, ai(1)) } else { (fi(2), ai(1)) };
                // a farm compounds within itself by the other instruction only
                let itself = !same && s == t;
                let src = self.st.farms.get(&s)?;
                let tgt = self.st.farms.get(&t)?;
                let m = tgt.stake_mint;
                let sf = self.farmer_view(s, u)?;
                self.farmer_view(t, u)?;
                let listed = src.whitelisted.contains(&t);
                let harvest = src.harvests.contains_key(&m);
                let expect = if !listed || !harvest || itself {
                    Expect::Err
                } else if !sf.lists(&mint(m)) && sf.next >= now {
                    Expect::Either
                } else if src.harvests.get(&m).map_or(false, |h| h.overlap > 0) {
                    // may be short by what the known finding hands out twice
                    Expect::Either
                } else {
                    Expect::Ok
                };
                let mut ix = if same {
                    wire::ix(
                        id,
                        "compound_same_farm",
                        vec![
                            meta(farm_key(s), false, false),
                            meta(signer_pda(s), false, false),
                            meta(whitelist_key(s, s), false, false),
                            meta(stake_vault(s), false, true),
                            meta(harvest_vault(s, m), false, true),
                            meta(farmer_key(s, u), false, true),
                            Self::token_program(),
                        ],
                        &[],
                    )
                } else {
                    wire::ix(
                        id,
                        "compound_across_farms",
                        vec![
                            meta(farm_key(s), false, false),
                            meta(farm_key(t), false, false),
                            meta(signer_pda(s), false, false),
                            meta(whitelist_key(s, t), false, false),
                            meta(stake_vault(t), false, true),
                            meta(harvest_vault(s, m), false, true),
                            meta(farmer_key(s, u), false, true),
                            meta(farmer_key(t, u), false, true),
                            Self::token_program(),
                        ],
                        &[],
                    )
                };
                if let Some(o) = step.get_fault("other") {
                    // the reward of one user into the position of another
                    let o = o % self.n_actors;
                    if !same && o != u {
                        ix.accounts[7] = meta(farmer_key(t, o), false, true);
                    }
                }
                Built {
                    sem: Sem::Compound { s, t, a: u },
                    ix,
                    signers: BTreeSet::new(),
                    expect,
                    why: "compounding needs the consent of the source farm and a common mint",
                    tags: &["C15"],
                    pinned: if same { &[0, 1, 2, 3, 4, 6] } else { &[0, 1, 2, 3, 4, 5, 8] },
                    authority: None,
                    authority_tags: &[],
                    to_vault: false,
                }
            }
            "airdrop" => {
                let (f, u, m, amount, by) = (fi(0), ai(1), mi(2), a(3), ai(4));
                let farm = self.st.farms.get(&f)?;
                let farmer = self.farmer_view(f, u)?;
                let w = wallet(by, m);
                let expect = if amount == 0 {
                    Expect::Either
                } else if !farm.harvests.contains_key(&m) || balance(bank, w) < amount {
                    Expect::Err
                } else if !farmer.lists(&mint(m)) {
                    Expect::Either
                } else {
                    Expect::Ok
                };
                Built {
                    sem: Sem::Airdrop { f, a: u, m, by, amount },
                    ix: wire::ix(
                        id,
                        "airdrop",
                        vec![
                            meta(actor(by), true, false),
                            meta(farmer_key(f, u), false, true),
                            meta(w, false, true),
                            meta(harvest_vault(f, m), false, true),
                            Self::token_program(),
                        ],
                        &[&amount.to_le_bytes()],
                    ),
                    signers: sgn(actor(by)),
                    expect,
                    why: "an airdrop is paid in full, in a listed harvest mint",
                    tags: &["C17"],
                    pinned: &[3, 4],
                    authority: Some(0),
                    authority_tags: &["C17", "C13"],
                    to_vault: false,
                }
            }
            "donate" => {
                let (f, m, amount, by) = (fi(0), a(1), a(2), ai(3));
                let farm = self.st.farms.get(&f)?;
                let (vault, m) = if m % 2 == 0 {
                    (stake_vault(f), farm.stake_mint)
                } else {
                    let m = (m / 2) % self.n_mints;
                    farm.harvests.get(&m)?;
                    (harvest_vault(f, m), m)
                };
                let ix = sim_core::spl_token::instruction::transfer(
                    &sim_core::spl_token::id(),
                    &wallet(by, m),
                    &vault,
                    &actor(by),
                    &[],
                    amount,
                )
                .ok()?;
                Built {
                    sem: Sem::Donate { vault, amount },
                    ix,
                    signers: sgn(actor(by)),
                    expect: Expect::Either,
                    why: "",
                    tags: &[],
                    pinned: &[],
                    authority: None,
                    authority_tags: &[],
                    to_vault: false,
                }
            }
            "prefund" => {
                let (which, f, x, by, lamports) = (a(0), fi(1), a(2), ai(3), a(4));
                let to = match which % 4 {
                    0 => stake_vault(f),
                    1 => harvest_vault(f, x % self.n_mints),
                    2 => farmer_key(f, x % self.n_actors),
                    _ => whitelist_key(f, x % self.n_farms),
                };
                let lamports = lamports.clamp(890_880, 1 << 40);
                Built {
                    sem: Sem::Prefund,
                    ix: system_instruction::transfer(&actor(by), &to, lamports),
                    signers: sgn(actor(by)),
                    expect: Expect::Either,
                    why: "",
                    tags: &[],
                    pinned: &[],
                    authority: None,
                    authority_tags: &[],
                    to_vault: false,
                }
            }
            _ => return None,
        })
    }

    fn expect_period(
        &self,
        f: u64,
        m: u64,
        start: u64,
        len: u64,
        tps: u64,
        payer: u64,
    ) -> (Expect, &'static str) {
        let now = self.now();
        let farm = &self.st.farms[&f];
        let wallet = wallet(payer, m);
        let h = match farm.harvests.get(&m) {
            Some(h) => h,
            None => return (Expect::Err, "no such harvest"),
        };
        if len == 0 {
            return (Expect::Err, "empty period");
        }
        if start != 0 && start < now {
            return (Expect::Err, "period in the past");
        }
        let first = if start == 0 { now } else { start };
        let last = match first.checked_add(len) {
            Some(e) => e - 1,
            None => return (Expect::Err, "overflow"),
        };
        if h.periods.iter().any(|p| p.0 <= now && p.1 >= first) {
            return (Expect::Err, "overlaps a running period");
        }
        let total = match (len as u128).checked_mul(tps as u128) {
            Some(t) if t <= u64::MAX as u128 => t,
            _ => return (Expect::Err, "overflow"),
        };
        let scheduled = h.periods.last().filter(|p| p.0 > now).copied();
        let before = scheduled.map_or(0, |p| model::released(&[p], p.0, p.1));
        if total > before && payer != farm.admin {
            return (Expect::Err, "wallet of somebody else");
        }
        if total > before && total - before > balance(&self.bank, wallet) as u128 {
            return (Expect::Err, "wallet too small");
        }
        if total < before && before - total > balance(&self.bank, harvest_vault(f, m)) as u128 {
            return (Expect::Either, "vault short");
        }
        if scheduled.is_none() && h.periods.len() >= wire::PERIODS {
            let oldest_period = h.periods[h.periods.len() - wire::PERIODS];
            // a snapshot still remembered may need it
            return match farm.retained().first() {
                Some(s) if oldest_period.1 >= s.0 => (Expect::Err, "history full"),
                _ => (Expect::Either, ""),
            };
        }
        if last == first {
            // a single slot: refused today, harmless
            return (Expect::Either, "single slot");
        }
        (Expect::Ok, "")
    }

    /// Other accounts of the kind of this one: wallets of the same mint, farms,
    /// positions, signers, consents.
    fn kin(&self, k: &Pubkey) -> Vec<Pubkey> {
        let token = wallet_of(&self.bank, *k).map(|w| w.mint);
        let ours = |k: &Pubkey| {
            let acc = self.bank.get(k)?;
            (acc.owner == program()).then(|| acc.data.len())
        };
        let signer = (0..self.n_farms).any(|f| signer_pda(f) == *k);
        let mut out = self.pool();
        out.retain(|o| {
            o != k
                && if token.is_some() {
                    wallet_of(&self.bank, *o).map(|w| w.mint) == token
                } else if signer {
                    (0..self.n_farms).any(|f| signer_pda(f) == *o)
                } else {
                    ours(k).is_some() && ours(o) == ours(k)
                }
        });
        out
    }

    /// What an account of farm `f` corresponds to in farm `g`.
    fn counterpart(&self, k: &Pubkey, f: u64, g: u64) -> Option<Pubkey> {
        if *k == farm_key(f) {
            return Some(farm_key(g));
        }
        if *k == signer_pda(f) {
            return Some(signer_pda(g));
        }
        if *k == stake_vault(f) {
            return Some(stake_vault(g));
        }
        if let Some(m) = (0..self.n_mints).find(|m| *k == harvest_vault(f, *m)) {
            return Some(harvest_vault(g, m));
        }
        (0..self.n_actors).find(|a| *k == farmer_key(f, *a)).map(|a| farmer_key(g, a))
    }

    /// What an account of some user corresponds to for user `b`.
    fn of_user(&self, k: &Pubkey, b: u64) -> Option<Pubkey> {
        for a in (0..self.n_actors).filter(|a| *a != b) {
            if *k == actor(a) {
                return Some(actor(b));
            }
            if let Some(m) = (0..self.n_mints).find(|m| *k == wallet(a, *m)) {
                return Some(wallet(b, m));
            }
            if let Some(f) = (0..self.n_farms).find(|f| *k == farmer_key(*f, a)) {
                return Some(farmer_key(f, b));
            }
        }
        None
    }

    /// Accounts an attacker can get hold of.
    fn pool(&self) -> Vec<Pubkey> {
        let mut out = vec![];
        for f in 0..self.n_farms {
            out.push(farm_key(f));
            out.push(stake_vault(f));
            out.push(signer_pda(f));
            for m in 0..self.n_mints.min(3) {
                out.push(harvest_vault(f, m));
                out.push(fake_vault(f, m));
            }
            for a in 0..self.n_actors {
                out.push(farmer_key(f, a));
            }
            for t in 0..self.n_farms {
                out.push(whitelist_key(f, t));
            }
        }
        for a in 0..self.n_actors {
            out.push(actor(a));
            for m in 0..self.n_mints.min(3) {
                out.push(wallet(a, m));
            }
        }
        out.push(system_program::id());
        out.push(sim_core::spl_token::id());
        out
    }

    /// Delivers one transaction, then judges what it did.
    fn deliver(&mut self, step: &Step, stats: &mut Stats) -> Vec<Violation> {
        let mut out = vec![];
        let mut built = match self.build(step) {
            Some(b) => b,
            None => {
                stats.hit("op.without_effect");
                return out;
            }
        };
        let mut must_fail: Vec<&'static str> = vec![];
        let mut byzantine = false;
        let mut mutations = 0;
        let is_ours = built.ix.program_id == program();
        if let Some(k) = step.get_fault("signer") {
            if let Some(pos) = built.authority {
                let other = actor(k % self.n_actors);
                if built.ix.accounts[pos].pubkey != other {
                    stats.hit("fault.wrong_signer");
                    built.ix.accounts[pos].pubkey = other;
                    built.signers.insert(other);
                    // the rightful one did not sign this
                    let rest: BTreeSet<Pubkey> = built
                        .ix
                        .accounts
                        .iter()
                        .filter(|m| m.is_signer)
                        .map(|m| m.pubkey)
                        .collect();
                    built.signers = rest;
                    must_fail.extend(built.authority_tags);
                    mutations += 1;
                }
            }
        }
        if let Some(x) = step.get_fault("unsigned") {
            // of a hand-over the one who is to be the admin, too
            let heir = x == 2 && matches!(built.sem, Sem::Owner { .. });
            let missing = if heir { Some(1) } else { built.authority };
            if let Some(m) = missing.map(|p| &mut built.ix.accounts[p]) {
                stats.hit("fault.missing_signature");
                m.is_signer = false;
                built.signers.remove(&m.pubkey);
                must_fail.extend(built.authority_tags);
                mutations += 1;
            }
        }
        if let (Some(p), Some(x), true) =
            (step.get_fault("pos"), step.get_fault("sub"), is_ours)
        {
            let pos = (p as usize) % built.ix.accounts.len();
            let pool = self.pool();
            let mut other = pool[(x as usize) % pool.len()];
            if built.ix.accounts[pos].is_signer && pos != 0 {
                // nobody holds the keys of vaults and the like
                other = actor(x % self.n_actors);
            } else if built.ix.accounts[pos].is_signer {
                other = built.ix.accounts[pos].pubkey;
            }
            if built.ix.accounts[pos].pubkey != other {
                stats.hit("fault.substituted_account");
                built.ix.accounts[pos].pubkey = other;
                built.to_vault = !built.pinned.contains(&pos)
                    && (0..self.n_farms).any(|f| {
                        other == stake_vault(f)
                            || (0..self.n_mints).any(|m| other == harvest_vault(f, m))
                    });
                if built.ix.accounts[pos].is_signer {
                    built.signers.insert(other);
                }
                mutations += 1;
                let foreign_vault = match &built.sem {
                    Sem::Claim { f, .. } => {
                        pos >= 4
                            && pos % 2 == 0
                            && (0..self.n_mints).all(|m| harvest_vault(*f, m) != other)
                    }
                    _ => false,
                };
                if built.pinned.contains(&pos) || foreign_vault {
                    must_fail.extend(place_tags(&built.sem));
                }
            }
        }
        // an account of the same kind as the one it takes the place of
        if let (Some(x), true) = (step.get_fault("kin"), is_ours) {
            let places: Vec<(usize, Vec<Pubkey>)> = (built.ix.accounts.iter().enumerate())
                .filter(|(i, m)| {
                    let paying = matches!(built.sem, Sem::Claim { .. }) && *i >= 4 && i % 2 == 0;
                    (paying || built.pinned.contains(i)) && !m.is_signer
                })
                .map(|(i, m)| (i, self.kin(&m.pubkey)))
                .filter(|(_, kin)| !kin.is_empty())
                .collect();
            if !places.is_empty() {
                stats.hit("fault.account_of_the_same_kind");
                let (pos, kin) = &places[(x / 64) as usize % places.len()];
                built.ix.accounts[*pos].pubkey = kin[(x % 64) as usize % kin.len()];
                must_fail.extend(place_tags(&built.sem));
                mutations += 1;
            }
        }
        if let (Some(p), true) = (step.get_fault("forge"), is_ours) {
            let pos = (p as usize) % built.ix.accounts.len();
            let k = built.ix.accounts[pos].pubkey;
            let fk = forged_key(&k);
            let copy = self.bank.get(&k).cloned();
            if let Some(mut acc) = copy {
                if !acc.executable && !built.ix.accounts[pos].is_signer {
                    stats.hit("fault.forged_account");
                    // an attacker can put any bytes in accounts of their own
                    // program, never of ours
                    acc.owner = key(9, 0, 0);
                    self.bank.set(fk, acc);
                    built.ix.accounts[pos].pubkey = fk;
                    mutations += 1;
                    // a forged wallet nothing is paid to does no harm
                    let is_wallet = (0..self.n_actors)
                        .any(|a| (0..self.n_mints).any(|m| wallet(a, m) == k));
                    if !is_wallet && self.bank.get(&k).map_or(false, |a| !a.data.is_empty()) {
                        must_fail.extend(place_tags(&built.sem));
                    }
                }
            }
        }
        // several accounts of another farm together, which fit each other
        if let (Some(x), Some(f), true) = (step.get_fault("mix"), farm_of_sem(&built.sem), is_ours) {
            let g = (x >> 16) % self.n_farms;
            let swaps: Vec<(usize, Pubkey)> = (built.ix.accounts.iter().enumerate())
                .filter_map(|(i, m)| Some((i, self.counterpart(&m.pubkey, f, g)?)))
                .collect();
            let picked = pick(&swaps, x & 0xffff);
            if f != g && mutations == 0 && !picked.is_empty() && picked.len() < swaps.len() {
                stats.hit("fault.accounts_of_two_farms");
                for (i, k) in picked {
                    built.ix.accounts[i].pubkey = k;
                }
                must_fail.extend(place_tags(&built.sem));
                mutations += 1;
            }
        }
        if let (Some(x), true, Sem::Compound { s, t, .. }) =
            (step.get_fault("mix"), is_ours, &built.sem)
        {
            let g = (x >> 16) % self.n_farms;
            let (s, t) = (*s, *t);
            // the consent stays that of the two farms, so nothing else fits
            let swaps: Vec<(usize, Pubkey)> = (built.ix.accounts.iter().enumerate())
                .filter_map(|(i, m)| {
                    let k = self.counterpart(&m.pubkey, s, g);
                    let k = k.or_else(|| self.counterpart(&m.pubkey, t, g))?;
                    (s != t && k != m.pubkey).then(|| (i, k))
                })
                .collect();
            let picked = pick(&swaps, x & 0xffff);
            if !picked.is_empty() && mutations == 0 {
                stats.hit("fault.accounts_of_two_farms");
                for (i, k) in picked {
                    built.ix.accounts[i].pubkey = k;
                }
                must_fail.extend(place_tags(&built.sem));
                mutations += 1;
            }
        }
        // accounts of two users mixed, only what it does counts
        if let (Some(x), true) = (step.get_fault("mixuser"), is_ours) {
            let b = (x >> 16) % self.n_actors;
            let swaps: Vec<(usize, Pubkey)> = (built.ix.accounts.iter().enumerate())
                .filter_map(|(i, m)| Some((i, self.of_user(&m.pubkey, b)?)))
                .collect();
            let picked = pick(&swaps, x & 0xffff);
            if !picked.is_empty() {
                stats.hit("fault.accounts_of_two_users");
                for (i, k) in picked {
                    built.ix.accounts[i].pubkey = k;
                }
                let metas = built.ix.accounts.iter().filter(|m| m.is_signer);
                built.signers = metas.map(|m| m.pubkey).collect();
                mutations += 2;
            }
        }
        if step.get_fault("other").is_some() && matches!(built.sem, Sem::Compound { .. }) {
            byzantine = true;
            stats.hit("fault.foreign_position");
        }
        byzantine |= mutations > 0;
        if mutations > 1 {
            // together they can make up a legitimate transaction of somebody
            // else, only what it does counts
            must_fail.clear();
        }
        let abort = Abort { syscall: step.get_fault("abort"), after_cpi: step.get_fault("cpi") };

        // a client has the account of the farm ready before it is created
        if let Sem::CreateFarm { f, .. } = &built.sem {
            if self.bank.get(&farm_key(*f)).is_none() {
                self.bank.set(
                    farm_key(*f),
                    Account {
                        lamports: 1_000_000_000,
                        data: vec![0; wire::FARM_LEN],
                        owner: program(),
                        executable: false,
                    },
                );
            }
        }

        let before = self.bank.clone();
        let tx = Tx { ixs: vec![built.ix.clone()], signers: built.signers.clone() };
        let outcome = self.programs.execute(&mut self.bank, &tx, abort, stats.trace.is_some());
        stats.txs += 1;
        stats.log.u64(outcome.syscalls ^ (outcome.ok() as u64) << 40);
        stats.trace(|| {
            format!("  slot {} {:?} {:?}", before.slot, outcome.result, outcome.logs)
        });
        hit_op(stats, &step.op, outcome.ok());
        if outcome.aborted {
            match abort.after_cpi {
                Some(_) => stats.hit("fault.aborted_after_cpi"),
                None => stats.hit("fault.aborted_at_syscall"),
            }
        }
        stats.checks += 1;

        let changed = self.bank.diff(&before);
        for k in &changed {
            stats.log.bytes(k.as_ref());
            if let Some(acc) = self.bank.get(k) {
                stats.log.bytes(&acc.data[..acc.data.len().min(4096)]);
            }
        }
        if !outcome.ok() {
            if !byzantine && !outcome.aborted && built.expect == Expect::Ok {
                let mut t = built.tags.to_vec();
                if t.contains(&"C19") || t.contains(&"C15") {
                    // whatever history the farm has
                    let long = self.st.farms.values().any(|f| f.snaps.len() >= wire::RING);
                    t.extend(long.then(|| "C07"));
                    t.extend((step.op == "start").then(|| "C05"));
                }
                out.push(v(
                    &t,
                    &format!("refused-{}", step.op),
                    format!("{step}: expected to succeed, got {:?}", outcome.result),
                ));
            }
            if let Err(TxError::Panic(_, msg)) = &outcome.result {
                if !byzantine && built.expect == Expect::Ok {
                    stats.trace(|| format!("  panic {msg}"));
                }
            }
            return out;
        }
        stats.txs_ok += 1;
        if step.op == "prefund" {
            stats.hit("fault.address_prefunded");
        }
        if !must_fail.is_empty() {
            out.push(v(
                &must_fail,
                &format!("accepted-{}", step.op),
                format!("{step}: accepted with a wrong signer or account"),
            ));
        } else if !byzantine && built.expect == Expect::Err {
            out.push(v(
                built.tags,
                &format!("allowed-{}", step.op),
                format!("{step}: must be refused: {}", built.why),
            ));
        }
        self.audit(&before, &changed, &built, byzantine, step, stats, &mut out);
        out
    }
}

/// Which properties an account that does not belong in its place breaks.
fn place_tags(sem: &Sem) -> &'static [&'static str] {
    match sem {
        Sem::Start { .. } | Sem::Stop { .. } => &["C14", "C01"],
        Sem::Claim { .. } => &["C14", "C02"],
        Sem::Period { .. } => &["C14", "C10"],
        Sem::Compound { .. } | Sem::Whitelist { .. } | Sem::Dewhitelist { .. } => &["C14", "C15"],
        Sem::AddHarvest { .. } | Sem::RemoveHarvest { .. } => &["C14", "C16"],
        Sem::Airdrop { .. } => &["C14", "C17"],
        Sem::Snapshot { .. } => &["C14", "C08"],
        Sem::CreateFarm { .. } => &["C14", "C12", "C20"],
        Sem::CreateFarmer { .. } => &["C14", "C18", "C20"],
        Sem::Close { .. } => &["C14", "C18"],
        Sem::Update { .. } => &["C14", "C06"],
        _ => &["C14", "C12"],
    }
}

/// The farm of a call about one farm.
fn farm_of_sem(sem: &Sem) -> Option<u64> {
    match sem {
        Sem::CreateFarm { f, .. }
        | Sem::AddHarvest { f, .. }
        | Sem::RemoveHarvest { f, .. }
        | Sem::Period { f, .. }
        | Sem::Snapshot { f }
        | Sem::CreateFarmer { f, .. }
        | Sem::Close { f, .. }
        | Sem::Start { f, .. }
        | Sem::Stop { f, .. }
        | Sem::Update { f, .. }
        | Sem::Claim { f, .. }
        | Sem::Airdrop { f, .. } => Some(*f),
        Sem::Compound { s, t, .. } if s == t => Some(*s),
        _ => None,
    }
}

fn pick(swaps: &[(usize, Pubkey)], mask: u64) -> Vec<(usize, Pubkey)> {
    swaps.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, x)| *x).collect()
}

fn is_consent(bank: &Bank, k: &Pubkey) -> bool {
    bank.get(k).map_or(false, |a| a.owner == program() && wire::is_whitelist(&a.data))
}

fn view_farmer(bank: &Bank, k: &Pubkey) -> Option<FarmerView> {
    let acc = bank.get(k)?;
    if acc.owner != program() || !wire::is_farmer(&acc.data) {
        return None;
    }
    Some(wire::farmer(&acc.data))
}

fn view_farm(bank: &Bank, k: &Pubkey) -> Option<FarmView> {
    let acc = bank.get(k)?;
    if acc.owner != program() || !wire::is_farm(&acc.data) {
        return None;
    }
    Some(wire::farm(&acc.data))
}

/// A farmer brought up to date by the model.
struct Predicted {
    staked: u64,
    vested: u64,
    next: u64,
    /// `next` may also stay: the present slot is credited now or later.
    next_alt: Option<u64>,
    owed: BTreeMap<u64, Owed>,
    /// The part of `owed` which is optional, see `next_alt`.
    optional: BTreeMap<u64, Owed>,
    moved: bool,
    lost: bool,
}

fn predict(farm: &MFarm, b: &FarmerView, now: u64) -> Predicted {
    let snaps = farm.retained();
    let mut p = Predicted {
        staked: b.staked,
        vested: b.vested,
        next: b.next,
        next_alt: None,
        owed: BTreeMap::new(),
        optional: BTreeMap::new(),
        moved: false,
        lost: snaps.first().map_or(false, |s| {
            s.0 > b.next && farm.snaps.len() > wire::RING
        }),
    };
    let add = |p: &mut Predicted, staked: u64, from: u64, to: u64| {
        for (m, h) in &farm.harvests {
            p.owed.entry(*m).or_default().join(&model::owed(snaps, &h.periods, staked, from, to));
        }
    };
    if p.vested != 0 {
        if let Some(s) = snaps.iter().find(|s| s.0 > b.vested_at) {
            let next = p.next;
            add(&mut p, b.staked, next, s.0.saturating_sub(1));
            p.next = p.next.max(s.0);
            p.staked += p.vested;
            p.vested = 0;
            p.moved = true;
        }
    }
    if p.next < now {
        let (staked, next) = (p.staked, p.next);
        add(&mut p, staked, next, now);
        p.next = now + 1;
    } else if p.next == now {
        for (m, h) in &farm.harvests {
            p.optional.insert(*m, model::owed(snaps, &h.periods, p.staked, now, now));
        }
        p.next_alt = Some(now + 1);
    }
    p
}

impl Farming {
    fn farm_of(&self, k: &Pubkey) -> Option<u64> {
        (0..self.n_farms).find(|f| farm_key(*f) == *k)
    }

    #[allow(clippy::too_many_arguments)]
    fn audit(
        &mut self,
        before: &Bank,
        changed: &[Pubkey],
        built: &Built,
        byzantine: bool,
        step: &Step,
        stats: &mut Stats,
        out: &mut Vec<Violation>,
    ) {
        let now = before.slot;
        let signed = |k: &Pubkey| built.signers.contains(k);
        let sem = &built.sem;
        let ctx = |what: String| format!("{step} at slot {now}: {what}");
        let mut more: Vec<&'static str> = vec![];
        if byzantine {
            more.push("C14");
        }
        let op_tag: &[&'static str] = match sem {
            Sem::Compound { .. } => &["C15"],
            Sem::Airdrop { .. } => &["C17"],
            Sem::Period { .. } => &["C10"],
            Sem::AddHarvest { .. } | Sem::RemoveHarvest { .. } => &["C16"],
            Sem::Close { .. } => &["C18"],
            Sem::Snapshot { .. } => &["C08"],
            _ => &[],
        };
        more.extend(op_tag);
        let tags = |t: &[&'static str]| -> Vec<&'static str> {
            let mut x = t.to_vec();
            x.extend(more.iter());
            x.dedup();
            x
        };

        // --- classify what changed
        let mut d_stake: BTreeMap<u64, i128> = BTreeMap::new();
        let mut d_harvest: BTreeMap<(u64, u64), i128> = BTreeMap::new();
        let mut d_deposit: BTreeMap<u64, i128> = BTreeMap::new();
        let mut d_pending: BTreeMap<(u64, u64), i128> = BTreeMap::new();
        let mut lo: BTreeMap<(u64, u64), u128> = BTreeMap::new();
        let mut hi: BTreeMap<(u64, u64), u128> = BTreeMap::new();
        let mut deposits_up: BTreeMap<Pubkey, i128> = BTreeMap::new();
        let mut pend_down: Vec<(Pubkey, Pubkey, u64, i128)> = vec![];
        let mut share_tags: Vec<&'static str> = vec!["C04", "C06"];
        let mut token_owner: BTreeMap<Pubkey, (u64, Option<u64>)> = BTreeMap::new();
        for f in 0..self.n_farms {
            token_owner.insert(stake_vault(f), (f, None));
            for m in 0..self.n_mints {
                token_owner.insert(harvest_vault(f, m), (f, Some(m)));
            }
        }
        let updates: Vec<(Pubkey, u64)> = match sem {
            Sem::Start { f, a, .. } | Sem::Stop { f, a, .. } => {
                vec![(farmer_key(*f, *a), now)]
            }
            Sem::Update { f, a, until } => vec![(farmer_key(*f, *a), *until)],
            Sem::Compound { s, t, a } => {
                vec![(farmer_key(*s, *a), now), (farmer_key(*t, *a), now)]
            }
            _ => vec![],
        };
        let mut farmers: BTreeSet<Pubkey> = BTreeSet::new();
        if !byzantine {
            farmers.extend(updates.iter().map(|u| u.0));
        }
        for k in changed {
            let (b, a) = (before.get(k), self.bank.get(k));
            if let Some((f, m)) = token_owner.get(k) {
                let d = balance(&self.bank, *k) as i128 - balance(before, *k) as i128;
                match m {
                    None => *d_stake.entry(*f).or_default() += d,
                    Some(m) => *d_harvest.entry((*f, *m)).or_default() += d,
                }
                let (bw, aw) = (wallet_of(before, *k), wallet_of(&self.bank, *k));
                if let (Some(bw), Some(aw)) = (bw, aw) {
                    if bw.owner != aw.owner
                        || bw.mint != aw.mint
                        || bw.delegate != aw.delegate
                        || bw.close_authority != aw.close_authority
                    {
                        out.push(v(
                            &tags(&["C01", "C02", "C14"]),
                            "vault-handed-over",
                            ctx("control of a vault changed".into()),
                        ));
                    }
                }
                continue;
            }
            if view_farmer(before, k).is_some() || view_farmer(&self.bank, k).is_some() {
                farmers.insert(*k);
                continue;
            }
            if let (Some(bw), aw) = (wallet_of(before, *k), wallet_of(&self.bank, *k)) {
                let now_amount = aw.map_or(0, |w| w.amount);
                if now_amount < bw.amount && !signed(&bw.owner) {
                    out.push(v(
                        &tags(&["C13", "C14"]),
                        "wallet-spent",
                        ctx("tokens left a wallet whose owner did not sign".into()),
                    ));
                }
                continue;
            }
            let _ = (b, a);
        }

        // --- farmers
        for k in &farmers {
            let b = view_farmer(before, k);
            let a = view_farmer(&self.bank, k);
            match (b, a) {
                (None, Some(a)) => {
                    let fresh = a.staked == 0
                        && a.vested == 0
                        && a.harvests.iter().all(|(_, n)| *n == 0)
                        && view_farm(&self.bank, &a.farm).map_or(false, |farm| {
                            farm.harvests.iter().all(|h| a.lists(&h.mint))
                        });
                    let expected = match sem {
                        Sem::CreateFarmer { f, a: u } => {
                            *k == farmer_key(*f, *u)
                                && a.authority == actor(*u)
                                && a.farm == farm_key(*f)
                        }
                        _ => false,
                    };
                    if !fresh || (!expected && !byzantine) {
                        out.push(v(
                            &tags(&["C13", "C18", "C20"]),
                            "farmer-created-wrong",
                            ctx(format!("new position {a:?}")),
                        ));
                    }
                }
                (Some(b), None) => {
                    if b.deposited() != 0 || b.harvests.iter().any(|(_, n)| *n != 0) {
                        out.push(v(
                            &tags(&["C18", "C13"]),
                            "closed-with-claims",
                            ctx("a position with claims disappeared".into()),
                        ));
                    }
                    if !signed(&b.authority) {
                        out.push(v(
                            &tags(&["C18", "C13"]),
                            "closed-by-other",
                            ctx("a position was closed without its owner".into()),
                        ));
                    }
                }
                (Some(b), Some(a)) => {
                    if a.authority != b.authority || a.farm != b.farm {
                        out.push(v(
                            &tags(&["C13"]),
                            "farmer-handed-over",
                            ctx("owner or farm of a position changed".into()),
                        ));
                        continue;
                    }
                    let f = match self.farm_of(&b.farm) {
                        Some(f) => f,
                        None => continue,
                    };
                    let dd = a.deposited() as i128 - b.deposited() as i128;
                    *d_deposit.entry(f).or_default() += dd;
                    if dd > 0 {
                        *deposits_up.entry(b.authority).or_default() += dd;
                    }
                    if dd < 0 && !signed(&b.authority) {
                        out.push(v(
                            &tags(&["C13", "C01"]),
                            "deposit-taken",
                            ctx("a deposit shrank without its owner".into()),
                        ));
                    }
                    self.audit_farmer(
                        k, f, &b, &a, dd, &updates, sem, byzantine, now, stats, out, &ctx, &tags,
                        &mut lo, &mut hi, &mut share_tags,
                    );
                    for m in 0..self.n_mints {
                        let (pb, pa) = (b.pending(&mint(m)), a.pending(&mint(m)));
                        let mut d = pa as i128 - pb as i128;
                        if !self.st.farms.get(&f).map_or(false, |x| x.harvests.contains_key(&m)) {
                            // forgotten with its harvest
                            if pa != pb && pa != 0 {
                                out.push(v(
                                    &tags(&["C16", "C02"]),
                                    "unlisted-harvest",
                                    ctx("harvest of an unlisted mint changed".into()),
                                ));
                            }
                            d = 0;
                        } else if pb > 0
                            && !a.lists(&mint(m))
                            && !matches!(sem, Sem::Claim { .. } | Sem::Compound { .. })
                        {
                            out.push(v(
                                &tags(&["C16", "C02"]),
                                "harvest-forgotten",
                                ctx(format!("a position lost mint {m} and {pb} of its harvest")),
                            ));
                        }
                        *d_pending.entry((f, m)).or_default() += d;
                        if d < 0 && !signed(&b.authority) {
                            pend_down.push((b.authority, *k, m, -d));
                        }
                    }
                }
                _ => (),
            }
        }
        // harvest taken from a position by somebody else has to be compounded
        for (auth, _, _, n) in &pend_down {
            let up = deposits_up.get(auth).copied().unwrap_or(0);
            if up < *n {
                out.push(v(
                    &tags(&["C13", "C02"]),
                    "harvest-taken",
                    ctx(format!("{n} of harvest left a position whose owner did not sign")),
                ));
            }
        }

        // --- vaults against positions
        let donation = |vault: Pubkey| match sem {
            Sem::Donate { vault: x, amount } if *x == vault => *amount as i128,
            _ => 0,
        };
        for f in 0..self.n_farms {
            let ds = d_stake.get(&f).copied().unwrap_or(0) - donation(stake_vault(f));
            let dd = d_deposit.get(&f).copied().unwrap_or(0);
            if ds != dd && !(built.to_vault && ds > dd) {
                out.push(v(
                    &tags(&["C01"]),
                    "stake-vault-mismatch",
                    ctx(format!("stake vault moved by {ds}, recorded deposits by {dd}")),
                ));
            }
            for m in 0..self.n_mints {
                let kk = (f, m);
                let dh = d_harvest.get(&kk).copied().unwrap_or(0) - donation(harvest_vault(f, m));
                let dp = d_pending.get(&kk).copied().unwrap_or(0);
                let funding = matches!(sem, Sem::Period { f: pf, m: pm, .. } if (*pf, *pm) == kk);
                if funding {
                    continue;
                }
                let x = dp - dh;
                let (l, h) = (
                    lo.get(&kk).copied().unwrap_or(0) as i128,
                    hi.get(&kk).copied().unwrap_or(0) as i128,
                );
                if (x < l && !built.to_vault) || x > h {
                    let mut t = share_tags.clone();
                    if l == 0 && h == 0 || dh != 0 {
                        t.push("C02");
                    }
                    if x < 0 {
                        t.push("C16");
                        t.push("C13");
                    }
                    if x > h {
                        t.push("C03");
                        t.push("C02");
                    }
                    out.push(v(
                        &tags(&t),
                        if x > h { "over-credited" } else { "under-credited" },
                        ctx(format!(
                            "farm {f} mint {m}: harvest credited {x}, owed between {l} and {h} \
                             (pending {dp}, vault {dh})"
                        )),
                    ));
                }
                if x > 0 {
                    if let Some(mh) =
                        self.st.farms.get_mut(&f).and_then(|x| x.harvests.get_mut(&m))
                    {
                        mh.credited += x as u128;
                    }
                }
            }
        }

        self.audit_farms(before, changed, built, byzantine, now, stats, out, &ctx, &tags);
        self.audit_op(before, built, byzantine, now, stats, out, &ctx, &tags);
        self.apply(before, built, byzantine, now, stats, out, &ctx, &tags);
        self.audit_totals(stats, out, &ctx, &tags);
        self.note_state(step, stats);
    }

    #[allow(clippy::too_many_arguments)]
    fn audit_farmer(
        &mut self,
        k: &Pubkey,
        f: u64,
        b: &FarmerView,
        a: &FarmerView,
        dd: i128,
        updates: &[(Pubkey, u64)],
        sem: &Sem,
        byzantine: bool,
        now: u64,
        stats: &mut Stats,
        out: &mut Vec<Violation>,
        ctx: &dyn Fn(String) -> String,
        tags: &dyn Fn(&[&'static str]) -> Vec<&'static str>,
        lo: &mut BTreeMap<(u64, u64), u128>,
        hi: &mut BTreeMap<(u64, u64), u128>,
        share_tags: &mut Vec<&'static str>,
    ) {
        let farm = match self.st.farms.get_mut(&f) {
            Some(x) => x,
            None => return,
        };
        let planned = updates.iter().find(|(x, _)| x == k).map(|(_, n)| *n);
        let adds = matches!(sem, Sem::Compound { .. } | Sem::Start { .. });
        let touched = a.next != b.next
            || dd != 0
            || a.staked != b.staked
            || (adds && a.vested_at != b.vested_at);
        let until = match planned {
            Some(n) => n,
            None if byzantine && touched => match sem {
                Sem::Update { until, .. } => *until,
                _ => now,
            },
            None => {
                // nothing may accrue: claims and airdrops
                if a.staked != b.staked
                    || a.vested != b.vested
                    || a.vested_at != b.vested_at
                    || a.next != b.next
                {
                    out.push(v(
                        &tags(&["C01", "C05", "C06"]),
                        "position-changed",
                        ctx(format!("{b:?} became {a:?}")),
                    ));
                }
                return;
            }
        };
        let p = predict(farm, b, until);
        if p.lost {
            stats.hit("probe.update_after_history_lost");
        }
        if p.lost || farm.snaps.len() >= wire::RING {
            share_tags.push("C07");
        }
        if p.moved {
            stats.hit("probe.vested_became_staked");
        }
        if p.moved || b.vested > 0 || matches!(sem, Sem::Start { .. }) {
            share_tags.push("C05");
        }
        if farm.relisted {
            share_tags.push("C16");
        }
        let dropped = farm.harvests.values().any(|h| h.periods.len() > wire::PERIODS);
        if dropped {
            stats.hit("probe.update_with_long_schedule");
        }
        if farm.harvests.values().any(|h| h.periods.len() > 2) {
            share_tags.push("C11");
        }
        if farm.harvests.values().any(|h| h.periods.len() > 1) {
            share_tags.push("C09");
        }
        if matches!(sem, Sem::Compound { .. }) {
            share_tags.push("C15");
        }
        // slots covered
        if a.next != p.next && Some(a.next) != p.next_alt {
            let mut t = vec!["C06"];
            if p.moved {
                t.push("C05");
            }
            if matches!(sem, Sem::Compound { .. }) {
                t.push("C15");
            }
            if p.lost {
                t.push("C07");
            }
            out.push(v(
                &tags(&t),
                "slots-covered",
                ctx(format!("position covered up to {} became {}, expected {}", b.next, a.next, p.next)),
            ));
        }
        if a.next > now + 1 && a.next > b.next {
            out.push(v(
                &tags(&["C06"]),
                "future-credited",
                ctx(format!("covered up to {} in the future", a.next)),
            ));
        }
        let credited_now = Some(a.next) == p.next_alt;
        for m in farm.harvests.keys() {
            let mut o = p.owed.get(m).copied().unwrap_or_default();
            if credited_now {
                if let Some(x) = p.optional.get(m) {
                    o.join(x);
                }
            }
            let bb = o.bounds();
            *lo.entry((f, *m)).or_default() += bb.lo;
            *hi.entry((f, *m)).or_default() += bb.hi;
            if bb.hi > 0 {
                stats.hit("probe.harvest_credited");
            }
        }
        if a.next > b.next {
            farm.last_credit = farm.last_credit.max(a.next - 1);
        }
        // stake and vesting
        let (mut staked, mut vested) = (p.staked as i128, p.vested as i128);
        if dd > 0 {
            vested += dd;
        } else {
            let w = -dd;
            let from_vested = w.min(vested);
            vested -= from_vested;
            staked -= w - from_vested;
        }
        if (a.staked as i128, a.vested as i128) != (staked, vested) {
            let mut t = vec!["C05"];
            if p.lost {
                t.push("C07");
            }
            if matches!(sem, Sem::Compound { .. }) {
                t.push("C15");
            }
            out.push(v(
                &tags(&t),
                "vesting",
                ctx(format!(
                    "staked {} vested {}, expected {staked} and {vested}",
                    a.staked, a.vested
                )),
            ));
        }
        let adds = match sem {
            Sem::Start { .. } => true,
            Sem::Compound { t, .. } => *t == f,
            _ => false,
        };
        let at_ok = if adds && dd > 0 {
            a.vested_at == now
        } else if adds {
            a.vested_at == now || a.vested_at == b.vested_at
        } else {
            a.vested_at == b.vested_at || a.vested == 0
        };
        if !at_ok {
            out.push(v(
                &tags(&["C05"]),
                "vesting-start",
                ctx(format!("vesting starts at {}", a.vested_at)),
            ));
        }
    }

    /// Settings, schedules and snapshots only change the way they may.
    #[allow(clippy::too_many_arguments)]
    fn audit_farms(
        &mut self,
        before: &Bank,
        changed: &[Pubkey],
        built: &Built,
        byzantine: bool,
        now: u64,
        stats: &mut Stats,
        out: &mut Vec<Violation>,
        ctx: &dyn Fn(String) -> String,
        tags: &dyn Fn(&[&'static str]) -> Vec<&'static str>,
    ) {
        let _ = &stats;
        for f in 0..self.n_farms {
            let k = farm_key(f);
            for t in 0..self.n_farms {
                let w = whitelist_key(f, t);
                // lamports may be sent to any address
                let (b, a) = (before.get(&w), self.bank.get(&w));
                let content = |x: Option<&Account>| x.map(|x| (x.owner, x.data.clone()));
                let lamports = |x: Option<&Account>| x.map_or(0, |x| x.lamports);
                let touched = content(b) != content(a) || lamports(b) > lamports(a);
                let consents = is_consent(before, &w) || is_consent(&self.bank, &w);
                if consents && touched {
                    let ok = view_farm(before, &k)
                        .map_or(false, |b| built.signers.contains(&b.admin));
                    if !ok {
                        out.push(v(
                            &tags(&["C12", "C15"]),
                            "whitelist-by-other",
                            ctx("consent to compound changed without the admin".into()),
                        ));
                    }
                }
            }
            if !changed.contains(&k) {
                continue;
            }
            let (bd, ad) = match (before.get(&k), self.bank.get(&k)) {
                (Some(b), Some(a)) => (&b.data, &a.data),
                _ => {
                    out.push(v(&tags(&["C12"]), "farm-gone", ctx("farm disappeared".into())));
                    continue;
                }
            };
            if !wire::is_farm(bd) {
                // created
                let a = wire::farm(ad);
                let vault = wallet_of(&self.bank, stake_vault(f));
                let empty = a.tip == 0
                    && a.window == 0
                    && ad[wire::HARVESTS..].iter().all(|x| *x == 0);
                let held = vault.map_or(false, |w| {
                    w.mint == a.stake_mint
                        && w.owner == signer_pda(f)
                        && w.amount == 0
                        && w.delegate.is_none()
                        && w.close_authority.is_none()
                });
                let by_admin = built.signers.contains(&a.admin);
                let kind = matches!(&built.sem, Sem::CreateFarm { .. });
                if !kind || !wire::is_farm(ad) || !empty || !held || !by_admin {
                    out.push(v(
                        &tags(&["C20", "C12"]),
                        "farm-created-unsound",
                        ctx(format!("farm {a:?} vault {vault:?}")),
                    ));
                }
                continue;
            }
            if !wire::is_farm(ad) {
                out.push(v(&tags(&["C12"]), "farm-gone", ctx("farm disappeared".into())));
                continue;
            }
            let (b, a) = (wire::farm(bd), wire::farm(ad));
            if b.stake_mint != a.stake_mint || b.stake_vault != a.stake_vault {
                out.push(v(
                    &tags(&["C12", "C01"]),
                    "farm-retargeted",
                    ctx("stake mint or vault of a farm changed".into()),
                ));
            }
            let by_admin = built.signers.contains(&b.admin);
            let settings = b.admin != a.admin || b.window != a.window || b.harvests != a.harvests;
            if settings && !by_admin {
                let t: &[&'static str] =
                    if b.harvests != a.harvests { &["C12", "C09", "C16"] } else { &["C12"] };
                out.push(v(
                    &tags(t),
                    "settings-by-other",
                    ctx("settings of a farm changed without its admin".into()),
                ));
            }
            if b.admin != a.admin {
                let ok = built.signers.contains(&a.admin)
                    && (byzantine || matches!(&built.sem, Sem::Owner { f: x, .. } if *x == f));
                if !ok {
                    out.push(v(&tags(&["C12"]), "admin-changed", ctx("admin changed".into())));
                }
            }
            if b.window != a.window
                && !byzantine
                && !matches!(&built.sem, Sem::Window { f: x, .. } if *x == f)
            {
                out.push(v(&tags(&["C12"]), "window-changed", ctx("window changed".into())));
            }
            // started periods are history
            for bh in &b.harvests {
                if bh.mint == Pubkey::default() {
                    continue;
                }
                let ah = match a.harvests.iter().find(|h| h.mint == bh.mint) {
                    Some(h) => h,
                    None => {
                        if !matches!(&built.sem, Sem::RemoveHarvest { f: x, .. } if *x == f) {
                            out.push(v(
                                &tags(&["C16", "C02"]),
                                "harvest-gone",
                                ctx("a harvest disappeared".into()),
                            ));
                        }
                        continue;
                    }
                };
                if ah.vault != bh.vault {
                    out.push(v(
                        &tags(&["C16", "C02"]),
                        "harvest-retargeted",
                        ctx("vault of a harvest changed".into()),
                    ));
                }
                let started = |h: &wire::HarvestView| -> Vec<Period> {
                    h.periods.iter().filter(|p| p.0 <= now && p.0 != 0).copied().collect()
                };
                let (bs, aset) = (started(bh), started(ah));
                let lost: Vec<&Period> = bs.iter().filter(|p| !aset.contains(p)).collect();
                // the oldest of a full history may make room once it is out
                // of reach of every snapshot, C11 judges when
                let full = bh.periods.iter().all(|p| p.0 != 0);
                let allowed = full && lost.len() == 1 && *lost[0] == bs[bs.len() - 1];
                if !lost.is_empty() && !allowed {
                    out.push(v(
                        &tags(&["C09", "C11"]),
                        "started-period-changed",
                        ctx(format!("{lost:?} changed")),
                    ));
                }
                if ah.periods != bh.periods
                    && !matches!(&built.sem, Sem::Period { f: x, .. } if *x == f)
                {
                    out.push(v(
                        &tags(&["C09"]),
                        "schedule-changed",
                        ctx("schedule changed by another instruction".into()),
                    ));
                }
            }
            // order of the schedule
            for h in a.harvests.iter().filter(|h| h.mint != Pubkey::default()) {
                let used: Vec<Period> = h.periods.iter().filter(|p| p.0 != 0).copied().collect();
                let sorted = used.windows(2).all(|w| w[1].1 < w[0].0);
                let sane = used.iter().all(|p| p.0 <= p.1);
                let future = used.iter().filter(|p| p.0 > now).count();
                if !sorted || !sane || future > 1 {
                    out.push(v(
                        &tags(&["C09"]),
                        "schedule-order",
                        ctx(format!("schedule {used:?}")),
                    ));
                }
            }
            // snapshots
            let ring = wire::ring_changes(bd, ad);
            let snap = matches!(&built.sem, Sem::Snapshot { f: x } if *x == f)
                || (byzantine && matches!(&built.sem, Sem::Snapshot { .. }));
            if (!ring.is_empty() || a.tip != b.tip) && !snap {
                out.push(v(
                    &tags(&["C08"]),
                    "snapshots-changed",
                    ctx("history changed by another instruction".into()),
                ));
            }
            if snap {
                let tip = (b.tip + 1) % wire::RING;
                let vault = balance(before, stake_vault(f));
                let good = a.tip == tip
                    && ring.iter().all(|i| *i == tip)
                    && wire::snapshot(ad, tip) == (vault, now);
                if !good {
                    out.push(v(
                        &tags(&["C08"]),
                        "snapshot-wrong",
                        ctx(format!(
                            "entry {} is {:?}, expected {tip} with ({vault}, {now}); changed {ring:?}",
                            a.tip,
                            wire::snapshot(ad, a.tip.min(wire::RING - 1))
                        )),
                    ));
                }
            }
        }
    }

    /// The effect of well formed instructions, exactly.
    #[allow(clippy::too_many_arguments)]
    fn audit_op(
        &mut self,
        before: &Bank,
        built: &Built,
        byzantine: bool,
        now: u64,
        stats: &mut Stats,
        out: &mut Vec<Violation>,
        ctx: &dyn Fn(String) -> String,
        tags: &dyn Fn(&[&'static str]) -> Vec<&'static str>,
    ) {
        if byzantine {
            return;
        }
        let bank = &self.bank;
        let d = |k: Pubkey| balance(bank, k) as i128 - balance(before, k) as i128;
        let mut check = |ok: bool, t: &[&'static str], kind: &str, what: String| {
            if !ok {
                out.push(v(&tags(t), kind, ctx(what)));
            }
        };
        match &built.sem {
            Sem::CreateFarm { f, admin, m } => {
                let a = view_farm(bank, &farm_key(*f));
                let vault = wallet_of(bank, stake_vault(*f));
                let ok = a.as_ref().map_or(false, |a| {
                    a.admin == actor(*admin)
                        && a.stake_mint == mint(*m)
                        && a.stake_vault == stake_vault(*f)
                        && a.harvests.iter().all(|h| h.mint == Pubkey::default())
                }) && vault
                    .map_or(false, |w| w.mint == mint(*m) && w.owner == signer_pda(*f));
                check(ok, &["C20", "C12", "C01"], "farm-created-wrong", format!("{a:?} {vault:?}"));
            }
            Sem::AddHarvest { f, m } => {
                let a = view_farm(bank, &farm_key(*f)).unwrap();
                let vault = wallet_of(bank, harvest_vault(*f, *m));
                let n = a.harvests.iter().filter(|h| h.mint == mint(*m)).count();
                let ok = n == 1
                    && a.harvests.iter().any(|h| {
                        h.mint == mint(*m)
                            && h.vault == harvest_vault(*f, *m)
                            && h.periods.iter().all(|p| *p == (0, 0, 0))
                    })
                    && vault.map_or(false, |w| w.mint == mint(*m) && w.owner == signer_pda(*f));
                check(ok, &["C16"], "harvest-added-wrong", format!("{vault:?}"));
            }
            Sem::RemoveHarvest { f, m } => {
                let a = view_farm(bank, &farm_key(*f)).unwrap();
                let ok = a.harvests.iter().all(|h| h.mint != mint(*m))
                    && bank.get(&harvest_vault(*f, *m)).is_none();
                check(ok, &["C16"], "harvest-removed-wrong", "still there".into());
            }
            Sem::Period { f, m, start, len, tps, wallet } => {
                let h = &self.st.farms[f].harvests[m];
                let first = if *start == 0 { now } else { *start };
                let last = first.saturating_add(*len).saturating_sub(1);
                let total = *len as i128 * *tps as i128;
                let scheduled = h.periods.last().filter(|p| p.0 > now).copied();
                let prev =
                    scheduled.map_or(0, |p| model::released(&[p], p.0, p.1) as i128);
                if scheduled.is_some() {
                    stats.hit("probe.scheduled_period_replaced");
                    if total < prev {
                        stats.hit("probe.period_refunded");
                    }
                }
                let a = view_farm(bank, &farm_key(*f)).unwrap();
                let on_chain =
                    a.harvests.iter().find(|x| x.mint == mint(*m)).map(|x| x.periods.clone());
                let mut want: Vec<Period> = h.periods.clone();
                if scheduled.is_some() {
                    want.pop();
                }
                want.push((first, last, *tps));
                want.reverse();
                want.truncate(wire::PERIODS);
                let got: Vec<Period> =
                    on_chain.unwrap_or_default().into_iter().filter(|p| p.0 != 0).collect();
                // how many past periods are kept is judged by what farmers
                // get; the ones kept must be right
                let ok = !got.is_empty() && got.len() <= want.len() && got[..] == want[..got.len()];
                check(
                    ok,
                    &["C09"],
                    "schedule-wrong",
                    format!("schedule {got:?}, expected {want:?}"),
                );
                let (dv, dw) = (d(harvest_vault(*f, *m)), d(*wallet));
                check(
                    dv == total - prev && dw == -dv,
                    &["C10", "C02"],
                    "funding-wrong",
                    format!("vault moved by {dv}, wallet by {dw}, expected {}", total - prev),
                );
            }
            Sem::Owner { f, to } => {
                let a = view_farm(bank, &farm_key(*f)).unwrap();
                check(a.admin == actor(*to), &["C12"], "owner-wrong", String::new());
            }
            Sem::Window { f, n } => {
                let a = view_farm(bank, &farm_key(*f)).unwrap();
                check(a.window == *n, &["C12", "C08"], "window-wrong", String::new());
            }
            Sem::Whitelist { s, t } => {
                let ok = bank
                    .get(&whitelist_key(*s, *t))
                    .map_or(false, |x| x.owner == program() && wire::is_whitelist(&x.data));
                check(ok, &["C15"], "whitelist-wrong", String::new());
            }
            Sem::Dewhitelist { s, t } => {
                let gone = bank.get(&whitelist_key(*s, *t)).is_none();
                check(gone, &["C15"], "dewhitelist-wrong", String::new());
            }
            Sem::Snapshot { .. } => {}
            Sem::CreateFarmer { f, a } => {
                let ok = view_farmer(bank, &farmer_key(*f, *a)).is_some();
                check(ok, &["C13"], "farmer-missing", String::new());
            }
            Sem::Close { f, a } => {
                let gone = bank.get(&farmer_key(*f, *a)).is_none();
                let paid = bank.get(&actor(*a)).map_or(0, |x| x.lamports) as i128
                    - before.get(&actor(*a)).map_or(0, |x| x.lamports) as i128;
                let rent = before.get(&farmer_key(*f, *a)).map_or(0, |x| x.lamports) as i128;
                check(
                    gone && paid == rent,
                    &["C18"],
                    "close-wrong",
                    format!("rent {rent} returned {paid}"),
                );
            }
            Sem::Start { f, by, amount, .. } => {
                let m = self.st.farms[f].stake_mint;
                let (dv, dw) = (d(stake_vault(*f)), d(wallet(*by, m)));
                check(
                    dv == *amount as i128 && dw == -dv,
                    &["C01"],
                    "deposit-wrong",
                    format!("vault {dv} wallet {dw}, asked {amount}"),
                );
            }
            Sem::Stop { f, a, max, wallet } => {
                let b = view_farmer(before, &farmer_key(*f, *a)).unwrap();
                let want = b.deposited().min(*max as u128) as i128;
                let (dv, dw) = (d(stake_vault(*f)), d(*wallet));
                check(
                    dw == want && dv == -want,
                    &["C01"],
                    "withdrawal-wrong",
                    format!("wallet {dw} vault {dv}, expected {want}"),
                );
            }
            Sem::Claim { f, a, pairs } => {
                let k = farmer_key(*f, *a);
                let (b, x) = (view_farmer(before, &k).unwrap(), view_farmer(bank, &k).unwrap());
                for (m, w) in pairs {
                    let want = b.pending(&mint(*m)) as i128;
                    let got = d(*w);
                    if want > 0 {
                        stats.hit("probe.claim_paid");
                    }
                    check(
                        got == want && x.pending(&mint(*m)) == 0,
                        &["C02"],
                        "claim-wrong",
                        format!("mint {m}: paid {got}, pending was {want}"),
                    );
                }
                for m in 0..self.n_mints {
                    if !pairs.iter().any(|p| p.0 == m) {
                        check(
                            b.pending(&mint(m)) == x.pending(&mint(m)),
                            &["C02"],
                            "claim-unasked",
                            format!("mint {m} changed"),
                        );
                    }
                }
            }
            Sem::Compound { s, t, a } => {
                let m = self.st.farms[t].stake_mint;
                let x = view_farmer(bank, &farmer_key(*s, *a)).unwrap();
                let (up, down) = (d(stake_vault(*t)), d(harvest_vault(*s, m)));
                if up > 0 {
                    stats.hit("probe.compounded");
                }
                check(
                    up == -down && x.pending(&mint(m)) == 0,
                    &["C15"],
                    "compound-wrong",
                    format!("stake vault {up}, harvest vault {down}"),
                );
                let other: i128 = (0..self.n_mints)
                    .filter(|o| *o != m)
                    .map(|o| d(harvest_vault(*s, o)).abs())
                    .sum();
                check(other == 0, &["C15"], "compound-other", "other vaults moved".into());
            }
            Sem::Airdrop { f, a, m, by, amount } => {
                let k = farmer_key(*f, *a);
                let (b, x) = (view_farmer(before, &k).unwrap(), view_farmer(bank, &k).unwrap());
                let got = x.pending(&mint(*m)) as i128 - b.pending(&mint(*m)) as i128;
                let (dv, dw) = (d(harvest_vault(*f, *m)), d(wallet(*by, *m)));
                check(
                    got == *amount as i128 && dv == got && dw == -got,
                    &["C17"],
                    "airdrop-wrong",
                    format!("credited {got}, vault {dv}, wallet {dw}"),
                );
                for o in (0..self.n_mints).filter(|o| o != m) {
                    check(
                        b.pending(&mint(o)) == x.pending(&mint(o)),
                        &["C17"],
                        "airdrop-other",
                        format!("mint {o} changed"),
                    );
                }
            }
            Sem::Update { .. } | Sem::Donate { .. } | Sem::Prefund => (),
        }
    }

    /// Moves the model along.
    #[allow(clippy::too_many_arguments)]
    fn apply(
        &mut self,
        before: &Bank,
        built: &Built,
        byzantine: bool,
        now: u64,
        stats: &mut Stats,
        out: &mut Vec<Violation>,
        ctx: &dyn Fn(String) -> String,
        tags: &dyn Fn(&[&'static str]) -> Vec<&'static str>,
    ) {
        let _ = (&out, ctx, tags);
        if byzantine {
            // an unusual but legal transaction; take over what it did
            self.resync(before, now);
            return;
        }
        let n_farms = self.n_farms;
        match &built.sem {
            Sem::CreateFarm { f, admin, m } => {
                self.st.farms.insert(
                    *f,
                    MFarm {
                        admin: *admin,
                        stake_mint: *m,
                        window: 0,
                        snaps: vec![],
                        harvests: BTreeMap::new(),
                        last_credit: 0,
                        donated: 0,
                        overlaps: BTreeMap::new(),
                        relisted: false,
                        whitelisted: BTreeSet::new(),
                    },
                );
            }
            Sem::AddHarvest { f, m } => {
                let farm = self.st.farms.get_mut(f).unwrap();
                let overlap = farm.overlaps.get(m).copied().unwrap_or(0);
                farm.harvests.insert(*m, MHarvest { overlap, ..MHarvest::default() });
            }
            Sem::RemoveHarvest { f, m } => {
                let farm = self.st.farms.get_mut(f).unwrap();
                if let Some(h) = farm.harvests.remove(m) {
                    farm.overlaps.insert(*m, h.overlap);
                }
                farm.relisted = true;
            }
            Sem::Period { f, m, start, len, tps, .. } => {
                let h = match self.st.farms.get_mut(f).and_then(|x| x.harvests.get_mut(m)) {
                    Some(h) => h,
                    None => return,
                };
                let first = if *start == 0 { now } else { *start };
                if h.periods.last().map_or(false, |p| p.0 > now) {
                    h.periods.pop();
                }
                h.periods.push((first, first + (len - 1), *tps));
                if h.periods.len() > wire::PERIODS {
                    stats.hit("probe.long_schedule");
                }
            }
            Sem::Owner { f, to } => self.st.farms.get_mut(f).unwrap().admin = *to,
            Sem::Window { f, n } => self.st.farms.get_mut(f).unwrap().window = *n,
            Sem::Whitelist { s, t } => {
                self.st.farms.get_mut(s).unwrap().whitelisted.insert(*t);
            }
            Sem::Dewhitelist { s, t } => {
                self.st.farms.get_mut(s).unwrap().whitelisted.remove(t);
            }
            Sem::Snapshot { f } => self.apply_snapshot(*f, now, stats),
            Sem::Donate { vault, amount } => {
                for f in 0..n_farms {
                    if stake_vault(f) == *vault {
                        self.st.farms.get_mut(&f).unwrap().donated += *amount as u128;
                    }
                }
            }
            _ => (),
        }
    }

    fn apply_snapshot(&mut self, f: u64, now: u64, stats: &mut Stats) {
        let staked = balance(&self.bank, stake_vault(f));
        let farm = self.st.farms.get_mut(&f).unwrap();
        if farm.last_credit >= now && staked > 0 {
            // somebody was already credited for this slot under the previous
            // snapshot, others will be under this one
            for h in farm.harvests.values_mut() {
                let tps = model::released(&h.periods, now, now);
                if tps > 0 {
                    stats.hit("probe.snapshot_overlap");
                    h.overlap += tps;
                }
            }
        }
        farm.snaps.push((now, staked));
        if farm.snaps.len() > wire::RING {
            stats.hit("probe.history_overwritten");
        }
    }

    /// After a transaction of an attacker was legal after all.
    fn resync(&mut self, before: &Bank, now: u64) {
        for f in 0..self.n_farms {
            let k = farm_key(f);
            let a = match view_farm(&self.bank, &k) {
                Some(a) => a,
                None => continue,
            };
            let created = view_farm(before, &k).is_none();
            if created {
                let m = (0..self.n_mints).find(|m| mint(*m) == a.stake_mint).unwrap_or(0);
                self.st.farms.insert(
                    f,
                    MFarm {
                        admin: 0,
                        stake_mint: m,
                        window: 0,
                        snaps: vec![],
                        harvests: BTreeMap::new(),
                        last_credit: 0,
                        donated: 0,
                        overlaps: BTreeMap::new(),
                        relisted: false,
                        whitelisted: BTreeSet::new(),
                    },
                );
            }
            let tip = {
                let d = &self.bank.get(&k).unwrap().data;
                wire::snapshot(d, a.tip.min(wire::RING - 1))
            };
            let (n_actors, n_mints, n_farms) = (self.n_actors, self.n_mints, self.n_farms);
            let listed: BTreeSet<u64> = (0..n_farms)
                .filter(|t| is_consent(&self.bank, &whitelist_key(f, *t)))
                .collect();
            let deposits = self.deposits(f);
            let vault = balance(&self.bank, stake_vault(f)) as u128;
            let farm = self.st.farms.get_mut(&f).unwrap();
            farm.donated = vault.saturating_sub(deposits);
            farm.whitelisted = listed;
            if let Some(x) = (0..n_actors).find(|x| actor(*x) == a.admin) {
                farm.admin = x;
            }
            farm.window = a.window;
            if farm.snaps.last().map_or(0, |s| s.0) < tip.1 {
                farm.snaps.push((tip.1, tip.0));
            }
            let listed = farm.harvests.len();
            farm.harvests.retain(|m, _| a.harvests.iter().any(|h| h.mint == mint(*m)));
            farm.relisted |= farm.harvests.len() < listed;
            for h in a.harvests.iter().filter(|h| h.mint != Pubkey::default()) {
                let m = match (0..n_mints).find(|m| mint(*m) == h.mint) {
                    Some(m) => m,
                    None => continue,
                };
                let mh = farm.harvests.entry(m).or_default();
                let newest = h.periods[0];
                if newest.0 != 0 && mh.periods.last() != Some(&newest) {
                    if mh.periods.last().map_or(false, |p| p.0 > now) {
                        mh.periods.pop();
                    }
                    mh.periods.push(newest);
                }
            }
        }
    }

    fn deposits(&self, f: u64) -> u128 {
        (0..self.n_actors).filter_map(|a| self.farmer_view(f, a)).map(|x| x.deposited()).sum()
    }

    /// Balances which have to cover all claims at any time.
    fn audit_totals(
        &mut self,
        stats: &mut Stats,
        out: &mut Vec<Violation>,
        ctx: &dyn Fn(String) -> String,
        tags: &dyn Fn(&[&'static str]) -> Vec<&'static str>,
    ) {
        let now = self.now();
        for f in 0..self.n_farms {
            if !self.st.farms.contains_key(&f) {
                continue;
            }
            let views: Vec<FarmerView> =
                (0..self.n_actors).filter_map(|a| self.farmer_view(f, a)).collect();
            let farm = &self.st.farms[&f];
            let deposits: u128 = views.iter().map(|x| x.deposited()).sum();
            let vault = balance(&self.bank, stake_vault(f)) as u128;
            if vault != deposits + farm.donated {
                out.push(v(
                    &tags(&["C01"]),
                    "stake-vault-total",
                    ctx(format!("vault {vault}, deposits {deposits}, donated {}", farm.donated)),
                ));
            }
            for (m, h) in &farm.harvests {
                let pending: u128 = views.iter().map(|x| x.pending(&mint(*m)) as u128).sum();
                let hv = balance(&self.bank, harvest_vault(f, *m)) as u128;
                if pending > hv {
                    if pending <= hv + h.overlap {
                        stats.hit("known.snapshot_overlap");
                    } else {
                        out.push(v(
                            &tags(&["C02", "C03"]),
                            "harvest-vault-short",
                            ctx(format!("farm {f} mint {m}: vault {hv}, pending {pending}")),
                        ));
                    }
                }
                let released = model::released(&h.periods, 0, now);
                if h.credited > released {
                    if h.credited <= released + h.overlap {
                        stats.hit("known.snapshot_overlap");
                    } else {
                        out.push(v(
                            &tags(&["C03", "C02"]),
                            "emission-exceeded",
                            ctx(format!(
                                "farm {f} mint {m}: credited {} of {released} released",
                                h.credited
                            )),
                        ));
                    }
                }
            }
        }
    }

    fn note_state(&self, step: &Step, stats: &mut Stats) {
        let mut h = sim_core::Fnv::default();
        let bucket = |x: u128| 128 - x.leading_zeros() as u64;
        h.bytes(step.op.as_bytes());
        let now = self.now();
        for (f, farm) in &self.st.farms {
            h.u64(*f);
            h.u64(farm.harvests.len() as u64);
            h.u64(bucket(farm.snaps.len() as u128));
            h.u64(farm.snaps.last().map_or(99, |s| bucket((now - s.0.min(now)) as u128) / 4));
            for x in farm.harvests.values() {
                h.u64(x.periods.len() as u64);
                h.u64(x.periods.last().map_or(0, |p| {
                    1 + (p.0 <= now) as u64 + (p.1 < now) as u64
                }));
            }
            for a in 0..self.n_actors {
                if let Some(x) = self.farmer_view(*f, a) {
                    h.u64(bucket(x.staked as u128) / 8);
                    h.u64((x.vested != 0) as u64);
                    h.u64(bucket(now.saturating_sub(x.next) as u128) / 3);
                    h.u64(x.harvests.iter().filter(|(_, n)| *n > 0).count() as u64);
                }
            }
        }
        stats.states.insert(h.0);
    }
}

include!("drive.rs");
