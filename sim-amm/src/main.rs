mod curve;
mod wire;
mod world;

use sim_core::runner::{App, Plan};

macro_rules! plans {
    ($($id:literal $runs:literal $probes:expr),* $(,)?) => {
        vec![$(Plan {
            property: $id,
            runs: ($runs, $runs * 100),
            steps: 150,
            probes: &$probes,
            rule: "Pools, admins, liquidity providers, traders and attackers act on the real program.",
        }),*]
    };
}

fn main() {
    let plans = plans![
        "C21" 20000 ["op.swap.ok", "op.deposit.ok", "op.redeem.ok"],
        "C22" 20000 ["probe.const_prod_swap", "probe.stable_swap"],
        "C23" 20000 ["probe.later_deposit", "probe.toll_paid"],
        "C24" 20000 ["probe.first_deposit", "probe.later_deposit", "probe.limit_not_of_first_reserve", "op.deposit.refused"],
        "C25" 20000 ["op.redeem.ok", "probe.everything_redeemed"],
        "C26" 20000 ["op.swap.refused", "op.deposit.refused", "op.redeem.refused", "probe.what_if"],
        "C27" 20000 ["probe.fee_paid", "probe.toll_paid"],
        "C28" 20000 ["probe.discounted_swap", "op.discount.ok", "op.discount.refused"],
        "C29" 20000 ["op.fee.ok", "op.fee.refused", "fault.wrong_signer", "fault.missing_signature"],
        "C30" 20000 ["op.create_pool.ok", "op.create_pool.refused"],
        "C31" 20000 ["fault.substituted_account", "fault.forged_account"],
        "C32" 20000 ["probe.provider_left", "probe.pool_emptied", "probe.emptied_pool_reused"],
        "C33" 20000 ["probe.const_prod_swap", "probe.stable_swap", "probe.beyond_decimal"],
        "C34" 10000 ["probe.supply_reported", "probe.toll_paid", "op.lp_burn.ok"],
    ];
    let known = sim_core::runner::known_findings("known-findings.txt");
    let app = App {
        plans,
        real: &[
            "programs/amm: every instruction, through its entrypoint",
            "anchor-lang account validation and (de)serialisation",
            "spl-token processor",
        ],
        stubs: &[
            "Solana runtime: accounts, transactions, CPI, sysvars, rent checks",
            "system program: create, transfer, allocate, assign",
            "decimal crate (unavailable offline), rewritten to its interface",
        ],
        assumptions: &[
            "the runtime executes a transaction atomically and checks signatures, ownership and \
             account locks as Solana does",
            "programs compiled to native code behave as on the on-chain virtual machine; compute \
             and stack limits are not modelled",
            "the rewritten decimal crate rounds like the original",
        ],
        known,
    };
    std::process::exit(sim_core::runner::main::<world::Amm>(app));
}
