mod model;
mod wire;
mod world;

use sim_core::runner::{App, Plan};

macro_rules! plans {
    ($($id:literal $runs:literal $probes:expr),* $(,)?) => {
        vec![$(Plan {
            property: $id,
            runs: ($runs, $runs * 100),
            steps: 180,
            probes: &$probes,
            rule: "Farms, admins, farmers, keeper bots and attackers act on the real program.",
        }),*]
    };
}

fn main() {
    let plans = plans![
        "C01" 20000 ["op.start.ok", "op.stop.ok", "op.compound.ok"],
        "C02" 20000 ["probe.claim_paid", "probe.harvest_credited"],
        "C03" 20000 ["probe.harvest_credited"],
        "C04" 20000 ["probe.harvest_credited"],
        "C05" 20000 ["probe.vested_became_staked"],
        "C06" 20000 ["probe.harvest_credited", "op.update_until.ok"],
        "C07" 5000 ["probe.update_after_history_lost"],
        "C08" 20000 ["op.snapshot.ok", "op.snapshot.refused", "probe.history_overwritten"],
        "C09" 20000 ["op.period.ok", "op.period.refused"],
        "C10" 20000 ["op.period.ok", "probe.period_refunded"],
        "C11" 8000 ["probe.history_overwritten", "probe.update_with_long_schedule"],
        "C12" 20000 ["fault.wrong_signer", "fault.missing_signature"],
        "C13" 20000 ["fault.wrong_signer", "fault.missing_signature"],
        "C14" 20000 ["fault.substituted_account", "fault.forged_account"],
        "C15" 20000 ["probe.compounded"],
        "C16" 20000 ["op.add_harvest.ok", "op.remove_harvest.ok"],
        "C17" 20000 ["op.airdrop.ok"],
        "C18" 20000 ["op.close.ok", "op.close.refused"],
        "C19" 20000 ["probe.left_completely"],
        "C20" 20000 ["op.create_farm.ok", "op.create_farm.refused", "op.create_farmer.ok", "op.create_farmer.refused", "fault.address_prefunded"],
    ];
    let known = sim_core::runner::known_findings("known-findings.txt");
    let app = App {
        plans,
        real: &[
            "programs/farming: every instruction, through its entrypoint",
            "anchor-lang account validation and (de)serialisation",
            "spl-token processor",
        ],
        stubs: &[
            "Solana runtime: accounts, transactions, CPI, sysvars, rent checks",
            "system program: create, transfer, allocate, assign",
            "decimal crate (unavailable offline), rewritten to its interface",
        ],
        assumptions: &[
            "the runtime executes a transaction atomically and checks signatures, ownership and \
             account locks as Solana does",
            "programs compiled to native code behave as on the on-chain virtual machine; compute \
             and stack limits are not modelled",
            "the rewritten decimal crate rounds like the original",
        ],
        known,
    };
    std::process::exit(sim_core::runner::main::<world::Farming>(app));
}
