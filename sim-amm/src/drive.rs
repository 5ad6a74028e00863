// The schedule: what admins, providers, traders and attackers do, and when.

const BASE: &[(&str, u64)] = &[
    ("advance", 12),
    ("rotate", 1),
    ("create_toll", 1),
    ("create_settings", 1),
    ("preseed", 1),
    ("create_pool", 2),
    ("fee", 3),
    ("discount", 4),
    ("deposit", 20),
    ("redeem", 14),
    ("swap", 40),
    ("donate", 2),
    ("lp_transfer", 2),
    ("lp_burn", 1),
    ("prefund", 1),
    ("fork", 1),
    ("rollback", 1),
];

/// What a property's workload does more of.
fn emphasis(focus: &str) -> &'static [(&'static str, u64)] {
    match focus {
        "C21" => &[("donate", 3), ("lp_burn", 2)],
        "C22" => &[("swap", 2), ("preseed", 6)],
        "C23" => &[("deposit", 2), ("redeem", 2)],
        "C24" => &[("deposit", 4), ("lp_burn", 3)],
        "C25" => &[("redeem", 4)],
        "C26" => &[("redeem", 2), ("deposit", 2)],
        "C27" => &[("fee", 3)],
        "C28" => &[("discount", 5), ("advance", 2), ("prefund", 4), ("create_settings", 3)],
        "C29" => &[("fee", 6), ("rotate", 8), ("create_toll", 12), ("create_settings", 12), ("discount", 4), ("prefund", 4)],
        "C30" => &[("create_pool", 25), ("preseed", 8)],
        "C31" => &[("create_pool", 2), ("fee", 2), ("discount", 2)],
        "C32" => &[("redeem", 3), ("deposit", 2)],
        "C33" => &[("swap", 3), ("deposit", 2)],
        "C34" => &[("swap", 2), ("lp_burn", 3)],
        _ => &[],
    }
}

const RATES: &[&str] =
    &[
        "drop", "dup", "delay", "abort", "cpi", "signer", "unsigned", "sub", "forge", "short", "twin",
        "ownprog", "mix", "kin", "heir",
    ];

impl World for Amm {
    const NAME: &'static str = "amm";

    fn config(rng: &mut Rng, focus: &str) -> Cfg {
        let mut c = Cfg::default();
        let two = matches!(focus, "C30" | "C31") || rng.chance(1, 3);
        c.set("pools", if two { rng.range(2, 3) } else { 1 });
        c.set("actors", rng.range(2, 5));
        c.set("mints", rng.range(2, 5));
        let scale = *rng.pick(&[2, 3, 4, 6, 6, 8, 9, 10, 11, 12, 12, 14, 15, 16, 18]);
        // much money
        let scale = if focus == "C33" { 9 + scale / 2 } else { scale };
        c.set("scale", scale);
        c.set("curve", rng.below(5));
        c.set("steps", if rng.chance(1, 3) { rng.range(15, 50) } else { rng.range(50, 150) });
        c.set("focus", focus.trim_start_matches('C').parse().unwrap_or(0));
        let quiet = rng.chance(1, 3);
        for r in RATES {
            let on = !quiet && rng.chance(1, 2);
            let byz = matches!(*r, "signer" | "unsigned" | "sub" | "forge" | "ownprog" | "mix" | "kin" | "heir");
            let max = match (byz, focus) {
                (true, "C28" | "C29" | "C31") => 300,
                (true, _) => 50,
                (false, _) if matches!(*r, "short" | "twin") => 40,
                (false, _) => 100,
            };
            c.set(r, if on || (byz && max == 300) { rng.range(5, max) } else { 0 });
        }
        c.set("mute", if rng.chance(1, 3) { rng.next() & rng.next() & rng.next() } else { 0 });
        c.set("skew", rng.below(3));
        // fees and discounts in use from the start
        c.set("fee", *rng.pick(&[0, 1, 30, 3000, 3000, 9_999, 10_000, 10_000]));
        c.set("drain", rng.chance(1, 6) as u64);
        c.set("late", rng.chance(1, 6) as u64);
        c.set("seeded", (focus == "C30" || focus == "C22" || focus == "C32") as u64 & rng.below(2));
        c.set("shape", rng.next() >> 8);
        c
    }

    fn new(cfg: &Cfg) -> Self {
        let mut bank = Bank::genesis();
        let programdata = bank.new_upgradeable_program(program(), Some(actor(0)));
        bank.slot = 10_000;
        let n_pools = cfg.get("pools").clamp(1, 4);
        let n_actors = cfg.get("actors").clamp(1, 8);
        let n_mints = cfg.get("mints").clamp(2, 6);
        let unit = 10u64.pow(cfg.get("scale").min(18) as u32);
        for m in 0..n_mints {
            new_mint(&mut bank, mint(m), key(12, 0, 0), 6);
        }
        for p in 0..n_pools {
            new_mint(&mut bank, lp_mint(p), signer_pda(p), 6);
            for m in 0..n_mints {
                new_wallet(&mut bank, vault(p, m), mint(m), signer_pda(p), 0);
                // looks like a vault, but is just a wallet given to the pool
                let amount = unit.min(1_000_000_000_000_000) * (m % 2);
                new_wallet(&mut bank, fake_vault(p, m), mint(m), signer_pda(p), amount);
            }
        }
        for a in 0..n_actors {
            bank.new_system_account(actor(a), 1_000_000_000_000);
            // everybody can deploy a program
            bank.new_upgradeable_program(own_program(a), Some(actor(a)));
            for m in 0..n_mints {
                let n = unit.saturating_mul(1 + (a + m) % 3).min(4_000_000_000_000_000_000 / n_actors);
                new_wallet(&mut bank, wallet(a, m), mint(m), actor(a), n);
            }
            for p in 0..n_pools {
                new_wallet(&mut bank, toll_wallet(a, p), lp_mint(p), actor(a), 0);
                new_wallet(&mut bank, lp_wallet(a, p), lp_mint(p), actor(a), 0);
            }
        }
        let focus = format!("C{:02}", cfg.get("focus"));
        let mut weights: Vec<u64> = OPS.iter().map(|_| 0).collect();
        for (i, (op, w)) in BASE.iter().enumerate() {
            let muted = cfg.get("mute") >> i & 1 == 1 && !matches!(*op, "deposit" | "swap");
            weights[op_index(op)] = if muted { 0 } else { *w * 4 };
        }
        for (op, k) in emphasis(&focus) {
            let w = &mut weights[op_index(op)];
            *w = (*w).max(4) * k;
        }
        let mut queue = vec![];
        let mut rng = Rng::new(cfg.get("shape"));
        if cfg.get("late") == 0 {
            queue.push(Step::new("create_toll", &[rng.below(n_actors)]));
            queue.push(Step::new("create_settings", &[rng.below(n_actors)]));
            for p in 0..n_pools {
                if cfg.get("seeded") == 1 && rng.chance(1, 2) {
                    queue.push(draw_preseed(&mut rng, p, n_actors, n_mints, unit));
                }
                queue.push(draw_create_pool(&mut rng, p, n_actors, n_mints, cfg.get("curve"), 0));
                if cfg.get("fee") > 0 {
                    queue.push(Step::new("fee", &[p, cfg.get("fee")]));
                }
            }
        }
        queue.reverse();
        Amm {
            start_slot: bank.slot,
            bank,
            programs: Programs(vec![(program(), amm::entry)]),
            cfg: cfg.clone(),
            st: State::default(),
            inflight: vec![],
            checkpoint: None,
            step_no: 0,
            n_pools,
            n_actors,
            n_mints,
            programdata,
            weights,
            queue,
        }
    }

    fn gen(&mut self, rng: &mut Rng) -> Step {
        let mut step = match self.queue.pop() {
            Some(s) => s,
            None => self.draw(rng),
        };
        if matches!(step.op.as_str(), "advance" | "fork" | "rollback" | "rotate" | "preseed") {
            return step;
        }
        for r in RATES {
            let rate = self.cfg.get(r);
            if rate == 0 || !rng.chance(rate, 1000) {
                continue;
            }
            match *r {
                "drop" => step.faults.push(("drop".into(), 1)),
                "dup" => step.faults.push(("dup".into(), rng.range(1, 2))),
                "delay" => step.faults.push(("delay".into(), rng.range(1, 12))),
                "abort" => step.faults.push(("abort".into(), rng.range(1, 30))),
                "cpi" => step.faults.push(("cpi".into(), rng.range(1, 5))),
                "signer" => step.faults.push(("signer".into(), rng.below(self.n_actors))),
                "unsigned" => step.faults.push(("unsigned".into(), 1)),
                "sub" => {
                    step.faults.push(("pos".into(), rng.below(14)));
                    step.faults.push(("sub".into(), rng.below(1000)));
                }
                "short" if matches!(step.op.as_str(), "deposit" | "redeem") => {
                    step.faults.push(("short".into(), rng.below(4)))
                }
                "twin" if matches!(step.op.as_str(), "deposit" | "redeem") => {
                    step.faults.push(("twin".into(), rng.below(10)))
                }
                "ownprog" if matches!(step.op.as_str(), "create_toll" | "create_settings") => {
                    let k = rng.below(self.n_actors);
                    step.faults.push(("ownprog".into(), k * 4 + rng.below(4)))
                }
                "mix" if self.n_pools > 1 => {
                    let q = rng.below(self.n_pools);
                    // few of the accounts, or all but a few
                    let mut mask = rng.next() & 0xffff;
                    match rng.below(7) {
                        4 => mask = 0xffff ^ (1 << rng.below(12) | 1 << rng.below(12)),
                        0 => mask &= rng.next(),
                        1 => mask |= rng.next() & 0xffff,
                        2 => mask = 1 << rng.below(10),
                        3 => mask = 1 << rng.below(12) | 1 << rng.below(12),
                        _ => (),
                    }
                    step.faults.push(("mix".into(), q << 16 | mask))
                }
                "kin" => step.faults.push(("kin".into(), rng.below(1 << 16))),
                "heir" if step.op == "swap" => {
                    step.faults.push(("heir".into(), rng.below(self.n_actors) * 4 + rng.below(4)))
                }
                "forge" => step.faults.push(("forge".into(), rng.below(14))),
                _ => (),
            }
        }
        step
    }

    fn exec(&mut self, step: &Step, stats: &mut Stats) -> Vec<Violation> {
        self.step_no += 1;
        let mut out = vec![];
        // what was under way for long enough arrives
        let due: Vec<InFlight> = {
            let n = self.step_no;
            let (d, rest) = std::mem::take(&mut self.inflight).into_iter().partition(|t| t.due <= n);
            self.inflight = rest;
            d
        };
        for t in due {
            if self.now() > t.sent_slot + 150 {
                // the recent blockhash of the transaction is too old
                stats.hit("fault.expired");
                continue;
            }
            stats.hit("fault.delayed_delivery");
            stats.trace(|| format!("  delivered late: {}", t.step));
            out.extend(self.deliver_logged(&t.step, stats));
        }
        match step.op.as_str() {
            "advance" => {
                let n = step.arg(0).max(1).min(1 << 40);
                if n > 1 {
                    stats.hit("fault.slots_skipped");
                }
                self.bank.slot += n;
                // the wall clock of the cluster drifts both ways
                let jitter = step.arg(1) as i64 - 1000;
                if jitter < 0 {
                    stats.hit("fault.clock_backwards");
                }
                self.bank.unix_timestamp += jitter;
            }
            "fork" => {
                self.checkpoint = Some(Checkpoint {
                    bank: self.bank.clone(),
                    st: self.st.clone(),
                    log: vec![],
                });
            }
            "rollback" => {
                if let Some(mut c) = self.checkpoint.take() {
                    stats.hit("fault.fork_rolled_back");
                    let elapsed = self.now() - c.bank.slot;
                    let mut rng = Rng::new(step.arg(0));
                    self.bank = c.bank;
                    self.bank.slot += rng.range(0, elapsed);
                    self.st = c.st;
                    // the transactions of the abandoned fork land again, in
                    // another order, some do not
                    for i in (1..c.log.len()).rev() {
                        let j = rng.below(i as u64 + 1) as usize;
                        if rng.chance(1, 2) {
                            c.log.swap(i, j);
                        }
                    }
                    for s in &c.log {
                        if rng.chance(1, 8) {
                            continue;
                        }
                        if rng.chance(1, 4) {
                            self.bank.slot += 1;
                        }
                        stats.hit("fault.redelivered");
                        out.extend(self.deliver(s, stats));
                    }
                }
            }
            _ => {
                if step.op == "prefund" {
                    stats.hit("fault.address_prefunded");
                }
                if step.get_fault("short").is_some() {
                    stats.hit("fault.malformed_limits");
                }
                if step.get_fault("twin").is_some() {
                    stats.hit("fault.repeated_accounts");
                }
                if step.get_fault("drop").is_some() {
                    stats.hit("fault.lost");
                    return out;
                }
                if let Some(d) = step.get_fault("delay") {
                    stats.hit("fault.delayed");
                    self.inflight.push(InFlight {
                        due: self.step_no + d,
                        sent_slot: self.now(),
                        step: step.clone(),
                    });
                    return out;
                }
                out.extend(self.deliver_logged(step, stats));
                for _ in 0..step.get_fault("dup").unwrap_or(0).min(3) {
                    stats.hit("fault.duplicated");
                    out.extend(self.deliver_logged(step, stats));
                }
            }
        }
        out
    }

    /// Faults stop; every provider takes everything out.
    fn finish(&mut self, stats: &mut Stats) -> Vec<Violation> {
        let mut out = vec![];
        self.inflight.clear();
        self.bank.slot += 2;
        for p in 0..self.n_pools {
            let pool = match self.st.pools.get(&p) {
                Some(x) => x.clone(),
                None => continue,
            };
            // whoever receives the toll leaves, too
            let from = pool.toll_wallet;
            let n = balance(&self.bank, from);
            let owner = wallet_of(&self.bank, from).map(|w| w.owner);
            let owner = (0..self.n_actors).find(|a| Some(actor(*a)) == owner);
            if let (Some(a), true) = (owner, n > 0) {
                let to = lp_wallet(a, p);
                if to != from {
                    let mut bank = self.bank.clone();
                    let ix = sim_core::spl_token::instruction::transfer(
                        &sim_core::spl_token::id(),
                        &from,
                        &to,
                        &actor(a),
                        &[],
                        n,
                    )
                    .unwrap();
                    let tx = Tx { ixs: vec![ix], signers: BTreeSet::from([actor(a)]) };
                    if self.programs.execute(&mut bank, &tx, Abort::default(), false).ok() {
                        self.bank = bank;
                    }
                }
            }
            for a in 0..self.n_actors {
                let n = balance(&self.bank, lp_wallet(a, p));
                if n == 0 {
                    continue;
                }
                let r = self.view(p).map_or(vec![], |v| v.tokens());
                let s = supply(&self.bank, p);
                let left: Vec<u64> = r.iter().map(|x| x - mul_div(*x, n, s) as u64).collect();
                let can = self.workable(pool.amp, &left);
                let step = Step::new("redeem", &[p, a, 0, n, 0, 0, 0, 0]);
                stats.trace(|| format!("> (exit) {step}"));
                out.extend(self.deliver(&step, stats));
                if balance(&self.bank, lp_wallet(a, p)) != 0 {
                    if can {
                        out.push(v(
                            &["C32", "C25"],
                            "cannot-leave",
                            format!("{a} still holds LP tokens of pool {p}; reserves {r:?}"),
                        ));
                    } else {
                        stats.hit("probe.too_imbalanced_to_leave");
                    }
                } else {
                    stats.hit("probe.provider_left");
                }
            }
            if supply(&self.bank, p) == 0 {
                let left = self.view(p).map_or(vec![], |v| v.tokens());
                let orphaned = left.iter().any(|t| *t > 0);
                if orphaned {
                    stats.hit("probe.reserves_without_owner");
                } else {
                    stats.hit("probe.pool_emptied");
                    self.reuse(p, &pool, stats, &mut out);
                }
            }
        }
        stats.log.u64(self.bank.digest());
        out
    }

    fn slots(&self) -> u64 {
        self.bank.slot.saturating_sub(self.start_slot)
    }
}

fn draw_preseed(rng: &mut Rng, p: u64, n_actors: u64, n_mints: u64, unit: u64) -> Step {
    let mut args = vec![p, rng.below(n_actors), rng.log_amount(unit.min(1 << 50))];
    let base = rng.log_amount(unit.min(1 << 50));
    for _ in 0..n_mints {
        args.push(match rng.below(6) {
            0 => rng.log_amount(unit.min(1 << 50)),
            1 => 0,
            _ => base / 2 + rng.below(base + 1) + 1,
        });
    }
    Step::new("preseed", &args)
}

fn draw_create_pool(
    rng: &mut Rng,
    p: u64,
    n_actors: u64,
    n_mints: u64,
    curve: u64,
    flaw: u64,
) -> Step {
    let amp = match (curve, rng.below(12)) {
        (0 | 1, _) => 0,
        (_, 0) => 1,
        (_, 1) => rng.log_amount(1_000_000),
        (_, 2) if flaw > 0 => rng.next(),
        (2, _) => *rng.pick(&[2, 10, 85, 100, 2000]),
        (_, k) if k < 6 => 0,
        _ => *rng.pick(&[2, 10, 85, 100, 2000]),
    };
    let mut mints: Vec<u64> = (0..n_mints).collect();
    for i in (1..mints.len()).rev() {
        mints.swap(i, rng.below(i as u64 + 1) as usize);
    }
    let n = match rng.below(3) {
        0 => 2,
        _ => rng.range(2, n_mints.min(4)),
    };
    mints.truncate(n as usize);
    let mut args = vec![p, rng.below(n_actors), amp, flaw];
    args.extend(mints);
    Step::new("create_pool", &args)
}

impl Amm {
    /// An emptied pool works again.
    fn reuse(&mut self, p: u64, pool: &MPool, stats: &mut Stats, out: &mut Vec<Violation>) {
        let n = pool.mints.len();
        let user = (0..self.n_actors).find(|a| {
            pool.mints.iter().all(|m| balance(&self.bank, wallet(*a, *m)) >= 1_000)
                && pool.mints.iter().enumerate().all(|(i, m)| {
                    pool.donated[i] + (balance(&self.bank, vault(p, *m)) as u128) < 1 << 63
                })
        });
        let user = match user {
            Some(a) => a,
            None => return,
        };
        let mut args = vec![p, user, 0];
        args.extend((0..n as u64).map(|i| 1_000 - i));
        let step = Step::new("deposit", &args);
        stats.trace(|| format!("> (next) {step}"));
        out.extend(self.deliver(&step, stats));
        let got = balance(&self.bank, lp_wallet(user, p));
        if got == 0 {
            out.push(v(
                &["C32"],
                "pool-stuck",
                format!("emptied pool {p} does not take a deposit of 1000 of each token"),
            ));
            return;
        }
        stats.hit("probe.emptied_pool_reused");
        let step = Step::new("redeem", &[p, user, 0, got, 0, 0, 0, 0]);
        stats.trace(|| format!("> (next) {step}"));
        out.extend(self.deliver(&step, stats));
        if balance(&self.bank, lp_wallet(user, p)) != 0 {
            out.push(v(&["C32"], "pool-stuck", format!("deposit into emptied pool {p} is stuck")));
        }
    }

    fn deliver_logged(&mut self, step: &Step, stats: &mut Stats) -> Vec<Violation> {
        if let Some(c) = &mut self.checkpoint {
            if c.log.len() < 64 {
                c.log.push(step.clone());
            }
        }
        self.deliver(step, stats)
    }

    fn amount(&self, rng: &mut Rng, max: u64) -> u64 {
        match rng.below(9) {
            0 => 1,
            1 => max,
            2 => max / 2,
            3 => max.saturating_add(1),
            4 => rng.range(1, 10),
            5 => max / 3 + 1,
            6 => max / 10 + rng.below(max / 10 + 1),
            _ => rng.log_amount(max.max(1)),
        }
    }

    fn any_actor(&self, rng: &mut Rng) -> u64 {
        if self.cfg.get("skew") == 2 && rng.chance(1, 2) {
            return 0;
        }
        rng.below(self.n_actors)
    }

    fn unit(&self) -> u64 {
        10u64.pow(self.cfg.get("scale").min(18) as u32)
    }

    fn draw(&mut self, rng: &mut Rng) -> Step {
        let op = OPS[rng.weighted(&self.weights)];
        let p = rng.below(self.n_pools);
        let a = self.any_actor(rng);
        let now = self.now();
        match op {
            "advance" => {
                let n = match rng.below(6) {
                    0..=2 => 1,
                    3 => rng.range(1, 200),
                    4 => rng.log_amount(1 << 20),
                    _ => {
                        // around the end of a discount
                        let ends: Vec<u64> = self
                            .st
                            .discounts
                            .values()
                            .map(|d| d.1)
                            .filter(|u| *u >= now && *u - now < 1 << 30)
                            .collect();
                        if ends.is_empty() {
                            1
                        } else {
                            (*rng.pick(&ends) + rng.below(3)).saturating_sub(now + 1)
                        }
                    }
                };
                Step::new(op, &[n.max(1), rng.range(0, 3000)])
            }
            // now and then the program becomes immutable
            "rotate" => Step::new(op, &[if rng.chance(1, 12) { NOBODY } else { a }]),
            "create_toll" | "create_settings" => Step::new(op, &[a]),
            "preseed" => draw_preseed(rng, p, self.n_actors, self.n_mints, self.unit()),
            "create_pool" => {
                let often = self.cfg.get("focus") == 30 && rng.chance(2, 3);
                let flaw = match rng.below(4) {
                    _ if often => rng.range(1, 10) + 16 * rng.below(16),
                    0 => rng.range(1, 10) + 16 * rng.below(16),
                    1 => rng.range(1, 10),
                    _ => 0,
                };
                let mut s =
                    draw_create_pool(rng, p, self.n_actors, self.n_mints, self.cfg.get("curve"), flaw);
                match rng.below(12) {
                    0 => {
                        let m = s.arg(4);
                        s.args.push(m);
                    }
                    1 => s.args.truncate(5),
                    2 => s.args.truncate(4),
                    3 => s.args = [&s.args[..4], &[0, 1, 2, 3, 4]].concat(),
                    _ => (),
                }
                s
            }
            "fee" => {
                let fee = match rng.below(8) {
                    0 => 0,
                    1 => MAX_FEE,
                    2 => MAX_FEE + 1,
                    3 => rng.next(),
                    4 => rng.range(0, 1_000_000),
                    _ => rng.range(0, MAX_FEE),
                };
                Step::new(op, &[p, fee])
            }
            "discount" => {
                let amount = match rng.below(8) {
                    0 => 0,
                    1 => 1_000_000,
                    2 => 1_000_001,
                    3 => rng.next(),
                    _ => rng.range(1, 1_000_000),
                };
                let until = match rng.below(8) {
                    0 => now,
                    1 => now + 1,
                    2 => now.saturating_sub(rng.below(100)),
                    3 => u64::MAX,
                    4 => now + rng.range(1, 3),
                    _ => now + rng.log_amount(10_000),
                };
                Step::new(op, &[a, amount, until])
            }
            "deposit" => self.draw_deposit(rng, p, a),
            "redeem" => {
                let mut a = a;
                for _ in 0..4 {
                    if balance(&self.bank, lp_wallet(a, p)) > 0 {
                        break;
                    }
                    a = rng.below(self.n_actors);
                }
                let held = balance(&self.bank, lp_wallet(a, p));
                let s = supply(&self.bank, p);
                let lp = self.amount(rng, held.max(1));
                let mut args = vec![p, a, rng.below(4), lp];
                let r = self.view(p).map_or(vec![], |v| v.tokens());
                let strict = rng.below(3);
                for x in &r {
                    let exact = if s > 0 && lp <= s { mul_div(*x, lp, s) as u64 } else { 0 };
                    args.push(match (strict, rng.below(6)) {
                        (0, _) => 0,
                        (2, 1) if rng.chance(1, 6) => u64::MAX,
                        (1, _) => exact.saturating_sub(rng.below(3)),
                        (_, 0) => exact.saturating_add(rng.below(2)),
                        _ => exact / 2,
                    });
                }
                Step::new(op, &args)
            }
            "swap" => {
                let n = self.st.pools.get(&p).map_or(2, |x| x.mints.len() as u64).max(1);
                // a pool which is drained one way
                let drain = self.cfg.get("drain") == 1 && rng.chance(3, 4);
                let s = if drain { p % n } else { rng.below(n) };
                let b = if rng.chance(1, 40) { s } else { (s + 1 + rng.below(n - 1)) % n };
                let r = self.view(p).map_or(vec![1, 1, 1, 1], |v| v.tokens());
                let (rs, rb) = (r[s as usize], r[b as usize]);
                let held = self
                    .st
                    .pools
                    .get(&p)
                    .map_or(0, |x| balance(&self.bank, wallet(a, x.mints[s as usize])));
                let sell = match if drain { rng.below(3) } else { rng.below(10) } {
                    0 => rs.saturating_sub(1),
                    1 if !drain && rng.chance(1, 2) => rs,
                    // the whole reserve is left after the fee, more or less
                    1 if !drain => {
                        let fee = self.swap_rule(p, a, rs, now).fee;
                        let more = fee + (fee as u128 * fee as u128 / rs.max(1) as u128) as u64;
                        rs.saturating_add(more).saturating_add(rng.below(3)).saturating_sub(1)
                    }
                    2 => rs / 2,
                    3 | 4 => rs / 1000 + 1,
                    5 => held,
                    6 => rng.range(0, 200),
                    _ => self.amount(rng, rs.max(1)),
                };
                let sell = if rng.chance(9, 10) { sell.min(held) } else { sell };
                let rule = self.swap_rule(p, a, sell, now);
                let about = match self.st.pools.get(&p) {
                    Some(pool) if pool.amp == 0 && r.iter().all(|x| *x > 0) && rule.traded > 0 => {
                        curve::const_prod(&r, s as usize, b as usize, rule.traded.min(1 << 62))
                    }
                    _ => sell.min(rb),
                };
                let min = match rng.below(8) {
                    0 => about,
                    1 => about.saturating_add(1),
                    2 => about.saturating_sub(1),
                    3 => about - about / 100,
                    4 => about.saturating_add(2 + rng.below(100)),
                    5 if rng.chance(1, 4) => u64::MAX - rng.below(2),
                    _ => 0,
                };
                Step::new(op, &[p, a, s, b, sell, min])
            }
            "donate" => {
                let m = rng.below(self.n_mints);
                let held = balance(&self.bank, wallet(a, m));
                Step::new(op, &[p, a, self.amount(rng, (held / 4).max(1)), m])
            }
            "lp_transfer" => {
                let held = balance(&self.bank, lp_wallet(a, p));
                Step::new(op, &[p, a, self.amount(rng, held.max(1)), self.any_actor(rng)])
            }
            "lp_burn" => {
                let held = balance(&self.bank, lp_wallet(a, p));
                Step::new(op, &[p, a, self.amount(rng, held.max(1))])
            }
            "prefund" => {
                Step::new(op, &[rng.below(2 + self.n_actors), a, rng.range(890_880, 3_000_000)])
            }
            "rollback" => Step::new(op, &[rng.next() >> 16]),
            _ => Step::new(op, &[]),
        }
    }

    fn draw_deposit(&self, rng: &mut Rng, p: u64, a: u64) -> Step {
        let mut args = vec![p, a, rng.below(4)];
        let pool = match self.st.pools.get(&p) {
            Some(x) => x,
            None => return Step::new("deposit", &args),
        };
        let r = self.view(p).map_or(vec![], |v| v.tokens());
        let held: Vec<u64> =
            pool.mints.iter().map(|m| balance(&self.bank, wallet(a, *m))).collect();
        if supply(&self.bank, p) == 0 {
            let base = self.amount(rng, held.iter().copied().min().unwrap_or(1) / 2 + 1);
            let kind = rng.below(4);
            for h in &held {
                let x = match kind {
                    0 => base,
                    1 => base - base / 5 + rng.below(base / 5 * 2 + 1),
                    2 => rng.log_amount((*h / 2).max(1)),
                    _ => base / *rng.pick(&[1, 1, 2, 3, 10, 1000]),
                };
                args.push(x.clamp(1, (*h).max(1)));
            }
            return Step::new("deposit", &args);
        }
        // so much of the pool
        let i = rng.below(r.len() as u64) as usize;
        let mut d = self.amount(rng, held[i].min(r[i].saturating_mul(2)).max(1));
        if rng.chance(1, 6) {
            // worth a few lp tokens
            let s = supply(&self.bank, p).max(1);
            d = (r[i] as u128 * rng.range(1, 6) as u128 / s as u128).min(u64::MAX as u128) as u64 + rng.below(2);
        }
        let kind = rng.below(5);
        for (at, (x, h)) in r.iter().zip(&held).enumerate() {
            let exact = (*x as u128 * d as u128 / (r[i].max(1)) as u128).min(u64::MAX as u128) as u64;
            args.push(match kind {
                0 => exact.max(1),
                1 => exact.saturating_add(rng.below(3)).max(1),
                2 if at == i => d,
                2 if rng.chance(1, 8) => u64::MAX,
                2 => *h,
                3 => self.amount(rng, (*h).max(1)),
                _ => {
                    if rng.chance(1, 12) {
                        0
                    } else {
                        exact.saturating_add(exact / 50 + 1)
                    }
                }
            });
        }
        Step::new("deposit", &args)
    }
}
