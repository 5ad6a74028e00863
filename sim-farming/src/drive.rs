// The schedule: what clients, bots, admins and attackers do, and when.

const BASE: &[(&str, u64)] = &[
    ("advance", 30),
    ("create_farm", 1),
    ("add_harvest", 2),
    ("remove_harvest", 2),
    ("period", 7),
    ("owner", 1),
    ("window", 1),
    ("whitelist", 2),
    ("dewhitelist", 1),
    ("snapshot", 14),
    ("burst", 1),
    ("create_farmer", 2),
    ("close", 2),
    ("start", 12),
    ("stop", 8),
    ("update", 12),
    ("update_until", 5),
    ("claim", 8),
    ("compound", 3),
    ("compound_x", 3),
    ("airdrop", 2),
    ("donate", 1),
    ("fork", 1),
    ("rollback", 1),
    ("prefund", 1),
];

/// What a property's workload does more of.
fn emphasis(focus: &str) -> &'static [(&'static str, u64)] {
    match focus {
        "C01" => &[("start", 3), ("stop", 4), ("compound", 3), ("compound_x", 3)],
        "C02" => &[("claim", 4), ("airdrop", 2), ("compound", 2)],
        "C03" => &[("update", 2), ("stop", 2), ("start", 2)],
        "C04" => &[("update", 2), ("snapshot", 2)],
        "C05" => &[("start", 3), ("snapshot", 2), ("stop", 2)],
        "C06" => &[("update", 3), ("update_until", 4)],
        "C07" => &[("burst", 4)],
        "C08" => &[("snapshot", 4), ("window", 5), ("advance", 2)],
        "C09" => &[("period", 8), ("advance", 2)],
        "C10" => &[("period", 8)],
        "C11" => &[("period", 6), ("burst", 3)],
        "C12" => &[("owner", 8), ("window", 8), ("whitelist", 5), ("dewhitelist", 8), ("add_harvest", 4), ("remove_harvest", 4), ("period", 2)],
        "C13" => &[("stop", 2), ("claim", 2), ("close", 4), ("compound_x", 3), ("create_farmer", 3)],
        "C14" => &[("add_harvest", 3), ("remove_harvest", 3), ("whitelist", 3), ("compound", 2), ("compound_x", 2), ("airdrop", 3), ("create_farmer", 3)],
        "C15" => &[("compound", 8), ("compound_x", 10), ("whitelist", 4), ("dewhitelist", 3)],
        "C16" => &[("add_harvest", 10), ("remove_harvest", 12), ("claim", 2)],
        "C17" => &[("airdrop", 15)],
        "C18" => &[("close", 12), ("stop", 3), ("claim", 3), ("create_farmer", 3)],
        "C20" => &[("create_farm", 12), ("create_farmer", 10), ("prefund", 8), ("close", 4), ("add_harvest", 4), ("whitelist", 3)],
        _ => &[],
    }
}

const RATES: &[&str] =
    &[
        "drop", "dup", "delay", "abort", "cpi", "signer", "unsigned", "sub", "kin", "forge", "other",
        "mix", "mixuser",
    ];

impl World for Farming {
    const NAME: &'static str = "farming";

    fn config(rng: &mut Rng, focus: &str) -> Cfg {
        let mut c = Cfg::default();
        let two = matches!(focus, "C12" | "C14" | "C15" | "C20") || rng.chance(1, 2);
        c.set("farms", if two { rng.range(2, 3) } else { 1 });
        c.set("actors", rng.range(2, 5));
        let many = match focus {
            "C16" => rng.chance(1, 4),
            _ => rng.chance(1, 40),
        };
        c.set("mints", if many { 12 } else { rng.range(2, 4) });
        c.set("scale", *rng.pick(&[3, 6, 6, 9, 9, 9, 12, 15, 17]));
        c.set("window", *rng.pick(&[0, 1, 1, 2, 5, 10, 10, 50, 100, 1000]));
        let long = match focus {
            "C07" => rng.chance(5, 6),
            "C11" => rng.chance(1, 2),
            "C04" | "C05" | "C06" | "C08" | "C19" => rng.chance(1, 12),
            _ => rng.chance(1, 60),
        };
        c.set("long", long as u64);
        c.set("full", if many { rng.below(3) } else { 0 });
        // short runs, so that whatever a run does first is done often
        c.set("steps", if rng.chance(1, 3) { rng.range(20, 60) } else { rng.range(60, 180) });
        c.set("focus", focus.trim_start_matches('C').parse().unwrap_or(0));
        // swarm: each kind of fault is off in half of the runs; a third of
        // the runs is free of faults altogether
        let quiet = rng.chance(1, 3);
        for r in RATES {
            let on = !quiet && rng.chance(1, 2);
            let byz = matches!(
                *r,
                "signer" | "unsigned" | "sub" | "kin" | "forge" | "other" | "mix" | "mixuser"
            );
            let max = match (byz, focus) {
                (true, "C12" | "C13" | "C14" | "C20") => 300,
                (true, _) => 60,
                (false, _) => 100,
            };
            c.set(r, if on || (byz && max == 300) { rng.range(5, max) } else { 0 });
        }
        // swarm over actions, too
        c.set("mute", if rng.chance(1, 3) { rng.next() & rng.next() & rng.next() } else { 0 });
        // with one farmer doing nearly everything shares are large
        c.set("skew", rng.below(3));
        c.set("warm", if rng.chance(3, 4) { rng.range(1, 255) } else { 0 });
        c
    }

    fn new(cfg: &Cfg) -> Self {
        let mut bank = Bank::genesis();
        bank.new_upgradeable_program(program(), Some(actor(0)));
        bank.slot = 10_000;
        let n_farms = cfg.get("farms").clamp(1, 4);
        let n_actors = cfg.get("actors").clamp(1, 8);
        let n_mints = cfg.get("mints").clamp(1, 12);
        let unit = 10u64.pow(cfg.get("scale").min(17) as u32);
        for m in 0..n_mints {
            new_mint(&mut bank, mint(m), key(7, 0, 0), 6);
        }
        for a in 0..n_actors {
            bank.new_system_account(actor(a), 1_000_000_000_000);
            for m in 0..n_mints {
                new_wallet(&mut bank, wallet(a, m), mint(m), actor(a), unit * (1 + a % 3));
            }
        }
        for f in 0..n_farms {
            for m in 0..n_mints.min(3) {
                // looks like a vault, but is just a wallet given to the farm
                let amount = unit / 2 * (m % 2);
                new_wallet(&mut bank, fake_vault(f, m), mint(m), signer_pda(f), amount);
            }
        }
        let focus = format!("C{:02}", cfg.get("focus"));
        let mut weights: Vec<u64> = OPS.iter().map(|_| 0).collect();
        for (i, (op, w)) in BASE.iter().enumerate() {
            let muted = cfg.get("mute") >> i & 1 == 1 && !matches!(*op, "advance" | "start");
            weights[op_index(op)] = if muted { 0 } else { *w * 4 };
        }
        for (op, k) in emphasis(&focus) {
            let w = &mut weights[op_index(op)];
            *w = (*w).max(4) * k;
        }
        let mut queue = vec![];
        // farms which are only created later, and positions
        let late = focus == "C20" || cfg.get("warm") % 16 == 7;
        for f in 0..if late { 1 } else { n_farms } {
            queue.push(Step::new("create_farm", &[f, f % n_actors, f % n_mints]));
            if cfg.get("window") != 0 {
                queue.push(Step::new("window", &[f, cfg.get("window")]));
            }
            queue.push(Step::new("add_harvest", &[f, (f + 1) % n_mints]));
            if cfg.get("skew") > 0 {
                queue.push(Step::new("add_harvest", &[f, f % n_mints]));
            }
        }
        for m in 0..if cfg.get("full") > 0 { 10 } else { 0 } {
            // all places for harvest mints are taken
            queue.push(Step::new("add_harvest", &[0, (m + cfg.get("full")) % n_mints]));
        }
        for a in 0..n_actors {
            for f in 0..if late { a % 2 } else { n_farms } {
                queue.push(Step::new("create_farmer", &[f, a, a]));
            }
        }
        if cfg.get("full") > 0 {
            for m in (0..n_mints).filter(|m| m % 3 != cfg.get("warm") % 3) {
                let n = (unit / 100).max(1) + m;
                queue.push(Step::new("airdrop", &[0, m % n_actors, m, (m + 1) % n_actors, n]));
            }
        }
        if cfg.get("warm") > 0 {
            // a farm in use: somebody staked, a snapshot later it is running
            let some = cfg.get("warm");
            for f in 0..if late { 1 } else { n_farms } {
                for a in 0..n_actors {
                    if (some >> (a % 8)) & 1 == 1 {
                        let held = unit * (1 + a % 3) / (2 + a + f);
                        queue.push(Step::new("start", &[f, a, held.max(1), a]));
                    }
                }
                let w = match cfg.get("window") {
                    0 => 108_000,
                    w => w,
                };
                queue.push(Step::new("advance", &[w + some % 3, some * 11]));
                queue.push(Step::new("snapshot", &[f]));
                let len = w.min(20_000) * (2 + some % 7);
                let tps = (unit / 4 / (1 + some % 5) / len).max(1 + some % 2);
                for m in [(f + 1) % n_mints, f % n_mints] {
                    queue.push(Step::new("period", &[f, m, 0, len, tps, f % n_actors]));
                }
            }
        }
        queue.reverse();
        Farming {
            start_slot: bank.slot,
            bank,
            programs: Programs(vec![(program(), farming::entry)]),
            cfg: cfg.clone(),
            st: State::default(),
            inflight: vec![],
            checkpoint: None,
            step_no: 0,
            n_farms,
            n_actors,
            n_mints,
            weights,
            queue,
        }
    }

    fn gen(&mut self, rng: &mut Rng) -> Step {
        let mut step = match self.queue.pop() {
            Some(s) => s,
            None => self.draw(rng),
        };
        if matches!(step.op.as_str(), "advance" | "burst" | "fork" | "rollback") {
            return step;
        }
        for r in RATES {
            let rate = self.cfg.get(r);
            if rate == 0 || !rng.chance(rate, 1000) {
                continue;
            }
            match *r {
                "drop" => step.faults.push(("drop".into(), 1)),
                "dup" => step.faults.push(("dup".into(), rng.range(1, 2))),
                "delay" => step.faults.push(("delay".into(), rng.range(1, 12))),
                "abort" => step.faults.push(("abort".into(), rng.range(1, 8))),
                "cpi" => step.faults.push(("cpi".into(), rng.range(1, 3))),
                "signer" => step.faults.push(("signer".into(), rng.below(self.n_actors))),
                "unsigned" => step.faults.push(("unsigned".into(), rng.range(1, 2))),
                "sub" => {
                    step.faults.push(("pos".into(), rng.below(12)));
                    step.faults.push(("sub".into(), rng.below(1000)));
                }
                "kin" => step.faults.push(("kin".into(), rng.below(1 << 16))),
                "forge" => step.faults.push(("forge".into(), rng.below(12))),
                "mix" if self.n_farms > 1 => {
                    let g = rng.below(self.n_farms);
                    step.faults.push(("mix".into(), g << 16 | draw_mask(rng)))
                }
                "mixuser" => {
                    let b = rng.below(self.n_actors);
                    step.faults.push(("mixuser".into(), b << 16 | draw_mask(rng)))
                }
                "other" if step.op == "compound_x" => {
                    step.faults.push(("other".into(), rng.below(self.n_actors)))
                }
                _ => (),
            }
        }
        step
    }

    fn exec(&mut self, step: &Step, stats: &mut Stats) -> Vec<Violation> {
        self.step_no += 1;
        let mut out = vec![];
        // what was under way for long enough arrives
        let due: Vec<InFlight> = {
            let n = self.step_no;
            let (d, rest) = std::mem::take(&mut self.inflight).into_iter().partition(|t| t.due <= n);
            self.inflight = rest;
            d
        };
        for t in due {
            if self.now() > t.sent_slot + 150 {
                // the recent blockhash of the transaction is too old
                stats.hit("fault.expired");
                continue;
            }
            stats.hit("fault.delayed_delivery");
            stats.trace(|| format!("  delivered late: {}", t.step));
            out.extend(self.deliver_logged(&t.step, stats));
        }
        match step.op.as_str() {
            "advance" => {
                let n = step.arg(0).max(1).min(1 << 40);
                if n > 1 {
                    stats.hit("fault.slots_skipped");
                }
                self.bank.slot += n;
                // the wall clock of the cluster drifts both ways
                let jitter = step.arg(1) as i64 - 1000;
                if jitter < 0 {
                    stats.hit("fault.clock_backwards");
                }
                self.bank.unix_timestamp += jitter;
            }
            "burst" => {
                let n = step.arg(1).min(1200);
                let gap = step.arg(2).clamp(1, 1 << 30);
                let update = step.arg(3);
                stats.hit("fault.bot_burst");
                let f = step.arg(0) % self.n_farms;
                for i in 0..n {
                    self.bank.slot += gap;
                    out.extend(self.deliver(&Step::new("snapshot", &[f]), stats));
                    if update > 0 && i % (update + 1) == update {
                        let a = i % self.n_actors;
                        out.extend(self.deliver(&Step::new("update", &[f, a]), stats));
                    }
                    if !out.is_empty() {
                        break;
                    }
                }
            }
            "fork" => {
                self.checkpoint = Some(Checkpoint {
                    bank: self.bank.clone(),
                    st: self.st.clone(),
                    log: vec![],
                });
            }
            "rollback" => {
                if let Some(mut c) = self.checkpoint.take() {
                    stats.hit("fault.fork_rolled_back");
                    let elapsed = self.now() - c.bank.slot;
                    let mut rng = Rng::new(step.arg(0));
                    self.bank = c.bank;
                    self.bank.slot += rng.range(0, elapsed);
                    self.st = c.st;
                    // the transactions of the abandoned fork land again, in
                    // another order, some do not
                    for i in (1..c.log.len()).rev() {
                        let j = rng.below(i as u64 + 1) as usize;
                        if rng.chance(1, 2) {
                            c.log.swap(i, j);
                        }
                    }
                    for s in &c.log {
                        if rng.chance(1, 8) {
                            continue;
                        }
                        if rng.chance(1, 4) {
                            self.bank.slot += 1;
                        }
                        stats.hit("fault.redelivered");
                        out.extend(self.deliver(s, stats));
                    }
                }
            }
            _ => {
                if step.get_fault("drop").is_some() {
                    stats.hit("fault.lost");
                    return out;
                }
                if let Some(d) = step.get_fault("delay") {
                    stats.hit("fault.delayed");
                    self.inflight.push(InFlight {
                        due: self.step_no + d,
                        sent_slot: self.now(),
                        step: step.clone(),
                    });
                    return out;
                }
                out.extend(self.deliver_logged(step, stats));
                for _ in 0..step.get_fault("dup").unwrap_or(0).min(3) {
                    stats.hit("fault.duplicated");
                    out.extend(self.deliver_logged(step, stats));
                }
            }
        }
        out
    }

    /// Faults stop; everybody leaves within a fixed number of transactions.
    fn finish(&mut self, stats: &mut Stats) -> Vec<Violation> {
        let mut out = vec![];
        self.inflight.clear();
        self.bank.slot += 2;
        for f in 0..self.n_farms {
            for a in 0..self.n_actors {
                if self.farmer_view(f, a).is_none() {
                    continue;
                }
                let mut steps = vec![Step::new("update", &[f, a])];
                let farm = match self.st.farms.get(&f) {
                    Some(x) => x,
                    None => continue,
                };
                for i in 0..farm.harvests.len() as u64 {
                    steps.push(Step::new("claim", &[f, a, 1 << i, a]));
                }
                steps.push(Step::new("stop", &[f, a, u64::MAX, a]));
                steps.push(Step::new("close", &[f, a]));
                let sloppy = farm.harvests.values().any(|h| h.overlap > 0);
                for s in &steps {
                    stats.trace(|| format!("> (exit) {s}"));
                    out.extend(self.deliver(s, stats));
                }
                if self.farmer_view(f, a).is_some() && !sloppy {
                    out.push(v(
                        &["C19", "C18"],
                        "cannot-leave",
                        format!("position {a} of farm {f} not closed after {} transactions", steps.len()),
                    ));
                } else {
                    stats.hit("probe.left_completely");
                }
            }
        }
        stats.log.u64(self.bank.digest());
        out
    }

    fn slots(&self) -> u64 {
        self.bank.slot.saturating_sub(self.start_slot)
    }
}

/// One of the accounts or two, few, about half of them or all but a few.
fn draw_mask(rng: &mut Rng) -> u64 {
    let mask = rng.next() & 0xffff;
    match rng.below(7) {
        6 => 0xffff ^ (1 << rng.below(8) | 1 << rng.below(8)),
        3 => 1 << rng.below(10),
        4 => 1 << rng.below(7),
        5 => 1 << rng.below(8) | 1 << rng.below(8),
        0 => mask & rng.next(),
        1 => mask | rng.next() & 0xffff,
        _ => mask,
    }
}

impl Farming {
    fn deliver_logged(&mut self, step: &Step, stats: &mut Stats) -> Vec<Violation> {
        if let Some(c) = &mut self.checkpoint {
            if c.log.len() < 64 {
                c.log.push(step.clone());
            }
        }
        self.deliver(step, stats)
    }

    fn amount(&self, rng: &mut Rng, max: u64) -> u64 {
        match rng.below(8) {
            0 => 1,
            1 => max,
            2 => max / 2,
            3 => max.saturating_add(1),
            4 => rng.range(1, 10),
            5 => max / 3 + 1,
            _ => rng.log_amount(max.max(1)),
        }
    }

    fn any_farm(&self, rng: &mut Rng) -> u64 {
        rng.below(self.n_farms)
    }

    fn any_actor(&self, rng: &mut Rng) -> u64 {
        if self.cfg.get("skew") == 2 && rng.chance(1, 2) {
            return 0;
        }
        rng.below(self.n_actors)
    }

    /// Somebody with a position in the farm, mostly.
    fn any_farmer(&self, rng: &mut Rng, f: u64) -> u64 {
        for _ in 0..4 {
            let a = self.any_actor(rng);
            if self.farmer_view(f, a).is_some() {
                return a;
            }
        }
        self.any_actor(rng)
    }

    fn any_harvest(&self, rng: &mut Rng, f: u64) -> u64 {
        let listed: Vec<u64> =
            self.st.farms.get(&f).map_or(vec![], |x| x.harvests.keys().copied().collect());
        if listed.is_empty() || rng.chance(1, 12) {
            rng.below(self.n_mints)
        } else {
            *rng.pick(&listed)
        }
    }

    fn draw_advance(&self, rng: &mut Rng) -> Step {
        let now = self.now();
        let f = self.any_farm(rng);
        let mut targets: Vec<u64> = vec![];
        let mut window = 10;
        if let Some(farm) = self.st.farms.get(&f) {
            window = farm.window().min(1 << 20);
            if let Some(s) = farm.snaps.last() {
                targets.push(s.0.saturating_add(window));
            }
            for h in farm.harvests.values() {
                if let Some(p) = h.periods.last() {
                    targets.push(p.0);
                    targets.push(p.1);
                }
            }
        }
        let jitter = rng.range(0, 3000);
        let n = match rng.below(10) {
            0..=3 => 1,
            4 => rng.range(1, 5),
            5 => window,
            6 => rng.range(1, window * 2 + 1),
            _ => match targets.is_empty() {
                true => window,
                false => {
                    if !rng.chance(1, 30) {
                        // what is near
                        targets.retain(|t| *t < now + window * 100 + 20_000);
                    }
                    if targets.is_empty() {
                        return Step::new("advance", &[window, jitter]);
                    }
                    let t = *rng.pick(&targets);
                    t.saturating_add(rng.below(3)).saturating_sub(1).saturating_sub(now).min(1 << 30).max(1)
                }
            },
        };
        Step::new("advance", &[n, jitter])
    }

    /// What fills the schedule of a mint and brings the oldest remembered
    /// snapshot next to the end of its oldest period.
    fn draw_full_schedule(&mut self, rng: &mut Rng) -> Option<Step> {
        let f = self.any_farm(rng);
        let farm = self.st.farms.get(&f)?;
        let (m, h) = farm.harvests.iter().next()?;
        let now = self.now();
        let window = farm.window().clamp(1, 50);
        if h.periods.last().map_or(false, |p| p.1 > now + 10_000) {
            return None;
        }
        let mut steps = vec![];
        let period = |start| Step::new("period", &[f, *m, start, 3, 1, farm.admin]);
        match h.periods.len().checked_sub(wire::PERIODS) {
            None => {
                // a snapshot in the last slot of the period, or next to it
                let len = rng.range(2, window * 2 + 2);
                let start = h.periods.last().map_or(now, |p| p.1 + 1).max(now);
                let fault = rng.below(4).saturating_sub(1);
                steps.push(Step::new("period", &[f, *m, start, len, 1, farm.admin]));
                steps.push(Step::new("advance", &[start - now + len - 2 + fault, 1000]));
                steps.push(Step::new("snapshot", &[f]));
                steps.push(Step::new("advance", &[2, 1000]));
            }
            Some(i) => {
                let end = h.periods[i].1;
                let at = farm.snaps.iter().position(|s| s.0 + 1 >= end)? as u64;
                let at = at + rng.below(3);
                let last = h.periods.last()?.1;
                let more = (at + wire::RING as u64).checked_sub(farm.snaps.len() as u64)?;
                if more > 0 {
                    steps.push(Step::new("burst", &[f, more, farm.window().clamp(1, 1 << 20), 0]));
                }
                if last >= now + more {
                    steps.push(Step::new("advance", &[last - now + 1, 1000]));
                }
                steps.push(period(0));
            }
        }
        steps.reverse();
        let first = steps.pop();
        self.queue.extend(steps);
        first
    }

    fn draw(&mut self, rng: &mut Rng) -> Step {
        if self.cfg.get("focus") == 11 && self.cfg.get("long") == 1 && rng.chance(1, 5) {
            if let Some(s) = self.draw_full_schedule(rng) {
                return s;
            }
        }
        let op = OPS[rng.weighted(&self.weights)];
        let f = self.any_farm(rng);
        let now = self.now();
        match op {
            "advance" => self.draw_advance(rng),
            "create_farm" => {
                Step::new(op, &[f, self.any_actor(rng), rng.below(self.n_mints)])
            }
            "add_harvest" => {
                let m = if rng.chance(1, 6) {
                    self.any_harvest(rng, f)
                } else {
                    rng.below(self.n_mints)
                };
                Step::new(op, &[f, m])
            }
            "remove_harvest" => Step::new(op, &[f, self.any_harvest(rng, f)]),
            "period" => self.draw_period(rng, f),
            "owner" => Step::new(op, &[f, self.any_actor(rng)]),
            "window" => {
                let n = match rng.below(8) {
                    0 => 0,
                    1 => rng.range(1, 3),
                    2 => u64::MAX - rng.below(2) * 20_000,
                    3 => rng.range(1, 20_000),
                    _ => self.cfg.get("window"),
                };
                Step::new(op, &[f, n])
            }
            "whitelist" | "dewhitelist" => Step::new(op, &[f, self.any_farm(rng)]),
            "snapshot" => Step::new(op, &[f]),
            "burst" => {
                let window = self.st.farms.get(&f).map_or(1, |x| x.window()).min(1 << 20);
                let n = if self.cfg.get("long") == 1 && rng.chance(1, 2) {
                    *rng.pick(&[990, 999, 1000, 1001, 1010])
                } else {
                    rng.range(2, 12)
                };
                let update = if rng.chance(1, 3) { rng.range(1, 300) } else { 0 };
                Step::new(op, &[f, n, window, update])
            }
            "create_farmer" => {
                let a = self.any_actor(rng);
                let payer = if rng.chance(2, 3) { a } else { self.any_actor(rng) };
                Step::new(op, &[f, a, payer])
            }
            "close" => Step::new(op, &[f, self.any_farmer(rng, f)]),
            "start" => {
                let a = self.any_farmer(rng, f);
                let by = if rng.chance(4, 5) { a } else { self.any_actor(rng) };
                let m = self.st.farms.get(&f).map_or(0, |x| x.stake_mint);
                let held = balance(&self.bank, wallet(by, m));
                Step::new(op, &[f, a, self.amount(rng, held), by])
            }
            "stop" => {
                let a = self.any_farmer(rng, f);
                let dep = self.farmer_view(f, a).map_or(0, |x| x.deposited() as u64);
                let amount = match rng.below(6) {
                    0 => u64::MAX,
                    1 => self.farmer_view(f, a).map_or(1, |x| x.vested),
                    2 => self.farmer_view(f, a).map_or(1, |x| x.vested + 1),
                    _ => self.amount(rng, dep.max(1)),
                };
                let to = if rng.chance(4, 5) { a } else { self.any_actor(rng) };
                Step::new(op, &[f, a, amount.max(1), to])
            }
            "update" => Step::new(op, &[f, self.any_farmer(rng, f)]),
            "update_until" => {
                let a = self.any_farmer(rng, f);
                let next = self.farmer_view(f, a).map_or(now, |x| x.next);
                let until = match rng.below(6) {
                    0 => now + rng.below(1000),
                    1 => u64::MAX,
                    2 => next + rng.below(3),
                    3 => next.saturating_sub(rng.below(3)),
                    _ => rng.range(next.min(now), now),
                };
                Step::new(op, &[f, a, until])
            }
            "claim" => {
                let a = self.any_farmer(rng, f);
                let n = self.st.farms.get(&f).map_or(1, |x| x.harvests.len() as u64);
                let n = if rng.chance(1, 3) { n } else { n.min(5) };
                let mask = if rng.chance(1, 2) { (1 << n) - 1 } else { rng.below(1 << n) };
                let to = if rng.chance(4, 5) { a } else { self.any_actor(rng) };
                let twice = if rng.chance(1, 12) { rng.range(1, 4) } else { 0 };
                Step::new(op, &[f, a, mask.max(1), to, twice])
            }
            "compound" | "compound_x" => {
                // mostly where there is consent
                let itself = op == "compound_x" && rng.chance(1, 12);
                let mut s = f;
                let mut t = self.any_farm(rng);
                let pairs: Vec<(u64, u64)> = self
                    .st
                    .farms
                    .iter()
                    .flat_map(|(s, x)| x.whitelisted.iter().map(|t| (*s, *t)))
                    .filter(|(s, t)| (s == t) == (op == "compound" || itself))
                    .collect();
                if pairs.is_empty() && rng.chance(2, 3) {
                    let t = if op == "compound" || itself { f } else { (f + 1) % self.n_farms };
                    return Step::new("whitelist", &[f, t]);
                }
                if !pairs.is_empty() && rng.chance(5, 6) {
                    (s, t) = *rng.pick(&pairs);
                    let m = self.st.farms[&t].stake_mint;
                    if !self.st.farms[&s].harvests.contains_key(&m) && rng.chance(2, 3) {
                        return Step::new("add_harvest", &[s, m]);
                    }
                }
                let a = self.any_farmer(rng, s);
                Step::new(op, &[s, a, t])
            }
            "airdrop" => {
                let a = self.any_farmer(rng, f);
                let m = self.any_harvest(rng, f);
                let by = self.any_actor(rng);
                let held = balance(&self.bank, wallet(by, m));
                Step::new(op, &[f, a, m, self.amount(rng, held), by])
            }
            "donate" => {
                let m = self.any_harvest(rng, f);
                let which = if rng.chance(1, 2) { 0 } else { 2 * m + 1 };
                Step::new(op, &[f, which, rng.log_amount(1000), self.any_actor(rng)])
            }
            "prefund" => {
                let x = rng.below(12);
                let lamports = rng.range(890_880, 3_000_000);
                Step::new(op, &[rng.below(4), f, x, self.any_actor(rng), lamports])
            }
            "rollback" => Step::new(op, &[rng.next() >> 16]),
            _ => Step::new(op, &[]),
        }
    }

    fn draw_period(&self, rng: &mut Rng, f: u64) -> Step {
        let now = self.now();
        let m = self.any_harvest(rng, f);
        let window = self.st.farms.get(&f).map_or(10, |x| x.window()).min(20_000);
        let len = match rng.below(24) {
            0 => 0,
            1 => 1,
            2 => 2,
            3 => u64::MAX - rng.below(20_000),
            4..=6 => rng.range(1, 10),
            7 => rng.range(window, window * 60 + 3),
            _ => {
                let k = rng.range(1, 6);
                rng.range(2, window * k + 3)
            }
        };
        let latest = self
            .st
            .farms
            .get(&f)
            .and_then(|x| x.harvests.get(&m))
            .and_then(|h| h.periods.last().copied());
        let running = latest.map_or(false, |p| p.0 <= now && now <= p.1);
        let start = match (rng.below(16), latest) {
            (0 | 1, _) => now + rng.range(0, window * 2),
            (2, _) => now.saturating_sub(rng.below(4)),
            (3 | 4, Some(p)) => p.1.saturating_add(rng.below(3)),
            (5 | 6, Some(p)) => p.1.saturating_add(1).max(now),
            (7..=12, Some(p)) if running => p.1.saturating_add(1 + rng.below(window + 1)),
            (7, _) => now + 1 + rng.below(3),
            (8, _) if rng.chance(1, 3) => u64::MAX - rng.below(5),
            _ => 0,
        };
        let admin = self.st.farms.get(&f).map_or(0, |x| x.admin);
        let payer = if rng.chance(9, 10) { admin } else { self.any_actor(rng) };
        let held = balance(&self.bank, wallet(payer, m));
        let per_slot = (held / len.max(1)).max(1);
        let tps = match rng.below(20) {
            0 => 0,
            1 => per_slot,
            2 => per_slot.saturating_add(1),
            3 | 4 => 1,
            5 => rng.next(),
            6..=11 => (per_slot / rng.range(2, 12)).max(1),
            _ => rng.log_amount((per_slot / 4).max(1)),
        };
        Step::new("period", &[f, m, start, len, tps, payer])
    }
}
