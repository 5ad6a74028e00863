// Delivery of transactions and the judgement of what they did.

/// Which properties an account that does not belong in its place breaks.
fn place_tags(sem: &Sem, pos: usize) -> &'static [&'static str] {
    match (sem, pos) {
        (Sem::Swap { .. }, 1) => &["C28", "C31"],
        (Sem::Swap { .. }, 6 | 7) => &["C21", "C22", "C31"],
        (Sem::Swap { .. }, 8 | 9) => &["C27", "C31"],
        (Sem::CreatePool { .. }, _) => &["C30", "C31"],
        (Sem::CreateToll { .. } | Sem::CreateSettings { .. } | Sem::Fee { .. }, _) => &["C29", "C31"],
        (Sem::Discount { .. }, _) => &["C28", "C31"],
        (Sem::Deposit { .. }, 3..) => &["C24", "C21", "C31"],
        (Sem::Redeem { .. }, 3..) => &["C25", "C21", "C31"],
        _ => &["C31"],
    }
}

fn pool_of_sem(sem: &Sem) -> Option<u64> {
    match sem {
        Sem::Deposit { p, .. } | Sem::Redeem { p, .. } | Sem::Swap { p, .. } => Some(*p),
        _ => None,
    }
}

impl Amm {
    /// Accounts an attacker can get hold of.
    fn pool(&self) -> Vec<Pubkey> {
        let mut out = vec![toll_pda(), settings_pda(), self.programdata];
        for p in 0..self.n_pools {
            out.push(pool_key(p));
            out.push(signer_pda(p));
            out.push(lp_mint(p));
            for m in 0..self.n_mints {
                out.push(vault(p, m));
                out.push(fake_vault(p, m));
            }
            for a in 0..self.n_actors {
                out.push(toll_wallet(a, p));
                out.push(lp_wallet(a, p));
            }
        }
        for a in 0..self.n_actors {
            out.push(actor(a));
            out.push(own_programdata(a));
            out.push(discount_pda(a));
            for m in 0..self.n_mints {
                out.push(wallet(a, m));
            }
        }
        out.push(system_program::id());
        out.push(sim_core::spl_token::id());
        out
    }

    /// Delivers one transaction, then judges what it did.
    fn deliver(&mut self, step: &Step, stats: &mut Stats) -> Vec<Violation> {
        let mut out = vec![];
        if step.op == "rotate" {
            let to = step.arg(0);
            self.rotate(if to == NOBODY { NOBODY } else { to % self.n_actors });
            return out;
        }
        if step.op == "preseed" {
            self.preseed(step);
            return out;
        }
        let mut built = match self.build(step) {
            Some(b) => b,
            None => {
                stats.hit("op.without_effect");
                return out;
            }
        };
        let mut must_fail: Vec<&'static str> = vec![];
        let mut mutations = 0;
        let is_ours = built.ix.program_id == program();
        if let (Some(k), Some(pos)) = (step.get_fault("signer"), built.authority) {
            let other = actor(k % self.n_actors);
            if built.ix.accounts[pos].pubkey != other {
                stats.hit("fault.wrong_signer");
                built.ix.accounts[pos].pubkey = other;
                built.signers = BTreeSet::from([other]);
                must_fail.extend(built.authority_tags);
                mutations += 1;
            }
        }
        if let (Some(_), Some(pos)) = (step.get_fault("unsigned"), built.authority) {
            stats.hit("fault.missing_signature");
            let m = &mut built.ix.accounts[pos];
            m.is_signer = false;
            built.signers.remove(&m.pubkey);
            must_fail.extend(built.authority_tags);
            mutations += 1;
        }
        // several accounts of another pool together, which fit each other
        let mut mixed = false;
        if let (Some(x), Some(p)) = (step.get_fault("mix"), pool_of_sem(&built.sem)) {
            let (q, mask) = (x >> 16, x & 0xffff);
            let q = q % self.n_pools;
            let metas = &mut built.ix.accounts;
            let swaps: Vec<(usize, Pubkey)> = metas
                .iter()
                .enumerate()
                .filter_map(|(i, m)| Some((i, self.counterpart(&m.pubkey, p, q)?)))
                .collect();
            let picked: Vec<&(usize, Pubkey)> =
                swaps.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, x)| x).collect();
            if q != p && !picked.is_empty() && picked.len() < swaps.len() {
                stats.hit("fault.accounts_of_two_pools");
                for (i, k) in picked {
                    metas[*i].pubkey = *k;
                }
                must_fail.push("C31");
                mutations += 1;
                mixed = true;
            }
        }
        // together with these it could be an honest one of the other pool
        let is_ours = is_ours && !mixed;
        // the deployer of another program comes with the metadata of that
        if let (Some(x), true) = (
            step.get_fault("ownprog"),
            matches!(built.sem, Sem::CreateToll { .. } | Sem::CreateSettings { .. }),
        ) {
            let k = x / 4 % self.n_actors;
            if k != self.st.upgrade {
                stats.hit("fault.metadata_of_another_program");
                built.ix.accounts[0].pubkey = actor(k);
                built.signers = BTreeSet::from([actor(k)]);
                built.ix.accounts[2].pubkey = own_programdata(k);
                if x % 2 == 1 {
                    built.ix.accounts[1].pubkey = own_program(k);
                }
                must_fail.push("C29");
                mutations += 1;
            }
        }
        if let (Some(p), Some(x), true) = (step.get_fault("pos"), step.get_fault("sub"), is_ours) {
            let pos = (p as usize) % built.ix.accounts.len();
            let pool = self.pool();
            let other = pool[(x as usize) % pool.len()];
            // any wallet given to its signer will do for a new pool
            let creates = matches!(built.sem, Sem::CreatePool { .. }) && self.shadows(&other);
            let m = &mut built.ix.accounts[pos];
            if !m.is_signer && m.pubkey != other && !creates {
                stats.hit("fault.substituted_account");
                m.pubkey = other;
                mutations += 1;
                let from = built.pairs_from;
                if built.pinned.contains(&pos) || (pos >= from && (pos - from) % 2 == 0) {
                    must_fail.extend(place_tags(&built.sem, pos));
                }
            }
        }
        // an account of the same kind as the one it takes the place of
        if let (Some(x), true) = (step.get_fault("kin"), is_ours) {
            let creates = matches!(built.sem, Sem::CreatePool { .. });
            let from = built.pairs_from;
            let places: Vec<(usize, Vec<Pubkey>)> = built
                .ix
                .accounts
                .iter()
                .enumerate()
                .filter(|(i, m)| {
                    let pinned = built.pinned.contains(i) || (*i >= from && (i - from) % 2 == 0);
                    pinned && !m.is_signer
                })
                .map(|(i, m)| {
                    let mut kin = self.kin(&m.pubkey);
                    kin.retain(|k| !creates || !self.shadows(k));
                    (i, kin)
                })
                .filter(|(_, kin)| !kin.is_empty())
                .collect();
            if !places.is_empty() {
                stats.hit("fault.account_of_the_same_kind");
                let (pos, kin) = &places[(x / 64) as usize % places.len()];
                built.ix.accounts[*pos].pubkey = kin[(x % 64) as usize % kin.len()];
                must_fail.extend(place_tags(&built.sem, *pos));
                mutations += 1;
            }
        }
        // somebody else takes part, whose discount is not the one of the user
        let mut undo = None;
        if let (Some(x), Sem::Swap { user, s, b, p, .. }, true) =
            (step.get_fault("heir"), &built.sem, is_ours)
        {
            let other = x / 4 % self.n_actors;
            let mints = self.st.pools.get(p).map(|pool| (pool.mints.get(*s), pool.mints.get(*b)));
            if let (Some((Some(ms), Some(mb))), true, 0) = (mints, other != *user, mutations) {
                let (from, to) = (wallet(other, *ms), wallet(other, *mb));
                mutations += 1;
                if x % 4 > 0 {
                    built.ix.accounts[1].pubkey = discount_pda(other);
                    must_fail.extend(["C28", "C31"]);
                }
                match x % 4 {
                    // what is bought is given away, with or without the
                    // discount of who gets it
                    0 | 1 => {
                        stats.hit("fault.bought_for_somebody_else");
                        built.ix.accounts[5].pubkey = to;
                    }
                    // sold on behalf of somebody, who trusts the user with it
                    k => {
                        let old = self.bank.get(&from).cloned();
                        if let (Some(mut w), Some(old)) = (wallet_of(&self.bank, from), old) {
                            stats.hit("fault.sold_for_somebody_else");
                            w.delegate = COption::Some(actor(*user));
                            w.delegated_amount = u64::MAX;
                            let mut acc = old.clone();
                            Pack::pack(w, &mut acc.data).unwrap();
                            self.bank.set(from, acc);
                            undo = Some((from, old));
                            built.ix.accounts[4].pubkey = from;
                            if k == 3 {
                                built.ix.accounts[5].pubkey = to;
                            }
                        }
                    }
                }
            }
        }
        if let (Some(p), true) = (step.get_fault("forge"), is_ours) {
            let pos = (p as usize) % built.ix.accounts.len();
            let k = built.ix.accounts[pos].pubkey;
            let copy = self.bank.get(&k).cloned();
            if let (Some(mut acc), false) = (copy, built.ix.accounts[pos].is_signer) {
                let harmless = acc.owner == system_program::id();
                if !acc.executable && !harmless {
                    stats.hit("fault.forged_account");
                    // an attacker can put any bytes in accounts of their own
                    // program, never of ours
                    acc.owner = key(9, 0, 0);
                    let fk = forged_key(&k);
                    self.bank.set(fk, acc);
                    built.ix.accounts[pos].pubkey = fk;
                    mutations += 1;
                    must_fail.extend(place_tags(&built.sem, pos));
                }
            }
        }
        if mutations > 1 {
            // together they can make up a legitimate transaction of somebody
            // else, only what it does counts
            must_fail.clear();
        }
        let byzantine = mutations > 0;
        let abort = Abort { syscall: step.get_fault("abort"), after_cpi: step.get_fault("cpi") };

        let before = self.bank.clone();
        let tx = Tx { ixs: vec![built.ix.clone()], signers: built.signers.clone() };
        let keep_logs = stats.trace.is_some() || self.cfg.get("focus") == 34;
        let outcome = self.programs.execute(&mut self.bank, &tx, abort, keep_logs);
        if let (Some((k, acc)), false) = (undo, outcome.ok()) {
            self.bank.set(k, acc);
        }
        stats.txs += 1;
        stats.log.u64(outcome.syscalls ^ (outcome.ok() as u64) << 40);
        stats.trace(|| format!("  slot {} {:?} {:?}", before.slot, outcome.result, outcome.logs));
        hit_op(stats, &step.op, outcome.ok());
        if outcome.aborted {
            match abort.after_cpi {
                Some(_) => stats.hit("fault.aborted_after_cpi"),
                None => stats.hit("fault.aborted_at_syscall"),
            }
        }
        stats.checks += 1;

        let changed = self.bank.diff(&before);
        for k in &changed {
            stats.log.bytes(k.as_ref());
            if let Some(acc) = self.bank.get(k) {
                stats.log.bytes(&acc.data);
            }
        }
        if !outcome.ok() {
            if !byzantine && !outcome.aborted && built.expect == Expect::Ok {
                let why = match &outcome.result {
                    Err(TxError::Panic(_, msg)) => format!("panic {msg}"),
                    r => format!("{r:?}"),
                };
                out.push(v(
                    built.tags,
                    &format!("refused-{}", step.op),
                    format!("{step}: expected to succeed, got {why}; {}", self.describe(&built.sem)),
                ));
            }
            return out;
        }
        stats.txs_ok += 1;
        if !must_fail.is_empty() {
            out.push(v(
                &must_fail,
                &format!("accepted-{}", step.op),
                format!("{step}: accepted with a wrong signer or account"),
            ));
        } else if !byzantine && built.expect == Expect::Err {
            out.push(v(
                built.tags,
                &format!("allowed-{}", step.op),
                format!("{step}: must be refused: {}; {}", built.why, self.describe(&built.sem)),
            ));
        }
        self.audit(&before, &changed, &built, step, stats, &mut out);
        if keep_logs && !byzantine {
            self.reported_supply(&built.sem, &outcome.logs, step, stats, &mut out);
        }
        if !byzantine && out.is_empty() && (self.cfg.get("focus") == 26 || stats.txs_ok % 16 == 0) {
            self.what_if(&before, step, &built.sem, stats, &mut out);
        }
        self.note_state(step, stats);
        out
    }

    /// Backends follow the supply of LP tokens by the logs.
    fn reported_supply(
        &self,
        sem: &Sem,
        logs: &[String],
        step: &Step,
        stats: &mut Stats,
        out: &mut Vec<Violation>,
    ) {
        let p = match sem {
            Sem::Deposit { p, .. } | Sem::Redeem { p, .. } | Sem::Swap { p, .. } => *p,
            _ => return,
        };
        let reported: Vec<&str> =
            logs.iter().filter_map(|l| l.strip_prefix("lp-supply=")).collect();
        let actual = supply(&self.bank, p).to_string();
        stats.hit("probe.supply_reported");
        if reported.is_empty() || reported.iter().any(|r| r.trim() != actual) {
            out.push(v(
                &["C34"],
                "supply-misreported",
                format!("{step}: reported {reported:?}, supply of LP tokens {actual}"),
            ));
        }
    }

    /// What the same transaction would have done with other limits: the same,
    /// as long as they allow for it, and nothing at all otherwise.
    fn what_if(
        &mut self,
        before: &Bank,
        step: &Step,
        sem: &Sem,
        stats: &mut Stats,
        out: &mut Vec<Violation>,
    ) {
        let p = match pool_of_sem(sem) {
            Some(p) => p,
            None => return,
        };
        let after = self.bank.clone();
        let mints = self.st.pools[&p].mints.clone();
        let n = mints.len();
        let held = |bank: &Bank, i: usize| balance(bank, vault(p, mints[i]));
        let moved: Vec<u64> =
            (0..n).map(|i| held(before, i).abs_diff(held(&after, i))).collect();
        self.bank = before.clone();
        let r = self.view(p).map_or(vec![], |x| x.tokens());
        // limits, whether they allow for it
        let mut cases: Vec<(Vec<u64>, bool, &str)> = vec![];
        let with = |pos: usize, x: u64| {
            let mut a = step.args.clone();
            a.resize(a.len().max(pos + 1), 0);
            a[pos] = x;
            a
        };
        match sem {
            Sem::Swap { b, .. } => {
                cases.push((with(5, moved[*b]), true, "a minimum of what is paid"));
                cases.push((with(5, moved[*b].saturating_add(1)), false, "a minimum above"));
            }
            Sem::Redeem { .. } => {
                let mut exact = step.args.clone();
                exact.resize(4 + n, 0);
                exact[4..4 + n].copy_from_slice(&moved);
                for i in 0..n {
                    let mut a = exact.clone();
                    a[4 + i] = moved[i].saturating_add(1);
                    cases.push((a, false, "a minimum above"));
                }
                cases.push((exact, true, "minima of what is paid"));
                cases.push((with(2, step.arg(2) + 1), true, "another order"));
            }
            Sem::Deposit { max, .. } => {
                cases.push((with(2, step.arg(2) + 1), true, "another order"));
                if supply(before, p) > 0 && r.iter().all(|x| *x > 0) {
                    let tight = deposit_bounds(&r, max).tight;
                    for i in 0..n {
                        if i != tight && moved[i] < max[i] {
                            let more = max[i].saturating_mul(2);
                            cases.push((with(3 + i, more), true, "a limit above what it takes"));
                        }
                    }
                }
            }
            _ => (),
        }
        let tags: &[&'static str] = match sem {
            Sem::Deposit { .. } => &["C26", "C24"],
            Sem::Redeem { .. } => &["C26", "C25"],
            _ => &["C26"],
        };
        for (args, fine, what) in cases {
            let other = Step { op: step.op.clone(), args, faults: vec![] };
            self.bank = before.clone();
            let built = match self.build(&other) {
                Some(b) => b,
                None => continue,
            };
            stats.txs += 1;
            let tx = Tx { ixs: vec![built.ix], signers: built.signers };
            let outcome = self.programs.execute(&mut self.bank, &tx, Abort::default(), false);
            stats.hit("probe.what_if");
            if outcome.ok() != fine {
                let kind = if fine { "limit-refused" } else { "limit-ignored" };
                out.push(v(
                    tags,
                    kind,
                    format!("{step} went through, with {what}, {other}: {:?}", outcome.result),
                ));
            } else if fine && !self.bank.diff(&after).is_empty() {
                out.push(v(
                    tags,
                    "limit-matters",
                    format!("{step} would have had another effect with {what}, {other}"),
                ));
            }
        }
        self.bank = after;
    }

    fn describe(&self, sem: &Sem) -> String {
        let p = match sem {
            Sem::Deposit { p, .. }
            | Sem::Redeem { p, .. }
            | Sem::Swap { p, .. }
            | Sem::CreatePool { p, .. }
            | Sem::Fee { p, .. } => *p,
            _ => return String::new(),
        };
        match (self.view(p), self.st.pools.get(&p)) {
            (Some(v), Some(m)) => format!(
                "pool {p}: reserves {:?}, lp supply {}, amplifier {}, fee {}",
                v.tokens(),
                supply(&self.bank, p),
                m.amp,
                m.fee
            ),
            _ => format!("pool {p} not created"),
        }
    }

    /// Other accounts of the kind of this one: wallets of the same mint, mints
    /// of LP tokens, signers, discounts.
    fn kin(&self, k: &Pubkey) -> Vec<Pubkey> {
        let mut out: Vec<Pubkey> = if let Some(w) = wallet_of(&self.bank, *k) {
            self.pool()
                .into_iter()
                .filter(|o| wallet_of(&self.bank, *o).map(|x| x.mint) == Some(w.mint))
                .collect()
        } else if (0..self.n_pools).any(|p| lp_mint(p) == *k) {
            (0..self.n_pools).map(lp_mint).collect()
        } else if (0..self.n_pools).any(|p| signer_pda(p) == *k) {
            (0..self.n_pools).map(signer_pda).collect()
        } else if (0..self.n_actors).any(|a| discount_pda(a) == *k) {
            (0..self.n_actors).map(discount_pda).collect()
        } else {
            vec![]
        };
        out.retain(|o| o != k);
        out
    }

    fn shadows(&self, k: &Pubkey) -> bool {
        (0..self.n_pools).any(|p| (0..self.n_mints).any(|m| fake_vault(p, m) == *k))
    }

    /// What an account of pool `p` corresponds to in pool `q`.
    fn counterpart(&self, k: &Pubkey, p: u64, q: u64) -> Option<Pubkey> {
        if *k == pool_key(p) {
            return Some(pool_key(q));
        }
        if *k == signer_pda(p) {
            return Some(signer_pda(q));
        }
        if *k == lp_mint(p) {
            return Some(lp_mint(q));
        }
        if let Some(m) = (0..self.n_mints).find(|m| *k == vault(p, *m)) {
            return Some(vault(q, m));
        }
        let toll = self.st.pools.get(&p).map(|x| x.toll_wallet);
        if toll == Some(*k) {
            return Some(self.st.pools.get(&q).map_or(toll_wallet(0, q), |x| x.toll_wallet));
        }
        (0..self.n_actors).find_map(|a| {
            if *k == lp_wallet(a, p) {
                Some(lp_wallet(a, q))
            } else if *k == toll_wallet(a, p) {
                Some(toll_wallet(a, q))
            } else {
                None
            }
        })
    }

    /// The upgrade authority of the program changes hands.
    fn rotate(&mut self, to: u64) {
        if self.st.upgrade == NOBODY {
            // for ever
            return;
        }
        self.st.upgrade = to;
        let acc = self.bank.get_mut(&self.programdata).unwrap();
        if to == NOBODY {
            acc.data[12] = 0;
            return;
        }
        acc.data[13..45].copy_from_slice(actor(to).as_ref());
    }

    /// LP tokens minted and vaults filled before the pool exists, as when a
    /// pool of an older program is taken over.
    fn preseed(&mut self, step: &Step) {
        let p = step.arg(0) % self.n_pools;
        let to = step.arg(1) % self.n_actors;
        if self.st.pools.contains_key(&p) || supply(&self.bank, p) > 0 || step.arg(2) == 0 {
            return;
        }
        let mut add = |k: Pubkey, m: Pubkey, n: u64| {
            let mut w = match wallet_of(&self.bank, k) {
                Some(w) => w,
                None => return,
            };
            w.amount += n;
            let acc = self.bank.get_mut(&k).unwrap();
            sim_core::spl_token::state::Account::pack(w, &mut acc.data).unwrap();
            let mut s = mint_of(&self.bank, m).unwrap();
            s.supply += n;
            let acc = self.bank.get_mut(&m).unwrap();
            sim_core::spl_token::state::Mint::pack(s, &mut acc.data).unwrap();
        };
        add(lp_wallet(to, p), lp_mint(p), step.arg(2) % (1 << 60));
        for m in 0..self.n_mints {
            // within what a mint can hold
            add(vault(p, m), mint(m), step.arg(3 + m as usize) % (1 << 56));
        }
    }

    fn pool_of(&self, k: &Pubkey) -> Option<u64> {
        (0..self.n_pools).find(|p| pool_key(*p) == *k)
    }

    fn audit(
        &mut self,
        before: &Bank,
        changed: &[Pubkey],
        built: &Built,
        step: &Step,
        stats: &mut Stats,
        out: &mut Vec<Violation>,
    ) {
        let metas = &built.ix.accounts;
        let at = |i: usize| metas[i].pubkey;
        let mut bad = |tags: &[&'static str], kind: &str, detail: String| {
            out.push(v(tags, kind, format!("{step} at slot {}: {detail}", before.slot)));
        };
        // by how much each token account may have changed
        let mut moved: BTreeMap<Pubkey, i128> = BTreeMap::new();
        let mut supply_moved: BTreeMap<Pubkey, i128> = BTreeMap::new();
        let mut touched_pool = None;
        // accounts which are not token accounts, allowed to change
        let mut others: Vec<Pubkey> = vec![];
        let money: &[&'static str] = match &built.sem {
            Sem::Deposit { .. } => &["C21", "C24", "C31"],
            Sem::Redeem { .. } => &["C21", "C25", "C31"],
            Sem::Swap { .. } => &["C21", "C22", "C27", "C31"],
            _ => &["C21", "C31"],
        };
        let minting: &[&'static str] = match &built.sem {
            Sem::Deposit { .. } => &["C21", "C23", "C24", "C31"],
            Sem::Redeem { .. } => &["C21", "C23", "C25", "C31"],
            Sem::Swap { .. } => &["C21", "C23", "C27", "C31"],
            _ => &["C21", "C23", "C31"],
        };
        match &built.sem {
            Sem::CreateToll { .. } | Sem::CreateSettings { .. } => {
                others = vec![at(0), at(4)];
            }
            Sem::Discount { .. } => others = vec![at(0), at(1)],
            Sem::Prefund { to } => others = vec![at(0), *to],
            Sem::CreatePool { .. } => {
                others = vec![at(0)];
                touched_pool = self.pool_of(&at(1));
            }
            Sem::Fee { .. } => touched_pool = self.pool_of(&at(1)),
            Sem::Plain { from, to, amount } => {
                *moved.entry(*from).or_default() -= *amount as i128;
                *moved.entry(*to).or_default() += *amount as i128;
            }
            Sem::Burn { p, from, amount } => {
                *moved.entry(*from).or_default() -= *amount as i128;
                *supply_moved.entry(lp_mint(*p)).or_default() -= *amount as i128;
            }
            Sem::Deposit { .. } | Sem::Redeem { .. } => touched_pool = self.pool_of(&at(1)),
            Sem::Swap { .. } => touched_pool = self.pool_of(&at(2)),
        }

        // no pool but the one named, and of that only what the call is about
        for k in changed {
            let p = match self.pool_of(k) {
                Some(p) => p,
                None => continue,
            };
            let b = view_pool(before, k);
            let a = view_pool(&self.bank, k);
            if touched_pool != Some(p) {
                bad(&["C31", "C21"], "foreign-pool-changed", format!("pool {p} changed"));
                continue;
            }
            let (mut b, a) = match (b, a) {
                (Some(b), Some(a)) => (b, a),
                (None, Some(_)) if matches!(built.sem, Sem::CreatePool { .. }) => continue,
                _ => {
                    bad(&["C30", "C31"], "pool-unreadable", format!("pool {p}"));
                    continue;
                }
            };
            match &built.sem {
                Sem::Fee { .. } => b.fee = a.fee,
                Sem::Deposit { .. } | Sem::Redeem { .. } | Sem::Swap { .. } => {
                    for i in 0..(b.dim as usize).min(4) {
                        b.reserves[i].tokens = a.reserves[i].tokens;
                    }
                    if let (Some(b), Some(a)) = (&mut b.stable, &a.stable) {
                        b.1 = a.1;
                    }
                }
                _ => (),
            }
            if b != a {
                bad(&["C29", "C31"], "pool-settings-changed", format!("pool {p}: {b:?} became {a:?}"));
            }
        }

        match &built.sem {
            Sem::CreateToll { .. } | Sem::CreateSettings { .. } => {
                let toll = matches!(built.sem, Sem::CreateToll { .. });
                let (k, name) =
                    if toll { (toll_pda(), "ProgramToll") } else { (settings_pda(), "DiscountSettings") };
                let named = self.bank.get(&k).and_then(|a| wire::authority(&a.data, name));
                // a substituted authority is what the signer asked for
                let asked = at(3);
                if named != Some(asked) {
                    bad(&["C29"], "authority-wrong", format!("{name} names {named:?}, asked for {asked}"));
                }
                if !built.signers.contains(&actor(self.st.upgrade)) {
                    bad(&["C29"], "authority-by-stranger", format!("{name} created by {}", at(0)));
                }
                let who = (0..self.n_actors).find(|a| actor(*a) == asked).unwrap_or(NOBODY);
                if toll {
                    self.st.toll = Some(who);
                } else {
                    self.st.settings = Some(who);
                }
            }
            Sem::Discount { u, amount, until } => {
                let k = discount_pda(*u);
                let acc = self.bank.get(&k);
                let got = acc.and_then(|a| wire::discount(&a.data));
                if got != Some((*amount, *until)) || acc.map(|a| a.owner) != Some(program()) {
                    bad(&["C28"], "discount-wrong", format!("stored {got:?}"));
                }
                self.st.discounts.insert(*u, (*amount, *until));
            }
            Sem::Fee { fee, .. } => {
                // of the pool named by the transaction
                let q = touched_pool.unwrap_or(u64::MAX);
                let got = self.view(q).map(|v| v.fee);
                if got != Some(*fee) {
                    bad(&["C29"], "fee-wrong", format!("fee is {got:?}, asked for {fee}"));
                }
                if let Some(pool) = self.st.pools.get_mut(&q) {
                    pool.fee = *fee;
                    if at(0) != actor(pool.admin) {
                        bad(&["C29"], "fee-by-stranger", format!("fee of pool {q} set by {}", at(0)));
                    }
                }
            }
            Sem::CreatePool { p, admin, mints, amp } => {
                let vaults: Vec<Pubkey> = metas[8..].iter().map(|m| m.pubkey).collect();
                // which reserves it has is up to the vaults given
                let mints: Vec<u64> = vaults
                    .iter()
                    .map(|k| wallet_of(before, *k).map_or(Pubkey::default(), |w| w.mint))
                    .map(|m| (0..self.n_mints).find(|n| mint(*n) == m).unwrap_or(0))
                    .collect();
                self.audit_created(before, *p, *admin, &mints, *amp, &vaults, at(4), &mut bad);
                self.st.pools.insert(
                    *p,
                    MPool {
                        admin: *admin,
                        mints: mints.clone(),
                        amp: *amp,
                        fee: 0,
                        toll_wallet: at(4),
                        donated: vec![0; mints.len()],
                    },
                );
                stats.hit(if *amp == 0 { "probe.const_prod_pool" } else { "probe.stable_pool" });
            }
            Sem::Deposit { p, max } => {
                let (b, a) = (view_pool(before, &pool_key(*p)), self.view(*p));
                if let (Some(b), Some(a), Some(pool)) = (b, a, self.st.pools.get(p)) {
                    let (rb, ra) = (b.tokens(), a.tokens());
                    let s = supply(before, *p);
                    let minted = supply(&self.bank, *p) as i128 - s as i128;
                    for (i, m) in pool.mints.iter().enumerate() {
                        let d = ra[i] as i128 - rb[i] as i128;
                        let w = (0..pool.mints.len())
                            .find(|j| at(6 + 2 * j) == vault(*p, *m))
                            .map_or_else(Pubkey::default, |j| at(7 + 2 * j));
                        *moved.entry(w).or_default() -= d;
                        *moved.entry(vault(*p, *m)).or_default() += d;
                    }
                    *moved.entry(at(4)).or_default() += minted;
                    supply_moved.insert(lp_mint(*p), minted);
                    judge_deposit(&rb, &ra, s, minted, max, stats, &mut bad);
                    self.judge_value(*p, &rb, s, stats, &mut bad);
                }
            }
            Sem::Redeem { p, lp, min } => {
                let (b, a) = (view_pool(before, &pool_key(*p)), self.view(*p));
                if let (Some(b), Some(a), Some(pool)) = (b, a, self.st.pools.get(p)) {
                    let (rb, ra) = (b.tokens(), a.tokens());
                    let s = supply(before, *p);
                    for (i, m) in pool.mints.iter().enumerate() {
                        let d = rb[i] as i128 - ra[i] as i128;
                        let w = (0..pool.mints.len())
                            .find(|j| at(6 + 2 * j) == vault(*p, *m))
                            .map_or_else(Pubkey::default, |j| at(7 + 2 * j));
                        *moved.entry(w).or_default() += d;
                        *moved.entry(vault(*p, *m)).or_default() -= d;
                        let owner = wallet_of(before, w).map(|w| w.owner);
                        if owner.is_some() && owner != Some(at(0)) {
                            bad(&["C25", "C31"], "redeemed-to-another", format!("{owner:?}"));
                        }
                    }
                    *moved.entry(at(4)).or_default() -= *lp as i128;
                    supply_moved.insert(lp_mint(*p), -(*lp as i128));
                    judge_redeem(&rb, &ra, s, *lp, min, stats, &mut bad);
                    self.judge_value(*p, &rb, s, stats, &mut bad);
                }
            }
            Sem::Swap { p, user, s, b, sell, min } => {
                let (vb, va) = (view_pool(before, &pool_key(*p)), self.view(*p));
                if let (Some(vb), Some(va), Some(pool)) = (vb, va, self.st.pools.get(p).cloned()) {
                    let (rb, ra) = (vb.tokens(), va.tokens());
                    let lp = supply(before, *p);
                    let toll = supply(&self.bank, *p) as i128 - lp as i128;
                    let bought = rb[*b] as i128 - ra[*b] as i128;
                    *moved.entry(at(4)).or_default() -= *sell as i128;
                    *moved.entry(vault(*p, pool.mints[*s])).or_default() += *sell as i128;
                    *moved.entry(vault(*p, pool.mints[*b])).or_default() -= bought;
                    *moved.entry(at(5)).or_default() += bought;
                    *moved.entry(at(9)).or_default() += toll;
                    supply_moved.insert(lp_mint(*p), toll);
                    let mut expected = rb.clone();
                    expected[*s] = expected[*s].saturating_add(*sell);
                    expected[*b] = ra[*b];
                    if expected != ra || bought < 0 {
                        bad(
                            &["C21", "C22", "C27"],
                            "swap-reserves",
                            format!("reserves {rb:?} became {ra:?} by selling {sell}"),
                        );
                    } else {
                        let rule = self.swap_rule(*p, *user, *sell, before.slot);
                        let discounted = self.discount_of(*user, before.slot) > 0;
                        if discounted && rule.fee > 0 {
                            stats.hit("probe.discounted_swap");
                        }
                        let ctx = SwapSeen {
                            pool: &pool,
                            rb: &rb,
                            ra: &ra,
                            s: *s,
                            b: *b,
                            sell: *sell,
                            min: *min,
                            bought: bought as u64,
                            toll,
                            lp,
                            rule,
                            discounted: self.st.discounts.contains_key(user),
                        };
                        judge_swap(&ctx, stats, &mut bad);
                    }
                }
            }
            _ => (),
        }

        // tokens went exactly where they were meant to
        for k in changed {
            if let (Some(wb), wa) = (wallet_of(before, *k), wallet_of(&self.bank, *k)) {
                let wa = match wa {
                    Some(w) => w,
                    None => {
                        bad(&["C21", "C31"], "token-account-gone", format!("{k}"));
                        continue;
                    }
                };
                let mut same = wb;
                same.amount = wa.amount;
                if same != wa {
                    bad(&["C21", "C30", "C31"], "vault-control-changed", format!("{wb:?} became {wa:?}"));
                }
                let d = wa.amount as i128 - wb.amount as i128;
                let own_vault = touched_pool.map_or(false, |p| wb.owner == signer_pda(p));
                if d < 0 && !own_vault && !built.signers.contains(&wb.owner) {
                    bad(&["C31", "C25"], "debited-without-signature", self.name(k));
                }
                let want = moved.get(k).copied().unwrap_or(0);
                if d != want {
                    bad(money, "tokens-moved", format!("{} changed by {d}, expected {want}", self.name(k)));
                }
            } else if let (Some(mb), Some(ma)) = (mint_of(before, *k), mint_of(&self.bank, *k)) {
                let mut same = mb;
                same.supply = ma.supply;
                let d = ma.supply as i128 - mb.supply as i128;
                let want = supply_moved.get(k).copied().unwrap_or(0);
                if same != ma || d != want {
                    bad(minting, "mint-changed", format!("{} changed by {d}, expected {want}", self.name(k)));
                }
            } else if self.pool_of(k).is_none() && !others.contains(k) {
                let discount = (0..self.n_actors).any(|a| discount_pda(a) == *k);
                let tags: &[&'static str] =
                    if discount { &["C28", "C29", "C31"] } else { &["C29", "C31"] };
                bad(tags, "foreign-account-changed", self.name(k));
            }
        }
        for (k, want) in &moved {
            if *want != 0 && !changed.contains(k) {
                bad(money, "tokens-moved", format!("{} unchanged, expected {want}", self.name(k)));
            }
        }

        // every vault holds its reserve and what was given away to it
        if let Sem::Plain { to, amount, .. } = &built.sem {
            for (p, pool) in self.st.pools.iter_mut() {
                if let Some(i) = pool.mints.iter().position(|m| vault(*p, *m) == *to) {
                    pool.donated[i] += *amount as u128;
                }
            }
        }
        // tokens paid out to a vault by the choice of the receiver
        let chosen: Vec<Pubkey> = match &built.sem {
            Sem::Swap { .. } => vec![at(5)],
            Sem::Redeem { .. } => (7..metas.len()).step_by(2).map(at).collect(),
            _ => vec![],
        };
        let n_mints = self.n_mints;
        for k in chosen {
            let hit = (0..self.n_pools)
                .flat_map(|p| (0..n_mints).map(move |m| (p, m)))
                .find(|(p, m)| vault(*p, *m) == k);
            if let Some((p, m)) = hit {
                let held = balance(&self.bank, k) as u128;
                let view = self.view(p);
                if let (Some(pool), Some(view)) = (self.st.pools.get_mut(&p), view) {
                    if let Some(i) = pool.mints.iter().position(|x| *x == m) {
                        let extra = held.saturating_sub(view.tokens()[i] as u128);
                        if extra >= pool.donated[i] {
                            stats.hit("probe.paid_out_to_a_vault");
                            pool.donated[i] = extra;
                        }
                    }
                }
            }
        }
        for (p, pool) in &self.st.pools {
            let view = match view_pool(&self.bank, &pool_key(*p)) {
                Some(v) => v,
                None => continue,
            };
            for (i, m) in pool.mints.iter().enumerate() {
                let held = balance(&self.bank, vault(*p, *m)) as u128;
                let want = view.reserves[i].tokens as u128 + pool.donated[i];
                if held != want {
                    bad(
                        &["C21"],
                        "vault-off",
                        format!(
                            "pool {p} vault {i} holds {held}, reserve {} and {} given away to it",
                            view.reserves[i].tokens, pool.donated[i]
                        ),
                    );
                }
            }
        }
    }

    fn name(&self, k: &Pubkey) -> String {
        for a in 0..self.n_actors {
            if actor(a) == *k {
                return format!("actor {a}");
            }
            if discount_pda(a) == *k {
                return format!("discount of {a}");
            }
            for m in 0..self.n_mints {
                if wallet(a, m) == *k {
                    return format!("wallet of {a} for mint {m}");
                }
            }
            for p in 0..self.n_pools {
                if lp_wallet(a, p) == *k {
                    return format!("lp wallet of {a} in pool {p}");
                }
                if toll_wallet(a, p) == *k {
                    return format!("toll wallet of {a} in pool {p}");
                }
            }
        }
        for p in 0..self.n_pools {
            if pool_key(p) == *k {
                return format!("pool {p}");
            }
            if lp_mint(p) == *k {
                return format!("lp mint {p}");
            }
            for m in 0..self.n_mints {
                if vault(p, m) == *k {
                    return format!("vault of pool {p} for mint {m}");
                }
            }
        }
        k.to_string()
    }

    #[allow(clippy::too_many_arguments)]
    fn audit_created(
        &self,
        before: &Bank,
        p: u64,
        admin: u64,
        mints: &[u64],
        amp: u64,
        vaults: &[Pubkey],
        tollw: Pubkey,
        bad: &mut dyn FnMut(&[&'static str], &str, String),
    ) {
        let view = match self.view(p) {
            Some(v) => v,
            None => return bad(&["C30"], "pool-unreadable", format!("pool {p}")),
        };
        let mut want = vec![];
        for k in vaults {
            let w = match wallet_of(before, *k) {
                Some(w) => w,
                None => return bad(&["C30"], "pool-created-wrong", format!("{k} is no vault")),
            };
            want.push((w.amount, w.mint, *k));
        }
        let got: Vec<_> =
            view.reserves.iter().take(view.dim as usize).map(|r| (r.tokens, r.mint, r.vault)).collect();
        let unused = view.reserves.iter().skip(view.dim as usize).all(|r| {
            r.tokens == 0 && r.mint == Pubkey::default() && r.vault == Pubkey::default()
        });
        let fine = got == want
            && unused
            && view.dim == mints.len() as u64
            && view.admin == actor(admin)
            && view.signer == signer_pda(p)
            && view.mint == lp_mint(p)
            && view.toll_wallet == tollw
            && view.fee == 0
            && view.stable.map_or(0, |s| s.0) == amp;
        if !fine {
            let mut tags = vec!["C30"];
            if got.iter().map(|r| r.0).ne(want.iter().map(|w| w.0)) {
                tags.push("C21");
            }
            if view.fee != 0 {
                tags.push("C27");
            }
            if view.admin != actor(admin) {
                tags.push("C29");
            }
            bad(&tags, "pool-created-wrong", format!("{view:?}"));
        }
        // whoever controls the toll wallet is named by the toll
        let w = wallet_of(before, tollw);
        let named = before.get(&toll_pda()).and_then(|a| wire::authority(&a.data, "ProgramToll"));
        if w.map(|w| (w.mint, Some(w.owner))) != Some((lp_mint(p), named)) {
            bad(&["C30", "C27"], "toll-wallet-wrong", format!("toll wallet {w:?}"));
        }
        if amp != 0 {
            check_stored(amp, &view, bad);
        }
    }

    /// The value of an LP token never falls by a deposit or redemption.
    fn judge_value(
        &self,
        p: u64,
        rb: &[u64],
        s: u64,
        stats: &mut Stats,
        bad: &mut dyn FnMut(&[&'static str], &str, String),
    ) {
        let view = match self.view(p) {
            Some(v) => v,
            None => return,
        };
        let ra = view.tokens();
        let after = supply(&self.bank, p);
        stats.checks += 1;
        if s > 0 && after > 0 {
            for i in 0..rb.len() {
                // r' / s' >= r / s
                if (ra[i] as u128 * s as u128) < rb[i] as u128 * after as u128 {
                    bad(
                        if after > s { &["C23", "C24"] } else { &["C23", "C25"] },
                        "share-diluted",
                        format!(
                            "reserves {rb:?} of {s} lp tokens became {ra:?} of {after}: less of {i} for each"
                        ),
                    );
                    break;
                }
            }
        }
        if let Some((amp, _)) = view.stable {
            check_stored(amp, &view, bad);
        }
    }

    fn note_state(&self, step: &Step, stats: &mut Stats) {
        let mut h = sim_core::Fnv::default();
        h.bytes(step.op.as_bytes());
        let bits = |x: u64| (64 - x.leading_zeros()) as u64 / 3;
        for (p, pool) in &self.st.pools {
            if let Some(v) = self.view(*p) {
                for t in v.tokens() {
                    h.u64(bits(t));
                }
                h.u64(bits(supply(&self.bank, *p)));
                h.u64((pool.amp != 0) as u64);
                h.u64(bits(pool.fee));
                h.u64(pool.donated.iter().any(|d| *d > 0) as u64);
                for a in 0..self.n_actors {
                    h.u64((balance(&self.bank, lp_wallet(a, *p)) > 0) as u64);
                }
            }
        }
        for (amount, until) in self.st.discounts.values() {
            h.u64((*amount > 0) as u64 * 2 + (*until >= self.now()) as u64);
        }
        stats.states.insert(h.0);
    }
}

type Bad<'a> = &'a mut dyn FnMut(&[&'static str], &str, String);

/// The stored invariant of a stable pool is that of its reserves.
fn check_stored(amp: u64, view: &PoolView, bad: Bad) {
    let xs = view.tokens();
    let exact = curve::invariant(amp, &xs);
    let stored = match view.stable {
        Some((_, d)) => curve::stored(d),
        None => return,
    };
    if xs.iter().any(|x| *x == 0) {
        if !stored.is_zero() {
            bad(&["C22"], "invariant-off", format!("reserves {xs:?}: stored invariant {}", stored.shr(curve::FRAC)));
        }
        return;
    }
    let (share, tokens) = curve::accuracy(&xs);
    if curve::scaled_product(&xs) * (1.0 + share) < 0.99e-12 {
        bad(&["C22"], "imbalance-allowed", format!("reserves {xs:?} are accepted"));
        return;
    }
    if !curve::converges(amp, &xs) {
        return;
    }
    let slack = ((exact.to_f64() * share) + tokens * (1u64 << curve::FRAC) as f64).min(1e38) as u128;
    let slack = Big::from(slack);
    if stored > exact.add(slack) || stored.add(slack) < exact {
        bad(
            &["C22"],
            "invariant-off",
            format!("reserves {xs:?} amplifier {amp}: stored invariant {}, exact {}", stored.shr(curve::FRAC), exact.shr(curve::FRAC)),
        );
    }
}

fn judge_deposit(
    rb: &[u64],
    ra: &[u64],
    s: u64,
    minted: i128,
    max: &[u64],
    stats: &mut Stats,
    bad: Bad,
) {
    let d: Vec<i128> = ra.iter().zip(rb).map(|(a, b)| *a as i128 - *b as i128).collect();
    let what = format!("deposit of {d:?} (at most {max:?}) into {rb:?}, {s} lp tokens, for {minted}");
    if d.iter().zip(max).any(|(d, m)| *d > *m as i128) {
        bad(&["C26"], "deposit-over-limit", what.clone());
    }
    if minted <= 0 || d.iter().any(|d| *d <= 0) {
        return bad(&["C24", "C23"], "deposit-for-nothing", what);
    }
    if s == 0 {
        stats.hit("probe.first_deposit");
        let least = *max.iter().min().unwrap() as i128;
        if minted != least || d.iter().zip(max).any(|(d, m)| *d != *m as i128) {
            bad(&["C24", "C23"], "first-deposit-wrong", what);
        }
        return;
    }
    stats.hit("probe.later_deposit");
    // never more of the pool than was put into each of its reserves
    for i in 0..d.len() {
        if minted as u128 * rb[i] as u128 > d[i] as u128 * s as u128 {
            bad(&["C23", "C24"], "deposit-dilutes", format!("{what}: reserve {i} is diluted"));
            break;
        }
    }
    // never less than that, either, but for rounding
    if rb.iter().all(|r| *r > 0) {
        let fair = (0..d.len()).map(|i| d[i] as u128 * s as u128 / rb[i] as u128).min().unwrap();
        if (minted as u128) + 1 < fair {
            bad(&["C24"], "deposit-underpaid", format!("{what}: {fair} would be fair"));
        }
        let b = deposit_bounds(rb, max);
        for i in 0..d.len() {
            let x = d[i] as u128;
            if x < b.lo[i] || x > b.hi[i] {
                bad(
                    &["C24"],
                    "deposit-out-of-proportion",
                    format!("{what}: reserve {i} should get between {} and {}", b.lo[i], b.hi[i]),
                );
                break;
            }
        }
        if b.tight != 0 {
            stats.hit("probe.limit_not_of_first_reserve");
        }
    }
}

fn judge_redeem(rb: &[u64], ra: &[u64], s: u64, lp: u64, min: &[u64], stats: &mut Stats, bad: Bad) {
    let d: Vec<i128> = rb.iter().zip(ra).map(|(b, a)| *b as i128 - *a as i128).collect();
    let what = format!("redemption of {lp} of {s} lp tokens for {d:?} of {rb:?} (at least {min:?})");
    if lp > s || s == 0 {
        return bad(&["C25", "C23"], "redeemed-too-many", what);
    }
    if d.iter().zip(min).any(|(d, m)| *d < *m as i128) {
        bad(&["C26"], "redeem-below-limit", what.clone());
    }
    for i in 0..d.len() {
        if d[i] < 0 || d[i] as u128 > mul_div(rb[i], lp, s) {
            bad(&["C25", "C23"], "redeemed-too-much", format!("{what}: reserve {i}"));
            break;
        }
        if (d[i] as u128) < redeem_least(rb[i], lp, s) {
            let tags: &[&'static str] = if lp == s { &["C25", "C32"] } else { &["C25"] };
            bad(tags, "redeemed-too-little", format!("{what}: reserve {i}"));
            break;
        }
    }
    if lp == s {
        stats.hit("probe.everything_redeemed");
    }
}

struct SwapSeen<'a> {
    pool: &'a MPool,
    rb: &'a [u64],
    ra: &'a [u64],
    s: usize,
    b: usize,
    sell: u64,
    min: u64,
    bought: u64,
    toll: i128,
    lp: u64,
    rule: SwapRule,
    /// The trader has a discount account, whatever its state.
    discounted: bool,
}

fn judge_swap(x: &SwapSeen, stats: &mut Stats, bad: Bad) {
    let SwapRule { fee, traded } = x.rule;
    let what = format!(
        "sold {} (fee {fee} by the rules) for {} (at least {}), reserves {:?}, amplifier {}, {} lp tokens, toll {}",
        x.sell, x.bought, x.min, x.rb, x.pool.amp, x.lp, x.toll
    );
    let n = x.rb.len();
    let fee_tags: &[&'static str] = if x.discounted { &["C27", "C28"] } else { &["C27"] };
    if x.bought < x.min {
        bad(&["C26"], "below-minimum", what.clone());
    }
    if fee > 0 {
        stats.hit("probe.fee_paid");
    }

    if curve::k(x.rb).to_f64() > 6.3e39 {
        stats.hit("probe.beyond_decimal");
    }
    // the curve
    if x.pool.amp == 0 {
        stats.hit("probe.const_prod_swap");
        let exact = curve::const_prod(x.rb, x.s, x.b, traded);
        // the quotient is known to 18 decimals
        if x.bought > exact {
            let p = (0..n)
                .filter(|i| *i != x.b)
                .map(|i| Big::from(x.rb[i]).add(if i == x.s { traded } else { 0 }))
                .fold(Big::from(1u64), |p, x| p.mul(x));
            let mut sold = x.rb.to_vec();
            sold[x.s] += traded;
            sold[x.b] -= x.bought;
            let (k, k2) = (curve::k(x.rb), curve::k(&sold));
            if k2.add(p.div(WAD)).add(1u64) < k {
                let tags: Vec<&'static str> = [&["C22"], fee_tags].concat();
                bad(&tags, "bought-too-much", format!("{what}: {exact} at most"));
            }
        }
        if x.bought + 1 < exact {
            let tags: Vec<&'static str> = [&["C22"], fee_tags].concat();
            bad(&tags, "bought-too-little", format!("{what}: {exact} by the rules"));
        }
        let (k, k2) = (curve::k(x.rb), curve::k(x.ra));
        if k2.add(k.shr(59)).add(1u64) < k {
            bad(&["C22", "C23"], "product-fell", format!("{what}: product {k} became {k2}"));
        }
    } else {
        stats.hit("probe.stable_swap");
        judge_stable(x, traded, &what, fee_tags, stats, bad);
    }

    // the toll
    let due = ((fee as u128 * 333_333 * 2 / n as u128) + 1_000_000) / 2_000_000;
    // m / lp <= due / reserve
    let r = x.ra[x.s];
    let most = mul_div(x.lp, due as u64, r);
    let least = most.saturating_sub(x.lp as u128 / WAD as u128 + 2);
    if x.toll < 0 || x.toll as u128 > most {
        bad(&["C27", "C23"], "toll-too-high", format!("{what}: at most {most}"));
    } else if (x.toll as u128) < least {
        bad(&["C27"], "toll-too-low", format!("{what}: at least {least}"));
    }
    if x.toll > 0 {
        stats.hit("probe.toll_paid");
    }

    // what an LP token is worth
    if x.pool.amp != 0 {
        judge_stable_share(x, most, &what, stats, bad);
    } else {
        let s2 = (x.lp as i128 + x.toll) as u64;
        let a = curve::k(x.ra).mul(Big::from(x.lp).pow(n as u32));
        let b = curve::k(x.rb).mul(Big::from(s2).pow(n as u32));
        if a.add(b.shr(50)) < b {
            bad(&["C23"], "share-diluted", format!("{what}: reserves {:?} afterwards", x.ra));
        }
    }
}

/// What the stable curve gives for `traded`, as far as the precision of the
/// program can tell: at least and at most.
fn stable_bounds(amp: u64, rb: &[u64], s: usize, b: usize, traded: u64) -> (u64, u64) {
    let d = curve::invariant(amp, rb);
    let (share, tokens) = curve::accuracy(rb);
    let unit = (1u64 << curve::FRAC) as f64;
    let slack = Big::from((d.to_f64() * share + tokens * unit).min(1e38) as u128);
    let others: Vec<u64> = (0..rb.len())
        .filter(|i| *i != b)
        .map(|i| rb[i] + if i == s { traded } else { 0 })
        .collect();
    let dy = (curve::swap_accuracy(amp, &others, d.to_f64() / unit) * unit).min(1e30) as u128 + 1;
    let held = Big::from(rb[b]).shl(curve::FRAC);
    let low_d = if d > slack { d.sub(slack) } else { Big::zero() };
    let least_left = curve::balance_for(amp, &others, low_d, rb[b]);
    let most_left = curve::balance_for(amp, &others, d.add(slack), rb[b]).add(dy);
    // the smallest balance is the most that can be bought
    let most = if least_left > Big::from(dy) { held.sub(least_left.sub(dy)) } else { held };
    let least = if held > most_left { held.sub(most_left) } else { Big::zero() };
    let least = least.shr(curve::FRAC).to_u64().unwrap_or(0);
    (least.saturating_sub(1), most.shr(curve::FRAC).to_u64().unwrap_or(u64::MAX))
}

/// Whether the fee makes up for the toll: what is left of the invariant for
/// each LP token does not fall.
fn judge_stable_share(x: &SwapSeen, most: u128, what: &str, stats: &mut Stats, bad: Bad) {
    let amp = x.pool.amp;
    let (db, da) = (curve::invariant(amp, x.rb), curve::invariant(amp, x.ra));
    let s2 = Big::from((x.lp as i128 + x.toll) as u64);
    let (e1, t1) = curve::accuracy(x.rb);
    let (e2, t2) = curve::accuracy(x.ra);
    let unit = (1u64 << curve::FRAC) as f64;
    let slack = db.to_f64() * (e1 + e2) + (t1 + t2 + 2.0) * unit;
    let slack = Big::from(slack.min(1e38) as u128);
    if da.add(slack).mul(x.lp) >= db.mul(s2) {
        return;
    }
    if da.add(slack) < db {
        // no matter the toll
        return bad(&["C22", "C23"], "invariant-fell", format!("{what}: {db} became {da}"));
    }
    if x.toll as u128 <= most {
        // The toll counts every reserve for the same, whatever its balance.
        stats.hit("known.stable_toll");
        return;
    }
    bad(&["C23"], "share-diluted", format!("{what}: reserves {:?} afterwards", x.ra));
}

fn judge_stable(
    x: &SwapSeen,
    traded: u64,
    what: &str,
    fee_tags: &[&'static str],
    stats: &mut Stats,
    bad: Bad,
) {
    let amp = x.pool.amp;
    let (least, most) = stable_bounds(amp, x.rb, x.s, x.b, traded);
    let d = curve::invariant(amp, x.rb);
    if x.bought > 2 {
        // beyond what the curve gives, by the lack of precision only
        let mut ra = x.rb.to_vec();
        ra[x.s] += traded;
        ra[x.b] -= x.bought - 2;
        let fell = Big::from(d.to_f64() as u128 >> 30).add(2u64 << curve::FRAC);
        if ra[x.b] > 0 && x.bought <= most && curve::invariant(amp, &ra).add(fell) < d {
            stats.hit("known.stable_imbalance");
        }
    }
    if x.bought > most {
        let tags: Vec<&'static str> = [&["C22"], fee_tags].concat();
        bad(&tags, "bought-too-much", format!("{what}: {most} at most"));
    }
    // an invariant not approached in time is too high, not too low
    if x.bought < least && curve::converges(amp, x.rb) {
        let tags: Vec<&'static str> = [&["C22"], fee_tags].concat();
        bad(&tags, "bought-too-little", format!("{what}: at least {least}"));
    }
}
