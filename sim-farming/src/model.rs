//! What a farmer is owed, from first principles: for every slot, the tokens
//! released in it times the share of the farmer in the snapshot governing it.

/// A snapshot: slot it starts at, tokens staked.
pub type Snap = (u64, u64);
/// A harvest period: first slot, last slot, tokens per slot.
pub type Period = (u64, u64, u64);

/// Inclusive bounds on a credited amount.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Bounds {
    pub lo: u128,
    pub hi: u128,
}

const WAD: u128 = 1_000_000_000_000_000_000;

/// Exact amounts are kept with 64 fractional bits.
#[derive(Clone, Copy, Debug, Default)]
pub struct Owed {
    whole: u128,
    frac: u128,
    /// What is left if the share is known to 18 decimals and the harvest of
    /// each snapshot is rounded down.
    least: u128,
}

impl Owed {
    pub fn bounds(&self) -> Bounds {
        let hi = self.whole + (self.frac >> 64);
        Bounds { lo: self.least, hi }
    }
    pub fn join(&mut self, o: &Owed) {
        self.whole += o.whole;
        self.frac += o.frac;
        self.least += o.least;
    }
}

/// Tokens released in the given slots.
pub fn released(periods: &[Period], from: u64, to: u64) -> u128 {
    if from > to {
        return 0;
    }
    periods
        .iter()
        .map(|(s, e, tps)| {
            let a = (*s).max(from);
            let b = (*e).min(to);
            if a > b {
                0
            } else {
                (b - a + 1) as u128 * *tps as u128
            }
        })
        .sum()
}

/// What `staked` tokens are owed for the slots from..=to.
///
/// `snaps` are the remembered snapshots in order, each governs the slots from
/// its own start until the next one starts.
pub fn owed(snaps: &[Snap], periods: &[Period], staked: u64, from: u64, to: u64) -> Owed {
    let mut out = Owed::default();
    if staked == 0 || from > to {
        return out;
    }
    let first = snaps.partition_point(|s| s.0 <= from).saturating_sub(1);
    for (i, (start, total)) in snaps.iter().enumerate().skip(first) {
        if *start > to {
            break;
        }
        let a = (*start).max(from);
        let b = snaps.get(i + 1).map_or(to, |n| to.min(n.0 - 1));
        if a > b || *total == 0 {
            continue;
        }
        let t = released(periods, a, b);
        if t == 0 {
            continue;
        }
        let total = *total as u128;
        let prod = match t.checked_mul(staked as u128) {
            Some(p) => p,
            None => {
                // far beyond any supply; only bounded loosely
                let q = t / total * staked as u128;
                out.whole += q + staked as u128 * 2;
                continue;
            }
        };
        out.whole += prod / total;
        out.frac += ((prod % total) << 64) / total;
        let share = staked as u128 * WAD / total;
        out.least += t.checked_mul(share).map_or((prod / total).saturating_sub(2 * (t / WAD + 1)), |x| x / WAD);
    }
    out
}
