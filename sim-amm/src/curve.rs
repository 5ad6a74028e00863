//! What the curves prescribe, computed independently of the program with
//! exact integers: nothing here rounds, except where a result is cut to a
//! fraction of 2^-20 of a token.

use sim_core::Big;

pub const FRAC: u32 = 20;

fn product(xs: &[u64]) -> Big {
    xs.iter().fold(Big::from(1u64), |p, x| p.mul(*x))
}

/// The constant product.
pub fn k(xs: &[u64]) -> Big {
    product(xs)
}

/// Least and most that may be bought, the most being exact: selling `t` for
/// the token at `b` leaves the product where it was or above.
pub fn const_prod(xs: &[u64], s: usize, b: usize, t: u64) -> u64 {
    let rest = xs
        .iter()
        .enumerate()
        .filter(|(i, _)| *i != b)
        .map(|(i, x)| Big::from(*x).add(if i == s { t } else { 0 }))
        .fold(Big::from(1u64), |p, x| p.mul(x));
    let left = product(xs).div_ceil(rest);
    Big::from(xs[b]).sub(left).to_u64().unwrap_or(0)
}

/// A n^n and n^n.
fn coefficients(amp: u64, n: usize) -> (Big, Big) {
    let nn = Big::from(n as u64).pow(n as u32);
    (Big::from(amp).mul(nn), nn)
}

/// Whether D is at or below the root of
/// D^(n+1) + (A n^n - 1) n^n P D = A n^2n S P,
/// for balances and D in the same unit.
fn at_most(amp: u64, xs: &[Big], d: Big) -> bool {
    let n = xs.len();
    let (ann, nn) = coefficients(amp, n);
    let sum = xs.iter().fold(Big::zero(), |s, x| s.add(*x));
    let p = xs.iter().fold(nn, |p, x| p.mul(*x));
    let left = d.pow(n as u32 + 1).add(ann.sub(1u64).mul(p).mul(d));
    left <= ann.mul(p).mul(sum)
}

/// Largest integer in lo..=hi for which `f` holds; it holds up to some point.
fn bisect(mut lo: Big, mut hi: Big, f: impl Fn(Big) -> bool) -> Big {
    while lo < hi {
        let mid = lo.add(hi).add(1u64).shr(1);
        if f(mid) {
            lo = mid;
        } else {
            hi = mid.sub(1u64);
        }
    }
    lo
}

fn scaled(xs: &[u64]) -> Vec<Big> {
    xs.iter().map(|x| Big::from(*x).shl(FRAC)).collect()
}

/// The invariant of the stable curve, in units of 2^-20, rounded down.
pub fn invariant(amp: u64, xs: &[u64]) -> Big {
    if xs.iter().any(|x| *x == 0) {
        return Big::zero();
    }
    let xs = scaled(xs);
    let sum = xs.iter().fold(Big::zero(), |s, x| s.add(*x));
    bisect(Big::zero(), sum, |d| at_most(amp, &xs, d))
}

/// Least balance of the bought token, in units of 2^-20, which keeps the
/// invariant at `d` with the other balances as given.
pub fn balance_for(amp: u64, others: &[u64], d: Big, upto: u64) -> Big {
    let mut xs = scaled(others);
    xs.push(Big::zero());
    let last = xs.len() - 1;
    let xs = std::cell::RefCell::new(xs);
    // `d` is above the root up to some balance
    let below = bisect(Big::zero(), Big::from(upto).shl(FRAC), |y| {
        let mut xs = xs.borrow_mut();
        xs[last] = y;
        y.is_zero() || !at_most(amp, &xs, d)
    });
    below.add(1u64)
}

/// Stored invariant (18 decimals) in units of 2^-20, rounded down.
pub fn stored(limbs: [u64; 3]) -> Big {
    Big::from(limbs[2])
        .shl(64)
        .add(limbs[1])
        .shl(64)
        .add(limbs[0])
        .shl(FRAC)
        .div(1_000_000_000_000_000_000u64)
}

/// Product of the balances, scaled down by thousands until their sum is at
/// most a thousand. The program supports no balances for which it is next to zero.
pub fn scaled_product(xs: &[u64]) -> f64 {
    let sum: f64 = xs.iter().map(|x| *x as f64).sum();
    let mut coef = 1.0;
    while sum / coef > 1000.0 {
        coef *= 1000.0;
    }
    xs.iter().map(|x| *x as f64 / coef).product()
}

/// Whether the program, which works with 18 decimals and 192 bits, has room
/// for these balances. It refuses pools that are out of balance beyond twelve
/// orders of magnitude.
pub fn workable(amp: u64, xs: &[u64]) -> bool {
    let n = xs.len() as i32;
    let nn = (n as f64).powi(n);
    let sum: f64 = xs.iter().map(|x| *x as f64).sum();
    let p = scaled_product(xs);
    p > 1e-9 && amp as f64 * nn * sum * nn * p < 1e38 && converges(amp, xs)
}

/// By how much the program's invariant may be off: as a share of it, and in
/// tokens. It multiplies the scaled down balances one after another, rounding
/// each time to 18 decimals.
pub fn accuracy(xs: &[u64]) -> (f64, f64) {
    let sum: f64 = xs.iter().map(|x| *x as f64).sum();
    let mut coef = 1.0;
    while sum / coef > 1000.0 {
        coef *= 1000.0;
    }
    let (mut p, mut err) = (1.0, 0.0);
    for x in xs {
        let x = *x as f64 / coef;
        err = err * x + p * 1e-18 + 2e-18;
        p *= x;
    }
    (2.0 * err / p + 1e-12, 1.0 + 8.0 * coef / 1e18)
}

/// Whether the program's invariant can be expected to be that accurate.
pub fn converges(amp: u64, xs: &[u64]) -> bool {
    let n = xs.len() as i32;
    let nn = (n as f64).powi(n);
    let sum: f64 = xs.iter().map(|x| *x as f64).sum();
    let mut p = 1.0;
    for x in xs {
        p *= *x as f64 / sum;
    }
    // as a share of the sum
    let d = (amp as f64 * nn * nn * p).powf(1.0 / (n as f64 + 1.0)).min(1.0);
    // it is approached from the sum downwards, by at best 1/(n+1) in each of
    // 32 iterations
    (1.0 / d).ln() / ((n as f64 + 1.0) / n as f64).ln() < 26.0
}

/// By how much the balance computed for a swap may be off, in tokens: the
/// program solves the quadratic equation with 18 decimals, its terms scaled
/// down by the magnitude of the invariant.
pub fn swap_accuracy(amp: u64, others: &[u64], d: f64) -> f64 {
    let n = others.len() as i32 + 1;
    let nn = (n as f64).powi(n);
    let mut coef = 1.0;
    while d / coef > 1000.0 {
        coef *= 1000.0;
    }
    let d = d / coef;
    let ulp = 1e-18;
    let p: f64 = others.iter().map(|x| *x as f64 / coef).product();
    let sum: f64 = others.iter().map(|x| *x as f64 / coef).sum();
    let a = amp as f64 * nn;
    let c = d.powi(n + 1) / (nn * p);
    let b = (a * sum - d * (a - 1.0)).abs();
    let root = (b * b + 4.0 * a * c).sqrt().max(1e-9);
    let err_c = c * (ulp / p + (n as f64 + 4.0) * ulp) + ulp;
    let err_b = (a + 3.0) * ulp;
    let err_root = (2.0 * b * err_b + 4.0 * a * err_c + ulp) / (2.0 * root) + 2.0 * ulp;
    2.0 * coef * ((err_root + err_b) / (2.0 * a) + ulp)
}
