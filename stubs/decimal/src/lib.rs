//! Offline stand-in for the git dependency `solana-decimal` 0.4.0, which the
//! sandbox cannot fetch. Same public names and documented semantics: a fixed
//! point number with 18 decimals stored in 192 bits, every operation checked,
//! intermediate products wide enough not to overflow, results truncated
//! towards zero.

mod wide;

/// Counts operations, so that a loop which does not end fails a transaction as
/// the compute budget of a validator would, and always at the same point.
pub mod meter {
    use std::cell::Cell;

    thread_local!(static LEFT: Cell<u64> = Cell::new(u64::MAX));

    /// Allows so many operations; the number which was left of the last budget.
    pub fn refill(operations: u64) -> u64 {
        LEFT.with(|l| l.replace(operations))
    }

    #[inline]
    pub(crate) fn charge() {
        LEFT.with(|l| match l.get() {
            0 => panic!("exceeded the compute budget"),
            n => l.set(n - 1),
        })
    }
}

use anchor_lang::prelude::*;
use std::fmt;
use wide::*;

pub use wide::U192;

pub const SCALE: usize = 18;
pub const WAD: u64 = 1_000_000_000_000_000_000;
pub const HALF_WAD: u64 = 500_000_000_000_000_000;
pub const PERCENT_SCALER: u64 = 10_000_000_000_000_000;
pub const PERMILLION_SCALER: u64 = 1_000_000_000_000;

#[error_code]
pub enum ErrorCode {
    #[msg("Math operation overflow")]
    MathOverflow,
}

fn overflow() -> Error {
    error!(ErrorCode::MathOverflow)
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Decimal(pub U192);

/// Wider sibling. Only the conversions are provided.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct LargeDecimal(pub [u64; 5]);

pub trait TrySub: Sized {
    fn try_sub(self, rhs: Self) -> Result<Self>;
}

pub trait TryAdd: Sized {
    fn try_add(self, rhs: Self) -> Result<Self>;
}

pub trait TryDiv<RHS>: Sized {
    fn try_div(self, rhs: RHS) -> Result<Self>;
}

pub trait TryMul<RHS>: Sized {
    fn try_mul(self, rhs: RHS) -> Result<Self>;
}

pub trait TryPow<RHS>: Sized {
    fn try_pow(self, rhs: RHS) -> Result<Self>;
}

pub trait TrySqrt: Sized {
    fn try_sqrt(self) -> Result<Self>;
}

pub trait TryRound<T>: Sized {
    fn try_floor(&self) -> Result<T>;
    fn try_ceil(&self) -> Result<T>;
    fn try_round(&self) -> Result<T>;
}

pub trait ScaledVal {
    fn to_scaled_val(&self) -> Result<u128>;
    fn from_scaled_val(val: u128) -> Self;
}

pub trait AlmostEq {
    /// True if the scaled values differ by less than `10^precision`.
    fn almost_eq(&self, other: &Self, precision: u32) -> bool;
}

impl Decimal {
    pub fn one() -> Self {
        Self(U192([WAD, 0, 0]))
    }

    pub fn zero() -> Self {
        Self(U192([0, 0, 0]))
    }

    pub fn max_value() -> Self {
        Self(U192::max_value())
    }

    pub fn is_zero(&self) -> bool {
        self.0.is_zero()
    }

    pub fn from_percent(percent: impl Into<u64>) -> Self {
        Self(U192::from(percent.into() as u128 * PERCENT_SCALER as u128))
    }

    pub fn from_permillion(permillion: u64) -> Self {
        Self(U192::from(permillion as u128 * PERMILLION_SCALER as u128))
    }

    pub fn to_scaled_val(&self) -> Result<u128> {
        self.0.try_u128().ok_or_else(overflow)
    }

    pub fn from_scaled_val(val: u128) -> Self {
        Self(U192::from(val))
    }
}

impl ScaledVal for Decimal {
    fn to_scaled_val(&self) -> Result<u128> {
        Decimal::to_scaled_val(self)
    }
    fn from_scaled_val(val: u128) -> Self {
        Decimal::from_scaled_val(val)
    }
}

impl fmt::Display for Decimal {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut digits = self.0.to_string();
        if digits.len() <= SCALE {
            digits.insert_str(0, &"0".repeat(SCALE + 1 - digits.len()));
        }
        digits.insert(digits.len() - SCALE, '.');
        f.write_str(&digits)
    }
}

macro_rules! from_int {
    ($($t:ty),*) => {$(
        impl From<$t> for Decimal {
            fn from(val: $t) -> Self {
                Self(U192::from(val as u128).checked_mul_u64(WAD).expect("overflow"))
            }
        }
    )*};
}
from_int!(u8, u16, u32, u64, u128, usize);

impl From<&Decimal> for Decimal {
    fn from(d: &Decimal) -> Self {
        *d
    }
}

impl From<Decimal> for LargeDecimal {
    fn from(d: Decimal) -> Self {
        let [a, b, c] = d.0 .0;
        Self([a, b, c, 0, 0])
    }
}

impl TryFrom<LargeDecimal> for Decimal {
    type Error = Error;
    fn try_from(d: LargeDecimal) -> Result<Self> {
        match d.0 {
            [a, b, c, 0, 0] => Ok(Self(U192([a, b, c]))),
            _ => Err(overflow()),
        }
    }
}

impl TryAdd for Decimal {
    fn try_add(self, rhs: Self) -> Result<Self> {
        self.0.checked_add(rhs.0).map(Self).ok_or_else(overflow)
    }
}

impl TrySub for Decimal {
    fn try_sub(self, rhs: Self) -> Result<Self> {
        self.0.checked_sub(rhs.0).map(Self).ok_or_else(overflow)
    }
}

impl TryDiv<u64> for Decimal {
    fn try_div(self, rhs: u64) -> Result<Self> {
        if rhs == 0 {
            return Err(overflow());
        }
        Ok(Self(self.0.div_u64(rhs)))
    }
}

impl TryDiv<Decimal> for Decimal {
    fn try_div(self, rhs: Self) -> Result<Self> {
        if rhs.0.is_zero() {
            return Err(overflow());
        }
        let num = mul_wide(self.0, U192([WAD, 0, 0]));
        narrow(div_wide(num, rhs.0)).map(Self).ok_or_else(overflow)
    }
}

impl TryMul<u64> for Decimal {
    fn try_mul(self, rhs: u64) -> Result<Self> {
        self.0.checked_mul_u64(rhs).map(Self).ok_or_else(overflow)
    }
}

impl TryMul<Decimal> for Decimal {
    fn try_mul(self, rhs: Self) -> Result<Self> {
        let product = mul_wide(self.0, rhs.0);
        narrow(div_wide(product, U192([WAD, 0, 0])))
            .map(Self)
            .ok_or_else(overflow)
    }
}

impl TryPow<u64> for Decimal {
    fn try_pow(self, mut exp: u64) -> Result<Self> {
        let mut base = self;
        let mut ret = if exp % 2 != 0 { base } else { Self::one() };
        while exp > 1 {
            exp /= 2;
            base = base.try_mul(base)?;
            if exp % 2 != 0 {
                ret = ret.try_mul(base)?;
            }
        }
        Ok(ret)
    }
}

impl TryPow<Decimal> for Decimal {
    fn try_pow(self, exp: Decimal) -> Result<Self> {
        let exp: u64 = exp.try_floor()?;
        self.try_pow(exp)
    }
}

impl TrySqrt for Decimal {
    fn try_sqrt(self) -> Result<Self> {
        let val = mul_wide(self.0, U192([WAD, 0, 0]));
        Ok(Self(sqrt_wide(val)))
    }
}

impl TryRound<u64> for Decimal {
    fn try_floor(&self) -> Result<u64> {
        self.0.div_u64(WAD).try_u64().ok_or_else(overflow)
    }
    fn try_ceil(&self) -> Result<u64> {
        self.0
            .checked_add(U192([WAD - 1, 0, 0]))
            .and_then(|v| v.div_u64(WAD).try_u64())
            .ok_or_else(overflow)
    }
    fn try_round(&self) -> Result<u64> {
        self.0
            .checked_add(U192([HALF_WAD, 0, 0]))
            .and_then(|v| v.div_u64(WAD).try_u64())
            .ok_or_else(overflow)
    }
}

impl AlmostEq for Decimal {
    fn almost_eq(&self, other: &Self, precision: u32) -> bool {
        let diff = if self > other {
            self.0.checked_sub(other.0)
        } else {
            other.0.checked_sub(self.0)
        }
        .unwrap();
        diff < U192::from(10u128.pow(precision))
    }
}
