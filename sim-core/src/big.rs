//! Unsigned integers wide enough for the oracles, 1024 bits. Overflow panics.

use std::cmp::Ordering;

const N: usize = 16;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Big {
    limbs: [u64; N],
    len: usize,
}

impl From<u64> for Big {
    fn from(v: u64) -> Self {
        let mut limbs = [0; N];
        limbs[0] = v;
        Big { limbs, len: (v != 0) as usize }
    }
}

impl From<u128> for Big {
    fn from(v: u128) -> Self {
        let mut limbs = [0; N];
        limbs[0] = v as u64;
        limbs[1] = (v >> 64) as u64;
        Big { limbs, len: N }.trim()
    }
}

impl PartialOrd for Big {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}

impl Ord for Big {
    fn cmp(&self, o: &Self) -> Ordering {
        self.len.cmp(&o.len).then_with(|| {
            (0..self.len)
                .rev()
                .map(|i| self.limbs[i].cmp(&o.limbs[i]))
                .find(|c| *c != Ordering::Equal)
                .unwrap_or(Ordering::Equal)
        })
    }
}

impl Big {
    pub fn zero() -> Self {
        0u64.into()
    }

    fn trim(mut self) -> Self {
        while self.len > 0 && self.limbs[self.len - 1] == 0 {
            self.len -= 1;
        }
        self
    }

    pub fn is_zero(&self) -> bool {
        self.len == 0
    }

    pub fn bits(&self) -> u32 {
        match self.len {
            0 => 0,
            n => n as u32 * 64 - self.limbs[n - 1].leading_zeros(),
        }
    }

    pub fn add(self, o: impl Into<Big>) -> Big {
        let o = o.into();
        let mut out = [0; N];
        let mut carry = 0u128;
        for (i, x) in out.iter_mut().enumerate() {
            carry += self.limbs[i] as u128 + o.limbs[i] as u128;
            *x = carry as u64;
            carry >>= 64;
        }
        assert_eq!(carry, 0, "oracle overflow");
        Big { limbs: out, len: N }.trim()
    }

    /// Zero if it would be negative.
    pub fn sub(self, o: impl Into<Big>) -> Big {
        let o = o.into();
        if self <= o {
            return Big::zero();
        }
        let mut out = [0; N];
        let mut borrow = false;
        for (i, x) in out.iter_mut().enumerate() {
            let (d, b1) = self.limbs[i].overflowing_sub(o.limbs[i]);
            let (d, b2) = d.overflowing_sub(borrow as u64);
            *x = d;
            borrow = b1 || b2;
        }
        Big { limbs: out, len: N }.trim()
    }

    pub fn mul(self, o: impl Into<Big>) -> Big {
        let o = o.into();
        assert!(self.len + o.len <= N + 1, "oracle overflow");
        let mut out = [0u64; N + 1];
        for i in 0..self.len {
            let mut carry = 0u128;
            for j in 0..o.len {
                carry += out[i + j] as u128 + self.limbs[i] as u128 * o.limbs[j] as u128;
                out[i + j] = carry as u64;
                carry >>= 64;
            }
            if o.len > 0 {
                out[i + o.len] = carry as u64;
            }
        }
        assert_eq!(out[N], 0, "oracle overflow");
        Big { limbs: out[..N].try_into().unwrap(), len: N }.trim()
    }

    pub fn pow(self, n: u32) -> Big {
        (0..n).fold(Big::from(1u64), |p, _| p.mul(self))
    }

    pub fn shl(self, n: u32) -> Big {
        if self.is_zero() {
            return self;
        }
        assert!(self.bits() + n <= 64 * N as u32, "oracle overflow");
        let (w, b) = ((n / 64) as usize, n % 64);
        let mut out = [0; N];
        for i in (w..N).rev() {
            out[i] = self.limbs[i - w] << b;
            if b > 0 && i > w {
                out[i] |= self.limbs[i - w - 1] >> (64 - b);
            }
        }
        Big { limbs: out, len: N }.trim()
    }

    pub fn shr(self, n: u32) -> Big {
        let (w, b) = ((n / 64) as usize, n % 64);
        let mut out = [0; N];
        for i in 0..N.saturating_sub(w) {
            out[i] = self.limbs[i + w] >> b;
            if b > 0 && i + w + 1 < N {
                out[i] |= self.limbs[i + w + 1] << (64 - b);
            }
        }
        Big { limbs: out, len: N }.trim()
    }

    /// Rounded down.
    pub fn div(self, o: impl Into<Big>) -> Big {
        let o = o.into();
        assert!(!o.is_zero(), "oracle divides by zero");
        let mut q = Big::zero();
        let mut r = self;
        while r >= o {
            let mut s = r.bits() - o.bits();
            if o.shl(s) > r {
                s -= 1;
            }
            r = r.sub(o.shl(s));
            q = q.add(Big::from(1u64).shl(s));
        }
        q
    }

    pub fn div_ceil(self, o: impl Into<Big>) -> Big {
        let o = o.into();
        self.add(o.sub(1u64)).div(o)
    }

    pub fn to_u64(self) -> Option<u64> {
        (self.len <= 1).then(|| self.limbs[0])
    }

    /// Saturating.
    pub fn to_u128(self) -> u128 {
        match self.len {
            0..=2 => self.limbs[0] as u128 | (self.limbs[1] as u128) << 64,
            _ => u128::MAX,
        }
    }

    pub fn to_f64(self) -> f64 {
        self.limbs.iter().rev().fold(0.0, |a, l| a * 18446744073709551616.0 + *l as f64)
    }
}

impl std::fmt::Display for Big {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self.len {
            0..=2 => write!(f, "{}", self.to_u128()),
            _ => write!(f, "{:e}", self.to_f64()),
        }
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    use crate::Rng;

    #[test]
    fn agrees_with_native() {
        let mut r = Rng::new(1);
        for _ in 0..20_000 {
            let x = r.next() as u128 * r.log_amount(u64::MAX) as u128;
            let y = (r.log_amount(u64::MAX) as u128).max(1);
            let (a, b) = (Big::from(x), Big::from(y));
            assert_eq!(a.div(b).to_u128(), x / y);
            assert_eq!(a.sub(b).to_u128(), x.saturating_sub(y));
            assert_eq!(a.cmp(&b), x.cmp(&y));
            let p = a.mul(b).mul(b).add(7u64);
            assert_eq!(p.sub(7u64).div(b).div(b), a);
            assert_eq!(p.shl(77).shr(77), p);
            assert_eq!(p.shl(3), p.mul(8u64));
        }
    }
}
