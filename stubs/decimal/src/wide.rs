//! Unsigned integers of three limbs, and the wide products they need.

use std::cmp::Ordering;
use std::fmt;

/// Little endian limbs.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash)]
pub struct U192(pub [u64; 3]);

pub type Wide = [u64; 6];

impl PartialOrd for U192 {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        Some(self.cmp(other))
    }
}

impl Ord for U192 {
    fn cmp(&self, other: &Self) -> Ordering {
        crate::meter::charge();
        for i in (0..3).rev() {
            match self.0[i].cmp(&other.0[i]) {
                Ordering::Equal => (),
                o => return o,
            }
        }
        Ordering::Equal
    }
}

macro_rules! from_small {
    ($($t:ty),*) => {$(
        impl From<$t> for U192 {
            fn from(v: $t) -> Self { Self([v as u64, 0, 0]) }
        }
    )*};
}
from_small!(u8, u16, u32, u64, usize);

impl From<u128> for U192 {
    fn from(v: u128) -> Self {
        Self([v as u64, (v >> 64) as u64, 0])
    }
}

impl fmt::Display for U192 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut v = *self;
        let mut out = Vec::new();
        loop {
            let q = v.div_u64(10);
            let r = v.0[0].wrapping_sub(q.0[0].wrapping_mul(10));
            out.push(b'0' + r as u8);
            v = q;
            if v.is_zero() {
                break;
            }
        }
        out.reverse();
        f.write_str(std::str::from_utf8(&out).unwrap())
    }
}

impl U192 {
    pub fn zero() -> Self {
        Self([0; 3])
    }
    pub fn one() -> Self {
        Self([1, 0, 0])
    }
    pub fn max_value() -> Self {
        Self([u64::MAX; 3])
    }
    pub fn is_zero(&self) -> bool {
        self.0 == [0; 3]
    }
    pub fn try_u64(&self) -> Option<u64> {
        match self.0 {
            [a, 0, 0] => Some(a),
            _ => None,
        }
    }
    pub fn try_u128(&self) -> Option<u128> {
        match self.0 {
            [a, b, 0] => Some(a as u128 | (b as u128) << 64),
            _ => None,
        }
    }
    pub fn as_u64(&self) -> u64 {
        self.try_u64().expect("Integer overflow when casting to u64")
    }
    pub fn as_u128(&self) -> u128 {
        self.try_u128().expect("Integer overflow when casting to u128")
    }
    pub fn checked_add(self, rhs: Self) -> Option<Self> {
        crate::meter::charge();
        let mut out = [0; 3];
        let mut carry = 0u128;
        for i in 0..3 {
            let s = self.0[i] as u128 + rhs.0[i] as u128 + carry;
            out[i] = s as u64;
            carry = s >> 64;
        }
        (carry == 0).then_some(Self(out))
    }
    pub fn checked_sub(self, rhs: Self) -> Option<Self> {
        crate::meter::charge();
        let mut out = [0; 3];
        let mut borrow = false;
        for i in 0..3 {
            let (d, b1) = self.0[i].overflowing_sub(rhs.0[i]);
            let (d, b2) = d.overflowing_sub(borrow as u64);
            out[i] = d;
            borrow = b1 || b2;
        }
        (!borrow).then_some(Self(out))
    }
    pub fn checked_mul_u64(self, rhs: u64) -> Option<Self> {
        crate::meter::charge();
        let mut out = [0; 3];
        let mut carry = 0u128;
        for i in 0..3 {
            let p = self.0[i] as u128 * rhs as u128 + carry;
            out[i] = p as u64;
            carry = p >> 64;
        }
        (carry == 0).then_some(Self(out))
    }
    pub fn checked_mul(self, rhs: Self) -> Option<Self> {
        narrow(mul_wide(self, rhs))
    }
    pub fn checked_div(self, rhs: Self) -> Option<Self> {
        if rhs.is_zero() {
            return None;
        }
        let [a, b, c] = self.0;
        narrow(div_wide([a, b, c, 0, 0, 0], rhs))
    }
    pub fn div_u64(self, rhs: u64) -> Self {
        crate::meter::charge();
        let mut out = [0; 3];
        let mut rem = 0u128;
        for i in (0..3).rev() {
            let cur = rem << 64 | self.0[i] as u128;
            if cur >> 64 == 0 {
                out[i] = cur as u64 / rhs;
                rem = (cur as u64 % rhs) as u128;
            } else {
                out[i] = (cur / rhs as u128) as u64;
                rem = cur % rhs as u128;
            }
        }
        Self(out)
    }
}

pub fn narrow(v: Wide) -> Option<U192> {
    match v {
        [a, b, c, 0, 0, 0] => Some(U192([a, b, c])),
        _ => None,
    }
}

pub fn mul_wide(a: U192, b: U192) -> Wide {
    crate::meter::charge();
    let mut out = [0u64; 6];
    for i in 0..3 {
        let mut carry = 0u128;
        for j in 0..3 {
            let p = a.0[i] as u128 * b.0[j] as u128 + out[i + j] as u128 + carry;
            out[i + j] = p as u64;
            carry = p >> 64;
        }
        out[i + 3] = carry as u64;
    }
    out
}

/// Truncating division, `den` must not be zero.
pub fn div_wide(num: Wide, den: U192) -> Wide {
    crate::meter::charge();
    if let Some(d) = den.try_u64() {
        let mut out = [0; 6];
        let mut rem = 0u128;
        for i in (0..6).rev() {
            let cur = rem << 64 | num[i] as u128;
            if cur >> 64 == 0 {
                out[i] = cur as u64 / d;
                rem = (cur as u64 % d) as u128;
            } else {
                out[i] = (cur / d as u128) as u64;
                rem = cur % d as u128;
            }
        }
        return out;
    }
    if let ([a, b, 0, 0, 0, 0], Some(d)) = (num, den.try_u128()) {
        let q = (a as u128 | (b as u128) << 64) / d;
        return [q as u64, (q >> 64) as u64, 0, 0, 0, 0];
    }
    knuth(num, den)
}

/// Knuth's algorithm D with 32 bit digits, for divisors of at least two
/// digits.
fn knuth(num: Wide, den: U192) -> Wide {
    let mut u = [0u32; 13];
    for i in 0..6 {
        u[2 * i] = num[i] as u32;
        u[2 * i + 1] = (num[i] >> 32) as u32;
    }
    let mut v = [0u32; 6];
    for i in 0..3 {
        v[2 * i] = den.0[i] as u32;
        v[2 * i + 1] = (den.0[i] >> 32) as u32;
    }
    let n = 6 - v.iter().rev().take_while(|d| **d == 0).count();
    debug_assert!(n >= 2);
    let shift = v[n - 1].leading_zeros();
    if shift > 0 {
        for i in (1..n).rev() {
            v[i] = v[i] << shift | v[i - 1] >> (32 - shift);
        }
        v[0] <<= shift;
        for i in (1..13).rev() {
            u[i] = u[i] << shift | u[i - 1] >> (32 - shift);
        }
        u[0] <<= shift;
    }
    let base = 1u64 << 32;
    let mut q = [0u32; 12];
    for j in (0..=12 - n).rev() {
        let top = (u[j + n] as u64) << 32 | u[j + n - 1] as u64;
        let mut qhat = top / v[n - 1] as u64;
        let mut rhat = top % v[n - 1] as u64;
        while qhat >= base
            || qhat * v[n - 2] as u64 > (rhat << 32 | u[j + n - 2] as u64)
        {
            qhat -= 1;
            rhat += v[n - 1] as u64;
            if rhat >= base {
                break;
            }
        }
        let mut borrow = 0i64;
        let mut carry = 0u64;
        for i in 0..n {
            let p = qhat * v[i] as u64 + carry;
            carry = p >> 32;
            let t = u[i + j] as i64 - borrow - (p as u32) as i64;
            u[i + j] = t as u32;
            borrow = i64::from(t < 0);
        }
        let t = u[j + n] as i64 - borrow - carry as i64;
        u[j + n] = t as u32;
        if t < 0 {
            qhat -= 1;
            let mut carry = 0u64;
            for i in 0..n {
                let s = u[i + j] as u64 + v[i] as u64 + carry;
                u[i + j] = s as u32;
                carry = s >> 32;
            }
            u[j + n] = (u[j + n] as u64 + carry) as u32;
        }
        if j < 12 {
            q[j] = qhat as u32;
        }
    }
    let mut out = [0u64; 6];
    for i in 0..6 {
        out[i] = q[2 * i] as u64 | (q[2 * i + 1] as u64) << 32;
    }
    out
}

/// Floor of the square root.
pub fn sqrt_wide(val: Wide) -> U192 {
    let mut root = U192::zero();
    // the root of a 384 bit number has at most 192 bits
    for bit in (0..192).rev() {
        let mut cand = root;
        cand.0[bit / 64] |= 1u64 << (bit % 64);
        if !gt_wide(&mul_wide(cand, cand), &val) {
            root = cand;
        }
    }
    root
}

fn gt_wide(a: &Wide, b: &Wide) -> bool {
    for i in (0..6).rev() {
        match a[i].cmp(&b[i]) {
            Ordering::Greater => return true,
            Ordering::Less => return false,
            Ordering::Equal => (),
        }
    }
    false
}

#[cfg(test)]
mod tests {
    use super::*;

    struct Rng(u64);
    impl Rng {
        fn next(&mut self) -> u64 {
            self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut z = self.0;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            z ^ (z >> 31)
        }
        fn limb(&mut self) -> u64 {
            match self.next() % 5 {
                0 => 0,
                1 => u64::MAX,
                2 => self.next() >> (self.next() % 64),
                3 => 1u64 << (self.next() % 64),
                _ => self.next(),
            }
        }
        fn u192(&mut self) -> U192 {
            U192([self.limb(), self.limb(), self.limb()])
        }
    }

    fn add(a: Wide, b: Wide) -> Wide {
        let mut out = [0; 6];
        let mut c = 0u128;
        for i in 0..6 {
            let s = a[i] as u128 + b[i] as u128 + c;
            out[i] = s as u64;
            c = s >> 64;
        }
        assert_eq!(c, 0);
        out
    }

    #[test]
    fn division_inverts_multiplication() {
        let mut r = Rng(7);
        for _ in 0..200_000 {
            let q = r.u192();
            let d = r.u192();
            if d.is_zero() {
                continue;
            }
            // remainder < d
            let mut rem = r.u192();
            while rem >= d {
                rem = rem.div_u64(3);
            }
            let [a, b, c] = rem.0;
            let p = mul_wide(q, d);
            if p[5] == u64::MAX {
                continue;
            }
            let num = add(p, [a, b, c, 0, 0, 0]);
            assert_eq!(narrow(div_wide(num, d)), Some(q));
            if d > U192::from(u32::MAX) {
                assert_eq!(narrow(knuth(num, d)), Some(q));
            }
        }
    }

    #[test]
    fn sqrt_is_floor() {
        let mut r = Rng(9);
        for _ in 0..2_000 {
            let v = mul_wide(r.u192(), r.u192());
            let s = sqrt_wide(v);
            assert!(!gt_wide(&mul_wide(s, s), &v));
            if let Some(n) = s.checked_add(U192::one()) {
                assert!(gt_wide(&mul_wide(n, n), &v));
            }
        }
    }
}
