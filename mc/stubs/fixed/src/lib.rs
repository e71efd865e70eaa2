//! Stand-in for the git dependency `fixed` (v1.11.0-borsh0_10-mango), which is
//! not available offline.  Only the operations that openbook-v2 uses exist, and
//! they follow the documented semantics of the original crate:
//!   * I80F48: i128 with 48 fractional bits, U64F64: u128 with 64 fractional bits
//!   * multiplication is exact and then rounded towards minus infinity
//!   * division truncates towards zero
//!   * float -> fixed rounds to nearest, ties to even; fixed -> integer floors
//!   * fixed -> float rounds to nearest, ties to even
//!   * plain operators panic on overflow ("debug-assert-in-release")

mod wide {
    /// (hi, lo) = a * b
    pub fn mul(a: u128, b: u128) -> (u128, u128) {
        const M: u128 = u64::MAX as u128;
        let (a1, a0) = (a >> 64, a & M);
        let (b1, b0) = (b >> 64, b & M);
        let p00 = a0 * b0;
        let p01 = a0 * b1;
        let p10 = a1 * b0;
        let p11 = a1 * b1;
        let mid = (p00 >> 64) + (p01 & M) + (p10 & M);
        let lo = (p00 & M) | (mid << 64);
        let hi = p11 + (p01 >> 64) + (p10 >> 64) + (mid >> 64);
        (hi, lo)
    }

    /// (hi, lo) / d, None if the quotient does not fit in u128
    pub fn div(hi: u128, lo: u128, d: u128) -> Option<u128> {
        if hi == 0 {
            return Some(lo / d);
        }
        if hi >= d {
            return None;
        }
        let mut rem = hi;
        let mut q: u128 = 0;
        for i in (0..128).rev() {
            let carry = rem >> 127;
            rem = (rem << 1) | ((lo >> i) & 1);
            q <<= 1;
            if carry == 1 || rem >= d {
                rem = rem.wrapping_sub(d);
                q |= 1;
            }
        }
        Some(q)
    }
}

/// |x| * 2^frac rounded to nearest/even, None if it does not fit in u128 or x is not finite.
fn float_to_bits(x: f64, frac: i32) -> Option<(bool, u128)> {
    if !x.is_finite() {
        return None;
    }
    let bits = x.to_bits();
    let neg = bits >> 63 == 1;
    let exp_bits = ((bits >> 52) & 0x7ff) as i32;
    let man = bits & ((1u64 << 52) - 1);
    let (man, exp) = if exp_bits == 0 {
        (man, -1074)
    } else {
        (man | (1u64 << 52), exp_bits - 1075)
    };
    if man == 0 {
        return Some((neg, 0));
    }
    let shift = exp + frac;
    let man = man as u128;
    if shift >= 0 {
        if shift as u32 >= man.leading_zeros() + 1 || shift >= 128 {
            return None;
        }
        Some((neg, man << shift))
    } else {
        let s = (-shift) as u32;
        if s > 64 {
            return Some((neg, 0));
        }
        let q = man >> s;
        let r = man & ((1u128 << s) - 1);
        let half = 1u128 << (s - 1);
        let up = r > half || (r == half && q & 1 == 1);
        Some((neg, q + up as u128))
    }
}

pub mod traits {
    pub trait FromFixed: Sized {
        fn from_signed(bits: i128, frac: u32) -> Option<Self>;
        fn from_unsigned(bits: u128, frac: u32) -> Option<Self>;
    }
    pub trait ToFixed: Sized {
        fn to_i80f48(self) -> Option<i128>;
    }

    macro_rules! ints {
        ($($t:ty),*) => {$(
            impl FromFixed for $t {
                fn from_signed(bits: i128, frac: u32) -> Option<Self> {
                    <$t>::try_from(bits >> frac).ok()
                }
                fn from_unsigned(bits: u128, frac: u32) -> Option<Self> {
                    <$t>::try_from(bits >> frac).ok()
                }
            }
            impl ToFixed for $t {
                fn to_i80f48(self) -> Option<i128> {
                    let x = i128::try_from(self).ok()?;
                    let r = x << 48;
                    if r >> 48 == x { Some(r) } else { None }
                }
            }
        )*};
    }
    ints!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);

    impl FromFixed for f64 {
        fn from_signed(bits: i128, frac: u32) -> Option<Self> {
            // int -> float conversion rounds to nearest even; scaling by a power of two is exact
            Some(bits as f64 * (0.5f64).powi(frac as i32))
        }
        fn from_unsigned(bits: u128, frac: u32) -> Option<Self> {
            Some(bits as f64 * (0.5f64).powi(frac as i32))
        }
    }
    impl ToFixed for f64 {
        fn to_i80f48(self) -> Option<i128> {
            let (neg, mag) = super::float_to_bits(self, 48)?;
            if neg {
                if mag > 1u128 << 127 {
                    None
                } else {
                    Some((mag as i128).wrapping_neg())
                }
            } else {
                i128::try_from(mag).ok()
            }
        }
    }
    impl ToFixed for super::types::I80F48 {
        fn to_i80f48(self) -> Option<i128> {
            Some(self.to_bits())
        }
    }
}

pub mod types {
    use super::traits::{FromFixed, ToFixed};
    use super::wide;
    use std::ops::*;

    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
    #[repr(transparent)]
    pub struct I80F48(i128);

    impl I80F48 {
        pub const ZERO: I80F48 = I80F48(0);
        pub const ONE: I80F48 = I80F48(1 << 48);
        pub const MAX: I80F48 = I80F48(i128::MAX);
        pub const MIN: I80F48 = I80F48(i128::MIN);

        pub const fn from_bits(b: i128) -> Self {
            I80F48(b)
        }
        pub const fn to_bits(self) -> i128 {
            self.0
        }
        pub fn from_num<T: ToFixed>(x: T) -> Self {
            I80F48(x.to_i80f48().expect("overflow"))
        }
        pub fn checked_from_num<T: ToFixed>(x: T) -> Option<Self> {
            x.to_i80f48().map(I80F48)
        }
        pub fn to_num<T: FromFixed>(self) -> T {
            T::from_signed(self.0, 48).expect("overflow")
        }
        pub fn checked_to_num<T: FromFixed>(self) -> Option<T> {
            T::from_signed(self.0, 48)
        }
        pub fn is_negative(self) -> bool {
            self.0 < 0
        }
        pub fn is_positive(self) -> bool {
            self.0 > 0
        }
        pub fn is_zero(self) -> bool {
            self.0 == 0
        }
        pub fn checked_mul(self, o: Self) -> Option<Self> {
            let neg = (self.0 < 0) != (o.0 < 0);
            let (hi, lo) = wide::mul(self.0.unsigned_abs(), o.0.unsigned_abs());
            if hi >> 48 != 0 {
                return None;
            }
            let mut mag = (hi << 80) | (lo >> 48);
            let rem = lo & ((1 << 48) - 1);
            if neg {
                if rem != 0 {
                    mag = mag.checked_add(1)?;
                }
                if mag > 1u128 << 127 {
                    return None;
                }
                Some(I80F48((mag as i128).wrapping_neg()))
            } else {
                i128::try_from(mag).ok().map(I80F48)
            }
        }
        pub fn checked_div(self, o: Self) -> Option<Self> {
            if o.0 == 0 {
                return None;
            }
            let neg = (self.0 < 0) != (o.0 < 0);
            let a = self.0.unsigned_abs();
            let mag = wide::div(a >> 80, a << 48, o.0.unsigned_abs())?;
            if neg {
                if mag > 1u128 << 127 {
                    return None;
                }
                Some(I80F48((mag as i128).wrapping_neg()))
            } else {
                i128::try_from(mag).ok().map(I80F48)
            }
        }
        pub fn checked_add(self, o: Self) -> Option<Self> {
            self.0.checked_add(o.0).map(I80F48)
        }
        pub fn checked_sub(self, o: Self) -> Option<Self> {
            self.0.checked_sub(o.0).map(I80F48)
        }
        pub const DELTA: I80F48 = I80F48(1);
        pub const NEG_ONE: I80F48 = I80F48(-(1 << 48));
        pub const FRAC_NBITS: u32 = 48;
        pub const INT_NBITS: u32 = 80;
        fn signed_limit(negative: bool) -> Self {
            if negative {
                Self::MIN
            } else {
                Self::MAX
            }
        }
        pub fn saturating_from_num<T: ToFixed + PartialOrd + Default + Copy>(x: T) -> Self {
            Self::checked_from_num(x).unwrap_or_else(|| Self::signed_limit(x < T::default()))
        }
        pub fn saturating_add(self, o: Self) -> Self {
            I80F48(self.0.saturating_add(o.0))
        }
        pub fn saturating_sub(self, o: Self) -> Self {
            I80F48(self.0.saturating_sub(o.0))
        }
        pub fn saturating_mul(self, o: Self) -> Self {
            self.checked_mul(o).unwrap_or_else(|| Self::signed_limit((self.0 < 0) != (o.0 < 0)))
        }
        pub fn saturating_div(self, o: Self) -> Self {
            assert!(o.0 != 0, "division by zero");
            self.checked_div(o).unwrap_or_else(|| Self::signed_limit((self.0 < 0) != (o.0 < 0)))
        }
        pub fn wrapping_add(self, o: Self) -> Self {
            I80F48(self.0.wrapping_add(o.0))
        }
        pub fn wrapping_sub(self, o: Self) -> Self {
            I80F48(self.0.wrapping_sub(o.0))
        }
        pub fn abs(self) -> Self {
            I80F48(self.0.checked_abs().expect("overflow"))
        }
        pub fn checked_abs(self) -> Option<Self> {
            self.0.checked_abs().map(I80F48)
        }
        pub fn checked_neg(self) -> Option<Self> {
            self.0.checked_neg().map(I80F48)
        }
        pub fn signum(self) -> Self {
            I80F48(self.0.signum() << 48)
        }
        pub fn int(self) -> Self {
            self.floor()
        }
        pub fn frac(self) -> Self {
            I80F48(self.0 & ((1 << 48) - 1))
        }
        pub fn floor(self) -> Self {
            I80F48(self.0 >> 48 << 48)
        }
        pub fn checked_ceil(self) -> Option<Self> {
            self.0.checked_add((1 << 48) - 1).map(|b| I80F48(b).floor())
        }
        pub fn ceil(self) -> Self {
            self.checked_ceil().expect("overflow")
        }
        /// to nearest, ties away from zero
        pub fn round(self) -> Self {
            let half = I80F48(1 << 47);
            if self.0 < 0 {
                -((-self).checked_add(half).expect("overflow").floor())
            } else {
                self.checked_add(half).expect("overflow").floor()
            }
        }
        pub fn recip(self) -> Self {
            Self::ONE / self
        }
        pub fn checked_recip(self) -> Option<Self> {
            Self::ONE.checked_div(self)
        }
        pub fn checked_mul_int(self, o: i128) -> Option<Self> {
            self.0.checked_mul(o).map(I80F48)
        }
        pub fn checked_div_int(self, o: i128) -> Option<Self> {
            self.0.checked_div(o).map(I80F48)
        }
    }
    macro_rules! assigns {
        ($($t:ident $f:ident $b:tt),*) => {$(
            impl $t for I80F48 {
                fn $f(&mut self, o: Self) {
                    *self = *self $b o;
                }
            }
        )*};
    }
    assigns!(AddAssign add_assign +, SubAssign sub_assign -, MulAssign mul_assign *, DivAssign div_assign /);
    impl Mul<i128> for I80F48 {
        type Output = Self;
        fn mul(self, o: i128) -> Self {
            self.checked_mul_int(o).expect("overflow")
        }
    }
    impl Div<i128> for I80F48 {
        type Output = Self;
        fn div(self, o: i128) -> Self {
            self.checked_div_int(o).expect("overflow")
        }
    }
    impl Rem for I80F48 {
        type Output = Self;
        fn rem(self, o: Self) -> Self {
            I80F48(self.0.checked_rem(o.0).expect("division by zero"))
        }
    }
    impl std::iter::Sum for I80F48 {
        fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
            i.fold(Self::ZERO, |a, b| a + b)
        }
    }

    impl Mul for I80F48 {
        type Output = Self;
        fn mul(self, o: Self) -> Self {
            self.checked_mul(o).expect("overflow")
        }
    }
    impl Div for I80F48 {
        type Output = Self;
        fn div(self, o: Self) -> Self {
            self.checked_div(o).expect("overflow")
        }
    }
    impl Add for I80F48 {
        type Output = Self;
        fn add(self, o: Self) -> Self {
            self.checked_add(o).expect("overflow")
        }
    }
    impl Sub for I80F48 {
        type Output = Self;
        fn sub(self, o: Self) -> Self {
            self.checked_sub(o).expect("overflow")
        }
    }
    impl Neg for I80F48 {
        type Output = Self;
        fn neg(self) -> Self {
            I80F48(self.0.checked_neg().expect("overflow"))
        }
    }

    macro_rules! from_ints {
        ($($t:ty),*) => {$(
            impl From<$t> for I80F48 {
                fn from(x: $t) -> Self { I80F48((x as i128) << 48) }
            }
            impl PartialEq<$t> for I80F48 {
                fn eq(&self, o: &$t) -> bool { self.0 == (*o as i128) << 48 }
            }
            impl PartialOrd<$t> for I80F48 {
                fn partial_cmp(&self, o: &$t) -> Option<std::cmp::Ordering> {
                    self.0.partial_cmp(&((*o as i128) << 48))
                }
            }
        )*};
    }
    from_ints!(i8, i16, i32, i64, u8, u16, u32, u64);

    impl std::fmt::Debug for I80F48 {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            write!(f, "{}", f64::from_signed(self.0, 48).unwrap())
        }
    }
    impl std::fmt::Display for I80F48 {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            write!(f, "{}", f64::from_signed(self.0, 48).unwrap())
        }
    }

    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default, Debug)]
    #[repr(transparent)]
    pub struct U64F64(u128);

    impl U64F64 {
        pub const ZERO: U64F64 = U64F64(0);
        pub const ONE: U64F64 = U64F64(1 << 64);
        pub const MAX: U64F64 = U64F64(u128::MAX);
        pub const MIN: U64F64 = U64F64(0);
        pub fn checked_from_num<T: TryInto<u64>>(x: T) -> Option<Self> {
            x.try_into().ok().map(|x| U64F64((x as u128) << 64))
        }
        pub fn from_num<T: TryInto<u64>>(x: T) -> Self {
            Self::checked_from_num(x).expect("overflow")
        }
        pub fn checked_add(self, o: Self) -> Option<Self> {
            self.0.checked_add(o.0).map(U64F64)
        }
        pub fn checked_sub(self, o: Self) -> Option<Self> {
            self.0.checked_sub(o.0).map(U64F64)
        }
        pub fn checked_div(self, o: Self) -> Option<Self> {
            if o.0 == 0 {
                return None;
            }
            wide::div(self.0 >> 64, self.0 << 64, o.0).map(U64F64)
        }
        pub const fn from_bits(b: u128) -> Self {
            U64F64(b)
        }
        pub const fn to_bits(self) -> u128 {
            self.0
        }
        pub fn checked_mul(self, o: Self) -> Option<Self> {
            let (hi, lo) = wide::mul(self.0, o.0);
            if hi >> 64 != 0 {
                return None;
            }
            Some(U64F64((hi << 64) | (lo >> 64)))
        }
        pub fn to_num<T: FromFixed>(self) -> T {
            T::from_unsigned(self.0, 64).expect("overflow")
        }
        pub fn checked_to_num<T: FromFixed>(self) -> Option<T> {
            T::from_unsigned(self.0, 64)
        }
    }
    impl Mul for U64F64 {
        type Output = Self;
        fn mul(self, o: Self) -> Self {
            self.checked_mul(o).expect("overflow")
        }
    }
}
