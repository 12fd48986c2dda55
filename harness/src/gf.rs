//! Residues modulo P, a coefficient type of a client in which nothing overflows: the prime field
//! with 97 elements, where every division is exact, and the ring of residues modulo 12, where
//! products of non-zero coefficients can be zero.
use num::{Num, One, Zero};
use std::ops::*;

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Res<const P: u64>(pub u64);
pub type Gf = Res<97>;
pub type Ring = Res<12>;

impl<const P: u64> Res<P> {
    fn inverse(self) -> Self {
        match (1..P).find(|i| i * self.0 % P == 1) {
            Some(i) => Res(i),
            None => panic!("division by {} modulo {}", self.0, P),
        }
    }
}
impl<const P: u64> Zero for Res<P> {
    fn zero() -> Self {
        Res(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl<const P: u64> One for Res<P> {
    fn one() -> Self {
        Res(1)
    }
}
impl<const P: u64> Neg for Res<P> {
    type Output = Self;
    fn neg(self) -> Self {
        Res((P - self.0) % P)
    }
}
macro_rules! op {
    ($T:ident $f:ident $TA:ident $fa:ident, |$a:ident, $b:ident| $e:expr) => {
        impl<const P: u64> $T for Res<P> {
            type Output = Self;
            fn $f(self, o: Self) -> Self {
                let ($a, $b) = (self, o);
                $e
            }
        }
        impl<const P: u64> $T<&Res<P>> for Res<P> {
            type Output = Self;
            fn $f(self, o: &Self) -> Self {
                $T::$f(self, *o)
            }
        }
        impl<'a, const P: u64> $T<&'a Res<P>> for &'a Res<P> {
            type Output = Res<P>;
            fn $f(self, o: &Res<P>) -> Res<P> {
                $T::$f(*self, *o)
            }
        }
        impl<const P: u64> $TA for Res<P> {
            fn $fa(&mut self, o: Self) {
                *self = $T::$f(*self, o)
            }
        }
        impl<const P: u64> $TA<&Res<P>> for Res<P> {
            fn $fa(&mut self, o: &Self) {
                *self = $T::$f(*self, *o)
            }
        }
    };
}
op!(Add add AddAssign add_assign, |a, b| Res((a.0 + b.0) % P));
op!(Sub sub SubAssign sub_assign, |a, b| Res((a.0 + P - b.0) % P));
op!(Mul mul MulAssign mul_assign, |a, b| Res(a.0 * b.0 % P));
op!(Div div DivAssign div_assign, |a, b| Res(a.0 * b.inverse().0 % P));
op!(Rem rem RemAssign rem_assign, |a, b| a - (a / b) * b);

// Not needed by the library as it is; a client type would have them.
impl<const P: u64> Num for Res<P> {
    type FromStrRadixErr = std::num::ParseIntError;
    fn from_str_radix(s: &str, radix: u32) -> Result<Self, Self::FromStrRadixErr> {
        u64::from_str_radix(s, radix).map(|x| Res(x % P))
    }
}
impl<const P: u64> std::str::FromStr for Res<P> {
    type Err = std::num::ParseIntError;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        s.parse::<u64>().map(|x| Res(x % P))
    }
}
impl<const P: u64> std::fmt::Display for Res<P> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl<const P: u64> From<u8> for Res<P> {
    fn from(x: u8) -> Self {
        Res(x as u64 % P)
    }
}
impl<const P: u64> std::iter::Sum for Res<P> {
    fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(Res(0), |a, b| a + b)
    }
}
impl<const P: u64> std::iter::Product for Res<P> {
    fn product<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(Res(1), |a, b| a * b)
    }
}
