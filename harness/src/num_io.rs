//! Exact text form of coefficients: integers in decimal, floats as `mantissa@exponent` (base 2).
#[cfg(feature = "residues")]
use crate::gf::Res;

pub trait Io: Copy {
    fn rd(s: &str) -> Self;
    fn wr(self) -> String;
}

macro_rules! int_io {
    ($($t:ty),*) => {$(
        impl Io for $t {
            fn rd(s: &str) -> Self { s.parse().expect("integer") }
            fn wr(self) -> String { format!("{}", self) }
        }
    )*};
}
int_io!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);

#[cfg(feature = "residues")]
impl<const P: u64> Io for Res<P> {
    fn rd(s: &str) -> Self {
        Res(s.parse().expect("residue"))
    }
    fn wr(self) -> String {
        format!("{}", self.0)
    }
}

pub fn float_text(v: f64) -> String {
    if v.is_nan() || v.is_infinite() {
        return "nan".into();
    }
    if v == 0.0 {
        return "0@0".into();
    }
    let bits = v.to_bits();
    let exp = ((bits >> 52) & 0x7ff) as i64;
    let frac = bits & ((1u64 << 52) - 1);
    let (mut m, mut e) = if exp == 0 {
        (frac, -1074)
    } else {
        (frac | (1u64 << 52), exp - 1075)
    };
    while m & 1 == 0 {
        m >>= 1;
        e += 1;
    }
    format!("{}{}@{}", if v < 0.0 { "-" } else { "" }, m, e)
}

fn float_of(s: &str) -> f64 {
    let (m, e) = s.split_once('@').expect("mantissa@exponent");
    if m == "-0" {
        return -0.0;
    }
    let mut v = m.parse::<i64>().expect("mantissa") as f64;
    let mut e: i32 = e.parse().expect("exponent");
    while e > 0 {
        let k = e.min(1000);
        v *= 2f64.powi(k);
        e -= k;
    }
    while e < 0 {
        let k = (-e).min(1000);
        v /= 2f64.powi(k);
        e += k;
    }
    v
}

impl Io for f64 {
    fn rd(s: &str) -> Self {
        float_of(s)
    }
    fn wr(self) -> String {
        float_text(self)
    }
}
impl Io for f32 {
    fn rd(s: &str) -> Self {
        float_of(s) as f32
    }
    fn wr(self) -> String {
        float_text(self as f64)
    }
}
