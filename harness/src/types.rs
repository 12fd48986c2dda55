//! One module per coefficient type.
use crate::ops::*;

macro_rules! signed {
    ($m:ident, $N:ty $(, $C:ty)?) => {
        pub mod $m {
            use super::*;
            base_ops!($N);
            neg_ops!($N);
            builtin_ops!($N);
            variadic_ops!($N);
            $(calculus_ops!($C);)?
            pub fn exec(c: &[&str], r: &mut Regs<$N>) -> Option<String> {
                $(
                    let v: Option<String> = { type _C = $C; calculus(c, r) };
                    if v.is_some() {
                        return v;
                    }
                )?
                base(c, r).or_else(|| neg(c, r)).or_else(|| builtin(c, r)).or_else(|| variadic(c, r)).or_else(|| convert(c, r)).or_else(|| more(c, r))
            }
        }
    };
}
macro_rules! unsigned {
    ($m:ident, $N:ty $(, $C:ty)?) => {
        pub mod $m {
            use super::*;
            base_ops!($N);
            builtin_ops!($N);
            variadic_ops!($N);
            $(calculus_ops!($C);)?
            pub fn exec(c: &[&str], r: &mut Regs<$N>) -> Option<String> {
                $(
                    let v: Option<String> = { type _C = $C; calculus(c, r) };
                    if v.is_some() {
                        return v;
                    }
                )?
                base(c, r).or_else(|| builtin(c, r)).or_else(|| variadic(c, r)).or_else(|| convert(c, r))
            }
        }
    };
}
/// Extra calls of a type, if it has any.
pub trait More: Sized + Io {
    fn more(c: &[&str], r: &mut Regs<Self>) -> Option<String>;
}
pub fn more<N: More>(c: &[&str], r: &mut Regs<N>) -> Option<String> {
    N::more(c, r)
}
macro_rules! quadratic {
    ($m:ident, $N:ty) => {
        pub mod $m {
            use super::*;
            quad_ops!($N);
        }
        impl More for $N {
            fn more(c: &[&str], r: &mut Regs<$N>) -> Option<String> {
                $m::quad(c, r)
            }
        }
    };
}

signed!(t_i8, i8, i8);
signed!(t_i16, i16, i16);
signed!(t_i32, i32, i32);
signed!(t_i64, i64, i64);
signed!(t_i128, i128, i128);
signed!(t_isize, isize);
signed!(t_f32, f32, f32);
signed!(t_f64, f64, f64);
unsigned!(t_u8, u8, u8);
unsigned!(t_u16, u16, u16);
unsigned!(t_u32, u32, u32);
unsigned!(t_u64, u64, u64);
unsigned!(t_u128, u128, u128);
unsigned!(t_usize, usize);

impl More for i8 {
    fn more(_: &[&str], _: &mut Regs<i8>) -> Option<String> {
        None
    }
}
quadratic!(q_i16, i16);
quadratic!(q_i32, i32);
quadratic!(q_i64, i64);
quadratic!(q_i128, i128);
quadratic!(q_isize, isize);
quadratic!(q_f32, f32);

pub mod q_f64 {
    use super::*;
    quad_ops!(f64);
}
impl More for f64 {
    fn more(c: &[&str], r: &mut Regs<f64>) -> Option<String> {
        if c[0] == "froots" {
            let v = match reg!(r, c[1]) {
                V::D(p) => guard(|| p.roots()),
                V::S(p) => guard(|| p.roots()),
                _ => return Some("unsup".into()),
            };
            return Some(v.map(roots_text).unwrap_or("panic".into()));
        }
        q_f64::quad(c, r)
    }
}

#[cfg(feature = "residues")]
pub mod t_gf {
    use super::*;
    use crate::gf::Gf;
    base_ops!(Gf);
    neg_ops!(Gf);
    pub fn exec(c: &[&str], r: &mut Regs<Gf>) -> Option<String> {
        base(c, r).or_else(|| neg(c, r))
    }
}

#[cfg(feature = "residues")]
pub mod t_ring {
    use super::*;
    use crate::gf::Ring;
    base_ops!(Ring);
    neg_ops!(Ring);
    pub fn exec(c: &[&str], r: &mut Regs<Ring>) -> Option<String> {
        base(c, r).or_else(|| neg(c, r))
    }
}

/// Conversions to wider coefficient types: conv target a degrees
pub trait Convert: Sized + Io {
    fn convert(_: &[&str], _: &mut Regs<Self>) -> Option<String> {
        None
    }
}
pub fn convert<N: Convert>(c: &[&str], r: &mut Regs<N>) -> Option<String> {
    if c[0] == "conv" {
        N::convert(c, r)
    } else {
        None
    }
}
macro_rules! wider {
    ($A:ty: $($B:ident)*) => {
        impl Convert for $A {
            fn convert(c: &[&str], r: &mut Regs<$A>) -> Option<String> {
                let a = reg!(r, c[2]);
                let looks = degrees(c[3]);
                $(if c[1] == stringify!($B) {
                    let v = guard(|| {
                        let v: V<$B> = match a {
                            V::D(p) => V::D(p.into()),
                            V::S(p) => V::S(p.into()),
                            V::M(p) => V::M(p.into()),
                            V::L(p) => V::L(p.into()),
                            V::Q(p) => V::Q(p.into()),
                        };
                        let t = stored(&v);
                        format!("ok {} {}", t, each!(&v, p => obs_text!(p, looks)))
                    });
                    return Some(v.unwrap_or("panic".into()));
                })*
                None
            }
        }
    };
}
wider!(u8: u16 u32 u64 u128 i16 i32 i64 i128 f32 f64);
wider!(u16: u32 u64 u128 i32 i64 i128 f32 f64);
wider!(u32: u64 u128 i64 i128 f64);
wider!(u64: u128 i128);
wider!(i8: i16 i32 i64 i128 f32 f64);
wider!(i16: i32 i64 i128 f32 f64);
wider!(i32: i64 i128 f64);
wider!(i64: i128);
wider!(f32: f64);
impl Convert for u128 {}
impl Convert for i128 {}
impl Convert for isize {}
impl Convert for usize {}
impl Convert for f64 {}
