//! Array polynomials (feature array_polynomials, reached through the guarded re-export).
use harness::ops::*;
use harness::{obs_text, reg};
use rustnomial::ArrayPolynomial;
use std::io::{BufRead, Write};

macro_rules! kinds {
    ($($K:ident $n:literal),*) => {
        #[derive(Clone)]
        enum W<N> {
            $($K(ArrayPolynomial<N, $n>),)*
            D(Polynomial<N>),
        }
        macro_rules! all {
            ($v:expr, $p:ident => $e:expr) => {
                match $v {
                    $(W::$K($p) => $e,)*
                    W::D($p) => $e,
                }
            };
        }
        /// Same variant in and out.
        macro_rules! keep {
            ($v:expr, $p:ident => $e:expr) => {
                match $v {
                    $(W::$K($p) => W::$K($e),)*
                    W::D($p) => W::D($e),
                }
            };
        }
        macro_rules! pairs {
            ($v:expr, $p:ident, $q:ident => $e:expr) => {
                match $v {
                    $((W::$K($p), W::$K($q)) => $e,)*
                    (W::D($p), W::D($q)) => $e,
                    _ => return None,
                }
            };
        }
        fn build<N: Io>(v: Vec<N>) -> Option<W<N>> {
            match v.len() {
                $($n => {
                    let a: [N; $n] = v.try_into().ok()?;
                    Some(W::$K(ArrayPolynomial::new(a)))
                })*
                _ => None,
            }
        }
        fn empty<N: Io + Zero>(n: usize) -> Option<W<N>> {
            match n {
                $($n => Some(W::$K(ArrayPolynomial::<N, $n>::zero())),)*
                _ => None,
            }
        }
        fn size<N>(v: &W<N>) -> usize {
            match v {
                $(W::$K(_) => $n,)*
                W::D(p) => p.terms.len(),
            }
        }
    };
}
kinds!(A0 0, A1 1, A2 2, A3 3, A4 4, A5 5, A6 6, A8 8, A9 9, A12 12, A17 17, A33 33, A65 65, A128 128, A256 256, A300 300);

impl<N: Clone> W<N> {
    fn copy(&self) -> Self {
        self.clone()
    }
}
type Ws<N> = Vec<Option<W<N>>>;

/// The non-zero terms, found by looking at every degree.
fn terms<N: Io + Zero>(v: &W<N>) -> String {
    match v {
        W::D(p) => stored(&V::D(p.clone())),
        _ => {
            let n = size(v);
            let it = (0..n).rev().filter_map(|d| match all!(v, p => p.term_with_degree(d)) {
                Term::Term(c, e) => Some((c, e)),
                Term::ZeroTerm => None,
            });
            terms_text(it)
        }
    }
}
fn keep_result<N: Io + Zero>(r: &mut Ws<N>, d: usize, v: Result<W<N>, ()>) -> Option<String> {
    Some(match v {
        Ok(v) => {
            let t = format!("ok {}", terms(&v));
            r[d] = Some(v);
            t
        }
        Err(()) => {
            r[d] = None;
            "panic".into()
        }
    })
}
fn finish<N: Io + Zero>(r: &mut Ws<N>, i: usize, v: Result<(W<N>, Result<(), TryAddError>), ()>) -> Option<String> {
    Some(match v {
        Ok((a, e)) => {
            let t = format!("{} {}", e.map(|_| "ok").unwrap_or_else(try_text), terms(&a));
            r[i] = Some(a);
            t
        }
        Err(()) => {
            r[i] = None;
            "panic".into()
        }
    })
}

/// Derivatives and integrals, which isize and usize do not offer.
macro_rules! calculus {
    ($f:ident, $N:ty) => {
        fn $f(c: &[&str], r: &mut Ws<$N>) -> Option<String> {
            let rd = |s: &str| <$N as Io>::rd(s);
            match c[0] {
                "der" => {
                    let a = reg!(r, c[1]);
                    let v = guard(|| keep!(&a, p => p.derivative()));
                    keep_result(r, idx(c[2]), v)
                }
                "int" => {
                    let a = reg!(r, c[1]);
                    let v = guard(|| W::D(all!(&a, p => p.integral().inner().clone())));
                    keep_result(r, idx(c[2]), v)
                }
                "area" => {
                    let a = reg!(r, c[1]);
                    let (x, y) = (rd(c[2]), rd(c[3]));
                    value(guard(|| all!(&a, p => p.integral().eval(x, y))))
                }
                "repc" => {
                    let a = reg!(r, c[1]);
                    let x = rd(c[2]);
                    let v = guard(|| W::D(all!(&a, p => p.integral().replace_c(x))));
                    keep_result(r, idx(c[3]), v)
                }
                _ => None,
            }
        }
    };
}
macro_rules! exec {
    ($f:ident, $N:ty, $calc:expr, $more:expr) => {
        fn $f(c: &[&str], r: &mut Ws<$N>) -> Option<String> {
            type N = $N;
            let rd = |s: &str| <N as Io>::rd(s);
            match c[0] {
                "put" => {
                    // put d A lit list
                    let v: Vec<N> = if c[4] == "-" { vec![] } else { c[4].split(',').map(rd).collect() };
                    let w = build(v)?;
                    keep_result(r, idx(c[1]), Ok(w))
                }
                "zero" => {
                    // zero n d
                    let n = idx(c[1]);
                    let v = guard(|| empty::<N>(n).expect("size"));
                    keep_result(r, idx(c[2]), v)
                }
                "obs" => {
                    let a = reg!(r, c[1]);
                    let looks = degrees(c[2]);
                    let v = guard(|| all!(&a, p => format!("ok {}", obs_text!(p, looks))));
                    Some(v.unwrap_or("panic".into()))
                }
                "eval" => {
                    let a = reg!(r, c[1]);
                    let x = rd(c[2]);
                    value(guard(|| all!(&a, p => p.eval(x))))
                }
                "tadd" | "tsub" => {
                    let i = idx(c[1]);
                    let (k, g) = (rd(c[2]), idx(c[3]));
                    let plus = c[0] == "tadd";
                    let mut a = reg!(r, c[1]);
                    let v = guard(|| {
                        let e = all!(&mut a, p => if plus { p.try_add_term(k, g) } else { p.try_sub_term(k, g) });
                        (a, e)
                    });
                    finish(r, i, v)
                }
                "addp" | "subp" => {
                    // addp form src sink
                    let i = idx(c[3]);
                    let a = reg!(r, c[2]);
                    let mut b = reg!(r, c[3]);
                    let v = guard(|| {
                        let ts: Vec<(N, usize)> = all!(&a, s => s.ordered_term_iter().collect());
                        let e = all!(&mut b, k => if c[0] == "addp" {
                            poly_math::add_poly(ts.into_iter(), k)
                        } else {
                            poly_math::sub_poly(ts.into_iter(), k)
                        });
                        (b, e)
                    });
                    finish(r, i, v)
                }
                "mulp" => {
                    // mulp x y sink
                    let i = idx(c[3]);
                    let (x, y) = (reg!(r, c[1]), reg!(r, c[2]));
                    let mut b = reg!(r, c[3]);
                    let v = guard(|| {
                        let ys = all!(&y, p => p.terms_as_vec());
                        let xs: Vec<(N, usize)> = all!(&x, p => p.ordered_term_iter().collect());
                        let e = all!(&mut b, k => poly_math::mul_poly_vec(xs.into_iter(), &ys, k));
                        (b, e)
                    });
                    finish(r, i, v)
                }
                "eq" => {
                    let (a, b) = (reg!(r, c[1]), reg!(r, c[2]));
                    let v = guard(|| Some(pairs!((&a, &b), p, q => (p == q, p != q))));
                    Some(match v {
                        Err(()) => "panic".into(),
                        Ok(None) => "unsup".into(),
                        Ok(Some((x, y))) => format!("ok {} {}", x, y),
                    })
                }
                "setz" => {
                    let mut a = reg!(r, c[1]);
                    let v = guard(|| {
                        all!(&mut a, p => p.set_to_zero());
                        a
                    });
                    keep_result(r, idx(c[1]), v)
                }
                "clone" => {
                    let a = reg!(r, c[1]);
                    let v = guard(|| a.clone());
                    keep_result(r, idx(c[2]), v)
                }
                _ => $calc(c, r).or_else(|| $more(c, r)),
            }
        }
    };
}
macro_rules! roots {
    ($f:ident, $N:ty) => {
        fn $f(c: &[&str], r: &mut Ws<$N>) -> Option<String> {
            match (c[0], reg!(r, c[1])) {
                ("lroot", W::A2(p)) => Some(guard(|| p.root()).map(roots_text).unwrap_or("panic".into())),
                ("disc", W::A3(p)) => value(guard(|| p.discriminant())),
                ("qroots", W::A3(p)) => Some(guard(|| p.roots()).map(roots_text).unwrap_or("panic".into())),
                ("rfac", W::A3(p)) => Some(match guard(|| p.real_factors()) {
                    Err(()) => "panic".into(),
                    Ok(None) => "ok none".into(),
                    Ok(Some((k, a, b))) => {
                        let t: Vec<String> = [&a, &b]
                            .iter()
                            .flat_map(|f| [1, 0].map(|d| match f.term_with_degree(d) {
                                Term::Term(c, _) => c.wr(),
                                Term::ZeroTerm => <$N>::zero().wr(),
                            }))
                            .collect();
                        format!("ok some {} {}", k.wr(), t.join(","))
                    }
                }),
                ("cfac", W::A3(p)) => Some(match guard(|| p.complex_factors()) {
                    Err(()) => "panic".into(),
                    Ok((k, a, b)) => {
                        let t: Vec<String> = [&a, &b]
                            .iter()
                            .flat_map(|f| [1, 0].map(|d| match f.term_with_degree(d) {
                                Term::Term(c, _) => format!("{}:{}", c.re.wr(), c.im.wr()),
                                Term::ZeroTerm => format!("{}:{}", <$N>::zero().wr(), <$N>::zero().wr()),
                            }))
                            .collect();
                        format!("ok some {} {}", k.wr(), t.join(","))
                    }
                }),
                _ => None,
            }
        }
    };
}
fn none<N>(_: &[&str], _: &mut Ws<N>) -> Option<String> {
    None
}
roots!(r_i16, i16);
roots!(r_i32, i32);
roots!(r_i64, i64);
roots!(r_i128, i128);
roots!(r_isize, isize);
roots!(r_f32, f32);
roots!(r_f64, f64);
calculus!(c_i8, i8);
exec!(e_i8, i8, c_i8, none);
calculus!(c_i16, i16);
exec!(e_i16, i16, c_i16, r_i16);
calculus!(c_i32, i32);
exec!(e_i32, i32, c_i32, r_i32);
calculus!(c_i64, i64);
exec!(e_i64, i64, c_i64, r_i64);
calculus!(c_i128, i128);
exec!(e_i128, i128, c_i128, r_i128);
calculus!(c_f32, f32);
exec!(e_f32, f32, c_f32, r_f32);
calculus!(c_f64, f64);
exec!(e_f64, f64, c_f64, r_f64);
exec!(e_isize, isize, none, r_isize);
exec!(e_usize, usize, none, none);
calculus!(c_u8, u8);
exec!(e_u8, u8, c_u8, none);
calculus!(c_u16, u16);
exec!(e_u16, u16, c_u16, none);
calculus!(c_u32, u32);
exec!(e_u32, u32, c_u32, none);
calculus!(c_u64, u64);
exec!(e_u64, u64, c_u64, none);
calculus!(c_u128, u128);
exec!(e_u128, u128, c_u128, none);

struct Machine<N> {
    regs: Ws<N>,
    exec: fn(&[&str], &mut Ws<N>) -> Option<String>,
}
trait Dyn {
    fn step(&mut self, c: &[&str]) -> String;
}
impl<N: Clone> Dyn for Machine<N> {
    fn step(&mut self, c: &[&str]) -> String {
        (self.exec)(c, &mut self.regs).unwrap_or_else(|| "unsup".into())
    }
}
fn machine<N: Clone + 'static>(exec: fn(&[&str], &mut Ws<N>) -> Option<String>) -> Box<dyn Dyn> {
    Box::new(Machine { regs: vec![None; REGS], exec })
}
fn start(t: &str) -> Box<dyn Dyn> {
    match t {
        "i8" => machine::<i8>(e_i8),
        "i16" => machine::<i16>(e_i16),
        "i32" => machine::<i32>(e_i32),
        "i64" => machine::<i64>(e_i64),
        "i128" => machine::<i128>(e_i128),
        "isize" => machine::<isize>(e_isize),
        "usize" => machine::<usize>(e_usize),
        "u8" => machine::<u8>(e_u8),
        "u16" => machine::<u16>(e_u16),
        "u32" => machine::<u32>(e_u32),
        "u64" => machine::<u64>(e_u64),
        "u128" => machine::<u128>(e_u128),
        "f32" => machine::<f32>(e_f32),
        "f64" => machine::<f64>(e_f64),
        _ => panic!("type"),
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let input = std::io::stdin();
    let mut out = std::io::stdout().lock();
    let mut m = start("i32");
    for line in input.lock().lines() {
        let line = line.expect("input");
        let c: Vec<&str> = line.split(' ').collect();
        let answer = if c[0] == "H" {
            m = start(c[1]);
            "H".to_string()
        } else {
            m.step(&c)
        };
        writeln!(out, "{}", answer).expect("output");
        out.flush().expect("output");
    }
}
