//! The calls.  Each macro below writes one dispatcher for a concrete coefficient type.
pub use crate::num_io::Io;
pub use num::{Complex, One, Zero};
pub use rustnomial::{
    poly_math, Degree, Derivable, Evaluable, FreeSizePolynomial, Integrable, Integral,
    LinearBinomial, Monomial, MutablePolynomial, Polynomial, PolynomialFromStringError,
    QuadraticTrinomial, Roots, SizedPolynomial, SparsePolynomial, Term, TryAddError,
};
pub use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
pub use std::str::FromStr;

pub const REGS: usize = 9;

#[derive(Clone, Debug)]
pub enum V<N> {
    D(Polynomial<N>),
    S(SparsePolynomial<N>),
    M(Monomial<N>),
    L(LinearBinomial<N>),
    Q(QuadraticTrinomial<N>),
}

impl<N: Clone> V<N> {
    /// A copy to hand to the library. What a polynomial is does not depend on how much room its
    /// vector has, so some have none to spare and others do.
    pub fn copy(&self) -> V<N> {
        let mut v = self.clone();
        if let V::D(p) = &mut v {
            if p.terms.len() % 2 == 0 {
                p.terms.reserve(17);
            }
        }
        v
    }
}

pub type Regs<N> = Vec<Option<V<N>>>;

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, ()> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| ())
}

pub fn terms_text<N: Io>(it: impl Iterator<Item = (N, usize)>) -> String {
    let v: Vec<String> = it.map(|(c, d)| format!("{}:{}", c.wr(), d)).collect();
    if v.is_empty() {
        "-".into()
    } else {
        v.join(",")
    }
}

/// The non-zero terms as they are stored, highest degree first.
pub fn stored<N: Io + Zero>(v: &V<N>) -> String {
    fn vec_terms<N: Io + Zero>(t: &[N]) -> String {
        let n = t.len();
        terms_text(
            t.iter()
                .enumerate()
                .filter(|(_, c)| !c.is_zero())
                .map(|(i, &c)| (c, n - 1 - i)),
        )
    }
    match v {
        V::D(p) => vec_terms(&p.terms),
        V::S(p) => terms_text(
            p.terms
                .iter()
                .rev()
                .filter(|(_, c)| !c.is_zero())
                .map(|(&d, &c)| (c, d)),
        ),
        V::M(p) => terms_text(
            Some((p.coefficient, p.deg))
                .into_iter()
                .filter(|(c, _)| !c.is_zero()),
        ),
        V::L(p) => vec_terms(&p.coefficients),
        V::Q(p) => vec_terms(&p.coefficients),
    }
}

/// Everything the observers of a polynomial say.
#[macro_export]
macro_rules! obs_text {
    ($p:expr, $looks:expr) => {{
        let p = $p;
        let deg = match p.degree() {
            Degree::NegInf => "-".to_string(),
            Degree::Num(x) => format!("{}", x),
        };
        let lk: Vec<String> = $looks
            .iter()
            .map(|&g| match p.term_with_degree(g) {
                Term::ZeroTerm => format!("{}", g),
                Term::Term(k, e) => format!("{}:{}:{}", g, k.wr(), e),
            })
            .collect();
        format!(
            "{} {} {} {} {}",
            deg,
            p.is_zero(),
            terms_text(p.ordered_term_iter()),
            terms_text(p.terms_as_vec().into_iter()),
            if lk.is_empty() { "-".into() } else { lk.join(",") }
        )
    }};
}

pub fn degrees(s: &str) -> Vec<usize> {
    if s == "-" {
        return vec![];
    }
    s.split(',').map(idx).collect()
}
pub fn idx(s: &str) -> usize {
    s.parse().expect("index")
}
pub fn i32_of(s: &str) -> i32 {
    s.parse().expect("shift")
}

pub fn store<N: Io + Zero>(r: &mut Regs<N>, d: usize, v: Result<V<N>, ()>) -> Option<String> {
    Some(match v {
        Ok(v) => {
            let t = format!("ok {}", stored(&v));
            r[d] = Some(v);
            t
        }
        Err(()) => {
            r[d] = None;
            "panic".into()
        }
    })
}

pub fn value<N: Io>(v: Result<N, ()>) -> Option<String> {
    Some(match v {
        Ok(v) => format!("ok {}", v.wr()),
        Err(()) => "panic".into(),
    })
}

pub fn try_text(e: TryAddError) -> &'static str {
    match e {
        TryAddError::DegreeOutOfBounds => "DegreeOutOfBounds",
        TryAddError::TooManyTerms => "TooManyTerms",
        TryAddError::CanNotNegate => "CanNotNegate",
    }
}

pub fn parse_error_text(e: PolynomialFromStringError) -> String {
    use rustnomial::err::TermFromStringError as T;
    match e {
        PolynomialFromStringError::NoTermsFound => "NoTermsFound".into(),
        PolynomialFromStringError::AddingTerm(e) => try_text(e).into(),
        PolynomialFromStringError::TermFromString(t) => match t {
            T::MoreThanOneX => "MoreThanOneX".into(),
            T::CoeffCouldNotBeParsed => "CoeffCouldNotBeParsed".into(),
            T::UnexpectedChar(c) => format!("UnexpectedChar:{}", c as u32),
            T::CaretWithoutXInFront => "CaretWithoutXInFront".into(),
            T::CaretWithoutDegree => "CaretWithoutDegree".into(),
            T::MultipleCarets => "MultipleCarets".into(),
            T::DegreeCouldNotBeParsed => "DegreeCouldNotBeParsed".into(),
        },
    }
}

/// Space-free form of any text.
pub fn hex(s: &str) -> String {
    if s.is_empty() {
        return "-".into();
    }
    s.bytes().map(|b| format!("{:02x}", b)).collect()
}
pub fn unhex(s: &str) -> String {
    if s == "-" {
        return String::new();
    }
    let b: Vec<u8> = (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex"))
        .collect();
    String::from_utf8(b).expect("utf8")
}

pub fn roots_text<N: Io>(v: Roots<N>) -> String {
    fn re<N: Io>(v: &[N]) -> String {
        let t: Vec<String> = v.iter().map(|x| x.wr()).collect();
        if t.is_empty() {
            "-".into()
        } else {
            t.join(",")
        }
    }
    fn co<N: Io>(v: &[Complex<N>]) -> String {
        let t: Vec<String> = v
            .iter()
            .map(|x| format!("{}:{}", x.re.wr(), x.im.wr()))
            .collect();
        if t.is_empty() {
            "-".into()
        } else {
            t.join(",")
        }
    }
    match v {
        Roots::NoRoots => "ok NoRoots -".into(),
        Roots::NoRootsFound => "ok NoRootsFound -".into(),
        Roots::InfiniteRoots => "ok InfiniteRoots -".into(),
        Roots::OneRealRoot(a) => format!("ok OneRealRoot {}", re(&[a])),
        Roots::TwoRealRoots(a, b) => format!("ok TwoRealRoots {}", re(&[a, b])),
        Roots::ThreeRealRoots(a, b, c) => format!("ok ThreeRealRoots {}", re(&[a, b, c])),
        Roots::ManyRealRoots(v) => format!("ok ManyRealRoots {}", re(&v)),
        Roots::OneComplexRoot(a) => format!("ok OneComplexRoot {}", co(&[a])),
        Roots::TwoComplexRoots(a, b) => format!("ok TwoComplexRoots {}", co(&[a, b])),
        Roots::ThreeComplexRoots(a, b, c) => format!("ok ThreeComplexRoots {}", co(&[a, b, c])),
        Roots::ManyComplexRoots(v) => format!("ok ManyComplexRoots {}", co(&v)),
        Roots::OnlyRealRoots(v) => format!("ok OnlyRealRoots {}", re(&v)),
    }
}

/// Runs `$e` for the polynomial inside, whatever its kind.
#[macro_export]
macro_rules! each {
    ($v:expr, $p:ident => $e:expr) => {
        match $v {
            V::D($p) => $e,
            V::S($p) => $e,
            V::M($p) => $e,
            V::L($p) => $e,
            V::Q($p) => $e,
        }
    };
}

/// A register that has to be there.
#[macro_export]
macro_rules! reg {
    ($r:expr, $i:expr) => {
        match &$r[idx($i)] {
            Some(v) => v.copy(),
            None => return Some("skip".into()),
        }
    };
}

/// Calls whose bounds are all public: these work for a client's own coefficient type too.
#[macro_export]
macro_rules! base_ops {
    ($N:ty) => {
        pub fn base(c: &[&str], r: &mut Regs<$N>) -> Option<String> {
            type N = $N;
            let rd = |s: &str| <N as Io>::rd(s);
            let list = |s: &str| -> Vec<N> {
                if s == "-" {
                    vec![]
                } else {
                    s.split(',').map(rd).collect()
                }
            };
            let pairs = |s: &str| -> Vec<(N, usize)> {
                if s == "-" {
                    vec![]
                } else {
                    s.split(',')
                        .map(|t| {
                            let (a, b) = t.split_once(':').expect("pair");
                            (rd(a), idx(b))
                        })
                        .collect()
                }
            };
            match c[0] {
                "put" => {
                    // put d kind constructor raw
                    let d = idx(c[1]);
                    let form = c[3];
                    let raw = c[4];
                    let v = guard(|| match c[2] {
                        "D" => V::D(match form {
                            "lit" => Polynomial { terms: list(raw) },
                            "new" => Polynomial::new(list(raw)),
                            "from" => Polynomial::from(list(raw)),
                            "mac" => match list(raw)[..] {
                                [] => rustnomial::polynomial!(),
                                [a] => rustnomial::polynomial!(a),
                                [a, b] => rustnomial::polynomial!(a, b),
                                [a, b, c] => rustnomial::polynomial![a, b, c],
                                [a, b, c, d] => rustnomial::polynomial!(a, b, c, d),
                                [a, b, c, d, e] => rustnomial::polynomial!(a, b, c, d, e),
                                _ => panic!("form"),
                            },
                            _ => panic!("form"),
                        }),
                        "S" => V::S(match form {
                            "lit" => SparsePolynomial {
                                terms: pairs(raw).into_iter().map(|(a, b)| (b, a)).collect(),
                            },
                            "new" => SparsePolynomial::new(
                                pairs(raw).into_iter().map(|(a, b)| (b, a)).collect::<BTreeMap<usize, N>>(),
                            ),
                            "from" => SparsePolynomial::from(list(raw)),
                            _ => panic!("form"),
                        }),
                        "M" => {
                            let (a, b) = pairs(raw)[0];
                            V::M(match form {
                                "lit" => Monomial { coefficient: a, deg: b },
                                "new" => Monomial::new(a, b),
                                "from" => Monomial::from(a),
                                _ => panic!("form"),
                            })
                        }
                        "L" => {
                            let v = list(raw);
                            V::L(match form {
                                "lit" => LinearBinomial { coefficients: [v[0], v[1]] },
                                _ => LinearBinomial::new([v[0], v[1]]),
                            })
                        }
                        "Q" => {
                            let v = list(raw);
                            V::Q(match form {
                                "lit" => QuadraticTrinomial { coefficients: [v[0], v[1], v[2]] },
                                _ => QuadraticTrinomial::new([v[0], v[1], v[2]]),
                            })
                        }
                        _ => panic!("kind"),
                    });
                    store(r, d, v)
                }
                "add" => {
                    // add form a b d
                    let (a, b) = (reg!(r, c[2]), reg!(r, c[3]));
                    let v = match (a, b, c[1]) {
                        (V::D(a), V::D(b), "op") => guard(|| V::D(a + b)),
                        (V::D(mut a), V::D(b), "as") => guard(|| {
                            a += b;
                            V::D(a)
                        }),
                        (V::S(a), V::S(b), "op") => guard(|| V::S(a + b)),
                        (V::S(mut a), V::S(b), "as") => guard(|| {
                            a += b;
                            V::S(a)
                        }),
                        (V::L(a), V::L(b), "op") => guard(|| V::L(a + b)),
                        (V::L(mut a), V::L(b), "as") => guard(|| {
                            a += b;
                            V::L(a)
                        }),
                        (V::Q(a), V::Q(b), "op") => guard(|| V::Q(a + b)),
                        (V::Q(mut a), V::Q(b), "as") => guard(|| {
                            a += b;
                            V::Q(a)
                        }),
                        _ => return Some("unsup".into()),
                    };
                    store(r, idx(c[4]), v)
                }
                "sub" => {
                    let (a, b) = (reg!(r, c[2]), reg!(r, c[3]));
                    let v = match (a, b, c[1]) {
                        (V::L(a), V::L(b), "op") => guard(|| V::L(a - b)),
                        (V::L(mut a), V::L(b), "as") => guard(|| {
                            a -= b;
                            V::L(a)
                        }),
                        (V::Q(a), V::Q(b), "op") => guard(|| V::Q(a - b)),
                        (V::Q(mut a), V::Q(b), "as") => guard(|| {
                            a -= b;
                            V::Q(a)
                        }),
                        _ => return None,
                    };
                    store(r, idx(c[4]), v)
                }
                "mul" => {
                    let (a, b) = (reg!(r, c[2]), reg!(r, c[3]));
                    let v = match (a, b, c[1]) {
                        (V::D(a), V::D(b), "vv") => guard(|| V::D(a * b)),
                        (V::D(a), V::D(b), "vr") => guard(|| V::D(a * &b)),
                        (V::D(a), V::D(b), "rv") => guard(|| V::D(&a * b)),
                        (V::D(a), V::D(b), "rr") => guard(|| V::D(if c[2] == c[3] { &a * &a } else { &a * &b })),
                        (V::D(mut a), V::D(b), "av") => guard(|| {
                            a *= b;
                            V::D(a)
                        }),
                        (V::D(mut a), V::D(b), "ar") => guard(|| {
                            a *= &b;
                            V::D(a)
                        }),
                        (V::S(a), V::S(b), "vv") => guard(|| V::S(a * b)),
                        (V::S(a), V::S(b), "vr") => guard(|| V::S(a * &b)),
                        (V::S(a), V::S(b), "rr") => guard(|| V::S(a.borrow_mul(if c[2] == c[3] { &a } else { &b }))),
                        (V::S(mut a), V::S(b), "av") => guard(|| {
                            a *= b;
                            V::S(a)
                        }),
                        (V::S(mut a), V::S(b), "ar") => guard(|| {
                            a *= &b;
                            V::S(a)
                        }),
                        (V::M(a), V::M(b), "vv") => guard(|| V::M(a * b)),
                        (V::M(a), V::M(b), "vr") => guard(|| V::M(a * &b)),
                        (V::M(mut a), V::M(b), "av") => guard(|| {
                            a *= b;
                            V::M(a)
                        }),
                        (V::M(mut a), V::M(b), "ar") => guard(|| {
                            a *= &b;
                            V::M(a)
                        }),
                        _ => return Some("unsup".into()),
                    };
                    store(r, idx(c[4]), v)
                }
                "smul" | "sdiv" => {
                    // smul form a scalar d
                    let a = reg!(r, c[2]);
                    let k = rd(c[3]);
                    let mulp = c[0] == "smul";
                    let asg = c[1] == "as";
                    macro_rules! go {
                        ($V:ident, $p:ident) => {
                            guard(move || {
                                let mut $p = $p;
                                V::$V(if mulp {
                                    if asg {
                                        $p *= k;
                                        $p
                                    } else {
                                        $p * k
                                    }
                                } else if asg {
                                    $p /= k;
                                    $p
                                } else {
                                    $p / k
                                })
                            })
                        };
                    }
                    let v = match a {
                        V::D(p) => go!(D, p),
                        V::S(p) => go!(S, p),
                        V::M(p) => go!(M, p),
                        V::L(p) => go!(L, p),
                        V::Q(p) => go!(Q, p),
                    };
                    store(r, idx(c[4]), v)
                }
                "pow" => {
                    // pow a n d
                    let n = idx(c[2]);
                    let v = match reg!(r, c[1]) {
                        V::D(a) => guard(|| V::D(a.pow(n))),
                        V::S(a) => guard(|| V::S(a.pow(n))),
                        _ => return None,
                    };
                    store(r, idx(c[3]), v)
                }
                "shl" | "shr" => {
                    // shl form a n d
                    let left = c[0] == "shl";
                    let asg = c[1] == "as";
                    let a = reg!(r, c[2]);
                    macro_rules! go {
                        ($V:ident, $p:ident) => {{
                            let n = i32_of(c[3]);
                            guard(move || {
                                let mut $p = $p;
                                V::$V(match (left, asg) {
                                    (true, false) => $p << n,
                                    (true, true) => {
                                        $p <<= n;
                                        $p
                                    }
                                    (false, false) => $p >> n,
                                    (false, true) => {
                                        $p >>= n;
                                        $p
                                    }
                                })
                            })
                        }};
                    }
                    macro_rules! gor {
                        ($V:ident, $p:ident) => {{
                            let n: u32 = match c[3].parse() {
                                Ok(n) if !left => n,
                                _ => return Some("unsup".into()),
                            };
                            guard(move || {
                                let mut $p = $p;
                                V::$V(if asg {
                                    $p >>= n;
                                    $p
                                } else {
                                    $p >> n
                                })
                            })
                        }};
                    }
                    let v = match a {
                        V::D(p) => go!(D, p),
                        V::S(p) => go!(S, p),
                        V::M(p) => go!(M, p),
                        V::L(p) => gor!(L, p),
                        V::Q(p) => gor!(Q, p),
                    };
                    store(r, idx(c[4]), v)
                }
                "div" => {
                    // div a b d e
                    let (a, b) = match (reg!(r, c[1]), reg!(r, c[2])) {
                        (V::D(a), V::D(b)) => (a, b),
                        _ => return None,
                    };
                    let v = guard(|| a.div_mod(if c[1] == c[2] { &a } else { &b }));
                    let (d, e) = (idx(c[3]), idx(c[4]));
                    Some(match v {
                        Ok((q, m)) => {
                            let (q, m) = (V::D(q), V::D(m));
                            let t = format!("ok {} {}", stored(&q), stored(&m));
                            r[d] = Some(q);
                            r[e] = Some(m);
                            t
                        }
                        Err(()) => {
                            r[d] = None;
                            r[e] = None;
                            "panic".into()
                        }
                    })
                }
                "quo" | "rem" | "remas" => {
                    // quo a b d
                    let (a, b) = match (reg!(r, c[1]), reg!(r, c[2])) {
                        (V::D(a), V::D(b)) => (a, b),
                        _ => return None,
                    };
                    let v = match c[0] {
                        "quo" => guard(|| V::D(a.floor_div(if c[1] == c[2] { &a } else { &b }))),
                        "rem" => guard(|| V::D(a % b)),
                        _ => guard(|| {
                            let mut a = a;
                            a %= b;
                            V::D(a)
                        }),
                    };
                    store(r, idx(c[3]), v)
                }
                "eval" => {
                    // eval a point
                    let x = rd(c[2]);
                    let v = match reg!(r, c[1]) {
                        V::D(p) => guard(|| p.eval(x)),
                        V::L(p) => guard(|| p.eval(x)),
                        V::Q(p) => guard(|| p.eval(x)),
                        _ => return None,
                    };
                    value(v)
                }
                "aterm" => {
                    // aterm a coeff degree
                    let (k, g) = (rd(c[2]), idx(c[3]));
                    let v = match reg!(r, c[1]) {
                        V::D(mut p) => guard(|| {
                            p.add_term(k, g);
                            V::D(p)
                        }),
                        V::S(mut p) => guard(|| {
                            p.add_term(k, g);
                            V::S(p)
                        }),
                        _ => return Some("unsup".into()),
                    };
                    store(r, idx(c[1]), v)
                }
                "fterms" => {
                    // fterms kind d terms
                    let ts = pairs(c[3]);
                    let v = match c[1] {
                        "D" => guard(|| V::D(Polynomial::from_terms(&ts))),
                        "S" => guard(|| V::S(SparsePolynomial::from_terms(&ts))),
                        _ => return Some("unsup".into()),
                    };
                    store(r, idx(c[2]), v)
                }
                "obs" => {
                    // obs a degrees
                    let a = reg!(r, c[1]);
                    let looks = degrees(c[2]);
                    let v = guard(|| each!(&a, p => format!("ok {}", obs_text!(p, looks))));
                    Some(v.unwrap_or("panic".into()))
                }
                "eq" => {
                    let v = match (reg!(r, c[1]), reg!(r, c[2])) {
                        (V::D(a), V::D(b)) => guard(|| if c[1] == c[2] { (a == a, a != a) } else { (a == b, a != b) }),
                        (V::S(a), V::S(b)) => guard(|| if c[1] == c[2] { (a == a, a != a) } else { (a == b, a != b) }),
                        (V::M(a), V::M(b)) => guard(|| if c[1] == c[2] { (a == a, a != a) } else { (a == b, a != b) }),
                        (V::L(a), V::L(b)) => guard(|| if c[1] == c[2] { (a == a, a != a) } else { (a == b, a != b) }),
                        (V::Q(a), V::Q(b)) => guard(|| if c[1] == c[2] { (a == a, a != a) } else { (a == b, a != b) }),
                        _ => return Some("unsup".into()),
                    };
                    Some(match v {
                        Ok((x, y)) => format!("ok {} {}", x, y),
                        Err(()) => "panic".into(),
                    })
                }
                "zero" => {
                    // zero kind d
                    let v = guard(|| match c[1] {
                        "D" => V::D(Polynomial::<N>::zero()),
                        "S" => V::S(SparsePolynomial::<N>::zero()),
                        "M" => V::M(Monomial::<N>::zero()),
                        "L" => V::L(LinearBinomial::<N>::zero()),
                        "Q" => V::Q(QuadraticTrinomial::<N>::zero()),
                        _ => panic!("kind"),
                    });
                    store(r, idx(c[2]), v)
                }
                "setz" => {
                    let a = reg!(r, c[1]);
                    let v = guard(|| {
                        let mut a = a;
                        each!(&mut a, p => p.set_to_zero());
                        a
                    });
                    store(r, idx(c[1]), v)
                }
                "trim" => {
                    let v = match reg!(r, c[1]) {
                        V::D(mut p) => guard(|| {
                            p.trim();
                            V::D(p)
                        }),
                        #[cfg(feature = "array")]
                        V::S(mut p) => guard(|| {
                            p.trim();
                            V::S(p)
                        }),
                        _ => return Some("unsup".into()),
                    };
                    store(r, idx(c[1]), v)
                }
                "raw" => {
                    // How many coefficients are stored, zeros included.
                    Some(format!("ok {}", match reg!(r, c[1]) {
                        V::D(p) => p.terms.len(),
                        V::S(p) => p.terms.len(),
                        _ => 0,
                    }))
                }
                "clone" => {
                    let a = reg!(r, c[1]);
                    let v = guard(|| a.clone());
                    store(r, idx(c[2]), v)
                }
                _ => None,
            }
        }
    };
}

/// Calls that need coefficients with a negation.
#[macro_export]
macro_rules! neg_ops {
    ($N:ty) => {
        pub fn neg(c: &[&str], r: &mut Regs<$N>) -> Option<String> {
            match c[0] {
                "neg" => {
                    let v = match reg!(r, c[1]) {
                        V::D(a) => guard(|| V::D(-a)),
                        V::S(a) => guard(|| V::S(-a)),
                        V::M(a) => guard(|| V::M(-a)),
                        V::L(a) => guard(|| V::L(-a)),
                        V::Q(a) => guard(|| V::Q(-a)),
                    };
                    store(r, idx(c[2]), v)
                }
                "sub" => {
                    let v = match (reg!(r, c[2]), reg!(r, c[3]), c[1]) {
                        (V::D(a), V::D(b), "op") => guard(|| V::D(a - b)),
                        (V::D(a), V::D(b), "ref") => guard(|| V::D(a - &b)),
                        (V::D(mut a), V::D(b), "as") => guard(|| {
                            a -= b;
                            V::D(a)
                        }),
                        (V::D(mut a), V::D(b), "asref") => guard(|| {
                            a -= &b;
                            V::D(a)
                        }),
                        (V::S(a), V::S(b), "op") => guard(|| V::S(a - b)),
                        (V::S(mut a), V::S(b), "as") => guard(|| {
                            a -= b;
                            V::S(a)
                        }),
                        (V::S(a), V::D(b), "op") => guard(|| V::S(a - b)),
                        _ => return Some("unsup".into()),
                    };
                    store(r, idx(c[4]), v)
                }
                "div" => {
                    let (a, b) = match (reg!(r, c[1]), reg!(r, c[2])) {
                        (V::S(a), V::S(b)) => (a, b),
                        _ => return Some("unsup".into()),
                    };
                    let v = guard(|| a.div_mod(if c[1] == c[2] { &a } else { &b }));
                    let (d, e) = (idx(c[3]), idx(c[4]));
                    Some(match v {
                        Ok((q, m)) => {
                            let (q, m) = (V::S(q), V::S(m));
                            let t = format!("ok {} {}", stored(&q), stored(&m));
                            r[d] = Some(q);
                            r[e] = Some(m);
                            t
                        }
                        Err(()) => {
                            r[d] = None;
                            r[e] = None;
                            "panic".into()
                        }
                    })
                }
                "rem" | "remas" => {
                    let (a, b) = match (reg!(r, c[1]), reg!(r, c[2])) {
                        (V::S(a), V::S(b)) => (a, b),
                        _ => return Some("unsup".into()),
                    };
                    let v = if c[0] == "rem" {
                        guard(|| V::S(a % b))
                    } else {
                        guard(|| {
                            let mut a = a;
                            a %= b;
                            V::S(a)
                        })
                    };
                    store(r, idx(c[3]), v)
                }
                "lroot" => {
                    let v = match reg!(r, c[1]) {
                        V::L(p) => guard(|| p.root()),
                        _ => return Some("unsup".into()),
                    };
                    Some(v.map(roots_text).unwrap_or("panic".into()))
                }
                _ => None,
            }
        }
    };
}

/// Calls that only the built-in number types support.
#[macro_export]
macro_rules! builtin_ops {
    ($N:ty) => {
        pub fn builtin(c: &[&str], r: &mut Regs<$N>) -> Option<String> {
            type N = $N;
            let rd = |s: &str| <N as Io>::rd(s);
            match c[0] {
                "eval" => {
                    let x = rd(c[2]);
                    let a = reg!(r, c[1]);
                    value(guard(|| each!(&a, p => p.eval(x))))
                }
                "pow" => {
                    let n = idx(c[2]);
                    let v = match reg!(r, c[1]) {
                        V::M(a) => guard(|| V::M(a.pow(n))),
                        _ => return Some("unsup".into()),
                    };
                    store(r, idx(c[3]), v)
                }
                "disp" => {
                    let a = reg!(r, c[1]);
                    let v = guard(|| each!(&a, p => p.to_string()));
                    Some(v.map(|s| format!("ok {}", hex(&s))).unwrap_or("panic".into()))
                }
                "rt" => {
                    // rt a d: display, and parse the text back as the same kind
                    let a = reg!(r, c[1]);
                    let v = guard(|| {
                        Ok::<_, PolynomialFromStringError>(match &a {
                            V::D(p) => V::D(Polynomial::<N>::from_str(&p.to_string())?),
                            V::S(p) => V::S(SparsePolynomial::<N>::from_str(&p.to_string())?),
                            V::M(p) => V::M(Monomial::<N>::from_str(&p.to_string())?),
                            V::L(p) => V::L(LinearBinomial::<N>::from_str(&p.to_string())?),
                            V::Q(p) => V::Q(QuadraticTrinomial::<N>::from_str(&p.to_string())?),
                        })
                    });
                    match v {
                        Ok(Ok(v)) => store(r, idx(c[2]), Ok(v)),
                        Ok(Err(e)) => Some(parse_error_text(e)),
                        Err(()) => Some("panic".into()),
                    }
                }
                "parse" => {
                    // parse kind d text
                    let s = unhex(c[3]);
                    let v = guard(|| {
                        Ok(match c[1] {
                            "D" => V::D(Polynomial::<N>::from_str(&s)?),
                            "S" => V::S(SparsePolynomial::<N>::from_str(&s)?),
                            "M" => V::M(Monomial::<N>::from_str(&s)?),
                            "L" => V::L(LinearBinomial::<N>::from_str(&s)?),
                            "Q" => V::Q(QuadraticTrinomial::<N>::from_str(&s)?),
                            _ => panic!("kind"),
                        })
                    });
                    match v {
                        Ok(Ok(v)) => store(r, idx(c[2]), Ok(v)),
                        Ok(Err(e)) => {
                            r[idx(c[2])] = None;
                            Some(format!("err {}", parse_error_text(e)))
                        }
                        Err(()) => store(r, idx(c[2]), Err(())),
                    }
                }
                "term" => {
                    // term text: Term::from_str
                    let s = unhex(c[1]);
                    Some(match guard(|| Term::<N>::from_str(&s)) {
                        Ok(Ok(Term::ZeroTerm)) => "ok -".into(),
                        Ok(Ok(Term::Term(k, d))) => format!("ok {}:{}", k.wr(), d),
                        Ok(Err(e)) => format!("err {}", parse_error_text(PolynomialFromStringError::TermFromString(e))),
                        Err(()) => "panic".into(),
                    })
                }
                "tnew" => {
                    // tnew coeff degree: Term::new
                    Some(match guard(|| Term::<N>::new(rd(c[1]), idx(c[2]))) {
                        Ok(Term::ZeroTerm) => "ok -".into(),
                        Ok(Term::Term(k, d)) => format!("ok {}:{}", k.wr(), d),
                        Err(()) => "panic".into(),
                    })
                }
                "tadd" | "tsub" => {
                    // tadd a coeff degree
                    let i = idx(c[1]);
                    let (k, g) = (rd(c[2]), idx(c[3]));
                    let plus = c[0] == "tadd";
                    let mut a = reg!(r, c[1]);
                    let v = guard(|| {
                        let e = each!(&mut a, p => if plus {
                            p.try_add_term(k, g)
                        } else {
                            p.try_sub_term(k, g)
                        });
                        (a, e)
                    });
                    finish(r, i, v)
                }
                "addp" | "subp" => {
                    // addp form src sink
                    let i = idx(c[3]);
                    let a = reg!(r, c[2]);
                    let mut b = reg!(r, c[3]);
                    let v = guard(|| {
                        let e = each!(&a, s => each!(&mut b, k => match (c[0], c[1]) {
                            ("addp", "fn") => poly_math::add_poly(s.ordered_term_iter(), k),
                            ("subp", "fn") => poly_math::sub_poly(s.ordered_term_iter(), k),
                            ("addp", _) => rustnomial::poly_add!(*k; s),
                            _ => rustnomial::poly_sub!(*k; s),
                        }));
                        (b, e)
                    });
                    finish(r, i, v)
                }
                "mulp" => {
                    // mulp x y sink
                    let i = idx(c[3]);
                    let (x, y) = (reg!(r, c[1]), reg!(r, c[2]));
                    let mut b = reg!(r, c[3]);
                    let v = guard(|| {
                        let ys = each!(&y, p => p.terms_as_vec());
                        let xs: Vec<(N, usize)> = each!(&x, p => p.ordered_term_iter().collect());
                        let e = each!(&mut b, k => poly_math::mul_poly_vec(xs.into_iter(), &ys, k));
                        (b, e)
                    });
                    finish(r, i, v)
                }
                "mulsink" => {
                    // mulsink x sink
                    let i = idx(c[2]);
                    let x = reg!(r, c[1]);
                    let mut b = reg!(r, c[2]);
                    let v = guard(|| {
                        let e = each!(&x, s => each!(&mut b, k => rustnomial::poly_mul!(*k; s)));
                        (b, e)
                    });
                    finish(r, i, v)
                }
                "padd" | "psub" | "pmul" => {
                    // padd a b d
                    let (a, b) = (reg!(r, c[1]), reg!(r, c[2]));
                    let v = guard(|| {
                        if c[1] == c[2] {
                            return V::D(each!(&a, x => match c[0] {
                                "padd" => rustnomial::poly_add!(x, x),
                                "psub" => rustnomial::poly_sub!(x, x),
                                _ => rustnomial::poly_mul!(x, x),
                            }));
                        }
                        V::D(each!(&a, x => each!(&b, y => match c[0] {
                            "padd" => rustnomial::poly_add!(x, y),
                            "psub" => rustnomial::poly_sub!(x, y),
                            _ => rustnomial::poly_mul!(x, y),
                        })))
                    });
                    store(r, idx(c[3]), v)
                }
                "root" => {
                    let v = match reg!(r, c[1]) {
                        V::M(p) => guard(|| p.root()),
                        _ => return Some("unsup".into()),
                    };
                    Some(v.map(roots_text).unwrap_or("panic".into()))
                }
                _ => None,
            }
        }
        fn finish(
            r: &mut Regs<$N>,
            i: usize,
            v: Result<(V<$N>, Result<(), TryAddError>), ()>,
        ) -> Option<String> {
            Some(match v {
                Ok((a, e)) => {
                    let t = format!(
                        "{} {}",
                        match e {
                            Ok(()) => "ok",
                            Err(e) => try_text(e),
                        },
                        stored(&a)
                    );
                    r[i] = Some(a);
                    t
                }
                Err(()) => {
                    r[i] = None;
                    "panic".into()
                }
            })
        }
    };
}

/// Derivatives and integrals, which isize and usize do not offer.
#[macro_export]
macro_rules! calculus_ops {
    ($N:ty) => {
        pub fn calculus(c: &[&str], r: &mut Regs<$N>) -> Option<String> {
            let rd = |s: &str| <$N as Io>::rd(s);
            match c[0] {
                "der" => {
                    let v = match reg!(r, c[1]) {
                        V::D(p) if c.len() > 3 => guard(|| V::D(match p.terms[..] {
                            [] => rustnomial::derivative!(),
                            [a] => rustnomial::derivative!(a),
                            [a, b] => rustnomial::derivative!(a, b),
                            [a, b, c] => rustnomial::derivative![a, b, c],
                            [a, b, c, d] => rustnomial::derivative!(a, b, c, d),
                            [a, b, c, d, e] => rustnomial::derivative!(a, b, c, d, e),
                            _ => p.derivative(),
                        })),
                        V::D(p) => guard(|| V::D(p.derivative())),
                        V::S(p) => guard(|| V::S(p.derivative())),
                        V::M(p) => guard(|| V::M(p.derivative())),
                        V::L(p) => guard(|| V::L(p.derivative())),
                        V::Q(p) => guard(|| V::Q(p.derivative())),
                    };
                    store(r, idx(c[2]), v)
                }
                "int" => {
                    let v = match reg!(r, c[1]) {
                        V::D(p) if c.len() > 3 => guard(|| V::D(match p.terms[..] {
                            [] => rustnomial::integral!().inner().clone(),
                            [a] => rustnomial::integral!(a).inner().clone(),
                            [a, b] => rustnomial::integral!(a, b).inner().clone(),
                            [a, b, c] => rustnomial::integral![a, b, c].inner().clone(),
                            [a, b, c, d] => rustnomial::integral!(a, b, c, d).inner().clone(),
                            [a, b, c, d, e] => rustnomial::integral!(a, b, c, d, e).inner().clone(),
                            _ => p.integral().inner().clone(),
                        })),
                        V::D(p) => guard(|| V::D(p.integral().inner().clone())),
                        V::S(p) => guard(|| V::S(p.integral().inner().clone())),
                        V::M(p) => guard(|| V::S(p.integral().inner().clone())),
                        V::L(p) => guard(|| V::D(p.integral().inner().clone())),
                        V::Q(p) => guard(|| V::D(p.integral().inner().clone())),
                    };
                    store(r, idx(c[2]), v)
                }
                "area" => {
                    // area a from to
                    let (x, y) = (rd(c[2]), rd(c[3]));
                    let a = reg!(r, c[1]);
                    value(guard(|| each!(&a, p => p.integral().eval(x, y))))
                }
                "repc" => {
                    // repc a constant d
                    let k = rd(c[2]);
                    let v = match reg!(r, c[1]) {
                        V::D(p) => guard(|| V::D(p.integral().replace_c(k))),
                        V::S(p) => guard(|| V::S(p.integral().replace_c(k))),
                        V::M(p) => guard(|| V::S(p.integral().replace_c(k))),
                        V::L(p) => guard(|| V::D(p.integral().replace_c(k))),
                        V::Q(p) => guard(|| V::D(p.integral().replace_c(k))),
                    };
                    store(r, idx(c[3]), v)
                }
                "wrap" => {
                    // wrap what a ...: the same calls on Integral::new of a polynomial
                    let a = reg!(r, c[2]);
                    match c[1] {
                        "area" => {
                            let (x, y) = (rd(c[3]), rd(c[4]));
                            value(match a {
                                V::D(p) => guard(|| Integral::new(p).eval(x, y)),
                                V::S(p) => guard(|| Integral::new(p).eval(x, y)),
                                _ => return Some("unsup".into()),
                            })
                        }
                        "repc" => {
                            let k = rd(c[3]);
                            let v = match a {
                                V::D(p) => guard(|| V::D(Integral::new(p).replace_c(k))),
                                V::S(p) => guard(|| V::S(Integral::new(p).replace_c(k))),
                                _ => return Some("unsup".into()),
                            };
                            store(r, idx(c[4]), v)
                        }
                        "inner" => {
                            let v = match a {
                                V::D(p) => guard(|| V::D(Integral::new(p).inner().clone())),
                                V::S(p) => guard(|| V::S(Integral::new(p).inner().clone())),
                                _ => return Some("unsup".into()),
                            };
                            store(r, idx(c[3]), v)
                        }
                        _ => {
                            let v = match a {
                                V::D(p) => guard(|| Integral::new(p).to_string()),
                                V::S(p) => guard(|| Integral::new(p).to_string()),
                                _ => return Some("unsup".into()),
                            };
                            Some(v.map(|s| format!("ok {}", hex(&s))).unwrap_or("panic".into()))
                        }
                    }
                }
                "idisp" => {
                    let a = reg!(r, c[1]);
                    let v = guard(|| each!(&a, p => p.integral().to_string()));
                    Some(v.map(|s| format!("ok {}", hex(&s))).unwrap_or("panic".into()))
                }
                _ => None,
            }
        }
    };
}

/// The macros with several operands.
#[macro_export]
macro_rules! variadic_ops {
    ($N:ty) => {
        pub fn variadic(c: &[&str], r: &mut Regs<$N>) -> Option<String> {
            match c[0] {
                "padd3" | "psub3" | "pmul3" => {
                    // padd3 a b c d, all of one kind
                    let (a, b, e) = (reg!(r, c[1]), reg!(r, c[2]), reg!(r, c[3]));
                    macro_rules! go {
                        ($x:ident, $y:ident, $z:ident) => {
                            guard(|| {
                                V::D(match c[0] {
                                    "padd3" => rustnomial::poly_add!($x, $y, $z),
                                    "psub3" => rustnomial::poly_sub!($x, $y, $z),
                                    _ => rustnomial::poly_mul!($x, $y, $z),
                                })
                            })
                        };
                    }
                    let v = match (a, b, e) {
                        (V::D(x), V::D(y), V::D(z)) => go!(x, y, z),
                        (V::S(x), V::S(y), V::S(z)) => go!(x, y, z),
                        (V::M(x), V::M(y), V::M(z)) => go!(x, y, z),
                        (V::L(x), V::L(y), V::L(z)) => go!(x, y, z),
                        (V::Q(x), V::Q(y), V::Q(z)) => go!(x, y, z),
                        (V::D(x), V::M(y), V::L(z)) => go!(x, y, z),
                        (V::S(x), V::D(y), V::M(z)) => go!(x, y, z),
                        _ => return Some("unsup".into()),
                    };
                    store(r, idx(c[4]), v)
                }
                "addp2" | "subp2" | "mulsink2" => {
                    // addp2 x y sink
                    let i = idx(c[3]);
                    let (a, b) = (reg!(r, c[1]), reg!(r, c[2]));
                    let mut k = reg!(r, c[3]);
                    macro_rules! go {
                        ($x:ident, $y:ident) => {
                            guard(|| {
                                let e = each!(&mut k, s => match c[0] {
                                    "addp2" => rustnomial::poly_add!(*s; $x, $y),
                                    "subp2" => rustnomial::poly_sub!(*s; $x, $y),
                                    _ => rustnomial::poly_mul!(*s; $x, $y),
                                });
                                (k, e)
                            })
                        };
                    }
                    let v = match (a, b) {
                        (V::D(x), V::D(y)) => go!(x, y),
                        (V::S(x), V::S(y)) => go!(x, y),
                        (V::M(x), V::M(y)) => go!(x, y),
                        (V::L(x), V::M(y)) => go!(x, y),
                        _ => return Some("unsup".into()),
                    };
                    finish(r, i, v)
                }
                _ => None,
            }
        }
    };
}

/// Closed-form roots of quadratics.
#[macro_export]
macro_rules! quad_ops {
    ($N:ty) => {
        pub fn quad(c: &[&str], r: &mut Regs<$N>) -> Option<String> {
            let q = |v: V<$N>| match v {
                V::Q(q) => Some(q),
                _ => None,
            };
            let p = match c[0] {
                "disc" | "qroots" | "rfac" | "cfac" => match q(reg!(r, c[1])) {
                    Some(p) => p,
                    None => return Some("unsup".into()),
                },
                _ => return None,
            };
            match c[0] {
                "disc" => value(guard(|| p.discriminant())),
                "qroots" => Some(guard(|| p.roots()).map(roots_text).unwrap_or("panic".into())),
                "rfac" => Some(match guard(|| p.real_factors()) {
                    Err(()) => "panic".into(),
                    Ok(None) => "ok none".into(),
                    Ok(Some((k, a, b))) => format!(
                        "ok some {} {},{},{},{}",
                        k.wr(),
                        a.coefficients[0].wr(),
                        a.coefficients[1].wr(),
                        b.coefficients[0].wr(),
                        b.coefficients[1].wr()
                    ),
                }),
                _ => Some(match guard(|| p.complex_factors()) {
                    Err(()) => "panic".into(),
                    Ok((k, a, b)) => {
                        let t: Vec<String> = a
                            .coefficients
                            .iter()
                            .chain(b.coefficients.iter())
                            .map(|z| format!("{}:{}", z.re.wr(), z.im.wr()))
                            .collect();
                        format!("ok some {} {}", k.wr(), t.join(","))
                    }
                }),
            }
        }
    };
}
