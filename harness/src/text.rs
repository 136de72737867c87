//! Parsing and formatting operations.
use crate::exec::{Outcome, Res, Val};
use ibig::error::ParseError;
use ibig::{IBig, ModuloRing, UBig};
use std::fmt::{self, Binary, Debug, Display, Formatter, LowerHex, Octal, UpperHex, Write};

fn err(e: ParseError) -> Outcome {
    Outcome::Err(match e {
        ParseError::NoDigits => "nodigits",
        ParseError::InvalidDigit => "invalid",
    })
}

pub fn parse(f: &str, s: &str, radix: u32) -> Outcome {
    let u = |r: Result<UBig, ParseError>| match r {
        Ok(x) => Outcome::Ok(vec![Res::U(x)]),
        Err(e) => err(e),
    };
    let i = |r: Result<IBig, ParseError>| match r {
        Ok(x) => Outcome::Ok(vec![Res::I(x)]),
        Err(e) => err(e),
    };
    match f {
        "parse_u" => u(s.parse()),
        "parse_i" => i(s.parse()),
        "radix_u" => u(UBig::from_str_radix(s, radix)),
        "radix_i" => i(IBig::from_str_radix(s, radix)),
        "prefix_u" => u(UBig::from_str_with_radix_prefix(s)),
        "prefix_i" => i(IBig::from_str_with_radix_prefix(s)),
        "num_u" => u(<UBig as num_traits::Num>::from_str_radix(s, radix)),
        "num_i" => i(<IBig as num_traits::Num>::from_str_radix(s, radix)),
        _ => panic!("harness: parse"),
    }
}

pub struct Spec {
    pub kind: char,
    pub radix: u32,
    /// 1: '+', 2: '#', 4: '0'
    pub flags: u32,
    /// Width (0: none)
    pub width: usize,
    /// 0: none, else code point among those below
    pub fill: u32,
    /// 0 none, 1 left, 2 center, 3 right
    pub align: u32,
}

/// Displays a value using the formatting trait `kind`, passing the formatter options through.
struct ByKind<'a, X>(&'a X, char, u32);

macro_rules! by_kind {
    ($t:ty) => {
        impl<'a> Display for ByKind<'a, $t> {
            fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
                match self.1 {
                    'd' => Display::fmt(self.0, f),
                    'D' => Debug::fmt(self.0, f),
                    'b' => Binary::fmt(self.0, f),
                    'o' => Octal::fmt(self.0, f),
                    'x' => LowerHex::fmt(self.0, f),
                    'X' => UpperHex::fmt(self.0, f),
                    _ => panic!("harness: kind"),
                }
            }
        }
    };
}
impl<'a> Display for ByKind<'a, UBig> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        match self.1 {
            'r' => Display::fmt(&self.0.in_radix(self.2), f),
            'd' => Display::fmt(self.0, f),
            'D' => Debug::fmt(self.0, f),
            'b' => Binary::fmt(self.0, f),
            'o' => Octal::fmt(self.0, f),
            'x' => LowerHex::fmt(self.0, f),
            'X' => UpperHex::fmt(self.0, f),
            _ => panic!("harness: kind"),
        }
    }
}
impl<'a> Display for ByKind<'a, IBig> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        match self.1 {
            'r' => Display::fmt(&self.0.in_radix(self.2), f),
            'd' => Display::fmt(self.0, f),
            'D' => Debug::fmt(self.0, f),
            'b' => Binary::fmt(self.0, f),
            'o' => Octal::fmt(self.0, f),
            'x' => LowerHex::fmt(self.0, f),
            'X' => UpperHex::fmt(self.0, f),
            _ => panic!("harness: kind"),
        }
    }
}
by_kind!(ibig::Modulo<'static>);
by_kind!(ModuloRing);

fn fmt_spec(x: &dyn Display, s: &Spec) -> String {
    let w = s.width;
    macro_rules! fa {
        ($fl:literal) => {
            match (s.fill, s.align) {
                (_, 0) => format!(concat!("{:", $fl, "w$}"), x, w = w),
                (0, 1) => format!(concat!("{:<", $fl, "w$}"), x, w = w),
                (0, 2) => format!(concat!("{:^", $fl, "w$}"), x, w = w),
                (0, 3) => format!(concat!("{:>", $fl, "w$}"), x, w = w),
                (0x2a, 1) => format!(concat!("{:*<", $fl, "w$}"), x, w = w),
                (0x2a, 2) => format!(concat!("{:*^", $fl, "w$}"), x, w = w),
                (0x2a, 3) => format!(concat!("{:*>", $fl, "w$}"), x, w = w),
                (0x30, 1) => format!(concat!("{:0<", $fl, "w$}"), x, w = w),
                (0x30, 2) => format!(concat!("{:0^", $fl, "w$}"), x, w = w),
                (0x30, 3) => format!(concat!("{:0>", $fl, "w$}"), x, w = w),
                (0xe9, 1) => format!(concat!("{:é<", $fl, "w$}"), x, w = w),
                (0xe9, 2) => format!(concat!("{:é^", $fl, "w$}"), x, w = w),
                (0xe9, 3) => format!(concat!("{:é>", $fl, "w$}"), x, w = w),
                _ => panic!("harness: fill"),
            }
        };
    }
    if w == 0 {
        return match s.flags {
            0 => format!("{}", x),
            1 => format!("{:+}", x),
            2 => format!("{:#}", x),
            3 => format!("{:+#}", x),
            4 => format!("{:0w$}", x, w = 0),
            5 => format!("{:+0w$}", x, w = 0),
            6 => format!("{:#0w$}", x, w = 0),
            _ => format!("{:+#0w$}", x, w = 0),
        };
    }
    match s.flags {
        0 => fa!(""),
        1 => fa!("+"),
        2 => fa!("#"),
        3 => fa!("+#"),
        4 => fa!("0"),
        5 => fa!("+0"),
        6 => fa!("#0"),
        _ => fa!("+#0"),
    }
}

pub fn format(v: &Val, s: &Spec) -> String {
    match v {
        Val::U(x) => fmt_spec(&ByKind(x, s.kind, s.radix), s),
        Val::I(x) => fmt_spec(&ByKind(x, s.kind, s.radix), s),
        Val::M(_, x) => fmt_spec(&ByKind(x, s.kind, s.radix), s),
        Val::None => panic!("harness: empty"),
    }
}

pub fn format_ring(r: &ModuloRing, s: &Spec) -> String {
    fmt_spec(&ByKind(r, s.kind, s.radix), s)
}

struct Failing(usize);
impl Write for Failing {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.len() > self.0 {
            self.0 = 0;
            return Err(fmt::Error);
        }
        self.0 -= s.len();
        Ok(())
    }
}

/// True if writing failed.
pub fn format_failing(v: &Val, kind: char, cap: usize) -> bool {
    let mut w = Failing(cap);
    match v {
        Val::U(x) => write!(w, "{}", ByKind(x, kind, 0)).is_err(),
        Val::I(x) => write!(w, "{}", ByKind(x, kind, 0)).is_err(),
        _ => panic!("harness: kind"),
    }
}
