//! Executes one command against the real library.

use crate::cmd::*;
use crate::text;
#[cfg(feature = "prim")]
use crate::prim;
#[cfg(feature = "ext")]
use crate::ext;
use ibig::ops::*;
use ibig::{IBig, Modulo, ModuloRing, UBig};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub enum Val {
    None,
    U(UBig),
    I(IBig),
    M(usize, Modulo<'static>),
}

pub enum Arg<'a> {
    V(Val),
    R(&'a Val),
    W(Val),
    L { ty: &'a str, val: &'a str, by_ref: bool },
}

pub enum Res {
    U(UBig),
    I(IBig),
    M(usize, Modulo<'static>),
    /// Type tag, rendered integer.
    P(&'static str, String),
    /// Text.
    S(String),
    /// Bytes.
    B(Vec<u8>),
    /// 64-bit words.
    W(Vec<u64>),
    /// Small non-negative integers (JSON sequence under the given type tag).
    Seq(&'static str, Vec<u32>),
    /// Serializer tokens.
    Tok(Vec<(&'static str, String)>),
}

pub enum Outcome {
    Ok(Vec<Res>),
    NoneVal,
    Err(&'static str),
}

pub type Rings = Vec<&'static ModuloRing>;

pub struct Machine {
    pub regs: Vec<Val>,
    pub rings: Rings,
    out: String,
    file: std::fs::File,
    pub written: usize,
    /// Heap bytes held by the library between operations, as far as not released again.
    held: isize,
    pub events: usize,
    pub panics: usize,
}

pub fn hex_bytes_le(b: &[u8], neg: bool, out: &mut String) {
    const H: &[u8; 16] = b"0123456789abcdef";
    let mut n = b.len();
    while n > 0 && b[n - 1] == 0 {
        n -= 1;
    }
    if n == 0 {
        out.push('0');
        return;
    }
    if neg {
        out.push('-');
    }
    if b[n - 1] >= 16 {
        out.push(H[(b[n - 1] >> 4) as usize] as char);
    }
    out.push(H[(b[n - 1] & 15) as usize] as char);
    for x in b[..n - 1].iter().rev() {
        out.push(H[(x >> 4) as usize] as char);
        out.push(H[(x & 15) as usize] as char);
    }
}

pub fn hex_u(x: &UBig, out: &mut String) {
    hex_bytes_le(&x.to_le_bytes(), false, out)
}

pub fn hex_i(x: &IBig, out: &mut String) {
    // The transport relies on unsigned_abs, the sign test and to_le_bytes only.
    let neg = *x < IBig::from(0u8);
    hex_bytes_le(&x.unsigned_abs().to_le_bytes(), neg, out)
}

pub fn parse_hex_bytes(s: &str) -> (bool, Vec<u8>) {
    let (neg, s) = match s.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, s),
    };
    let d: Vec<u8> = s.bytes().rev().map(|c| (c as char).to_digit(16).expect("hex") as u8).collect();
    (neg, d.chunks(2).map(|c| c[0] | (if c.len() > 1 { c[1] << 4 } else { 0 })).collect())
}

pub fn parse_u(s: &str) -> UBig {
    UBig::from_le_bytes(&parse_hex_bytes(s).1)
}

pub fn parse_i(s: &str) -> IBig {
    let (neg, b) = parse_hex_bytes(s);
    let x = IBig::from(UBig::from_le_bytes(&b));
    if neg {
        -x
    } else {
        x
    }
}

pub fn parse_small(s: &str) -> i128 {
    let (neg, r) = match s.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, s),
    };
    let v = u128::from_str_radix(r, 16).expect("hex literal");
    if neg {
        (v as i128).wrapping_neg()
    } else {
        v as i128
    }
}

pub fn parse_usize(s: &str) -> usize {
    u64::from_str_radix(s, 16).expect("usize literal").min(usize::MAX as u64) as usize
}

pub fn pbool(b: bool) -> Res {
    Res::P("bool", if b { "1".into() } else { "0".into() })
}

pub fn pusize(n: usize) -> Res {
    Res::P("usize", format!("{:x}", n))
}

fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn pord(o: Ordering) -> Res {
    Res::P(
        "ord",
        match o {
            Ordering::Less => "-1".into(),
            Ordering::Equal => "0".into(),
            Ordering::Greater => "1".into(),
        },
    )
}

use Arg::*;
use Val as T;

macro_rules! binop {
    ($f:expr, $x:expr, $y:expr, $T:ident, $Tr:ident, $op:tt, $assign:tt) => {
        match ($x, $y) {
            (V(T::$T(a)), V(T::$T(b))) => Res::$Tr(a $op b),
            (V(T::$T(a)), R(T::$T(b))) => Res::$Tr(a $op b),
            (R(T::$T(a)), V(T::$T(b))) => Res::$Tr(a $op b),
            (R(T::$T(a)), R(T::$T(b))) => Res::$Tr(a $op b),
            (W(T::$T(mut a)), V(T::$T(b))) => { a $assign b; Res::$Tr(a) }
            (W(T::$T(mut a)), R(T::$T(b))) => { a $assign b; Res::$Tr(a) }
            _ => panic!("harness: bad operands for {}", $f),
        }
    };
}

macro_rules! binmeth {
    ($f:expr, $x:expr, $y:expr, $T:ident, $m:ident) => {
        match ($x, $y) {
            (V(T::$T(a)), V(T::$T(b))) => a.$m(b),
            (V(T::$T(a)), R(T::$T(b))) => a.$m(b),
            (R(T::$T(a)), V(T::$T(b))) => a.$m(b),
            (R(T::$T(a)), R(T::$T(b))) => a.$m(b),
            _ => panic!("harness: bad operands for {}", $f),
        }
    };
}

fn is_u(a: &Arg) -> bool {
    matches!(a, V(T::U(_)) | R(T::U(_)) | W(T::U(_)))
}
fn is_i(a: &Arg) -> bool {
    matches!(a, V(T::I(_)) | R(T::I(_)) | W(T::I(_)))
}
fn is_m(a: &Arg) -> bool {
    matches!(a, V(T::M(..)) | R(T::M(..)) | W(T::M(..)))
}

macro_rules! all_bin {
    ($f:expr, $x:expr, $y:expr, $T:ident) => {{
        let (f, x, y) = ($f, $x, $y);
        match f {
            "add" => vec![binop!(f, x, y, $T, $T, +, +=)],
            "sub" => vec![binop!(f, x, y, $T, $T, -, -=)],
            "mul" => vec![binop!(f, x, y, $T, $T, *, *=)],
            "div" => vec![binop!(f, x, y, $T, $T, /, /=)],
            "rem" => vec![binop!(f, x, y, $T, $T, %, %=)],
            "and" => vec![binop!(f, x, y, $T, $T, &, &=)],
            "or" => vec![binop!(f, x, y, $T, $T, |, |=)],
            "xor" => vec![binop!(f, x, y, $T, $T, ^, ^=)],
            "andnot" => vec![Res::$T(binmeth!(f, x, y, $T, and_not))],
            "divrem" => {
                let (q, r) = binmeth!(f, x, y, $T, div_rem);
                vec![Res::$T(q), Res::$T(r)]
            }
            "dive" => vec![Res::$T(binmeth!(f, x, y, $T, div_euclid))],
            "reme" => vec![Res::$T(binmeth!(f, x, y, $T, rem_euclid))],
            "divreme" => {
                let (q, r) = binmeth!(f, x, y, $T, div_rem_euclid);
                vec![Res::$T(q), Res::$T(r)]
            }
            _ => panic!("harness: unknown binary op {}", f),
        }
    }};
}

macro_rules! mod_bin {
    ($f:expr, $x:expr, $y:expr, $op:tt, $assign:tt) => {
        match ($x, $y) {
            (V(T::M(g, a)), V(T::M(_, b))) => Res::M(g, a $op b),
            (V(T::M(g, a)), R(T::M(_, b))) => Res::M(g, a $op b),
            (R(T::M(g, a)), V(T::M(_, b))) => Res::M(*g, a $op b),
            (R(T::M(g, a)), R(T::M(_, b))) => Res::M(*g, a $op b),
            (W(T::M(g, mut a)), V(T::M(_, b))) => { a $assign b; Res::M(g, a) }
            (W(T::M(g, mut a)), R(T::M(_, b))) => { a $assign b; Res::M(g, a) }
            _ => panic!("harness: bad operands for {}", $f),
        }
    };
}

macro_rules! to_prim {
    ($x:expr, $t:ty, $name:literal) => {{
        let r: Result<$t, _> = match $x {
            V(T::U(a)) => <$t>::try_from(a),
            R(T::U(a)) => <$t>::try_from(a),
            V(T::I(a)) => <$t>::try_from(a),
            R(T::I(a)) => <$t>::try_from(a),
            _ => panic!("harness: bad operand"),
        };
        match r {
            Ok(v) => Outcome::Ok(vec![Res::P($name, prim_hex(v as i128, v < (0 as $t)))]),
            Err(ibig::error::OutOfBoundsError) => Outcome::Err("bounds"),
        }
    }};
}

pub fn prim_hex(v: i128, neg: bool) -> String {
    if neg {
        format!("-{:x}", v.unsigned_abs())
    } else {
        format!("{:x}", v as u128)
    }
}

macro_rules! from_prim {
    ($to:expr, $t:ty, $val:expr) => {{
        let v = parse_small($val) as $t;
        match $to {
            "fromi" => Outcome::Ok(vec![Res::I(IBig::from(v))]),
            _ => match from_prim_u!($t, v) {
                Ok(x) => Outcome::Ok(vec![Res::U(x)]),
                Err(e) => Outcome::Err(e),
            },
        }
    }};
}

trait ToU {
    fn to_u(self) -> Result<UBig, &'static str>;
}
macro_rules! to_u_unsigned { ($($t:ty)*) => {$( impl ToU for $t { fn to_u(self) -> Result<UBig, &'static str> { Ok(UBig::from(self)) } } )*} }
macro_rules! to_u_signed { ($($t:ty)*) => {$( impl ToU for $t { fn to_u(self) -> Result<UBig, &'static str> {
    match UBig::try_from(self) { Ok(x) => Ok(x), Err(ibig::error::OutOfBoundsError) => Err("bounds") } } } )*} }
to_u_unsigned!(u8 u16 u32 u64 u128 usize);
to_u_signed!(i8 i16 i32 i64 i128 isize);
macro_rules! from_prim_u {
    ($t:ty, $v:expr) => {
        ToU::to_u($v)
    };
}

/// Call `$m!(args.., type, name)` for the primitive type named by `$ty`.
#[macro_export]
macro_rules! with_prim {
    ($ty:expr, $m:ident, $($arg:expr),*) => {
        match $ty {
            "u8" => $m!($($arg),*, u8),
            "u16" => $m!($($arg),*, u16),
            "u32" => $m!($($arg),*, u32),
            "u64" => $m!($($arg),*, u64),
            "u128" => $m!($($arg),*, u128),
            "usize" => $m!($($arg),*, usize),
            "i8" => $m!($($arg),*, i8),
            "i16" => $m!($($arg),*, i16),
            "i32" => $m!($($arg),*, i32),
            "i64" => $m!($($arg),*, i64),
            "i128" => $m!($($arg),*, i128),
            "isize" => $m!($($arg),*, isize),
            _ => panic!("harness: unknown primitive type {}", $ty),
        }
    };
}

fn lit_val<'a>(a: &Arg<'a>) -> &'a str {
    match a {
        L { val, .. } => val,
        _ => panic!("harness: literal expected"),
    }
}

fn ref_u<'b>(a: &'b Arg) -> &'b UBig {
    match a {
        R(T::U(x)) => x,
        V(T::U(x)) => x,
        _ => panic!("harness: &UBig expected"),
    }
}
fn ref_i<'b>(a: &'b Arg) -> &'b IBig {
    match a {
        R(T::I(x)) => x,
        V(T::I(x)) => x,
        _ => panic!("harness: &IBig expected"),
    }
}
fn ref_m<'b>(a: &'b Arg) -> (usize, &'b Modulo<'static>) {
    match a {
        R(T::M(g, x)) => (*g, x),
        V(T::M(g, x)) => (*g, x),
        _ => panic!("harness: &Modulo expected"),
    }
}

pub fn exec_op(f: &str, mut args: Vec<Arg>, rings: &mut Rings) -> Outcome {
    let n = args.len();
    let ok1 = |r: Res| Outcome::Ok(vec![r]);
    match f {
        "add" | "sub" | "mul" | "div" | "rem" | "divrem" | "dive" | "reme" | "divreme" | "and" | "or" | "xor"
        | "andnot" => {
            let y = args.pop().unwrap();
            let x = args.pop().unwrap();
            if is_m(&x) && is_m(&y) {
                return ok1(match f {
                    "add" => mod_bin!(f, x, y, +, +=),
                    "sub" => mod_bin!(f, x, y, -, -=),
                    "mul" => mod_bin!(f, x, y, *, *=),
                    "div" => mod_bin!(f, x, y, /, /=),
                    _ => panic!("harness: unknown modular op {}", f),
                });
            }
            if is_u(&x) && is_u(&y) {
                return Outcome::Ok(all_bin!(f, x, y, U));
            }
            if is_i(&x) && is_i(&y) {
                return Outcome::Ok(all_bin!(f, x, y, I));
            }
            #[cfg(feature = "prim")]
            {
                prim::exec_mixed(f, x, y)
            }
            #[cfg(not(feature = "prim"))]
            panic!("harness: built without mixed primitive operations")
        }
        "load" => {
            // A value from outside.
            let v = lit_val(&args[0]);
            match &args[0] {
                L { ty: "u", .. } => ok1(Res::U(parse_u(v))),
                L { ty: "i", .. } => ok1(Res::I(parse_i(v))),
                _ => panic!("harness: load type"),
            }
        }
        "neg" => match args.pop().unwrap() {
            V(T::I(a)) => ok1(Res::I(-a)),
            R(T::I(a)) => ok1(Res::I(-a)),
            V(T::M(g, a)) => ok1(Res::M(g, -a)),
            R(T::M(g, a)) => ok1(Res::M(*g, -a)),
            _ => panic!("harness: bad operand"),
        },
        "not" => match args.pop().unwrap() {
            V(T::I(a)) => ok1(Res::I(!a)),
            R(T::I(a)) => ok1(Res::I(!a)),
            _ => panic!("harness: bad operand"),
        },
        "abs" => match args.pop().unwrap() {
            V(T::I(a)) => ok1(Res::I(a.abs())),
            R(T::I(a)) => ok1(Res::I(a.abs())),
            _ => panic!("harness: bad operand"),
        },
        "uabs" => match args.pop().unwrap() {
            V(T::I(a)) => ok1(Res::U(a.unsigned_abs())),
            R(T::I(a)) => ok1(Res::U(a.unsigned_abs())),
            _ => panic!("harness: bad operand"),
        },
        "signum" => ok1(Res::I(ref_i(&args[0]).signum())),
        "shl" | "shr" => {
            let (cnt, by_ref) = match &args[1] {
                L { val, by_ref, .. } => (parse_usize(val), *by_ref),
                _ => panic!("harness: shift count"),
            };
            let x = args.swap_remove(0);
            macro_rules! sh {
                ($T:ident, $op:tt, $as:tt) => {
                    match x {
                        V(T::$T(a)) => if by_ref { Res::$T(a $op &cnt) } else { Res::$T(a $op cnt) },
                        R(T::$T(a)) => if by_ref { Res::$T(a $op &cnt) } else { Res::$T(a $op cnt) },
                        W(T::$T(mut a)) => { if by_ref { a $as &cnt } else { a $as cnt }; Res::$T(a) }
                        _ => panic!("harness: bad operand"),
                    }
                };
            }
            ok1(match (f, is_u(&x)) {
                ("shl", true) => sh!(U, <<, <<=),
                ("shl", false) => sh!(I, <<, <<=),
                ("shr", true) => sh!(U, >>, >>=),
                (_, _) => sh!(I, >>, >>=),
            })
        }
        "pow" => {
            let e = parse_usize(lit_val(&args[1]));
            match &args[0] {
                R(T::U(a)) => ok1(Res::U(a.pow(e))),
                R(T::I(a)) => ok1(Res::I(a.pow(e))),
                _ => panic!("harness: bad operand"),
            }
        }
        "bit" => ok1(pbool(ref_u(&args[0]).bit(parse_usize(lit_val(&args[1]))))),
        "setbit" | "clearbit" => {
            let k = parse_usize(lit_val(&args[1]));
            match args.swap_remove(0) {
                W(T::U(mut a)) => {
                    if f == "setbit" {
                        a.set_bit(k)
                    } else {
                        a.clear_bit(k)
                    }
                    ok1(Res::U(a))
                }
                _ => panic!("harness: bad operand"),
            }
        }
        "bitlen" => ok1(pusize(ref_u(&args[0]).bit_len())),
        "tz" => {
            let r = match &args[0] {
                R(T::U(a)) => a.trailing_zeros(),
                R(T::I(a)) => a.trailing_zeros(),
                _ => panic!("harness: bad operand"),
            };
            match r {
                Some(k) => ok1(pusize(k)),
                None => Outcome::NoneVal,
            }
        }
        "ispow2" => ok1(pbool(ref_u(&args[0]).is_power_of_two())),
        "nextpow2" => match args.pop().unwrap() {
            V(T::U(a)) => ok1(Res::U(a.next_power_of_two())),
            R(T::U(a)) => ok1(Res::U(a.next_power_of_two())),
            _ => panic!("harness: bad operand"),
        },
        "cmp" => {
            macro_rules! cmpm {
                ($a:expr, $b:expr) => {{
                    let (a, b) = ($a, $b);
                    let consistent = a.partial_cmp(b) == Some(a.cmp(b))
                        && (a < b) == (a.cmp(b) == Ordering::Less)
                        && (a <= b) == (a.cmp(b) != Ordering::Greater)
                        && (a > b) == (a.cmp(b) == Ordering::Greater)
                        && (a >= b) == (a.cmp(b) != Ordering::Less)
                        && (a != b) == !(a == b);
                    Outcome::Ok(vec![
                        pord(a.cmp(b)),
                        pbool(a == b),
                        Res::P("hasheq", if hash(a) == hash(b) { "1".into() } else { "0".into() }),
                        pbool(consistent),
                    ])
                }};
            }
            match (&args[0], &args[1]) {
                (R(T::U(a)), R(T::U(b))) => cmpm!(a, b),
                (R(T::I(a)), R(T::I(b))) => cmpm!(a, b),
                _ => panic!("harness: bad operands"),
            }
        }
        "clone" => match &args[0] {
            R(T::U(a)) => ok1(Res::U(a.clone())),
            R(T::I(a)) => ok1(Res::I(a.clone())),
            R(T::M(g, a)) => ok1(Res::M(*g, a.clone())),
            _ => panic!("harness: bad operand"),
        },
        "clonefrom" => {
            let y = args.pop().unwrap();
            let x = args.pop().unwrap();
            match (x, y) {
                (W(T::U(mut a)), R(T::U(b))) => {
                    a.clone_from(b);
                    ok1(Res::U(a))
                }
                (W(T::I(mut a)), R(T::I(b))) => {
                    a.clone_from(b);
                    ok1(Res::I(a))
                }
                (W(T::M(_, mut a)), R(T::M(g, b))) => {
                    a.clone_from(b);
                    ok1(Res::M(*g, a))
                }
                _ => panic!("harness: bad operands"),
            }
        }
        "get" => match &args[0] {
            // Observe a register.
            R(T::U(a)) => {
                let mut s = String::new();
                hex_u(a, &mut s);
                ok1(Res::P("gu", s))
            }
            R(T::I(a)) => {
                let mut s = String::new();
                hex_i(a, &mut s);
                ok1(Res::P("gi", s))
            }
            R(T::M(_, a)) => {
                let mut s = String::new();
                hex_u(&a.residue(), &mut s);
                ok1(Res::P("gm", s))
            }
            _ => panic!("harness: bad operand"),
        },
        "default" => match lit_val(&args[0]) {
            "0" => ok1(Res::U(UBig::default())),
            _ => ok1(Res::I(IBig::default())),
        },
        "u2i" => match args.pop().unwrap() {
            V(T::U(a)) => ok1(Res::I(IBig::from(a))),
            R(T::U(a)) => ok1(Res::I(IBig::from(a))),
            _ => panic!("harness: bad operand"),
        },
        "i2u" => {
            let r = match args.pop().unwrap() {
                V(T::I(a)) => UBig::try_from(a),
                R(T::I(a)) => UBig::try_from(a),
                _ => panic!("harness: bad operand"),
            };
            match r {
                Ok(x) => ok1(Res::U(x)),
                Err(ibig::error::OutOfBoundsError) => Outcome::Err("bounds"),
            }
        }
        "gcd" => match (&args[0], &args[1]) {
            (R(T::U(a)), R(T::U(b))) => ok1(Res::U(a.gcd(b))),
            (R(T::I(a)), R(T::I(b))) => ok1(Res::I(a.gcd(b))),
            _ => panic!("harness: bad operands"),
        },
        "egcd" => match (&args[0], &args[1]) {
            (R(T::U(a)), R(T::U(b))) => {
                let (g, x, y) = a.extended_gcd(b);
                Outcome::Ok(vec![Res::U(g), Res::I(x), Res::I(y)])
            }
            (R(T::I(a)), R(T::I(b))) => {
                let (g, x, y) = a.extended_gcd(b);
                Outcome::Ok(vec![Res::I(g), Res::I(x), Res::I(y)])
            }
            _ => panic!("harness: bad operands"),
        },
        "fromu" | "fromi" => match &args[0] {
            L { ty: "bool", val, .. } => {
                let b = *val == "1";
                if f == "fromu" {
                    ok1(Res::U(UBig::from(b)))
                } else {
                    ok1(Res::I(IBig::from(b)))
                }
            }
            L { ty, val, .. } => {
                macro_rules! m {
                    ($f:expr, $v:expr, $t:ty) => {
                        from_prim!($f, $t, $v)
                    };
                }
                with_prim!(*ty, m, f, val)
            }
            _ => panic!("harness: literal expected"),
        },
        "to_u8" => to_prim!(args.pop().unwrap(), u8, "u8"),
        "to_u16" => to_prim!(args.pop().unwrap(), u16, "u16"),
        "to_u32" => to_prim!(args.pop().unwrap(), u32, "u32"),
        "to_u64" => to_prim!(args.pop().unwrap(), u64, "u64"),
        "to_u128" => to_prim!(args.pop().unwrap(), u128, "u128"),
        "to_usize" => to_prim!(args.pop().unwrap(), usize, "usize"),
        "to_i8" => to_prim!(args.pop().unwrap(), i8, "i8"),
        "to_i16" => to_prim!(args.pop().unwrap(), i16, "i16"),
        "to_i32" => to_prim!(args.pop().unwrap(), i32, "i32"),
        "to_i64" => to_prim!(args.pop().unwrap(), i64, "i64"),
        "to_i128" => to_prim!(args.pop().unwrap(), i128, "i128"),
        "to_isize" => to_prim!(args.pop().unwrap(), isize, "isize"),
        "fromle" | "frombe" => {
            let b: Vec<u8> =
                lit_val(&args[0]).split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
            ok1(Res::U(if f == "fromle" { UBig::from_le_bytes(&b) } else { UBig::from_be_bytes(&b) }))
        }
        "tole" => ok1(Res::B(ref_u(&args[0]).to_le_bytes())),
        "tobe" => ok1(Res::B(ref_u(&args[0]).to_be_bytes())),
        "f32" => {
            let v = match &args[0] {
                R(T::U(a)) => a.to_f32(),
                R(T::I(a)) => a.to_f32(),
                _ => panic!("harness: bad operand"),
            };
            ok1(Res::P("f32", format!("{:x}", v.to_bits())))
        }
        "f64" => {
            let v = match &args[0] {
                R(T::U(a)) => a.to_f64(),
                R(T::I(a)) => a.to_f64(),
                _ => panic!("harness: bad operand"),
            };
            ok1(Res::P("f64", format!("{:x}", v.to_bits())))
        }
        "parse_u" | "parse_i" | "radix_u" | "radix_i" | "prefix_u" | "prefix_i" | "num_u" | "num_i" => {
            let s: String = lit_val(&args[0])
                .split(',')
                .filter(|s| !s.is_empty())
                .map(|s| char::from_u32(s.parse().unwrap()).unwrap())
                .collect();
            let radix = if n > 1 { parse_small(lit_val(&args[1])) as u32 } else { 0 };
            text::parse(f, &s, radix)
        }
        "fmt" => {
            // value, kind, radix, flags, width, fill, align
            let g = |k: usize| lit_val(&args[k]);
            let spec = text::Spec {
                kind: g(1).chars().next().unwrap(),
                radix: parse_small(g(2)) as u32,
                flags: parse_small(g(3)) as u32,
                width: parse_small(g(4)) as usize,
                fill: parse_small(g(5)) as u32,
                align: parse_small(g(6)) as u32,
            };
            match &args[0] {
                R(v) => ok1(Res::S(text::format(v, &spec))),
                L { ty: "g", val, .. } => ok1(Res::S(text::format_ring(rings[parse_usize(val)], &spec))),
                _ => panic!("harness: bad operand"),
            }
        }
        "fmterr" => {
            // Formatting into a sink that fails after some bytes reports the failure, never panics.
            let cap = parse_usize(lit_val(&args[2]));
            match &args[0] {
                R(v) => ok1(pbool(text::format_failing(v, lit_val(&args[1]).chars().next().unwrap(), cap))),
                _ => panic!("harness: bad operand"),
            }
        }
        // ---- modular
        "ring" => {
            let r = ModuloRing::new(ref_u(&args[0]));
            rings.push(Box::leak(Box::new(r)));
            ok1(Res::P("g", format!("{:x}", rings.len() - 1)))
        }
        "modulus" => ok1(Res::U(rings[parse_usize(lit_val(&args[0]))].modulus())),
        "ringeq" => {
            ok1(pbool(rings[parse_usize(lit_val(&args[0]))] == rings[parse_usize(lit_val(&args[1]))]))
        }
        "into" => {
            let g = parse_usize(lit_val(&args[0]));
            let ring = rings[g];
            let m = match args.swap_remove(1) {
                V(T::U(a)) => ring.from(a),
                R(T::U(a)) => ring.from(a),
                V(T::I(a)) => ring.from(a),
                R(T::I(a)) => ring.from(a),
                L { ty: "bool", val, .. } => ring.from(val == "1"),
                L { ty, val, .. } => {
                    macro_rules! m {
                        ($ring:expr, $v:expr, $t:ty) => {
                            $ring.from(parse_small($v) as $t)
                        };
                    }
                    with_prim!(ty, m, ring, val)
                }
                _ => panic!("harness: bad operand"),
            };
            ok1(Res::M(g, m))
        }
        "residue" => ok1(Res::U(ref_m(&args[0]).1.residue())),
        "meq" => ok1(pbool(ref_m(&args[0]).1 == ref_m(&args[1]).1)),
        "mpow" => {
            let (g, a) = ref_m(&args[0]);
            ok1(Res::M(g, a.pow(ref_u(&args[1]))))
        }
        "mpows" => {
            let (g, a) = ref_m(&args[0]);
            ok1(Res::M(g, a.pow_signed(ref_i(&args[1]))))
        }
        "inv" => {
            let (g, a) = ref_m(&args[0]);
            match a.inverse() {
                Some(x) => ok1(Res::M(g, x)),
                None => Outcome::NoneVal,
            }
        }
        // ---- num-traits
        "nt_zero" => match lit_val(&args[0]) {
            "0" => ok1(Res::U(<UBig as num_traits::Zero>::zero())),
            _ => ok1(Res::I(<IBig as num_traits::Zero>::zero())),
        },
        "nt_one" => match lit_val(&args[0]) {
            "0" => ok1(Res::U(<UBig as num_traits::One>::one())),
            _ => ok1(Res::I(<IBig as num_traits::One>::one())),
        },
        "nt_iszero" => ok1(pbool(match &args[0] {
            R(T::U(a)) => num_traits::Zero::is_zero(a),
            R(T::I(a)) => num_traits::Zero::is_zero(a),
            _ => panic!("harness: bad operand"),
        })),
        "nt_isone" => ok1(pbool(match &args[0] {
            R(T::U(a)) => num_traits::One::is_one(a),
            R(T::I(a)) => num_traits::One::is_one(a),
            _ => panic!("harness: bad operand"),
        })),
        "nt_setzero" => match args.pop().unwrap() {
            W(T::U(mut a)) => {
                num_traits::Zero::set_zero(&mut a);
                ok1(Res::U(a))
            }
            W(T::I(mut a)) => {
                num_traits::Zero::set_zero(&mut a);
                ok1(Res::I(a))
            }
            _ => panic!("harness: bad operand"),
        },
        "nt_setone" => match args.pop().unwrap() {
            W(T::U(mut a)) => {
                num_traits::One::set_one(&mut a);
                ok1(Res::U(a))
            }
            W(T::I(mut a)) => {
                num_traits::One::set_one(&mut a);
                ok1(Res::I(a))
            }
            _ => panic!("harness: bad operand"),
        },
        "nt_pow" => {
            let e = parse_usize(lit_val(&args[1]));
            match args.swap_remove(0) {
                V(T::U(a)) => ok1(Res::U(num_traits::Pow::pow(a, e))),
                R(T::U(a)) => ok1(Res::U(<&UBig as num_traits::Pow<usize>>::pow(a, e))),
                V(T::I(a)) => ok1(Res::I(num_traits::Pow::pow(a, e))),
                R(T::I(a)) => ok1(Res::I(<&IBig as num_traits::Pow<usize>>::pow(a, e))),
                _ => panic!("harness: bad operand"),
            }
        }
        "nt_abs" => ok1(Res::I(num_traits::Signed::abs(ref_i(&args[0])))),
        "nt_abssub" => ok1(Res::I(num_traits::Signed::abs_sub(ref_i(&args[0]), ref_i(&args[1])))),
        "nt_signum" => ok1(Res::I(num_traits::Signed::signum(ref_i(&args[0])))),
        "nt_ispos" => ok1(pbool(num_traits::Signed::is_positive(ref_i(&args[0])))),
        "nt_isneg" => ok1(pbool(num_traits::Signed::is_negative(ref_i(&args[0])))),
        "drop" => {
            let before = crate::mem::live();
            let x = args.pop().unwrap();
            match x {
                V(v) => drop(v),
                _ => panic!("harness: bad operand"),
            }
            let after = crate::mem::live();
            ok1(pusize((before - after).max(0) as usize))
        }
        #[cfg(feature = "ext")]
        "ser" | "de" | "sample" | "hist" | "bithist" => ext::exec(f, args),
        _ => {
            panic!("harness: unknown operation {}", f)
        }
    }
}

impl Machine {
    pub fn new(nregs: usize, file: std::fs::File) -> Machine {
        Machine {
            file,
            written: 0,
            held: 0,
            regs: (0..nregs).map(|_| Val::None).collect(),
            rings: Vec::new(),
            out: String::with_capacity(1 << 16),
            events: 0,
            panics: 0,
        }
    }

    fn flush(&mut self) {
        use std::io::Write;
        self.file.write_all(self.out.as_bytes()).expect("trace output");
        self.written += self.out.len();
        self.out.clear();
    }

    pub fn finish(&mut self) {
        self.flush();
    }

    /// The first event: the configuration.
    pub fn header(&mut self, word_bits: usize) {
        use std::fmt::Write;
        writeln!(
            self.out,
            "{{\"f\":\"cfg\",\"a\":[[\"usize\",\"{:x}\"],[\"usize\",\"{:x}\"],[\"usize\",\"{:x}\"]],\"o\":\"ok\",\"r\":[]}}",
            word_bits,
            std::mem::size_of::<usize>() * 8,
            UBig::MAX_BIT_LEN
        )
        .unwrap();
        self.events += 1;
    }

    /// Run one command, append its event to the trace. Returns false if it panicked.
    pub fn run(&mut self, c: &Cmd) -> bool {
        let (live, cap) = (crate::mem::live(), self.out.capacity() + self.rings.capacity() * std::mem::size_of::<&ModuloRing>());
        let r = self.run_inner(c);
        let cap2 = self.out.capacity() + self.rings.capacity() * std::mem::size_of::<&ModuloRing>();
        self.held += crate::mem::live() - live - (cap2 as isize - cap as isize);
        r
    }

    /// All registers are empty: release the rings and report what is still held.
    fn balance(&mut self) -> bool {
        for v in self.regs.iter_mut() {
            *v = Val::None;
        }
        for r in std::mem::take(&mut self.rings) {
            // Rings are created by Box::leak, and no element is left.
            unsafe { drop(Box::from_raw(r as *const ModuloRing as *mut ModuloRing)) };
        }
        true
    }

    fn run_inner(&mut self, c: &Cmd) -> bool {
        use std::fmt::Write as _;
        if c.f == "balance" {
            let live = crate::mem::live();
            let cap = self.rings.capacity() * std::mem::size_of::<&ModuloRing>();
            self.balance();
            let held = self.held + (crate::mem::live() - live) + cap as isize;
            writeln!(self.out, "{{\"f\":\"balance\",\"a\":[],\"o\":\"ok\",\"r\":[[\"isize\",-1,\"{}{:x}\"]]}}", if held < 0 { "-" } else { "" }, held.abs()).unwrap();
            self.events += 1;
            return true;
        }
        if c.f == "forget" {
            // The generator emptied a register.
            let k = match &c.a[0] {
                Opd::Lit { val, .. } => parse_usize(val),
                _ => panic!("harness: forget"),
            };
            self.regs[k] = Val::None;
            writeln!(self.out, "{{\"f\":\"forget\",\"a\":[[\"usize\",\"{:x}\"]],\"o\":\"ok\",\"r\":[]}}", k).unwrap();
            self.events += 1;
            return true;
        }
        // Take moved and mutated operands out first.
        let mut taken: Vec<Option<Val>> = Vec::with_capacity(c.a.len());
        let mut wreg: i32 = -1;
        for o in &c.a {
            taken.push(match o {
                Opd::V(n) => Some(std::mem::replace(&mut self.regs[*n], Val::None)),
                Opd::W(n) => {
                    wreg = *n as i32;
                    Some(std::mem::replace(&mut self.regs[*n], Val::None))
                }
                _ => None,
            });
        }
        let Machine { regs, rings, .. } = self;
        let regs_ref: &Vec<Val> = regs;
        let args: Vec<Arg> = c
            .a
            .iter()
            .zip(taken.into_iter())
            .map(|(o, t)| match o {
                Opd::V(_) => Arg::V(t.unwrap()),
                Opd::W(_) => Arg::W(t.unwrap()),
                Opd::R(n) => Arg::R(&regs_ref[*n]),
                Opd::Lit { ty, val, by_ref } => Arg::L { ty, val, by_ref: *by_ref },
            })
            .collect();
        for a in &args {
            if matches!(a, Arg::V(Val::None) | Arg::R(Val::None) | Arg::W(Val::None)) {
                eprintln!("harness: empty register used by {:?}", c);
                drop(args);
                self.flush();
                std::process::exit(3);
            }
        }
        let f = c.f.as_str();
        {
            use std::io::Write;
            // The call is on record before it is made.
            let out = &mut self.out;
            out.push_str("{\"f\":\"");
            out.push_str(f);
            out.push_str("\",\"a\":[");
            for (k, o) in c.a.iter().enumerate() {
                if k > 0 {
                    out.push(',');
                }
                opd_json(o, out);
            }
            out.push_str("],\"o\":\"");
            self.file.write_all(out.as_bytes()).expect("trace output");
            self.written += out.len();
            out.clear();
        }
        let res = catch_unwind(AssertUnwindSafe(|| exec_op(f, args, rings)));
        let out = &mut self.out;
        let mut ok = true;
        let mut results = vec![];
        match res {
            Ok(Outcome::Ok(r)) => {
                out.push_str("ok");
                results = r;
            }
            Ok(Outcome::NoneVal) => out.push_str("none"),
            Ok(Outcome::Err(e)) => {
                out.push_str("err:");
                out.push_str(e);
            }
            Err(e) => {
                let msg = if let Some(s) = e.downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = e.downcast_ref::<String>() {
                    s.clone()
                } else {
                    String::new()
                };
                if msg.starts_with("harness:") {
                    eprintln!("{} in {:?}", msg, c);
                    std::process::exit(3);
                }
                out.push_str("panic");
                ok = false;
                self.panics += 1;
                // The message is informative only; the specification does not constrain it.
                out.push_str("\",\"m\":\"");
                for ch in msg.chars().take(160) {
                    if ch.is_ascii() && ch != '"' && ch != '\\' && !ch.is_control() {
                        out.push(ch);
                    }
                }
            }
        }
        out.push_str("\",\"r\":[");
        for (k, r) in results.into_iter().enumerate() {
            if k > 0 {
                out.push(',');
            }
            let dst = if k == 0 && wreg >= 0 { wreg } else { c.d.get(k).copied().unwrap_or(-1) };
            use std::fmt::Write;
            let put = |regs: &mut Vec<Val>, v: Val| {
                if dst >= 0 {
                    regs[dst as usize] = v;
                }
            };
            match r {
                Res::U(x) => {
                    write!(out, "[\"u\",{},\"", dst).unwrap();
                    hex_u(&x, out);
                    out.push_str("\"]");
                    put(&mut self.regs, Val::U(x));
                }
                Res::I(x) => {
                    write!(out, "[\"i\",{},\"", dst).unwrap();
                    hex_i(&x, out);
                    out.push_str("\"]");
                    put(&mut self.regs, Val::I(x));
                }
                Res::M(g, x) => {
                    write!(out, "[\"m\",{},\"", dst).unwrap();
                    hex_u(&x.residue(), out);
                    write!(out, "\",{}]", g).unwrap();
                    put(&mut self.regs, Val::M(g, x));
                }
                Res::P(ty, s) => write!(out, "[\"{}\",-1,\"{}\"]", ty, s).unwrap(),
                Res::S(s) => {
                    out.push_str("[\"s\",-1,[");
                    for (j, ch) in s.chars().enumerate() {
                        if j > 0 {
                            out.push(',');
                        }
                        write!(out, "{}", ch as u32).unwrap();
                    }
                    out.push_str("]]");
                }
                Res::B(b) => {
                    out.push_str("[\"b\",-1,[");
                    for (j, x) in b.iter().enumerate() {
                        if j > 0 {
                            out.push(',');
                        }
                        write!(out, "{}", x).unwrap();
                    }
                    out.push_str("]]");
                }
                Res::Tok(b) => {
                    out.push_str("[\"tok\",-1,[");
                    for (j, (t, x)) in b.iter().enumerate() {
                        if j > 0 {
                            out.push(',');
                        }
                        write!(out, "[\"{}\",\"{}\"]", t, x).unwrap();
                    }
                    out.push_str("]]");
                }
                Res::W(b) => {
                    out.push_str("[\"w64\",-1,[");
                    for (j, x) in b.iter().enumerate() {
                        if j > 0 {
                            out.push(',');
                        }
                        write!(out, "\"{:x}\"", x).unwrap();
                    }
                    out.push_str("]]");
                }
                Res::Seq(ty, b) => {
                    write!(out, "[\"{}\",-1,[", ty).unwrap();
                    for (j, x) in b.iter().enumerate() {
                        if j > 0 {
                            out.push(',');
                        }
                        write!(out, "{}", x).unwrap();
                    }
                    out.push_str("]]");
                }
            }
        }
        out.push_str("]}\n");
        self.events += 1;
        ok
    }
}
