//! Mixed operations between big integers and primitive integers.
use crate::exec::Arg::{self, *};
use crate::exec::Val as T;
use crate::exec::{parse_small, prim_hex, Outcome, Res};
use crate::with_prim;
use ibig::ops::*;
use ibig::{IBig, UBig};

trait IntoRes {
    fn res(self) -> Res;
}
impl IntoRes for UBig {
    fn res(self) -> Res {
        Res::U(self)
    }
}
impl IntoRes for IBig {
    fn res(self) -> Res {
        Res::I(self)
    }
}
macro_rules! prim_res { ($($t:ident)*) => {$( impl IntoRes for $t {
    #[allow(unused_comparisons)]
    fn res(self) -> Res { Res::P(stringify!($t), prim_hex(self as i128, self < 0)) } } )*} }
prim_res!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);

/// Big integer first: operator with its assigning form.
macro_rules! big_op {
    ($x:expr, $y:expr, $r:expr, $B:ident, $op:tt, $as:tt) => {
        match ($x, $r) {
            (V(T::$B(a)), false) => (a $op $y).res(),
            (V(T::$B(a)), true) => (a $op &$y).res(),
            (R(T::$B(a)), false) => (a $op $y).res(),
            (R(T::$B(a)), true) => (a $op &$y).res(),
            (W(T::$B(mut a)), false) => { a $as $y; a.res() }
            (W(T::$B(mut a)), true) => { a $as &$y; a.res() }
            _ => panic!("harness: mixed operands"),
        }
    };
}
macro_rules! big_meth {
    ($x:expr, $y:expr, $r:expr, $B:ident, $m:ident) => {
        match ($x, $r) {
            (V(T::$B(a)), false) => a.$m($y).res(),
            (V(T::$B(a)), true) => a.$m(&$y).res(),
            (R(T::$B(a)), false) => a.$m($y).res(),
            (R(T::$B(a)), true) => a.$m(&$y).res(),
            _ => panic!("harness: mixed operands"),
        }
    };
}
macro_rules! big_meth2 {
    ($x:expr, $y:expr, $r:expr, $B:ident, $m:ident) => {{
        let (q, r) = match ($x, $r) {
            (V(T::$B(a)), false) => a.$m($y),
            (V(T::$B(a)), true) => a.$m(&$y),
            (R(T::$B(a)), false) => a.$m($y),
            (R(T::$B(a)), true) => a.$m(&$y),
            _ => panic!("harness: mixed operands"),
        };
        vec![q.res(), r.res()]
    }};
}
/// Primitive first.
macro_rules! prim_op {
    ($x:expr, $r:expr, $y:expr, $B:ident, $op:tt) => {
        match ($r, $y) {
            (false, V(T::$B(b))) => ($x $op b).res(),
            (false, R(T::$B(b))) => ($x $op b).res(),
            (true, V(T::$B(b))) => (&$x $op b).res(),
            (true, R(T::$B(b))) => (&$x $op b).res(),
            _ => panic!("harness: mixed operands"),
        }
    };
}

macro_rules! big_first {
    ($f:expr, $x:expr, $val:expr, $r:expr, $B:ident, $t:ty) => {{
        let y = parse_small($val) as $t;
        let r: bool = $r;
        match $f {
            "add" => vec![big_op!($x, y, r, $B, +, +=)],
            "sub" => vec![big_op!($x, y, r, $B, -, -=)],
            "mul" => vec![big_op!($x, y, r, $B, *, *=)],
            "div" => vec![big_op!($x, y, r, $B, /, /=)],
            "rem" => vec![big_op!($x, y, r, $B, %, %=)],
            "and" => vec![big_op!($x, y, r, $B, &, &=)],
            "or" => vec![big_op!($x, y, r, $B, |, |=)],
            "xor" => vec![big_op!($x, y, r, $B, ^, ^=)],
            "andnot" => vec![big_meth!($x, y, r, $B, and_not)],
            "dive" => vec![big_meth!($x, y, r, $B, div_euclid)],
            "reme" => vec![big_meth!($x, y, r, $B, rem_euclid)],
            "divrem" => big_meth2!($x, y, r, $B, div_rem),
            "divreme" => big_meth2!($x, y, r, $B, div_rem_euclid),
            _ => panic!("harness: unknown mixed op {}", $f),
        }
    }};
}
macro_rules! bu { ($f:expr, $x:expr, $v:expr, $r:expr, $t:ty) => { big_first!($f, $x, $v, $r, U, $t) } }
macro_rules! bi { ($f:expr, $x:expr, $v:expr, $r:expr, $t:ty) => { big_first!($f, $x, $v, $r, I, $t) } }

macro_rules! pu {
    ($f:expr, $val:expr, $r:expr, $y:expr, $t:ty) => {{
        let x = parse_small($val) as $t;
        let r: bool = $r;
        match $f {
            "add" => vec![prim_op!(x, r, $y, U, +)],
            "mul" => vec![prim_op!(x, r, $y, U, *)],
            "and" => vec![prim_op!(x, r, $y, U, &)],
            "or" => vec![prim_op!(x, r, $y, U, |)],
            "xor" => vec![prim_op!(x, r, $y, U, ^)],
            _ => panic!("harness: unknown mixed op {}", $f),
        }
    }};
}
macro_rules! pi {
    ($f:expr, $val:expr, $r:expr, $y:expr, $t:ty) => {{
        let x = parse_small($val) as $t;
        let r: bool = $r;
        match $f {
            "add" => vec![prim_op!(x, r, $y, I, +)],
            "sub" => vec![prim_op!(x, r, $y, I, -)],
            "mul" => vec![prim_op!(x, r, $y, I, *)],
            "and" => vec![prim_op!(x, r, $y, I, &)],
            "or" => vec![prim_op!(x, r, $y, I, |)],
            "xor" => vec![prim_op!(x, r, $y, I, ^)],
            _ => panic!("harness: unknown mixed op {}", $f),
        }
    }};
}

fn is_u(a: &Arg) -> bool {
    matches!(a, V(T::U(_)) | R(T::U(_)) | W(T::U(_)))
}

pub fn exec_mixed(f: &str, x: Arg, y: Arg) -> Outcome {
    Outcome::Ok(match (x, y) {
        (x, L { ty, val, by_ref }) => {
            if is_u(&x) {
                with_prim!(ty, bu, f, x, val, by_ref)
            } else {
                with_prim!(ty, bi, f, x, val, by_ref)
            }
        }
        (L { ty, val, by_ref }, y) => {
            if is_u(&y) {
                with_prim!(ty, pu, f, val, by_ref, y)
            } else {
                with_prim!(ty, pi, f, val, by_ref, y)
            }
        }
        _ => panic!("harness: mixed operands"),
    })
}
