//! Input and history generators (direction: implementation -> specification).
//! They choose inputs only; what must come out is decided by the TLA+ specification.
use crate::cmd::*;
use crate::exec::*;
use crate::nat::*;

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9e3779b97f4a7c15) ^ 0x243f6a8885a308d3);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() as u128 * n as u128) >> 64) as usize
    }
    pub fn chance(&mut self, a: usize, b: usize) -> bool {
        self.below(b) < a
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())].clone()
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
}

pub const PRIMS: [&str; 12] =
    ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"];

pub fn prim_bits(ty: &str) -> usize {
    match ty {
        "u8" | "i8" => 8,
        "u16" | "i16" => 16,
        "u32" | "i32" => 32,
        "u64" | "i64" => 64,
        "u128" | "i128" => 128,
        _ => std::mem::size_of::<usize>() * 8,
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ty {
    None,
    U,
    I,
    M(usize),
}

pub struct G {
    pub m: Machine,
    pub r: Rng,
    /// Word size used for input patterns.
    pub lw: usize,
    /// Word size of the library under test.
    pub wb: usize,
    /// Stop when this many bytes of trace are written.
    pub limit: usize,
    /// Keep everything independent of the configuration.
    pub portable: bool,
}

pub const NREG: usize = 16;

impl G {
    pub fn full(&self) -> bool {
        self.m.written >= self.limit
    }
    pub fn run(&mut self, f: &str, d: &[i32], a: Vec<Opd>) -> bool {
        let c = Cmd::new(f, d, a);
        self.m.run(&c)
    }
    pub fn ty(&self, k: usize) -> Ty {
        match &self.m.regs[k] {
            Val::None => Ty::None,
            Val::U(_) => Ty::U,
            Val::I(_) => Ty::I,
            Val::M(g, _) => Ty::M(*g),
        }
    }
    pub fn bits_of(&self, k: usize) -> usize {
        match &self.m.regs[k] {
            Val::U(x) => x.bit_len(),
            Val::I(x) => ibig::ops::UnsignedAbs::unsigned_abs(x).bit_len(),
            _ => 0,
        }
    }
    pub fn lu(&mut self, k: usize, x: &N) {
        self.run("load", &[k as i32], vec![lit("u", &x.hex())]);
    }
    pub fn li(&mut self, k: usize, x: &Z) {
        self.run("load", &[k as i32], vec![lit("i", &x.hex())]);
    }
    /// Load with the given type.
    pub fn lx(&mut self, k: usize, x: &Z, signed: bool) {
        if signed {
            self.li(k, x)
        } else {
            self.lu(k, &x.m)
        }
    }

    // ------------------------------------------------------------ numbers

    pub fn pat_word(&mut self) -> u64 {
        let w = self.lw;
        let max = if w == 64 { u64::MAX } else { (1 << w) - 1 };
        let half = 1u64 << (w - 1);
        (match self.r.below(14) {
            0 | 1 => 0,
            2 => 1,
            3 | 4 => max,
            5 => max - 1,
            6 => half,
            7 => half - 1,
            8 => half + 1,
            9 => self.r.next() & 3,
            10 => 1 << self.r.below(w),
            11 => (1u64 << self.r.below(w)).wrapping_sub(1),
            _ => self.r.next(),
        }) & max
    }

    pub fn from_words(&self, v: &[u64]) -> N {
        let w = self.lw;
        let mut out = vec![];
        match w {
            16 => {
                for c in v.chunks(2) {
                    out.push(c[0] as u32 | (if c.len() > 1 { (c[1] as u32) << 16 } else { 0 }));
                }
            }
            32 => out.extend(v.iter().map(|x| *x as u32)),
            _ => {
                for x in v {
                    out.push(*x as u32);
                    out.push((*x >> 32) as u32);
                }
            }
        }
        N(out).norm()
    }

    /// A number of exactly `n` logical words (top word non-zero) with structured digits.
    pub fn nat_w(&mut self, n: usize) -> N {
        if n == 0 {
            return N::zero();
        }
        let w = self.lw;
        let max = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
        let mut v: Vec<u64> = Vec::with_capacity(n);
        match self.r.below(10) {
            0 | 1 => {
                for _ in 0..n {
                    v.push(self.r.next() & max);
                }
            }
            2 => {
                // all ones, perhaps with one deviating word
                v.resize(n, max);
                if self.r.chance(1, 2) {
                    let k = self.r.below(n);
                    v[k] = self.pat_word();
                }
            }
            3 => {
                // power of two plus or minus something small
                let k = w * (n - 1) + self.r.below(w);
                let p = N::pow2(k);
                let s = N::from(self.r.below(3) as u128);
                return if self.r.chance(1, 2) { p.add(&s) } else { p.diff(&s) };
            }
            4 => {
                // sparse
                v.resize(n, 0);
                for _ in 0..self.r.range(1, 3) {
                    let k = self.r.below(n);
                    v[k] = self.pat_word();
                }
            }
            _ => {
                // runs of pattern words
                while v.len() < n {
                    let x = self.pat_word();
                    let run = if self.r.chance(1, 2) { 1 } else { self.r.range(1, n) };
                    for _ in 0..run.min(n - v.len()) {
                        v.push(x);
                    }
                }
            }
        }
        if v[n - 1] == 0 {
            v[n - 1] = loop {
                let x = self.pat_word();
                if x != 0 {
                    break x;
                }
            };
        }
        self.from_words(&v)
    }

    /// Two clusters of bits with a gap of `gap` words of zeros (or ones) between them.
    pub fn spread(&mut self, gap: usize) -> N {
        let w = self.lw;
        let (h, l) = (self.r.range(1, 3), self.r.range(1, 2));
        let hi = self.nat_w(h);
        let lo = match self.r.below(3) {
            0 => N::pow2(self.r.below(w * l)),
            1 => N::from(1),
            _ => self.nat_w(l),
        };
        let mut x = hi.shl(w * (l + gap)).add(&lo);
        if self.r.chance(1, 4) {
            x = x.add(&N::pow2(w * gap).diff(&N::from(1)).shl(w * l));
        }
        x
    }
    /// A gap for `spread`: of any order of magnitude.
    pub fn gap(&mut self) -> usize {
        let k = self.r.range(1, 8);
        self.r.range(1, 1 << k)
    }
    /// Small-biased number of words.
    pub fn words(&mut self, max: usize) -> usize {
        let k = match self.r.below(10) {
            0 => 0,
            1..=3 => 1,
            4 | 5 => self.r.range(2, 3),
            6 | 7 if max <= 15 || self.r.chance(1, 2) => self.r.range(2, 8),
            _ => self.r.range(1, max),
        };
        k.min(max)
    }
    /// Usually one of these lengths, sometimes a long one.
    pub fn deep(&mut self, v: &[usize]) -> usize {
        if self.r.chance(1, 14) {
            self.r.pick(&[16, 17, 24, 32, 33, 40, 48, 64, 65, 80, 100, 130, 200, 260])
        } else {
            self.r.pick(v)
        }
    }
    pub fn nat(&mut self, maxw: usize) -> N {
        let n = self.words(maxw);
        self.nat_w(n)
    }
    /// Like `nat`, now and then with two far clusters of bits.
    pub fn wide(&mut self, maxw: usize) -> N {
        if self.r.chance(1, 16) {
            let k = self.gap();
            self.spread(k)
        } else {
            self.nat(maxw)
        }
    }
    pub fn int(&mut self, maxw: usize) -> Z {
        let m = self.nat(maxw);
        Z { neg: self.r.chance(1, 2) && !m.is_zero(), m }
    }
    pub fn small(&mut self, k: usize) -> N {
        N::from(self.r.below(k) as u128)
    }
    /// Something related to `a`.
    pub fn near(&mut self, a: &N) -> N {
        let w = self.lw;
        let b = a.bits();
        let class = if b > 7 * w && self.r.chance(1, 3) { 8 } else { self.r.below(10) };
        match class {
            0 => a.clone(),
            1 => {
                let s = self.small(4);
                a.add(&s)
            }
            2 => {
                let s = self.small(4);
                a.diff(&s)
            }
            3 => N::pow2(b).diff(a),
            4 => N::pow2(b.max(1)).diff(&N::from(1)).diff(a),
            5 => {
                let k = self.r.below(b / w + 1) * w;
                a.shr(k)
            }
            6 => {
                let k = self.r.below(b / w + 1) * w;
                a.low(k)
            }
            7 => {
                let k = self.r.below(w * 2 + 1);
                a.shl(k)
            }
            8 => {
                // one word changed
                let n = (b + w - 1) / w;
                let k = self.r.below(n + 1) * w;
                let x = self.pat_word();
                a.add(&N::from(x as u128).shl(k))
            }
            _ => {
                let n = (b + w - 1) / w;
                self.nat_w(n)
            }
        }
    }
    pub fn related(&mut self, a: &N, maxw: usize) -> N {
        if self.r.chance(1, 2) {
            self.near(a)
        } else {
            self.nat(maxw)
        }
    }
    /// a = q*b + r with structured q and r.
    pub fn dividend(&mut self, b: &N, qw: usize) -> N {
        let q = if self.r.chance(1, 3) { let n = self.r.range(1, qw.max(1)); self.nat_w(n) } else { self.nat(qw) };
        let r = match self.r.below(5) {
            0 => N::zero(),
            1 => N::from(1),
            2 => b.diff(&N::from(1)),
            3 => b.shr(1),
            _ => {
                let x = self.nat(b.0.len() * 32 / self.lw + 1);
                if x.lt(b) { x } else { N::zero() }
            }
        };
        let qb = q.mul(b);
        if self.r.chance(1, 8) {
            qb.diff(&N::from(1))
        } else {
            qb.add(&r)
        }
    }
    /// A primitive value in range for the type.
    pub fn prim(&mut self, ty: &str) -> String {
        let bits = prim_bits(ty);
        let signed = ty.starts_with('i');
        let bits = if self.portable && (ty == "usize" || ty == "isize") { 32 } else { bits };
        let m = if signed { bits - 1 } else { bits };
        let max = if m == 128 { u128::MAX } else { (1u128 << m) - 1 };
        let raw = (self.r.next() as u128) << 64 | self.r.next() as u128;
        let x = match self.r.below(10) {
            0 => 0,
            1 => 1,
            2 => max,
            3 => max - 1,
            4 => raw & max,
            5 => raw & max >> self.r.below(m),
            6 => (1u128 << self.r.below(m)) & max,
            7 => ((1u128 << self.r.below(m)) - 1) & max,
            8 => max ^ ((1u128 << self.r.below(m)) - 1) & max,
            _ => self.r.below(12) as u128 & max,
        };
        if signed && self.r.chance(1, 2) {
            // -x-1 covers the minimum
            let y = if self.r.chance(1, 2) { x + 1 } else { x };
            if y == 0 {
                return "0".into();
            }
            return format!("-{:x}", y);
        }
        format!("{:x}", x)
    }

    // ------------------------------------------------------------ operand forms

    /// Random forms for a binary operator on two registers, result register for non assigning forms.
    pub fn forms(&mut self, x: usize, y: usize, assign: bool) -> (Opd, Opd) {
        if x == y {
            return (Opd::R(x), Opd::R(y));
        }
        match self.r.below(if assign { 6 } else { 4 }) {
            0 => (Opd::V(x), Opd::V(y)),
            1 => (Opd::V(x), Opd::R(y)),
            2 => (Opd::R(x), Opd::V(y)),
            3 => (Opd::R(x), Opd::R(y)),
            4 => (Opd::W(x), Opd::V(y)),
            _ => (Opd::W(x), Opd::R(y)),
        }
    }
    pub fn form1(&mut self, x: usize) -> Opd {
        if self.r.chance(1, 2) {
            Opd::V(x)
        } else {
            Opd::R(x)
        }
    }
    /// A borrowed copy of every form at once: compute with RR into d, then one consuming form into d+1.
    pub fn bin_case(&mut self, f: &str, a: &Z, b: &Z, signed: bool, two: bool) {
        let assign = !matches!(f, "andnot" | "divrem" | "dive" | "reme" | "divreme");
        self.lx(0, a, signed);
        self.lx(1, b, signed);
        if two {
            let (p, q) = (Opd::R(0), Opd::R(1));
            self.run(f, &[2, 3], vec![p, q]);
        }
        let (p, q) = self.forms(0, 1, assign);
        self.run(f, &[4, 5], vec![p, q]);
    }
    pub fn usz(n: usize) -> Opd {
        lit("usize", &format!("{:x}", n))
    }

    pub fn get_all(&mut self) {
        for k in 0..NREG {
            if self.ty(k) != Ty::None {
                self.run("get", &[], vec![Opd::R(k)]);
            }
        }
    }
    pub fn text(s: &str) -> Opd {
        let v: Vec<String> = s.chars().map(|c| (c as u32).to_string()).collect();
        lit("s", &v.join(","))
    }
}
