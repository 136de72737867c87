//! One generator per property.
use crate::cmd::*;
use crate::gen::*;
use crate::nat::*;

fn z(m: N, neg: bool) -> Z {
    let neg = neg && !m.is_zero();
    Z { neg, m }
}

impl G {
    /// Both registers hold values of one type.
    fn same(&self, x: usize, y: usize) -> bool {
        self.ty(x) != Ty::None && self.ty(x) == self.ty(y)
    }
    fn flip(&mut self) -> bool {
        self.r.chance(1, 2)
    }
    fn signs(&mut self, a: N, b: N) -> (Z, Z, bool) {
        let signed = self.r.chance(2, 3);
        let (p, q) = (self.flip(), self.flip());
        (z(a, signed && p), z(b, signed && q), signed)
    }

    // ---------------------------------------------------------------- C01
    pub fn c01(&mut self) {
        while !self.full() {
            if self.r.chance(1, 60) {
                self.fill();
            }
            let max = self.r.pick(&[2, 4, 9, 20, 60]);
            let a = self.wide(max);
            let b = self.related(&a, max);
            let (a, b) = if self.flip() { (a, b) } else { (b, a) };
            let (a, b, signed) = self.signs(a, b);
            let two = self.r.chance(1, 3);
            let f = self.r.pick(&["add", "sub", "sub"]);
            self.bin_case(f, &a, &b, signed, two);
            if two {
                // undo, from results with a history
                let g = if f == "add" { "sub" } else { "add" };
                let y = if self.ty(1) != Ty::None { 1 } else { 2 };
                if self.same(4, y) {
                    let (p, q) = self.forms(4, y, true);
                    self.run(g, &[6], vec![p, q]);
                }
            }
            if self.r.chance(1, 8) {
                // same object twice
                self.lx(0, &a, signed);
                self.run(f, &[2], vec![Opd::R(0), Opd::R(0)]);
                // accumulate in place until the buffer must grow
                for _ in 0..self.r.below(4) {
                    self.lx(1, &b, signed);
                    if !self.same(0, 1) {
                        break;
                    }
                    let q = self.form1(1);
                    self.run(f, &[], vec![Opd::W(0), q]);
                }
            }
            if self.r.chance(1, 6) {
                // long borrow or carry chains: 2^k - x, (2^k - x) + x
                let k = self.r.range(1, max * self.lw);
                self.lu(0, &N::pow2(k));
                let s = self.small(5);
                self.lu(1, &s);
                self.run("sub", &[2], vec![Opd::R(0), Opd::R(1)]);
                if self.same(2, 1) {
                    let (p, q) = self.forms(2, 1, true);
                    let w = matches!(p, Opd::W(_));
                    self.run("add", &[3], vec![p, q]);
                    let res = if w { 2 } else { 3 };
                    if self.same(res, 0) {
                        self.run("cmp", &[], vec![Opd::R(res), Opd::R(0)]);
                    }
                }
            }
        }
    }

    /// Grow one object in place word by word, full of ones, and let a carry run over its end:
    /// every buffer capacity is hit exactly.
    pub fn fill(&mut self) {
        let w = if self.portable { self.lw } else { self.wb };
        let n = self.r.pick(&[1, 1, 2, 2, 2, 3, 3, 4, 5, 7, 8, 9, 15, 16, 17, 24, 25, 32, 40, 64]);
        let signed = self.flip();
        let neg = signed && self.flip();
        let ones = |k: usize| N::pow2(k).diff(&N::from(1));
        self.lx(1, &z(ones(n * w), neg), signed);
        // the first buffer: a copy, a sum, a product, a shift or a fresh number
        match self.r.below(5) {
            0 | 1 => {
                self.run("clone", &[0], vec![Opd::R(1)]);
            }
            2 => {
                self.lx(2, &z(N::zero(), false), signed);
                self.run("add", &[0], vec![Opd::R(1), Opd::R(2)]);
            }
            3 => {
                self.run("shr", &[0], vec![Opd::R(1), G::usz(w / 2)]);
            }
            _ => self.lx(0, &z(ones(n * w), neg), signed),
        }
        let exact = self.flip();
        let top = if exact { n + n / 8 + 2 } else { n + n / 8 + 5 };
        let mut t = if exact { top } else if self.flip() { n } else { self.r.range(n, top) };
        while t <= top {
            if self.ty(0) == Ty::None {
                return;
            }
            let bits = self.bits_of(0);
            if t * w > bits && !exact && self.flip() {
                self.run("shl", &[], vec![Opd::W(0), G::usz(t * w - bits)]);
            }
            self.lx(1, &z(ones(t * w), neg), signed);
            match self.r.below(3) {
                0 if !neg => {
                    let q = self.form1(1);
                    self.run("or", &[0], vec![Opd::W(0), q]);
                }
                _ => {
                    // t words of ones, in the buffer at hand
                    self.run("clonefrom", &[], vec![Opd::W(0), Opd::R(1)]);
                    if self.flip() {
                        let k = self.r.below(w);
                        self.run("shr", &[], vec![Opd::W(0), G::usz(k)]);
                        self.run("shl", &[], vec![Opd::W(0), G::usz(k)]);
                    }
                }
            }
            // over the end and back
            let s = match self.r.below(6) {
                0 => N::from(2),
                1 => ones(64),
                2 => ones(self.r.range(1, t * w)),
                3 => N::pow2(w * self.r.below(t)).add(&N::from(1)),
                _ => N::from(1),
            };
            match self.r.below(7) {
                0 if cfg!(feature = "prim") => {
                    let ty = self.r.pick(&["u8", "u32", "u64", "usize"]);
                    self.run("add", &[], vec![Opd::W(0), lit(ty, "1")]);
                }
                1 if !signed => {
                    self.run("nextpow2", &[0], vec![Opd::V(0)]);
                }
                2 if !signed => {
                    self.run("setbit", &[], vec![Opd::W(0), G::usz(t * w)]);
                }
                3 if signed => {
                    self.run("not", &[0], vec![Opd::V(0)]);
                    self.run("neg", &[0], vec![Opd::V(0)]);
                }
                4 => {
                    self.lx(2, &z(s, false), signed);
                    let (p, q) = (self.r.pick(&[Opd::W(0), Opd::V(0)]), self.form1(2));
                    self.run("mul", &[0], vec![p, q]);
                }
                5 => {
                    // the other one is the longer buffer
                    self.lx(2, &z(s, neg), signed);
                    let p = self.r.pick(&[Opd::W(2), Opd::V(2)]);
                    let w2 = matches!(p, Opd::W(_));
                    let q = self.form1(0);
                    self.run("add", &[0], vec![p, q]);
                    if w2 {
                        self.run("clone", &[0], vec![Opd::R(2)]);
                    }
                }
                _ => {
                    self.lx(2, &z(s, neg), signed);
                    let (p, q) = (self.r.pick(&[Opd::W(0), Opd::V(0)]), self.form1(2));
                    self.run("add", &[0], vec![p, q]);
                    if self.flip() && self.same(0, 2) {
                        self.run("sub", &[], vec![Opd::W(0), Opd::R(2)]);
                    }
                }
            }
            t += self.r.range(1, 2);
        }
    }

    // ---------------------------------------------------------------- C02
    fn mul_len(&mut self, top: usize) -> usize {
        let s = [
            1, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 23, 24, 25, 26, 27, 31, 32, 33, 40, 47, 48, 49, 50, 51, 64, 72, 75,
            95, 96, 97, 99, 100, 101, 128, 150, 189, 190, 191, 192, 193, 194, 195, 196, 200, 201, 230, 256, 288, 300,
            383, 384, 385, 386, 387, 400, 450, 576, 577, 578, 579, 580, 600, 700, 768, 800, 1000, 1023, 1024, 1025,
            1040, 1200, 1536, 1800, 2047, 2048, 2049, 2100,
        ];
        loop {
            let k = if self.r.chance(1, 5) { self.r.range(1, 260) } else { self.r.pick(&s) };
            if k <= top {
                return k;
            }
        }
    }
    pub fn c02(&mut self, top: usize) {
        self.lw = self.wb;
        let top = if self.wb == 16 { top.min(2000) } else { top };
        while !self.full() {
            let class = self.r.below(10);
            let t = match class {
                0..=3 => 60,
                4..=6 => 260,
                _ => top,
            };
            let n = self.mul_len(t);
            let m = match self.r.below(4) {
                0 => n,
                1 => (n + self.r.below(5)).saturating_sub(2).max(1),
                _ => self.mul_len(t),
            };
            let a = self.nat_w(n);
            let b = if n == m && self.r.chance(1, 4) { self.near(&a) } else { self.nat_w(m) };
            if self.wb == 16 && a.bits() + b.bits() > 65000 {
                continue;
            }
            let (a, b, signed) = self.signs(a, b);
            if self.r.chance(1, 10) {
                self.lx(0, &a, signed);
                self.run("mul", &[2], vec![Opd::R(0), Opd::R(0)]);
            } else {
                let two = t <= 60 && self.r.chance(1, 3);
                self.bin_case("mul", &a, &b, signed, two);
            }
        }
    }

    // ---------------------------------------------------------------- C03
    /// Divisor and dividend made of few non-zero words.
    fn hollow(&mut self, n: usize) -> N {
        let w = self.lw;
        match self.r.below(5) {
            0 => N::pow2(w * (n - 1)),
            1 => N::pow2(w * (n - 1)).add(&self.small(3)),
            2 => {
                let k = self.r.range(1, 4).min(n);
                let x = self.nat_w(k);
                x.shl(w * (n - k))
            }
            3 => N::pow2(w * n).diff(&N::pow2(w * self.r.below(n))),
            _ => {
                let k = self.r.below(n);
                let x = self.nat_w(k.max(1).min(3));
                N::pow2(w * n - 1 - self.r.below(w)).add(&x.shl(w * self.r.below(n - k.min(n - 1))).low(w * n - w))
            }
        }
    }
    fn hollow_div(&mut self) {
        let (m, n) = match self.r.below(4) {
            0 => (self.r.range(1, 20), self.r.range(2, 40)),
            1 => {
                let m = self.r.range(33, 45);
                (m, self.r.range(3 * m, 3 * m + 8))
            }
            2 => {
                let m = self.r.range(33, 40);
                (m, self.r.range(m, 2 * m + 2))
            }
            _ => {
                let n = self.r.range(33, 50);
                (self.r.range(n, 3 * n), n)
            }
        };
        let b = if self.flip() { self.nat_w(n) } else { self.hollow(n) };
        let a = match self.r.below(5) {
            0 | 1 => self.hollow(n + m),
            2 => self.nat_w(n + m),
            3 => {
                // just below a multiple of a power of the word
                let x = b.shl(self.lw * m);
                x.diff(&self.small(3).add(&N::from(1)))
            }
            _ => {
                let k = self.r.range(0, n);
                let h = self.hollow(n);
                let x = b.shl(self.lw * m);
                let y = h.shr(self.lw * k).shl(self.lw * self.r.below(2));
                if y.lt(&x) { x.diff(&y) } else { x }
            }
        };
        let (a, b, signed) = self.signs(a, b);
        let f = self.r.pick(&["div", "rem", "divrem", "divrem", "dive", "reme", "divreme"]);
        self.bin_case(f, &a, &b, signed, false);
    }
    pub fn c03(&mut self, top: usize) {
        self.lw = self.wb;
        while !self.full() {
            if self.r.chance(1, 12) {
                self.hollow_div();
            }
            let class = self.r.below(12);
            let bl = match class {
                0..=2 => self.r.range(1, 2),
                3..=5 => self.r.range(2, 6),
                6 | 7 => self.r.range(2, 31),
                8 | 9 => self.r.pick(&[31, 32, 33, 34, 35, 40, 48, 63, 64, 65, 66, 67]),
                _ => self.r.range(33, top),
            };
            let mut b = if self.r.chance(1, 40) { N::zero() } else { self.nat_w(bl) };
            if self.r.chance(1, 4) {
                // top word normalised, next words extreme: quotient digit estimates go wrong
                let w = self.lw;
                let hi = N::from(1).shl(w - 1).add(&self.small(3));
                let lo = self.nat_w(bl);
                b = hi.shl(w * bl).add(&lo);
            }
            let ql = match self.r.below(6) {
                0 | 1 => self.r.range(1, 3),
                2 => self.r.pick(&[31, 32, 33, 34, 64, 65, 66]),
                3 => bl,
                _ => self.r.range(1, bl * 2 + 2),
            };
            let ql = ql.min(2 * top);
            let a = if b.is_zero() || self.r.chance(1, 6) {
                let n = self.r.range(0, bl + ql);
                self.nat_w(n)
            } else {
                self.dividend(&b, ql)
            };
            if self.wb == 16 && a.bits() > 60000 {
                continue;
            }
            let (a, b, signed) = self.signs(a, b);
            let f = self.r.pick(&["div", "rem", "divrem", "divrem", "dive", "reme", "divreme"]);
            let two = self.r.chance(1, 6);
            self.bin_case(f, &a, &b, signed, two);
            if self.r.chance(1, 10) {
                self.lx(0, &a, signed);
                self.run(f, &[2, 3], vec![Opd::R(0), Opd::R(0)]);
            }
        }
    }

    // ---------------------------------------------------------------- C04
    pub fn c04(&mut self) {
        while !self.full() {
            let b = match self.r.below(6) {
                0 => self.small(4),
                1 => N::from(self.r.below(40) as u128),
                2 => N::pow2(self.r.below(150)),
                3 => self.nat(1),
                _ => self.nat(4),
            };
            let bits = b.bits().max(1);
            let lim = (self.r.pick(&[300usize, 3000, 12000]) / bits).max(2);
            let mut e = match self.r.below(5) {
                0 => self.r.below(5),
                1 => (1usize << self.r.below(10)).saturating_sub(self.r.below(2)),
                _ => self.r.below(lim),
            };
            if e > lim {
                e = e % (lim + 1);
            }
            if b.bits() <= 1 && self.r.chance(1, 3) {
                e = self.far();
            }
            let signed = self.flip();
            let neg = self.flip();
            self.lx(0, &z(b, signed && neg), signed);
            if self.r.chance(1, 5) {
                let p = self.form1(0);
                self.run("nt_pow", &[1], vec![p, G::usz(e)]);
            } else {
                self.run("pow", &[1], vec![Opd::R(0), G::usz(e)]);
            }
            if self.r.chance(1, 12) && self.wb == 16 && !self.portable {
                self.huge_power(signed, neg && signed);
            }
            if self.r.chance(1, 20) && self.wb == 64 && !self.portable {
                // exponent so large that the result cannot be represented
                self.lu(2, &N::from(2));
                let t = usize::MAX - self.r.below(3);
                self.run("pow", &[3], vec![Opd::R(2), G::usz(t)]);
            }
        }
    }

    // ---------------------------------------------------------------- C05
    /// A count or index far beyond any number: some power of two and its neighbourhood, or the greatest.
    fn far(&mut self) -> usize {
        let bits = if self.portable { 32 } else { usize::BITS as usize };
        let max = usize::MAX >> (usize::BITS as usize - bits);
        let near = self.r.below(3) * self.lw + self.r.below(3);
        if self.r.chance(1, 4) {
            return max - near;
        }
        let p = 1usize << self.r.range(12, bits - 1);
        if self.r.chance(1, 3) { p - near } else { p + near }
    }
    fn count(&mut self, bits: usize) -> usize {
        let w = self.lw;
        match self.r.below(9) {
            0 => self.r.below(3),
            1 => w * self.r.below(6),
            2 => w * self.r.below(6) + self.r.below(w),
            3 => (w * self.r.range(1, 6)) - 1,
            4 => self.r.below(bits + 1),
            5 => bits.saturating_sub(self.r.below(3)),
            6 => bits + self.r.below(3),
            7 => bits / w * w,
            _ => self.r.below(bits + 2 * w),
        }
    }
    pub fn c05(&mut self) {
        while !self.full() {
            let max = self.deep(&[2, 3, 6, 20]);
            let signed = self.r.chance(2, 3);
            if self.r.chance(1, 80) {
                self.fill();
            }
            let x = self.int(max);
            let mut x = if signed { x } else { z(x.m, false) };
            let f = self.r.pick(&["shl", "shr", "shr"]);
            let mut n = self.count(x.m.bits());
            if self.r.chance(1, 10) {
                // few bits, far apart
                let k = self.gap();
                x.m = self.spread(k);
                n = self.r.below(x.m.bits());
            }
            if self.r.chance(1, 12) && (f == "shr" || x.m.is_zero()) {
                n = self.far();
            }
            self.lx(0, &x, signed);
            let cnt = |g: &mut G| {
                let h = format!("{:x}", n);
                if g.flip() { lit("usize", &h) } else { lit_ref("usize", &h) }
            };
            let c = cnt(self);
            if self.r.chance(1, 3) {
                self.run(f, &[1], vec![Opd::R(0), c]);
            }
            let c = cnt(self);
            let p = self.r.pick(&[Opd::V(0), Opd::W(0), Opd::R(0)]);
            let res = if let Opd::V(_) | Opd::R(_) = p { 2 } else { 0 };
            self.run(f, &[2], vec![p, c]);
            // and back, on an object with a history
            if self.r.chance(1, 3) && self.ty(res) != Ty::None {
                let g = if f == "shl" { "shr" } else { "shl" };
                if n < 3000 {
                    let c = cnt(self);
                    let p = self.r.pick(&[Opd::V(res), Opd::W(res), Opd::R(res)]);
                    self.run(g, &[3], vec![p, c]);
                }
            }
        }
    }

    // ---------------------------------------------------------------- C06
    pub fn c06(&mut self) {
        while !self.full() {
            let max = self.deep(&[1, 2, 4, 12]);
            let a = self.wide(max);
            let b = if self.r.chance(1, 20) { self.wide(max) } else { self.related(&a, max) };
            let (a, b, signed) = self.signs(a, b);
            match self.r.below(8) {
                0 => {
                    self.li(0, &a);
                    let p = self.form1(0);
                    self.run("not", &[1], vec![p]);
                }
                1 | 2 if cfg!(feature = "prim") => {
                    let f = self.r.pick(&["and", "or", "xor", "andnot"]);
                    self.mixed(f, &a, signed);
                }
                _ => {
                    let f = self.r.pick(&["and", "or", "xor", "andnot"]);
                    let two = self.r.chance(1, 4);
                    self.bin_case(f, &a, &b, signed, two);
                    if self.r.chance(1, 12) {
                        self.lx(0, &a, signed);
                        self.run(f, &[2], vec![Opd::R(0), Opd::R(0)]);
                    }
                }
            }
        }
    }

    // ---------------------------------------------------------------- C07
    pub fn c07(&mut self) {
        while !self.full() {
            let max = self.deep(&[1, 2, 4, 9]);
            let x = if self.r.chance(1, 6) {
                // a run of zeros below or in the middle
                let k = self.gap();
                let x = self.spread(k);
                if self.flip() { let s = self.count(x.bits()); x.shr(s).shl(s) } else { x }
            } else {
                self.nat(max)
            };
            self.lu(0, &x);
            for _ in 0..self.r.range(1, 8) {
                if self.ty(0) == Ty::None {
                    break;
                }
                let bits = self.bits_of(0);
                let mut k = self.count(bits);
                if self.r.chance(1, 6) {
                    // just above the top word
                    k = (bits / self.wb + self.r.below(3)) * self.wb + self.r.below(2);
                }
                let f = self.r.pick(&[
                    "bit", "setbit", "clearbit", "clearbit", "bitlen", "tz", "ispow2", "nextpow2", "topclear", "itz",
                ]);
                match f {
                    "bit" => {
                        if self.r.chance(1, 10) {
                            k = self.far();
                        }
                        self.run(f, &[], vec![Opd::R(0), G::usz(k)]);
                    }
                    "clearbit" => {
                        if self.r.chance(1, 10) {
                            k = self.far();
                        }
                        self.run(f, &[], vec![Opd::W(0), G::usz(k)]);
                    }
                    "setbit" => {
                        self.run(f, &[], vec![Opd::W(0), G::usz(k)]);
                    }
                    "topclear" => {
                        // clear the top bit: the number shrinks
                        if bits > 0 {
                            self.run("clearbit", &[], vec![Opd::W(0), G::usz(bits - 1)]);
                        }
                    }
                    "nextpow2" => {
                        let p = self.form1(0);
                        self.run(f, &[1], vec![p]);
                    }
                    "itz" => {
                        let mut y = self.int(max);
                        if self.r.chance(1, 4) {
                            let k = self.gap();
                            y.m = self.spread(k).shr(3).shl(k * self.lw / 2);
                        }
                        y.neg = y.neg && !y.m.is_zero();
                        self.li(2, &y);
                        self.run("tz", &[], vec![Opd::R(2)]);
                    }
                    _ => {
                        self.run(f, &[], vec![Opd::R(0)]);
                    }
                }
            }
            if self.r.chance(1, 3) {
                // round up near a power of two
                let k = self.r.range(0, max * self.lw + self.lw);
                let s = self.small(3);
                let p = N::pow2(k);
                let x = if self.flip() { p.add(&s) } else { p.diff(&s) };
                self.lu(3, &x);
                self.run("ispow2", &[], vec![Opd::R(3)]);
                let p = self.form1(3);
                self.run("nextpow2", &[4], vec![p]);
            }
        }
    }

    // ---------------------------------------------------------------- C08
    pub fn c08(&mut self) {
        while !self.full() {
            let max = self.deep(&[1, 2, 4, 12]);
            let a = self.wide(max);
            let b = self.related(&a, max);
            let (a, b, signed) = self.signs(a, b);
            self.lx(0, &a, signed);
            self.lx(1, &b, signed);
            self.run("cmp", &[], vec![Opd::R(0), Opd::R(1)]);
            if self.flip() {
                self.run("cmp", &[], vec![Opd::R(1), Opd::R(0)]);
            }
            // reach the same value along another way
            match self.r.below(12) {
                0 => {
                    self.run("clone", &[2], vec![Opd::R(0)]);
                }
                1 => {
                    self.run("clone", &[2], vec![Opd::R(1)]);
                    self.run("clonefrom", &[], vec![Opd::W(2), Opd::R(0)]);
                }
                2 => {
                    // long value overwritten by a short one, then compared
                    let big = self.nat(max + 40);
                    self.lx(2, &z(big, false), signed);
                    self.run("clonefrom", &[], vec![Opd::W(2), Opd::R(0)]);
                }
                3 => {
                    let n = self.count(a.m.bits());
                    self.run("shl", &[2], vec![Opd::R(0), G::usz(n)]);
                    let p = self.r.pick(&[Opd::V(2), Opd::R(2)]);
                    self.run("shr", &[2], vec![p, G::usz(n)]);
                }
                4 => {
                    // a + b - b
                    if !self.run("add", &[2], vec![Opd::R(0), Opd::R(1)]) {
                        continue;
                    }
                    let p = self.r.pick(&[Opd::V(2), Opd::R(2)]);
                    self.run("sub", &[2], vec![p, Opd::R(1)]);
                }
                5 if !b.m.is_zero() => {
                    self.run("mul", &[2], vec![Opd::R(0), Opd::R(1)]);
                    let p = self.r.pick(&[Opd::V(2), Opd::R(2)]);
                    self.run("div", &[2], vec![p, Opd::R(1)]);
                }
                6 => {
                    // x xor y xor y, and or with itself
                    self.run("xor", &[2], vec![Opd::R(0), Opd::R(1)]);
                    let p = self.r.pick(&[Opd::V(2), Opd::R(2), Opd::W(2)]);
                    self.run("xor", &[2], vec![p, Opd::R(1)]);
                }
                7 if signed => {
                    self.run("neg", &[2], vec![Opd::R(0)]);
                    let p = self.form1(2);
                    self.run("neg", &[2], vec![p]);
                }
                8 if signed => {
                    self.run("not", &[2], vec![Opd::R(0)]);
                    let p = self.form1(2);
                    self.run("not", &[2], vec![p]);
                }
                9 if !signed => {
                    let k = a.m.bits() + self.r.below(80);
                    self.run("clone", &[2], vec![Opd::R(0)]);
                    self.run("setbit", &[], vec![Opd::W(2), G::usz(k)]);
                    self.run("clearbit", &[], vec![Opd::W(2), G::usz(k)]);
                }
                10 if !signed => {
                    self.run("u2i", &[3], vec![Opd::R(0)]);
                    self.run("i2u", &[2], vec![Opd::V(3)]);
                }
                _ => {
                    let s = self.nat(max + 2);
                    self.lx(2, &z(s, false), signed);
                    if self.run("sub", &[3], vec![Opd::R(2), Opd::R(0)]) {
                        let p = self.form1(2);
                        self.run("sub", &[2], vec![p, Opd::V(3)]);
                    }
                }
            }
            if self.same(2, 0) && self.same(2, 1) {
                self.run("cmp", &[], vec![Opd::R(2), Opd::R(0)]);
                self.run("cmp", &[], vec![Opd::R(1), Opd::R(2)]);
            }
            if self.r.chance(1, 8) {
                // zeros of every origin
                if !self.run("sub", &[4], vec![Opd::R(0), Opd::R(0)]) {
                    continue;
                }
                self.run("default", &[5], vec![lit("usize", if signed { "1" } else { "0" })]);
                self.run("cmp", &[], vec![Opd::R(4), Opd::R(5)]);
                if signed {
                    self.run("neg", &[4], vec![Opd::V(4)]);
                    self.run("cmp", &[], vec![Opd::R(5), Opd::R(4)]);
                }
            }
        }
    }

    // ---------------------------------------------------------------- C09
    pub fn c09(&mut self) {
        while !self.full() {
            let max = self.deep(&[1, 2, 6]);
            let a = self.int(max);
            let b = if self.flip() {
                let m = self.near(&a.m);
                z(m, a.neg ^ self.r.chance(1, 4))
            } else {
                self.int(max)
            };
            self.li(0, &a);
            self.li(1, &b);
            for _ in 0..3 {
                let f = self.r.pick(&[
                    "neg", "abs", "uabs", "signum", "nt_abs", "nt_abssub", "nt_signum", "nt_ispos", "nt_isneg",
                    "nt_iszero", "nt_isone", "nt_setzero", "nt_setone", "nt_zero", "nt_one", "nt_pow", "num", "neg0",
                    "unsigned", "u2i", "default",
                ]);
                if self.ty(0) == Ty::None {
                    self.li(0, &a);
                }
                match f {
                    "neg" | "abs" | "uabs" => {
                        let p = self.form1(0);
                        self.run(f, &[2], vec![p]);
                        if f != "uabs" {
                            self.run("nt_iszero", &[], vec![Opd::R(2)]);
                            self.run("nt_isneg", &[], vec![Opd::R(2)]);
                        }
                    }
                    "signum" | "nt_abs" | "nt_signum" => {
                        self.run(f, &[2], vec![Opd::R(0)]);
                    }
                    "nt_ispos" | "nt_isneg" | "nt_iszero" | "nt_isone" => {
                        self.run(f, &[], vec![Opd::R(0)]);
                    }
                    "nt_abssub" => {
                        self.run(f, &[2], vec![Opd::R(0), Opd::R(1)]);
                        if self.r.chance(1, 4) {
                            self.run(f, &[2], vec![Opd::R(0), Opd::R(0)]);
                        }
                    }
                    "nt_setzero" | "nt_setone" => {
                        self.run(f, &[], vec![Opd::W(0)]);
                        self.run("nt_isone", &[], vec![Opd::R(0)]);
                        self.run("nt_iszero", &[], vec![Opd::R(0)]);
                    }
                    "nt_zero" | "nt_one" | "default" => {
                        let t = self.r.below(2);
                        self.run(f, &[2], vec![G::usz(t)]);
                    }
                    "nt_pow" => {
                        let e = self.r.below(9);
                        let p = self.form1(0);
                        self.run(f, &[2], vec![p, G::usz(e)]);
                    }
                    "num" => {
                        let radix = self.r.range(2, 36) as u32;
                        let mut s = String::from_utf8(a.m.radix(radix)).unwrap();
                        if a.neg || self.r.chance(1, 10) {
                            s.insert(0, '-');
                        }
                        let g = self.r.pick(&["num_u", "num_i"]);
                        self.run(g, &[2], vec![G::text(&s), lit("u32", &format!("{:x}", radix))]);
                    }
                    "neg0" => {
                        // zeros produced by different operations never carry a sign
                        let g = self.r.pick(&["sub", "mul", "rem", "and", "shr", "div"]);
                        match g {
                            "sub" => {
                                self.run("sub", &[2], vec![Opd::R(0), Opd::R(0)]);
                            }
                            "mul" => {
                                self.li(3, &z(N::zero(), false));
                                self.run("mul", &[2], vec![Opd::R(0), Opd::R(3)]);
                            }
                            "rem" | "div" => {
                                // 0 / negative, small / large, exact remainders
                                self.li(3, &z(N::from(1), true));
                                let (x, y) = if g == "rem" { (0, 3) } else { (3, 0) };
                                if !a.m.is_zero() {
                                    self.run(g, &[2], vec![Opd::R(x), Opd::R(y)]);
                                }
                            }
                            "and" => {
                                self.run("andnot", &[2], vec![Opd::R(0), Opd::R(0)]);
                            }
                            _ => {
                                self.li(3, &z(a.m.clone(), false));
                                self.run("shr", &[2], vec![Opd::R(3), G::usz(a.m.bits() + 1)]);
                            }
                        }
                        if self.ty(2) == Ty::I {
                            self.run("nt_isneg", &[], vec![Opd::R(2)]);
                            self.run("nt_ispos", &[], vec![Opd::R(2)]);
                            self.run("signum", &[4], vec![Opd::R(2)]);
                            self.run("neg", &[2], vec![Opd::V(2)]);
                            self.run("nt_isneg", &[], vec![Opd::R(2)]);
                        }
                    }
                    "u2i" => {
                        self.lu(3, &a.m);
                        let p = self.form1(3);
                        self.run("u2i", &[2], vec![p]);
                    }
                    _ => {
                        self.lu(3, &a.m);
                        let g = self.r.pick(&["nt_iszero", "nt_isone"]);
                        self.run(g, &[], vec![Opd::R(3)]);
                        let g = self.r.pick(&["nt_setzero", "nt_setone"]);
                        self.run(g, &[], vec![Opd::W(3)]);
                        self.run("nt_isone", &[], vec![Opd::R(3)]);
                    }
                }
            }
        }
    }

    // ---------------------------------------------------------------- C10
    fn digits(&mut self, radix: u32, n: usize) -> String {
        let style = self.r.below(5);
        let mut s = String::new();
        for i in 0..n {
            let d = match style {
                0 => radix - 1,
                1 => (i == 0) as u32,
                2 => 0,
                3 => self.r.pick(&[0, radix - 1, 1]),
                _ => self.r.below(radix as usize) as u32,
            };
            let d = if self.r.chance(1, 30) { self.r.below(radix as usize) as u32 } else { d };
            let c = std::char::from_digit(d, radix).unwrap();
            s.push(if self.r.chance(1, 3) { c.to_ascii_uppercase() } else { c });
        }
        s
    }
    fn spoil(&mut self, s: &str) -> String {
        let mut v: Vec<char> = s.chars().collect();
        let bad = ['_', '_', '_', '+', '-', ' ', '/', ':', '@', '[', '`', '{', 'g', 'z', 'Z', '.', '\u{0}', 'é', '٣', '0', '\u{1d7ce}', 'x', 'b', '€', '😀', '\u{7f}', '\u{80}', '\u{ff10}', '\t', '\n', ',', '\''];
        for _ in 0..self.r.range(1, 2) {
            let c = self.r.pick(&bad);
            let k = match self.r.below(4) {
                0 => 0,
                1 => v.len(),
                _ => self.r.below(v.len() + 1),
            };
            if k < v.len() && self.r.chance(1, 3) {
                v[k] = c;
            } else {
                v.insert(k, c);
            }
        }
        if self.r.chance(1, 10) {
            v.reverse();
        }
        v.into_iter().collect()
    }
    /// A few characters, any of which may be longer than a byte.
    fn odd_text(&mut self) -> String {
        let v = ['0', '0', '1', '9', 'b', 'o', 'x', 'a', 'X', 'B', '+', '-', '_', 'é', '€', '😀', ' ', '\u{0}', '٣', 'z'];
        (0..self.r.below(6)).map(|_| self.r.pick(&v)).collect()
    }
    pub fn parse_text(&mut self, radix: u32, long: usize) -> String {
        let n = match self.r.below(8) {
            0 => self.r.below(3),
            1..=3 => self.r.below(25),
            4 | 5 => self.r.range(1, 90),
            _ => self.r.range(1, long),
        };
        let mut s = self.digits(radix, n);
        if self.r.chance(1, 4) && n > 0 {
            // underscores anywhere after the sign
            let mut t = String::new();
            for c in s.chars() {
                t.push(c);
                if self.r.chance(1, 5) {
                    t.push('_');
                }
            }
            s = t;
            if self.r.chance(1, 6) {
                s.insert(0, '_');
            }
        }
        if self.r.chance(1, 8) {
            s = "0".repeat(self.r.range(1, 70)) + &s;
        }
        match self.r.below(8) {
            0 => s.insert(0, '+'),
            1 | 2 => s.insert(0, '-'),
            _ => {}
        }
        s
    }
    /// Digits of this radix that fit in a word.
    pub fn per_word(&self, radix: u32) -> usize {
        let mut n = 0;
        let mut p: u128 = 1;
        while p * (radix as u128) < 1u128 << self.wb {
            p *= radix as u128;
            n += 1;
        }
        n
    }
    /// Texts around the lengths at which the parser changes its method.
    fn chunk_texts(&mut self) {
        if self.portable {
            return;
        }
        for k in 0..12 {
            let radix = if k < 5 { 10 } else { self.r.pick(&[10u32, 3, 5, 6, 7, 12, 24, 35, 36]) };
            let d = self.per_word(radix);
            let times = if k < 5 { 2 } else if self.wb == 16 { self.r.pick(&[1, 2, 3, 4, 8]) } else { 1 };
            let base = 256 * d * times;
            let len = if k < 5 { base + k } else { base + self.r.below(4) } - 1;
            if self.wb == 16 && len * 6 > 60000 {
                continue;
            }
            let mut t: Vec<char> = self.digits(radix, len).chars().collect();
            if self.flip() {
                // a run of zeros or of top digits somewhere
                let c = if self.flip() { '0' } else { std::char::from_digit(radix - 1, radix).unwrap() };
                let (i, j) = (self.r.below(len), self.r.below(len));
                for x in t[i.min(j)..i.max(j)].iter_mut() {
                    *x = c;
                }
            }
            if t[0] == '0' {
                t[0] = '1';
            }
            match self.r.below(6) {
                0 => t[len - 1] = '_',
                1 => {
                    let i = self.r.below(len);
                    t[i] = self.r.pick(&['/', ':', '_', 'é', '{', '`', '@', 'G', '-', ' ']);
                }
                _ => {}
            }
            if self.r.chance(1, 4) {
                t.insert(0, '+');
            }
            let t: String = t.into_iter().collect();
            let f = self.r.pick(&["radix_u", "radix_i"]);
            self.run(f, &[0], vec![G::text(&t), lit("u32", &format!("{:x}", radix))]);
        }
    }
    /// Numbers around the powers at which the printer cuts a number in parts.
    fn chunk_prints(&mut self) {
        if self.portable {
            return;
        }
        let others = [3u32, 5, 6, 7, 9, 11, 12, 20, 31, 35, 36];
        for radix in [10, self.r.pick(&others), self.r.pick(&others)] {
            let d = self.per_word(radix);
            let mut chunk = N::from(1);
            for _ in 0..16 * d {
                chunk = chunk.mul(&N::from(radix as u128));
            }
            let mut p = N::from(1);
            for k in 1..8 {
                p = p.mul(&chunk);
                for c in 0..3 {
                    let x = match c {
                        0 => p.clone(),
                        1 => p.diff(&N::from(1)),
                        _ => match self.r.below(5) {
                            0 => p.mul(&N::from(radix as u128)),
                            1 => p.add(&N::from(1)),
                            2 => { let q = self.nat(k * 16); p.add(&q) }
                            3 => { let q = self.nat(k * 16); p.diff(&q) }
                            _ => { let q = self.nat_w(1 + k); p.mul(&q) }
                        },
                    };
                    if self.wb == 16 && x.bits() > 60000 || k > 4 && self.flip() {
                        continue;
                    }
                    let signed = self.flip();
                    let neg = self.flip();
                    self.lx(0, &z(x, neg && signed), signed);
                    let kind = if radix == 10 && self.flip() { 'd' } else { 'r' };
                    let a = self.fmt_args(Opd::R(0), kind, radix, 10);
                    self.run("fmt", &[], a);
                }
            }
        }
    }
    pub fn c10(&mut self, long: usize) {
        self.chunk_texts();
        while !self.full() {
            let kind = self.r.below(12);
            let radix = if self.r.chance(1, 3) {
                self.r.pick(&[2u32, 8, 10, 16, 32, 36, 3, 4, 7, 35])
            } else {
                self.r.range(2, 36) as u32
            };
            let lg = if self.r.chance(1, 8) { long } else { 120 };
            let (f, mut s, rad) = match kind {
                0 | 1 => {
                    let s = self.parse_text(10, lg);
                    (self.r.pick(&["parse_u", "parse_i"]), s, None)
                }
                2..=4 => {
                    let (r, p) = self.r.pick(&[(2u32, "0b"), (8, "0o"), (16, "0x"), (10, ""), (16, "0X"), (10, "0"), (10, "00x")]);
                    let s = self.parse_text(r, lg);
                    let s = match s.chars().next() {
                        Some(c) if c == '+' || c == '-' => {
                            if self.r.chance(1, 12) { format!("{}{}", p, s) } else { format!("{}{}{}", c, p, &s[1..]) }
                        }
                        _ => format!("{}{}", p, s),
                    };
                    (self.r.pick(&["prefix_u", "prefix_i"]), s, None)
                }
                5 => (self.r.pick(&["num_u", "num_i"]), self.parse_text(radix, lg), Some(radix)),
                _ => (self.r.pick(&["radix_u", "radix_i"]), self.parse_text(radix, lg), Some(radix)),
            };
            if self.r.chance(1, 4) {
                s = self.spoil(&s);
            }
            if self.r.chance(1, 12) {
                s = self.odd_text();
            }
            let mut a = vec![G::text(&s)];
            if let Some(r) = rad {
                let r = if self.r.chance(1, 60) { self.r.pick(&[0, 1, 37, 38, 255, 256, u32::MAX]) } else { r };
                a.push(lit("u32", &format!("{:x}", r)));
            }
            self.run(f, &[0], a);
        }
    }

    // ---------------------------------------------------------------- C11
    fn fmt_args(&mut self, x: Opd, kind: char, radix: u32, len: usize) -> Vec<Opd> {
        let flags = if self.flip() { 0 } else { self.r.below(8) };
        let width = match self.r.below(5) {
            0 | 1 => 0,
            2 => len + self.r.below(8),
            3 => self.r.below(len + 3),
            _ => match self.r.below(8) {
                0 => self.r.pick(&[31, 32, 33, 63, 64, 65, 127, 128, 129, 130, 191, 192, 255, 256, 257]),
                1 => self.r.range(30, 700),
                2 if self.r.chance(1, 10) => self.r.pick(&[1023, 1024, 1025, 4096, 10001]),
                _ => self.r.below(30),
            },
        };
        let align = self.r.below(4);
        let fill = if align == 0 { 0 } else { self.r.pick(&[0u32, 0x2a, 0x30, 0xe9]) };
        let kind_lit = lit("c", &kind.to_string());
        let u = |v: usize| lit("u32", &format!("{:x}", v));
        vec![x, kind_lit, u(radix as usize), u(flags), u(width), u(fill as usize), u(align)]
    }
    pub fn c11(&mut self, long: usize) {
        self.chunk_prints();
        while !self.full() {
            let kind = self.r.pick(&['d', 'D', 'b', 'o', 'x', 'X', 'r', 'r', 'r', 'd']);
            let radix = if kind == 'r' {
                if self.r.chance(1, 50) { self.r.pick(&[0u32, 1, 37, 300]) } else { self.r.range(2, 36) as u32 }
            } else {
                0
            };
            let rr = match kind {
                'r' if radix >= 2 && radix <= 36 => radix,
                'b' => 2,
                'o' => 8,
                'x' | 'X' => 16,
                _ => 10,
            };
            let max = if self.r.chance(1, 10) { long } else { self.deep(&[1, 2, 4, 12]) };
            let m = match self.r.below(4) {
                0 => {
                    // powers of the radix and neighbours: interior and trailing zeros
                    let mut p = N::from(1);
                    let k = self.r.below(max * self.lw / 5 + 2);
                    for _ in 0..k {
                        p = p.mul(&N::from(rr as u128));
                    }
                    let s = self.small(3);
                    let p = if self.flip() { p.add(&s) } else { p.diff(&s) };
                    if self.r.chance(1, 3) {
                        let q = self.nat(2);
                        p.mul(&q).add(&self.small(3))
                    } else {
                        p
                    }
                }
                _ => self.nat(max),
            };
            let neg = self.flip();
            let signed = self.r.chance(2, 3);
            let x = z(m, neg && signed);
            self.lx(0, &x, signed);
            let len = x.m.bits() * 10 / ((rr as f64).log2() * 10.0) as usize + 1;
            let a = self.fmt_args(Opd::R(0), kind, radix, len);
            self.run("fmt", &[], a);
            if self.r.chance(1, 25) && kind != 'r' {
                let cap = self.r.below(len + 4);
                self.run("fmterr", &[], vec![Opd::R(0), lit("c", &kind.to_string()), G::usz(cap)]);
            }
        }
    }

    // ---------------------------------------------------------------- C13
    pub fn bytes(&mut self, max: usize) -> Vec<u8> {
        let n = self.r.below(max + 1);
        let mut v = vec![];
        while v.len() < n {
            let x = match self.r.below(7) {
                0 | 1 => 0u8,
                2 => 255,
                3 => 1,
                4 => 128,
                _ => self.r.next() as u8,
            };
            let run = if self.flip() { 1 } else { self.r.range(1, n) };
            for _ in 0..run.min(n - v.len()) {
                v.push(x);
            }
        }
        if self.r.chance(1, 4) {
            for _ in 0..self.r.below(20) {
                v.push(0);
            }
        }
        if self.r.chance(1, 4) {
            for _ in 0..self.r.below(20) {
                v.insert(0, 0);
            }
        }
        v
    }
    pub fn c13(&mut self) {
        while !self.full() {
            let max = self.r.pick(&[2, 9, 17, 40, 100]);
            let v = self.bytes(max);
            let t: Vec<String> = v.iter().map(|b| b.to_string()).collect();
            let f = self.r.pick(&["fromle", "frombe"]);
            self.run(f, &[0], vec![lit("b", &t.join(","))]);
            let g = self.r.pick(&["tole", "tobe"]);
            if self.ty(0) != Ty::None {
                self.run(g, &[], vec![Opd::R(0)]);
            }
            if self.r.chance(1, 3) {
                let x = self.nat(8);
                self.lu(1, &x);
                let g = self.r.pick(&["tole", "tobe"]);
                self.run(g, &[], vec![Opd::R(1)]);
            }
        }
    }

    // ---------------------------------------------------------------- C14
    pub fn c14(&mut self) {
        while !self.full() {
            match self.r.below(5) {
                0 | 1 => {
                    let ty = self.r.pick(&PRIMS);
                    let f = self.r.pick(&["fromu", "fromi"]);
                    let v = self.prim(ty);
                    self.run(f, &[0], vec![lit(ty, &v)]);
                    if self.r.chance(1, 12) {
                        let b = self.r.below(2);
                        self.run(f, &[0], vec![lit("bool", &format!("{}", b))]);
                    }
                    if self.ty(0) != Ty::None && self.flip() {
                        let t2 = self.r.pick(&PRIMS);
                        let p = self.form1(0);
                        self.run(&format!("to_{}", t2), &[], vec![p]);
                    }
                }
                2 | 3 => {
                    // around a type or word boundary
                    let k = self.r.pick(&[0, 7, 8, 15, 16, 31, 32, 47, 48, 63, 64, 65, 96, 127, 128, 129, 160, 192]);
                    let p = N::pow2(k);
                    let s = self.small(3);
                    let m = if self.flip() { p.add(&s) } else { p.diff(&s) };
                    let signed = self.r.chance(2, 3);
                    let x = z(m, signed && self.flip());
                    self.lx(0, &x, signed);
                    let t = self.r.pick(&PRIMS);
                    self.run(&format!("to_{}", t), &[], vec![Opd::R(0)]);
                    let t = self.r.pick(&PRIMS);
                    let p = self.form1(0);
                    self.run(&format!("to_{}", t), &[], vec![p]);
                }
                _ => {
                    let x = self.int(5);
                    if self.flip() {
                        self.li(0, &x);
                        let p = self.form1(0);
                        self.run("i2u", &[1], vec![p]);
                    } else {
                        self.lu(0, &x.m);
                        let p = self.form1(0);
                        self.run("u2i", &[1], vec![p]);
                    }
                    let y = self.int(5);
                    self.li(2, &y);
                    let t = self.r.pick(&PRIMS);
                    let p = self.form1(2);
                    self.run(&format!("to_{}", t), &[], vec![p]);
                }
            }
        }
    }

    // ---------------------------------------------------------------- C15
    pub fn c15(&mut self) {
        while !self.full() {
            let signed = self.flip();
            let f = self.r.pick(&["f32", "f64"]);
            let p = if f == "f32" { 24 } else { 53 };
            let emax = if f == "f32" { 128 } else { 1024 };
            let m = match self.r.below(8) {
                0 => self.wide(20),
                1 => {
                    // overflow thresholds
                    let k = self.r.pick(&[emax, emax - p, emax - p - 1, emax + 1, emax - 1]);
                    let t = N::pow2(emax).diff(&N::pow2(emax - p - 1));
                    match self.r.below(4) {
                        0 => t,
                        1 => t.diff(&N::from(1)),
                        2 => t.add(&N::from(1)),
                        _ => {
                            let s = self.small(3);
                            if self.flip() { N::pow2(k).add(&s) } else { N::pow2(k).diff(&s) }
                        }
                    }
                }
                2 => N::from(self.r.next() as u128 >> self.r.below(64)),
                _ => {
                    // significand, half bit, distant low bit
                    let extra = match self.r.below(3) { 0 => self.r.below(8), 1 => self.r.below(140), _ => self.r.below(if f == "f32" { 110 } else { 1000 }) } + 1;
                    let sig = match self.r.below(5) {
                        0 => N::pow2(p).diff(&N::from(1)),
                        1 => N::pow2(p - 1),
                        2 => N::pow2(p - 1).add(&N::from(1)),
                        _ => N::pow2(p - 1).add(&N::from((self.r.next() as u128) & ((1 << (p - 1)) - 1))),
                    };
                    let mut x = sig.shl(extra);
                    let low = match self.r.below(7) {
                        0 => N::zero(),
                        1 => N::pow2(extra - 1),
                        2 => N::pow2(extra - 1).add(&N::from(1)),
                        3 => N::pow2(extra - 1).diff(&N::from(1)),
                        4 => N::pow2(extra - 1).add(&N::pow2(self.r.below(extra))),
                        5 => N::pow2(self.r.below(extra)),
                        _ => N::pow2(extra).diff(&N::from(1)),
                    };
                    if low.bits() <= extra {
                        x = x.add(&low);
                    }
                    x
                }
            };
            let x = z(m, signed && self.flip());
            self.lx(0, &x, signed);
            self.run(f, &[], vec![Opd::R(0)]);
            if self.r.chance(1, 4) {
                let g = if f == "f32" { "f64" } else { "f32" };
                self.run(g, &[], vec![Opd::R(0)]);
            }
        }
    }

    // ---------------------------------------------------------------- C16
    pub fn c16(&mut self, top: usize) {
        while !self.full() {
            let max = if self.r.chance(1, 8) { top } else { self.r.pick(&[1, 1, 2, 4, 10]) };
            let (a, b) = match self.r.below(7) {
                0 => (self.wide(max), self.wide(max)),
                1 => {
                    let g = self.nat(max);
                    let (p, q) = (self.nat(max), self.nat(max));
                    (g.mul(&p), g.mul(&q))
                }
                2 => {
                    // Fibonacci-like: all quotients one
                    let (mut x, mut y) = (self.small(5), self.small(5));
                    for _ in 0..self.r.below(max * self.lw) {
                        let s = x.add(&y);
                        x = y;
                        y = s;
                    }
                    (x, y)
                }
                3 => {
                    // continued fraction with chosen quotients
                    let (mut x, mut y) = (N::from(1), self.small(3));
                    while x.bits() < max * self.lw {
                        let q = match self.r.below(4) {
                            0 => N::from(1),
                            1 => N::from(2),
                            2 => { let t = self.pat_word(); N::from(t as u128 + 1) }
                            _ => N::from(1 + self.r.below(9) as u128),
                        };
                        let s = x.mul(&q).add(&y);
                        y = x;
                        x = s;
                    }
                    (x, y)
                }
                4 => {
                    let a = self.nat(max);
                    let b = self.near(&a);
                    (a, b)
                }
                5 => {
                    let a = self.nat(max);
                    let q = self.nat(2);
                    let b = a.mul(&q);
                    (a, b)
                }
                _ => {
                    let a = self.nat(max);
                    let s = self.small(3);
                    (a, s)
                }
            };
            let (a, b) = if self.flip() { (a, b) } else { (b, a) };
            let (a, b, signed) = self.signs(a, b);
            self.lx(0, &a, signed);
            self.lx(1, &b, signed);
            let f = self.r.pick(&["gcd", "egcd", "egcd"]);
            self.run(f, &[2, 3, 4], vec![Opd::R(0), Opd::R(1)]);
            if self.r.chance(1, 4) {
                self.run("get", &[], vec![Opd::R(0)]);
                self.run("get", &[], vec![Opd::R(1)]);
            }
            if self.r.chance(1, 12) {
                self.run(f, &[2, 3, 4], vec![Opd::R(0), Opd::R(0)]);
            }
        }
    }

    // ---------------------------------------------------------------- C17, C18, C19
    pub fn modulus(&mut self, top: usize) -> N {
        let max = if self.r.chance(1, 8) { top } else { self.r.pick(&[1, 1, 2, 3, 6]) };
        match self.r.below(9) {
            0 => N::from(1 + self.r.below(20) as u128),
            1 => N::pow2(self.r.below(max * self.lw)),
            2 => {
                let k = self.r.range(1, max * self.lw);
                let s = self.small(4);
                N::pow2(k).diff(&s)
            }
            3 => {
                let k = self.r.range(1, max * self.lw);
                N::pow2(k).add(&self.small(4))
            }
            4 => {
                // already normalised
                let n = self.r.range(1, max);
                let k = n * self.lw;
                N::pow2(k - 1).add(&self.nat(n).low(k - 1))
            }
            _ => self.nat(max),
        }
    }
    fn ring(&mut self, top: usize) -> (usize, N) {
        let m = self.modulus(top);
        let m = if m.is_zero() { N::from(1) } else { m };
        self.lu(15, &m);
        self.run("ring", &[], vec![Opd::R(15)]);
        (self.m.rings.len() - 1, m)
    }
    fn glit(g: usize) -> Opd {
        lit("g", &format!("{:x}", g))
    }
    /// An element of the ring in register k.
    fn elem(&mut self, k: usize, g: usize, m: &N) {
        match self.r.below(12) {
            0 => {
                let ty = self.r.pick(&PRIMS);
                let v = self.prim(ty);
                self.run("into", &[k as i32], vec![G::glit(g), lit(ty, &v)]);
                return;
            }
            1 => {
                let b = self.r.below(2);
                self.run("into", &[k as i32], vec![G::glit(g), lit("bool", &b.to_string())]);
                return;
            }
            _ => {}
        }
        let w = (m.bits() + self.lw - 1) / self.lw;
        let x = match self.r.below(8) {
            0 => self.small(3),
            1 => m.diff(&self.small(3)),
            2 => m.shr(1).add(&self.small(2)),
            3 => self.near(m),
            4 => {
                let q = self.nat(w + 2);
                q.mul(m).add(&self.small(2))
            }
            5 => self.nat(2 * w + 2),
            _ => self.nat(w),
        };
        let neg = self.r.chance(1, 3);
        let signed = neg || self.flip();
        self.lx(14, &z(x, neg), signed);
        let p = self.form1(14);
        self.run("into", &[k as i32], vec![G::glit(g), p]);
    }
    pub fn c17(&mut self, top: usize) {
        while !self.full() {
            if self.r.chance(1, 40) {
                self.lu(15, &N::zero());
                self.run("ring", &[], vec![Opd::R(15)]);
            }
            let (g, m) = self.ring(top);
            self.run("modulus", &[13], vec![G::glit(g)]);
            for _ in 0..self.r.range(2, 8) {
                self.elem(0, g, &m);
                self.elem(1, g, &m);
                let f = self.r.pick(&["add", "sub", "mul", "neg", "add", "sub", "mul", "residue", "self", "chain"]);
                match f {
                    "neg" => {
                        let p = self.form1(0);
                        self.run("neg", &[2], vec![p]);
                    }
                    "residue" => {
                        self.run("residue", &[5], vec![Opd::R(0)]);
                    }
                    "self" => {
                        let h = self.r.pick(&["add", "sub", "mul"]);
                        self.run(h, &[2], vec![Opd::R(0), Opd::R(0)]);
                    }
                    "chain" => {
                        for _ in 0..6 {
                            let h = self.r.pick(&["add", "sub", "mul"]);
                            let y = Opd::R(1);
                            self.run(h, &[], vec![Opd::W(0), y]);
                            if self.r.chance(1, 3) {
                                self.run("add", &[1], vec![Opd::R(0), Opd::V(1)]);
                            }
                        }
                        self.run("residue", &[5], vec![Opd::R(0)]);
                    }
                    _ => {
                        let (p, q) = self.forms(0, 1, true);
                        self.run(f, &[2], vec![p, q]);
                    }
                }
            }
        }
    }
    pub fn c18(&mut self, top: usize) {
        while !self.full() {
            let (g, m) = self.ring(top);
            for _ in 0..self.r.range(2, 6) {
                self.elem(0, g, &m);
                let f = self.r.pick(&["mpow", "mpow", "mpows", "inv", "inv", "div", "invmul"]);
                match f {
                    "mpow" | "mpows" => {
                        let mut e = match self.r.below(6) {
                            0 => self.small(5),
                            1 => N::from(self.r.below(300) as u128),
                            2 => N::pow2(self.r.below(130)).diff(&N::from(1)),
                            3 => N::pow2(self.r.below(130)),
                            4 => self.nat(3),
                            _ => { let n = self.r.pick(&[1, 2, 4, 8, 12]); self.nat_w(n) }
                        };
                        if self.r.chance(1, 8) {
                            e = m.diff(&N::from(1));
                        }
                        if e.bits() * m.bits() > 3_000_000 {
                            e = e.low(2000);
                        }
                        if f == "mpow" {
                            self.lu(1, &e);
                            self.run("mpow", &[2], vec![Opd::R(0), Opd::R(1)]);
                        } else {
                            let neg = self.flip();
                            self.li(1, &z(e, neg));
                            self.run("mpows", &[2], vec![Opd::R(0), Opd::R(1)]);
                        }
                    }
                    "inv" => {
                        self.run("inv", &[2], vec![Opd::R(0)]);
                        if self.ty(2) == Ty::M(g) && self.flip() {
                            let (p, q) = self.forms(0, 2, true);
                            self.run("mul", &[3], vec![p, q]);
                        }
                        self.run("forget", &[], vec![lit("usize", "2")]);
                    }
                    _ => {
                        self.elem(1, g, &m);
                        let (p, q) = self.forms(0, 1, true);
                        self.run("div", &[2], vec![p, q]);
                    }
                }
            }
        }
    }
    pub fn c19(&mut self) {
        while !self.full() {
            let nr = self.r.range(2, 4);
            let mut rs: Vec<(usize, N)> = vec![];
            for k in 0..nr {
                if k > 0 && self.r.chance(1, 2) {
                    // the same modulus again: a different ring all the same
                    let m = rs[self.r.below(k)].1.clone();
                    self.lu(15, &m);
                    self.run("ring", &[], vec![Opd::R(15)]);
                    rs.push((self.m.rings.len() - 1, m));
                } else {
                    let t = self.r.pick(&[1, 4, 12]);
                    rs.push(self.ring(t));
                }
            }
            for k in 0..6 {
                let j = self.r.below(nr);
                let (g, m) = rs[j].clone();
                self.elem(k, g, &m);
            }
            for _ in 0..24 {
                let x = self.r.below(6);
                let y = self.r.below(6);
                for k in [x, y] {
                    if self.ty(k) == Ty::None {
                        let j = self.r.below(nr);
                        let (g, m) = rs[j].clone();
                        self.elem(k, g, &m);
                    }
                }
                match self.r.below(12) {
                    0 | 1 => {
                        self.run("meq", &[], vec![Opd::R(x), Opd::R(y)]);
                    }
                    2 if x != y => {
                        self.run("clonefrom", &[], vec![Opd::W(x), Opd::R(y)]);
                        self.run("meq", &[], vec![Opd::R(x), Opd::R(y)]);
                        self.run("residue", &[12], vec![Opd::R(x)]);
                    }
                    3 => {
                        self.run("clone", &[y as i32], vec![Opd::R(x)]);
                    }
                    4 => {
                        let a = rs[self.r.below(nr)].0;
                        let b = rs[self.r.below(nr)].0;
                        self.run("ringeq", &[], vec![G::glit(a), G::glit(b)]);
                        self.run("modulus", &[11], vec![G::glit(a)]);
                    }
                    5 => {
                        let kind = self.r.pick(&['d', 'D', 'b', 'o', 'x', 'X']);
                        let bits = rs[0].1.bits();
                        let mut a = self.fmt_args(Opd::R(x), kind, 0, bits / 3 + 3);
                        if self.flip() {
                            let g = rs[self.r.below(nr)].0;
                            a[0] = G::glit(g);
                        }
                        // '#' and width are the number formatter's; here only the numbers are constrained
                        self.run("fmt", &[], a);
                    }
                    6 => {
                        self.run("get", &[], vec![Opd::R(x)]);
                    }
                    7 => {
                        let f = self.r.pick(&["add", "sub", "mul", "div"]);
                        let (p, q) = self.forms(x, y, true);
                        self.run(f, &[y as i32], vec![p, q]);
                    }
                    _ => {
                        let f = self.r.pick(&["add", "sub", "mul"]);
                        if x == y {
                            self.run(f, &[y as i32], vec![Opd::R(x), Opd::R(x)]);
                        } else {
                            let (p, q) = self.forms(x, y, true);
                            self.run(f, &[y as i32], vec![p, q]);
                        }
                    }
                }
            }
        }
    }

    // ---------------------------------------------------------------- C20
    pub fn c20(&mut self) {
        while !self.full() {
            if self.r.chance(1, 3) {
                let signed = self.flip();
                let x = self.int(8);
                let x = if signed { x } else { z(x.m, false) };
                self.lx(0, &x, signed);
                self.run("ser", &[], vec![Opd::R(0)]);
                continue;
            }
            let n = self.r.pick(&[0, 0, 1, 1, 2, 2, 3, 4, 7, 30]);
            let lw = self.lw;
            self.lw = 64;
            let x = self.nat_w(n);
            self.lw = lw;
            let mut w: Vec<String> = (0..n).map(|k| x.shr(64 * k).low(64).hex()).collect();
            if self.r.chance(1, 3) {
                for _ in 0..self.r.below(4) {
                    w.push("0".into());
                }
            }
            if self.r.chance(1, 10) {
                for t in w.iter_mut() {
                    *t = "0".into();
                }
            }
            let len = w.len() as i128;
            let hint = match self.r.below(8) {
                0..=2 => len,
                3..=5 => -1,
                6 => self.r.below(6) as i128,
                _ => self.r.pick(&[len + 1, len + 100, len - 1, 1000000, 0xffffffff, 0x7fffffffffffffff]).max(0),
            };
            let mal = if self.r.chance(1, 5) { self.r.range(1, 7) } else { 0 };
            let sign = if self.r.chance(1, 8) { self.r.range(2, 5) } else { self.r.below(2) };
            let kind = self.r.below(2);
            let h = if hint < 0 { "-1".to_string() } else { format!("{:x}", hint) };
            self.run("de", &[0], vec![G::usz(kind), lit("w64", &w.join(",")), lit("i64", &h), G::usz(sign), G::usz(mal)]);
            if matches!(self.ty(0), Ty::U | Ty::I) && self.r.chance(1, 3) {
                self.run("ser", &[], vec![Opd::R(0)]);
            }
        }
    }

    // ---------------------------------------------------------------- C21
    pub fn c21(&mut self, samples: usize) {
        self.lw = self.wb;
        while !self.full() {
            let signed = self.flip();
            let lo = self.int(3);
            let width = match self.r.below(8) {
                0 => self.small(3),
                1 => N::from(self.r.below(300) as u128),
                2 => N::pow2(self.r.below(150)),
                3 => N::pow2(self.r.below(150)).add(&self.small(3)),
                4 => N::pow2(self.r.below(150)).diff(&self.small(3)),
                5 => {
                    let n = self.r.range(1, 4);
                    self.nat_w(n)
                }
                _ => self.nat(3),
            };
            let incl = self.flip();
            let lo = if signed { lo } else { z(lo.m, false) };
            let hi = if lo.neg {
                if lo.m.lt(&width) { z(width.diff(&lo.m), false) } else { z(lo.m.diff(&width), true) }
            } else {
                z(lo.m.add(&width), false)
            };
            let (lo, hi) = if self.r.chance(1, 25) { (hi, lo) } else { (lo, hi) };
            self.lx(0, &lo, signed);
            self.lx(1, &hi, signed);
            for _ in 0..self.r.range(1, 12) {
                let how = self.r.below(3);
                let mode = self.r.below(2);
                let seed = self.r.next() as u32 as usize;
                if !self.run(
                    "sample",
                    &[2],
                    vec![Opd::R(0), Opd::R(1), G::usz(incl as usize), G::usz(how), G::usz(mode), G::usz(seed)],
                ) {
                    break;
                }
            }
        }
        // Distribution: the number of samples in each part of a range.
        for round in 0..12 {
            let w = self.wb;
            let (range, edges): (N, Vec<u128>) = match round {
                0 => (N::from(7), vec![1, 2, 3, 4, 5, 6]),
                1 => (N::from(2), vec![1]),
                2 => (N::from(256), vec![1, 128, 255]),
                3 => (N::from(257), vec![1, 255, 256]),
                4 => (N::from(3).shl(w), if w < 64 { vec![1 << w, 2 << w] } else { vec![1 << 63] }),
                5 => (N::from(3).shl(w - 2), vec![1 << (w - 2), 2 << (w - 2)]),
                6 => (N::pow2(16).add(&N::from(3)), vec![1, 2, 3, 1 << 15, (1 << 16) - 1, 1 << 16, (1 << 16) + 1, (1 << 16) + 2]),
                7 => (N::pow2(17).add(&N::from(1)), vec![1, 2, 1 << 16, (1 << 16) + 1, (1 << 17) - 1, 1 << 17]),
                8 => (N::from(3).shl(15), vec![1 << 15, 1 << 16, (1 << 16) + (1 << 14)]),
                9 => (N::pow2(2 * w - 1), vec![1 << 62]),
                10 => (N::from(1000), vec![1, 10, 500, 999]),
                _ => (N::from(0x18000), vec![1, 0xffff, 0x10000, 0x10001, 0x17fff]),
            };
            let signed = self.flip();
            let lo = if round % 3 == 0 { z(N::zero(), false) } else { let n = self.r.range(1, 2); z(self.nat_w(n), signed) };
            let hi = if lo.neg {
                if lo.m.lt(&range) { z(range.diff(&lo.m), false) } else { z(lo.m.diff(&range), true) }
            } else {
                z(lo.m.add(&range), false)
            };
            self.lx(0, &lo, signed);
            self.lx(1, &hi, signed);
            let seed = self.r.next() as u32 as usize;
            let e: Vec<String> = edges.iter().filter(|x| **x < 1 << 63 && N::from(**x).lt(&range)).map(|x| format!("{:x}", x)).collect();
            self.run("hist", &[], vec![Opd::R(0), Opd::R(1), G::usz(samples), G::usz(seed), lit("w64", &e.join(","))]);
        }
        // Long ranges: each byte of a sample, and pairs of bytes, are uniform.
        for round in 0..16 {
            let places = self.r.range(2, 30);
            let factor = if round % 2 == 0 { N::from(1) } else { self.nat_w(1).add(&N::from(1)) };
            let range = factor.shl(8 * places);
            let lo = if round % 3 == 0 { z(N::zero(), false) } else { let n = self.r.range(1, 2); z(self.nat_w(n), false) };
            let hi = z(lo.m.add(&range), false);
            let signed = self.flip();
            self.lx(0, &lo, signed);
            self.lx(1, &hi, signed);
            for _ in 0..3 {
                let p = self.r.below(places);
                let q = if self.flip() { p } else { self.r.below(places) };
                let seed = self.r.next() as u32 as usize;
                self.run(
                    "bithist",
                    &[],
                    vec![Opd::R(0), Opd::R(1), G::usz(samples / 20), G::usz(seed), G::usz(8 * p), G::usz(8 * q)],
                );
            }
        }
    }

    // ---------------------------------------------------------------- C27
    pub fn mixed(&mut self, f: &str, a: &Z, signed: bool) {
        let ty = self.r.pick(&PRIMS);
        let mut v = self.prim(ty);
        if matches!(f, "div" | "rem" | "divrem" | "dive" | "reme" | "divreme") && v == "0" && self.r.chance(9, 10) {
            v = "3".into();
        }
        let mk = |g: &mut G, v: &str| if g.flip() { lit(ty, v) } else { lit_ref(ty, v) };
        let assign = !matches!(f, "andnot" | "divrem" | "dive" | "reme" | "divreme");
        self.lx(0, a, signed);
        let swap = matches!(f, "add" | "mul" | "and" | "or" | "xor") || (f == "sub" && signed);
        let y = mk(self, &v);
        if swap && self.r.chance(1, 3) {
            let p = self.form1(0);
            self.run(f, &[1], vec![y, p]);
        } else {
            let p = match self.r.below(if assign { 3 } else { 2 }) {
                0 => Opd::V(0),
                1 => Opd::R(0),
                _ => Opd::W(0),
            };
            self.run(f, &[1, 2], vec![p, y]);
        }
    }
    pub fn c27(&mut self) {
        const OPS: [&str; 13] = [
            "add", "sub", "mul", "div", "rem", "divrem", "dive", "reme", "divreme", "and", "or", "xor", "andnot",
        ];
        while !self.full() {
            let signed = self.flip();
            let a = match self.r.below(4) {
                0 => z(self.small(4), self.flip()),
                1 => {
                    let k = self.r.pick(&[7, 8, 15, 16, 31, 32, 63, 64, 127, 128]);
                    let s = self.small(3);
                    let m = if self.flip() { N::pow2(k).add(&s) } else { N::pow2(k).diff(&s) };
                    z(m, self.flip())
                }
                _ => self.int(6),
            };
            let a = if signed { a } else { z(a.m, false) };
            let f = self.r.pick(&OPS);
            self.mixed(f, &a, signed);
        }
    }

    // ---------------------------------------------------------------- histories
    /// A random history over a bank of registers.
    pub fn history(&mut self, steps: usize, maxbits: usize, probe: usize) {
        const R: usize = 12;
        for k in 0..NREG {
            if matches!(self.ty(k), Ty::M(_)) {
                self.run("forget", &[], vec![G::usz(k)]);
            }
        }
        for k in 0..R {
            if self.ty(k) == Ty::None || self.r.chance(1, 4) {
                let x = self.int(4);
                let s = self.flip();
                let x = if s { x } else { z(x.m, false) };
                self.lx(k, &x, s);
            }
        }
        for step in 0..steps {
            if self.full() {
                return;
            }
            if probe > 0 && step % probe == probe - 1 {
                self.get_all();
            }
            let x = self.r.below(R);
            let mut y = self.r.below(R);
            let d = self.r.below(R) as i32;
            let d2 = self.r.below(R) as i32;
            if self.ty(x) == Ty::None {
                let v = self.int(6);
                let s = self.flip();
                let v = if s { v } else { z(v.m, false) };
                self.lx(x, &v, s);
                continue;
            }
            let tx = self.ty(x);
            // find a partner of the same type
            for _ in 0..6 {
                if self.ty(y) != tx {
                    y = self.r.below(R);
                }
            }
            let (bx, by) = (self.bits_of(x), self.bits_of(y));
            let same = self.ty(y) == tx;
            let kind = self.r.below(40);
            // writing over an operand register is allowed; a register moved out becomes empty
            match kind {
                0..=13 if same => {
                    let f = self.r.pick(&[
                        "add", "sub", "mul", "and", "or", "xor", "andnot", "div", "rem", "divrem", "dive", "reme",
                        "divreme", "add", "sub", "mul",
                    ]);
                    if f == "mul" && bx + by > maxbits || (f == "add" && bx.max(by) >= maxbits) {
                        continue;
                    }
                    let assign = !matches!(f, "andnot" | "divrem" | "dive" | "reme" | "divreme");
                    let (p, q) = self.forms(x, y, assign);
                    self.run(f, &[d, if d2 == d { (d + 1) % R as i32 } else { d2 }], vec![p, q]);
                }
                14 | 15 => {
                    let n = self.count(bx);
                    let p = self.r.pick(&[Opd::V(x), Opd::R(x), Opd::W(x)]);
                    let f = if bx + n > maxbits { "shr" } else { self.r.pick(&["shl", "shr"]) };
                    self.run(f, &[d], vec![p, G::usz(n)]);
                }
                16 | 17 => {
                    self.run("clone", &[d], vec![Opd::R(x)]);
                }
                18 | 19 if same && x != y => {
                    self.run("clonefrom", &[], vec![Opd::W(x), Opd::R(y)]);
                }
                20 => {
                    if tx == Ty::U {
                        let n = self.count(bx).min(maxbits);
                        let f = self.r.pick(&["setbit", "clearbit"]);
                        self.run(f, &[], vec![Opd::W(x), G::usz(n)]);
                    } else {
                        let p = self.form1(x);
                        let f = self.r.pick(&["neg", "not", "abs", "uabs"]);
                        self.run(f, &[d], vec![p]);
                    }
                }
                21 => {
                    let p = self.form1(x);
                    self.run(if tx == Ty::U { "u2i" } else { "i2u" }, &[d], vec![p]);
                }
                22 if same => {
                    let f = self.r.pick(&["gcd", "egcd"]);
                    if bx + by < 3000 {
                        let d3 = (d2 + 1) % R as i32;
                        self.run(f, &[d, d2, d3], vec![Opd::R(x), Opd::R(y)]);
                    }
                }
                23 => {
                    let e = self.r.below(6);
                    if bx * e <= maxbits {
                        self.run("pow", &[d], vec![Opd::R(x), G::usz(e)]);
                    }
                }
                24 if same => {
                    self.run("cmp", &[], vec![Opd::R(x), Opd::R(y)]);
                }
                25 => {
                    let f = self.r.pick(&["f32", "f64", "tz"]);
                    self.run(f, &[], vec![Opd::R(x)]);
                }
                26 if bx < 4000 => {
                    let kind = self.r.pick(&['d', 'x', 'b', 'o', 'D', 'X']);
                    let a = self.fmt_args(Opd::R(x), kind, 0, bx / 3 + 3);
                    self.run("fmt", &[], a);
                }
                27 => {
                    if self.flip() {
                        let v = self.bytes(40);
                        let t: Vec<String> = v.iter().map(|b| b.to_string()).collect();
                        let t2 = self.r.pick(&["fromle", "frombe"]);
                        self.run(t2, &[d], vec![lit("b", &t.join(","))]);
                    } else if tx == Ty::U {
                        let f = self.r.pick(&["tole", "tobe", "bitlen", "ispow2"]);
                        self.run(f, &[], vec![Opd::R(x)]);
                    }
                }
                28 => {
                    let t = self.r.pick(&PRIMS);
                    if !(self.portable && t.ends_with("size")) {
                        let p = self.form1(x);
                        self.run(&format!("to_{}", t), &[], vec![p]);
                    }
                }
                29 => {
                    let radix = self.r.range(2, 36) as u32;
                    let s = self.parse_text(radix, 60);
                    let f = self.r.pick(&["radix_u", "radix_i"]);
                    if !self.run(f, &[d], vec![G::text(&s), lit("u32", &format!("{:x}", radix))]) {
                        return;
                    }
                }
                30 if same => {
                    // same object, several shares
                    let f = self.r.pick(&["add", "mul", "and", "xor", "sub", "or", "andnot"]);
                    if 2 * bx <= maxbits {
                        self.run(f, &[d], vec![Opd::R(x), Opd::R(x)]);
                    }
                }
                31 | 32 => {
                    self.run("drop", &[], vec![Opd::V(x)]);
                }
                33..=35 if cfg!(feature = "prim") => {
                    const OPS: [&str; 13] = [
                        "add", "sub", "mul", "div", "rem", "divrem", "dive", "reme", "divreme", "and", "or", "xor",
                        "andnot",
                    ];
                    let f = self.r.pick(&OPS);
                    if bx + 130 > maxbits {
                        continue;
                    }
                    let mut ty = self.r.pick(&PRIMS);
                    if self.portable && ty.ends_with("size") {
                        ty = "u64";
                    }
                    let v = self.prim(ty);
                    let p = match self.r.below(if matches!(f, "andnot" | "divrem" | "dive" | "reme" | "divreme") { 2 } else { 3 }) {
                        0 => Opd::V(x),
                        1 => Opd::R(x),
                        _ => Opd::W(x),
                    };
                    let l = if self.flip() { lit(ty, &v) } else { lit_ref(ty, &v) };
                    self.run(f, &[d, d2], vec![p, l]);
                }
                36 => {
                    if tx == Ty::U {
                        let p = self.form1(x);
                        if bx < maxbits {
                            self.run("nextpow2", &[d], vec![p]);
                        }
                    } else {
                        self.run("signum", &[d], vec![Opd::R(x)]);
                    }
                }
                _ => {
                    let v = self.int(5);
                    let s = self.flip();
                    let v = if s { v } else { z(v.m, false) };
                    self.lx(d as usize, &v, s);
                }
            }
        }
        if probe > 0 {
            self.get_all();
        }
    }
    pub fn clear_all(&mut self) {
        for k in 0..NREG {
            if self.ty(k) != Ty::None {
                self.run("drop", &[], vec![Opd::V(k)]);
            }
        }
        self.run("balance", &[], vec![]);
    }
    pub fn c23(&mut self) {
        while !self.full() {
            let mb = self.r.pick(&[300, 1500, 6000]);
            self.history(60, mb, 12);
            if self.r.chance(1, 4) {
                self.fill();
            }
            // every form of one operator on the same operands
            let max = self.deep(&[1, 2, 4, 12]);
            let a = self.nat(max);
            let b = self.related(&a, max);
            let (a, b, signed) = self.signs(a, b);
            let f = self.r.pick(&["add", "sub", "mul", "div", "rem", "and", "or", "xor", "andnot", "divrem", "dive", "reme", "divreme"]);
            for form in 0..6 {
                if form >= 4 && matches!(f, "andnot" | "divrem" | "dive" | "reme" | "divreme") {
                    continue;
                }
                self.lx(0, &a, signed);
                self.lx(1, &b, signed);
                let (p, q) = match form {
                    0 => (Opd::R(0), Opd::R(1)),
                    1 => (Opd::V(0), Opd::R(1)),
                    2 => (Opd::R(0), Opd::V(1)),
                    3 => (Opd::V(0), Opd::V(1)),
                    4 => (Opd::W(0), Opd::R(1)),
                    _ => (Opd::W(0), Opd::V(1)),
                };
                self.run(f, &[2, 3], vec![p, q]);
                for k in 0..4 {
                    if self.ty(k) != Ty::None {
                        self.run("get", &[], vec![Opd::R(k)]);
                    }
                }
            }
        }
    }
    pub fn c22(&mut self) {
        self.portable = true;
        while !self.full() {
            // a word size of the moment for the patterns, not that of the library
            self.lw = self.r.pick(&[16, 32, 64]);
            let end = self.limit;
            self.limit = (self.m.written + 12000).min(end);
            match self.r.below(22) {
                0 => self.c01(),
                1 => self.c02p(),
                2 => self.c03p(),
                3 => self.c04(),
                4 => self.c05(),
                5 => self.c06(),
                6 => self.c07p(),
                7 => self.c08(),
                8 => self.c09(),
                9 => self.c10(300),
                10 => self.c11(30),
                11 => self.c13(),
                12 => self.c15(),
                13 => self.c16(20),
                14 => self.c17p(),
                15 => self.c18p(),
                16 if cfg!(feature = "ext") => self.c20p(),
                17 => self.c14p(),
                _ => self.history(80, 2500, 20),
            }
            self.limit = end;
        }
    }
    fn c02p(&mut self) {
        while !self.full() {
            let (n, m) = (self.r.range(1, 70), self.r.range(1, 70));
            let a = self.nat_w(n);
            let b = self.nat_w(m);
            let (a, b, signed) = self.signs(a, b);
            self.bin_case("mul", &a, &b, signed, false);
        }
    }
    fn c03p(&mut self) {
        while !self.full() {
            let n = self.r.range(1, 50);
            let b = self.nat_w(n);
            let a = self.dividend(&b, n + 3);
            let (a, b, signed) = self.signs(a, b);
            let f = self.r.pick(&["div", "rem", "divrem", "dive", "reme", "divreme"]);
            self.bin_case(f, &a, &b, signed, false);
        }
    }
    fn c07p(&mut self) {
        let wb = self.wb;
        self.wb = self.lw;
        self.c07();
        self.wb = wb;
    }
    fn c14p(&mut self) {
        while !self.full() {
            let x = self.int(3);
            self.li(0, &x);
            let t = self.r.pick(&["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"]);
            let p = self.form1(0);
            self.run(&format!("to_{}", t), &[], vec![p]);
            let v = self.prim(t);
            self.run("fromi", &[1], vec![lit(t, &v)]);
        }
    }
    fn c17p(&mut self) {
        self.c17(12)
    }
    fn c18p(&mut self) {
        self.c18(8)
    }
    fn c20p(&mut self) {
        #[cfg(feature = "ext")]
        self.c20()
    }

    // ---------------------------------------------------------------- C26
    pub fn c26(&mut self) {
        while !self.full() {
            let mb = self.r.pick(&[300, 3000, 20000]);
            self.history(40, mb, 0);
            if self.r.chance(1, 3) {
                self.fill();
            }
            // very long to not so long
            for _ in 0..2 {
                let keep = self.r.range(1, 200);
                let from = keep + self.r.pick(&[1, 10, 100, 1000, 3000]);
                let (bits, small) = (from * self.wb, keep * self.wb);
                let one = N::pow2(self.r.below(self.wb));
                self.lu(0, &one);
                self.run("shl", &[1], vec![Opd::R(0), G::usz(bits)]);
                match self.r.below(5) {
                    0 | 1 => {
                        let p = self.r.pick(&[Opd::V(1), Opd::R(1), Opd::W(1)]);
                        self.run("shr", &[1], vec![p, G::usz(bits - small)]);
                    }
                    2 => {
                        self.run("setbit", &[], vec![Opd::W(1), G::usz(small)]);
                        let b = self.bits_of(1);
                        self.run("clearbit", &[], vec![Opd::W(1), G::usz(b - 1)]);
                    }
                    3 => {
                        let m = self.nat_w(keep);
                        self.lu(2, &m);
                        let f = self.r.pick(&["and", "rem"]);
                        let (p, q) = self.forms(1, 2, true);
                        let w = matches!(p, Opd::W(_));
                        self.run(f, &[3], vec![p, q]);
                        if !w {
                            self.run("clone", &[1], vec![Opd::R(3)]);
                        }
                    }
                    _ => {
                        let m = self.nat_w(keep);
                        self.lu(2, &m);
                        self.run("clonefrom", &[], vec![Opd::W(1), Opd::R(2)]);
                    }
                }
                for k in 0..4 {
                    if self.ty(k) != Ty::None {
                        self.run("drop", &[], vec![Opd::V(k)]);
                    }
                }
            }
            // shrink in every way, then give back
            for _ in 0..6 {
                let n = self.r.range(1, 60);
                let a = self.nat_w(n);
                let bits = a.bits();
                match self.r.below(14) {
                    0 => {
                        self.lu(0, &a);
                        let p = self.r.pick(&[Opd::V(0), Opd::R(0), Opd::W(0)]);
                        let keep = self.r.below(3 * self.wb);
                        self.run("shr", &[0], vec![p, G::usz(bits.saturating_sub(keep))]);
                    }
                    1 => {
                        self.lu(0, &a);
                        let b = a.diff(&N::from(self.r.below(90) as u128));
                        self.lu(1, &b);
                        if b.lt(&a) || a == b {
                            let (p, q) = self.forms(0, 1, true);
                            let w = matches!(p, Opd::W(_));
                            self.run("sub", &[2], vec![p, q]);
                            let r = if w { 0 } else { 2 };
                            self.run("drop", &[], vec![Opd::V(r)]);
                            continue;
                        }
                    }
                    2 => {
                        self.lu(0, &a);
                        let t = N::from(self.r.next() as u128);
                        self.lu(1, &t);
                        let p = self.r.pick(&["and", "rem"]);
                        let (x, y) = self.forms(0, 1, true);
                        let w = matches!(x, Opd::W(_));
                        self.run(p, &[2], vec![x, y]);
                        let r = if w { 0 } else { 2 };
                        if self.ty(r) != Ty::None {
                            self.run("drop", &[], vec![Opd::V(r)]);
                        }
                        continue;
                    }
                    3 => {
                        // top bits cleared one after another
                        let t = N::pow2(bits + 1).add(&self.small(9));
                        self.lu(0, &t);
                        self.run("clearbit", &[], vec![Opd::W(0), G::usz(bits + 1)]);
                    }
                    4 => {
                        // overwritten in place by something shorter or longer
                        let b = self.nat(30);
                        self.lu(0, &a);
                        self.lu(1, &b);
                        self.run("clonefrom", &[], vec![Opd::W(0), Opd::R(1)]);
                    }
                    5 => {
                        self.lu(0, &a);
                        let q = self.near(&a);
                        self.lu(1, &q);
                        if !q.is_zero() {
                            let f = self.r.pick(&["divrem", "div", "rem", "reme"]);
                            let (p, q) = self.forms(0, 1, f != "divrem" && f != "reme");
                            self.run(f, &[2, 3], vec![p, q]);
                        }
                    }
                    6 => {
                        let b = self.bytes(200);
                        let t: Vec<String> = b.iter().map(|b| b.to_string()).collect();
                        let t2 = self.r.pick(&["fromle", "frombe"]);
                        self.run(t2, &[0], vec![lit("b", &t.join(","))]);
                    }
                    7 => {
                        let s = "0".repeat(self.r.below(200)) + &self.parse_text(10, 100).replace('-', "");
                        let t = self.r.pick(&["a", "10"]);
                        self.run("radix_u", &[0], vec![G::text(&s), lit("u32", t)]);
                    }
                    8 => {
                        self.lu(0, &a);
                        let q = self.near(&a);
                        self.lu(1, &q);
                        self.run("gcd", &[2], vec![Opd::R(0), Opd::R(1)]);
                        self.run("egcd", &[2, 3, 4], vec![Opd::R(0), Opd::R(1)]);
                    }
                    9 => {
                        self.lu(0, &a);
                        self.lu(1, &a);
                        let (p, q) = self.forms(0, 1, true);
                        self.run("xor", &[2], vec![p, q]);
                    }
                    10 => {
                        self.lu(0, &a);
                        let e = self.r.below(4);
                        self.run("pow", &[2], vec![Opd::R(0), G::usz(e)]);
                    }
                    11 if cfg!(feature = "ext") => {
                        let w: Vec<String> = (0..self.r.below(30)).map(|k| if k < 3 { "7".to_string() } else { "0".to_string() }).collect();
                        let h = if self.flip() { "-1".to_string() } else { format!("{:x}", w.len()) };
                        self.run("de", &[0], vec![G::usz(0), lit("w64", &w.join(",")), lit("i64", &h), G::usz(0), G::usz(0)]);
                    }
                    12 => {
                        self.lu(0, &a);
                        let b = self.nat(n);
                        self.lu(1, &b);
                        let (p, q) = self.forms(0, 1, true);
                        self.run("add", &[2], vec![p, q]);
                    }
                    _ => {
                        self.lu(0, &a);
                        let b = self.nat(n);
                        self.lu(1, &b);
                        let (p, q) = self.forms(0, 1, true);
                        self.run("mul", &[2], vec![p, q]);
                    }
                }
                for k in 0..5 {
                    if self.ty(k) != Ty::None && self.r.chance(2, 3) {
                        self.run("drop", &[], vec![Opd::V(k)]);
                    }
                }
            }
            // rings and their elements
            let (g, m) = self.ring(12);
            for k in 0..4 {
                self.elem(k, g, &m);
            }
            self.run("mul", &[], vec![Opd::W(0), Opd::V(1)]);
            self.run("clonefrom", &[], vec![Opd::W(2), Opd::R(0)]);
            self.run("inv", &[3], vec![Opd::R(2)]);
            for k in 0..4 {
                self.run("forget", &[], vec![G::usz(k)]);
            }
            self.clear_all();
        }
    }

    // ---------------------------------------------------------------- C25
    pub fn c25(&mut self) {
        self.lw = self.wb;
        while !self.full() {
            let mb = self.r.pick(&[300, 3000, 12000]);
            self.history(30, mb, 15);
            self.fail_once();
            self.fail_once();
            self.fill();
            if self.r.chance(1, 3) {
                let s = self.odd_text();
                let f = self.r.pick(&["parse_u", "parse_i", "prefix_u", "prefix_i"]);
                self.run(f, &[2], vec![G::text(&s)]);
            }
            self.get_all();
            // lengths never looked at: all lengths are as good
            let n = self.r.range(1, 400);
            let m = match self.r.below(3) {
                0 => n,
                1 => self.r.range(1, n),
                _ => self.r.range(1, 60),
            };
            let a = self.nat_w(n);
            let b = self.nat_w(m);
            if a.bits() + b.bits() < 60000 {
                self.lu(12, &a);
                self.lu(13, &b);
                let f = self.r.pick(&["mul", "divrem", "div", "rem", "gcd", "mul"]);
                if f != "gcd" || n < 60 {
                    self.run(f, &[14, 15], vec![Opd::R(12), Opd::R(13)]);
                }
                if self.r.chance(1, 6) && n < 100 {
                    let a = self.fmt_args(Opd::R(12), 'd', 0, 5);
                    self.run("fmt", &[], a);
                }
            }
        }
    }
    /// One of the documented failures.
    fn fail_once(&mut self) {
        let x = self.int(5);
        let signed = self.flip();
        let x = if signed { x } else { z(x.m, false) };
        self.lx(0, &x, signed);
        match self.r.below(14) {
            0 | 1 => {
                self.lx(1, &z(N::zero(), false), signed);
                let f = self.r.pick(&["div", "rem", "divrem", "dive", "reme", "divreme"]);
                let assign = f == "div" || f == "rem";
                let (p, q) = self.forms(0, 1, assign);
                self.run(f, &[2, 3], vec![p, q]);
            }
            2 => {
                let b = x.m.add(&N::from(1 + self.r.below(5) as u128));
                self.lu(0, &x.m);
                self.lu(1, &b);
                let (p, q) = self.forms(0, 1, true);
                self.run("sub", &[2], vec![p, q]);
            }
            3 => {
                self.lx(0, &z(N::zero(), false), signed);
                self.lx(1, &z(N::zero(), false), signed);
                let f = self.r.pick(&["gcd", "egcd"]);
                self.run(f, &[2, 3, 4], vec![Opd::R(0), Opd::R(1)]);
            }
            4 => {
                let r = self.r.pick(&[0u32, 1, 37, 1000]);
                let f = self.r.pick(&["radix_u", "radix_i"]);
                self.run(f, &[2], vec![G::text("11"), lit("u32", &format!("{:x}", r))]);
            }
            5 => {
                let r = self.r.pick(&[0u32, 1, 37, 1000]);
                let a = self.fmt_args(Opd::R(0), 'r', r, 5);
                self.run("fmt", &[], a);
            }
            6 => {
                self.lu(15, &N::zero());
                self.run("ring", &[], vec![Opd::R(15)]);
            }
            7 => {
                let (g, m) = self.ring(3);
                let (h, n) = self.ring(3);
                self.elem(12, g, &m);
                self.elem(13, h, &n);
                let (p, q) = self.forms(12, 13, true);
                let f = self.r.pick(&["add", "sub", "mul", "div"]);
                self.run(f, &[2], vec![p, q]);
            }
            8 => {
                let (g, _) = self.ring(3);
                let n = self.nat_w(1);
                self.elem(12, g, &n);
                self.run("into", &[13], vec![G::glit(g), lit("u8", "0")]);
                let (p, q) = self.forms(12, 13, true);
                self.run("div", &[2], vec![p, q]);
                self.run("into", &[13], vec![G::glit(g), lit("u8", "0")]);
                self.li(3, &z(N::from(3), true));
                self.run("mpows", &[4], vec![Opd::R(13), Opd::R(3)]);
            }
            9 => {
                let max = if self.wb == 64 && cfg!(target_pointer_width = "64") { usize::MAX } else { 0xffffffff };
                let t = N::from(1 + self.r.below(5) as u128);
                self.lx(1, &z(t, false), signed);
                let p = self.r.pick(&[Opd::V(1), Opd::R(1), Opd::W(1)]);
                if self.wb == 16 || cfg!(target_pointer_width = "64") && self.wb == 64 {
                    let t = max - self.r.below(3);
                    self.run("shl", &[2], vec![p, G::usz(t)]);
                }
            }
            10 => {
                if self.wb == 16 || cfg!(target_pointer_width = "64") && self.wb == 64 {
                    self.lu(1, &N::from(3));
                    let n = usize::MAX - self.r.below(3);
                    self.run("setbit", &[], vec![Opd::W(1), G::usz(n)]);
                    let b = if self.wb == 16 { 3 } else { 2 };
                    self.lu(1, &N::from(b));
                    self.run("pow", &[2], vec![Opd::R(1), G::usz(n)]);
                }
            }
            11 => {
                let s = self.parse_text(10, 30);
                let s = if self.flip() { self.odd_text() } else { self.spoil(&s) };
                let f = self.r.pick(&["parse_u", "parse_i", "prefix_u", "prefix_i"]);
                self.run(f, &[2], vec![G::text(&s)]);
            }
            12 => {
                let t = self.r.pick(&PRIMS);
                self.run(&format!("to_{}", t), &[], vec![Opd::R(0)]);
                let t = self.r.pick(&["i8", "i64", "i128", "isize"]);
                let v = self.prim(t);
                self.run("fromu", &[2], vec![lit(t, &v)]);
            }
            _ => {
                if signed {
                    self.run("i2u", &[2], vec![Opd::R(0)]);
                }
            }
        }
        for k in 12..NREG {
            if matches!(self.ty(k), Ty::M(_)) {
                self.run("forget", &[], vec![G::usz(k)]);
            }
        }
    }

    /// Exponents whose product with the length of the base overflows (16-bit words).
    fn huge_power(&mut self, signed: bool, neg: bool) {
        let k = self.r.below(20);
        let b = match self.r.below(3) {
            0 => N::from(2 + self.r.below(3) as u128),
            1 => N::pow2(k),
            _ => N::pow2(1 + self.r.below(6)),
        };
        let l = (b.bits() - 1).max(1);
        let e = match self.r.below(5) {
            0 => 1usize << (usize::BITS as usize - 1 - self.r.below(5)),
            1 => (usize::MAX / l).saturating_add(1),
            2 => usize::MAX / l,
            3 => usize::MAX,
            _ => (1usize << (usize::BITS as usize - 1 - self.r.below(5))) + self.r.below(9),
        };
        let e = if self.flip() { e } else { e.wrapping_add(self.r.below(70)) };
        self.lx(0, &z(b, neg), signed);
        let f = self.r.pick(&["pow", "pow", "nt_pow"]);
        self.run(f, &[1], vec![Opd::R(0), G::usz(e)]);
    }

    // ---------------------------------------------------------------- C24 (16-bit words)
    pub fn c24(&mut self) {
        let max = ibig::UBig::MAX_BIT_LEN;
        if max > 1 << 20 {
            // Far away limit: only counts that exceed it.
            // (A 32-bit library may allocate half a gigabyte before it refuses.)
            let rounds = if cfg!(target_pointer_width = "64") { usize::MAX } else { 8 };
            for _ in 0..rounds {
                if self.full() {
                    break;
                }
                let x = self.nat(3);
                let k = [0usize, 1, 2, 63, 64, 65];
                let huge = (usize::MAX - self.r.pick(&k)).max(max);
                self.lu(0, &x);
                let p = self.r.pick(&[Opd::V(0), Opd::R(0), Opd::W(0)]);
                self.run("shl", &[1], vec![p, G::usz(huge)]);
                self.lu(0, &x);
                let p = self.r.pick(&[Opd::V(0), Opd::R(0), Opd::W(0)]);
                let far = self.far();
                self.run("shr", &[1], vec![p, G::usz(far)]);
                self.lu(0, &x);
                let far = self.far();
                self.run("clearbit", &[], vec![Opd::W(0), G::usz(far)]);
                let far = self.far();
                self.run("bit", &[], vec![Opd::R(0), G::usz(far)]);
                self.run("setbit", &[], vec![Opd::W(0), G::usz(huge)]);
                let x = self.small(3);
                self.lu(0, &x);
                self.run("pow", &[1], vec![Opd::R(0), G::usz(huge)]);
            }
            return;
        }
        self.lw = 16;
        let top = |g: &mut G, d: usize| -> N {
            // a number of about max - d bits
            let b = max - d;
            match g.r.below(5) {
                0 => N::pow2(b).diff(&N::from(1)),
                1 => N::pow2(b - 1),
                2 => N::pow2(b - 1).add(&g.small(3)),
                3 => N::pow2(b).diff(&g.nat(3).add(&N::from(1))),
                _ => {
                    let n = (b + 15) / 16;
                    g.nat_w(n).low(b)
                }
            }
        };
        while !self.full() {
            let d = self.r.pick(&[0usize, 0, 0, 1, 2, 15, 16, 17, 31, 32, 33]);
            let a = top(self, d);
            let signed = self.flip();
            let neg = signed && self.flip();
            let a = z(a, neg);
            match self.r.below(18) {
                0 | 1 => {
                    let b = if self.flip() { self.small(3) } else { top(self, 0) };
                    let b = z(b, signed && self.flip());
                    let f = self.r.pick(&["add", "sub"]);
                    self.bin_case(f, &a, &b, signed, false);
                }
                2 | 3 => {
                    let n = self.r.range(1, 65536);
                    let x = N::pow2(n - 1).add(&self.nat(2).low(n - 1));
                    let m = (65536 - n + self.r.below(4)).saturating_sub(1).max(1);
                    let y = N::pow2(m - 1).add(&self.nat(2).low(m - 1));
                    let (x, y, s) = self.signs(x, y);
                    self.bin_case("mul", &x, &y, s, false);
                }
                4 => {
                    let b = match self.r.below(3) {
                        0 => self.nat_w(1),
                        1 => { let n = self.r.range(1, 100); self.nat_w(n) }
                        _ => top(self, d),
                    };
                    let f = self.r.pick(&["div", "rem", "divrem", "dive", "reme", "divreme"]);
                    let b = z(b, signed && self.flip());
                    self.bin_case(f, &a, &b, signed, false);
                }
                5 | 6 => {
                    let n = self.r.range(1, 65536);
                    let x = N::pow2(n - 1).add(&self.nat(2).low(n - 1));
                    let c = (65536 - n + self.r.below(5)).saturating_sub(2);
                    self.lx(0, &z(x, neg), signed);
                    let p = self.r.pick(&[Opd::V(0), Opd::R(0), Opd::W(0)]);
                    self.run("shl", &[1], vec![p, G::usz(c)]);
                }
                7 => {
                    let c = self.r.pick(&[0usize, 1, 15, 16, 17, 65519, 65520, 65535, 65536, usize::MAX, usize::MAX - 1, usize::MAX - 15]);
                    let c = if self.r.chance(1, 3) { self.far() } else { c };
                    self.lx(0, &a, signed);
                    let p = self.r.pick(&[Opd::V(0), Opd::R(0), Opd::W(0)]);
                    let f = self.r.pick(&["shl", "shr"]);
                    self.run(f, &[1], vec![p, G::usz(c)]);
                }
                8 => {
                    let x = self.nat(2);
                    let c = self.r.pick(&[65519usize, 65520, 65534, 65535, 65536, 65537, 65551, 65552, 65599, 65600, 65616, 70000, usize::MAX, usize::MAX - 1]);
                    let c = if self.r.chance(1, 3) { self.far() } else { c };
                    self.lu(0, &x);
                    let f = self.r.pick(&["setbit", "setbit", "clearbit"]);
                    self.run(f, &[], vec![Opd::W(0), G::usz(c)]);
                    if self.ty(0) != Ty::None {
                        self.run("bit", &[], vec![Opd::R(0), G::usz(c)]);
                    }
                }
                9 if self.flip() => {
                    for _ in 0..8 {
                        let signed = self.flip();
                        let neg = signed && self.flip();
                        self.huge_power(signed, neg);
                    }
                }
                9 => {
                    // b^e around the limit
                    let b = N::from(2 + self.r.below(40) as u128);
                    let e = (65536.0 / (b.0[0] as f64).log2()) as usize;
                    let e = (e + self.r.below(4)).saturating_sub(2);
                    self.lx(0, &z(b, neg), signed);
                    self.run("pow", &[1], vec![Opd::R(0), G::usz(e)]);
                }
                10 => {
                    // text around the limit
                    let radix = self.r.pick(&[16u32, 2, 32, 10, 36]);
                    let n = (65536.0 / (radix as f64).log2()) as usize;
                    let n = n + self.r.below(3);
                    let zs = self.r.pick(&[0, 0, 7]);
                    let s = "0".repeat(zs) + &self.digits(radix, n);
                    if self.r.chance(1, 3) || radix != 10 {
                        self.run("radix_u", &[0], vec![G::text(&s), lit("u32", &format!("{:x}", radix))]);
                    }
                }
                11 => {
                    self.lx(0, &a, signed);
                    self.run("fmt", &[], vec![Opd::R(0), lit("c", "x"), lit("u32", "0"), lit("u32", "0"), lit("u32", "0"), lit("u32", "0"), lit("u32", "0")]);
                    if self.r.chance(1, 4) {
                        self.run("fmt", &[], vec![Opd::R(0), lit("c", "d"), lit("u32", "0"), lit("u32", "0"), lit("u32", "0"), lit("u32", "0"), lit("u32", "0")]);
                    }
                }
                12 => {
                    self.lu(0, &a.m);
                    let p = self.form1(0);
                    self.run("nextpow2", &[1], vec![p]);
                }
                13 => {
                    let b = if self.flip() { a.m.diff(&self.small(4)) } else { self.nat(3) };
                    let b = z(b, signed && self.flip());
                    let f = self.r.pick(&["and", "or", "xor", "andnot"]);
                    self.bin_case(f, &a, &b, signed, false);
                    if signed {
                        self.li(0, &a);
                        let p = self.form1(0);
                        self.run("not", &[1], vec![p]);
                    }
                }
                14 => {
                    // rings with the largest moduli
                    if a.m.is_zero() {
                        continue;
                    }
                    self.lu(15, &a.m);
                    self.run("ring", &[], vec![Opd::R(15)]);
                    let g = self.m.rings.len() - 1;
                    let e = top(self, d);
                    self.lu(14, &e);
                    self.run("into", &[0], vec![G::glit(g), Opd::R(14)]);
                    self.run("into", &[1], vec![G::glit(g), Opd::V(14)]);
                    let f = self.r.pick(&["add", "sub", "mul"]);
                    if self.same(0, 1) && matches!(self.ty(0), Ty::M(_)) {
                        self.run(f, &[], vec![Opd::W(0), Opd::R(1)]);
                        self.run("neg", &[1], vec![Opd::V(1)]);
                    }
                    if self.r.chance(1, 4) {
                        self.lu(14, &a.m.diff(&N::from(1)));
                        if self.run("into", &[0], vec![G::glit(g), Opd::R(14)]) {
                            self.run("inv", &[2], vec![Opd::R(0)]);
                        }
                    }
                    for k in 0..3 {
                        self.run("forget", &[], vec![G::usz(k)]);
                    }
                }
                15 => {
                    let n = self.r.pick(&[8189usize, 8190, 8191, 8192, 8193, 8194]);
                    let zs = self.r.pick(&[0, 1, 2, 9, 9, 200]);
                    let mut v = vec!["255".to_string(); n];
                    let f = self.r.pick(&["fromle", "frombe"]);
                    for _ in 0..zs {
                        if f == "fromle" { v.push("0".into()) } else { v.insert(0, "0".into()) }
                    }
                    self.run(f, &[0], vec![lit("b", &v.join(","))]);
                    if self.ty(0) == Ty::U {
                        self.run("tole", &[], vec![Opd::R(0)]);
                    }
                }
                16 => {
                    // a clone and an in-place copy at the limit, then use
                    self.lx(0, &a, signed);
                    self.run("clone", &[1], vec![Opd::R(0)]);
                    let t = self.small(9);
                    self.lx(2, &z(t, false), signed);
                    self.run("clonefrom", &[], vec![Opd::W(2), Opd::R(1)]);
                    self.run("cmp", &[], vec![Opd::R(2), Opd::R(0)]);
                    self.run(if signed { "f64" } else { "bitlen" }, &[], vec![Opd::R(2)]);
                    self.run("tz", &[], vec![Opd::R(2)]);
                }
                _ => {
                    let b = top(self, d);
                    if self.r.chance(1, 3) {
                        self.lx(0, &a, signed);
                        let b = z(if self.flip() { b } else { self.nat(2) }, signed && self.flip());
                        self.lx(1, &b, signed);
                        // the two longest operands: quotients are short here
                        let near = a.m.diff(&self.small(3));
                        if self.flip() {
                            self.lx(1, &z(near, neg), signed);
                        }
                        let f = self.r.pick(&["gcd", "egcd"]);
                        if self.bits_of(1) < 64 || self.bits_of(1) > 65400 {
                            let (x, y) = if self.flip() { (0, 1) } else { (1, 0) };
                            if self.bits_of(1) < 64 || x == 0 || true {
                                self.run(f, &[2, 3, 4], vec![Opd::R(x), Opd::R(y)]);
                            }
                        }
                    }
                }
            }
        }
    }
}
