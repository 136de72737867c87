//! A tiny natural number type for building inputs, independent of the library under test.

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct N(pub Vec<u32>);

impl N {
    pub fn zero() -> N {
        N(vec![])
    }
    pub fn from(mut x: u128) -> N {
        let mut v = vec![];
        while x != 0 {
            v.push(x as u32);
            x >>= 32;
        }
        N(v)
    }
    pub fn norm(mut self) -> N {
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
        self
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn bits(&self) -> usize {
        match self.0.last() {
            None => 0,
            Some(t) => self.0.len() * 32 - t.leading_zeros() as usize,
        }
    }
    pub fn bit(&self, k: usize) -> bool {
        k / 32 < self.0.len() && self.0[k / 32] >> (k % 32) & 1 == 1
    }
    pub fn add(&self, o: &N) -> N {
        let n = self.0.len().max(o.0.len());
        let mut v = Vec::with_capacity(n + 1);
        let mut c = 0u64;
        for i in 0..n {
            c += *self.0.get(i).unwrap_or(&0) as u64 + *o.0.get(i).unwrap_or(&0) as u64;
            v.push(c as u32);
            c >>= 32;
        }
        v.push(c as u32);
        N(v).norm()
    }
    pub fn lt(&self, o: &N) -> bool {
        if self.0.len() != o.0.len() {
            return self.0.len() < o.0.len();
        }
        for i in (0..self.0.len()).rev() {
            if self.0[i] != o.0[i] {
                return self.0[i] < o.0[i];
            }
        }
        false
    }
    /// |a - b|
    pub fn diff(&self, o: &N) -> N {
        if self.lt(o) {
            return o.diff(self);
        }
        let mut v = Vec::with_capacity(self.0.len());
        let mut b = 0i64;
        for i in 0..self.0.len() {
            let mut x = self.0[i] as i64 - *o.0.get(i).unwrap_or(&0) as i64 - b;
            b = 0;
            if x < 0 {
                x += 1 << 32;
                b = 1;
            }
            v.push(x as u32);
        }
        N(v).norm()
    }
    pub fn mul(&self, o: &N) -> N {
        let mut v = vec![0u32; self.0.len() + o.0.len()];
        for (i, a) in self.0.iter().enumerate() {
            let mut c = 0u64;
            for (j, b) in o.0.iter().enumerate() {
                c += v[i + j] as u64 + *a as u64 * *b as u64;
                v[i + j] = c as u32;
                c >>= 32;
            }
            v[i + o.0.len()] = c as u32;
        }
        N(v).norm()
    }
    pub fn shl(&self, k: usize) -> N {
        if self.is_zero() {
            return N::zero();
        }
        let mut v = vec![0u32; k / 32];
        let s = k % 32;
        let mut c = 0u64;
        for a in &self.0 {
            c |= (*a as u64) << s;
            v.push(c as u32);
            c >>= 32;
        }
        v.push(c as u32);
        N(v).norm()
    }
    pub fn shr(&self, k: usize) -> N {
        let w = k / 32;
        if w >= self.0.len() {
            return N::zero();
        }
        let s = k % 32;
        let mut v = vec![];
        for i in w..self.0.len() {
            let lo = self.0[i] as u64;
            let hi = *self.0.get(i + 1).unwrap_or(&0) as u64;
            v.push(((lo | hi << 32) >> s) as u32);
        }
        N(v).norm()
    }
    pub fn low(&self, k: usize) -> N {
        let mut v: Vec<u32> = self.0.iter().take(k / 32 + 1).cloned().collect();
        if v.len() == k / 32 + 1 {
            let m = k % 32;
            let t = v.last_mut().unwrap();
            *t &= ((1u64 << m) - 1) as u32;
        }
        N(v).norm()
    }
    pub fn hex(&self) -> String {
        use std::fmt::Write;
        if self.is_zero() {
            return "0".into();
        }
        let mut s = format!("{:x}", self.0.last().unwrap());
        for w in self.0.iter().rev().skip(1) {
            write!(s, "{:08x}", w).unwrap();
        }
        s
    }
    pub fn pow2(k: usize) -> N {
        N::from(1).shl(k)
    }
    pub fn bytes_le(&self) -> Vec<u8> {
        let mut v: Vec<u8> = self.0.iter().flat_map(|w| w.to_le_bytes()).collect();
        while v.last() == Some(&0) {
            v.pop();
        }
        v
    }
    /// Divide by a small number.
    pub fn divsmall(&self, d: u32) -> (N, u32) {
        let mut v = vec![0u32; self.0.len()];
        let mut r = 0u64;
        for i in (0..self.0.len()).rev() {
            r = r << 32 | self.0[i] as u64;
            v[i] = (r / d as u64) as u32;
            r %= d as u64;
        }
        (N(v).norm(), r as u32)
    }
    pub fn radix(&self, r: u32) -> Vec<u8> {
        let mut x = self.clone();
        let mut s = vec![];
        while !x.is_zero() {
            let (q, d) = x.divsmall(r);
            s.push(std::char::from_digit(d, r).unwrap() as u8);
            x = q;
        }
        if s.is_empty() {
            s.push(b'0');
        }
        s.reverse();
        s
    }
}

/// Signed.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Z {
    pub neg: bool,
    pub m: N,
}
impl Z {
    pub fn hex(&self) -> String {
        if self.neg && !self.m.is_zero() {
            format!("-{}", self.m.hex())
        } else {
            self.m.hex()
        }
    }
}
