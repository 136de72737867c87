//! Commands (one call of the public API each) and the trace events they produce.
//!
//! Command line syntax:  `name|d,d,..|operand;operand;..`
//! where each `d` is the destination register of a result (-1: not stored) and an operand is
//!   v<reg>   a register, moved out (by value)
//!   r<reg>   a register, borrowed
//!   w<reg>   a register, mutated in place (`x op= ...`, `&mut self` methods)
//!   <type>:<value>     a literal by value, <type>&<value> a literal by reference.
//! Integers are signed hexadecimal; `s` (text as code points) and
//! `b` (bytes) are sequences of decimals, comma separated.

#[derive(Clone, Debug, PartialEq)]
pub enum Opd {
    V(usize),
    R(usize),
    W(usize),
    Lit { ty: String, val: String, by_ref: bool },
}

#[derive(Clone, Debug, PartialEq)]
pub struct Cmd {
    pub f: String,
    pub d: Vec<i32>,
    pub a: Vec<Opd>,
}

impl Cmd {
    pub fn new(f: &str, d: &[i32], a: Vec<Opd>) -> Cmd {
        Cmd { f: f.to_string(), d: d.to_vec(), a }
    }

    pub fn parse(line: &str) -> Cmd {
        let mut it = line.split('|');
        let f = it.next().unwrap().to_string();
        let d = it
            .next()
            .unwrap_or("")
            .split(',')
            .filter(|s| !s.is_empty())
            .map(|s| s.parse().expect("bad destination"))
            .collect();
        let a = it
            .next()
            .unwrap_or("")
            .split(';')
            .filter(|s| !s.is_empty())
            .map(|s| {
                if let Some(p) = s.find(|c| c == ':' || c == '&') {
                    Opd::Lit {
                        ty: s[..p].to_string(),
                        val: s[p + 1..].to_string(),
                        by_ref: &s[p..=p] == "&",
                    }
                } else {
                    let n = s[1..].parse().expect("bad register");
                    match &s[..1] {
                        "v" => Opd::V(n),
                        "r" => Opd::R(n),
                        "w" => Opd::W(n),
                        _ => panic!("bad operand {}", s),
                    }
                }
            })
            .collect();
        Cmd { f, d, a }
    }
}

pub fn lit(ty: &str, val: &str) -> Opd {
    Opd::Lit { ty: ty.to_string(), val: val.to_string(), by_ref: false }
}

pub fn lit_ref(ty: &str, val: &str) -> Opd {
    Opd::Lit { ty: ty.to_string(), val: val.to_string(), by_ref: true }
}

pub fn is_seq(ty: &str) -> bool {
    matches!(ty, "s" | "b" | "w64" | "hist")
}

/// Render an operand for the trace.
pub fn opd_json(o: &Opd, out: &mut String) {
    use std::fmt::Write;
    match o {
        Opd::V(n) => write!(out, "[\"v\",{}]", n).unwrap(),
        Opd::R(n) => write!(out, "[\"r\",{}]", n).unwrap(),
        Opd::W(n) => write!(out, "[\"w\",{}]", n).unwrap(),
        Opd::Lit { ty, val, by_ref } => {
            if is_seq(ty) {
                if ty == "w64" {
                    // hex words
                    let ws: Vec<String> = val.split(',').filter(|s| !s.is_empty()).map(|s| format!("\"{}\"", s)).collect();
                    write!(out, "[\"{}\",[{}]", ty, ws.join(",")).unwrap();
                } else {
                    write!(out, "[\"{}\",[{}]", ty, val).unwrap();
                }
            } else {
                write!(out, "[\"{}\",\"{}\"", ty, val).unwrap();
            }
            if *by_ref {
                out.push_str(",\"r\"");
            }
            out.push(']');
        }
    }
}
