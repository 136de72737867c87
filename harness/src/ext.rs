//! Serialization (a minimal token format of our own) and random sampling (scripted generators).
use crate::exec::Arg::{self, *};
use crate::exec::Val as T;
use crate::exec::{parse_small, parse_usize, Outcome, Res};
use ibig::{IBig, UBig};
use rand::distributions::uniform::{SampleUniform, Uniform};
use rand::{Error as RandError, Rng, RngCore};
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Impossible, Serialize, SerializeSeq, SerializeTuple, Serializer};
use serde::{forward_to_deserialize_any, Deserialize};
use std::fmt;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

// ---------------------------------------------------------------- serialization

#[derive(Debug)]
pub struct E;
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("error")
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<M: fmt::Display>(_: M) -> E {
        E
    }
}
impl de::Error for E {
    fn custom<M: fmt::Display>(_: M) -> E {
        E
    }
}

/// Whether the formats below claim to be text.  The serialized form must not depend on it.
static HUMAN: AtomicBool = AtomicBool::new(true);

/// Records the calls made by a Serialize implementation as (tag, value) tokens.
struct Rec(Vec<(&'static str, String)>);

macro_rules! unsupported {
    ($($m:ident($($t:ty),*);)*) => {$( fn $m(self $(, _: $t)*) -> Result<(), E> { Err(E) } )*};
}

impl<'a> Serializer for &'a mut Rec {
    type Ok = ();
    type Error = E;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Impossible<(), E>;
    type SerializeTupleVariant = Impossible<(), E>;
    type SerializeMap = Impossible<(), E>;
    type SerializeStruct = Impossible<(), E>;
    type SerializeStructVariant = Impossible<(), E>;
    fn is_human_readable(&self) -> bool {
        HUMAN.load(Relaxed)
    }
    fn serialize_u64(self, v: u64) -> Result<(), E> {
        self.0.push(("u64", format!("{:x}", v)));
        Ok(())
    }
    fn serialize_u8(self, v: u8) -> Result<(), E> {
        self.0.push(("u8", format!("{:x}", v)));
        Ok(())
    }
    fn serialize_u16(self, v: u16) -> Result<(), E> {
        self.0.push(("u16", format!("{:x}", v)));
        Ok(())
    }
    fn serialize_u32(self, v: u32) -> Result<(), E> {
        self.0.push(("u32", format!("{:x}", v)));
        Ok(())
    }
    fn serialize_bool(self, v: bool) -> Result<(), E> {
        self.0.push(("bool", format!("{:x}", v as u8)));
        Ok(())
    }
    unsupported! {
        serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64);
        serialize_f32(f32); serialize_f64(f64); serialize_char(char);
        serialize_str(&str); serialize_bytes(&[u8]); serialize_none(); serialize_unit();
        serialize_unit_struct(&'static str);
    }
    fn serialize_some<X: ?Sized + Serialize>(self, _: &X) -> Result<(), E> {
        Err(E)
    }
    fn serialize_unit_variant(self, name: &'static str, idx: u32, variant: &'static str) -> Result<(), E> {
        let tag = match (name, variant) {
            ("Sign", "Positive") => "Sign.Positive",
            ("Sign", "Negative") => "Sign.Negative",
            _ => "variant",
        };
        self.0.push((tag, format!("{:x}", idx)));
        Ok(())
    }
    fn serialize_newtype_struct<X: ?Sized + Serialize>(self, _: &'static str, v: &X) -> Result<(), E> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<X: ?Sized + Serialize>(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: &X,
    ) -> Result<(), E> {
        Err(E)
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<Self, E> {
        match len {
            Some(n) => self.0.push(("seq", format!("{:x}", n))),
            None => self.0.push(("seq", "-1".into())),
        }
        Ok(self)
    }
    fn serialize_tuple(self, len: usize) -> Result<Self, E> {
        self.0.push(("tuple", format!("{:x}", len)));
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Impossible<(), E>, E> {
        Err(E)
    }
    fn serialize_tuple_variant(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: usize,
    ) -> Result<Impossible<(), E>, E> {
        Err(E)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Impossible<(), E>, E> {
        Err(E)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Impossible<(), E>, E> {
        Err(E)
    }
    fn serialize_struct_variant(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: usize,
    ) -> Result<Impossible<(), E>, E> {
        Err(E)
    }
}
impl<'a> SerializeSeq for &'a mut Rec {
    type Ok = ();
    type Error = E;
    fn serialize_element<X: ?Sized + Serialize>(&mut self, v: &X) -> Result<(), E> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), E> {
        self.0.push(("end", "0".into()));
        Ok(())
    }
}
impl<'a> SerializeTuple for &'a mut Rec {
    type Ok = ();
    type Error = E;
    fn serialize_element<X: ?Sized + Serialize>(&mut self, v: &X) -> Result<(), E> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), E> {
        self.0.push(("end", "0".into()));
        Ok(())
    }
}

// ---------------------------------------------------------------- deserialization

#[derive(Clone)]
enum Node {
    U64(u64),
    Neg,
    Str,
    Fail,
    /// Items and announced length.
    Seq(Vec<Node>, Option<usize>),
    /// Variant by name or index.
    Name(&'static str),
    Idx(u32),
}

struct Items {
    it: std::vec::IntoIter<Node>,
    hint: Option<usize>,
}
impl<'de> SeqAccess<'de> for Items {
    type Error = E;
    fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, seed: S) -> Result<Option<S::Value>, E> {
        match self.it.next() {
            None => Ok(None),
            Some(n) => {
                if let Some(h) = &mut self.hint {
                    *h = h.saturating_sub(1);
                }
                seed.deserialize(n).map(Some)
            }
        }
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint
    }
}
struct Var(Node);
impl<'de> EnumAccess<'de> for Var {
    type Error = E;
    type Variant = Unit;
    fn variant_seed<S: DeserializeSeed<'de>>(self, seed: S) -> Result<(S::Value, Unit), E> {
        Ok((seed.deserialize(self.0)?, Unit))
    }
}
struct Unit;
impl<'de> VariantAccess<'de> for Unit {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> {
        Ok(())
    }
    fn newtype_variant_seed<S: DeserializeSeed<'de>>(self, _: S) -> Result<S::Value, E> {
        Err(E)
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value, E> {
        Err(E)
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], _: V) -> Result<V::Value, E> {
        Err(E)
    }
}
impl<'de> Deserializer<'de> for Node {
    type Error = E;
    fn is_human_readable(&self) -> bool {
        HUMAN.load(Relaxed)
    }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self {
            Node::U64(x) if x < 0x80 => v.visit_u8(x as u8),
            Node::U64(x) => v.visit_u64(x),
            Node::Neg => v.visit_i64(-1),
            Node::Str => v.visit_str("words"),
            Node::Fail => Err(E),
            Node::Seq(items, hint) => v.visit_seq(Items { it: items.into_iter(), hint }),
            Node::Name(s) => v.visit_str(s),
            Node::Idx(k) => v.visit_u64(k as u64),
        }
    }
    fn deserialize_enum<V: Visitor<'de>>(
        self,
        _: &'static str,
        _: &'static [&'static str],
        v: V,
    ) -> Result<V::Value, E> {
        match self {
            Node::Name(_) | Node::Idx(_) => v.visit_enum(Var(self)),
            _ => Err(E),
        }
    }
    forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
        bytes byte_buf option unit unit_struct newtype_struct seq tuple
        tuple_struct map struct identifier ignored_any
    }
}

// ---------------------------------------------------------------- random generators

/// A generator whose 64-bit outputs mix uniform words with extreme ones.
struct Script {
    s: u64,
    mode: usize,
}
impl Script {
    fn raw(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn word(&mut self) -> u64 {
        let r = self.raw();
        if self.mode == 0 {
            return r;
        }
        match r % 11 {
            0 => 0,
            1 => u64::MAX,
            2 => 1,
            3 => u64::MAX - 1,
            4 => 0x8000_0000_0000_0000,
            5 => 0x8000_8000_8000_8000,
            6 => 0x0001_0001_0001_0001,
            7 => 0x0000_0001_0000_0001,
            _ => self.raw(),
        }
    }
}
impl RngCore for Script {
    fn next_u32(&mut self) -> u32 {
        (self.word() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.word()
    }
    fn fill_bytes(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let w = self.word().to_le_bytes();
            let n = c.len();
            c.copy_from_slice(&w[..n]);
        }
    }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), RandError> {
        self.fill_bytes(b);
        Ok(())
    }
}

fn draw<X: SampleUniform + PartialOrd + Clone>(lo: &X, hi: &X, incl: bool, how: usize, rng: &mut Script) -> X {
    match (how, incl) {
        (0, false) => rng.sample(Uniform::new(lo, hi)),
        (0, true) => rng.sample(Uniform::new_inclusive(lo, hi)),
        (1, false) => rng.gen_range(lo.clone()..hi.clone()),
        (1, true) => rng.gen_range(lo.clone()..=hi.clone()),
        (_, false) => rng.sample(Uniform::from(lo.clone()..hi.clone())),
        (_, true) => rng.sample(Uniform::from(lo.clone()..=hi.clone())),
    }
}

fn lit<'a>(a: &Arg<'a>) -> &'a str {
    match a {
        L { val, .. } => val,
        _ => panic!("harness: literal expected"),
    }
}

/// Counts of samples below each edge offset (relative to `lo`).
fn hist(n: usize, edges: &[u64], mut f: impl FnMut() -> u128) -> Res {
    let mut counts = vec![0u32; edges.len() + 1];
    for _ in 0..n {
        let x = f();
        let k = edges.iter().position(|e| x < *e as u128).unwrap_or(edges.len());
        counts[k] += 1;
    }
    Res::Seq("hist", counts)
}

fn words(s: &str) -> Vec<u64> {
    s.split(',').filter(|s| !s.is_empty()).map(|s| u64::from_str_radix(s, 16).unwrap()).collect()
}

/// What a text format and a binary format give.
fn both<X: PartialEq>(top: Node, f: impl Fn(Node) -> Result<X, E>, res: impl Fn(X) -> Res) -> Outcome {
    HUMAN.store(false, Relaxed);
    let binary = f(top.clone()).ok();
    HUMAN.store(true, Relaxed);
    match (f(top).ok(), binary) {
        (Some(a), Some(b)) if a == b => Outcome::Ok(vec![res(a)]),
        (None, None) => Outcome::Err("de"),
        _ => Outcome::Err("differ"),
    }
}

pub fn exec(f: &str, args: Vec<Arg>) -> Outcome {
    match f {
        "ser" => {
            let mut forms = vec![];
            for human in [false, true] {
                HUMAN.store(human, Relaxed);
                let mut r = Rec(vec![]);
                let ok = match &args[0] {
                    R(T::U(a)) => a.serialize(&mut r),
                    R(T::I(a)) => a.serialize(&mut r),
                    _ => panic!("harness: bad operand"),
                };
                forms.push(ok.map(|()| r.0));
            }
            match (forms.remove(0), forms.remove(0)) {
                (Ok(a), Ok(b)) if a == b => Outcome::Ok(vec![Res::Tok(a)]),
                _ => Outcome::Err("ser"),
            }
        }
        "de" => {
            // kind (0 u, 1 i), words, announced length (-1 none), sign form, malformation
            let kind = parse_usize(lit(&args[0]));
            let mut items: Vec<Node> = words(lit(&args[1])).into_iter().map(Node::U64).collect();
            let hint = match parse_small(lit(&args[2])) {
                n if n < 0 => None,
                n => Some(n as usize),
            };
            let sign = match parse_usize(lit(&args[3])) {
                0 => Node::Name("Positive"),
                1 => Node::Name("Negative"),
                2 => Node::Name("Zero"),
                3 => Node::Idx(0),
                4 => Node::Idx(1),
                _ => Node::Idx(2),
            };
            let mal = parse_usize(lit(&args[4]));
            match mal {
                1 => items.push(Node::Str),
                2 => items.push(Node::Neg),
                3 => items.push(Node::Fail),
                _ => {}
            }
            let mut top = Node::Seq(items, hint);
            if mal == 4 {
                top = Node::U64(5);
            }
            if kind == 1 {
                top = match mal {
                    5 => Node::Seq(vec![sign], None),
                    6 => Node::Seq(vec![top], None),
                    7 => Node::Seq(vec![], None),
                    _ => Node::Seq(vec![sign, top], None),
                };
                both(top, IBig::deserialize, Res::I)
            } else {
                both(top, UBig::deserialize, Res::U)
            }
        }
        "sample" => {
            // lo, hi, inclusive, how, generator mode, seed
            let incl = parse_usize(lit(&args[2])) == 1;
            let how = parse_usize(lit(&args[3]));
            let mut rng = Script { s: parse_usize(lit(&args[5])) as u64, mode: parse_usize(lit(&args[4])) };
            Outcome::Ok(vec![match (&args[0], &args[1]) {
                (R(T::U(a)), R(T::U(b))) => Res::U(draw(a, b, incl, how, &mut rng)),
                (R(T::I(a)), R(T::I(b))) => Res::I(draw(a, b, incl, how, &mut rng)),
                _ => panic!("harness: bad operand"),
            }])
        }
        "hist" => {
            // lo, hi (exclusive), number of samples, seed, edges
            let n = parse_usize(lit(&args[2]));
            let mut rng = Script { s: parse_usize(lit(&args[3])) as u64, mode: 0 };
            let edges = words(lit(&args[4]));
            let to = |x: UBig| u128::try_from(&x).unwrap_or(u128::MAX);
            Outcome::Ok(vec![match (&args[0], &args[1]) {
                (R(T::U(a)), R(T::U(b))) => {
                    let d = Uniform::new(a, b);
                    hist(n, &edges, || to(rng.sample(&d) - a))
                }
                (R(T::I(a)), R(T::I(b))) => {
                    let d = Uniform::new(a, b);
                    hist(n, &edges, || UBig::try_from(rng.sample(&d) - a).map(to).unwrap_or(u128::MAX))
                }
                _ => panic!("harness: bad operand"),
            }])
        }
        "bithist" => {
            // lo, hi (exclusive), number of samples, seed, places of two bytes
            let n = parse_usize(lit(&args[2]));
            let mut rng = Script { s: parse_usize(lit(&args[3])) as u64, mode: 0 };
            let (p, q) = (parse_usize(lit(&args[4])), parse_usize(lit(&args[5])));
            let byte = |x: &UBig, k: usize| (0..8).map(|j| (x.bit(k + j) as u128) << j).sum::<u128>();
            let mix = |x: UBig| byte(&x, p) ^ if q == p { 0 } else { byte(&x, q) };
            let edges: Vec<u64> = (1..16).map(|k| 16 * k).collect();
            Outcome::Ok(vec![match (&args[0], &args[1]) {
                (R(T::U(a)), R(T::U(b))) => {
                    let d = Uniform::new(a, b);
                    hist(n, &edges, || mix(rng.sample(&d) - a))
                }
                (R(T::I(a)), R(T::I(b))) => {
                    let d = Uniform::new(a, b);
                    hist(n, &edges, || UBig::try_from(rng.sample(&d) - a).map(mix).unwrap_or(u128::MAX))
                }
                _ => panic!("harness: bad operand"),
            }])
        }
        _ => panic!("harness: unknown op {}", f),
    }
}
