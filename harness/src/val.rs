//! Values: generation and canonical form, for every kind of type a struct field may have.
use crate::tape::Gen;
use serde::{Deserialize, Serialize, de::DeserializeOwned};
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};
use std::sync::Arc;

pub trait Val: Clone + Serialize + DeserializeOwned + Send + Sync + 'static {
    /// Rough encoded size of one value, used to aim at shard boundaries.
    const COST: usize;
    fn gen_(g: &mut Gen) -> Self;
    /// Canonical bytes: equal exactly when the values are equal (floats by bits, maps sorted).
    fn canon(&self, o: &mut Vec<u8>);
    fn canon_vec(&self) -> Vec<u8> {
        let mut o = Vec::new();
        self.canon(&mut o);
        o
    }
    fn gen_many(g: &mut Gen, n: usize) -> Vec<Self> {
        if n > 24 {
            let mut s = g.sub();
            s.depth += 1;
            // The items spend from half of what is left.
            s.budget /= 2;
            g.budget -= s.budget;
            s.budget /= n;
            let b = s.budget;
            (0..n).map(|_| { s.budget = b; Self::gen_(&mut s) }).collect()
        } else {
            (0..n).map(|_| Self::gen_(g)).collect()
        }
    }
    fn canon_many(xs: &[Self], o: &mut Vec<u8>) {
        for x in xs {
            x.canon(o);
        }
    }
}

pub trait Key: Val + Hash + Eq {
    /// Keys that are easily confused with `self`.
    fn near(&self, _g: &mut Gen) -> Option<Self> {
        None
    }
}

pub fn same<T: Val>(a: &T, b: &T) -> bool {
    a.canon_vec() == b.canon_vec()
}

macro_rules! ints {
    ($($t:ty),*) => {$(
        impl Val for $t {
            const COST: usize = if std::mem::size_of::<$t>() == 1 { 1 } else { 1 + std::mem::size_of::<$t>() / 2 };
            fn gen_(g: &mut Gen) -> Self {
                if std::mem::size_of::<$t>() == 16 { ((g.int() as u128) << 64 | g.int() as u128) as $t } else { g.int() as $t }
            }
            fn canon(&self, o: &mut Vec<u8>) { o.extend_from_slice(&self.to_le_bytes()); }
        }
        impl Key for $t {
            fn near(&self, g: &mut Gen) -> Option<Self> {
                Some(match g.below(3) { 0 => self.wrapping_add(1), 1 => self.wrapping_sub(1), _ => self ^ (1 << g.below(8 * std::mem::size_of::<$t>() as u64)) })
            }
        }
    )*};
}
ints!(u16, u32, u64, u128, i8, i16, i32, i64, i128, usize, isize);

impl Val for u8 {
    const COST: usize = 1;
    fn gen_(g: &mut Gen) -> Self {
        g.int() as u8
    }
    fn canon(&self, o: &mut Vec<u8>) {
        o.push(*self);
    }
    fn gen_many(g: &mut Gen, n: usize) -> Vec<u8> {
        if n <= 8 {
            return (0..n).map(|_| u8::gen_(g)).collect();
        }
        let style = g.below(4);
        let mut s = g.sub();
        let mut v = Vec::with_capacity(n);
        match style {
            0 => {
                // position-dependent pattern
                let k = s.u();
                v.extend((0..n as u64).map(|i| (i ^ (i >> 8) ^ (i >> 16) ^ k) as u8));
            }
            1 => {
                // runs
                while v.len() < n {
                    let r = s.range(1, 300).min(n - v.len());
                    let b = s.u() as u8;
                    v.resize(v.len() + r, b);
                }
            }
            _ => {
                while v.len() < n {
                    let w = s.u().to_le_bytes();
                    let k = (n - v.len()).min(8);
                    v.extend_from_slice(&w[..k]);
                }
            }
        }
        v
    }
    fn canon_many(xs: &[Self], o: &mut Vec<u8>) {
        o.extend_from_slice(xs);
    }
}
impl Key for u8 {
    fn near(&self, g: &mut Gen) -> Option<Self> {
        Some(self.wrapping_add(1 + g.below(255) as u8))
    }
}

impl Val for bool {
    const COST: usize = 1;
    fn gen_(g: &mut Gen) -> Self {
        g.flag()
    }
    fn canon(&self, o: &mut Vec<u8>) {
        o.push(*self as u8);
    }
}
impl Key for bool {}

impl Val for f32 {
    const COST: usize = 4;
    fn gen_(g: &mut Gen) -> Self {
        match g.below(4) {
            0 => g.below(100) as f32 / 4.0,
            1 => *g.pick(&[0.0, -0.0, f32::INFINITY, f32::NEG_INFINITY, f32::MIN_POSITIVE, f32::MAX, 1e-42]),
            2 => f32::from_bits(0x7fc0_0000 | g.below(1 << 22) as u32),
            _ => f32::from_bits(g.u() as u32),
        }
    }
    fn canon(&self, o: &mut Vec<u8>) {
        o.extend_from_slice(&self.to_bits().to_le_bytes());
    }
}
impl Val for f64 {
    const COST: usize = 8;
    fn gen_(g: &mut Gen) -> Self {
        match g.below(4) {
            0 => g.below(100) as f64 / 4.0,
            1 => *g.pick(&[0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, f64::MAX, 1e-310]),
            2 => f64::from_bits(0x7ff8_0000_0000_0000 | g.below(1 << 51)),
            _ => f64::from_bits(g.u()),
        }
    }
    fn canon(&self, o: &mut Vec<u8>) {
        o.extend_from_slice(&self.to_bits().to_le_bytes());
    }
}
impl Val for char {
    const COST: usize = 2;
    fn gen_(g: &mut Gen) -> Self {
        match g.below(3) {
            0 => (b'a' + g.below(26) as u8) as char,
            1 => *g.pick(&['\0', '\u{7f}', '\u{80}', 'é', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}']),
            _ => char::from_u32(g.below(0x11_0000) as u32).unwrap_or('x'),
        }
    }
    fn canon(&self, o: &mut Vec<u8>) {
        o.extend_from_slice(&(*self as u32).to_le_bytes());
    }
}
impl Key for char {}

thread_local! {
    static HUGE: std::cell::Cell<(u32, u32, usize)> = const { std::cell::Cell::new((0, 0, 0)) };
}
/// While this lives, the strings generated after the first `skip` are `len` bytes long, `count` of them.
pub struct Huge;
impl Huge {
    pub fn strings(skip: u32, count: u32, len: usize) -> Huge {
        HUGE.set((skip, count, len));
        Huge
    }
    fn take() -> Option<usize> {
        match HUGE.get() {
            (_, 0, _) => None,
            (0, n, len) => {
                HUGE.set((0, n - 1, len));
                Some(len)
            }
            (k, n, len) => {
                HUGE.set((k - 1, n, len));
                None
            }
        }
    }
}
impl Drop for Huge {
    fn drop(&mut self) {
        HUGE.set((0, 0, 0));
    }
}

impl Val for String {
    const COST: usize = 12;
    fn gen_(g: &mut Gen) -> Self {
        if let Some(n) = Huge::take() {
            // Poorly compressible text, or a repeated line.
            let line = if g.flag() { 64 } else { 8 << 10 };
            let mut s = g.sub();
            let line: String = (0..line).map(|_| (b' ' + s.below(95) as u8) as char).collect();
            let mut t = line.repeat(n / line.len() + 1);
            t.truncate(n);
            return t;
        }
        let n = match g.below(12) {
            0 => 0,
            1..=5 => g.range(1, 8),
            6..=9 => g.range(1, 40),
            10 => *g.pick(&[249, 250, 251, 252, 255, 256, 300]),
            _ => {
                if g.budget > 3000 && g.depth < 2 { g.budget -= 500; g.range(300, 5000) } else { g.range(0, 60) }
            }
        };
        let style = g.below(3);
        let mut s = g.sub();
        (0..n)
            .map(|_| match style {
                0 => (b'a' + s.below(26) as u8) as char,
                1 => (b' ' + s.below(95) as u8) as char,
                _ => char::gen_(&mut s),
            })
            .collect()
    }
    fn canon(&self, o: &mut Vec<u8>) {
        o.extend_from_slice(&(self.len() as u64).to_le_bytes());
        o.extend_from_slice(self.as_bytes());
    }
}
impl Key for String {
    fn near(&self, g: &mut Gen) -> Option<Self> {
        let mut s = self.clone();
        match g.below(3) {
            0 => s.push('a'),
            1 => { s.pop(); }
            _ => s.insert(0, '\0'),
        }
        Some(s)
    }
}

impl Val for () {
    const COST: usize = 0;
    fn gen_(_: &mut Gen) {}
    fn canon(&self, _: &mut Vec<u8>) {}
}

impl<T: Val> Val for Option<T> {
    const COST: usize = 1 + T::COST / 2;
    fn gen_(g: &mut Gen) -> Self {
        if g.flag() { Some(T::gen_(g)) } else { None }
    }
    fn canon(&self, o: &mut Vec<u8>) {
        o.push(self.is_some() as u8);
        if let Some(x) = self {
            x.canon(o);
        }
    }
}
impl<T: Val> Val for Box<T> {
    const COST: usize = T::COST;
    fn gen_(g: &mut Gen) -> Self {
        Box::new(T::gen_(g))
    }
    fn canon(&self, o: &mut Vec<u8>) {
        (**self).canon(o);
    }
}
impl<T: Val> Val for Arc<T> {
    const COST: usize = T::COST;
    fn gen_(g: &mut Gen) -> Self {
        Arc::new(T::gen_(g))
    }
    fn canon(&self, o: &mut Vec<u8>) {
        (**self).canon(o);
    }
}
impl<T: Val> Val for Vec<T> {
    const COST: usize = 2 + 4 * T::COST;
    fn gen_(g: &mut Gen) -> Self {
        let n = g.len(T::COST);
        g.depth += 1;
        let v = T::gen_many(g, n);
        g.depth -= 1;
        v
    }
    fn canon(&self, o: &mut Vec<u8>) {
        o.extend_from_slice(&(self.len() as u64).to_le_bytes());
        T::canon_many(self, o);
    }
}
impl<A: Val, B: Val> Val for (A, B) {
    const COST: usize = A::COST + B::COST;
    fn gen_(g: &mut Gen) -> Self {
        (A::gen_(g), B::gen_(g))
    }
    fn canon(&self, o: &mut Vec<u8>) {
        self.0.canon(o);
        self.1.canon(o);
    }
}
impl<A: Key, B: Key> Key for (A, B) {
    fn near(&self, g: &mut Gen) -> Option<Self> {
        Some((self.0.clone(), self.1.near(g)?))
    }
}
impl<A: Val, B: Val, C: Val> Val for (A, B, C) {
    const COST: usize = A::COST + B::COST + C::COST;
    fn gen_(g: &mut Gen) -> Self {
        (A::gen_(g), B::gen_(g), C::gen_(g))
    }
    fn canon(&self, o: &mut Vec<u8>) {
        self.0.canon(o);
        self.1.canon(o);
        self.2.canon(o);
    }
}
impl<T: Val> Val for [T; 3] {
    const COST: usize = 3 * T::COST;
    fn gen_(g: &mut Gen) -> Self {
        [T::gen_(g), T::gen_(g), T::gen_(g)]
    }
    fn canon(&self, o: &mut Vec<u8>) {
        for x in self {
            x.canon(o);
        }
    }
}
impl<K: Val + Ord, V: Val> Val for BTreeMap<K, V> {
    const COST: usize = 2 + 3 * (K::COST + V::COST);
    fn gen_(g: &mut Gen) -> Self {
        let n = g.range(0, 6);
        (0..n).map(|_| (K::gen_(g), V::gen_(g))).collect()
    }
    fn canon(&self, o: &mut Vec<u8>) {
        o.extend_from_slice(&(self.len() as u64).to_le_bytes());
        for (k, v) in self {
            k.canon(o);
            v.canon(o);
        }
    }
}

pub fn canon_map<K: Val, V: Val>(m: &HashMap<K, V>, o: &mut Vec<u8>) {
    let mut es: Vec<(Vec<u8>, &V)> = m.iter().map(|(k, v)| (k.canon_vec(), v)).collect();
    es.sort_by(|a, b| a.0.cmp(&b.0));
    o.extend_from_slice(&(es.len() as u64).to_le_bytes());
    for (k, v) in es {
        o.extend_from_slice(&k);
        v.canon(o);
    }
}

impl<K: Key, V: Val> Val for HashMap<K, V> {
    const COST: usize = 2 + 4 * (K::COST + V::COST);
    fn gen_(g: &mut Gen) -> Self {
        // Enough entries for several buckets once in a while.
        let n = if g.depth == 0 && g.budget > 20_000 && K::COST + V::COST < 24 && g.chance(1, 14) {
            g.budget -= 20_000;
            g.range(3900, 9000)
        } else {
            g.len((K::COST + V::COST + 12).max(60))
        };
        g.depth += 1;
        let m = if n > 12 {
            let mut s = g.sub();
            s.depth += 1;
            s.budget /= 2;
            g.budget -= s.budget;
            s.budget /= n;
            let b = s.budget;
            (0..n).map(|_| { s.budget = b; (K::gen_(&mut s), V::gen_(&mut s)) }).collect()
        } else {
            (0..n).map(|_| (K::gen_(g), V::gen_(g))).collect()
        };
        g.depth -= 1;
        m
    }
    fn canon(&self, o: &mut Vec<u8>) {
        canon_map(self, o)
    }
}

/// A key whose hash covers only one field: distinct keys collide in all 64 bits.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Weak {
    pub h: u8,
    pub id: u32,
}
impl Hash for Weak {
    fn hash<H: Hasher>(&self, s: &mut H) {
        (self.h % 3).hash(s)
    }
}
impl Val for Weak {
    const COST: usize = 4;
    fn gen_(g: &mut Gen) -> Self {
        Weak { h: g.below(5) as u8, id: g.int() as u32 }
    }
    fn canon(&self, o: &mut Vec<u8>) {
        o.push(self.h);
        self.id.canon(o);
    }
}
impl Key for Weak {
    fn near(&self, g: &mut Gen) -> Option<Self> {
        Some(if g.flag() { Weak { h: self.h, id: self.id.wrapping_add(1 + g.below(3) as u32) } } else { Weak { h: self.h.wrapping_add(3), id: self.id } })
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum En {
    A,
    B(u16),
    C { x: i32, s: String },
    D(Option<Box<En>>, Vec<u8>),
}
impl Val for En {
    const COST: usize = 6;
    fn gen_(g: &mut Gen) -> Self {
        match g.below(4) {
            0 => En::A,
            1 => En::B(Val::gen_(g)),
            2 => En::C { x: Val::gen_(g), s: Val::gen_(g) },
            _ => {
                let inner = if g.chance(1, 3) { Some(Box::new(En::gen_(g))) } else { None };
                let n = g.range(0, 6);
                En::D(inner, u8::gen_many(g, n))
            }
        }
    }
    fn canon(&self, o: &mut Vec<u8>) {
        match self {
            En::A => o.push(0),
            En::B(x) => {
                o.push(1);
                x.canon(o)
            }
            En::C { x, s } => {
                o.push(2);
                x.canon(o);
                s.canon(o)
            }
            En::D(i, v) => {
                o.push(3);
                i.canon(o);
                v.canon(o)
            }
        }
    }
}

/// A plain serde struct, unknown to parcode.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Plain {
    pub a: u8,
    pub b: Option<String>,
    pub t: (i64, bool),
}
impl Val for Plain {
    const COST: usize = 12;
    fn gen_(g: &mut Gen) -> Self {
        Plain { a: Val::gen_(g), b: Val::gen_(g), t: Val::gen_(g) }
    }
    fn canon(&self, o: &mut Vec<u8>) {
        self.a.canon(o);
        self.b.canon(o);
        self.t.canon(o)
    }
}
