//! What every schema type can do: be laid out by the independent encoder, be recovered by the
//! independent reader, and have its lazy view compared with the value it should show.
use crate::layout::{Node, Res, View, ensure, fail};
use crate::tape::Gen;
use crate::val::*;
use bincode::config::standard;
use parcode::rt::ParcodeLazyRef;
use parcode::visitor::ParcodeVisitor;
use parcode::{ParcodeCollectionPromise, ParcodeItem, ParcodeMapPromise, ParcodeNative};
use serde::{Serialize, de::DeserializeOwned};
use std::any::Any;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::hash::Hasher;

pub fn enc<T: Serialize + ?Sized>(x: &T, o: &mut Vec<u8>) {
    bincode::serde::encode_into_std_write(x, o, standard()).expect("reference encoding");
}
pub fn dec<T: DeserializeOwned>(b: &[u8], p: &mut usize) -> Res<T> {
    let (v, n) = bincode::serde::decode_from_slice(&b[*p..], standard()).map_err(|e| format!("reference decoding: {e}"))?;
    *p += n;
    Ok(v)
}

#[derive(Clone, Copy, Default, Debug)]
pub struct Cfg {
    pub is_map: bool,
    /// Compression the attribute asks for: 0 nothing, 1 lz4, 2 an algorithm no build has.
    pub alg: u8,
}

/// Choices of the independent encoder.
pub struct Plan<'g, 't> {
    pub g: &'g mut Gen<'t>,
    /// 0 never, 1 always, 2 per chunk.
    pub lz4: u64,
    pub shards: usize,
    pub multi_run: usize,
}
impl Plan<'_, '_> {
    pub fn comp(&mut self) -> bool {
        match self.lz4 {
            0 => false,
            1 => true,
            _ => self.g.flag(),
        }
    }
}

/// Expectations of the independent reader.
#[derive(Default)]
pub struct Expect {
    pub global_lz4: bool,
    /// False for files of other encoders, whose compression is free.
    pub check_comp: bool,
    pub multi_shard: usize,
    pub multi_run: usize,
    pub buckets: usize,
    pub vecs: BTreeMap<u64, (u64, usize)>,
    pub maps: BTreeMap<u64, u32>,
    pub lz4_chunks: usize,
}
impl Expect {
    /// A chunk that belongs to a field with the attribute config `c`.
    pub fn comp(&mut self, v: &View, c: Cfg) -> Res {
        self.lz4_chunks += (v.comp == 1) as usize;
        // The marker of an empty map is no data.
        if self.check_comp && !(v.kids.is_empty() && v.payload == [0; 4]) {
            // An algorithm the build does not have falls back to none.
            let want = (c.alg == 1 || (c.alg == 0 && self.global_lz4)) as u8;
            ensure!(v.comp == want, "chunk at {} ({} payload bytes) has compression {}, asked for {}", v.off, v.payload.len(), v.comp, want);
        }
        Ok(())
    }
}

/// Lazy access checking.
pub struct Probe<'g, 't> {
    pub g: &'g mut Gen<'t>,
    pub loads: usize,
    pub nth: usize,
    /// Remaining effort for expensive probes.
    pub fuel: usize,
    /// The map at hand is stored without buckets.
    pub blob: bool,
}

/// One decision of an access path.
pub enum Step {
    U(u64),
    Key(Box<dyn Any + Send + Sync>),
}
/// An access path into a value, with the chunks it may read.
#[derive(Default)]
pub struct Access {
    pub steps: Vec<Step>,
    pub need: BTreeSet<u64>,
    /// Containers of which only needed children are opened.
    pub sparse: BTreeSet<u64>,
    pub text: String,
}
impl Access {
    pub fn u(&mut self, x: usize) {
        self.steps.push(Step::U(x as u64));
    }
    pub fn all(&mut self, v: &View) {
        self.need.insert(v.off);
        for k in &v.kids {
            self.all(k);
        }
    }
}
pub type Steps<'s> = std::slice::Iter<'s, Step>;
pub fn step(s: &mut Steps) -> usize {
    match s.next() {
        Some(Step::U(x)) => *x as usize,
        _ => panic!("harness: access path out of step"),
    }
}

/// Reads everything reachable without knowing what to expect.
pub struct Poke<'g, 't> {
    pub g: &'g mut Gen<'t>,
    pub fuel: usize,
    pub ok: usize,
    pub err: usize,
    /// Set when a stream reports errors without end.
    pub endless: Option<&'static str>,
}
impl<'g, 't> Poke<'g, 't> {
    pub fn new(g: &'g mut Gen<'t>, fuel: usize) -> Self {
        Poke { g, fuel, ok: 0, err: 0, endless: None }
    }
}
/// A stream of errors longer than any file of a case could justify.
pub const ENDLESS: usize = 50_000;
impl Poke<'_, '_> {
    pub fn spend(&mut self) -> bool {
        let r = self.fuel > 0;
        self.fuel = self.fuel.saturating_sub(1);
        r
    }
    pub fn note<T, E>(&mut self, r: Result<T, E>) -> Option<T> {
        match r {
            Ok(x) => {
                self.ok += 1;
                Some(x)
            }
            Err(_) => {
                self.err += 1;
                None
            }
        }
    }
}

pub trait Remote: Val + ParcodeVisitor + ParcodeNative {
    fn to_node(&self, p: &mut Plan, c: Cfg) -> Node;
    fn from_view(v: &View, c: Cfg, x: &mut Expect) -> Res<Self>;
    /// Chunks read to make the lazy handle of this type.
    fn lazy_need(_v: &View, _a: &mut Access) {}
    /// Chooses an access below a handle of this value.
    fn plan(&self, v: &View, c: Cfg, g: &mut Gen, a: &mut Access);
}
pub trait LazyCheck<'a>: Remote + ParcodeLazyRef<'a> {
    fn lazy(&self, l: &<Self as ParcodeLazyRef<'a>>::Lazy, c: Cfg, x: &mut Probe) -> Res;
    /// Follows a chosen access and checks what it yields.
    fn exec(&self, l: &<Self as ParcodeLazyRef<'a>>::Lazy, c: Cfg, s: &mut Steps) -> Res;
    fn poke(l: &<Self as ParcodeLazyRef<'a>>::Lazy, x: &mut Poke);
}

pub trait Item: Val + ParcodeItem + ParcodeVisitor {
    /// Items with a lazy mirror.
    const LAZY: bool = false;
    /// Chunks per item.
    const KIDS: usize = 0;
    fn put(&self, o: &mut Vec<u8>, kids: &mut Vec<Node>, p: &mut Plan);
    fn take(b: &[u8], at: &mut usize, kids: &mut std::slice::Iter<View>, x: &mut Expect) -> Res<Self>;
    /// Lazy item access, for items that have lazy mirrors.
    fn lazy_items<'a>(_p: &ParcodeCollectionPromise<'a, Self>, _m: &[Self], _x: &mut Probe) -> Res {
        Ok(())
    }
    fn item_need(_kids: &[View], _a: &mut Access) {}
    fn item_plan(&self, _kids: &[View], _g: &mut Gen, _a: &mut Access) {}
    fn item_exec<'a>(_p: &ParcodeCollectionPromise<'a, Self>, _i: usize, _how: usize, _m: &[Self], _s: &mut Steps) -> Res {
        Ok(())
    }
    fn poke_items<'a>(_p: &ParcodeCollectionPromise<'a, Self>, _x: &mut Poke) {}
}

pub trait MapVal: Val + ParcodeVisitor {
    const VLAZY: bool = false;
    const VKIDS: usize = 0;
    fn map_kids(&self, _kids: &mut Vec<Node>, _p: &mut Plan) {}
    fn check_kids(&self, _kids: &mut std::slice::Iter<View>, _x: &mut Expect) -> Res {
        Ok(())
    }
    fn lazy_entries<'a, K: Key>(_p: &ParcodeMapPromise<'a, K, Self>, _m: &HashMap<K, Self>, _ks: &[K], _x: &mut Probe) -> Res {
        Ok(())
    }
    fn val_need(_kids: &[View], _a: &mut Access) {}
    fn val_plan(&self, _kids: &[View], _g: &mut Gen, _a: &mut Access) {}
    fn entry_exec<'a, K: Key>(_p: &ParcodeMapPromise<'a, K, Self>, _k: &K, _m: &HashMap<K, Self>, _s: &mut Steps) -> Res {
        Ok(())
    }
    fn poke_entries<'a, K: Key>(_p: &ParcodeMapPromise<'a, K, Self>, _ks: &[K], _x: &mut Poke) {}
}

pub fn er<T, E: std::fmt::Display>(what: &str, r: Result<T, E>) -> Res<T> {
    r.map_err(|e| format!("{what}: {e}"))
}

pub fn eq<T: Val>(what: &str, got: &T, want: &T) -> Res {
    let (a, b) = (got.canon_vec(), want.canon_vec());
    if a != b {
        let at = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
        fail!("{what}: wrong value (canonical forms of {} and {} bytes differ at byte {at})", a.len(), b.len());
    }
    Ok(())
}

macro_rules! prims {
    ($($t:ty),*) => {$(
        impl Remote for $t {
            fn to_node(&self, p: &mut Plan, _c: Cfg) -> Node {
                let mut o = Vec::new();
                enc(self, &mut o);
                Node { payload: o, lz4: p.comp(), kids: vec![] }
            }
            fn from_view(v: &View, c: Cfg, x: &mut Expect) -> Res<Self> {
                x.comp(v, c)?;
                ensure!(v.kids.is_empty(), "primitive chunk with children");
                let mut at = 0;
                let r = dec(&v.payload, &mut at)?;
                ensure!(at == v.payload.len(), "trailing bytes in primitive chunk");
                Ok(r)
            }
            fn plan(&self, v: &View, _c: Cfg, _g: &mut Gen, a: &mut Access) {
                a.all(v);
                a.text.push_str(".load");
            }
        }
        items!($t);
    )*};
}
macro_rules! items {
    ($($t:ty),*) => {$(
        impl Item for $t {
            fn put(&self, o: &mut Vec<u8>, _: &mut Vec<Node>, _: &mut Plan) { enc(self, o); }
            fn take(b: &[u8], at: &mut usize, _: &mut std::slice::Iter<View>, _: &mut Expect) -> Res<Self> { dec(b, at) }
        }
        impl MapVal for $t {}
    )*};
}
macro_rules! lazy_prims {
    ($($t:ty),*) => {$(
        impl<'a> LazyCheck<'a> for $t {
            fn lazy(&self, l: &<Self as ParcodeLazyRef<'a>>::Lazy, _c: Cfg, x: &mut Probe) -> Res {
                x.loads += 1;
                eq("promise load", &er("promise load", l.load())?, self)?;
                eq("promise load again", &er("promise load", l.clone().load())?, self)
            }
            fn exec(&self, l: &<Self as ParcodeLazyRef<'a>>::Lazy, _c: Cfg, _s: &mut Steps) -> Res {
                eq("promise load", &er("promise load", l.load())?, self)
            }
            fn poke(l: &<Self as ParcodeLazyRef<'a>>::Lazy, x: &mut Poke) {
                if x.spend() {
                    x.note(l.load());
                }
            }
        }
    )*};
}
prims!(u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, bool, String, u128, i128);
lazy_prims!(u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, bool, String);

impl<T: Val + ParcodeVisitor> MapVal for Vec<T> {}
impl<K: Key, V: Val + ParcodeVisitor> MapVal for HashMap<K, V> {}

impl<T: Item> Remote for Vec<T> {
    fn to_node(&self, p: &mut Plan, _c: Cfg) -> Node {
        let n = self.len();
        let mut cuts = Vec::new();
        if n > 0 {
            match p.g.below(5) {
                0 => cuts.push(n),
                1 => {
                    // equal shards and a remainder
                    let per = p.g.range(1, n.min(5000));
                    let per = per.max(n / 500).max(1);
                    let mut left = n;
                    while left > 0 {
                        cuts.push(per.min(left));
                        left -= per.min(left);
                    }
                }
                2 => {
                    // few sizes, repeated: several runs
                    let mut left = n;
                    let base = (n / 60).max(1);
                    while left > 0 {
                        let sz = (base + p.g.idx(3)).min(left);
                        for _ in 0..p.g.range(1, 4) {
                            let k = sz.min(left);
                            if k > 0 {
                                cuts.push(k);
                                left -= k;
                            }
                        }
                    }
                }
                3 => {
                    let mut left = n;
                    while left > 0 {
                        let k = p.g.range(1, (n / 4).max(2)).min(left);
                        cuts.push(k);
                        left -= k;
                        if cuts.len() > 80 {
                            cuts.push(left);
                            left = 0;
                        }
                    }
                    cuts.retain(|c| *c > 0);
                }
                _ => {
                    if n <= 300 {
                        cuts = vec![1; n]
                    } else {
                        cuts = vec![1; 10];
                        cuts.push(n - 10)
                    }
                }
            }
        }
        // Shards without items are allowed anywhere.
        if p.g.chance(1, 6) {
            for _ in 0..p.g.range(1, 3) {
                let at = p.g.idx(cuts.len() + 1);
                cuts.insert(at, 0);
            }
        }
        let merge = !p.g.chance(1, 4);
        let mut runs: Vec<(u32, u32)> = Vec::new();
        for c in &cuts {
            match runs.last_mut() {
                Some(r) if r.0 == *c as u32 && merge => r.1 += 1,
                _ => runs.push((*c as u32, 1)),
            }
        }
        p.shards += cuts.len();
        p.multi_run += (runs.len() > 1) as usize;
        let mut payload = (n as u64).to_le_bytes().to_vec();
        enc(&runs, &mut payload);
        let lz4 = p.comp();
        let mut at = 0;
        let kids = cuts
            .iter()
            .map(|c| {
                let part = &self[at..at + c];
                at += c;
                let mut o = Vec::new();
                enc(&(*c as u64), &mut o);
                let mut kids = Vec::new();
                for x in part {
                    x.put(&mut o, &mut kids, p);
                }
                Node { payload: o, lz4: p.comp(), kids }
            })
            .collect();
        Node { payload, lz4, kids }
    }
    fn from_view(v: &View, c: Cfg, x: &mut Expect) -> Res<Self> {
        x.comp(v, c)?;
        ensure!(v.payload.len() >= 9, "vector container payload of {} bytes", v.payload.len());
        let total = u64::from_le_bytes(v.payload[..8].try_into().unwrap());
        let mut at = 8;
        let runs: Vec<(u32, u32)> = dec(&v.payload, &mut at)?;
        ensure!(at == v.payload.len(), "trailing bytes in vector container");
        let sizes: Vec<u32> = runs.iter().flat_map(|r| std::iter::repeat_n(r.0, r.1 as usize)).collect();
        ensure!(sizes.len() == v.kids.len(), "shard table names {} shards, container has {}", sizes.len(), v.kids.len());
        ensure!(sizes.iter().map(|s| *s as u64).sum::<u64>() == total, "shard table does not add up to {total}");
        x.multi_shard += (sizes.len() > 1) as usize;
        x.multi_run += (runs.len() > 1) as usize;
        x.vecs.insert(v.off, (total, sizes.len()));
        let mut out = Vec::with_capacity(total as usize);
        for (s, k) in sizes.iter().zip(&v.kids) {
            x.comp(k, c)?;
            let mut at = 0;
            let n: u64 = dec(&k.payload, &mut at)?;
            ensure!(n == *s as u64, "shard at {} holds {n} items, table says {s}", k.off);
            let mut kids = k.kids.iter();
            for _ in 0..n {
                out.push(T::take(&k.payload, &mut at, &mut kids, x)?);
            }
            ensure!(at == k.payload.len(), "trailing bytes in shard at {}", k.off);
            ensure!(kids.next().is_none(), "shard at {} has children no item owns", k.off);
        }
        Ok(out)
    }
    fn plan(&self, v: &View, _c: Cfg, g: &mut Gen, a: &mut Access) {
        a.need.insert(v.off);
        let n = self.len();
        let starts = shard_starts(v);
        let kind = if n == 0 { 0 } else { g.idx(if T::LAZY { 8 } else { 5 }) };
        a.u(kind);
        // Loading and lazy streams look at all shards up front.
        if kind != 0 && kind != 6 {
            a.sparse.insert(v.off);
        }
        a.text.push_str(&format!(".vec{n}#{}", v.kids.len()));
        match kind {
            0 => {
                a.all(v);
                a.text.push_str(".load");
            }
            1 => a.text.push_str(".len"),
            // eager item
            2 | 3 => {
                let i = g.idx(n);
                a.u(i);
                a.all(&v.kids[shard_of(&starts, i)]);
                a.text.push_str(&format!(".get({i})"));
            }
            // a prefix of the stream
            4 => {
                let k = if g.flag() { g.idx(n + 1) } else { g.idx(n.min(20) + 1) };
                a.u(k);
                if k > 0 {
                    for s in 0..=shard_of(&starts, k - 1) {
                        a.all(&v.kids[s]);
                    }
                }
                a.text.push_str(&format!(".iter.take({k})"));
            }
            _ => {
                let how = g.idx(3);
                let i = match (kind, how) {
                    (7, 0) => 0,
                    (7, _) => n - 1,
                    _ => g.idx(n),
                };
                a.u(i);
                a.u(how);
                let s = shard_of(&starts, i);
                // Items up to the wanted one are stepped over in the shard; a lazy stream passes
                // through the shards before.
                let from = if kind == 6 { 0 } else { s };
                for k in &v.kids[from..=s] {
                    a.need.insert(k.off);
                    for c in k.kids.chunks(T::KIDS.max(1)) {
                        T::item_need(c, a);
                    }
                }
                a.text.push_str(&format!(".{}({i})", match kind { 5 => "get_lazy", 6 => "iter_lazy", _ => "first/last" }));
                let at = (i - starts[s]) * T::KIDS;
                self[i].item_plan(&v.kids[s].kids[at..at + T::KIDS], g, a);
            }
        }
    }
}

/// First item of each shard, and the total.
pub fn shard_starts(v: &View) -> Vec<usize> {
    let mut at = 8;
    let runs: Vec<(u32, u32)> = dec(&v.payload, &mut at).unwrap_or_default();
    let mut out = vec![0];
    for r in runs {
        for _ in 0..r.1 {
            out.push(out[out.len() - 1] + r.0 as usize);
        }
    }
    out
}
pub fn shard_of(starts: &[usize], i: usize) -> usize {
    starts.partition_point(|s| *s <= i) - 1
}

pub fn key_hash<K: Key>(k: &K) -> u64 {
    let mut h = twox_hash::XxHash64::with_seed(0);
    k.hash(&mut h);
    h.finish()
}

impl<K: Key, V: MapVal> Remote for HashMap<K, V> {
    fn to_node(&self, p: &mut Plan, c: Cfg) -> Node {
        let lz4 = p.comp();
        if !c.is_map {
            let mut o = Vec::new();
            enc(self, &mut o);
            if self.is_empty() && p.g.flag() {
                o = vec![0; 4];
            }
            return Node { payload: o, lz4, kids: vec![] };
        }
        let n = if self.is_empty() { 0 } else {
            match p.g.below(4) {
                0 => 1,
                1 => p.g.range(1, self.len().min(40) + 3),
                2 => p.g.range(1, 8),
                _ => (self.len() / 7).clamp(1, 300),
            }
        };
        p.shards += n;
        // Entry order within a bucket is free; take a canonical one so that replays agree.
        let mut es: Vec<(&K, &V)> = self.iter().collect();
        es.sort_by_cached_key(|e| e.0.canon_vec());
        if p.g.flag() {
            es.reverse();
        }
        let mut buckets: Vec<Vec<(&K, &V)>> = vec![vec![]; n];
        for e in es {
            buckets[(key_hash(e.0) % n as u64) as usize].push(e);
        }
        let kids = buckets
            .iter()
            .map(|b| {
                let mut kids = Vec::new();
                let mut o = Vec::new();
                if !b.is_empty() {
                    let (mut hs, mut os, mut blob) = (vec![], vec![], vec![]);
                    for (k, v) in b {
                        hs.extend_from_slice(&key_hash(*k).to_le_bytes());
                        os.extend_from_slice(&(blob.len() as u32).to_le_bytes());
                        enc(*k, &mut blob);
                        enc(*v, &mut blob);
                        v.map_kids(&mut kids, p);
                    }
                    o.extend_from_slice(&(b.len() as u32).to_le_bytes());
                    o.extend_from_slice(&[0; 4]);
                    o.extend_from_slice(&hs);
                    o.extend_from_slice(&os);
                    o.extend_from_slice(&blob);
                }
                Node { payload: o, lz4: p.comp(), kids }
            })
            .collect();
        Node { payload: (n as u32).to_le_bytes().to_vec(), lz4, kids }
    }
    fn from_view(v: &View, c: Cfg, x: &mut Expect) -> Res<Self> {
        x.comp(v, c)?;
        let mut m = HashMap::new();
        if !c.is_map {
            ensure!(v.kids.is_empty(), "blob map with children");
            if v.payload == [0; 4] {
                return Ok(m);
            }
            let mut at = 0;
            m = dec(&v.payload, &mut at)?;
            ensure!(at == v.payload.len(), "trailing bytes in blob map");
            return Ok(m);
        }
        ensure!(v.payload.len() == 4, "map container payload of {} bytes", v.payload.len());
        let n = u32::from_le_bytes(v.payload[..4].try_into().unwrap());
        ensure!(n as usize == v.kids.len(), "map container says {n} buckets, has {}", v.kids.len());
        x.buckets += n as usize;
        x.maps.insert(v.off, n);
        for (i, b) in v.kids.iter().enumerate() {
            x.comp(b, c)?;
            let d = &b.payload;
            if d.is_empty() {
                ensure!(b.kids.is_empty(), "empty bucket with children");
                continue;
            }
            ensure!(d.len() >= 8, "bucket payload of {} bytes", d.len());
            let cnt = u32::from_le_bytes(d[..4].try_into().unwrap()) as usize;
            ensure!(d[4..8] == [0; 4], "bucket padding is not zero");
            let blob = 8 + 12 * cnt;
            ensure!(d.len() >= blob && cnt > 0, "bucket of {cnt} entries in {} bytes", d.len());
            let mut end = 0;
            let mut kids = b.kids.iter();
            for e in 0..cnt {
                let h = u64::from_le_bytes(d[8 + 8 * e..16 + 8 * e].try_into().unwrap());
                let o = u32::from_le_bytes(d[8 + 8 * cnt + 4 * e..12 + 8 * cnt + 4 * e].try_into().unwrap()) as usize;
                ensure!(o == end, "entry {e} at {o}, previous ended at {end}");
                let mut at = blob + o;
                let k: K = dec(d, &mut at)?;
                let val: V = dec(d, &mut at)?;
                end = at - blob;
                ensure!(h == key_hash(&k), "stored hash is not the hash of the key");
                ensure!((h % n as u64) as usize == i, "entry lies in bucket {i}, its hash selects {}", h % n as u64);
                val.check_kids(&mut kids, x)?;
                ensure!(m.insert(k, val).is_none(), "duplicate key");
            }
            ensure!(blob + end == d.len(), "trailing bytes in bucket");
            ensure!(kids.next().is_none(), "bucket has children no entry owns");
        }
        Ok(m)
    }
    fn plan(&self, v: &View, c: Cfg, g: &mut Gen, a: &mut Access) {
        a.need.insert(v.off);
        let lazy = c.is_map && V::VLAZY;
        let kind = g.idx(if lazy { 6 } else { 3 });
        a.u(kind);
        a.text.push_str(&format!(".map{}#{}", self.len(), v.kids.len()));
        if kind == 0 {
            a.all(v);
            a.text.push_str(".load");
            return;
        }
        a.sparse.insert(v.off);
        let mut keys: Vec<(Vec<u8>, &K)> = self.keys().map(|k| (k.canon_vec(), k)).collect();
        keys.sort_by(|a, b| a.0.cmp(&b.0));
        let k: K = if keys.is_empty() || g.chance(1, 4) {
            absent_keys(self, g, 3).into_iter().next().unwrap_or_else(|| K::gen_(g))
        } else {
            keys[g.idx(keys.len())].1.clone()
        };
        let bucket = if c.is_map && !v.kids.is_empty() { Some(&v.kids[(key_hash(&k) % v.kids.len() as u64) as usize]) } else { None };
        if kind <= 2 {
            if let Some(b) = bucket {
                a.all(b);
            }
            a.text.push_str(&format!(".get({})", self.contains_key(&k)));
            a.steps.push(Step::Key(Box::new(k)));
            return;
        }
        a.text.push_str(&format!(".get_lazy({})", self.contains_key(&k)));
        a.steps.push(Step::Key(Box::new(k.clone())));
        if let Some(b) = bucket {
            a.need.insert(b.off);
            for c in b.kids.chunks(V::VKIDS.max(1)) {
                V::val_need(c, a);
            }
            if let Some(val) = self.get(&k) {
                // position of the entry in its bucket
                let cnt = u32::from_le_bytes(b.payload[..4].try_into().unwrap()) as usize;
                let blob = 8 + 12 * cnt;
                let pos = (0..cnt).find(|e| {
                    let o = u32::from_le_bytes(b.payload[8 + 8 * cnt + 4 * e..12 + 8 * cnt + 4 * e].try_into().unwrap()) as usize;
                    let mut at = blob + o;
                    dec::<K>(&b.payload, &mut at).is_ok_and(|x| x == k)
                });
                if let Some(e) = pos {
                    val.val_plan(&b.kids[e * V::VKIDS..(e + 1) * V::VKIDS], g, a);
                }
            }
        }
    }
}

impl<'a, T: Item> LazyCheck<'a> for Vec<T> {
    fn lazy(&self, l: &ParcodeCollectionPromise<'a, T>, _c: Cfg, x: &mut Probe) -> Res {
        x.loads += 1;
        eq("collection load", &er("collection load", l.load())?, self)?;
        check_vec(l, self, x)
    }
    fn exec(&self, l: &ParcodeCollectionPromise<'a, T>, _c: Cfg, s: &mut Steps) -> Res {
        let kind = step(s);
        match kind {
            0 => eq("collection load", &er("collection load", l.load())?, self),
            1 => {
                ensure!(l.len() == self.len() && l.is_empty() == self.is_empty(), "len() is {}, vector has {}", l.len(), self.len());
                Ok(())
            }
            2 | 3 => {
                let i = step(s);
                eq("get", &er(&format!("get({i}) of {}", self.len()), l.get(i))?, &self[i])
            }
            4 => {
                let k = step(s);
                let mut it = er("iter()", l.iter())?;
                for (i, want) in self.iter().take(k).enumerate() {
                    match it.next() {
                        Some(r) => eq(&format!("iter() item {i}"), &er("iter() item", r)?, want)?,
                        None => fail!("iter() ended after {i} of {} items", self.len()),
                    }
                }
                Ok(())
            }
            _ => {
                let i = step(s);
                let how = step(s);
                T::item_exec(l, i, kind * 10 + how, self, s)
            }
        }
    }
    fn poke(l: &ParcodeCollectionPromise<'a, T>, x: &mut Poke) {
        if !x.spend() {
            return;
        }
        x.note(l.load());
        let n = l.len();
        let _ = l.is_empty();
        for i in [0, 1, n / 2, n.wrapping_sub(1), n, x.g.u() as usize, x.g.idx(300)] {
            x.note(l.get(i));
        }
        if let Some(it) = x.note(l.iter()) {
            let mut bad = 0;
            let _ = it.size_hint();
            for r in it.take(2 * ENDLESS) {
                bad += x.note(r).is_none() as usize;
                if bad > ENDLESS {
                    x.endless = Some("iter()");
                    break;
                }
            }
        }
        T::poke_items(l, x);
    }
}

/// Indices worth asking for: ends, shard-arithmetic neighbours, random ones.
pub fn indices(n: usize, g: &mut Gen, k: usize) -> Vec<usize> {
    let mut v = Vec::new();
    if n == 0 {
        return v;
    }
    v.push(0);
    v.push(n - 1);
    v.push(n / 2);
    for _ in 0..k {
        v.push(g.idx(n));
    }
    v.sort();
    v.dedup();
    v
}

pub fn check_vec<'a, T: Item>(l: &ParcodeCollectionPromise<'a, T>, m: &[T], x: &mut Probe) -> Res {
    let n = m.len();
    ensure!(l.len() == n, "len() is {}, vector has {n}", l.len());
    ensure!(l.is_empty() == (n == 0), "is_empty() is {} for {n} items", l.is_empty());
    if x.fuel == 0 {
        return Ok(());
    }
    x.fuel -= 1;
    let k = if x.nth == 0 { 2 } else { 6 };
    for i in indices(n, x.g, k) {
        x.loads += 1;
        eq(&format!("get({i}) of {n}"), &er(&format!("get({i}) of {n}"), l.get(i))?, &m[i])?;
    }
    let far = n.saturating_add(1 + x.g.idx(70_000));
    for i in [n, n + 1, far, u32::MAX as usize, usize::MAX / 2, usize::MAX] {
        if i >= n {
            ensure!(l.get(i).is_err(), "get({i}) of {n} items returned an item");
        }
    }
    // Streaming: all items in order, then the end. A partial pass first.
    let part = x.g.idx(n + 1);
    let mut it = er("iter()", l.iter())?;
    for (i, want) in m.iter().take(part).enumerate() {
        match it.next() {
            Some(r) => eq(&format!("iter() item {i}"), &er("iter() item", r)?, want)?,
            None => fail!("iter() ended after {i} of {n} items"),
        }
    }
    drop(it);
    let mut it = er("iter()", l.iter())?;
    for (i, want) in m.iter().enumerate() {
        match it.next() {
            Some(r) => eq(&format!("iter() item {i}"), &er("iter() item", r)?, want)?,
            None => fail!("iter() ended after {i} of {n} items"),
        }
    }
    for _ in 0..3 {
        ensure!(it.next().is_none(), "iter() goes on after {n} items");
    }
    T::lazy_items(l, m, x)
}

/// Lazy item access for items with a mirror; called from the generated `Item` impls.
pub fn check_lazy_items<'a, T>(l: &ParcodeCollectionPromise<'a, T>, m: &[T], x: &mut Probe) -> Res
where
    T: Item + LazyCheck<'a>,
{
    let n = m.len();
    match (er("first()", l.first())?, m.first()) {
        (None, None) => {}
        (Some(f), Some(w)) => w.lazy(&f, Cfg::default(), x).map_err(|e| format!("first(): {e}"))?,
        (f, _) => fail!("first() is {} for {n} items", if f.is_some() { "some item" } else { "none" }),
    }
    match (er("last()", l.last())?, m.last()) {
        (None, None) => {}
        (Some(f), Some(w)) => w.lazy(&f, Cfg::default(), x).map_err(|e| format!("last(): {e}"))?,
        (f, _) => fail!("last() is {} for {n} items", if f.is_some() { "some item" } else { "none" }),
    }
    for i in indices(n, x.g, 2) {
        let f = er(&format!("get_lazy({i}) of {n}"), l.get_lazy(i))?;
        m[i].lazy(&f, Cfg::default(), x).map_err(|e| format!("get_lazy({i}) of {n}: {e}"))?;
    }
    for i in [n, n.saturating_add(1 + x.g.idx(5000)), u32::MAX as usize + 1, usize::MAX] {
        ensure!(l.get_lazy(i).is_err(), "get_lazy({i}) of {n} items returned an item");
    }
    let mut it = er("iter_lazy()", l.iter_lazy())?;
    // Checking every remote of every item is too slow for long vectors: thin it out.
    let every = if n <= 40 { 1 } else { 1 + n / 25 };
    let skip = x.g.idx(every);
    for (i, want) in m.iter().enumerate() {
        ensure!(it.len() == n - i && it.size_hint() == (n - i, Some(n - i)), "iter_lazy() reports {} left after {i} of {n}", it.len());
        match it.next() {
            Some(r) => {
                let f = er(&format!("iter_lazy() item {i}"), r)?;
                if i % every == skip || i + 1 == n {
                    want.lazy(&f, Cfg::default(), x).map_err(|e| format!("iter_lazy() item {i} of {n}: {e}"))?
                } else {
                    x.loads += 1;
                }
            }
            None => fail!("iter_lazy() ended after {i} of {n} items"),
        }
    }
    ensure!(it.len() == 0, "iter_lazy() reports {} left at the end", it.len());
    for _ in 0..3 {
        ensure!(it.next().is_none(), "iter_lazy() goes on after {n} items");
    }
    Ok(())
}

impl<'a, K: Key, V: MapVal> LazyCheck<'a> for HashMap<K, V>
where
    HashMap<K, V>: ParcodeLazyRef<'a, Lazy = ParcodeMapPromise<'a, K, V>>,
{
    fn lazy(&self, l: &ParcodeMapPromise<'a, K, V>, c: Cfg, x: &mut Probe) -> Res {
        x.loads += 1;
        eq("map load", &er("map load", l.load())?, self)?;
        check_map(l, self, c, x)
    }
    fn exec(&self, l: &ParcodeMapPromise<'a, K, V>, _c: Cfg, s: &mut Steps) -> Res {
        let kind = step(s);
        if kind == 0 {
            return eq("map load", &er("map load", l.load())?, self);
        }
        let Some(Step::Key(k)) = s.next() else { panic!("harness: access path out of step") };
        let k: &K = k.downcast_ref().expect("harness: key type");
        if kind <= 2 {
            return match (er("map get", l.get(k))?, self.get(k)) {
                (None, None) => Ok(()),
                (Some(v), Some(w)) => eq("map get", &v, w),
                (v, _) => Err(format!("map get: {} ({} entries)", if v.is_some() { "absent key found" } else { "present key not found" }, self.len())),
            };
        }
        V::entry_exec(l, k, self, s)
    }
    fn poke(l: &ParcodeMapPromise<'a, K, V>, x: &mut Poke) {
        if !x.spend() {
            return;
        }
        let m = x.note(l.load());
        let mut ks: Vec<K> = (0..3).map(|_| K::gen_(x.g)).collect();
        if let Some(m) = m {
            let mut have: Vec<K> = m.into_keys().collect();
            have.sort_by_cached_key(|k| k.canon_vec());
            have.truncate(5);
            ks.extend(have);
        }
        for k in &ks {
            x.note(l.get(k));
        }
        V::poke_entries(l, &ks, x);
    }
}

pub fn absent_keys<K: Key, V>(m: &HashMap<K, V>, g: &mut Gen, k: usize) -> Vec<K> {
    let mut out = Vec::new();
    let mut some: Vec<&K> = m.keys().take(64).collect();
    some.sort_by_cached_key(|k| k.canon_vec());
    for _ in 0..k {
        let c = if some.is_empty() || g.flag() { Some(K::gen_(g)) } else { g.pick(&some).near(g) };
        if let Some(c) = c
            && !m.contains_key(&c)
        {
            out.push(c);
        }
    }
    out
}

pub fn check_map<'a, K: Key, V: MapVal>(l: &ParcodeMapPromise<'a, K, V>, m: &HashMap<K, V>, c: Cfg, x: &mut Probe) -> Res {
    if x.fuel == 0 {
        return Ok(());
    }
    x.fuel -= 1;
    let mut keys: Vec<(Vec<u8>, &K)> = m.keys().map(|k| (k.canon_vec(), k)).collect();
    keys.sort_by(|a, b| a.0.cmp(&b.0));
    let limit = if x.nth == 0 { 60 } else { 150 };
    let step = 1 + keys.len() / limit;
    let off = x.g.idx(step);
    let present: Vec<K> = keys.iter().skip(off).step_by(step).map(|k| k.1.clone()).collect();
    for k in &present {
        x.loads += 1;
        match er("map get", l.get(k))? {
            Some(v) => eq("map get", &v, &m[k])?,
            None => fail!("map get: present key not found ({} entries)", m.len()),
        }
    }
    let absent = absent_keys(m, x.g, 12);
    for k in &absent {
        if er("map get of an absent key", l.get(k))?.is_some() {
            fail!("map get: absent key found ({} entries)", m.len());
        }
    }
    let mut ks: Vec<K> = present.into_iter().take(25).collect();
    ks.extend(absent);
    x.blob = !c.is_map;
    V::lazy_entries(l, m, &ks, x)
}

/// Lazy map lookups; called from the generated `MapVal` impls (maps with the `map` attribute).
pub fn check_lazy_entries<'a, K: Key, V>(l: &ParcodeMapPromise<'a, K, V>, m: &HashMap<K, V>, ks: &[K], x: &mut Probe) -> Res
where
    V: MapVal + Item + LazyCheck<'a>,
{
    let blob = std::mem::take(&mut x.blob);
    for k in ks {
        let r = l.get_lazy(k);
        if blob && V::VKIDS > 0 {
            // A map in one blob has no chunks for the remote fields of its values.
            if r.is_ok_and(|f| f.is_some() != m.contains_key(k)) {
                fail!("map get_lazy: wrong answer for a key of a blob");
            }
            continue;
        }
        match (er("map get_lazy", r)?, m.get(k)) {
            (None, None) => {}
            (Some(f), Some(w)) => w.lazy(&f, Cfg::default(), x).map_err(|e| format!("map get_lazy: {e}"))?,
            (None, Some(_)) => fail!("map get_lazy: present key not found ({} entries)", m.len()),
            (Some(_), None) => fail!("map get_lazy: absent key found"),
        }
    }
    Ok(())
}

pub fn exec_item<'a, T>(l: &ParcodeCollectionPromise<'a, T>, i: usize, how: usize, m: &[T], s: &mut Steps) -> Res
where
    T: Item + LazyCheck<'a>,
{
    let n = m.len();
    let f = match how / 10 {
        5 => er(&format!("get_lazy({i}) of {n}"), l.get_lazy(i))?,
        6 => {
            let mut it = er("iter_lazy()", l.iter_lazy())?;
            // Skipping must not matter: sometimes by nth, sometimes by hand.
            let r = if how % 10 == 0 {
                it.nth(i)
            } else {
                for j in 0..i {
                    match it.next() {
                        Some(r) => drop(er("iter_lazy() item", r)?),
                        None => fail!("iter_lazy() ended after {j} of {n} items"),
                    }
                }
                it.next()
            };
            match r {
                Some(r) => er(&format!("iter_lazy() item {i} of {n}"), r)?,
                None => fail!("iter_lazy() ended before item {i} of {n}"),
            }
        }
        _ => match er("first()/last()", if i == 0 { l.first() } else { l.last() })? {
            Some(f) => f,
            None => fail!("first()/last() is none for {n} items"),
        },
    };
    m[i].exec(&f, Cfg::default(), s).map_err(|e| format!("item {i} of {n}: {e}"))
}

pub fn exec_entry<'a, K: Key, V>(l: &ParcodeMapPromise<'a, K, V>, k: &K, m: &HashMap<K, V>, s: &mut Steps) -> Res
where
    V: MapVal + Item + LazyCheck<'a>,
{
    match (er("map get_lazy", l.get_lazy(k))?, m.get(k)) {
        (None, None) => Ok(()),
        (Some(f), Some(w)) => w.exec(&f, Cfg::default(), s).map_err(|e| format!("map get_lazy: {e}")),
        (f, _) => Err(format!("map get_lazy: {} ({} entries)", if f.is_some() { "absent key found" } else { "present key not found" }, m.len())),
    }
}

pub fn poke_lazy_items<'a, T>(l: &ParcodeCollectionPromise<'a, T>, x: &mut Poke)
where
    T: Item + LazyCheck<'a>,
{
    for f in [l.first(), l.last()] {
        if let Some(Some(f)) = x.note(f) {
            T::poke(&f, x);
        }
    }
    for i in [x.g.idx(20), x.g.u() as usize] {
        if let Some(f) = x.note(l.get_lazy(i)) {
            T::poke(&f, x);
        }
    }
    if let Some(mut it) = x.note(l.iter_lazy()) {
        let mut bad = 0;
        for k in 0..2 * ENDLESS {
            let _ = (it.len(), it.size_hint());
            match it.next() {
                None => break,
                Some(r) => match x.note(r) {
                    Some(f) => {
                        if x.fuel > 0 && k < 40 {
                            T::poke(&f, x)
                        }
                    }
                    None => {
                        bad += 1;
                        if bad > ENDLESS {
                            x.endless = Some("iter_lazy()");
                            break;
                        }
                    }
                },
            }
        }
    }
}

pub fn poke_lazy_entries<'a, K: Key, V>(l: &ParcodeMapPromise<'a, K, V>, ks: &[K], x: &mut Poke)
where
    V: MapVal + Item + LazyCheck<'a>,
{
    for k in ks {
        if let Some(Some(f)) = x.note(l.get_lazy(k)) {
            V::poke(&f, x);
        }
    }
}
