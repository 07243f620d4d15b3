//! C18: peak heap of opening, lazy access and streaming, against the size of the shards involved.
use crate::alloc;
use crate::checks::POOLS;
use crate::dynty::*;
use crate::layout::{self, Res, View, ensure, fail};
use crate::model::*;
use crate::run::{Env, St};
use crate::schemas::*;
use crate::tape::Gen;
use parcode::{Parcode, ParcodeCollectionPromise, ParcodeItem, ParcodeMapPromise};
use std::collections::HashMap;
use std::sync::atomic::Ordering::*;

/// Fixed cost of any access.
const SLACK: i64 = 128 << 10;
/// What may stay behind after everything is dropped (pool and thread bookkeeping).
const RESIDUE: i64 = 64 << 10;
/// Memory of one chunk reference held in a list.
const REF: i64 = 96;

/// What a vector or map costs to touch.
struct Cost {
    /// Decoding the largest shard or bucket whole.
    shard: i64,
    /// The payload of the largest shard alone.
    payload: i64,
    /// References and counts of the container.
    table: i64,
    /// Everything.
    total: i64,
}
fn subtree(v: &View) -> i64 {
    v.payload.len() as i64 + v.kids.len() as i64 * REF + v.kids.iter().map(subtree).sum::<i64>()
}
fn cost(v: &View, item: usize, heap: i64, count: fn(&View) -> u64) -> Cost {
    let mut c = Cost { shard: 0, payload: 0, table: 2 * (v.kids.len() as i64 * REF + v.payload.len() as i64), total: 0 };
    for k in &v.kids {
        let decoded = count(k) as i64 * item as i64 + heap * subtree(k);
        c.shard = c.shard.max(4 * (decoded + k.payload.len() as i64) + 4 * REF * k.kids.len() as i64);
        c.payload = c.payload.max(4 * k.payload.len() as i64 + 4 * REF * k.kids.len() as i64);
        c.total += decoded;
    }
    c
}
fn items_in(v: &View) -> u64 {
    let mut at = 0;
    dec::<u64>(&v.payload, &mut at).unwrap_or(0)
}
fn entries_in(v: &View) -> u64 {
    v.payload.get(..4).map_or(0, |b| u32::from_le_bytes(b.try_into().unwrap()) as u64)
}

struct Meter<'s> {
    st: &'s mut St,
    base: i64,
}
impl Meter<'_> {
    /// Runs an access that may need `bound` bytes of heap at a time.
    fn run<R>(&mut self, what: &str, bound: i64, total: i64, f: impl FnOnce() -> Res<R>) -> Res<R> {
        let at = alloc::reset_peak();
        let r = f().map_err(|e| format!("{what}: {e}"))?;
        let used = alloc::peak() - at;
        ensure!(used <= bound, "{what} needs {used} bytes of memory at a time, {bound} would do{}", if total > 0 { format!("; all the data is about {total} bytes") } else { String::new() });
        self.st.sum("accesses measured", 1);
        if total >= 4 * bound {
            self.st.sum("accesses to less than a quarter of the data", 1);
            self.st.nontrivial = true;
        }
        Ok(r)
    }
    /// After everything of an access is dropped.
    fn released(&mut self, what: &str) -> Res {
        let left = alloc::live() - self.base;
        ensure!(left <= RESIDUE, "{what}: {left} bytes are still allocated after everything was dropped");
        Ok(())
    }
}

fn vector<T: ParcodeItem>(
    name: &str,
    p: &ParcodeCollectionPromise<'_, T>,
    m: &[T],
    same: fn(&T, &T) -> bool,
    c: &Cost,
    g: &mut Gen,
    x: &mut Meter,
) -> Res {
    let n = m.len();
    let bound = c.shard + c.table + SLACK;
    for _ in 0..g.range(1, 3) {
        match g.below(3) {
            0 => {
                for _ in 0..g.range(1, 12) {
                    let i = g.idx(n + 1);
                    let r = x.run(&format!("{name}.get({i}) of {n}"), bound, c.total, || Ok(p.get(i)))?;
                    match (&r, m.get(i)) {
                        (Ok(a), Some(b)) => ensure!(same(a, b), "{name}.get({i}): another item"),
                        (Err(_), None) => {}
                        _ => fail!("{name}.get({i}) of {n}: {:?}", r.as_ref().err()),
                    }
                }
            }
            1 => {
                let stop = if g.chance(1, 4) { g.idx(n + 1) } else { n };
                let mut it = Some(x.run(&format!("{name}.iter()"), bound, c.total, || er("iter()", p.iter()))?);
                x.run(&format!("streaming {stop} of {n} items of {name}"), bound, c.total, || {
                    let it = it.as_mut().unwrap();
                    for (k, w) in m[..stop].iter().enumerate() {
                        match it.next() {
                            Some(Ok(v)) => ensure!(same(&v, w), "another item at {k}"),
                            Some(Err(e)) => fail!("item {k}: {e}"),
                            None => fail!("ends after {k} items"),
                        }
                    }
                    ensure!(stop < n || it.next().is_none(), "does not end");
                    Ok(())
                })?;
                drop(it);
            }
            _ => {
                x.run(&format!("{name}.len()"), c.table + SLACK, c.total, || {
                    for _ in 0..20 {
                        ensure!(p.len() == n && p.is_empty() == (n == 0), "another length");
                    }
                    Ok(())
                })?;
            }
        }
        x.released(name)?;
    }
    Ok(())
}

fn lazy_items(p: &ParcodeCollectionPromise<'_, Parcel>, m: &[Parcel], v: &View, c: &Cost, g: &mut Gen, x: &mut Meter) -> Res {
    let n = m.len();
    let bound = c.payload + c.table + SLACK;
    let blobs = v.kids.iter().flat_map(|s| s.kids.iter().map(subtree)).max().unwrap_or(0);
    let mut s = g.sub();
    match g.below(3) {
        0 => {
            for _ in 0..g.range(1, 12) {
                let i = g.idx(n.max(1));
                let l = x.run(&format!("items.get_lazy({i}) of {n}"), bound, c.total, || Ok(p.get_lazy(i)))?;
                match (l, m.get(i)) {
                    (Ok(l), Some(w)) => {
                        ensure!(l.id == w.id && l.name == w.name, "items.get_lazy({i}): another item");
                        if s.flag() {
                            let b = x.run("loading one field of one item", 6 * blobs + SLACK, c.total, || er("load()", l.blob.load()))?;
                            ensure!(b == w.blob, "items.get_lazy({i}).blob: another value");
                        }
                    }
                    (Err(_), None) => {}
                    (l, _) => fail!("items.get_lazy({i}) of {n}: {:?}", l.err()),
                }
            }
        }
        1 => {
            let mut it = Some(x.run("items.iter_lazy()", bound, c.total, || er("iter_lazy()", p.iter_lazy()))?);
            let load = s.chance(1, 3);
            x.run(&format!("streaming {n} lazy items"), bound + if load { 6 * blobs } else { 0 }, c.total, || {
                let it = it.as_mut().unwrap();
                for (k, w) in m.iter().enumerate() {
                    match it.next() {
                        Some(Ok(v)) => {
                            ensure!(v.id == w.id && v.name == w.name, "another item at {k}");
                            if load && k % 64 == 7 {
                                ensure!(er("load()", v.blob.load())? == w.blob, "another blob at {k}");
                            }
                        }
                        Some(Err(e)) => fail!("item {k}: {e}"),
                        None => fail!("ends after {k} items"),
                    }
                }
                ensure!(it.next().is_none(), "does not end");
                Ok(())
            })?;
            drop(it);
        }
        _ => {
            x.run("items.first() and last()", 2 * bound, c.total, || {
                let (a, b) = (er("first()", p.first())?, er("last()", p.last())?);
                ensure!(a.map(|a| a.id) == m.first().map(|a| a.id) && b.map(|a| a.id) == m.last().map(|a| a.id), "another item");
                Ok(())
            })?;
        }
    }
    x.released("lazy items")
}

fn map<'a, V: serde::de::DeserializeOwned>(name: &str, p: &ParcodeMapPromise<'a, u32, V>, m: &HashMap<u32, V>, same: fn(&V, &V) -> bool, c: &Cost, g: &mut Gen, x: &mut Meter) -> Res {
    let n = m.len() as u32;
    for _ in 0..g.range(1, 20) {
        let k = g.below(n as u64 + 3) as u32;
        let r = x.run(&format!("{name}.get({k}) of {n}"), c.shard + c.table + SLACK, c.total, || er("get", p.get(&k)))?;
        ensure!(r.is_some() == m.contains_key(&k) && r.is_none_or(|r| same(&r, &m[&k])), "{name}.get({k}): another value");
    }
    x.released(name)
}

fn hoard(g: &mut Gen, st: &mut St) -> Hoard {
    let size = g.range(2 << 20, 12 << 20);
    let mut h = Hoard { note: "n".into(), nums: vec![], texts: vec![], items: vec![], index: HashMap::new(), drawer: HashMap::new(), bulk: vec![] };
    let small = |g: &mut Gen| if g.flag() { 0 } else { g.range(1, 60_000) };
    let big = g.below(6);
    let mut amount = [0usize; 6];
    for (i, a) in amount.iter_mut().enumerate() {
        *a = if i as u64 == big { size } else { small(g) };
    }
    let bytes = |s: &mut Gen, n: usize| -> Vec<u8> {
        let mut v = vec![0u8; n];
        let mut w = s.u();
        for c in v.chunks_mut(8) {
            w = w.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let b = (w >> 7).to_le_bytes();
            let l = c.len();
            c.copy_from_slice(&b[..l]);
        }
        v
    };
    let text = |s: &mut Gen, n: usize| -> String { bytes(s, n).iter().map(|b| (b'a' + b % 26) as char).collect() };
    let mut s = g.sub();
    let wide = g.flag();
    h.nums = (0..amount[0] / 8).map(|i| if wide { s.u() } else { i as u64 & 127 }).collect();
    let len = *g.pick(&[4usize, 30, 300, 3000]);
    h.texts = (0..amount[1] / len).map(|_| text(&mut s, len)).collect();
    let len = *g.pick(&[60usize, 300, 3000, 30_000]);
    let parcel = |s: &mut Gen, id: u32| -> Parcel {
        let n = s.idx(len);
        Parcel { id, blob: bytes(s, n), name: if s.chance(1, 8) { text(s, 50) } else { String::new() } }
    };
    h.items = (0..amount[2] / (len + 200)).map(|i| parcel(&mut s, i as u32)).collect();
    let n = len.min(2000);
    h.index = (0..amount[3] / n).map(|i| (i as u32, bytes(&mut s, n))).collect();
    h.drawer = (0..amount[4] / (2 * len + 200)).map(|i| (i as u32, parcel(&mut s, i as u32))).collect();
    h.bulk = if g.flag() { bytes(&mut s, amount[5]) } else { vec![5; amount[5]] };
    st.class(["numbers", "strings", "items with fields of their own", "map", "map of items with fields of their own", "bytes"][big as usize]);
    st.say(format!("{size} bytes mostly of field {big}"));
    h
}

pub fn c18(env: &Env, g: &mut Gen, st: &mut St) -> Res {
    alloc::COUNTING.store(true, SeqCst);
    let h = hoard(g, st);
    let path = env.path("hoard.par");
    let pool = env.pool(*g.pick(POOLS));
    pool.install(|| rayon::join(|| (), || ()));
    let bytes = if g.chance(2, 3) {
        let w = Wr::gen_(g);
        st.class("written by the library");
        er("write", pool.install(|| write_bytes(w, &path, &h)))?
    } else {
        st.class("foreign layout");
        let lz4 = g.below(3);
        let mut s = g.sub();
        let mut plan = Plan { g: &mut s, lz4, shards: 0, multi_run: 0 };
        let node = h.to_node(&mut plan, Cfg::default());
        layout::assemble(&node, g)
    };
    st.digest(&bytes[..bytes.len().min(4096)]);
    let root = layout::parse(&bytes)?.root;
    let size = bytes.len() as i64;
    std::fs::write(&path, &bytes).expect("harness: scratch file");
    drop(bytes);
    let k = &root.kids;
    ensure!(k.len() == 6, "a root of {} children", k.len());
    let costs = [
        cost(&k[0], 8, 0, items_in),
        cost(&k[1], size_of::<String>(), 2, items_in),
        cost(&k[2], size_of::<Parcel>(), 2, items_in),
        cost(&k[3], 16, 1, entries_in),
        cost(&k[4], 16, 1, entries_in),
        cost(&k[5], 1, 0, items_in),
    ];
    let start = alloc::live();
    let mut x = Meter { base: start, st };
    // open
    let f = x.run("open(path)", SLACK, 0, || er("open", Parcode::open(&path)))?;
    x.run("opening the file 20 times", 20 * 2048 + SLACK, 0, || {
        let v: Vec<_> = (0..20).map(|_| Parcode::open(&path)).collect();
        ensure!(v.iter().all(|f| f.is_ok()), "open fails");
        Ok(())
    })?;
    x.released("open files")?;
    x.base = alloc::live();
    let l = x.run("root()", SLACK, 0, || er("root()", f.root::<Hoard>()))?;
    x.run("100 lazy roots", 100 * 4096 + SLACK, 0, || {
        let v: Vec<_> = (0..100).map(|_| f.root::<Hoard>()).collect();
        ensure!(v.iter().all(|r| r.is_ok()), "root() fails");
        Ok(())
    })?;
    x.released("lazy roots")?;
    x.base = alloc::live();
    let here = g.flag();
    let mut ops = |x: &mut Meter| -> Res {
        let same = |a: &Parcel, b: &Parcel| a.id == b.id && a.blob == b.blob && a.name == b.name;
        let mut order: Vec<usize> = (0..6).filter(|i| costs[*i].total > 0).collect();
        order.sort_by_key(|i| -costs[*i].total);
        for i in order {
            match i {
                0 => vector("nums", &l.nums, &h.nums, |a, b| a == b, &costs[0], g, x)?,
                1 => vector("texts", &l.texts, &h.texts, |a, b| a == b, &costs[1], g, x)?,
                2 => {
                    vector("items", &l.items, &h.items, same, &costs[2], g, x)?;
                    lazy_items(&l.items, &h.items, &k[2], &costs[2], g, x)?;
                }
                3 => map("index", &l.index, &h.index, |a, b| a == b, &costs[3], g, x)?,
                4 => {
                    map("drawer", &l.drawer, &h.drawer, same, &costs[4], g, x)?;
                    for _ in 0..6 {
                        let key = g.below(h.drawer.len() as u64 + 2) as u32;
                        let c = &costs[4];
                        let r = x.run(&format!("drawer.get_lazy({key})"), c.shard + c.table + SLACK, c.total, || er("get_lazy", l.drawer.get_lazy(&key)))?;
                        ensure!(r.map(|r| r.id) == h.drawer.get(&key).map(|r| r.id), "drawer.get_lazy({key}): another value");
                    }
                    x.released("drawer")?;
                }
                _ => {
                    vector("bulk", &l.bulk, &h.bulk, |a, b| a == b, &costs[5], g, x)?;
                }
            }
        }
        // One field costs that field.
        if let Some(small) = (0..6).filter(|i| *i != 3 && *i != 4).min_by_key(|i| costs[*i].total) {
            let c = &costs[small];
            let bound = 4 * c.total + 16 * c.shard + 4 * c.table + SLACK;
            match small {
                0 => x.run("loading the field nums", bound, size, || Ok(er("load()", l.nums.load())? == h.nums))?,
                1 => x.run("loading the field texts", bound, size, || Ok(er("load()", l.texts.load())? == h.texts))?,
                2 => x.run("loading the field items", bound, size, || Ok(er("load()", l.items.load())?.len() == h.items.len()))?,
                _ => x.run("loading the field bulk", bound, size, || Ok(er("load()", l.bulk.load())? == h.bulk))?,
            };
            x.released("a loaded field")?;
        }
        Ok(())
    };
    if here {
        ops(&mut x)?;
    } else {
        pool.install(|| ops(&mut x))?;
    }
    if g.chance(1, 4) {
        // What was loaded is released, twice over.
        for _ in 0..2 {
            let v = pool.install(|| er("load", f.load::<Hoard>()))?;
            ensure!(v.nums.len() == h.nums.len() && v.drawer.len() == h.drawer.len(), "load: another value");
            drop(v);
            x.released("a loaded value")?;
        }
        x.st.class("loaded whole");
    }
    drop(l);
    drop(f);
    x.base = start;
    x.released("the file")
}
