//! C19: vectors of items with destructors, in files whose counts disagree and whose items fail.
use crate::checks::POOLS;
use crate::model::{enc, er};
use crate::layout::{self, Node, Res, ensure, fail};
use crate::run::{Env, SLOT, St, take_panic};
use crate::tape::Gen;
use parcode::reader::ChunkNode;
use parcode::{Parcode, ParcodeCollectionPromise, ParcodeError, ParcodeFile, ParcodeItem};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::io::Cursor;
use std::mem::ManuallyDrop;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;

/// What happened to every item created on behalf of a slot.
struct Registry {
    session: u32,
    /// Number of the item and whether it was dropped, by instance.
    items: Vec<(u32, bool)>,
    wrong: Vec<String>,
}
static REG: [Mutex<Registry>; 64] = [const { Mutex::new(Registry { session: 0, items: vec![], wrong: vec![] }) }; 64];
fn reg(slot: usize) -> std::sync::MutexGuard<'static, Registry> {
    REG[slot % 64].lock().unwrap_or_else(|p| p.into_inner())
}

fn stamp(slot: usize, session: u32, inst: u32) -> u64 {
    let z = ((session as u64) << 32 | inst as u64).wrapping_mul(0xBF58476D1CE4E5B9) ^ (slot as u64).wrapping_mul(0x94D049BB133111EB);
    (z ^ (z >> 29)).wrapping_mul(0x9E3779B97F4A7C15) | 1
}

/// An item that knows whether it was created and notices being dropped twice.
#[derive(Debug)]
pub struct Tok {
    id: u32,
    inst: u32,
    session: u32,
    slot: u32,
    stamp: u64,
    /// Memory of its own, so that AddressSanitizer has its say about the drop as well.
    body: ManuallyDrop<Box<u32>>,
}
impl Tok {
    fn new(id: u32) -> Tok {
        let slot = SLOT.with(|s| s.get()).min(63);
        let mut r = reg(slot);
        let inst = r.items.len() as u32;
        r.items.push((id, false));
        Tok { id, inst, session: r.session, slot: slot as u32, stamp: stamp(slot, r.session, inst), body: ManuallyDrop::new(Box::new(id)) }
    }
    /// The number of a live item that was created by a decode.
    fn check(&self) -> Res<u32> {
        ensure!(self.slot < 64 && self.stamp == stamp(self.slot as usize, self.session, self.inst), "a value that was never created is handed out");
        let r = reg(self.slot as usize);
        ensure!(r.session == self.session, "an item of an earlier case is handed out");
        match r.items.get(self.inst as usize) {
            Some((id, false)) if *id == self.id && **self.body == self.id => Ok(self.id),
            Some((_, true)) => Err(format!("item {} is handed out after it was dropped", self.id)),
            _ => Err("an altered item is handed out".into()),
        }
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        let real = self.slot < 64 && self.stamp == stamp(self.slot as usize, self.session, self.inst);
        if !real {
            let slot = SLOT.with(|s| s.get()).min(63);
            reg(slot).wrong.push("a value that was never created is dropped".into());
            return;
        }
        let mut r = reg(self.slot as usize);
        if r.session != self.session {
            r.wrong.push("an item of an earlier case is dropped".into());
            return;
        }
        match r.items.get_mut(self.inst as usize) {
            Some(x) if !x.1 => x.1 = true,
            _ => {
                let w = format!("item {} (instance {}) is dropped twice", self.id, self.inst);
                r.wrong.push(w);
                return;
            }
        }
        drop(r);
        unsafe { ManuallyDrop::drop(&mut self.body) }
    }
}
impl Clone for Tok {
    fn clone(&self) -> Tok {
        Tok::new(self.id)
    }
}
/// An item is its number and what its decoding does.
const GOOD: u8 = 0;
const FAILS: u8 = 1;
const PANICS: u8 = 2;
const WAITS: u8 = 3;
fn decode(id: u32, mode: u8) -> Result<Tok, String> {
    match mode {
        GOOD => {}
        FAILS => return Err("an item that does not decode".into()),
        PANICS => panic!("an item that panics"),
        _ => std::thread::yield_now(),
    }
    Ok(Tok::new(id))
}
impl Serialize for Tok {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        (self.id, GOOD).serialize(s)
    }
}
impl<'de> Deserialize<'de> for Tok {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Tok, D::Error> {
        let (id, mode) = <(u32, u8)>::deserialize(d)?;
        decode(id, mode).map_err(serde::de::Error::custom)
    }
}
fn bare(r: &mut Cursor<&[u8]>) -> parcode::Result<(u32, u8)> {
    bincode::serde::decode_from_std_read(r, bincode::config::standard()).map_err(|e| ParcodeError::Serialization(e.to_string()))
}
impl ParcodeItem for Tok {
    fn read_from_shard(r: &mut Cursor<&[u8]>, _: &mut std::vec::IntoIter<ChunkNode<'_>>) -> parcode::Result<Tok> {
        let (id, mode) = bare(r)?;
        decode(id, mode).map_err(ParcodeError::Serialization)
    }
}
/// A larger item.
pub struct Wide(Tok, [u64; 5]);
impl ParcodeItem for Wide {
    fn read_from_shard(r: &mut Cursor<&[u8]>, k: &mut std::vec::IntoIter<ChunkNode<'_>>) -> parcode::Result<Wide> {
        Ok(Wide(Tok::read_from_shard(r, k)?, [7; 5]))
    }
}
/// The items the derive macro makes: inline and nested.
#[derive(Clone, Debug, Serialize, Deserialize, parcode::ParcodeObject)]
pub struct Leaf {
    a: Tok,
    n: u8,
    b: Tok,
}
#[derive(Clone, Debug, Serialize, Deserialize, parcode::ParcodeObject)]
pub struct Branch {
    a: Tok,
    #[parcode(chunkable)]
    leaves: Vec<Leaf>,
    b: Tok,
}
#[derive(Clone, Debug, Serialize, Deserialize, parcode::ParcodeObject)]
pub struct Stem {
    a: Tok,
    #[parcode(chunkable)]
    left: Vec<Leaf>,
    #[parcode(chunkable)]
    right: Vec<Leaf>,
    b: Tok,
}
#[derive(Clone, Debug, Serialize, Deserialize, parcode::ParcodeObject)]
pub struct Stem2 {
    #[parcode(chunkable)]
    left: Vec<Branch>,
    a: Tok,
    #[parcode(chunkable)]
    right: Vec<Leaf>,
}

/// What loading a container has to give.
#[derive(Clone, Debug, PartialEq)]
enum Want {
    Items(Vec<u32>),
    Error,
}
/// A container as bytes and what it holds.
struct Made {
    node: Node,
    want: Want,
    /// Items that fail or panic: loading them may panic.
    panics: bool,
    /// Every number in the file.
    all: Vec<u32>,
    total: u64,
    sound: bool,
}

trait Thing: ParcodeItem {
    const NEST: u32;
    fn write(id: u32, mode: u8, o: &mut Vec<u8>, kids: &mut Vec<Node>, g: &mut Gen, m: &mut Made);
    fn ids(&self, o: &mut Vec<u32>) -> Res;
}
/// Numbers of an item: its own, and those of what it holds derived from it.
impl Thing for Tok {
    const NEST: u32 = 0;
    fn write(id: u32, mode: u8, o: &mut Vec<u8>, _: &mut Vec<Node>, _: &mut Gen, _: &mut Made) {
        enc(&(id, mode), o);
    }
    fn ids(&self, o: &mut Vec<u32>) -> Res {
        o.push(self.check()?);
        Ok(())
    }
}
impl Thing for Wide {
    const NEST: u32 = 0;
    fn write(id: u32, mode: u8, o: &mut Vec<u8>, _: &mut Vec<Node>, _: &mut Gen, _: &mut Made) {
        enc(&(id, mode), o);
    }
    fn ids(&self, o: &mut Vec<u32>) -> Res {
        ensure!(self.1 == [7; 5], "an altered item is handed out");
        self.0.ids(o)
    }
}
impl Thing for Leaf {
    const NEST: u32 = 0;
    fn write(id: u32, mode: u8, o: &mut Vec<u8>, _: &mut Vec<Node>, g: &mut Gen, _: &mut Made) {
        let first = g.flag();
        enc(&(id, if first { mode } else { GOOD }), o);
        enc(&7u8, o);
        enc(&(id, if first { GOOD } else { mode }), o);
    }
    fn ids(&self, o: &mut Vec<u32>) -> Res {
        let a = self.a.check()?;
        ensure!(self.n == 7 && self.b.check()? == a && self.a.inst != self.b.inst, "an item mixed from two");
        o.push(a);
        Ok(())
    }
}
impl Thing for Branch {
    const NEST: u32 = 1;
    fn write(id: u32, mode: u8, o: &mut Vec<u8>, kids: &mut Vec<Node>, g: &mut Gen, m: &mut Made) {
        let first = g.flag();
        enc(&(id, if first { mode } else { GOOD }), o);
        enc(&(id, if first { GOOD } else { mode }), o);
        let n = g.idx(4);
        let spoil = if m.sound && g.chance(1, 60) { 1 } else { 0 };
        let inner = make::<Leaf>(id.wrapping_mul(16).wrapping_add(1 << 30), n, spoil, g);
        m.all.extend(&inner.all);
        m.panics |= inner.panics;
        if inner.want == Want::Error {
            m.sound = false;
        }
        kids.push(inner.node);
    }
    fn ids(&self, o: &mut Vec<u32>) -> Res {
        let a = self.a.check()?;
        ensure!(self.b.check()? == a && self.a.inst != self.b.inst, "an item mixed from two");
        o.push(a);
        for (i, l) in self.leaves.iter().enumerate() {
            let mut v = vec![];
            l.ids(&mut v)?;
            ensure!(v == [a.wrapping_mul(16).wrapping_add(1 << 30).wrapping_add(i as u32)], "item {a} holds another item's leaf {v:?}");
        }
        Ok(())
    }
}

struct Shard {
    declared: u64,
    ids: Vec<u32>,
    modes: Vec<u8>,
    cut: usize,
    extra: usize,
}

/// A container of n items numbered from `base`, with `spoil` inconsistencies.
fn make<T: Thing>(base: u32, n: usize, spoil: usize, g: &mut Gen) -> Made {
    let mut m = Made { node: Node::default(), want: Want::Error, panics: false, all: vec![], total: n as u64, sound: true };
    // shards
    let mut shards: Vec<Shard> = vec![];
    let mut at = 0;
    let unit = *g.pick(&[1usize, 2, 3, 7, 20, 64]);
    while at < n || (shards.is_empty() && g.flag()) {
        let k = if g.chance(1, 5) { g.idx(unit + 1) } else { unit }.min(n - at);
        let ids: Vec<u32> = (at..at + k).map(|i| base.wrapping_add(i as u32)).collect();
        shards.push(Shard { declared: k as u64, modes: ids.iter().map(|_| if g.chance(1, 40) { WAITS } else { GOOD }).collect(), ids, cut: 0, extra: 0 });
        at += k;
        if shards.len() > 400 {
            shards.truncate(400);
            break;
        }
    }
    m.total = shards.iter().map(|s| s.declared).sum();
    let mut runs: Vec<(u32, u32)> = vec![];
    for s in &shards {
        match runs.last_mut() {
            Some(r) if r.0 as usize == s.ids.len() => r.1 += 1,
            _ => runs.push((s.ids.len() as u32, 1)),
        }
    }
    let mut drop_kids = 0;
    let mut surplus = 0;
    for _ in 0..spoil {
        let k = g.idx(shards.len().max(1));
        let delta = *g.pick(&[1i64, -1, 2, -2, 5, 64, -7, 1000, 30_000]);
        match g.below(12) {
            0 => m.total = m.total.saturating_add_signed(delta),
            1 if !runs.is_empty() => {
                let r = g.idx(runs.len());
                runs[r].0 = runs[r].0.saturating_add_signed(delta as i32);
            }
            2 if !runs.is_empty() => {
                let r = g.idx(runs.len());
                runs[r].1 = runs[r].1.saturating_add_signed(delta as i32);
            }
            3 | 4 if !shards.is_empty() => shards[k].declared = shards[k].declared.saturating_add_signed(delta),
            5 if !shards.is_empty() => {
                // short or over-long, truthfully declared
                let s = &mut shards[k];
                if g.flag() {
                    s.ids.pop();
                    s.modes.pop();
                } else {
                    let x = base.wrapping_add(0x0100_0000 + g.idx(9) as u32);
                    s.ids.push(x);
                    s.modes.push(GOOD);
                }
                s.declared = s.ids.len() as u64;
            }
            6 if shards.len() > 1 => {
                // items moved between shards: the sum is right, the shards are not
                let j = g.idx(shards.len());
                if let Some(x) = shards[k].ids.pop() {
                    shards[k].modes.pop();
                    shards[j].ids.push(x);
                    shards[j].modes.push(GOOD);
                }
                for i in [j, k] {
                    shards[i].declared = shards[i].ids.len() as u64;
                }
            }
            7 | 8 if !shards.is_empty() && !shards[k].modes.is_empty() => {
                let i = g.idx(shards[k].modes.len());
                shards[k].modes[i] = if g.flag() { FAILS } else { PANICS };
            }
            9 if !shards.is_empty() => shards[k].cut += g.range(1, 9),
            10 if !shards.is_empty() => shards[k].extra += g.range(1, 9),
            11 if g.flag() => drop_kids += 1,
            _ => surplus += 1,
        }
    }
    // the file
    for s in &mut shards {
        // Padding must not pass for the end of an item, a cut must hit an item that counts.
        if s.declared < s.ids.len() as u64 {
            s.cut = 0;
        }
        if s.cut > 0 || s.declared > s.ids.len() as u64 {
            s.extra = 0;
        }
        let mut payload = vec![];
        let mut kids = vec![];
        enc(&s.declared, &mut payload);
        let head = payload.len();
        for (id, mode) in s.ids.iter().zip(&s.modes) {
            m.all.push(*id);
            m.panics |= *mode == PANICS;
            T::write(*id, *mode, &mut payload, &mut kids, g, &mut m);
        }
        let body = payload.len() - head;
        s.cut = s.cut.min(body);
        payload.truncate(head + body - s.cut);
        payload.extend((0..s.extra).map(|_| 0u8));
        m.node.kids.push(Node { payload, lz4: g.chance(1, 5), kids });
    }
    for _ in 0..drop_kids {
        if !m.node.kids.is_empty() {
            let i = g.idx(m.node.kids.len());
            m.node.kids.remove(i);
            if i < shards.len() {
                shards.remove(i);
            }
        }
    }
    let mut rejected = false;
    for _ in 0..surplus {
        let copy = m.node.kids.first().cloned().unwrap_or(Node { payload: vec![0], ..Node::default() });
        m.node.kids.push(copy);
        rejected = true;
    }
    m.node.payload = m.total.to_le_bytes().to_vec();
    enc(&runs, &mut m.node.payload);
    if m.node.kids.is_empty() && runs.is_empty() && m.total == 0 && g.flag() {
        m.node.payload.clear();
    }
    // what it is worth: the tables agree with each other and with every shard
    let planned: Vec<u64> = runs.iter().flat_map(|r| std::iter::repeat_n(r.0 as u64, (r.1 as usize).min(100_000))).collect();
    let agree = planned.len() <= shards.len()
        && planned.iter().sum::<u64>() == m.total
        && planned.iter().zip(&shards).all(|(p, s)| {
            *p == s.declared && (s.declared <= s.ids.len() as u64) && s.modes.iter().take(s.declared as usize).all(|x| *x != FAILS && *x != PANICS) && s.cut == 0
        });
    if agree && m.sound {
        m.want = Want::Items(planned.iter().zip(&shards).flat_map(|(p, s)| s.ids[..*p as usize].iter().copied()).collect());
    }
    // Unused shards: a load may fail, but not give anything else.
    let inner_failed = !m.sound;
    let idle = planned.len() < shards.len() || shards.iter().any(|s| s.declared < s.ids.len() as u64);
    m.sound = m.sound && agree && !rejected && planned.len() == shards.len();
    if (rejected && planned.len() > shards.len()) || (inner_failed && idle) {
        m.want = Want::Error;
        m.total = u64::MAX;
    }
    m
}

/// Checks a load of a whole container.
fn whole<T: Thing>(what: &str, r: Result<Vec<T>, String>, m: &Made, st: &mut St) -> Res {
    match r {
        Ok(v) => {
            let mut ids = vec![];
            for x in &v {
                x.ids(&mut ids).map_err(|e| format!("{what}: {e}"))?;
            }
            let loose = m.total == u64::MAX;
            match &m.want {
                Want::Items(w) => ensure!(ids == *w, "{what}: items {ids:?} instead of {w:?}"),
                Want::Error if loose => ensure!(ids.iter().all(|i| m.all.contains(i)), "{what}: items that are not in the file"),
                Want::Error => fail!("{what}: {} items are returned although the counts disagree or an item does not decode", v.len()),
            }
            st.sum("loads that succeed", 1);
        }
        Err(e) => {
            ensure!(!m.sound || m.want == Want::Error, "{what}: {e}");
            st.sum("loads that fail", 1);
        }
    }
    Ok(())
}
/// Runs an access; a panic is an error of an item that panics.
fn attempt<R>(what: &str, panics: bool, f: impl FnOnce() -> parcode::Result<R>) -> Res<Result<R, String>> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r.map_err(|e| e.to_string())),
        Err(_) => {
            let p = take_panic().map(|p| p.0).unwrap_or_default();
            ensure!(panics && p.contains("an item that panics"), "{what}: panic: {p}");
            Ok(Err("panic".into()))
        }
    }
}

fn accesses<T: Thing>(p: &ParcodeCollectionPromise<'_, T>, m: &Made, g: &mut Gen, st: &mut St) -> Res {
    let sure = if m.sound { if let Want::Items(w) = &m.want { Some(w) } else { None } } else { None };
    let mut kept: Vec<T> = vec![];
    let known = |x: &T, what: &str| -> Res<u32> {
        let mut v = vec![];
        x.ids(&mut v).map_err(|e| format!("{what}: {e}"))?;
        ensure!(m.all.contains(&v[0]), "{what}: item {} is not in the file", v[0]);
        Ok(v[0])
    };
    for _ in 0..g.range(1, 8) {
        let n = if m.total == u64::MAX { 9 } else { m.total as usize };
        match g.below(3) {
            0 => {
                let r = attempt("load()", m.panics, || p.load())?;
                whole("load()", r, m, st)?;
            }
            1 => {
                let i = g.idx(n + 2);
                let what = format!("get({i}) of {n}");
                match attempt(&what, m.panics, || p.get(i))? {
                    Ok(x) => {
                        let id = known(&x, &what)?;
                        if let Some(w) = sure {
                            ensure!(w.get(i) == Some(&id), "{what}: item {id}");
                        }
                        if g.flag() {
                            kept.push(x);
                        }
                    }
                    Err(e) => ensure!(sure.is_none_or(|w| i >= w.len()), "{what}: {e}"),
                }
            }
            _ => {
                let Ok(Ok(mut it)) = attempt("iter()", m.panics, || p.iter()) else { continue };
                let stop = if g.flag() { usize::MAX } else { g.idx(n + 1) };
                let mut k = 0;
                let mut whole = true;
                while k < stop {
                    match attempt("iter()", m.panics, || it.next().transpose())? {
                        Ok(None) => break,
                        Ok(Some(x)) => {
                            let id = known(&x, "iter()")?;
                            if let Some(w) = sure {
                                ensure!(w.get(k) == Some(&id), "iter() yields item {id} at {k}");
                            }
                            if g.chance(1, 4) {
                                kept.push(x);
                            }
                        }
                        Err(e) => {
                            whole = false;
                            ensure!(sure.is_none(), "iter(): {e}");
                            break;
                        }
                    }
                    k += 1;
                    ensure!(k < 200_000, "iter() does not end");
                }
                ensure!(stop != usize::MAX || !whole || m.total == u64::MAX || k as u64 == m.total, "iter() ends after {k} of {} items without an error", m.total);
            }
        }
    }
    for x in &kept {
        known(x, "an item kept")?;
    }
    Ok(())
}

fn lazily(p: &ParcodeCollectionPromise<'_, Leaf>, m: &Made, g: &mut Gen) -> Res {
    if m.total == u64::MAX {
        return Ok(());
    }
    let n = m.total as usize;
    let mut kept = vec![];
    for _ in 0..g.range(0, 4) {
        let i = g.idx(n + 1);
        if let Ok(l) = attempt("get_lazy()", m.panics, || p.get_lazy(i))? {
            ensure!(m.all.contains(&l.a.check()?) && l.b.check()? == l.a.id, "get_lazy({i}): an item mixed from two");
            kept.push(l);
        }
    }
    if let Ok(mut it) = attempt("iter_lazy()", m.panics, || p.iter_lazy())? {
        let stop = g.idx(n + 2);
        for k in 0.. {
            if k >= stop {
                break;
            }
            match attempt("iter_lazy()", m.panics, || it.next().transpose())? {
                Ok(Some(l)) => {
                    ensure!(m.all.contains(&l.a.check()?) && l.b.check()? == l.a.id, "iter_lazy(): an item mixed from two");
                    if g.chance(1, 4) {
                        kept.push(l);
                    }
                }
                _ => break,
            }
        }
    }
    Ok(())
}

fn vector<T: Thing>(g: &mut Gen, st: &mut St, more: Option<fn(&ParcodeCollectionPromise<'_, T>, &Made, &mut Gen) -> Res>) -> Res
where
    Vec<T>: for<'a> parcode::rt::ParcodeLazyRef<'a, Lazy = ParcodeCollectionPromise<'a, T>>,
{
    let n = *g.pick(&[3usize, 0, 1, 2, 9, 30, 100, 300, 1000]);
    let n = g.idx(n + 1);
    let spoil = g.idx(3);
    let m = make::<T>(100, n, spoil, g);
    let bytes = layout::assemble(&m.node, g);
    st.digest(&bytes);
    st.nontrivial = spoil > 0 && n > 0;
    st.class(match (&m.want, m.sound) {
        (Want::Items(_), true) => "consistent",
        (Want::Items(_), false) => "unused shards",
        (Want::Error, _) if m.panics => "items panic",
        _ if m.total == u64::MAX => "surplus shards in the place of missing ones",
        _ => "counts disagree or items fail",
    });
    st.say(format!("vector of {n} {} in {} shards, {spoil} spoiled, table {:?}: {:?}", std::any::type_name::<T>(), m.node.kids.len(), m.node.payload, m.want));
    for _ in 0..3 {
        match g.below(4) {
            0 => {
                let b = bytes.clone();
                let r = attempt("load_bytes", m.panics, || Parcode::load_bytes::<Vec<T>>(b))?;
                whole("load_bytes", r, &m, st)?;
            }
            1 => {
                let f = er("open_bytes", Parcode::open_bytes(bytes.clone()))?;
                let r = attempt("load", m.panics, || f.load::<Vec<T>>())?;
                whole("ParcodeFile::load", r, &m, st)?;
            }
            _ => {
                let f = er("open_bytes", Parcode::open_bytes(bytes.clone()))?;
                let p = er("root()", f.root::<Vec<T>>())?;
                accesses(&p, &m, g, st)?;
                if let Some(x) = more {
                    x(&p, &m, g)?;
                }
            }
        }
    }
    Ok(())
}

/// A vector written as one short chunk without shards.
fn short(g: &mut Gen, st: &mut St) -> Res {
    let k = g.idx(4);
    let declared = if g.flag() { k as u64 } else { g.below(6) };
    let mut payload = vec![];
    enc(&declared, &mut payload);
    let bad = g.flag().then(|| g.idx(k.max(1)));
    for i in 0..k {
        enc(&(i as u32 + 3, if bad == Some(i) { FAILS } else { GOOD }), &mut payload);
    }
    let fine = bad.is_none_or(|b| b as u64 >= declared || b >= k) && declared <= k as u64;
    let node = Node { payload, ..Node::default() };
    let bytes = layout::assemble(&node, g);
    st.digest(&bytes);
    st.class("short single chunk");
    st.say(format!("single chunk of {k} items declared as {declared}, bad {bad:?}"));
    st.nontrivial = declared != k as u64 || bad.is_some();
    let r = attempt("load_bytes", false, || Parcode::load_bytes::<Vec<Tok>>(bytes))?;
    if let Ok(v) = r {
        ensure!(fine, "{} items are returned from a chunk of {k} that declares {declared}", v.len());
        let mut ids = vec![];
        for x in &v {
            x.ids(&mut ids)?;
        }
        ensure!(ids == (3..3 + declared as u32).collect::<Vec<_>>(), "items {ids:?} instead of {declared}");
    }
    Ok(())
}

fn stem(g: &mut Gen, st: &mut St) -> Res {
    let deep = g.flag();
    let n = g.idx(60);
    let spoil = g.idx(3);
    let a = if deep { make::<Branch>(100, n, spoil, g) } else { make::<Leaf>(100, n, spoil, g) };
    let k = g.idx(60);
    let spoil2 = g.idx(2);
    let b = make::<Leaf>(9000, k, spoil2, g);
    st.nontrivial = spoil + spoil2 > 0;
    let mode = *g.pick(&[GOOD, GOOD, FAILS, PANICS]);
    let panics = a.panics || b.panics || mode == PANICS;
    let mut payload = vec![];
    enc(&(7u32, if deep { mode } else { GOOD }), &mut payload);
    if !deep {
        enc(&(8u32, mode), &mut payload);
    }
    let node = Node { payload, lz4: false, kids: vec![a.node.clone(), b.node.clone()] };
    let bytes = layout::assemble(&node, g);
    st.digest(&bytes);
    st.class(format!("struct of two vectors, own item {}", ["good", "fails", "panics"][mode as usize]));
    st.say(format!("struct with {n} and {k} items, {spoil}+{spoil2} spoiled, mode {mode}: {:?} {:?}", a.want, b.want));
    let own = mode == GOOD;
    if deep {
        match attempt("load_bytes", panics, || Parcode::load_bytes::<Stem2>(bytes.clone()))? {
            Ok(s) => {
                ensure!(own && s.a.check()? == 7, "a struct is returned whose item does not decode");
                whole("left", Ok(s.left), &a, st)?;
                whole("right", Ok(s.right), &b, st)?;
            }
            Err(e) => ensure!(!(own && a.sound && b.sound), "load: {e}"),
        }
    } else {
        match attempt("load_bytes", panics, || Parcode::load_bytes::<Stem>(bytes.clone()))? {
            Ok(s) => {
                ensure!(own && s.a.check()? == 7 && s.b.check()? == 8, "a struct is returned whose item does not decode");
                whole("left", Ok(s.left), &a, st)?;
                whole("right", Ok(s.right), &b, st)?;
            }
            Err(e) => ensure!(!(own && a.sound && b.sound), "load: {e}"),
        }
        let f: ParcodeFile = er("open_bytes", Parcode::open_bytes(bytes))?;
        if let Ok(l) = attempt("root()", panics, || f.root::<Stem>())? {
            ensure!(own, "a lazy root is returned whose item does not decode");
            accesses(&l.left, &a, g, st)?;
            accesses(&l.right, &b, g, st)?;
            ensure!(l.a.check()? == 7 && l.b.check()? == 8, "the lazy root is altered");
        }
    }
    Ok(())
}

/// Items without destructors read by the fast paths: nothing but what the file says.
fn plain<T: ParcodeItem + Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug + Clone>(from: fn(u64) -> T, g: &mut Gen, st: &mut St) -> Res {
    let n = g.idx(200);
    let mut s = g.sub();
    let mut items: Vec<T> = (0..n).map(|_| from(s.u())).collect();
    let unit = *g.pick(&[1usize, 3, 10, 50]);
    let mut kids = vec![];
    let mut counts = vec![];
    for c in items.chunks(unit) {
        let mut p = vec![];
        enc(&(c.len() as u64), &mut p);
        c.iter().for_each(|x| enc(x, &mut p));
        kids.push(Node { payload: p, ..Node::default() });
        counts.push(c.len() as u64);
    }
    let mut total = n as u64;
    let mut runs: Vec<(u32, u32)> = counts.iter().map(|c| (*c as u32, 1)).collect();
    let mut bad = false;
    if !kids.is_empty() && g.chance(3, 4) {
        bad = true;
        let k = g.idx(kids.len());
        let d = *g.pick(&[1i64, -1, 3, 40]);
        match g.below(6) {
            4 | 5 => {
                // one byte of an item is another: bincode alone says what that means
                let p = &mut kids[k].payload;
                let at = g.range(1, p.len() - 1);
                p[at] = if g.flag() { g.below(4) as u8 } else { g.u() as u8 };
                match bincode::serde::decode_from_slice::<Vec<T>, _>(p, bincode::config::standard()) {
                    Ok((v, _)) => {
                        bad = false;
                        items.splice(k * unit..k * unit + v.len(), v);
                    }
                    Err(_) => st.class("an item that does not decode"),
                }
            }
            0 => total = total.saturating_add_signed(d),
            1 => {
                runs[k].0 = runs[k].0.saturating_add_signed(d as i32);
                total = runs.iter().map(|r| r.0 as u64).sum();
            }
            2 => {
                // the shard alone is wrong
                let c = counts[k].saturating_add_signed(d);
                let mut p = vec![];
                enc(&c, &mut p);
                items.iter().cycle().skip(k * unit).take(c as usize).for_each(|x| enc(x, &mut p));
                kids[k].payload = p;
            }
            _ => {
                // fewer bytes than the count asks for
                kids[k].payload.pop();
            }
        }
    }
    let mut payload = total.to_le_bytes().to_vec();
    enc(&runs, &mut payload);
    let bytes = layout::assemble(&Node { payload, lz4: false, kids }, g);
    st.digest(&bytes);
    st.class("primitive items");
    st.nontrivial = bad;
    st.say(format!("{n} {} by {unit}, spoiled: {bad}", std::any::type_name::<T>()));
    match attempt("load_bytes", false, || Parcode::load_bytes::<Vec<T>>(bytes))? {
        Ok(v) => {
            ensure!(!bad, "{} items are returned although the counts disagree", v.len());
            ensure!(v == items, "other items are returned");
        }
        Err(e) => ensure!(bad, "load: {e}"),
    }
    Ok(())
}

pub fn c19(env: &Env, g: &mut Gen, st: &mut St) -> Res {
    let slot = SLOT.with(|s| s.get()).min(63);
    {
        let mut r = reg(slot);
        r.session += 1;
        r.items.clear();
        r.wrong.clear();
    }
    let pool = *g.pick(POOLS);
    let r = env.pool(pool).install(|| match g.below(10) {
        0..=2 => vector::<Tok>(g, st, None),
        3 => vector::<Wide>(g, st, None),
        4 => vector::<Leaf>(g, st, Some(lazily)),
        5 => vector::<Branch>(g, st, None),
        6 => short(g, st),
        7 => match g.below(5) {
            0 => plain(|x| x as u8, g, st),
            1 => plain(|x| x as u16, g, st),
            2 => plain(|x| x as f64, g, st),
            3 => plain(|x| x & 1 == 0, g, st),
            _ => plain(|x| x.to_string(), g, st),
        },
        _ => stem(g, st),
    });
    // Tasks of a load that panicked have ended by now; everything handed out has been dropped.
    let reg = reg(slot);
    if let Some(w) = reg.wrong.first() {
        return Err(format!("{w} ({} such events; {})", reg.wrong.len(), st.sample));
    }
    st.sum("items created", reg.items.len());
    st.sum("items dropped", reg.items.iter().filter(|x| x.1).count());
    drop(reg);
    r.map_err(|e| format!("{e} ({})", st.sample))
}
