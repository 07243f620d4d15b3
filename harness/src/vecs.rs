//! C03: random access and iteration over saved vectors, as histories of operations against the
//! vector itself.
use crate::checks::{POOLS, open};
use crate::dynty::*;
use crate::layout::{self, Res, ensure, fail};
use crate::model::*;
use crate::run::{Env, St};
use crate::schemas::*;
use crate::tape::Gen;
use crate::val::*;
use parcode::ParcodeCollectionPromise;
use parcode::rt::ParcodeLazyIterator;




/// Lengths around everything the sharding arithmetic may turn on.
fn length(g: &mut Gen, cost: usize, cap: usize) -> usize {
    let c = cost.max(1);
    let unit = (4096 / c).max(1);
    let n = match g.below(12) {
        0 => g.range(0, 2),
        1 | 2 => g.range(1, 40),
        3..=5 => (unit * g.range(1, 9) + 3).saturating_sub(g.idx(7)),
        6 => (32 * unit + 40).saturating_sub(g.idx(80)),
        7 => (131_072 / c * g.range(1, 3) + 3).saturating_sub(g.idx(7)),
        8 => *g.pick(&[31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 1025]),
        9 => (131_072 / c * 33 + 3).saturating_sub(g.idx(7)),
        _ => g.range(1, 3 * unit),
    };
    n.min(cap)
}

/// Where an index may be asked for: anywhere, at the seams of shards, past the end.
fn index(g: &mut Gen, n: usize, starts: &[usize]) -> usize {
    match g.below(9) {
        8 => n.saturating_sub(1 + g.idx(4)),
        0 => g.idx(n + 1),
        1 => n + g.idx(3),
        2 => *g.pick(&[usize::MAX, usize::MAX / 2 + 1, u32::MAX as usize, u32::MAX as usize + 1, n.wrapping_add(1 << 32), n + 100_000]),
        3..=5 if starts.len() > 1 => (*g.pick(starts) + g.idx(3)).saturating_sub(1),
        _ => g.idx(n.max(1)),
    }
}

struct LazyIter<'a, T: LazyCheck<'a>> {
    it: ParcodeLazyIterator<'a, T>,
    at: usize,
}

/// The operations of lazily readable items; the others get `None`.
type LazyOps<T> = Option<for<'a> fn(&ParcodeCollectionPromise<'a, T>, &[T], &[usize], &mut Gen, &mut St) -> Res>;

fn lazy_history<'a, T: Item + LazyCheck<'a>>(l: &ParcodeCollectionPromise<'a, T>, m: &[T], starts: &[usize], g: &mut Gen, st: &mut St) -> Res {
    let n = m.len();
    let mut its: Vec<LazyIter<'a, T>> = vec![];
    let mut ends = 2;
    let mut kept: Vec<(usize, <T as parcode::rt::ParcodeLazyRef<'a>>::Lazy)> = vec![];
    let look = |i: usize, f: &<T as parcode::rt::ParcodeLazyRef<'a>>::Lazy, g: &mut Gen| -> Res {
        let mut s = g.sub();
        let mut x = Probe { g: &mut s, loads: 0, nth: 1, fuel: 2, blob: false };
        m[i].lazy(f, Cfg::default(), &mut x)
    };
    let ops = g.range(10, 40);
    for _ in 0..ops {
        match g.below(9) {
            0 | 1 => {
                let i = index(g, n, starts);
                match (l.get_lazy(i), i < n) {
                    (Ok(f), true) => {
                        look(i, &f, g).map_err(|e| format!("get_lazy({i}) of {n}: {e}"))?;
                        if kept.len() < 4 {
                            kept.push((i, f));
                        }
                    }
                    (Ok(_), false) => fail!("get_lazy({i}) of {n} items returned an item"),
                    (Err(e), true) => fail!("get_lazy({i}) of {n}: {e}"),
                    (Err(_), false) => {}
                }
            }
            2 => {
                for (what, r, want) in [("first()", l.first(), 0), ("last()", l.last(), n.wrapping_sub(1))] {
                    match (er(what, r)?, n) {
                        (None, 0) => {}
                        (Some(f), 1..) => look(want, &f, g).map_err(|e| format!("{what} of {n}: {e}"))?,
                        (f, _) => fail!("{what} is {} for {n} items", if f.is_some() { "some item" } else { "none" }),
                    }
                }
            }
            3 => {
                if its.len() < 3 {
                    its.push(LazyIter { it: er("iter_lazy()", l.iter_lazy())?, at: 0 });
                }
            }
            4 if !kept.is_empty() => {
                // A handle stays good while others are used.
                let k = g.idx(kept.len());
                let (i, f) = kept.swap_remove(k);
                look(i, &f, g).map_err(|e| format!("kept get_lazy({i}) of {n}: {e}"))?;
            }
            5 if ends > 0 => {
                ends -= 1;
                // The rest of a lazy stream, consumed in every way an iterator offers.
                let skip = if n > 0 { index(g, n, starts).min(n) } else { 0 };
                let mut it = er("iter_lazy()", l.iter_lazy())?;
                if skip > 0 {
                    match it.nth(skip - 1) {
                        Some(r) => look(skip - 1, &er("iter_lazy() item", r)?, g).map_err(|e| format!("nth({}) of iter_lazy() of {n}: {e}", skip - 1))?,
                        None => fail!("iter_lazy() ended before item {} of {n}", skip - 1),
                    }
                }
                let left = n - skip;
                ensure!(it.len() == left, "iter_lazy() reports {} left after {skip} of {n}", it.len());
                match g.below(5) {
                    0 => ensure!(it.count() == left, "count() of iter_lazy() is wrong after {skip} of {n}"),
                    1 => match it.last() {
                        None => ensure!(left == 0, "last() of iter_lazy() after {skip} of {n} is none"),
                        Some(r) => {
                            ensure!(left > 0, "last() of iter_lazy() after {skip} of {n} is some item");
                            look(n - 1, &er("last() of iter_lazy()", r)?, g).map_err(|e| format!("last() of iter_lazy() after {skip} of {n}: {e}"))?;
                        }
                    },
                    2 => {
                        let mut at = skip;
                        let r: Res = it.try_for_each(|x| {
                            ensure!(at < n, "iter_lazy() goes on after {n} items");
                            let x = er("iter_lazy() item", x)?;
                            if at % 50 == 0 || at + 1 == n {
                                look(at, &x, g).map_err(|e| format!("try_for_each over iter_lazy(), item {at} of {n}: {e}"))?;
                            }
                            at += 1;
                            Ok(())
                        });
                        r?;
                        ensure!(at == n, "iter_lazy() ended before item {at} of {n}");
                        ensure!(it.len() == 0 && it.next().is_none(), "iter_lazy() goes on after its end");
                    }
                    3 => {
                        let step = g.range(1, 9) * *g.pick(&[1, 7, 40]);
                        let mut at = skip;
                        for x in it.step_by(step) {
                            ensure!(at < n, "step_by({step}) over iter_lazy() goes on after {n} items");
                            look(at, &er("iter_lazy() item", x)?, g).map_err(|e| format!("step_by({step}) over iter_lazy(), item {at} of {n}: {e}"))?;
                            at += step;
                        }
                        ensure!(at >= n, "step_by({step}) over iter_lazy() ended before item {at} of {n}");
                    }
                    _ => {
                        let v: parcode::Result<Vec<_>> = it.collect();
                        let v = er("iter_lazy() item", v)?;
                        ensure!(v.len() == left, "iter_lazy() yields {} items after {skip} of {n}", v.len());
                        for _ in 0..left.min(3) {
                            let i = g.idx(left);
                            look(skip + i, &v[i], g).map_err(|e| format!("collected iter_lazy(), item {} of {n}: {e}", skip + i))?;
                        }
                    }
                }
            }
            _ if !its.is_empty() => {
                let k = g.idx(its.len());
                let c = &mut its[k];
                let skip = match g.below(6) {
                    0 => g.idx(n + 2),
                    1 => g.idx(starts.get(1).copied().unwrap_or(1) + 2),
                    _ => 0,
                };
                let left = n - c.at;
                ensure!(c.it.len() == left && c.it.size_hint() == (left, Some(left)), "iter_lazy() reports {} left after {} of {n}", c.it.len(), c.at);
                let r = if skip > 0 && g.flag() {
                    c.it.nth(skip)
                } else {
                    let mut r = c.it.next();
                    for _ in 0..skip {
                        if let Some(Err(e)) = r {
                            fail!("iter_lazy() near item {} of {n}: {e}", c.at);
                        }
                        r = c.it.next();
                    }
                    r
                };
                let i = c.at.saturating_add(skip);
                match r {
                    Some(r) => {
                        let f = er(&format!("iter_lazy() item {i} of {n}"), r)?;
                        ensure!(i < n, "iter_lazy() goes on after {n} items");
                        look(i, &f, g).map_err(|e| format!("iter_lazy() item {i} of {n}: {e}"))?;
                        c.at = i + 1;
                    }
                    None => {
                        ensure!(i >= n, "iter_lazy() ended before item {i} of {n}");
                        c.at = n;
                        ensure!(c.it.len() == 0 && c.it.next().is_none(), "iter_lazy() goes on after its end");
                        if g.flag() {
                            its.swap_remove(k);
                        }
                    }
                }
            }
            _ => {
                ensure!(l.len() == n, "len() is {}, vector has {n}", l.len());
            }
        }
        st.sum("lazy_operations", 1);
    }
    Ok(())
}

fn history<T: Item>(env: &Env, g: &mut Gen, st: &mut St, name: &str, cap: usize, lazy: LazyOps<T>) -> Res
where
    Vec<T>: Root + for<'a> parcode::rt::ParcodeLazyRef<'a, Lazy = ParcodeCollectionPromise<'a, T>>,
{
    let n = length(g, T::COST, cap);
    // Items that look huge at the head get shards of one or two each: many shards of little data.
    let many = g.chance(1, 30);
    let n = match many {
        true if cap >= 3_000 && env.index % 7 == 3 => g.range(66_000, 140_000),
        true => g.range(257, 2_000),
        false => n,
    };
    let _huge = many.then(|| Huge::strings(0, 8, *g.pick(&[140_000, 66_000, 64_000, 43_000, 30_000, 14_000])));
    let m: Vec<T> = if many {
        T::gen_many(g, n)
    } else if g.chance(1, 6) && n > 8 {
        // A head that misleads an estimate of item sizes.
        let mut s = g.sub();
        s.budget = 0;
        s.depth = 3;
        let one = T::gen_(&mut s);
        let mut v = vec![one; 8];
        v.extend(T::gen_many(g, n - 8));
        v
    } else {
        T::gen_many(g, n)
    };
    st.digest(name.as_bytes());
    let canon = m.canon_vec();
    st.digest(&canon);
    let foreign = g.chance(2, 5);
    let bytes = if foreign {
        st.class("foreign shard table");
        let lz4 = g.below(3);
        let mut s = g.sub();
        let mut plan = Plan { g: &mut s, lz4, shards: 0, multi_run: 0 };
        let mut node = m.to_node(&mut plan, Cfg::default());
        if g.chance(1, 4) {
            st.class("empty shards");
            empty_shards(&mut node, g);
        }
        layout::assemble(&node, g)
    } else {
        let w = Wr::gen_(g);
        st.class("library shard table");
        let pool = *g.pick(POOLS);
        let v = wrap(m.clone());
        let path = env.path("w.par");
        er("write", env.pool(pool).install(|| v.write_bytes(w, &path)))?
    };
    let p = layout::parse(&bytes)?;
    let starts = shard_starts(&p.root);
    let shards = p.root.kids.len();
    st.class(match shards {
        0 => "no shard",
        1 => "1 shard",
        2..=8 => "2-8 shards",
        9..=64 => "9-64 shards",
        65..=256 => "65-256 shards",
        257..=65_535 => "257-65535 shards",
        _ => "65536+ shards",
    });
    st.nontrivial = shards > 1;
    st.say(format!("Vec<{name}> of {n} in {shards} shards ({}, first {:?})", if foreign { "foreign" } else { "library" }, &starts[..starts.len().min(6)]));
    let by_path = g.chance(1, 3);
    let f = open(&bytes, by_path, env)?;
    let root = er("root_node", f.root_node())?;
    let l: ParcodeCollectionPromise<T> = er("root()", f.root::<Vec<T>>())?;
    ensure!(l.len() == n && l.is_empty() == (n == 0), "len() is {}, is_empty() {}, vector has {n}", l.len(), l.is_empty());
    ensure!(root.len() == n as u64 && root.is_empty() == (n == 0), "node len() is {}, vector has {n}", root.len());
    type It<'i, T> = Box<dyn Iterator<Item = parcode::Result<T>> + 'i>;
    let mut its: Vec<(It<T>, usize)> = vec![];
    let mut full = 0;
    let ops = g.range(10, 40);
    for _ in 0..ops {
        st.sum("operations", 1);
        match g.below(10) {
            0..=2 => {
                let i = index(g, n, &starts);
                let r = if g.chance(1, 3) { root.get::<T>(i) } else { l.get(i) };
                match (r, i < n) {
                    (Ok(x), true) => eq(&format!("get({i}) of {n}"), &x, &m[i])?,
                    (Ok(_), false) => fail!("get({i}) of {n} items returned an item"),
                    (Err(e), true) => fail!("get({i}) of {n}: {e}"),
                    (Err(_), false) => {}
                }
            }
            3 => {
                if its.len() < 3 {
                    let it: It<T> = if g.chance(1, 3) { Box::new(er("iter()", root.clone().iter::<T>())?) } else { Box::new(er("iter()", l.iter())?) };
                    its.push((it, 0));
                }
            }
            4 if full == 0 => {
                full += 1;
                let v = if g.flag() { er("load()", l.load())? } else { er("decode_parallel_collection", root.decode_parallel_collection::<T>())? };
                ensure!(v.len() == n, "load() returned {} items of {n}", v.len());
                let got = v.canon_vec();
                if got != canon {
                    fail!("load() returned another vector of {n} items");
                }
            }
            5 if full < 2 => {
                full += 2;
                // Whole streams, consumed in every way an iterator offers.
                let skip = if n > 0 && g.flag() { index(g, n, &starts).min(n + 2) } else { 0 };
                let mut it = er("iter()", l.iter())?;
                let mut at = skip;
                if skip > 0 {
                    match it.nth(skip - 1) {
                        Some(Ok(x)) if skip <= n => eq(&format!("iter() item {} of {n}", skip - 1), &x, &m[skip - 1])?,
                        None if skip > n => {}
                        Some(Err(e)) => fail!("iter() item {} of {n}: {e}", skip - 1),
                        x => fail!("nth({}) of iter() is {} for {n} items", skip - 1, if x.is_some() { "some item" } else { "none" }),
                    }
                }
                let rest = m.get(skip..).unwrap_or(&[]);
                match g.below(6) {
                    0 => ensure!(it.count() == rest.len(), "count() of iter() is wrong after {skip} of {n}"),
                    1 => match (it.last(), rest.last()) {
                        (None, None) => {}
                        (Some(x), Some(y)) => eq(&format!("last() of iter() after {skip} of {n}"), &er("last() of iter()", x)?, y)?,
                        (x, _) => fail!("last() of iter() after {skip} of {n} is {}", if x.is_some() { "some item" } else { "none" }),
                    },
                    2 => {
                        let r: Res = it.try_fold((), |(), x| {
                            ensure!(at < n, "iter() goes on after {n} items");
                            at += 1;
                            eq(&format!("try_fold over iter(), item {} of {n}", at - 1), &er("iter() item", x)?, &m[at - 1])
                        });
                        r?;
                        ensure!(at >= n, "iter() ended before item {at} of {n}");
                        ensure!(it.next().is_none(), "iter() goes on after its end");
                    }
                    3 => {
                        let step = g.range(1, 9) * *g.pick(&[1, 1, 7, 100, 1000]);
                        let mut want = rest.iter().step_by(step);
                        for x in it.step_by(step) {
                            match want.next() {
                                Some(y) => eq(&format!("step_by({step}) over iter() after {skip} of {n}"), &er("iter() item", x)?, y)?,
                                None => fail!("step_by({step}) over iter() goes on after {n} items"),
                            }
                        }
                        ensure!(want.next().is_none(), "step_by({step}) over iter() after {skip} of {n} ends early");
                    }
                    4 => {
                        let v = it.fold(Ok(vec![]), |v: parcode::Result<Vec<T>>, x| {
                            v.and_then(|mut v| {
                                v.push(x?);
                                Ok(v)
                            })
                        });
                        let v = er("iter() item", v)?;
                        ensure!(v.canon_vec() == rest.to_vec().canon_vec(), "fold over iter() after {skip} of {n} sees other items");
                    }
                    _ => {
                        let v: parcode::Result<Vec<T>> = it.collect();
                        let v = er("iter() item", v)?;
                        ensure!(v.len() == rest.len(), "iter() yields {} items after {skip} of {n}", v.len());
                        ensure!(v.canon_vec() == rest.to_vec().canon_vec(), "iter() yields other items after {skip} of {n}");
                    }
                }
            }
            _ if !its.is_empty() => {
                let k = g.idx(its.len());
                let (it, at) = &mut its[k];
                let skip = match g.below(6) {
                    0 => g.idx(n + 2),
                    1 => g.idx(starts.get(1).copied().unwrap_or(1) + 2),
                    _ => 0,
                };
                let (lo, hi) = it.size_hint();
                let left = n - *at;
                ensure!(lo <= left && hi.is_none_or(|h| h >= left), "iter() promises {lo}..{hi:?} items with {left} of {n} left");
                let r = if skip > 0 { it.nth(skip) } else { it.next() };
                let i = at.saturating_add(skip);
                match r {
                    Some(r) => {
                        let x = er(&format!("iter() item {i} of {n}"), r)?;
                        ensure!(i < n, "iter() goes on after {n} items");
                        eq(&format!("iter() item {i} of {n}"), &x, &m[i])?;
                        *at = i + 1;
                    }
                    None => {
                        ensure!(i >= n, "iter() ended before item {i} of {n}");
                        *at = n;
                        ensure!(it.next().is_none(), "iter() goes on after its end");
                        if g.flag() {
                            drop(its.swap_remove(k));
                        }
                    }
                }
            }
            _ => ensure!(l.len() == n, "len() is {}, vector has {n}", l.len()),
        }
    }
    if let Some(ops) = lazy {
        ops(&l, &m, &starts, g, st)?;
    }
    Ok(())
}

/// Adds shards without items, as another writer may.
fn empty_shards(c: &mut layout::Node, g: &mut Gen) {
    let mut at = 8;
    let runs: Vec<(u32, u32)> = dec(&c.payload, &mut at).expect("harness: own shard table");
    let mut sizes: Vec<u32> = runs.iter().flat_map(|r| std::iter::repeat_n(r.0, r.1 as usize)).collect();
    for _ in 0..g.range(1, 5) {
        let at = g.idx(sizes.len() + 1);
        let k = g.range(1, 3);
        for _ in 0..k {
            sizes.insert(at, 0);
            let mut o = vec![];
            enc(&0u64, &mut o);
            c.kids.insert(at, layout::Node { payload: o, lz4: g.flag(), kids: vec![] });
        }
    }
    let mut runs: Vec<(u32, u32)> = vec![];
    for s in sizes {
        match runs.last_mut() {
            Some(r) if r.0 == s => r.1 += 1,
            _ => runs.push((s, 1)),
        }
    }
    c.payload.truncate(8);
    enc(&runs, &mut c.payload);
}

pub fn c03(env: &Env, g: &mut Gen, st: &mut St) -> Res {
    macro_rules! plain {
        ($t:ty, $cap:expr) => {
            history::<$t>(env, g, st, stringify!($t), $cap, None)
        };
    }
    macro_rules! lazy {
        ($t:ty, $cap:expr) => {
            history::<$t>(env, g, st, stringify!($t), $cap, Some(|l, m, s, g, st| lazy_history(l, m, s, g, st)))
        };
    }
    let big = env.index % 23 == 5;
    let k = |small: usize, large: usize| if big { large } else { small };
    match g.below(14) {
        0 => plain!(u8, k(60_000, 5_000_000)),
        1 => plain!(u64, k(20_000, 1_000_000)),
        2 => plain!(i16, 20_000),
        3 => plain!(String, k(3_000, 40_000)),
        4 => plain!(u128, k(5_000, 80_000)),
        5 => plain!(bool, 30_000),
        6 => plain!(f32, 20_000),
        7 => lazy!(Inner, k(2_000, 60_000)),
        8 => lazy!(RemoteFirst, k(150, 1_500)),
        9 => lazy!(Player, k(100, 1_000)),
        10 => lazy!(Leafy, k(200, 2_000)),
        11 => lazy!(OnlyLocal, k(300, 3_000)),
        12 => lazy!(Prims, k(200, 2_000)),
        _ => lazy!(OnlyRemote, k(150, 1_500)),
    }
}
