//! C04: lookups in saved maps.
use crate::checks::{POOLS, open};
use crate::dynty::*;
use crate::layout::{self, Res, ensure, fail};
use crate::model::*;
use crate::run::{Env, St};
use crate::schemas::*;
use crate::tape::Gen;
use crate::val::*;
use parcode::graph::{ChunkId, JobConfig, SerializationJob, TaskGraph};
use parcode::rt::ParcodeLazyRef;
use parcode::visitor::ParcodeVisitor;
use parcode::{ParcodeMapPromise, ParcodeNative};
use std::collections::HashMap;

/// A map written as the root with the `map` attribute.
pub struct MapRoot<K, V>(pub HashMap<K, V>, pub u8);
impl<K: Key, V: MapVal> ParcodeVisitor for MapRoot<K, V> {
    fn visit<'a>(&'a self, graph: &mut TaskGraph<'a>, parent: Option<ChunkId>, _: Option<JobConfig>) {
        self.0.visit(graph, parent, Some(JobConfig { compression_id: self.1, is_map: true }));
    }
    fn create_job<'a>(&'a self, c: Option<JobConfig>) -> Box<dyn SerializationJob<'a> + 'a> {
        self.0.create_job(c)
    }
}

fn entries(env: &Env, g: &mut Gen, cap: usize) -> usize {
    let n = match g.below(14) {
        0 => 0,
        1 => 1,
        2 => 2,
        3..=5 => g.range(2, 60),
        6..=8 => g.range(50, 900),
        // around the counts at which buckets are added
        9 | 10 => 2000 * g.range(1, 4) - 3 + g.idx(6),
        11 => 2000 * g.range(5, 9) - 3 + g.idx(6),
        12 => g.range(900, 6000),
        _ => g.range(6000, 24_000),
    };
    let _ = env;
    n.min(cap)
}

fn table<K: Key, V: MapVal>(g: &mut Gen, n: usize) -> HashMap<K, V> {
    let mut m = HashMap::new();
    let mut s = g.sub();
    s.depth += 1;
    let b = if n > 24 { (g.budget / 2) / n } else { g.budget / 4 };
    let mut tries = 0;
    let mut last: Option<K> = None;
    while m.len() < n && tries < 4 * n + 16 {
        tries += 1;
        s.budget = b;
        // Neighbouring keys too.
        let k = match &last {
            Some(l) if s.chance(1, 3) => l.near(&mut s).unwrap_or_else(|| K::gen_(&mut s)),
            _ => K::gen_(&mut s),
        };
        last = Some(k.clone());
        let v = V::gen_(&mut s);
        m.insert(k, v);
    }
    m
}

fn case<K: Key, V: MapVal>(env: &Env, g: &mut Gen, st: &mut St, name: &str, cap: usize) -> Res
where
    HashMap<K, V>: Root + for<'a> ParcodeLazyRef<'a, Lazy = ParcodeMapPromise<'a, K, V>>,
{
    let n = entries(env, g, cap);
    let m: HashMap<K, V> = table(g, n);
    check(env, g, st, name, m, 400)
}

fn check<K: Key, V: MapVal>(env: &Env, g: &mut Gen, st: &mut St, name: &str, m: HashMap<K, V>, sample: usize) -> Res
where
    HashMap<K, V>: Root + for<'a> ParcodeLazyRef<'a, Lazy = ParcodeMapPromise<'a, K, V>>,
{
    let canon = m.canon_vec();
    st.digest(name.as_bytes());
    st.digest(&canon);
    st.nontrivial = m.len() > 1;
    let how = g.below(8);
    let path = env.path("m.par");
    let (bytes, is_map, text) = match how {
        0..=3 => {
            let w = Wr::gen_(g);
            let root = MapRoot(m, g.below(2) as u8);
            let pool = *g.pick(POOLS);
            let b = er("write", env.pool(pool).install(|| write_bytes(w, &path, &root)))?;
            return finish(env, g, st, name, root.0, canon, b, true, "written by the library", sample);
        }
        4 => {
            let w = Wr::gen_(g);
            (er("write", write_bytes(w, &path, &m))?, false, "one blob written by the library")
        }
        5 => {
            let mut s = g.sub();
            let lz4 = g.below(3);
            let node = m.to_node(&mut Plan { g: &mut s, lz4, shards: 0, multi_run: 0 }, Cfg::default());
            (layout::assemble(&node, g), false, "one blob of another writer")
        }
        _ => {
            let mut s = g.sub();
            let lz4 = g.below(3);
            let node = m.to_node(&mut Plan { g: &mut s, lz4, shards: 0, multi_run: 0 }, Cfg { is_map: true, alg: 0 });
            (layout::assemble(&node, g), true, "written by another writer")
        }
    };
    finish(env, g, st, name, m, canon, bytes, is_map, text, sample)
}

#[allow(clippy::too_many_arguments)]
fn finish<K: Key, V: MapVal>(env: &Env, g: &mut Gen, st: &mut St, name: &str, m: HashMap<K, V>, canon: Vec<u8>, bytes: Vec<u8>, is_map: bool, text: &str, sample: usize) -> Res
where
    HashMap<K, V>: Root + for<'a> ParcodeLazyRef<'a, Lazy = ParcodeMapPromise<'a, K, V>>,
{
    let p = layout::parse(&bytes)?;
    let buckets = p.root.kids.len();
    st.class(text);
    st.class(match buckets {
        0 => "no bucket",
        1 => "1 bucket",
        2..=5 => "2-5 buckets",
        6..=256 => "6-256 buckets",
        _ => "more than 256 buckets",
    });
    st.say(format!("map of {} ({name}), {buckets} buckets, {text}", m.len()));
    let by_path = g.chance(1, 3);
    let f = open(&bytes, by_path, env)?;
    let root = er("root_node", f.root_node())?;
    let l: ParcodeMapPromise<K, V> = if g.flag() { ParcodeMapPromise::new(root.clone()) } else { er("root()", f.root::<HashMap<K, V>>())? };
    // Lookups before and after whole loads.
    let mut s = g.sub();
    let mut x = Probe { g: &mut s, loads: 0, nth: 1, fuel: 8, blob: false };
    let c = Cfg { is_map, alg: 0 };
    if is_map || m.len() < 400 {
        check_map(&l, &m, c, &mut x)?;
    }
    st.sum("lookups", x.loads);
    let got = er("map load", if g.flag() { l.load() } else { HashMap::<K, V>::from_node(&root) })?;
    ensure!(got.len() == m.len(), "load of a map of {} entries returns {}", m.len(), got.len());
    if got.canon_vec() != canon {
        fail!("load of a map of {} entries returns other entries", m.len());
    }
    let got = er("load", f.load::<HashMap<K, V>>())?;
    if got.canon_vec() != canon {
        fail!("eager load of a map of {} entries returns other entries", m.len());
    }
    let mut keys: Vec<&K> = m.keys().collect();
    if is_map && keys.len() < 3000 {
        keys.sort_by_cached_key(|k| k.canon_vec());
    }
    let step = 1 + keys.len() / if is_map { sample } else { 4 };
    let off = g.idx(step);
    for k in keys.iter().skip(off).step_by(step) {
        st.sum("lookups", 1);
        match er("map get", l.get(k))? {
            Some(v) => eq("map get", &v, &m[*k])?,
            None => fail!("map get: present key not found ({} entries, {buckets} buckets)", m.len()),
        }
    }
    Ok(())
}

pub fn c04(env: &Env, g: &mut Gen, st: &mut St) -> Res {
    if env.index % 503 == 41 || (env.index % 61 == 7) {
        // Many buckets; at the first, more entries than the largest number of buckets is meant for.
        let n = if env.index % 503 == 41 { 2_040_000 + g.idx(30_000) } else { g.range(30_000, 400_000) };
        let mut s = g.sub();
        let m: HashMap<u64, u32> = (0..n).map(|i| (s.u(), i as u32)).collect();
        return check(env, g, st, "u64 -> u32, bulk", m, 300);
    }
    match g.below(18) {
        0 => case::<u8, String>(env, g, st, "u8 -> String", 256),
        1 => case::<u32, u32>(env, g, st, "u32 -> u32", 24_000),
        2 => case::<u64, String>(env, g, st, "u64 -> String", 12_000),
        3 => case::<String, u64>(env, g, st, "String -> u64", 12_000),
        4 => case::<i64, f64>(env, g, st, "i64 -> f64", 24_000),
        5 => case::<char, bool>(env, g, st, "char -> bool", 10_000),
        6 => case::<(u8, String), Vec<u8>>(env, g, st, "(u8, String) -> Vec<u8>", 6_000),
        7 => case::<bool, u16>(env, g, st, "bool -> u16", 2),
        8 => case::<Weak, u32>(env, g, st, "colliding -> u32", 300),
        9 => case::<Weak, Inner>(env, g, st, "colliding -> Inner", 60),
        10 => case::<u32, Inner>(env, g, st, "u32 -> Inner", 6_000),
        11 => case::<u32, RemoteFirst>(env, g, st, "u32 -> RemoteFirst", 120),
        12 => case::<String, Twins>(env, g, st, "String -> Twins", 120),
        13 => case::<Weak, Leafy>(env, g, st, "colliding -> Leafy", 60),
        14 => case::<u16, Player>(env, g, st, "u16 -> Player", 120),
        15 => case::<u64, MapItem>(env, g, st, "u64 -> MapItem", 120),
        16 => case::<i32, Empty>(env, g, st, "i32 -> Empty", 9_000),
        _ => case::<u64, OnlyLocal>(env, g, st, "u64 -> OnlyLocal", 2_500),
    }
}
