//! C20: the size of the pieces a container is cut into.
use crate::checks::POOLS;
use crate::dynty::*;
use crate::layout::{self, Res, View, ensure};
use crate::maps::MapRoot;
use crate::model::*;
use crate::run::{Env, St};
use crate::schemas::*;
use crate::tape::Gen;
use crate::val::*;
use parcode::graph::{ChunkId, JobConfig, SerializationJob, TaskGraph};
use parcode::visitor::ParcodeVisitor;
use std::collections::HashMap;

const LARGEST: usize = 128 * 1024;
const SMALLEST: usize = 4 * 1024;
/// The count that precedes the items of a shard.
const COUNT: usize = 9;

/// A vector written as the root, with the attributes of a field.
struct VecRoot<T>(Vec<T>, u8);
impl<T: Item> ParcodeVisitor for VecRoot<T>
where
    Vec<T>: ParcodeVisitor,
{
    fn visit<'a>(&'a self, graph: &mut TaskGraph<'a>, parent: Option<ChunkId>, _: Option<JobConfig>) {
        let c = (self.1 > 0).then_some(JobConfig { compression_id: self.1, is_map: false });
        self.0.visit(graph, parent, c);
    }
    fn create_job<'a>(&'a self, c: Option<JobConfig>) -> Box<dyn SerializationJob<'a> + 'a> {
        self.0.create_job(c)
    }
}

/// How many items of `size` bytes make an interesting vector.
fn amount(env: &Env, g: &mut Gen, size: usize) -> usize {
    let cores = std::thread::available_parallelism().map_or(1, |n| n.get());
    let total = match g.below(8) {
        0 => g.range(0, 5000),
        1 => g.range(4000, 20_000),
        // where every core gets its pieces
        2 | 3 => (SMALLEST * cores * 4 + g.idx(40_000)).saturating_sub(20_000),
        4 | 5 => g.range(100_000, 2_000_000),
        // where pieces reach the largest size
        6 => g.range(2, 8) << 20,
        _ if env.index % 5 == 1 => LARGEST * cores * 4 + g.idx(12_000_000),
        _ => g.range(20_000, 600_000),
    };
    (total / size).min(3_000_000)
}

fn vector<T: Item>(env: &Env, g: &mut Gen, st: &mut St, name: &str, item: T) -> Res
where
    Vec<T>: Root,
{
    let mut one = vec![];
    enc(&item, &mut one);
    let size = one.len();
    let n = amount(env, g, size);
    let mut items = vec![item; n];
    if g.chance(1, 4) {
        // Room for more is no part of the value.
        items.reserve_exact(g.range(n, 3 * n + 10_000));
        st.class("vector or map with spare room");
    }
    let v = VecRoot(items, g.below(2) as u8);
    let w = Wr::gen_(g);
    let pool = *g.pick(POOLS);
    let path = env.path("w.par");
    let bytes = er("write", env.pool(pool).install(|| write_bytes(w, &path, &v)))?;
    let root = layout::parse(&bytes)?.root;
    let sizes: Vec<usize> = root.kids.iter().map(|k| k.payload.len()).collect();
    let what = || format!("{n} items of {size} bytes each ({name}) in {} shards of {:?}.. bytes, {}", sizes.len(), &sizes[..sizes.len().min(4)], w.text());
    st.digest(format!("{name} {n} {size}").as_bytes());
    st.say(what());
    st.nontrivial = sizes.len() > 1;
    st.class(match sizes.len() {
        0 => "no shard",
        1 => "1 shard",
        2..=31 => "2-31 shards",
        _ => "32+ shards",
    });
    st.sum("shards", sizes.len());
    for (i, s) in sizes.iter().enumerate() {
        // Bounded work for one access.
        ensure!(*s <= LARGEST + COUNT || *s <= size + COUNT, "{}: shard {i} is larger than 128 KiB", what());
        if *s > LARGEST / 2 && *s > 2 * size {
            st.class("shards near the largest size");
        }
        // No flood of tiny chunks.
        if i + 1 < sizes.len() {
            ensure!(*s + size >= SMALLEST, "{}: shard {i} is smaller than 4 KiB although more items follow", what());
        }
    }
    // Enough pieces for every core, as long as they are worth it.
    let cores = std::thread::available_parallelism().map_or(1, |n| n.get());
    let worth = (4 * cores).min(n).min(n * size / SMALLEST);
    ensure!(sizes.len() >= worth, "{}: fewer than the {worth} pieces that {cores} cores could share", what());
    Ok(())
}

fn bounds(n: usize) -> (usize, usize) {
    match n {
        0 => (0, 0),
        _ => ((n / 4000).clamp(1, 256), n.div_ceil(500)),
    }
}
fn map(env: &Env, g: &mut Gen, st: &mut St) -> Res {
    let n = match g.below(9) {
        0 => g.range(0, 3),
        1 | 2 => g.range(3, 2500),
        3 | 4 => 2000 * g.range(1, 6) - 3 + g.idx(6),
        5 if env.index % 11 == 2 => 2_048_000 - 20_000 + g.idx(60_000),
        5 | 6 => g.range(20_000, 150_000),
        _ => g.range(2000, 30_000),
    };
    let strided = g.flag();
    let base = g.u();
    let stride = 1 << g.below(33);
    let mut s = g.sub();
    let mut m: HashMap<u64, u8> = (0..n as u64).map(|i| (if strided { base.wrapping_add(i.wrapping_mul(stride)) } else { s.u() }, i as u8)).collect();
    if g.chance(1, 3) {
        m.reserve(g.range(20_000, 200_000));
        st.class("vector or map with spare room");
    }
    if g.chance(1, 4) {
        let keep = g.idx(n + 1);
        let mut i = 0;
        m.retain(|_, _| {
            i += 1;
            i <= keep
        });
    }
    let n = m.len();
    let root = MapRoot(m, g.below(2) as u8);
    let w = Wr::gen_(g);
    let path = env.path("w.par");
    let bytes = er("write", write_bytes(w, &path, &root))?;
    let v = layout::parse(&bytes)?.root;
    let fill: Vec<usize> = v.kids.iter().map(|k: &View| k.payload.get(..4).map_or(0, |b| u32::from_le_bytes(b.try_into().unwrap()) as usize)).collect();
    let (lo, hi) = bounds(n);
    let b = fill.len();
    let what = || format!("a map of {n} {} keys in {b} buckets of {:?}.. entries, {}", if strided { "strided" } else { "random" }, &fill[..b.min(4)], w.text());
    st.digest(format!("{n} {base} {stride} {strided}").as_bytes());
    st.say(what());
    st.nontrivial = b > 1;
    st.class(match b {
        0 => "no bucket",
        1 => "1 bucket",
        2..=255 => "2-255 buckets",
        _ => "256+ buckets",
    });
    st.sum("buckets", b);
    ensure!(b >= lo && b <= hi, "{}: expected {lo} to {hi} buckets", what());
    ensure!(fill.iter().sum::<usize>() == n, "{}: the buckets hold {} entries", what(), fill.iter().sum::<usize>());
    // Keys are spread: no bucket holds far more than its part.
    if b > 0 {
        let most = fill.iter().max().copied().unwrap_or(0);
        ensure!(most <= 2 * (n / b) + 300, "{}: one bucket holds {most} entries", what());
    }
    Ok(())
}

pub fn c20(env: &Env, g: &mut Gen, st: &mut St) -> Res {
    let mut s = g.sub();
    s.budget = 200;
    let text = |g: &mut Gen| {
        let n = match g.below(8) {
            0 => g.idx(4),
            1 | 2 => g.range(4, 60),
            3 | 4 => g.range(60, 5000),
            5 => 4096 - 30 + g.idx(60),
            6 => g.range(5000, 131_000),
            _ => g.range(100_000, 300_000),
        };
        "x".repeat(n)
    };
    match g.below(12) {
        0..=2 => map(env, g, st),
        3..=5 => {
            let t = text(g);
            vector(env, g, st, "String", t)
        }
        6 => vector(env, g, st, "u8", 7u8),
        7 => {
            let x = *g.pick(&[0u64, 250, 251, 65_535, 65_536, 1 << 32, u64::MAX]);
            vector(env, g, st, "u64", x)
        }
        8 => vector(env, g, st, "f32", 1.5f32),
        9 => vector(env, g, st, "Inner", Inner::gen_(&mut s)),
        10 => vector(env, g, st, "OnlyLocal", OnlyLocal::gen_(&mut s)),
        _ => vector(env, g, st, "u128", u128::MAX),
    }
}
