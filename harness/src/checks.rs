//! The properties over whole values: C01, C02, C05, C06, C07, C10, C12, C13, C17.
use crate::dynty::*;
use crate::layout::{self, HEADER, Res, View, ensure, fail};
use crate::model::*;
use crate::run::{Env, St};
use crate::schemas;
use crate::tape::Gen;
use crate::val::{Huge, Val};
use parcode::compression::CompressorRegistry;
use parcode::{Compressor, Parcode, ParcodeFile};
use std::collections::BTreeSet;
use std::sync::LazyLock;

pub static CATALOG: LazyLock<Vec<Box<dyn DynType>>> = LazyLock::new(schemas::catalog);
pub const POOLS: &[usize] = &[1, 2, 3, 4, 8, 16];

pub fn pick(g: &mut Gen) -> &'static dyn DynType {
    &**g.pick(&CATALOG)
}
pub fn named(n: &str) -> &'static dyn DynType {
    &**CATALOG.iter().find(|t| t.name() == n).expect("harness: schema name")
}

pub struct Case {
    pub ty: &'static dyn DynType,
    pub val: Box<dyn DynVal>,
    pub canon: Vec<u8>,
}

/// A value nested far deeper than the others.
fn deep(g: &mut Gen, st: &mut St) -> Case {
    let levels = g.range(20, 150);
    let mut t = schemas::Tree::gen_(g);
    for k in 0..levels as u32 {
        let mut kids = vec![t];
        if g.chance(1, 8) {
            kids.insert(g.idx(2), schemas::Tree { val: !k, kids: vec![] });
        }
        t = schemas::Tree { val: k, kids };
    }
    let val = wrap(t);
    let canon = val.canon();
    st.class("nested over 20 levels");
    st.digest(&canon);
    st.nontrivial = true;
    st.say(format!("Tree of {levels} levels"));
    Case { ty: named("Tree"), val, canon }
}

/// A type and a value of it.
pub fn value(g: &mut Gen, st: &mut St) -> Case {
    if g.chance(1, 150) {
        return deep(g, st);
    }
    let ty = pick(g);
    let huge = g.chance(1, 80).then(|| {
        let skip = g.below(4) as u32;
        let (count, len) = match g.below(8) {
            0..=2 => (1, g.range(60_000, 140_000)),
            3 => (8, g.range(66_000, 140_000)),
            4 | 5 => (1, g.range(1 << 20, 2 << 20)),
            6 => (1, g.range(4 << 20, 5 << 20)),
            _ => (1, (16 << 20) - 20 + g.idx(2 << 20)),
        };
        (Huge::strings(skip, count, len), len)
    });
    let val = ty.generate(g);
    let canon = val.canon();
    if let Some((_, len)) = huge {
        if canon.len() > len {
            st.class(if len < 1 << 20 { "string over 64 KiB" } else if len < 4 << 20 { "string over 1 MiB" } else { "string over 4 MiB" });
        }
    }
    st.digest(ty.name().as_bytes());
    st.digest(&canon);
    st.nontrivial = canon.len() >= 16;
    st.say(format!("{} value of {} bytes (canonical)", ty.name(), canon.len()));
    Case { ty, val, canon }
}

/// Rare: data larger than the library's internal buffers.
pub fn maybe_big(env: &Env, g: &mut Gen, st: &mut St) -> Option<Case> {
    if env.index % 193 != 7 {
        return None;
    }
    st.class("data over 16 MiB");
    let n = g.range(17 << 20, 24 << 20);
    let v = u8::gen_many(g, n);
    let ty = named("Vec<u8>");
    let val = wrap(v);
    let canon = val.canon();
    st.digest(&canon);
    st.nontrivial = true;
    st.say(format!("Vec<u8> of {n}"));
    Some(Case { ty, val, canon })
}

pub fn write(c: &Case, w: Wr, env: &Env, g: &mut Gen, st: &mut St) -> Res<Vec<u8>> {
    let pool = *g.pick(POOLS);
    st.say(format!("{} on {pool} threads", w.text()));
    st.class(w.text());
    let path = env.path("written.par");
    let r = if g.chance(1, 6) { c.val.write_bytes(w, &path) } else { env.pool(pool).install(|| c.val.write_bytes(w, &path)) };
    er(&format!("{} of {}", w.text(), c.ty.name()), r)
}

fn shape_classes(v: &View, st: &mut St) {
    let mut all = vec![];
    v.walk(&mut all);
    let n = all.len();
    st.class(match n {
        1 => "1 chunk",
        2..=9 => "2-9 chunks",
        10..=99 => "10-99 chunks",
        _ => "100+ chunks",
    });
    st.sum("chunks", n);
}

pub fn c01(env: &Env, g: &mut Gen, st: &mut St) -> Res {
    let c = match maybe_big(env, g, st) {
        Some(c) => c,
        None => value(g, st),
    };
    for _ in 0..2 {
        let w = Wr::gen_(g);
        let bytes = write(&c, w, env, g, st)?;
        if let Ok(p) = layout::parse(&bytes) {
            shape_classes(&p.root, st);
        }
        let path = env.path("read.par");
        std::fs::write(&path, &bytes).expect("harness: scratch file");
        for _ in 0..2 {
            let how = g.below(8);
            let pool = *g.pick(POOLS);
            let name = ["load_bytes(Vec)", "load_bytes(Arc)", "open_bytes.load", "from_bytes.load", "load(path)", "open(path).load", "ParcodeFile::open.load", "root_node/from_node"][how as usize];
            st.class(name);
            let r = if g.flag() { c.ty.load(how, &bytes, &path) } else { env.pool(pool).install(|| c.ty.load(how, &bytes, &path)) };
            let got = er(&format!("{name} of a {} written by {}", c.ty.name(), w.text()), r)?;
            same(&got, &c.canon, || format!("{name} of a {} written by {}", c.ty.name(), w.text()))?;
        }
    }
    Ok(())
}

pub fn same(got: &[u8], want: &[u8], what: impl Fn() -> String) -> Res {
    if got != want {
        let at = got.iter().zip(want).position(|(x, y)| x != y).unwrap_or(got.len().min(want.len()));
        fail!("{}: a different value (canonical forms of {} and {} bytes differ at {at})", what(), got.len(), want.len());
    }
    Ok(())
}

pub fn open(bytes: &[u8], by_path: bool, env: &Env) -> Res<ParcodeFile> {
    if by_path {
        let path = env.path("opened.par");
        std::fs::write(&path, bytes).expect("harness: scratch file");
        er("open(path)", Parcode::open(&path))
    } else {
        er("open_bytes", Parcode::open_bytes(bytes.to_vec()))
    }
}

pub fn c02(env: &Env, g: &mut Gen, st: &mut St) -> Res {
    let c = value(g, st);
    let w = Wr::gen_(g);
    let bytes = write(&c, w, env, g, st)?;
    let by_path = g.flag();
    let f = open(&bytes, by_path, env)?;
    let how = g.below(3);
    let mut s = g.sub();
    let mut x = Probe { g: &mut s, loads: 0, nth: 0, fuel: 60, blob: false };
    c.val.lazy(&f, how, &mut x).map_err(|e| format!("{} written by {}: {e}", c.ty.name(), w.text()))?;
    let loads = x.loads;
    st.sum("handle_loads_checked", loads);
    st.nontrivial &= loads > 0;
    // The eager load of the same open file agrees, before and after lazy use.
    same(&er("load", c.ty.load_file(&f))?, &c.canon, || format!("eager load of a lazily used {}", c.ty.name()))
}

pub fn c05(env: &Env, g: &mut Gen, st: &mut St) -> Res {
    let c = match maybe_big(env, g, st) {
        Some(c) => c,
        None => value(g, st),
    };
    let w = Wr::gen_(g);
    let bytes = write(&c, w, env, g, st)?;
    let what = || format!("file of a {} written by {}", c.ty.name(), w.text());
    let p = layout::parse(&bytes).map_err(|e| format!("{}: {e}", what()))?;
    let mut x = Expect::default();
    let v = c.ty.from_view(&p.root, &mut x).map_err(|e| format!("{}: {e}", what()))?;
    same(&v.canon(), &c.canon, || format!("independent reading of a {}", what()))?;
    shape_classes(&p.root, st);
    for (k, n) in [("multi-shard vector", x.multi_shard), ("several shard runs", x.multi_run), ("map buckets", x.buckets), ("compressed chunks", x.lz4_chunks)] {
        if n > 0 {
            st.class(k);
        }
    }
    st.nontrivial &= p.chunks > 1;
    Ok(())
}

pub fn c06(env: &Env, g: &mut Gen, st: &mut St) -> Res {
    let c = value(g, st);
    let lz4 = g.below(4).min(2);
    let mut s = g.sub();
    let mut plan = Plan { g: &mut s, lz4, shards: 0, multi_run: 0 };
    let node = c.val.to_node(&mut plan);
    let (shards, runs) = (plan.shards, plan.multi_run);
    let high = env.index % 29 == 11;
    let base = if high { g.range(3 << 30, 9 << 30) as u64 } else { 0 };
    let bytes = layout::assemble_at(&node, g, base);
    st.nontrivial = c.canon.len() >= 16 && !node.kids.is_empty();
    if shards > 1 {
        st.class("foreign shard split");
    }
    if runs > 0 {
        st.class("several shard runs");
    }
    let what = || format!("a conforming file of a {} ({} bytes at offset {base})", c.ty.name(), bytes.len());
    let f = if high {
        st.class("offsets past 4 GiB");
        use std::os::unix::fs::FileExt;
        let path = env.path("sparse.par");
        let file = std::fs::File::create(&path).expect("harness: sparse file");
        file.set_len(base + bytes.len() as u64).expect("harness: sparse file");
        file.write_all_at(&bytes, base).expect("harness: sparse file");
        er("open(path)", Parcode::open(&path)).map_err(|e| format!("{}: {e}", what()))?
    } else {
        let by_path = g.flag();
        open(&bytes, by_path, env)?
    };
    let pool = *g.pick(POOLS);
    let got = env.pool(pool).install(|| c.ty.load_file(&f));
    same(&er(&what(), got)?, &c.canon, || format!("eager load of {}", what()))?;
    let mut s = g.sub();
    let mut x = Probe { g: &mut s, loads: 0, nth: 0, fuel: 40, blob: false };
    c.val.lazy(&f, 0, &mut x).map_err(|e| format!("lazy reading of {}: {e}", what()))?;
    if high {
        let _ = std::fs::remove_file(env.path("sparse.par"));
    }
    Ok(())
}

fn header_ok(b: &[u8]) -> bool {
    b.len() >= HEADER && b[b.len() - 26..b.len() - 20] == *b"PAR4\x04\x00"
}

/// Every entry point must refuse these bytes.
fn refused(c: &Case, b: &[u8], paths: bool, env: &Env, what: &dyn Fn() -> String) -> Res {
    ensure!(Parcode::open_bytes(b.to_vec()).is_err(), "open_bytes accepts {}", what());
    ensure!(c.ty.load(0, b, &env.dir).is_err(), "load_bytes accepts {}", what());
    ensure!(Parcode::inspect_bytes(b.to_vec()).is_err(), "inspect_bytes accepts {}", what());
    if paths {
        let p = env.path("torn.par");
        std::fs::write(&p, b).expect("harness: scratch file");
        ensure!(Parcode::open(&p).is_err(), "open(path) accepts {}", what());
        ensure!(c.ty.load(4, b, &p).is_err(), "load(path) accepts {}", what());
        ensure!(Parcode::inspect(&p).is_err(), "inspect(path) accepts {}", what());
    }
    Ok(())
}

pub fn c07(env: &Env, g: &mut Gen, st: &mut St) -> Res {
    g.budget = if g.chance(1, 8) { 20_000 } else { 700 };
    let c = value(g, st);
    let w = Wr::gen_(g);
    let bytes = write(&c, w, env, g, st)?;
    let n = bytes.len();
    let mut tried = 0;
    let mut excluded = 0;
    // Every cut of a small file; of a larger one the last kilobyte and a sample.
    let mut cuts: Vec<usize> = if n <= 700 { (0..n).collect() } else { (0..80).chain(n - 300..n).collect() };
    if n > 700 {
        for _ in 0..120 {
            cuts.push(g.idx(n));
        }
    }
    for (i, k) in cuts.iter().enumerate() {
        let cut = &bytes[..*k];
        if header_ok(cut) {
            excluded += 1; // the data holds a header: such a prefix is a file of its own
            continue;
        }
        tried += 1;
        refused(&c, cut, i % 37 == 0 || *k < 2 || *k + 2 > n, env, &|| format!("the first {k} of {n} bytes of a saved {}", c.ty.name()))?;
    }
    // Cut at the front or in the middle, with the header kept.
    let h = n - HEADER;
    // Magic and version.
    for p in 0..6 {
        for _ in 0..6 {
            let mut b = bytes.clone();
            let new = if g.flag() { b[h + p].wrapping_add(1 + g.below(255) as u8) } else { b[h + p] ^ (1 << g.below(8)) };
            if new != b[h + p] {
                b[h + p] = new;
                tried += 1;
                refused(&c, &b, g.chance(1, 12), env, &|| format!("a file whose header byte {p} is {new:#x}"))?;
            }
        }
    }
    for v in [0u16, 1, 2, 3, 5, 6, 0x0400, 0x0404, 0xff04, 0xffff, g.u() as u16] {
        if v != 4 {
            let mut b = bytes.clone();
            b[h + 4..h + 6].copy_from_slice(&v.to_le_bytes());
            tried += 1;
            refused(&c, &b, false, env, &|| format!("a file of version {v}"))?;
        }
    }
    // Root outside the file.
    let (ro, rl) = (u64::from_le_bytes(bytes[h + 6..h + 14].try_into().unwrap()), u64::from_le_bytes(bytes[h + 14..h + 22].try_into().unwrap()));
    for _ in 0..16 {
        let big = *g.pick(&[n as u64, n as u64 + 1, u32::MAX as u64, 1 << 32, 1 << 40, i64::MAX as u64, u64::MAX - 1, u64::MAX]);
        let (o, l) = match g.below(6) {
            0 => (big, rl),
            1 => (ro, big),
            2 => (big, big),
            3 => (u64::MAX - g.below(rl + 2), rl),
            4 => (n as u64 + g.below(50), g.below(60)),
            _ => (g.u(), g.u()),
        };
        let inside = o.checked_add(l).is_some_and(|e| e <= n as u64) && l > 0;
        if inside {
            continue;
        }
        let mut b = bytes.clone();
        b[h + 6..h + 14].copy_from_slice(&o.to_le_bytes());
        b[h + 14..h + 22].copy_from_slice(&l.to_le_bytes());
        tried += 1;
        let what = || format!("a file of {n} bytes whose root is at {o}+{l}");
        ensure!(c.ty.load(0, &b, &env.dir).is_err(), "load_bytes yields data from {}", what());
        ensure!(Parcode::inspect_bytes(b.clone()).is_err(), "inspect_bytes accepts {}", what());
        if let Ok(f) = Parcode::open_bytes(b) {
            let mut poke = g.sub();
            let mut p = Poke::new(&mut poke, 5);
            c.ty.poke(&f, &mut p);
            ensure!(p.ok == 0, "the lazy root yields data from {}", what());
            ensure!(f.root_node().is_err(), "root_node yields a chunk of {}", what());
        }
    }
    // Not a Parcode file.
    for _ in 0..12 {
        let len = g.range(0, 90);
        let mut b = u8::gen_many(g, len);
        if len >= HEADER && g.flag() {
            // almost a header
            let h = len - HEADER;
            b[h..].copy_from_slice(&layout::header(0, h as u64));
            let k = g.idx(6);
            b[h + k] ^= 1 << g.below(8);
        }
        if !header_ok(&b) {
            tried += 1;
            refused(&c, &b, g.flag(), env, &|| format!("{len} foreign bytes"))?;
        }
    }
    // A complete file with bytes appended.
    for k in [1usize, 2, 25, 26, 27] {
        let mut b = bytes.clone();
        let tail = u8::gen_many(g, k);
        b.extend_from_slice(&tail);
        if !header_ok(&b) {
            tried += 1;
            refused(&c, &b, false, env, &|| format!("a file with {k} bytes appended"))?;
        }
    }
    // Padding of every usual kind, and a file that goes on with a part of itself.
    for _ in 0..5 {
        let k = *g.pick(&[1, 2, 6, 26, 512 - n % 512, 4096 - n % 4096, 4096, 65_536]);
        let fill = *g.pick(&[0u8, 0, 0xff, b' ', b'\n', 0x1a]);
        let mut b = bytes.clone();
        match g.below(4) {
            0 => b.extend_from_slice(&bytes[..g.idx(n)]),
            1 => b.extend_from_slice(&bytes[h..n - 1 - g.idx(HEADER - 1)]),
            2 => b.extend_from_slice(&vec![0; 1 + g.idx(300)]),
            _ => b.extend_from_slice(&vec![fill; k]),
        }
        if b.len() > n && !header_ok(&b) {
            tried += 1;
            let paths = g.chance(1, 4);
            refused(&c, &b, paths, env, &|| format!("a file with {} bytes appended ({}...)", b.len() - n, b[n]))?;
        }
    }
    st.sum("damaged_files_tried", tried);
    st.sum("prefixes_excluded_ending_in_a_header", excluded);
    st.nontrivial = n > HEADER + 16;
    Ok(())
}

pub fn c10(env: &Env, g: &mut Gen, st: &mut St) -> Res {
    let c = value(g, st);
    let foreign = g.chance(1, 3);
    let bytes = if foreign {
        st.class("foreign layout");
        let mut s = g.sub();
        let lz4 = s.below(3);
        let node = c.val.to_node(&mut Plan { g: &mut s, lz4, shards: 0, multi_run: 0 });
        layout::assemble(&node, g)
    } else {
        let w = Wr::gen_(g);
        write(&c, w, env, g, st)?
    };
    // Only the placement of chunks is taken from the file here.
    let Ok(p) = layout::parse(&bytes) else { return Ok(()) };
    let mut x = Expect::default();
    if c.ty.from_view(&p.root, &mut x).is_err() {
        return Ok(());
    }
    let mut all = vec![];
    p.root.walk(&mut all);
    for _ in 0..5 {
        let mut a = Access::default();
        c.val.plan(&p.root, g, &mut a);
        let mut b = bytes.clone();
        let style = g.below(4);
        let mut junk = g.sub();
        let (mut damaged, mut wholly) = (0, 0);
        // A handle knows the size of each of its chunk's children; what nobody opens may be
        // garbage down to the last byte.
        let known: BTreeSet<u64> = all
            .iter()
            .filter(|v| a.need.contains(&v.off) && !a.sparse.contains(&v.off))
            .flat_map(|v| v.kids.iter().map(|k| k.off))
            .collect();
        let whole = g.chance(3, 4);
        for v in &all {
            let n = if whole && !known.contains(&v.off) { v.len } else { v.payload_len };
            if !a.need.contains(&v.off) && n > 0 {
                damaged += 1;
                wholly += (n == v.len) as usize;
                for x in &mut b[v.off as usize..(v.off + n) as usize] {
                    *x = match style {
                        0 => 0xFF,
                        1 => !*x,
                        2 => 0xFE,
                        _ => junk.u() as u8,
                    };
                }
            }
        }
        let by_path = g.chance(1, 4);
        let what = || format!("{}{} with {damaged} of {} other chunks destroyed", c.ty.name(), a.text, all.len());
        let f = open(&b, by_path, env).map_err(|e| format!("{}: {e}", what()))?;
        c.val.exec(&f, &mut a.steps.iter()).map_err(|e| format!("{}: {e}", what()))?;
        for k in ["get_lazy", "iter_lazy", "first/last", ".get(", ".load", ".iter.", ".inline", ".len"] {
            if a.text.contains(k) {
                st.class(k);
            }
        }
        if damaged > 0 {
            st.nontrivial = true;
            st.sum("accesses_with_damage", 1);
            st.sum("chunks_destroyed", damaged);
            st.sum("of_these_with_their_footers", wholly);
        }
        st.digest(a.text.as_bytes());
        st.say(what());
    }
    Ok(())
}

/// A tree of chunks that means nothing: deep, wide or bushy.
pub fn any_tree(g: &mut Gen) -> layout::Node {
    let payload = |g: &mut Gen| {
        let n = match g.below(5) {
            0 => 0,
            1 => *g.pick(&[1, 4, 7, 8, 9, 10, 12, 13, 16]),
            2 => g.range(0, 300),
            _ => g.range(0, 40),
        };
        // Small numbers look like the counts of containers.
        if g.flag() { u8::gen_many(g, n) } else { (0..n).map(|_| *g.pick(&[0u8, 0, 0, 1, 2, 4, 251, 255])).collect() }
    };
    let node = |g: &mut Gen, kids| layout::Node { payload: payload(g), lz4: g.chance(1, 4), kids };
    let mut s = g.sub();
    let g = &mut s;
    match g.below(3) {
        0 => {
            let deep = g.range(2, 250);
            let mut n = node(g, vec![]);
            for _ in 0..deep {
                let mut kids: Vec<_> = (0..g.below(3)).map(|_| node(g, vec![])).collect();
                let at = g.idx(kids.len() + 1);
                kids.insert(at, n);
                n = node(g, kids);
            }
            n
        }
        1 => {
            let wide = *g.pick(&[1usize, 2, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 999, 1000, 1001, 1024, 1025, 4096, 4097]);
            let wide = if g.chance(1, 40) { 65_500 + g.idx(5000) } else { wide + g.idx(3) };
            let kids = (0..wide).map(|_| node(g, vec![])).collect();
            node(g, kids)
        }
        _ => {
            let mut all: Vec<_> = (0..g.range(2, 60)).map(|_| node(g, vec![])).collect();
            while all.len() > 1 {
                let k = g.range(1, all.len().min(6));
                let from = g.idx(all.len() - k + 1);
                let kids: Vec<_> = all.drain(from..from + k).collect();
                let n = node(g, kids);
                all.push(n);
                if k == 1 && g.chance(1, 4) {
                    let last = all.len() - 1;
                    let kids = vec![all.remove(0), all.remove(last - 1)];
                    let n = node(g, kids);
                    all.push(n);
                }
            }
            all.pop().unwrap()
        }
    }
}

/// Marks some chunks as compressed by an algorithm of somebody's own.
pub fn foreign_algorithms(root: &mut View, bytes: &mut [u8], g: &mut Gen) {
    if g.flag() {
        return;
    }
    let share = g.range(1, 20) as u64;
    let mut s = g.sub();
    let mut todo = vec![root];
    while let Some(v) = todo.pop() {
        if s.below(share) == 0 {
            v.comp = 2 + s.below(6) as u8;
            v.meta = v.meta & 1 | v.comp << 1;
            bytes[(v.off + v.len - 1) as usize] = v.meta;
        }
        todo.extend(v.kids.iter_mut());
    }
}

pub fn c12(env: &Env, g: &mut Gen, st: &mut St) -> Res {
    if g.chance(1, 6) {
        st.class("tree of chunks without meaning");
        let n = any_tree(g);
        let bytes = layout::assemble(&n, g);
        let mut p = layout::parse(&bytes).map_err(|e| format!("harness: {e}"))?;
        let mut bytes = bytes;
        foreign_algorithms(&mut p.root, &mut bytes, g);
        st.digest(&bytes);
        st.say(format!("{} chunks without meaning", p.chunks));
        return report(env, g, st, &bytes, &p, &Expect::default());
    }
    let c = value(g, st);
    let bytes = if g.chance(1, 3) {
        st.class("foreign layout");
        let mut s = g.sub();
        let lz4 = s.below(3);
        let node = c.val.to_node(&mut Plan { g: &mut s, lz4, shards: 0, multi_run: 0 });
        layout::assemble(&node, g)
    } else {
        let w = Wr::gen_(g);
        write(&c, w, env, g, st)?
    };
    let Ok(p) = layout::parse(&bytes) else { return Ok(()) };
    let mut x = Expect::default();
    if c.ty.from_view(&p.root, &mut x).is_err() {
        return Ok(());
    }
    report(env, g, st, &bytes, &p, &x)
}

fn report(env: &Env, g: &mut Gen, st: &mut St, bytes: &[u8], p: &layout::Parsed, x: &Expect) -> Res {
    let path = env.path("inspected.par");
    std::fs::write(&path, bytes).expect("harness: scratch file");
    let r = match g.below(3) {
        0 => er("inspect_bytes", Parcode::inspect_bytes(bytes.to_vec()))?,
        1 => er("inspect(path)", Parcode::inspect(&path))?,
        _ => er("inspect of an open file", er("open", Parcode::open(&path))?.inspect())?,
    };
    ensure!(r.file_size == bytes.len() as u64, "report says {} bytes, file has {}", r.file_size, bytes.len());
    ensure!(r.root_offset == p.root.off, "report puts the root at {}, it is at {}", r.root_offset, p.root.off);
    ensure!(r.global_version == 4, "report says version {}", r.global_version);
    fn node(i: &parcode::inspector::ChunkInfo, v: &View, x: &Expect) -> Res {
        let what = format!("report of the chunk at {}", v.off);
        ensure!(i.offset == v.off && i.total_length == v.len, "{what}: says {}+{}, is {}+{}", i.offset, i.total_length, v.off, v.len);
        ensure!(i.payload_size == v.payload_len, "{what}: says {} payload bytes, has {}", i.payload_size, v.payload_len);
        ensure!(i.child_count as usize == v.kids.len() && i.children.len() == v.kids.len(), "{what}: says {} children ({} listed), has {}", i.child_count, i.children.len(), v.kids.len());
        ensure!(i.is_chunkable == !v.kids.is_empty(), "{what}: is_chunkable is {}", i.is_chunkable);
        if v.comp > 1 {
            ensure!(i.compression_algo.contains(&v.comp.to_string()), "{what}: says algorithm {}, is number {}", i.compression_algo, v.comp);
        } else {
            let algo = ["none", "lz4"][v.comp as usize];
            ensure!(i.compression_algo.to_lowercase() == algo, "{what}: says algorithm {}, is {algo}", i.compression_algo);
        }
        let numbers: Vec<u64> = i.distribution_info.iter().flat_map(|d| d.split(|c: char| !c.is_ascii_digit()).filter_map(|s| s.parse().ok())).collect();
        if let Some((total, shards)) = x.vecs.get(&v.off)
            && *shards > 0
        {
            ensure!(i.node_type_hint.contains("Vec"), "{what}: a vector container is called {}", i.node_type_hint);
            ensure!(numbers.contains(total) && numbers.contains(&(*shards as u64)), "{what}: a vector of {total} items in {shards} shards is described as {:?}", i.distribution_info);
        }
        if let Some(b) = x.maps.get(&v.off)
            && *b > 0
        {
            ensure!(i.node_type_hint.contains("Map"), "{what}: a map container is called {}", i.node_type_hint);
            ensure!(numbers.contains(&(*b as u64)), "{what}: a map of {b} buckets is described as {:?}", i.distribution_info);
        }
        for (a, b) in i.children.iter().zip(&v.kids) {
            node(a, b, x)?;
        }
        Ok(())
    }
    node(&r.tree, &p.root, x)?;
    let text = r.to_string();
    let rows: Vec<&str> = text.lines().skip_while(|l| !l.contains("GRAPH LAYOUT")).skip(1).filter(|l| !l.trim().is_empty()).collect();
    ensure!(rows.len() == p.chunks, "the printed report has {} rows for {} chunks", rows.len(), p.chunks);
    // Rows come in depth-first order and show the size of their chunk.
    let mut all = vec![];
    p.root.walk(&mut all);
    for (row, v) in rows.iter().zip(&all) {
        let nums: Vec<u64> = row.split(|c: char| !c.is_ascii_digit()).filter_map(|s| s.parse().ok()).collect();
        ensure!(nums.contains(&v.payload_len) && nums.contains(&(v.kids.len() as u64)), "row {row:?} does not show the chunk of {} payload bytes and {} children", v.payload_len, v.kids.len());
    }
    shape_classes(&p.root, st);
    st.nontrivial = p.chunks > 1;
    if !x.vecs.is_empty() {
        st.class("with vector container");
    }
    if !x.maps.is_empty() {
        st.class("with map container");
    }
    Ok(())
}

/// Byte strings that stress a block compressor.
fn payload(g: &mut Gen) -> Vec<u8> {
    let n = match g.below(10) {
        0 => g.range(0, 20),
        1 | 2 => g.range(0, 300),
        3 => *g.pick(&[0, 1, 4, 11, 12, 13, 15, 16, 63, 64, 65, 255, 256, 270, 271, 65_535, 65_536, 65_537, 131_072]),
        4..=6 => g.range(0, 5000),
        7 | 8 => g.range(5000, 80_000),
        _ => g.range(80_000, 1_500_000),
    };
    if g.chance(1, 5) {
        // Compresses as well as anything can.
        let period = [1, 2, 3, 4, 7, 100][g.idx(6)];
        let one = u8::gen_many(g, period);
        let n = n * [1, 1, 1, 10][g.idx(4)];
        return one.into_iter().cycle().take(n).collect();
    }
    let mut v = u8::gen_many(g, n);
    if n > 40 && g.flag() {
        // far and overlapping repetitions
        for _ in 0..g.range(1, 6) {
            let from = g.idx(n / 2);
            let to = g.idx(n - 1);
            let k = g.range(1, n / 3).min(n - from).min(n - to);
            v.copy_within(from..from + k, to);
        }
    }
    v
}

fn codec(g: &mut Gen, st: &mut St) -> Res {
    let reg = CompressorRegistry::new();
    let data = payload(g);
    st.digest(&data);
    st.nontrivial = data.len() >= 16;
    let direct = parcode::Lz4Compressor;
    let plain = parcode::NoCompression;
    for id in 0..8u8 {
        let c: &dyn Compressor = match reg.get(id) {
            Ok(c) => c,
            Err(_) => {
                ensure!(id > 1, "no algorithm under id {id}");
                continue;
            }
        };
        ensure!(c.id() == id, "algorithm under id {id} calls itself {}", c.id());
    }
    ensure!(reg.get(8).is_err() && reg.get(255).is_err(), "algorithm under an id that does not exist");
    for (name, c) in [("lz4", &direct as &dyn Compressor), ("none", &plain), ("registry 0", reg.get(0).unwrap()), ("registry 1", reg.get(1).unwrap())] {
        let a = er(name, c.compress(&data))?;
        let back = er(name, c.decompress(&a))?;
        ensure!(*back == data[..], "{name}: decompress(compress(x)) is not x for {} bytes", data.len());
        let pre = g.range(0, 40);
        let pre = u8::gen_many(g, pre);
        let mut out = pre.clone();
        er(name, c.compress_append(&data, &mut out))?;
        ensure!(out.starts_with(&pre), "{name}: compress_append changes what was there");
        let back = er(name, c.decompress(&out[pre.len()..]))?;
        ensure!(*back == data[..], "{name}: decompress(compress_append(x)) is not x for {} bytes", data.len());
        if c.id() == 1 {
            // An independent decoder agrees.
            for enc in [&a[..], &out[pre.len()..]] {
                ensure!(enc.len() >= 5 && enc[..4] == (data.len() as u32).to_le_bytes(), "{name}: no size prefix");
                let d = layout::lz4_block(&enc[4..], data.len()).map_err(|e| format!("{name}: {e}"))?;
                ensure!(d == data, "{name}: independent decoding differs");
            }
            // Malformed input is an error, or at worst other data, never a panic.
            let enc = a.to_vec();
            for k in [0, 1, 2, 3] {
                if k < enc.len() {
                    ensure!(c.decompress(&enc[..k]).is_err(), "{name}: decompresses a stream of {k} bytes");
                }
            }
            for _ in 0..6 {
                let mut e = enc.clone();
                match g.below(4) {
                    0 => {
                        let k = g.idx(e.len());
                        e.truncate(k);
                        // A cut block cannot hold all of the data.
                        ensure!(c.decompress(&e).map_or(true, |d| *d != data[..] || data.is_empty()), "{name}: decompresses a truncated stream to the whole data");
                        if data.len() > 3 {
                            ensure!(c.decompress(&e).is_err(), "{name}: accepts a stream cut to {k} of {} bytes", enc.len());
                        }
                    }
                    1 => {
                        let n = (data.len() as u32).wrapping_add(g.range(1, 9) as u32);
                        e[..4].copy_from_slice(&n.to_le_bytes());
                        ensure!(c.decompress(&e).is_err(), "{name}: accepts a size prefix of {n} for {} bytes", data.len());
                    }
                    2 if !data.is_empty() => {
                        let n = g.idx(data.len()) as u32;
                        e[..4].copy_from_slice(&n.to_le_bytes());
                        ensure!(c.decompress(&e).is_err(), "{name}: accepts a size prefix of {n} for {} bytes", data.len());
                    }
                    _ => {
                        let k = 4 + g.idx(e.len() - 4);
                        e[k] ^= 1 << g.below(8);
                        let _ = c.decompress(&e);
                    }
                }
            }
        }
    }
    st.say(format!("codecs on {} bytes", data.len()));
    st.class("codec");
    Ok(())
}

pub fn c13(env: &Env, g: &mut Gen, st: &mut St) -> Res {
    if env.index % 3 == 0 {
        return codec(g, st);
    }
    // Types with attributes more often.
    let ty = match g.below(4) {
        0 => named("Comp"),
        1 => named(["Squad", "World", "Player", "Deep1", "Items"][g.idx(5)]),
        _ => pick(g),
    };
    let val = ty.generate(g);
    let canon = val.canon();
    st.digest(ty.name().as_bytes());
    st.digest(&canon);
    st.say(format!("{} value of {} bytes", ty.name(), canon.len()));
    let c = Case { ty, val, canon };
    let mut shapes = vec![];
    for compress in [false, true] {
        let how = g.below(2) as u8 * if g.chance(1, 4) { 1 } else { 4 };
        let w = Wr { how: if how == 4 { 3 + g.below(2) as u8 } else { how }, builder: true, compress };
        let bytes = write(&c, w, env, g, st)?;
        let what = || format!("{} written by {}", c.ty.name(), w.text());
        let Ok(p) = layout::parse(&bytes) else { return Err(format!("{}: chunks cannot be read back with the algorithms their flags name: {}", what(), layout::parse(&bytes).err().unwrap())) };
        let mut x = Expect { check_comp: true, global_lz4: compress, ..Default::default() };
        let v = c.ty.from_view(&p.root, &mut x).map_err(|e| format!("{}: {e}", what()))?;
        same(&v.canon(), &c.canon, || format!("independent reading of a {}", what()))?;
        same(&er(&what(), c.ty.load(0, &bytes, &env.dir))?, &c.canon, what)?;
        if x.lz4_chunks > 0 {
            st.class(if compress { "compressed by option" } else { "compressed by attribute" });
        }
        st.nontrivial |= x.lz4_chunks > 0;
        fn plain(v: &View) -> layout::Node {
            layout::Node { payload: v.payload.clone(), lz4: false, kids: v.kids.iter().map(plain).collect() }
        }
        fn bare(n: &layout::Node, o: &mut Vec<u8>) {
            o.extend_from_slice(&(n.payload.len() as u64).to_le_bytes());
            o.extend_from_slice(&n.payload);
            o.extend_from_slice(&(n.kids.len() as u64).to_le_bytes());
            n.kids.iter().for_each(|k| bare(k, o));
        }
        let mut o = vec![];
        bare(&plain(&p.root), &mut o);
        shapes.push(o);
    }
    ensure!(shapes[0] == shapes[1], "{}: chunk structure or payloads change when compression is enabled", c.ty.name());
    Ok(())
}

pub fn c17(env: &Env, g: &mut Gen, st: &mut St) -> Res {
    let c = match maybe_big(env, g, st) {
        Some(c) => c,
        None => value(g, st),
    };
    let compress = g.chance(1, 3);
    let sync = Wr { how: 1, builder: true, compress };
    let a = write(&c, sync, env, g, st)?;
    let b = write(&c, Wr { how: if g.flag() { 1 } else { 4 }, ..sync }, env, g, st)?;
    ensure!(a == b, "{}: writing the same object synchronously twice gives different bytes ({} and {})", c.ty.name(), a.len(), b.len());
    let pa = layout::parse(&a).map_err(|e| format!("synchronous file of a {}: {e}", c.ty.name()))?;
    let mut want = vec![];
    pa.root.shape(&mut want);
    for _ in 0..2 {
        let w = Wr { how: if g.flag() { 0 } else { 3 }, ..sync };
        let p = write(&c, w, env, g, st)?;
        ensure!(p.len() == a.len(), "{}: {} writes {} bytes, write_sync {}", c.ty.name(), w.text(), p.len(), a.len());
        let pp = layout::parse(&p).map_err(|e| format!("parallel file of a {}: {e}", c.ty.name()))?;
        let mut got = vec![];
        pp.root.shape(&mut got);
        ensure!(got == want, "{}: {} and write_sync write different chunk trees", c.ty.name(), w.text());
        if p != a {
            st.class("chunks placed in another order");
        }
    }
    shape_classes(&pa.root, st);
    st.nontrivial = pa.chunks > 1;
    Ok(())
}
