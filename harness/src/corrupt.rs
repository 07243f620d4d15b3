//! C08: corrupted files through every read API.
use crate::checks::{CATALOG, pick, value};
use crate::dynty::*;
use crate::layout::{self, HEADER, Node, Res, View, ensure};
use crate::model::*;
use crate::run::{Env, St, take_panic};
use crate::schemas::*;
use crate::tape::Gen;
use crate::val::*;
use parcode::reader::ChunkNode;
use parcode::{Parcode, ParcodeFile, ParcodeItem};
use std::panic::{AssertUnwindSafe, catch_unwind};

const ODD: &[u64] = &[
    0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 25, 26, 27, 127, 128, 250, 251, 252, 253, 254, 255, 256, 4095, 4096, 65_535, 65_536, 1 << 20, (1 << 31) - 1, 1 << 31,
    (1 << 32) - 1, 1 << 32, 1 << 40, 1 << 47, 1 << 60, (1 << 60) - 1, (1 << 61) - 1, (1 << 63) - 1, 1 << 63, u64::MAX / 16, u64::MAX / 16 + 1, u64::MAX - 25, u64::MAX - 15, u64::MAX - 1, u64::MAX,
];
fn odd(g: &mut Gen, n: u64) -> u64 {
    match g.below(4) {
        0 => *g.pick(ODD),
        1 => n.wrapping_add(g.below(9)).wrapping_sub(4),
        2 => g.below(n.max(2).saturating_mul(2)),
        _ => g.int(),
    }
}

fn to_node(v: &View) -> Node {
    Node { payload: v.payload.clone(), lz4: v.comp == 1, kids: v.kids.iter().map(to_node).collect() }
}
fn nth<'n>(n: &'n mut Node, k: &mut usize) -> Option<&'n mut Node> {
    if *k == 0 {
        return Some(n);
    }
    *k -= 1;
    n.kids.iter_mut().find_map(|c| nth(c, k))
}
fn size(n: &Node) -> usize {
    1 + n.kids.iter().map(size).sum::<usize>()
}

/// Changes that leave the container structure sound: payloads, child lists, flags.
fn bend(root: &mut Node, g: &mut Gen, st: &mut St) {
    let n = size(root);
    // Containers, near the root, most of the time.
    let mut k = match g.below(3) {
        0 => 0,
        1 => g.idx(n.min(6)),
        _ => g.idx(n),
    };
    let donor = {
        let mut k = g.idx(n);
        nth(root, &mut k).cloned().unwrap_or_default()
    };
    let Some(x) = nth(root, &mut k) else { return };
    let p = &mut x.payload;
    let what = g.below(16);
    match what {
        0 | 1 if p.len() >= 8 => {
            let v = odd(g, u64::from_le_bytes(p[..8].try_into().unwrap()));
            p[..8].copy_from_slice(&v.to_le_bytes());
        }
        2 | 3 if p.len() >= 8 && x.kids.len() < 3000 => {
            // a shard table of another shape
            let runs: Vec<(u32, u32)> = (0..g.range(0, 5)).map(|_| (odd(g, 100) as u32, odd(g, x.kids.len() as u64) as u32)).collect();
            p.truncate(8);
            enc(&runs, p);
        }
        4 | 5 if !p.is_empty() => {
            let i = g.idx(p.len().min(64));
            p[i] = *g.pick(&[0, 1, 2, 0x7f, 0x80, 250, 251, 252, 253, 254, 255]);
        }
        6 if !p.is_empty() => {
            let i = g.idx(p.len());
            p.truncate(i);
        }
        7 => {
            let n = g.range(1, 40);
            let v = u8::gen_many(g, n);
            p.extend_from_slice(&v);
        }
        8 if p.len() >= 4 => {
            let w = *g.pick(&[2usize, 4, 8]);
            if p.len() >= w {
                let i = g.idx(p.len() - w + 1);
                let v = odd(g, p.len() as u64).to_le_bytes();
                p[i..i + w].copy_from_slice(&v[..w]);
            }
        }
        9 if !p.is_empty() => {
            // a varint of a huge value in place of a byte
            let i = g.idx(p.len());
            let mut e = vec![];
            enc(&odd(g, 1 << 33), &mut e);
            p.splice(i..i + 1, e);
        }
        10 if !x.kids.is_empty() => {
            let i = g.idx(x.kids.len());
            x.kids.remove(i);
        }
        11 => {
            let i = g.idx(x.kids.len() + 1);
            let mut d = donor;
            if size(&d) > 40 {
                d.kids.clear();
            }
            x.kids.insert(i, d);
        }
        12 if x.kids.len() > 1 => {
            let (i, j) = (g.idx(x.kids.len()), g.idx(x.kids.len()));
            x.kids.swap(i, j);
        }
        13 => x.kids.clear(),
        14 => {
            // a chunk that is not what its parent says
            let n = g.range(0, 70);
            *p = u8::gen_many(g, n);
        }
        _ => {
            // a chain of chunks around this one
            let n = g.range(1, 60);
            for _ in 0..n {
                let inner = std::mem::take(x);
                let own = if g.flag() { inner.payload.clone() } else { vec![] };
                *x = Node { payload: own, lz4: false, kids: vec![inner] };
            }
        }
    }
    st.class(["payload count", "payload count", "shard table", "shard table", "payload byte", "payload byte", "payload cut", "payload extended", "payload word", "payload varint", "child removed", "child added", "children swapped", "no children", "payload replaced", "chain"][what as usize]);
}

/// Where a file keeps the numbers that hold it together.
fn places(v: &View, out: &mut Vec<(usize, usize, u64)>) {
    let end = (v.off + v.len) as usize;
    out.push((end - 1, 1, v.meta as u64));
    if !v.kids.is_empty() {
        out.push((end - 5, 4, v.kids.len() as u64));
        let t = (v.off + v.payload_len) as usize;
        for (i, k) in v.kids.iter().enumerate() {
            out.push((t + 16 * i, 8, k.off));
            out.push((t + 16 * i + 8, 8, k.len));
        }
    }
    if v.payload_len >= 8 {
        out.push((v.off as usize, 8, u64::from_le_bytes(v.payload.get(..8).map_or([0; 8], |b| b.try_into().unwrap()))));
    }
    if v.comp == 1 && v.payload_len >= 4 {
        out.push((v.off as usize, 4, v.payload.len() as u64));
    }
    for k in &v.kids {
        places(k, out);
    }
}

/// Changes to the bytes of a file.
fn damage(b: &mut Vec<u8>, root: &View, redirects: &mut usize, g: &mut Gen, st: &mut St) {
    let n = b.len();
    let mut all = vec![];
    root.walk(&mut all);
    let mut pl = vec![];
    places(root, &mut pl);
    let h = n - HEADER;
    pl.push((h + 6, 8, root.off));
    pl.push((h + 14, 8, root.len));
    let what = g.below(9);
    match what {
        0..=3 => {
            let (at, w, was) = *g.pick(&pl);
            if at + w > b.len() {
                return;
            }
            let v = if w == 1 {
                match g.below(3) {
                    0 => was ^ 1,
                    1 => was ^ (g.below(8) << 1),
                    _ => g.below(256),
                }
            } else {
                odd(g, was)
            };
            b[at..at + w].copy_from_slice(&v.to_le_bytes()[..w]);
            st.class(["field: meta byte", "field: child count or size prefix", "field: reference or count"][match w { 1 => 0, 4 => 1, _ => 2 }]);
        }
        4 | 5 if *redirects < 3 => {
            // a reference to some other chunk, or part of one
            *redirects += 1;
            let p = *g.pick(&all);
            if p.kids.is_empty() {
                return;
            }
            let i = g.idx(p.kids.len());
            let t = *g.pick(&all);
            let (mut o, mut l) = (t.off, t.len);
            match g.below(5) {
                0 => {
                    let d = g.below(l);
                    o += d;
                    l -= d;
                }
                1 => l = g.below(l + 1),
                2 => l += g.below(40),
                _ => {}
            }
            let at = (p.off + p.payload_len) as usize + 16 * i;
            if at + 16 <= b.len() {
                b[at..at + 8].copy_from_slice(&o.to_le_bytes());
                b[at + 8..at + 16].copy_from_slice(&l.to_le_bytes());
            }
            st.class("reference redirected");
        }
        6 => {
            for _ in 0..g.range(1, 4) {
                let i = g.idx(h);
                if i < b.len() {
                    b[i] ^= 1 << g.below(8);
                }
            }
            st.class("bit flips");
        }
        7 => {
            let i = g.idx(h);
            let j = (i + g.range(1, 24)).min(h).min(b.len());
            for x in &mut b[i.min(j)..j] {
                *x = g.u() as u8;
            }
            st.class("bytes overwritten");
        }
        _ => {
            // bytes removed or inserted before the header
            let i = g.idx(h);
            if g.flag() {
                let j = (i + g.range(1, 40)).min(h);
                b.drain(i..j);
            } else {
                let k = g.range(1, 40);
                let v = u8::gen_many(g, k);
                b.splice(i..i, v);
            }
            st.class("bytes shifted");
        }
    }
}

/// A vector whose shard table names one chunk very many times.
fn crowd(g: &mut Gen, st: &mut St) -> Vec<u8> {
    st.class("crowded child table");
    let k = *g.pick(&[300usize, 3000, 70_000, 150_000]);
    let mut shard = vec![];
    let items = g.below(3);
    enc(&items, &mut shard);
    for _ in 0..items {
        enc(&g.below(200), &mut shard);
    }
    if g.chance(1, 3) {
        shard.truncate(g.idx(shard.len() + 1));
    }
    shard.push(0);
    let mut b = shard.clone();
    let at = b.len();
    b.extend_from_slice(&odd(g, k as u64 * items).to_le_bytes());
    let mut runs = vec![];
    enc(&vec![(if g.flag() { items as u32 } else { odd(g, items) as u32 }, if g.flag() { k as u32 } else { odd(g, k as u64) as u32 })], &mut runs);
    b.extend_from_slice(&runs);
    for _ in 0..k {
        b.extend_from_slice(&0u64.to_le_bytes());
        b.extend_from_slice(&(shard.len() as u64).to_le_bytes());
    }
    b.extend_from_slice(&(k as u32).to_le_bytes());
    b.push(1);
    let l = b.len() - at;
    b.extend_from_slice(&layout::header(at as u64, l as u64));
    b
}

/// Runs one reading; a panic is a failure unless it is the known finding.
fn guarded(what: &str, known: &mut usize, f: impl FnOnce()) -> Res {
    take_panic();
    if catch_unwind(AssertUnwindSafe(f)).is_err() {
        match take_panic() {
            Some((_, true)) => *known += 1,
            Some((m, false)) => return Err(format!("{what} panics: {m}")),
            None => return Err(format!("{what} panics")),
        }
    }
    Ok(())
}

fn poke_as<T: ParcodeItem>(n: &ChunkNode, x: &mut Poke) {
    let len = n.len();
    for i in [0, 1, len as usize / 2, (len as usize).wrapping_sub(1), len as usize, x.g.u() as usize, x.g.idx(50)] {
        x.note(n.get::<T>(i));
    }
    x.note(n.decode_parallel_collection::<T>());
    if let Some(it) = x.note(n.clone().iter::<T>()) {
        let _ = it.size_hint();
        let mut bad = 0;
        for r in it.take(2 * ENDLESS) {
            bad += x.note(r).is_none() as usize;
            if bad > ENDLESS {
                x.endless = Some("node iter()");
                break;
            }
        }
    }
}

fn poke_node(n: &ChunkNode, x: &mut Poke, depth: usize) {
    if !x.spend() {
        return;
    }
    let _ = (n.offset(), n.length(), n.child_count(), n.payload_len(), n.meta(), n.len(), n.is_empty());
    x.note(n.read_raw());
    let kids = x.note(n.children()).unwrap_or_default();
    for i in [0, kids.len().wrapping_sub(1), kids.len(), usize::MAX, u32::MAX as usize, x.g.u() as usize] {
        x.note(n.get_child_by_index(i));
    }
    match x.g.below(7) {
        0 => poke_as::<u8>(n, x),
        1 => poke_as::<u32>(n, x),
        2 => poke_as::<String>(n, x),
        3 => poke_as::<Inner>(n, x),
        4 => poke_as::<Player>(n, x),
        5 => poke_as::<u64>(n, x),
        _ => poke_as::<RemoteFirst>(n, x),
    }
    match x.g.below(4) {
        0 => drop(x.note(n.decode::<u64>())),
        1 => drop(x.note(n.decode::<(u8, String)>())),
        2 => drop(x.note(n.decode::<Vec<u16>>())),
        _ => drop(x.note(n.decode::<OnlyLocal>())),
    }
    if depth < 40 && !kids.is_empty() {
        let k = x.g.idx(kids.len());
        poke_node(&kids[k], x, depth + 1);
    }
}

fn read_all(ty: &dyn DynType, b: &[u8], env: &Env, g: &mut Gen, known: &mut usize, tally: &mut (usize, usize)) -> Res {
    let path = env.path("corrupt.par");
    std::fs::write(&path, b).expect("harness: scratch file");
    let name = ty.name();
    let how = g.below(8);
    let pool = env.pool(*g.pick(&[1, 2, 4]));
    guarded(&format!("eager load of a corrupt {name} (entry point {how})"), known, || {
        let r = pool.install(|| ty.load(how, b, &path));
        if r.is_ok() { tally.0 += 1 } else { tally.1 += 1 }
    })?;
    let mut file: Option<ParcodeFile> = None;
    let by_path = g.flag();
    guarded("open", known, || file = if by_path { Parcode::open(&path).ok() } else { Parcode::open_bytes(b.to_vec()).ok() })?;
    let mut endless = None;
    if let Some(f) = &file {
        let mut s = g.sub();
        let mut x = Poke::new(&mut s, 12);
        guarded(&format!("lazy reading of a corrupt {name}"), known, || pool.install(|| ty.poke(f, &mut x)))?;
        endless = endless.or(x.endless);
        tally.0 += x.ok;
        tally.1 += x.err;
        let mut s = g.sub();
        let mut x = Poke::new(&mut s, 6);
        guarded("reading the chunk nodes of a corrupt file", known, || {
            pool.install(|| {
                if let Ok(n) = f.root_node() {
                    poke_node(&n, &mut x, 0)
                }
            })
        })?;
        endless = endless.or(x.endless);
        tally.0 += x.ok;
        tally.1 += x.err;
    }
    let how = g.below(3);
    guarded("inspection of a corrupt file", known, || {
        let r = match (how, &file) {
            (0, Some(f)) => f.inspect(),
            (1, _) => Parcode::inspect(&path),
            _ => Parcode::inspect_bytes(b.to_vec()),
        };
        match r {
            Ok(r) => {
                let _ = r.to_string();
                let _ = format!("{r:?}").len();
                tally.0 += 1;
            }
            Err(_) => tally.1 += 1,
        }
    })?;
    if let Some(e) = endless {
        return Err(format!("{e} of a corrupt {name} reports errors without end"));
    }
    Ok(())
}

fn readable(ty: &dyn DynType) -> bool {
    // A vector of items that take no bytes may truly be of any length: nothing to read is no corruption.
    !["Vec<Empty>", "Empties"].contains(&ty.name())
}

pub fn c08(env: &Env, g: &mut Gen, st: &mut St) -> Res {
    crate::alloc::GUARD.store(true, std::sync::atomic::Ordering::Relaxed);
    g.budget = [60, 300, 1200, 6000][g.below(4) as usize];
    let c = value(g, st);
    let mut node = if g.flag() {
        let mut s = g.sub();
        let lz4 = s.below(3);
        c.val.to_node(&mut Plan { g: &mut s, lz4, shards: 0, multi_run: 0 })
    } else {
        let w = Wr { how: g.below(2) as u8, builder: true, compress: g.chance(1, 3) };
        let mut v = vec![];
        er("write", c.val.write_to(w, &mut v))?;
        to_node(&layout::parse(&v)?.root)
    };
    if size(&node) > 3000 {
        node.kids.truncate(8);
    }
    let mut known = 0;
    let mut tally = (0, 0);
    let rounds = g.range(4, 10);
    for _ in 0..rounds {
        let ty = if readable(c.ty) && !g.chance(1, 5) { c.ty } else { pick(g) };
        let ty = if readable(ty) { ty } else { &*CATALOG[0] };
        let b = match g.below(40) {
            0 => {
                // not a file at all, but for the header
                st.class("noise");
                let n = g.range(0, 300);
                let mut b = u8::gen_many(g, n);
                let (o, l) = if g.flag() { (0, n as u64) } else { (odd(g, n as u64), odd(g, n as u64)) };
                b.extend_from_slice(&layout::header(o, l));
                b
            }
            1 if env.index % 16 == 0 => crowd(g, st),
            _ => {
                let mut n = node.clone();
                let k = g.range(0, 2);
                for _ in 0..k {
                    bend(&mut n, g, st);
                }
                let mut b = layout::assemble(&n, g);
                let m = if k == 0 { g.range(1, 4) } else { g.range(0, 2) };
                if let (true, Ok(p)) = (m > 0, layout::parse(&b)) {
                    let mut redirects = 0;
                    for _ in 0..m {
                        if b.len() > HEADER {
                            damage(&mut b, &p.root, &mut redirects, g, st);
                        }
                    }
                }
                b
            }
        };
        st.digest(&b);
        read_all(ty, &b, env, g, &mut known, &mut tally)?;
        st.sum("corrupt_files_read", 1);
    }
    for _ in 0..known {
        st.known.push("F10".into());
    }
    ensure!(tally.0 + tally.1 > 0, "harness: nothing read");
    st.sum("readings_ok", tally.0);
    st.sum("readings_refused", tally.1);
    st.nontrivial = tally.0 > 0 && tally.1 > 0;
    st.say(format!("{rounds} corruptions, {} readings succeed, {} are refused", tally.0, tally.1));
    Ok(())
}
