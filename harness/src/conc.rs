//! C14: concurrent readers of one file and concurrent writers. C15: histories of saves and loads on paths.
use crate::checks::{Case, POOLS, open, pick, same};
use crate::dynty::*;
use crate::faults::{PLACES, Site};
use crate::layout::{self, Res, ensure};
use crate::model::*;
use crate::run::{Env, St};
use crate::tape::Gen;
use parcode::{Parcode, ParcodeFile};
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::Barrier;

fn gen_case(g: &mut Gen, budget: usize) -> Case {
    g.budget = budget;
    let ty = pick(g);
    let val = ty.generate(g);
    let canon = val.canon();
    Case { ty, val, canon }
}

/// What one thread does to the shared file, fixed in advance.
enum Act {
    Access(Access),
    Load,
    LoadElsewhere,
    Probe(Vec<u64>),
    Inspect,
    Reopen,
}

/// Runs all of them at the same time: threads of their own, or tasks of one pool that may have fewer threads.
fn together(style: Option<&rayon::ThreadPool>, n: usize, who: &str, f: impl Fn(usize) -> Res + Sync) -> Res {
    let slot = crate::run::SLOT.with(|s| s.get());
    let results = match style {
        None => {
            let barrier = Barrier::new(n);
            std::thread::scope(|s| {
                let hs: Vec<_> = (0..n)
                    .map(|i| {
                        let (f, barrier) = (&f, &barrier);
                        s.spawn(move || {
                            crate::run::SLOT.with(|s| s.set(slot));
                            barrier.wait();
                            f(i)
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(format!("a {who} panicked")))).collect()
            })
        }
        Some(pool) => {
            let all = std::sync::Mutex::new(vec![]);
            pool.scope(|s| {
                for i in 0..n {
                    let (f, all) = (&f, &all);
                    s.spawn(move |_| {
                        let r = f(i);
                        all.lock().unwrap_or_else(|p| p.into_inner()).push(r);
                    });
                }
            });
            all.into_inner().unwrap_or_else(|p| p.into_inner())
        }
    };
    ensure!(results.len() == n, "{} of {n} tasks have ended", results.len());
    results.into_iter().collect()
}

fn readers(env: &Env, g: &mut Gen, st: &mut St) -> Res {
    let budget = [300, 3000, 20_000][g.idx(3)];
    let c = gen_case(g, budget);
    st.digest(&c.canon);
    let w = Wr::gen_(g);
    let bytes = crate::checks::write(&c, w, env, g, st)?;
    let Ok(p) = layout::parse(&bytes) else { return Ok(()) };
    if c.ty.from_view(&p.root, &mut Expect::default()).is_err() {
        return Ok(());
    }
    let path = env.path("shared.par");
    std::fs::write(&path, &bytes).expect("harness: scratch file");
    let by_path = g.flag();
    let f = if by_path { er("open", Parcode::open(&path))? } else { er("open", Parcode::open_bytes(bytes.clone()))? };
    let alone = er("inspect", f.inspect())?.to_string();
    let threads = g.range(2, 8);
    let shared_pool = env.pool(*g.pick(POOLS));
    let mut plans: Vec<Vec<Act>> = vec![];
    for _ in 0..threads {
        let mut s = g.sub();
        let k = s.range(2, 10);
        plans.push(
            (0..k)
                .map(|_| match s.below(12) {
                    0..=5 => {
                        let mut a = Access::default();
                        c.val.plan(&p.root, &mut s, &mut a);
                        Act::Access(a)
                    }
                    6 | 7 => Act::Load,
                    8 => Act::LoadElsewhere,
                    9 => Act::Probe((0..20).map(|_| s.u()).collect()),
                    10 => Act::Inspect,
                    _ => Act::Reopen,
                })
                .collect(),
        );
    }
    st.sum("concurrent_readings", plans.iter().map(|p| p.len()).sum());
    let style = g.chance(1, 3).then(|| env.pool(*g.pick(&[1, 2, 3, 8])));
    together(style, threads, "reader", |i| {
        for (k, a) in plans[i].iter().enumerate() {
            let what = || format!("operation {k} of {} {i} of {threads} on a shared {}", if style.is_some() { "task" } else { "thread" }, c.ty.name());
            match a {
                Act::Access(a) => c.val.exec(&f, &mut a.steps.iter()).map_err(|e| format!("{}: {}: {e}", what(), a.text))?,
                Act::Load => same(&er(&what(), c.ty.load_file(&f))?, &c.canon, what)?,
                // On a pool that the other threads use too.
                Act::LoadElsewhere => same(&er(&what(), shared_pool.install(|| c.ty.load_file(&f)))?, &c.canon, what)?,
                Act::Probe(t) => {
                    let mut x = Probe { g: &mut Gen::new(t), loads: 0, nth: 0, fuel: 10, blob: false };
                    c.val.lazy(&f, t[0] % 3, &mut x).map_err(|e| format!("{}: {e}", what()))?
                }
                Act::Inspect => ensure!(er(&what(), f.inspect())?.to_string() == alone, "{}: another inspection report", what()),
                Act::Reopen => {
                    let f2 = er(&what(), Parcode::open(&path))?;
                    same(&er(&what(), c.ty.load_file(&f2))?, &c.canon, what)?
                }
            }
        }
        Ok(())
    })?;
    if style.is_some() {
        st.class("tasks of one pool");
    }
    st.class(format!("{threads} readers"));
    st.nontrivial = p.chunks > 1;
    st.say(format!("{threads} threads read one {} of {} chunks", c.ty.name(), p.chunks));
    Ok(())
}

fn writers(env: &Env, g: &mut Gen, st: &mut St) -> Res {
    let threads = g.range(2, 6);
    let mut cases = vec![];
    for _ in 0..threads {
        let budget = [300, 3000, 12_000][g.idx(3)];
        let c = gen_case(g, budget);
        st.digest(&c.canon);
        let compress = g.chance(1, 3);
        let mut alone = vec![];
        er("write_sync", c.val.write_to(Wr { how: 1, builder: true, compress }, &mut alone))?;
        let mut shape = vec![];
        layout::parse(&alone)?.root.shape(&mut shape);
        let hows: Vec<u8> = (0..g.range(1, 4)).map(|_| *g.pick(&[0u8, 0, 1, 3, 3, 4])).collect();
        cases.push((c, compress, shape, alone.len(), hows));
    }
    // All on one pool, each on its own, or on the global one.
    let style = g.below(3);
    let n = *g.pick(POOLS);
    let pools: Vec<&rayon::ThreadPool> = (0..threads).map(|i| env.pool(if style == 0 { n } else { POOLS[(i + n) % POOLS.len()] })).collect();
    let paths: Vec<_> = (0..threads).map(|i| env.path(&format!("writer{i}.par"))).collect();
    let tasks = g.chance(1, 3).then(|| env.pool(*g.pick(&[1, 2, 3, 8])));
    together(tasks, threads, "writer", |i| {
        let (c, compress, shape, len, hows) = &cases[i];
        for how in hows {
            let w = Wr { how: *how, builder: true, compress: *compress };
            let what = || format!("{} of a {} by writer {i} of {threads}", w.text(), c.ty.name());
            let r = if style == 2 || (tasks.is_some() && i % 2 == 0) { c.val.write_bytes(w, &paths[i]) } else { pools[i].install(|| c.val.write_bytes(w, &paths[i])) };
            let b = er(&what(), r)?;
            ensure!(b.len() == *len, "{}: {} bytes, {len} when alone", what(), b.len());
            let p = layout::parse(&b).map_err(|e| format!("{}: {e}", what()))?;
            let mut got = vec![];
            p.root.shape(&mut got);
            ensure!(got == *shape, "{}: other content than when alone", what());
        }
        Ok(())
    })?;
    if tasks.is_some() {
        st.class("tasks of one pool");
    }
    st.sum("concurrent_writings", cases.iter().map(|c| c.4.len()).sum());
    st.class(format!("{threads} writers"));
    st.nontrivial = true;
    st.say(format!("{threads} threads write {}", cases.iter().map(|c| c.0.ty.name()).collect::<Vec<_>>().join(", ")));
    Ok(())
}

pub fn c14(env: &Env, g: &mut Gen, st: &mut St) -> Res {
    if g.chance(1, 3) { writers(env, g, st) } else { readers(env, g, st) }
}

fn files(dir: &std::path::Path, out: &mut Vec<PathBuf>) {
    for e in std::fs::read_dir(dir).expect("harness: scratch directory") {
        let p = e.expect("harness: scratch directory").path();
        if p.is_dir() { files(&p, out) } else { out.push(p) }
    }
}

struct Saved {
    case: usize,
    bytes: Vec<u8>,
}

/// A file opened earlier: the path whose changes would reach it (none when it has no name any more).
struct Held {
    at: Option<PathBuf>,
    name: String,
    case: usize,
    file: ParcodeFile,
}

pub fn c15(env: &Env, g: &mut Gen, st: &mut St) -> Res {
    let dir = env.path("paths");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(dir.join("sub dir/Ünïcode")).expect("harness: scratch directory");
    let names = ["a.par", "b.par", "a.par.tmp", "a", "sub dir/Ünïcode/ü.par", "a.par.bak"];
    let mut cases: Vec<Case> = vec![];
    for _ in 0..g.range(2, 5) {
        let b = [30, 300, 3000, 20_000][g.idx(4)];
        cases.push(gen_case(g, b));
    }
    if g.flag() {
        // Two values whose files are equally long.
        let most = [20, 300, 5000][g.idx(3)];
        let n = g.range(1, most);
        for _ in 0..2 {
            let val = wrap((0..n).map(|_| g.below(256) as u8).collect::<Vec<u8>>());
            cases.push(Case { ty: crate::checks::named("Vec<u8>"), canon: val.canon(), val });
        }
        st.class("two files of one length");
    }
    for c in &cases {
        st.digest(&c.canon);
    }
    let mut disk: BTreeMap<PathBuf, Saved> = BTreeMap::new();
    let mut held: Vec<Held> = vec![];
    let mut log: Vec<String> = vec![];
    let mut overwrites = 0;
    let ops = g.range(4, 24);
    let few = g.range(1, names.len());
    for _ in 0..ops {
        let name = *g.pick(&names[..few]);
        let path = dir.join(name);
        let r = step_paths(env, g, &cases, &mut disk, &mut held, &mut log, &path, name, &mut overwrites);
        r.map_err(|e| format!("after [{}]: {e}", log.join(", ")))?;
        // Nothing else changed, and nothing was left behind.
        let mut there = vec![];
        files(&dir, &mut there);
        there.sort();
        ensure!(there.iter().eq(disk.keys()), "after [{}]: the directory holds {there:?}", log.join(", "));
        for (p, s) in &disk {
            let now = std::fs::read(p).map_err(|e| format!("after [{}]: {} cannot be read: {e}", log.join(", "), p.display()))?;
            ensure!(now == s.bytes, "after [{}]: the bytes of {} have changed ({} before, {} now)", log.join(", "), p.display(), s.bytes.len(), now.len());
        }
        st.sum("operations", 1);
    }
    // In the end every path holds its value.
    for (p, s) in &disk {
        let c = &cases[s.case];
        let what = || format!("after [{}]: loading {} in the end", log.join(", "), p.display());
        same(&er(&what(), c.ty.load(4, &[], p))?, &c.canon, what)?;
    }
    drop(held);
    crate::errors::released(env).map_err(|e| format!("after [{}]: {e}", log.join(", ")))?;
    let _ = std::fs::remove_dir_all(&dir);
    st.sum("overwrites", overwrites);
    st.nontrivial = overwrites > 0;
    st.say(log.join(", "));
    Ok(())
}

fn some_case(g: &mut Gen, cases: &[Case]) -> usize {
    // The last two may be equally long.
    if g.flag() { cases.len() - 1 - g.idx(2) } else { g.idx(cases.len()) }
}

#[allow(clippy::too_many_arguments)]
fn step_paths(
    env: &Env,
    g: &mut Gen,
    cases: &[Case],
    disk: &mut BTreeMap<PathBuf, Saved>,
    held: &mut Vec<Held>,
    log: &mut Vec<String>,
    path: &PathBuf,
    name: &str,
    overwrites: &mut usize,
) -> Res {
    match g.below(18) {
        0..=4 => {
            // A mapped file must not change under its reader.
            held.retain(|h| h.at.as_ref() != Some(path));
            let k = some_case(g, cases);
            let w = Wr { how: 3 + g.below(2) as u8, builder: g.flag(), compress: false };
            let w = Wr { compress: w.builder && g.flag(), ..w };
            let pool = env.pool(*g.pick(POOLS));
            log.push(format!("{} {} to {name}", w.text(), cases[k].ty.name()));
            er("save", pool.install(|| cases[k].val.save_to(w, path)))?;
            let bytes = std::fs::read(path).map_err(|e| format!("the saved file cannot be read: {e}"))?;
            let p = layout::parse(&bytes).map_err(|e| format!("the saved file holds something else: {e}"))?;
            let v = cases[k].ty.from_view(&p.root, &mut Expect::default())?;
            same(&v.canon(), &cases[k].canon, || "independent reading of the saved file".into())?;
            *overwrites += disk.insert(path.clone(), Saved { case: k, bytes }).is_some() as usize;
        }
        5 => {
            // A save that fails: the value refuses, or there is no such place.
            log.push("failing save".into());
            let at = 1 + g.below(PLACES.len() as u64 - 1);
            let s = Site::make(g, at);
            let w = Wr { how: 3 + g.below(2) as u8, builder: false, compress: false };
            let aside = path.with_extension("failed");
            ensure!(save_to(w, &aside, &s).is_err(), "saving a value that refuses to serialize succeeds");
            let _ = std::fs::remove_file(&aside);
            let c = &cases[0];
            ensure!(c.val.save_to(w, &path.join("x")).is_err(), "saving below a file succeeds");
            ensure!(c.val.save_to(w, path.parent().unwrap()).is_err(), "saving over a directory succeeds");
        }
        6 => {
            // A file of other origin takes the place: the old file is overwritten or replaced.
            let replace = g.flag();
            if replace {
                held.iter_mut().filter(|h| h.at.as_ref() == Some(path)).for_each(|h| h.at = None);
                let _ = std::fs::remove_file(path);
            }
            held.retain(|h| h.at.as_ref() != Some(path));
            log.push(format!("foreign file at {name}"));
            let k = some_case(g, cases);
            let mut s = g.sub();
            let node = cases[k].val.to_node(&mut Plan { g: &mut s, lz4: 0, shards: 0, multi_run: 0 });
            let bytes = layout::assemble(&node, g);
            std::fs::write(path, &bytes).expect("harness: scratch file");
            disk.insert(path.clone(), Saved { case: k, bytes });
        }
        7 if disk.contains_key(path) => {
            log.push(format!("remove {name}"));
            held.iter_mut().filter(|h| h.at.as_ref() == Some(path)).for_each(|h| h.at = None);
            std::fs::remove_file(path).expect("harness: scratch file");
            disk.remove(path);
        }
        14..=16 if disk.contains_key(path) => {
            // The user moves the file, perhaps over another one; files opened earlier go on as they are.
            let to = disk.keys().nth(g.idx(disk.len())).unwrap().clone();
            let to = if g.flag() { to.with_extension("moved") } else { to };
            if to != *path {
                log.push(format!("move {name} to {}", to.file_name().unwrap().to_string_lossy()));
                std::fs::rename(path, &to).expect("harness: scratch file");
                for h in held.iter_mut() {
                    if h.at.as_ref() == Some(&to) {
                        h.at = None;
                    } else if h.at.as_ref() == Some(path) {
                        h.at = Some(to.clone());
                    }
                }
                let saved = disk.remove(path).unwrap();
                disk.insert(to, saved);
            }
        }
        8 | 9 => {
            log.push(format!("load {name}"));
            let how = 4 + g.below(4);
            match disk.get(path) {
                Some(s) => {
                    let c = &cases[s.case];
                    same(&er("load", c.ty.load(how, &s.bytes, path))?, &c.canon, || format!("load of {name}"))?
                }
                None => ensure!(cases[0].ty.load(how, &[], path).is_err(), "loading {name}, which does not exist, succeeds"),
            }
        }
        10 => {
            log.push(format!("inspect {name}"));
            match disk.get(path) {
                Some(s) => ensure!(er("inspect", Parcode::inspect(path))?.file_size == s.bytes.len() as u64, "inspection of {name} reports another size"),
                None => ensure!(Parcode::inspect(path).is_err(), "inspecting {name}, which does not exist, succeeds"),
            }
        }
        11 => {
            log.push(format!("open {name}"));
            match disk.get(path) {
                Some(s) => held.push(Held { at: Some(path.clone()), name: name.into(), case: s.case, file: er("open", Parcode::open(path))? }),
                None => ensure!(Parcode::open(path).is_err(), "opening {name}, which does not exist, succeeds"),
            }
        }
        _ if !held.is_empty() => {
            // A file opened earlier still shows its value, whatever happened to other paths.
            let k = g.idx(held.len());
            let Held { at, name, case, file: f } = &held[k];
            log.push(format!("read the held {name}{}", if at.is_none() { ", which is gone" } else { "" }));
            let c = &cases[*case];
            if g.flag() {
                same(&er("load", c.ty.load_file(f))?, &c.canon, || "load of a file opened earlier".into())?;
            } else {
                let mut s = g.sub();
                let mut x = Probe { g: &mut s, loads: 0, nth: 0, fuel: 10, blob: false };
                c.val.lazy(f, 0, &mut x)?;
            }
            if g.chance(1, 3) {
                held.swap_remove(k);
            }
        }
        _ => {
            if let Some(s) = disk.get(path) {
                log.push(format!("lazy {name}"));
                let c = &cases[s.case];
                let f = open(&s.bytes, false, env)?;
                let g2 = er("open", Parcode::open(path))?;
                for f in [f, g2] {
                    let mut s = g.sub();
                    let mut x = Probe { g: &mut s, loads: 0, nth: 0, fuel: 10, blob: false };
                    c.val.lazy(&f, 1, &mut x)?;
                }
            }
        }
    }
    Ok(())
}
