//! C21: the public building blocks of the format and of custom pipelines: header, references, meta
//! byte, compressor registry, sequential writer, and graphs run with compressors of the user's own.
use crate::checks::POOLS;
use crate::dynty::{Wr, write_bytes};
use crate::model::{dec, enc, er};
use crate::layout::{self, Res, ensure, fail};
use crate::run::{Env, St};
use crate::tape::Gen;
use crate::val::Val;
use parcode::compression::CompressorRegistry;
use parcode::executor::{execute_graph, execute_graph_serial};
use parcode::format::{ChildRef, GlobalHeader, MetaByte};
use parcode::graph::{ChunkId, JobConfig, SerializationJob, TaskGraph};
use parcode::io::SeqWriter;
use parcode::rt::ConfiguredJob;
use parcode::visitor::ParcodeVisitor;
use parcode::{Compressor, ParcodeError};
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::collections::HashMap;
use std::sync::Mutex;

fn records(g: &mut Gen, st: &mut St) -> Res {
    st.class("records");
    for _ in 0..40 {
        let (a, b) = (g.int(), g.int());
        let mut want = a.to_le_bytes().to_vec();
        want.extend(b.to_le_bytes());
        let r = ChildRef { offset: a, length: b };
        ensure!(r.to_bytes()[..] == want[..], "ChildRef {a}, {b}: bytes {:?}", r.to_bytes());
        let extra = g.idx(20);
        want.extend((0..extra).map(|_| g.u() as u8));
        let r = er("ChildRef::from_bytes", ChildRef::from_bytes(&want))?;
        ensure!((r.offset, r.length) == (a, b), "ChildRef {a}, {b} reads back as {}, {}", r.offset, r.length);
        let cut = g.idx(16);
        ensure!(ChildRef::from_bytes(&want[..cut]).is_err(), "a reference is read from {cut} bytes");

        let h = GlobalHeader::new(a, b);
        ensure!(h.to_bytes()[..] == layout::header(a, b)[..], "header {a}, {b}: bytes {:?}", h.to_bytes());
        let (version, checksum) = (g.int() as u16, g.int() as u32);
        let magic = (g.u() as u32).to_le_bytes();
        let h = GlobalHeader { magic, version, root_offset: a, root_length: b, checksum };
        let mut want = magic.to_vec();
        want.extend(version.to_le_bytes());
        want.extend(a.to_le_bytes());
        want.extend(b.to_le_bytes());
        want.extend(checksum.to_le_bytes());
        ensure!(h.to_bytes()[..] == want[..], "header {h:?}: bytes {:?}", h.to_bytes());

        let (k, id) = (g.flag(), g.u() as u8);
        let m = MetaByte::new(k, id);
        ensure!(m.as_u8() == k as u8 | (id & 7) << 1, "meta byte of {k}, {id} is {}", m.as_u8());
        let x = g.u() as u8;
        let m = MetaByte::from_byte(x);
        ensure!(
            m.as_u8() == x && m.is_chunkable() == (x & 1 == 1) && m.compression_method() == x >> 1 & 7,
            "meta byte {x}: children {}, algorithm {}",
            m.is_chunkable(),
            m.compression_method()
        );
        st.say(format!("reference {a}, {b}; header version {version}; meta byte {x}"));
        st.digest(&want);
    }
    st.nontrivial = true;
    Ok(())
}

/// Adds `1` to every byte; says which one it is.
#[derive(Debug, Clone)]
struct Tagged(u8, u8);

/// One that cannot compress data starting with a certain byte.
#[derive(Debug, Clone)]
struct Picky(Tagged, u8);
impl Compressor for Picky {
    fn id(&self) -> u8 {
        self.0.0
    }
    fn compress<'a>(&self, d: &'a [u8]) -> parcode::Result<Cow<'a, [u8]>> {
        let mut v = vec![];
        self.compress_append(d, &mut v)?;
        Ok(v.into())
    }
    fn decompress<'a>(&self, d: &'a [u8]) -> parcode::Result<Cow<'a, [u8]>> {
        self.0.decompress(d)
    }
    fn compress_append(&self, d: &[u8], o: &mut Vec<u8>) -> parcode::Result<()> {
        self.0.compress_append(d, o)?;
        match d.first() {
            Some(b) if *b == self.1 => Err(ParcodeError::Compression("not this one".into())),
            _ => Ok(()),
        }
    }
}
impl Compressor for Tagged {
    fn id(&self) -> u8 {
        self.0
    }
    fn compress<'a>(&self, d: &'a [u8]) -> parcode::Result<Cow<'a, [u8]>> {
        let mut v = vec![];
        self.compress_append(d, &mut v)?;
        Ok(v.into())
    }
    fn decompress<'a>(&self, d: &'a [u8]) -> parcode::Result<Cow<'a, [u8]>> {
        match d.split_first() {
            Some((t, d)) if *t == self.1 => Ok(d.iter().map(|b| b ^ self.1).collect::<Vec<u8>>().into()),
            _ => Err(ParcodeError::Compression("another tag".into())),
        }
    }
    fn compress_append(&self, d: &[u8], o: &mut Vec<u8>) -> parcode::Result<()> {
        o.push(self.1);
        o.extend(d.iter().map(|b| b ^ self.1));
        Ok(())
    }
}

fn registry(g: &mut Gen, st: &mut St) -> Res {
    st.class("registry");
    let mut r = if g.flag() { CompressorRegistry::new() } else { CompressorRegistry::default() };
    let mut model: HashMap<u8, u8> = HashMap::new();
    for _ in 0..g.range(5, 60) {
        let id = match g.below(3) {
            0 => g.below(9) as u8,
            1 => *g.pick(&[0, 1, 7, 8, 9, 15, 16, 254, 255]),
            _ => g.u() as u8,
        };
        if g.flag() {
            let tag = g.u() as u8;
            r.register(Box::new(Tagged(id, tag)));
            model.insert(id, tag);
            st.nontrivial = true;
        }
        st.digest(&[id]);
        let data = u8::gen_many(g, 20);
        st.say(format!("{} {id}", if model.contains_key(&id) { "get of registered" } else { "get of unregistered" }));
        match (r.get(id), model.get(&id)) {
            (Ok(c), Some(tag)) => {
                ensure!(c.id() == id, "the registry gives algorithm {} for {id}", c.id());
                let z = er("compress", c.compress(&data))?;
                ensure!(z.first() == Some(tag), "the registry gives another compressor than the one last registered for {id}");
            }
            (Ok(c), None) => {
                ensure!(id < 2 && c.id() == id, "the registry has an algorithm {id} that nobody registered");
                let z = er("compress", c.compress(&data))?.into_owned();
                ensure!(er("decompress", c.decompress(&z))?[..] == data[..], "algorithm {id} loses data");
            }
            (Err(e), None) => {
                ensure!(id >= 2, "the built-in algorithm {id} is missing: {e}");
                ensure!(matches!(e, ParcodeError::Compression(_)), "a missing algorithm is reported as {e:?}");
            }
            (Err(e), Some(_)) => fail!("algorithm {id} was registered: {e}"),
        }
    }
    Ok(())
}

struct Fixed(Vec<u8>, u8);
impl<'a> SerializationJob<'a> for Fixed {
    fn execute(&self, _: &[ChildRef]) -> parcode::Result<Vec<u8>> {
        Ok(self.0.clone())
    }
    fn estimated_size(&self) -> usize {
        self.0.len()
    }
    fn config(&self) -> JobConfig {
        JobConfig { compression_id: self.1, is_map: false }
    }
}

/// A small tree whose chunks name every possible algorithm, some of them the user's own.
fn pipeline(env: &Env, g: &mut Gen, st: &mut St) -> Res {
    st.class("graph with compressors of the user's own");
    let n = g.range(1, 40);
    let mut tags: HashMap<u8, u8> = HashMap::new();
    let mut reg = CompressorRegistry::new();
    for _ in 0..g.below(7) {
        let (id, tag) = (2 + g.below(6) as u8, g.u() as u8);
        reg.register(Box::new(Tagged(id, tag)));
        tags.insert(id, tag);
    }
    let parent: Vec<usize> = (0..n).map(|i| if i == 0 { 0 } else { g.idx(i) }).collect();
    let algo: Vec<u8> = (0..n).map(|_| g.below(8) as u8).collect();
    let data: Vec<Vec<u8>> = (0..n)
        .map(|i| {
            let k = g.idx(300);
            let mut v = vec![i as u8];
            v.extend(u8::gen_many(g, k));
            v
        })
        .collect();
    let compress = g.flag();
    // A compressor that fails on one chunk.
    let bad = (g.chance(1, 4) && !tags.is_empty()).then(|| {
        let mut with: Vec<u8> = tags.keys().copied().collect();
        with.sort_unstable();
        let id = *g.pick(&with);
        let chunk = g.idx(n);
        reg.register(Box::new(Picky(Tagged(id, tags[&id]), chunk as u8)));
        (id, chunk)
    });
    st.nontrivial = algo.iter().any(|a| tags.contains_key(a));
    st.digest(&algo);
    st.digest(&data.concat());
    for serial in [false, true] {
        let what = format!("{n} chunks through execute_graph{}, compression {compress}", if serial { "_serial" } else { "" });
        st.say(&what);
        let mut graph = TaskGraph::new();
        ensure!(graph.is_empty() && graph.len() == 0, "a new graph has {} nodes", graph.len());
        let mut ids: Vec<ChunkId> = vec![];
        for i in 0..n {
            let late = g.chance(1, 4);
            let job = || Box::new(Fixed(data[i].clone(), algo[i]));
            let id = graph.add_node(if late { Box::new(Fixed(vec![1; 9], 0)) } else { job() });
            ensure!(!ids.contains(&id) && graph.len() == i + 1, "{what}: add_node gives {id:?} again");
            if i > 0 {
                graph.link_parent_child(ids[parent[i]], id);
            }
            if late {
                graph.replace_job(id, job());
            }
            ids.push(id);
        }
        let mut out = vec![];
        let w = SeqWriter::new(&mut out);
        let root = if serial { execute_graph_serial(&graph, &w, &reg, compress) } else { env.pool(*g.pick(POOLS)).install(|| execute_graph(&graph, &w, &reg, compress)) };
        if let Some((id, chunk)) = bad {
            if algo[chunk] == id {
                st.class("compressor that fails");
                match root {
                    Err(ParcodeError::Compression(m)) if m.contains("not this one") => continue,
                    Err(e) => fail!("{what}: the failure of a compressor is reported as {e:?}"),
                    Ok(_) => fail!("{what}: succeeds although the compressor {id} failed"),
                }
            }
        }
        let root = er(&what, root)?;
        er("flush", w.flush())?;
        drop(w);
        let mut todo = vec![(0usize, root.offset, root.length)];
        let mut seen = 0;
        while let Some((i, off, len)) = todo.pop() {
            seen += 1;
            let c = out.get(off as usize..(off + len) as usize).ok_or(format!("{what}: a reference outside the output"))?;
            let (meta, mut c) = c.split_last().ok_or(format!("{what}: an empty chunk"))?;
            let kids: Vec<usize> = (1..n).filter(|k| parent[*k] == i).collect();
            ensure!((meta & 1 == 1) == !kids.is_empty() && meta >> 4 == 0, "{what}: meta byte {meta} of a chunk of {} children", kids.len());
            if !kids.is_empty() {
                let at = c.len() - 4;
                ensure!(c[at..] == (kids.len() as u32).to_le_bytes(), "{what}: another number of children");
                let table = at - 16 * kids.len();
                for (k, r) in kids.iter().zip(c[table..at].chunks(16)) {
                    let u = |p: usize| u64::from_le_bytes(r[p..p + 8].try_into().unwrap());
                    todo.push((*k, u(0), u(8)));
                }
                c = &c[..table];
            }
            let used = meta >> 1 & 7;
            let want = match algo[i] {
                0 if compress => 1,
                a if a < 2 || tags.contains_key(&a) => a,
                _ => 0,
            };
            ensure!(used == want, "{what}: the chunk asks for algorithm {}, is flagged {used}", algo[i]);
            let plain = match used {
                0 => c.to_vec(),
                1 => layout::lz4_block(&c[4..], u32::from_le_bytes(c[..4].try_into().unwrap()) as usize)?,
                a => er("decompress", Tagged(a, tags[&a]).decompress(c))?.into_owned(),
            };
            ensure!(plain == data[i], "{what}: the chunk flagged {used} does not hold its data");
        }
        ensure!(seen == n, "{what}: {seen} chunks");
    }
    Ok(())
}

/// A value whose visitor is written by hand: a tree of chunks with settings of its own.
struct Own {
    data: Vec<u8>,
    cfg: JobConfig,
    kids: Vec<Own>,
}
impl ParcodeVisitor for Own {
    fn visit<'a>(&'a self, graph: &mut TaskGraph<'a>, parent: Option<ChunkId>, _: Option<JobConfig>) {
        let id = graph.add_node(self.create_job(Some(self.cfg)));
        if let Some(p) = parent {
            graph.link_parent_child(p, id);
        }
        for k in &self.kids {
            k.visit(graph, Some(id), None);
        }
    }
    fn create_job<'a>(&'a self, c: Option<JobConfig>) -> Box<dyn SerializationJob<'a> + 'a> {
        let c = c.unwrap_or_default();
        Box::new(ConfiguredJob::new(Box::new(Fixed(self.data.clone(), 0)), c))
    }
}
/// An item with the trait's default methods.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct PlainItem(u32, String, Option<Vec<i64>>);
impl ParcodeVisitor for PlainItem {
    fn visit<'a>(&'a self, graph: &mut TaskGraph<'a>, parent: Option<ChunkId>, c: Option<JobConfig>) {
        let id = graph.add_node(self.create_job(c));
        if let Some(p) = parent {
            graph.link_parent_child(p, id);
        }
    }
    fn create_job<'a>(&'a self, c: Option<JobConfig>) -> Box<dyn SerializationJob<'a> + 'a> {
        let mut o = vec![];
        enc(self, &mut o);
        Box::new(Fixed(o, c.map_or(0, |c| c.compression_id)))
    }
}

/// Values with hand-written visitors through every write entry point.
fn visitors(env: &Env, g: &mut Gen, st: &mut St) -> Res {
    st.class("visitors of the user's own");
    st.nontrivial = true;
    fn grow(g: &mut Gen, left: &mut usize, deep: usize) -> Own {
        let len = *g.pick(&[0, 0, 1, 7, 60, 900]);
        let len = g.idx(len + 1);
        let cfg = JobConfig { compression_id: *g.pick(&[0, 0, 1, 1, 2, 7]), is_map: g.flag() };
        let mut o = Own { data: u8::gen_many(g, len), cfg, kids: vec![] };
        if deep < 30 {
            for _ in 0..*g.pick(&[0, 0, 1, 2, 5, 40]) {
                if *left == 0 {
                    break;
                }
                *left -= 1;
                o.kids.push(grow(g, left, deep + 1));
            }
        }
        o
    }
    fn compare(o: &Own, v: &layout::View, global: bool) -> Res {
        ensure!(v.payload == o.data, "the chunk at {} does not hold its {} bytes", v.off, o.data.len());
        let want = match o.cfg.compression_id {
            0 => global as u8,
            1 => 1,
            _ => 0,
        };
        ensure!(v.comp == want, "the chunk at {} asks for algorithm {}, compression {global}, and is flagged {}", v.off, o.cfg.compression_id, v.comp);
        ensure!(v.kids.len() == o.kids.len(), "the chunk at {} has {} children of {}", v.off, v.kids.len(), o.kids.len());
        o.kids.iter().zip(&v.kids).try_for_each(|(o, v)| compare(o, v, global))
    }
    let mut left = g.idx(200);
    let o = grow(g, &mut left, 0);
    let n = g.range(0, 400);
    let items: Vec<PlainItem> = (0..n).map(|_| PlainItem(g.u() as u32, String::gen_(g), g.flag().then(|| vec![g.u() as i64; g.idx(5)]))).collect();
    st.digest(&o.data);
    let mut o2 = vec![];
    enc(&items, &mut o2);
    st.digest(&o2);
    let path = env.path("own.par");
    for how in 0..5 {
        let w = Wr { how, builder: g.flag(), compress: false };
        let w = Wr { compress: w.builder && how != 2 && g.flag(), ..w };
        let what = || format!("{} of a value with a visitor of its own", w.text());
        let pool = env.pool(*g.pick(POOLS));
        let b = er(&what(), pool.install(|| write_bytes(w, &path, &o)))?;
        let p = layout::parse(&b).map_err(|e| format!("{}: {e}", what()))?;
        compare(&o, &p.root, w.compress).map_err(|e| format!("{}: {e}", what()))?;
        let b = er(&what(), pool.install(|| write_bytes(w, &path, &items)))?;
        let p = layout::parse(&b).map_err(|e| format!("{}: {e}", what()))?;
        let mut got: Vec<PlainItem> = vec![];
        for k in &p.root.kids {
            ensure!(k.kids.is_empty(), "{}: a shard has children", what());
            let mut at = 0;
            got.extend(dec::<Vec<PlainItem>>(&k.payload, &mut at)?);
            ensure!(at == k.payload.len(), "{}: a shard has bytes left over", what());
        }
        ensure!(got == items, "{}: the shards hold other items", what());
        st.say(what());
    }
    Ok(())
}

/// The sequential writer: what it is given, in one piece each, at the offsets it says.
fn writer(env: &Env, g: &mut Gen, st: &mut St) -> Res {
    st.class("sequential writer");
    st.nontrivial = true;
    let big = env.index % 31 == 3;
    let n = g.range(1, 40);
    let pieces: Vec<Vec<u8>> = (0..n)
        .map(|i| {
            let len = match g.below(6) {
                0 => g.idx(4),
                1 if big => (1 << 20) + g.idx(3 << 20),
                2 if big && i % 11 == 0 => (16 << 20) + g.idx(1000),
                _ => g.idx(3000),
            };
            let mut v = vec![0u8; len];
            let k = g.u() as u8;
            v.iter_mut().enumerate().for_each(|(j, b)| *b = k.wrapping_mul(31).wrapping_add((j >> 3) as u8));
            v
        })
        .collect();
    st.digest(&(pieces.iter().map(|p| p.len() as u8).collect::<Vec<_>>()));
    let mut out = vec![];
    let at: Mutex<Vec<(usize, u64)>> = Mutex::new(vec![]);
    let give_back = g.flag();
    let flushes = g.flag();
    {
        let w = SeqWriter::new(&mut out);
        let r: Mutex<Res> = Mutex::new(Ok(()));
        let pool = env.pool(*g.pick(POOLS));
        pool.scope(|s| {
            for (i, p) in pieces.iter().enumerate() {
                let (w, at, r) = (&w, &at, &r);
                s.spawn(move |_| match w.write_all(p) {
                    Ok(o) => {
                        at.lock().unwrap().push((i, o));
                        if flushes && i % 7 == 2 && w.flush().is_err() {
                            *r.lock().unwrap() = Err("flush fails".into());
                        }
                    }
                    Err(e) => *r.lock().unwrap() = Err(format!("write_all: {e}")),
                });
            }
        });
        r.into_inner().unwrap()?;
        if give_back {
            let mut b = er("into_inner", w.into_inner())?;
            std::io::Write::flush(&mut b).map_err(|e| e.to_string())?;
        } else {
            er("flush", w.flush())?;
        }
    }
    let total: usize = pieces.iter().map(|p| p.len()).sum();
    st.say(format!("{n} pieces of {total} bytes from several threads"));
    ensure!(out.len() == total, "{} bytes arrive of {total}", out.len());
    let mut at = at.into_inner().unwrap();
    at.sort_by_key(|(i, o)| (*o, pieces[*i].len()));
    let mut end = 0;
    for (i, o) in at {
        let p = &pieces[i];
        ensure!(o as usize == end, "a piece of {} bytes is said to be at {o}, the one before ends at {end}", p.len());
        end += p.len();
        ensure!(out[o as usize..end] == p[..], "the piece at {o} is another one");
    }
    Ok(())
}

pub fn c21(env: &Env, g: &mut Gen, st: &mut St) -> Res {
    match g.below(6) {
        5 => visitors(env, g, st),
        0 => records(g, st),
        1 => registry(g, st),
        2 => writer(env, g, st),
        _ => pipeline(env, g, st),
    }
}
