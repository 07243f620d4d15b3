//! C11: the executor on arbitrary task trees, with tasks that take their time or fail.
use crate::checks::POOLS;
use crate::layout::{self, Res, View, ensure, fail};
use crate::run::{Env, St};
use crate::tape::Gen;
use crate::val::Val;
use parcode::compression::CompressorRegistry;
use parcode::executor::{execute_graph, execute_graph_serial};
use parcode::format::ChildRef;
use parcode::graph::{ChunkId, JobConfig, SerializationJob, TaskGraph};
use parcode::io::SeqWriter;
use parcode::visitor::ParcodeVisitor;
use parcode::{Compressor, Parcode, ParcodeError};
use std::borrow::Cow;
use std::sync::Mutex;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};
use std::time::Duration;

/// A tree of tasks; node 0 is the root and parents come before their children.
pub struct Tree {
    pub parent: Vec<usize>,
    /// Children in link order.
    pub kids: Vec<Vec<usize>>,
    /// Node of the tree behind each node of the graph, in creation order.
    pub order: Vec<usize>,
    pub links: Vec<usize>,
    pub payload: Vec<Vec<u8>>,
    pub algo: Vec<u8>,
    pub fails: Vec<bool>,
    pub delay: Vec<u8>,
    runs: Vec<AtomicU32>,
    start: Vec<AtomicU64>,
    end: Vec<AtomicU64>,
    refs: Vec<Mutex<Vec<(u64, u64)>>>,
    clock: AtomicU64,
    closed: AtomicU32,
    late: AtomicU32,
}

struct Task<'t>(&'t Tree, usize);
impl<'a, 't: 'a> SerializationJob<'a> for Task<'t> {
    fn execute(&self, refs: &[ChildRef]) -> parcode::Result<Vec<u8>> {
        let (t, i) = (self.0, self.1);
        if t.closed.load(SeqCst) > 0 {
            t.late.fetch_add(1, SeqCst);
        }
        t.start[i].store(t.clock.fetch_add(1, SeqCst), SeqCst);
        t.runs[i].fetch_add(1, SeqCst);
        *t.refs[i].lock().unwrap() = refs.iter().map(|r| (r.offset, r.length)).collect();
        match t.delay[i] {
            0..=3 => {}
            4 => std::thread::yield_now(),
            5 => {
                let mut x = i as u64;
                for _ in 0..(i * 37 % 4000) {
                    x = std::hint::black_box(x.wrapping_mul(3).wrapping_add(1));
                }
            }
            6 => std::thread::sleep(Duration::from_micros((i * 7 % 300) as u64)),
            // Tasks that use the pool themselves let other tasks run on the same stack.
            _ => {
                rayon::join(|| std::thread::yield_now(), || std::hint::spin_loop());
            }
        }
        let r = if t.fails[i] { Err(ParcodeError::Internal(format!("boom-{i}-"))) } else { Ok(t.payload[i].clone()) };
        t.end[i].store(t.clock.fetch_add(1, SeqCst), SeqCst);
        r
    }
    fn estimated_size(&self) -> usize {
        self.0.payload[self.1].len()
    }
    fn config(&self) -> JobConfig {
        JobConfig { compression_id: self.0.algo[self.1], is_map: false }
    }
}

impl Tree {
    pub fn make(g: &mut Gen) -> Tree {
        let n = match g.below(10) {
            0 => 1,
            1 => 2,
            2..=4 => g.range(2, 12),
            5..=7 => g.range(5, 120),
            8 => g.range(100, 700),
            _ => g.range(500, 4000),
        };
        let shape = g.below(6);
        let mut s = g.sub();
        let mut parent = vec![usize::MAX];
        for i in 1..n {
            parent.push(match shape {
                0 => i - 1,
                1 => 0,
                2 => (i - 1) / 2,
                3 => s.idx(i),
                4 => i - 1 - s.idx(i.min(4)),
                _ => {
                    // a spine with leaves
                    if i % 2 == 1 { i.saturating_sub(2) } else { i - 1 - s.idx(2.min(i)) }
                }
            });
        }
        // Chains of thousands would only show the stack of the harness's own parser.
        if shape == 0 && n > 1500 {
            for (i, p) in parent.iter_mut().enumerate().skip(1) {
                if i % 1000 == 0 {
                    *p = 0;
                }
            }
        }
        let failing = g.chance(2, 5);
        let many = g.flag();
        let fails: Vec<bool> = if failing {
            let k = s.idx(n);
            (0..n).map(|i| i == k || many && s.below(n as u64) < 3).collect()
        } else {
            vec![false; n]
        };
        let heavy = g.chance(1, 10);
        let payload = (0..n)
            .map(|i| {
                let k = if heavy && s.chance(1, 8) { s.idx(100_000) } else { s.idx(60) };
                let mut v = (i as u32).to_le_bytes().to_vec();
                v.extend(u8::gen_many(&mut s, k));
                v
            })
            .collect();
        let lively = g.below(3);
        let delay = (0..n).map(|_| if lively == 0 { 0 } else { s.below(if lively == 1 { 8 } else { 5 }) as u8 }).collect();
        // 6 stands for an algorithm nobody provides.
        let algo = (0..n).map(|_| *s.pick(&[0, 0, 0, 1, 6])).collect();
        let mut links: Vec<usize> = (1..n).collect();
        let mut order: Vec<usize> = (0..n).collect();
        if g.flag() {
            for i in (1..links.len()).rev() {
                let j = s.idx(i + 1);
                links.swap(i, j);
            }
        }
        if g.flag() {
            for i in (1..n).rev() {
                let j = s.idx(i + 1);
                order.swap(i, j);
            }
        }
        let mut kids = vec![vec![]; n];
        for l in &links {
            kids[parent[*l]].push(*l);
        }
        let zeros = || (0..n).map(|_| AtomicU64::new(0)).collect::<Vec<_>>();
        Tree {
            parent,
            kids,
            order,
            links,
            payload,
            algo,
            fails,
            delay,
            runs: (0..n).map(|_| AtomicU32::new(0)).collect(),
            start: zeros(),
            end: zeros(),
            refs: (0..n).map(|_| Mutex::new(vec![])).collect(),
            clock: AtomicU64::new(1),
            closed: AtomicU32::new(0),
            late: AtomicU32::new(0),
        }
    }
    pub fn n(&self) -> usize {
        self.parent.len()
    }
    fn reset(&self) {
        for i in 0..self.n() {
            self.runs[i].store(0, SeqCst);
            self.start[i].store(0, SeqCst);
            self.end[i].store(0, SeqCst);
            self.refs[i].lock().unwrap().clear();
        }
        self.closed.store(0, SeqCst);
        self.late.store(0, SeqCst);
    }
    fn fill<'a>(&'a self, g: &mut TaskGraph<'a>, in_order: bool) {
        let mut id: Vec<Option<ChunkId>> = vec![None; self.n()];
        let nat: Vec<usize> = (0..self.n()).collect();
        for i in if in_order { &nat } else { &self.order } {
            id[*i] = Some(g.add_node(Box::new(Task(self, *i))));
        }
        for l in &self.links {
            g.link_parent_child(id[self.parent[*l]].unwrap(), id[*l].unwrap());
        }
    }
    /// What must hold after an execution with result `r` that delivered `bytes`.
    fn check(&self, r: &Result<(u64, u64), String>, bytes: &[u8], compress: bool) -> Res {
        ensure!(self.late.load(SeqCst) == 0, "a task runs after the call returned");
        for i in 0..self.n() {
            let k = self.runs[i].load(SeqCst);
            ensure!(k <= 1, "task {i} ran {k} times");
            if k == 1 {
                for c in &self.kids[i] {
                    let done = self.end[*c].load(SeqCst);
                    ensure!(done > 0 && done < self.start[i].load(SeqCst) && !self.fails[*c], "task {i} ran before its child {c} was done");
                }
                let got = self.refs[i].lock().unwrap().len();
                ensure!(got == self.kids[i].len(), "task {i} was given {got} references for {} children", self.kids[i].len());
            }
        }
        match r {
            Err(e) => {
                let Some(i) = e.split("boom-").nth(1).and_then(|x| x.split('-').next()).and_then(|x| x.parse::<usize>().ok()) else {
                    fail!("the write fails with an error that is no task's: {e}");
                };
                ensure!(i < self.n() && self.fails[i] && self.runs[i].load(SeqCst) == 1, "the write fails with {e}, which no task reported");
            }
            Ok((off, len)) => {
                let failed = (0..self.n()).find(|i| self.fails[*i]);
                ensure!(failed.is_none(), "task {} failed and the write succeeds", failed.unwrap());
                if let Some(i) = (0..self.n()).find(|i| self.runs[*i].load(SeqCst) == 0) {
                    fail!("task {i} never ran");
                }
                let mut b = bytes.to_vec();
                b.extend_from_slice(&layout::header(*off, *len));
                let p = layout::parse(&b)?;
                ensure!(p.chunks == self.n(), "{} chunks written for {} tasks", p.chunks, self.n());
                let mut todo: Vec<(usize, &View)> = vec![(0, &p.root)];
                while let Some((i, v)) = todo.pop() {
                    ensure!(v.payload == self.payload[i], "the chunk at {} should hold the payload of task {i}", v.off);
                    let comp = if self.algo[i] == 1 || self.algo[i] == 0 && compress { 1 } else { 0 };
                    ensure!(v.comp == comp, "the chunk of task {i} has algorithm {}, asked for {}", v.comp, self.algo[i]);
                    ensure!(v.kids.len() == self.kids[i].len(), "the chunk of task {i} has {} children, linked {}", v.kids.len(), self.kids[i].len());
                    let refs: Vec<(u64, u64)> = v.kids.iter().map(|k| (k.off, k.len)).collect();
                    ensure!(*self.refs[i].lock().unwrap() == refs, "task {i} was given other references than those of its children in link order");
                    todo.extend(self.kids[i].iter().copied().zip(&v.kids));
                }
            }
        }
        Ok(())
    }
}

impl ParcodeVisitor for Tree {
    fn visit<'a>(&'a self, graph: &mut TaskGraph<'a>, _: Option<ChunkId>, _: Option<JobConfig>) {
        self.fill(graph, true);
    }
    fn create_job<'a>(&'a self, _: Option<JobConfig>) -> Box<dyn SerializationJob<'a> + 'a> {
        Box::new(Task(self, 0))
    }
}

/// A compressor that refuses some payloads.
#[derive(Debug)]
struct Fussy;
impl Compressor for Fussy {
    fn id(&self) -> u8 {
        0
    }
    fn compress<'a>(&self, d: &'a [u8]) -> parcode::Result<Cow<'a, [u8]>> {
        let mut v = vec![];
        self.compress_append(d, &mut v)?;
        Ok(v.into())
    }
    fn decompress<'a>(&self, d: &'a [u8]) -> parcode::Result<Cow<'a, [u8]>> {
        Ok(d.into())
    }
    fn compress_append(&self, d: &[u8], o: &mut Vec<u8>) -> parcode::Result<()> {
        let i = u32::from_le_bytes(d[..4].try_into().unwrap());
        if i % 5 == 3 {
            return Err(ParcodeError::Compression(format!("fussy-{i}-")));
        }
        o.extend_from_slice(d);
        Ok(())
    }
}

/// A task that only checks the references it is given.
struct Light<'t> {
    i: u32,
    kids: usize,
    runs: &'t [AtomicU32],
    refs: &'t [Mutex<Vec<(u64, u64)>>],
}
impl<'a, 't: 'a> SerializationJob<'a> for Light<'t> {
    fn execute(&self, refs: &[ChildRef]) -> parcode::Result<Vec<u8>> {
        let i = self.i as usize;
        self.runs[i].fetch_add(1, SeqCst);
        if refs.len() != self.kids {
            return Err(ParcodeError::Internal(format!("task {i} was given {} references for {} children", refs.len(), self.kids)));
        }
        *self.refs[i].lock().unwrap() = refs.iter().map(|r| (r.offset, r.length)).collect();
        Ok(self.i.to_le_bytes().to_vec())
    }
    fn estimated_size(&self) -> usize {
        4
    }
}

/// Trees far deeper or wider than the others.
fn huge(env: &Env, g: &mut Gen, st: &mut St) -> Res {
    let n = g.range(5_000, 120_000);
    let shape = g.below(3);
    let parent = |i: usize| match shape {
        0 => i - 1,
        1 => 0,
        // a spine with one leaf at each vertebra
        _ => if i % 2 == 1 { i.saturating_sub(2) } else { i - 1 },
    };
    let mut kids = vec![vec![]; n];
    for i in 1..n {
        kids[parent(i)].push(i);
    }
    let what = format!("{} of {n} tasks", ["a chain", "a star", "a spine"][shape as usize]);
    st.class("5000+ tasks in a chain, star or spine");
    st.digest(what.as_bytes());
    st.nontrivial = true;
    st.sum("executions", 1);
    st.say(&what);
    let runs: Vec<AtomicU32> = (0..n).map(|_| AtomicU32::new(0)).collect();
    let refs: Vec<Mutex<Vec<(u64, u64)>>> = (0..n).map(|_| Mutex::new(vec![])).collect();
    let mut graph = TaskGraph::new();
    let mut ids = vec![];
    for i in 0..n {
        ids.push(graph.add_node(Box::new(Light { i: i as u32, kids: kids[i].len(), runs: &runs, refs: &refs })));
        if i > 0 {
            graph.link_parent_child(ids[parent(i)], ids[i]);
        }
    }
    let mut out: Vec<u8> = vec![];
    let reg = CompressorRegistry::new();
    let w = SeqWriter::new(&mut out);
    let pool = env.pool(*g.pick(POOLS));
    let root = if g.chance(1, 4) { execute_graph_serial(&graph, &w, &reg, false) } else { pool.install(|| execute_graph(&graph, &w, &reg, false)) };
    let root = root.map_err(|e| format!("{what}: {e}"))?;
    w.flush().map_err(|e| format!("{what}: {e}"))?;
    drop(w);
    // Follow the references down from the root.
    let mut at: Vec<(u64, u64)> = vec![(0, 0); n];
    at[0] = (root.offset, root.length);
    for i in 0..n {
        ensure!(runs[i].load(SeqCst) == 1, "{what}: task {i} ran {} times", runs[i].load(SeqCst));
        let r = refs[i].lock().unwrap();
        for (k, x) in kids[i].iter().zip(&*r) {
            at[*k] = *x;
        }
        let mut want = (i as u32).to_le_bytes().to_vec();
        for (o, l) in &*r {
            want.extend_from_slice(&o.to_le_bytes());
            want.extend_from_slice(&l.to_le_bytes());
        }
        if !r.is_empty() {
            want.extend_from_slice(&(r.len() as u32).to_le_bytes());
        }
        want.push(!r.is_empty() as u8);
        let (o, l) = (at[i].0 as usize, at[i].1 as usize);
        ensure!(out.get(o..o.saturating_add(l)) == Some(&want[..]), "{what}: the chunk of task {i} is not where its reference says");
    }
    ensure!(at.iter().map(|x| x.1).sum::<u64>() == out.len() as u64, "{what}: {} bytes written", out.len());
    Ok(())
}

pub fn c11(env: &Env, g: &mut Gen, st: &mut St) -> Res {
    if g.chance(1, 400) {
        return huge(env, g, st);
    }
    let t = Tree::make(g);
    let n = t.n();
    let failing = t.fails.iter().any(|f| *f);
    st.digest(&(t.parent.iter().flat_map(|p| p.to_le_bytes()).collect::<Vec<u8>>()));
    st.digest(&t.delay);
    st.digest(&t.fails.iter().map(|f| *f as u8).collect::<Vec<u8>>());
    st.nontrivial = n > 2;
    st.class(if failing { "some task fails" } else { "no task fails" });
    st.class(match n {
        1 => "1 task",
        2..=9 => "2-9 tasks",
        10..=99 => "10-99 tasks",
        _ => "100+ tasks",
    });
    for _ in 0..g.range(2, 5) {
        t.reset();
        let compress = g.chance(1, 3);
        let how = g.below(6);
        let pool = env.pool(*g.pick(POOLS));
        let threads = pool.current_num_threads();
        let what = format!("{n} tasks{} {} on {threads} threads", if failing { ", some failing," } else { "" }, ["execute_graph", "execute_graph", "execute_graph", "execute_graph_serial", "write", "write with a refusing compressor"][how as usize]);
        st.say(&what);
        st.sum("executions", 1);
        let mut out: Vec<u8> = vec![];
        let r: Result<(u64, u64), String> = match how {
            4 => pool.install(|| Parcode::builder().compression(compress).write(&mut out, &t)).map_err(|e| e.to_string()).map(|_| (0, 0)),
            _ => {
                let mut graph = TaskGraph::new();
                t.fill(&mut graph, how == 3);
                let mut reg = CompressorRegistry::new();
                if how == 5 {
                    reg.register(Box::new(Fussy));
                }
                let w = SeqWriter::new(&mut out);
                let inside = g.chance(3, 4);
                let run = || match how {
                    3 => execute_graph_serial(&graph, &w, &reg, compress),
                    _ => execute_graph(&graph, &w, &reg, compress),
                };
                let r = if inside { pool.install(run) } else { run() };
                w.flush().map_err(|e| format!("{what}: flush: {e}"))?;
                r.map(|c| (c.offset, c.length)).map_err(|e| e.to_string())
            }
        };
        t.closed.store(1, SeqCst);
        if how == 4 {
            match &r {
                Ok(_) => {
                    ensure!(out.len() > 26, "{what}: no file");
                    let h = out.split_off(out.len() - 26);
                    let (o, l) = (u64::from_le_bytes(h[6..14].try_into().unwrap()), u64::from_le_bytes(h[14..22].try_into().unwrap()));
                    ensure!(h == layout::header(o, l), "{what}: no header");
                    t.check(&Ok((o, l)), &out, compress).map_err(|e| format!("{what}: {e}"))?;
                }
                Err(_) => {
                    t.check(&r, &out, compress).map_err(|e| format!("{what}: {e}"))?;
                    ensure!(layout::parse(&out).is_err(), "{what}: a complete file is left behind");
                }
            }
            continue;
        }
        if how == 5 {
            // Chunks that end up with algorithm 0 meet the refusing compressor.
            let refuses = |i: usize| i % 5 == 3 && (t.algo[i] == 6 || t.algo[i] == 0 && !compress);
            let any = (0..n).any(refuses);
            st.class("compressor fails");
            if !any {
                t.check(&r, &out, compress).map_err(|e| format!("{what}: {e}"))?;
                continue;
            }
            let Err(e) = r else { fail!("{what}: success although the compressor failed") };
            let own = e.split("fussy-").nth(1).and_then(|x| x.split('-').next()).and_then(|x| x.parse::<usize>().ok());
            match own {
                Some(i) => ensure!(i < n && refuses(i) && t.runs[i].load(SeqCst) == 1, "{what}: fails with {e}, which did not happen"),
                None => t.check(&Err(e), &out, compress).map_err(|e| format!("{what}: {e}"))?,
            }
            for i in 0..n {
                ensure!(t.runs[i].load(SeqCst) <= 1, "{what}: task {i} ran twice");
                if t.runs[i].load(SeqCst) == 1
                    && let Some(c) = t.kids[i].iter().find(|c| refuses(**c))
                {
                    fail!("{what}: task {i} ran although the chunk of its child {c} could not be written");
                }
            }
            continue;
        }
        t.check(&r, &out, compress).map_err(|e| format!("{what}: {e}"))?;
    }
    Ok(())
}
