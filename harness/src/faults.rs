//! C09: writes to destinations that misbehave, and values that refuse to serialize.
use crate::checks::{Case, POOLS, same, value};
use crate::dynty::*;
use crate::layout::{self, Res, ensure};
use crate::model::*;
use crate::run::{Env, St};
use crate::tape::Gen;
use crate::val::*;
use parcode::{Parcode, ParcodeError};
use serde::{Deserialize, Serialize, Serializer};
use std::collections::HashMap;
use std::io::{self, ErrorKind, Write};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    None,
    /// An error when the byte at this position is due.
    Byte(usize, ErrorKind),
    /// A panic when the byte at this position is due.
    Panic(usize),
    /// A panic in the nth call to flush.
    PanicFlush(usize),
    /// No byte is accepted from this position on.
    Zero(usize),
    /// The nth call to write fails.
    Call(usize, ErrorKind),
    /// The nth call to flush fails.
    Flush(usize, ErrorKind),
}

#[derive(Default)]
pub struct State {
    pub got: Vec<u8>,
    pub calls: usize,
    pub flushes: usize,
    /// What was received when flush last succeeded.
    pub flushed: Option<usize>,
    pub fired: usize,
}

/// A destination: accepts at most `most` bytes per call, is interrupted every `tick` calls, and has a fault.
#[derive(Clone)]
pub struct Sink {
    pub state: Arc<Mutex<State>>,
    pub most: usize,
    pub tick: usize,
    pub fault: Fault,
    /// The fault strikes once and the destination then works again.
    pub once: bool,
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut s = self.state.lock().unwrap();
        s.calls += 1;
        if b.is_empty() {
            return Ok(0);
        }
        if self.tick > 0 && s.calls % self.tick == 0 {
            return Err(ErrorKind::Interrupted.into());
        }
        let mut n = b.len().min(self.most);
        if s.fired == 0 || !self.once {
            match self.fault {
                Fault::Byte(at, k) => {
                    if s.got.len() >= at {
                        s.fired += 1;
                        return Err(k.into());
                    }
                    n = n.min(at - s.got.len());
                }
                Fault::Zero(at) => {
                    if s.got.len() >= at {
                        s.fired += 1;
                        return Ok(0);
                    }
                    n = n.min(at - s.got.len());
                }
                Fault::Panic(at) => {
                    if s.got.len() >= at {
                        s.fired += 1;
                        drop(s);
                        panic!("{DELIBERATE}");
                    }
                    n = n.min(at - s.got.len());
                }
                Fault::Call(c, k) if s.calls >= c => {
                    s.fired += 1;
                    return Err(k.into());
                }
                _ => {}
            }
        }
        s.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut s = self.state.lock().unwrap();
        s.flushes += 1;
        if let Fault::Flush(c, k) = self.fault
            && s.flushes >= c
            && (s.fired == 0 || !self.once)
        {
            s.fired += 1;
            return Err(k.into());
        }
        if let Fault::PanicFlush(c) = self.fault
            && s.flushes >= c
            && (s.fired == 0 || !self.once)
        {
            s.fired += 1;
            drop(s);
            panic!("{DELIBERATE}");
        }
        s.flushed = Some(s.got.len());
        Ok(())
    }
}

const KINDS: &[ErrorKind] =
    &[ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::PermissionDenied, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::UnexpectedEof, ErrorKind::StorageFull, ErrorKind::InvalidData, ErrorKind::ConnectionReset];

fn sinks(env: &Env, g: &mut Gen, st: &mut St) -> Res {
    let big = env.index % 61 == 7;
    let c = if big {
        st.class("data over 16 MiB");
        let n = g.range(16 << 20, 22 << 20);
        let v = u8::gen_many(g, n);
        let ty = crate::checks::named("Vec<u8>");
        let val = wrap(v);
        st.digest(&(n as u64).to_le_bytes());
        Case { ty, canon: val.canon(), val }
    } else {
        g.budget = [100, 2000, 20_000][g.idx(3)];
        value(g, st)
    };
    let w = Wr { how: g.below(2) as u8, builder: true, compress: g.chance(1, 3) && !big };
    let mut clean = vec![];
    er("write to memory", c.val.write_to(w, &mut clean))?;
    let total = clean.len();
    for _ in 0..if big { 2 } else { 6 } {
        let kind = *g.pick(KINDS);
        // Positions: anywhere, at either end, at the edge of the header, at the buffer size.
        let at = match g.below(6) {
            0 => g.idx(30).min(total),
            1 => total - g.idx(30).min(total),
            2 if big => ((16 << 20) + 20 - g.idx(40)).min(total),
            _ => g.idx(total + 1),
        };
        let fault = match g.below(6) {
            0 => Fault::None,
            1 | 2 => Fault::Byte(at, kind),
            3 => Fault::Zero(at),
            4 => Fault::Call(g.range(1, 6), kind),
            _ => Fault::Flush(g.range(1, 2), kind),
        };
        let most = if big { *g.pick(&[usize::MAX, 4096, 100_000, 3 << 20]) } else { *g.pick(&[1usize, 2, 3, 7, 25, 26, 100, 4096, usize::MAX, usize::MAX]) };
        let tick = *g.pick(&[0, 0, 2, 3, 7]);
        let mut sink = Sink { state: Arc::default(), most, tick, fault, once: g.flag() };
        let pool = *g.pick(POOLS);
        let state = sink.state.clone();
        let once = sink.once;
        let r = env.pool(pool).install(|| c.val.write_to(w, &mut sink));
        let s = state.lock().unwrap();
        let what = || format!("{} of a {} ({total} bytes) to a destination with {fault:?}{}, taking {most} bytes a call, interrupted every {tick}", w.text(), c.ty.name(), if once { " once" } else { "" });
        st.sum("writes", 1);
        match &r {
            Err(e) => {
                ensure!(s.fired > 0, "{}: fails without cause: {e}", what());
                let ParcodeError::Io(i) = e else { return Err(format!("{}: the failure is reported as another error: {e:?}", what())) };
                let want = match fault {
                    Fault::Byte(_, k) | Fault::Call(_, k) | Fault::Flush(_, k) => k,
                    _ => ErrorKind::WriteZero,
                };
                ensure!(i.kind() == want, "{}: the failure is reported as {:?} ({i})", what(), i.kind());
                st.class(match fault {
                    Fault::Byte(..) => "error at a byte",
                    Fault::Zero(_) => "no more bytes accepted",
                    Fault::Call(..) => "error at a call",
                    _ => "error at flush",
                });
                st.nontrivial = true;
            }
            Ok(()) => {
                ensure!(s.fired == 0, "{}: success is reported although the destination failed after {} bytes", what(), s.got.len());
                ensure!(s.flushed == Some(s.got.len()), "{}: success is reported but the last bytes were not flushed ({:?} of {})", what(), s.flushed, s.got.len());
                ensure!(s.got.len() == total, "{}: success is reported with {} of {total} bytes delivered", what(), s.got.len());
                layout::parse(&s.got).map_err(|e| format!("{}: success is reported but {e}", what()))?;
                same(&er(&what(), c.ty.load(0, &s.got, &env.dir))?, &c.canon, what)?;
                st.class("delivered");
                if most < usize::MAX || tick > 0 {
                    st.class("short or interrupted writes");
                    st.nontrivial = true;
                }
            }
        }
        st.digest(what().as_bytes());
        st.say(what());
    }
    Ok(())
}

fn paths(env: &Env, g: &mut Gen, st: &mut St) -> Res {
    let c = value(g, st);
    let w = Wr { how: 3 + g.below(2) as u8, builder: g.flag(), compress: false };
    let dir = env.path("a-directory");
    std::fs::create_dir_all(&dir).expect("harness: scratch directory");
    for (name, p) in [("/dev/full", std::path::PathBuf::from("/dev/full")), ("a path in no directory", env.path("none/x.par")), ("a directory", dir), ("the empty path", "".into())] {
        let r = c.val.save_to(w, &p);
        st.sum("writes", 1);
        match r {
            Ok(()) => return Err(format!("{} of a {} to {name} reports success", w.text(), c.ty.name())),
            Err(ParcodeError::Io(_)) => {}
            Err(e) => return Err(format!("{} to {name}: the failure is reported as another error: {e:?}", w.text())),
        }
    }
    st.class("paths that cannot be written");
    st.nontrivial = true;
    Ok(())
}

/// What the harness's own values and destinations panic with.
const DELIBERATE: &str = "deliberate panic of the harness";
/// A fuse that panics when serialized.
const DUD: u8 = 255;

/// Refuses to serialize when lit.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Deserialize)]
pub struct Fuse(pub u8);
impl Serialize for Fuse {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.0 {
            1 => Err(serde::ser::Error::custom("lit fuse")),
            DUD => panic!("{DELIBERATE}"),
            _ => s.serialize_u8(self.0),
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, parcode::ParcodeObject)]
pub struct Armed {
    id: u32,
    #[parcode(chunkable)]
    tail: Vec<u32>,
    fuse: Fuse,
}
#[derive(Clone, Debug, Serialize, Deserialize, parcode::ParcodeObject)]
pub struct Site {
    fuse: Fuse,
    #[parcode(chunkable)]
    items: Vec<Armed>,
    #[parcode(map)]
    index: HashMap<u32, Armed>,
    #[parcode(chunkable)]
    one: Armed,
    #[parcode(chunkable, compression = "lz4")]
    blob: HashMap<u32, Armed>,
    #[parcode(map)]
    keys: HashMap<Fuse, u32>,
    #[parcode(chunkable)]
    deep: Vec<Vault>,
}
#[derive(Clone, Debug, Serialize, Deserialize, parcode::ParcodeObject)]
pub struct Vault {
    n: u8,
    #[parcode(chunkable)]
    inside: Vec<Armed>,
}

impl Site {
    /// A site with a fuse lit at place `at` (none for 0).
    pub fn make(g: &mut Gen, at: u64) -> Site {
        Site::make_with(g, at, 1)
    }
    pub fn make_with(g: &mut Gen, at: u64, lit: u8) -> Site {
        let armed = |g: &mut Gen| Armed { id: g.u() as u32, tail: Vec::<u32>::gen_(g), fuse: Fuse(0) };
        let n = *g.pick(&[1usize, 2, 9, 300]);
        g.budget = 4000;
        let mut s = Site {
            fuse: Fuse(0),
            items: (0..n).map(|_| armed(g)).collect(),
            index: (0..n as u32 * 10).map(|i| (i, Armed { id: i, tail: vec![i], fuse: Fuse(0) })).collect(),
            one: armed(g),
            blob: (0..n as u32).map(|i| (i, Armed { id: i, tail: vec![], fuse: Fuse(0) })).collect(),
            keys: (2..40).map(|i| (Fuse(i), 1)).collect(),
            deep: (0..3).map(|i| Vault { n: i, inside: (0..g.range(1, 20)).map(|_| armed(g)).collect() }).collect(),
        };
        let k = if g.flag() { n - 1 } else { g.idx(n) };
        match at {
            1 => s.fuse.0 = lit,
            2 => s.items[k].fuse.0 = lit,
            3 => s.index.get_mut(&(k as u32)).unwrap().fuse.0 = lit,
            4 => s.one.fuse.0 = lit,
            5 => s.blob.get_mut(&(k as u32)).unwrap().fuse.0 = lit,
            6 => drop(s.keys.insert(Fuse(lit), 1)),
            7 => {
                let v = &mut s.deep[k % 3].inside;
                let last = v.len() - 1;
                v[last].fuse.0 = lit
            }
            _ => {}
        }
        s
    }
}
pub const PLACES: &[&str] = &["nowhere", "inline field", "vector item", "map value", "chunkable struct", "blob map value", "map key", "nested vector item"];

fn fuses(env: &Env, g: &mut Gen, st: &mut St) -> Res {
    let at = g.below(PLACES.len() as u64);
    let s = Site::make(g, at);
    st.class(format!("fuse lit: {}", PLACES[at as usize]));
    st.digest(format!("{s:?}").as_bytes());
    for how in 0..5 {
        let w = Wr { how, builder: g.flag(), compress: false };
        let pool = *g.pick(POOLS);
        let path = env.path("fuse.par");
        let r = env.pool(pool).install(|| write_bytes(w, &path, &s));
        let what = || format!("{} of a value with a field that refuses to serialize ({}) on {pool} threads", w.text(), PLACES[at as usize]);
        st.sum("writes", 1);
        match (r, at) {
            (Ok(b), 0) => {
                layout::parse(&b).map_err(|e| format!("{}: {e}", what()))?;
                let l: Site = er("load", Parcode::load_bytes(b))?;
                ensure!(l.items.len() == s.items.len() && l.index.len() == s.index.len() && l.deep.len() == 3, "{}: another value is read back", what());
            }
            (Ok(_), _) => return Err(format!("{}: success is reported", what())),
            (Err(e), 0) => return Err(format!("{}: fails: {e}", what())),
            (Err(_), _) => st.nontrivial = true,
        }
        st.say(what());
    }
    Ok(())
}

/// Values and destinations that panic: the panic may pass through the call, but it is not lost, and
/// the threads and whatever else the process keeps serve the next write as if nothing had happened.
fn panics(env: &Env, g: &mut Gen, st: &mut St) -> Res {
    let at = if g.chance(1, 3) { 0 } else { g.below(PLACES.len() as u64) };
    let s = Site::make_with(g, at, DUD);
    st.digest(format!("{s:?}").as_bytes());
    let after = value(g, st);
    for how in 0..5 {
        let w = Wr { how, builder: g.flag(), compress: false };
        let pool = *g.pick(POOLS);
        let path = env.path("panic.par");
        // Either the value or the destination panics: two panics at once end any process.
        let sink = (how < 2 && at == 0).then(|| {
            let p = if g.flag() { g.idx(40) } else { g.idx(4000) };
            let fault = if g.chance(3, 4) { Fault::Panic(p) } else { Fault::PanicFlush(g.range(1, 2)) };
            Sink { state: Arc::default(), most: *g.pick(&[1usize, 100, usize::MAX]), tick: 0, fault, once: g.flag() }
        });
        let state = sink.as_ref().map(|s| s.state.clone());
        let text = match &sink {
            Some(s) => format!("to a destination with {:?}", s.fault),
            None => "to a sound destination".into(),
        };
        let what = || format!("{} of a value that panics ({}) {text} on {pool} threads", w.text(), PLACES[at as usize]);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            env.pool(pool).install(|| match sink {
                Some(mut k) => write_to(w, &mut k, &s),
                None => write_bytes(w, &path, &s).map(drop),
            })
        }));
        let fired = at > 0 || state.as_ref().is_some_and(|s| s.lock().unwrap_or_else(|p| p.into_inner()).fired > 0);
        if let Some((m, _)) = crate::run::take_panic()
            && !m.contains(DELIBERATE)
        {
            return Err(format!("{}: another panic: {m}", what()));
        }
        st.sum("writes", 1);
        match r {
            Ok(Ok(())) => ensure!(!fired, "{}: success is reported", what()),
            Ok(Err(e)) => ensure!(fired, "{}: fails: {e}", what()),
            Err(_) => {
                ensure!(fired, "{}: panics", what());
                st.class(format!("panic: {}", if at > 0 { PLACES[at as usize] } else { "destination" }));
                st.nontrivial = true;
            }
        }
        // The same threads write the next value.
        let path = env.path("after.par");
        let b = er("write after a panic", env.pool(pool).install(|| after.val.write_bytes(w, &path)))?;
        same(&er("load after a panic", env.pool(pool).install(|| after.ty.load(0, &b, &path)))?, &after.canon, || format!("{}, then another value", what()))?;
        st.say(what());
    }
    Ok(())
}

pub fn c09(env: &Env, g: &mut Gen, st: &mut St) -> Res {
    match g.below(13) {
        12 => panics(env, g, st),
        0 => paths(env, g, st),
        1..=3 => fuses(env, g, st),
        _ => sinks(env, g, st),
    }
}
