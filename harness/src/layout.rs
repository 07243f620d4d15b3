//! The file format, implemented a second time from its description alone (src/format.rs docs,
//! whitepaper): a strict parser with every layout rule checked, and an encoder that places
//! chunks any way the format allows.
use crate::tape::Gen;

pub type Res<T = ()> = Result<T, String>;

macro_rules! fail { ($($a:tt)*) => { return Err(format!($($a)*)) } }
pub(crate) use fail;
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } } }
pub(crate) use ensure;

/// A chunk as found in a file.
#[derive(Debug, Clone)]
pub struct View {
    pub off: u64,
    pub len: u64,
    pub payload_len: u64,
    pub comp: u8,
    pub meta: u8,
    pub payload: Vec<u8>,
    pub kids: Vec<View>,
}

pub struct Parsed {
    pub root: View,
    pub chunks: usize,
    pub file_len: u64,
}

pub const HEADER: usize = 26;

fn u32at(b: &[u8], p: usize) -> u32 {
    u32::from_le_bytes(b[p..p + 4].try_into().unwrap())
}
fn u64at(b: &[u8], p: usize) -> u64 {
    u64::from_le_bytes(b[p..p + 8].try_into().unwrap())
}

/// LZ4 block decoder, from the LZ4 block format description.
pub fn lz4_block(src: &[u8], want: usize) -> Res<Vec<u8>> {
    let mut out = Vec::with_capacity(want);
    let mut p = 0;
    let more = |p: &mut usize, mut n: usize| -> Res<usize> {
        if n == 15 {
            loop {
                let b = *src.get(*p).ok_or("lz4: truncated length")?;
                *p += 1;
                n += b as usize;
                if b != 255 {
                    break;
                }
            }
        }
        Ok(n)
    };
    loop {
        let tok = *src.get(p).ok_or("lz4: truncated token")?;
        p += 1;
        let lit = more(&mut p, (tok >> 4) as usize)?;
        out.extend_from_slice(src.get(p..p + lit).ok_or("lz4: truncated literals")?);
        p += lit;
        if p == src.len() {
            break;
        }
        let d = u16::from_le_bytes([*src.get(p).ok_or("lz4: offset")?, *src.get(p + 1).ok_or("lz4: offset")?]) as usize;
        p += 2;
        let m = more(&mut p, (tok & 15) as usize)? + 4;
        ensure!(d != 0 && d <= out.len(), "lz4: bad match distance");
        let s = out.len() - d;
        if d >= m {
            out.extend_from_within(s..s + m);
        } else {
            for i in 0..m {
                let b = out[s + i];
                out.push(b);
            }
        }
    }
    ensure!(out.len() == want, "lz4: {} bytes, expected {}", out.len(), want);
    Ok(out)
}

fn decompress(comp: u8, raw: &[u8]) -> Res<Vec<u8>> {
    match comp {
        0 => Ok(raw.to_vec()),
        1 => {
            ensure!(raw.len() >= 5, "compressed payload of {} bytes", raw.len());
            lz4_block(&raw[4..], u32at(raw, 0) as usize)
        }
        c => Err(format!("compression id {c} in a chunk")),
    }
}

fn chunk(f: &[u8], off: u64, len: u64, count: &mut usize, spans: &mut Vec<(u64, u64)>) -> Res<View> {
    let body = f.len() as u64 - HEADER as u64;
    ensure!(len >= 1 && off.checked_add(len).is_some_and(|e| e <= body), "chunk {off}+{len} outside the body of {body} bytes");
    *count += 1;
    spans.push((off, len));
    let (o, e) = (off as usize, (off + len) as usize);
    let meta = f[e - 1];
    ensure!(meta & 0xF0 == 0, "reserved bits set in meta byte {meta:#x} of chunk at {off}");
    let comp = (meta >> 1) & 7;
    let mut pe = e - 1;
    let mut kids = Vec::new();
    if meta & 1 == 1 {
        ensure!(len >= 5, "chunk at {off} too short for a child count");
        let n = u32at(f, e - 5) as usize;
        ensure!(n > 0, "chunk at {off} has an empty child table");
        ensure!(n as u64 * 16 + 5 <= len, "child table of chunk at {off} larger than the chunk");
        pe = e - 5 - 16 * n;
        for i in 0..n {
            let (co, cl) = (u64at(f, pe + 16 * i), u64at(f, pe + 16 * i + 8));
            ensure!(co.checked_add(cl).is_some_and(|x| x <= off), "child {i} of chunk at {off} does not lie before it ({co}+{cl})");
            kids.push(chunk(f, co, cl, count, spans)?);
        }
    }
    let payload = decompress(comp, &f[o..pe]).map_err(|x| format!("chunk at {off}: {x}"))?;
    Ok(View { off, len, payload_len: (pe - o) as u64, comp, meta, payload, kids })
}

/// Parses a whole file, checking every rule of the layout.
pub fn parse(f: &[u8]) -> Res<Parsed> {
    ensure!(f.len() >= HEADER, "file of {} bytes has no header", f.len());
    let h = f.len() - HEADER;
    ensure!(&f[h..h + 4] == b"PAR4", "bad magic {:?}", &f[h..h + 4]);
    let ver = u16::from_le_bytes([f[h + 4], f[h + 5]]);
    ensure!(ver == 4, "version {ver}");
    let (ro, rl) = (u64at(f, h + 6), u64at(f, h + 14));
    ensure!(u32at(f, h + 22) == 0, "reserved header field is not 0");
    let mut count = 0;
    let mut spans = Vec::new();
    let root = chunk(f, ro, rl, &mut count, &mut spans)?;
    ensure!(ro + rl == h as u64, "root chunk {ro}+{rl} is not the last chunk (body of {h} bytes)");
    spans.sort();
    let mut at = 0;
    for (o, l) in spans {
        ensure!(o == at, "chunks do not tile the file: one starts at {o}, previous ended at {at}");
        at = o + l;
    }
    ensure!(at == h as u64, "chunks end at {at}, body has {h} bytes");
    Ok(Parsed { root, chunks: count, file_len: f.len() as u64 })
}

impl View {
    pub fn walk<'a>(&'a self, out: &mut Vec<&'a View>) {
        out.push(self);
        for k in &self.kids {
            k.walk(out);
        }
    }
    /// Content of the tree without placement.
    pub fn shape(&self, o: &mut Vec<u8>) {
        o.push(self.meta);
        o.extend_from_slice(&(self.payload.len() as u64).to_le_bytes());
        o.extend_from_slice(&self.payload);
        o.extend_from_slice(&(self.kids.len() as u64).to_le_bytes());
        for k in &self.kids {
            k.shape(o);
        }
    }
}

/// A chunk to be written by the independent encoder.
#[derive(Debug, Clone, Default)]
pub struct Node {
    pub payload: Vec<u8>,
    pub lz4: bool,
    pub kids: Vec<Node>,
}

fn lz4_encode(p: &[u8], g: &mut Gen) -> Vec<u8> {
    let mut o = (p.len() as u32).to_le_bytes().to_vec();
    if g.chance(1, 4) {
        // literals only, the simplest valid block
        let n = p.len();
        o.push(((n.min(15)) << 4) as u8);
        if n >= 15 {
            let mut r = n - 15;
            while r >= 255 {
                o.push(255);
                r -= 255;
            }
            o.push(r as u8);
        }
        o.extend_from_slice(p);
    } else {
        o.extend_from_slice(&lz4_flex::block::compress(p));
    }
    o
}

struct Flat<'n> {
    node: &'n Node,
    parent: usize,
    slot: usize,
    waiting: usize,
    refs: Vec<(u64, u64)>,
}

/// Writes the tree as a file, children before parents and the root last, otherwise in an order
/// chosen by `g`.
pub fn assemble(root: &Node, g: &mut Gen) -> Vec<u8> {
    assemble_at(root, g, 0)
}
/// The same for a file whose first `base` bytes (not returned) are unused.
pub fn assemble_at(root: &Node, g: &mut Gen, base: u64) -> Vec<u8> {
    let mut flat: Vec<Flat> = Vec::new();
    let mut todo = vec![(root, usize::MAX, 0)];
    while let Some((n, parent, slot)) = todo.pop() {
        let me = flat.len();
        flat.push(Flat { node: n, parent, slot, waiting: n.kids.len(), refs: vec![(0, 0); n.kids.len()] });
        for (i, k) in n.kids.iter().enumerate() {
            todo.push((k, me, i));
        }
    }
    let mut ready: std::collections::VecDeque<usize> = (0..flat.len()).filter(|i| flat[*i].waiting == 0).collect();
    let style = g.below(3);
    let mut s = g.sub();
    let mut out = Vec::new();
    let mut last = (0, 0);
    while !ready.is_empty() {
        let i = match style {
            0 => ready.pop_back().unwrap(),
            1 => ready.pop_front().unwrap(),
            _ => {
                let k = s.idx(ready.len());
                ready.swap_remove_back(k).unwrap()
            }
        };
        let off = base + out.len() as u64;
        let n = flat[i].node;
        if n.lz4 {
            out.extend_from_slice(&lz4_encode(&n.payload, &mut s));
        } else {
            out.extend_from_slice(&n.payload);
        }
        if !n.kids.is_empty() {
            for (o, l) in &flat[i].refs {
                out.extend_from_slice(&o.to_le_bytes());
                out.extend_from_slice(&l.to_le_bytes());
            }
            out.extend_from_slice(&(n.kids.len() as u32).to_le_bytes());
        }
        out.push((!n.kids.is_empty()) as u8 | (n.lz4 as u8) << 1);
        last = (off, base + out.len() as u64 - off);
        let p = flat[i].parent;
        if p != usize::MAX {
            let slot = flat[i].slot;
            flat[p].refs[slot] = last;
            flat[p].waiting -= 1;
            if flat[p].waiting == 0 {
                ready.push_back(p);
            }
        }
    }
    out.extend_from_slice(&header(last.0, last.1));
    out
}

pub fn header(off: u64, len: u64) -> Vec<u8> {
    let mut h = b"PAR4".to_vec();
    h.extend_from_slice(&4u16.to_le_bytes());
    h.extend_from_slice(&off.to_le_bytes());
    h.extend_from_slice(&len.to_le_bytes());
    h.extend_from_slice(&[0; 4]);
    h
}
