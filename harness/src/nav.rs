//! C24: moving through the chunks of an open file.
use crate::checks::{any_tree, foreign_algorithms, value, write};
use crate::dynty::*;
use crate::layout::{self, Res, View, ensure, fail};
use crate::model::*;
use crate::run::{Env, St};
use crate::tape::Gen;
use parcode::reader::ChunkNode;
use parcode::{Parcode, ParcodeError, ParcodeFile};
use std::borrow::Cow;
use std::sync::Arc;

/// What a node says about itself and its payload.
fn node(n: &ChunkNode, v: &View) -> Res {
    let what = || format!("the chunk at {}", v.off);
    ensure!(n.offset() == v.off && n.length() == v.len, "{}: the node says {}+{}, it is {}+{}", what(), n.offset(), n.length(), v.off, v.len);
    ensure!(n.payload_len() == v.payload_len, "{}: the node says {} payload bytes, it has {}", what(), n.payload_len(), v.payload_len);
    ensure!(n.child_count() as usize == v.kids.len(), "{}: the node says {} children, it has {}", what(), n.child_count(), v.kids.len());
    let m = n.meta();
    ensure!(m.as_u8() == v.meta && m.is_chunkable() != v.kids.is_empty() && m.compression_method() == v.comp, "{}: the node says {m:?}, the flags are {:#04x}", what(), v.meta);
    if v.comp > 1 {
        ensure!(matches!(n.read_raw(), Err(ParcodeError::Compression(_))), "{}: read_raw knows algorithm {}", what(), v.comp);
        return Ok(());
    }
    let raw = er(&what(), n.read_raw())?;
    ensure!(*raw == v.payload[..], "{}: read_raw returns {} bytes that are not the {} of the payload", what(), raw.len(), v.payload.len());
    ensure!(v.comp != 0 || matches!(raw, Cow::Borrowed(_)), "{}: read_raw copies a payload that is not compressed", what());
    Ok(())
}

/// Visits the whole tree, in an order and by calls chosen by `g`.
fn walk(n: &ChunkNode, v: &View, g: &mut Gen, left: &mut usize) -> Res {
    // An explicit stack: trees may be deep.
    let mut todo: Vec<(ChunkNode, &View)> = vec![(n.clone(), v)];
    while let Some((n, v)) = todo.pop() {
        node(&n, v)?;
        if *left == 0 {
            continue;
        }
        *left -= 1;
        let k = v.kids.len();
        let far = [k, k + 1, k + g.idx(1000), u32::MAX as usize, u32::MAX as usize + 1, (1 << 32) + g.idx(k + 1), usize::MAX / 16, usize::MAX / 16 + 1, (1 << 60) + g.idx(k + 1), usize::MAX - g.idx(2)];
        for i in [far[g.idx(far.len())], far[g.idx(far.len())]] {
            if i >= k {
                ensure!(n.get_child_by_index(i).is_err(), "the chunk at {}: child {i} of {k} is found", v.off);
            }
        }
        if g.flag() {
            let all = er("children", n.children())?;
            ensure!(all.len() == k, "the chunk at {}: children() lists {} of {k}", v.off, all.len());
            todo.extend(all.into_iter().zip(&v.kids));
        } else {
            for (i, kid) in v.kids.iter().enumerate() {
                todo.push((er("get_child_by_index", n.get_child_by_index(i))?, kid));
            }
        }
        if todo.len() > 1 && g.flag() {
            let (a, b) = (g.idx(todo.len()), todo.len() - 1);
            todo.swap(a, b);
        }
    }
    Ok(())
}

type Leaf = (u64, String, Vec<i16>, Option<bool>);
fn leaf(g: &mut Gen) -> Leaf {
    use crate::val::Val;
    (g.u(), String::gen_(g), Vec::<i16>::gen_(g), g.flag().then(|| g.flag()))
}

pub fn c24(env: &Env, g: &mut Gen, st: &mut St) -> Res {
    let mut leaves: Vec<Leaf> = vec![];
    let bytes = match g.below(4) {
        0 => {
            st.class("tree without meaning");
            let n = any_tree(g);
            layout::assemble(&n, g)
        }
        1 => {
            // Values behind plain children of a root of no type.
            st.class("values in chunks");
            let mut s = g.sub();
            leaves = (0..s.range(1, 20)).map(|_| leaf(&mut s)).collect();
            let kids = leaves.iter().map(|l| layout::Node { payload: encoded(l), lz4: s.flag(), kids: vec![] }).collect();
            layout::assemble(&layout::Node { payload: vec![], lz4: false, kids }, g)
        }
        2 => {
            let c = value(g, st);
            let mut s = g.sub();
            let lz4 = s.below(3);
            let node = c.val.to_node(&mut Plan { g: &mut s, lz4, shards: 0, multi_run: 0 });
            st.class("foreign layout");
            layout::assemble(&node, g)
        }
        _ => {
            let c = value(g, st);
            let w = Wr::gen_(g);
            st.class("written by the library");
            write(&c, w, env, g, st)?
        }
    };
    let Ok(mut p) = layout::parse(&bytes) else { return Ok(()) };
    let mut bytes = bytes;
    if leaves.is_empty() {
        foreign_algorithms(&mut p.root, &mut bytes, g);
    }
    st.digest(&bytes);
    let from_disk = g.flag();
    let f: ParcodeFile = if from_disk {
        let path = env.path("nav.par");
        std::fs::write(&path, &bytes).expect("harness: scratch file");
        er("open", if g.flag() { Parcode::open(&path) } else { ParcodeFile::open(&path) })?
    } else {
        let shared = Arc::new(bytes.clone());
        let f = er("open_bytes", if g.flag() { Parcode::open_bytes(shared.clone()) } else { ParcodeFile::from_bytes(shared.clone()) })?;
        // The bytes are shared, not copied: the payload of a plain chunk lies inside them.
        let root = er("root_node", f.root_node())?;
        if p.root.comp == 0 {
            let raw = er("read_raw", root.read_raw())?;
            let (at, own) = (raw.as_ptr() as usize, shared.as_ptr() as usize);
            ensure!(raw.is_empty() || (own..own + shared.len()).contains(&at), "the bytes given to open_bytes are copied");
        }
        f
    };
    ensure!(f.file_size() == bytes.len() as u64, "file_size is {}, the file has {} bytes", f.file_size(), bytes.len());
    let mut left = 3000;
    walk(&er("root_node", f.root_node())?, &p.root, g, &mut left)?;
    for (i, l) in leaves.iter().enumerate() {
        let n = er("get_child_by_index", f.root_node().and_then(|r| r.get_child_by_index(i)))?;
        let got: Leaf = er("decode", n.decode())?;
        ensure!(got == *l, "decode of the chunk at {} returns {got:?}, it holds {l:?}", n.offset());
        if n.decode::<(Leaf, [u64; 2])>().is_ok() {
            fail!("decode of the chunk at {} invents 16 bytes and more", n.offset());
        }
    }
    st.nontrivial = p.chunks > 1;
    st.say(format!("{} chunks, {}", p.chunks, if from_disk { "from disk" } else { "from memory" }));
    Ok(())
}
fn encoded(l: &Leaf) -> Vec<u8> {
    let mut o = vec![];
    enc(l, &mut o);
    o
}
