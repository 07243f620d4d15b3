//! C22: failures are reported as what they are, and leave nothing behind.
use crate::checks::value;
use crate::dynty::*;
use crate::model::er;
use crate::layout::{Res, ensure, fail};
use crate::run::{Env, St};
use crate::tape::Gen;
use parcode::{Parcode, ParcodeError, ParcodeFile};
use std::collections::BTreeMap;
use std::error::Error;
use std::io;
use std::path::{Path, PathBuf};
use std::sync::Arc;

fn category(e: &ParcodeError) -> &'static str {
    match e {
        ParcodeError::Io(_) => "I/O",
        ParcodeError::Serialization(_) => "serialization",
        ParcodeError::Compression(_) => "compression",
        ParcodeError::Format(_) => "format",
        ParcodeError::Internal(_) => "internal",
    }
}
/// What every error value obeys.
fn laws(what: &str, e: &ParcodeError) -> Res {
    let text = e.to_string();
    let (prefix, inner) = match e {
        ParcodeError::Io(i) => ("I/O Error: ", i.to_string()),
        ParcodeError::Serialization(s) => ("Serialization Error: ", s.clone()),
        ParcodeError::Compression(s) => ("Compression Error: ", s.clone()),
        ParcodeError::Format(s) => ("Format Error: ", s.clone()),
        ParcodeError::Internal(s) => ("Internal Logic Error: ", s.clone()),
    };
    ensure!(text.contains(prefix.trim_end_matches(": ")) && text.contains(&inner), "{what}: a {} error is shown as {text:?}", category(e));
    let c = e.clone();
    ensure!(category(&c) == category(e) && c.to_string() == text, "{what}: the clone of {e:?} is {c:?}");
    if let (ParcodeError::Io(a), ParcodeError::Io(b)) = (e, &c) {
        ensure!(a.kind() == b.kind() && a.raw_os_error() == b.raw_os_error(), "{what}: the clone of {a:?} is {b:?}");
    }
    match (e, e.source()) {
        (ParcodeError::Io(i), Some(s)) => ensure!(s.to_string() == i.to_string(), "{what}: the source of {e:?} is {s:?}"),
        (ParcodeError::Io(_), None) => fail!("{what}: {e:?} has no source"),
        (_, Some(s)) => fail!("{what}: {e:?} has a source {s:?}"),
        _ => {}
    }
    Ok(())
}
fn listing(d: &Path) -> BTreeMap<PathBuf, (bool, Vec<u8>)> {
    let mut m = BTreeMap::new();
    for e in std::fs::read_dir(d).expect("harness: scratch directory").flatten() {
        let p = e.path();
        let meta = e.metadata().expect("harness: scratch file");
        let body = if meta.is_file() { std::fs::read(&p).unwrap_or_default() } else { vec![] };
        if meta.is_dir() {
            m.extend(listing(&p));
        }
        m.insert(p, (meta.is_dir(), body));
    }
    m
}

/// Paths on which the operating system refuses the call.
fn paths(env: &Env, g: &mut Gen, st: &mut St) -> Res {
    use std::os::unix::ffi::OsStrExt;
    let dir = env.path("errors");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(dir.join("sub")).expect("harness: scratch directory");
    let c = value(g, st);
    let good = dir.join("good.par");
    er("save", c.val.save_to(Wr { how: 4, builder: false, compress: false }, &good))?;
    std::os::unix::fs::symlink("loop", dir.join("loop")).expect("harness: link");
    std::os::unix::fs::symlink("nowhere/x", dir.join("dangling")).expect("harness: link");
    let name = |g: &mut Gen| -> String { (0..g.range(1, 12)).map(|_| *g.pick(&['a', 'B', '7', '.', ' ', 'é', '-', '\u{1F600}', '\\', '\n'])).collect::<String>() + "x" };
    let n = name(g);
    let list: Vec<(&str, PathBuf)> = vec![
        ("no such file", dir.join(&n)),
        ("no such directory", dir.join("none").join(&n)),
        ("a file as directory", good.join(&n)),
        ("a directory", dir.join("sub")),
        ("a directory with a slash", PathBuf::from(format!("{}/", dir.join("sub").display()))),
        ("a file with a slash", PathBuf::from(format!("{}/", good.display()))),
        ("the empty path", PathBuf::new()),
        ("a loop of links", dir.join("loop")),
        ("a dangling link", dir.join("dangling")),
        ("a name that is too long", dir.join("n".repeat(g.range(256, 400)))),
        ("a path that is too long", dir.join("d/".repeat(2100))),
        ("a NUL in the path", dir.join(std::ffi::OsStr::from_bytes(b"a\0b"))),
        ("a full device", PathBuf::from("/dev/full")),
        ("a device without content", PathBuf::from("/dev/null")),
    ];
    let before = listing(&dir);
    for (kind, p) in &list {
        for op in 0..8u64 {
            let what = || format!("{} on {kind}", ["load", "open", "ParcodeFile::open", "inspect", "save", "save_sync", "builder.save", "builder.save_sync"][op as usize]);
            let saves = op >= 4;
            // What the operating system itself says.
            let os: Option<io::Error> = if saves {
                match kind {
                    // The library decides when to flush; only the kind is certain.
                    &"a full device" => Some(io::Error::from_raw_os_error(28)),
                    &"no such file" | &"a device without content" => None,
                    _ => std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(p).err(),
                }
            } else {
                match kind {
                    &"a full device" | &"a device without content" => continue,
                    _ => std::fs::File::open(p).err(),
                }
            };
            if saves && (kind == &"no such file" || kind == &"a device without content") {
                continue;
            }
            let r: Result<(), ParcodeError> = match op {
                0 => c.ty.load(4, &[], p).map(|_| ()),
                1 => Parcode::open(p).map(|_| ()),
                2 => ParcodeFile::open(p).map(|_| ()),
                3 => Parcode::inspect(p).map(|_| ()),
                _ => c.val.save_to(Wr { how: if op % 2 == 0 { 3 } else { 4 }, builder: op >= 6, compress: op >= 6 }, p),
            };
            st.sum("failures", 1);
            let Err(e) = r else { fail!("{} reports success", what()) };
            laws(&what(), &e)?;
            let ParcodeError::Io(i) = &e else { fail!("{}: reported as a {} error: {e}", what(), category(&e)) };
            if let Some(os) = os {
                ensure!(i.kind() == os.kind(), "{}: reported as {:?} ({e}), the system says {:?}", what(), i.kind(), os.kind());
            }
        }
    }
    ensure!(listing(&dir) == before, "failing calls changed the directory: {:?}", listing(&dir).keys().collect::<Vec<_>>());
    st.class("paths");
    st.say(format!("14 kinds of paths, names like {n:?}"));
    st.digest(n.as_bytes());
    st.nontrivial = true;
    Ok(())
}

/// Files whose damage has a known kind.
fn damage(env: &Env, g: &mut Gen, st: &mut St) -> Res {
    st.nontrivial = true;
    let text = "abcdefgh".repeat(g.range(20, 400));
    let n = g.range(2, 300);
    let one = |v: &Vec<String>, z: bool| {
        let mut out = vec![];
        Parcode::builder().compression(z).write(&mut out, v).map(|()| out)
    };
    let v: Vec<String> = (0..n).map(|_| text.clone()).collect();
    let z = g.flag();
    let mut b = er("write", one(&v, z))?;
    let what;
    let want: &[&str];
    match g.below(5) {
        0 => {
            what = "a file cut short";
            want = &["format"];
            b.truncate(g.idx(b.len()));
        }
        1 => {
            what = "a wrong magic or version byte";
            want = &["format"];
            let at = b.len() - 26 + g.idx(6);
            b[at] ^= 1 << g.below(8);
        }
        2 => {
            what = "an algorithm nobody provides";
            want = &["compression"];
            // The meta byte of the first shard (children come first, so it is in its place).
            let p = crate::layout::parse(&b)?;
            let k = &p.root.kids[0];
            let at = (k.off + k.len - 1) as usize;
            b[at] = b[at] & !0xE | (g.range(2, 7) as u8) << 1;
        }
        3 if z => {
            what = "compressed data announced longer than it is";
            want = &["compression"];
            let p = crate::layout::parse(&b)?;
            let k = &p.root.kids[0];
            let at = k.off as usize;
            b[at] = b[at].wrapping_add(1 + g.below(100) as u8);
        }
        _ => {
            what = "text that is not UTF-8";
            want = &["serialization"];
            b = er("write", one(&v, false))?;
            let p = crate::layout::parse(&b)?;
            let k = &p.root.kids[g.idx(p.root.kids.len())];
            let at = (k.off + k.payload_len) as usize - 1;
            b[at] = 0xFF;
        }
    }
    st.class(what);
    st.say(format!("{what}, {n} strings"));
    st.digest(&b);
    let path = env.path("damaged.par");
    std::fs::write(&path, &b).expect("harness: scratch file");
    let tries: Vec<(&str, Option<ParcodeError>)> = vec![
        ("load", Parcode::load::<Vec<String>, _>(&path).err()),
        ("load_bytes", Parcode::load_bytes::<Vec<String>>(b.clone()).err()),
        ("open and load", Parcode::open(&path).and_then(|f| f.load::<Vec<String>>()).err()),
        ("open_bytes, root and load", Parcode::open_bytes(Arc::new(b.clone())).and_then(|f| f.root::<Vec<String>>()?.load()).err()),
        ("iter", Parcode::open(&path).and_then(|f| f.root::<Vec<String>>()?.iter()?.collect::<parcode::Result<Vec<String>>>()).err()),
    ];
    for (how, e) in tries {
        st.sum("failures", 1);
        let Some(e) = e else { fail!("{how} of {what} reports success") };
        let what = format!("{how} of {what}");
        laws(&what, &e)?;
        ensure!(want.contains(&category(&e)), "{what}: reported as a {} error: {e}", category(&e));
    }
    ensure!(std::fs::read(&path).is_ok_and(|x| x == b), "reading {what} changed the file");
    Ok(())
}

/// Errors made by users and by conversion.
fn conversions(g: &mut Gen, st: &mut St) -> Res {
    st.class("conversions");
    st.nontrivial = true;
    let msg: String = (0..g.range(0, 30)).map(|_| *g.pick(&['a', '%', '{', '}', '\n', 'é', '"', ' '])).collect();
    st.digest(msg.as_bytes());
    let code = g.range(1, 130) as i32;
    st.say(format!("message {msg:?}, error number {code}"));
    for e in [
        ParcodeError::from(io::Error::from_raw_os_error(code)),
        ParcodeError::from(io::Error::other(msg.clone())),
        io::Error::new(io::ErrorKind::TimedOut, msg.clone()).into(),
        ParcodeError::Serialization(msg.clone()),
        ParcodeError::Compression(msg.clone()),
        ParcodeError::Format(msg.clone()),
        ParcodeError::Internal(msg.clone()),
    ] {
        laws("an error value", &e)?;
        st.sum("failures", 1);
    }
    let e = ParcodeError::from(io::Error::from_raw_os_error(code));
    let ParcodeError::Io(i) = e else { fail!("an I/O error becomes a {} error", category(&e)) };
    ensure!(i.raw_os_error() == Some(code), "the error number {code} becomes {:?}", i.raw_os_error());
    Ok(())
}

/// No file of the scratch directory is open or mapped any more.
pub fn released(env: &Env) -> Res {
    let own = format!("{}/", env.dir.display());
    for e in std::fs::read_dir("/proc/self/fd").expect("harness: /proc").flatten() {
        if let Ok(p) = std::fs::read_link(e.path()) {
            ensure!(!p.to_string_lossy().starts_with(&own), "{} is still open although every handle is gone", p.display());
        }
    }
    let maps = std::fs::read_to_string("/proc/self/maps").expect("harness: /proc");
    if let Some(l) = maps.lines().find(|l| l.contains(&own)) {
        fail!("a file is still mapped although every handle is gone: {l}");
    }
    Ok(())
}

pub fn c22(env: &Env, g: &mut Gen, st: &mut St) -> Res {
    match g.below(6) {
        0..=2 => paths(env, g, st)?,
        5 => conversions(g, st)?,
        _ => damage(env, g, st)?,
    }
    released(env)
}
