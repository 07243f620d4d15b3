//! C16: files passed between builds of every feature configuration (crate `portable`).
use crate::layout::{self, Res, View, ensure, fail};
use crate::run::{Env, St};
use crate::tape::Gen;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

/// Bits of a configuration: 1 parallel, 2 mmap, 4 lz4_flex.
fn name(c: usize) -> String {
    let s: Vec<&str> = [(1, "parallel"), (2, "mmap"), (4, "lz4")].iter().filter(|x| c & x.0 != 0).map(|x| x.1).collect();
    if s.is_empty() { "no features".into() } else { s.join("+") }
}

struct Server {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! {
    static SERVERS: RefCell<Vec<Option<Server>>> = RefCell::new((0..8).map(|_| None).collect());
}
/// Sends a command to a configuration; None when its process ends instead of answering.
fn ask(c: usize, line: &str) -> Option<String> {
    SERVERS.with(|s| {
        let mut s = s.borrow_mut();
        let x = s[c].get_or_insert_with(|| {
            let mut child = Command::new(crate::root().join(format!("target/portable/{c}/debug/portable")))
                .env("RAYON_NUM_THREADS", "3")
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .expect("harness: portable");
            let (to, from) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
            Server { child, to, from }
        });
        let mut l = String::new();
        let sent = x.to.write_all(format!("{line}\n").as_bytes()).and_then(|_| x.to.flush());
        if sent.is_err() || !matches!(x.from.read_line(&mut l), Ok(n) if n > 0) {
            s[c] = None;
            return None;
        }
        Some(l.trim().into())
    })
}

fn packed(v: &View) -> bool {
    v.comp != 0 && !v.payload.is_empty()
}
/// Some chunk with data at or below `v` is compressed.
fn any(v: &View) -> bool {
    packed(v) || v.kids.iter().any(any)
}
/// Any chunk at all is flagged.
fn flagged(v: &View) -> bool {
    v.comp != 0 || v.kids.iter().any(flagged)
}

const KINDS: &[&str] = &["Mixed", "Inner", "Vec<Inner>", "Vec<u64>", "HashMap<u32, String>", "String", "Plain"];
/// Fields of Mixed that are maps in buckets, whose entries hold whole values.
const MAPS: &[usize] = &[2, 3, 9];

pub fn c16(env: &Env, g: &mut Gen, st: &mut St) -> Res {
    let kind = *g.pick(&[0usize, 0, 0, 1, 2, 3, 4, 5, 6]);
    let writer = g.idx(8);
    let how = g.below(5);
    let compress = g.flag() as u64;
    let path = env.path("ported.par");
    let len = g.range(1, 40);
    let mut s = g.sub();
    let tape: Vec<String> = (0..len).map(|_| s.u().to_string()).collect();
    let probe = g.u();
    let line = |cmd: &str| format!("{cmd} {kind} {how} {compress} {probe} {} {}", path.display(), tape.join(" "));
    let what = format!(
        "a {} by {} of the build with {}",
        KINDS[kind],
        ["write", "write_sync", "save", "save_sync", "serialize"][how as usize].to_string() + if compress == 1 && how != 4 { "+lz4" } else { "" },
        name(writer)
    );
    match ask(writer, &line("write")) {
        Some(r) if r.starts_with("written ") => {}
        Some(r) => fail!("writing {what}: {r}"),
        None => fail!("writing {what}: the process dies"),
    }
    let bytes = std::fs::read(&path).expect("harness: scratch file");
    st.digest(&bytes);
    let root = layout::parse(&bytes).map_err(|e| format!("{what}: {e}"))?.root;
    ensure!(writer & 4 != 0 || !flagged(&root), "{what} holds compressed chunks");
    let zipped = any(&root);
    if writer & 4 != 0 && compress == 1 && how != 4 {
        ensure!(root.payload.len() < 64 || root.comp == 1, "{what} is not compressed");
        st.class("compressed as a whole");
    }
    if zipped {
        st.class("holds compressed chunks");
    }
    // What an access of a build without lz4 has to say, by its place in the file.
    let place = |at: &str| -> &'static str {
        if !flagged(&root) {
            return "same";
        }
        // The structure can be reported without the data.
        if at == "inspect" {
            return "either";
        }
        if packed(&root) {
            return "error";
        }
        if matches!(at, "load" | "load_bytes" | "open_load" | ".load") {
            let mut need = vec![];
            let is_map = |i: usize| kind == 0 && MAPS.contains(&i);
            for (i, k) in root.kids.iter().enumerate() {
                if is_map(i) { need.push(packed(k) || k.kids.iter().any(packed)) } else { need.push(any(k)) }
            }
            return if need.contains(&true) || (kind != 0 && any(&root)) { "error" } else { "either" };
        }
        if matches!(at, ".get" | ".iter") {
            return "either";
        }
        if at == "root" {
            // Binding a nested struct reads its inline fields.
            return if kind == 0 && packed(&root.kids[4]) { "either" } else { "same" };
        }
        let mut parts = at.split('.');
        let Some(Ok(i)) = parts.next().map(|p| p.parse::<usize>()) else { return "either" };
        let mut v = if kind == 1 { &root } else { &root.kids[i] };
        let mut last = parts.next().unwrap_or("");
        if last == "inline" {
            return if packed(v) { "error" } else { "same" };
        }
        if last == "body" {
            if packed(v) {
                return "error";
            }
            v = &v.kids[0];
            last = parts.next().unwrap_or("");
        }
        let need = if kind == 0 && MAPS.contains(&i) { packed(v) || v.kids.iter().any(packed) } else { any(v) };
        match (need, flagged(v), last) {
            (true, _, "load") => "error",
            (false, false, _) => "same",
            _ => "either",
        }
    };
    let readers: Vec<usize> = if g.chance(1, 3) { (0..8).collect() } else { (0..3).map(|_| g.idx(8)).collect() };
    for r in readers {
        let Some(answer) = ask(r, &line("read")) else { fail!("reading {what} with {}: the process dies", name(r)) };
        ensure!(answer.starts_with("read "), "reading {what} with {}: {answer}", name(r));
        st.sum("files read", 1);
        for a in answer.split(' ').skip(1) {
            let (at, got) = a.split_once('=').unwrap_or((a, ""));
            let want = if r & 4 != 0 { "same" } else { place(at) };
            st.sum("accesses", 1);
            let fine = match want {
                "same" => got == "same",
                "error" => got == "error",
                _ => got == "same" || got == "error",
            };
            ensure!(fine, "reading {what} with {}: {at} gives {got}, expected {want}", name(r));
            if got == "error" {
                st.sum("accesses that must or may fail without lz4", 1);
            }
        }
        st.nontrivial |= r != writer && root.kids.len() > 1;
        st.class(format!("{} -> {}", name(writer), name(r)));
    }
    st.say(format!("{what}, {} bytes", bytes.len()));
    Ok(())
}
