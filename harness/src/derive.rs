//! C23: struct definitions are generated, compiled against parcode and its derive, and run.
use crate::layout::{self, Res, View, ensure, fail};
use crate::run::{Env, St};
use crate::tape::Gen;
use std::fmt::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::LazyLock;

/// Arguments that make rustc find parcode and serde, from cargo's report of the crate `derived`.
static EXTERNS: LazyLock<Vec<String>> = LazyLock::new(|| {
    let dir = crate::root().join("target/derived");
    let report = std::fs::read_to_string(dir.join("build.json")).expect("harness: target/derived/build.json");
    let mut args = vec!["-L".to_string(), format!("dependency={}", dir.join("debug/deps").display())];
    for line in report.lines() {
        let Ok(v) = serde_json::from_str::<serde_json::Value>(line) else { continue };
        let name = v["target"]["name"].as_str().unwrap_or("");
        if v["reason"] == "compiler-artifact" && (name == "parcode" || name == "serde") {
            let file = v["filenames"].as_array().into_iter().flatten().filter_map(|f| f.as_str()).find(|f| f.ends_with(".rlib"));
            if let Some(file) = file {
                args.push("--extern".into());
                args.push(format!("{name}={file}"));
            }
        }
    }
    assert!(args.len() == 6, "harness: cannot find the crates of target/derived: {args:?}");
    args
});

/// Words that are likely to mean something to generated code, and the words of the derive itself.
static NAMES: LazyLock<Vec<String>> = LazyLock::new(|| {
    let mut v: Vec<String> = "a b id name data index key value len item items slice node nodes child children child_iter child_node payload reader writer buffer cursor graph parent parent_id pid my_id job base_job config cfg config_override e err error result res root file map chunk chunkable compression shard marker _marker _m _x inner outer this self_ other tmp x y0 camelCase Upper visit load get iter get_lazy first last clone lazy stream whole shallow local locals remote remotes parcode std serde bincode core"
        .split(' ')
        .map(String::from)
        .collect();
    for k in "type match fn async await move ref mod use where impl loop struct enum trait dyn static const return box yield try abstract final override" .split(' ') {
        v.push(format!("r#{k}"));
    }
    let source = std::env::var("DERIVE_SOURCE").unwrap_or("/repo/parcode-derive/src/lib.rs".into());
    let source = std::fs::read_to_string(source).unwrap_or_default();
    for w in source.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_')) {
        let fits = w.len() < 30 && w.starts_with(|c: char| c.is_ascii_lowercase());
        if fits && !KEYWORDS.split(' ').any(|k| k == w) && !v.iter().any(|x| x == w) {
            v.push(w.into());
        }
    }
    v
});
const KEYWORDS: &str = "as async await break const continue crate dyn else enum extern false fn for gen if impl in let loop match mod move mut pub ref return self static struct super trait true type unsafe use where while abstract become box do final macro override priv try typeof unsized virtual yield";

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Local,
    Value,
    Struct(usize),
    Vec,
    VecStruct(usize),
    Map,
    MapStruct(usize),
}
struct Field {
    name: String,
    ty: String,
    kind: Kind,
    /// What the compression attribute asks for: 0 or 1.
    lz4: bool,
    source: String,
    skipped: bool,
    /// A map without buckets, whose values have no chunks.
    blob: bool,
}
struct Struct {
    name: String,
    head: String,
    fields: Vec<Field>,
    unit: bool,
}

const PLAIN: &[&str] = &["u32", "u8", "u64", "i16", "i64", "f32", "bool", "char", "String", "Option<u16>", "Vec<u8>", "(u8, String)", "[u16; 3]", "u128", "Option<String>", "Vec<String>", "Box<u32>"];
const REMOTE: &[&str] = &["u32", "u64", "u8", "i32", "bool", "String", "f64"];
const ITEM: &[&str] = &["u8", "u32", "u64", "String", "f32"];
const KEY: &[&str] = &["u32", "String", "u8", "i64", "char"];

fn word(g: &mut Gen) -> String {
    let n = g.idx(12);
    (0..n).map(|_| *g.pick(&['a', 'q', 'Z', '0', ' ', '_', '-', '.'])).collect()
}
/// An expression of a type without structs.
fn plain(g: &mut Gen, ty: &str) -> String {
    let small = g.int();
    match ty {
        "u8" => format!("{}u8", small as u8),
        "u32" => format!("{}u32", small as u32),
        "u64" => format!("{small}u64"),
        "u128" => format!("{}u128", (small as u128) << 60),
        "i16" => format!("({}i16)", small as i16),
        "i32" => format!("({}i32)", small as i32),
        "i64" => format!("({}i64)", small as i64),
        "f32" | "f64" => format!("{}.5{ty}", small % 1000),
        "bool" => (small % 2 == 1).to_string(),
        "char" => format!("{:?}", char::from_u32(small as u32 % 0xD800).unwrap_or('x')),
        "String" => format!("{:?}.to_string()", word(g)),
        "Option<u16>" => if small % 3 == 0 { "None".into() } else { format!("Some({}u16)", small as u16) },
        "Option<String>" => if small % 3 == 0 { "None".into() } else { format!("Some({:?}.to_string())", word(g)) },
        "(u8, String)" => format!("({}u8, {:?}.to_string())", small as u8, word(g)),
        "[u16; 3]" => format!("[{}u16, 1, 2]", small as u16),
        "Box<u32>" => format!("Box::new({}u32)", small as u32),
        "Vec<u8>" => format!("vec![{}u8; {}]", small as u8, g.idx(5)),
        "Vec<String>" => format!("vec![{:?}.to_string(); {}]", word(g), g.idx(4)),
        _ => unreachable!("{ty}"),
    }
}
fn value(g: &mut Gen, all: &[Struct], i: usize) -> String {
    let s = &all[i];
    if s.unit {
        return s.name.clone();
    }
    let mut o = format!("{} {{ ", s.name);
    for f in &s.fields {
        let e = match f.kind {
            _ if f.skipped => "Default::default()".into(),
            Kind::Local | Kind::Value => match all.iter().position(|s| s.name == f.ty) {
                Some(k) => value(g, all, k),
                None => plain(g, &f.ty),
            },
            Kind::Struct(k) => value(g, all, k),
            Kind::Vec => {
                let item = &f.ty[4..f.ty.len() - 1];
                let n = g.idx(6);
                format!("vec![{}]", (0..n).map(|_| plain(g, item)).collect::<Vec<_>>().join(", "))
            }
            Kind::VecStruct(k) => {
                let n = g.idx(4);
                format!("vec![{}]", (0..n).map(|_| value(g, all, k)).collect::<Vec<_>>().join(", "))
            }
            Kind::Map | Kind::MapStruct(_) => {
                let (key, val) = f.ty[8..f.ty.len() - 1].split_once(", ").unwrap();
                let n = g.idx(5);
                let each: Vec<String> = (0..n)
                    .map(|_| {
                        let k = plain(g, key);
                        let v = if let Kind::MapStruct(k) = f.kind { value(g, all, k) } else { plain(g, val) };
                        format!("({k}, {v})")
                    })
                    .collect();
                format!("HashMap::from([{}])", each.join(", "))
            }
        };
        write!(o, "{}: {e}, ", f.name).unwrap();
    }
    o + "}"
}

/// The attributes of a field in one of the spellings that mean the same.
fn spell(g: &mut Gen, keys: Vec<String>) -> String {
    let mut keys = keys;
    for i in (1..keys.len()).rev() {
        let j = g.idx(i + 1);
        keys.swap(i, j);
    }
    let mut groups: Vec<Vec<String>> = vec![];
    for k in keys {
        if groups.is_empty() || g.chance(1, 4) {
            groups.push(vec![k]);
        } else {
            groups.last_mut().unwrap().push(k);
        }
    }
    let mut o = String::new();
    for gr in groups {
        let comma = if g.chance(1, 6) { "," } else { "" };
        let sep = *g.pick(&[", ", ",", " , ", ",\n        "]);
        let inner = format!("parcode({}{comma})", gr.join(sep));
        match g.below(8) {
            7 => writeln!(o, "    #[cfg_attr(all(), {inner})]"),
            6 => writeln!(o, "    /// A field.\n    #[{inner}]"),
            5 => writeln!(o, "    #[{inner}]\n    #[allow(dead_code)]"),
            4 => writeln!(o, "    #[ {inner} ] /* kept apart */"),
            _ => writeln!(o, "    #[{inner}]"),
        }
        .unwrap();
    }
    o
}
fn algorithm(g: &mut Gen) -> (String, bool) {
    let (name, lz4) = *g.pick(&[("lz4", true), ("lz4", true), ("LZ4", true), ("Lz4", true), ("zstd", false), ("ZSTD", false), ("none", false), ("None", false)]);
    let eq = *g.pick(&[" = ", "=", " =  "]);
    let lit = match g.below(6) {
        5 => format!("r\"{name}\""),
        4 => format!("r#\"{name}\"#"),
        3 => format!("\"{}\\u{{{:x}}}\"", &name[..name.len() - 1], name.as_bytes()[name.len() - 1]),
        _ => format!("\"{name}\""),
    };
    (format!("compression{eq}{lit}"), lz4)
}

fn structure(g: &mut Gen, all: &[Struct]) -> Struct {
    let i = all.len();
    let base = *g.pick(&["Item", "Level", "Player", "Reader", "Cursor", "Node", "ChunkNode", "Chunk", "Graph", "Job", "Lazy", "A", "snake_case", "Visitor"]);
    let name = format!("{base}{i}");
    let vis = *g.pick(&["pub ", "", "pub(crate) ", "pub(super) "]);
    let mut derives = ["Clone", "Debug", "PartialEq", "Serialize", "Deserialize", "ParcodeObject"].map(String::from).to_vec();
    for i in (1..derives.len()).rev() {
        let j = g.idx(i + 1);
        derives.swap(i, j);
    }
    let mut head = String::new();
    if g.chance(1, 5) {
        // The derives in two groups. The helpers of serde must follow its derives.
        let at = g.range(1, derives.len() - 1);
        writeln!(head, "    #[derive({})]\n    /// In between.\n    #[derive({})]", derives[..at].join(", "), derives[at..].join(", ")).unwrap();
    } else {
        writeln!(head, "    #[derive({})]", derives.join(", ")).unwrap();
    }
    match g.below(12) {
        11 => head.push_str("    #[serde(rename_all = \"camelCase\")]\n"),
        10 => head.push_str("    #[allow(non_camel_case_types)]\n"),
        9 => head.push_str("    #[repr(C)]\n"),
        _ => {}
    }
    if i > 0 && g.chance(1, 25) {
        return Struct { head: format!("{head}    {vis}struct {name};\n"), name, fields: vec![], unit: true };
    }
    let n = if g.chance(1, 30) { 0 } else { g.range(1, 7) };
    let mut fields: Vec<Field> = vec![];
    for _ in 0..n {
        let name = g.pick(&NAMES).clone();
        if fields.iter().any(|f| f.name == name || f.name.trim_start_matches("r#") == name.trim_start_matches("r#")) {
            continue;
        }
        let other = if all.is_empty() || g.chance(1, 3) { None } else { Some(g.idx(all.len())) };
        let mut lz4 = false;
        let mut skipped = false;
        let mut blob = false;
        let (kind, ty, mut source) = match g.below(10) {
            0..=3 => {
                let ty = match other {
                    Some(k) if g.chance(1, 5) => all[k].name.clone(),
                    _ => g.pick(PLAIN).to_string(),
                };
                let source = match g.below(16) {
                    15 => "    #[parcode()]\n".to_string(),
                    14 if !all.iter().any(|s| s.name == ty) => "    #[serde(default)]\n".into(),
                    13 => {
                        skipped = !all.iter().any(|s| s.name == ty) && ty != "Box<u32>";
                        if skipped { "    #[serde(skip)]\n".into() } else { String::new() }
                    }
                    12 if ty == "u32" => "    #[serde(with = \"crate::as_text\")]\n".into(),
                    11 => "    #[serde(rename = \"odd\")]\n".into(),
                    _ => String::new(),
                };
                (Kind::Local, ty, source)
            }
            4 => (Kind::Value, g.pick(REMOTE).to_string(), String::new()),
            5 => match other {
                Some(k) => (Kind::Struct(k), all[k].name.clone(), String::new()),
                None => (Kind::Value, g.pick(REMOTE).to_string(), String::new()),
            },
            6 | 7 => match other {
                Some(k) => (Kind::VecStruct(k), format!("Vec<{}>", all[k].name), String::new()),
                None => (Kind::Vec, format!("Vec<{}>", g.pick(ITEM)), String::new()),
            },
            _ => match other {
                Some(k) => (Kind::MapStruct(k), format!("HashMap<{}, {}>", g.pick(KEY), all[k].name), String::new()),
                None => (Kind::Map, format!("HashMap<{}, {}>", g.pick(KEY), g.pick(ITEM)), String::new()),
            },
        };
        if kind != Kind::Local {
            let map = matches!(kind, Kind::Map | Kind::MapStruct(_));
            let mut keys: Vec<String> = match g.below(6) {
                5 if map => vec!["map".into(), "chunkable".into()],
                2..=4 if map => vec!["map".into()],
                _ => vec!["chunkable".into()],
            };
            blob = map && !keys.iter().any(|k| k == "map");
            if g.chance(2, 5) {
                let (a, l) = algorithm(g);
                keys.push(a);
                lz4 = l;
            }
            source.push_str(&spell(g, keys));
        }
        let vis = *g.pick(&["pub ", "", "pub(crate) ", "pub(super) "]);
        writeln!(source, "    {vis}{name}: {ty},").unwrap();
        fields.push(Field { name, ty, kind, lz4, source, skipped, blob });
    }
    head = format!("{head}    {vis}struct {name} {{\n{}    }}\n", fields.iter().map(|f| f.source.as_str()).collect::<String>());
    Struct { name, head, fields, unit: false }
}

/// A module of structs, with the code that saves a value of the last one and reads it back.
fn module(g: &mut Gen, k: usize) -> (String, Vec<Struct>) {
    let mut all: Vec<Struct> = vec![];
    for _ in 0..g.range(1, 3) {
        let s = structure(g, &all);
        all.push(s);
    }
    if all.last().unwrap().unit {
        all.pop();
    }
    let mut o = format!("mod d{k} {{\n    use parcode::ParcodeObject;\n    use serde::{{Deserialize, Serialize}};\n    use std::collections::HashMap;\n");
    for s in &all {
        o.push_str(&s.head);
    }
    let e = "map_err(|e| e.to_string())?";
    for (i, s) in all.iter().enumerate() {
        writeln!(o, "    fn lazy{i}(v: &{0}, l: &{0}Lazy<'_>) -> Result<(), String> {{", s.name).unwrap();
        for f in &s.fields {
            let n = &f.name;
            let bad = format!("return Err(\"{} read lazily differs\".into())", n.trim_start_matches("r#"));
            match f.kind {
                Kind::Local => writeln!(o, "        if l.{n} != v.{n} {{ {bad} }}"),
                Kind::Value => writeln!(o, "        if l.{n}.load().{e} != v.{n} {{ {bad} }}"),
                Kind::Struct(k) => writeln!(o, "        lazy{k}(&v.{n}, &l.{n})?;"),
                Kind::Vec => writeln!(o, "        if l.{n}.load().{e} != v.{n} || l.{n}.len() != v.{n}.len() {{ {bad} }}"),
                Kind::VecStruct(k) => writeln!(
                    o,
                    "        if l.{n}.load().{e} != v.{n} {{ {bad} }}
        for (i, x) in v.{n}.iter().enumerate() {{ if l.{n}.get(i).{e} != *x {{ {bad} }} lazy{k}(x, &l.{n}.get_lazy(i).{e})?; }}
        for (i, x) in l.{n}.iter_lazy().{e}.enumerate() {{ lazy{k}(&v.{n}[i], &x.{e})?; }}"
                ),
                Kind::Map => writeln!(
                    o,
                    "        if l.{n}.load().{e} != v.{n} {{ {bad} }}
        for (k, x) in &v.{n} {{ if l.{n}.get(k).{e}.as_ref() != Some(x) {{ {bad} }} }}"
                ),
                Kind::MapStruct(k) if f.blob && all[k].fields.iter().any(|f| f.kind != Kind::Local) => writeln!(
                    o,
                    "        if l.{n}.load().{e} != v.{n} {{ {bad} }}
        for (k, x) in &v.{n} {{
            if l.{n}.get(k).{e}.as_ref() != Some(x) {{ {bad} }}
            if let Ok(None) = l.{n}.get_lazy(k) {{ {bad} }}
        }}"
                ),
                Kind::MapStruct(k) => writeln!(
                    o,
                    "        if l.{n}.load().{e} != v.{n} {{ {bad} }}
        for (k, x) in &v.{n} {{
            if l.{n}.get(k).{e}.as_ref() != Some(x) {{ {bad} }}
            match l.{n}.get_lazy(k).{e} {{ Some(y) => lazy{k}(x, &y)?, None => {bad} }}
        }}"
                ),
            }
            .unwrap();
        }
        o.push_str("        Ok(())\n    }\n");
    }
    let last = all.len() - 1;
    let root = &all[last];
    let v = value(g, &all, last);
    let locals: String = root
        .fields
        .iter()
        .filter(|f| f.kind == Kind::Local)
        .map(|f| format!("        parcode::internal::bincode::serde::encode_into_std_write(&v.{}, &mut inline, parcode::internal::bincode::config::standard()).{e};\n", f.name))
        .collect();
    writeln!(
        o,
        "    pub fn run(path: &str) -> Result<(), String> {{
        let v = {v};
        let mut inline: Vec<u8> = vec![];
{locals}        std::fs::write(format!(\"{{path}}.inline\"), inline).{e};
        parcode::Parcode::save(path, &v).{e};
        let back: {0} = parcode::Parcode::load(path).{e};
        if back != v {{ return Err(format!(\"saved {{v:?}}, loaded {{back:?}}\")) }}
        let file = parcode::Parcode::open(path).{e};
        lazy{last}(&v, &file.root::<{0}>().{e})
    }}\n}}",
        root.name
    )
    .unwrap();
    (o, all)
}

/// A definition that the derive must refuse, and what is wrong with it.
fn refused(g: &mut Gen, k: usize) -> (String, &'static str) {
    let head = "#[derive(Clone, Debug, Serialize, Deserialize, ParcodeObject)]";
    let field = |attrs: String, ty: &str| format!("    {head}\n    pub struct Bad {{\n        before: u32,\n        {attrs}\n        odd: {ty},\n        after: String,\n    }}\n");
    let twist = |g: &mut Gen, w: &str| -> String {
        let mut b: Vec<char> = w.chars().collect();
        let at = g.idx(b.len());
        match g.below(4) {
            0 => {
                b.remove(at);
            }
            1 => b.insert(at, *g.pick(&['x', 'e', 's', 'z'])),
            2 => b.push(*g.pick(&['s', 'd', 'x'])),
            _ => b[at] = *g.pick(&['x', 'q', 'k']),
        }
        b.into_iter().collect()
    };
    let wrap = |g: &mut Gen, key: String| -> String {
        let mut keys = vec![];
        if g.flag() {
            keys.push("chunkable".to_string());
        }
        if g.chance(1, 3) {
            keys.push("compression = \"lz4\"".into());
        }
        let at = g.idx(keys.len() + 1);
        keys.insert(at, key);
        if g.chance(1, 4) { keys.iter().map(|k| format!("#[parcode({k})] ")).collect() } else { format!("#[parcode({})]", keys.join(", ")) }
    };
    let (src, what) = match g.below(9) {
        0 | 1 => {
            let key = loop {
                let k = match g.below(4) {
                    0 => g.pick(&["shard", "chunk", "inline", "skip", "lazy", "Chunkable", "MAP", "compress", "lz4", "zstd", "level", "index", "algorithm", "name", "map_", "serde"]).to_string(),
                    _ => {
                        let w = *g.pick(&["chunkable", "map", "compression"]);
                        twist(g, w)
                    }
                };
                if !["chunkable", "map", "compression"].contains(&k.as_str()) && !KEYWORDS.split(' ').any(|w| w == k) {
                    break k;
                }
            };
            let key = if g.chance(1, 4) { format!("{key} = \"lz4\"") } else { key };
            (field(wrap(g, key), "Vec<u32>"), "an unknown key")
        }
        2 | 3 => {
            let alg = loop {
                let a = match g.below(3) {
                    0 => g.pick(&["", "gzip", "lz4_flex", "snappy", "1", "0", "lz4 ", " lz4", "brotli", "default", "true", "zstd:3", "lz4hc", "no"]).to_string(),
                    _ => {
                        let w = *g.pick(&["lz4", "zstd", "none"]);
                        twist(g, w)
                    }
                };
                if !["lz4", "zstd", "none"].contains(&a.as_str()) {
                    break a;
                }
            };
            (field(wrap(g, format!("compression = {alg:?}")), "Vec<u32>"), "an unknown algorithm")
        }
        4 => {
            let v = *g.pick(&["compression", "compression = 1", "compression = lz4", "compression = true", "compression(\"lz4\")", "compression = 'l'", "compression = b\"lz4\""]);
            (field(wrap(g, v.into()), "Vec<u32>"), "an algorithm that is no string")
        }
        5 => {
            let v = *g.pick(&["chunkable = true", "chunkable = \"yes\"", "chunkable(true)", "map = 1", "map(u32)", "map = \"blob\"", "chunkable map"]);
            let v = if g.flag() { format!("#[parcode({v})]") } else { format!("#[parcode({v}, compression = \"lz4\")]") };
            (field(v, "HashMap<u32, u32>"), "a key with a value it does not take")
        }
        6 => {
            let v = *g.pick(&["#[parcode]", "#[parcode = \"chunkable\"]"]);
            (field(v.into(), "Vec<u32>"), "an attribute without keys")
        }
        7 => {
            let v = *g.pick(&["{ One, Two }", "{ One(u32), Two { x: u8 } }", "{ Only }", "{ A(Vec<u8>) }"]);
            (format!("    {head}\n    pub enum Bad {v}\n"), "an enum")
        }
        _ => {
            let v = *g.pick(&["(u32);", "(pub String, Vec<u8>);", "(#[parcode(chunkable)] Vec<u32>);"]);
            (format!("    {head}\n    pub struct Bad{v}\n"), "a tuple struct")
        }
    };
    (format!("mod b{k} {{\n    use parcode::ParcodeObject;\n    use serde::{{Deserialize, Serialize}};\n    use std::collections::HashMap;\n{src}}}\n"), what)
}

struct Verdict {
    ok: bool,
    /// Lines that errors point to, with their messages.
    errors: Vec<(Vec<usize>, String)>,
    text: String,
}
fn rustc(dir: &Path, src: &Path, args: &[&str]) -> Verdict {
    let toolchain = "stable-x86_64-unknown-linux-gnu";
    let out = Command::new("rustc")
        .env("RUSTUP_TOOLCHAIN", toolchain)
        .env("RUST_BACKTRACE", "0")
        .current_dir(dir)
        .args(["--edition", "2024", "--error-format=json", "--cap-lints", "allow", "-C", "debuginfo=0", "-C", "codegen-units=1"])
        .args(args)
        .args(EXTERNS.iter())
        .arg(src)
        .stdin(Stdio::null())
        .output()
        .expect("harness: rustc");
    let text = String::from_utf8_lossy(&out.stderr).into_owned();
    let mut errors = vec![];
    for line in text.lines() {
        let Ok(v) = serde_json::from_str::<serde_json::Value>(line) else { continue };
        if v["level"] != "error" {
            continue;
        }
        let mut lines = vec![];
        for s in v["spans"].as_array().into_iter().flatten() {
            let mut s = s;
            while s.is_object() {
                if s["file_name"].as_str().is_some_and(|f| f.ends_with("case.rs")) {
                    lines.push(s["line_start"].as_u64().unwrap_or(0) as usize);
                }
                s = &s["expansion"]["span"];
            }
        }
        errors.push((lines, v["message"].as_str().unwrap_or("").to_string()));
    }
    Verdict { ok: out.status.success(), errors, text }
}

/// Joins modules into one source text and tells the lines each of them occupies.
fn join(head: &str, modules: &[String]) -> (String, Vec<std::ops::RangeInclusive<usize>>) {
    let mut o = head.to_string();
    let mut at = head.lines().count() + 1;
    let mut ranges = vec![];
    for m in modules {
        let n = m.lines().count();
        ranges.push(at..=at + n - 1);
        at += n;
        o.push_str(m);
    }
    (o, ranges)
}
fn scratch(env: &Env) -> PathBuf {
    let d = env.path("derive");
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).expect("harness: scratch directory");
    d
}
fn flags(v: &View) -> bool {
    !(v.kids.is_empty() && v.payload == [0; 4])
}

const HEAD: &str = "mod as_text {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(v: &u32, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&format!(\"#{v}\")) }
    pub fn deserialize<'d, D: Deserializer<'d>>(d: D) -> Result<u32, D::Error> {
        let s = String::deserialize(d)?;
        s[1..].parse().map_err(serde::de::Error::custom)
    }
}
";

pub fn c23(env: &Env, g: &mut Gen, st: &mut St) -> Res {
    let dir = scratch(env);
    let n = g.range(1, 12);
    let bad = g.idx(9);
    let good: Vec<(String, Vec<Struct>)> = (0..n).map(|k| module(g, k)).collect();
    let refused: Vec<(String, &str)> = (0..bad).map(|k| refused(g, k)).collect();
    st.nontrivial = bad > 0 && good.iter().any(|(_, all)| all.last().unwrap().fields.iter().any(|f| f.kind != Kind::Local));
    st.sum("definitions accepted", good.iter().map(|x| x.1.len()).sum());
    st.sum("definitions refused", bad);
    st.sum("fields", good.iter().flat_map(|x| &x.1).map(|s| s.fields.len()).sum());

    // What the derive must refuse.
    let texts: Vec<String> = refused.iter().map(|x| x.0.clone()).collect();
    let (text, ranges) = join("", &texts);
    st.digest(text.as_bytes());
    if bad > 0 {
        let src = dir.join("case.rs");
        std::fs::write(&src, &text).expect("harness: scratch file");
        let v = rustc(&dir, &src, &["--crate-type", "lib", "--emit", "metadata"]);
        for (i, r) in ranges.iter().enumerate() {
            let what = refused[i].1;
            ensure!(v.errors.iter().any(|(l, _)| l.iter().any(|l| r.contains(l))), "the derive accepts {what}:\n{}", texts[i]);
            st.class(format!("refused: {what}"));
        }
    }

    // What it must accept, and what the accepted definitions must do.
    let texts: Vec<String> = good.iter().map(|x| x.0.clone()).collect();
    let (mut text, ranges) = join(HEAD, &texts);
    st.digest(text.as_bytes());
    let runs: String = (0..n).map(|k| format!("    one({k}, d{k}::run);\n")).collect();
    write!(
        text,
        "fn one(k: usize, f: fn(&str) -> Result<(), String>) {{
    let r = std::panic::catch_unwind(|| f(&format!(\"d{{k}}.par\")));
    match r {{ Ok(Ok(())) => println!(\"{{k}} ok\"), Ok(Err(e)) => println!(\"{{k}} {{}}\", e.replace('\\n', \" \")), Err(_) => println!(\"{{k}} panic\") }}
}}
fn main() {{
{runs}}}
"
    )
    .unwrap();
    let src = dir.join("case.rs");
    std::fs::write(&src, &text).expect("harness: scratch file");
    let v = rustc(&dir, &src, &["--crate-type", "bin", "-o", "case"]);
    if !v.ok {
        for (lines, m) in &v.errors {
            for (i, r) in ranges.iter().enumerate() {
                ensure!(!lines.iter().any(|l| r.contains(l)), "a definition does not compile ({m}):\n{}", texts[i]);
            }
        }
        fail!("definitions do not compile: {}", v.text.chars().take(2000).collect::<String>());
    }
    let out = Command::new(dir.join("case")).current_dir(&dir).env("RAYON_NUM_THREADS", "2").stdin(Stdio::null()).output().expect("harness: compiled case");
    let said = String::from_utf8_lossy(&out.stdout).into_owned();
    for (k, (src, all)) in good.iter().enumerate() {
        let line = said.lines().find_map(|l| l.strip_prefix(&format!("{k} ")));
        ensure!(line == Some("ok"), "{}:\n{src}", line.unwrap_or("the program ends without an answer"));
        let bytes = std::fs::read(dir.join(format!("d{k}.par"))).expect("harness: written file");
        let inline = std::fs::read(dir.join(format!("d{k}.par.inline"))).expect("harness: written file");
        let root = layout::parse(&bytes).map_err(|e| format!("{e}:\n{src}"))?.root;
        ensure!(root.payload == inline, "the inline fields are not the unmarked ones in order: {:?} instead of {inline:?}:\n{src}", root.payload);
        let remotes: Vec<&Field> = all.last().unwrap().fields.iter().filter(|f| f.kind != Kind::Local).collect();
        ensure!(root.kids.len() == remotes.len(), "{} chunks for {} remote fields:\n{src}", root.kids.len(), remotes.len());
        for (f, kid) in remotes.iter().zip(&root.kids) {
            // Empty maps of both kinds are the same marker.
            if matches!(f.kind, Kind::Map | Kind::MapStruct(_)) && kid.payload != [0; 4] {
                let buckets = !kid.kids.is_empty();
                ensure!(buckets != f.blob, "the map {} is stored {}:\n{src}", f.name, if buckets { "in buckets" } else { "as one blob" });
            }
            if flags(kid) {
                ensure!(kid.comp == f.lz4 as u8, "compression {} for the field {}:\n{src}", kid.comp, f.name);
            }
            if f.lz4 {
                st.class("compressed field");
            }
        }
        for f in all.iter().flat_map(|s| &s.fields) {
            if f.source.contains("#[serde") {
                st.class("serde attributes on a field");
            }
            if f.name.starts_with("r#") {
                st.class("raw identifier");
            }
        }
    }
    st.say(texts[0].lines().skip(4).take(14).map(|l| l.trim()).collect::<Vec<_>>().join(" "));
    let _ = std::fs::remove_dir_all(&dir);
    Ok(())
}
