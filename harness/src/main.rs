#![allow(dead_code)]
mod alloc;
mod blocks;
mod checks;
mod conc;
mod corrupt;
mod derive;
mod drops;
mod dynty;
mod errors;
mod exec;
mod faults;
mod layout;
mod maps;
mod memory;
mod model;
mod nav;
mod pieces;
mod port;
mod run;
mod schemas;
mod tape;
mod val;
mod vecs;

use run::{Ctl, Prop};
use std::path::{Path, PathBuf};

const P: Prop = Prop {
    id: "",
    quick: 0,
    thorough: 0,
    threads: 8,
    tape: (6, 110),
    repeat: 1,
    level: "exploration",
    rule: "",
    assumptions: &[],
    cpu_limit: None,
    asan: 0,
    case: checks::c01,
};

static PROPS: &[Prop] = &[
    Prop { id: "C01", quick: 4000, thorough: 200_000, case: checks::c01, rule: "a value with at least 16 canonical bytes, written and loaded by at least one pair of entry points", assumptions: &["equality is judged on the harness's canonical encoding (floats by bits, maps sorted)", "struct definitions: 60 hand-picked ones and 14 generated from the schema seed"], ..P },
    Prop { id: "C02", quick: 6000, thorough: 200_000, case: checks::c02, rule: "the root has at least one lazy handle that was loaded, or a vector or map that was probed", assumptions: &["the model walks the definition, not the code under test"], ..P },
    Prop { id: "C03", quick: 20_000, thorough: 200_000, case: vecs::c03, rule: "a vector with at least one item and a history with at least one in-range access", assumptions: &["vectors of primitives are read eagerly only (they have no lazy items)"], ..P },
    Prop { id: "C04", quick: 4000, thorough: 200_000, case: maps::c04, rule: "a map with at least one entry, looked up with present and absent keys", assumptions: &["the hash of a key is recomputed with the documented XxHash64"], ..P },
    Prop { id: "C05", quick: 8000, thorough: 200_000, case: checks::c05, rule: "the file has more than one chunk and the value at least 16 canonical bytes", assumptions: &["the independent parser in layout.rs states the format"], ..P },
    Prop { id: "C06", quick: 4000, thorough: 200_000, case: checks::c06, rule: "a file of more than one chunk in a layout drawn by the independent encoder", assumptions: &["the independent encoder in model.rs states the format"], ..P },
    Prop { id: "C07", quick: 12_000, thorough: 100_000, case: checks::c07, rule: "a valid file, of which at least one cut or damaged header was tried", assumptions: &["a cut that happens to end in a valid header with a root that fits is not counted as torn"], ..P },
    Prop { id: "C08", quick: 6000, thorough: 1_000_000, asan: 25, cpu_limit: Some(60), case: corrupt::c08, rule: "the file still opens after the damage, so that damaged content was interpreted", assumptions: &["nesting of damaged files stays below a few hundred levels", "vectors of items that occupy no bytes are left out", "finding F10 is recognised by its call stack and reported, not counted"], ..P },
    Prop { id: "C09", quick: 3000, thorough: 400_000, case: faults::c09, rule: "at least one injected failure was reached by the write", assumptions: &["faults are injected into the sink or the value; the file system itself is not made to fail except for paths that cannot be written"], ..P },
    Prop { id: "C10", quick: 10_000, thorough: 200_000, case: checks::c10, rule: "at least one chunk was outside the access path and destroyed", assumptions: &["chunks whose parent's handle opens all its children keep their footers"], ..P },
    Prop { id: "C11", quick: 20_000, thorough: 400_000, repeat: 3, case: exec::c11, rule: "a tree with at least two tasks", assumptions: &["the schedule is driven by delays, nested pool use and thread counts, not enumerated"], ..P },
    Prop { id: "C12", quick: 10_000, thorough: 200_000, case: checks::c12, rule: "the file has more than one chunk", assumptions: &["container descriptions are compared for vectors and maps whose counts the independent reader knows"], ..P },
    Prop { id: "C13", quick: 6000, thorough: 200_000, case: checks::c13, rule: "a payload of at least 16 bytes, or a file with at least one compressed chunk", assumptions: &["the LZ4 block decoder in layout.rs is the reference"], ..P },
    Prop { id: "C14", quick: 3000, thorough: 300_000, threads: 4, repeat: 3, case: conc::c14, rule: "at least two threads performed operations", assumptions: &["schedules are sampled"], ..P },
    Prop { id: "C15", quick: 3000, thorough: 200_000, case: conc::c15, rule: "a history with at least one save over an earlier save and one read after it", assumptions: &["saves are sequential; a crash in the middle of a save is C07's"], ..P },
    Prop { id: "C16", quick: 15_000, thorough: 300_000, case: port::c16, rule: "a value with at least two remote fields, read by a configuration other than the writer's", assumptions: &["configurations are debug builds of the crate portable on one machine"], ..P },
    Prop { id: "C17", quick: 4000, thorough: 200_000, case: checks::c17, rule: "the file has more than one chunk", assumptions: &["maps are compared within one value object, whose iteration order is fixed"], ..P },
    Prop { id: "C18", quick: 200, thorough: 20_000, threads: 1, case: memory::c18, rule: "at least one access, other than opening and taking the root, had to stay below a quarter of the data of its container", assumptions: &["heap allocations are counted, mapped pages are not", "memory of an access is bounded by 4 times the decoded largest shard and its payload plus 128 KiB and the chunk tables"], ..P },
    Prop { id: "C19", quick: 60_000, thorough: 600_000, asan: 50, repeat: 3, case: drops::c19, rule: "the file was spoiled in at least one way", assumptions: &["items that were created before a load failed may leak; they must not be dropped twice", "items that occupy no bytes are left out"], ..P },
    Prop { id: "C20", quick: 6000, thorough: 100_000, case: pieces::c20, rule: "a vector of more than one shard, or a map of more than one bucket", assumptions: &["items of one vector are equally large and have no remote fields"], ..P },
    Prop { id: "C21", quick: 60_000, thorough: 1_000_000, case: blocks::c21, rule: "records and writers always; a registry with a registration; a graph with a chunk for a compressor of the user's own", assumptions: &["algorithm numbers of chunks are below 8, as the format has three bits"], ..P },
    Prop { id: "C22", quick: 4000, thorough: 200_000, case: errors::c22, rule: "always: each case provokes failures", assumptions: &["run as root, so no failure comes from permissions"], ..P },
    Prop { id: "C24", quick: 8000, thorough: 200_000, case: nav::c24, rule: "the file has more than one chunk", assumptions: &["chunks nested below a few hundred levels", "at most 3000 chunks of a file are descended into"], ..P },
    Prop { id: "C23", quick: 120, thorough: 4000, tape: (40, 400), case: derive::c23, rule: "at least one definition with a remote field and one that has to be refused", assumptions: &["definitions without generics, of at most three structs; fields are not called __marker", "values are small; serde attributes that change what a field encodes to are generated only where reading undoes them"], ..P },
];

/// A defect of the code under test that is recorded and not repaired.
pub struct Known {
    pub property: String,
    pub id: String,
    pub text: String,
}
/// Lines `known: property=<id> id=<finding> <text>` of known_findings.txt.
pub fn known() -> &'static [Known] {
    static K: std::sync::LazyLock<Vec<Known>> = std::sync::LazyLock::new(|| {
        let text = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
        let mut v = vec![];
        for l in text.lines() {
            if let Some(l) = l.strip_prefix("known: property=")
                && let Some((property, l)) = l.split_once(" id=")
                && let Some((id, text)) = l.split_once(' ')
            {
                v.push(Known { property: property.into(), id: id.into(), text: text.into() });
            }
        }
        v
    });
    &K
}
pub fn listed(id: &str) -> bool {
    known().iter().any(|k| k.id == id)
}
pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("HARNESS_ROOT").unwrap_or("/verif".into()))
}

fn prop(id: &str) -> &'static Prop {
    PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no such property: {id}");
        std::process::exit(2)
    })
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let root = root();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let s: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    let code = match &s[..] {
        ["run", id] => run::supervise(prop(id), &Ctl { root, seed, schema_seed: schemas::SCHEMA_SEED, thorough }),
        ["worker", id, dir, seed, tier] => {
            known();
            run::install_hook();
            run::worker(prop(id), Path::new(dir), seed.parse().unwrap(), *tier == "thorough");
            0
        }
        ["one", file, repeat] => {
            known();
            run::install_hook();
            let (p, tape, index, _) = case_file(file);
            run::one(p, &tape, index, &Path::new(file).parent().unwrap().join("scratch"), thorough, repeat.parse().unwrap())
        }
        ["replay", file] => {
            let (p, tape, index, schema) = case_file(file);
            if schema.is_some_and(|s| s != schemas::SCHEMA_SEED) {
                eprintln!("this replay needs a build with SCHEMA_SEED={}", schema.unwrap());
                2
            } else {
                run::replay(p, sanitized(file), &tape, index, Path::new(file), &root)
            }
        }
        _ => {
            eprintln!("usage: harness run ID | replay FILE");
            2
        }
    };
    std::process::exit(code);
}

fn sanitized(f: &str) -> bool {
    std::fs::read_to_string(f).is_ok_and(|s| s.contains("\"sanitized\": true"))
}
fn case_file(f: &str) -> (&'static Prop, Vec<u64>, u64, Option<u64>) {
    let v: serde_json::Value = serde_json::from_slice(&std::fs::read(f).expect("case file")).expect("case file");
    let tape = v["tape"].as_array().expect("tape").iter().map(|x| x.as_u64().unwrap()).collect();
    (prop(v["property"].as_str().unwrap()), tape, v["index"].as_u64().unwrap_or(0), v["schema_seed"].as_u64())
}
