//! One feature configuration of parcode, driven over stdin: writes values made from a tape and
//! says whether files read back as them.
#![allow(dead_code)]
#[path = "../../harness/src/tape.rs"]
mod tape;
#[path = "../../harness/src/val.rs"]
mod val;

use parcode::visitor::ParcodeVisitor;
use parcode::{Parcode, ParcodeFile, ParcodeItem, ParcodeNative, ParcodeObject};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::Path;
use tape::Gen;
use val::{Val, same};

macro_rules! model {
    ($n:ident { $($f:ident: $t:ty),* }) => {
        impl Val for $n {
            const COST: usize = 40;
            fn gen_(g: &mut Gen) -> Self {
                g.depth += 1;
                $(let $f: $t = Val::gen_(g);)*
                g.depth -= 1;
                $n { $($f),* }
            }
            fn canon(&self, o: &mut Vec<u8>) { $(self.$f.canon(o);)* }
        }
    };
}

#[derive(Clone, Debug, Serialize, Deserialize, ParcodeObject)]
struct Inner {
    id: u32,
    #[parcode(chunkable, compression = "lz4")]
    body: Vec<u8>,
    tag: String,
}
model!(Inner { id: u32, body: Vec<u8>, tag: String });

#[derive(Clone, Debug, Serialize, Deserialize, ParcodeObject)]
struct Plain {
    #[parcode(chunkable)]
    body: Vec<u16>,
    tag: String,
}
model!(Plain { body: Vec<u16>, tag: String });

#[derive(Clone, Debug, Serialize, Deserialize, ParcodeObject)]
struct Mixed {
    a: u32,
    #[parcode(chunkable)]
    nums: Vec<u64>,
    #[parcode(chunkable, compression = "lz4")]
    packed: Vec<String>,
    name: String,
    #[parcode(map)]
    index: HashMap<String, u32>,
    #[parcode(map, compression = "lz4")]
    zmap: HashMap<u32, Inner>,
    #[parcode(chunkable)]
    inner: Inner,
    #[parcode(chunkable, compression = "zstd")]
    z: Vec<u8>,
    #[parcode(chunkable)]
    items: Vec<Inner>,
    #[parcode(chunkable)]
    blob: HashMap<u32, String>,
    #[parcode(chunkable)]
    plain: Vec<Plain>,
    #[parcode(map)]
    pmap: HashMap<u16, Plain>,
}
model!(Mixed {
    a: u32, nums: Vec<u64>, packed: Vec<String>, name: String, index: HashMap<String, u32>, zmap: HashMap<u32, Inner>,
    inner: Inner, z: Vec<u8>, items: Vec<Inner>, blob: HashMap<u32, String>, plain: Vec<Plain>, pmap: HashMap<u16, Plain>
});

/// "same", "differs", "error" or "panic" for an access.
struct Out(String);
impl Out {
    fn say(&mut self, what: &str, r: impl FnOnce() -> parcode::Result<bool>) {
        let r = match catch_unwind(AssertUnwindSafe(r)) {
            Ok(Ok(true)) => "same",
            Ok(Ok(false)) => "differs",
            Ok(Err(_)) => "error",
            Err(_) => "panic",
        };
        self.0.push_str(&format!(" {what}={r}"));
    }
}

fn write<T: Val + ParcodeVisitor + Sync>(x: &T, how: u8, compress: bool, path: &Path) -> parcode::Result<()> {
    let b = Parcode::builder().compression(compress);
    match how {
        0 => b.write(std::fs::File::create(path)?, x),
        1 => b.write_sync(std::fs::File::create(path)?, x),
        2 => b.save(path, x),
        3 => b.save_sync(path, x),
        _ => {
            std::fs::write(path, Parcode::serialize(x)?)?;
            Ok(())
        }
    }
}

fn read<T: Val + ParcodeNative>(x: &T, path: &Path, o: &mut Out) -> Option<ParcodeFile> {
    o.say("load", || Ok(same(&Parcode::load::<T, _>(path)?, x)));
    o.say("load_bytes", || Ok(same(&Parcode::load_bytes::<T>(std::fs::read(path)?)?, x)));
    o.say("open_load", || Ok(same(&Parcode::open(path)?.load::<T>()?, x)));
    // Inspection may fail without the algorithm, but must return.
    match catch_unwind(AssertUnwindSafe(|| Parcode::inspect(path).map(|r| r.to_string()))) {
        Ok(Ok(_)) => o.0.push_str(" inspect=same"),
        Ok(Err(_)) => o.0.push_str(" inspect=error"),
        Err(_) => o.0.push_str(" inspect=panic"),
    }
    Parcode::open(path).ok()
}
fn items<T: Val + ParcodeItem>(name: &str, p: &parcode::ParcodeCollectionPromise<'_, T>, m: &[T], g: &mut Gen, o: &mut Out) {
    o.say(&format!("{name}.load"), || {
        let v = p.load()?;
        Ok(v.len() == m.len() && v.iter().zip(m).all(|(a, b)| same(a, b)))
    });
    for _ in 0..2 {
        if !m.is_empty() {
            let i = g.idx(m.len());
            o.say(&format!("{name}.get"), || Ok(same(&p.get(i)?, &m[i])));
        }
    }
    o.say(&format!("{name}.iter"), || {
        let mut n = 0;
        let mut fine = true;
        for (k, x) in p.iter()?.enumerate() {
            let x = x?;
            fine &= k < m.len() && same(&x, &m[k]);
            n += 1;
        }
        Ok(fine && n == m.len())
    });
}
fn entries<K: val::Key, V: Val>(name: &str, p: &parcode::ParcodeMapPromise<'_, K, V>, m: &HashMap<K, V>, g: &mut Gen, o: &mut Out) {
    o.say(&format!("{name}.load"), || {
        let v = p.load()?;
        Ok(v.len() == m.len() && v.iter().all(|(k, x)| m.get(k).is_some_and(|y| same(x, y))))
    });
    for _ in 0..3 {
        let mut ks: Vec<&K> = m.keys().collect();
        ks.sort_by_key(|k| k.canon_vec());
        if !ks.is_empty() {
            let k = ks[g.idx(ks.len())];
            o.say(&format!("{name}.get"), || Ok(p.get(k)?.is_some_and(|x| same(&x, &m[k]))));
        }
    }
    let k = K::gen_(g);
    o.say(&format!("{name}.get"), || Ok(p.get(&k)?.map(|x| x.canon_vec()) == m.get(&k).map(|x| x.canon_vec())));
}
fn inner(name: &str, l: &InnerLazy<'_>, m: &Inner, g: &mut Gen, o: &mut Out) {
    o.say(&format!("{name}.inline"), || Ok(l.id == m.id && l.tag == m.tag));
    items(&format!("{name}.body"), &l.body, &m.body, g, o);
}

fn serve(cmd: &str, kind: u64, how: u8, compress: bool, path: &Path, tape: &[u64], probe: u64) -> String {
    macro_rules! run {
        ($t:ty, $lazy:expr) => {{
            let mut g = Gen::new(tape);
            g.budget = 6000;
            let x = <$t as Val>::gen_(&mut g);
            if cmd == "write" {
                match catch_unwind(AssertUnwindSafe(|| write(&x, how, compress, path))) {
                    Ok(Ok(())) => format!("written {}", x.canon_vec().len()),
                    Ok(Err(e)) => format!("error {e}"),
                    Err(_) => "panic".into(),
                }
            } else {
                let mut o = Out("read".into());
                let seed = [probe];
                let mut g = Gen::new(&seed);
                if let Some(f) = read(&x, path, &mut o) {
                    let f: &ParcodeFile = &f;
                    let lazy: fn(&$t, &ParcodeFile, &mut Gen, &mut Out) = $lazy;
                    match catch_unwind(AssertUnwindSafe(|| lazy(&x, f, &mut g, &mut o))) {
                        Ok(()) => {}
                        Err(_) => o.0.push_str(" lazy=panic"),
                    }
                } else {
                    o.0.push_str(" open=error");
                }
                o.0
            }
        }};
    }
    match kind {
        0 => run!(Mixed, |x, f, g, o| {
            let l = match f.root::<Mixed>() {
                Ok(l) => l,
                Err(_) => return o.0.push_str(" root=error"),
            };
            o.say("root", || Ok(l.a == x.a && l.name == x.name));
            items("0", &l.nums, &x.nums, g, o);
            items("1", &l.packed, &x.packed, g, o);
            entries("2", &l.index, &x.index, g, o);
            entries("3", &l.zmap, &x.zmap, g, o);
            inner("4", &l.inner, &x.inner, g, o);
            items("5", &l.z, &x.z, g, o);
            items("6", &l.items, &x.items, g, o);
            o.say("7.load", || {
                let v = l.blob.load()?;
                Ok(same(&v, &x.blob))
            });
            items("8", &l.plain, &x.plain, g, o);
            entries("9", &l.pmap, &x.pmap, g, o);
        }),
        1 => run!(Inner, |x, f, g, o| {
            match f.root::<Inner>() {
                Ok(l) => inner("0", &l, x, g, o),
                Err(_) => o.0.push_str(" root=error"),
            }
        }),
        2 => run!(Vec<Inner>, |x, f, g, o| {
            match f.root::<Vec<Inner>>() {
                Ok(l) => items("", &l, x, g, o),
                Err(_) => o.0.push_str(" root=error"),
            }
        }),
        3 => run!(Vec<u64>, |x, f, g, o| {
            match f.root::<Vec<u64>>() {
                Ok(l) => items("", &l, x, g, o),
                Err(_) => o.0.push_str(" root=error"),
            }
        }),
        4 => run!(HashMap<u32, String>, |_, _, _, _| {}),
        5 => run!(String, |_, _, _, _| {}),
        _ => run!(Plain, |x, f, g, o| {
            match f.root::<Plain>() {
                Ok(l) => {
                    o.say("root", || Ok(l.tag == x.tag));
                    items("0", &l.body, &x.body, g, o)
                }
                Err(_) => o.0.push_str(" root=error"),
            }
        }),
    }
}

fn main() {
    if std::env::var_os("HARNESS_LOUD").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    // command kind how compress probe path tape...
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { break };
        let w: Vec<&str> = line.split(' ').collect();
        let n = |i: usize| w[i].parse::<u64>().expect("number");
        let tape: Vec<u64> = w[6..].iter().map(|x| x.parse().expect("tape")).collect();
        let out = serve(w[0], n(1), n(2) as u8, n(3) == 1, Path::new(w[5]), &tape, n(4));
        println!("{out}");
        std::io::stdout().flush().expect("stdout");
    }
}
