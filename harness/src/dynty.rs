//! Type-erased access to the schema types, so that each check is compiled once.
use crate::layout::{Node, Res, View, ensure};
use crate::model::*;
use crate::tape::Gen;
use parcode::{Parcode, ParcodeFile};
use std::any::Any;
use std::io::Write;
use std::marker::PhantomData;
use parcode::visitor::ParcodeVisitor;
use std::path::Path;
use std::sync::Arc;

/// A write entry point.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Wr {
    /// 0 write, 1 write_sync, 2 serialize, 3 save, 4 save_sync
    pub how: u8,
    pub builder: bool,
    pub compress: bool,
}
impl Wr {
    pub fn gen_(g: &mut Gen) -> Wr {
        let how = g.below(5) as u8;
        let compress = g.chance(1, 3);
        Wr { how, builder: compress || g.flag(), compress: compress && how != 2 }
    }
    pub fn sync(&self) -> bool {
        self.how == 1 || self.how == 4
    }
    pub fn text(&self) -> String {
        format!("{}{}{}", if self.builder && self.how != 2 { "builder." } else { "Parcode::" }, ["write", "write_sync", "serialize", "save", "save_sync"][self.how as usize], if self.compress { "+lz4" } else { "" })
    }
}

pub trait Root: Remote + for<'a> LazyCheck<'a> {}
impl<T: Remote + for<'a> LazyCheck<'a>> Root for T {}

pub trait DynVal: Send + Sync {
    fn canon(&self) -> Vec<u8>;
    /// Writes through a sink-based entry point (`how` 0 or 1).
    fn write_to(&self, w: Wr, sink: &mut (dyn Write + Send)) -> parcode::Result<()>;
    fn save_to(&self, w: Wr, path: &Path) -> parcode::Result<()>;
    fn serialize(&self) -> parcode::Result<Vec<u8>>;
    fn write_bytes(&self, w: Wr, scratch: &Path) -> parcode::Result<Vec<u8>> {
        match w.how {
            0 | 1 => {
                let mut v = Vec::new();
                self.write_to(w, &mut v)?;
                Ok(v)
            }
            2 => self.serialize(),
            _ => {
                self.save_to(w, scratch)?;
                Ok(std::fs::read(scratch).expect("harness: reading back a scratch file"))
            }
        }
    }
    fn lazy(&self, f: &ParcodeFile, how: u64, x: &mut Probe) -> Res;
    fn to_node(&self, p: &mut Plan) -> Node;
    fn plan(&self, v: &View, g: &mut Gen, a: &mut Access);
    fn exec(&self, f: &ParcodeFile, s: &mut Steps) -> Res;
    fn any(&self) -> &dyn Any;
}

pub trait DynType: Send + Sync {
    fn name(&self) -> &'static str;
    fn generate(&self, g: &mut Gen) -> Box<dyn DynVal>;
    /// Loads eagerly and returns the canonical form. `how`: 0 load_bytes(Vec), 1 load_bytes(Arc),
    /// 2 open_bytes + load, 3 from_bytes + load, 4 load(path), 5 open(path) + load,
    /// 6 ParcodeFile::open(path) + load, 7 root node + from_node.
    fn load(&self, how: u64, bytes: &[u8], path: &Path) -> parcode::Result<Vec<u8>>;
    fn load_file(&self, f: &ParcodeFile) -> parcode::Result<Vec<u8>>;
    fn from_view(&self, v: &View, x: &mut Expect) -> Res<Box<dyn DynVal>>;
    fn poke(&self, f: &ParcodeFile, x: &mut Poke);
}

pub struct Ty<T>(&'static str, PhantomData<fn() -> T>);
impl<T: Root> Ty<T> {
    pub fn boxed(name: &'static str) -> Box<dyn DynType> {
        Box::new(Ty::<T>(name, PhantomData))
    }
}

struct V<T>(T);
pub fn wrap<T: Root>(t: T) -> Box<dyn DynVal> {
    Box::new(V(t))
}

pub fn write_to<T: ParcodeVisitor + Sync, S: Write + Send>(w: Wr, sink: S, x: &T) -> parcode::Result<()> {
    match (w.how, w.builder) {
        (0, false) => Parcode::write(sink, x),
        (0, true) => Parcode::builder().compression(w.compress).write(sink, x),
        (1, false) => Parcode::write_sync(sink, x),
        (1, true) => Parcode::builder().compression(w.compress).write_sync(sink, x),
        _ => unreachable!(),
    }
}
pub fn save_to<T: ParcodeVisitor + Sync>(w: Wr, path: &Path, x: &T) -> parcode::Result<()> {
    match (w.how, w.builder) {
        (3, false) => Parcode::save(path, x),
        (3, true) => Parcode::builder().compression(w.compress).save(path, x),
        (4, false) => Parcode::save_sync(path, x),
        (4, true) => Parcode::builder().compression(w.compress).save_sync(path, x),
        _ => unreachable!(),
    }
}
pub fn write_bytes<T: ParcodeVisitor + Sync>(w: Wr, scratch: &Path, x: &T) -> parcode::Result<Vec<u8>> {
    match w.how {
        0 | 1 => {
            let mut v = Vec::new();
            write_to(w, &mut v, x)?;
            Ok(v)
        }
        2 => Parcode::serialize(x),
        _ => {
            save_to(w, scratch, x)?;
            Ok(std::fs::read(scratch).expect("harness: reading back a scratch file"))
        }
    }
}

impl<T: Root> DynVal for V<T> {
    fn canon(&self) -> Vec<u8> {
        self.0.canon_vec()
    }
    fn write_to(&self, w: Wr, sink: &mut (dyn Write + Send)) -> parcode::Result<()> {
        write_to(w, sink, &self.0)
    }
    fn save_to(&self, w: Wr, path: &Path) -> parcode::Result<()> {
        save_to(w, path, &self.0)
    }
    fn serialize(&self) -> parcode::Result<Vec<u8>> {
        Parcode::serialize(&self.0)
    }
    fn lazy(&self, f: &ParcodeFile, how: u64, x: &mut Probe) -> Res {
        let r = match how {
            0 => f.root::<T>(),
            1 => f.load_lazy::<T>(),
            _ => f.read_lazy::<T>(),
        };
        self.0.lazy(&er("root()", r)?, Cfg::default(), x)
    }
    fn to_node(&self, p: &mut Plan) -> Node {
        self.0.to_node(p, Cfg::default())
    }
    fn plan(&self, v: &View, g: &mut Gen, a: &mut Access) {
        self.0.plan(v, Cfg::default(), g, a);
    }
    fn exec(&self, f: &ParcodeFile, s: &mut Steps) -> Res {
        self.0.exec(&er("root()", f.root::<T>())?, Cfg::default(), s)?;
        ensure!(s.next().is_none(), "harness: unused steps");
        Ok(())
    }
    fn any(&self) -> &dyn Any {
        &self.0
    }
}

impl<T: Root> DynType for Ty<T> {
    fn name(&self) -> &'static str {
        self.0
    }
    fn generate(&self, g: &mut Gen) -> Box<dyn DynVal> {
        Box::new(V(T::gen_(g)))
    }
    fn load(&self, how: u64, bytes: &[u8], path: &Path) -> parcode::Result<Vec<u8>> {
        let v: T = match how {
            0 => Parcode::load_bytes(bytes.to_vec())?,
            1 => Parcode::load_bytes(Arc::new(bytes.to_vec()))?,
            2 => Parcode::open_bytes(bytes.to_vec())?.load()?,
            3 => ParcodeFile::from_bytes(bytes.to_vec())?.load()?,
            4 => Parcode::load(path)?,
            5 => Parcode::open(path)?.load()?,
            6 => ParcodeFile::open(path)?.load()?,
            _ => {
                let f = Parcode::open(path)?;
                T::from_node(&f.root_node()?)?
            }
        };
        Ok(v.canon_vec())
    }
    fn load_file(&self, f: &ParcodeFile) -> parcode::Result<Vec<u8>> {
        Ok(f.load::<T>()?.canon_vec())
    }
    fn from_view(&self, v: &View, x: &mut Expect) -> Res<Box<dyn DynVal>> {
        Ok(Box::new(V(T::from_view(v, Cfg::default(), x)?)))
    }
    fn poke(&self, f: &ParcodeFile, x: &mut Poke) {
        let r = f.root::<T>();
        if let Some(l) = x.note(r) {
            T::poke(&l, x);
        }
    }
}
