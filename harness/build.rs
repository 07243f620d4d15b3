//! Generates the struct definitions the checks run on: the catalog in schemas.txt and a batch
//! of definitions drawn from VERIF_SEED, each with its model implementations.
use std::fmt::Write;

struct Field {
    kind: char,
    alg: u8,
    name: String,
    ty: String,
}
struct Struct {
    name: String,
    fields: Vec<Field>,
}

struct Rng(u64);
impl Rng {
    fn u(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.u() % n as u64) as usize
    }
    fn pick<'a>(&mut self, xs: &[&'a str]) -> &'a str {
        xs[self.below(xs.len())]
    }
}

const PRIMS: &[&str] = &["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64", "bool", "String"];
const LOCALS: &[&str] = &[
    "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f32", "f64", "bool", "char", "String", "()",
    "Option<u32>", "Option<String>", "Vec<u8>", "Vec<String>", "(u8, String)", "[u16; 3]", "BTreeMap<u16, String>", "HashMap<u8, u32>",
    "En", "Plain", "Box<u64>", "Option<Box<Plain>>",
];
const ITEMS: &[&str] = &["u8", "u16", "u32", "u64", "u128", "i16", "i32", "i64", "f32", "f64", "bool", "String"];
const KEYS: &[&str] = &["u8", "u16", "u32", "u64", "i32", "i64", "String", "(u8, String)", "Weak", "char", "u128"];
const VALUES: &[&str] = &["u8", "u16", "u32", "u64", "i64", "f64", "bool", "String", "Vec<u8>", "Vec<String>", "u128"];

fn random(seed: u64, out: &mut Vec<Struct>) {
    let mut r = Rng(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ 0x5EED);
    let mut names: Vec<String> = vec![];
    for i in 0..14 {
        let name = format!("Rand{i}");
        let max = 2 + r.below(6);
        let mut fields = vec![];
        for j in 0..max {
            let other = if names.is_empty() || r.below(3) > 0 { None } else { Some(names[r.below(names.len())].clone()) };
            let alg = match r.below(8) {
                0 | 1 => 1,
                2 => 2,
                _ => 0,
            };
            let (kind, ty) = match r.below(9) {
                0..=2 => ('l', if r.below(6) == 0 { other.unwrap_or("Plain".into()) } else { r.pick(LOCALS).to_string() }),
                3 => ('c', r.pick(PRIMS).to_string()),
                4 | 5 => ('c', format!("Vec<{}>", other.unwrap_or_else(|| r.pick(ITEMS).to_string()))),
                6 => ('m', {
                    let k = r.pick(KEYS);
                    format!("HashMap<{k}, {}>", other.unwrap_or_else(|| r.pick(VALUES).to_string()))
                }),
                7 => ('c', match other {
                    Some(o) => o,
                    None => format!("HashMap<{}, {}>", r.pick(KEYS), r.pick(VALUES)),
                }),
                _ => ('c', other.unwrap_or_else(|| r.pick(PRIMS).to_string())),
            };
            fields.push(Field { kind, alg: if kind == 'l' { 0 } else { alg }, name: format!("f{j}"), ty });
        }
        names.push(name.clone());
        out.push(Struct { name, fields });
    }
}

fn main() {
    println!("cargo:rerun-if-changed=schemas.txt");
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-env-changed=SCHEMA_SEED");
    let seed: u64 = std::env::var("SCHEMA_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let text = std::fs::read_to_string("schemas.txt").unwrap();
    let mut structs: Vec<Struct> = vec![];
    let mut roots: Vec<String> = vec![];
    for line in text.lines() {
        if line.is_empty() || line.starts_with('#') {
            continue;
        }
        let mut w = line.splitn(3, ' ');
        let k = w.next().unwrap();
        if k == "S" {
            structs.push(Struct { name: w.next().unwrap().into(), fields: vec![] });
        } else if k == "R" {
            roots.push(line[2..].into());
        } else {
            let (kind, alg) = match k.split_once('+') {
                None => (k, 0),
                Some((a, "lz4")) => (a, 1),
                Some((a, "zstd")) => (a, 2),
                Some((a, _)) => (a, 3),
            };
            structs.last_mut().unwrap().fields.push(Field { kind: kind.chars().next().unwrap(), alg, name: w.next().unwrap().into(), ty: w.next().unwrap().into() });
        }
    }
    // More fields than fit in a byte, and items of such a type.
    let types = [('c', "u32"), ('c', "String"), ('c', "Vec<u8>"), ('l', "u16"), ('c', "Inner"), ('m', "HashMap<u8, u16>"), ('c', "Vec<u16>"), ('c', "u64"), ('c', "bool")];
    let many = (0..304).map(|j| {
        let (kind, ty) = types[(j * 5 + j / 7) % types.len()];
        Field { kind, alg: (kind != 'l' && j % 11 == 3) as u8, name: format!("m{j}"), ty: ty.into() }
    });
    structs.push(Struct { name: "Many".into(), fields: many.collect() });
    let of_many = [('m', "a", "HashMap<u8, Many>"), ('l', "b", "u8"), ('c', "c", "Vec<Many>"), ('c', "d", "Many")];
    structs.push(Struct { name: "OfMany".into(), fields: of_many.map(|(kind, n, t)| Field { kind, alg: 0, name: n.into(), ty: t.into() }).into() });
    let catalog = structs.len();
    random(seed, &mut structs);
    let mut o = String::new();
    writeln!(o, "pub const SCHEMA_SEED: u64 = {seed};").unwrap();
    for s in &structs {
        emit(s, &structs, &mut o);
    }
    writeln!(o, "pub fn catalog() -> Vec<Box<dyn DynType>> {{ vec![").unwrap();
    for s in &structs[..catalog] {
        writeln!(o, "    Ty::<{0}>::boxed(\"{0}\"),", s.name).unwrap();
    }
    for r in &roots {
        writeln!(o, "    Ty::<{r}>::boxed(\"{r}\"),").unwrap();
    }
    for s in &structs[catalog..] {
        writeln!(o, "    Ty::<{0}>::boxed(\"{0}\"),", s.name).unwrap();
    }
    writeln!(o, "] }}").unwrap();
    std::fs::write(std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("schemas.rs"), o).unwrap();
}

fn mentions(ty: &str, name: &str) -> bool {
    ty.split(|c: char| !c.is_alphanumeric()).any(|w| w == name)
}

fn emit(s: &Struct, all: &[Struct], o: &mut String) {
    let n = &s.name;
    let pos = all.iter().position(|x| x.name == *n).unwrap();
    let remotes: Vec<&Field> = s.fields.iter().filter(|f| f.kind != 'l').collect();
    let locals: Vec<&Field> = s.fields.iter().filter(|f| f.kind == 'l').collect();
    writeln!(o, "#[derive(Clone, Debug, Serialize, Deserialize, parcode::ParcodeObject)]\npub struct {n} {{").unwrap();
    for f in &s.fields {
        let comp = match f.alg {
            1 => ", compression = \"lz4\"",
            2 => ", compression = \"zstd\"",
            3 => ", compression = \"none\"",
            _ => "",
        };
        match f.kind {
            'c' => writeln!(o, "    #[parcode(chunkable{comp})]").unwrap(),
            'm' => writeln!(o, "    #[parcode(map{comp})]").unwrap(),
            _ => {}
        }
        writeln!(o, "    pub {}: {},", f.name, f.ty).unwrap();
    }
    writeln!(o, "}}").unwrap();

    let cost: Vec<String> = s
        .fields
        .iter()
        .map(|f| if all[pos..].iter().any(|x| mentions(&f.ty, &x.name)) { "8".into() } else { format!("<{} as Val>::COST", f.ty) })
        .collect();
    let list = |w: &dyn Fn(&Field) -> String, fs: &[&Field]| fs.iter().map(|f| w(f)).collect::<Vec<_>>().join("\n        ");
    let every: Vec<&Field> = s.fields.iter().collect();
    let names = s.fields.iter().map(|f| f.name.clone()).collect::<Vec<_>>().join(", ");
    writeln!(
        o,
        "impl Val for {n} {{
    const COST: usize = {};
    fn gen_(_g: &mut Gen) -> Self {{
        {}
        {n} {{ {names} }}
    }}
    fn canon(&self, _o: &mut Vec<u8>) {{
        {}
    }}
}}",
        if cost.is_empty() { "0".into() } else { cost.join(" + ") },
        list(&|f| format!("let {}: {} = Val::gen_(_g);", f.name, f.ty), &every),
        list(&|f| format!("self.{}.canon(_o);", f.name), &every),
    )
    .unwrap();

    let cfg = |f: &Field| format!("Cfg {{ is_map: {}, alg: {} }}", f.kind == 'm', f.alg % 3);
    let enc_locals = list(&|f| format!("enc(&self.{}, _o);", f.name), &locals);
    let dec_locals = list(&|f| format!("let {}: {} = dec(_b, _at)?;", f.name, f.ty), &locals);
    let put_kids = list(&|f| format!("_kids.push(self.{}.to_node(_p, {}));", f.name, cfg(f)), &remotes);
    let take_kids = list(
        &|f| format!("let {0}: {1} = Remote::from_view(_kids.next().ok_or(\"missing child for {0}\")?, {2}, _x).map_err(|e| format!(\"{0}: {{e}}\"))?;", f.name, f.ty, cfg(f)),
        &remotes,
    );
    let kids_need: String = remotes.iter().enumerate().map(|(i, f)| format!("<{} as Remote>::lazy_need(&_kids[{i}], _a);\n        ", f.ty)).collect();
    let k = remotes.len();
    let plan_arms: String = remotes
        .iter()
        .enumerate()
        .map(|(i, f)| format!("{i} => {{ _a.text.push_str(\".{}\"); self.{}.plan(&_kids[{i}], {}, _g, _a) }}\n            ", f.name, f.name, cfg(f)))
        .collect();
    let exec_arms: String = remotes.iter().enumerate().map(|(i, f)| format!("{i} => self.{0}.exec(&_l.{0}, {1}, _s).map_err(|e| format!(\"{0}: {{e}}\")),\n            ", f.name, cfg(f))).collect();
    let check_kids = list(
        &|f| format!("eq(\"{0} in the chunks of a map entry\", &<{1} as Remote>::from_view(_kids.next().ok_or(\"missing child for {0}\")?, {2}, _x)?, &self.{0})?;", f.name, f.ty, cfg(f)),
        &remotes,
    );
    let lazy_locals = list(&|f| format!("eq(\"inline field {0}\", &_l.{0}, &self.{0})?;", f.name), &locals);
    let lazy_remotes = list(&|f| format!("self.{0}.lazy(&_l.{0}, {1}, _x).map_err(|e| format!(\"{0}: {{e}}\"))?;", f.name, cfg(f)), &remotes);
    let poke_remotes = list(&|f| format!("<{1} as LazyCheck>::poke(&_l.{0}, _x);", f.name, f.ty), &remotes);
    writeln!(
        o,
        "impl {n} {{
    fn _take(_b: &[u8], _at: &mut usize, _kids: &mut std::slice::Iter<View>, _x: &mut Expect) -> Res<Self> {{
        {dec_locals}
        {take_kids}
        Ok({n} {{ {names} }})
    }}
    fn _kids_need(_kids: &[View], _a: &mut Access) {{
        {kids_need}
    }}
    fn _plan(&self, _kids: &[View], _g: &mut Gen, _a: &mut Access) {{
        let j = _g.idx({k} * 4 + 1) % ({k} + 1);
        _a.u(j);
        match j {{
            {plan_arms}_ => _a.text.push_str(\".inline\"),
        }}
    }}
}}
impl Remote for {n} {{
    fn to_node(&self, _p: &mut Plan, _c: Cfg) -> Node {{
        let lz4 = _p.comp();
        let mut payload = vec![];
        let mut kids = vec![];
        self.put(&mut payload, &mut kids, _p);
        Node {{ payload, lz4, kids }}
    }}
    fn from_view(v: &View, c: Cfg, _x: &mut Expect) -> Res<Self> {{
        _x.comp(v, c)?;
        let mut at = 0;
        let mut kids = v.kids.iter();
        let r = Self::_take(&v.payload, &mut at, &mut kids, _x)?;
        ensure!(at == v.payload.len(), \"trailing bytes in the chunk of a {n}\");
        ensure!(kids.next().is_none(), \"surplus children of a {n}\");
        Ok(r)
    }}
    fn lazy_need(v: &View, a: &mut Access) {{
        a.need.insert(v.off);
        Self::_kids_need(&v.kids, a);
    }}
    fn plan(&self, v: &View, _c: Cfg, g: &mut Gen, a: &mut Access) {{
        Self::lazy_need(v, a);
        self._plan(&v.kids, g, a);
    }}
}}
impl<'a> LazyCheck<'a> for {n} {{
    fn lazy(&self, _l: &{n}Lazy<'a>, _c: Cfg, _x: &mut Probe) -> Res {{
        {lazy_locals}
        {lazy_remotes}
        Ok(())
    }}
    fn exec(&self, _l: &{n}Lazy<'a>, _c: Cfg, _s: &mut Steps) -> Res {{
        {lazy_locals}
        match step(_s) {{
            {exec_arms}_ => Ok(()),
        }}
    }}
    fn poke(_l: &{n}Lazy<'a>, _x: &mut Poke) {{
        {poke_remotes}
    }}
}}
impl Item for {n} {{
    const LAZY: bool = true;
    const KIDS: usize = {k};
    fn put(&self, _o: &mut Vec<u8>, _kids: &mut Vec<Node>, _p: &mut Plan) {{
        {enc_locals}
        {put_kids}
    }}
    fn take(b: &[u8], at: &mut usize, kids: &mut std::slice::Iter<View>, x: &mut Expect) -> Res<Self> {{
        Self::_take(b, at, kids, x)
    }}
    fn lazy_items<'a>(p: &ParcodeCollectionPromise<'a, Self>, m: &[Self], x: &mut Probe) -> Res {{
        check_lazy_items(p, m, x)
    }}
    fn item_need(kids: &[View], a: &mut Access) {{
        Self::_kids_need(kids, a);
    }}
    fn item_plan(&self, kids: &[View], g: &mut Gen, a: &mut Access) {{
        self._plan(kids, g, a);
    }}
    fn item_exec<'a>(p: &ParcodeCollectionPromise<'a, Self>, i: usize, how: usize, m: &[Self], s: &mut Steps) -> Res {{
        exec_item(p, i, how, m, s)
    }}
    fn poke_items<'a>(p: &ParcodeCollectionPromise<'a, Self>, x: &mut Poke) {{
        poke_lazy_items(p, x);
    }}
}}
impl MapVal for {n} {{
    const VLAZY: bool = true;
    const VKIDS: usize = {k};
    fn map_kids(&self, _kids: &mut Vec<Node>, _p: &mut Plan) {{
        {put_kids}
    }}
    fn check_kids(&self, _kids: &mut std::slice::Iter<View>, _x: &mut Expect) -> Res {{
        {check_kids}
        Ok(())
    }}
    fn lazy_entries<'a, K: Key>(p: &ParcodeMapPromise<'a, K, Self>, m: &HashMap<K, Self>, ks: &[K], x: &mut Probe) -> Res {{
        check_lazy_entries(p, m, ks, x)
    }}
    fn val_need(kids: &[View], a: &mut Access) {{
        Self::_kids_need(kids, a);
    }}
    fn val_plan(&self, kids: &[View], g: &mut Gen, a: &mut Access) {{
        self._plan(kids, g, a);
    }}
    fn entry_exec<'a, K: Key>(p: &ParcodeMapPromise<'a, K, Self>, k: &K, m: &HashMap<K, Self>, s: &mut Steps) -> Res {{
        exec_entry(p, k, m, s)
    }}
    fn poke_entries<'a, K: Key>(p: &ParcodeMapPromise<'a, K, Self>, ks: &[K], x: &mut Poke) {{
        poke_lazy_entries(p, ks, x);
    }}
}}
"
    )
    .unwrap();
}
