//! Source-level model of a schema project: files, includes, namespaces,
//! declarations, spellings of references and literals. Rendered to tokens, laid
//! out with arbitrary whitespace and comments. What planus should make of it is
//! computed here from the FlatBuffers rules alone.
use std::collections::{BTreeMap, BTreeSet};
use vmodel::schema::Sc;
use vmodel::Src;

pub type Id = (usize, usize); // file, declaration

#[derive(Clone, Debug, Default)]
pub struct Proj { pub files: Vec<File>, pub roots: Vec<usize> }
#[derive(Clone, Debug)]
pub struct Inc { pub target: usize, pub text: String }
#[derive(Clone, Debug, Default)]
pub struct File {
    pub path: String,
    pub includes: Vec<Inc>,
    pub ns: Vec<String>,
    pub docs: Vec<String>,
    pub decls: Vec<Decl>,
    /// raw token groups inserted before declaration number .0 (root_type, file_identifier, ...)
    pub extras: Vec<(usize, Vec<Tk>)>,
}
#[derive(Clone, Debug)]
pub struct Decl { pub name: String, pub docs: Vec<String>, pub kind: Kind, pub meta: Vec<Attr> }
#[derive(Clone, Debug)]
pub enum Kind {
    Table(Vec<Field>),
    Struct(Vec<Field>),
    Enum { ty: Sc, spelling: String, vars: Vec<EVar>, comma: bool },
    Union { vars: Vec<UVar>, comma: bool },
}
#[derive(Clone, Debug)]
pub struct Field { pub name: String, pub docs: Vec<String>, pub ty: Ty, pub default: Def, pub attrs: Vec<Attr> }
#[derive(Clone, Debug)]
pub struct EVar { pub name: String, pub docs: Vec<String>, pub value: i128, pub lit: Option<Vec<String>> }
#[derive(Clone, Debug)]
pub struct UVar { pub name: Option<String>, pub docs: Vec<String>, pub ty: Ty }
#[derive(Clone, Debug)]
pub enum Ty { Sc(Sc, String), Str, Vec(Box<Ty>), Ref(Id, Vec<String>) }
#[derive(Clone, Debug)]
pub enum Def { None, Null, Lit(Vec<String>, Val) }
#[derive(Clone, Debug, PartialEq)]
pub enum Val { Bool(bool), Int(i128), F32(u32), F64(u64), Str(String), EmptyVec, Tag(i128) }
#[derive(Clone, Debug)]
pub enum Attr { Id(Vec<String>, u32), Required, Deprecated, ForceAlign(Vec<String>, u32), Raw(Vec<String>) }
impl Attr {
    pub fn tokens(&self) -> Vec<String> {
        match self {
            Attr::Id(t, _) => cat(&["id", ":"], t),
            Attr::ForceAlign(t, _) => cat(&["force_align", ":"], t),
            Attr::Required => vec!["required".into()],
            Attr::Deprecated => vec!["deprecated".into()],
            Attr::Raw(t) => t.clone(),
        }
    }
}
fn cat(a: &[&str], b: &[String]) -> Vec<String> { a.iter().map(|s| s.to_string()).chain(b.iter().cloned()).collect() }

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Tk { pub t: String, pub docs: Vec<String> }
pub fn tk(t: &str) -> Tk { Tk { t: t.to_string(), docs: vec![] } }
pub fn tks(t: &[&str]) -> Vec<Tk> { t.iter().map(|t| tk(t)).collect() }

// ---------------------------------------------------------------- model facts
impl Proj {
    pub fn decl(&self, id: Id) -> &Decl { &self.files[id.0].decls[id.1] }
    pub fn ids(&self) -> Vec<Id> {
        self.files.iter().enumerate().flat_map(|(i, f)| (0..f.decls.len()).map(move |j| (i, j))).collect()
    }
    pub fn path(&self, id: Id) -> Vec<String> {
        let mut p = self.files[id.0].ns.clone();
        p.push(self.decl(id).name.clone());
        p
    }
    /// files reachable through includes, including the file itself
    pub fn reach(&self, from: usize) -> BTreeSet<usize> {
        let mut seen = BTreeSet::new();
        let mut todo = vec![from];
        while let Some(f) = todo.pop() {
            if seen.insert(f) { todo.extend(self.files[f].includes.iter().map(|i| i.target)); }
        }
        seen
    }
    pub fn loaded(&self) -> BTreeSet<usize> { self.roots.iter().flat_map(|r| self.reach(*r)).collect() }
    /// the declaration a type name written in file `f` refers to
    pub fn resolve(&self, f: usize, name: &[String]) -> Option<Id> {
        let reach = self.reach(f);
        let ns = &self.files[f].ns;
        for k in (0..=ns.len()).rev() {
            let full: Vec<String> = ns[..k].iter().chain(name).cloned().collect();
            for g in &reach {
                if let Some(j) = self.files[*g].decls.iter().position(|d| {
                    full.len() == self.files[*g].ns.len() + 1 && full.starts_with(&self.files[*g].ns) && full.last() == Some(&d.name)
                }) { return Some((*g, j)); }
            }
        }
        None
    }
    /// every spelling that might name `id` from file `f` and does
    pub fn spellings(&self, f: usize, id: Id) -> Vec<Vec<String>> {
        let full = self.path(id);
        let ns = &self.files[f].ns;
        let mut out = vec![];
        for k in (0..full.len()).rev() {
            if k <= ns.len() && full[..k] == ns[..k] {
                let sp = full[k..].to_vec();
                if sp.len() == 1 && builtin(&sp[0]) { continue; }
                if self.resolve(f, &sp) == Some(id) { out.push(sp); }
            }
        }
        out
    }
    pub fn namespaces(&self) -> BTreeSet<Vec<String>> {
        let mut s = BTreeSet::new();
        for f in self.loaded() { for k in 0..=self.files[f].ns.len() { s.insert(self.files[f].ns[..k].to_vec()); } }
        s
    }
    pub fn inline(&self, ty: &Ty) -> (u64, u64) {
        match ty {
            Ty::Sc(sc, _) => (sc.size() as u64, sc.size() as u64),
            Ty::Ref(id, _) => match &self.decl(*id).kind {
                Kind::Enum { ty, .. } => (ty.size() as u64, ty.size() as u64),
                Kind::Struct(_) => { let l = self.slayout(*id); (l.1, l.2) }
                _ => (4, 4),
            },
            _ => (4, 4),
        }
    }
    /// (offset of each field, size, alignment)
    pub fn slayout(&self, id: Id) -> (Vec<u64>, u64, u64) {
        let Kind::Struct(fields) = &self.decl(id).kind else { panic!() };
        let (mut off, mut al, mut offs) = (0u64, 1u64, vec![]);
        for f in fields {
            let (s, a) = self.inline(&f.ty);
            while off % a != 0 { off += 1; }
            offs.push(off);
            off += s;
            al = al.max(a);
        }
        for m in &self.decl(id).meta { if let Attr::ForceAlign(_, n) = m { al = al.max(*n as u64); } }
        off = off.div_ceil(al) * al;
        (offs, off, al)
    }
    pub fn is_union(&self, ty: &Ty) -> bool {
        match ty { Ty::Ref(id, _) => matches!(self.decl(*id).kind, Kind::Union { .. }), Ty::Vec(t) => self.is_union(t), _ => false }
    }
    pub fn is_scalar(&self, ty: &Ty) -> bool {
        match ty { Ty::Sc(..) => true, Ty::Ref(id, _) => matches!(self.decl(*id).kind, Kind::Enum { .. }), _ => false }
    }
    /// first vtable slot of each field
    pub fn slots(&self, id: Id) -> Vec<u32> {
        let Kind::Table(fields) = &self.decl(id).kind else { panic!() };
        let mut next = 0;
        fields.iter().map(|f| {
            let u = self.is_union(&f.ty);
            let mut slot = next;
            for a in &f.attrs { if let Attr::Id(_, n) = a { slot = if u { *n - 1 } else { *n }; } }
            next = slot + if u { 2 } else { 1 };
            slot
        }).collect()
    }
    /// the value a reader sees when the field is absent; None: the field is optional or required
    pub fn default_of(&self, f: &Field) -> Option<Val> {
        match &f.default {
            Def::Null => None,
            Def::Lit(_, v) => Some(v.clone()),
            Def::None => match &f.ty {
                Ty::Sc(Sc::Bool, _) => Some(Val::Bool(false)),
                Ty::Sc(Sc::F32, _) => Some(Val::F32(0)),
                Ty::Sc(Sc::F64, _) => Some(Val::F64(0)),
                Ty::Sc(..) => Some(Val::Int(0)),
                Ty::Ref(id, _) => match &self.decl(*id).kind {
                    Kind::Enum { vars, .. } if vars.iter().any(|v| v.value == 0) => Some(Val::Tag(0)),
                    _ => None,
                },
                _ => None,
            },
        }
    }
    pub fn ty_text(&self, ty: &Ty) -> String {
        match ty {
            Ty::Sc(sc, _) => format!("{sc:?}"),
            Ty::Str => "String".into(),
            Ty::Vec(t) => format!("[{}]", self.ty_text(t)),
            Ty::Ref(id, _) => format!("{} {}", match self.decl(*id).kind { Kind::Table(_) => "table", Kind::Struct(_) => "struct", Kind::Enum { .. } => "enum", Kind::Union { .. } => "union" }, self.path(*id).join(".")),
        }
    }
    pub fn uname(&self, v: &UVar) -> String {
        v.name.clone().unwrap_or_else(|| match &v.ty { Ty::Ref(_, p) => p.last().unwrap().clone(), _ => String::new() })
    }
}

pub const BUILTINS: &[&str] = &["bool", "byte", "ubyte", "int8", "uint8", "short", "ushort", "int16", "uint16", "int", "uint", "int32", "uint32", "float", "float32", "long", "ulong", "int64", "uint64", "double", "float64", "string"];
pub fn builtin(s: &str) -> bool { BUILTINS.contains(&s) }
pub const KEYWORDS: &[&str] = &["include", "native_include", "namespace", "attribute", "table", "struct", "enum", "union", "root_type", "rpc_service", "file_extension", "file_identifier"];

pub fn sc_spelling(s: &mut Src, sc: Sc) -> String {
    let v: &[&str] = match sc {
        Sc::Bool => &["bool"], Sc::I8 => &["int8", "byte"], Sc::U8 => &["uint8", "ubyte"], Sc::I16 => &["int16", "short"], Sc::U16 => &["uint16", "ushort"],
        Sc::I32 => &["int32", "int"], Sc::U32 => &["uint32", "uint"], Sc::I64 => &["int64", "long"], Sc::U64 => &["uint64", "ulong"],
        Sc::F32 => &["float32", "float"], Sc::F64 => &["float64", "double"],
    };
    s.pick(v).to_string()
}
pub const INTS: [Sc; 8] = [Sc::I8, Sc::U8, Sc::I16, Sc::U16, Sc::I32, Sc::U32, Sc::I64, Sc::U64];
pub const SCALARS: [Sc; 11] = [Sc::Bool, Sc::I8, Sc::U8, Sc::I16, Sc::U16, Sc::I32, Sc::U32, Sc::I64, Sc::U64, Sc::F32, Sc::F64];

// ---------------------------------------------------------------- literals
/// signs in front of a literal whose combined effect is `neg`
fn signs(s: &mut Src, neg: bool) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    if s.chance(1, 4) { for _ in 0..s.range(1, 3) { v.push(s.pick(&["+", "-"]).to_string()); } }
    if (v.iter().filter(|x| *x == "-").count() % 2 == 1) != neg {
        let i = s.usize(v.len() + 1);
        v.insert(i, "-".into());
    }
    v
}
fn sprinkle(s: &mut Src, digits: &str, first_ok: bool) -> String {
    let mut out = String::new();
    for (i, c) in digits.chars().enumerate() {
        if (i > 0 || first_ok) && s.chance(1, 4) { for _ in 0..s.range(1, 2) { out.push('_'); } }
        out.push(c);
    }
    if s.chance(1, 5) { out.push('_'); }
    out
}
/// a spelling of the integer `v`
pub fn int_lit(s: &mut Src, v: i128) -> Vec<String> {
    let neg = v < 0 || (v == 0 && s.chance(1, 4));
    let mut out = signs(s, neg);
    let m = v.unsigned_abs();
    let zeros = if s.chance(1, 5) { s.range(1, 4) } else { 0 };
    out.push(match s.weighted(&[4, 2]) {
        0 => { let d = format!("{}{m}", "0".repeat(zeros)); if s.chance(1, 4) { sprinkle(s, &d, false) } else { d } }
        _ => {
            let mut d = format!("{}{m:x}", "0".repeat(zeros));
            if s.bool() { d = d.chars().map(|c| if s.bool() { c.to_ascii_uppercase() } else { c }).collect(); }
            format!("0x{}", if s.chance(1, 4) { sprinkle(s, &d, true) } else { d })
        }
    });
    out
}
/// a floating point literal and the two nearest representable values
pub fn float_lit(s: &mut Src) -> (Vec<String>, f32, f64, bool) {
    let neg = s.chance(1, 3);
    let mut t = signs(s, neg);
    let kind = s.weighted(&[6, 2, 3, 1, 3]);
    let (body, a, b) = match kind {
        4 => near_halfway(s),
        0 => {
            let int: String = (0..s.range(0, 6)).map(|_| char::from(b'0' + s.below(10) as u8)).collect();
            let frac: String = (0..s.range(if int.is_empty() { 1 } else { 0 }, 9)).map(|_| char::from(b'0' + s.below(10) as u8)).collect();
            let mut d = format!("{int}.{frac}");
            if s.chance(2, 5) { d.push_str(&exponent(s)); }
            let p: f64 = d.parse().unwrap();
            (d.clone(), d.parse().unwrap(), p)
        }
        1 => {
            let d = format!("{}{}", 1 + s.below(99), exponent(s));
            (d.clone(), d.parse().unwrap(), d.parse().unwrap())
        }
        2 => {
            // an integer literal used as a float
            let m = match s.weighted(&[3, 2]) { 0 => s.below(1000) as u128, _ => s.u64() as u128 };
            let l = int_lit(s, m as i128);
            t.extend(l);
            // int_lit of a non-negative number may itself contain signs
            let n = t.iter().filter(|x| *x == "-").count() % 2 == 1;
            let (a, b) = (m as f32, m as f64);
            return (t, if n { -a } else { a }, if n { -b } else { b }, true);
        }
        _ => match s.below(4) {
            0 => ("inf".to_string(), f32::INFINITY, f64::INFINITY),
            1 => ("infinity".to_string(), f32::INFINITY, f64::INFINITY),
            2 => ("nan".to_string(), f32::NAN, f64::NAN),
            _ => ("NaN".to_string(), f32::NAN, f64::NAN),
        },
    };
    t.push(body);
    (t, if neg { -a } else { a }, if neg { -b } else { b }, kind == 3)
}
/// a decimal exactly half way between two neighbouring values of one of the types, or a hair to either side of it;
/// the nearest values follow from the construction
fn near_halfway(s: &mut Src) -> (String, f32, f64) {
    let single = s.chance(2, 3);
    // an odd numerator with one bit more than the mantissa, times 2^k
    let bits = if single { 25 } else { 54 };
    let n = ((1u128 << (bits - 1)) | (s.u64() as u128 & ((1 << (bits - 1)) - 1))) | 1;
    let k = s.int(if single { -40 } else { -30 }, 40) as i32;
    let (up, down) = ((n + 1) / 2, n / 2);
    let tie = if down % 2 == 0 { down } else { up };
    let side = s.below(3);
    let nearest = match side { 0 => tie, 1 => up, _ => down };
    // exact decimal digits of n * 2^k, without the point
    let (mut digits, point) = if k >= 0 { ((n << k).to_string(), 0) } else { ((n * 5u128.pow(-k as u32)).to_string(), -k as usize) };
    while digits.len() <= point { digits.insert(0, '0'); }
    let (mut int, mut frac) = (digits[..digits.len() - point].to_string(), digits[digits.len() - point..].to_string());
    match side {
        0 => {}
        1 => { frac.push_str(&"0".repeat(s.range(0, 40))); frac.push(char::from(b'1' + s.below(9) as u8)); }
        _ => {
            // the last digit that is not zero goes down by one, nines follow
            let mut all: Vec<u8> = format!("{int}{frac}").into_bytes();
            let i = all.iter().rposition(|c| *c != b'0').unwrap();
            all[i] -= 1;
            for c in &mut all[i + 1..] { *c = b'9'; }
            let all = String::from_utf8(all).unwrap();
            let at = int.len();
            frac = format!("{}{}", &all[at..], "9".repeat(s.range(18, 45)));
            int = all[..at].to_string();
        }
    }
    let d = format!("{int}.{frac}");
    let scale = |m: u128, k: i32| m as f64 * 2f64.powi(k);
    // m * 2^(k + 1) is exact in the type; a single precision value a hair off n * 2^k is n * 2^k itself in f64
    // when the hair is below half a unit of f64
    if single { (d.clone(), scale(nearest, k + 1) as f32, d.parse().unwrap()) } else { (d.clone(), d.parse().unwrap(), scale(nearest, k + 1)) }
}
fn exponent(s: &mut Src) -> String {
    format!("{}{}{}{}", s.pick(&["e", "E"]), s.pick(&["", "+", "-"]), if s.chance(1, 6) { "0" } else { "" }, match s.below(4) { 0 => s.below(5), 1 => s.below(40), 2 => s.below(20), _ => s.below(330) })
}
/// a spelling of the string `v`
pub fn str_lit(s: &mut Src, v: &str) -> String {
    let q = *s.pick(&['"', '\'']);
    let mut out = String::from(q);
    for c in v.chars() {
        let esc = s.chance(1, 5);
        match c {
            '\\' => out.push_str(if s.chance(1, 3) { "\\x5c" } else if s.chance(1, 3) { "\\u005C" } else { "\\\\" }),
            '\n' if esc => out.push_str("\\n"), '\t' if esc => out.push_str("\\t"), '\r' => out.push_str("\\r"),
            '\x08' if esc => out.push_str("\\b"), '\x0c' if esc => out.push_str("\\f"), '/' if esc => out.push_str("\\/"),
            '"' if q == '"' || esc => out.push_str("\\\""), '\'' if q == '\'' || esc => out.push_str("\\'"),
            c if esc && (c as u32) < 128 && s.bool() => out.push_str(&format!("\\x{:02x}", c as u32)),
            c if esc && (c as u32) < 65536 => out.push_str(&format!("\\u{:04X}", c as u32)),
            c => out.push(c),
        }
    }
    out.push(q);
    out
}
pub fn text(s: &mut Src, max: usize) -> String {
    let n = s.small(max);
    (0..n).map(|_| match s.weighted(&[8, 3, 2, 1, 1]) {
        0 => char::from(b'a' + s.below(26) as u8),
        1 => *s.pick(&['"', '\'', '\\', '/', '{', '}', '#', '!', '*', ' ', '%', '(', ')', '<', '>', '&', ';', ']']),
        2 => *s.pick(&['\n', '\t', '\r', '\x08', '\x0c', '\0', '\x7f', '\x1b']),
        3 => *s.pick(&['é', 'ß', '漢', '🦀', '\u{200b}', '\u{feff}', '\u{202e}', '\u{2028}']),
        _ => char::from(b'0' + s.below(10) as u8),
    }).collect()
}

// ---------------------------------------------------------------- generator
#[derive(Clone)]
pub struct Cfg {
    /// one in so many declarations has more members than a byte can count
    pub wide: u64,
    pub max_files: usize, pub max_decls: usize, pub max_fields: usize,
    pub namespaces: bool, pub docs: bool, pub field_align: bool, pub empty_enums: bool, pub extras: bool,
    pub type_names: Vec<String>, pub field_names: Vec<String>, pub ns_names: Vec<String>, pub var_names: Vec<String>,
    pub special_floats: bool, pub plain_strings: bool, pub crlf_docs: bool,
}
pub fn names(v: &[&str]) -> Vec<String> { v.iter().map(|s| s.to_string()).collect() }
impl Default for Cfg {
    fn default() -> Cfg {
        Cfg {
            wide: 600, max_files: 4, max_decls: 5, max_fields: 6, namespaces: true, docs: true, field_align: true, empty_enums: true, extras: true,
            type_names: names(&["A", "B", "C", "Foo", "bar", "T", "S", "a", "b", "table", "int", "string", "Long_Name9", "enum", "_x"]),
            field_names: names(&["a", "b", "c", "x", "y", "foo", "Bar", "type", "id", "key", "table", "name", "value_1", "_u", "int", "required", "struct", "namespace", "f0", "f1", "f2", "f3"]),
            ns_names: names(&["a", "b", "c", "A", "ns", "table"]),
            var_names: names(&["A", "B", "C", "D", "X", "Y", "Red", "Green", "none", "table", "v0", "v1", "v2", "v3", "v4", "true_", "Null"]),
            special_floats: true, plain_strings: false, crlf_docs: false,
        }
    }
}
fn docs(s: &mut Src, cfg: &Cfg) -> Vec<String> {
    if !cfg.docs || !s.chance(1, 4) { return vec![]; }
    (0..s.range(1, 3)).map(|_| doc_text(s)).collect()
}
/// text of one comment line (no newline, does not turn into another kind of comment)
pub fn doc_text(s: &mut Src) -> String {
    let mut t: String = text(s, 12).chars().filter(|c| !matches!(c, '\n' | '\r')).collect();
    while t.starts_with('/') || t.starts_with('!') { t.remove(0); }
    if s.bool() { t.insert(0, ' '); }
    t
}
fn take(s: &mut Src, pool: &[String], used: &mut BTreeSet<String>) -> String {
    for _ in 0..4 {
        let n = s.pick(pool).clone();
        if used.insert(n.clone()) { return n; }
    }
    if let Some(n) = pool.iter().find(|n| !used.contains(*n)) { let n = n.clone(); used.insert(n.clone()); return n; }
    let mut i = used.len();
    loop { let n = format!("n{i}"); if used.insert(n.clone()) { return n; } i += 1; }
}

pub fn gen(s: &mut Src, cfg: &Cfg) -> Proj {
    let nf = s.range(1, cfg.max_files);
    let dirs = ["", "", "d/", "d/e/", "x/"];
    let mut p = Proj::default();
    for i in 0..nf {
        let dir = if nf == 1 { "" } else { *s.pick(&dirs) };
        let mut f = File { path: format!("{dir}f{i}.fbs"), ..File::default() };
        if cfg.namespaces { let d = s.weighted(&[3, 4, 3, 1]); for _ in 0..d { f.ns.push(s.pick(&cfg.ns_names).clone()); } }
        if cfg.docs && s.chance(1, 5) { for _ in 0..s.range(1, 2) { f.docs.push(doc_text(s)); } }
        p.files.push(f);
    }
    for i in 0..nf {
        let k = if nf == 1 { s.weighted(&[6, 1]) } else { s.small(nf.min(3)) };
        for _ in 0..k {
            let t = s.usize(nf);
            let text = rel_path(s, &p.files[i].path, &p.files[t].path);
            p.files[i].includes.push(Inc { target: t, text });
        }
    }
    p.roots = (0..nf).filter(|_| s.chance(1, 2)).collect();
    if p.roots.is_empty() { p.roots.push(0); }
    if s.chance(1, 6) { let r = *s.pick(&p.roots); p.roots.push(r); }
    s.shuffle(&mut p.roots);
    // declaration heads
    let all_ns: BTreeSet<Vec<String>> = p.files.iter().flat_map(|f| (0..=f.ns.len()).map(|k| f.ns[..k].to_vec())).collect();
    let mut taken: BTreeSet<Vec<String>> = BTreeSet::new();
    for i in 0..nf {
        let nd = s.range(if i == 0 { 1 } else { 0 }, cfg.max_decls);
        for _ in 0..nd {
            let mut used: BTreeSet<String> = cfg.type_names.iter().filter(|n| {
                let mut q = p.files[i].ns.clone(); q.push((*n).clone());
                taken.contains(&q) || all_ns.contains(&q)
            }).cloned().collect();
            let name = loop {
                let n = take(s, &cfg.type_names, &mut used);
                let mut q = p.files[i].ns.clone(); q.push(n.clone());
                if !all_ns.contains(&q) && taken.insert(q) { break n; }
            };
            let kind = match s.weighted(&[8, 4, 3, 3]) {
                0 => Kind::Table(vec![]),
                1 => Kind::Struct(vec![]),
                2 => Kind::Enum { ty: Sc::U8, spelling: String::new(), vars: vec![], comma: false },
                _ => Kind::Union { vars: vec![], comma: false },
            };
            let d = docs(s, cfg);
            p.files[i].decls.push(Decl { name, docs: d, kind, meta: vec![] });
        }
    }
    // enums first, then structs in a random order (so that they are acyclic), then the rest
    let ids = p.ids();
    for id in &ids { if matches!(p.decl(*id).kind, Kind::Enum { .. }) { gen_enum(s, cfg, &mut p, *id); } }
    let mut structs: Vec<Id> = ids.iter().copied().filter(|i| matches!(p.decl(*i).kind, Kind::Struct(_))).collect();
    s.shuffle(&mut structs);
    let mut done = vec![];
    for id in structs { gen_struct(s, cfg, &mut p, id, &done); done.push(id); }
    for id in &ids { if matches!(p.decl(*id).kind, Kind::Union { .. }) { gen_union(s, cfg, &mut p, *id); } }
    for id in &ids { if matches!(p.decl(*id).kind, Kind::Table(_)) { gen_table(s, cfg, &mut p, *id); } }
    if cfg.extras { for i in 0..nf { gen_extras(s, &mut p, i); } }
    p
}

pub fn rel_path(s: &mut Src, from: &str, to: &str) -> String {
    let fd: Vec<&str> = from.split('/').collect();
    let fd = &fd[..fd.len() - 1];
    let td: Vec<&str> = to.split('/').collect();
    let mut k = 0;
    while k < fd.len() && k + 1 < td.len() && fd[k] == td[k] { k += 1; }
    let mut v: Vec<String> = fd[k..].iter().map(|_| "..".to_string()).chain(td[k..].iter().map(|x| x.to_string())).collect();
    if s.chance(1, 4) { let i = s.usize(v.len()); v.insert(i, ".".into()); }
    if s.chance(1, 6) { let i = s.usize(v.len()); v.insert(i, "..".into()); v.insert(i, "zz".into()); }
    v.join("/")
}

pub fn pick_ref(s: &mut Src, p: &Proj, f: usize, ok: impl Fn(&Proj, Id) -> bool) -> Option<Ty> {
    let reach = p.reach(f);
    let c: Vec<Id> = p.ids().into_iter().filter(|id| reach.contains(&id.0) && ok(p, *id)).collect();
    if c.is_empty() { return None; }
    for _ in 0..2 {
        let id = *s.pick(&c);
        let sp = p.spellings(f, id);
        if !sp.is_empty() { return Some(Ty::Ref(id, s.pick(&sp).clone())); }
    }
    None
}

fn gen_enum(s: &mut Src, cfg: &Cfg, p: &mut Proj, id: Id) {
    let t = *s.pick(&INTS);
    let (lo, hi) = t.range();
    let sp = sc_spelling(s, t);
    let n = if cfg.empty_enums && s.chance(1, 12) { 0 } else if s.chance(1, cfg.wide) { s.range(120, 300) } else { 1 + s.small(12) };
    let mut used = BTreeSet::new();
    let mut vals = BTreeSet::new();
    let mut vs: Vec<EVar> = vec![];
    let mut next: i128 = 0;
    for _ in 0..n {
        let mut value = next;
        let mut lit = None;
        if value > hi || vals.contains(&value) || s.chance(1, 3) {
            value = s.int(lo, hi);
            if !vals.contains(&value) { lit = Some(int_lit(s, value)); }
        }
        if !vals.insert(value) { continue; }
        next = value + 1;
        let name = take(s, &cfg.var_names, &mut used);
        let d = docs(s, cfg);
        vs.push(EVar { name, docs: d, value, lit });
    }
    if vs.is_empty() && n > 0 { vs.push(EVar { name: "V".into(), docs: vec![], value: 0, lit: None }); }
    let c = s.bool() && !vs.is_empty();
    p.files[id.0].decls[id.1].kind = Kind::Enum { ty: t, spelling: sp, vars: vs, comma: c };
}

fn gen_struct(s: &mut Src, cfg: &Cfg, p: &mut Proj, id: Id, done: &[Id]) {
    let wide = s.chance(1, cfg.wide);
    let n = if wide { s.range(60, 280) } else { 1 + s.small(cfg.max_fields) };
    let mut used = BTreeSet::new();
    let mut fs = vec![];
    let mut size = 0;
    for _ in 0..n {
        let mut ty = None;
        match s.weighted(&[6, 3, 2]) {
            0 => {}
            1 => ty = pick_ref(s, p, id.0, |p, i| done.contains(&i) && p.slayout(i).1 < 600),
            _ => ty = pick_ref(s, p, id.0, |p, i| matches!(p.decl(i).kind, Kind::Enum { .. })),
        }
        let ty = ty.unwrap_or_else(|| { let sc = *s.pick(&SCALARS); Ty::Sc(sc, sc_spelling(s, sc)) });
        size += p.inline(&ty).0;
        if size > 1500 { break; }
        let name = take(s, &cfg.field_names, &mut used);
        let d = docs(s, cfg);
        fs.push(Field { name, docs: d, ty, default: Def::None, attrs: vec![] });
    }
    p.files[id.0].decls[id.1].kind = Kind::Struct(fs);
    if s.chance(1, 4) {
        let al = p.slayout(id).2;
        let n = (al << s.below(4)).min(al.max(64)) as u32;
        let l = int_lit(s, n as i128);
        p.files[id.0].decls[id.1].meta.push(Attr::ForceAlign(l, n));
    }
}

fn gen_union(s: &mut Src, cfg: &Cfg, p: &mut Proj, id: Id) {
    let n = if cfg.empty_enums && s.chance(1, 12) { 0 } else { 1 + s.small(6) };
    let mut used = BTreeSet::new();
    let mut vs: Vec<UVar> = vec![];
    for _ in 0..n {
        let ty = if s.chance(1, 5) { Some(Ty::Str) } else { pick_ref(s, p, id.0, |p, i| matches!(p.decl(i).kind, Kind::Table(_) | Kind::Struct(_))) };
        let Some(ty) = ty else { continue };
        let named = matches!(ty, Ty::Str) || s.chance(1, 3);
        let name = if named { Some(take(s, &cfg.var_names, &mut used)) } else {
            let Ty::Ref(_, sp) = &ty else { panic!() };
            if !used.insert(sp.last().unwrap().clone()) { continue; }
            None
        };
        let d = docs(s, cfg);
        vs.push(UVar { name, docs: d, ty });
    }
    if vs.is_empty() && (n > 0 || !cfg.empty_enums) { vs.push(UVar { name: Some("V".into()), docs: vec![], ty: Ty::Str }); }
    let c = s.bool() && !vs.is_empty();
    p.files[id.0].decls[id.1].kind = Kind::Union { vars: vs, comma: c };
}

pub fn gen_default(s: &mut Src, cfg: &Cfg, p: &Proj, ty: &Ty) -> Def {
    match ty {
        Ty::Sc(sc, _) => match s.weighted(&[4, 1, 4]) {
            0 => Def::None,
            1 => Def::Null,
            _ => match sc {
                Sc::Bool => { let b = s.bool(); Def::Lit(vec![b.to_string()], Val::Bool(b)) }
                Sc::F32 | Sc::F64 => {
                    let (t, a, b, _) = float_lit(s);
                    let inf = t.iter().any(|x| x.starts_with("inf"));
                    let special = inf || a.is_nan();
                    if special && !cfg.special_floats { return Def::None; }
                    if *sc == Sc::F32 { if a.is_infinite() && !inf { return Def::None; } Def::Lit(t, Val::F32(a.to_bits())) }
                    else { if b.is_infinite() && !inf { return Def::None; } Def::Lit(t, Val::F64(b.to_bits())) }
                }
                sc => { let (lo, hi) = sc.range(); let v = s.int(lo, hi); Def::Lit(int_lit(s, v), Val::Int(v)) }
            },
        },
        Ty::Ref(id, _) => match &p.decl(*id).kind {
            Kind::Enum { vars, .. } => {
                let zero = vars.iter().any(|v| v.value == 0);
                if vars.is_empty() { return Def::Null; }
                match s.weighted(&[if zero { 4 } else { 0 }, 1, 3]) {
                    0 => Def::None,
                    1 => Def::Null,
                    _ => {
                        let v = s.pick(vars);
                        // true, false, null, inf, nan are not names of constants
                        let special = matches!(v.name.as_str(), "true" | "false" | "null" | "inf" | "infinity" | "nan" | "NaN");
                        if s.bool() && !special { Def::Lit(vec![v.name.clone()], Val::Tag(v.value)) } else { let l = int_lit(s, v.value); Def::Lit(l, Val::Tag(v.value)) }
                    }
                }
            }
            _ => if s.chance(1, 6) { Def::Null } else { Def::None },
        },
        Ty::Str => match s.weighted(&[4, 1, 2]) {
            0 => Def::None,
            1 => Def::Null,
            _ => { let v = if cfg.plain_strings { text(s, 8).chars().filter(|c| c.is_ascii_alphanumeric()).collect() } else { text(s, 12) }; Def::Lit(vec![str_lit(s, &v)], Val::Str(v)) }
        },
        Ty::Vec(_) => match s.weighted(&[4, 1, 1]) { 0 => Def::None, 1 => Def::Null, _ => Def::Lit(vec!["[".into(), "]".into()], Val::EmptyVec) },
    }
}

pub fn gen_table_ty(s: &mut Src, p: &Proj, f: usize) -> Ty {
    let base = |s: &mut Src| { let sc = *s.pick(&SCALARS); Ty::Sc(sc, sc_spelling(s, sc)) };
    let vec = s.chance(1, 4);
    let inner = match s.weighted(&[6, 2, 8]) {
        0 => base(s),
        1 => Ty::Str,
        _ => pick_ref(s, p, f, |p, i| vec || !matches!(p.decl(i).kind, Kind::Struct(_)) || p.slayout(i).1 <= 2000).unwrap_or_else(|| base(s)),
    };
    if vec { Ty::Vec(Box::new(inner)) } else { inner }
}

fn gen_table(s: &mut Src, cfg: &Cfg, p: &mut Proj, id: Id) {
    let wide = s.chance(1, cfg.wide);
    let n = if wide { s.range(60, 280) } else { s.small(cfg.max_fields) };
    let mut used = BTreeSet::new();
    let mut fs: Vec<Field> = vec![];
    for _ in 0..n {
        let mut ty = gen_table_ty(s, p, id.0);
        if wide && p.inline(&ty).0 > 100 { ty = Ty::Str; }
        let default = gen_default(s, cfg, p, &ty);
        let mut attrs = vec![];
        if !p.is_scalar(&ty) && matches!(default, Def::None) && s.chance(1, 4) { attrs.push(Attr::Required); }
        if s.chance(1, 10) { attrs.push(Attr::Deprecated); }
        if cfg.field_align && s.chance(1, 12) {
            let al = p.inline(&ty).1;
            let n = (al << s.below(3)) as u32;
            attrs.push(Attr::ForceAlign(int_lit(s, n as i128), n));
        }
        let name = take(s, &cfg.field_names, &mut used);
        let d = docs(s, cfg);
        fs.push(Field { name, docs: d, ty, default, attrs });
    }
    if s.chance(1, 3) {
        // explicit ids, assigned along a random order
        let mut order: Vec<usize> = (0..fs.len()).collect();
        s.shuffle(&mut order);
        let mut next = 0;
        for i in order {
            let two = p.is_union(&fs[i].ty);
            let n = if two { next + 1 } else { next };
            next = n + 1;
            fs[i].attrs.push(Attr::Id(int_lit(s, n as i128), n));
        }
    }
    for f in &mut fs { s.shuffle(&mut f.attrs); }
    p.files[id.0].decls[id.1].kind = Kind::Table(fs);
}

fn gen_extras(s: &mut Src, p: &mut Proj, f: usize) {
    let n = p.files[f].decls.len();
    if s.chance(1, 4) {
        if let Some(Ty::Ref(_, sp)) = pick_ref(s, p, f, |p, i| matches!(p.decl(i).kind, Kind::Table(_))) {
            let at = s.usize(n + 1);
            let mut t = vec![tk("root_type")];
            path_tokens(&sp, &mut t);
            t.push(tk(";"));
            p.files[f].extras.push((at, t));
        }
    }
    if s.chance(1, 6) { let at = s.usize(n + 1); p.files[f].extras.push((at, tks(&["file_identifier", "\"ABCD\"", ";"]))); }
    if s.chance(1, 6) { let at = s.usize(n + 1); p.files[f].extras.push((at, tks(&["file_extension", "'bin'", ";"]))); }
}

// ---------------------------------------------------------------- rendering
fn path_tokens(p: &[String], out: &mut Vec<Tk>) {
    for (i, seg) in p.iter().enumerate() { if i > 0 { out.push(tk(".")); } out.push(tk(seg)); }
}
pub fn ty_tokens(ty: &Ty, out: &mut Vec<Tk>) {
    match ty {
        Ty::Sc(_, sp) => out.push(tk(sp)),
        Ty::Str => out.push(tk("string")),
        Ty::Vec(t) => { out.push(tk("[")); ty_tokens(t, out); out.push(tk("]")); }
        Ty::Ref(_, sp) => path_tokens(sp, out),
    }
}
fn meta_tokens(a: &[Attr], out: &mut Vec<Tk>) {
    if a.is_empty() { return; }
    out.push(tk("("));
    for (i, m) in a.iter().enumerate() { if i > 0 { out.push(tk(",")); } out.extend(m.tokens().iter().map(|t| tk(t))); }
    out.push(tk(")"));
}
pub fn field_tokens(f: &Field, out: &mut Vec<Tk>) {
    out.push(Tk { t: f.name.clone(), docs: f.docs.clone() });
    out.push(tk(":"));
    ty_tokens(&f.ty, out);
    match &f.default {
        Def::None => {}
        Def::Null => out.extend(tks(&["=", "null"])),
        Def::Lit(t, _) => { out.push(tk("=")); out.extend(t.iter().map(|t| tk(t))); }
    }
    meta_tokens(&f.attrs, out);
    out.push(tk(";"));
}
pub fn decl_tokens(d: &Decl, out: &mut Vec<Tk>) {
    let kw = match &d.kind { Kind::Table(_) => "table", Kind::Struct(_) => "struct", Kind::Enum { .. } => "enum", Kind::Union { .. } => "union" };
    out.push(Tk { t: kw.into(), docs: d.docs.clone() });
    out.push(tk(&d.name));
    if let Kind::Enum { spelling, .. } = &d.kind { if !spelling.is_empty() { out.extend(tks(&[":", spelling])); } }
    meta_tokens(&d.meta, out);
    out.push(tk("{"));
    match &d.kind {
        Kind::Table(fs) | Kind::Struct(fs) => for f in fs { field_tokens(f, out); },
        Kind::Enum { vars, comma, .. } => for (i, v) in vars.iter().enumerate() {
            out.push(Tk { t: v.name.clone(), docs: v.docs.clone() });
            if let Some(l) = &v.lit { out.push(tk("=")); out.extend(l.iter().map(|t| tk(t))); }
            if i + 1 < vars.len() || *comma { out.push(tk(",")); }
        },
        Kind::Union { vars, comma } => for (i, v) in vars.iter().enumerate() {
            let at = out.len();
            if let Some(n) = &v.name { out.extend(tks(&[n, ":"])); }
            ty_tokens(&v.ty, out);
            out[at].docs = v.docs.clone();
            if i + 1 < vars.len() || *comma { out.push(tk(",")); }
        },
    }
    out.push(tk("}"));
}
impl File {
    pub fn head_tokens(&self, quote: impl Fn(&str) -> String) -> Vec<Tk> {
        let mut out = vec![];
        for i in &self.includes { out.extend([tk("include"), tk(&quote(&i.text)), tk(";")]); }
        if !self.ns.is_empty() { out.push(tk("namespace")); path_tokens(&self.ns, &mut out); out.push(tk(";")); }
        out
    }
    pub fn tokens(&self) -> Vec<Tk> {
        let mut out = self.head_tokens(|s| format!("\"{s}\""));
        for (i, d) in self.decls.iter().enumerate() {
            for (at, t) in &self.extras { if *at == i { out.extend(t.iter().cloned()); } }
            decl_tokens(d, &mut out);
        }
        for (at, t) in &self.extras { if *at >= self.decls.len() { out.extend(t.iter().cloned()); } }
        out
    }
}

/// The layout chosen for a token sequence.
pub struct Laid { pub text: String, pub comments: Vec<String>, /** where each token starts */ pub at: Vec<usize> }
#[derive(Clone, Copy, PartialEq)]
pub enum Noise { Plain, Space, Comments, Wild }

fn word(c: char) -> bool { c.is_ascii_alphanumeric() || c == '_' }
pub fn need_space(a: &str, b: &str) -> bool {
    match (a.chars().last(), b.chars().next()) { (Some(x), Some(y)) => word(x) && word(y), _ => false }
}

/// `inner` doc lines (`//!`) come before the first token.
pub fn layout(s: &mut Src, inner: &[String], toks: &[Tk], noise: Noise) -> Laid {
    let crlf = noise != Noise::Plain && s.chance(1, 6);
    let nl = if crlf { "\r\n" } else { "\n" };
    let mut out = String::new();
    let mut comments = vec![];
    let mut at = vec![];
    let mut line_start = true;
    let comment = |s: &mut Src, out: &mut String, comments: &mut Vec<String>, lead: &str, t: Option<&String>| {
        let lead = if noise == Noise::Wild && t.is_none() { *s.pick(&["//", "//", "///", "//!", "////"]) } else { lead };
        let t = t.cloned().unwrap_or_else(|| doc_text(s));
        out.push_str(lead);
        out.push_str(&t);
        comments.push(format!("{lead}{}", t.trim_end()));
    };
    let ws = |s: &mut Src| -> String { match noise { Noise::Plain => String::new(), _ => (0..s.small(3)).map(|_| *s.pick(&[' ', ' ', '\t', '\x0c'])).collect() } };
    for l in inner { let w = ws(s); out.push_str(&w); comment(s, &mut out, &mut comments, "//!", Some(l)); out.push_str(nl); }
    for i in 0..=toks.len() {
        let end = i == toks.len();
        let docs: &[String] = if end { &[] } else { &toks[i].docs };
        // gap before token i
        if i > 0 && noise as u8 >= Noise::Comments as u8 && s.chance(1, 8) {
            // a comment on the same line as the previous token
            let w = ws(s); out.push_str(&w);
            comment(s, &mut out, &mut comments, "//", None);
            out.push_str(nl);
            line_start = true;
        }
        if noise != Noise::Plain {
            for _ in 0..s.small(3) {
                match s.weighted(&[4, 4, if noise as u8 >= Noise::Comments as u8 { 2 } else { 0 }]) {
                    0 => { let w = ws(s); out.push_str(&w); if !w.is_empty() && out.ends_with(['\t', ' ', '\x0c']) { /* keeps the line state */ } }
                    1 => { out.push_str(nl); line_start = true; }
                    _ => {
                        if !line_start { out.push_str(nl); }
                        comment(s, &mut out, &mut comments, "//", None);
                        out.push_str(nl);
                        line_start = true;
                    }
                }
            }
        }
        for d in docs {
            if !line_start { out.push_str(nl); }
            let w = ws(s); out.push_str(&w);
            comment(s, &mut out, &mut comments, "///", Some(d));
            out.push_str(nl);
            line_start = true;
            if noise as u8 >= Noise::Comments as u8 && s.chance(1, 6) { comment(s, &mut out, &mut comments, "//", None); out.push_str(nl); }
            if noise != Noise::Plain && s.chance(1, 6) { out.push_str(nl); if s.bool() { out.push_str(nl); } }
        }
        if end { break; }
        let t = &toks[i].t;
        let last = out.chars().last();
        if i > 0 && last.is_some_and(|c| word(c)) && t.chars().next().is_some_and(word) { out.push(' '); }
        if noise == Noise::Plain && i > 0 && !line_start && !out.ends_with(' ') { out.push(' '); }
        at.push(out.len());
        out.push_str(t);
        line_start = false;
        if noise == Noise::Plain && matches!(t.as_str(), ";" | "{" | "}" | ",") { out.push('\n'); line_start = true; }
    }
    Laid { text: out, comments, at }
}

pub fn write(dir: &std::path::Path, p: &Proj, texts: &[String]) {
    for (f, t) in p.files.iter().zip(texts) {
        let path = dir.join(&f.path);
        if let Some(d) = path.parent() { let _ = std::fs::create_dir_all(d); }
        std::fs::write(path, t).unwrap();
    }
}

// ---------------------------------------------------------------- what planus should say
/// section -> lines, per declaration path
pub type Dump = BTreeMap<String, BTreeMap<&'static str, Vec<String>>>;
pub fn docs_of(given: &[String]) -> Vec<String> { given.iter().map(|d| d.trim_end_matches('\r').to_string()).collect() }

pub fn val_text(v: &Val) -> String {
    match v {
        Val::Bool(b) => format!("bool {b}"),
        Val::Int(i) => format!("int {i}"),
        Val::Tag(i) => format!("tag {i}"),
        Val::F32(b) => if f32::from_bits(*b).is_nan() { "f32 nan".into() } else { format!("f32 {b:#x}") },
        Val::F64(b) => if f64::from_bits(*b).is_nan() { "f64 nan".into() } else { format!("f64 {b:#x}") },
        Val::Str(t) => format!("str {t:?}"),
        Val::EmptyVec => "[]".into(),
    }
}

pub fn expect(p: &Proj) -> Dump {
    let mut out = Dump::new();
    let loaded = p.loaded();
    for id in p.ids() {
        if !loaded.contains(&id.0) { continue; }
        let d = p.decl(id);
        let mut m: BTreeMap<&'static str, Vec<String>> = BTreeMap::new();
        let mut add = |k: &'static str, v: String| m.entry(k).or_default().push(v);
        add("docs", format!("{:?}", d.docs));
        match &d.kind {
            Kind::Table(fs) => {
                add("types", "table".into());
                let slots = p.slots(id);
                let mut end = 0;
                for (f, slot) in fs.iter().zip(&slots) {
                    let two = p.is_union(&f.ty);
                    end = end.max(slot + 1 + two as u32);
                    add("types", format!("{}: {}", f.name, p.ty_text(&f.ty)));
                    let (size, mut al) = p.inline(&f.ty);
                    for a in &f.attrs { if let Attr::ForceAlign(_, n) = a { al = al.max(*n as u64); } }
                    add("layout", format!("{} slot {slot} size {size} align {al} tag {}", f.name, match (&f.ty, two) { (Ty::Vec(_), true) => 4, (_, true) => 1, _ => 0 }));
                    let req = f.attrs.iter().any(|a| matches!(a, Attr::Required));
                    add("values", format!("{}: {}", f.name, if req { "required".into() } else { p.default_of(f).map(|v| val_text(&v)).unwrap_or("optional".into()) }));
                    add("values", format!("{} deprecated {}", f.name, f.attrs.iter().any(|a| matches!(a, Attr::Deprecated))));
                    add("docs", format!("{}: {:?}", f.name, f.docs));
                }
                add("layout", format!("vtable {}", 4 + 2 * end));
            }
            Kind::Struct(fs) => {
                add("types", "struct".into());
                let (offs, size, al) = p.slayout(id);
                for (i, f) in fs.iter().enumerate() {
                    add("types", format!("{}: {}", f.name, p.ty_text(&f.ty)));
                    let s = p.inline(&f.ty).0;
                    let next = offs.get(i + 1).copied().unwrap_or(size);
                    add("layout", format!("{} offset {} size {s} padding {}", f.name, offs[i], next - offs[i] - s));
                    add("docs", format!("{}: {:?}", f.name, f.docs));
                }
                add("layout", format!("size {size} align {al}"));
            }
            Kind::Enum { ty, vars, .. } => {
                add("types", format!("enum {ty:?}"));
                add("layout", format!("align {}", ty.size()));
                for v in vars { add("layout", format!("{} = {}", v.name, v.value)); add("docs", format!("{}: {:?}", v.name, v.docs)); }
            }
            Kind::Union { vars, .. } => {
                add("types", "union".into());
                for (i, v) in vars.iter().enumerate() {
                    add("types", format!("{}: {}", p.uname(v), p.ty_text(&v.ty)));
                    add("layout", format!("{} = tag {}", p.uname(v), i + 1));
                    add("docs", format!("{}: {:?}", p.uname(v), v.docs));
                }
            }
        }
        out.insert(p.path(id).join("."), m);
    }
    out
}
