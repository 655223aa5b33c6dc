//! Schema model, generator, renderer and reference layout (independent of planus).
use crate::src_::Src;
use std::fmt::Write;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Sc { Bool, I8, U8, I16, U16, I32, U32, I64, U64, F32, F64 }
pub const ALL_SC: [Sc; 11] = [Sc::Bool, Sc::I8, Sc::U8, Sc::I16, Sc::U16, Sc::I32, Sc::U32, Sc::I64, Sc::U64, Sc::F32, Sc::F64];
pub const INT_SC: [Sc; 8] = [Sc::U8, Sc::I8, Sc::I16, Sc::U16, Sc::I32, Sc::U32, Sc::I64, Sc::U64];
impl Sc {
    pub fn size(self) -> usize {
        match self { Sc::Bool | Sc::I8 | Sc::U8 => 1, Sc::I16 | Sc::U16 => 2, Sc::I32 | Sc::U32 | Sc::F32 => 4, _ => 8 }
    }
    pub fn range(self) -> (i128, i128) {
        match self {
            Sc::Bool => (0, 1),
            Sc::I8 => (i8::MIN as i128, i8::MAX as i128),
            Sc::U8 => (0, u8::MAX as i128),
            Sc::I16 => (i16::MIN as i128, i16::MAX as i128),
            Sc::U16 => (0, u16::MAX as i128),
            Sc::I32 => (i32::MIN as i128, i32::MAX as i128),
            Sc::U32 => (0, u32::MAX as i128),
            Sc::I64 => (i64::MIN as i128, i64::MAX as i128),
            Sc::U64 => (0, u64::MAX as i128),
            _ => (0, 0),
        }
    }
    pub fn is_float(self) -> bool { matches!(self, Sc::F32 | Sc::F64) }
    pub fn fbs(self) -> &'static str {
        match self {
            Sc::Bool => "bool", Sc::I8 => "int8", Sc::U8 => "uint8", Sc::I16 => "int16", Sc::U16 => "uint16", Sc::I32 => "int32",
            Sc::U32 => "uint32", Sc::I64 => "int64", Sc::U64 => "uint64", Sc::F32 => "float32", Sc::F64 => "float64",
        }
    }
    pub fn fbs_alt(self) -> &'static str {
        match self {
            Sc::Bool => "bool", Sc::I8 => "byte", Sc::U8 => "ubyte", Sc::I16 => "short", Sc::U16 => "ushort", Sc::I32 => "int",
            Sc::U32 => "uint", Sc::I64 => "long", Sc::U64 => "ulong", Sc::F32 => "float", Sc::F64 => "double",
        }
    }
    pub fn rust(self) -> &'static str {
        match self {
            Sc::Bool => "bool", Sc::I8 => "i8", Sc::U8 => "u8", Sc::I16 => "i16", Sc::U16 => "u16", Sc::I32 => "i32",
            Sc::U32 => "u32", Sc::I64 => "i64", Sc::U64 => "u64", Sc::F32 => "f32", Sc::F64 => "f64",
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Ty { Sc(Sc), Enum(usize), Struct(usize), Table(usize), Union(usize), Str, Vec(Box<Ty>) }

/// A decoded value, a decode error or a cut-off subtree.
#[derive(Clone, PartialEq, Debug)]
pub enum V {
    Null,
    Int(i128),
    F32(u32),
    F64(u64),
    Str(String),
    Struct(Vec<V>),
    Table(Vec<V>),
    Union(u8, Box<V>),
    Vec(Vec<V>),
    Err(ErrInfo),
    Cut,
}
#[derive(Clone, PartialEq, Debug, Default)]
pub struct ErrInfo { pub kind: String, pub type_: String, pub method: String, pub pos: usize, pub detail: String }

impl V {
    pub fn f32(f: f32) -> V { V::F32(f.to_bits()) }
    pub fn f64(f: f64) -> V { V::F64(f.to_bits()) }
    pub fn int(&self) -> i128 { if let V::Int(i) = self { *i } else { panic!("not int: {self:?}") } }
    pub fn as_f32(&self) -> f32 { if let V::F32(i) = self { f32::from_bits(*i) } else { panic!("not f32: {self:?}") } }
    pub fn as_f64(&self) -> f64 { if let V::F64(i) = self { f64::from_bits(*i) } else { panic!("not f64: {self:?}") } }
    pub fn str(&self) -> &str { if let V::Str(i) = self { i } else { panic!("not str: {self:?}") } }
    pub fn fields(&self) -> &[V] { match self { V::Struct(v) | V::Table(v) | V::Vec(v) => v, _ => panic!("no fields: {self:?}") } }
    pub fn is_null(&self) -> bool { matches!(self, V::Null) }
    pub fn opt(&self) -> Option<&V> { if self.is_null() { None } else { Some(self) } }
    pub fn nodes(&self) -> usize {
        match self {
            V::Struct(v) | V::Table(v) | V::Vec(v) => 1 + v.iter().map(|x| x.nodes()).sum::<usize>(),
            V::Union(_, v) => 1 + v.nodes(),
            _ => 1,
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            V::Struct(v) | V::Table(v) | V::Vec(v) => 1 + v.iter().map(|x| x.depth()).max().unwrap_or(0),
            V::Union(_, v) => 1 + v.depth(),
            _ => 0,
        }
    }
    pub fn has_nan(&self) -> bool {
        match self {
            V::F32(b) => f32::from_bits(*b).is_nan(),
            V::F64(b) => f64::from_bits(*b).is_nan(),
            V::Struct(v) | V::Table(v) | V::Vec(v) => v.iter().any(|x| x.has_nan()),
            V::Union(_, v) => v.has_nan(),
            _ => false,
        }
    }
    pub fn has_err(&self) -> bool {
        match self {
            V::Err(_) => true,
            V::Struct(v) | V::Table(v) | V::Vec(v) => v.iter().any(|x| x.has_err()),
            V::Union(_, v) => v.has_err(),
            _ => false,
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Mode { Required, Optional, Default(V) }
#[derive(Clone, PartialEq, Debug)]
pub struct Field { pub name: String, pub ty: Ty, pub mode: Mode, pub deprecated: bool, pub id: Option<u32>, pub explicit: bool, pub falign: Option<u32>, pub doc: Vec<String> }
#[derive(Clone, PartialEq, Debug)]
pub struct SField { pub name: String, pub ty: Ty, pub doc: Vec<String> }
#[derive(Clone, PartialEq, Debug)]
pub struct Variant { pub name: Option<String>, pub ty: Ty, pub doc: Vec<String> }
#[derive(Clone, PartialEq, Debug)]
pub struct EVariant { pub name: String, pub value: i128, pub explicit: bool, pub doc: Vec<String> }
#[derive(Clone, PartialEq, Debug)]
pub enum Kind {
    Enum { ty: Sc, variants: Vec<EVariant> },
    Struct { fields: Vec<SField>, force_align: Option<u32> },
    Table { fields: Vec<Field> },
    Union { variants: Vec<Variant> },
}
#[derive(Clone, PartialEq, Debug)]
pub struct Decl { pub ns: Vec<String>, pub name: String, pub kind: Kind, pub doc: Vec<String> }
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Schema { pub decls: Vec<Decl> }

#[derive(Clone, Debug, PartialEq)]
pub struct SLayout { pub offsets: Vec<usize>, pub size: usize, pub align: usize }

impl Schema {
    pub fn tables(&self) -> Vec<usize> {
        (0..self.decls.len()).filter(|i| matches!(self.decls[*i].kind, Kind::Table { .. })).collect()
    }
    pub fn fields(&self, t: usize) -> &[Field] {
        if let Kind::Table { fields } = &self.decls[t].kind { fields } else { panic!("not a table") }
    }
    pub fn sfields(&self, t: usize) -> &[SField] {
        if let Kind::Struct { fields, .. } = &self.decls[t].kind { fields } else { panic!("not a struct") }
    }
    pub fn uvariants(&self, t: usize) -> &[Variant] {
        if let Kind::Union { variants } = &self.decls[t].kind { variants } else { panic!("not a union") }
    }
    pub fn enum_(&self, t: usize) -> (Sc, &[EVariant]) {
        if let Kind::Enum { ty, variants } = &self.decls[t].kind { (*ty, variants) } else { panic!("not an enum") }
    }
    /// (size, alignment) of a scalar-like type stored inline
    pub fn inline(&self, ty: &Ty) -> (usize, usize) {
        match ty {
            Ty::Sc(s) => (s.size(), s.size()),
            Ty::Enum(e) => { let s = self.enum_(*e).0.size(); (s, s) }
            Ty::Struct(s) => { let l = self.slayout(*s); (l.size, l.align) }
            _ => (4, 4),
        }
    }
    /// FlatBuffers struct layout rule
    pub fn slayout(&self, s: usize) -> SLayout {
        let Kind::Struct { fields, force_align } = &self.decls[s].kind else { panic!() };
        let mut off = 0usize;
        let mut align = 1usize;
        let mut offsets = vec![];
        for f in fields {
            let (sz, al) = self.inline(&f.ty);
            while off % al != 0 { off += 1; }
            offsets.push(off);
            off += sz;
            if al > align { align = al; }
        }
        if let Some(f) = force_align { if *f as usize > align { align = *f as usize; } }
        while off % align != 0 { off += 1; }
        SLayout { offsets, size: off, align }
    }
    pub fn two_slots(ty: &Ty) -> bool {
        match ty { Ty::Union(_) => true, Ty::Vec(t) => matches!(**t, Ty::Union(_)), _ => false }
    }
    /// first vtable slot of each field (the tag slot for unions)
    pub fn slots(&self, t: usize) -> Vec<usize> {
        let fs = self.fields(t);
        let mut next = 0usize;
        let mut out = vec![];
        for f in fs {
            let two = Self::two_slots(&f.ty);
            let s = match f.id { Some(i) => if two { i as usize - 1 } else { i as usize }, None => next };
            out.push(s);
            next = s + if two { 2 } else { 1 };
        }
        out
    }
    pub fn path(&self, i: usize) -> String {
        let d = &self.decls[i];
        let mut p = d.ns.clone();
        p.push(d.name.clone());
        p.join(".")
    }
    pub fn ty_fbs(&self, ty: &Ty, ns: &[String], alt: bool) -> String {
        match ty {
            Ty::Sc(s) => if alt { s.fbs_alt() } else { s.fbs() }.to_string(),
            Ty::Str => "string".into(),
            Ty::Vec(t) => format!("[{}]", self.ty_fbs(t, ns, alt)),
            Ty::Enum(i) | Ty::Struct(i) | Ty::Table(i) | Ty::Union(i) => {
                if self.decls[*i].ns == ns { self.decls[*i].name.clone() } else { self.path(*i) }
            }
        }
    }
    pub fn lit(&self, ty: &Ty, v: &V) -> String {
        match (ty, v) {
            (Ty::Sc(Sc::Bool), V::Int(i)) => if *i == 1 { "true" } else { "false" }.into(),
            (Ty::Enum(e), V::Int(i)) => {
                let x = self.enum_(*e).1.iter().find(|x| x.value == *i).unwrap();
                x.name.clone()
            }
            (_, V::Int(i)) => i.to_string(),
            (_, V::F32(b)) => fmt_f(f32::from_bits(*b) as f64, format!("{:?}", f32::from_bits(*b))),
            (_, V::F64(b)) => fmt_f(f64::from_bits(*b), format!("{:?}", f64::from_bits(*b))),
            (_, V::Str(s)) => quote(s),
            (_, V::Vec(v)) if v.is_empty() => "[]".into(),
            (_, V::Null) => "null".into(),
            _ => panic!("lit {ty:?} {v:?}"),
        }
    }
    pub fn default_of(&self, ty: &Ty) -> Option<V> {
        match ty {
            Ty::Sc(Sc::F32) => Some(V::f32(0.0)),
            Ty::Sc(Sc::F64) => Some(V::f64(0.0)),
            Ty::Sc(_) => Some(V::Int(0)),
            Ty::Enum(e) => self.enum_(*e).1.iter().find(|v| v.value == 0).map(|v| V::Int(v.value)),
            _ => None,
        }
    }
    pub fn field_fbs(&self, f: &Field, ns: &[String]) -> String {
        let mut s = format!("{}: {}", f.name, self.ty_fbs(&f.ty, ns, f.name.len() % 2 == 1));
        match &f.mode {
            Mode::Default(v) => if f.explicit { let _ = write!(s, " = {}", self.lit(&f.ty, v)); },
            Mode::Optional => if self.default_of(&f.ty).is_some() || f.explicit { s.push_str(" = null"); },
            Mode::Required => {}
        }
        let mut attrs = vec![];
        if f.mode == Mode::Required { attrs.push("required".to_string()); }
        if f.deprecated { attrs.push("deprecated".to_string()); }
        if let Some(i) = f.id { attrs.push(format!("id: {i}")); }
        if let Some(a) = f.falign { attrs.push(format!("force_align: {a}")); }
        if !attrs.is_empty() { let _ = write!(s, " ({})", attrs.join(", ")); }
        s
    }
    pub fn decl_fbs(&self, i: usize) -> String {
        let d = &self.decls[i];
        let ns = &d.ns[..];
        let mut s = String::new();
        let doc = |s: &mut String, d: &[String], ind: &str| for l in d { let _ = writeln!(s, "{ind}///{l}"); };
        doc(&mut s, &d.doc, "");
        match &d.kind {
            Kind::Enum { ty, variants } => {
                let _ = writeln!(s, "enum {} : {} {{", d.name, ty.fbs_alt());
                for v in variants {
                    doc(&mut s, &v.doc, "  ");
                    if v.explicit { let _ = writeln!(s, "  {} = {},", v.name, v.value); } else { let _ = writeln!(s, "  {},", v.name); }
                }
            }
            Kind::Struct { fields, force_align } => {
                let fa = force_align.map(|a| format!("(force_align: {a}) ")).unwrap_or_default();
                let _ = writeln!(s, "struct {} {fa}{{", d.name);
                for f in fields {
                    doc(&mut s, &f.doc, "  ");
                    let _ = writeln!(s, "  {}: {};", f.name, self.ty_fbs(&f.ty, ns, false));
                }
            }
            Kind::Table { fields } => {
                let _ = writeln!(s, "table {} {{", d.name);
                for f in fields {
                    doc(&mut s, &f.doc, "  ");
                    let _ = writeln!(s, "  {};", self.field_fbs(f, ns));
                }
            }
            Kind::Union { variants } => {
                let _ = writeln!(s, "union {} {{", d.name);
                for v in variants {
                    doc(&mut s, &v.doc, "  ");
                    let t = self.ty_fbs(&v.ty, ns, false);
                    match &v.name { Some(n) => { let _ = writeln!(s, "  {n}: {t},"); } None => { let _ = writeln!(s, "  {t},"); } }
                }
            }
        }
        s.push_str("}\n");
        s
    }
    /// one file per namespace, all including each other; the first one is the root
    pub fn files(&self, prefix: &str) -> Vec<(String, String)> {
        let mut spaces: Vec<&Vec<String>> = vec![];
        for d in &self.decls { if !spaces.contains(&&d.ns) { spaces.push(&d.ns); } }
        if spaces.is_empty() { return vec![(format!("{prefix}.fbs"), String::new())]; }
        let name = |k: usize| if k == 0 { format!("{prefix}.fbs") } else { format!("{prefix}_{k}.fbs") };
        (0..spaces.len()).map(|k| {
            let mut s = String::new();
            for j in 0..spaces.len() { if j != k { let _ = writeln!(s, "include \"{}\";", name(j)); } }
            if !spaces[k].is_empty() { let _ = writeln!(s, "namespace {};", spaces[k].join(".")); }
            for i in 0..self.decls.len() { if self.decls[i].ns == *spaces[k] { s.push_str(&self.decl_fbs(i)); } }
            (name(k), s)
        }).collect()
    }
    /// for display
    pub fn fbs(&self) -> String {
        self.files("schema").iter().map(|(n, t)| format!("// {n}\n{t}")).collect::<Vec<_>>().join("")
    }
    /// name of a union variant in the schema language
    pub fn uname(&self, v: &Variant) -> String {
        match (&v.name, &v.ty) {
            (Some(n), _) => n.clone(),
            (None, Ty::Table(i) | Ty::Struct(i)) => self.decls[*i].name.clone(),
            _ => panic!(),
        }
    }
}
fn fmt_f(v: f64, s: String) -> String {
    if v.is_nan() { "nan".into() } else if v.is_infinite() { if v > 0.0 { "inf".into() } else { "-inf".into() } } else { s }
}
pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\u005c"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\x{:02x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Clone, Debug)]
pub struct GenOpts { /** one in so many tables has many fields */ pub wide: u64, pub max_decls: usize, pub max_fields: usize, pub ids: bool, pub deprecated: bool, pub namespaces: bool, pub force_align: bool, pub special_floats: bool }
impl Default for GenOpts {
    fn default() -> Self { GenOpts { wide: 1000, max_decls: 8, max_fields: 9, ids: true, deprecated: true, namespaces: true, force_align: true, special_floats: false } }
}

pub fn gen_string(s: &mut Src, max: usize) -> String {
    const POOL: [char; 24] = ['a', 'b', 'z', 'A', '0', '9', ' ', '_', '-', '.', '/', '"', '\'', '\n', '\t', '\0', '\u{7f}', 'é', 'ß', '中', '\u{2028}', '😀', '\u{10ffff}', '\\'];
    let n = s.small(max);
    (0..n).map(|_| { let k = s.weighted(&[6, 1]); if k == 0 { POOL[s.usize(10)] } else { POOL[s.usize(POOL.len())] } }).collect()
}
pub fn gen_f64_bits(s: &mut Src) -> u64 {
    match s.weighted(&[3, 3, 1, 1, 1, 2]) {
        0 => (s.below(5) as f64).to_bits(),
        1 => (s.int(-1000, 1000) as f64 / 8.0).to_bits(),
        2 => *s.pick(&[(-0.0f64).to_bits(), f64::INFINITY.to_bits(), f64::NEG_INFINITY.to_bits(), f64::NAN.to_bits(), f64::MIN_POSITIVE.to_bits(), f64::MAX.to_bits(), 1, f64::MIN.to_bits()]),
        3 => 0x7ff0_0000_0000_0001 | s.u64() >> 12,
        4 => (1.0f64 / (1 + s.below(50)) as f64).to_bits(),
        _ => s.u64(),
    }
}
pub fn gen_f32_bits(s: &mut Src) -> u32 {
    match s.weighted(&[3, 3, 1, 2]) {
        0 => (s.below(5) as f32).to_bits(),
        1 => (s.int(-1000, 1000) as f32 / 8.0).to_bits(),
        2 => *s.pick(&[(-0.0f32).to_bits(), f32::INFINITY.to_bits(), f32::NEG_INFINITY.to_bits(), f32::NAN.to_bits(), f32::MIN_POSITIVE.to_bits(), f32::MAX.to_bits(), 1, 0x7f80_0001]),
        _ => s.u64() as u32,
    }
}

fn gen_default(s: &mut Src, sch: &Schema, ty: &Ty, o: &GenOpts) -> Option<V> {
    Some(match ty {
        Ty::Sc(Sc::Bool) => V::Int(s.below(2) as i128),
        Ty::Sc(Sc::F32) => loop {
            let f = f32::from_bits(gen_f32_bits(s));
            if f.is_finite() && (o.special_floats || f >= 0.0) { break V::f32(f); }
            if o.special_floats { break V::f32(if f.is_nan() { f32::NAN } else { f }); }
            break V::f32(1.5);
        },
        Ty::Sc(Sc::F64) => loop {
            let f = f64::from_bits(gen_f64_bits(s));
            if f.is_finite() && (o.special_floats || f >= 0.0) { break V::f64(f); }
            if o.special_floats { break V::f64(if f.is_nan() { f64::NAN } else { f }); }
            break V::f64(2.25);
        },
        Ty::Sc(sc) => { let (lo, hi) = sc.range(); V::Int(s.int(lo, hi)) }
        Ty::Enum(e) => { let v = sch.enum_(*e).1; V::Int(v[s.usize(v.len())].value) }
        Ty::Str => V::Str(gen_string(s, 12).chars().filter(|c| *c != '\\').collect()),
        Ty::Vec(_) => V::Vec(vec![]),
        _ => return None,
    })
}

pub fn gen_schema(s: &mut Src, o: &GenOpts) -> Schema {
    let mut sch = Schema::default();
    let n = s.range(2, o.max_decls);
    let spaces: Vec<Vec<String>> = if o.namespaces { vec![vec![], vec!["na".into()], vec!["na".into(), "nb".into()], vec!["nc".into()]] } else { vec![vec![]] };
    // kinds first, so that forward references are possible
    let kinds: Vec<usize> = (0..n).map(|i| if i == n - 1 { 2 } else { s.weighted(&[3, 4, 7, 3]) }).collect();
    // the empty namespace cannot be returned to inside one file: start there
    let mut ns_idx = 0usize;
    for (i, k) in kinds.iter().enumerate() {
        if o.namespaces && s.chance(1, 4) { ns_idx = s.range(1, spaces.len() - 1); }
        let name = format!("{}{}", ["En", "St", "Ta", "Un"][*k], i);
        sch.decls.push(Decl { ns: spaces[ns_idx].clone(), name, kind: match k { 0 => Kind::Enum { ty: Sc::U8, variants: vec![] }, 1 => Kind::Struct { fields: vec![], force_align: None }, 2 => Kind::Table { fields: vec![] }, _ => Kind::Union { variants: vec![] } }, doc: vec![] });
    }
    let of = |k: usize| (0..n).filter(|i| kinds[*i] == k).collect::<Vec<_>>();
    let (enums, structs, tables, unions) = (of(0), of(1), of(2), of(3));
    for &i in &enums {
        let ty = *s.pick(&INT_SC);
        let (lo, hi) = ty.range();
        let m = s.range(1, 5);
        let mut vs: Vec<EVariant> = vec![];
        let mut next = 0i128;
        for j in 0..m {
            let explicit = s.chance(1, 2);
            let mut v = if explicit { s.int(lo, hi) } else { next };
            let mut ex = explicit;
            while vs.iter().any(|x| x.value == v) || v > hi {
                ex = true;
                v = if v >= hi { lo } else { v + 1 };
            }
            vs.push(EVariant { name: format!("V{}", (b'a' + j as u8) as char), value: v, explicit: ex, doc: vec![] });
            next = v + 1;
        }
        sch.decls[i].kind = Kind::Enum { ty, variants: vs };
    }
    for (si, &i) in structs.iter().enumerate() {
        let m = s.range(1, 6);
        let mut fields = vec![];
        for j in 0..m {
            let ty = match s.weighted(&[6, if enums.is_empty() { 0 } else { 2 }, if si == 0 { 0 } else { 2 }]) {
                0 => Ty::Sc(*s.pick(&ALL_SC)),
                1 => Ty::Enum(enums[s.usize(enums.len())]),
                _ => Ty::Struct(structs[s.usize(si)]),
            };
            fields.push(SField { name: format!("g{}", (b'a' + j as u8) as char), ty, doc: vec![] });
        }
        sch.decls[i].kind = Kind::Struct { fields, force_align: None };
        if o.force_align && s.chance(1, 4) {
            let l = sch.slayout(i);
            let a = (l.align as u32) << s.below(3);
            if let Kind::Struct { force_align, .. } = &mut sch.decls[i].kind { *force_align = Some(a.min(32)); }
            if a > 32 { if let Kind::Struct { force_align, .. } = &mut sch.decls[i].kind { *force_align = None; } }
        }
    }
    for &i in &unions {
        let m = s.range(1, 4);
        let mut vs: Vec<Variant> = vec![];
        for j in 0..m {
            let ty = match s.weighted(&[5, if structs.is_empty() { 0 } else { 2 }, 1]) {
                0 => Ty::Table(tables[s.usize(tables.len())]),
                1 => Ty::Struct(structs[s.usize(structs.len())]),
                _ => Ty::Str,
            };
            let dup = vs.iter().any(|v| v.name.is_none() && v.ty == ty);
            let name = if dup || matches!(ty, Ty::Str) || s.bool() { Some(format!("Al{}", (b'a' + j as u8) as char)) } else { None };
            vs.push(Variant { name, ty, doc: vec![] });
        }
        sch.decls[i].kind = Kind::Union { variants: vs };
    }
    for (ti, &i) in tables.iter().enumerate() {
        let big = s.chance(1, 12);
        let lo = if s.chance(1, 10) { 0 } else { 1 };
        let wide = s.chance(1, o.wide);
        let m = if wide { s.range(60, 200) } else if big { s.range(10, 24) } else { s.range(lo, o.max_fields) };
        let mut fields: Vec<Field> = vec![];
        for j in 0..m {
            let elem = |s: &mut Src| match s.weighted(&[5, if enums.is_empty() { 0 } else { 2 }, if structs.is_empty() { 0 } else { 3 }, 2, 3, if unions.is_empty() { 0 } else { 2 }]) {
                0 => Ty::Sc(*s.pick(&ALL_SC)),
                1 => Ty::Enum(enums[s.usize(enums.len())]),
                2 => Ty::Struct(structs[s.usize(structs.len())]),
                3 => Ty::Str,
                4 => Ty::Table(tables[s.usize(tables.len())]),
                _ => Ty::Union(unions[s.usize(unions.len())]),
            };
            let mut ty = if s.chance(1, 3) { Ty::Vec(Box::new(elem(s))) } else { elem(s) };
            if wide && sch.inline(&ty).0 > 100 { ty = Ty::Str; }
            let implicit = sch.default_of(&ty);
            let mut explicit = false;
            let mode = match &ty {
                Ty::Sc(_) | Ty::Enum(_) => match s.weighted(&[if implicit.is_some() { 4 } else { 0 }, 3, 3]) {
                    0 => Mode::Default(implicit.clone().unwrap()),
                    1 => { explicit = true; Mode::Optional }
                    _ => { explicit = true; Mode::Default(gen_default(s, &sch, &ty, o).unwrap()) }
                },
                Ty::Str => match s.weighted(&[4, 2, 2]) {
                    0 => Mode::Optional,
                    1 => Mode::Required,
                    _ => { explicit = true; Mode::Default(gen_default(s, &sch, &ty, o).unwrap()) }
                },
                Ty::Vec(_) => match s.weighted(&[4, 2, 2]) {
                    0 => Mode::Optional,
                    1 => Mode::Required,
                    _ => { explicit = true; Mode::Default(V::Vec(vec![])) }
                },
                Ty::Struct(_) => if s.chance(1, 3) { Mode::Required } else { Mode::Optional },
                Ty::Table(t) => if tables[..ti].contains(t) && s.chance(1, 3) { Mode::Required } else { Mode::Optional },
                Ty::Union(u) => {
                    let ok = sch.uvariants(*u).iter().all(|v| match &v.ty { Ty::Table(t) => tables[..ti].contains(t), _ => true });
                    if ok && s.chance(1, 3) { Mode::Required } else { Mode::Optional }
                }
            };
            let deprecated = o.deprecated && s.chance(1, 12);
            let name = if j < 24 { format!("f{}", (b'a' + j as u8) as char) } else { format!("g{j}") };
            let name = if s.chance(1, 8) { format!("{name}_x{j}") } else { name };
            fields.push(Field { name, ty, mode, deprecated, id: None, explicit, falign: None, doc: vec![] });
        }
        if o.force_align && s.chance(1, 5) {
            for f in &mut fields {
                if s.bool() { f.falign = Some(((sch.inline(&f.ty).1 as u32) << s.below(4)).min(32)); }
            }
        }
        if o.ids && s.chance(1, 4) && !fields.is_empty() {
            let mut order: Vec<usize> = (0..fields.len()).collect();
            s.shuffle(&mut order);
            let mut next = 0u32;
            for k in order {
                let two = Schema::two_slots(&fields[k].ty);
                fields[k].id = Some(if two { next + 1 } else { next });
                next += if two { 2 } else { 1 };
            }
        }
        sch.decls[i].kind = Kind::Table { fields };
    }
    sch
}

/// Does a value of this type exist within the depth budget without recursion trouble?
/// whether `gen_value` ends: no chain of required tables and unions leads back to its start
pub fn finite(sch: &Schema, t: usize) -> bool {
    fn go(sch: &Schema, t: usize, path: &mut Vec<usize>) -> bool {
        if path.contains(&t) { return false; }
        path.push(t);
        let ok = sch.fields(t).iter().all(|f| {
            if f.deprecated || f.mode != Mode::Required { return true; }
            match &f.ty {
                Ty::Table(n) => go(sch, *n, path),
                Ty::Union(u) => match sch.uvariants(*u).iter().map(|v| match &v.ty { Ty::Table(t) => 1 + *t, _ => 0 }).min() { Some(k) if k > 0 => go(sch, k - 1, path), Some(_) => true, None => false },
                _ => true,
            }
        });
        path.pop();
        ok
    }
    fn reach(sch: &Schema, ty: &Ty, seen: &mut Vec<usize>) {
        match ty {
            Ty::Vec(t) => reach(sch, t, seen),
            Ty::Union(u) => for v in sch.uvariants(*u) { if v.ty != *ty { reach(sch, &v.ty, seen); } },
            Ty::Table(t) if !seen.contains(t) => {
                seen.push(*t);
                for f in sch.fields(*t) { if !f.deprecated { reach(sch, &f.ty, seen); } }
            }
            _ => (),
        }
    }
    let mut seen = vec![];
    reach(sch, &Ty::Table(t), &mut seen);
    seen.into_iter().all(|t| go(sch, t, &mut vec![]))
}
pub fn gen_value(s: &mut Src, sch: &Schema, ty: &Ty, depth: usize, budget: &mut usize) -> V {
    *budget = budget.saturating_sub(1);
    match ty {
        Ty::Sc(Sc::F32) => V::F32(gen_f32_bits(s)),
        Ty::Sc(Sc::F64) => V::F64(gen_f64_bits(s)),
        Ty::Sc(sc) => { let (lo, hi) = sc.range(); V::Int(s.int(lo, hi)) }
        Ty::Enum(e) => { let v = sch.enum_(*e).1; V::Int(v[s.usize(v.len())].value) }
        Ty::Struct(i) => V::Struct(sch.sfields(*i).iter().map(|f| gen_value(s, sch, &f.ty, depth, budget)).collect()),
        Ty::Str => V::Str(if s.chance(1, 40) { "long ".repeat(s.range(1, 60)) } else { gen_string(s, 12) }),
        Ty::Vec(t) => {
            let scalar = matches!(**t, Ty::Sc(_) | Ty::Enum(_));
            let n = if depth == 0 || *budget == 0 { 0 } else if scalar && s.chance(1, 20) { s.range(0, 80) } else { s.small(if scalar { 16 } else { 8 }) };
            let mut v = vec![];
            for _ in 0..n {
                if *budget == 0 { break; }
                v.push(gen_value(s, sch, t, depth - 1, budget));
            }
            V::Vec(v)
        }
        Ty::Union(u) => {
            let vs = sch.uvariants(*u);
            let mut k = s.usize(vs.len());
            if depth == 0 || *budget == 0 {
                // prefer a leaf, otherwise the table with the smallest index (cannot recurse forever)
                k = (0..vs.len()).min_by_key(|k| match &vs[*k].ty { Ty::Table(t) => 1 + *t, _ => 0 }).unwrap();
            }
            V::Union(k as u8 + 1, Box::new(gen_value(s, sch, &vs[k].ty, depth.saturating_sub(1), budget)))
        }
        Ty::Table(t) => V::Table(
            sch.fields(*t)
                .iter()
                .map(|f| {
                    if f.deprecated { return V::Null; }
                    match &f.mode {
                        Mode::Required => gen_value(s, sch, &f.ty, depth.saturating_sub(1), budget),
                        Mode::Default(d) => if s.chance(1, 3) { d.clone() } else { gen_value(s, sch, &f.ty, depth.saturating_sub(1), budget) },
                        Mode::Optional => {
                            let heavy = matches!(f.ty, Ty::Table(_) | Ty::Union(_) | Ty::Vec(_));
                            if (heavy && (depth == 0 || *budget == 0)) || s.chance(2, 5) { V::Null } else { gen_value(s, sch, &f.ty, depth.saturating_sub(1), budget) }
                        }
                    }
                })
                .collect(),
        ),
    }
}

/// Makes one string or vector of the value large: to a length around the
/// places where the width of a length or of an offset could matter.
/// `cap` bounds the weight of what is added. Says what it did.
pub fn enlarge(s: &mut Src, v: &mut V, cap: usize) -> Option<(&'static str, usize)> {
    fn count(v: &V) -> usize {
        match v {
            V::Str(_) => 1,
            V::Vec(x) => (!x.is_empty()) as usize + x.iter().map(count).sum::<usize>(),
            V::Table(x) => x.iter().map(count).sum(),
            V::Union(_, x) => count(x),
            _ => 0,
        }
    }
    fn nth<'a>(v: &'a mut V, k: &mut usize) -> Option<&'a mut V> {
        let here = match v { V::Str(_) => true, V::Vec(x) => !x.is_empty(), _ => false };
        if here { if *k == 0 { return Some(v); } *k -= 1; }
        match v {
            V::Vec(x) | V::Table(x) => { for y in x { if let Some(r) = nth(y, k) { return Some(r); } } None }
            V::Union(_, x) => nth(x, k),
            _ => None,
        }
    }
    let n = count(v);
    if n == 0 { return None; }
    let mut k = s.usize(n);
    let at = nth(v, &mut k)?;
    let w = match at { V::Vec(x) => x.iter().map(|e| e.nodes()).max().unwrap_or(1).max(1), _ => 1 };
    let lens: Vec<usize> = LARGE.iter().copied().filter(|l| l * w <= cap).collect();
    if lens.is_empty() { return None; }
    let len = lens[s.usize(lens.len())];
    match at {
        V::Str(x) => {
            let pad = *s.pick(&["x", "ab", "é", "\u{10348}", "\0"]);
            let mut o = std::mem::take(x);
            while o.len() + pad.len() <= len { o.push_str(pad); }
            while o.len() < len { o.push('~'); }
            *x = o;
            Some(("string", len))
        }
        V::Vec(x) => {
            let base = x.len();
            if base > len { return None; }
            for i in base..len { let e = x[i % base].clone(); x.push(e); }
            Some((match x[0] { V::Int(_) | V::F32(_) | V::F64(_) => "vector of scalars", V::Struct(_) => "vector of structs", V::Str(_) => "vector of strings", V::Table(_) => "vector of tables", V::Union(..) => "vector of unions", _ => "vector" }, len))
        }
        _ => None,
    }
}
/// Gives two strings (or byte vectors) of a value nearly the same long content: equal length, one difference.
pub fn twins(s: &mut Src, sch: &Schema, ty: &Ty, v: &mut V) -> bool {
    fn walk(sch: &Schema, ty: &Ty, v: &V, path: &mut Vec<usize>, out: &mut Vec<(bool, Vec<usize>)>) {
        let mut kid = |k: usize, ty: &Ty, v: &V| { path.push(k); walk(sch, ty, v, path, out); path.pop(); };
        match (ty, v) {
            (Ty::Table(t), V::Table(x)) => for (k, (f, y)) in sch.fields(*t).iter().zip(x).enumerate() { kid(k, &f.ty, y); },
            (Ty::Vec(e), V::Vec(_)) if matches!(**e, Ty::Sc(Sc::U8 | Sc::I8)) => out.push((false, path.clone())),
            (Ty::Vec(e), V::Vec(x)) => for (k, y) in x.iter().enumerate() { kid(k, e, y); },
            (Ty::Union(u), V::Union(t, x)) => kid(0, &sch.uvariants(*u)[*t as usize - 1].ty, x),
            (Ty::Str, V::Str(_)) => out.push((true, path.clone())),
            _ => (),
        }
    }
    fn at<'a>(v: &'a mut V, path: &[usize]) -> &'a mut V {
        let Some((k, rest)) = path.split_first() else { return v };
        match v { V::Table(x) | V::Vec(x) => at(&mut x[*k], rest), V::Union(_, x) => at(x, rest), _ => unreachable!() }
    }
    let mut all = vec![];
    walk(sch, ty, v, &mut vec![], &mut all);
    if all.len() < 2 { return false; }
    let n = if s.chance(1, 20) { 65_536 + s.usize(40) } else { *s.pick(&[15usize, 16, 17, 31, 32, 33, 64, 100, 127, 128, 129, 256, 300, 1000, 4096]) };
    let base: Vec<u8> = (0..n).map(|i| b'a' + (i * 7 % 26) as u8).collect();
    for _ in 0..s.range(2, 5) {
        let (string, path) = all[s.usize(all.len())].clone();
        let mut b = base.clone();
        match s.below(7) {
            0 => { let k = s.usize(n); b[k] = b'#'; }
            5 => b.truncate(if n >= 65_536 { n - 65_536 } else if n >= 256 { n - 256 } else { n / 2 }),
            1 => *b.last_mut().unwrap() = b'!',
            2 => b[0] = b'!',
            3 => b[n / 2] = b'!',
            4 => { b.push(b'a'); }
            _ => (),
        }
        *at(v, &path) = if string { V::Str(String::from_utf8(b).unwrap()) } else { V::Vec(b.into_iter().map(|x| V::Int(x as i128)).collect()) };
    }
    true
}
pub const LARGE: [usize; 16] = [127, 128, 129, 255, 256, 257, 1023, 1024, 4095, 4096, 32767, 32768, 65535, 65536, 65537, 70000];
