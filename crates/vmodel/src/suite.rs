//! The schemas the runtime checks work on: one hand-written schema with every
//! kind of field, generated ones, and compatible evolutions of some of them.
use crate::schema::*;
use crate::src_::{hash_str, mix, Src};

#[derive(Clone, Debug)]
pub struct Entry {
    pub sch: Schema,
    /// (index of the older version, declaration here -> declaration there)
    pub older: Option<(usize, Vec<Option<usize>>)>,
}

fn fld(name: &str, ty: Ty, mode: Mode, explicit: bool) -> Field { Field { name: name.into(), ty, mode, deprecated: false, id: None, explicit, falign: None, doc: vec![] } }
fn vec_of(t: Ty) -> Ty { Ty::Vec(Box::new(t)) }

/// every element type, every mode
pub fn handmade() -> Schema {
    let mut d: Vec<Decl> = vec![];
    let ns: Vec<String> = vec!["hm".into()];
    let mut add = |name: &str, kind: Kind| { d.push(Decl { ns: ns.clone(), name: name.into(), kind, doc: vec![] }); d.len() - 1 };
    let ev = |l: &[(&str, i128)]| l.iter().map(|(n, v)| EVariant { name: n.to_string(), value: *v, explicit: true, doc: vec![] }).collect::<Vec<_>>();
    let e8 = add("Ea", Kind::Enum { ty: Sc::U8, variants: ev(&[("Zero", 0), ("One", 1), ("Last", 255)]) });
    let e16 = add("Eb", Kind::Enum { ty: Sc::I16, variants: ev(&[("Low", -32768), ("Neg", -1), ("High", 32767)]) });
    let e64 = add("Ec", Kind::Enum { ty: Sc::U64, variants: ev(&[("Big", u64::MAX as i128), ("Nil", 0), ("Mid", 1 << 40)]) });
    let ei8 = add("Ed", Kind::Enum { ty: Sc::I8, variants: ev(&[("Min", -128), ("Max", 127), ("Nul", 0)]) });
    let sf = |l: Vec<(&str, Ty)>| l.into_iter().map(|(n, ty)| SField { name: n.into(), ty, doc: vec![] }).collect::<Vec<_>>();
    let one = add("Sone", Kind::Struct { fields: sf(vec![("x", Ty::Sc(Sc::U8))]), force_align: None });
    let three = add("Sthree", Kind::Struct { fields: sf(vec![("x", Ty::Sc(Sc::I8)), ("y", Ty::Sc(Sc::Bool)), ("z", Ty::Sc(Sc::U8))]), force_align: None });
    let gaps = add("Sgaps", Kind::Struct { fields: sf(vec![("a", Ty::Sc(Sc::U8)), ("b", Ty::Sc(Sc::F64)), ("c", Ty::Sc(Sc::I16)), ("d", Ty::Sc(Sc::U32)), ("e", Ty::Sc(Sc::Bool))]), force_align: None });
    let pt = add("Spoint", Kind::Struct { fields: sf(vec![("x", Ty::Sc(Sc::F32)), ("y", Ty::Sc(Sc::F32))]), force_align: None });
    let ens = add("Senum", Kind::Struct { fields: sf(vec![("k", Ty::Enum(e8)), ("v", Ty::Sc(Sc::I64)), ("m", Ty::Enum(e16)), ("p", Ty::Struct(three))]), force_align: None });
    let nest = add("Snest", Kind::Struct { fields: sf(vec![("a", Ty::Struct(one)), ("g", Ty::Struct(gaps)), ("n", Ty::Struct(ens)), ("u", Ty::Sc(Sc::U16))]), force_align: None });
    let al = add("Salign", Kind::Struct { fields: sf(vec![("a", Ty::Sc(Sc::U8)), ("b", Ty::Sc(Sc::U16))]), force_align: Some(16) });
    let ints = add("Sints", Kind::Struct { fields: sf(vec![("a", Ty::Sc(Sc::U64)), ("b", Ty::Sc(Sc::I32)), ("c", Ty::Sc(Sc::U16)), ("d", Ty::Struct(three))]), force_align: None });
    let t_empty = add("Tempty", Kind::Table { fields: vec![] });
    let t_leaf = add("Tleaf", Kind::Table { fields: vec![fld("id", Ty::Sc(Sc::U32), Mode::Default(V::Int(7)), true), fld("name", Ty::Str, Mode::Optional, false)] });
    let un = add("Umix", Kind::Union { variants: vec![
        Variant { name: None, ty: Ty::Table(t_leaf), doc: vec![] },
        Variant { name: None, ty: Ty::Struct(gaps), doc: vec![] },
        Variant { name: Some("Text".into()), ty: Ty::Str, doc: vec![] },
        Variant { name: Some("Tiny".into()), ty: Ty::Struct(one), doc: vec![] },
        Variant { name: Some("Again".into()), ty: Ty::Table(t_leaf), doc: vec![] },
        Variant { name: Some("Nothing".into()), ty: Ty::Table(t_empty), doc: vec![] },
    ] });
    let elems: Vec<(&str, Ty)> = vec![
        ("bo", Ty::Sc(Sc::Bool)), ("i8", Ty::Sc(Sc::I8)), ("u8", Ty::Sc(Sc::U8)), ("i16", Ty::Sc(Sc::I16)), ("u16", Ty::Sc(Sc::U16)), ("i32", Ty::Sc(Sc::I32)), ("u32", Ty::Sc(Sc::U32)),
        ("i64", Ty::Sc(Sc::I64)), ("u64", Ty::Sc(Sc::U64)), ("f32", Ty::Sc(Sc::F32)), ("f64", Ty::Sc(Sc::F64)),
        ("ea", Ty::Enum(e8)), ("eb", Ty::Enum(e16)), ("ec", Ty::Enum(e64)), ("ed", Ty::Enum(ei8)),
        ("sone", Ty::Struct(one)), ("sthree", Ty::Struct(three)), ("sgaps", Ty::Struct(gaps)), ("spoint", Ty::Struct(pt)), ("senum", Ty::Struct(ens)), ("snest", Ty::Struct(nest)), ("salign", Ty::Struct(al)), ("sints", Ty::Struct(ints)),
        ("str", Ty::Str), ("leaf", Ty::Table(t_leaf)), ("none", Ty::Table(t_empty)), ("uni", Ty::Union(un)),
    ];
    let implicit: Vec<(&str, Ty, V)> = elems.iter().filter_map(|(n, t)| match t {
        Ty::Sc(Sc::F32) => Some((*n, t.clone(), V::f32(0.0))),
        Ty::Sc(Sc::F64) => Some((*n, t.clone(), V::f64(0.0))),
        Ty::Sc(_) => Some((*n, t.clone(), V::Int(0))),
        Ty::Enum(e) if *e != e16 => Some((*n, t.clone(), V::Int(0))),
        _ => None,
    }).collect();
    add("Tzero", Kind::Table { fields: implicit.iter().map(|(n, t, v)| fld(&format!("a_{n}"), t.clone(), Mode::Default(v.clone()), false)).collect() });
    let defs: Vec<Field> = elems.iter().filter_map(|(n, t)| {
        let v = match t {
            Ty::Sc(Sc::Bool) => V::Int(1),
            Ty::Sc(Sc::I8) => V::Int(-128),
            Ty::Sc(Sc::U8) => V::Int(255),
            Ty::Sc(Sc::I16) => V::Int(-5),
            Ty::Sc(Sc::I64) => V::Int(i64::MIN as i128),
            Ty::Sc(Sc::U64) => V::Int(u64::MAX as i128),
            Ty::Sc(Sc::F32) => V::f32(0.1),
            Ty::Sc(Sc::F64) => V::f64(1e300),
            Ty::Sc(_) => V::Int(1000),
            Ty::Enum(e) => V::Int(if *e == e8 { 255 } else if *e == e16 { -1 } else if *e == e64 { u64::MAX as i128 } else { -128 }),
            Ty::Str => V::Str("déf \"x\"".into()),
            _ => return None,
        };
        Some(fld(&format!("d_{n}"), t.clone(), Mode::Default(v), true))
    }).chain([fld("d_vec", vec_of(Ty::Sc(Sc::U32)), Mode::Default(V::Vec(vec![])), true), fld("d_vstr", vec_of(Ty::Str), Mode::Default(V::Vec(vec![])), true), fld("d_vtab", vec_of(Ty::Table(t_leaf)), Mode::Default(V::Vec(vec![])), true), fld("d_estr", Ty::Str, Mode::Default(V::Str(String::new())), true), fld("d_vuni", vec_of(Ty::Union(un)), Mode::Default(V::Vec(vec![])), true)]).collect();
    add("Tdefs", Kind::Table { fields: defs });
    add("Topts", Kind::Table { fields: elems.iter().map(|(n, t)| fld(&format!("o_{n}"), t.clone(), Mode::Optional, true)).collect() });
    add("Tvecs", Kind::Table { fields: elems.iter().map(|(n, t)| fld(&format!("v_{n}"), vec_of(t.clone()), Mode::Optional, false)).collect() });
    add("Treqs", Kind::Table { fields: elems.iter().filter(|(_, t)| !matches!(t, Ty::Sc(_) | Ty::Enum(_))).map(|(n, t)| fld(&format!("r_{n}"), t.clone(), Mode::Required, false)).collect() });
    add("Tvreq", Kind::Table { fields: elems.iter().enumerate().filter(|(k, _)| k % 2 == 0).map(|(_, (n, t))| fld(&format!("w_{n}"), vec_of(t.clone()), Mode::Required, false)).collect() });
    // a recursive table
    let rec = add("Trec", Kind::Table { fields: vec![] });
    let blob = add("Tblob", Kind::Table { fields: vec![] });
    if let Kind::Table { fields } = &mut d[rec].kind {
        *fields = vec![
            fld("val", Ty::Sc(Sc::I32), Mode::Default(V::Int(0)), false),
            fld("next", Ty::Table(rec), Mode::Optional, false),
            fld("kids", vec_of(Ty::Table(rec)), Mode::Optional, false),
            fld("pay", Ty::Union(un), Mode::Optional, false),
            fld("tag", Ty::Str, Mode::Optional, false),
        ];
    }
    // strings and byte vectors, which go through the deduplication caches
    if let Kind::Table { fields } = &mut d[blob].kind {
        *fields = vec![
            fld("b", vec_of(Ty::Sc(Sc::U8)), Mode::Optional, false),
            fld("c", vec_of(Ty::Sc(Sc::I8)), Mode::Optional, false),
            fld("s", Ty::Str, Mode::Optional, false),
            fld("l", vec_of(Ty::Str), Mode::Optional, false),
            fld("k", vec_of(Ty::Table(blob)), Mode::Optional, false),
            fld("n", Ty::Sc(Sc::U16), Mode::Optional, true),
        ];
    }
    // explicit ids in scrambled order, with unions and deprecated fields
    let ids: Vec<(&str, Ty, Mode, bool, u32)> = vec![
        ("p", Ty::Sc(Sc::U8), Mode::Default(V::Int(0)), false, 6),
        ("q", Ty::Union(un), Mode::Optional, false, 2),
        ("r", Ty::Sc(Sc::I64), Mode::Optional, false, 0),
        ("s", vec_of(Ty::Union(un)), Mode::Optional, false, 5),
        ("t", Ty::Str, Mode::Optional, true, 3),
        ("u", Ty::Struct(gaps), Mode::Optional, false, 7),
        ("v", Ty::Sc(Sc::U16), Mode::Default(V::Int(9)), true, 8),
        ("w", Ty::Enum(e16), Mode::Default(V::Int(-1)), false, 9),
    ];
    let mut d2 = d;
    d2.push(Decl { ns: ns.clone(), name: "Tids".into(), doc: vec![], kind: Kind::Table { fields: ids.into_iter().map(|(n, ty, mode, deprecated, id)| Field { name: n.into(), explicit: true, ty, mode, deprecated, id: Some(id), falign: None, doc: vec![] }).collect() } });
    // fields with forced alignments, which are not multiples of the sizes of the fields
    let fa = |name: &str, ty: Ty, mode: Mode, a: Option<u32>| Field { falign: a, ..fld(name, ty, mode, true) };
    d2.push(Decl { ns: ns.clone(), name: "Tforce".into(), doc: vec![], kind: Kind::Table { fields: vec![
        fa("b", Ty::Sc(Sc::U8), Mode::Optional, Some(8)),
        fa("c", Ty::Sc(Sc::U8), Mode::Optional, None),
        fa("s", Ty::Struct(one), Mode::Optional, Some(16)),
        fa("v", vec_of(Ty::Sc(Sc::U8)), Mode::Optional, Some(16)),
        fa("t", Ty::Str, Mode::Optional, Some(8)),
        fa("l", Ty::Sc(Sc::U64), Mode::Default(V::Int(3)), None),
        fa("h", Ty::Sc(Sc::U16), Mode::Optional, Some(2)),
        fa("u", Ty::Union(un), Mode::Optional, Some(8)),
        fa("w", vec_of(Ty::Union(un)), Mode::Optional, Some(16)),
        fa("i", Ty::Sc(Sc::I32), Mode::Optional, Some(4)),
        fa("e", Ty::Enum(e16), Mode::Optional, Some(4)),
        fa("g", Ty::Struct(gaps), Mode::Optional, Some(16)),
        fa("k", Ty::Table(t_leaf), Mode::Optional, Some(32)),
        fa("p", Ty::Sc(Sc::Bool), Mode::Optional, Some(2)),
    ] } });
    Schema { decls: d2 }
}

/// counts beyond what a byte can hold: slots, enum variants, union variants, struct members
pub fn wide() -> Schema {
    let mut d: Vec<Decl> = vec![];
    let ns: Vec<String> = vec!["wd".into()];
    let mut add = |name: &str, kind: Kind| { d.push(Decl { ns: ns.clone(), name: name.into(), kind, doc: vec![] }); d.len() - 1 };
    let e = add("Emany", Kind::Enum { ty: Sc::I16, variants: (0..300).map(|k| EVariant { name: format!("N{k}"), value: k * 3 - 200, explicit: true, doc: vec![] }).collect() });
    let e8 = add("Efull", Kind::Enum { ty: Sc::U8, variants: (0..256).map(|k| EVariant { name: format!("B{k}"), value: k, explicit: k % 5 == 0, doc: vec![] }).collect() });
    let sc = |k: usize| match k % 5 { 0 => Ty::Sc(Sc::U8), 1 => Ty::Sc(Sc::I32), 2 => Ty::Enum(e), 3 => Ty::Sc(Sc::F64), _ => Ty::Sc(Sc::U16) };
    let st = add("Slong", Kind::Struct { fields: (0..48).map(|k| SField { name: format!("m{k}"), ty: sc(k), doc: vec![] }).collect(), force_align: None });
    let st2 = add("Stwice", Kind::Struct { fields: (0..3).map(|k| SField { name: format!("m{k}"), ty: if k == 1 { Ty::Enum(e8) } else { Ty::Struct(st) }, doc: vec![] }).collect(), force_align: None });
    let leaf = add("Twleaf", Kind::Table { fields: vec![fld("id", Ty::Sc(Sc::U16), Mode::Default(V::Int(300)), true)] });
    let u = add("Umany", Kind::Union { variants: (0..255).map(|k| Variant { name: Some(format!("M{k}")), ty: match k % 4 { 0 => Ty::Str, 1 => Ty::Struct(st2), 2 => Ty::Struct(st), _ => Ty::Table(leaf) }, doc: vec![] }).collect() });
    add("Twide", Kind::Table { fields: (0..136).map(|k| {
        let n = format!("f{k}");
        match k % 17 {
            0 => fld(&n, Ty::Str, if k == 0 { Mode::Required } else { Mode::Optional }, false),
            3 => fld(&n, Ty::Enum(e), Mode::Default(V::Int(-200 + 3 * k as i128)), true),
            5 => fld(&n, Ty::Union(u), Mode::Optional, false),
            7 => fld(&n, Ty::Sc(Sc::U64), Mode::Default(V::Int(k as i128)), true),
            8 => fld(&n, Ty::Struct(st), Mode::Optional, false),
            11 => fld(&n, vec_of(Ty::Enum(e8)), Mode::Optional, false),
            13 => fld(&n, Ty::Enum(e8), Mode::Optional, true),
            15 => fld(&n, vec_of(Ty::Union(u)), Mode::Optional, false),
            16 => fld(&n, Ty::Sc(Sc::F32), Mode::Default(V::f32(k as f32)), true),
            _ => fld(&n, Ty::Sc(Sc::U8), if k % 2 == 0 { Mode::Default(V::Int(0)) } else { Mode::Optional }, k % 2 == 1),
        }
    }).collect() });
    Schema { decls: d }
}

fn perm_ty(ty: &Ty, new_of: &[usize]) -> Ty {
    match ty {
        Ty::Enum(i) => Ty::Enum(new_of[*i]),
        Ty::Struct(i) => Ty::Struct(new_of[*i]),
        Ty::Table(i) => Ty::Table(new_of[*i]),
        Ty::Union(i) => Ty::Union(new_of[*i]),
        Ty::Vec(t) => Ty::Vec(Box::new(perm_ty(t, new_of))),
        t => t.clone(),
    }
}

/// A compatible later version; returns the map new declaration -> old declaration.
pub fn evolve(s: &mut Src, old: &Schema) -> (Schema, Vec<Option<usize>>) {
    let mut n = old.clone();
    let cnt = n.decls.len();
    let tables = n.tables();
    let structs: Vec<usize> = (0..cnt).filter(|i| matches!(n.decls[*i].kind, Kind::Struct { .. })).collect();
    // new declarations
    let last_ns = n.decls[cnt - 1].ns.clone();
    let newt = cnt;
    n.decls.push(Decl { ns: last_ns, name: format!("Tnew{cnt}"), doc: vec![], kind: Kind::Table { fields: vec![fld("nx", Ty::Sc(Sc::U16), Mode::Default(V::Int(3)), true), fld("ny", Ty::Str, Mode::Optional, false)] } });
    for i in 0..cnt {
        if s.chance(1, 3) { let nm = n.decls[i].name.to_lowercase(); n.decls[i].name = format!("R{nm}"); }
        match &mut n.decls[i].kind {
            Kind::Enum { ty, variants } => {
                for _ in 0..s.below(3) {
                    let (lo, hi) = ty.range();
                    let v = s.int(lo, hi);
                    if variants.iter().all(|x| x.value != v) { let k = variants.len(); variants.push(EVariant { name: format!("Vn{k}"), value: v, explicit: true, doc: vec![] }); }
                }
            }
            Kind::Union { variants } => {
                for _ in 0..s.below(3) {
                    if variants.len() == 255 { break; }
                    let k = variants.len();
                    let ty = match s.below(4) { 0 => Ty::Str, 1 if !structs.is_empty() => Ty::Struct(structs[s.usize(structs.len())]), 2 => Ty::Table(newt), _ => Ty::Table(tables[s.usize(tables.len())]) };
                    variants.push(Variant { name: Some(format!("Nw{k}")), ty, doc: vec![] });
                }
                // the derived names of variants must survive a rename of their type
            }
            Kind::Table { .. } => {}
            Kind::Struct { fields, .. } => { if s.chance(1, 3) { for f in fields.iter_mut() { f.name = format!("m_{}", f.name); } } }
        }
    }
    let unions: Vec<usize> = (0..cnt).filter(|i| matches!(n.decls[*i].kind, Kind::Union { .. })).collect();
    let enums: Vec<usize> = (0..cnt).filter(|i| matches!(n.decls[*i].kind, Kind::Enum { .. })).collect();
    for &t in &tables {
        let mut fields = old.fields(t).to_vec();
        let explicit_ids = fields.iter().any(|f| f.id.is_some());
        for f in fields.iter_mut() {
            if s.chance(1, 4) { f.name = format!("{}_r", f.name); }
            if f.mode != Mode::Required && s.chance(1, 6) { f.deprecated = true; }
        }
        let mut next = fields.iter().zip(old.slots(t)).map(|(f, k)| k + if Schema::two_slots(&f.ty) { 2 } else { 1 }).max().unwrap_or(0) as u32;
        for j in 0..s.below(4) {
            let (ty, mode) = match s.below(9) {
                0 => (Ty::Sc(Sc::U64), Mode::Default(V::Int(1 << 50))),
                1 => (Ty::Sc(Sc::I8), Mode::Default(V::Int(-7))),
                2 => (Ty::Sc(Sc::F32), Mode::Optional),
                3 => (Ty::Str, if s.bool() { Mode::Optional } else { Mode::Default(V::Str("new".into())) }),
                4 => (vec_of(Ty::Sc(Sc::I32)), if s.bool() { Mode::Optional } else { Mode::Default(V::Vec(vec![])) }),
                5 => (Ty::Table(newt), Mode::Optional),
                6 if !unions.is_empty() => (Ty::Union(unions[s.usize(unions.len())]), Mode::Optional),
                7 if !unions.is_empty() => (vec_of(Ty::Union(unions[s.usize(unions.len())])), Mode::Optional),
                8 if !enums.is_empty() => (Ty::Enum(enums[s.usize(enums.len())]), Mode::Optional),
                _ if !structs.is_empty() => (Ty::Struct(structs[s.usize(structs.len())]), Mode::Optional),
                _ => (Ty::Sc(Sc::Bool), Mode::Default(V::Int(1))),
            };
            let two = Schema::two_slots(&ty) as u32;
            let mut f = fld(&format!("zn{j}"), ty, mode, true);
            if explicit_ids { f.id = Some(next + two); }
            next += 1 + two;
            if explicit_ids { let at = s.usize(fields.len() + 1); fields.insert(at, f) } else { fields.push(f) }
        }
        if explicit_ids || (!fields.is_empty() && s.chance(1, 3)) {
            // ids spelled out allow any declaration order
            if !explicit_ids {
                let mut k = 0u32;
                for f in fields.iter_mut() { let two = Schema::two_slots(&f.ty) as u32; f.id = Some(k + two); k += 1 + two; }
            }
            s.shuffle(&mut fields);
        }
        n.decls[t].kind = Kind::Table { fields };
    }
    // declaration order: declarations outside of any namespace have to come first
    let total = n.decls.len();
    let mut order: Vec<usize> = (0..total).collect();
    s.shuffle(&mut order);
    order.sort_by_key(|i| !n.decls[*i].ns.is_empty());
    let mut new_of = vec![0usize; total];
    for (k, o) in order.iter().enumerate() { new_of[*o] = k; }
    let mut out = Schema::default();
    for &o in &order {
        let mut d = n.decls[o].clone();
        match &mut d.kind {
            Kind::Struct { fields, .. } => for f in fields { f.ty = perm_ty(&f.ty, &new_of); },
            Kind::Table { fields } => for f in fields { f.ty = perm_ty(&f.ty, &new_of); },
            Kind::Union { variants } => for v in variants { v.ty = perm_ty(&v.ty, &new_of); },
            Kind::Enum { .. } => {}
        }
        out.decls.push(d);
    }
    let map = order.iter().map(|o| if *o < cnt { Some(*o) } else { None }).collect();
    (out, map)
}

/// What a reader sees of a value that was written: floats equal to their default are elided.
pub fn written(sch: &Schema, ty: &Ty, v: &V) -> V {
    match (ty, v) {
        (Ty::Struct(_), v) => v.clone(),
        (Ty::Table(t), V::Table(x)) => V::Table(sch.fields(*t).iter().zip(x).map(|(f, v)| match (&f.mode, v) {
            (Mode::Default(V::F32(d)), V::F32(b)) if f32::from_bits(*d) == f32::from_bits(*b) => V::F32(*d),
            (Mode::Default(V::F64(d)), V::F64(b)) if f64::from_bits(*d) == f64::from_bits(*b) => V::F64(*d),
            _ => written(sch, &f.ty, v),
        }).collect()),
        (Ty::Union(u), V::Union(t, x)) => V::Union(*t, Box::new(written(sch, &sch.uvariants(*u)[*t as usize - 1].ty, x))),
        (Ty::Vec(e), V::Vec(x)) => V::Vec(x.iter().map(|v| written(sch, e, v)).collect()),
        (_, v) => v.clone(),
    }
}

/// What a reader of schema `r` sees of the value `v` of type `wt` of schema `w`.
/// `to`: declaration of the reader -> declaration of the writer.
pub struct Project<'a> { pub w: &'a Schema, pub r: &'a Schema }
impl Project<'_> {
    pub fn ty(&self, wt: &Ty, rt: &Ty, v: &V) -> V {
        match (wt, rt, v) {
            (_, _, V::Null) => V::Null,
            (Ty::Enum(_), Ty::Enum(e), V::Int(i)) => if self.r.enum_(*e).1.iter().any(|x| x.value == *i) { v.clone() } else { V::Err(ErrInfo { kind: "UnknownEnumTag".into(), detail: i.to_string(), ..Default::default() }) },
            (Ty::Struct(a), Ty::Struct(b), V::Struct(x)) => V::Struct(self.w.sfields(*a).iter().zip(self.r.sfields(*b)).zip(x).map(|((f, g), v)| self.ty(&f.ty, &g.ty, v)).collect()),
            (Ty::Vec(a), Ty::Vec(b), V::Vec(x)) => V::Vec(x.iter().map(|v| self.ty(a, b, v)).collect()),
            (Ty::Union(a), Ty::Union(b), V::Union(t, x)) => {
                let k = *t as usize - 1;
                match self.r.uvariants(*b).get(k) {
                    None => V::Err(ErrInfo { kind: "UnknownUnionTag".into(), detail: t.to_string(), ..Default::default() }),
                    Some(rv) => match self.ty(&self.w.uvariants(*a)[k].ty, &rv.ty, x) { V::Err(e) => V::Err(e), x => V::Union(*t, Box::new(x)) },
                }
            }
            (Ty::Table(a), Ty::Table(b), V::Table(x)) => {
                let (ws, rs) = (self.w.slots(*a), self.r.slots(*b));
                V::Table(self.r.fields(*b).iter().zip(rs).map(|(f, slot)| {
                    if f.deprecated { return V::Null; }
                    let got = ws.iter().position(|k| *k == slot).map(|k| {
                        let wf = &self.w.fields(*a)[k];
                        if wf.deprecated { V::Null } else { self.ty(&wf.ty, &f.ty, &x[k]) }
                    }).unwrap_or(V::Null);
                    if got.is_null() { if let Mode::Default(d) = &f.mode { return d.clone(); } }
                    got
                }).collect())
            }
            (_, _, v) => v.clone(),
        }
    }
}

pub const QUICK_GEN: usize = 7;
pub const THOROUGH_GEN: usize = 30;

/// The schemas of a run.
pub fn suite(seed: u64, thorough: bool) -> Vec<Entry> {
    let mut out: Vec<Entry> = vec![];
    let push = |out: &mut Vec<Entry>, sch: Schema, evolved: bool, s: &mut Src| {
        let k = out.len();
        out.push(Entry { sch: sch.clone(), older: None });
        if evolved {
            let (n, m) = evolve(s, &sch);
            out.push(Entry { sch: n, older: Some((k, m)) });
        }
    };
    let mut s = Src::new(mix(seed ^ hash_str("suite")));
    push(&mut out, handmade(), true, &mut s);
    let n = if thorough { THOROUGH_GEN } else { QUICK_GEN };
    for k in 0..n {
        let mut s = Src::new(mix(seed.wrapping_mul(31) ^ hash_str("suite-gen") ^ ((k as u64) << 8)));
        let o = GenOpts { max_decls: 9, max_fields: 9, ..Default::default() };
        let sch = gen_schema(&mut s, &o);
        push(&mut out, sch, k % 2 == 0, &mut s);
    }
    push(&mut out, wide(), false, &mut Src::new(1));
    out
}
