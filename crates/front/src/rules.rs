//! C13: schemas that obey every rule are accepted, schemas that break exactly
//! one are rejected with an error diagnostic.
use crate::model::bad_literal;
use crate::run::*;
use crate::sm::*;
use vmodel::engine::{fail, Fail, Prop};
use vmodel::schema::Sc;
use vmodel::src_::hash_str;
use vmodel::{ensure, Src};

/// Which option makes the broken schema acceptable again.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Relax { None, Meta, Docs }
pub struct Broken { pub what: &'static str, relax: Relax }
fn broken(what: &'static str) -> Option<Broken> { Some(Broken { what, relax: Relax::None }) }

fn strs(v: &[&str]) -> Vec<String> { v.iter().map(|s| s.to_string()).collect() }
fn fresh(p: &Proj, id: Id) -> String {
    let mut i = 0;
    loop {
        let n = format!("zz{i}");
        let used = match &p.decl(id).kind {
            Kind::Table(f) | Kind::Struct(f) => f.iter().any(|f| f.name == n),
            Kind::Enum { vars, .. } => vars.iter().any(|v| v.name == n),
            Kind::Union { vars, .. } => vars.iter().any(|v| p.uname(v) == n),
        };
        if !used { return n; }
        i += 1;
    }
}
fn fresh_decl(p: &Proj, tag: &str) -> String {
    let mut i = 0;
    loop {
        let n = format!("{tag}{i}");
        if p.files.iter().all(|f| f.decls.iter().all(|d| d.name != n) && !f.ns.contains(&n)) { return n; }
        i += 1;
    }
}
fn fields(p: &mut Proj, id: Id) -> &mut Vec<Field> {
    match &mut p.files[id.0].decls[id.1].kind { Kind::Table(f) | Kind::Struct(f) => f, _ => panic!() }
}
fn has_ids(fs: &[Field]) -> bool { fs.iter().any(|f| f.attrs.iter().any(|a| matches!(a, Attr::Id(..)))) }
/// puts a new field into the table or struct `id` (giving it the next id when the table uses ids)
fn put_field(s: &mut Src, p: &mut Proj, id: Id, ty: Ty, default: Def, mut attrs: Vec<Attr>) {
    let name = fresh(p, id);
    let mut at = 0;
    if let Kind::Table(fs) = &p.decl(id).kind {
        if has_ids(fs) && !attrs.iter().any(|a| matches!(a, Attr::Id(..))) {
            let slots = p.slots(id);
            let next = fs.iter().zip(slots).map(|(f, s)| s + if p.is_union(&f.ty) { 2 } else { 1 }).max().unwrap_or(0);
            let n = if p.is_union(&ty) { next + 1 } else { next };
            attrs.push(Attr::Id(vec![n.to_string()], n));
        }
        at = s.usize(fs.len() + 1);
    } else if let Kind::Struct(fs) = &p.decl(id).kind { at = s.usize(fs.len() + 1); }
    s.shuffle(&mut attrs);
    fields(p, id).insert(at, Field { name, docs: vec![], ty, default, attrs });
}
fn scalar(s: &mut Src) -> Ty { let sc = *s.pick(&SCALARS); Ty::Sc(sc, sc_spelling(s, sc)) }
fn int_ty(s: &mut Src) -> Ty { let sc = *s.pick(&INTS); Ty::Sc(sc, sc_spelling(s, sc)) }
fn raw(text: &[&str]) -> Ty { Ty::Sc(Sc::U8, text.join("")) }
fn find(s: &mut Src, p: &Proj, ok: impl Fn(&Decl) -> bool) -> Option<Id> {
    let loaded = p.loaded();
    let c: Vec<Id> = p.ids().into_iter().filter(|i| loaded.contains(&i.0) && ok(p.decl(*i))).collect();
    if c.is_empty() { None } else { Some(*s.pick(&c)) }
}
fn table(s: &mut Src, p: &Proj) -> Option<Id> { find(s, p, |d| matches!(d.kind, Kind::Table(_))) }
fn strukt(s: &mut Src, p: &Proj) -> Option<Id> { find(s, p, |d| matches!(d.kind, Kind::Struct(_))) }
fn file(s: &mut Src, p: &Proj) -> usize { let l: Vec<usize> = p.loaded().into_iter().collect(); *s.pick(&l) }
fn see(s: &mut Src, p: &Proj, f: usize, ok: impl Fn(&Kind) -> bool) -> Option<Ty> { pick_ref(s, p, f, |p, i| ok(&p.decl(i).kind)) }
/// a type that planus must not accept in a struct
fn bad_struct_ty(s: &mut Src, p: &Proj, f: usize) -> Option<(Ty, &'static str)> {
    Some(match s.below(6) {
        0 => (Ty::Str, "a string in a struct"),
        1 => (Ty::Vec(Box::new(scalar(s))), "a vector in a struct"),
        2 => (see(s, p, f, |k| matches!(k, Kind::Table(_)))?, "a table in a struct"),
        3 => (see(s, p, f, |k| matches!(k, Kind::Union { .. }))?, "a union in a struct"),
        4 => (raw(&["[", "int", ":", "3", "]"]), "an array in a struct"),
        _ => (Ty::Vec(Box::new(Ty::Str)), "a vector in a struct"),
    })
}
/// an attribute planus knows, in a correct form
const KNOWN: &[(&str, &str, bool, bool)] = &[
    // tokens, kind of argument, allowed on table fields, on structs
    ("id", "int", true, false), ("force_align", "int", true, true), ("required", "", true, false), ("deprecated", "", true, false),
    ("bit_flags", "", false, false), ("csharp_partial", "", false, false), ("private", "", false, false), ("original_order", "", false, false),
    ("native_type", "str", false, false), ("native_type_pack_name", "str", false, false), ("key", "", false, false), ("shared", "", false, false),
    ("nested_flatbuffer", "str", false, false), ("hash", "str", false, false), ("cpp_type", "str", false, false), ("cpp_ptr_type", "str", false, false),
    ("cpp_ptr_type_get", "str", false, false), ("cpp_str_type", "str", false, false), ("cpp_str_flex_ctor", "", false, false), ("native_inline", "", false, false),
    ("native_default", "str", false, false), ("flexbuffer", "", false, false), ("streaming", "str", false, false), ("idempotent", "", false, false),
];
fn arg(s: &mut Src, kind: &str) -> Vec<String> {
    match kind { "int" => vec![":".into(), (1u32 << s.below(4)).to_string()], "str" => vec![":".into(), "\"x\"".into()], _ => vec![] }
}
fn known(s: &mut Src, k: &(&str, &str, bool, bool)) -> Attr {
    let mut t = vec![k.0.to_string()];
    t.extend(arg(s, k.1));
    Attr::Raw(t)
}
fn add_attr(s: &mut Src, v: &mut Vec<Attr>, a: Attr) { let at = s.usize(v.len() + 1); v.insert(at, a); }

pub const RULES: usize = 41;
/// breaks rule number `rule` somewhere in `p`
pub fn break_rule(s: &mut Src, p: &mut Proj, rule: usize) -> Option<Broken> {
    match rule {
        0 | 1 => {
            // two members with the same name
            let id = find(s, p, |d| match &d.kind { Kind::Table(f) | Kind::Struct(f) => !f.is_empty(), Kind::Enum { vars, .. } => !vars.is_empty(), Kind::Union { vars, .. } => !vars.is_empty() })?;
            let d = p.decl(id).clone();
            match &d.kind {
                Kind::Table(fs) | Kind::Struct(fs) => {
                    let name = s.pick(fs).name.clone();
                    let ty = if s.bool() { scalar(s) } else { s.pick(fs).ty.clone() };
                    let def = if let Kind::Table(_) = d.kind { if p.is_scalar(&ty) { Def::Null } else { Def::None } } else { Def::None };
                    put_field(s, p, id, ty, def, vec![]);
                    let fs = fields(p, id);
                    let i = fs.iter().position(|f| f.name.starts_with("zz")).unwrap();
                    fs[i].name = name;
                    broken("two fields with one name")
                }
                Kind::Enum { vars, ty, .. } => {
                    let (lo, hi) = ty.range();
                    let v = s.int(lo, hi);
                    if vars.iter().any(|x| x.value == v) { return None; }
                    let name = s.pick(vars).name.clone();
                    let Kind::Enum { vars, .. } = &mut p.files[id.0].decls[id.1].kind else { panic!() };
                    vars.push(EVar { name, docs: vec![], value: v, lit: Some(int_lit(s, v)) });
                    broken("two enum values with one name")
                }
                Kind::Union { vars, .. } => {
                    let v = s.pick(vars).clone();
                    let name = p.uname(&v);
                    let unnamed = v.name.is_none();
                    let ty = if s.bool() { Ty::Str } else { v.ty.clone() };
                    let Kind::Union { vars, .. } = &mut p.files[id.0].decls[id.1].kind else { panic!() };
                    // the derived name of a variant with a qualified type can still be changed
                    let plain = matches!(&v.ty, Ty::Ref(_, sp) if sp.len() == 1);
                    let at = s.usize(vars.len() + 1);
                    if unnamed && (!plain || s.bool()) { vars.insert(at, v); return broken("the same type twice in a union"); }
                    vars.insert(at, UVar { name: Some(name), docs: vec![], ty });
                    broken("two union variants with one name")
                }
            }
        }
        2 => {
            let id = find(s, p, |d| matches!(&d.kind, Kind::Enum { vars, .. } if !vars.is_empty()))?;
            let name = fresh(p, id);
            let Kind::Enum { vars, .. } = &mut p.files[id.0].decls[id.1].kind else { panic!() };
            let v = s.pick(vars).value;
            let at = s.usize(vars.len() + 1);
            // the values that follow implicitly get explicit, so that only this one clashes
            if at < vars.len() && vars[at].lit.is_none() { let v = vars[at].value; vars[at].lit = Some(if v < 0 { strs(&["-", &v.unsigned_abs().to_string()]) } else { vec![v.to_string()] }); }
            let lit = if at > 0 && vars[at - 1].value + 1 == v && s.bool() { None } else { Some(int_lit(s, v)) };
            vars.insert(at, EVar { name, docs: vec![], value: v, lit });
            broken("two enum values with one number")
        }
        3 => {
            let id = find(s, p, |d| matches!(&d.kind, Kind::Enum { .. }))?;
            let name = fresh(p, id);
            let Kind::Enum { vars, ty, .. } = &mut p.files[id.0].decls[id.1].kind else { panic!() };
            let (lo, hi) = ty.range();
            if vars.last().is_some_and(|v| v.value == hi) || s.chance(1, 3) {
                if !vars.iter().any(|v| v.value == hi) {
                    let l = int_lit(s, hi);
                    let n2 = format!("{name}_max");
                    vars.push(EVar { name: n2, docs: vec![], value: hi, lit: Some(l) });
                }
                if vars.last().unwrap().value != hi { return None; }
                vars.push(EVar { name, docs: vec![], value: hi + 1, lit: None });
                return broken("an implicit enum value after the largest one");
            }
            let v = if s.bool() { hi + 1 + s.below(300) as i128 } else { lo - 1 - s.below(300) as i128 };
            let lit = int_lit(s, v);
            let at = vars.len();
            vars.insert(at, EVar { name, docs: vec![], value: v, lit: Some(lit) });
            broken("an enum value out of range")
        }
        4 => {
            let id = find(s, p, |d| matches!(&d.kind, Kind::Enum { vars, .. } if !vars.is_empty()))?;
            let Kind::Enum { vars, .. } = &mut p.files[id.0].decls[id.1].kind else { panic!() };
            let i = s.usize(vars.len());
            vars[i].lit = Some(strs(s.pick(&[&["1.0"][..], &["true"], &["\"1\""], &["null"], &["Name"], &["[", "]"], &["-", "inf"]])));
            broken("an enum value that is no integer")
        }
        5 => {
            let id = find(s, p, |d| matches!(&d.kind, Kind::Enum { .. }))?;
            let other = see(s, p, id.0, |k| matches!(k, Kind::Table(_) | Kind::Struct(_)));
            let Kind::Enum { spelling, .. } = &mut p.files[id.0].decls[id.1].kind else { panic!() };
            *spelling = match s.below(5) {
                0 => "".into(), 1 => "bool".into(), 2 => s.pick(&["float", "float64", "string"]).to_string(), 3 => "[int]".into(),
                _ => match other { Some(Ty::Ref(_, sp)) => sp.join("."), _ => "NoSuchType".into() },
            };
            broken("an enum of a type that is no integer")
        }
        6 => {
            let id = find(s, p, |d| matches!(&d.kind, Kind::Table(f) if f.len() >= 2))?;
            let ids = has_ids(fields(p, id));
            let n = fields(p, id).len();
            if ids {
                let i = s.usize(n);
                let a = &mut fields(p, id)[i].attrs;
                a.retain(|a| !matches!(a, Attr::Id(..)));
            } else {
                let i = s.usize(n);
                // id 0 (or 1 for a union) would be right for the first field
                let ty = fields(p, id)[i].ty.clone();
                let u = p.is_union(&ty);
                let v = if u { 1 } else { 0 } + i as u32;
                let l = int_lit(s, v as i128);
                add_attr(s, &mut fields(p, id)[i].attrs, Attr::Id(l, v));
            }
            broken("ids on some fields only")
        }
        7 | 8 => {
            let id = find(s, p, |d| matches!(&d.kind, Kind::Table(f) if !f.is_empty() && has_ids(f)))?;
            let fs = fields(p, id).clone();
            let i = s.usize(fs.len());
            let (old, union) = (p.slots(id)[i], p.is_union(&fs[i].ty));
            let total: u32 = fs.iter().map(|f| if p.is_union(&f.ty) { 2 } else { 1 }).sum();
            let set = |s: &mut Src, p: &mut Proj, v: i128| { let l = int_lit(s, v); for a in &mut fields(p, id)[i].attrs { if let Attr::Id(t, n) = a { *t = l.clone(); *n = v.max(0) as u32; } } };
            match s.below(6) {
                0 => { let k = s_small(s); set(s, p, -1 - k); broken("a negative id") }
                1 => { let k = s_small(s); set(s, p, 65536 + k * 4000); broken("an id that does not fit 16 bits") }
                2 if union => { set(s, p, 0); broken("id 0 for a union") }
                2 | 3 => {
                    // move the field behind all others, leaving a hole
                    let k = 1 + s.below(4) as u32;
                    let slot = total - if union { 2 } else { 1 } + k;
                    if slot <= old { return None; }
                    set(s, p, (slot + union as u32) as i128);
                    broken("a missing id")
                }
                4 => {
                    let other: Vec<u32> = (0..total).filter(|x| *x != old && (!union || *x != old + 1)).collect();
                    if other.is_empty() { return None; }
                    let o = *s.pick(&other);
                    set(s, p, (o + union as u32) as i128);
                    broken("an id used twice")
                }
                _ => {
                    let t = strs(s.pick(&[&["id", ":", "\"0\""][..], &["id", ":", "0.0"], &["id"], &["id", ":", "null"], &["id", ":", "true"], &["id", ":", "zero"]]));
                    for a in &mut fields(p, id)[i].attrs { if let Attr::Id(..) = a { *a = Attr::Raw(t.clone()); } }
                    broken("an id that is no integer")
                }
            }
        }
        9 | 10 => {
            let id = table(s, p)?;
            let ty = gen_table_ty(s, p, id.0);
            let (l, _) = bad_literal(s, p, &ty);
            if let Ty::Ref(e, _) = &ty { if let Kind::Enum { vars, .. } = &p.decl(*e).kind { if vars.iter().any(|v| v.name == l[0]) { return None; } } }
            put_field(s, p, id, ty, Def::Lit(l, Val::EmptyVec), vec![]);
            broken("a default value that does not fit the type")
        }
        11 => {
            let id = strukt(s, p)?;
            let ty = int_ty(s);
            let l = int_lit(s, 0);
            let def = if s.bool() { Def::Lit(l, Val::Int(0)) } else { Def::Null };
            put_field(s, p, id, ty, def, vec![]);
            broken("a default value in a struct")
        }
        12 => { let id = strukt(s, p)?; let (ty, w) = bad_struct_ty(s, p, id.0)?; put_field(s, p, id, ty, Def::None, vec![]); broken(w) }
        13 => {
            // a cycle of structs through one to four new ones, entered from anywhere
            let f = file(s, p);
            let n = 1 + s.usize(4);
            let names: Vec<String> = (0..n).map(|i| format!("{}_{i}", fresh_decl(p, "Cyc"))).collect();
            let mut ds: Vec<Decl> = (0..n).map(|i| {
                let next = vec![names[(i + 1) % n].clone()];
                let mut fs = vec![Field { name: "next".into(), docs: vec![], ty: Ty::Ref((0, 0), next), default: Def::None, attrs: vec![] }];
                if s.bool() { fs.insert(s.usize(2), Field { name: "other".into(), docs: vec![], ty: scalar(s), default: Def::None, attrs: vec![] }); }
                Decl { name: names[i].clone(), docs: vec![], kind: Kind::Struct(fs), meta: vec![] }
            }).collect();
            if s.bool() {
                // a struct that leads into it
                let ty = Ty::Ref((0, 0), vec![s.pick(&names).clone()]);
                ds.push(Decl { name: fresh_decl(p, "Enter"), docs: vec![], kind: Kind::Struct(vec![Field { name: "next".into(), docs: vec![], ty, default: Def::None, attrs: vec![] }]), meta: vec![] });
            }
            s.shuffle(&mut ds);
            for d in ds { let at = p.files[f].decls.len(); p.files[f].decls.insert(at, d); }
            broken("a struct that contains itself")
        }
        14 => { let f = file(s, p); let name = fresh_decl(p, "Empty"); p.files[f].decls.push(Decl { name, docs: vec![], kind: Kind::Struct(vec![]), meta: vec![] }); broken("an empty struct") }
        15 | 16 => {
            // an unknown type anywhere a type can stand
            let n = fresh_decl(p, "Unknown");
            let mut sp = vec![n];
            if s.chance(1, 3) { sp.insert(0, s.pick(&["a", "b", "c", "zzz"]).to_string()); }
            let ty = Ty::Ref((0, 0), sp.clone());
            match s.below(5) {
                0 => { let id = table(s, p)?; put_field(s, p, id, ty, Def::None, vec![]) }
                1 => { let id = table(s, p)?; put_field(s, p, id, Ty::Vec(Box::new(ty)), Def::None, vec![]) }
                2 => { let id = strukt(s, p)?; put_field(s, p, id, ty, Def::None, vec![]) }
                3 => {
                    let id = find(s, p, |d| matches!(d.kind, Kind::Union { .. }))?;
                    let name = fresh(p, id);
                    let name = if s.bool() { Some(name) } else { None };
                    let Kind::Union { vars, .. } = &mut p.files[id.0].decls[id.1].kind else { panic!() };
                    let at = s.usize(vars.len() + 1);
                    vars.insert(at, UVar { name, docs: vec![], ty });
                }
                _ => root_type(s, p, &sp.join("."))?,
            }
            broken("an unknown type")
        }
        17 => {
            let id = table(s, p)?;
            let inner = gen_table_ty(s, p, id.0);
            let (ty, w) = match s.below(4) {
                0 | 1 => (Ty::Vec(Box::new(Ty::Vec(Box::new(match inner { Ty::Vec(t) => *t, t => t })))), "a vector of vectors"),
                2 => (raw(&["[", "ubyte", ":", "16", "]"]), "an array in a table"),
                _ => (raw(&["[[", "float", ":", "2", "]]"]), "a vector of arrays"),
            };
            put_field(s, p, id, ty, Def::None, vec![]);
            broken(w)
        }
        18 | 19 => {
            let id = find(s, p, |d| matches!(d.kind, Kind::Union { .. }))?;
            let mut named = s.bool();
            let (ty, w) = match s.below(7) {
                0 => (see(s, p, id.0, |k| matches!(k, Kind::Enum { .. }))?, "an enum in a union"),
                1 => (see(s, p, id.0, |k| matches!(k, Kind::Union { .. }))?, "a union in a union"),
                2 => { named = true; (scalar(s), "a scalar in a union") }
                3 => { named = true; (Ty::Vec(Box::new(scalar(s))), "a vector in a union") }
                4 => { named = false; (Ty::Str, "an unnamed string in a union") }
                5 => { named = true; (raw(&["[", "ubyte", ":", "16", "]"]), "an array in a union") }
                _ => { named = false; (if s.bool() { scalar(s) } else { Ty::Vec(Box::new(Ty::Str)) }, "an unnamed variant of a type that cannot be in a union") }
            };
            let name = if named { Some(fresh(p, id)) } else { None };
            let Kind::Union { vars, .. } = &mut p.files[id.0].decls[id.1].kind else { panic!() };
            let at = s.usize(vars.len() + 1);
            vars.insert(at, UVar { name, docs: vec![], ty });
            broken(w)
        }
        20 | 21 => {
            // an attribute nobody knows
            let n = *s.pick(&["zzz", "Required", "ids", "force_aligned", "deprecate", "table", "priority"]);
            let mut t = vec![n.to_string()];
            if s.bool() { t.extend(strs(s.pick(&[&[":", "1"][..], &[":", "\"x\""], &[":", "null"], &[":", "-", "1.5"], &[":", "true"]]))); }
            attr_anywhere(s, p, Attr::Raw(t))?;
            Some(Broken { what: "an unknown attribute", relax: Relax::Meta })
        }
        22 | 23 => {
            // an attribute planus knows where it makes no sense or is not supported
            let k = s.pick(KNOWN);
            let a = known(s, k);
            let id = find(s, p, |_| true)?;
            let on_field = s.bool();
            match &mut p.files[id.0].decls[id.1].kind {
                Kind::Table(fs) if on_field && !fs.is_empty() => { if k.2 { return None; } let i = s.usize(fs.len()); add_attr(s, &mut fs[i].attrs, a); }
                Kind::Struct(fs) if on_field && !fs.is_empty() => { let i = s.usize(fs.len()); add_attr(s, &mut fs[i].attrs, a); }
                Kind::Struct(_) => { if k.3 { return None; } let m = &mut p.files[id.0].decls[id.1].meta; add_attr(s, m, a); }
                _ => { let m = &mut p.files[id.0].decls[id.1].meta; add_attr(s, m, a); }
            }
            broken("an attribute that is not supported there")
        }
        24 => {
            // a known attribute with a wrong argument
            let id = table(s, p)?;
            let (n, kind, ..) = *s.pick(KNOWN);
            let mut t = vec![n.to_string()];
            t.extend(strs(match (kind, s.below(3)) { ("int", 0) => &[][..], ("int", 1) => &[":", "'1'"], ("int", _) => &[":", "1.0"],
                ("str", 0) => &[], ("str", 1) => &[":", "1"], ("str", _) => &[":", "null"], (_, 0) => &[":", "1"], (_, 1) => &[":", "\"\""], (_, _) => &[":", "true"] }));
            let ty = scalar(s);
            put_field(s, p, id, ty, Def::None, vec![Attr::Raw(t)]);
            broken("an attribute with a wrong argument")
        }
        25 => {
            // the same attribute twice
            let id = find(s, p, |d| match &d.kind { Kind::Table(fs) => fs.iter().any(|f| !f.attrs.is_empty()), _ => !d.meta.is_empty() })?;
            let d = &mut p.files[id.0].decls[id.1];
            let v = match &mut d.kind { Kind::Table(fs) => { let c: Vec<usize> = (0..fs.len()).filter(|i| !fs[*i].attrs.is_empty()).collect(); let i = *s.pick(&c); &mut fs[i].attrs } _ => &mut d.meta };
            let a = s.pick(v).clone();
            add_attr(s, v, a);
            broken("an attribute twice")
        }
        26 => {
            let id = table(s, p)?;
            let (ty, def, w) = match s.below(4) {
                0 => (scalar(s), Def::None, "required on a scalar"),
                1 => (see(s, p, id.0, |k| matches!(k, Kind::Enum { vars, .. } if vars.iter().any(|v| v.value == 0)))?, Def::None, "required on an enum"),
                2 => (Ty::Str, Def::Lit(vec!["\"x\"".into()], Val::Str("x".into())), "required with a default"),
                _ => (gen_table_ty(s, p, id.0), Def::Null, "required and null"),
            };
            put_field(s, p, id, ty, def, vec![Attr::Required]);
            broken(w)
        }
        27 | 28 => {
            // bad alignments, on a struct or a table field
            let bad = |s: &mut Src, natural: u64| -> Vec<String> {
                match s.below(6) {
                    0 => int_lit(s, 0), 1 => { let v = -1 - s.below(20) as i128; int_lit(s, v) },
                    2 => { let v = *s.pick(&[3i128, 5, 6, 7, 9, 12, 24, 48, 100]); int_lit(s, v) }
                    3 => { let v = (1i128 << 32) << s.below(3); int_lit(s, v) }
                    _ => { if natural <= 1 { int_lit(s, 0) } else { let v = natural as i128 >> (1 + s.below(3)); int_lit(s, v) } }
                }
            };
            if s.bool() {
                let id = strukt(s, p)?;
                p.files[id.0].decls[id.1].meta.clear();
                let al = p.slayout(id).2;
                let l = bad(s, al);
                p.files[id.0].decls[id.1].meta.push(Attr::Raw([strs(&["force_align", ":"]), l].concat()));
            } else {
                let id = table(s, p)?;
                let ty = scalar(s);
                let l = bad(s, p.inline(&ty).1);
                put_field(s, p, id, ty, Def::None, vec![Attr::Raw([strs(&["force_align", ":"]), l].concat())]);
            }
            broken("a bad alignment")
        }
        29 => {
            // enum fields need a value to default to
            let id = table(s, p)?;
            let ty = see(s, p, id.0, |k| matches!(k, Kind::Enum { vars, .. } if vars.iter().all(|v| v.value != 0)))?;
            put_field(s, p, id, ty, Def::None, vec![]);
            broken("an enum field without a default")
        }
        30 => {
            let f = file(s, p);
            if p.files[f].ns.is_empty() { return None; }
            let q = names(&["a", "b"])[..1 + s.usize(2)].to_vec();
            p.files[f].extras.push((0, [tks(&["namespace"]), vec![tk(&q.join("."))], tks(&[";"])].concat()));
            broken("two namespaces")
        }
        31 => {
            let f = file(s, p);
            let n = p.files[f].decls.len();
            let target = p.files[f].path.rsplit('/').next().unwrap().to_string();
            let late = if n > 0 { 1 + s.usize(n) } else { 0 };
            match s.below(3) {
                0 => { if n == 0 || !p.files[f].ns.is_empty() { return None; } p.files[f].extras.push((late, tks(&["namespace", "x", ";"]))); broken("a namespace after a declaration") }
                _ => { if n == 0 && p.files[f].ns.is_empty() { return None; } p.files[f].extras.push((late, tks(&["include", &format!("\"{target}\""), ";"]))); broken("an include after the namespace or a declaration") }
            }
        }
        32 => {
            let f = file(s, p);
            let n = p.files[f].decls.len();
            let (k, a) = *s.pick(&[("file_identifier", "\"ABCD\""), ("file_extension", "\"bin\"")]);
            p.files[f].extras.retain(|(_, t)| t[0].t != k);
            let b = if s.bool() { a.to_string() } else { a.replace("AB", "BA").replace("bin", "dat") };
            let (i, j) = (s.usize(n + 1), s.usize(n + 1));
            p.files[f].extras.push((i, tks(&[k, a, ";"])));
            p.files[f].extras.push((j, tks(&[k, &b, ";"])));
            broken("a repeated file_identifier or file_extension")
        }
        33 => {
            let f = file(s, p);
            let Ty::Ref(_, sp) = see(s, p, f, |k| matches!(k, Kind::Table(_)))? else { panic!() };
            root_type(s, p, "")?;
            let n = p.files[f].decls.len();
            for _ in 0..2 { let at = s.usize(n + 1); p.files[f].extras.push((at, vec![tk("root_type"), tk(&sp.join(".")), tk(";")])); }
            broken("two root types")
        }
        34 => {
            let f = file(s, p);
            let ty = match s.below(3) { 0 => s.pick(&["int", "string", "[ubyte]"]).to_string(), _ => match see(s, p, f, |k| !matches!(k, Kind::Table(_)))? { Ty::Ref(_, sp) => sp.join("."), _ => panic!() } };
            p.files[f].extras.retain(|(_, t)| t[0].t != "root_type");
            let n = p.files[f].decls.len();
            let at = s.usize(n + 1);
            p.files[f].extras.push((at, vec![tk("root_type"), tk(&ty), tk(";")]));
            broken("a root type that is no table")
        }
        35 => {
            let f = file(s, p);
            let n = p.files[f].decls.len();
            let at = s.usize(n + 1);
            match s.below(3) {
                0 => { p.files[f].extras.push((at, tks(&["attribute", s.pick(&["\"priority\"", "priority"]), ";"]))); broken("an attribute declaration (unsupported)") }
                1 => {
                    if n > 0 || !p.files[f].ns.is_empty() { return None; }
                    p.files[f].extras.push((0, tks(&["native_include", "\"x.h\"", ";"])));
                    broken("a native_include (unsupported)")
                }
                _ => {
                    let Ty::Ref(_, sp) = see(s, p, f, |k| matches!(k, Kind::Table(_)))? else { panic!() };
                    let name = fresh_decl(p, "Rpc");
                    let t = sp.join(".");
                    p.files[f].extras.push((at, tks(&["rpc_service", &name, "{", "Get", "(", &t, ")", ":", &t, ";", "}"])));
                    broken("an rpc_service (unsupported)")
                }
            }
        }
        36 => {
            let f = file(s, p);
            let text = s.pick(&["nope.fbs", "d/nope.fbs", "../nope/f0.fbs", "f0", "F0.fbs", ""]).to_string();
            let at = s.usize(p.files[f].includes.len() + 1);
            p.files[f].includes.insert(at, Inc { target: f, text });
            broken("an include of a file that does not exist")
        }
        37 => {
            // a declaration with the path of a namespace
            let nss: Vec<Vec<String>> = p.namespaces().into_iter().filter(|n| !n.is_empty()).collect();
            if nss.is_empty() { return None; }
            let ns = s.pick(&nss).clone();
            let loaded = p.loaded();
            let fs: Vec<usize> = loaded.into_iter().filter(|f| p.files[*f].ns == ns[..ns.len() - 1]).collect();
            if fs.is_empty() { return None; }
            let f = *s.pick(&fs);
            let name = ns.last().unwrap().clone();
            p.files[f].decls.push(Decl { name, docs: vec![], kind: if s.bool() { Kind::Table(vec![]) } else { Kind::Enum { ty: Sc::U8, spelling: "ubyte".into(), vars: vec![EVar { name: "X".into(), docs: vec![], value: 0, lit: None }], comma: false } }, meta: vec![] });
            broken("a declaration with the path of a namespace")
        }
        38 => {
            // more than 255 variants
            let f = file(s, p);
            let name = fresh_decl(p, "Big");
            let n = 256 + s.small(50);
            let vars = (0..n).map(|i| UVar { name: Some(format!("v{i}")), docs: vec![], ty: Ty::Str }).collect();
            p.files[f].decls.push(Decl { name, docs: vec![], kind: Kind::Union { vars, comma: false }, meta: vec![] });
            broken("a union with more than 255 variants")
        }
        39 => {
            // sizes: 2^k bytes by nesting, at least 64 KiB
            let f = file(s, p);
            let base = fresh_decl(p, "Wide");
            let depth = 16 + s.usize(20);
            for i in 0..depth {
                let ty = if i == 0 { Ty::Sc(Sc::U8, "ubyte".into()) } else { Ty::Ref((0, 0), vec![format!("{base}_{}", i - 1)]) };
                let fs = (0..2).map(|j| Field { name: format!("f{j}"), docs: vec![], ty: ty.clone(), default: Def::None, attrs: vec![] }).collect();
                p.files[f].decls.push(Decl { name: format!("{base}_{i}"), docs: vec![], kind: Kind::Struct(fs), meta: vec![] });
            }
            let fs = vec![Field { name: "f".into(), docs: vec![], ty: Ty::Ref((0, 0), vec![format!("{base}_{}", depth - 1)]), default: Def::None, attrs: vec![] }];
            p.files[f].decls.push(Decl { name: format!("{base}_t"), docs: vec![], kind: Kind::Table(fs), meta: vec![] });
            broken("a table field of 64 KiB or more")
        }
        40 => {
            // the name of a declaration again, in the same file or in another one with the same namespace
            let loaded = p.loaded();
            let all: Vec<(usize, usize)> = loaded.iter().flat_map(|f| (0..p.files[*f].decls.len()).map(move |d| (*f, d))).collect();
            if all.is_empty() { return None; }
            let same = |of: usize| -> Vec<usize> { loaded.iter().copied().filter(|f| *f != of && p.files[*f].ns == p.files[of].ns).collect() };
            let shared: Vec<(usize, usize)> = all.iter().copied().filter(|(f, _)| !same(*f).is_empty()).collect();
            let (of, d) = *s.pick(if shared.is_empty() { &all } else { &shared });
            let mut others = same(of);
            if others.is_empty() && s.bool() {
                // a new file, included last
                let dir = p.files[of].path.rsplit_once('/').map(|(d, _)| format!("{d}/")).unwrap_or_default();
                let (ns, g) = (p.files[of].ns.clone(), p.files.len());
                p.files.push(File { path: format!("{dir}dup.fbs"), includes: vec![], ns, docs: vec![], decls: vec![], extras: vec![] });
                p.files[of].includes.push(Inc { target: g, text: "dup.fbs".into() });
                others.push(g);
            }
            let f = if !others.is_empty() && s.chance(3, 4) { *s.pick(&others) } else { of };
            let name = p.files[of].decls[d].name.clone();
            let kind = match s.below(4) {
                0 => Kind::Table(vec![]),
                1 => Kind::Struct(vec![Field { name: "x".into(), docs: vec![], ty: Ty::Sc(Sc::U8, "ubyte".into()), default: Def::None, attrs: vec![] }]),
                2 => Kind::Enum { ty: Sc::U8, spelling: "ubyte".into(), vars: vec![EVar { name: "X".into(), docs: vec![], value: 0, lit: None }], comma: s.bool() },
                _ => p.files[of].decls[d].kind.clone(),
            };
            p.files[f].decls.push(Decl { name, docs: vec![], kind, meta: vec![] });
            broken(if f == of { "two declarations with one name" } else { "two declarations with one name in two files" })
        }
        _ => None,
    }
}
fn s_small(s: &mut Src) -> i128 { s.small(10) as i128 }
/// sets the root type of a random file; empty: only removes all of them
fn root_type(s: &mut Src, p: &mut Proj, ty: &str) -> Option<()> {
    if ty.is_empty() { for f in &mut p.files { f.extras.retain(|(_, t)| t[0].t != "root_type"); } return Some(()); }
    let f = file(s, p);
    p.files[f].extras.retain(|(_, t)| t[0].t != "root_type");
    let n = p.files[f].decls.len();
    let at = s.usize(n + 1);
    p.files[f].extras.push((at, vec![tk("root_type"), tk(ty), tk(";")]));
    Some(())
}
fn attr_anywhere(s: &mut Src, p: &mut Proj, a: Attr) -> Option<()> {
    let id = find(s, p, |_| true)?;
    let on_field = s.chance(2, 3);
    let d = &mut p.files[id.0].decls[id.1];
    match &mut d.kind {
        Kind::Table(fs) | Kind::Struct(fs) if on_field && !fs.is_empty() => { let i = s.usize(fs.len()); add_attr(s, &mut fs[i].attrs, a); }
        _ => add_attr(s, &mut d.meta, a),
    }
    Some(())
}

/// breaks the text: misplaced documentation, missing or stray tokens
pub fn break_text(s: &mut Src, p: &Proj, texts: &mut [String], rule: usize) -> Option<Broken> {
    let f = file(s, p);
    let mut toks = p.files[f].tokens();
    if toks.is_empty() { return None; }
    let mut marked = p.files[f].clone();
    for d in &mut marked.decls {
        let m = || vec!["M".to_string()];
        d.docs = m();
        match &mut d.kind {
            Kind::Table(fs) | Kind::Struct(fs) => for f in fs { f.docs = m(); },
            Kind::Enum { vars, .. } => for v in vars { v.docs = m(); },
            Kind::Union { vars, .. } => for v in vars { v.docs = m(); },
        }
    }
    let slots: Vec<bool> = marked.tokens().iter().map(|t| !t.docs.is_empty()).collect();
    let out = match rule {
        0 => {
            // documentation in front of something that cannot be documented
            let c: Vec<usize> = (0..toks.len()).filter(|i| !slots[*i]).collect();
            if c.is_empty() { return None; }
            let i = *s.pick(&c);
            toks[i].docs.push(" misplaced".into());
            texts[f] = layout(s, &p.files[f].docs, &toks, Noise::Plain).text;
            Some(Broken { what: "misplaced documentation", relax: Relax::Docs })
        }
        1 => {
            texts[f].push_str(if s.bool() { "\n//! late\n" } else { "\n/// late\n" });
            Some(Broken { what: "documentation of nothing at the end of the file", relax: Relax::Docs })
        }
        2 => {
            // a token that cannot be left out
            let c: Vec<usize> = (0..toks.len()).filter(|i| matches!(toks[*i].t.as_str(), ";" | ":" | "{" | "}" | "]" | ")")).collect();
            if c.is_empty() { return None; }
            let i = *s.pick(&c);
            toks.remove(i);
            texts[f] = layout(s, &p.files[f].docs, &toks, Noise::Plain).text;
            broken("a missing token")
        }
        _ => {
            let i = s.usize(toks.len() + 1);
            let t = *s.pick(&["@", "$", "?", "}", ")", ";;", "=", "%", "!", "é", "\"", "\\", "'abc"]);
            if t == ";;" && i == 0 { return None; }
            toks.insert(i, tk(t));
            texts[f] = layout(s, &p.files[f].docs, &toks, Noise::Plain).text;
            broken("a stray token")
        }
    };
    out
}
pub fn c13() -> Prop {
    Prop::new("C13", 280_000, 3_000_000,
        "one rule is broken at a random place of a random project (which is accepted without that change) and the broken project is rejected",
        |s, st| {
            let cfg = Cfg { max_files: 3, max_decls: 5, max_fields: 5, ..Cfg::default() };
            let base = gen(s, &cfg);
            let noise = if s.chance(1, 4) { Noise::Comments } else { Noise::Plain };
            let lay = |s: &mut Src, p: &Proj, noise| -> Vec<String> { p.files.iter().map(|f| layout(s, &f.docs, &f.tokens(), noise).text).collect() };
            let texts = lay(s, &base, noise);
            let dir = scratch();
            write(&dir, &base, &texts);
            let all = || texts_of(&base, &texts);
            let d0 = accept(&roots(&dir, &base), &all)?;
            st.class("valid projects accepted");
            let mut p = base.clone();
            let mut t2;
            let b = if s.chance(1, 8) {
                t2 = lay(s, &p, Noise::Plain);
                let rule = s.usize(4);
                break_text(s, &p, &mut t2, rule)
            } else {
                let rule = s.usize(RULES);
                let b = break_rule(s, &mut p, rule);
                let noise = if s.chance(1, 4) { Noise::Comments } else { Noise::Plain };
                t2 = lay(s, &p, noise);
                b
            };
            let Some(b) = b else { st.exclude("the rule cannot be broken in this project"); return Ok(()) };
            write(&dir, &p, &t2);
            let all = || format!("broken rule: {}\n{}", b.what, texts_of(&p, &t2));
            let paths = roots(&dir, &p);
            for (docs, meta) in [(false, false), (true, false), (false, true)] {
                let (r, diag) = translate(&paths, docs, meta);
                let r = r.map_err(|f| Fail { sig: f.sig, msg: format!("{}\n{}", f.msg, all()) })?;
                let relaxed = (docs && b.relax == Relax::Docs) || (meta && b.relax == Relax::Meta);
                if relaxed {
                    let Some(d) = r else { return fail("rejected-with-option", format!("{} is rejected although the option to ignore it is set:\n{diag}\n{}", b.what, all())) };
                    if let Some(m) = differ(&dump(&d), &dump(&d0), &["types", "layout", "values"]) { return fail("ignored-but-different", format!("{m}\n{}", all())); }
                    continue;
                }
                ensure!(r.is_none(), format!("accepted: {}", b.what), "{} is accepted (options: ignore docs {docs}, ignore metadata {meta})\n{diag}\n{}", b.what, all());
                ensure!(has_error(&diag), "no-diagnostic", "{} is rejected without an error\n{diag}\n{}", b.what, all());
            }
            st.class(b.what);
            st.nontrivial(hash_str(&all()));
            st.sample(all);
            Ok(())
        })
        .probe("file-identifier-length", |_st| {
            let dir = scratch();
            std::fs::write(dir.join("f0.fbs"), "table T {}\nfile_identifier \"ABC\";\n").unwrap();
            let (r, _) = translate(&[dir.join("f0.fbs")], false, false);
            ensure!(r?.is_none(), "file-identifier-length", "file_identifier \"ABC\" (three bytes) is accepted");
            Ok(())
        })        .probe("union-of-types-that-share-a-name", |_st| {
            let dir = scratch();
            std::fs::write(dir.join("f0.fbs"), "namespace a;\ntable T {}\n").unwrap();
            std::fs::write(dir.join("f1.fbs"), "include \"f0.fbs\";\nnamespace b;\ntable T {}\nunion U { T, a.T, T2: string }\n").unwrap();
            let (r, diag) = translate(&[dir.join("f1.fbs")], false, false);
            let Some(d) = r? else { return fail("rejected", diag) };
            let d = dump(&d);
            let n = d["b.U"]["types"].len();
            ensure!(n == 4, "variant-dropped", "a union of b.T, a.T and a string has {} variants", n - 1);
            Ok(())
        })
}
