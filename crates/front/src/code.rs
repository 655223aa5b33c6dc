//! C15: what the generated code depends on, and where doc comments end up.
use crate::run::*;
use crate::sm::*;
use quote::ToTokens;
use std::collections::BTreeMap;
use std::path::PathBuf;
use vmodel::engine::{fail, Fail, Prop};
use vmodel::src_::hash_str;
use vmodel::{ensure, Src};

pub fn rust(d: &planus_types::intermediate::Declarations, all: &dyn Fn() -> String) -> Result<String, Fail> {
    let (r, diag) = captured(|| planus_codegen::generate_rust(d, false));
    match r {
        Err(f) => Err(Fail { sig: f.sig, msg: format!("generate_rust: {}\n{}", f.msg, all()) }),
        Ok(Err(e)) => Err(Fail { sig: "generate_rust-error".into(), msg: format!("generate_rust failed: {e:#}\n{diag}\n{}", all()) }),
        Ok(Ok(t)) => Ok(t),
    }
}
/// drops the source locations quoted in comments
pub fn normal(code: &str) -> String {
    code.lines().map(|l| {
        let t = l.trim_start();
        if t.starts_with("/// * ") { if let Some(i) = l.find(" in the file `") { return &l[..i]; } if t.starts_with("/// * File `") { return "/// * File"; } }
        l
    }).collect::<Vec<_>>().join("\n")
}
pub fn first_diff(a: &str, b: &str) -> String {
    let (mut x, mut y) = (a.lines(), b.lines());
    let mut n = 0;
    loop {
        n += 1;
        match (x.next(), y.next()) {
            (None, None) => return "no difference".into(),
            (p, q) if p == q => {}
            (p, q) => return format!("line {n}: {p:?} against {q:?}"),
        }
    }
}
fn docs_in(attrs: &[syn::Attribute]) -> Vec<String> {
    attrs.iter().filter_map(|a| match &a.meta {
        syn::Meta::NameValue(m) if m.path.is_ident("doc") => match &m.value {
            syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(t), .. }) => Some(t.value()),
            _ => None,
        },
        _ => None,
    }).collect()
}
/// docs without the generated trailer, and the trailer
fn split_docs(d: Vec<String>) -> (Vec<String>, Vec<String>) {
    match d.iter().rposition(|l| l == " Generated from these locations:") {
        Some(i) if i > 0 => (d[..i - 1].to_vec(), d[i + 1..].to_vec()),
        _ => (d, vec![]),
    }
}
pub struct Found { pub docs: Vec<String>, pub trailer: Vec<String>, pub members: Vec<Vec<String>> }
pub struct FoundMod { pub docs: Vec<String>, pub trailer: Vec<String> }
pub fn collect(items: &[syn::Item], out: &mut Vec<Found>, mods: &mut Vec<FoundMod>) {
    for i in items {
        let (attrs, members): (&[syn::Attribute], Vec<Vec<String>>) = match i {
            syn::Item::Mod(m) => {
                let (docs, trailer) = split_docs(docs_in(&m.attrs));
                mods.push(FoundMod { docs, trailer });
                if let Some((_, items)) = &m.content { collect(items, out, mods); }
                continue;
            }
            syn::Item::Struct(s) => (&s.attrs, s.fields.iter().map(|f| docs_in(&f.attrs)).collect()),
            syn::Item::Enum(s) => (&s.attrs, s.variants.iter().map(|f| docs_in(&f.attrs)).collect()),
            _ => continue,
        };
        let (docs, trailer) = split_docs(docs_in(attrs));
        if !trailer.is_empty() { out.push(Found { docs, trailer, members }); }
    }
}
/// module path -> item texts
fn by_module(items: &[syn::Item], at: &str, out: &mut BTreeMap<String, Vec<String>>) {
    let mut v = vec![];
    for i in items {
        match i {
            syn::Item::Mod(m) => if let Some((_, items)) = &m.content { by_module(items, &format!("{at}::{}", m.ident), out); },
            i => v.push(normal_item(i)),
        }
    }
    out.insert(at.to_string(), v);
}
fn normal_item(i: &syn::Item) -> String {
    // source locations are doc attributes: drop those
    struct V;
    let mut i = i.clone();
    let drop_loc = |attrs: &mut Vec<syn::Attribute>| attrs.retain(|a| !docs_in(std::slice::from_ref(a)).iter().any(|d| d.starts_with(" * ")));
    match &mut i { syn::Item::Struct(s) => drop_loc(&mut s.attrs), syn::Item::Enum(s) => drop_loc(&mut s.attrs), _ => {} }
    let _ = V;
    i.to_token_stream().to_string()
}

fn expected_docs(given: &[String]) -> Option<Vec<String>> {
    if given.is_empty() { None } else { Some(given.iter().map(|d| format!(" {d}")).collect()) }
}
fn docs_ok(got: &[String], given: &[String]) -> bool {
    match expected_docs(given) {
        Some(w) => got.iter().map(|l| l.trim_end_matches('\r')).eq(w.iter().map(|l| l.as_str())),
        None => got.len() == 1 && got[0].starts_with(" The "),
    }
}

/// the same schema, spelled differently
fn respell(s: &mut Src, p: &Proj) -> Proj {
    let mut q = p.clone();
    for id in p.ids() {
        let no_ids = |fs: &[Field]| fs.iter().all(|f| f.attrs.iter().all(|a| !matches!(a, Attr::Id(..))));
        let slots = if let Kind::Table(fs) = &p.decl(id).kind { if no_ids(fs) && s.chance(1, 3) { p.slots(id) } else { vec![] } } else { vec![] };
        let d = &mut q.files[id.0].decls[id.1];
        for m in &mut d.meta { if let Attr::ForceAlign(l, n) = m { *l = int_lit(s, *n as i128); } }
        match &mut d.kind {
            Kind::Table(fs) | Kind::Struct(fs) => for (i, f) in fs.iter_mut().enumerate() {
                respell_ty(s, p, id.0, &mut f.ty);
                if let Some(slot) = slots.get(i) { let n = if p.is_union(&f.ty) { slot + 1 } else { *slot }; f.attrs.push(Attr::Id(vec![], n)); }
                s.shuffle(&mut f.attrs);
                for a in &mut f.attrs { match a { Attr::Id(l, n) | Attr::ForceAlign(l, n) => *l = int_lit(s, *n as i128), _ => {} } }
                match &mut f.default {
                    Def::Lit(l, Val::Int(v)) => *l = int_lit(s, *v),
                    Def::Lit(l, Val::Str(v)) => *l = vec![str_lit(s, v)],
                    Def::Lit(l, Val::Tag(v)) => {
                        let Ty::Ref(e, _) = &f.ty else { panic!() };
                        let Kind::Enum { vars, .. } = &p.decl(*e).kind else { panic!() };
                        let n = vars.iter().find(|x| x.value == *v).unwrap().name.clone();
                        *l = if s.bool() && !matches!(n.as_str(), "true" | "false" | "null" | "inf" | "infinity" | "nan" | "NaN") { vec![n] } else { int_lit(s, *v) };
                    }
                    Def::Lit(l, Val::F32(_) | Val::F64(_)) => {
                        let t = l.last_mut().unwrap();
                        if t.contains('.') && !t.contains(['e', 'E', 'x']) {
                            if t.starts_with('.') && s.bool() { t.insert(0, '0'); }
                            if s.bool() { t.push('0'); }
                            if s.chance(1, 3) { t.push_str("e+00"); }
                        }
                    }
                    d @ Def::None => if let Ty::Sc(sc, _) = &f.ty { if *sc != vmodel::schema::Sc::Bool && sc.range() != (0, 0) && !matches!(sc, vmodel::schema::Sc::F32 | vmodel::schema::Sc::F64) && matches!(p.decl(id).kind, Kind::Table(_)) && s.chance(1, 3) { *d = Def::Lit(vec!["0".into()], Val::Int(0)); } },
                    _ => {}
                }
            },
            Kind::Enum { ty, spelling, vars, comma } => {
                *spelling = sc_spelling(s, *ty);
                let mut next = 0;
                for v in vars.iter_mut() {
                    if v.lit.is_some() || s.chance(1, 4) { v.lit = if v.value == next && s.bool() { None } else { Some(int_lit(s, v.value)) }; }
                    next = v.value + 1;
                }
                if !vars.is_empty() { *comma = s.bool(); }
            }
            Kind::Union { vars, comma } => {
                for v in vars.iter_mut() { if v.name.is_some() || !v.docs.is_empty() { respell_ty(s, p, id.0, &mut v.ty); } }
                if !vars.is_empty() { *comma = s.bool(); }
            }
        }
    }
    q
}
fn respell_ty(s: &mut Src, p: &Proj, f: usize, t: &mut Ty) {
    match t {
        Ty::Sc(sc, sp) => *sp = sc_spelling(s, *sc),
        Ty::Vec(t) => respell_ty(s, p, f, t),
        Ty::Ref(id, sp) => { let o = p.spellings(f, *id); if !o.is_empty() { *sp = s.pick(&o).clone(); } }
        Ty::Str => {}
    }
}

pub fn c15() -> Prop {
    Prop::new("C15", 12_000, 250_000,
        "projects with at least two declarations and at least one doc comment, translated in the original and in a rewritten layout with generated code compared",
        |s, st| {
            let mut cfg = Cfg { max_files: 3, max_decls: 4, max_fields: 5, ..Cfg::default() };
            cfg.crlf_docs = true;
            let p = gen(s, &cfg);
            let texts: Vec<String> = p.files.iter().map(|f| layout(s, &f.docs, &f.tokens(), Noise::Plain).text).collect();
            let dir = scratch();
            write(&dir, &p, &texts);
            let paths = roots(&dir, &p);
            let all = || texts_of(&p, &texts);
            let d = accept(&paths, &all)?;
            if let Some(m) = differ(&dump(&d), &expect(&p), &["docs"]) { return fail("docs", format!("{m}\n{}", all())); }
            let code = rust(&d, &all)?;
            // twice the same
            let again = rust(&accept(&paths, &all)?, &all)?;
            ensure!(again == code, "not-deterministic", "two runs differ: {}\n{}", first_diff(&code, &again), all());
            let (dot, diag) = captured(|| (planus_codegen::generate_dot(&d), planus_codegen::generate_dot(&d)));
            let (a, b) = dot.map_err(|f| Fail { sig: f.sig, msg: format!("generate_dot: {}\n{diag}\n{}", f.msg, all()) })?;
            ensure!(a == b, "dot-not-deterministic", "{}\n{}", first_diff(&a, &b), all());
            // docs in the generated code
            let file = syn::parse_file(&code).map_err(|e| Fail { sig: "syntax".into(), msg: format!("generated code does not parse: {e} at {:?}\n{}", e.span().start(), all()) })?;
            check_docs(&p, &dir, &file, &all)?;
            // another layout and spelling
            let q = if s.bool() { respell(s, &p) } else { p.clone() };
            let noise = *s.pick(&[Noise::Space, Noise::Comments, Noise::Comments, Noise::Plain]);
            let texts2: Vec<String> = q.files.iter().map(|f| layout(s, &f.docs, &f.tokens(), noise).text).collect();
            write(&dir, &q, &texts2);
            let mut formatted = false;
            if s.chance(1, 3) {
                formatted = true;
                for f in &q.files {
                    let (r, diag) = captured(|| planus_translation::format_file(&dir.join(&f.path), false));
                    match r {
                        Err(f) => return fail(&f.sig, format!("format_file: {}\n{}", f.msg, texts_of(&q, &texts2))),
                        Ok(None) => return fail("format-rejected", format!("format_file rejects a valid file: {diag}\n{}", texts_of(&q, &texts2))),
                        Ok(Some(t)) => std::fs::write(dir.join(&f.path), t).unwrap(),
                    }
                }
            }
            let both = || format!("{}\nrewritten{}:\n{}", all(), if formatted { " (and then formatted)" } else { "" }, texts_of(&q, &texts2));
            let code2 = rust(&accept(&paths, &both)?, &both)?;
            let (n1, n2) = (normal(&code), normal(&code2).replace("\r\n", "\n"));
            ensure!(n1 == n2, "layout-dependent", "{}\n{}", first_diff(&n1, &n2), both());
            st.class(if formatted { "rewritten and formatted" } else { "rewritten" });
            // something unrelated
            if s.bool() {
                let mut q = p.clone();
                let f = *s.pick(&q.loaded().into_iter().collect::<Vec<_>>());
                let own_ns = s.bool();
                let at = if own_ns { f } else {
                    q.files.push(File { path: "zz/unrelated.fbs".into(), ns: if s.bool() { vec!["zzunrelated".into()] } else { [q.files[f].ns.clone(), vec!["zzunrelated".into()]].concat() }, ..File::default() });
                    let n = q.files.len() - 1;
                    if s.bool() { q.roots.push(n); } else { let text = rel_path(s, &q.files[f].path, "zz/unrelated.fbs"); q.files[f].includes.push(Inc { target: n, text }); }
                    n
                };
                let kind = match s.below(3) {
                    0 => Kind::Enum { ty: vmodel::schema::Sc::U8, spelling: "ubyte".into(), vars: vec![EVar { name: "A".into(), docs: vec![], value: 0, lit: None }], comma: false },
                    1 => Kind::Union { vars: vec![UVar { name: Some("A".into()), docs: vec![], ty: Ty::Str }], comma: true },
                    _ => Kind::Table((0..s.below(4)).map(|i| Field { name: format!("f{i}"), docs: vec![], ty: gen_table_ty(s, &q, at), default: Def::Null, attrs: vec![] }).collect()),
                };
                q.files[at].decls.push(Decl { name: "Zzunrelated".into(), docs: vec![], kind, meta: vec![] });
                let texts3: Vec<String> = q.files.iter().map(|f| layout(s, &f.docs, &f.tokens(), Noise::Plain).text).collect();
                let dir = scratch();
                for f in &q.files { let mut d = PathBuf::from(&f.path); while d.pop() { std::fs::create_dir_all(dir.join(&d).join("zz")).unwrap(); } }
                write(&dir, &q, &texts3);
                let both = || format!("{}\nwith an unrelated declaration:\n{}", all(), texts_of(&q, &texts3));
                let code3 = rust(&accept(&roots(&dir, &q), &both)?, &both)?;
                let file3 = syn::parse_file(&code3).map_err(|e| Fail { sig: "syntax".into(), msg: format!("generated code does not parse: {e}\n{}", both()) })?;
                let (mut m1, mut m3) = (BTreeMap::new(), BTreeMap::new());
                by_module(&file.items, "", &mut m1);
                by_module(&file3.items, "", &mut m3);
                for (m, items) in &m1 {
                    let rest: Vec<&String> = m3.get(m).map(|v| v.iter().filter(|t| !t.contains("Zzunrelated")).collect()).unwrap_or_default();
                    ensure!(rest.iter().copied().eq(items.iter()), "unrelated-declaration-matters", "module {m} changed: {}\n{}",
                        items.iter().zip(&rest).find(|(a, b)| a != *b).map(|(a, b)| format!("{a}\nagainst\n{b}")).unwrap_or("number of items".into()), both());
                }
                st.class("unrelated declaration added");
            }
            let has_docs = p.files.iter().any(|f| !f.docs.is_empty()) || expect(&p).values().any(|m| m["docs"].iter().any(|d| !d.ends_with("[]")));
            if expect(&p).len() >= 2 && has_docs { st.nontrivial(hash_str(&all())); st.sample(both); }
            Ok(())
        })
}
fn check_docs(p: &Proj, dir: &std::path::Path, file: &syn::File, all: &dyn Fn() -> String) -> Result<(), Fail> {
    let (mut found, mut mods) = (vec![], vec![]);
    collect(&file.items, &mut found, &mut mods);
    let loaded = p.loaded();
    let mut used = vec![false; found.len()];
    for id in p.ids() {
        if !loaded.contains(&id.0) { continue; }
        let d = p.decl(id);
        let (kw, given): (&str, Vec<Vec<String>>) = match &d.kind {
            Kind::Table(fs) => ("Table", fs.iter().filter(|f| !f.attrs.iter().any(|a| matches!(a, Attr::Deprecated))).map(|f| f.docs.clone()).collect()),
            Kind::Struct(fs) => ("Struct", fs.iter().map(|f| f.docs.clone()).collect()),
            Kind::Enum { vars, .. } => ("Enum", vars.iter().map(|f| f.docs.clone()).collect()),
            Kind::Union { vars, .. } => ("Union", vars.iter().map(|f| f.docs.clone()).collect()),
        };
        let path = &p.files[id.0].path;
        let _ = dir;
        let is = |t: &str| t.strip_prefix(&format!(" * {kw} `")).and_then(|t| t.split_once('`')).is_some_and(|(n, rest)| n.rsplit('.').next() == Some(d.name.as_str())
            && rest.strip_prefix(" in the file `").and_then(|r| r.rsplit_once(':')).is_some_and(|(f, _)| f == path || f.ends_with(&format!("/{path}"))));
        let c: Vec<usize> = (0..found.len()).filter(|i| found[*i].trailer.iter().any(|t| is(t))).collect();
        ensure!(c.len() == 1, "missing-type", "{kw} {} of {path} is generated {} times\n{}", d.name, c.len(), all());
        let f = &found[c[0]];
        ensure!(!used[c[0]], "shared-type", "{} of {path} shares its type with another declaration\n{}", d.name, all());
        used[c[0]] = true;
        ensure!(docs_ok(&f.docs, &d.docs), "doc-placement", "docs of {} in the generated code: {:?}, written {:?}\n{}", d.name, f.docs, d.docs, all());
        ensure!(f.members.len() == given.len(), "members", "{} has {} generated members, expected {}\n{}", d.name, f.members.len(), given.len(), all());
        for (i, (g, w)) in f.members.iter().zip(&given).enumerate() { ensure!(docs_ok(g, w), "doc-placement", "docs of member {i} of {} in the generated code: {g:?}, written {w:?}\n{}", d.name, all()); }
    }
    ensure!(used.iter().all(|u| *u), "extra-type", "the generated code has types that no declaration asks for\n{}", all());
    // namespaces: the documentation of all files in it, each on its own namespace only
    let mut want: Vec<Vec<String>> = vec![];
    for ns in p.namespaces() {
        let mut lines: Vec<String> = loaded.iter().filter(|f| p.files[**f].ns == ns).flat_map(|f| p.files[*f].docs.iter().map(|d| format!(" {d}"))).collect();
        lines.sort();
        want.push(lines);
    }
    let mut got: Vec<Vec<String>> = mods.iter().filter(|m| !m.trailer.is_empty()).map(|m| {
        let mut l: Vec<String> = m.docs.iter().filter(|d| !d.starts_with(" The root namespace") && !d.starts_with(" The namespace `")).map(|d| d.trim_end_matches('\r').to_string()).collect();
        l.sort();
        l
    }).collect();
    want.sort();
    got.sort();
    ensure!(want == got, "namespace-docs", "docs of namespaces {got:?}, written {want:?}\n{}", all());
    Ok(())
}
