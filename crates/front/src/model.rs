//! C10, C12, C17: what planus makes of a schema project against the source model.
use crate::run::*;
use crate::sm::*;
use vmodel::engine::{fail, Fail, Prop};
use vmodel::{ensure, Src};
use vmodel::src_::hash_str;

fn lay(s: &mut Src, p: &Proj, noise: Noise) -> Vec<String> {
    p.files.iter().map(|f| layout(s, &f.docs, &f.tokens(), noise).text).collect()
}

pub fn c10() -> Prop {
    Prop::new("C10", 400_000, 6_000_000,
        "projects with at least three declarations, a struct with padding, explicit ids, a union field or an enum with both explicit and implicit values",
        |s, st| {
            let cfg = Cfg { max_files: 2, docs: false, max_decls: 6, max_fields: 9, ..Cfg::default() };
            let p = gen(s, &cfg);
            let texts = lay(s, &p, Noise::Plain);
            let dir = scratch();
            write(&dir, &p, &texts);
            let all = || texts_of(&p, &texts);
            let d = accept(&roots(&dir, &p), &all)?;
            let (got, want) = (dump(&d), expect(&p));
            if let Some(m) = differ(&got, &want, &["types", "layout"]) { return fail("layout", format!("{m}\n{}", all())); }
            let mut hits = 0;
            for id in p.ids() {
                if !p.loaded().contains(&id.0) { continue; }
                match &p.decl(id).kind {
                    Kind::Table(fs) => {
                        st.class("tables");
                        if fs.iter().any(|f| f.attrs.iter().any(|a| matches!(a, Attr::Id(..)))) { st.class("tables with ids"); hits += 1; }
                        if fs.iter().any(|f| p.is_union(&f.ty)) { st.class("tables with unions"); hits += 1; }
                    }
                    Kind::Struct(fs) => {
                        let (_, size, _) = p.slayout(id);
                        st.class("structs");
                        if fs.iter().map(|f| p.inline(&f.ty).0).sum::<u64>() < size { st.class("structs with padding"); hits += 1; }
                        if !p.decl(id).meta.is_empty() { st.class("structs with force_align"); }
                    }
                    Kind::Enum { vars, .. } => { st.class("enums"); if vars.iter().any(|v| v.lit.is_some()) && vars.iter().any(|v| v.lit.is_none()) { st.class("enums with mixed values"); hits += 1; } }
                    Kind::Union { .. } => st.class("unions"),
                }
            }
            if want.len() >= 3 && hits > 0 { st.nontrivial(hash_str(&all())); st.sample(all); }
            Ok(())
        })
}

// ---------------------------------------------------------------- C12
fn tiny_pools() -> Cfg {
    let abc = names(&["a", "b", "c", "A"]);
    Cfg { max_files: 5, max_decls: 3, max_fields: 4, docs: false, extras: false,
        type_names: names(&["A", "B", "C", "a", "b", "T"]), ns_names: abc, ..Cfg::default() }
}
/// an odd spelling of a path relative to the scratch directory
fn odd_root(s: &mut Src, dir: &std::path::Path, rel: &str) -> std::path::PathBuf {
    match s.below(4) {
        0 => dir.join("zz/..").join(rel),
        1 => dir.join("./.").join(rel),
        _ => dir.join(rel),
    }
}
fn add_field(p: &mut Proj, id: Id, ty: Ty) {
    if let Kind::Table(fs) | Kind::Struct(fs) = &mut p.files[id.0].decls[id.1].kind {
        let mut attrs = vec![];
        if fs.iter().any(|f| f.attrs.iter().any(|a| matches!(a, Attr::Id(..)))) {
            // ids must be used by all fields or none: drop them
            for f in fs.iter_mut() { f.attrs.retain(|a| !matches!(a, Attr::Id(..))); }
        }
        attrs.truncate(0);
        fs.push(Field { name: "zz_ref".into(), docs: vec![], ty, default: Def::Null, attrs });
    }
}

pub fn c12() -> Prop {
    Prop::new("C12", 200_000, 3_000_000,
        "at least two files are loaded and some reference is spelled in a way that several namespaces have to be searched for or crosses files, or the injected reference or duplicate must be rejected",
        |s, st| {
            let mut p = gen(s, &tiny_pools());
            let tables: Vec<Id> = p.ids().into_iter().filter(|i| p.loaded().contains(&i.0) && matches!(p.decl(*i).kind, Kind::Table(_))).collect();
            let mut bad: Option<&'static str> = None;
            let mode = s.below(6);
            match mode {
                0 | 1 | 2 => if !tables.is_empty() {
                    // a random spelling in a random table
                    let t = *s.pick(&tables);
                    let pool: Vec<String> = names(&["A", "B", "C", "a", "b", "c", "T", "Q"]);
                    let n = 1 + s.weighted(&[4, 3, 2, 1]);
                    let mut sp: Vec<String> = (0..n).map(|_| s.pick(&pool).clone()).collect();
                    if s.chance(1, 3) {
                        // (a suffix of) the path of something that exists
                        let all_ids = p.ids();
                        let full = p.path(*s.pick(&all_ids));
                        let k = s.usize(full.len());
                        sp = full[k..].to_vec();
                    }
                    if !(sp.len() == 1 && builtin(&sp[0])) {
                        match p.resolve(t.0, &sp) {
                            Some(id) => { add_field(&mut p, t, Ty::Ref(id, sp)); st.class("random spelling that resolves"); }
                            None => { add_field(&mut p, t, Ty::Ref((0, 0), sp)); bad = Some("a reference to something that does not exist or is not included"); }
                        }
                    }
                },
                3 => {
                    // a duplicate of a declaration, in the same file or in another loaded one of the same namespace
                    let ids: Vec<Id> = p.ids().into_iter().filter(|i| p.loaded().contains(&i.0)).collect();
                    if !ids.is_empty() {
                        let d = *s.pick(&ids);
                        let fs: Vec<usize> = p.loaded().into_iter().filter(|f| p.files[*f].ns == p.files[d.0].ns).collect();
                        let f = *s.pick(&fs);
                        let name = p.decl(d).name.clone();
                        let kind = match s.below(4) { 0 => Kind::Table(vec![]), 1 => Kind::Struct(vec![Field { name: "x".into(), docs: vec![], ty: Ty::Sc(vmodel::schema::Sc::I8, "byte".into()), default: Def::None, attrs: vec![] }]),
                            2 => Kind::Enum { ty: vmodel::schema::Sc::U8, spelling: "ubyte".into(), vars: vec![EVar { name: "X".into(), docs: vec![], value: 0, lit: None }], comma: false },
                            _ => Kind::Union { vars: vec![UVar { name: Some("S".into()), docs: vec![], ty: Ty::Str }], comma: false } };
                        p.files[f].decls.push(Decl { name, docs: vec![], kind, meta: vec![] });
                        bad = Some("a duplicate declaration");
                    }
                }
                4 => {
                    // a reference to something of an unsuitable kind
                    let ids: Vec<Id> = p.ids().into_iter().filter(|i| p.loaded().contains(&i.0)).collect();
                    let t = if ids.is_empty() { (0, 0) } else { *s.pick(&ids) };
                    let reach = p.reach(t.0);
                    let want_table = matches!(p.decl(t).kind, Kind::Struct(_));
                    let c: Vec<Id> = p.ids().into_iter().filter(|i| reach.contains(&i.0) && match p.decl(*i).kind {
                        Kind::Table(_) => want_table, Kind::Enum { .. } => matches!(p.decl(t).kind, Kind::Union { .. }), Kind::Union { .. } => true, _ => false }).collect();
                    if !ids.is_empty() && !c.is_empty() && matches!(p.decl(t).kind, Kind::Struct(_) | Kind::Union { .. }) {
                        let id = *s.pick(&c);
                        let sps = p.spellings(t.0, id);
                        if !sps.is_empty() {
                            let ty = Ty::Ref(id, s.pick(&sps).clone());
                            match &mut p.files[t.0].decls[t.1].kind {
                                Kind::Struct(fs) => fs.push(Field { name: "zz_ref".into(), docs: vec![], ty, default: Def::None, attrs: vec![] }),
                                Kind::Union { vars, .. } => vars.push(UVar { name: Some("zz_ref".into()), docs: vec![], ty }),
                                _ => unreachable!(),
                            }
                            bad = Some("a reference to a declaration of an unsuitable kind");
                        }
                    }
                }
                _ => {}
            }
            let texts = lay(s, &p, Noise::Plain);
            let dir = scratch();
            std::fs::create_dir_all(dir.join("zz")).unwrap();
            for f in &p.files { let mut d = std::path::PathBuf::from(&f.path); while d.pop() { std::fs::create_dir_all(dir.join(&d).join("zz")).unwrap(); } }
            write(&dir, &p, &texts);
            let all = || texts_of(&p, &texts);
            let paths: Vec<_> = p.roots.iter().map(|r| odd_root(s, &dir, &p.files[*r].path)).collect();
            let loaded = p.loaded();
            let rs = refs(&p);
            let wide = rs.iter().any(|(f, own, id, sp)| loaded.contains(f) && (id.0 != *f || sp.len() > 1) && own != id);
            if let Some(what) = bad {
                st.class(what);
                let (r, diag) = translate(&paths, false, false);
                let r = r.map_err(|f| Fail { sig: f.sig, msg: format!("{}\n{}", f.msg, all()) })?;
                ensure!(r.is_none(), "accepted", "{what} is accepted\n{diag}\n{}", all());
                ensure!(has_error(&diag), "no-diagnostic", "{what} is rejected without an error\n{diag}\n{}", all());
                st.nontrivial(hash_str(&all())); st.sample(all);
                return Ok(());
            }
            let d = accept(&paths, &all)?;
            let (got, want) = (dump(&d), expect(&p));
            if let Some(m) = differ(&got, &want, &["types"]) { return fail("resolution", format!("{m}\n{}", all())); }
            // the order of the files given does not matter
            let mut q = paths.clone();
            s.shuffle(&mut q);
            let d2 = accept(&q, &all)?;
            if let Some(m) = differ(&dump(&d2), &got, &["types", "layout", "values"]) { return fail("order", format!("files in the order {q:?}: {m}\n{}", all())); }
            // nor does the order of declarations in a file
            let mut texts2 = vec![];
            for f in &p.files {
                let mut order: Vec<usize> = (0..f.decls.len()).collect();
                s.shuffle(&mut order);
                let mut toks = f.head_tokens(|t| format!("\"{t}\""));
                for i in order { decl_tokens(&f.decls[i], &mut toks); }
                texts2.push(layout(s, &f.docs, &toks, Noise::Plain).text);
            }
            write(&dir, &p, &texts2);
            let d3 = accept(&q, &all)?;
            if let Some(m) = differ(&dump(&d3), &got, &["types", "layout", "values"]) { return fail("order", format!("{m}\n{}\nreordered:\n{}", all(), texts_of(&p, &texts2))); }
            if wide { st.class("references across files or namespaces"); }
            if loaded.iter().any(|f| p.files[*f].includes.iter().any(|i| p.reach(i.target).contains(f))) { st.class("include cycles"); }
            if loaded.len() >= 2 && wide { st.nontrivial(hash_str(&all())); st.sample(all); }
            Ok(())
        })
}
/// all references of the project: file, declaration, target, spelling
pub fn refs(p: &Proj) -> Vec<(usize, Id, Id, Vec<String>)> {
    fn walk(f: usize, own: Id, t: &Ty, out: &mut Vec<(usize, Id, Id, Vec<String>)>) {
        match t { Ty::Vec(t) => walk(f, own, t, out), Ty::Ref(id, sp) => out.push((f, own, *id, sp.clone())), _ => {} }
    }
    let mut out = vec![];
    for id in p.ids() {
        match &p.decl(id).kind {
            Kind::Table(fs) | Kind::Struct(fs) => for f in fs { walk(id.0, id, &f.ty, &mut out); },
            Kind::Union { vars, .. } => for v in vars { walk(id.0, id, &v.ty, &mut out); },
            _ => {}
        }
    }
    out
}

// ---------------------------------------------------------------- C17
use vmodel::schema::Sc;
/// a literal that does not fit or does not belong to `ty`
pub fn bad_literal(s: &mut Src, p: &Proj, ty: &Ty) -> (Vec<String>, &'static str) {
    let v1 = |t: &str| vec![t.to_string()];
    let far = |s: &mut Src, lo: i128, hi: i128| -> Vec<String> {
        let k = match s.below(4) { 0 => 1, 1 => 1 + s.below(300) as i128, 2 => 1 + (s.u64() as i128), _ => i64::MAX as i128 * (1 + s.below(1000) as i128) * (1 + s.u64() as i128 % 1000000) };
        // also values that are in range modulo 2^n
        let k = if s.chance(1, 3) { (hi - lo + 1) * (1 + s.below(5) as i128) + s.int(0, (hi - lo).min(1 << 40)) } else { k };
        let v = if s.bool() { hi + k } else { lo - k };
        int_lit(s, v)
    };
    match ty {
        Ty::Sc(Sc::Bool, _) => match s.below(3) { 0 => (v1("\"true\""), "string for a bool"), 1 => (v1("1.0"), "float for a bool"), _ => (v1("[]"), "list for a bool") },
        Ty::Sc(Sc::F32, _) => match s.below(3) { 0 => (v1("3.5e38"), "float out of range"), 1 => (vec!["-".into(), "1e400".into()], "float out of range"), _ => (v1("true"), "bool for a float") },
        Ty::Sc(Sc::F64, _) => match s.below(3) { 0 => (v1("1.8e308"), "float out of range"), 1 => (v1("'1.0'"), "string for a float"), _ => (v1("true"), "bool for a float") },
        Ty::Sc(sc, _) => { let (lo, hi) = sc.range(); match s.weighted(&[6, 1, 1, 1, 1, 1]) {
            0 => (far(s, lo, hi), "integer out of range"), 1 => (v1("1.0"), "float for an integer"), 2 => (v1("true"), "bool for an integer"), 3 => (v1("'1'"), "string for an integer"), 4 => (v1("inf"), "inf for an integer"), _ => (v1("0x_"), "integer without digits") } }
        Ty::Str => match s.below(3) { 0 => (int_lit(s, 5), "integer for a string"), 1 => (v1("true"), "bool for a string"), _ => (v1("Name"), "name for a string") },
        Ty::Vec(_) => match s.below(2) { 0 => (v1("0"), "integer for a vector"), _ => (v1("\"\""), "string for a vector") },
        Ty::Ref(id, _) => match &p.decl(*id).kind {
            Kind::Enum { ty, vars, .. } => {
                let (lo, hi) = ty.range();
                match s.below(4) {
                    0 => (far(s, lo, hi), "integer out of range for an enum"),
                    1 => { let v = s.int(lo, hi); if vars.iter().any(|x| x.value == v) { (v1("NoSuch"), "unknown enum constant") } else { (int_lit(s, v), "integer that is no enum value") } }
                    2 => (v1("NoSuch"), "unknown enum constant"),
                    _ => (v1("1.0"), "float for an enum"),
                }
            }
            _ => (v1("0"), "integer for a table, struct or union"),
        },
    }
}

pub fn c17() -> Prop {
    Prop::new("C17", 320_000, 6_000_000,
        "tables of about 70 literal defaults compiled and run, or schemas with at least four literals (defaults, enum values, ids, alignments), one of them in an unusual spelling (sign, hexadecimal, separators, leading zeros, exponent, escape), or with one literal that must be rejected",
        |s, st| {
            // what generated code makes of literals: see literals()
            if s.chance(1, 4000) { return crate::compile::literals(s, st); }
            let cfg = Cfg { max_files: 1, docs: false, max_decls: 4, max_fields: 12, namespaces: false, extras: false, ..Cfg::default() };
            let mut p = gen(s, &cfg);
            let mut bad = None;
            if s.chance(1, 3) {
                // one literal that cannot mean anything
                let ids = p.ids();
                let id = *s.pick(&ids);
                let q = p.clone();
                match &mut p.files[id.0].decls[id.1].kind {
                    Kind::Table(fs) if !fs.is_empty() => {
                        let f = { let i = s.usize(fs.len()); &mut fs[i] };
                        let (t, what) = bad_literal(s, &q, &f.ty);
                        f.attrs.retain(|a| !matches!(a, Attr::Required));
                        f.default = Def::Lit(t, Val::EmptyVec);
                        bad = Some(what);
                    }
                    Kind::Enum { ty, vars, .. } if !vars.is_empty() => {
                        let (lo, hi) = ty.range();
                        let fake = Ty::Sc(*ty, String::new());
                        match s.below(3) {
                            0 => { let i = s.usize(vars.len()); let (t, what) = bad_literal(s, &q, &fake); vars[i].lit = Some(t); bad = Some(what); }
                            1 => {
                                // the value after the largest one
                                let v = vars.last_mut().unwrap();
                                if !vars_has(&q, id, hi) {
                                    let l = int_lit(s, hi);
                                    v.lit = Some(l);
                                    vars.push(EVar { name: "zz_after".into(), docs: vec![], value: 0, lit: None });
                                    bad = Some("implicit enum value past the largest");
                                }
                            }
                            _ => { let i = s.usize(vars.len()); let v = vars[i].value; let l = int_lit(s, v); vars.push(EVar { name: "zz_dup".into(), docs: vec![], value: v, lit: Some(l) }); bad = Some("repeated enum value"); let _ = lo; }
                        }
                    }
                    Kind::Struct(_) => {
                        let al = q.slayout(id).2;
                        let v: i128 = match s.below(6) { 0 => 0, 1 => -(al as i128), 2 => al as i128 + 1 + 2 * s.below(5) as i128, 3 => 3 * al as i128, 4 => if al > 1 { al as i128 / 2 } else { 0 }, _ => (1i128 << 32) + al as i128 };
                        let l = int_lit(s, v);
                        if !(v > 0 && (v as u128).is_power_of_two() && v >= al as i128) || v > u32::MAX as i128 {
                            // the declared alignment may only have been forced: compute without it
                            let mut r = q.clone(); r.files[id.0].decls[id.1].meta.clear();
                            let nat = r.slayout(id).2;
                            if v <= 0 || !(v as u128).is_power_of_two() || v < nat as i128 || v > u32::MAX as i128 {
                                p.files[id.0].decls[id.1].meta = vec![Attr::ForceAlign(l, 1)];
                                bad = Some("bad force_align");
                            }
                        }
                    }
                    _ => {}
                }
            }
            let texts = lay(s, &p, Noise::Plain);
            let dir = scratch();
            write(&dir, &p, &texts);
            let all = || texts_of(&p, &texts);
            let paths = roots(&dir, &p);
            if let Some(what) = bad {
                st.class(what);
                let (r, diag) = translate(&paths, false, false);
                let r = r.map_err(|f| Fail { sig: f.sig, msg: format!("{}\n{}", f.msg, all()) })?;
                ensure!(r.is_none(), format!("accepted:{what}"), "{what} is accepted\n{diag}\n{}", all());
                ensure!(has_error(&diag), "no-diagnostic", "{what} is rejected without an error\n{diag}\n{}", all());
                st.nontrivial(hash_str(&all())); st.sample(all);
                return Ok(());
            }
            let d = accept(&paths, &all)?;
            if let Some(m) = differ(&dump(&d), &expect(&p), &["values", "layout"]) { return fail("value", format!("{m}\n{}", all())); }
            let (mut n, mut odd) = (0, 0);
            let mut count = |l: &Vec<String>| { n += 1; if l.len() > 1 || l[0].contains(['_', 'x', 'e', 'E', '\\']) || (l[0].len() > 1 && l[0].starts_with('0')) { odd += 1; } };
            for id in p.ids() {
                for m in &p.decl(id).meta { if let Attr::ForceAlign(l, _) = m { count(l); } }
                match &p.decl(id).kind {
                    Kind::Table(fs) => for f in fs {
                        if let Def::Lit(l, v) = &f.default { count(l); st.class(match v { Val::Bool(_) => "bool literals", Val::Int(_) => "integer literals", Val::Tag(_) => "enum literals", Val::F32(_) | Val::F64(_) => "float literals", Val::Str(_) => "string literals", Val::EmptyVec => "empty lists" }); }
                        for a in &f.attrs { if let Attr::Id(l, _) | Attr::ForceAlign(l, _) = a { count(l); } }
                    },
                    Kind::Enum { vars, .. } => for v in vars { if let Some(l) = &v.lit { count(l); } },
                    _ => {}
                }
            }
            if n >= 4 && odd >= 1 { st.nontrivial(hash_str(&all())); st.sample(all); }
            Ok(())
        })
}
fn vars_has(p: &Proj, id: Id, v: i128) -> bool { match &p.decl(id).kind { Kind::Enum { vars, .. } => vars[..vars.len() - 1].iter().any(|x| x.value == v), _ => false } }
