//! C11: rustc on the generated code of random schemas with awkward names.
use crate::code::rust;
use crate::run::*;
use crate::sm::*;
use std::path::PathBuf;
use std::sync::OnceLock;
use vmodel::engine::{fail, Prop};
use vmodel::src_::hash_str;
use vmodel::Src;

const KEYWORDS: &[&str] = &["as", "async", "await", "break", "const", "continue", "crate", "dyn", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "Self", "static", "struct", "super", "trait", "true", "type", "unsafe", "use", "where", "while", "abstract", "become", "box", "do", "final", "macro", "override", "priv", "typeof", "unsized", "virtual", "yield", "try", "union", "gen", "auto", "raw", "safe", "default", "macro_rules"];
const STD: &[&str] = &["Option", "Vec", "String", "Result", "Some", "None", "Ok", "Err", "Box", "str", "u8", "i32", "f64", "usize", "char", "planus", "serde", "core", "std", "alloc", "Debug", "Clone", "Copy", "Default", "Into", "From", "TryFrom", "Iterator", "Drop", "Send", "Sized", "root", "Offset", "Builder", "Unknown", "Error", "_serde"];
const TYPES: &[&str] = &["A", "Foo", "FooRef", "FooBuilder", "FooRefBuilder", "foo", "FOO", "Foo_", "_Foo", "foo_bar", "FooBar", "fooBar", "FOO_BAR", "Foo1", "foo_1", "Ref", "Builder", "T0", "T1", "T2", "T3", "T10", "T11", "T13", "V0", "T", "E", "N", "a", "x", "_", "__", "_1", "A1B2", "ABc"];
const FIELDS: &[&str] = &["a", "b", "x", "x_as", "x_as_default", "x_as_null", "xAs", "X", "x_", "_x", "__", "_", "_1", "finish", "builder", "create", "new", "from", "into", "try_from", "to_owned", "as_bytes", "default", "clone", "eq", "hash", "fmt", "buffer", "table", "table_writer", "object_position", "offset", "value", "position", "v0", "v1", "v2", "field_a", "prepared_a", "prepare", "write", "read_as_root", "from_buffer", "inner", "cache", "location", "fooBar", "foo_bar", "FooBar", "FOO_BAR", "foo1", "foo_1", "a_b", "aB", "tag", "self_", "Self_", "error", "e", "f", "other", "deserializer", "serializer", "__field0", "set_a", "alignment", "data"];
const VARS: &[&str] = &["A", "a", "B", "b", "RED", "Red", "red", "fooBar", "foo_bar", "FooBar", "FOO_BAR", "Foo1", "foo_1", "create_a", "createA", "CreateA", "ENUM_VALUES", "Error", "Ok", "Value", "_", "__", "_1", "x", "X", "Output", "Prepared", "builder", "new", "finish"];

fn list(parts: &[&[&str]]) -> Vec<String> { parts.iter().flat_map(|p| p.iter().map(|s| s.to_string())).collect() }
fn cfg(s: &mut Src) -> Cfg {
    let d = Cfg::default();
    let wild = |own: &[&str], plain: Vec<String>, s: &mut Src| match s.below(4) { 0 => plain, 1 => list(&[own]), 2 => list(&[own, KEYWORDS, STD]), _ => list(&[own, KEYWORDS, STD, TYPES, FIELDS]) };
    Cfg {
        wide: 20_000,
        max_files: if s.chance(1, 3) { 3 } else { 1 }, max_decls: 6, max_fields: *s.pick(&[4, 8, 14]), extras: s.chance(1, 4), crlf_docs: true,
        type_names: wild(TYPES, d.type_names.clone(), s), field_names: wild(FIELDS, d.field_names.clone(), s),
        ns_names: wild(&["a", "A", "b", "foo_bar", "FooBar", "fooBar", "foo", "Foo", "_", "_1"], d.ns_names.clone(), s), var_names: wild(VARS, d.var_names.clone(), s),
        ..d
    }
}
/// nothing but what a schema's names may look like to any Rust crate (README: the names of the schema, in Rust's style)
fn deps() -> &'static Vec<String> {
    static D: OnceLock<Vec<String>> = OnceLock::new();
    D.get_or_init(|| {
        let dir = PathBuf::from(std::env::var("GENDEPS").expect("GENDEPS")).join("debug/deps");
        let find = |name: &str| {
            let mut v: Vec<_> = std::fs::read_dir(&dir).expect("GENDEPS").flatten().map(|e| e.path()).filter(|p| p.file_name().unwrap().to_str().unwrap().starts_with(&format!("lib{name}-")) && p.extension().is_some_and(|e| e == "rlib")).collect();
            v.sort_by_key(|p| std::fs::metadata(p).and_then(|m| m.modified()).unwrap());
            v.pop().expect(name).display().to_string()
        };
        vec!["--extern".into(), format!("planus={}", find("planus")), "--extern".into(), format!("serde={}", find("serde")), "-L".into(), format!("dependency={}", dir.display())]
    })
}
/// None, or the errors
pub fn rustc(dir: &std::path::Path, code: &str, edition: &str, no_std: bool) -> Result<Option<String>, String> {
    std::fs::write(dir.join("generated.rs"), code).unwrap();
    std::fs::write(dir.join("lib.rs"), format!("{}mod generated;\npub use generated::*;\n", if no_std { "#![no_std]\n" } else { "" })).unwrap();
    let out = std::process::Command::new("rustc")
        .args(["--edition", edition, "--crate-type", "lib", "--crate-name", "user", "--emit=metadata", "--cap-lints", "allow", "--color", "never", "-o"])
        .arg(dir.join("user.rmeta")).arg(dir.join("lib.rs")).args(deps()).output().map_err(|e| e.to_string())?;
    if out.status.success() { return Ok(None); }
    let e = String::from_utf8_lossy(&out.stderr).to_string();
    if !e.lines().any(|l| l.starts_with("error")) || e.contains("internal compiler error") { return Err(format!("{}: {e}", out.status)); }
    Ok(Some(e))
}
fn signature(e: &str) -> String {
    let l = e.lines().find(|l| l.starts_with("error")).unwrap_or("error");
    let mut out = String::new();
    for (i, part) in l.split('`').enumerate() { out += if i % 2 == 0 { part } else { "_" }; }
    out
}

pub fn c11() -> Prop {
    Prop::new("C11", 1200, 25_000, "at least three declarations, one of them a table with two or more fields", |s, st| {
        let c = cfg(s);
        let p = gen(s, &c);
        let texts: Vec<String> = p.files.iter().map(|f| layout(s, &f.docs, &f.tokens(), Noise::Plain).text).collect();
        let dir = scratch();
        write(&dir, &p, &texts);
        let all = || texts_of(&p, &texts);
        let (r, diag) = translate(&roots(&dir, &p), false, false);
        let d = match r { Ok(Some(d)) if !has_error(&diag) => d, _ => { st.exclude("the schema is rejected (C10, C13)"); return Ok(()) } };
        let code = rust(&d, &all)?;
        let edition = *s.pick(&["2018", "2021", "2024"]);
        let no_std = s.chance(1, 3);
        if no_std { st.class("no_std crates"); }
        match rustc(&dir, &code, edition, no_std) {
            Err(e) => return fail(format!("HARNESS rustc: {e}"), ""),
            Ok(Some(e)) => return fail(signature(&e), format!("edition {edition}{}: {}\n{}", if no_std { ", no_std" } else { "" }, e.lines().take(40).collect::<Vec<_>>().join("\n"), all())),
            Ok(None) => {}
        }
        st.class(match edition { "2018" => "edition 2018", "2021" => "edition 2021", _ => "edition 2024" });
        for id in p.ids() {
            match &p.decl(id).kind {
                Kind::Table(fs) => { st.class("tables"); if fs.len() >= 8 { st.class("tables of eight or more fields"); } }
                Kind::Struct(_) => st.class("structs"), Kind::Enum { .. } => st.class("enums"), Kind::Union { .. } => st.class("unions"),
            }
        }
        if p.files.iter().any(|f| !f.ns.is_empty()) { st.class("namespaces"); }
        let n = p.ids().len();
        if n >= 3 && p.ids().iter().any(|i| matches!(&p.decl(*i).kind, Kind::Table(f) if f.len() >= 2)) { st.nontrivial(hash_str(&all())); st.sample(all); }
        Ok(())
    })
    .probe("tables of 40 fields, of types named like the type parameters of the builders", |st| {
        for (n, prefix) in [(40, "T"), (12, "V"), (12, "N")] {
            let mut schema = String::new();
            for k in 0..n {
                schema += &match k % 5 { 0 | 1 => format!("table {prefix}{k} {{ a : int; }}\n"), 2 => format!("struct {prefix}{k} {{ a : int; b : ubyte; }}\n"), 3 => format!("enum {prefix}{k} : byte {{ A = 0, B }}\n"), _ => format!("union {prefix}{k} {{ {prefix}0, {prefix}2 }}\n") };
            }
            schema += &format!("table Wide {{\n{}}}\n", (0..n).map(|k| { let j = (k * 7 + 3) % n; format!("  f{k} : {};\n", if k % 3 == 0 { format!("[{prefix}{j}]") } else { format!("{prefix}{j}") }) }).collect::<String>());
            schema += &format!("table Must {{\n{}}}\n", (0..n).filter(|j| j % 5 != 3).map(|j| format!("  f{j} : {prefix}{j} (required);\n")).collect::<String>());
            let dir = scratch();
            std::fs::write(dir.join("wide.fbs"), &schema).unwrap();
            let all = || schema.clone();
            let d = accept(&[dir.join("wide.fbs")], &all)?;
            let code = rust(&d, &all)?;
            match rustc(&dir, &code, "2021", false) {
                Err(e) => return fail(format!("HARNESS rustc: {e}"), ""),
                Ok(Some(e)) => return fail(signature(&e), format!("{}\n{schema}", e.lines().take(40).collect::<Vec<_>>().join("\n"))),
                Ok(None) => st.class("tables of 12 to 40 fields with types named like type parameters"),
            }
        }
        Ok(())
    })
    .assume("Editions 2018, 2021 and 2024 (the ones the repository has test crates for) with the installed rustc; warnings are allowed.")
}

/// C17: literals in the generated code. Tables of fields with literal defaults are generated, compiled and run; what
/// `Default` and the getters of an empty table give must be the value meant, bit for bit, and a default table must be
/// written without any field.
pub fn literals(s: &mut Src, st: &mut vmodel::engine::St) -> Result<(), vmodel::engine::Fail> {
    const VARS: [(&str, i128); 5] = [("Low", -32768), ("Neg", -1), ("Nil", 0), ("One", 1), ("High", 32767)];
    let mut schema = String::from("enum Ez : short { Low = -32768, Neg = -1, Nil = 0, One, High = 32767 }\n");
    let mut body = String::new();
    let mut want: Vec<(String, String)> = vec![];
    let mut count = 0;
    for t in 0..2 {
        schema.push_str(&format!("table Tz{t} {{\n"));
        body.push_str(&format!("    let d = <Tz{t} as ::core::default::Default>::default();\n    let r = <Tz{t}Ref as ::planus::ReadAsRoot>::read_as_root(&EMPTY).unwrap();\n"));
        let mut nan = false;
        for i in 0..36 {
            let (ty, lit, text, show) = match s.weighted(&[8, 6, 6, 1, 6, 3]) {
                k @ (0 | 1) => {
                    let (l, a, b, special) = float_lit(s);
                    let bits = |n: bool, z: u64| if n { "nan".to_string() } else { format!("{z:x}") };
                    if k == 0 { if a.is_infinite() && !special { continue; } nan |= a.is_nan(); ("float", l, bits(a.is_nan(), a.to_bits() as u64), 'f') }
                    else { if b.is_infinite() && !special { continue; } nan |= b.is_nan(); ("double", l, bits(b.is_nan(), b.to_bits()), 'f') }
                }
                2 => { let sc = *s.pick(&INTS); let (lo, hi) = sc.range(); let v = s.int(lo, hi); (sc.fbs(), int_lit(s, v), v.to_string(), 'i') }
                3 => { let b = s.bool(); ("bool", vec![b.to_string()], b.to_string(), 'i') }
                4 => { let v = text(s, 16); ("string", vec![str_lit(s, &v)], format!("{v:?}"), 's') }
                _ => { let v = *s.pick(&VARS); ("Ez", if s.bool() { vec![v.0.to_string()] } else { int_lit(s, v.1) }, v.1.to_string(), 'e') }
            };
            count += 1;
            schema.push_str(&format!("  f{i} : {ty} = {};\n", lit.join(" ")));
            let show = |e: String| match show { 'f' => format!("if {e}.is_nan() {{ \"nan\".to_string() }} else {{ format!(\"{{:x}}\", {e}.to_bits()) }}"), 'i' => format!("{e}.to_string()"), 's' => format!("format!(\"{{:?}}\", {e})"), _ => format!("({e} as i16).to_string()") };
            body.push_str(&format!("    println!(\"D {t}.{i} {{}}\", {});\n    println!(\"R {t}.{i} {{}}\", {});\n", show(format!("d.f{i}")), show(format!("r.f{i}().unwrap()"))));
            want.push((format!("D {t}.{i} {text}"), format!("f{i} : {ty} = {}", lit.join(" "))));
            want.push((format!("R {t}.{i} {text}"), format!("f{i} : {ty} = {}", lit.join(" "))));
        }
        schema.push_str("}\n");
        if !nan {
            body.push_str(&format!("    let mut b = ::planus::Builder::new();\n    let bytes = b.finish(&d, None);\n    let p = u32::from_le_bytes(bytes[..4].try_into().unwrap()) as usize;\n    let v = (p as i64 - i32::from_le_bytes(bytes[p..p + 4].try_into().unwrap()) as i64) as usize;\n    println!(\"W {t} {{}}\", u16::from_le_bytes(bytes[v..v + 2].try_into().unwrap()));\n"));
            want.push((format!("W {t} 4"), format!("a default Tz{t} is written with fields")));
        }
    }
    let dir = scratch();
    std::fs::write(dir.join("lits.fbs"), &schema).unwrap();
    let all = || schema.clone();
    let d = accept(&[dir.join("lits.fbs")], &all)?;
    let code = rust(&d, &all)?;
    std::fs::write(dir.join("generated.rs"), code).unwrap();
    std::fs::write(dir.join("main.rs"), format!("mod generated;\nuse generated::*;\nconst EMPTY: [u8; 12] = [8, 0, 0, 0, 4, 0, 4, 0, 4, 0, 0, 0];\nfn main() {{\n{body}}}\n")).unwrap();
    let out = std::process::Command::new("rustc")
        .args(["--edition", "2021", "--crate-type", "bin", "--crate-name", "lits", "--cap-lints", "allow", "--color", "never", "-o"])
        .arg(dir.join("lits")).arg(dir.join("main.rs")).args(deps()).output().expect("rustc");
    if !out.status.success() {
        let e = String::from_utf8_lossy(&out.stderr).to_string();
        if !e.lines().any(|l| l.starts_with("error")) || e.contains("internal compiler error") { return fail(format!("HARNESS rustc: {}: {e}", out.status), ""); }
        return fail(format!("uncompilable default: {}", signature(&e)), format!("{}\n{}", e.lines().take(40).collect::<Vec<_>>().join("\n"), all()));
    }
    let out = std::process::Command::new("timeout").arg("60").arg(dir.join("lits")).output().expect("lits");
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let lines: Vec<&str> = text.lines().collect();
    if !out.status.success() { return fail("default-panics", format!("{}: {}\n{}", out.status, String::from_utf8_lossy(&out.stderr), all())); }
    if lines.len() != want.len() { return fail("HARNESS output", format!("{} lines, expected {}\n{text}", lines.len(), want.len())); }
    for (g, (w, what)) in lines.iter().zip(&want) {
        if g != w { return fail("generated-default", format!("{what}: the generated code gives {g:?}, expected {w:?} (D: Default, R: getter, W: vtable of a default table)\n{}", all())); }
    }
    for _ in 0..count { st.class("literals in compiled code"); }
    st.nontrivial(hash_str(&schema));
    st.sample(all);
    Ok(())
}

/// compiles main.rs (with the generated code as a module) and runs it; Err: the compiler's errors
fn compile_and_run(dir: &std::path::Path, code: &str, body: &str, name: &str) -> Result<std::process::Output, vmodel::engine::Fail> {
    std::fs::write(dir.join("generated.rs"), code).unwrap();
    std::fs::write(dir.join("main.rs"), body).unwrap();
    let out = std::process::Command::new("rustc")
        .args(["--edition", "2021", "--crate-type", "bin", "--crate-name", name, "--cap-lints", "allow", "--color", "never", "-o"])
        .arg(dir.join(name)).arg(dir.join("main.rs")).args(deps()).output().expect("rustc");
    if !out.status.success() {
        let e = String::from_utf8_lossy(&out.stderr).to_string();
        if !e.lines().any(|l| l.starts_with("error")) || e.contains("internal compiler error") { return Err(vmodel::engine::Fail { sig: format!("HARNESS rustc: {}: {e}", out.status), msg: String::new() }); }
        return Err(vmodel::engine::Fail { sig: format!("uncompilable: {}", signature(&e)), msg: e.lines().take(40).collect::<Vec<_>>().join("\n") });
    }
    Ok(std::process::Command::new("timeout").arg("60").arg(dir.join(name)).output().expect(name))
}

#[derive(Clone, Copy, PartialEq)]
enum Fk { Int(i8), IntOpt, Bool, Float, Double, FloatOpt, Str(bool), EnumZ, EnumN(bool), Struct(usize, bool), Table(usize, bool), Union(usize, bool), VecI(bool), VecF(bool), VecT(usize, bool), VecU(usize, bool), VecS(usize, bool) }
/// C19, part "programs": which traits the generated types have (the analyses behind them run over recursive
/// declarations) and what `Default` gives, in compiled programs.
pub fn traits() -> Prop {
    Prop::new("C19", 320, 12_000, "a table whose required or optional references lead back to itself", |s, st| {
        let (ns, nu, nt) = (s.range(1, 3), s.range(1, 2), s.range(2, 6));
        // structs only refer to structs before them
        let structs: Vec<Vec<Fk>> = (0..ns).map(|i| (0..s.range(1, 3)).map(|_| match s.weighted(&[5, 1, 1, 1, if i > 0 { 4 } else { 0 }]) { 0 => Fk::Int(0), 1 => Fk::Bool, 2 => if s.bool() { Fk::Float } else { Fk::Double }, 3 => Fk::EnumN(true), _ => Fk::Struct(s.usize(i), true) }).collect()).collect();
        let unions: Vec<Vec<Fk>> = (0..nu).map(|_| (0..s.range(1, 3)).map(|_| match s.weighted(&[4, 2, 1]) { 0 => Fk::Table(s.usize(nt), true), 1 => Fk::Struct(s.usize(ns), true), _ => Fk::Str(true) }).collect()).collect();
        let req = s.range(1, 4);
        let floats = s.chance(1, 2);
        let field = |s: &mut Src| -> Fk { let r = s.usize(5) < req; match s.weighted(&[3, 1, 1, if floats { 1 } else { 0 }, 1, 1, 1, 2, 9, 2, 1, if floats { 1 } else { 0 }, 3, 1, 1]) {
            0 => Fk::Int(s.int(-100, 100) as i8), 1 => Fk::IntOpt, 2 => Fk::Bool, 3 => *s.pick(&[Fk::Float, Fk::Double, Fk::FloatOpt]), 4 => Fk::Str(r), 5 => Fk::EnumZ, 6 => Fk::EnumN(false),
            7 => Fk::Struct(s.usize(ns), r), 8 => Fk::Table(s.usize(nt), r), 9 => Fk::Union(s.usize(nu), r), 10 => Fk::VecI(r), 11 => Fk::VecF(r), 12 => Fk::VecT(s.usize(nt), r), 13 => Fk::VecU(s.usize(nu), r), _ => Fk::VecS(s.usize(ns), r),
        } };
        let tables: Vec<Vec<Fk>> = (0..nt).map(|_| (0..s.range(1, 4)).map(|_| field(s)).collect()).collect();
        // deprecated fields take a place in the vtable and nothing else: they are no part of the types
        let dead: Vec<Vec<Option<Fk>>> = tables.iter().map(|fs| fs.iter().map(|_| if s.chance(1, 5) { Some(field(s)) } else { None }).collect()).collect();
        // the schema, in any order of declarations
        let ty = |f: &Fk| match *f {
            Fk::Int(_) | Fk::IntOpt => "int".to_string(), Fk::Bool => "bool".into(), Fk::Float | Fk::FloatOpt => "float".into(), Fk::Double => "double".into(), Fk::Str(_) => "string".into(), Fk::EnumZ => "Ez".into(), Fk::EnumN(_) => "En".into(),
            Fk::Struct(i, _) => format!("S{i}"), Fk::Table(i, _) => format!("T{i}"), Fk::Union(i, _) => format!("U{i}"), Fk::VecI(_) => "[int]".into(), Fk::VecF(_) => "[float]".into(), Fk::VecT(i, _) => format!("[T{i}]"), Fk::VecU(i, _) => format!("[U{i}]"), Fk::VecS(i, _) => format!("[S{i}]"),
        };
        let tail = |f: &Fk| match *f {
            Fk::Int(d) if d != 0 => format!(" = {d}"), Fk::IntOpt | Fk::FloatOpt => " = null".into(), Fk::EnumN(false) => " = Two".into(), Fk::EnumN(true) => " (required)".into(),
            Fk::Str(true) | Fk::Struct(_, true) | Fk::Table(_, true) | Fk::Union(_, true) | Fk::VecI(true) | Fk::VecF(true) | Fk::VecT(_, true) | Fk::VecU(_, true) | Fk::VecS(_, true) => " (required)".into(),
            _ => String::new(),
        };
        let mut decls: Vec<String> = vec!["enum Ez : byte { Neg = -1, Nil = 0, One }\n".into(), "enum En : ubyte { One = 1, Two = 2 }\n".into()];
        for (i, fs) in structs.iter().enumerate() { decls.push(format!("struct S{i} {{\n{}}}\n", fs.iter().enumerate().map(|(k, f)| format!("  f{k} : {};\n", ty(f))).collect::<String>())); }
        for (i, fs) in unions.iter().enumerate() { decls.push(format!("union U{i} {{\n{}}}\n", fs.iter().enumerate().map(|(k, f)| format!("  V{k} : {},\n", ty(f))).collect::<String>())); }
        let gone = |f: &Fk| match tail(f) { t if t.ends_with(" (required)") => t.replace("required", "required, deprecated"), t => t + " (deprecated)" };
        for (i, fs) in tables.iter().enumerate() { decls.push(format!("table T{i} {{\n{}}}\n", fs.iter().enumerate().map(|(k, f)| format!("{}  f{k} : {}{};\n", dead[i][k].map(|d| format!("  gone{k} : {}{};\n", ty(&d), gone(&d))).unwrap_or_default(), ty(f), tail(f))).collect::<String>())); }
        if dead.iter().flatten().any(|d| d.is_some()) { st.class("tables with deprecated fields"); }
        s.shuffle(&mut decls);
        let schema = decls.concat();
        // the model
        let mut s_eq = vec![true; ns]; let mut s_def = vec![true; ns];
        for i in 0..ns { for f in &structs[i] { match f { Fk::Float | Fk::Double => s_eq[i] = false, Fk::EnumN(_) => s_def[i] = false, Fk::Struct(j, _) => { s_eq[i] &= s_eq[*j]; s_def[i] &= s_def[*j]; } _ => {} } } }
        let (mut t_eq, mut u_eq, mut t_def) = (vec![true; nt], vec![true; nu], vec![false; nt]);
        for _ in 0..=nt + nu {
            let eq = |f: &Fk, t_eq: &[bool], u_eq: &[bool]| match *f { Fk::Float | Fk::Double | Fk::FloatOpt | Fk::VecF(_) => false, Fk::Struct(j, _) | Fk::VecS(j, _) => s_eq[j], Fk::Table(j, _) | Fk::VecT(j, _) => t_eq[j], Fk::Union(j, _) | Fk::VecU(j, _) => u_eq[j], _ => true };
            let u: Vec<bool> = unions.iter().map(|fs| fs.iter().all(|f| eq(f, &t_eq, &u_eq))).collect();
            let t: Vec<bool> = tables.iter().map(|fs| fs.iter().all(|f| eq(f, &t_eq, &u_eq))).collect();
            let d: Vec<bool> = tables.iter().map(|fs| fs.iter().all(|f| match *f { Fk::EnumN(true) | Fk::Union(_, true) => false, Fk::Struct(j, true) => s_def[j], Fk::Table(j, true) => t_def[j], _ => true })).collect();
            (u_eq, t_eq, t_def) = (u, t, d);
        }
        fn show(f: &Fk, structs: &[Vec<Fk>], tables: &[Vec<Fk>], inside: bool, left: &mut usize) -> String {
            *left = left.saturating_sub(1);
            if *left == 0 { return String::new(); }
            let body = |name: String, fs: &[Fk], inside: bool, left: &mut usize| format!("{name} {{ {} }}", fs.iter().enumerate().map(|(k, f)| format!("f{k}: {}", show(f, structs, tables, inside, left))).collect::<Vec<_>>().join(", "));
            match *f {
                Fk::Int(d) => d.to_string(), Fk::Bool => "false".into(), Fk::Float | Fk::Double => "0.0".into(), Fk::EnumZ => "Nil".into(), Fk::EnumN(_) => "Two".into(), Fk::Str(true) => "\"\"".into(),
                Fk::VecI(true) | Fk::VecF(true) | Fk::VecT(_, true) | Fk::VecU(_, true) | Fk::VecS(_, true) => "[]".into(),
                Fk::Struct(i, r) => if r || inside { body(format!("S{i}"), &structs[i], true, left) } else { "None".into() },
                Fk::Table(i, true) => body(format!("T{i}"), &tables[i], false, left),
                _ => "None".into(),
            }
        }
        let mut main = String::from("mod generated;\nuse generated::*;\nuse std::fmt::Debug;\n\
            macro_rules! has { ($t:ty : $($b:tt)+) => {{ struct W<T: ?Sized>(std::marker::PhantomData<T>); trait No { const HAS: bool = false; } impl<T: ?Sized> No for W<T> {} impl<T: ?Sized + $($b)+> W<T> { const HAS: bool = true; } <W<$t>>::HAS as u8 }} }\n\
            macro_rules! dflt { ($t:ty, $r:ident) => {{ struct W<T>(std::marker::PhantomData<T>); trait No { fn run(_: fn(&$t) -> Option<$t>) -> String { \"none\".into() } } impl<T> No for W<T> {} impl<T: Default + Debug> W<T> where T: std::borrow::Borrow<$t> { fn run(f: fn(&$t) -> Option<$t>) -> String { let d = T::default(); let d: &$t = d.borrow(); if let Some(b) = f(d) { assert!(b == *d, \"the default is read back as {b:?}\"); } format!(\"{d:?}\") } } <W<$t>>::run(|d| $r!(d)) }} }\n\
            macro_rules! none { ($d:ident) => {{ let _ = $d; None }} }\nfn main() {\n");
        let mut want: Vec<String> = vec![];
        let mut types: Vec<(String, bool, bool, bool, Option<String>)> = vec![("Ez".into(), true, true, false, None), ("En".into(), true, true, false, None)];
        for i in 0..ns { types.push((format!("S{i}"), s_eq[i], true, s_def[i], Some(show(&Fk::Struct(i, true), &structs, &tables, true, &mut 2000)))); }
        for i in 0..nu { types.push((format!("U{i}"), u_eq[i], false, false, None)); }
        for i in 0..nt { types.push((format!("T{i}"), t_eq[i], false, t_def[i], t_def[i].then(|| show(&Fk::Table(i, true), &structs, &tables, false, &mut 2000)))); }
        for (name, eq, copy, def, text) in &types {
            main += &format!("    println!(\"{name} eq {{}} ord {{}} hash {{}} copy {{}} basic {{}} send {{}}\", has!({name}: Eq), has!({name}: Ord), has!({name}: std::hash::Hash), has!({name}: Copy), has!({name}: Clone + Debug + PartialEq + PartialOrd + ::serde::Serialize + ::serde::de::DeserializeOwned), has!({name}: Send + Sync + Unpin));\n");
            want.push(format!("{name} eq {e} ord {e} hash {e} copy {} basic 1 send 1", *copy as u8, e = *eq as u8));
            if name.starts_with('E') { continue; }
            main += &format!("    println!(\"{name} try_from {{}}\", has!({name}: TryFrom<{name}Ref<'static>>));\n");
            want.push(format!("{name} try_from 1"));
            if name.starts_with('U') { continue; }
            if name.starts_with('S') && !def {
                // the getters of enums can fail
            } else if name.starts_with('S') {
                main += &format!("    println!(\"{name}Ref eq {{}} ord {{}} hash {{}}\", has!({name}Ref<'static>: Eq), has!({name}Ref<'static>: Ord), has!({name}Ref<'static>: std::hash::Hash));\n");
                want.push(format!("{name}Ref eq {e} ord {e} hash {e}", e = *eq as u8));
            } else {
                main += &format!("    macro_rules! back_{name} {{ ($d:ident) => {{{{ let mut b = ::planus::Builder::new(); let bytes = b.finish($d, None); Some({name}::try_from(<{name}Ref as ::planus::ReadAsRoot>::read_as_root(bytes).unwrap()).unwrap()) }}}} }}\n");
            }
            let back = if name.starts_with('T') { format!("back_{name}") } else { "none".into() };
            main += &format!("    println!(\"{name} default {{}}\", dflt!({name}, {back}));\n");
            let t = if *def { text.clone().unwrap() } else { "none".into() };
            want.push(format!("{name} default {t}"));
            if *def { st.class("types with a default") } else { st.class("types without a default") }
            if *eq { st.class("types with Eq") } else { st.class("types without Eq") }
        }
        main += "}\n";
        if want.iter().any(|w| w.len() > 12_000) { st.exclude("a default of more than 2000 nodes"); return Ok(()); }
        let dir = scratch();
        std::fs::write(dir.join("laws.fbs"), &schema).unwrap();
        let all = || schema.clone();
        let d = accept(&[dir.join("laws.fbs")], &all)?;
        let code = rust(&d, &all)?;
        let out = match compile_and_run(&dir, &code, &main, "laws") { Err(mut f) => { f.msg = format!("{}\n{schema}", f.msg); return Err(f); } Ok(o) => o };
        let text = String::from_utf8_lossy(&out.stdout).to_string();
        let lines: Vec<&str> = text.lines().collect();
        for (g, w) in lines.iter().zip(&want) {
            if g != w { return fail(format!("trait-{}", w.split(' ').nth(1).unwrap()), format!("the generated code gives\n  {g}\nexpected\n  {w}\n{schema}")); }
        }
        if !out.status.success() {
            let at = want.get(lines.len()).map(|w| w.as_str()).unwrap_or("end");
            return fail("default-crashes", format!("{} at {at:?}: {}\n{schema}", out.status, String::from_utf8_lossy(&out.stderr)));
        }
        if lines.len() != want.len() { return fail("HARNESS output", format!("{} lines, expected {}\n{text}", lines.len(), want.len())); }
        // references that lead back
        let edge = |t: usize| -> Vec<usize> { tables[t].iter().flat_map(|f| match *f { Fk::Table(j, _) | Fk::VecT(j, _) => vec![j], Fk::Union(u, _) | Fk::VecU(u, _) => unions[u].iter().filter_map(|f| if let Fk::Table(j, _) = f { Some(*j) } else { None }).collect(), _ => vec![] }).collect() };
        let cyc = (0..nt).any(|t| { let mut seen = vec![false; nt]; let mut todo = edge(t); while let Some(x) = todo.pop() { if !seen[x] { seen[x] = true; todo.extend(edge(x)); } } seen[t] });
        if (0..nt).any(|t| { let mut seen = vec![false; nt]; let re = |t: usize| -> Vec<usize> { tables[t].iter().filter_map(|f| if let Fk::Table(j, true) = f { Some(*j) } else { None }).collect() }; let mut todo = re(t); while let Some(x) = todo.pop() { if !seen[x] { seen[x] = true; todo.extend(re(x)); } } seen[t] }) { st.class("tables that require themselves"); }
        if cyc { st.class("recursive tables"); st.nontrivial(hash_str(&schema)); st.sample(all); }
        Ok(())
    })
    .assume("A table without a finite value (one that requires itself) has no default.")
}
