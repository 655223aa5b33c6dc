//! Runs planus' front end on files in a scratch directory, capturing what it
//! prints to stderr.
use crate::sm::*;
use planus_translation::{translate_files_with_options, ConverterOptions};
use planus_types::ast::{FloatType, IntegerType};
use planus_types::intermediate::{self as il, AssignMode, DeclarationKind, Declarations, FloatLiteral, IntegerLiteral, Literal, SimpleType, TypeKind};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::path::PathBuf;
use vmodel::engine::{guarded, verif_dir, Fail};

/// A scratch directory private to this process, emptied for every case.
pub fn scratch() -> PathBuf {
    thread_local!(static DIR: RefCell<Option<PathBuf>> = const { RefCell::new(None) });
    DIR.with(|d| {
        let mut d = d.borrow_mut();
        let p = d.get_or_insert_with(|| verif_dir().join(format!(".build/scratch/{}", std::process::id()))).clone();
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).unwrap();
        p
    })
}
pub fn remove_scratch() {
    let _ = std::fs::remove_dir_all(verif_dir().join(format!(".build/scratch/{}", std::process::id())));
}

/// Runs `f` with fd 2 redirected; panics become failures.
pub fn captured<T>(f: impl FnOnce() -> T) -> (Result<T, Fail>, String) {
    thread_local!(static MEM: RefCell<Option<i32>> = const { RefCell::new(None) });
    unsafe {
        let fd = MEM.with(|m| *m.borrow_mut().get_or_insert_with(|| libc::memfd_create(c"cap".as_ptr(), libc::MFD_CLOEXEC)));
        assert!(fd >= 0, "memfd_create");
        assert_eq!(libc::ftruncate(fd, 0), 0);
        libc::lseek(fd, 0, libc::SEEK_SET);
        let saved = libc::fcntl(2, libc::F_DUPFD_CLOEXEC, 10);
        assert!(saved >= 0);
        libc::dup2(fd, 2);
        let r = guarded(f);
        libc::dup2(saved, 2);
        libc::close(saved);
        let n = libc::lseek(fd, 0, libc::SEEK_END).max(0) as usize;
        let mut buf = vec![0u8; n];
        libc::lseek(fd, 0, libc::SEEK_SET);
        let mut at = 0;
        while at < n {
            let k = libc::read(fd, buf[at..].as_mut_ptr() as *mut _, n - at);
            if k <= 0 { break; }
            at += k as usize;
        }
        (r, String::from_utf8_lossy(&buf).into_owned())
    }
}
pub fn has_error(diag: &str) -> bool { diag.lines().any(|l| l.starts_with("error")) }

pub fn translate(paths: &[PathBuf], docs: bool, meta: bool) -> (Result<Option<Declarations>, Fail>, String) {
    captured(|| translate_files_with_options(paths, ConverterOptions { ignore_docstring_errors: docs, ignore_unknown_metadata: meta }))
}
pub fn roots(dir: &std::path::Path, p: &Proj) -> Vec<PathBuf> { p.roots.iter().map(|r| dir.join(&p.files[*r].path)).collect() }

/// translate a project that obeys every rule: it must be accepted silently
pub fn accept(paths: &[PathBuf], texts: &dyn Fn() -> String) -> Result<Declarations, Fail> {
    let (r, diag) = translate(paths, false, false);
    match r {
        Err(f) => Err(Fail { sig: f.sig, msg: format!("{}\n{diag}\n{}", f.msg, texts()) }),
        Ok(None) => Err(Fail { sig: "rejected".into(), msg: format!("a valid schema is rejected: {diag}\n{}", texts()) }),
        Ok(Some(d)) => if has_error(&diag) { Err(Fail { sig: "error-and-success".into(), msg: format!("{diag}\n{}", texts()) }) } else { Ok(d) },
    }
}

fn int(t: &IntegerType) -> &'static str {
    match t { IntegerType::U8 => "U8", IntegerType::I8 => "I8", IntegerType::U16 => "U16", IntegerType::I16 => "I16", IntegerType::U32 => "U32", IntegerType::I32 => "I32", IntegerType::U64 => "U64", IntegerType::I64 => "I64" }
}
pub fn int_val(v: &IntegerLiteral) -> i128 {
    match *v { IntegerLiteral::U8(v) => v as i128, IntegerLiteral::I8(v) => v as i128, IntegerLiteral::U16(v) => v as i128, IntegerLiteral::I16(v) => v as i128, IntegerLiteral::U32(v) => v as i128, IntegerLiteral::I32(v) => v as i128, IntegerLiteral::U64(v) => v as i128, IntegerLiteral::I64(v) => v as i128 }
}
fn simple(d: &Declarations, t: &SimpleType) -> String {
    match t {
        SimpleType::Struct(i) => format!("struct {}", d.get_declaration(*i).0),
        SimpleType::Enum(i) => format!("enum {}", d.get_declaration(*i).0),
        SimpleType::Bool => "Bool".into(),
        SimpleType::Integer(t) => int(t).into(),
        SimpleType::Float(FloatType::F32) => "F32".into(),
        SimpleType::Float(FloatType::F64) => "F64".into(),
    }
}
fn kind_of(d: &Declarations, i: il::DeclarationIndex) -> &'static str { d.get_declaration(i).1.kind.kind_as_str() }
pub fn ty(d: &Declarations, t: &TypeKind) -> String {
    match t {
        TypeKind::Table(i) | TypeKind::Union(i) => format!("{} {}", kind_of(d, *i), d.get_declaration(*i).0),
        TypeKind::Vector(t) => format!("[{}]", ty(d, &t.kind)),
        TypeKind::Array(t, n) => format!("[{}: {n}]", ty(d, &t.kind)),
        TypeKind::SimpleType(t) => simple(d, t),
        TypeKind::String => "String".into(),
    }
}
fn lit(l: &Literal) -> String {
    match l {
        Literal::Bool(b) => format!("bool {b}"),
        Literal::String(t) => format!("str {t:?}"),
        Literal::Int(i) => format!("int {}", int_val(i)),
        Literal::Float(FloatLiteral::F32(v)) => if v.is_nan() { "f32 nan".into() } else { format!("f32 {:#x}", v.to_bits()) },
        Literal::Float(FloatLiteral::F64(v)) => if v.is_nan() { "f64 nan".into() } else { format!("f64 {:#x}", v.to_bits()) },
        Literal::Array(v) => format!("array {}", v.iter().map(lit).collect::<Vec<_>>().join(",")),
        Literal::Vector(v) => format!("[{}]", v.iter().map(lit).collect::<Vec<_>>().join(",")),
        Literal::EnumTag { value, .. } => format!("tag {}", int_val(value)),
    }
}
fn docs(d: &planus_types::ast::Docstrings) -> Vec<String> { d.docstrings.iter().map(|d| d.value.trim_end_matches('\r').to_string()).collect() }

pub fn dump(d: &Declarations) -> Dump {
    let mut out = Dump::new();
    for (_, path, decl) in d.iter_declarations() {
        let mut m: BTreeMap<&'static str, Vec<String>> = BTreeMap::new();
        let mut add = |k: &'static str, v: String| m.entry(k).or_default().push(v);
        add("docs", format!("{:?}", docs(&decl.docstrings)));
        match &decl.kind {
            DeclarationKind::Table(t) => {
                add("types", "table".into());
                for (n, f) in &t.fields {
                    add("types", format!("{n}: {}", ty(d, &f.type_.kind)));
                    add("layout", format!("{n} slot {} size {} align {} tag {}", f.vtable_index, f.object_value_size, f.object_alignment, f.object_tag_kind.size()));
                    add("values", format!("{n}: {}", match &f.assign_mode { AssignMode::Required => "required".into(), AssignMode::Optional => "optional".into(), AssignMode::HasDefault(l) => lit(l) }));
                    if let AssignMode::HasDefault(Literal::EnumTag { variant_index, value }) = &f.assign_mode {
                        // the index must be the one of the value
                        if let TypeKind::SimpleType(SimpleType::Enum(i)) = &f.type_.kind { if let DeclarationKind::Enum(e) = &d.get_declaration(*i).1.kind {
                            if e.variants.get_index(*variant_index).map(|v| v.0) != Some(value) { add("values", format!("{n}: wrong variant index {variant_index} for {value}")); }
                        } }
                    }
                    add("values", format!("{n} deprecated {}", f.deprecated));
                    add("docs", format!("{n}: {:?}", docs(&f.docstrings)));
                }
                add("layout", format!("vtable {}", t.max_vtable_size));
            }
            DeclarationKind::Struct(t) => {
                add("types", "struct".into());
                for (n, f) in &t.fields {
                    add("types", format!("{n}: {}", simple(d, &f.type_)));
                    add("layout", format!("{n} offset {} size {} padding {}", f.offset, f.size, f.padding_after_field));
                    add("docs", format!("{n}: {:?}", docs(&f.docstrings)));
                }
                add("layout", format!("size {} align {}", t.size, t.alignment));
            }
            DeclarationKind::Enum(t) => {
                add("types", format!("enum {}", int(&t.type_)));
                add("layout", format!("align {}", t.alignment));
                for (v, n) in &t.variants { add("layout", format!("{} = {}", n.name, int_val(v))); add("docs", format!("{}: {:?}", n.name, docs(&n.docstrings))); }
            }
            DeclarationKind::Union(t) => {
                add("types", "union".into());
                for (i, (n, v)) in t.variants.iter().enumerate() {
                    add("types", format!("{n}: {}", ty(d, &v.type_.kind)));
                    add("layout", format!("{n} = tag {}", i + 1));
                    add("docs", format!("{n}: {:?}", docs(&v.docstrings)));
                }
            }
            DeclarationKind::RpcService(_) => add("types", "rpc".into()),
        }
        out.insert(path.to_string(), m);
    }
    out
}

/// first difference in the given sections
pub fn differ(got: &Dump, want: &Dump, sections: &[&str]) -> Option<String> {
    let (a, b): (Vec<_>, Vec<_>) = (got.keys().collect(), want.keys().collect());
    if a != b { return Some(format!("declarations {a:?}, expected {b:?}")); }
    for (k, w) in want {
        let g = &got[k];
        for s in sections {
            let (g, w) = (g.get(s).cloned().unwrap_or_default(), w.get(s).cloned().unwrap_or_default());
            if g != w {
                let i = (0..g.len().max(w.len())).find(|i| g.get(*i) != w.get(*i)).unwrap();
                return Some(format!("{k}: {s}: got {:?}, expected {:?}", g.get(i), w.get(i)));
            }
        }
    }
    None
}
pub fn texts_of(p: &Proj, texts: &[String]) -> String {
    let mut out = format!("roots {:?}\n", p.roots.iter().map(|r| &p.files[*r].path).collect::<Vec<_>>());
    for (f, t) in p.files.iter().zip(texts) { out.push_str(&format!("--- {}\n{t}\n", f.path)); }
    out
}
