//! C16: the `planus` binary on generated files, options, output states and rustfmt behaviours.
use crate::rules::{break_rule, break_text, RULES};
use crate::run::*;
use crate::sm::*;
use std::collections::BTreeMap;
use std::io::Read;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use vmodel::engine::{fail, Fail, Prop, St};
use vmodel::src_::hash_str;
use vmodel::{ensure, Src};

struct Ran { code: Option<i32>, out: Vec<u8>, err: String }
#[derive(Clone, Copy, PartialEq, Debug)]
enum Stdout { Pipe, Full, Closed }

fn run(dir: &Path, args: &[String], path: &str, stdout: Stdout) -> Ran {
    let bin = std::env::var("PLANUS_CLI").expect("PLANUS_CLI");
    let mut c = Command::new(bin);
    c.args(args).current_dir(dir).stdin(Stdio::null()).stderr(Stdio::piped());
    for (k, _) in std::env::vars() { if k.starts_with("RUST_") || k == "COLORTERM" || k == "NO_COLOR" || k.starts_with("CLICOLOR") { c.env_remove(k); } }
    c.env("PATH", path);
    match stdout {
        Stdout::Pipe | Stdout::Closed => c.stdout(Stdio::piped()),
        Stdout::Full => c.stdout(std::fs::OpenOptions::new().write(true).open("/dev/full").expect("/dev/full")),
    };
    let mut ch = c.spawn().expect("spawning planus");
    let so = ch.stdout.take();
    let so = if stdout == Stdout::Closed { drop(so); None } else { so };
    let t = so.map(|mut so| std::thread::spawn(move || { let mut v = vec![]; let _ = so.read_to_end(&mut v); v }));
    let mut se = ch.stderr.take().unwrap();
    let te = std::thread::spawn(move || { let mut v = vec![]; let _ = se.read_to_end(&mut v); v });
    let start = Instant::now();
    let code = loop {
        if let Some(s) = ch.try_wait().unwrap() { break s.code(); }
        if start.elapsed() > Duration::from_secs(60) { let _ = ch.kill(); panic!("planus {args:?} did not finish within 60 s"); }
        std::thread::sleep(Duration::from_millis(1));
    };
    Ran { code, out: t.map(|t| t.join().unwrap()).unwrap_or_default(), err: String::from_utf8_lossy(&te.join().unwrap()).into_owned() }
}

fn snapshot(dir: &Path) -> BTreeMap<String, Option<Vec<u8>>> {
    fn go(d: &Path, base: &Path, out: &mut BTreeMap<String, Option<Vec<u8>>>) {
        for e in std::fs::read_dir(d).unwrap() {
            let p = e.unwrap().path();
            let n = p.strip_prefix(base).unwrap().to_string_lossy().into_owned();
            if p.is_dir() { out.insert(n, None); go(&p, base, out); } else { out.insert(n, Some(std::fs::read(&p).unwrap())); }
        }
    }
    let mut out = BTreeMap::new();
    go(dir, dir, &mut out);
    out
}
fn changed(a: &BTreeMap<String, Option<Vec<u8>>>, b: &BTreeMap<String, Option<Vec<u8>>>, but: Option<&str>) -> Option<String> {
    for (k, v) in a { if Some(k.as_str()) != but && b.get(k) != Some(v) { return Some(format!("{k} was {}", if b.contains_key(k) { "changed" } else { "removed" })); } }
    for k in b.keys() { if Some(k.as_str()) != but && !a.contains_key(k) { return Some(format!("{k} was created")); } }
    None
}

/// the generated code mentions the paths as given, so they have to be the same
fn at<T>(dir: &Path, f: impl FnOnce() -> T) -> T {
    let old = std::env::current_dir().unwrap();
    std::env::set_current_dir(dir).unwrap();
    let r = f();
    std::env::set_current_dir(old).unwrap();
    r
}

/// (name, script or None for the real one, works)
const RUSTFMTS: &[(&str, Option<&str>, bool)] = &[
    ("real", None, true),
    ("missing", None, false),
    ("fails", Some("#!/bin/sh\n[ \"$1\" = --version ] && exit 0\n/bin/cat >/dev/null\nexit 3\n"), false),
    ("fails after output", Some("#!/bin/sh\n[ \"$1\" = --version ] && exit 0\n/bin/cat >/dev/null\necho '// partial'\necho broken >&2\nexit 1\n"), false),
    ("is killed after output", Some("#!/bin/sh\n[ \"$1\" = --version ] && exit 0\n/bin/cat >/dev/null\necho '// partial'\nkill -9 $$\n"), false),
    ("has no version", Some("#!/bin/sh\nexit 1\n"), false),
    ("warns", Some("#!/bin/sh\n[ \"$1\" = --version ] && exit 0\n/bin/cat\necho warning >&2\nexit 0\n"), true),
];

pub fn c16() -> Prop {
    Prop::new("C16", 24_000, 400_000,
        "the command reads at least one schema file, or fails for another reason than its arguments",
        case)
        .assume("The oracle for whether a schema is accepted is the library called in-process on the same files (what it accepts is the subject of C08 and C13).")
        .assume("A write that fails half way (full disk) must give a failing exit status; the contents of the output file are not specified then.")
}
fn case(s: &mut Src, st: &mut St) -> Result<(), Fail> {
    let top = scratch();
    let dir = top.join("w");
    std::fs::create_dir_all(&dir).unwrap();
    // ---- the input files
    let cfg = Cfg { max_files: 3, max_decls: 4, max_fields: 4, ..Cfg::default() };
    let mut p = gen(s, &cfg);
    let mut texts: Vec<String>;
    let lay = |s: &mut Src, p: &Proj| -> Vec<String> { p.files.iter().map(|f| { let n = if s.chance(1, 4) { Noise::Comments } else { Noise::Plain }; layout(s, &f.docs, &f.tokens(), n).text }).collect() };
    match s.weighted(&[7, 3, 1]) {
        0 => texts = lay(s, &p),
        1 => { let r = s.usize(RULES); let _ = break_rule(s, &mut p, r); texts = lay(s, &p); }
        _ => { texts = lay(s, &p); let r = s.usize(4); let _ = break_text(s, &p, &mut texts, r); }
    }
    write(&dir, &p, &texts);
    if s.chance(1, 8) { let f = &p.files[s.usize(p.files.len())].path; std::fs::write(dir.join(f), b"table caf\xe9 {}").unwrap(); }
    let mut inputs: Vec<String> = p.roots.iter().map(|r| p.files[*r].path.clone()).collect();
    if s.chance(1, 8) { let i = s.usize(inputs.len() + 1); let x = s.pick(&["missing.fbs", ".", "no/such.fbs"]).to_string(); inputs.insert(i, x); }
    if s.chance(1, 10) { let x = inputs[s.usize(inputs.len())].clone(); inputs.push(x); }
        for i in inputs.iter_mut() { match s.below(6) { 0 => *i = dir.join(&*i).to_string_lossy().into_owned(), 1 => *i = format!("./{i}"), _ => {} } }
    let names: Vec<PathBuf> = inputs.iter().map(PathBuf::from).collect();
    let (docs, meta) = (s.chance(1, 4), s.chance(1, 4));
    let mut args: Vec<String> = vec![];
    if docs { args.push("--ignore-docstring-errors".into()); }
    if meta { args.push("--ignore-unknown-metadata".into()); }
    // ---- the command
    let mut path = std::env::var("PATH").unwrap_or_default();
    let mut stdout = Stdout::Pipe;
    let what = s.weighted(&[4, 8, 4, 4, 1, 1, 1]);
    let mut out: Option<String> = None;
    // what the command has to write to the output path
    let mut text: Option<Vec<u8>> = None;
    let mut usage = false;
    let mut ok;
    let desc;
    match what {
        0..=2 => {
            let (r, _) = at(&dir, || translate(&names, docs, meta));
            let Ok(d) = r else { st.exclude("the library panics (C08)"); return Ok(()) };
            ok = d.is_some();
            match what {
                0 => { args.push("check".into()); args.extend(inputs.clone()); desc = "check"; }
                _ => {
                    let name = s.pick(&["out.rs", "out.rs", "out.rs", "out.rs", "sub/out.rs", "o ut.rs", "nodir/out.rs", "sub", "/dev/full", "/dev/null"]).to_string();
                    std::fs::create_dir_all(dir.join("sub")).unwrap();
                    if !name.starts_with('/') && name != "sub" && !name.starts_with("nodir") {
                        match s.below(3) { 0 => {} 1 => std::fs::write(dir.join(&name), "old ".repeat(s.range(1, 20000))).unwrap(), _ => std::fs::write(dir.join(&name), "x").unwrap() }
                    }
                    args.push(if what == 1 { "rust" } else { "dot" }.into());
                    let mut o = vec!["-o".to_string(), name.clone()];
                    if s.chance(1, 4) { o = vec![format!("-o{name}")]; }
                    let mut writable = !matches!(name.as_str(), "nodir/out.rs" | "sub" | "/dev/full");
                    let mut fmt = what == 1;
                    if what == 1 && !s.chance(1, 6) { o.push("--format=false".into()); fmt = false; }
                    else if what == 1 && s.bool() { o.push("--format=true".into()); }
                    if s.bool() { args.extend(inputs.clone()); args.extend(o); } else { args.extend(o); args.extend(inputs.clone()); }
                    desc = if what == 1 { if fmt { "rust, formatted" } else { "rust" } } else { "dot" };
                    if let Some(d) = &d {
                        if what == 1 {
                            let k = if fmt { s.weighted(&[3, 1, 1, 1, 1, 1, 1]) } else { 0 };
                            let (n, script, works) = RUSTFMTS[k];
                            if fmt { st.class(&format!("rustfmt: {n}")); }
                            if k > 0 {
                                let b = top.join("bin");
                                std::fs::create_dir_all(&b).unwrap();
                                if let Some(t) = script { use std::os::unix::fs::PermissionsExt; std::fs::write(b.join("rustfmt"), t).unwrap(); std::fs::set_permissions(b.join("rustfmt"), std::fs::Permissions::from_mode(0o755)).unwrap(); }
                                path = b.to_string_lossy().into_owned();
                            }
                            let (r, _) = captured(|| planus_codegen::generate_rust(d, fmt && k == 0));
                            let Ok(Ok(t)) = r else { st.exclude("the generator fails (C11)"); return Ok(()) };
                            text = Some(t.into_bytes());
                            if !works { ok = false; text = None; }
                        } else {
                            let (r, _) = captured(|| planus_codegen::generate_dot(d));
                            let Ok(t) = r else { st.exclude("the generator fails (C08)"); return Ok(()) };
                            text = Some(t.into_bytes());
                        }
                        // an empty graph or module can be "written" to a full device
                        if name == "/dev/full" && text.as_ref().is_some_and(|t| t.is_empty()) { writable = true; }
                        if ok && !writable { ok = false; text = None; }
                    }
                    out = Some(name);
                }
            }
        }
        3 => {
            let ignore = s.chance(1, 3);
            args.push("format".into());
            if ignore { args.push("--ignore-errors".into()); }
            let k = s.usize(inputs.len());
            args.push(inputs[k].clone());
            let (r, _) = at(&dir, || captured(|| planus_translation::format_file(&names[k], ignore)));
            let Ok(t) = r else { st.exclude("the library panics (C08)"); return Ok(()) };
            ok = t.is_some();
            stdout = *s.pick(&[Stdout::Pipe, Stdout::Pipe, Stdout::Pipe, Stdout::Pipe, Stdout::Full]);
            text = t.map(|t| (t + "\n").into_bytes());
            desc = "format";
            if stdout == Stdout::Full && ok { ok = false; text = None; }
        }
        4 => {
            args.push("generate-completions".into());
            let sh = *s.pick(&["bash", "zsh", "fish", "elvish", "powershell", "tcsh"]);
            args.push(sh.into());
            ok = sh != "tcsh";
            desc = "generate-completions";
        }
        5 => {
            // no terminal: every use of the viewer fails, and must say so
            args.push("view".into());
            let data = s.pick(&["data.bin", "missing.bin", "sub"]).to_string();
            std::fs::write(dir.join("data.bin"), [4u8, 0, 0, 0]).unwrap();
            std::fs::create_dir_all(dir.join("sub")).unwrap();
            let (r, _) = at(&dir, || translate(&names[..1], docs, meta));
            let Ok(d) = r else { st.exclude("the library panics (C08)"); return Ok(()) };
            if d.is_some() && data == "data.bin" { st.class("view: unknown root type"); }
            args.extend([inputs[0].clone(), "No.Such.Type".into(), data]);
            ok = false;
            desc = "view";
        }
        _ => {
            usage = true;
            args = match s.below(7) {
                0 => vec!["check".into()],
                1 => vec!["rust".into(), inputs[0].clone()],
                2 => vec!["dot".into(), inputs[0].clone()],
                3 => vec!["rust".into(), "-o".into(), "out.rs".into()],
                4 => vec!["rust".into(), "-o".into(), "out.rs".into(), "--format=perhaps".into(), inputs[0].clone()],
                5 => vec!["check".into(), "--no-such-option".into(), inputs[0].clone()],
                _ => vec!["compile".into(), inputs[0].clone()],
            };
            ok = false;
            desc = "bad usage";
        }
    }
    let before = snapshot(&dir);
    let r = run(&dir, &args, &path, stdout);
    let after = snapshot(&dir);
    let all = || format!("planus {}\n  exit {:?}\n  stderr: {}\n{}", args.join(" "), r.code, r.err.chars().take(2000).collect::<String>(), texts_of(&p, &texts));
    let Some(code) = r.code else { return fail("killed by a signal", all()) };
    // printing to a standard output that cannot be written is allowed to panic
    ensure!(code != 101 || stdout != Stdout::Pipe || what == 4, "panic", "{}", all());
    ensure!((code == 0) == ok, if ok { format!("{desc}: failing exit status") } else { format!("{desc}: successful exit status") }, "the operation {} but the exit status is {code}\n{}", if ok { "succeeds" } else { "fails" }, all());
    if !ok { ensure!(!r.err.trim().is_empty() || !r.out.is_empty(), format!("{desc}: silent failure"), "no message\n{}", all()); }
    if let Some(m) = changed(&before, &after, out.as_deref().filter(|_| ok)) { return fail(if ok { format!("{desc}: other file written") } else { format!("{desc}: file changed by a failing command") }, format!("{m}\n{}", all())); }
    if ok {
        match (&out, &text) {
            (Some(o), Some(t)) if !o.starts_with('/') => {
                let got = after.get(o).cloned().flatten();
                ensure!(got.as_ref() == Some(t), format!("{desc}: output file"), "the output file has {} bytes instead of the {} generated ones: {}\n{}", got.as_ref().map(|g| g.len()).unwrap_or(0), t.len(),
                    crate::code::first_diff(&String::from_utf8_lossy(got.as_deref().unwrap_or(&[])), &String::from_utf8_lossy(t)), all());
            }
            (None, Some(t)) => ensure!(&r.out == t, format!("{desc}: standard output"), "standard output has {} bytes instead of {}: {}\n{}", r.out.len(), t.len(), crate::code::first_diff(&String::from_utf8_lossy(&r.out), &String::from_utf8_lossy(t)), all()),
            _ => {}
        }
        if what == 4 { ensure!(String::from_utf8_lossy(&r.out).contains("planus"), "generate-completions: standard output", "{}", all()); }
    } else if what == 3 && stdout == Stdout::Pipe { ensure!(r.out.is_empty(), "format: output of a failing command", "standard output: {}\n{}", String::from_utf8_lossy(&r.out), all()); }
    st.class(&format!("{desc}: {}", if ok { "success" } else { "failure" }));
    if !usage { st.nontrivial(hash_str(&format!("{args:?} {}", texts_of(&p, &texts)))); st.sample(all); }
    Ok(())
}
