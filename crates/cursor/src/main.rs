//! C18: histories of array cursors, natively, in miri, and programs that must not compile.
use std::path::PathBuf;
use std::process::Command;
use std::sync::Mutex;
use vmodel::engine::{env_seed, fail, verif_dir, Fail, Prop, St};
use vmodel::src_::{hash_str, Src};

fn case(s: &mut Src, st: &mut St) -> Result<(), Fail> {
    let mut choose = |n: usize| s.usize(n);
    match cursorlib::history(&mut choose) {
        Err(b) => fail(b.sig, b.msg),
        Ok(x) => {
            st.class(&format!("elements: {}", x.ty));
            st.class(if x.abandoned { "part left unfilled" } else { "finished" });
            if x.len >= 2 && x.log.iter().filter(|l| l.starts_with("split") || l.starts_with("write")).count() >= 2 {
                st.nontrivial(hash_str(&format!("{} {} {:?}", x.ty, x.len, x.log)));
                st.sample(|| format!("{} x {}: {}", x.len, x.ty, x.log.join("; ")));
            }
            Ok(())
        }
    }
}

fn cargo(args: &[&str]) -> Command {
    let mut c = Command::new("cargo");
    c.args(args).current_dir(concat!(env!("CARGO_MANIFEST_DIR"), "/../cursorlib"));
    c
}
fn target() -> PathBuf { std::env::var_os("CARGO_TARGET_DIR").map(PathBuf::from).unwrap_or_else(|| verif_dir().join(".build/target")) }

/// the same histories in miri, which sees invalid pointers, uninitialised reads and leaks
fn in_miri(st: &mut St) -> Result<(), Fail> {
    if !cargo(&["+nightly", "miri", "--version"]).env_remove("RUSTUP_TOOLCHAIN").output().map(|o| o.status.success()).unwrap_or(false) {
        st.exclude("miri is not installed");
        return Ok(());
    }
    let dir = target().join("miri");
    let run = |from: u64, to: u64| {
        let o = cargo(&["+nightly", "miri", "run", "--offline", "-q", "--bin", "histories", "--"]).args([env_seed().to_string(), from.to_string(), to.to_string()])
            .env_remove("RUSTUP_TOOLCHAIN").env("MIRIFLAGS", "-Zmiri-symbolic-alignment-check").env("CARGO_TARGET_DIR", &dir).output().expect("cargo miri");
        (o.status.success(), String::from_utf8_lossy(&o.stdout).into_owned(), String::from_utf8_lossy(&o.stderr).into_owned())
    };
    run(0, 1); // builds
    let n: u64 = if st.thorough { 3000 } else { 240 };
    let chunk = if st.thorough { 30 } else { 10 };
    let next = Mutex::new(0u64);
    let bad: Mutex<Option<(String, String)>> = Mutex::new(None);
    let done = Mutex::new(0u64);
    std::thread::scope(|sc| for _ in 0..8 {
        sc.spawn(|| loop {
            let a = { let mut g = next.lock().unwrap(); let a = *g; *g += chunk; a };
            if a >= n || bad.lock().unwrap().is_some() { return; }
            let (ok, out, err) = run(a, a + chunk);
            if ok && out.contains("DONE") { *done.lock().unwrap() += chunk; continue; }
            let at = out.lines().filter(|l| l.starts_with("history")).last().unwrap_or("").to_string();
            let text: String = err.lines().chain(out.lines().rev().take(4)).take(30).collect::<Vec<_>>().join("\n");
            let sig = if out.contains("\nBAD ") { "miri: wrong result" } else if err.contains("Undefined Behavior") { "miri: undefined behaviour" } else if err.contains("memory leaked") { "miri: leak" } else { "miri failed" };
            *bad.lock().unwrap() = Some((sig.into(), format!("{at} of seed {}: {text}", env_seed())));
        });
    });
    st.note(|| format!("{} histories in miri", done.lock().unwrap()));
    for _ in 0..*done.lock().unwrap() { st.class("history in miri"); }
    match bad.into_inner().unwrap() {
        None => Ok(()),
        Some((s, t)) if s == "miri failed" => panic!("miri failed without a verdict: {t}"),
        Some((s, t)) => fail(s, t),
    }
}

/// a split that does not add up cannot be built, or panics
fn sizes(st: &mut St) -> Result<(), Fail> {
    let o = cargo(&["build", "--release", "--offline", "--message-format=json"]).env("CARGO_TARGET_DIR", target().join("cursorlib")).output().expect("cargo");
    let rlib = String::from_utf8_lossy(&o.stdout).lines().filter(|l| l.contains("libarray_init_cursor") && l.contains("compiler-artifact")).filter_map(|l| {
        let j: serde_json::Value = serde_json::from_str(l).ok()?;
        j["filenames"].as_array()?.iter().find_map(|f| f.as_str().filter(|f| f.ends_with(".rlib")).map(|s| s.to_string()))
    }).last().unwrap_or_else(|| panic!("no rlib: {}", String::from_utf8_lossy(&o.stderr)));
    let dir = verif_dir().join(format!(".build/scratch/cursor-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let mut r = Src::new(env_seed() ^ 0x517e5);
    let mut cases = vec![];
    let max = u64::MAX;
    for (k, n, l, m) in [(0, 0, max, 1u64), (0, 1, max, 2), (2, 0, 1, 0), (0, 0, 1, max)] { cases.push((k, n, l, m, "()")); }
    for (k, n, l, m) in [(0, 5, 2, 3), (1, 4, 4, 0), (2, 6, 6, 0)] { cases.push((k, n, l, m, "String")); }
    while cases.len() < if st.thorough { 300 } else { 36 } {
        let kind = r.usize(3);
        let n = r.below(9);
        let l = r.below(10);
        let m = if kind == 2 { 0 } else { r.below(10) };
        if l + m != n || r.chance(1, 4) { cases.push((kind, n, l, m, *r.pick(&["u8", "u32", "String", "()"]))); }
    }
    let next = Mutex::new(0usize);
    let bad: Mutex<Vec<(usize, String)>> = Mutex::new(vec![]);
    let counts = Mutex::new((0u64, 0u64));
    std::thread::scope(|sc| for _ in 0..8 {
        sc.spawn(|| loop {
            let i = { let mut g = next.lock().unwrap(); *g += 1; *g - 1 };
            let Some((kind, n, l, m, t)) = cases.get(i) else { return };
            let call = match kind {
                0 => format!("c.split::<{l}, {m}>(); std::mem::forget(r);"),
                1 => format!("c.write::<{l}, {m}>(std::array::from_fn(|_| Default::default())); std::mem::forget(r);"),
                _ => format!("c.assert_size::<{l}>(); std::mem::forget(r);"),
            };
            let src = format!("#![allow(unused, unreachable_code)]\nfn main() {{ let mut d: [std::mem::MaybeUninit<{t}>; {n}] = [const {{ std::mem::MaybeUninit::uninit() }}; {n}];\n let c = array_init_cursor::Cursor::new(&mut d);\n let r = {call} }}\n");
            let f = dir.join(format!("p{i}.rs"));
            let exe = dir.join(format!("p{i}"));
            std::fs::write(&f, &src).unwrap();
            let o = Command::new("rustc").args(["--edition", "2021", "-C", "debuginfo=0", "--extern"]).arg(format!("array_init_cursor={rlib}")).arg("-o").arg(&exe).arg(&f).output().expect("rustc");
            let valid = l.checked_add(*m) == Some(*n);
            let err = String::from_utf8_lossy(&o.stderr).into_owned();
            if valid {
                counts.lock().unwrap().0 += 1;
                if !o.status.success() { bad.lock().unwrap().push((i, format!("a correct split does not compile: {err}\n{src}"))); }
            } else {
                counts.lock().unwrap().1 += 1;
                // accepted by the compiler: then it has to panic when it runs
                if o.status.success() && Command::new(&exe).output().map(|o| o.status.success()).unwrap_or(false) {
                    bad.lock().unwrap().push((i, format!("{n} elements can be split into {l} and {m}:\n{src}")));
                }
            }
        });
    });
    let _ = std::fs::remove_dir_all(&dir);
    let (v, i) = counts.into_inner().unwrap();
    for _ in 0..v { st.class("program with a correct split"); }
    for _ in 0..i { st.class("program with sizes that do not add up"); }
    let mut b = bad.into_inner().unwrap();
    b.sort();
    match b.into_iter().next() {
        None => Ok(()),
        Some((_, m)) => fail("sizes that do not add up", m),
    }
}

fn main() {
    vmodel::engine::main(vec![Prop::new("C18", 600_000, 20_000_000, "the array has at least two elements and the history at least two splits or writes", case)
        .probe("sizes", sizes)
        .probe("miri", in_miri)
        .assume("arrays of up to 8, 13 and 21 elements; a cursor is abandoned at most once per history, because abandoning two at once is a panic while panicking")]);
}
