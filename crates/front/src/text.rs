//! C08, C09: schema text in, results, diagnostics and formatted text out.
use crate::run::*;
use crate::sm::*;
use crate::wild::*;
use planus_translation::format_file;
use std::path::Path;
use vmodel::engine::{fail, Fail, Prop};
use vmodel::ensure;
use vmodel::src_::hash_str;

fn fmt(path: &Path, ignore: bool) -> (Result<Option<String>, Fail>, String) { captured(|| format_file(&path, ignore)) }

pub fn c09() -> Prop {
    Prop::new("C09", 350_000, 5_000_000,
        "texts of at least ten tokens with at least two comments between tokens",
        |s, st| {
            let valid = s.bool();
            let noise = *s.pick(&[Noise::Comments, Noise::Wild, Noise::Comments, Noise::Space, Noise::Plain]);
            let dir = scratch();
            let (text, toks, project) = if valid {
                let cfg = Cfg { max_files: 1, max_fields: 4, ..Cfg::default() };
                let p = gen(s, &cfg);
                let noise = if noise == Noise::Wild { Noise::Comments } else { noise };
                let toks = p.files[0].tokens();
                (layout(s, &p.files[0].docs, &toks, noise).text, toks, Some(p))
            } else {
                let toks = schema(s);
                (layout(s, &[], &toks, noise).text, toks, None)
            };
            let path = dir.join("f0.fbs");
            std::fs::write(&path, &text).unwrap();
            let lx = lex(&text).expect("harness: the input does not lex");
            {
                let mine: Vec<&String> = lx.iter().filter_map(|x| match x { Lx::Tok(t) => Some(t), _ => None }).collect();
                assert!(mine.iter().copied().eq(toks.iter().map(|t| &t.t)), "harness: {mine:?}\n{text}");
            }
            let (r, diag) = fmt(&path, false);
            let out = match r {
                Err(f) => return fail(&f.sig, format!("{}\n{diag}\n{text}", f.msg)),
                Ok(None) => return fail("rejected", format!("a grammatical schema is not formatted: {diag}\n{text}")),
                Ok(Some(t)) => t,
            };
            ensure!(!has_error(&diag), "error-and-success", "{diag}\n{text}");
            let Some(lo) = lex(&out) else { return fail("tokens", format!("the formatted text has invalid tokens\n{text}\nformatted:\n{out}")); };
            let (a, b) = (essence(&lx), essence(&lo));
            if a != b { let i = (0..a.len().max(b.len())).find(|i| a.get(*i) != b.get(*i)).unwrap(); return fail("tokens", format!("token {i}: {:?} became {:?}\n{text}\nformatted:\n{out}", a.get(i), b.get(i))); }
            let (mut ca, mut cb) = (comments(&lx, false), comments(&lo, false));
            ca.sort(); cb.sort();
            if ca != cb { return fail("comments", format!("comments changed: before {ca:?}\nafter {cb:?}\n{text}\nformatted:\n{out}")); }
            let (da, db) = (comments(&lx, true), comments(&lo, true));
            if da != db { return fail("doc-order", format!("doc comments changed order: before {da:?}\nafter {db:?}\n{text}\nformatted:\n{out}")); }
            // a second run changes nothing
            let path2 = dir.join("f1.fbs");
            std::fs::write(&path2, &out).unwrap();
            let (r, diag) = fmt(&path2, false);
            let out2 = match r {
                Err(f) => return fail(&f.sig, format!("{}\n{diag}\n{out}", f.msg)),
                Ok(None) => return fail("rejected-own-output", format!("formatted text is rejected: {diag}\n{out}")),
                Ok(Some(t)) => t,
            };
            ensure!(out2 == out, "not-idempotent", "{}\n{text}\nonce:\n{out}\ntwice:\n{out2}", crate::code::first_diff(&out, &out2));
            // with --ignore-errors a text without errors is formatted the same
            let (r, _) = fmt(&path, true);
            let same = match &r { Ok(Some(t)) => *t == out, _ => false };
            ensure!(same, "ignore-errors-differs", "ignoring errors gives {r:?}\n{text}\nformatted:\n{out}");
            // same meaning
            let (before, d1) = translate(&[path.clone()], false, false);
            // a panic of the translation is C08's concern
            let before = before.unwrap_or(None);
            if project.is_some() && before.is_none() { return fail("valid-rejected", format!("{d1}\n{text}")); }
            if let Some(before) = before {
                std::fs::write(&path, &out).unwrap();
                let after = accept(&[path.clone()], &|| format!("{text}\nformatted:\n{out}"))?;
                if let Some(m) = differ(&dump(&after), &dump(&before), &["types", "layout", "values", "docs"]) { return fail("meaning", format!("{m}\n{text}\nformatted:\n{out}")); }
                st.class("accepted schemas");
            } else { st.class("grammatical but invalid schemas"); }
            if !ca.is_empty() { st.class("with comments"); }
            if toks.len() >= 10 && ca.len() >= 2 { st.nontrivial(hash_str(&text)); st.sample(|| format!("{text}\nformatted:\n{out}")); }
            Ok(())
        })
}

// ---------------------------------------------------------------- C08
fn random_token(s: &mut vmodel::Src) -> String {
    match s.weighted(&[5, 4, 2, 2, 2]) {
        0 => ident(s),
        1 => s.pick(&["{", "}", "(", ")", "[", "]", ":", ";", ",", ".", "=", "+", "-"]).to_string(),
        2 => string(s),
        3 => { let mut v = vec![]; expr(s, &mut v, 1); v.pop().map(|t| t.t).unwrap_or_default() }
        _ => s.pick(KEYWORDS).to_string(),
    }
}
fn mutate_tokens(s: &mut vmodel::Src, t: &mut Vec<Tk>) {
    for _ in 0..1 + s.small(4) {
        if t.is_empty() { t.push(tk("table")); }
        let i = s.usize(t.len());
        match s.below(7) {
            0 => { t.remove(i); }
            1 => { let x = t[i].clone(); t.insert(i, x); }
            2 => { let j = s.usize(t.len()); t.swap(i, j); }
            3 => t[i].t = random_token(s),
            4 => { let x = random_token(s); t.insert(i, tk(&x)); }
            5 => { let n = 1 + s.usize((t.len() - i).min(8)); let b: Vec<Tk> = t[i..i + n].to_vec(); let j = s.usize(t.len() + 1); for (k, x) in b.into_iter().enumerate() { t.insert(j + k, x); } }
            _ => { let d = doc_text(s); t[i].docs.push(d); }
        }
    }
}
fn mutate_bytes(s: &mut vmodel::Src, b: &mut Vec<u8>) {
    for _ in 0..1 + s.small(5) {
        let i = s.usize(b.len() + 1);
        match s.below(6) {
            0 if i < b.len() => { b.remove(i); }
            1 if i < b.len() => b[i] = s.below(256) as u8,
            2 => { let x = s.below(256) as u8; b.insert(i, x); }
            3 => b.truncate(i),
            4 => { let x: &[u8] = *s.pick(&[&b"\""[..], b"'", b"\\", b"\\u", b"\\ud800", b"\\x9", b"//", b"///", b"//!", b"\r", b"\r\n", b"\xef\xbb\xbf", b"\0", b"\xc3\xa9", b"\xff", b"0x", b"1e", b"1.5.2", b"..", b"#", b"@", b"/*", b"*/", b"\\\n", b"\\\xc3\xa9", b"\xe2\x80\xa8"]); for (k, c) in x.iter().enumerate() { b.insert(i + k, *c); } }
            _ => { let x = random_token(s); for (k, c) in x.bytes().enumerate() { b.insert(i + k, c); } }
        }
    }
}
/// schemas whose numbers are at the edge of what the layout can hold
fn extreme(s: &mut vmodel::Src) -> String {
    let big = |s: &mut vmodel::Src| -> String { match s.below(3) {
        0 => s.pick(&["4294967295", "4294967294", "4294967293", "2147483647", "2147483646", "65535", "65534", "65533", "32767", "32766", "32765", "32768", "65536", "1073741824", "2147483648", "4294967296"]).to_string(),
        1 => (1u64 << s.below(34)).to_string(),
        _ => s.below(40).to_string(),
    } };
    let mut o = String::new();
    match s.below(7) {
        0 => { o.push_str("table T {\n"); for i in 0..1 + s.below(3) { o.push_str(&format!("f{i}: {} (id: {});\n", s.pick(&["int", "U", "[U]", "string"]), big(s))); } o.push_str("}\nunion U { T }\n"); }
        1 => { o.push_str(&format!("struct S (force_align: {}) {{ a: byte; }}\nstruct Q {{ a: byte; s: S; b: byte; t: S; }}\ntable T {{ s: S; v: [Q]; }}\n", big(s))); }
        2 => {
            // doubling structs
            o.push_str("struct S0 { a: long; b: byte; }\n");
            let n = 1 + s.below(40);
            for i in 1..=n { o.push_str(&format!("struct S{i} {{ a: S{}; b: S{}; }}\n", i - 1, i - 1)); }
            o.push_str(&format!("table T {{ s: S{n}; }}\n"));
        }
        3 => { o.push_str(&format!("table T {{ a: int (force_align: {}); b: string (force_align: {}); }}\n", big(s), big(s))); }
        4 => {
            let n = *s.pick(&[254usize, 255, 256, 257, 300]);
            let m = s.below(4);
            o.push_str("table T { u: U; }\nunion U {");
            for i in 0..n { o.push_str(&match m { 0 => format!("V{i}: string,"), 1 => format!("V{i}: T,"), 2 if i % 2 == 0 => "T,".to_string(), _ => format!("V{i}: T, ") }); }
            o.push_str("}\n");
        }
        5 => {
            let n = *s.pick(&[250usize, 1000, 3000]);
            let (a, b) = *s.pick(&[("[", "]"), ("[", ""), ("", "]")]);
            o.push_str(&format!("table T {{ a: {}int{}; }}\n", a.repeat(n), b.repeat(n)));
        }
        _ => {
            let n = *s.pick(&[100usize, 1000, 3000]);
            let x = *s.pick(&["-", "+", "[", "-["]);
            o.push_str(&format!("table T {{ a: [int] = {}; }}\n", x.repeat(n) + "1" + if x.contains('[') { "]" } else { "" }.repeat(n).as_str()));
        }
    }
    o
}

pub fn c08() -> Prop {
    Prop::new("C08", 200_000, 2_000_000,
        "inputs that get past the lexer with at least five tokens, or whose files cannot be loaded",
        |s, st| {
            let dir = scratch();
            let mut files: Vec<(String, Vec<u8>)> = vec![];
            let mut roots: Vec<String> = vec!["f0.fbs".into()];
            let kind = s.weighted(&[6, 5, 3, 3, 1, 3]);
            match kind {
                0 | 3 => {
                    let cfg = Cfg { crlf_docs: true, ..Cfg::default() };
                    let p = gen(s, &cfg);
                    let victim = s.usize(p.files.len());
                    for (i, f) in p.files.iter().enumerate() {
                        let mut t = f.tokens();
                        if i == victim || s.chance(1, 4) { if kind == 0 { mutate_tokens(s, &mut t); } }
                        let noise = *s.pick(&[Noise::Plain, Noise::Space, Noise::Comments, Noise::Wild]);
                        let mut b = layout(s, &f.docs, &t, noise).text.into_bytes();
                        if kind == 3 && i == victim { mutate_bytes(s, &mut b); }
                        files.push((f.path.clone(), b));
                    }
                    roots = p.roots.iter().map(|r| p.files[*r].path.clone()).collect();
                    st.class(if kind == 0 { "token mutations" } else { "byte mutations" });
                }
                1 => { let mut t = schema(s); if s.chance(1, 3) { mutate_tokens(s, &mut t); } let noise = *s.pick(&[Noise::Plain, Noise::Wild]); files.push(("f0.fbs".into(), layout(s, &[], &t, noise).text.into_bytes())); st.class("grammatical"); }
                2 => { let n = s.small(30); let t: Vec<Tk> = (0..n).map(|_| tk(&random_token(s))).collect(); files.push(("f0.fbs".into(), layout(s, &[], &t, Noise::Plain).text.into_bytes())); st.class("token soup"); }
                4 => { files.push(("f0.fbs".into(), extreme(s).into_bytes())); st.class("extreme numbers and nesting"); }
                _ => {
                    // include graphs over files some of which cannot be read
                    let n = s.range(1, 4);
                    for i in 0..n {
                        let mut o = String::new();
                        if s.chance(1, 6) { o.push_str("namespace a.b;\n"); }
                        for _ in 0..s.small(3) {
                            let target = match s.below(9) { 0 => "missing.fbs".to_string(), 1 => "dir".to_string(), 2 => "".to_string(), 3 => "../f0.fbs".to_string(), 4 => "/nonexistent/x.fbs".to_string(), 5 => "latin1.fbs".to_string(), 6 => "f0.fbs/x".to_string(), _ => format!("f{}.fbs", s.below(n as u64)) };
                            o.push_str(&format!("include \"{target}\";\n"));
                        }
                        if s.chance(1, 3) { o.push_str("namespace a.b;\n"); }
                        for _ in 0..s.small(3) { let mut t = vec![]; decl(s, &mut t); o.push_str(&layout(s, &[], &t, Noise::Plain).text); }
                        files.push((format!("f{i}.fbs"), o.into_bytes()));
                    }
                    std::fs::create_dir_all(dir.join("dir")).unwrap();
                    std::fs::write(dir.join("latin1.fbs"), b"table caf\xe9 {}").unwrap();
                    roots = (0..s.range(0, 3)).map(|_| s.pick(&["f0.fbs", "f0.fbs", "f1.fbs", "f2.fbs", "missing.fbs", "dir", "latin1.fbs", "./f0.fbs", "dir/../f0.fbs"]).to_string()).collect();
                    st.class("include graphs");
                }
            }
            for (f, b) in &files {
                let p = dir.join(f);
                if let Some(d) = p.parent() { let _ = std::fs::create_dir_all(d); }
                std::fs::write(p, b).unwrap();
            }
            let (docs, meta) = (s.chance(1, 4), s.chance(1, 4));
            let all = || format!("roots {roots:?}, ignore_docstring_errors {docs}, ignore_unknown_metadata {meta}\n{}", files.iter().map(|(f, b)| format!("--- {f}\n{}\n", String::from_utf8_lossy(b))).collect::<String>());
            let paths: Vec<_> = roots.iter().map(|r| dir.join(r)).collect();
            let (r, diag) = translate(&paths, docs, meta);
            match r {
                Err(f) => return fail(&f.sig, format!("{}\n{diag}\n{}", f.msg, all())),
                Ok(None) => { ensure!(has_error(&diag), "silent-failure", "translation fails without a diagnostic\n{diag}\n{}", all()); st.class("rejected with a diagnostic"); }
                Ok(Some(d)) => {
                    ensure!(!has_error(&diag), "error-and-success", "translation prints an error and succeeds\n{diag}\n{}", all());
                    st.class("accepted");
                    crate::code::rust(&d, &all)?;
                    let (r, diag) = captured(|| planus_codegen::generate_dot(&d));
                    r.map_err(|f| Fail { sig: f.sig, msg: format!("generate_dot: {}\n{diag}\n{}", f.msg, all()) })?;
                }
            }
            let mut lexes = false;
            for path in files.iter().map(|f| f.0.as_str()).chain(roots.iter().map(|r| r.as_str())) {
                for ignore in [false, true] {
                    let (r, diag) = fmt(&dir.join(path), ignore);
                    match r {
                        Err(f) => return fail(&format!("format:{}", f.sig), format!("formatting {path}: {}\n{diag}\n{}", f.msg, all())),
                        Ok(None) => ensure!(has_error(&diag), "silent-failure:format", "formatting {path} (ignore {ignore}) fails without a diagnostic\n{diag}\n{}", all()),
                        Ok(Some(_)) => { lexes = true; ensure!(ignore || !has_error(&diag), "error-and-success:format", "formatting {path} prints an error and succeeds\n{diag}\n{}", all()); }
                    }
                }
            }
            let unloadable = roots.iter().any(|r| !files.iter().any(|f| f.0 == *r));
            if unloadable || (lexes && files.iter().any(|f| String::from_utf8(f.1.clone()).ok().and_then(|t| lex(&t)).is_some_and(|l| l.len() >= 5))) { st.nontrivial(hash_str(&all())); st.sample(all); }
            Ok(())
        })
        .assume("Nesting of brackets and signs is at most 3000 deep: the front end recurses over the syntax tree, so its stack use grows with the depth.")
}
