//! C23: the errors for a schema that breaks one rule point at what is wrong.
use crate::rules::*;
use crate::run::*;
use crate::sm::*;
use std::collections::BTreeMap;
use vmodel::engine::{fail, Fail, Prop};
use vmodel::src_::hash_str;
use vmodel::ensure;

/// One diagnostic as printed: its severity, the places in its headers, and the lines it quotes and marks.
#[derive(Debug, Default)]
pub struct Diag { pub error: bool, pub title: String, pub heads: Vec<(String, usize, usize)>, pub quoted: Vec<(String, usize, String)>, pub marked: Vec<(String, usize)> }

pub fn parse(text: &str) -> Result<Vec<Diag>, String> {
    let mut out: Vec<Diag> = vec![];
    let mut file = String::new();
    for l in text.lines() {
        if let Some((sev, _)) = l.split_once(':').filter(|(s, _)| ["error", "warning", "note", "help", "bug"].contains(s)) {
            out.push(Diag { error: sev == "error", title: l.to_string(), ..Diag::default() });
            continue;
        }
        let Some(d) = out.last_mut() else { if l.trim().is_empty() { continue } else { return Err(format!("a line before the first diagnostic: {l:?}")) } };
        let t = l.trim_start();
        if let Some(loc) = t.strip_prefix("┌─ ") {
            let mut it = loc.rsplitn(3, ':');
            let (c, n, f) = (it.next(), it.next(), it.next());
            let (Some(c), Some(n), Some(f)) = (c.and_then(|c| c.parse().ok()), n.and_then(|n| n.parse().ok()), f) else { return Err(format!("a header without a position: {l:?}")) };
            file = f.to_string();
            d.heads.push((file.clone(), n, c));
            d.marked.push((file.clone(), n));
        } else if let Some((n, rest)) = l.split_once('│') {
            // a quoted line has its number in the margin, the marks below it have none
            if let Ok(n) = n.trim().parse() {
                let body = rest.strip_prefix(' ').unwrap_or(rest);
                // spans of several lines are marked by a bar on the left
                let multi = ["╭", "│", "╰"].iter().any(|b| body.trim_start().starts_with(b));
                d.quoted.push((file.clone(), n, body.to_string()));
                if multi { d.marked.push((file.clone(), n)); }
            } else if rest.contains(['^', '-', '╰', '╭']) {
                if let Some((f, n, _)) = d.quoted.last() { let m = (f.clone(), *n); d.marked.push(m); }
            }
        }
    }
    Ok(out)
}

/// The parts of a file a change may be blamed on: the lines of the declarations (or head lines) that contain changed tokens.
fn items(toks: &[Tk]) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let (mut from, mut depth) = (0, 0i32);
    for (i, t) in toks.iter().enumerate() {
        match t.t.as_str() { "{" => depth += 1, "}" => depth -= 1, _ => {} }
        if depth <= 0 && (t.t == ";" || t.t == "}") { out.push((from, i)); from = i + 1; depth = 0; }
    }
    if from < toks.len() { out.push((from, toks.len() - 1)); }
    out
}
/// The same for the members of declarations: fields, values, variants and what is in front of the brace.
fn members(toks: &[Tk]) -> Vec<(usize, usize)> {
    let mut out = vec![];
    for (from, to) in items(toks) {
        let mut start = from;
        let mut depth = 0;
        for i in from..=to {
            match toks[i].t.as_str() { "(" | "[" => depth += 1, ")" | "]" => depth -= 1, _ => {} }
            if i == to || matches!(toks[i].t.as_str(), "{" | "}") || (depth == 0 && matches!(toks[i].t.as_str(), ";" | ",")) { out.push((start, i)); start = i + 1; depth = 0; }
        }
    }
    out
}
/// index of the first and one past the last token of `new` that differ
fn changed(old: &[Tk], new: &[Tk]) -> Option<(usize, usize)> {
    if old == new { return None; }
    let a = old.iter().zip(new).take_while(|(x, y)| x == y).count();
    let b = old[a..].iter().rev().zip(new[a..].iter().rev()).take_while(|(x, y)| x == y).count();
    Some((a, new.len() - b))
}
fn line_of(text: &str, at: usize) -> usize { text.as_bytes()[..at.min(text.len())].iter().filter(|b| **b == b'\n').count() + 1 }

/// These break a rule between two places, and the header of the diagnostic may be at either.
const PAIRS: &[&str] = &["two fields with one name", "two enum values with one name", "two enum values with one number", "two union variants with one name", "the same type twice in a union", "an id used twice",
    "ids on some fields only", "two namespaces", "an include after the namespace or a declaration", "a namespace after a declaration", "a repeated file_identifier or file_extension", "two root types", "an attribute twice", "two declarations with one name", "two declarations with one name in two files"];
/// These are about a declaration as a whole.
const WHOLE: &[&str] = &["a missing id", "a union with more than 255 variants", "a table field of 64 KiB or more", "a struct that contains itself", "an empty struct", "a declaration with the path of a namespace"];
/// These change what the names of a whole file mean.
const FILES: &[&str] = &["a namespace after a declaration", "two namespaces", "a declaration with the path of a namespace", "an include after the namespace or a declaration", "an include of a file that does not exist"];

pub fn c23() -> Prop {
    Prop::new("C23", 40_000, 1_000_000, "one rule is broken at a random place of a random project, and an error points into the member or declaration that was changed",
        |s, st| {
            let cfg = Cfg { max_files: 3, max_decls: 5, max_fields: 5, ..Cfg::default() };
            let base = gen(s, &cfg);
            let mut p = base.clone();
            let syntax = s.chance(1, 8);
            let noise = *s.pick(&[Noise::Plain, Noise::Plain, Noise::Space, Noise::Comments]);
            let mut at: Vec<Vec<usize>> = vec![];
            let mut before: Vec<String> = vec![];
            let mut texts: Vec<String> = vec![];
            let what;
            let none = || "the rule cannot be broken in this project";
            if syntax {
                texts = p.files.iter().map(|f| layout(s, &f.docs, &f.tokens(), Noise::Plain).text).collect();
                before = texts.clone();
                let rule = s.usize(4);
                let Some(b) = break_text(s, &p, &mut texts, rule) else { st.exclude(none()); return Ok(()) };
                what = b.what;
            } else {
                let rule = s.usize(RULES);
                let Some(b) = break_rule(s, &mut p, rule) else { st.exclude(none()); return Ok(()) };
                what = b.what;
                for f in &p.files { let l = layout(s, &f.docs, &f.tokens(), noise); texts.push(l.text); at.push(l.at); }
            }
            let dir = scratch();
            write(&dir, &p, &texts);
            let all = || format!("broken rule: {what}\n{}", texts_of(&p, &texts));
            let (r, diag) = translate(&roots(&dir, &p), false, false);
            let r = r.map_err(|f| Fail { sig: f.sig, msg: format!("{}\n{}", f.msg, all()) })?;
            if r.is_some() { st.exclude("the schema is accepted (C13)"); return Ok(()) }
            let diags = match parse(&diag) { Ok(d) => d, Err(e) => return fail("unreadable", format!("{e}\n{diag}\n{}", all())) };
            let which = |name: &str| p.files.iter().position(|f| dir.join(&f.path).display().to_string() == name || std::fs::canonicalize(dir.join(&f.path)).is_ok_and(|c| std::fs::canonicalize(name).is_ok_and(|n| n == c)));
            // every place named exists, and every line quoted is that line
            let mut heads: Vec<Vec<(usize, usize)>> = vec![];
            for d in &diags {
                let mut h = vec![];
                for (name, line, col) in &d.heads {
                    let Some(f) = which(name) else { return fail("unknown-file", format!("{} is reported for {name:?}, which is no input\n{diag}\n{}", d.title, all())) };
                    let lines: Vec<&str> = texts[f].split('\n').collect();
                    ensure!(*line >= 1 && *line <= lines.len() && *col >= 1 && *col <= lines[*line - 1].chars().count() + 1, "no-such-position", "{}: {name}:{line}:{col} does not exist\n{diag}\n{}", d.title, all());
                    let start: usize = lines[..*line - 1].iter().map(|l| l.len() + 1).sum();
                    h.push((f, start + lines[*line - 1].chars().take(*col - 1).map(|c| c.len_utf8()).sum::<usize>()));
                }
                heads.push(h);
                for (name, line, body) in &d.quoted {
                    let Some(f) = which(name) else { return fail("unknown-file", format!("{} quotes {name:?}\n{diag}\n{}", d.title, all())) };
                    let src = texts[f].split('\n').nth(line.wrapping_sub(1)).unwrap_or("").trim_end();
                    if src.chars().any(|c| c.is_control()) { continue; }
                    ensure!(body.trim_end().ends_with(src), "wrong-quote", "{}: line {line} is quoted as {body:?}, but it is {src:?}\n{diag}\n{}", d.title, all());
                }
            }
            let errors: Vec<usize> = (0..diags.len()).filter(|i| diags[*i].error && !diags[*i].heads.is_empty()).collect();
            ensure!(!errors.is_empty(), "no-place", "{what}: no error says where\n{diag}\n{}", all());
            let sig = |k: &str| format!("{k}: {what}");
            if syntax {
                // a parser cannot know before the change, and says so at or behind it
                let Some(f) = (0..texts.len()).find(|f| before[*f] != texts[*f]) else { st.exclude(none()); return Ok(()) };
                let c = before[f].bytes().zip(texts[f].bytes()).take_while(|(a, b)| a == b).count();
                let line = texts[f][..c].rfind('\n').map(|n| n + 1).unwrap_or(0);
                let ok = errors.iter().any(|i| heads[*i].iter().any(|(g, h)| *g == f && *h >= line));
                ensure!(ok, sig("early"), "the change is at byte {c}, and no error is there or later\n{diag}\n{}", all());
                // what is unexpected starts where the error points, unless it is the end of the file
                for i in &errors {
                    for (g, h) in &heads[*i] {
                        let rest = &texts[*g][*h..];
                        let nothing = rest.lines().all(|l| l.trim().is_empty() || l.trim_start().starts_with("//"));
                        ensure!(nothing || !rest.starts_with(|c: char| c.is_ascii_whitespace()), sig("between"), "an error points between two tokens, at byte {h}\n{diag}\n{}", all());
                    }
                }
                if heads[errors[0]].iter().any(|(g, h)| *g == f && line <= *h && *h <= c + 1 + texts[f][c..].find('\n').unwrap_or(0)) { st.class("syntax errors reported on the line of the change"); }
            } else {
                let mut places: Vec<(usize, usize, usize)> = vec![];
                let mut lines: Vec<(usize, usize, usize)> = vec![];
                let mut whole: Vec<(usize, usize, usize)> = vec![];
                for f in 0..p.files.len() {
                    let toks = p.files[f].tokens();
                    let Some((a, e)) = changed(&base.files.get(f).map(|b| b.tokens()).unwrap_or_default(), &toks) else { continue };
                    let touched = |(from, to): &(usize, usize)| *from < e.max(a + 1) && to + 1 > a.min(toks.len() - 1);
                    for (from, to) in members(&toks).into_iter().filter(touched) {
                        let (x, y) = (at[f][from], at[f][to] + toks[to].t.len());
                        places.push((f, x, y));
                        lines.push((f, line_of(&texts[f], x), line_of(&texts[f], y)));
                    }
                    for (from, to) in items(&toks).into_iter().filter(touched) { whole.push((f, line_of(&texts[f], at[f][from]), line_of(&texts[f], at[f][to]))); }
                }
                let marks = |i: usize, set: &[(usize, usize, usize)]| diags[i].marked.iter().any(|(n, l)| which(n).is_some_and(|f| set.iter().any(|(g, a, b)| *g == f && a <= l && l <= b)));
                let ok = errors.iter().any(|i| if WHOLE.contains(&what) { marks(*i, &whole) } else if PAIRS.contains(&what) { marks(*i, &lines) }
                    else { heads[*i].iter().any(|(f, h)| places.iter().any(|(g, a, b)| f == g && a <= h && h <= b)) });
                ensure!(ok, sig("elsewhere"), "no error points at the change, which is at {places:?} (file, from, to; lines {lines:?})\n{diag}\n{}", all());
                if PAIRS.contains(&what) && what != "an attribute twice" {
                    // the place it contradicts is marked too, be it on the same line
                    let shared = |n: &str, l: usize| which(n).is_some_and(|f| {
                        let toks = p.files[f].tokens();
                        members(&toks).into_iter().filter(|(from, to)| line_of(&texts[f], at[f][*from]) <= l && l <= line_of(&texts[f], at[f][*to])).count() >= 2
                    });
                    let both = |i: usize| {
                        let (m, first) = (&diags[i].marked, &diags[i].marked[0]);
                        m.iter().any(|x| x != first) || shared(&first.0, first.1)
                    };
                    ensure!(errors.iter().any(|i| both(*i)), sig("one-sided"), "no error marks two places\n{diag}\n{}", all());
                }
                if what == "a struct that contains itself" {
                    // what leads to such a struct is not at fault
                    for i in &errors {
                        for (f, h) in &heads[*i] {
                            let toks = p.files[*f].tokens();
                            ensure!(!(1..toks.len()).any(|k| at[*f][k - 1] == *h && toks[k].t.starts_with("Enter")), sig("not-in-the-cycle"), "the struct that is marked does not contain itself\n{diag}\n{}", all());
                        }
                    }
                }
                if !FILES.contains(&what) {
                    // an error elsewhere has to follow from the change: its declaration refers to the changed one
                    let all_items: Vec<(usize, usize, usize, Vec<String>)> = (0..p.files.len()).flat_map(|f| {
                        let toks = p.files[f].tokens();
                        items(&toks).into_iter().map(|(a, b)| (f, line_of(&texts[f], at[f][a]), line_of(&texts[f], at[f][b]), toks[a..=b].iter().map(|t| t.t.clone()).collect())).collect::<Vec<_>>()
                    }).collect();
                    let mut hit: Vec<bool> = all_items.iter().map(|(f, a, b, _)| whole.contains(&(*f, *a, *b))).collect();
                    loop {
                        let names: Vec<&str> = all_items.iter().zip(&hit).filter(|(i, h)| **h && i.3.len() > 1).map(|(i, _)| i.3[1].as_str()).collect();
                        let refers = |t: &str| t.trim_matches(['[', ']']).rsplit('.').next().is_some_and(|l| names.contains(&l));
                        let next: Vec<bool> = all_items.iter().zip(&hit).map(|(i, h)| *h || i.3.iter().any(|t| refers(t))).collect();
                        if next == hit { break; }
                        hit = next;
                    }
                    let follow: Vec<(usize, usize, usize)> = all_items.iter().zip(&hit).filter(|(_, h)| **h).map(|(i, _)| (i.0, i.1, i.2)).collect();
                    for i in &errors { ensure!(marks(*i, &follow), sig("unrelated"), "{} is about something that does not depend on what was changed (lines {whole:?})\n{diag}\n{}", diags[*i].title, all()); }
                    // so does every other place it marks, unless it is what the changed line repeats or refers to
                    let heads_of = |t: &str| ["namespace", "root_type", "file_identifier", "file_extension"].contains(&t);
                    let named = |n: &str| all_items.iter().zip(&hit).any(|(j, h)| *h && j.3.iter().any(|t| t.trim_matches(['[', ']']).rsplit('.').next() == Some(n)));
                    let same: Vec<(usize, usize, usize)> = all_items.iter().filter(|i| heads_of(&i.3[0]) && all_items.iter().zip(&hit).any(|(j, h)| *h && j.0 == i.0 && j.3[0] == i.3[0]) || i.3.len() > 1 && named(&i.3[1])).map(|i| (i.0, i.1, i.2)).collect();
                    for i in &errors {
                        for (n, l) in &diags[*i].marked {
                            let ok = which(n).is_some_and(|f| follow.iter().chain(&same).any(|(g, a, b)| *g == f && a <= l && l <= b));
                            ensure!(ok, sig("unrelated-mark"), "{} marks line {l} of {n}, which does not depend on what was changed (lines {whole:?})\n{diag}\n{}", diags[*i].title, all());
                        }
                    }
                    if errors.iter().any(|i| !marks(*i, &whole)) { st.class("errors that follow from the first"); }
                }
            }
            st.class(what);
            if p.files.len() > 1 { st.class("several files"); }
            st.nontrivial(hash_str(&all()));
            st.sample(|| format!("{diag}\n{}", all()));
            Ok(())
        })
        .assume("Where two places contradict each other, either may come first, as long as both are marked. An error about a declaration as a whole may point at any part of it.")
}
