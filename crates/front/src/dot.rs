//! C22: the dot output parsed by a small strict parser (graph statements, HTML-like labels) and compared with the
//! schema model; a sample also goes through graphviz itself.
use crate::run::*;
use crate::sm::*;
use std::collections::{BTreeMap, BTreeSet};
use vmodel::engine::{fail, guarded, Fail, Prop};
use vmodel::src_::hash_str;
use vmodel::{ensure, schema::Sc};

/// the rows of one label: text of each cell and its port
type Rows = Vec<Vec<(String, Option<String>)>>;
#[derive(Default)]
struct Graph { nodes: BTreeMap<String, Rows>, edges: Vec<(String, String, String, String)> }

struct P<'a> { t: &'a str }
impl<'a> P<'a> {
    fn ws(&mut self) { self.t = self.t.trim_start_matches(|c: char| c.is_ascii_whitespace()); }
    fn eat(&mut self, k: &str) -> bool { self.ws(); if let Some(r) = self.t.strip_prefix(k) { self.t = r; true } else { false } }
    fn need(&mut self, k: &str) -> Result<(), String> { if self.eat(k) { Ok(()) } else { Err(format!("expected {k:?} at {:?}", self.t.chars().take(60).collect::<String>())) } }
    /// a dot identifier: a name, a number or a quoted string
    fn id(&mut self) -> Result<String, String> {
        self.ws();
        if let Some(r) = self.t.strip_prefix('"') {
            let n = r.find('"').ok_or("unterminated string")?;
            if r[..n].contains('\\') { return Err("escape in an identifier".into()); }
            self.t = &r[n + 1..];
            return Ok(r[..n].to_string());
        }
        let n = self.t.find(|c: char| !(c.is_ascii_alphanumeric() || c == '_')).unwrap_or(self.t.len());
        if n == 0 { return Err(format!("expected an identifier at {:?}", self.t.chars().take(60).collect::<String>())); }
        let (a, b) = self.t.split_at(n);
        if a.as_bytes()[0].is_ascii_digit() && !a.bytes().all(|c| c.is_ascii_digit()) { return Err(format!("bad identifier {a:?}")); }
        if ["node", "edge", "graph", "digraph", "subgraph", "strict"].contains(&a.to_ascii_lowercase().as_str()) { return Err(format!("keyword {a:?} as an identifier")); }
        self.t = b;
        Ok(a.to_string())
    }
}
/// character data of a label: no markup, no control characters, entities known
fn chars(t: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut it = t.chars();
    while let Some(c) = it.next() {
        match c {
            '>' if out.ends_with("]]") => return Err("]]> in text".into()),
            '&' => {
                let name: String = it.by_ref().take_while(|c| *c != ';').collect();
                out.push(match name.as_str() {
                    "amp" => '&', "lt" => '<', "gt" => '>', "quot" => '"', "apos" => '\'',
                    n => {
                        let v = if let Some(h) = n.strip_prefix("#x") { u32::from_str_radix(h, 16).ok() } else { n.strip_prefix('#').and_then(|d| d.parse().ok()) };
                        let c = v.and_then(char::from_u32).ok_or_else(|| format!("entity {n:?}"))?;
                        if !xml_char(c) { return Err(format!("entity for {c:?}")); }
                        c
                    }
                });
            }
            c if !xml_char(c) => return Err(format!("the character {c:?} in a label")),
            c => out.push(c),
        }
    }
    Ok(out)
}
fn xml_char(c: char) -> bool { matches!(c, '\t' | '\n' | '\r' | ' '..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..) }
enum Xml { Text(String), El(String, BTreeMap<String, String>, Vec<Xml>) }
fn xml(p: &mut &str) -> Result<Vec<Xml>, String> {
    let mut out = vec![];
    loop {
        let n = p.find('<').unwrap_or(p.len());
        if n > 0 { out.push(Xml::Text(chars(&p[..n])?)); *p = &p[n..]; }
        if p.is_empty() || p.starts_with("</") { return Ok(out); }
        *p = &p[1..];
        let n = p.find(|c: char| !c.is_ascii_alphanumeric()).ok_or("unterminated tag")?;
        if n == 0 { return Err(format!("a tag without a name at {:?}", p.chars().take(30).collect::<String>())); }
        let name = p[..n].to_ascii_uppercase();
        *p = &p[n..];
        let mut attrs = BTreeMap::new();
        loop {
            *p = p.trim_start();
            if let Some(r) = p.strip_prefix("/>") { *p = r; out.push(Xml::El(name, attrs, vec![])); break; }
            if let Some(r) = p.strip_prefix('>') {
                *p = r;
                let inner = xml(p)?;
                let r = p.strip_prefix("</").ok_or("unclosed element")?;
                let r = r.get(..name.len()).filter(|t| t.eq_ignore_ascii_case(&name)).map(|_| &r[name.len()..]).ok_or("mismatched end tag")?;
                *p = r.trim_start().strip_prefix('>').ok_or("bad end tag")?;
                out.push(Xml::El(name, attrs, inner));
                break;
            }
            let n = p.find('=').ok_or("attribute without a value")?;
            let k = p[..n].trim().to_ascii_lowercase();
            if k.is_empty() || !k.chars().all(|c| c.is_ascii_alphanumeric()) { return Err(format!("attribute {k:?}")); }
            let r = p[n + 1..].trim_start().strip_prefix('"').ok_or("unquoted attribute")?;
            let n = r.find('"').ok_or("unterminated attribute")?;
            if attrs.insert(k, chars(&r[..n])?).is_some() { return Err("attribute twice".into()); }
            *p = &r[n + 1..];
        }
    }
}
fn rows(label: &str) -> Result<Rows, String> {
    let mut rest = label;
    let top = xml(&mut rest)?;
    if !rest.is_empty() { return Err(format!("unmatched end tag at {:?}", rest.chars().take(30).collect::<String>())); }
    fn elements(v: Vec<Xml>, name: &str) -> Result<Vec<(BTreeMap<String, String>, Vec<Xml>)>, String> {
        let mut out = vec![];
        for x in v {
            match x {
                Xml::Text(t) if t.trim().is_empty() => {}
                Xml::El(n, a, c) if n == name => out.push((a, c)),
                Xml::Text(t) => return Err(format!("text {t:?} outside a cell")),
                Xml::El(n, ..) => return Err(format!("<{n}> where only <{name}> may be")),
            }
        }
        Ok(out)
    }
    let mut tables = elements(top, "TABLE")?;
    if tables.len() != 1 { return Err("not one table".into()); }
    let mut out = vec![];
    for (_, r) in elements(tables.pop().unwrap().1, "TR")? {
        let mut row = vec![];
        for (a, c) in elements(r, "TD")? {
            let mut text = String::new();
            for x in c { match x { Xml::Text(t) => text.push_str(&t), Xml::El(n, ..) => return Err(format!("<{n}> in a cell")) } }
            row.push((text, a.get("port").cloned()));
        }
        if row.is_empty() { return Err("an empty row".into()); }
        out.push(row);
    }
    if out.is_empty() { return Err("an empty table".into()); }
    Ok(out)
}
fn parse(t: &str) -> Result<Graph, String> {
    let mut g = Graph::default();
    let mut p = P { t };
    p.need("digraph")?;
    p.id()?;
    p.need("{")?;
    while !p.eat("}") {
        if p.eat("node") || p.eat("edge") || p.eat("graph") {
            p.need("[")?;
            loop { if p.eat("]") { break; } p.id()?; p.need("=")?; p.id()?; let _ = p.eat(",") || p.eat(";"); }
            p.eat(";");
            continue;
        }
        let a = p.id()?;
        if p.eat("=") { p.id()?; p.eat(";"); continue; }
        if p.eat(":") {
            let pa = p.id()?;
            if p.eat(":") { let c = p.id()?; if !["n", "ne", "e", "se", "s", "sw", "w", "nw", "c", "_"].contains(&c.as_str()) { return Err(format!("compass point {c:?}")); } }
            p.need("->")?;
            let b = p.id()?;
            p.need(":")?;
            let pb = p.id()?;
            if p.eat("[") { loop { if p.eat("]") { break; } p.id()?; p.need("=")?; p.id()?; let _ = p.eat(",") || p.eat(";"); } }
            p.eat(";");
            g.edges.push((a, pa, b, pb));
            continue;
        }
        p.need("[")?;
        p.need("label")?;
        p.need("=")?;
        p.need("<")?;
        // a label ends at the bracket that closes the one it starts with
        let mut depth = 1;
        let n = p.t.char_indices().find(|(_, c)| { match c { '<' => depth += 1, '>' => depth -= 1, _ => {} } depth == 0 }).ok_or("unterminated label")?.0;
        let label = &p.t[..n];
        p.t = &p.t[n + 1..];
        p.need("]")?;
        p.eat(";");
        if g.nodes.insert(a.clone(), rows(label).map_err(|e| format!("{a}: {e}"))?).is_some() { return Err(format!("node {a} twice")); }
    }
    p.ws();
    if !p.t.is_empty() { return Err(format!("text after the graph: {:?}", p.t.chars().take(60).collect::<String>())); }
    for (a, pa, b, pb) in &g.edges {
        for (n, port) in [(a, pa), (b, pb)] {
            let r = g.nodes.get(n).ok_or_else(|| format!("an edge at the unknown node {n}"))?;
            if r.iter().flatten().filter(|(_, p)| p.as_ref() == Some(port)).count() != 1 { return Err(format!("an edge at port {port} of {n}, which it does not have once")); }
        }
    }
    Ok(g)
}

fn sc_name(sc: Sc) -> &'static str {
    match sc { Sc::Bool => "bool", Sc::I8 => "int8", Sc::U8 => "uint8", Sc::I16 => "int16", Sc::U16 => "uint16", Sc::I32 => "int32", Sc::U32 => "uint32", Sc::I64 => "int64", Sc::U64 => "uint64", Sc::F32 => "float32", Sc::F64 => "float64" }
}
fn ty_name(p: &Proj, ty: &Ty) -> String {
    match ty { Ty::Sc(sc, _) => sc_name(*sc).into(), Ty::Str => "string".into(), Ty::Vec(t) => format!("[{}]", ty_name(p, t)), Ty::Ref(id, _) => decl_name(p, *id) }
}
/// structs are shown by their last name (examples/rust/monster.dot), everything else by its full name
fn decl_name(p: &Proj, id: Id) -> String {
    let path = p.path(id);
    if matches!(p.decl(id).kind, Kind::Struct(_)) { path.last().unwrap().clone() } else { path.join(".") }
}
fn target(p: &Proj, ty: &Ty) -> Option<Id> {
    match ty { Ty::Ref(id, _) => Some(*id), Ty::Vec(t) => target(p, t), _ => None }
}
/// what a string shows as: itself, with what cannot be part of a label written as an escape
fn shown(t: &str) -> String {
    t.chars().map(|c| if c.is_control() || !xml_char(c) { c.escape_default().to_string() } else { c.to_string() }).collect()
}
struct Want { kind: &'static str, head: String, rows: Vec<Vec<String>>, refs: Vec<Option<Id>>, floats: BTreeMap<usize, f64>, first: usize }
fn want(p: &Proj, id: Id) -> Want {
    let path = decl_name(p, id);
    let mut w = Want { kind: "", head: String::new(), rows: vec![], refs: vec![], floats: BTreeMap::new(), first: 1 };
    match &p.decl(id).kind {
        Kind::Table(fs) => {
            w.kind = "tables";
            w.head = format!("table {path}");
            for (f, slot) in fs.iter().zip(p.slots(id)) {
                if f.attrs.iter().any(|a| matches!(a, Attr::Deprecated)) { continue; }
                let u = p.is_union(&f.ty);
                let size = match (&f.ty, u) { (Ty::Vec(_), true) => 8, (_, true) => 5, _ => p.inline(&f.ty).0 };
                let mode = if f.attrs.iter().any(|a| matches!(a, Attr::Required)) { "required".to_string() } else {
                    match p.default_of(f) {
                        None => "optional".into(),
                        Some(v) => format!("default {}", match v {
                            Val::Bool(b) => b.to_string(), Val::Int(i) => i.to_string(), Val::EmptyVec => "[]".into(), Val::Str(t) => shown(&t),
                            Val::F32(b) => { w.floats.insert(w.rows.len(), f32::from_bits(b) as f64); String::new() }
                            Val::F64(b) => { w.floats.insert(w.rows.len(), f64::from_bits(b)); String::new() }
                            Val::Tag(t) => { let Ty::Ref(e, _) = &f.ty else { panic!() }; let Kind::Enum { vars, .. } = &p.decl(*e).kind else { panic!() }; vars.iter().find(|v| v.value == t).unwrap().name.clone() }
                        }),
                    }
                };
                w.rows.push(vec![if u { format!("{slot} / {}", slot + 1) } else { slot.to_string() }, f.name.clone(), format!("{} ({size} bytes)", ty_name(p, &f.ty)), mode]);
                w.refs.push(target(p, &f.ty));
            }
        }
        Kind::Struct(fs) => {
            w.kind = "structs";
            w.first = 2;
            w.head = format!("struct {path}");
            let (offs, size, al) = p.slayout(id);
            w.rows.push(vec![format!("size={size}, alignment={al}")]);
            w.refs.push(None);
            for (i, f) in fs.iter().enumerate() {
                let s = p.inline(&f.ty).0;
                w.rows.push(vec![offs[i].to_string(), f.name.clone(), format!("{} ({s} bytes)", ty_name(p, &f.ty))]);
                w.refs.push(target(p, &f.ty));
                let pad = offs.get(i + 1).copied().unwrap_or(size) - offs[i] - s;
                if pad > 0 { w.rows.push(vec![format!("{pad} bytes of padding")]); w.refs.push(None); }
            }
        }
        Kind::Enum { ty, vars, .. } => {
            w.kind = "enums";
            w.head = format!("enum {path} : {}", sc_name(*ty));
            for v in vars { w.rows.push(vec![v.name.clone(), v.value.to_string()]); w.refs.push(None); }
        }
        Kind::Union { vars, .. } => {
            w.kind = "unions";
            w.head = format!("union {path}");
            for v in vars { w.rows.push(vec![p.uname(v), ty_name(p, &v.ty)]); w.refs.push(target(p, &v.ty)); }
        }
    }
    w
}

fn graphviz(dir: &std::path::Path, text: &str) -> Result<(), String> {
    std::fs::write(dir.join("g.dot"), text).unwrap();
    let out = std::process::Command::new("timeout").args(["60", "dot", "-Tdot", "-o/dev/null"]).arg(dir.join("g.dot")).output().map_err(|e| e.to_string())?;
    let e = String::from_utf8_lossy(&out.stderr).to_string();
    if out.status.success() && !e.to_lowercase().contains("error") && !e.contains("not well-formed") { Ok(()) } else { Err(format!("{}: {e}", out.status)) }
}
pub fn c22() -> Prop {
    Prop::new("C22", 60_000, 2_000_000,
        "graphs with at least three declarations and two references between them, or a default value that needs escaping in a label",
        |s, st| {
            let cfg = Cfg { max_files: 3, docs: false, max_decls: 6, max_fields: 7, ..Cfg::default() };
            let p = gen(s, &cfg);
            let texts: Vec<String> = p.files.iter().map(|f| layout(s, &f.docs, &f.tokens(), Noise::Plain).text).collect();
            let dir = scratch();
            write(&dir, &p, &texts);
            let all = || texts_of(&p, &texts);
            let d = accept(&roots(&dir, &p), &all)?;
            let out = guarded(|| planus_codegen::generate_dot(&d)).map_err(|f| Fail { sig: f.sig, msg: format!("{}\n{}", f.msg, all()) })?;
            ensure!(out == planus_codegen::generate_dot(&d), "two-outputs", "the same declarations give two graphs\n{}", all());
            let both = || format!("{}\ngraph:\n{out}", all());
            let g = match parse(&out) { Ok(g) => g, Err(e) => return fail("malformed", format!("not a well-formed graph: {e}\n{}", both())) };
            // every declaration once, under its name
            let mut by_head: BTreeMap<String, Vec<String>> = BTreeMap::new();
            for (n, r) in &g.nodes { by_head.entry(r[0][0].0.clone()).or_default().push(n.clone()); }
            let ids: Vec<Id> = p.ids().into_iter().filter(|i| p.loaded().contains(&i.0)).collect();
            let wants: Vec<Want> = ids.iter().map(|i| want(&p, *i)).collect();
            let (mut got, mut exp): (Vec<&String>, Vec<&String>) = (g.nodes.values().map(|r| &r[0][0].0).collect(), wants.iter().map(|w| &w.head).collect());
            got.sort(); exp.sort();
            ensure!(got == exp, "nodes", "the nodes are {got:?}, expected {exp:?}\n{}", both());
            // structs of different namespaces may share their shown name: then their rows tell them apart
            let mut node_of: BTreeMap<Id, BTreeSet<String>> = BTreeMap::new();
            let mut used: BTreeSet<String> = BTreeSet::new();
            let mut own: Vec<String> = vec![];
            for (i, w) in ids.iter().zip(&wants) {
                let c = &by_head[&w.head];
                let fits: BTreeSet<String> = if c.len() == 1 { c.iter().cloned().collect() } else {
                    st.class("structs that share their shown name");
                    c.iter().filter(|n| g.nodes[*n][1..].iter().map(|r| r.iter().map(|c| &c.0).collect::<Vec<_>>()).eq(w.rows.iter().map(|r| r.iter().collect::<Vec<_>>()))).cloned().collect()
                };
                let Some(n) = fits.iter().find(|n| !used.contains(*n)).cloned() else { return fail("rows", format!("no node shows {} with the rows {:?}\n{}", w.head, w.rows, both())) };
                used.insert(n.clone());
                own.push(n);
                node_of.insert(*i, fits);
            }
            let mut edges: Vec<(String, String, String)> = vec![];
            let mut odd = false;
            for (w, node) in wants.iter().zip(&own) {
                st.class(w.kind);
                let r = &g.nodes[node][1..];
                ensure!(r.len() == w.rows.len(), "rows", "{}: {} rows, expected {}\n{}", w.head, r.len(), w.rows.len(), both());
                for (i, (r, e)) in r.iter().zip(&w.rows).enumerate() {
                    let t: Vec<&String> = r.iter().map(|c| &c.0).collect();
                    let n = t.len();
                    let ok = if let Some(f) = w.floats.get(&i) {
                        n == e.len() && t[..n - 1] == e[..n - 1].iter().collect::<Vec<_>>()[..] && t[n - 1].strip_prefix("default ").and_then(|x| x.parse::<f64>().ok()).is_some_and(|x| x == *f || x as f32 == *f as f32 && (*f as f32) as f64 == *f || x.is_nan() && f.is_nan())
                    } else { t == e.iter().collect::<Vec<_>>() };
                    ensure!(ok, "row", "{}: row {t:?}, expected {e:?} {:?}\n{}", w.head, w.floats.get(&i), both());
                    if e.last().is_some_and(|t| t.contains(['<', '>', '&', '\\'])) { odd = true; }
                    let ports: Vec<&String> = r.iter().filter_map(|c| c.1.as_ref()).collect();
                    if let Some(t) = &w.refs[i] {
                        for (_, pa, b, _) in g.edges.iter().filter(|(a, pa, _, _)| a == node && ports.contains(&pa)) { edges.push((node.clone(), pa.clone(), b.clone())); 
                            ensure!(node_of[t].contains(b), "edge", "{}: row {e:?} points at {b}, expected {:?}\n{}", w.head, node_of[t], both());
                        }
                        ensure!(g.edges.iter().filter(|(a, pa, _, _)| a == node && ports.contains(&pa)).count() == 1, "edge", "{}: row {e:?} has not one edge\n{}", w.head, both());
                    }
                }
            }
            for (_, _, b, pb) in &g.edges {
                ensure!(g.nodes[b][0].iter().any(|c| c.1.as_ref() == Some(pb)), "edge", "an edge into the middle of {b}\n{}", both());
            }
            ensure!(edges.len() == g.edges.len(), "edge", "{} edges, expected {}\n{}", g.edges.len(), edges.len(), both());
            if odd { st.class("defaults that need escaping"); }
            if s.chance(1, 500) {
                match std::process::Command::new("dot").arg("-V").output() {
                    Ok(_) => { st.class("graphs read by graphviz"); if let Err(e) = graphviz(&dir, &out) { return fail("graphviz", format!("graphviz does not accept the graph: {e}\n{}", both())); } }
                    Err(_) => st.class("graphviz not installed, graph checked by the parser only"),
                }
            }
            if ids.len() >= 3 && g.edges.len() >= 2 || odd { st.nontrivial(hash_str(&all())); st.sample(all); }
            Ok(())
        })
        .assume("rows appear in the order of declaration; deprecated fields are not shown")
}
