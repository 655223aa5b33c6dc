//! C14: the object mapping of planus-buffer-inspection against a walk over the same bytes
//! that knows only the FlatBuffers format and the schema.
use crate::run::*;
use planus_buffer_inspection::object_mapping::Line;
use planus_buffer_inspection::{InspectableFlatbuffer, Object, OffsetObjectKind};
use planus_types::intermediate::{AbsolutePath, DeclarationIndex, Declarations};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;
use vmodel::engine::{fail, guarded, Fail, Prop, St};
use vmodel::schema::{enlarge, finite, gen_schema, gen_value, GenOpts, Kind, Sc, Schema, Ty, V};
use vmodel::src_::{hash_bytes, hash_str, mix};
use vmodel::suite::evolve;
use vmodel::wire::{encode, EncOpts};
use vmodel::{ensure, Src};

#[derive(Clone, PartialEq, Debug)]
pub enum Val { None, Int(i128), Bool(bool), Float(f64), Str(Vec<u8>), Name(String), Variant(String), Unknown(i128), Len(usize) }
#[derive(Clone, Debug)]
pub struct Node {
    /// (a word the label contains, words it must not contain)
    pub label: Option<(String, Vec<String>)>,
    pub what: String,
    pub start: usize,
    pub end: usize,
    pub val: Val,
    pub kids: Vec<Node>,
}
pub struct Walk<'a> { sch: &'a Schema, b: &'a [u8], pub roots: BTreeMap<String, Node> }

fn scname(s: Sc) -> &'static str {
    match s { Sc::Bool => "Bool", Sc::I8 => "I8", Sc::U8 => "U8", Sc::I16 => "I16", Sc::U16 => "U16", Sc::I32 => "I32", Sc::U32 => "U32", Sc::I64 => "I64", Sc::U64 => "U64", Sc::F32 => "F32", Sc::F64 => "F64" }
}
impl<'a> Walk<'a> {
    pub fn new(sch: &'a Schema, b: &'a [u8], t: usize) -> Self {
        let mut w = Walk { sch, b, roots: BTreeMap::new() };
        w.follow(&Ty::Table(t), 0);
        let n = w.offset(&Ty::Table(t), 0);
        w.root(n);
        w
    }
    fn root(&mut self, n: Node) { self.roots.insert(n.what.clone(), n); }
    fn u8(&self, p: usize) -> usize { self.b[p] as usize }
    fn u16(&self, p: usize) -> usize { u16::from_le_bytes(self.b[p..p + 2].try_into().unwrap()) as usize }
    fn u32(&self, p: usize) -> usize { u32::from_le_bytes(self.b[p..p + 4].try_into().unwrap()) as usize }
    fn ty(&self, t: &Ty) -> String {
        match t {
            Ty::Sc(s) => scname(*s).into(),
            Ty::Enum(i) => format!("enum {}", self.sch.path(*i)),
            Ty::Struct(i) => format!("struct {}", self.sch.path(*i)),
            Ty::Table(i) => format!("table {}", self.sch.path(*i)),
            Ty::Union(i) => format!("union {}", self.sch.path(*i)),
            Ty::Str => "String".into(),
            Ty::Vec(t) => format!("[{}]", self.ty(t)),
        }
    }
    fn node(&self, what: String, at: usize, len: usize, val: Val) -> Node { Node { label: None, what: format!("{what} @{at}"), start: at, end: at + len, val, kids: vec![] } }
    fn uint(&self, sc: Sc, at: usize) -> Node { self.inline(&Ty::Sc(sc), at) }
    /// a value stored in place
    fn inline(&self, t: &Ty, at: usize) -> Node {
        let b = &self.b[at..];
        match t {
            Ty::Sc(sc) => {
                let v = match vmodel::wire::scalar_at(*sc, b) { V::Int(i) if *sc == Sc::Bool => Val::Bool(i != 0), V::Int(i) => Val::Int(i), V::F32(f) => Val::Float(f32::from_bits(f) as f64), V::F64(f) => Val::Float(f64::from_bits(f)), _ => unreachable!() };
                self.node(scname(*sc).into(), at, sc.size(), v)
            }
            Ty::Enum(e) => {
                let (sc, vs) = self.sch.enum_(*e);
                let i = vmodel::wire::scalar_at(sc, b).int();
                let v = match vs.iter().find(|v| v.value == i) { Some(v) => Val::Variant(v.name.clone()), None => Val::Unknown(i) };
                self.node(self.ty(t), at, sc.size(), v)
            }
            Ty::Struct(s) => {
                let l = self.sch.slayout(*s);
                let mut n = self.node(self.ty(t), at, l.size, Val::Name(self.sch.decls[*s].name.clone()));
                for (f, o) in self.sch.sfields(*s).iter().zip(&l.offsets) {
                    let mut k = self.inline(&f.ty, at + o);
                    k.label = Some((f.name.clone(), vec![]));
                    n.kids.push(k);
                }
                n
            }
            _ => unreachable!(),
        }
    }
    fn offset(&self, t: &Ty, at: usize) -> Node { self.node(format!("offset to {}", self.ty(t)), at, 4, Val::None) }
    /// what the offset at `at` leads to
    fn follow(&mut self, t: &Ty, at: usize) {
        let p = at + self.u32(at);
        match t {
            Ty::Table(i) => self.table(*i, p),
            Ty::Str => {
                let l = self.u32(p);
                let mut n = self.node("String".into(), p, 4 + l, Val::Str(self.b[p + 4..p + 4 + l].to_vec()));
                n.kids.push(self.uint(Sc::U32, p));
                self.root(n);
            }
            Ty::Struct(_) => { let n = self.inline(t, p); self.root(n); }
            Ty::Vec(e) => {
                let l = self.u32(p);
                let (sz, _) = self.sch.inline(e);
                let mut n = self.node(self.ty(t), p, 4 + sz * l, Val::Len(l));
                n.kids.push(self.uint(Sc::U32, p));
                for i in 0..l {
                    let q = p + 4 + sz * i;
                    let mut k = match &**e {
                        Ty::Sc(_) | Ty::Enum(_) | Ty::Struct(_) => self.inline(e, q),
                        Ty::Table(_) | Ty::Str | Ty::Vec(_) => { self.follow(e, q); self.offset(e, q) }
                        Ty::Union(_) => unreachable!(),
                    };
                    k.label = Some((i.to_string(), vec![]));
                    n.kids.push(k);
                }
                self.root(n);
            }
            _ => unreachable!(),
        }
    }
    fn union_value(&mut self, u: usize, tag: usize, at: usize) -> Node {
        let var = tag.checked_sub(1).and_then(|k| self.sch.uvariants(u).get(k)).cloned();
        let mut n = self.node(format!("union {}", self.sch.path(u)), at, 4, match &var { Some(v) => Val::Variant(self.sch.uname(v)), None => Val::Unknown(tag as i128) });
        match &var {
            Some(v) => { self.follow(&v.ty, at); n.kids.push(self.offset(&v.ty, at)); }
            None => n.kids.push(self.uint(Sc::U32, at)),
        }
        n
    }
    fn union_tag(&self, u: usize, at: usize) -> Node {
        let tag = self.u8(at);
        let var = tag.checked_sub(1).and_then(|k| self.sch.uvariants(u).get(k));
        self.node(format!("union tag {}", self.sch.path(u)), at, 1, match var { Some(v) => Val::Variant(self.sch.uname(v)), None => Val::Unknown(tag as i128) })
    }
    fn table(&mut self, t: usize, p: usize) {
        let key = format!("table {} @{p}", self.sch.path(t));
        if self.roots.contains_key(&key) { return; }
        let vt = (p as i64 - i32::from_le_bytes(self.b[p..p + 4].try_into().unwrap()) as i64) as usize;
        let n = (self.u16(vt) - 4) / 2;
        let fields = self.sch.fields(t).to_vec();
        let slots = self.sch.slots(t);
        let names: Vec<String> = fields.iter().map(|f| f.name.clone()).collect();
        // the vtable
        let mut v = self.node(format!("vtable {}", self.sch.path(t)), vt, 4 + 2 * n, Val::Name(self.sch.decls[t].name.clone()));
        for k in 0..n + 2 { let mut e = self.uint(Sc::U16, vt + 2 * k); if k >= 2 {
            let own = (0..fields.len()).find(|i| slots[*i] == k - 2 || (Schema::two_slots(&fields[*i].ty) && slots[*i] + 1 == k - 2));
            e.label = Some((own.map(|i| names[i].clone()).unwrap_or_default(), names.iter().enumerate().filter(|(i, _)| Some(*i) != own).map(|x| x.1.clone()).collect()));
        } v.kids.push(e); }
        let at = |w: &Walk, k: usize| if k < n { Some(w.u16(vt + 4 + 2 * k)).filter(|o| *o != 0).map(|o| p + o) } else { None };
        let mut tab = self.node(format!("table {}", self.sch.path(t)), p, 4, Val::Name(self.sch.decls[t].name.clone()));
        tab.kids.push(self.node(format!("offset to vtable {}", self.sch.path(t)), p, 4, Val::None));
        self.root(v);
        self.root(tab.clone());
        for (f, s) in fields.iter().zip(&slots) {
            let mut kids = vec![];
            match &f.ty {
                Ty::Union(u) => {
                    if let Some(q) = at(self, *s) {
                        kids.push(self.union_tag(*u, q));
                        let tag = self.u8(q);
                        if let Some(q) = at(self, s + 1) { kids.push(self.union_value(*u, tag, q)); }
                    }
                }
                Ty::Vec(e) if matches!(**e, Ty::Union(_)) => {
                    let Ty::Union(u) = **e else { unreachable!() };
                    if let (Some(qt), Some(qv)) = (at(self, *s), at(self, s + 1)) {
                        let (pt, pv) = (qt + self.u32(qt), qv + self.u32(qv));
                        let l = self.u32(pt);
                        kids.push(self.node(format!("offset to tags of {}", self.sch.path(u)), qt, 4, Val::None));
                        kids.push(self.node(format!("offset to values of {}", self.sch.path(u)), qv, 4, Val::None));
                        let mut a = self.node(format!("tags of {}", self.sch.path(u)), pt, 4 + l, Val::Len(l));
                        let mut b = self.node(format!("values of {}", self.sch.path(u)), pv, 4 + 4 * l, Val::Len(l));
                        a.kids.push(self.uint(Sc::U32, pt));
                        b.kids.push(self.uint(Sc::U32, pv));
                        for i in 0..l {
                            let mut k = self.union_tag(u, pt + 4 + i);
                            k.label = Some((i.to_string(), vec![]));
                            a.kids.push(k);
                            let mut k = self.union_value(u, self.u8(pt + 4 + i), pv + 4 + 4 * i);
                            k.label = Some((i.to_string(), vec![]));
                            b.kids.push(k);
                        }
                        self.root(a);
                        self.root(b);
                    }
                }
                Ty::Sc(_) | Ty::Enum(_) | Ty::Struct(_) => if let Some(q) = at(self, *s) { kids.push(self.inline(&f.ty, q)); },
                ty => if let Some(q) = at(self, *s) { self.follow(ty, q); kids.push(self.offset(ty, q)); },
            }
            for mut k in kids {
                tab.end = tab.end.max(k.end);
                tab.start = tab.start.min(k.start);
                k.label = Some((f.name.clone(), names.iter().filter(|n| **n != f.name).cloned().collect()));
                tab.kids.push(k);
            }
        }
        self.root(tab);
    }
}

// --------------------------------------------------------------------------- what planus shows

pub fn describe(d: &Declarations, o: &Object) -> String {
    let path = |i: &DeclarationIndex| d.get_declaration(*i).0.to_string();
    let what = match o {
        Object::Offset(x) => match &x.kind {
            OffsetObjectKind::VTable(i) => format!("offset to vtable {}", path(i)),
            OffsetObjectKind::Table(i) => format!("offset to table {}", path(i)),
            OffsetObjectKind::Vector(t) => format!("offset to [{}]", ty(d, &t.kind)),
            OffsetObjectKind::String => "offset to String".into(),
            OffsetObjectKind::UnionVectorTags { declaration } => format!("offset to tags of {}", path(declaration)),
            OffsetObjectKind::UnionVector { declaration, .. } => format!("offset to values of {}", path(declaration)),
            _ => format!("offset to {}", x_name(d, o)),
        },
        Object::VTable(x) => format!("vtable {}", path(&x.declaration)),
        Object::Table(x) => format!("table {}", path(&x.declaration)),
        Object::Struct(x) => format!("struct {}", path(&x.declaration)),
        Object::UnionTag(x) => format!("union tag {}", path(&x.declaration)),
        Object::Union(x) => format!("union {}", path(&x.declaration)),
        Object::Enum(x) => format!("enum {}", path(&x.declaration)),
        Object::Vector(x) => format!("[{}]", ty(d, &x.type_.kind)),
        Object::Integer(x) => format!("{:?}", x.type_),
        Object::Float(x) => format!("{:?}", x.type_),
        Object::Bool(_) => "Bool".into(),
        Object::String(_) => "String".into(),
        Object::UnionVectorTags(_) => format!("tags of {}", o.type_name(d).trim_end_matches(" (tags)").trim_start_matches('[').trim_end_matches(']')),
        Object::UnionVectorValues(_) => format!("values of {}", o.type_name(d).trim_start_matches('[').trim_end_matches(']')),
        Object::Array(_) => "array".into(),
        Object::Unknown(_) => "unknown".into(),
    };
    format!("{what} @{}", o.offset())
}
fn x_name(d: &Declarations, o: &Object) -> String { o.type_name(d).trim_start_matches('&').to_string() }

struct Shown { label: String, what: String, start: usize, end: usize, text: String, kids: Vec<Shown> }
fn tree(d: &Declarations, lines: &[Line], i: &mut usize) -> Shown {
    let l = &lines[*i];
    let label = l.line.split(": ").next().unwrap_or("").to_string();
    let label = if l.line.contains(": ") { label } else { String::new() };
    let mut n = Shown { label, what: describe(d, &l.object), start: l.start as usize, end: l.end as usize, text: l.name.clone(), kids: vec![] };
    let end = l.end_line_index;
    *i += 1;
    while *i < end { n.kids.push(tree(d, lines, i)); }
    if end > l.start_line_index { *i = end + 1; }
    n
}
/// the lines are an outline: braces match, what they enclose is indented and knows its parent, and lies inside its bytes
pub fn outline<'a>(lines: impl IntoIterator<Item = &'a Line<'a>>) -> Result<(), String> {
    let lines: Vec<&Line> = lines.into_iter().collect();
    let mut open: Vec<usize> = vec![];
    for (k, l) in lines.iter().enumerate() {
        if open.last().is_some_and(|o| lines[*o].end_line_index == k) {
            let o = open.pop().unwrap();
            let b = &lines[o];
            if l.line != "}" || l.start_line_index != o || l.end_line_index != k || (l.start, l.end, l.object) != (b.start, b.end, b.object) || (l.indentation, l.parent_line_index, l.object_width) != (b.indentation, b.parent_line_index, b.object_width) {
                return Err(format!("line {k} does not end what line {o} begins: {l:?} {b:?}"));
            }
            let w = (o..k).map(|i| lines[i].line.len() + lines[i].indentation - l.indentation).max().unwrap();
            if b.object_width != w { return Err(format!("line {o} and what it encloses are {w} columns wide, not {}", b.object_width)); }
            continue;
        }
        let up = open.last().copied();
        if k > 0 && up.is_none() { return Err(format!("line {k} comes after the end")); }
        if l.start_line_index != k || l.end_line_index < k || l.end_line_index >= lines.len() || up.is_some_and(|u| l.end_line_index >= lines[u].end_line_index) { return Err(format!("line {k} reaches from {} to {}", l.start_line_index, l.end_line_index)); }
        if l.parent_line_index != up.unwrap_or(0) { return Err(format!("line {k} belongs to line {}, its parent is said to be {}", up.unwrap_or(0), l.parent_line_index)); }
        if l.indentation != 2 * open.len() { return Err(format!("line {k} is indented by {} at depth {}", l.indentation, open.len())); }
        if let Some(u) = up { if l.start < lines[u].start || l.end > lines[u].end { return Err(format!("line {k} is not inside the bytes of line {u}")); } }
        let multi = l.end_line_index > k;
        if multi != l.line.ends_with(" {") { return Err(format!("line {k} {:?} reaches to line {}", l.line, l.end_line_index)); }
        if multi { open.push(k); } else if l.object_width != l.line.len() { return Err(format!("line {k} is {} columns wide, not {}", l.line.len(), l.object_width)); }
    }
    if open.is_empty() { Ok(()) } else { Err("no end".into()) }
}
fn words(s: &str) -> BTreeSet<&str> { s.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|w| !w.is_empty()).collect() }

fn compare(got: &Shown, want: &Node) -> Result<(), (String, String)> {
    let kind = want.what.split([' ', '@']).next().unwrap_or("").to_string();
    let bad = |what: &str, m: String| Err((format!("{what}: {kind}"), format!("{} is shown as {:?} {}..{}: {m}", want.what, got.text, got.start, got.end)));
    if got.what != want.what { return bad("object", format!("this is {}", got.what)); }
    let string = matches!(want.val, Val::Str(_));
    if got.start != want.start || !(got.end == want.end || string && got.end == want.end + 1) { return bad("range", format!("its bytes are {}..{}", want.start, want.end)); }
    if let Some((name, others)) = &want.label {
        let w = words(&got.label);
        if !name.is_empty() && !w.contains(name.as_str()) { return bad("label", format!("labelled {:?}, it belongs to {name}", got.label)); }
        for o in others {
            if o != name && w.contains(o.as_str()) && !matches!(o.as_str(), "offset" | "union" | "union_tag" | "union_key") { return bad("label", format!("labelled {:?}, it belongs to {name:?}", got.label)); }
        }
    }
    let t = &got.text;
    let w = words(t);
    let ok = match &want.val {
        Val::None => true,
        Val::Int(i) => *t == i.to_string(),
        Val::Bool(b) => *t == b.to_string(),
        Val::Float(f) => t.parse::<f64>().is_ok_and(|g| g == *f || (g.is_nan() && f.is_nan()) || g as f32 == *f as f32 && want.what.starts_with("F32")),
        Val::Str(b) => t.contains(&format!("{:?}", String::from_utf8_lossy(b))),
        Val::Name(n) => w.contains(n.as_str()),
        Val::Variant(n) => t.ends_with(&format!("::{n}")),
        Val::Unknown(i) => *i == 0 && !t.is_empty() || t.contains(&i.to_string()),
        Val::Len(n) => w.contains(n.to_string().as_str()),
    };
    if !ok { return bad("value", format!("its value is {:?}", want.val)); }
    let mut a: Vec<&Shown> = got.kids.iter().collect();
    let mut b: Vec<&Node> = want.kids.iter().collect();
    a.sort_by_key(|k| (k.start, k.what.clone()));
    b.sort_by_key(|k| (k.start, k.what.clone()));
    for i in 0..a.len().max(b.len()) {
        match (a.get(i), b.get(i)) {
            (Some(x), Some(y)) if x.what == y.what => compare(x, y)?,
            (Some(x), Some(y)) if x.what < y.what || x.start < y.start => return bad("extra child", format!("it has a child {} ({:?})", x.what, x.label)),
            (Some(x), None) => return bad("extra child", format!("it has a child {} ({:?})", x.what, x.label)),
            (_, Some(y)) => return bad("missing child", format!("it lacks {} {:?}", y.what, y.label)),
            (None, None) => unreachable!(),
        }
    }
    Ok(())
}
fn chains(n: &Node, byte: usize, pre: &mut Vec<String>, out: &mut Vec<Vec<String>>, string_end: bool) -> bool {
    let end = if string_end && matches!(n.val, Val::Str(_)) { n.end + 1 } else { n.end };
    if !(n.start..end).contains(&byte) { return false; }
    pre.push(n.what.clone());
    let mut found = false;
    for k in &n.kids { found |= chains(k, byte, pre, out, string_end); }
    if !found { out.push(pre.clone()); }
    pre.pop();
    true
}

pub struct Read { pub sch: Schema, pub d: Declarations }
fn read(sch: &Schema) -> Result<Read, Fail> {
    let dir = scratch();
    let files = sch.files("s");
    for (n, t) in &files { std::fs::write(dir.join(n), t).unwrap(); }
    let d = accept(&[dir.join(&files[0].0)], &|| sch.fbs())?;
    Ok(Read { sch: sch.clone(), d })
}
fn suite() -> &'static Vec<Read> {
    static S: OnceLock<Vec<Read>> = OnceLock::new();
    S.get_or_init(|| vmodel::suite::suite(vmodel::engine::env_seed(), vmodel::engine::env_thorough()).iter().filter_map(|e| read(&e.sch).ok()).collect())
}
pub fn has_table(sch: &Schema) -> bool { !sch.tables().is_empty() }

pub fn check(st: &mut St, r: &Read, t: usize, bytes: &[u8], s: &mut Src, what: &dyn Fn() -> String) -> Result<(), Fail> {
    let w = Walk::new(&r.sch, bytes, t);
    let path = AbsolutePath(r.sch.path(t).split('.').map(|s| s.to_string()).collect());
    let Some((idx, _, _)) = r.d.declarations.get_full(&path) else { return fail("HARNESS no such table", what()) };
    let buf = InspectableFlatbuffer { declarations: &r.d, buffer: bytes };
    let step = |sig: &str, f: Fail| Fail { sig: format!("{sig}: {}", f.sig), msg: format!("{}\n{}", f.msg, what()) };
    let m = guarded(|| buf.calculate_object_mapping(DeclarationIndex(idx))).map_err(|f| step("mapping", f))?;
    let root = describe(&r.d, &m.root_object);
    ensure!(w.roots.contains_key(&root) && root.starts_with("table") && root.ends_with(&format!("@{}", u32::from_le_bytes(bytes[..4].try_into().unwrap()))), "root object", "the root object is {root}\n{}", what());
    let mut seen: BTreeMap<String, usize> = BTreeMap::new();
    let mut lines: Vec<Vec<String>> = vec![];
    for (i, (o, range)) in m.root_objects.iter().enumerate() {
        let name = describe(&r.d, o);
        let Some(want) = w.roots.get(&name) else { return fail(format!("object not in the buffer: {}", name.split(' ').next().unwrap()), format!("{name} is not in the buffer\n{}", what())) };
        if seen.insert(name.clone(), i).is_some() {
            // one shared vector reached through two declarations of its type may be listed once for each
            ensure!(matches!(o, Object::Vector(_) | Object::UnionVectorTags(_) | Object::UnionVectorValues(_)), "object listed twice", "{name} is listed twice\n{}", what());
            st.class("shared vector listed once per declaration");
        }
        let l = guarded(|| m.line_tree(i, &buf).flatten(&buf)).map_err(|f| step("lines", f))?;
        let k = &mut 0;
        if let Err(m) = outline(&l) { return fail("outline", format!("{name}: {m}\n{}\n{}", l.iter().map(|l| format!("{}{}", " ".repeat(l.indentation), l.line)).collect::<Vec<_>>().join("\n"), what())); }
        let shown = guarded(|| tree(&r.d, &l, k)).map_err(|f| step("tree", f))?;
        if *k != l.len() { return fail("lines do not nest", format!("{name}: {} of {} lines\n{}", k, l.len(), what())); }
        if let Err((sig, msg)) = compare(&shown, want) { return fail(sig, format!("in {name}: {msg}\n{}", what())); }
        ensure!((range.0 as usize, range.1 as usize) == (shown.start, shown.end), "object range", "{name} spans {range:?}, its lines {}..{}\n{}", shown.start, shown.end, what());
        ensure!(shown.end <= bytes.len(), "range outside the buffer", "{name} {}..{} of {}\n{}", shown.start, shown.end, bytes.len(), what());
        lines.push(l.iter().map(|l| describe(&r.d, &l.object)).collect());
    }
    if let Some(x) = w.roots.keys().find(|k| !seen.contains_key(*k)) { return fail(format!("object missing: {}", x.split(' ').next().unwrap()), format!("{x} is not listed\n{}", what())); }
    // lookups
    let mut at: Vec<usize> = if bytes.len() <= 160 { (0..bytes.len()).collect() } else { (0..60).map(|_| s.usize(bytes.len())).collect() };
    for k in 0..3 { let v: Vec<&Node> = w.roots.values().collect(); let n = v[s.usize(v.len())]; at.extend([n.start, n.end - 1, (n.end + k).min(bytes.len() - 1)]); }
    for b in at {
        let got = guarded(|| m.get_interpretations(b as u32, &buf)).map_err(|f| step("lookup", f))?;
        let mut got: Vec<Vec<String>> = got.iter().map(|g| g.lines.iter().map(|k| lines[g.root_object_index][*k].clone()).collect()).collect();
        got.sort();
        got.dedup();
        let expect = |string_end| { let mut v = vec![]; for n in w.roots.values() { chains(n, b, &mut vec![], &mut v, string_end); } v.sort(); v.dedup(); v };
        if got != expect(false) && got != expect(true) { return fail("lookup", format!("byte {b} is reported as {got:?} instead of {:?}\n{}", expect(false), what())); }
    }
    st.class(&format!("objects: {}", match w.roots.len() { 0..=3 => "up to 3", 4..=9 => "4 to 9", 10..=30 => "10 to 30", _ => "more than 30" }));
    Ok(())
}

/// a schema, one of its tables and a conforming buffer for it
pub fn with_buffer(s: &mut Src, st: &mut St, then: &mut dyn FnMut(&mut St, &Read, usize, &[u8], &mut Src, &dyn Fn() -> String) -> Result<(), Fail>) -> Result<(), Fail> {
    let pool;
    let r: &Read;
    let mut map: Option<Vec<Option<usize>>> = None;
    let fresh;
    if s.chance(3, 5) {
        pool = suite();
        r = &pool[s.usize(pool.len())];
    } else {
        let o = GenOpts { max_decls: 7, max_fields: 7, ..Default::default() };
        let sch = gen_schema(s, &o);
        if !has_table(&sch) { st.exclude("schema without a table"); return Ok(()); }
        fresh = match read(&sch) { Ok(r) => r, Err(_) => { st.exclude("the generated schema is rejected (C10)"); return Ok(()) } };
        r = &fresh;
    }
    let enc: Schema;
    if s.chance(1, 4) {
        let seed = s.below(1 << 30);
        let (n, m) = evolve(&mut Src::new(mix(seed)), &r.sch);
        enc = n;
        map = Some(m);
        st.class("buffer of a later schema version");
    } else { enc = r.sch.clone(); }
    let ts: Vec<(usize, usize)> = match &map {
        None => r.sch.tables().into_iter().map(|t| (t, t)).collect(),
        Some(m) => m.iter().enumerate().filter_map(|(n, o)| o.filter(|o| matches!(r.sch.decls[*o].kind, Kind::Table { .. })).map(|o| (n, o))).collect(),
    };
    let ts: Vec<(usize, usize)> = ts.into_iter().filter(|(n, _)| finite(&enc, *n)).collect();
    if ts.is_empty() { st.exclude("no table has a finite value"); return Ok(()); }
    let (tn, to) = ts[s.usize(ts.len())];
    let mut budget = s.range(3, 30);
    let mut v = gen_value(s, &enc, &Ty::Table(tn), 4, &mut budget);
    if s.chance(1, 200) { if let Some((k, _)) = enlarge(s, &mut v, 600) { st.class(&format!("large {k}")); } }
    let o = EncOpts { file_id: None, sharing: s.bool(), store_defaults: s.bool(), extra_slots: s.bool(), garbage: s.bool(), trailing: s.bool(), explicit_none: s.bool(), deprecated: s.bool(), far: s.chance(1, 40) };
    let e = encode(s, &enc, tn, &v, &o);
    for f in e.feats.keys() { st.class(&format!("layout: {f}")); }
    let what = || format!("  {v:?}\n  {:?}\n  table {} of\n{}", if e.bytes.len() < 2000 { &e.bytes[..] } else { &[] }, r.sch.path(to), r.sch.fbs());
    then(st, r, to, &e.bytes, s, &what)
}

pub fn c14() -> Prop {
    Prop::new("C14", 60_000, 1_500_000, "the buffer holds at least six separate objects",
        |s, st| with_buffer(s, st, &mut |st, r, to, bytes, s, what| {
            check(st, r, to, bytes, s, what)?;
            if bytes.len() < 3000 && Walk::new(&r.sch, bytes, to).roots.len() >= 6 { st.nontrivial(hash_bytes(bytes) ^ hash_str(&r.sch.path(to))); st.sample(|| format!("{} in {} bytes", r.sch.path(to), bytes.len())); }
            Ok(())
        }))
        .assume("A string's range may or may not include its terminating zero.")
}
