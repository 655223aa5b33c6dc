//! FlatBuffers wire format, independently of planus: a reference encoder that
//! makes arbitrary conforming layout choices, a strict verifier, and a lenient
//! decoder that says what arbitrary bytes contain.
use crate::schema::*;
use crate::src_::Src;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug, Default)]
pub struct EncOpts {
    pub file_id: Option<[u8; 4]>,
    pub sharing: bool,
    pub store_defaults: bool,
    pub extra_slots: bool,
    pub garbage: bool,
    pub trailing: bool,
    pub explicit_none: bool,
    /// store valid values in deprecated fields
    pub deprecated: bool,
    /// objects far apart, and tables with large unused ranges
    pub far: bool,
}
#[derive(Clone, Debug, Default)]
pub struct Encoded {
    pub bytes: Vec<u8>,
    pub feats: BTreeMap<&'static str, u32>,
}

#[derive(Clone, Debug)]
struct Node {
    bytes: Vec<u8>,
    align: usize,
    /// offset inside the node that has to be aligned
    anchor: usize,
    refs: Vec<(usize, usize)>,
    vt: Option<usize>,
    is_table: bool,
    /// nodes that have to be placed earlier
    preds: Vec<usize>,
}

pub struct Enc<'a> {
    sch: &'a Schema,
    o: EncOpts,
    /// deprecated fields stored so far
    stale: usize,
    nodes: Vec<Node>,
    shared: HashMap<String, Vec<usize>>,
    leaves: Vec<usize>,
    vts: HashMap<Vec<u8>, Vec<usize>>,
    feats: BTreeMap<&'static str, u32>,
}

pub fn scalar_bytes(sc: Sc, v: &V) -> Vec<u8> {
    match (sc, v) {
        (Sc::F32, V::F32(b)) => b.to_le_bytes().to_vec(),
        (Sc::F64, V::F64(b)) => b.to_le_bytes().to_vec(),
        (_, V::Int(i)) => i.to_le_bytes()[..sc.size()].to_vec(),
        _ => panic!("scalar {sc:?} {v:?}"),
    }
}

impl<'a> Enc<'a> {
    fn feat(&mut self, f: &'static str) { *self.feats.entry(f).or_default() += 1; }
    fn pad(&mut self, s: &mut Src) -> u8 { if self.o.garbage && s.chance(3, 4) { s.below(256) as u8 } else { 0 } }
    fn struct_bytes(&mut self, s: &mut Src, i: usize, v: &V) -> Vec<u8> {
        let l = self.sch.slayout(i);
        let mut out: Vec<u8> = (0..l.size).map(|_| self.pad(s)).collect();
        let fs: Vec<Ty> = self.sch.sfields(i).iter().map(|f| f.ty.clone()).collect();
        for (k, ty) in fs.iter().enumerate() {
            let b = self.inline_bytes(s, ty, &v.fields()[k]);
            out[l.offsets[k]..l.offsets[k] + b.len()].copy_from_slice(&b);
        }
        out
    }
    fn inline_bytes(&mut self, s: &mut Src, ty: &Ty, v: &V) -> Vec<u8> {
        match ty {
            Ty::Sc(sc) => scalar_bytes(*sc, v),
            Ty::Enum(e) => scalar_bytes(self.sch.enum_(*e).0, v),
            Ty::Struct(i) => self.struct_bytes(s, *i, v),
            _ => panic!(),
        }
    }
    fn add(&mut self, n: Node) -> usize { self.nodes.push(n); self.nodes.len() - 1 }
    fn new_node(&self, bytes: Vec<u8>, align: usize, anchor: usize) -> Node { Node { bytes, align, anchor, refs: vec![], vt: None, is_table: false, preds: vec![] } }
    fn share(&mut self, s: &mut Src, key: &str) -> Option<usize> {
        if !self.o.sharing { return None; }
        let l = self.shared.get(key)?.clone();
        if s.chance(3, 5) { self.feat("shared object"); Some(l[s.usize(l.len())]) } else { None }
    }
    fn reg(&mut self, key: String, id: usize) -> usize { self.shared.entry(key).or_default().push(id); id }
    /// bytes without references, perhaps shared with an object of another type
    fn leaf(&mut self, s: &mut Src, b: Vec<u8>, align: usize, anchor: usize) -> usize {
        if self.o.sharing {
            let same = |n: &Node| n.vt.is_none() && !n.is_table && n.refs.is_empty() && n.anchor == anchor && n.align % align == 0 && n.bytes.starts_with(&b);
            if let Some(i) = self.leaves.iter().copied().find(|i| same(&self.nodes[*i])) {
                if s.bool() { self.feat("bytes shared between types"); return i; }
            }
        }
        let n = self.new_node(b, align, anchor);
        let i = self.add(n);
        self.leaves.push(i);
        i
    }
    /// an out-of-line object for the value (not for union vectors)
    fn object(&mut self, s: &mut Src, ty: &Ty, v: &V) -> usize {
        let key = format!("{ty:?}{v:?}");
        if let Some(i) = self.share(s, &key) { return i; }
        let id = match (ty, v) {
            (Ty::Str, V::Str(x)) => {
                let mut b = (x.len() as u32).to_le_bytes().to_vec();
                b.extend_from_slice(x.as_bytes());
                b.push(0);
                self.leaf(s, b, 4, 0)
            }
            (Ty::Struct(i), v) => {
                let b = self.struct_bytes(s, *i, v);
                let a = self.sch.slayout(*i).align.max(if s.bool() { 4 } else { 1 });
                self.leaf(s, b, a, 0)
            }
            (Ty::Table(t), V::Table(f)) => self.table(s, *t, f),
            (Ty::Vec(e), V::Vec(xs)) => {
                let mut b = (xs.len() as u32).to_le_bytes().to_vec();
                match &**e {
                    Ty::Sc(_) | Ty::Enum(_) | Ty::Struct(_) => {
                        let (_, al) = self.sch.inline(e);
                        for x in xs { let c = self.inline_bytes(s, e, x); b.extend_from_slice(&c); }
                        let (al, anchor) = if al > 4 { if xs.is_empty() && s.bool() { (4, 0) } else { (al, 4) } } else { (4, 0) };
                        self.leaf(s, b, al, anchor)
                    }
                    Ty::Union(_) => panic!(),
                    e => {
                        let n = self.new_node(b, 4, 0);
                        let id = self.add(n);
                        for (k, x) in xs.iter().enumerate() {
                            let c = self.object(s, e, x);
                            self.nodes[id].bytes.extend_from_slice(&[0; 4]);
                            self.link(id, 4 + 4 * k, c);
                        }
                        id
                    }
                }
            }
            _ => panic!("object {ty:?} {v:?}"),
        };
        self.reg(key, id)
    }
    fn link(&mut self, from: usize, at: usize, to: usize) {
        self.nodes[from].refs.push((at, to));
        self.nodes[to].preds.push(from);
        if let Some(vt) = self.nodes[to].vt { self.nodes[vt].preds.push(from); }
    }
    fn uobject(&mut self, s: &mut Src, u: usize, tag: u8, v: &V) -> usize {
        let ty = self.sch.uvariants(u)[tag as usize - 1].ty.clone();
        self.object(s, &ty, v)
    }
    fn table(&mut self, s: &mut Src, t: usize, vals: &[V]) -> usize {
        let fields = self.sch.fields(t).to_vec();
        let slots = self.sch.slots(t);
        // items: slot, bytes, align, refs
        let mut items: Vec<(usize, Vec<u8>, usize, Option<usize>)> = vec![];
        for (k, f) in fields.iter().enumerate() {
            let mut v = vals[k].clone();
            if f.deprecated {
                if self.o.deprecated && self.stale < 30 && s.chance(1, 2) {
                    self.stale += 1;
                    let mut budget = 4;
                    v = gen_value(s, self.sch, &f.ty, 1, &mut budget);
                    self.feat("deprecated field stored");
                } else { continue; }
            }
            if v.is_null() {
                if self.o.explicit_none && matches!(f.ty, Ty::Union(_)) && s.chance(1, 3) {
                    items.push((slots[k], vec![0], 1, None));
                    self.feat("explicit NONE tag");
                }
                continue;
            }
            if let Mode::Default(d) = &f.mode {
                let same = *d == v || matches!((d, &v), (V::F32(a), V::F32(b)) if f32::from_bits(*a) == f32::from_bits(*b) && a == b);
                if same {
                    if !(self.o.store_defaults && s.bool()) { continue; }
                    self.feat("default stored");
                }
            }
            let fal = f.falign.unwrap_or(1) as usize;
            match (&f.ty, &v) {
                (Ty::Sc(_) | Ty::Enum(_) | Ty::Struct(_), v) => {
                    let b = self.inline_bytes(s, &f.ty, v);
                    let al = self.sch.inline(&f.ty).1.max(fal);
                    items.push((slots[k], b, al, None));
                }
                (Ty::Union(u), V::Union(tag, x)) => {
                    items.push((slots[k], vec![*tag], 1, None));
                    let o = self.uobject(s, *u, *tag, x);
                    items.push((slots[k] + 1, vec![0; 4], fal.max(4), Some(o)));
                }
                (Ty::Vec(e), V::Vec(xs)) if matches!(**e, Ty::Union(_)) => {
                    let Ty::Union(u) = **e else { panic!() };
                    let mut tb = (xs.len() as u32).to_le_bytes().to_vec();
                    for x in xs { let V::Union(t, _) = x else { panic!() }; tb.push(*t); }
                    let n = self.new_node(tb, 4, 0);
                    let tn = self.add(n);
                    let n = self.new_node((xs.len() as u32).to_le_bytes().to_vec(), 4, 0);
                    let vn = self.add(n);
                    for (j, x) in xs.iter().enumerate() {
                        let V::Union(t, x) = x else { panic!() };
                        let c = self.uobject(s, u, *t, x);
                        self.nodes[vn].bytes.extend_from_slice(&[0; 4]);
                        self.link(vn, 4 + 4 * j, c);
                    }
                    items.push((slots[k], vec![0; 4], 4, Some(tn)));
                    items.push((slots[k] + 1, vec![0; 4], fal.max(4), Some(vn)));
                }
                (ty, v) => {
                    let o = self.object(s, ty, v);
                    items.push((slots[k], vec![0; 4], fal.max(4), Some(o)));
                }
            }
        }
        let known = fields.iter().zip(&slots).map(|(f, s)| s + if Schema::two_slots(&f.ty) { 2 } else { 1 }).max().unwrap_or(0);
        let mut nslots = items.iter().map(|i| i.0 + 1).max().unwrap_or(0);
        if self.o.extra_slots && s.chance(1, 3) {
            // unused trailing entries
            nslots = known.max(nslots).min(nslots + s.range(1, 4));
            self.feat("trailing zero slots");
        }
        if self.o.extra_slots && s.chance(1, 5) {
            // fields of a newer schema version
            let n = s.range(1, 3);
            for j in 0..n {
                let sz = *s.pick(&[1usize, 2, 4, 8]);
                let b: Vec<u8> = (0..sz).map(|_| s.below(256) as u8).collect();
                items.push((known + j, b, sz, None));
            }
            nslots = known + n + s.usize(2);
            self.feat("unknown fields");
        }
        // planus asks for a vtable that covers both slots of a union or none of them (pinned by
        // the repository's issue_99 test)
        if fields.iter().zip(&slots).any(|(f, s)| Schema::two_slots(&f.ty) && nslots == s + 1) { nslots += 1; }
        let maxal = items.iter().map(|i| i.2).max().unwrap_or(4).max(4);
        s.shuffle(&mut items);
        let r = 4 * s.usize(maxal / 4);
        let mut bytes = vec![0u8; 4];
        let mut vt = vec![0u8; 4 + 2 * nslots];
        let mut refs = vec![];
        for (slot, b, al, o) in items {
            let gap = if self.o.far && s.chance(1, 12) && bytes.len() < 1000 { self.feat("table of more than 30000 bytes"); *s.pick(&[30_000usize, 32_766, 32_768, 60_000]) }
                else if s.chance(1, 10) { s.range(1, 9) } else { 0 };
            if gap > 100 { bytes.resize(bytes.len() + gap, 0); }
            else { for _ in 0..gap { let p = self.pad(s); bytes.push(p); } }
            while (r + bytes.len()) % al != 0 { let p = self.pad(s); bytes.push(p); }
            let off = bytes.len() as u16;
            vt[4 + 2 * slot..6 + 2 * slot].copy_from_slice(&off.to_le_bytes());
            if let Some(o) = o { refs.push((bytes.len(), o)); }
            bytes.extend_from_slice(&b);
        }
        if s.chance(1, 10) { let p = self.pad(s); bytes.push(p); }
        let vl = vt.len() as u16;
        vt[0..2].copy_from_slice(&vl.to_le_bytes());
        vt[2..4].copy_from_slice(&(bytes.len() as u16).to_le_bytes());
        let vid = match self.vts.get(&vt) {
            Some(l) if self.o.sharing && s.chance(3, 4) => { let l = l.clone(); self.feat("shared vtable"); l[s.usize(l.len())] }
            _ => {
                let n = self.new_node(vt.clone(), 2, 0);
                let id = self.add(n);
                self.vts.entry(vt).or_default().push(id);
                id
            }
        };
        let mut n = self.new_node(bytes, maxal, (maxal - r) % maxal);
        n.vt = Some(vid);
        n.is_table = true;
        let id = self.add(n);
        for (at, to) in refs { self.link(id, at, to); }
        id
    }
}

pub fn encode(s: &mut Src, sch: &Schema, t: usize, v: &V, o: &EncOpts) -> Encoded {
    let mut e = Enc { sch, o: o.clone(), nodes: vec![], stale: 0, shared: HashMap::new(), leaves: vec![], vts: HashMap::new(), feats: BTreeMap::new() };
    let root = e.table(s, t, v.fields());
    let mut out = vec![0u8; 4];
    if let Some(id) = o.file_id { out.extend_from_slice(&id); }
    let n = e.nodes.len();
    let mut pos = vec![usize::MAX; n];
    let mut left: Vec<usize> = (0..n).collect();
    let mode = s.below(3);
    let mut jumps = 0;
    while !left.is_empty() {
        let ready: Vec<usize> = (0..left.len()).filter(|k| e.nodes[left[*k]].preds.iter().all(|p| pos[*p] != usize::MAX)).collect();
        let k = match mode { 0 => ready[0], 1 => ready[ready.len() - 1], _ => ready[s.usize(ready.len())] };
        let id = left.remove(k);
        let (al, anchor) = (e.nodes[id].align, e.nodes[id].anchor);
        if o.far && jumps < 4 && s.chance(1, 3) {
            jumps += 1;
            let n = *s.pick(&[32_700usize, 32_768, 33_000, 65_530, 65_536, 70_001, 200_000]);
            out.resize(out.len() + n, if o.garbage { 0xff } else { 0 });
            *e.feats.entry("objects more than 32767 bytes apart").or_default() += 1;
        }
        if s.chance(1, 8) { for _ in 0..s.range(1, 12) { let p = e.pad(s); out.push(p); } }
        while (out.len() + anchor) % al != 0 { let p = e.pad(s); out.push(p); }
        pos[id] = out.len();
        out.extend_from_slice(&e.nodes[id].bytes.clone());
    }
    for id in 0..n {
        let nd = &e.nodes[id];
        for (at, to) in &nd.refs {
            let p = pos[id] + at;
            let d = (pos[*to] - p) as u32;
            out[p..p + 4].copy_from_slice(&d.to_le_bytes());
        }
        if let (true, Some(vt)) = (nd.is_table, nd.vt) {
            let d = pos[id] as i64 - pos[vt] as i64;
            out[pos[id]..pos[id] + 4].copy_from_slice(&(d as i32).to_le_bytes());
            if d < 0 { *e.feats.entry("vtable after table").or_default() += 1; }
        }
    }
    let r = pos[root] as u32;
    out[0..4].copy_from_slice(&r.to_le_bytes());
    if o.trailing && s.chance(1, 3) { for _ in 0..s.range(1, 9) { let p = e.pad(s); out.push(p); } }
    Encoded { bytes: out, feats: e.feats }
}

// ---------------------------------------------------------------------------

fn u16a(b: &[u8], p: usize) -> Option<usize> { Some(u16::from_le_bytes(b.get(p..p.checked_add(2)?)?.try_into().unwrap()) as usize) }
fn u32a(b: &[u8], p: usize) -> Option<usize> { Some(u32::from_le_bytes(b.get(p..p.checked_add(4)?)?.try_into().unwrap()) as usize) }
fn i32a(b: &[u8], p: usize) -> Option<i64> { Some(i32::from_le_bytes(b.get(p..p.checked_add(4)?)?.try_into().unwrap()) as i64) }

pub fn scalar_at(sc: Sc, b: &[u8]) -> V {
    let n = sc.size();
    let mut x = [0u8; 16];
    x[..n].copy_from_slice(&b[..n]);
    let u = u128::from_le_bytes(x);
    match sc {
        Sc::Bool => V::Int((u != 0) as i128),
        Sc::F32 => V::F32(u as u32),
        Sc::F64 => V::F64(u as u64),
        Sc::I8 => V::Int(u as u8 as i8 as i128),
        Sc::I16 => V::Int(u as u16 as i16 as i128),
        Sc::I32 => V::Int(u as u32 as i32 as i128),
        Sc::I64 => V::Int(u as u64 as i64 as i128),
        _ => V::Int(u as i128),
    }
}

/// One claimed byte range of a valid buffer.
#[derive(Clone, Debug, PartialEq)]
pub struct Ext { pub start: usize, pub end: usize, pub what: String, pub path: String }
impl Ext { fn leaf(&self) -> bool { ["string", "struct ", "vector of ", "vector Struct"].iter().any(|w| self.what.starts_with(w)) } }

/// Strict verification of a buffer against the wire format.
pub struct Strict<'a> {
    pub sch: &'a Schema,
    pub b: &'a [u8],
    pub exts: BTreeMap<(usize, usize), Ext>,
    /// padding must be zero and defaults omitted (what a writer owes, not what a reader may rely on)
    pub writer: bool,
    /// bytes outside of every reachable object must be zero too
    pub gaps: bool,
    depth: usize,
}
type SR<T> = Result<T, String>;
impl<'a> Strict<'a> {
    pub fn verify(sch: &'a Schema, t: usize, b: &'a [u8], file_id: Option<[u8; 4]>, writer: bool) -> SR<(V, Vec<Ext>)> { Self::verify_ex(sch, t, b, file_id, writer, writer) }
    pub fn verify_ex(sch: &'a Schema, t: usize, b: &'a [u8], file_id: Option<[u8; 4]>, writer: bool, gaps: bool) -> SR<(V, Vec<Ext>)> {
        let mut s = Strict { sch, b, exts: BTreeMap::new(), writer, gaps, depth: 0 };
        s.claim(0, 4, "root offset", "")?;
        if let Some(id) = file_id {
            s.claim(4, 8, "file identifier", "")?;
            if b[4..8] != id { return Err(format!("file identifier is {:?}, not {:?}", &b[4..8], id)); }
        }
        let v = s.table_ref(t, 0, "root")?;
        let exts: Vec<Ext> = s.exts.values().cloned().collect();
        let mut end = 0;
        for (i, e) in exts.iter().enumerate() {
            // another writer may let leaves of different types share their bytes
            if e.start < end && !(!s.writer && exts[i - 1].start == e.start && e.leaf() && exts[i - 1].leaf()) { return Err(format!("objects overlap: {:?} and {:?}", exts[i - 1], e)); }
            if s.gaps { if let Some(k) = (end..e.start).find(|k| b[*k] != 0) { return Err(format!("padding byte {k} is {:#x}", b[k])); } }
            end = end.max(e.end);
        }
        if s.gaps { if let Some(k) = (end..b.len()).find(|k| b[*k] != 0) { return Err(format!("trailing byte {k} is {:#x}", b[k])); } }
        Ok((v, exts))
    }
    fn claim(&mut self, a: usize, e: usize, what: &str, path: &str) -> SR<()> {
        if e > self.b.len() || a > e { return Err(format!("{what} at {a}..{e} ({path}) is outside the buffer of {}", self.b.len())); }
        if a == e { return Ok(()); }
        if let Some(x) = self.exts.get(&(a, e)) {
            let leaf = |w: &str| Ext { start: a, end: e, what: w.to_string(), path: String::new() }.leaf();
            if x.what != what && !(!self.writer && leaf(&x.what) && leaf(what)) { return Err(format!("bytes {a}..{e} are both {} ({}) and {what} ({path})", x.what, x.path)); }
        }
        self.exts.insert((a, e), Ext { start: a, end: e, what: what.into(), path: path.into() });
        Ok(())
    }
    fn aligned(&self, p: usize, al: usize, what: &str, path: &str) -> SR<()> {
        if p % al != 0 { Err(format!("{what} at {p} ({path}) is not aligned to {al}")) } else { Ok(()) }
    }
    fn target(&self, p: usize, path: &str) -> SR<usize> {
        self.aligned(p, 4, "offset", path)?;
        let o = u32a(self.b, p).ok_or_else(|| format!("offset at {p} ({path}) outside"))?;
        if o == 0 { return Err(format!("null offset at {p} ({path})")); }
        let t = p + o;
        if t >= self.b.len() { return Err(format!("offset at {p} ({path}) leads outside")); }
        Ok(t)
    }
    fn inline(&mut self, ty: &Ty, p: usize, path: &str) -> SR<V> {
        let (sz, al) = self.sch.inline(ty);
        self.aligned(p, al, "value", path)?;
        if p + sz > self.b.len() { return Err(format!("value at {p} ({path}) outside")); }
        match ty {
            Ty::Sc(sc) => {
                if *sc == Sc::Bool && self.b[p] > 1 { return Err(format!("bool at {p} ({path}) is {}", self.b[p])); }
                Ok(scalar_at(*sc, &self.b[p..]))
            }
            Ty::Enum(e) => {
                let (sc, vs) = self.sch.enum_(*e);
                let v = scalar_at(sc, &self.b[p..]);
                if !vs.iter().any(|x| V::Int(x.value) == v) { return Err(format!("enum at {p} ({path}) is {v:?}")); }
                Ok(v)
            }
            Ty::Struct(i) => {
                let l = self.sch.slayout(*i);
                let mut used = vec![false; sz];
                let mut out = vec![];
                for (k, f) in self.sch.sfields(*i).iter().enumerate() {
                    let fs = self.sch.inline(&f.ty).0;
                    out.push(self.inline(&f.ty, p + l.offsets[k], &format!("{path}.{}", f.name))?);
                    for u in &mut used[l.offsets[k]..l.offsets[k] + fs] { *u = true; }
                }
                if self.writer {
                    for (k, u) in used.iter().enumerate() {
                        if !u && self.b[p + k] != 0 { return Err(format!("struct padding byte at {} ({path}) is {:#x}", p + k, self.b[p + k])); }
                    }
                }
                Ok(V::Struct(out))
            }
            _ => panic!(),
        }
    }
    fn object(&mut self, ty: &Ty, at: usize, path: &str) -> SR<V> {
        match ty {
            Ty::Table(t) => self.table_ref(*t, at, path),
            Ty::Str => {
                let p = self.target(at, path)?;
                self.aligned(p, 4, "string", path)?;
                let n = u32a(self.b, p).ok_or("string outside")?;
                self.claim(p, p + 4 + n + 1, "string", path)?;
                if self.b[p + 4 + n] != 0 { return Err(format!("string at {p} ({path}) is not null terminated")); }
                let s = std::str::from_utf8(&self.b[p + 4..p + 4 + n]).map_err(|e| format!("string at {p} ({path}): {e}"))?;
                Ok(V::Str(s.to_string()))
            }
            Ty::Struct(i) => {
                let p = self.target(at, path)?;
                let l = self.sch.slayout(*i);
                self.claim(p, p + l.size, &format!("struct {i}"), path)?;
                self.inline(ty, p, path)
            }
            Ty::Vec(e) => {
                let p = self.target(at, path)?;
                self.aligned(p, 4, "vector", path)?;
                let n = u32a(self.b, p).ok_or("vector outside")?;
                let scalar = matches!(**e, Ty::Sc(_) | Ty::Enum(_) | Ty::Struct(_));
                let (sz, al) = self.sch.inline(e);
                let what = match &**e { Ty::Sc(_) | Ty::Enum(_) => format!("vector of {sz} byte scalars"), e => format!("vector {e:?}") };
                self.claim(p, p + 4 + n * sz, &what, path)?;
                if n > 0 { self.aligned(p + 4, al, "vector elements", path)?; }
                let mut out = vec![];
                for k in 0..n {
                    let q = p + 4 + k * sz;
                    let pp = format!("{path}[{k}]");
                    out.push(if scalar { self.inline(e, q, &pp)? } else { self.object(e, q, &pp)? });
                }
                Ok(V::Vec(out))
            }
            _ => panic!(),
        }
    }
    fn union_obj(&mut self, u: usize, tag: u8, at: usize, path: &str) -> SR<V> {
        let vs = self.sch.uvariants(u);
        if tag == 0 || tag as usize > vs.len() { return Err(format!("union tag {tag} ({path}) unknown")); }
        let ty = vs[tag as usize - 1].ty.clone();
        Ok(V::Union(tag, Box::new(self.object(&ty, at, path)?)))
    }
    fn table_ref(&mut self, t: usize, at: usize, path: &str) -> SR<V> {
        self.depth += 1;
        if self.depth > 4000 { return Err("too deep".into()); }
        let p = self.target(at, path)?;
        self.aligned(p, 4, "table", path)?;
        let so = i32a(self.b, p).ok_or("table outside")?;
        let vp = p as i64 - so;
        if vp < 0 || vp as usize + 4 > self.b.len() { return Err(format!("vtable of {path} outside")); }
        let vp = vp as usize;
        self.aligned(vp, 2, "vtable", path)?;
        let vs = u16a(self.b, vp).unwrap();
        let ts = u16a(self.b, vp + 2).unwrap();
        if vs < 4 || vs % 2 != 0 { return Err(format!("vtable of {path} has size {vs}")); }
        if ts < 4 { return Err(format!("table {path} has size {ts}")); }
        self.claim(vp, vp + vs, "vtable", path)?;
        self.claim(p, p + ts, "table", path)?;
        let n = (vs - 4) / 2;
        let slot = |k: usize| if k < n { u16a(self.b, vp + 4 + 2 * k).unwrap() } else { 0 };
        let fields = self.sch.fields(t).to_vec();
        let slots = self.sch.slots(t);
        let mut used: Vec<(usize, usize)> = vec![(0, 4)];
        let mut out = vec![];
        let mut known = 0;
        for (k, f) in fields.iter().enumerate() {
            let fp = format!("{path}.{}", f.name);
            let two = Schema::two_slots(&f.ty);
            known = known.max(slots[k] + if two { 2 } else { 1 });
            let o = slot(slots[k]);
            let o2 = if two { slot(slots[k] + 1) } else { 0 };
            if f.deprecated {
                if self.writer && (o != 0 || o2 != 0) { return Err(format!("deprecated field {fp} is stored")); }
                if o == 0 { out.push(V::Null); continue; }
            }
            let mut v = V::Null;
            if two {
                let Ty::Union(u) = (match &f.ty { Ty::Vec(e) => (**e).clone(), x => x.clone() }) else { panic!() };
                if matches!(f.ty, Ty::Union(_)) {
                    if slots[k] + 1 == n { return Err(format!("the vtable ends between the tag and the value of {fp}")); }
                    if o != 0 {
                        if o + 1 > ts { return Err(format!("union tag of {fp} outside table")); }
                        used.push((o, o + 1));
                        let tag = self.b[p + o];
                        if tag == 0 && self.writer { return Err(format!("union tag of {fp} stored as NONE")); }
                        if (tag != 0) != (o2 != 0) { return Err(format!("union tag and value of {fp} disagree")); }
                        if tag != 0 {
                            if o2 + 4 > ts { return Err(format!("union value of {fp} outside table")); }
                            used.push((o2, o2 + 4));
                            v = self.union_obj(u, tag, p + o2, &fp)?;
                        }
                    } else if o2 != 0 { return Err(format!("union value of {fp} without tag")); }
                } else if o != 0 || o2 != 0 {
                    if o == 0 || o2 == 0 { return Err(format!("union vector {fp} has only one of tags and values")); }
                    if o + 4 > ts || o2 + 4 > ts { return Err(format!("{fp} outside table")); }
                    used.push((o, o + 4));
                    used.push((o2, o2 + 4));
                    let tv = self.object(&Ty::Vec(Box::new(Ty::Sc(Sc::U8))), p + o, &format!("{fp}_type"))?;
                    let vp = self.target(p + o2, &fp)?;
                    self.aligned(vp, 4, "vector", &fp)?;
                    let n = u32a(self.b, vp).ok_or("vector outside")?;
                    self.claim(vp, vp + 4 + n * 4, "vector Union", &fp)?;
                    if n != tv.fields().len() { return Err(format!("union vector {fp} lengths differ")); }
                    let mut xs = vec![];
                    for k in 0..n {
                        let tag = tv.fields()[k].int() as u8;
                        xs.push(self.union_obj(u, tag, vp + 4 + 4 * k, &format!("{fp}[{k}]"))?);
                    }
                    v = V::Vec(xs);
                }
            } else if o != 0 {
                let sz = self.sch.inline(&f.ty).0;
                if o + sz > ts { return Err(format!("field {fp} ends at {} of a table of size {ts}", o + sz)); }
                used.push((o, o + sz));
                v = match &f.ty { Ty::Sc(_) | Ty::Enum(_) | Ty::Struct(_) => self.inline(&f.ty, p + o, &fp)?, ty => self.object(ty, p + o, &fp)? };
            }
            let at = if two { o2 } else { o };
            if let (Some(a), true) = (f.falign, at != 0) { self.aligned(p + at, a as usize, "field with forced alignment", &fp)?; }
            if f.deprecated { v = V::Null; out.push(v); continue; }
            if v.is_null() {
                match &f.mode {
                    Mode::Required => return Err(format!("required field {fp} is missing")),
                    Mode::Default(d) => v = d.clone(),
                    _ => {}
                }
            } else if self.writer {
                if let Mode::Default(d) = &f.mode {
                    let same = match (d, &v) {
                        (V::F32(a), V::F32(b)) => f32::from_bits(*a) == f32::from_bits(*b),
                        (V::F64(a), V::F64(b)) => f64::from_bits(*a) == f64::from_bits(*b),
                        (a, b) => a == b,
                    };
                    if same && !matches!(f.ty, Ty::Str | Ty::Vec(_)) { return Err(format!("field {fp} stores its default {d:?}")); }
                }
            }
            out.push(v);
        }
        if self.writer {
            for k in known..n { if slot(k) != 0 { return Err(format!("vtable of {path} has an unknown entry {k}")); } }
        }
        used.sort();
        let mut end = 0;
        for (a, e) in &used {
            if *a < end { return Err(format!("fields of {path} overlap at {a}")); }
            if self.writer { if let Some(k) = (end..*a).find(|k| self.b[p + k] != 0) { return Err(format!("padding byte {k} of table {path} is not zero")); } }
            end = *e;
        }
        if self.writer { if let Some(k) = (end..ts).find(|k| self.b[p + k] != 0) { return Err(format!("padding byte {k} of table {path} is not zero")); } }
        self.depth -= 1;
        Ok(V::Table(out))
    }
}

// ---------------------------------------------------------------------------

/// What arbitrary bytes contain, read lazily field by field.
pub struct Lenient<'a> {
    pub sch: &'a Schema,
    pub b: &'a [u8],
    pub budget: usize,
    pub check_null: bool,
    pub depth: usize,
    pub wild: usize,
}
#[derive(Clone, Debug)]
pub struct TablePos { pub obj: usize, pub vt: usize, pub vlen: usize }
enum Loc<T> { Ok(T), Err(String), Wild }

pub const MAX_DEPTH: usize = 48;

impl<'a> Lenient<'a> {
    pub fn new(sch: &'a Schema, b: &'a [u8], budget: usize, check_null: bool) -> Self { Lenient { sch, b, budget, check_null, depth: 0, wild: 0 } }
    fn err(kind: &str, type_: &str, method: &str, pos: usize) -> V {
        let (kind, detail) = kind.split_once(' ').unwrap_or((kind, ""));
        V::Err(ErrInfo { kind: kind.into(), type_: type_.into(), method: method.into(), pos, detail: detail.into() })
    }
    /// `base`: where the reading implementation's view of the buffer begins
    fn locate(&mut self, field: usize, base: usize) -> Loc<TablePos> {
        let Some(o) = u32a(self.b, field) else { return Loc::Err("InvalidOffset".into()) };
        let obj = field + o;
        if obj > self.b.len() { return Loc::Err("InvalidOffset".into()); }
        let Some(so) = i32a(self.b, obj) else { return Loc::Err("InvalidOffset".into()) };
        let vt = obj as i64 - so;
        if vt < 0 { return Loc::Err("InvalidOffset".into()); }
        let vt = vt as usize;
        if vt < base { self.wild += 1; return Loc::Wild; }
        let Some(vs) = u16a(self.b, vt) else { return Loc::Err("InvalidOffset".into()) };
        if vs < 4 || vs % 2 != 0 { return Loc::Err(format!("InvalidVtableLength {vs}")); }
        if vt + vs > self.b.len() { return Loc::Err("InvalidLength".into()); }
        Loc::Ok(TablePos { obj, vt: vt + 4, vlen: vs - 4 })
    }
    pub fn root(&mut self, t: usize) -> V {
        let ty = format!("[{}Ref]", self.sch.decls[t].name);
        match self.locate(0, 0) {
            Loc::Ok(p) => self.table(t, &p),
            Loc::Err(k) => Self::err(&k, &ty, "read_as_root", 0),
            Loc::Wild => V::Cut,
        }
    }
    fn slot(&self, p: &TablePos, k: usize) -> Option<usize> {
        if 2 * (k + 1) <= p.vlen { u16a(self.b, p.vt + 2 * k) } else { None }
    }
    fn inline(&self, ty: &Ty, pos: usize, e: &dyn Fn(&str) -> V) -> V {
        let sz = self.sch.inline(ty).0;
        if pos.checked_add(sz).is_none_or(|x| x > self.b.len()) { return e("InvalidOffset"); }
        match ty {
            Ty::Sc(sc) => scalar_at(*sc, &self.b[pos..]),
            Ty::Enum(x) => {
                let (sc, vs) = self.sch.enum_(*x);
                let v = scalar_at(sc, &self.b[pos..]);
                if vs.iter().any(|x| V::Int(x.value) == v) { v } else { e(&format!("UnknownEnumTag {}", v.int())) }
            }
            Ty::Struct(i) => {
                let l = self.sch.slayout(*i);
                let name = format!("{}Ref", self.sch.decls[*i].name);
                V::Struct(
                    self.sch.sfields(*i).iter().zip(&l.offsets)
                        .map(|(f, o)| self.inline(&f.ty, pos + o, &|k| Self::err(k, &name, &f.name, pos + o)))
                        .collect(),
                )
            }
            _ => panic!(),
        }
    }
    fn vec_at(&self, field: usize) -> Result<(usize, usize), &'static str> {
        let o = u32a(self.b, field).ok_or("InvalidOffset")?;
        let p = field + o;
        if p > self.b.len() { return Err("InvalidOffset"); }
        let n = u32a(self.b, p).ok_or("InvalidOffset")?;
        Ok((p + 4, n))
    }
    fn object(&mut self, ty: &Ty, field: usize, base: usize, e: &dyn Fn(&str) -> V) -> V {
        if self.budget == 0 { return V::Cut; }
        self.budget -= 1;
        match ty {
            Ty::Str => {
                let (p, n) = match self.vec_at(field) { Ok(x) => x, Err(k) => return e(k) };
                if self.check_null && self.b.get(p + n) != Some(&0) { return e("MissingNullTerminator"); }
                let Some(s) = self.b.get(p..p + n) else { return e("InvalidLength") };
                match std::str::from_utf8(s) { Ok(s) => V::Str(s.into()), Err(x) => e(&format!("InvalidUtf8 {}", x.valid_up_to())) }
            }
            Ty::Struct(_) => {
                // out of line (union member)
                let Some(o) = u32a(self.b, field) else { return e("InvalidOffset") };
                self.inline(ty, field + o, e)
            }
            Ty::Table(t) => match self.locate(field, base) {
                Loc::Ok(p) => self.table(*t, &p),
                Loc::Err(k) => e(&k),
                Loc::Wild => V::Cut,
            },
            Ty::Vec(el) => {
                let (p, n) = match self.vec_at(field) { Ok(x) => x, Err(k) => return e(k) };
                let sz = self.sch.inline(el).0;
                if n * sz > self.b.len() - p { return e("InvalidLength"); }
                let mut out = vec![];
                let vname = self.elem_name(el);
                for k in 0..n {
                    if self.budget == 0 { out.push(V::Cut); break; }
                    let q = p + k * sz;
                    out.push(match &**el {
                        Ty::Sc(_) | Ty::Struct(_) => { self.budget -= 1; self.inline(el, q, e) }
                        Ty::Enum(x) => {
                            self.budget -= 1;
                            let name = self.sch.decls[*x].name.clone();
                            self.inline(el, q, &|k| Self::err(k, &name, "VectorRead::from_buffer", q))
                        }
                        // an iterator's view begins at the element it stands on
                        _ => self.object(el, q, q, &|k| Self::err(k, &vname, "get", q)),
                    });
                }
                V::Vec(out)
            }
            _ => panic!(),
        }
    }
    fn elem_name(&self, el: &Ty) -> String {
        match el {
            Ty::Table(t) => format!("[{}Ref]", self.sch.decls[*t].name),
            Ty::Union(t) => format!("[{}Ref]", self.sch.decls[*t].name),
            Ty::Str => "[str]".into(),
            _ => String::new(),
        }
    }
    fn union_obj(&mut self, u: usize, tag: u8, at: usize, base: usize, e: &dyn Fn(&str) -> V) -> V {
        let vs = self.sch.uvariants(u);
        if tag == 0 || tag as usize > vs.len() { return e(&format!("UnknownUnionTag {tag}")); }
        let ty = vs[tag as usize - 1].ty.clone();
        match self.object(&ty, at, base, e) {
            V::Err(x) => V::Err(x),
            V::Cut => V::Cut,
            v => V::Union(tag, Box::new(v)),
        }
    }
    fn table(&mut self, t: usize, p: &TablePos) -> V {
        if self.budget == 0 || self.depth >= MAX_DEPTH { return V::Cut; }
        self.budget -= 1;
        self.depth += 1;
        let fields = self.sch.fields(t).to_vec();
        let slots = self.sch.slots(t);
        let name = self.sch.decls[t].name.clone();
        let mut out = vec![];
        for (k, f) in fields.iter().enumerate() {
            if f.deprecated { out.push(V::Null); continue; }
            if self.budget == 0 { out.push(V::Cut); continue; }
            let e = |kind: &str| Self::err(kind, &name, &f.name, p.obj);
            let o = self.slot(p, slots[k]);
            let mut v = match &f.ty {
                Ty::Union(u) => match (o, self.slot(p, slots[k] + 1)) {
                    (None, _) => V::Null,
                    (Some(0), Some(0)) => V::Null,
                    // the vtable ends between the two slots (issue 99)
                    (Some(_), None) => e(&format!("InvalidVtableLength {}", p.vlen + 4)),
                    (Some(o), Some(x)) => match self.b.get(p.obj + o) {
                        None => e("InvalidOffset"),
                        Some(0) if o != 0 => V::Null,
                        // an absent tag is NONE, and a tag without a value has nothing to show
                        Some(_) if o == 0 || x == 0 => V::Null,
                        Some(tag) => self.union_obj(*u, *tag, p.obj + x, p.obj, &e),
                    },
                },
                Ty::Vec(el) if matches!(**el, Ty::Union(_)) => {
                    let Ty::Union(u) = **el else { panic!() };
                    match (o.unwrap_or(0), self.slot(p, slots[k] + 1).unwrap_or(0)) {
                        (0, 0) => V::Null,
                        // one without the other
                        (0, _) | (_, 0) => e("InvalidOffset"),
                        (a, x) => {
                            let tags = self.vec_at(p.obj + a);
                            let vals = self.vec_at(p.obj + x);
                            match (tags, vals) {
                                (Err(k), _) | (_, Err(k)) => e(k),
                                (Ok((tp, n)), Ok((vp, m))) => {
                                    if n > self.b.len() - tp || m * 4 > self.b.len() - vp { e("InvalidLength") } else if n != m { e(&format!("UnionVectorLengthsMismatched {n}/{m}")) } else {
                                        let mut xs = vec![];
                                        let vname = self.elem_name(el);
                                        for k in 0..n {
                                            if self.budget == 0 { xs.push(V::Cut); break; }
                                            let tag = self.b[tp + k];
                                            self.budget -= 1;
                                            let q = vp + 4 * k;
                                            xs.push(self.union_obj(u, tag, q, q, &|kd| Self::err(kd, &vname, "get", q)));
                                        }
                                        V::Vec(xs)
                                    }
                                }
                            }
                        }
                    }
                }
                ty => match o {
                    None | Some(0) => V::Null,
                    Some(o) => match ty {
                        Ty::Sc(_) | Ty::Enum(_) | Ty::Struct(_) => self.inline(ty, p.obj + o, &e),
                        ty => self.object(ty, p.obj + o, p.obj, &e),
                    },
                },
            };
            if v.is_null() {
                match &f.mode { Mode::Required => v = e("MissingRequired"), Mode::Default(d) => v = d.clone(), _ => {} }
            }
            out.push(v);
        }
        self.depth -= 1;
        V::Table(out)
    }
}

/// Compare what was read with the reference; Cut is a wildcard on either side.
/// `loc` also compares error kinds and locations.
pub fn agree(got: &V, want: &V, loc: bool, path: &str) -> Result<(), String> {
    match (got, want) {
        (V::Cut, _) | (_, V::Cut) => Ok(()),
        (V::Err(a), V::Err(b)) => {
            if !loc || (a == b) { Ok(()) } else { Err(format!("{path}: error is {a:?}, expected {b:?}")) }
        }
        (V::Err(a), w) => Err(format!("{path}: reading fails with {a:?}, the bytes contain {}", short(w))),
        (g, V::Err(b)) => Err(format!("{path}: reading gives {}, expected the error {b:?}", short(g))),
        (V::Struct(a), V::Struct(b)) | (V::Table(a), V::Table(b)) => {
            if a.len() != b.len() { return Err(format!("{path}: {} fields instead of {}", a.len(), b.len())); }
            for (i, (x, y)) in a.iter().zip(b).enumerate() { agree(x, y, loc, &format!("{path}.{i}"))?; }
            Ok(())
        }
        (V::Vec(a), V::Vec(b)) => {
            for (i, (x, y)) in a.iter().zip(b).enumerate() { agree(x, y, loc, &format!("{path}[{i}]"))?; }
            if a.len() != b.len() && !matches!(a.last(), Some(V::Cut)) && !matches!(b.last(), Some(V::Cut)) {
                return Err(format!("{path}: {} elements instead of {}", a.len(), b.len()));
            }
            Ok(())
        }
        (V::Union(a, x), V::Union(b, y)) => {
            if a != b { return Err(format!("{path}: union variant {a} instead of {b}")); }
            agree(x, y, loc, &format!("{path}<{a}>"))
        }
        (a, b) => if a == b { Ok(()) } else { Err(format!("{path}: {} instead of {}", short(a), short(b))) },
    }
}
pub fn short(v: &V) -> String {
    let s = format!("{v:?}");
    if s.len() > 300 { let mut n = 300; while !s.is_char_boundary(n) { n -= 1; } format!("{}...", &s[..n]) } else { s }
}
/// equality of values where 0.0 and -0.0 count as equal when the field has a zero default (elision)
pub fn norm_zero(v: &V) -> V {
    match v {
        V::F32(b) if f32::from_bits(*b) == 0.0 => V::F32(0),
        V::F64(b) if f64::from_bits(*b) == 0.0 => V::F64(0),
        V::Struct(x) => V::Struct(x.iter().map(norm_zero).collect()),
        V::Table(x) => V::Table(x.iter().map(norm_zero).collect()),
        V::Vec(x) => V::Vec(x.iter().map(norm_zero).collect()),
        V::Union(t, x) => V::Union(*t, Box::new(norm_zero(x))),
        v => v.clone(),
    }
}
