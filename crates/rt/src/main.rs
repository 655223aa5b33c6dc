//! Runtime checks: generated code and the planus runtime against the wire model.
use rtapi::*;
use std::sync::OnceLock;
use vmodel::ensure;
use vmodel::engine::{guarded, Prop};
use vmodel::schema::*;
use vmodel::src_::hash_bytes;
use vmodel::suite::{suite, written, Entry, Project};
use vmodel::wire::{agree, encode, short, EncOpts, Lenient, Strict};

mod mem;
mod bytes;
mod history;
mod laws;

#[global_allocator]
static ALLOC: mem::Poison = mem::Poison;

pub struct Suite { pub entries: Vec<Entry>, pub ops: Vec<Option<&'static SchemaOps>>, pub live: Vec<usize>, pub pairs: Vec<(usize, usize)> }
pub fn su() -> &'static Suite {
    static S: OnceLock<Suite> = OnceLock::new();
    S.get_or_init(|| {
        let entries = suite(vmodel::engine::env_seed(), vmodel::engine::env_thorough());
        let mut ops: Vec<Option<&'static SchemaOps>> = entries.iter().map(|_| None).collect();
        for l in [g0::ALL, g1::ALL, g2::ALL, g3::ALL, g4::ALL, g5::ALL, g6::ALL, g7::ALL] {
            for (k, o) in l { ops[*k] = Some(o); }
        }
        let live: Vec<usize> = (0..ops.len()).filter(|k| ops[*k].is_some()).collect();
        let pairs = live.iter().filter_map(|k| entries[*k].older.as_ref().map(|o| (o.0, *k))).filter(|(o, _)| ops[*o].is_some()).collect();
        Suite { entries, ops, live, pairs }
    })
}
pub struct Pick { pub k: usize, pub sch: &'static Schema, pub ops: &'static SchemaOps, pub t: usize, pub tops: &'static TableOps }
pub fn pick_in(s: &mut Src, k: usize) -> Pick {
    let sch = &su().entries[k].sch;
    let ops = su().ops[k].unwrap();
    let i = s.usize(ops.tables.len());
    Pick { k, sch, ops, t: ops.tables[i].decl, tops: &ops.tables[i] }
}
pub fn pick(s: &mut Src) -> Pick {
    let l = &su().live;
    // the hand-written schemas have the most kinds of fields
    let k = if s.chance(1, 3) { l[s.usize(2.min(l.len()))] } else { l[s.usize(l.len())] };
    pick_in(s, k)
}
pub fn value(s: &mut Src, p: &Pick) -> V {
    let mut budget = *s.pick(&[60usize, 12, 250]);
    let depth = 1 + s.usize(4);
    let mut v = gen_value(s, p.sch, &Ty::Table(p.t), depth, &mut budget);
    if s.chance(1, 400) {
        let cap = if s.chance(1, 6) { 140_000 } else { 5000 };
        enlarge(s, &mut v, cap);
    } else if s.chance(1, 150) {
        twins(s, p.sch, &Ty::Table(p.t), &mut v);
    }
    v
}
pub fn table_ty(p: &Pick) -> Ty { Ty::Table(p.t) }
pub fn file_id(s: &mut Src) -> Option<[u8; 4]> { if s.chance(1, 3) { Some(*s.pick(&[*b"TEST", [0, 0, 0, 0], [255, 254, 1, 0], *b"\x04\x00\x00\x00"])) } else { None } }
pub fn new_builder(s: &mut Src) -> planus::Builder {
    match s.below(4) { 0 => planus::Builder::new(), 3 => planus::Builder::default(), 1 => planus::Builder::with_capacity(s.usize(40)), _ => planus::Builder::with_capacity(s.usize(2000)) }
}
pub fn hexdump(b: &[u8]) -> String {
    let mut o = String::new();
    for (i, c) in b.chunks(16).enumerate().take(40) { o.push_str(&format!("{:04x}: {}\n", i * 16, c.iter().map(|x| format!("{x:02x}")).collect::<Vec<_>>().join(" "))); }
    if b.len() > 640 { o.push_str(&format!("... {} bytes\n", b.len())); }
    o
}
pub fn describe(st: &mut St, p: &Pick, v: &V, bytes: &[u8]) {
    st.note(|| format!("schema {} of the suite, table {}:\n{}", p.k, p.tops.name, p.sch.fbs()));
    st.note(|| format!("value: {v:?}"));
    st.note(|| format!("bytes:\n{}", hexdump(bytes)));
}
pub fn nontrivial_value(v: &V) -> bool {
    fn offs(v: &V) -> usize { match v { V::Table(x) => 1 + x.iter().map(offs).sum::<usize>(), V::Vec(x) => 1 + x.iter().map(offs).sum::<usize>(), V::Str(_) => 1, V::Union(_, x) => 1 + offs(x), _ => 0 } }
    offs(v) >= 3 && v.nodes() >= 5
}
pub fn classes(st: &mut St, v: &V) {
    fn go(v: &V, st: &mut St) {
        match v {
            V::Str(x) => { st.class("value: string"); if x.len() > 65535 { st.class("value: string over 64K") } else if x.len() > 1000 { st.class("value: string over 1000 bytes") } }
            V::Struct(_) => st.class("value: struct"),
            V::Table(x) => { st.class("value: table"); x.iter().for_each(|v| go(v, st)) }
            V::Union(_, x) => { st.class("value: union"); go(x, st) }
            V::Vec(x) => { if x.len() > 65535 { st.class("value: vector over 64K") } else if x.len() > 1000 { st.class("value: vector over 1000 elements") } st.class(if matches!(x.first(), Some(V::Union(..))) { "value: union vector" } else { "value: vector" }); if let Some(v) = x.first() { go(v, st) } }
            _ => {}
        }
    }
    go(v, st)
}

/// reading in every way gives `want`
pub fn reads_as(p: &Pick, st: &mut St, s: &mut Src, bytes: &[u8], want: &V, what: &str) -> R {
    let front = s.bool();
    mem::with_guard(bytes, front, |b| {
        let got = guarded(|| (p.tops.read)(b, &mut Cx::new(usize::MAX)))?;
        agree(&got, want, false, p.tops.name).or_else(|e| fail(format!("{what}: read"), format!("{what}: reading back through the reference type: {e}")))?;
        let own = guarded(|| (p.tops.owned)(b))?;
        if want.has_err() {
            ensure!(matches!(own, V::Err(_)), format!("{what}: owned"), "{what}: conversion to the owned type gives {} although a field cannot be read", short(&own));
        } else {
            agree(&own, want, false, p.tops.name).or_else(|e| fail(format!("{what}: owned"), format!("{what}: reading back through the owned type: {e}")))?;
        }
        guarded(|| (p.tops.debug)(b))?;
        let _ = &st;
        Ok(())
    })
}

fn c01(s: &mut Src, st: &mut St) -> R {
    let p = pick(s);
    let v = value(s, &p);
    let want = written(p.sch, &table_ty(&p), &v);
    memo_reset(false);
    let mut b = new_builder(s);
    describe(st, &p, &v, &[]);
    let bytes = guarded(|| (p.tops.finish)(&v, &mut b, None, s))?;
    st.note(|| format!("bytes:\n{}", hexdump(&bytes)));
    classes(st, &v);
    if nontrivial_value(&v) { st.nontrivial(hash_bytes(format!("{}{}{v:?}", p.k, p.t).as_bytes())); st.sample(|| format!("{} {:?}", p.tops.name, v)); }
    let ident = guarded(|| (p.tops.ident)(&v))?;
    ensure!(ident == v, "owned value", "building the owned value gives {} instead of {}", short(&ident), short(&v));
    // vectors through the sequence queries as well
    reads_as(&p, st, s, &bytes, &want, "round trip")
}

fn c03(s: &mut Src, st: &mut St) -> R {
    let p = pick(s);
    let v = value(s, &p);
    let want = written(p.sch, &table_ty(&p), &v);
    let shared = s.chance(1, 3);
    memo_reset(shared);
    let mut b = new_builder(s);
    let id = file_id(s);
    let mut gaps = true;
    let rounds = s.weighted(&[6, 2, 1]);
    for _ in 0..rounds {
        // earlier use of the same builder
        let q = pick_in(s, p.k);
        let w = value(s, &q);
        if s.bool() { guarded(|| (q.tops.write)(&w, &mut b, s))?; } else { guarded(|| (q.tops.finish)(&w, &mut b, file_id(s), s))?; }
        gaps = false;
    }
    let bytes = guarded(|| (p.tops.finish)(&v, &mut b, id, s))?;
    memo_reset(false);
    describe(st, &p, &v, &bytes);
    classes(st, &v);
    if id.is_some() { st.class("file identifier"); }
    if nontrivial_value(&v) { st.nontrivial(hash_bytes(&bytes)); st.sample(|| format!("{} {:?} -> {} bytes, file id {:?}", p.tops.name, v, bytes.len(), id)); }
    // a style that writes an object and then drops it leaves unreachable bytes
    match Strict::verify_ex(p.sch, p.t, &bytes, id, true, gaps && !shared) {
        Err(e) => fail(format!("wire: {}", sig_of(&e)), e),
        Ok((got, exts)) => {
            st.classes.entry("wire objects checked".into()).and_modify(|x| *x += exts.len() as u64).or_insert(exts.len() as u64);
            agree(&got, &want, false, p.tops.name).or_else(|e| fail("wire: value", format!("independent decoder: {e}")))
        }
    }
}
/// stable words of a message
pub fn sig_of(e: &str) -> String {
    let e = e.split('(').next().unwrap_or("");
    e.split_whitespace().filter(|w| w.chars().all(|c| c.is_ascii_lowercase())).take(6).collect::<Vec<_>>().join(" ")
}

pub fn enc_opts(s: &mut Src) -> EncOpts {
    EncOpts { file_id: file_id(s), sharing: s.bool(), store_defaults: s.bool(), extra_slots: s.bool(), garbage: s.bool(), trailing: s.bool(), explicit_none: s.bool(), deprecated: s.bool(), far: s.chance(1, 12) }
}
fn c04(s: &mut Src, st: &mut St) -> R {
    let p = pick(s);
    let v = value(s, &p);
    let o = enc_opts(s);
    let e = encode(s, p.sch, p.t, &v, &o);
    describe(st, &p, &v, &e.bytes);
    match Strict::verify(p.sch, p.t, &e.bytes, o.file_id, false) {
        Ok((w, _)) => assert!(w == v, "reference encoder: {v:?} encoded as {w:?}"),
        Err(m) => panic!("reference encoder is wrong: {m}"),
    }
    for (f, n) in &e.feats { *st.classes.entry(format!("layout: {f}")).or_default() += *n as u64; }
    if nontrivial_value(&v) { st.nontrivial(hash_bytes(&e.bytes)); st.sample(|| format!("{} {:?} -> {} bytes {:?}", p.tops.name, v, e.bytes.len(), e.feats)); }
    reads_as(&p, st, s, &e.bytes, &v, "foreign layout")
}

/// A vtable that ends after the slot of a union's tag, with the tag (if it is stored) saying NONE: what a writer that
/// stores default values and cuts off the empty end of its vtables may produce. The encoder of C04 does not, because
/// that is a known finding.
fn vtable_ends_in_union(st: &mut St) -> R {
    let mut bad: R = Ok(());
    let mut n = 0;
    for &k in &su().live {
        let sch = &su().entries[k].sch;
        for tops in su().ops[k].unwrap().tables {
            let t = tops.decl;
            let fields = sch.fields(t);
            if fields.iter().any(|f| f.mode == Mode::Required && !f.deprecated) { continue; }
            let slots = sch.slots(t);
            for (f, slot) in fields.iter().zip(&slots) {
                if f.deprecated || !matches!(f.ty, Ty::Union(_)) || *slot > 200 { continue; }
                let buffer = |slots: usize, tag: bool| -> Vec<u8> {
                    let vs = 4 + 2 * slots;
                    let obj = (4 + vs + 7) / 8 * 8;
                    let mut b = vec![0; obj + 8];
                    b[0] = (obj % 256) as u8; b[1] = (obj / 256) as u8;
                    b[4] = (vs % 256) as u8; b[5] = (vs / 256) as u8; b[6] = 8;
                    if tag { b[4 + vs - 2] = 4; }
                    b[obj..obj + 4].copy_from_slice(&(obj as u32 - 4).to_le_bytes());
                    b
                };
                let (want, _) = Strict::verify(sch, t, &buffer(0, false), None, false).map_err(|e| vmodel::engine::Fail { sig: "HARNESS probe".into(), msg: e })?;
                let b = buffer(slot + 1, true);
                let got = guarded(|| (tops.read)(&b, &mut Cx::new(usize::MAX)))?;
                n += 1;
                if let Err(e) = agree(&got, &want, false, tops.name) { if bad.is_ok() { bad = fail("vtable-ends-in-union", format!("a union of which only the tag NONE is stored, at the end of the vtable: {e}\n{b:?}")); } }
            }
        }
    }
    ensure!(n >= 10, "HARNESS probe", "{n} unions");
    st.class("vtables that end in a union");
    bad
}
/// A sub-table whose vtable lies in front of its parent: no known writer does that, the format allows it. The encoder
/// of C04 does not produce it because it is a known finding.
fn vtable_before_parent(_st: &mut St) -> R {
    let mut b: Vec<u8> = vec![20, 0, 0, 0, 6, 0, 8, 0, 4, 0, 8, 0, 12, 0, 4, 0, 8, 0, 0, 0];
    b[10..18].copy_from_slice(&[8, 0, 12, 0, 4, 0, 8, 0]);
    for x in [10i32, 1, 4, 28, 2] { b.extend_from_slice(&x.to_le_bytes()); }
    let k = su().live[0];
    let sch = &su().entries[k].sch;
    let tops = su().ops[k].unwrap().tables.iter().find(|t| t.name == "Trec").unwrap();
    let t = tops.decl;
    let (want, _) = Strict::verify(sch, t, &b, None, false).map_err(|e| vmodel::engine::Fail { sig: "HARNESS probe".into(), msg: e })?;
    let got = guarded(|| (tops.read)(&b, &mut Cx::new(usize::MAX)))?;
    agree(&got, &want, false, "Trec").or_else(|e| fail("vtable-before-parent", format!("a sub-table whose vtable is in front of its parent: {e}")))
}

fn c05(s: &mut Src, st: &mut St) -> R {
    let p = pick(s);
    let fs: Vec<usize> = p.sch.fields(p.t).iter().enumerate().filter(|(_, f)| !f.deprecated && matches!(f.ty, Ty::Vec(_))).map(|(k, _)| k).collect();
    if fs.is_empty() { st.exclude("table without vector field"); return Ok(()); }
    let k = fs[s.usize(fs.len())];
    let mut v = value(s, &p);
    let V::Table(f) = &mut v else { unreachable!() };
    let ty = p.sch.fields(p.t)[k].ty.clone();
    let Ty::Vec(el) = &ty else { unreachable!() };
    let n = match s.weighted(&[600, 200, 100, 3]) { 0 => s.usize(7), 1 => s.usize(20), 2 => 0, _ => 250 + s.usize(30) };
    f[k] = V::Vec((0..n).map(|_| gen_value(s, p.sch, el, 1, &mut 8)).collect());
    if n > 200 { st.class("vector longer than a byte can count"); }
    let (bytes, want) = match s.weighted(&[3, 3, 2]) {
        0 => {
            memo_reset(false);
            let mut b = new_builder(s);
            (guarded(|| (p.tops.finish)(&v, &mut b, None, s))?, written(p.sch, &table_ty(&p), &v))
        }
        1 => { let o = enc_opts(s); (encode(s, p.sch, p.t, &v, &o).bytes, v.clone()) }
        _ => {
            // damaged elements
            let o = EncOpts { sharing: s.bool(), ..Default::default() };
            let mut b = encode(s, p.sch, p.t, &v, &o).bytes;
            bytes::mutate(s, st, &p, &mut b);
            let w = Lenient::new(p.sch, &b, 3000, cfg!(feature = "nulls")).root(p.t);
            let ok = matches!(&w, V::Table(x) if matches!(&x[k], V::Vec(l) if l.len() <= 200 && !bytes::has_cut(&x[k])));
            if !ok { st.exclude("damaged vector not readable as a vector"); return Ok(()); }
            st.class("damaged bytes");
            (b, w)
        }
    };
    describe(st, &p, &v, &bytes);
    let V::Table(wf) = &want else { return fail("probe root", "not a table") };
    if n >= 2 { st.nontrivial(hash_bytes(format!("{:?}", &s.log).as_bytes())); st.sample(|| format!("{}.{} {:?}", p.tops.name, p.sch.fields(p.t)[k].name, wf[k])); }
    mem::with_guard(&bytes, s.bool(), |b| guarded(|| (p.tops.probe)(b, k, &wf[k], st, s))?)
}

fn c07(s: &mut Src, st: &mut St) -> R {
    if su().pairs.is_empty() { return Err(Fail { sig: "HARNESS no pairs".into(), msg: "no schema versions were generated".into() }); }
    let (old, new) = su().pairs[s.usize(su().pairs.len())];
    let map = &su().entries[new].older.as_ref().unwrap().1;
    let forward = s.bool();
    let (w, r) = if forward { (old, new) } else { (new, old) };
    let p = pick_in(s, w);
    let rt = if forward { map.iter().position(|x| *x == Some(p.t)) } else { map[p.t] };
    let Some(rt) = rt else { st.exclude("table only in the newer version"); return Ok(()); };
    let v = value(s, &p);
    let (wsch, rsch) = (&su().entries[w].sch, &su().entries[r].sch);
    let q = Pick { k: r, sch: rsch, ops: su().ops[r].unwrap(), t: rt, tops: su().ops[r].unwrap().tables.iter().find(|o| o.decl == rt).unwrap() };
    let (bytes, seen) = if s.bool() {
        memo_reset(false);
        let mut b = new_builder(s);
        (guarded(|| (p.tops.finish)(&v, &mut b, None, s))?, written(wsch, &table_ty(&p), &v))
    } else {
        let mut o = enc_opts(s);
        // invented fields would clash with the ones of the other version
        o.extra_slots = false;
        o.deprecated = false;
        (encode(s, wsch, p.t, &v, &o).bytes, v.clone())
    };
    let want = Project { w: wsch, r: rsch }.ty(&Ty::Table(p.t), &Ty::Table(rt), &seen);
    describe(st, &p, &v, &bytes);
    st.note(|| format!("read with the other version: table {}\n{}", q.tops.name, rsch.fbs()));
    st.class(if forward { "old writer, new reader" } else { "new writer, old reader" });
    if want.has_err() { st.class("unknown tags present"); }
    if nontrivial_value(&v) { st.nontrivial(hash_bytes(&bytes)); st.sample(|| format!("{} {:?} read as {} {:?}", p.tops.name, v, q.tops.name, want)); }
    reads_as(&q, st, s, &bytes, &want, "other version")?;
    // the kind of an error is part of the promise
    let got = guarded(|| (q.tops.read)(&bytes, &mut Cx::new(usize::MAX)))?;
    same_kinds(&got, &want, q.tops.name)
}
fn same_kinds(a: &V, b: &V, path: &str) -> R {
    match (a, b) {
        (V::Err(x), V::Err(y)) => { ensure!(x.kind == y.kind && x.detail == y.detail, "unknown tag error", "{path}: error {x:?}, expected {} {}", y.kind, y.detail); Ok(()) }
        (V::Table(x) | V::Vec(x) | V::Struct(x), V::Table(y) | V::Vec(y) | V::Struct(y)) => { for (i, (x, y)) in x.iter().zip(y).enumerate() { same_kinds(x, y, &format!("{path}.{i}"))?; } Ok(()) }
        (V::Union(_, x), V::Union(_, y)) => same_kinds(x, y, path),
        _ => Ok(()),
    }
}

/// Tables on both sides of a string longer than 2^24 bytes: written and read back, and checked byte by byte.
fn huge(st: &mut St) -> R {
    let k = su().live[0];
    let sch = &su().entries[k].sch;
    let ops = su().ops[k].unwrap();
    let tops = ops.tables.iter().find(|t| sch.decls[t.decl].name == "Tblob").unwrap();
    let p = Pick { k, sch, ops, t: tops.decl, tops };
    let fill = |c: &str, n: usize| V::Str(c.repeat(n / c.len()));
    let blob = |s: V, kids: Vec<V>, n: i128| V::Table(vec![V::Vec(vec![V::Int(1), V::Int(2), V::Int(n % 200)]), V::Null, s, V::Vec(vec![V::Str("e".into()), V::Str(String::new())]), V::Vec(kids), V::Int(n)]);
    for (n, deep) in [(17usize << 20, false), ((1 << 24) - 1, true), ((1 << 24) + 1, true)] {
        let near = blob(V::Str("near".into()), vec![], 900);
        let far = blob(fill("0123456789abcdé", n), if deep { vec![near.clone(), blob(V::Str("near".into()), vec![near.clone()], 65535)] } else { vec![] }, 1);
        let v = blob(V::Str("near".into()), vec![near.clone(), far, near], 7);
        let mut s = Src::new(n as u64);
        memo_reset(false);
        let mut b = planus::Builder::new();
        let bytes = guarded(|| (p.tops.finish)(&v, &mut b, Some(*b"HUGE"), &mut s))?;
        ensure!(bytes.len() > 1 << 24, "HARNESS huge", "only {} bytes", bytes.len());
        reads_as(&p, st, &mut s, &bytes, &v, "large buffer")?;
        match Strict::verify_ex(p.sch, p.t, &bytes, Some(*b"HUGE"), true, false) {
            Err(e) => return fail(format!("wire: {}", sig_of(&e)), short_text(&e)),
            Ok((got, _)) => agree(&got, &v, false, p.tops.name).or_else(|e| fail("wire: value", format!("independent decoder: {}", short_text(&e))))?,
        }
    }
    Ok(())
}
fn short_text(e: &str) -> String { e.chars().take(2000).collect() }

fn main() {
    let val_rule = "the value has at least five nodes and three out-of-line objects";
    vmodel::engine::main(vec![
        Prop::new("C01", 600_000, 60_000_000, val_rule, c01).probe("huge", huge),
        Prop::new("C02", 1_200_000, 120_000_000, "the bytes have a readable root table and were mutated", bytes::c02)
            .assume("Nesting is bounded: reading (debug printing, conversion) recurses once per level, so that a chain of a hundred thousand tables can overflow the stack."),
        Prop::new("C03", 600_000, 60_000_000, val_rule, c03).probe("huge", huge),
        Prop::new("C04", 600_000, 60_000_000, val_rule, c04).probe("vtable-before-parent", vtable_before_parent).probe("vtable-ends-in-union", vtable_ends_in_union),
        Prop::new("C05", 1_000_000, 100_000_000, "the probed vector has at least two elements; distinct by the whole choice sequence", c05),
        Prop::new("C06", 150_000, 15_000_000, "the history has at least two finishes and reuses at least one earlier object", history::c06),
        Prop::new("C07", 600_000, 60_000_000, val_rule, c07),
        Prop::new("C19", 600_000, 60_000_000, "two related but distinct values, or a default/enum/JSON case", laws::c19),
        Prop::new("C20", 1_200_000, 120_000_000, "reading the bytes produces at least one error below a readable root", bytes::c20),
    ]);
}
