//! What the generated glue code (vmodel::glue) is written against.
pub use planus;
pub use serde_json;
pub use vmodel::engine::{fail, Fail, R, St};
pub use vmodel::schema::{ErrInfo, V};
pub use vmodel::src_::Src;
use planus::errors::ErrorKind;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

pub struct Cx { pub budget: usize, pub depth: usize }
impl Cx {
    pub fn new(budget: usize) -> Cx { Cx { budget, depth: 0 } }
    pub fn enter(&mut self) -> bool {
        if self.out() || self.depth >= vmodel::wire::MAX_DEPTH { return false; }
        self.budget -= 1;
        self.depth += 1;
        true
    }
    pub fn leave(&mut self) { self.depth -= 1; }
    pub fn out(&self) -> bool { self.budget == 0 }
}

pub fn verr(e: planus::Error) -> V {
    let kind = match e.error_kind {
        ErrorKind::InvalidOffset => "InvalidOffset",
        ErrorKind::InvalidLength => "InvalidLength",
        ErrorKind::UnionVectorLengthsMismatched { .. } => "UnionVectorLengthsMismatched",
        ErrorKind::UnknownEnumTag { .. } => "UnknownEnumTag",
        ErrorKind::UnknownUnionTag { .. } => "UnknownUnionTag",
        ErrorKind::InvalidVtableLength { .. } => "InvalidVtableLength",
        ErrorKind::InvalidUtf8 { .. } => "InvalidUtf8",
        ErrorKind::MissingRequired => "MissingRequired",
        ErrorKind::MissingNullTerminator => "MissingNullTerminator",
        _ => "?",
    };
    // the numbers inside the error are part of what it reports
    let detail = match e.error_kind {
        ErrorKind::UnionVectorLengthsMismatched { tags_len, values_len } => format!("{tags_len}/{values_len}"),
        ErrorKind::UnknownEnumTag { source } => format!("{}", source.tag),
        ErrorKind::UnknownUnionTag { tag } => format!("{tag}"),
        ErrorKind::InvalidVtableLength { length } => format!("{length}"),
        ErrorKind::InvalidUtf8 { source } => format!("{}", source.valid_up_to()),
        _ => String::new(),
    } + &error_text(&e);
    V::Err(ErrInfo { kind: kind.into(), type_: e.source_location.type_.into(), method: e.source_location.method.into(), pos: e.source_location.byte_offset, detail })
}
/// what is wrong with the text and the causes of an error: nothing, or a note
fn error_text(e: &planus::Error) -> String {
    use std::error::Error as _;
    let l = &e.source_location;
    let text = e.to_string();
    let mut want = vec![l.type_.to_string(), format!("{}()", l.method)];
    want.push(if l.byte_offset == usize::MAX { "".into() } else { format!("@{:x}>", l.byte_offset) });
    match e.error_kind {
        ErrorKind::UnionVectorLengthsMismatched { tags_len, values_len } => want.extend([format!("tags = {tags_len}"), format!("values = {values_len}")]),
        ErrorKind::UnknownEnumTag { source } => want.push(format!("tag = {}", source.tag)),
        ErrorKind::UnknownUnionTag { tag } => want.push(format!("tag = {tag}")),
        ErrorKind::InvalidVtableLength { length } => want.push(format!("length = {length}")),
        ErrorKind::InvalidUtf8 { source } => want.push(source.to_string()),
        _ => {}
    }
    if let Some(w) = want.iter().find(|w| !text.contains(w.as_str())) { return format!(" (the text {text:?} lacks {w:?})"); }
    if l.byte_offset == usize::MAX && text.contains('@') { return format!(" (the text {text:?} has a position)"); }
    if !text.contains(&e.error_kind.to_string()) { return format!(" (the text {text:?} lacks the kind)"); }
    let Some(c) = e.source() else { return " (no cause)".into() };
    if c.to_string() != e.error_kind.to_string() || c.downcast_ref::<ErrorKind>().is_none() { return format!(" (the cause is {c})"); }
    let inner = c.source().map(|c| c.to_string());
    let want = match &e.error_kind { ErrorKind::UnknownEnumTag { source } => Some(source.to_string()), ErrorKind::InvalidUtf8 { source } => Some(source.to_string()), _ => None };
    if inner != want { return format!(" (the cause of the kind is {inner:?})"); }
    String::new()
}
pub fn vunion(tag: u8, v: V) -> V {
    match v { V::Err(e) => V::Err(e), V::Cut => V::Cut, v => V::Union(tag, Box::new(v)) }
}
pub fn rv<I: Iterator>(it: I, cx: &mut Cx, mut f: impl FnMut(I::Item, &mut Cx) -> V) -> V {
    let mut out = vec![];
    for x in it {
        if cx.out() { out.push(V::Cut); break; }
        cx.budget -= 1;
        out.push(f(x, cx));
    }
    V::Vec(out)
}
fn given<T>(o: Option<T>, what: &str) -> T { o.unwrap_or_else(|| panic!("VIOLATED optional-left-out: {what} left out a value that is there")) }
/// writes the vector from one of the types a vector can be given as, through one of the traits
pub fn vform<P, T: Clone>(b: &mut planus::Builder, s: &mut Src, v: Vec<T>) -> planus::Offset<[P]>
where
    [T]: planus::WriteAsOffset<[P]>,
    [T; 0]: Arr<P>, [T; 1]: Arr<P>, [T; 2]: Arr<P>, [T; 3]: Arr<P>, [T; 4]: Arr<P>, [T; 5]: Arr<P>, [T; 7]: Arr<P>, [T; 8]: Arr<P>,
{
    use planus::*;
    fn default<P, W: WriteAsDefault<Offset<[P]>, (), Prepared = Offset<[P]>> + ?Sized, T>(w: &W, v: &[T], b: &mut Builder) -> Option<Offset<[P]>> {
        let o = w.prepare(b, &());
        if o.is_none() != v.is_empty() { panic!("VIOLATED vector-default: a vector of {} elements written as a default: {}", v.len(), if o.is_none() { "left out" } else { "written" }) }
        o
    }
    macro_rules! arrays { ($($n:literal)*) => { match v.len() {
        $($n => { let a: [T; $n] = match v.try_into() { Ok(a) => a, Err(_) => unreachable!() }; a.any(b, s) })*
        _ => WriteAsOffset::prepare(&v[..], b),
    } } }
    match s.below(16) {
        0 => WriteAsOffset::prepare(&v, b),
        1 => WriteAsOffset::prepare(&v[..], b),
        2 => WriteAs::prepare(&v, b),
        3 => WriteAs::prepare(&v[..], b),
        4 => given(WriteAsOptional::prepare(&v, b), "an optional Vec"),
        5 => given(WriteAsOptional::prepare(&v[..], b), "an optional slice"),
        6 => given(WriteAsOptional::prepare(&Some(&v), b), "an optional Some(&Vec)"),
        7 => default(&v, &v, b).unwrap_or_else(|| WriteAsOffset::prepare(&v, b)),
        8 => default(&v[..], &v, b).unwrap_or_else(|| WriteAs::prepare(&&v[..], b)),
        9 => default(&Box::new(v.clone()), &v, b).unwrap_or_else(|| WriteAs::prepare(&Box::new(v), b)),
        10 => { let x: Box<[T]> = v.into_boxed_slice(); if s.bool() { WriteAs::prepare(&x, b) } else { given(WriteAsOptional::prepare(&Some(&x), b), "an optional Box<[T]>") } }
        11 => default(&v.clone().into_boxed_slice(), &v, b).unwrap_or_else(|| WriteAs::prepare(&&v, b)),
        _ => arrays!(0 1 2 3 4 5 7 8),
    }
}
/// an array that can be written as a vector of P
pub trait Arr<P> { fn any(&self, b: &mut planus::Builder, s: &mut Src) -> planus::Offset<[P]>; }
impl<P, T, const N: usize> Arr<P> for [T; N]
where [T; N]: planus::WriteAsOffset<[P]> + planus::WriteAs<planus::Offset<[P]>, Prepared = planus::Offset<[P]>> + planus::WriteAsOptional<planus::Offset<[P]>, Prepared = planus::Offset<[P]>>,
{
    fn any(&self, b: &mut planus::Builder, s: &mut Src) -> planus::Offset<[P]> {
        use planus::*;
        match s.below(5) {
            0 | 1 => WriteAsOffset::prepare(self, b),
            2 => WriteAs::prepare(self, b),
            3 => WriteAsOffset::prepare(&self, b),
            _ => given(WriteAsOptional::prepare(self, b), "an optional array"),
        }
    }
}
/// writes the vector of unions from one of the types it can be given as
pub fn uvform<P, T: planus::WriteAsUnion<P> + Clone>(b: &mut planus::Builder, s: &mut Src, v: Vec<T>) -> planus::UnionVectorOffset<P> {
    use planus::*;
    fn any<P, W: WriteAsUnionVector<P> + WriteAsDefaultUnionVector<P> + WriteAsOptionalUnionVector<P> + ?Sized>(w: &W, n: usize, b: &mut Builder, s: &mut Src) -> UnionVectorOffset<P> {
        match s.below(6) {
            0 => WriteAsUnionVector::prepare(w, b),
            1 => WriteAsUnionVector::prepare(&w, b),
            2 => given(WriteAsOptionalUnionVector::prepare(w, b), "an optional union vector"),
            3 => given(WriteAsOptionalUnionVector::prepare(&Some(&w), b), "an optional Some(union vector)"),
            k => {
                let o = if k == 4 { WriteAsDefaultUnionVector::prepare(w, b) } else { WriteAsDefaultUnionVector::prepare(&w, b) };
                if o.is_none() != (n == 0) { panic!("VIOLATED union-vector-default: a union vector of {n} elements written as a default: {}", if o.is_none() { "left out" } else { "written" }) }
                o.unwrap_or_else(|| WriteAsUnionVector::prepare(w, b))
            }
        }
    }
    let n = v.len();
    macro_rules! arrays { ($($n:literal)*) => { match n {
        $($n => { let a: [T; $n] = match v.try_into() { Ok(a) => a, Err(_) => unreachable!() }; any(&a, n, b, s) })*
        _ => any(&v[..], n, b, s),
    } } }
    match s.below(3) {
        0 => any(&v, n, b, s),
        1 => any(&v[..], n, b, s),
        _ => arrays!(0 1 2 3 4 5),
    }
}
/// writes the string from one of the types it can be given as
pub fn sform(b: &mut planus::Builder, s: &mut Src, x: &str) -> planus::Offset<str> {
    use planus::*;
    fn default<W: WriteAsDefault<Offset<str>, str, Prepared = Offset<str>> + ?Sized>(w: &W, x: &str, b: &mut Builder, s: &mut Src) -> Option<Offset<str>> {
        let d = match s.below(4) { 0 | 1 => x.to_string(), 2 => format!("{x}!"), _ => x.chars().skip(1).collect() };
        let o = w.prepare(b, &d[..]);
        if o.is_none() != (d == x) { panic!("VIOLATED string-default: {x:?} written with the default {d:?}: {}", if o.is_none() { "left out" } else { "written" }) }
        o
    }
    let own = x.to_string();
    match s.below(14) {
        0 => WriteAsOffset::prepare(x, b),
        1 => WriteAsOffset::prepare(&own, b),
        2 => WriteAsOffset::prepare(&&own, b),
        3 => WriteAs::prepare(x, b),
        4 => WriteAs::prepare(&own, b),
        5 => given(WriteAsOptional::prepare(x, b), "an optional str"),
        6 => given(WriteAsOptional::prepare(&own, b), "an optional String"),
        7 => given(WriteAsOptional::prepare(&Some(x), b), "an optional Some(&str)"),
        8 => default(x, x, b, s).unwrap_or_else(|| WriteAsOffset::prepare(x, b)),
        9 => default(&own, x, b, s).unwrap_or_else(|| WriteAsOffset::prepare(&own, b)),
        10 => default(&&own, x, b, s).unwrap_or_else(|| WriteAs::prepare(&&own, b)),
        11 => WriteAs::prepare(&Box::<str>::from(x), b),
        12 => default(&Box::<str>::from(x), x, b, s).unwrap_or_else(|| WriteAs::prepare(&Box::<str>::from(x), b)),
        _ => given(WriteAsOptional::prepare(&Some(Box::new(own)), b), "an optional Some(Box<String>)"),
    }
}
/// writes the table (or any object behind an offset) from one of the types it can be given as
pub fn tform<P, T>(b: &mut planus::Builder, s: &mut Src, x: T) -> planus::Offset<P>
where T: planus::WriteAsOffset<P> + planus::WriteAs<planus::Offset<P>, Prepared = planus::Offset<P>> + planus::WriteAsOptional<planus::Offset<P>, Prepared = planus::Offset<P>>,
{
    use planus::*;
    match s.below(8) {
        0 => WriteAsOffset::prepare(&x, b),
        1 => WriteAsOffset::prepare(&Box::new(x), b),
        2 => WriteAs::prepare(&x, b),
        3 => WriteAs::prepare(&&x, b),
        4 => WriteAs::prepare(&Box::new(x), b),
        5 => given(WriteAsOptional::prepare(&x, b), "an optional table"),
        6 => given(WriteAsOptional::prepare(&Some(&x), b), "an optional Some(&table)"),
        _ => given(WriteAsOptional::prepare(&Some(Box::new(x)), b), "an optional Some(Box<table>)"),
    }
}
/// writes the union from one of the types it can be given as
pub fn uform<P, T: planus::WriteAsUnion<P> + planus::WriteAsOptionalUnion<P>>(b: &mut planus::Builder, s: &mut Src, x: T) -> planus::UnionOffset<P> {
    use planus::*;
    match s.below(6) {
        0 => WriteAsUnion::prepare(&x, b),
        1 => WriteAsUnion::prepare(&&x, b),
        2 => WriteAsUnion::prepare(&Box::new(x), b),
        3 => given(WriteAsOptionalUnion::prepare(&x, b), "an optional union"),
        4 => given(WriteAsOptionalUnion::prepare(&Some(&x), b), "an optional Some(&union)"),
        _ => given(WriteAsOptionalUnion::prepare(&Some(Box::new(x)), b), "an optional Some(Box<union>)"),
    }
}
pub fn hash<T: Hash>(t: &T) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}
pub fn raw<T: ?Sized>(o: planus::Offset<()>) -> planus::Offset<T> {
    const { assert!(std::mem::size_of::<planus::Offset<()>>() == 4) }
    unsafe { std::mem::transmute_copy(&o) }
}
type Memo = std::collections::HashMap<(usize, &'static str, String), Vec<planus::Offset<()>>>;
thread_local! { static MEMO: std::cell::RefCell<Option<Memo>> = const { std::cell::RefCell::new(None) }; }
/// start (or stop) remembering the objects written to the current builder
pub fn memo_reset(on: bool) { MEMO.with(|m| *m.borrow_mut() = on.then(Memo::new)); }
/// writes an object, or returns the offset of an equal object written earlier to the same builder
pub fn memo<T: ?Sized>(sid: usize, ty: &'static str, v: &V, b: &mut planus::Builder, s: &mut Src, f: impl FnOnce(&mut planus::Builder, &mut Src) -> planus::Offset<T>) -> planus::Offset<T> {
    let on = MEMO.with(|m| m.borrow().is_some());
    if !on { return f(b, s); }
    let key = (sid, ty, format!("{v:?}"));
    let known: Vec<planus::Offset<()>> = MEMO.with(|m| m.borrow().as_ref().unwrap().get(&key).cloned()).unwrap_or_default();
    if !known.is_empty() && s.chance(2, 3) {
        SHARED.with(|c| c.set(c.get() + 1));
        return raw(known[s.usize(known.len())]);
    }
    let o = f(b, s);
    MEMO.with(|m| m.borrow_mut().as_mut().unwrap().entry(key).or_default().push(o.downcast()));
    o
}
thread_local! { pub static SHARED: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
/// bitwise equal
pub fn vsame(a: &V, b: &V) -> bool { a == b }
pub fn sref<'a, R: From<planus::ArrayWithStartOffset<'a, N>>, const N: usize>(b: &'a [u8]) -> R {
    R::from(planus::ArrayWithStartOffset { buffer: b[..N].try_into().unwrap(), offset_from_start: 0 })
}

#[derive(Debug, Clone)]
pub struct Cmp { pub eq: bool, pub ne: bool, pub partial: Option<Ordering>, pub ops: [bool; 4], pub total: Option<Ordering>, pub hash: Option<(u64, u64)> }
pub type CmpV = fn(&V, &V) -> Cmp;
pub type Json = fn(&V) -> Result<(V, String), String>;
pub struct TableOps {
    pub decl: usize,
    pub name: &'static str,
    pub write: fn(&V, &mut planus::Builder, &mut Src) -> planus::Offset<()>,
    /// finish(v, builder, id, src)
    pub finish: fn(&V, &mut planus::Builder, Option<[u8; 4]>, &mut Src) -> Vec<u8>,
    pub finish_off: fn(planus::Offset<()>, &mut planus::Builder, Option<[u8; 4]>) -> Vec<u8>,
    pub read: fn(&[u8], &mut Cx) -> V,
    pub owned: fn(&[u8]) -> V,
    pub debug: fn(&[u8]) -> String,
    pub own_debug: fn(&V) -> String,
    pub default: Option<fn() -> V>,
    pub ident: fn(&V) -> V,
    pub cmp: CmpV,
    pub clone_eq: fn(&V) -> V,
    pub json: Json,
    pub probe: fn(&[u8], usize, &V, &mut St, &mut Src) -> R,
}
pub struct EnumOps {
    pub decl: usize,
    pub try_from: fn(i128) -> Result<i128, i128>,
    pub into: fn(i128) -> i128,
    pub cast: fn(i128) -> i128,
    pub values: fn() -> Vec<i128>,
    pub cmp: fn(i128, i128) -> Cmp,
    pub json: fn(i128) -> Result<(i128, String), String>,
}
pub struct StructOps {
    pub decl: usize,
    pub cmp: CmpV,
    pub refcmp: Option<fn(&[u8], &[u8]) -> Cmp>,
    pub default: Option<fn() -> V>,
    pub json: Json,
}
pub struct SchemaOps { pub tables: &'static [TableOps], pub enums: &'static [EnumOps], pub structs: &'static [StructOps] }

// ---------------------------------------------------------------------------
// vector probes

use vmodel::ensure;
use vmodel::wire::{agree, short};

pub fn probe_bytes<T: Copy>(x: &[T], conv: impl Fn(T) -> V, want: &V, st: &mut St, _s: &mut Src) -> R {
    st.class("byte slice");
    let got = V::Vec(x.iter().map(|x| conv(*x)).collect());
    ensure!(got == *want, "byte vector", "{} instead of {}", short(&got), short(want));
    Ok(())
}

fn num(s: &mut Src, len: usize) -> usize {
    match s.weighted(&[8, 2, 1, 1]) {
        0 => s.usize(len + 2),
        1 => len + s.usize(4),
        2 => usize::MAX - s.usize(3),
        _ => [usize::MAX / 2, usize::MAX / 4 + 1, 1 << 32, (1 << 62) + 1][s.usize(4)],
    }
}

/// Random interleaving of the operations of an iterator, compared with the same
/// operations on the standard library's iterator over the decoded sequence.
fn drive<I, M>(name: &str, mut it: I, mut m: M, same: &dyn Fn(I::Item, M::Item) -> Result<(), String>, s: &mut Src) -> R
where
    I: Iterator + DoubleEndedIterator + ExactSizeIterator + Clone + std::fmt::Debug,
    I::Item: std::fmt::Debug,
    M: Iterator + DoubleEndedIterator + ExactSizeIterator + Clone,
{
    let cmp = |what: String, a: Option<I::Item>, b: Option<M::Item>| -> R {
        match (a, b) {
            (None, None) => Ok(()),
            (Some(a), Some(b)) => same(a, b).or_else(|e| fail(format!("{name} item"), format!("{what}: {e}"))),
            (a, b) => fail(format!("{name} end"), format!("{what}: gives {}, the sequence gives {}", if a.is_some() { "an item" } else { "nothing" }, if b.is_some() { "an item" } else { "nothing" })),
        }
    };
    let mut hist = String::new();
    let steps = s.usize(12);
    for _ in 0..=steps {
        let h = (m.len(), Some(m.len()));
        ensure!(it.len() == h.0, format!("{name} len"), "{name}{hist}: len() = {}, expected {}", it.len(), h.0);
        ensure!(it.size_hint() == h, format!("{name} size_hint"), "{name}{hist}: size_hint() = {:?}, expected {h:?}", it.size_hint());
        if s.chance(1, 16) {
            let text = format!("{it:?}");
            if name == "iter" || name.starts_with("chunks(") {
                // the elements that are left
                let rest = format!("{:?}", it.clone().collect::<Vec<_>>()).replace(['[', ']'], "");
                ensure!(text.replace(['[', ']'], "").contains(&rest), format!("{name} debug"), "{name}{hist}: printed as {text}, but {rest} is left");
            }
        }
        match s.weighted(&[4, 4, 2, 2, 1, 1, 1, 1, 1, 1]) {
            0 => { hist.push_str(".next()"); cmp(format!("{name}{hist}"), it.next(), m.next())?; }
            1 => { hist.push_str(".next_back()"); cmp(format!("{name}{hist}"), it.next_back(), m.next_back())?; }
            2 => { let n = num(s, h.0); hist.push_str(&format!(".nth({n})")); cmp(format!("{name}{hist}"), it.nth(n), m.nth(n))?; }
            3 => { let n = num(s, h.0); hist.push_str(&format!(".nth_back({n})")); cmp(format!("{name}{hist}"), it.nth_back(n), m.nth_back(n))?; }
            4 => { let c = it.clone().count(); let d = m.clone().count(); ensure!(c == d, format!("{name} count"), "{name}{hist}: count() = {c}, expected {d}"); }
            5 => cmp(format!("{name}{hist}.last()"), it.clone().last(), m.clone().last())?,
            6 => {
                let a: Vec<_> = it.clone().collect();
                let b: Vec<_> = m.clone().collect();
                ensure!(a.len() == b.len(), format!("{name} collect"), "{name}{hist}: collects {} items, expected {}", a.len(), b.len());
                for (k, (a, b)) in a.into_iter().zip(b).enumerate() { cmp(format!("{name}{hist}.collect()[{k}]"), Some(a), Some(b))?; }
            }
            7 => {
                let mut b = m.clone().rev();
                let mut n = 0;
                for a in it.clone().rev() { n += 1; cmp(format!("{name}{hist}.rev() item {n}"), Some(a), b.next())?; ensure!(n <= h.0, format!("{name} rev"), "{name}{hist}.rev() yields too many items"); }
                ensure!(n == h.0, format!("{name} rev"), "{name}{hist}.rev() yields {n} items, expected {}", h.0);
            }
            8 => {
                let k = 1 + s.usize(3);
                let mut b = m.clone().step_by(k);
                for a in it.clone().step_by(k) { cmp(format!("{name}{hist}.step_by({k})"), Some(a), b.next())?; }
                ensure!(b.next().is_none(), format!("{name} step_by"), "{name}{hist}.step_by({k}) ends early");
            }
            _ => {
                let k = num(s, h.0);
                let mut b = m.clone().skip(k);
                for a in it.clone().skip(k) { cmp(format!("{name}{hist}.skip({k})"), Some(a), b.next())?; }
                ensure!(b.next().is_none(), format!("{name} skip"), "{name}{hist}.skip({k}) ends early");
            }
        }
    }
    if m.len() == 0 {
        ensure!(it.next().is_none() && it.next_back().is_none(), format!("{name} fused"), "{name}{hist}: an exhausted iterator yields items again");
    }
    Ok(())
}

macro_rules! probe {
    ($fn_:ident, $view:ident, $bound:ident, $item:ty) => {
        pub fn $fn_<'b, T: planus::$bound<'b> + std::fmt::Debug>(view: planus::$view<'b, T>, conv: &dyn Fn($item) -> V, want: &V, st: &mut St, s: &mut Src) -> R
        where $item: std::fmt::Debug {
            let want = want.fields();
            type Vw<'b, T> = planus::$view<'b, T>;
            let one = |what: String, got: Option<$item>, w: Option<&V>| -> R {
                match (got, w) {
                    (None, None) => Ok(()),
                    (Some(g), Some(w)) => agree(&conv(g), w, false, "").or_else(|e| fail("element", format!("{what}: {e}"))),
                    (g, w) => fail("element presence", format!("{what}: {}, expected {}", if g.is_some() { "an element" } else { "None" }, if w.is_some() { "an element" } else { "None" })),
                }
            };
            let seq_e = |got: Vw<'b, T>, w: &[V]| -> Result<(), String> {
                if got.len() != w.len() { return Err(format!("{} elements instead of {}", got.len(), w.len())); }
                if got.is_empty() != w.is_empty() { return Err(format!("is_empty() = {}", got.is_empty())); }
                let mut n = 0;
                for g in got { if n >= w.len() { return Err("too many elements".into()); } agree(&conv(g), &w[n], false, &format!("[{n}]"))?; n += 1; }
                if n != w.len() { return Err(format!("yields {n} elements instead of {}", w.len())); }
                Ok(())
            };
            let seq = |what: String, got: Option<Vw<'b, T>>, w: Option<&[V]>| -> R {
                match (got, w) {
                    (None, None) => Ok(()),
                    (Some(g), Some(w)) => seq_e(g, w).or_else(|e| fail("sub-vector", format!("{what}: {e}"))),
                    (g, w) => fail("sub-vector presence", format!("{what}: {}, expected {}", if g.is_some() { "a vector" } else { "None" }, if w.is_some() { "a vector" } else { "None" })),
                }
            };
            let mut view = view;
            let mut want = want;
            seq("the vector".into(), Some(view), Some(want))?;
            let dbg: Vec<$item> = view.iter().collect();
            let (a, b) = (format!("{view:?}"), format!("{dbg:?}"));
            ensure!(a == b, "debug", "{a} instead of {b}");
            let rounds = 1 + s.usize(4);
            for _ in 0..rounds {
                let n = want.len();
                if n > 0 { st.class("non-empty views"); }
                match s.below(16) {
                    0 => { one("first()".into(), view.first(), want.first())?; one("last()".into(), view.last(), want.last())?; }
                    1 | 2 => { let i = num(s, n); one(format!("get({i}) of {n}"), view.get(i), want.get(i))?; }
                    3 | 4 => {
                        let (a, b) = (num(s, n), num(s, n));
                        let at = format!("({a},{b}) of {n}");
                        match s.below(8) {
                            0 => seq(format!("get a..b {at}"), view.get(a..b), want.get(a..b))?,
                            1 => seq(format!("get a.. {at}"), view.get(a..), want.get(a..))?,
                            2 => seq(format!("get ..b {at}"), view.get(..b), want.get(..b))?,
                            3 => seq(format!("get a..=b {at}"), view.get(a..=b), want.get(a..=b))?,
                            4 => seq(format!("get ..=b {at}"), view.get(..=b), want.get(..=b))?,
                            5 => seq("get ..".into(), view.get(..), want.get(..))?,
                            _ => {
                                use std::ops::Bound::*;
                                let bd = |s: &mut Src, x: usize| match s.below(3) { 0 => Included(x), 1 => Excluded(x), _ => Unbounded };
                                let (p, q) = (bd(s, a), bd(s, b));
                                // what slice indexing by these bounds gives
                                let st_ = match p { Included(a) => Some(a), Excluded(a) => a.checked_add(1), Unbounded => Some(0) };
                                let en = match q { Included(a) => a.checked_add(1), Excluded(a) => Some(a), Unbounded => Some(n) };
                                let w = match (st_, en) { (Some(a), Some(b)) => want.get(a..b), _ => None };
                                seq(format!("get ({p:?},{q:?}) of {n}"), view.get((p, q)), w)?
                            }
                        }
                    }
                    5 => {
                        match (view.split_first(), want.split_first()) { (None, None) => {} (Some((a, b)), Some((c, d))) => { one("split_first().0".into(), Some(a), Some(c))?; seq("split_first().1".into(), Some(b), Some(d))?; } (a, _) => return fail("split_first", format!("split_first() is_some = {}", a.is_some())) }
                        match (view.split_last(), want.split_last()) { (None, None) => {} (Some((a, b)), Some((c, d))) => { one("split_last().0".into(), Some(a), Some(c))?; seq("split_last().1".into(), Some(b), Some(d))?; } (a, _) => return fail("split_last", format!("split_last() is_some = {}", a.is_some())) }
                    }
                    6 => {
                        let m = num(s, n);
                        match (view.split_at(m), want.split_at_checked(m)) { (None, None) => {} (Some((a, b)), Some((c, d))) => { seq(format!("split_at({m}).0"), Some(a), Some(c))?; seq(format!("split_at({m}).1"), Some(b), Some(d))?; } (a, _) => return fail("split_at", format!("split_at({m}) of {n}: is_some = {}", a.is_some())) }
                    }
                    7 => {
                        // continue on a sub-vector
                        let a = s.usize(n + 1);
                        let b = a + s.usize(n - a + 1);
                        view = match view.get(a..b) { Some(v) => v, None => return fail("sub-vector presence", format!("get {a}..{b} of {n} is None")) };
                        want = &want[a..b];
                        st.class("nested sub-vector");
                    }
                    8 => {
                        // in bounds, so these are covered by the contract
                        if n > 0 {
                            let i = s.usize(n);
                            one(format!("get_unchecked({i})"), Some(unsafe { view.get_unchecked(i) }), want.get(i))?;
                            let a = s.usize(n + 1);
                            let b = a + s.usize(n - a + 1);
                            seq(format!("get_unchecked({a}..{b})"), Some(unsafe { view.get_unchecked(a..b) }), want.get(a..b))?;
                            seq(format!("get_unchecked({a}..)"), Some(unsafe { view.get_unchecked(a..) }), want.get(a..))?;
                            seq(format!("get_unchecked(..{b})"), Some(unsafe { view.get_unchecked(..b) }), want.get(..b))?;
                            seq(format!("get_unchecked(..)"), Some(unsafe { view.get_unchecked(..) }), Some(want))?;
                            if b > a {
                                seq(format!("get_unchecked({a}..={})", b - 1), Some(unsafe { view.get_unchecked(a..=b - 1) }), want.get(a..b))?;
                                seq(format!("get_unchecked(..={})", b - 1), Some(unsafe { view.get_unchecked(..=b - 1) }), want.get(..b))?;
                                use std::ops::Bound::*;
                                seq(format!("get_unchecked(bounds {a} {b})"), Some(unsafe { view.get_unchecked((Included(a), Included(b - 1))) }), want.get(a..b))?;
                                if a > 0 { seq(format!("get_unchecked(bounds ex {a} {b})"), Some(unsafe { view.get_unchecked((Excluded(a - 1), Excluded(b))) }), want.get(a..b))?; }
                                seq(format!("get_unchecked(unbounded)"), Some(unsafe { view.get_unchecked((Unbounded, Unbounded)) }), Some(want))?;
                            }
                            let (x, y) = unsafe { view.split_at_unchecked(a) };
                            seq(format!("split_at_unchecked({a}).0"), Some(x), Some(&want[..a]))?;
                            seq(format!("split_at_unchecked({a}).1"), Some(y), Some(&want[a..]))?;
                        }
                    }
                    9 | 10 => { let same = |a: $item, b: &V| agree(&conv(a), b, false, ""); drive("iter", view.iter(), want.iter(), &same, s)?; }
                    k => {
                        let size = match s.weighted(&[10, 2, 1]) { 0 => 1 + s.usize(n + 2), 1 => 1 + s.usize(4), _ => [usize::MAX, usize::MAX / 2, 1 << 33][s.usize(3)] };
                        let same = |a: Vw<'b, T>, b: &[V]| seq_e(a, b);
                        st.class("chunked views");
                        match k {
                            11 => drive(&format!("chunks({size}) of {n}"), view.chunks(size), want.chunks(size), &same, s),
                            12 => drive(&format!("rchunks({size}) of {n}"), view.rchunks(size), want.rchunks(size), &same, s),
                            13 => {
                                let (i, m) = (view.chunks_exact(size), want.chunks_exact(size));
                                seq(format!("chunks_exact({size}).remainder()"), Some(i.remainder()), Some(m.remainder()))?;
                                drive(&format!("chunks_exact({size}) of {n}"), i, m, &same, s)
                            }
                            14 => {
                                let (i, m) = (view.rchunks_exact(size), want.rchunks_exact(size));
                                seq(format!("rchunks_exact({size}).remainder()"), Some(i.remainder()), Some(m.remainder()))?;
                                drive(&format!("rchunks_exact({size}) of {n}"), i, m, &same, s)
                            }
                            _ => drive(&format!("windows({size}) of {n}"), view.windows(size), want.windows(size), &same, s),
                        }.map_err(|f| Fail { sig: f.sig.split('(').next().unwrap_or("").to_string() + " " + f.sig.rsplit(' ').next().unwrap_or(""), msg: f.msg })?;
                    }
                }
            }
            Ok(())
        }
    };
}
probe!(probe_vector_view, Vector, VectorRead, T);
probe!(probe_union_view, UnionVector, VectorReadUnion, planus::Result<T>);

fn all_or_err<T>(r: planus::Result<Vec<T>>, conv: &dyn Fn(T) -> V, want: &V, what: &str) -> R {
    let bad = want.fields().iter().any(|x| x.has_err());
    match r {
        Err(e) => { ensure!(bad, what, "{what} fails with {e:?} on readable elements"); Ok(()) }
        Ok(v) => {
            let v = V::Vec(v.into_iter().map(conv).collect());
            agree(&v, want, false, "").or_else(|e| fail(what, format!("{what}: {e}")))
        }
    }
}
/// vectors whose elements are read directly (numbers, structs)
pub fn probe_vector<'b, T: planus::VectorRead<'b> + std::fmt::Debug>(view: planus::Vector<'b, T>, conv: &dyn Fn(T) -> V, want: &V, st: &mut St, s: &mut Src) -> R {
    probe_vector_view(view, conv, want, st, s)?;
    all_or_err(view.to_vec::<T>(), conv, want, "to_vec")?;
    all_or_err(Vec::<T>::try_from(view), conv, want, "Vec::try_from")
}
/// vectors whose elements may fail to read (enums, strings, tables)
pub fn probe_vector_result<'b, T, E>(view: planus::Vector<'b, Result<T, E>>, conv: &dyn Fn(Result<T, E>) -> V, want: &V, st: &mut St, s: &mut Src) -> R
where
    Result<T, E>: planus::VectorRead<'b> + std::fmt::Debug,
    T: planus::VectorReadInner<'b>,
    E: From<T::Error>,
    planus::Error: From<E>,
{
    probe_vector_view(view, conv, want, st, s)?;
    let c = |x: T| conv(Ok(x));
    // a table that is found but has a bad field converts into itself without error
    let top_bad = want.fields().iter().any(|x| matches!(x, V::Err(_)));
    match view.to_vec_result::<T>() {
        Err(e) => { ensure!(top_bad, "to_vec_result", "to_vec_result fails with {e:?} on readable elements"); Ok(()) }
        Ok(v) => {
            let v = V::Vec(v.into_iter().map(c).collect());
            agree(&v, want, false, "").or_else(|e| fail("to_vec_result", format!("to_vec_result: {e}")))
        }
    }
}
pub fn probe_union_vector<'b, T: planus::VectorReadUnion<'b> + std::fmt::Debug>(view: planus::UnionVector<'b, T>, conv: &dyn Fn(planus::Result<T>) -> V, want: &V, st: &mut St, s: &mut Src) -> R {
    st.class("union vector");
    probe_union_view(view, conv, want, st, s)?;
    let c = |x: T| conv(Ok(x));
    let top_bad = want.fields().iter().any(|x| matches!(x, V::Err(_)));
    for (what, r) in [("to_vec", view.to_vec::<T>()), ("Vec::try_from", Vec::<T>::try_from(view))] {
        match r {
            Err(e) => ensure!(top_bad, what, "{what} fails with {e:?} on readable elements"),
            Ok(v) => {
                let v = V::Vec(v.into_iter().map(c).collect());
                agree(&v, want, false, "").or_else(|e| fail(what, format!("{what}: {e}")))?;
            }
        }
    }
    Ok(())
}
