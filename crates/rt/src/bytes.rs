//! Arbitrary and damaged bytes.
use super::*;

pub fn has_cut(v: &V) -> bool {
    match v {
        V::Cut => true,
        V::Table(x) | V::Struct(x) | V::Vec(x) => x.iter().any(has_cut),
        V::Union(_, x) => has_cut(x),
        _ => false,
    }
}

fn interesting(s: &mut Src, len: usize) -> u64 {
    let l = len as u64;
    match s.below(8) {
        0 => s.below(9),
        1 => l.wrapping_sub(s.below(9)),
        2 => l + s.below(6),
        3 => 0u64.wrapping_sub(s.below(24)),
        4 => [0x7fff_ffff, 0x8000_0000, 0xffff_fffc, 0x4000_0000, 0x3fff_ffff, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff][s.usize(11)],
        5 => s.below(l.max(1)) & !3,
        6 => s.below(l.max(1)),
        _ => s.u64(),
    }
}
/// damages a buffer in one place or a few
pub fn mutate(s: &mut Src, st: &mut St, p: &Pick, b: &mut Vec<u8>) {
    let n = 1 + s.weighted(&[6, 3, 2, 1]);
    let exts = Strict::verify(p.sch, p.t, b, None, false).map(|x| x.1).unwrap_or_default();
    for _ in 0..n {
        if b.is_empty() { return; }
        let len = b.len();
        let put = |b: &mut Vec<u8>, at: usize, v: u64, n: usize| for (i, x) in v.to_le_bytes()[..n].iter().enumerate() { if at + i < b.len() { b[at + i] = *x; } };
        match s.weighted(&[3, 3, 3, 4, 2, 1, 1, 2]) {
            0 => { let (i, x) = (s.usize(len), s.below(256)); b[i] = x as u8; st.class("mutation: byte"); }
            1 => { let (i, v) = (s.usize(len), interesting(s, len)); put(b, i, v, 2); st.class("mutation: u16"); }
            2 => { let (i, v) = (s.usize(len) & !3, interesting(s, len)); put(b, i, v, 4); st.class("mutation: u32"); }
            3 if !exts.is_empty() => {
                // in a known object
                let e = &exts[s.usize(exts.len())];
                let w = if e.what == "vtable" { 2 } else { *s.pick(&[4usize, 1, 2]) };
                let cells = ((e.end - e.start) / w).max(1);
                let c = match s.below(3) { 0 => 0, 1 => cells - 1, _ => s.usize(cells) };
                let v = interesting(s, len);
                put(b, e.start + c * w, v, w);
                st.class("mutation: object field");
            }
            4 => { let k = s.usize(len + 1); b.truncate(k); st.class("mutation: truncated"); }
            5 => { let (i, j) = (s.usize(len) & !3, s.usize(len) & !3); if i + 4 <= len && j + 4 <= len { for k in 0..4 { b.swap(i + k, j + k); } } st.class("mutation: swapped"); }
            6 => { let i = s.usize(len); let k = 1 + s.usize(8); for _ in 0..k { b.insert(i, 0); } st.class("mutation: inserted"); }
            _ => {
                // an offset to somewhere it makes some sense
                if let (false, at) = (exts.is_empty(), s.usize(len) & !3) {
                    let e = &exts[s.usize(exts.len())];
                    let v = (e.start as u64).wrapping_sub(at as u64);
                    put(b, at, v, 4);
                    st.class("mutation: redirected");
                }
            }
        }
    }
}

fn input(s: &mut Src, st: &mut St) -> Result<(Pick, Vec<u8>, bool), Fail> {
    let p = pick(s);
    match s.weighted(&[10, 1, 1]) {
        0 => {
            let v = value(s, &p);
            let mut b = if s.bool() {
                memo_reset(false);
                let mut b = new_builder(s);
                guarded(|| (p.tops.finish)(&v, &mut b, None, s))?
            } else {
                let o = enc_opts(s);
                encode(s, p.sch, p.t, &v, &o).bytes
            };
            mutate(s, st, &p, &mut b);
            Ok((p, b, true))
        }
        1 => { let n = s.usize(64); let b = (0..n).map(|_| match s.below(4) { 0 => 0, 1 => s.below(16) as u8, 2 => 255 - s.below(4) as u8, _ => s.below(256) as u8 }).collect(); st.class("random bytes"); Ok((p, b, false)) }
        _ => { let n = s.usize(40); let b = (0..n).flat_map(|_| { let v = interesting(s, 4 * n); (v as u32).to_le_bytes() }).collect(); st.class("random words"); Ok((p, b, false)) }
    }
}
fn count_err(v: &V) -> usize {
    match v {
        V::Err(_) => 1,
        V::Table(x) | V::Struct(x) | V::Vec(x) => x.iter().map(count_err).sum(),
        V::Union(_, x) => count_err(x),
        _ => 0,
    }
}
const BUDGET: usize = 2500;

fn case(s: &mut Src, st: &mut St, loc: bool) -> R {
    let (p, b, mutated) = input(s, st)?;
    describe(st, &p, &V::Null, &b);
    let mut l = Lenient::new(p.sch, &b, BUDGET, cfg!(feature = "nulls"));
    let want = l.root(p.t);
    let cut = has_cut(&want);
    let errs = count_err(&want);
    st.note(|| format!("expected: {want:?}"));
    if matches!(want, V::Table(_)) { st.class("readable root"); }
    if errs > 0 { st.class("has errors"); }
    if cut { st.class("cut off or outside the rules"); }
    let non = if loc { matches!(want, V::Table(_)) && errs > 0 } else { matches!(want, V::Table(_)) && mutated };
    if non { st.nontrivial(hash_bytes(&b)); st.sample(|| format!("{} {:02x?} -> {:?}", p.tops.name, b, want)); }
    let strict = !loc && Strict::verify(p.sch, p.t, &b, None, false).is_ok();
    mem::with_guard(&b, s.bool(), |b| {
        let got = guarded(|| (p.tops.read)(b, &mut Cx::new(BUDGET)))?;
        agree(&got, &want, loc, p.tops.name).or_else(|e| {
            let sig = if loc { "location" } else { "value" };
            fail(format!("{sig}: {}", class_of(&e)), format!("{e}\nread:     {got:?}\nexpected: {want:?}"))
        })?;
        if cut { return Ok(()); }
        let own = guarded(|| (p.tops.owned)(b))?;
        if errs > 0 {
            let V::Err(e) = &own else { return fail("owned accepts", format!("conversion to the owned type gives {} although a field cannot be read", short(&own))) };
            if loc {
                let ok = any_err(&want, &mut |w| w.kind == e.kind && w.type_ == e.type_ && w.method == e.method && w.detail == e.detail);
                ensure!(ok, "owned error", "the owned conversion fails with {e:?}, which is none of the errors in the bytes: {want:?}");
            }
        } else {
            agree(&own, &want, false, p.tops.name).or_else(|e| fail("owned value", e))?;
        }
        if !loc {
            guarded(|| (p.tops.debug)(b))?;
            if strict { st.class("still valid"); ensure!(errs == 0, "HARNESS model", "the strict verifier accepts what the lenient decoder rejects: {want:?}"); }
            // sequence queries on one of the vectors
            let V::Table(wf) = &want else { return Ok(()) };
            let fs: Vec<usize> = (0..wf.len()).filter(|k| matches!(&wf[*k], V::Vec(x) if x.len() <= 100) && !p.sch.fields(p.t)[*k].deprecated && p.sch.fields(p.t)[*k].mode == Mode::Optional).collect();
            if !fs.is_empty() && s.chance(1, 3) {
                let k = fs[s.usize(fs.len())];
                guarded(|| (p.tops.probe)(b, k, &wf[k], st, s))??;
            }
        } else {
            let d = guarded(|| (p.tops.debug)(b))?;
            if let V::Err(e) = &want { ensure!(d.contains(&e.type_) && d.contains("read_as_root"), "error text", "the error prints as {d}, which does not name {e:?}"); }
        }
        Ok(())
    })
}
fn any_err(v: &V, f: &mut dyn FnMut(&ErrInfo) -> bool) -> bool {
    match v {
        V::Err(e) => f(e),
        V::Table(x) | V::Struct(x) | V::Vec(x) => x.iter().any(|x| any_err(x, f)),
        V::Union(_, x) => any_err(x, f),
        _ => false,
    }
}
fn class_of(e: &str) -> String {
    let t = e.split(": ").nth(1).unwrap_or(e);
    t.split(|c: char| !c.is_ascii_alphabetic() && c != ' ').next().unwrap_or("").trim().to_string()
}
pub fn c02(s: &mut Src, st: &mut St) -> R { case(s, st, false) }
pub fn c20(s: &mut Src, st: &mut St) -> R { case(s, st, true) }
