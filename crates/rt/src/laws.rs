//! Trait laws of the generated types.
use super::*;
use std::cmp::Ordering;

/// comparison field by field in declaration order
pub fn order(sch: &Schema, ty: &Ty, a: &V, b: &V) -> Option<Ordering> {
    match (ty, a, b) {
        (_, V::Null, V::Null) => Some(Ordering::Equal),
        (_, V::Null, _) => Some(Ordering::Less),
        (_, _, V::Null) => Some(Ordering::Greater),
        (_, V::Int(a), V::Int(b)) => Some(a.cmp(b)),
        (_, V::F32(a), V::F32(b)) => f32::from_bits(*a).partial_cmp(&f32::from_bits(*b)),
        (_, V::F64(a), V::F64(b)) => f64::from_bits(*a).partial_cmp(&f64::from_bits(*b)),
        (_, V::Str(a), V::Str(b)) => Some(a.cmp(b)),
        (Ty::Struct(i), V::Struct(a), V::Struct(b)) => seq(sch.sfields(*i).iter().zip(a.iter().zip(b)).map(|(f, (a, b))| order(sch, &f.ty, a, b))),
        (Ty::Table(i), V::Table(a), V::Table(b)) => seq(sch.fields(*i).iter().zip(a.iter().zip(b)).filter(|(f, _)| !f.deprecated).map(|(f, (a, b))| order(sch, &f.ty, a, b))),
        (Ty::Vec(e), V::Vec(a), V::Vec(b)) => match seq(a.iter().zip(b).map(|(a, b)| order(sch, e, a, b))) { Some(Ordering::Equal) => Some(a.len().cmp(&b.len())), o => o },
        (Ty::Union(u), V::Union(s, a), V::Union(t, b)) => if s != t { Some(s.cmp(t)) } else { order(sch, &sch.uvariants(*u)[*s as usize - 1].ty, a, b) },
        _ => panic!("order {a:?} {b:?}"),
    }
}
fn seq(it: impl Iterator<Item = Option<Ordering>>) -> Option<Ordering> {
    for o in it { if o != Some(Ordering::Equal) { return o; } }
    Some(Ordering::Equal)
}
fn equal(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::F32(a), V::F32(b)) => f32::from_bits(*a) == f32::from_bits(*b),
        (V::F64(a), V::F64(b)) => f64::from_bits(*a) == f64::from_bits(*b),
        (V::Struct(a), V::Struct(b)) | (V::Table(a), V::Table(b)) | (V::Vec(a), V::Vec(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| equal(a, b)),
        (V::Union(s, a), V::Union(t, b)) => s == t && equal(a, b),
        (a, b) => a == b,
    }
}
pub fn laws(what: &str, c: &Cmp, r: &Cmp, eq: bool, want: Option<Ordering>) -> R {
    ensure!(c.eq == eq, "eq", "{what}: == gives {}, the fields say {eq}", c.eq);
    ensure!(c.ne != c.eq, "ne", "{what}: == and != both give {}", c.eq);
    ensure!(c.partial == want, "partial_cmp", "{what}: partial_cmp gives {:?}, the fields in declaration order {want:?}", c.partial);
    let ops = [want == Some(Ordering::Less), matches!(want, Some(Ordering::Less | Ordering::Equal)), want == Some(Ordering::Greater), matches!(want, Some(Ordering::Greater | Ordering::Equal))];
    ensure!(c.ops == ops, "operators", "{what}: < <= > >= give {:?} instead of {ops:?}", c.ops);
    ensure!(r.eq == c.eq && r.partial == c.partial.map(|o| o.reverse()), "symmetry", "{what}: reversed operands give {:?} {:?}", r.eq, r.partial);
    if let Some(t) = c.total { ensure!(Some(t) == want, "cmp", "{what}: cmp gives {t:?}, the fields {want:?}"); }
    if let Some((a, b)) = c.hash { if eq { ensure!(a == b, "hash", "{what}: equal values hash differently"); } }
    Ok(())
}
fn tame(s: &mut Src, v: &V) -> V {
    match v {
        V::F32(b) if !f32::from_bits(*b).is_finite() => V::f32(s.below(100) as f32 / 4.0),
        V::F64(b) if !f64::from_bits(*b).is_finite() => V::f64(s.below(100) as f64 / 4.0),
        V::Struct(x) => V::Struct(x.iter().map(|v| tame(s, v)).collect()),
        V::Table(x) => V::Table(x.iter().map(|v| tame(s, v)).collect()),
        V::Vec(x) => V::Vec(x.iter().map(|v| tame(s, v)).collect()),
        V::Union(t, x) => V::Union(*t, Box::new(tame(s, x))),
        v => v.clone(),
    }
}
/// the generated Default of a type
fn default(sch: &Schema, ty: &Ty) -> V {
    match ty {
        Ty::Struct(i) => V::Struct(sch.sfields(*i).iter().map(|f| default(sch, &f.ty)).collect()),
        Ty::Str => V::Str(String::new()),
        Ty::Vec(_) => V::Vec(vec![]),
        Ty::Table(t) => V::Table(sch.fields(*t).iter().map(|f| if f.deprecated { V::Null } else { match &f.mode { Mode::Optional => V::Null, Mode::Default(d) => d.clone(), Mode::Required => default(sch, &f.ty) } }).collect()),
        t => sch.default_of(t).unwrap(),
    }
}
/// a related value
fn neighbour(s: &mut Src, sch: &Schema, ty: &Ty, v: &V) -> V {
    match (ty, v) {
        (Ty::Table(t), V::Table(x)) if !x.is_empty() => {
            let mut x = x.clone();
            for _ in 0..1 + s.usize(2) {
                let k = s.usize(x.len());
                let f = &sch.fields(*t)[k];
                if f.deprecated { continue; }
                x[k] = if x[k].is_null() { gen_value(s, sch, &f.ty, 1, &mut 6) } else if f.mode == Mode::Optional && s.chance(1, 5) { V::Null } else { neighbour(s, sch, &f.ty, &x[k]) };
            }
            V::Table(x)
        }
        (Ty::Struct(i), V::Struct(x)) if !x.is_empty() => {
            let mut x = x.clone();
            for _ in 0..1 + s.usize(2) { let k = s.usize(x.len()); x[k] = neighbour(s, sch, &sch.sfields(*i)[k].ty, &x[k]); }
            V::Struct(x)
        }
        (Ty::Vec(e), V::Vec(x)) => {
            let mut x = x.clone();
            match s.below(3) { 0 if !x.is_empty() => { x.pop(); } 1 if !x.is_empty() => { let k = s.usize(x.len()); x[k] = neighbour(s, sch, e, &x[k]); } _ => x.push(gen_value(s, sch, e, 1, &mut 6)) }
            V::Vec(x)
        }
        (Ty::Union(u), V::Union(t, x)) if s.chance(2, 3) => V::Union(*t, Box::new(neighbour(s, sch, &sch.uvariants(*u)[*t as usize - 1].ty, x))),
        (Ty::Sc(Sc::F32), _) => V::f32(*s.pick(&[0.0, -0.0, 1.0, f32::NAN, -1.0])),
        (Ty::Sc(Sc::F64), _) => V::f64(*s.pick(&[0.0, -0.0, 1.0, f64::NAN, -1.0])),
        (Ty::Sc(sc), V::Int(i)) => { let (lo, hi) = sc.range(); V::Int((i + *s.pick(&[1i128, -1, 256, -256, 65536])).clamp(lo, hi)) }
        _ => gen_value(s, sch, ty, 2, &mut 10),
    }
}

pub fn c19(s: &mut Src, st: &mut St) -> R {
    let p = pick(s);
    let (sch, ops) = (p.sch, p.ops);
    match s.weighted(&[5, 3, 2, 3, 1]) {
        0 => {
            // tables
            let a = value(s, &p);
            let b = match s.below(4) { 0 => a.clone(), 1 => value(s, &p), _ => neighbour(s, sch, &Ty::Table(p.t), &a) };
            describe(st, &p, &a, &[]);
            st.note(|| format!("other: {b:?}"));
            let (c, r) = guarded(|| ((p.tops.cmp)(&a, &b), (p.tops.cmp)(&b, &a)))?;
            let w = order(sch, &Ty::Table(p.t), &a, &b);
            st.class(match w { Some(Ordering::Equal) => "equal tables", None => "unordered tables", _ => "different tables" });
            if a != b { st.nontrivial(hash_bytes(format!("{}{}{a:?}{b:?}", p.k, p.t).as_bytes())); st.sample(|| format!("{} {a:?} against {b:?}: {w:?}", p.tops.name)); }
            laws(p.tops.name, &c, &r, equal(&a, &b), w)?;
            let cl = guarded(|| (p.tops.clone_eq)(&a))?;
            ensure!(cl == a, "clone", "{}: the clone is {}", p.tops.name, short(&cl));
        }
        1 if !ops.structs.is_empty() => {
            let o = &ops.structs[s.usize(ops.structs.len())];
            let ty = Ty::Struct(o.decl);
            let name = &sch.decls[o.decl].name;
            let a = gen_value(s, sch, &ty, 3, &mut 100);
            let b = match s.below(4) { 0 => a.clone(), 1 => gen_value(s, sch, &ty, 3, &mut 100), _ => neighbour(s, sch, &ty, &a) };
            st.note(|| format!("struct {name}: {a:?} against {b:?}\n{}", sch.fbs()));
            let (c, r) = guarded(|| ((o.cmp)(&a, &b), (o.cmp)(&b, &a)))?;
            let w = order(sch, &ty, &a, &b);
            st.class("structs");
            if a != b { st.nontrivial(hash_bytes(format!("{}{a:?}{b:?}", p.k).as_bytes())); }
            laws(name, &c, &r, equal(&a, &b), w)?;
            if let Some(rc) = o.refcmp {
                // the same through the reference type, on bytes with arbitrary padding
                let ser = |s: &mut Src, v: &V| { let l = sch.slayout(o.decl); let mut out: Vec<u8> = (0..l.size).map(|_| s.below(256) as u8).collect(); put(sch, o.decl, v, &mut out, 0); out };
                let (x, y) = (ser(s, &a), ser(s, &b));
                let (c, r) = guarded(|| (rc(&x, &y), rc(&y, &x)))?;
                st.class("struct references");
                laws(&format!("{name}Ref"), &c, &r, equal(&a, &b), w)?;
            }
            if let Some(d) = o.default {
                let d = guarded(d)?;
                ensure!(d == default(sch, &ty), "struct default", "{name}::default() is {} instead of {}", short(&d), short(&default(sch, &ty)));
            }
            let v = tame(s, &a);
            let (got, j) = guarded(|| (o.json)(&v))?.or_else(|e| fail("json", format!("{name}: {e} for {v:?}")))?;
            ensure!(got == v, "json", "{name}: {} became {} through {j}", short(&v), short(&got));
        }
        2 if !ops.enums.is_empty() => {
            let o = &ops.enums[s.usize(ops.enums.len())];
            let (sc, vs) = sch.enum_(o.decl);
            let name = &sch.decls[o.decl].name;
            let (lo, hi) = sc.range();
            let x = match s.below(3) { 0 => vs[s.usize(vs.len())].value, 1 => (vs[s.usize(vs.len())].value + s.int(-2, 2)).clamp(lo, hi), _ => s.int(lo, hi) };
            let known = vs.iter().any(|v| v.value == x);
            st.class(if known { "enum: declared value" } else { "enum: other value" });
            st.nontrivial(hash_bytes(format!("enum{}{}{x}", p.k, o.decl).as_bytes()));
            let r = guarded(|| (o.try_from)(x))?;
            let want = if known { Ok(x) } else { Err(x) };
            ensure!(r == want, "enum try_from", "{name}::try_from({x}) gives {r:?}, the declared values are {:?}", vs.iter().map(|v| v.value).collect::<Vec<_>>());
            if known {
                let (i, c) = guarded(|| ((o.into)(x), (o.cast)(x)))?;
                ensure!(i == x && c == x, "enum into", "{name}: {x} converts into {i} and casts to {c}");
                let y = vs[s.usize(vs.len())].value;
                let (c, r) = guarded(|| ((o.cmp)(x, y), (o.cmp)(y, x)))?;
                laws(name, &c, &r, x == y, Some(x.cmp(&y)))?;
                let (got, j) = guarded(|| (o.json)(x))?.or_else(|e| fail("json", format!("{name}: {e}")))?;
                ensure!(got == x, "json", "{name}: {x} became {got} through {j}");
            }
            let vals = guarded(o.values)?;
            let mut want: Vec<i128> = vs.iter().map(|v| v.value).collect();
            let mut got = vals.clone();
            want.sort();
            got.sort();
            ensure!(want == got, "ENUM_VALUES", "{name}::ENUM_VALUES is {vals:?}, declared are {want:?}");
        }
        3 => {
            let a = value(s, &p);
            let v = tame(s, &a);
            describe(st, &p, &v, &[]);
            st.class("json tables");
            if nontrivial_value(&v) { st.nontrivial(hash_bytes(format!("json{}{}{v:?}", p.k, p.t).as_bytes())); }
            let (got, j) = guarded(|| (p.tops.json)(&v))?.or_else(|e| fail("json", format!("{}: {e} for {v:?}", p.tops.name)))?;
            ensure!(got == v, "json", "{}: {} became {} through {j}", p.tops.name, short(&v), short(&got));
        }
        _ => {
            let Some(d) = p.tops.default else { st.exclude("no Default"); return Ok(()) };
            let d = guarded(d)?;
            let want = default(sch, &Ty::Table(p.t));
            st.class("table defaults");
            ensure!(d == want, "default", "{}::default() is {} instead of {}", p.tops.name, short(&d), short(&want));
            if !sch.fields(p.t).iter().any(|f| f.mode == Mode::Required && !f.deprecated) {
                // an empty table, as a reader sees it
                let v = V::Table(sch.fields(p.t).iter().map(|f| if f.deprecated { V::Null } else { match &f.mode { Mode::Default(d) => d.clone(), _ => V::Null } }).collect());
                let o = EncOpts { extra_slots: s.bool(), ..Default::default() };
                let e = encode(s, sch, p.t, &v, &o);
                let got = guarded(|| (p.tops.owned)(&e.bytes))?;
                st.nontrivial(hash_bytes(format!("default{}{}", p.k, p.t).as_bytes()));
                ensure!(got == d, "default read", "{}: the default is {}, reading an empty table gives {}", p.tops.name, short(&d), short(&got));
            }
        }
    }
    Ok(())
}
fn put(sch: &Schema, i: usize, v: &V, out: &mut [u8], at: usize) {
    let l = sch.slayout(i);
    for (k, f) in sch.sfields(i).iter().enumerate() {
        let q = at + l.offsets[k];
        match &f.ty {
            Ty::Struct(j) => put(sch, *j, &v.fields()[k], out, q),
            Ty::Sc(sc) => { let b = vmodel::wire::scalar_bytes(*sc, &v.fields()[k]); out[q..q + b.len()].copy_from_slice(&b); }
            _ => panic!(),
        }
    }
}
