//! Histories of one builder against a model that only remembers values.
use super::*;

struct Obj { t: usize, v: V, off: planus::Offset<()> }

/// a small change of a value, so that most of it can be shared
fn vary(s: &mut Src, sch: &Schema, ty: &Ty, v: &V) -> V {
    match (ty, v) {
        (Ty::Table(t), V::Table(x)) if !x.is_empty() => {
            let mut x = x.clone();
            let k = s.usize(x.len());
            let f = &sch.fields(*t)[k];
            if !f.deprecated {
                x[k] = if x[k].is_null() { gen_value(s, sch, &f.ty, 1, &mut 6) } else { vary(s, sch, &f.ty, &x[k]) };
            }
            V::Table(x)
        }
        (Ty::Vec(e), V::Vec(x)) => {
            let mut x = x.clone();
            if x.is_empty() || s.bool() { x.push(gen_value(s, sch, e, 1, &mut 6)) } else { let k = s.usize(x.len()); x[k] = vary(s, sch, e, &x[k]); }
            V::Vec(x)
        }
        (Ty::Str, V::Str(x)) => V::Str(match s.below(4) { 0 => format!("{x}a"), 1 => format!("{x}\0"), 2 => x.chars().skip(1).collect(), _ => format!("b{x}") }),
        _ => gen_value(s, sch, ty, 1, &mut 6),
    }
}
/// many small strings and byte vectors
fn bulk(s: &mut Src, sch: &Schema, ty: &Ty, v: &V) -> V {
    let (Ty::Table(t), V::Table(x)) = (ty, v) else { return v.clone() };
    let mut x = x.clone();
    for (k, f) in sch.fields(*t).iter().enumerate() {
        if f.deprecated { continue; }
        match &f.ty {
            Ty::Vec(e) if **e == Ty::Str => {
                if s.chance(1, 40) {
                    // strings whose lengths agree in the low bits, one the start of the other
                    let m = *s.pick(&[256usize, 65_536]);
                    let k2 = s.usize(8);
                    let long: String = "0123456789".chars().cycle().take(m + k2).collect();
                    let mut l = vec![V::Str(long[..k2].to_string()), V::Str(long)];
                    if s.bool() { l.reverse(); }
                    x[k] = V::Vec(l);
                    continue;
                }
                let n = s.usize(120);
                x[k] = V::Vec((0..n).map(|_| { let a = s.below(6); V::Str((0..a).map(|_| *s.pick(&['a', 'b', '\0', 'é'])).collect()) }).collect());
            }
            Ty::Vec(e) if matches!(**e, Ty::Table(i) if i == *t) => {
                let n = s.usize(12);
                x[k] = V::Vec((0..n).map(|_| gen_value(s, sch, e, 1, &mut 10)).collect());
            }
            _ => {}
        }
    }
    V::Table(x)
}

pub fn c06(s: &mut Src, st: &mut St) -> R {
    let l = &su().live;
    let k = if s.chance(1, 2) { l[s.usize(2.min(l.len()))] } else { l[s.usize(l.len())] };
    let sch = &su().entries[k].sch;
    memo_reset(true);
    SHARED.with(|c| c.set(0));
    let mut b = new_builder(s);
    let mut live: Vec<Obj> = vec![];
    let mut pool: Vec<(usize, V)> = vec![];
    let mut hist: Vec<String> = vec![];
    let mut finishes = 0;
    let steps = 2 + s.usize(11);
    let tables: Vec<usize> = {
        let all = sch.tables();
        let n = 1 + s.usize(3);
        (0..n).map(|_| all[s.usize(all.len())]).collect()
    };
    st.note(|| format!("schema {k} of the suite:\n{}", sch.fbs()));
    for _ in 0..steps {
        let t = tables[s.usize(tables.len())];
        let ops = su().ops[k].unwrap();
        let tops = ops.tables.iter().find(|o| o.decl == t).unwrap();
        let p = Pick { k, sch, ops, t, tops };
        let ty = Ty::Table(t);
        let same: Vec<usize> = (0..pool.len()).filter(|i| pool[*i].0 == t).collect();
        let v = match if same.is_empty() { 0 } else { s.weighted(&[2, 2, 3]) } {
            0 => { let v = value(s, &p); if s.chance(1, 6) { st.class("bulk strings"); bulk(s, sch, &ty, &v) } else { v } }
            1 => pool[same[s.usize(same.len())]].1.clone(),
            _ => { let v = pool[same[s.usize(same.len())]].1.clone(); vary(s, sch, &ty, &v) }
        };
        if pool.len() < 6 { pool.push((t, v.clone())); }
        let step = s.weighted(&[5, 4, 4, 2, 1, 1, 1]);
        st.note(|| format!("step: {} table {} value {:?}", ["write", "finish an object written before", "finish", "clear", "new builder", "stray bytes", "cleared and fresh builder alike"][step], tops.name, v));
        hist.push(format!("{step}"));
        match step {
            0 => {
                let off = guarded(|| (tops.write)(&v, &mut b, s))?;
                live.push(Obj { t, v, off });
                st.class("step: write object");
            }
            1 if !live.is_empty() => {
                let i = s.usize(live.len());
                let o = &live[i];
                let tops = ops.tables.iter().find(|x| x.decl == o.t).unwrap();
                let id = file_id(s);
                let bytes = guarded(|| (tops.finish_off)(o.off, &mut b, id))?;
                finishes += 1;
                st.class("step: finish an earlier object");
                check(&Pick { k, sch, ops, t: o.t, tops }, st, s, &bytes, &o.v, id)?;
            }
            3 => {
                b.clear();
                live.clear();
                memo_reset(true);
                st.class("step: clear");
                ensure!(b.is_empty() && b.as_slice().is_empty(), "clear", "a cleared builder is not empty: {} bytes", b.len());
            }
            4 => { b = new_builder(s); live.clear(); memo_reset(true); st.class("step: new builder"); }
            5 => {
                let n = s.usize(9);
                match s.below(3) {
                    0 => { b.create_vector::<u8>(vec![s.below(3) as u8; n]); }
                    1 => { b.create_string("x".repeat(n)); }
                    _ => { b.create_vector::<u16>(vec![7u16; n]); }
                }
                st.class("step: stray objects");
            }
            6 => {
                // the same calls on a cleared and on a fresh builder
                b.clear();
                live.clear();
                let (seed, id) = (s.u64(), file_id(s));
                memo_reset(true);
                let x = guarded(|| (tops.finish)(&v, &mut b, id, &mut Src::new(seed)))?;
                memo_reset(true);
                let mut fresh = new_builder(s);
                let y = guarded(|| (tops.finish)(&v, &mut fresh, id, &mut Src::new(seed)))?;
                st.class("step: cleared against fresh");
                finishes += 1;
                check(&p, st, s, &x, &v, id)?;
                check(&p, st, s, &y, &v, id)?;
                ensure!(x == y, "cleared differs", "a cleared builder writes\n{}a fresh one\n{}", hexdump(&x), hexdump(&y));
                memo_reset(true);
            }
            _ => {
                let id = file_id(s);
                let bytes = guarded(|| (tops.finish)(&v, &mut b, id, s))?;
                finishes += 1;
                st.class("step: finish");
                check(&p, st, s, &bytes, &v, id)?;
                ensure!(b.as_slice() == &bytes[..], "as_slice", "as_slice after finish differs from the finished buffer");
            }
        }
    }
    memo_reset(false);
    let shared = SHARED.with(|c| c.get());
    if shared > 0 { st.class("objects shared between parents"); }
    if finishes >= 2 && shared > 0 { st.nontrivial(hash_bytes(format!("{:?}", s.log).as_bytes())); st.sample(|| format!("schema {k} steps {} shared {shared} values {:?}", hist.join(","), pool)); }
    Ok(())
}
fn check(p: &Pick, st: &mut St, s: &mut Src, bytes: &[u8], v: &V, id: Option<[u8; 4]>) -> R {
    let want = written(p.sch, &Ty::Table(p.t), v);
    st.note(|| format!("finished {} as\n{}", p.tops.name, hexdump(bytes)));
    match Strict::verify_ex(p.sch, p.t, bytes, id, true, false) {
        Err(e) => return fail(format!("wire: {}", sig_of(&e)), e),
        Ok((got, _)) => agree(&got, &want, false, p.tops.name).or_else(|e| fail("wire: value", format!("independent decoder: {e}")))?,
    }
    reads_as(p, st, s, bytes, &want, "history")
}
