//! Generates the Rust code that connects planus-generated types of one schema
//! with the dynamic value model (`V`): owned values, reading through references,
//! writing in many styles, comparison, JSON, vector probes.
use crate::schema::*;
use crate::src_::Src;
use std::fmt::Write;

/// what kind of field it is, as far as the ways of writing it go
fn class(f: &Field) -> String {
    let class = |t: &Ty| match t { Ty::Sc(x) => match x { Sc::Bool => "bool", Sc::F32 | Sc::F64 => "float", Sc::I8 | Sc::U8 => "byte", _ => "int" }, Ty::Enum(_) => "enum", Ty::Struct(_) => "struct", Ty::Str => "str", Ty::Table(_) => "table", Ty::Union(_) => "union", Ty::Vec(_) => "vec" };
    format!("{} {} {}", class(&f.ty), if let Ty::Vec(e) = &f.ty { class(e) } else { "" }, match f.mode { Mode::Required => "required", Mode::Optional => "optional", Mode::Default(_) => "default" })
}
pub struct Glue<'a> { pub sch: &'a Schema }

impl<'a> Glue<'a> {
    pub fn path(&self, i: usize) -> String {
        let d = &self.sch.decls[i];
        let mut p = String::from("g::");
        for n in &d.ns { p.push_str(n); p.push_str("::"); }
        p + &d.name
    }
    fn refpath(&self, i: usize) -> String { format!("{}Ref", self.path(i)) }
    fn own_ty(&self, ty: &Ty) -> String {
        match ty {
            Ty::Sc(s) => s.rust().into(),
            Ty::Str => "String".into(),
            Ty::Vec(e) => format!("Vec<{}>", self.own_ty(e)),
            Ty::Enum(i) | Ty::Struct(i) | Ty::Table(i) | Ty::Union(i) => self.path(*i),
        }
    }
    fn own(&self, ty: &Ty, v: &str) -> String {
        match ty {
            Ty::Sc(Sc::Bool) => format!("({v}.int() != 0)"),
            Ty::Sc(Sc::F32) => format!("{v}.as_f32()"),
            Ty::Sc(Sc::F64) => format!("{v}.as_f64()"),
            Ty::Sc(s) => format!("({v}.int() as {})", s.rust()),
            Ty::Str => format!("{v}.str().to_string()"),
            Ty::Vec(e) => format!("{v}.fields().iter().map(|x| {}).collect::<Vec<_>>()", self.own(e, "x")),
            Ty::Enum(i) | Ty::Struct(i) | Ty::Table(i) | Ty::Union(i) => format!("own{i}({v})"),
        }
    }
    /// from a reference to an owned value
    fn val(&self, ty: &Ty, v: &str) -> String {
        match ty {
            Ty::Sc(Sc::F32) => format!("V::f32(*{v})"),
            Ty::Sc(Sc::F64) => format!("V::f64(*{v})"),
            Ty::Sc(_) => format!("V::Int(*{v} as i128)"),
            Ty::Str => format!("V::Str({v}.to_string())"),
            Ty::Vec(e) => format!("V::Vec({v}.iter().map(|x| {}).collect())", self.val(e, "x")),
            Ty::Enum(i) | Ty::Struct(i) | Ty::Table(i) | Ty::Union(i) => format!("val{i}({v})"),
        }
    }
    /// from what an accessor or iterator yields (by value)
    fn conv(&self, ty: &Ty, x: &str) -> String {
        match ty {
            Ty::Sc(Sc::F32) => format!("V::f32({x})"),
            Ty::Sc(Sc::F64) => format!("V::f64({x})"),
            Ty::Sc(_) => format!("V::Int({x} as i128)"),
            Ty::Str => format!("V::Str({x}.to_string())"),
            Ty::Enum(i) => format!("val{i}(&{x})"),
            Ty::Struct(i) => format!("rd{i}({x})"),
            Ty::Table(i) | Ty::Union(i) => format!("rd{i}({x}, cx)"),
            Ty::Vec(e) => match &**e {
                Ty::Sc(Sc::U8 | Sc::I8) => format!("rv({x}.iter(), cx, |x, _| V::Int(*x as i128))"),
                e => format!("rv({x}.iter(), cx, |x, cx| {})", self.elem(e, "x")),
            },
        }
    }
    fn elem(&self, e: &Ty, x: &str) -> String {
        match e {
            Ty::Sc(_) | Ty::Struct(_) => format!("{{ let _ = &cx; {} }}", self.conv(e, x)),
            Ty::Enum(_) => format!("{{ let _ = &cx; match {x} {{ Ok(x) => {}, Err(e) => verr(e.into()) }} }}", self.conv(e, "x")),
            _ => format!("{{ let _ = &cx; match {x} {{ Ok(x) => {}, Err(e) => verr(e) }} }}", self.conv(e, "x")),
        }
    }
    fn elem_off(&self, e: &Ty) -> String {
        match e {
            Ty::Str => "planus::Offset<str>".into(),
            Ty::Table(i) => format!("planus::Offset<{}>", self.path(*i)),
            e => self.own_ty(e),
        }
    }
    /// the way to write a field: in turn, so that every kind of field meets every way, in a random order
    fn style(&self, s: &mut Src, f: &Field, n: u64) -> u64 {
        thread_local!(static TURN: std::cell::RefCell<std::collections::HashMap<String, u64>> = Default::default());
        let key = class(f);
        let r = s.below(n);
        TURN.with(|t| { let mut t = t.borrow_mut(); let x = t.entry(key).or_insert(r); *x += 1; *x % n })
    }
    /// (statements, argument expression) that write one field's value `v` (&V)
    fn arg(&self, s: &mut Src, k: usize, f: &Field) -> (String, String) {
        let v = format!("f[{k}]");
        let opt = f.mode == Mode::Optional;
        let map = |e: String| if opt { format!("{v}.opt().map(|x| {e})") } else { e };
        let x = if opt { "x".to_string() } else { format!("(&{v})") };
        // an expression that needs the builder
        let with_b = |e: &str, ty: &str| {
            if opt { format!("let p{k}: Option<{ty}> = match {v}.opt() {{ None => None, Some(x) => Some({e}) }};\n") } else { format!("let p{k}: {ty} = {{ let x = &{v}; {e} }};\n") }
        };
        let own = self.own(&f.ty, &x);
        let oty = self.own_ty(&f.ty);
        match &f.ty {
            Ty::Sc(_) | Ty::Enum(_) | Ty::Struct(_) => match self.style(s, f, 5) {
                0 | 1 => (String::new(), map(own)),
                2 => (String::new(), map(format!("Box::new({own})"))),
                3 if opt => (format!("let p{k} = {};\n", map(own)), format!("p{k}.as_ref()")),
                _ => (format!("let p{k} = {};\n", map(own)), format!("&p{k}")),
            },
            Ty::Str => match self.style(s, f, 8) {
                0 => (String::new(), map(format!("{x}.str()"))),
                5 => (with_b("memo(SID, \"str\", x, b, s, |b, s| sform(b, s, x.str()))", "planus::Offset<str>"), format!("p{k}")),
                6 => (String::new(), map(format!("Box::<str>::from({x}.str())"))),
                7 => (String::new(), map(format!("Box::new({own})"))),
                1 => (String::new(), map(own)),
                2 => (with_b("memo(SID, \"str\", x, b, s, |b, _| b.create_string(x.str()))", "planus::Offset<str>"), format!("p{k}")),
                3 => (format!("let p{k} = {};\n", map(own)), if opt { format!("p{k}.as_ref()") } else { format!("&p{k}") }),
                _ => (with_b("memo(SID, \"str\", x, b, s, |b, _| b.create_string(x.str().to_string()))", "planus::Offset<str>"), format!("&p{k}")),
            },
            Ty::Table(t) => match self.style(s, f, 7) {
                0 => (String::new(), map(own)),
                6 => (with_b(&format!("{{ let t = {}; memo(SID, \"T{t}\", x, b, s, |b, s| tform(b, s, t)) }}", self.own(&f.ty, "x")), &format!("planus::Offset<{oty}>")), format!("p{k}")),
                1 => (format!("let p{k} = {};\n", map(own)), if opt { format!("p{k}.as_ref()") } else { format!("&p{k}") }),
                2 => (String::new(), map(format!("Box::new({own})"))),
                3 => (String::new(), map(format!("bld{t}({x})"))),
                _ => (with_b(&format!("wr{t}(x, b, s)"), &format!("planus::Offset<{oty}>")), format!("p{k}")),
            },
            Ty::Union(u) => match self.style(s, f, 6) {
                0 => (String::new(), map(own)),
                2 => (String::new(), map(format!("Box::new({own})"))),
                3 => (with_b(&format!("{{ let t: {oty} = {}; uform(b, s, t) }}", self.own(&f.ty, "x")), &format!("planus::UnionOffset<{oty}>")), format!("p{k}")),
                1 => (format!("let p{k} = {};\n", map(own)), if opt { format!("p{k}.as_ref()") } else { format!("&p{k}") }),
                _ => (with_b(&format!("wr{u}(x, b, s)"), &format!("planus::UnionOffset<{oty}>")), format!("p{k}")),
            },
            Ty::Vec(e) if matches!(**e, Ty::Union(_)) => {
                let Ty::Union(u) = **e else { panic!() };
                let et = self.own_ty(e);
                let ot = format!("planus::UnionVectorOffset<{et}>");
                match self.style(s, f, 7) {
                    0 => (String::new(), map(own)),
                    5 => (with_b(&format!("{{ let t: Vec<{et}> = {}; uvform(b, s, t) }}", self.own(&f.ty, "x")), &ot), format!("p{k}")),
                    6 => (with_b(&format!("{{ let t: Vec<planus::UnionOffset<{et}>> = x.fields().iter().map(|x| wr{u}(x, b, s)).collect(); uvform(b, s, t) }}"), &ot), format!("p{k}")),
                    1 => (format!("let p{k} = {};\n", map(own)), if opt { format!("p{k}.as_deref()") } else { format!("&p{k}[..]") }),
                    2 => (with_b(&format!("{{ let t: Vec<planus::UnionOffset<{et}>> = x.fields().iter().map(|x| wr{u}(x, b, s)).collect(); b.create_union_vector(&t[..]) }}"), &ot), format!("p{k}")),
                    3 => (with_b(&format!("{{ let t: Vec<{et}> = {}; b.create_union_vector(t) }}", self.own(&f.ty, "x")), &ot), format!("p{k}")),
                    _ => (with_b(&format!("x.fields().iter().map(|x| wr{u}(x, b, s)).collect()"), &format!("Vec<planus::UnionOffset<{et}>>")), format!("p{k}")),
                }
            }
            Ty::Vec(e) => {
                let ot = format!("planus::Offset<[{}]>", self.elem_off(e));
                let own_in = self.own(&f.ty, "x");
                let vk = format!("{:?}", f.ty);
                let off_elems = match &**e {
                    Ty::Str => Some("memo(SID, \"str\", x, b, s, |b, _| b.create_string(x.str()))".to_string()),
                    Ty::Table(t) => Some(format!("wr{t}(x, b, s)")),
                    _ => None,
                };
                match self.style(s, f, 13) {
                    0 => (String::new(), map(own)),
                    // borrowed elements
                    10 if **e == Ty::Str => (String::new(), map(format!("{x}.fields().iter().map(|x| x.str()).collect::<Vec<_>>()"))),
                    11 if **e == Ty::Str => (with_b("{ let t = x.fields().iter().map(|x| x.str()).collect::<Vec<&str>>(); vform(b, s, t) }", &ot), format!("p{k}")),
                    10 | 11 if !matches!(**e, Ty::Sc(Sc::I8 | Sc::U8)) => (with_b(&format!("{{ let t = {own_in}; vform(b, s, t.iter().collect::<Vec<_>>()) }}"), &ot), format!("p{k}")),
                    7 => (String::new(), map(format!("Box::new({own})"))),
                    8 => (String::new(), map(format!("{own}.into_boxed_slice()"))),
                    9 if off_elems.is_some() => (with_b(&format!("{{ let t = x.fields().iter().map(|x| {}).collect::<Vec<_>>(); vform(b, s, t) }}", off_elems.unwrap()), &ot), format!("p{k}")),
                    1 => (format!("let p{k} = {};\n", map(own)), if opt { format!("p{k}.as_deref()") } else { format!("&p{k}[..]") }),
                    2 => (format!("let p{k} = {};\n", map(own)), if opt { format!("p{k}.as_ref()") } else { format!("&p{k}") }),
                    3 => (with_b(&format!("memo(SID, \"{vk}\", x, b, s, |b, s| {{ let t = {own_in}; b.create_vector(&t[..]) }})"), &ot), format!("p{k}")),
                    4 => (with_b(&format!("memo(SID, \"{vk}\", x, b, s, |b, s| {{ let t = {own_in}; vform(b, s, t) }})"), &ot), format!("p{k}")),
                    _ => match off_elems {
                        Some(o) => if s.bool() {
                            (with_b(&format!("{{ let t = x.fields().iter().map(|x| {o}).collect::<Vec<_>>(); b.create_vector(t) }}"), &ot), format!("p{k}"))
                        } else {
                            (with_b(&format!("x.fields().iter().map(|x| {o}).collect::<Vec<_>>()"), &format!("Vec<{}>", self.elem_off(e))), format!("p{k}"))
                        },
                        None => (with_b(&format!("memo(SID, \"{vk}\", x, b, s, |b, s| {{ let t = {own_in}; b.create_vector(t) }})"), &ot), format!("p{k}")),
                    },
                }
            }
        }
    }
    pub fn code(&self, s: &mut Src, id: usize, gen_file: &str) -> String {
        let mut o = String::new();
        let w = &mut o;
        let _ = writeln!(w, "#[allow(unused, clippy::all)] pub mod s{id} {{\n#[allow(unused, clippy::all)] pub mod g {{ include!({gen_file:?}); }}\nuse rtapi::*;\nuse rtapi::planus;\nuse planus::ReadAsRoot;\npub const SID: usize = {id};");
        for i in 0..self.sch.decls.len() { self.decl(w, s, i); }
        let _ = writeln!(w, "pub const TABLES: &[TableOps] = &[");
        for t in self.sch.tables() {
            let p = self.path(t);
            let r = self.refpath(t);
            let dflt = if self.can_default(t, &mut vec![]) { format!("Some(|| val{t}(&{p}::default()))") } else { "None".into() };
            let eq = self.can_eq(&Ty::Table(t), &mut vec![]);
            let _ = writeln!(w, "TableOps {{ decl: {t}, name: {:?},", self.sch.decls[t].name);
            let _ = writeln!(w, "write: |v, b, s| wr{t}(v, b, s).downcast(),");
            let _ = writeln!(w, "finish: |v, b, id, s| match s.below(5) {{ 0 => b.finish(own{t}(v), id).to_vec(), 1 => b.finish(&own{t}(v), id).to_vec(), 2 => b.finish(bld{t}(v), id).to_vec(), _ => {{ let o = wr{t}(v, b, s); b.finish(o, id).to_vec() }} }},");
            let _ = writeln!(w, "finish_off: |o, b, id| b.finish(rtapi::raw::<{p}>(o), id).to_vec(),");
            let _ = writeln!(w, "read: |bytes, cx| match {r}::read_as_root(bytes) {{ Ok(x) => rd{t}(x, cx), Err(e) => verr(e) }},");
            let _ = writeln!(w, "owned: |bytes| match {r}::read_as_root(bytes).and_then({p}::try_from) {{ Ok(x) => val{t}(&x), Err(e) => verr(e) }},");
            let _ = writeln!(w, "debug: |bytes| match {r}::read_as_root(bytes) {{ Ok(x) => format!(\"{{x:?}}\"), Err(e) => format!(\"{{e:?}} {{e}}\") }},");
            let _ = writeln!(w, "own_debug: |v| format!(\"{{:?}}\", own{t}(v)),");
            let _ = writeln!(w, "default: {dflt},");
            let _ = writeln!(w, "ident: |v| val{t}(&own{t}(v)),");
            let _ = writeln!(w, "cmp: |a, b| {{ let (a, b) = (own{t}(a), own{t}(b)); Cmp {{ eq: a == b, ne: a != b, partial: a.partial_cmp(&b), ops: [a < b, a <= b, a > b, a >= b], total: {}, hash: {} }} }},", if eq { "Some(a.cmp(&b))" } else { "None" }, if eq { "Some((hash(&a), hash(&b)))" } else { "None" });
            let _ = writeln!(w, "clone_eq: |v| {{ let a = own{t}(v); val{t}(&a.clone()) }},");
            let _ = writeln!(w, "json: |v| {{ let j = serde_json::to_string(&own{t}(v)).map_err(|e| e.to_string())?; let x: {p} = serde_json::from_str(&j).map_err(|e| format!(\"{{e}} in {{j}}\"))?; Ok((val{t}(&x), j)) }},");
            let _ = writeln!(w, "probe: |bytes, field, want, st, s| {{ let r = {r}::read_as_root(bytes).map_err(|e| rtapi::Fail {{ sig: \"probe root\".into(), msg: format!(\"{{e:?}}\") }})?; match field {{");
            for (k, f) in self.sch.fields(t).iter().enumerate() {
                if f.deprecated { continue; }
                if let Ty::Vec(e) = &f.ty {
                    let get = format!("r.{}()", f.name);
                    let get = if f.mode == Mode::Optional { format!("{get}.map(|x| x.unwrap())") } else { get };
                    let call = match &**e {
                        Ty::Sc(Sc::U8 | Sc::I8) => "rtapi::probe_bytes(x, |x| V::Int(x as i128), want, st, s)".to_string(),
                        Ty::Union(_) => format!("rtapi::probe_union_vector(x, &|x| {{ let cx = &mut Cx::new(100000); {} }}, want, st, s)", self.elem(e, "x")),
                        Ty::Enum(_) | Ty::Str | Ty::Table(_) => format!("rtapi::probe_vector_result(x, &|x| {{ let cx = &mut Cx::new(100000); {} }}, want, st, s)", self.elem(e, "x")),
                        e => format!("rtapi::probe_vector(x, &|x| {{ let cx = &mut Cx::new(100000); {} }}, want, st, s)", self.elem(e, "x")),
                    };
                    let _ = writeln!(w, "{k} => match {get} {{ Ok(x) => {call}, Err(e) => rtapi::fail(\"probe field\", format!(\"{{e:?}}\")) }},");
                }
            }
            let _ = writeln!(w, "_ => Ok(()) }} }},");
            let _ = writeln!(w, "}},");
        }
        let _ = writeln!(w, "];");
        let _ = writeln!(w, "pub const ENUMS: &[EnumOps] = &[");
        for (i, d) in self.sch.decls.iter().enumerate() {
            if let Kind::Enum { ty, .. } = &d.kind {
                let p = self.path(i);
                let r = ty.rust();
                let _ = writeln!(w, "EnumOps {{ decl: {i}, try_from: |x| {p}::try_from(x as {r}).map(|e| val{i}(&e).int()).map_err(|e| e.tag), into: |x| {r}::from(own{i}(&V::Int(x))) as i128, cast: |x| own{i}(&V::Int(x)) as {r} as i128, values: || {p}::ENUM_VALUES.iter().map(|e| val{i}(e).int()).collect(), cmp: |a, b| {{ let (a, b) = (own{i}(&V::Int(a)), own{i}(&V::Int(b))); Cmp {{ eq: a == b, ne: a != b, partial: a.partial_cmp(&b), ops: [a < b, a <= b, a > b, a >= b], total: Some(a.cmp(&b)), hash: Some((hash(&a), hash(&b))) }} }}, json: |x| {{ let j = serde_json::to_string(&own{i}(&V::Int(x))).map_err(|e| e.to_string())?; let y: {p} = serde_json::from_str(&j).map_err(|e| format!(\"{{e}} in {{j}}\"))?; Ok((val{i}(&y).int(), j)) }} }},");
            }
        }
        let _ = writeln!(w, "];");
        let _ = writeln!(w, "pub const STRUCTS: &[StructOps] = &[");
        for (i, d) in self.sch.decls.iter().enumerate() {
            if let Kind::Struct { .. } = &d.kind {
                let p = self.path(i);
                let eq = self.can_eq(&Ty::Struct(i), &mut vec![]);
                let inf = self.infallible(i);
                let mk = |a: &str| format!("let mut bb = planus::Builder::new(); let o = bb.create_vector(vec![own{i}({a})]); let _ = o;");
                let _ = mk;
                let refcmp = if inf {
                    format!("Some(|a, b| {{ let (x, y) = (a, b); let x = sref::<{}, {}>(x); let y = sref::<{}, {}>(y); Cmp {{ eq: x == y, ne: x != y, partial: x.partial_cmp(&y), ops: [x < y, x <= y, x > y, x >= y], total: {}, hash: {} }} }})",
                        format!("{p}Ref"), self.sch.slayout(i).size, format!("{p}Ref"), self.sch.slayout(i).size,
                        if eq { "Some(x.cmp(&y))" } else { "None" }, if eq { "Some((hash(&x), hash(&y)))" } else { "None" })
                } else { "None".into() };
                let dflt = if self.struct_default(i) { format!("Some(|| val{i}(&{p}::default()))") } else { "None".into() };
                let _ = writeln!(w, "StructOps {{ decl: {i}, cmp: |a, b| {{ let (a, b) = (own{i}(a), own{i}(b)); Cmp {{ eq: a == b, ne: a != b, partial: a.partial_cmp(&b), ops: [a < b, a <= b, a > b, a >= b], total: {}, hash: {} }} }}, refcmp: {refcmp}, default: {dflt}, json: |v| {{ let j = serde_json::to_string(&own{i}(v)).map_err(|e| e.to_string())?; let x: {p} = serde_json::from_str(&j).map_err(|e| format!(\"{{e}} in {{j}}\"))?; Ok((val{i}(&x), j)) }} }},",
                    if eq { "Some(a.cmp(&b))" } else { "None" }, if eq { "Some((hash(&a), hash(&b)))" } else { "None" });
            }
        }
        let _ = writeln!(w, "];");
        let _ = writeln!(w, "pub const OPS: SchemaOps = SchemaOps {{ tables: TABLES, enums: ENUMS, structs: STRUCTS }};\n}}");
        o
    }
    /// no enum anywhere inside (conversion from the reference cannot fail)
    pub fn infallible(&self, s: usize) -> bool {
        self.sch.sfields(s).iter().all(|f| match &f.ty { Ty::Enum(_) => false, Ty::Struct(i) => self.infallible(*i), _ => true })
    }
    pub fn struct_default(&self, s: usize) -> bool {
        self.sch.sfields(s).iter().all(|f| match &f.ty { Ty::Enum(_) => false, Ty::Struct(i) => self.struct_default(*i), _ => true })
    }
    /// does the generated table have a Default impl
    pub fn can_default(&self, t: usize, seen: &mut Vec<usize>) -> bool {
        if seen.contains(&t) { return true; }
        seen.push(t);
        self.sch.fields(t).iter().filter(|f| !f.deprecated).all(|f| match (&f.mode, &f.ty) {
            (Mode::Required, Ty::Table(i)) => self.can_default(*i, seen),
            (Mode::Required, Ty::Struct(i)) => self.struct_default(*i),
            (Mode::Required, Ty::Union(_)) => false,
            _ => true,
        })
    }
    pub fn can_eq(&self, ty: &Ty, seen: &mut Vec<Ty>) -> bool {
        if seen.contains(ty) { return true; }
        seen.push(ty.clone());
        match ty {
            Ty::Sc(s) => !s.is_float(),
            Ty::Enum(_) | Ty::Str => true,
            Ty::Struct(i) => self.sch.sfields(*i).iter().all(|f| self.can_eq(&f.ty, seen)),
            Ty::Table(i) => self.sch.fields(*i).iter().filter(|f| !f.deprecated).all(|f| self.can_eq(&f.ty, seen)),
            Ty::Union(i) => self.sch.uvariants(*i).iter().all(|f| self.can_eq(&f.ty, seen)),
            Ty::Vec(e) => self.can_eq(e, seen),
        }
    }
    fn decl(&self, w: &mut String, s: &mut Src, i: usize) {
        let p = self.path(i);
        match &self.sch.decls[i].kind {
            Kind::Enum { variants, .. } => {
                let _ = writeln!(w, "pub fn own{i}(v: &V) -> {p} {{ match v.int() {{");
                for v in variants { let _ = writeln!(w, "{} => {p}::{},", v.value, v.name); }
                let _ = writeln!(w, "x => panic!(\"not a value: {{x}}\") }} }}");
                let _ = writeln!(w, "pub fn val{i}(v: &{p}) -> V {{ match v {{");
                for v in variants { let _ = writeln!(w, "{p}::{} => V::Int({}),", v.name, v.value); }
                let _ = writeln!(w, "}} }}");
            }
            Kind::Struct { fields, .. } => {
                let _ = writeln!(w, "pub fn own{i}(v: &V) -> {p} {{ let f = v.fields(); {p} {{");
                for (k, f) in fields.iter().enumerate() { let _ = writeln!(w, "{}: {},", f.name, self.own(&f.ty, &format!("(&f[{k}])"))); }
                let _ = writeln!(w, "}} }}");
                let _ = writeln!(w, "pub fn val{i}(v: &{p}) -> V {{ V::Struct(vec![");
                for f in fields { let _ = writeln!(w, "{},", self.val(&f.ty, &format!("(&v.{})", f.name))); }
                let _ = writeln!(w, "]) }}");
                let _ = writeln!(w, "pub fn rd{i}(r: {p}Ref<'_>) -> V {{ V::Struct(vec![");
                for f in fields {
                    if let Ty::Enum(_) = &f.ty {
                        let _ = writeln!(w, "match r.{}() {{ Ok(x) => {}, Err(e) => verr(e.into()) }},", f.name, self.conv(&f.ty, "x"));
                    } else {
                        let _ = writeln!(w, "{},", self.conv(&f.ty, &format!("r.{}()", f.name)));
                    }
                }
                let _ = writeln!(w, "]) }}");
            }
            Kind::Union { variants } => {
                let _ = writeln!(w, "pub fn own{i}(v: &V) -> {p} {{ let V::Union(t, x) = v else {{ panic!() }}; let x = &**x; match t {{");
                for (k, v) in variants.iter().enumerate() {
                    let n = self.sch.uname(v);
                    let e = self.own(&v.ty, "x");
                    let e = if matches!(v.ty, Ty::Table(_)) { format!("Box::new({e})") } else { e };
                    let _ = writeln!(w, "{} => {p}::{n}({e}),", k + 1);
                }
                let _ = writeln!(w, "_ => panic!() }} }}");
                let _ = writeln!(w, "pub fn val{i}(v: &{p}) -> V {{ match v {{");
                for (k, v) in variants.iter().enumerate() {
                    let n = self.sch.uname(v);
                    let _ = writeln!(w, "{p}::{n}(x) => V::Union({}, Box::new({})),", k + 1, self.val(&v.ty, "x"));
                }
                let _ = writeln!(w, "}} }}");
                let _ = writeln!(w, "pub fn rd{i}(r: {p}Ref<'_>, cx: &mut Cx) -> V {{ match r {{");
                for (k, v) in variants.iter().enumerate() {
                    let n = self.sch.uname(v);
                    let _ = writeln!(w, "{p}Ref::{n}(x) => vunion({}, {}),", k + 1, self.conv(&v.ty, "x"));
                }
                let _ = writeln!(w, "}} }}");
                let _ = writeln!(w, "pub fn wr{i}(v: &V, b: &mut planus::Builder, s: &mut Src) -> planus::UnionOffset<{p}> {{ let V::Union(t, x) = v else {{ panic!() }}; let x = &**x; match t {{");
                for (k, v) in variants.iter().enumerate() {
                    let n = self.sch.uname(v).to_lowercase();
                    let own = self.own(&v.ty, "x");
                    let off = match &v.ty {
                        Ty::Table(t) => format!("{{ let o = wr{t}(x, b, s); {p}::create_{n}(b, o) }}"),
                        Ty::Str => format!("{{ let o = b.create_string(x.str()); {p}::create_{n}(b, o) }}"),
                        _ => format!("{p}::create_{n}(b, {own})"),
                    };
                    let off2 = match &v.ty {
                        Ty::Table(t) => format!("{{ let o = wr{t}(x, b, s); {p}::builder().{n}(o).finish(b) }}"),
                        Ty::Str => format!("{p}::builder().{n}(x.str()).finish(b)"),
                        _ => format!("{p}::builder().{n}({own}).finish(b)"),
                    };
                    let _ = writeln!(w, "{} => match s.below(5) {{ 0 => {p}::create_{n}(b, {own}), 1 => {p}::builder().{n}({own}).finish(b), 2 => {off2}, 3 => planus::WriteAsUnion::prepare(&own{i}(v), b), _ => {off} }},", k + 1);
                }
                let _ = writeln!(w, "_ => panic!() }} }}");
            }
            Kind::Table { fields } => {
                let live: Vec<(usize, &Field)> = fields.iter().enumerate().filter(|(_, f)| !f.deprecated).collect();
                let _ = writeln!(w, "pub fn own{i}(v: &V) -> {p} {{ let f = v.fields(); {p} {{");
                for (k, f) in &live {
                    let b = matches!(f.ty, Ty::Table(_));
                    let bx = |e: String| if b { format!("Box::new({e})") } else { e };
                    let e = if f.mode == Mode::Optional { format!("f[{k}].opt().map(|x| {})", bx(self.own(&f.ty, "x"))) } else { bx(self.own(&f.ty, &format!("(&f[{k}])"))) };
                    let _ = writeln!(w, "{}: {e},", f.name);
                }
                let _ = writeln!(w, "}} }}");
                let _ = writeln!(w, "pub fn val{i}(v: &{p}) -> V {{ V::Table(vec![");
                for f in fields {
                    if f.deprecated { let _ = writeln!(w, "V::Null,"); continue; }
                    if f.mode == Mode::Optional {
                        let _ = writeln!(w, "match &v.{} {{ None => V::Null, Some(x) => {} }},", f.name, self.val(&f.ty, "x"));
                    } else {
                        let _ = writeln!(w, "{},", self.val(&f.ty, &format!("(&v.{})", f.name)));
                    }
                }
                let _ = writeln!(w, "]) }}");
                let _ = writeln!(w, "pub fn rd{i}(r: {p}Ref<'_>, cx: &mut Cx) -> V {{ if !cx.enter() {{ return V::Cut; }} let x = V::Table(vec![");
                for f in fields {
                    if f.deprecated { let _ = writeln!(w, "V::Null,"); continue; }
                    if f.mode == Mode::Optional {
                        let _ = writeln!(w, "if cx.out() {{ V::Cut }} else {{ match r.{}() {{ Err(e) => verr(e), Ok(None) => V::Null, Ok(Some(x)) => {} }} }},", f.name, self.conv(&f.ty, "x"));
                    } else {
                        let _ = writeln!(w, "if cx.out() {{ V::Cut }} else {{ match r.{}() {{ Err(e) => verr(e), Ok(x) => {} }} }},", f.name, self.conv(&f.ty, "x"));
                    }
                }
                let _ = writeln!(w, "]); cx.leave(); x }}");
                // unfinished builder as an argument
                let _ = writeln!(w, "pub fn bld{i}(v: &V) -> impl planus::WriteAs<planus::Offset<{p}>> + planus::WriteAsOptional<planus::Offset<{p}>> + planus::WriteAsOffset<{p}> {{ let f = v.fields(); {p}::builder()");
                for (k, f) in &live {
                    let e = if f.mode == Mode::Optional { format!("f[{k}].opt().map(|x| {})", self.own(&f.ty, "x")) } else { self.own(&f.ty, &format!("(&f[{k}])")) };
                    let _ = writeln!(w, ".{}({e})", f.name);
                }
                let _ = writeln!(w, "}}");
                let _ = writeln!(w, "pub fn wr{i}(v: &V, b: &mut planus::Builder, s: &mut Src) -> planus::Offset<{p}> {{ memo(SID, \"T{i}\", v, b, s, |b, s| wr{i}_(v, b, s)) }}");
                let _ = writeln!(w, "fn wr{i}_(v: &V, b: &mut planus::Builder, s: &mut Src) -> planus::Offset<{p}> {{ let f = v.fields(); match s.below(6) {{");
                for style in 0..6 {
                    let _ = writeln!(w, "{} => {{", if style == 5 { "_".to_string() } else { style.to_string() });
                    if style == 0 {
                        let _ = writeln!(w, "let o = own{i}(v); planus::WriteAsOffset::prepare(&o, b) }}");
                        continue;
                    }
                    let mut pre: Vec<(usize, String)> = vec![];
                    let mut args = vec![];
                    for (k, f) in &live {
                        let (st, e) = self.arg(s, *k, f);
                        pre.push((*k, st));
                        args.push((f, e, *k));
                    }
                    // offsets may be made in any order
                    if s.bool() { s.shuffle(&mut pre); }
                    let pre_except = |skip: Option<usize>| pre.iter().filter(|(k, _)| Some(*k) != skip).map(|(_, q)| q.as_str()).collect::<String>();
                    if style % 2 == 1 {
                        let _ = writeln!(w, "{}{p}::create(b, {}) }}", pre_except(None), args.iter().map(|a| a.1.clone()).collect::<Vec<_>>().join(", "));
                    } else {
                        let cands: Vec<usize> = args.iter().enumerate().filter(|(_, a)| a.0.mode != Mode::Required).map(|(n, _)| n).collect();
                        let chain = |skip: Option<usize>| {
                            let mut c = format!("{p}::builder()");
                            for (n, (f, e, _)) in args.iter().enumerate() {
                                if Some(n) == skip {
                                    let _ = write!(c, ".{}_as_{}()", f.name, if f.mode == Mode::Optional { "null" } else { "default" });
                                } else {
                                    let _ = write!(c, ".{}({e})", f.name);
                                }
                            }
                            c + ".finish(b)"
                        };
                        if cands.is_empty() {
                            let _ = writeln!(w, "{}{} }}", pre_except(None), chain(None));
                        } else {
                            // of the kind left out least often so far
                            thread_local!(static LEFT: std::cell::RefCell<std::collections::HashMap<String, u64>> = Default::default());
                            let r = s.usize(cands.len());
                            let n = LEFT.with(|l| {
                                let mut l = l.borrow_mut();
                                let n = (0..cands.len()).map(|i| cands[(r + i) % cands.len()]).min_by_key(|n| l.get(&class(args[*n].0)).copied().unwrap_or(0)).unwrap();
                                *l.entry(class(args[n].0)).or_default() += 1;
                                n
                            });
                            let (f, _, k) = &args[n];
                            let cond = match &f.mode {
                                Mode::Default(d) => format!("vsame(&f[{k}], &{})", self.vlit(d)),
                                _ => format!("f[{k}].is_null()"),
                            };
                            let _ = writeln!(w, "if {cond} {{ {}{} }} else {{ {}{} }} }}", pre_except(Some(*k)), chain(Some(n)), pre_except(None), chain(None));
                        }
                    }
                }
                let _ = writeln!(w, "}} }}");
            }
        }
    }
    fn vlit(&self, v: &V) -> String {
        match v {
            V::Int(i) => format!("V::Int({i})"),
            V::F32(b) => format!("V::F32({b})"),
            V::F64(b) => format!("V::F64({b})"),
            V::Str(s) => format!("V::Str({s:?}.to_string())"),
            V::Vec(_) => "V::Vec(vec![])".into(),
            _ => panic!(),
        }
    }
}
