//! Generates the Rust code of the suite's schemas with planus-codegen, and the
//! glue code around it.
use vmodel::glue::Glue;
use vmodel::src_::{hash_str, mix};
use vmodel::Src;

pub const GROUPS: usize = 8;

pub fn generate(dir: &std::path::Path, files: &[(String, String)]) -> Result<String, String> {
    for (n, t) in files { std::fs::write(dir.join(n), t).unwrap(); }
    let p = dir.join(&files[0].0);
    let r = std::panic::catch_unwind(|| {
        let d = planus_translation::translate_files(&[&p]).ok_or("rejected")?;
        planus_codegen::generate_rust(&d, false).map_err(|e| format!("{e:?}"))
    });
    match r {
        Ok(r) => r,
        Err(_) => Err("panic".into()),
    }
}

pub fn run(dir: &str) {
    let dir = std::path::Path::new(dir);
    std::fs::create_dir_all(dir).unwrap();
    let seed = vmodel::engine::env_seed();
    let entries = vmodel::suite::suite(seed, vmodel::engine::env_thorough());
    let mut parts: Vec<(usize, usize, String)> = vec![];
    let mut failed = vec![];
    for (k, e) in entries.iter().enumerate() {
        match generate(dir, &e.sch.files(&format!("s{k}"))) {
            Err(m) => failed.push(format!("schema {k}: {m}")),
            Ok(code) => {
                let f = dir.join(format!("s{k}.rs"));
                std::fs::write(&f, &code).unwrap();
                let mut s = Src::new(mix(seed ^ hash_str("glue") ^ ((k as u64) << 16)));
                let glue = Glue { sch: &e.sch }.code(&mut s, k, f.to_str().unwrap());
                parts.push((code.len() + glue.len(), k, glue));
            }
        }
    }
    parts.sort_by_key(|p| std::cmp::Reverse(p.0));
    let mut groups: Vec<(usize, String, Vec<usize>)> = vec![(0, String::new(), vec![]); GROUPS];
    for (n, k, g) in parts {
        let t = groups.iter_mut().min_by_key(|g| g.0).unwrap();
        t.0 += n;
        t.1.push_str(&g);
        t.2.push(k);
    }
    for (j, (_, code, ids)) in groups.iter().enumerate() {
        let all: Vec<String> = ids.iter().map(|k| format!("({k}, s{k}::OPS)")).collect();
        std::fs::write(dir.join(format!("g{j}.rs")), format!("{code}\npub static ALL: &[(usize, rtapi::SchemaOps)] = &[{}];\n", all.join(", "))).unwrap();
    }
    std::fs::write(dir.join("failed.txt"), failed.join("\n")).unwrap();
    for f in &failed { println!("not generated: {f}"); }
}
