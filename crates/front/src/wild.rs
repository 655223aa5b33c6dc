//! Token sequences of schemas: grammatical ones that need not mean anything, and arbitrary ones.
use crate::sm::*;
use vmodel::Src;

fn t(out: &mut Vec<Tk>, x: &str) { out.push(tk(x)); }
pub fn ident(s: &mut Src) -> String {
    match s.weighted(&[6, 2, 2, 1]) {
        0 => s.pick(&["a", "b", "A", "B", "C", "T", "Foo", "x1", "_", "v", "true", "false", "null", "inf", "nan", "id", "required", "force_align"]).to_string(),
        1 => s.pick(KEYWORDS).to_string(),
        2 => s.pick(BUILTINS).to_string(),
        _ => format!("n{}", s.below(1000)),
    }
}
fn path(s: &mut Src, out: &mut Vec<Tk>) {
    t(out, &ident(s));
    for _ in 0..s.small(3) { t(out, "."); t(out, &ident(s)); }
}
pub fn ty(s: &mut Src, out: &mut Vec<Tk>, depth: usize) {
    match if depth == 0 { 0 } else { s.weighted(&[6, 2, 1]) } {
        0 => path(s, out),
        1 => { t(out, "["); ty(s, out, depth - 1); t(out, "]"); }
        _ => { t(out, "["); ty(s, out, depth - 1); t(out, ":"); expr(s, out, 1); t(out, "]"); }
    }
}
pub fn string(s: &mut Src) -> String { let v = text(s, 10); str_lit(s, &v) }
fn number(s: &mut Src) -> Vec<String> {
    if s.chance(1, 6) { return vec![s.pick(&["0x1.8p3", "0X.8P-2", "0x10p0", "1.", ".5", "0x_", "4294967295", "4294967294", "65535", "2147483648", "18446744073709551615", "18446744073709551616"]).to_string()]; }
    if s.bool() { let v = s.int(-(1 << 70), 1 << 70); let v = if s.bool() { v % 300 } else { v }; int_lit(s, v) } else { float_lit(s).0 }
}
pub fn expr(s: &mut Src, out: &mut Vec<Tk>, depth: usize) {
    match s.weighted(&[3, 5, 2, if depth > 0 { 2 } else { 0 }, 1]) {
        0 => t(out, &ident(s)),
        1 => for x in number(s) { t(out, &x); },
        2 => t(out, &string(s)),
        3 => { t(out, "["); let n = s.small(4); for i in 0..n { expr(s, out, depth - 1); if i + 1 < n || s.chance(1, 3) { t(out, ","); } } t(out, "]"); }
        _ => { t(out, if s.bool() { "-" } else { "+" }); expr(s, out, depth); }
    }
}
fn meta(s: &mut Src, out: &mut Vec<Tk>) {
    if !s.chance(1, 3) { return; }
    t(out, "(");
    let n = s.small(4);
    for i in 0..n {
        let k = if s.bool() { s.pick(&["id", "deprecated", "required", "force_align", "bit_flags", "key", "hash", "original_order", "nested_flatbuffer", "csharp_partial", "private", "flexbuffer", "shared"]).to_string() } else { ident(s) };
        t(out, &k);
        if s.bool() { t(out, ":"); expr(s, out, 1); }
        if i + 1 < n || s.chance(1, 4) { t(out, ","); }
    }
    t(out, ")");
}
fn fields(s: &mut Src, out: &mut Vec<Tk>) {
    t(out, "{");
    for _ in 0..s.small(6) {
        t(out, &ident(s)); t(out, ":"); ty(s, out, 2);
        if s.chance(1, 3) { t(out, "="); expr(s, out, 2); }
        meta(s, out);
        t(out, ";");
    }
    t(out, "}");
}
pub fn decl(s: &mut Src, out: &mut Vec<Tk>) {
    match s.below(12) {
        0 => { t(out, "include"); t(out, &string(s)); t(out, ";"); }
        1 => { t(out, "native_include"); t(out, &string(s)); t(out, ";"); }
        2 => { t(out, "namespace"); path(s, out); t(out, ";"); }
        3 => { t(out, "attribute"); let x = if s.bool() { ident(s) } else { string(s) }; t(out, &x); t(out, ";"); }
        4 | 5 => { t(out, "table"); t(out, &ident(s)); meta(s, out); fields(s, out); }
        6 => { t(out, "struct"); t(out, &ident(s)); meta(s, out); fields(s, out); }
        7 | 8 => {
            t(out, "enum"); t(out, &ident(s));
            if s.chance(4, 5) { t(out, ":"); ty(s, out, 1); }
            meta(s, out); t(out, "{");
            let n = s.small(5);
            for i in 0..n { t(out, &ident(s)); if s.bool() { t(out, "="); expr(s, out, 1); } if i + 1 < n || s.bool() { t(out, ","); } }
            t(out, "}");
        }
        9 => {
            t(out, "union"); t(out, &ident(s)); meta(s, out); t(out, "{");
            let n = s.small(5);
            for i in 0..n { if s.bool() { t(out, &ident(s)); t(out, ":"); } ty(s, out, 1); meta(s, out); if i + 1 < n || s.bool() { t(out, ","); } }
            t(out, "}");
        }
        10 => match s.below(3) {
            0 => { t(out, "root_type"); ty(s, out, 1); t(out, ";"); }
            1 => { t(out, "file_extension"); t(out, &string(s)); t(out, ";"); }
            _ => { t(out, "file_identifier"); t(out, &string(s)); t(out, ";"); }
        },
        _ => {
            t(out, "rpc_service"); t(out, &ident(s)); t(out, "{");
            for _ in 0..s.small(3) { t(out, &ident(s)); t(out, "("); ty(s, out, 1); t(out, ")"); t(out, ":"); ty(s, out, 1); meta(s, out); t(out, ";"); }
            t(out, "}");
        }
    }
}
pub fn schema(s: &mut Src) -> Vec<Tk> {
    let mut out = vec![];
    for _ in 0..s.small(6) { decl(s, &mut out); }
    if s.chance(1, 2) { for x in out.iter_mut() { if s.chance(1, 12) { x.docs = vec![doc_text(s)]; } } }
    out
}

#[derive(Clone, Debug, PartialEq)]
pub enum Lx { Tok(String), Comment(String) }
/// an independent lexer of schema text; None if it is not made of tokens
pub fn lex(text: &str) -> Option<Vec<Lx>> {
    let c: Vec<char> = text.chars().collect();
    let (mut i, mut out) = (0, vec![]);
    while i < c.len() {
        let x = c[i];
        let at = i;
        if x.is_ascii_whitespace() { i += 1; continue; }
        if x == '/' && c.get(i + 1) == Some(&'/') {
            while i < c.len() && c[i] != '\n' { i += 1; }
            out.push(Lx::Comment(c[at..i].iter().collect::<String>().trim_end().to_string()));
            continue;
        }
        if x == '"' || x == '\'' {
            i += 1;
            while i < c.len() && c[i] != x { i += if c[i] == '\\' { 2 } else { 1 }; }
            if i >= c.len() { return None; }
            i += 1;
        } else if x.is_ascii_digit() || (x == '.' && c.get(i + 1).is_some_and(|d| d.is_ascii_digit())) {
            let hex = x == '0' && matches!(c.get(i + 1), Some('x' | 'X'));
            i += 1;
            while i < c.len() {
                let e = if hex { matches!(c[i], 'p' | 'P') } else { matches!(c[i], 'e' | 'E') };
                if c[i].is_ascii_alphanumeric() || c[i] == '_' || c[i] == '.' { i += 1; } else { break; }
                if e && i < c.len() && matches!(c[i], '+' | '-') { i += 1; }
            }
        } else if x.is_ascii_alphabetic() || x == '_' {
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') { i += 1; }
        } else if "+-;:.,={}[]()".contains(x) { i += 1; } else { return None; }
        out.push(Lx::Tok(c[at..i].iter().collect()));
    }
    Some(out)
}
/// tokens without the commas that close a list or an attribute list
pub fn essence(l: &[Lx]) -> Vec<String> {
    let t: Vec<&String> = l.iter().filter_map(|x| match x { Lx::Tok(t) => Some(t), _ => None }).collect();
    (0..t.len()).filter(|i| !(t[*i] == "," && i + 1 < t.len() && (t[i + 1] == "]" || t[i + 1] == ")"))).map(|i| t[i].clone()).collect()
}
pub fn comments(l: &[Lx], docs_only: bool) -> Vec<String> {
    l.iter().filter_map(|x| match x { Lx::Comment(t) if !docs_only || t.starts_with("///") || t.starts_with("//!") => Some(t.clone()), _ => None }).collect()
}
