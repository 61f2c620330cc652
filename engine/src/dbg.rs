//! Source positions from debug metadata.
use crate::ir::Module;
use std::collections::BTreeSet;

fn field<'a>(s: &'a str, k: &str) -> Option<&'a str> {
    // ", key: " or "(key: "
    let mut from = 0;
    while let Some(p) = s[from..].find(k) {
        let p = p + from;
        let before = s[..p].chars().last();
        if matches!(before, Some(' ') | Some('(')) && s[p + k.len()..].starts_with(": ") {
            let r = &s[p + k.len() + 2..];
            if let Some(q) = r.strip_prefix('"') {
                return q.split('"').next();
            }
            return r.split([',', ')']).next();
        }
        from = p + k.len();
    }
    None
}
fn reff(s: &str, k: &str) -> Option<u32> {
    field(s, k)?.strip_prefix('!')?.parse().ok()
}

fn sub(m: &Module, mut id: u32) -> Option<&'static str> {
    for _ in 0..64 {
        let s = *m.meta.get(&id)?;
        if s.contains("DISubprogram(") {
            return Some(s);
        }
        id = reff(s, "scope")?;
    }
    None
}
fn file(m: &Module, mut id: u32) -> Option<String> {
    for _ in 0..64 {
        let s = *m.meta.get(&id)?;
        if let Some(f) = reff(s, "file") {
            let fs = *m.meta.get(&f)?;
            let n = field(fs, "filename")?;
            let d = field(fs, "directory").unwrap_or("");
            return Some(if n.starts_with('/') || d.is_empty() { n.to_string() } else { format!("{d}/{n}") });
        }
        id = reff(s, "scope")?;
    }
    None
}

pub fn loc(m: &Module, mut id: u32) -> String {
    // innermost position inside the repository or the harness, else the innermost one
    let mut first = None;
    for _ in 0..64 {
        let Some(s) = m.meta.get(&id) else { break };
        let line = field(s, "line").unwrap_or("0");
        let f = reff(s, "scope").and_then(|x| file(m, x)).unwrap_or_default();
        let p = format!("{f}:{line}");
        if f.starts_with("/repo/") || f.contains("/harness/") {
            return p;
        }
        first.get_or_insert(p);
        match reff(s, "inlinedAt") {
            Some(i) => id = i,
            None => break,
        }
    }
    first.unwrap_or_default()
}

pub fn cover(m: &Module, mut id: u32, lines: &mut BTreeSet<String>, funcs: &mut BTreeSet<String>) {
    for _ in 0..64 {
        let Some(s) = m.meta.get(&id) else { break };
        if let Some(sc) = reff(s, "scope") {
            let f = file(m, sc).unwrap_or_default();
            if let Some(rel) = f.strip_prefix("/repo/") {
                let line = field(s, "line").unwrap_or("0");
                lines.insert(format!("{rel}:{line}"));
                if let Some(sp) = sub(m, sc) {
                    if let Some(n) = field(sp, "linkageName").or_else(|| field(sp, "name")) {
                        funcs.insert(short(n));
                    }
                }
            }
        }
        match reff(s, "inlinedAt") {
            Some(i) => id = i,
            None => break,
        }
    }
}
pub fn cover_fn(m: &Module, id: u32, funcs: &mut BTreeSet<String>) {
    if let Some(f) = file(m, id) {
        if f.starts_with("/repo/") {
            if let Some(sp) = sub(m, id) {
                if let Some(n) = field(sp, "linkageName").or_else(|| field(sp, "name")) {
                    funcs.insert(short(n));
                }
            }
        }
    }
}

/// Readable path out of a v0-mangled name: its identifiers, without disambiguators.
pub fn short(n: &str) -> String {
    let Some(r) = n.strip_prefix("_R") else { return n.to_string() };
    let b = r.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b's' || b[i] == b'B' {
            // disambiguator s<base62>_ or back reference B<base62>_
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() {
            let mut k = 0usize;
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() && k < 10000 {
                k = k * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if k > 0 && j + k <= b.len() {
                let w = &r[j..j + k];
                if w.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') {
                    out.push(w.to_string());
                    i = j + k;
                    continue;
                }
            }
            i = j.max(i + 1);
            continue;
        }
        i += 1;
    }
    let p = out.iter().position(|x| x == "rust_raknet").unwrap_or(0);
    out[p..].iter().take(4).cloned().collect::<Vec<_>>().join("::")
}
