//! zil.h against the library
use pbt::{check, Ctx, Res, Src};
use std::collections::BTreeMap;
use std::sync::OnceLock;

pub struct Header {
    pub values: BTreeMap<String, u32>,
    pub functions: Vec<String>,
}

fn strip(t: &str) -> String {
    let mut out = String::new();
    let mut rest = t;
    while let Some(i) = rest.find("/*") {
        out += &rest[..i];
        rest = rest[i..].split_once("*/").map(|x| x.1).unwrap_or("");
    }
    out += rest;
    out.lines().map(|l| l.split("//").next().unwrap()).collect::<Vec<_>>().join("\n")
}

pub fn get() -> &'static Header {
    static H: OnceLock<Header> = OnceLock::new();
    H.get_or_init(|| {
        let t = strip(&std::fs::read_to_string("/repo/crates/zune-capi/include/zil.h").expect("zil.h"));
        let mut values = BTreeMap::new();
        for body in t.split("enum ").skip(1).filter_map(|x| x.split_once('{').filter(|y| !y.0.contains(';') && !y.0.contains('(')).and_then(|y| y.1.split_once('}')).map(|y| y.0)) {
            let mut next = 0;
            for item in body.split(',').map(|x| x.trim()).filter(|x| !x.is_empty() && !x.contains('#')) {
                let (n, v) = match item.split_once('=') {
                    Some((n, v)) => (n.trim(), v.trim().parse().expect(item)),
                    None => (item, next),
                };
                values.insert(n.to_string(), v);
                next = v + 1;
            }
        }
        let mut functions = vec![];
        let b = t.as_bytes();
        for (i, _) in t.match_indices("zil_") {
            if i > 0 && (b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_') {
                continue;
            }
            let n: String = t[i..].chars().take_while(|c| c.is_ascii_alphanumeric() || *c == '_').collect();
            if t[i + n.len()..].trim_start().starts_with('(') {
                functions.push(n);
            }
        }
        Header { values, functions }
    })
}

pub fn value(name: &str) -> u32 {
    // the states of a ZStatus are listed with or without their prefix
    let v = &get().values;
    *v.get(name).or_else(|| v.get(name.strip_prefix("Zil").unwrap_or(name))).unwrap_or_else(|| panic!("{name} is not in zil.h"))
}

pub fn header(s: &mut Src, c: &mut Ctx) -> Res {
    let h = get();
    check!(h.functions.len() > 40 && h.values.len() > 30, "zil.h can't be read", "{} functions, {} values", h.functions.len(), h.values.len());
    let k = s.usize(0, h.functions.len() - 1);
    c.nontrivial();
    // the one drawn and every other
    for f in h.functions.iter().skip(k).chain(&h.functions) {
        let n = std::ffi::CString::new(f.as_str()).unwrap();
        let p = unsafe { libc::dlsym(std::ptr::null_mut(), n.as_ptr()) };
        check!(!p.is_null(), &format!("zil.h declares {f}, which the library does not export"), "{f}");
    }
    Ok(())
}
