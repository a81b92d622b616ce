//! C15: Radiance HDR
use crate::util::{eopts, nef};
use pbt::{check, fail, first_diff, Ctx, Res, Src};
use std::collections::{BTreeMap, HashMap};
use zune_core::bit_depth::BitDepth;
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_hdr::{HdrDecoder, HdrEncoder};

pub struct Hdr {
    pub file: Vec<u8>,
    pub w: usize,
    pub h: usize,
    pub want: Vec<f32>,
    pub attrs: BTreeMap<String, String>,
    pub about: String
}

pub fn value(p: [u8; 4]) -> [f32; 3] {
    if p[3] == 0 {
        return [0.; 3];
    }
    let sc = 2f64.powi(p[3] as i32 - 136);
    [0, 1, 2].map(|i| (p[i] as f64 * sc) as f32)
}

fn key(s: &mut Src) -> String {
    let k = s.pick(&["EXPOSURE", "GAMMA", "SOFTWARE", "PRIMARIES", "view", "x", "COLORCORR", "key with space", "日本"]);
    k.to_string()
}

fn val(s: &mut Src) -> String {
    let n = s.usize(0, 12);
    let mut v = String::new();
    for _ in 0..n {
        v.push(s.pick(&['1', '.', 'a', ' ', '=', 'Z', '-', '#', 'é']));
    }
    if s.chance(1, 20) {
        v = "v".repeat(s.usize(100, 3000));
    }
    v.trim().to_string()
}

fn attrs(s: &mut Src, v: &mut Vec<u8>) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    m.insert("FORMAT".to_string(), "32-bit_rle_rgbe".to_string());
    let mut first = vec![];
    for _ in 0..s.below(5) {
        match s.below(4) {
            0 => first.extend(b"# a comment = 3\n"),
            1 => first.extend(b"pfilt -1 -e 2\n"),
            _ => {
                let (k, x) = (key(s), val(s));
                let sp = s.pick(&["=", "=", " = "]);
                first.extend(format!("{k}{sp}{x}\n").bytes());
                m.insert(k, x);
            }
        }
    }
    if s.bool() {
        v.extend(b"FORMAT=32-bit_rle_rgbe\n");
        v.extend(first);
    } else {
        v.extend(first);
        v.extend(b"FORMAT=32-bit_rle_rgbe\n");
    }
    v.push(b'\n');
    m
}

/// one component of a new-style scanline
fn rle(s: &mut Src, r: &mut pbt::Rng, line: &[u8], v: &mut Vec<u8>) {
    let mode = s.below(4);
    let mut i = 0;
    while i < line.len() {
        let run = line[i..].iter().take_while(|x| **x == line[i]).count().min(127);
        if run >= 2 && mode != 0 && (mode != 3 || r.below(2) == 0) {
            let n = if mode == 2 { 1 + r.below(run as u64) as usize } else { run };
            v.push(128 + n as u8);
            v.push(line[i]);
            i += n;
        } else {
            let max = 128.min(line.len() - i);
            let n = if mode == 2 { 1 + r.below(max as u64) as usize } else { max.min(if mode == 0 { 128 } else { 1 + r.below(20) as usize }) };
            v.push(n as u8);
            v.extend(&line[i..i + n]);
            i += n;
        }
    }
}

/// old-style runs
fn old(r: &mut pbt::Rng, line: &[[u8; 4]], v: &mut Vec<u8>) {
    let mut i = 0;
    while i < line.len() {
        v.extend(line[i]);
        let mut n = line[i + 1..].iter().take_while(|x| **x == line[i]).count();
        i += 1;
        if n > 0 && r.below(4) != 0 {
            n = if r.below(3) == 0 { 1 + r.below(n as u64) as usize } else { n };
            let mut k = n;
            while k > 0 {
                v.extend([1, 1, 1, k as u8]);
                k >>= 8;
            }
            i += n;
        }
    }
}

pub fn file(s: &mut Src, max: usize) -> Hdr {
    let wide = s.chance(1, 400);
    let (w, h) = if wide { (s.pick(&[32766usize, 32767, 32768, 33000]), s.usize(1, 2)) } else { (s.dim(max), s.dim(max)) };
    let mut v = if s.bool() { b"#?RADIANCE\n".to_vec() } else { b"#?RGBE\n".to_vec() };
    let attrs = attrs(s, &mut v);
    let xmaj = s.chance(1, 6) && !wide;
    let (len, count) = if xmaj { (h, w) } else { (w, h) };
    if xmaj {
        v.extend(format!("+X {w} -Y {h}\n").bytes());
    } else {
        v.extend(format!("-Y {h} +X {w}\n").bytes());
    }
    // mostly normalised pixels
    let raw = s.data(w * h * 4);
    let mut px: Vec<[u8; 4]> = raw.chunks_exact(4).map(|c| [c[0], c[1], c[2], c[3]]).collect();
    let full = s.bool();
    let flat_exp = s.chance(1, 3);
    let mut r = s.rng();
    for p in px.iter_mut() {
        if !full {
            p[3] = 128u8.wrapping_add(p[3] % 24).wrapping_sub(12);
        }
        if flat_exp {
            p[3] = 129;
        }
        if p[3] == 0 {
            *p = [0; 4];
        } else if p[0].max(p[1]).max(p[2]) < 128 {
            p[r.below(3) as usize] |= 128;
        }
    }
    let style = s.below(4);
    let mut about = format!("{w}x{h}{}", if xmaj { " columns" } else { "" });
    for line in px.chunks_exact_mut(len) {
        let st = if style == 3 { s.below(3) } else { style };
        if st == 0 && (8..=0x7fff).contains(&len) {
            v.extend([2, 2, (len >> 8) as u8, len as u8]);
            for k in 0..4 {
                let l: Vec<u8> = line.iter().map(|p| p[k]).collect();
                rle(s, &mut r, &l, &mut v);
            }
            about.push('n');
        } else {
            if s.chance(1, 4) && line[0][3] != 0 {
                // looks like the start of a new-style line
                line[0] = s.pick(&[[2, 130, 1, 128], [2, 2, 200, 3], [2, 1, 129, 2]]);
            }
            if st == 1 {
                old(&mut r, line, &mut v);
                about.push('o');
            } else {
                for p in line.iter() {
                    v.extend(p);
                }
                about.push('f');
            }
        }
    }
    about.truncate(40);
    let vals: Vec<[f32; 3]> = px.iter().map(|p| value(*p)).collect();
    let mut want = vec![0.0; w * h * 3];
    for (i, p) in vals.iter().enumerate() {
        let at = if xmaj { (i % len) * w + i / len } else { i };
        want[at * 3..at * 3 + 3].copy_from_slice(p);
    }
    let _ = count;
    Hdr { file: v, w, h, want, attrs, about }
}

pub fn decode(s: &mut Src, c: &mut Ctx) -> Res {
    let p = file(s, 60);
    c.note(p.about.clone());
    c.label(p.about.chars().last().unwrap_or(' ').to_string());
    if p.w * p.h > 4 {
        c.nontrivial();
    }
    c.artifact("input.hdr", &p.file);
    let mut d = HdrDecoder::new_with_options(ZCursor::new(&p.file), opts());
    if s.bool() {
        if let Err(e) = d.decode_headers() {
            return fail("valid header rejected", format!("{e:?}"));
        }
        check!(d.output_buffer_size() == Some(p.want.len()), "output_buffer_size wrong", "{:?}", d.output_buffer_size());
    }
    let got = match d.decode() {
        Ok(v) => v,
        Err(e) => return fail("valid file rejected", format!("{e:?}"))
    };
    check!(d.dimensions() == Some((p.w, p.h)), "wrong dimensions", "{:?}", d.dimensions());
    check!(d.get_colorspace() == Some(ColorSpace::RGB), "wrong colourspace", "");
    check!(nef(&got) == nef(&p.want), "wrong values", "{:?}", first_diff(&got, &p.want));
    let md = d.metadata();
    check!(*md == p.attrs, "wrong attributes", "{md:?} instead of {:?}", p.attrs);
    let cut = s.usize(0, p.file.len() - 1);
    let cut = if s.bool() { p.file.len() - 1 } else { cut };
    check!(HdrDecoder::new_with_options(ZCursor::new(&p.file[..cut]), opts()).decode().is_err(), "truncated file accepted", "{cut} of {} bytes", p.file.len());
    Ok(())
}

fn floats(s: &mut Src, n: usize) -> Vec<f32> {
    let kind = s.below(5);
    let base = s.dataf(n);
    let mut r = s.rng();
    base.iter()
        .map(|x| match kind {
            0 => *x,
            1 => x * 1e-3,
            2 => (x + 0.5) * 2f32.powi(r.below(200) as i32 - 100),
            3 => 2f32.powi(r.below(40) as i32 - 20) * [1.0, 0.999_999_9, 1.000_000_1][r.below(3) as usize],
            _ => [0.0, 1.0, 0.5, 0.25, 1e-30, 1e-33, 1e30, *x][r.below(8) as usize]
        })
        .collect()
}

/// strict reader of the new-style and flat lines the encoder writes
fn strict(f: &[u8], w: usize, h: usize) -> Result<Vec<[u8; 4]>, String> {
    let e = f.windows(2).position(|x| x == b"\n\n").ok_or("no blank line")? + 2;
    let res = format!("-Y {h} +X {w}\n");
    if !f[e..].starts_with(res.as_bytes()) {
        return Err("resolution line".into());
    }
    let mut p = e + res.len();
    let mut out = vec![[0u8; 4]; w * h];
    let get = |p: usize| f.get(p).copied().ok_or("data ends early".to_string());
    for y in 0..h {
        if (8..=0x7fff).contains(&w) {
            if f.get(p..p + 4) != Some(&[2, 2, (w >> 8) as u8, w as u8][..]) {
                return Err(format!("line marker of line {y}"));
            }
            p += 4;
            for k in 0..4 {
                let mut x = 0;
                while x < w {
                    let c = get(p)? as usize;
                    p += 1;
                    let n = if c > 128 { c - 128 } else { c };
                    if n == 0 || x + n > w {
                        return Err(format!("count {c} at {x} of {w}"));
                    }
                    for i in 0..n {
                        out[y * w + x + i][k] = get(p)?;
                        if c <= 128 {
                            p += 1;
                        }
                    }
                    if c > 128 {
                        p += 1;
                    }
                    x += n;
                }
            }
        } else {
            for x in 0..w {
                for k in 0..4 {
                    out[y * w + x][k] = get(p)?;
                    p += 1;
                }
            }
        }
    }
    if p != f.len() {
        return Err(format!("{} extra bytes", f.len() - p));
    }
    Ok(out)
}

pub fn encode(s: &mut Src, c: &mut Ctx) -> Res {
    let wide = s.chance(1, 300);
    let (w, h) = if wide { (s.pick(&[32766usize, 32767, 32768]), 1) } else { (s.dim(140), s.dim(20)) };
    let px = floats(s, w * h * 3);
    c.note(format!("{w}x{h}"));
    c.artifact("pixels.f32", &nef(&px));
    if w * h > 1 {
        c.nontrivial();
    }
    let mut hd = HashMap::new();
    for _ in 0..s.below(4) {
        hd.insert(key(s), val(s));
    }
    let mut e = HdrEncoder::new(&px, eopts(w, h, ColorSpace::RGB, BitDepth::Float32));
    if !hd.is_empty() {
        e.add_headers(&hd);
    }
    let mut out = vec![];
    match e.encode(&mut out) {
        Ok(n) => check!(n == out.len(), "returned size is not the number of bytes written", "{n} {}", out.len()),
        Err(e) => return fail("encoder failed", format!("{e:?}"))
    }
    c.artifact("output.hdr", &out);
    let st = match strict(&out, w, h) {
        Ok(v) => v,
        Err(m) => return fail("file not conforming", m)
    };
    let mut d = HdrDecoder::new_with_options(ZCursor::new(&out), opts());
    let got = match d.decode() {
        Ok(v) => v,
        Err(e) => return fail("own output rejected", format!("{e:?}"))
    };
    check!(d.dimensions() == Some((w, h)), "dimensions differ", "{:?}", d.dimensions());
    for (k, v) in &hd {
        check!(d.metadata().get(k) == Some(v), "header lost", "{k}={v}: {:?}", d.metadata().get(k));
    }
    for (i, ((a, b), q)) in px.chunks_exact(3).zip(got.chunks_exact(3)).zip(&st).enumerate() {
        let m = a[0].max(a[1]).max(a[2]) as f64;
        let tol = (m / 127.5).max(1e-32);
        let sv = value(*q);
        for k in 0..3 {
            check!((a[k] as f64 - b[k] as f64).abs() <= tol, "component not restored", "pixel {i} component {k}: {a:?} became {b:?}");
            check!((a[k] as f64 - sv[k] as f64).abs() <= tol, "reference reader: component not restored", "pixel {i} component {k}: {a:?} became {sv:?}");
        }
    }
    Ok(())
}

fn opts() -> zune_core::options::DecoderOptions {
    zune_core::options::DecoderOptions::default().set_max_width(40_000).set_max_height(40_000)
}
