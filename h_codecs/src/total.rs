//! C03: totality of the simple formats
use crate::dec::{self, Fmt, Way, SIX};
use models::io::Slow;
use models::mutate;
use pbt::{check, Ctx, Res, Src};
use std::io::{BufReader, Cursor};
use std::sync::OnceLock;
use zune_core::bytestream::ZCursor;

fn corpus(f: Fmt) -> &'static Vec<Vec<u8>> {
    static S: OnceLock<Vec<Vec<Vec<u8>>>> = OnceLock::new();
    let all = S.get_or_init(|| {
        ["bmp", "qoi", "ppm", "farbfeld", "hdr", "psd"].iter().map(|d| models::io::seeds(&format!("/repo/test-images/{d}"), 30_000)).collect()
    });
    &all[SIX.iter().position(|x| *x == f).unwrap()]
}

const WORDS: &[&str] = &[
    "P5", "P6", "P7", "PF", "Pf", "P4", "WIDTH", "HEIGHT", "DEPTH", "MAXVAL", "TUPLTYPE", "RGB", "RGB_ALPHA", "GRAYSCALE", "GRAYSCALE_ALPHA", "BLACKANDWHITE", "ENDHDR", "\n", " ", "\t", "\r", "#", "# x\n",
    "-1.0", "1.0", "1e99", "nan", "inf", "0", "255", "256", "65535", "65536", "4294967296", "18446744073709551616", "-", "+", "-Y ", "+Y ", "+X ", "-X ", "#?RADIANCE\n", "#?RGBE\n", "FORMAT=32-bit_rle_rgbe\n", "EXPOSURE=",
    "=", "\n\n", "\0", "qoif", "farbfeld", "8BPS", "BM"
];

fn number(s: &mut Src) -> u32 {
    s.pick(&[0u32, 1, 2, 3, 4, 7, 8, 12, 16, 31, 32, 33, 40, 52, 56, 64, 108, 124, 127, 128, 255, 256, 1000, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0xffff_fff0, 1 << 20, 1 << 14])
}

/// writes a number over one of the header fields
fn field(s: &mut Src, f: Fmt, d: &mut Vec<u8>) {
    let (places, be): (&[(usize, usize)], bool) = match f {
        Fmt::Bmp => (&[(2, 4), (10, 4), (14, 4), (18, 4), (22, 4), (18, 2), (20, 2), (22, 2), (24, 2), (26, 2), (28, 2), (30, 4), (34, 4), (46, 4), (50, 4), (54, 4), (58, 4), (62, 4), (66, 4), (70, 4), (122, 4), (126, 4), (130, 4)], false),
        Fmt::Qoi => (&[(4, 4), (8, 4), (12, 1), (13, 1)], true),
        Fmt::Ff => (&[(8, 4), (12, 4)], true),
        Fmt::Psd => (&[(4, 2), (12, 2), (14, 4), (18, 4), (22, 2), (24, 2), (26, 4), (30, 4), (34, 4), (38, 2)], true),
        _ => (&[], true)
    };
    if places.is_empty() {
        // a number or word in a text header
        let end = d.len().min(120);
        if end == 0 {
            return;
        }
        let p = s.usize(0, end);
        let w = s.pick(WORDS).as_bytes().to_vec();
        let cut = if s.bool() { 0 } else { s.usize(0, 6).min(d.len() - p) };
        d.splice(p..p + cut, w);
        return;
    }
    let (p, n) = s.pick(places);
    let v = number(s);
    let b = if be { v.to_be_bytes()[4 - n..].to_vec() } else { v.to_le_bytes()[..n].to_vec() };
    for (i, x) in b.into_iter().enumerate() {
        if p + i < d.len() {
            d[p + i] = x;
        }
    }
}

/// a header followed by noise
fn noise(s: &mut Src, f: Fmt) -> Vec<u8> {
    let mut v: Vec<u8> = vec![];
    match f {
        Fmt::Pnm | Fmt::Hdr => {
            v.extend(if f == Fmt::Hdr { &b"#?RADIANCE\n"[..] } else { s.pick(&[&b"P5"[..], b"P6", b"P7\n", b"PF", b"Pf"]) });
            for _ in 0..s.usize(0, 20) {
                v.extend(s.pick(WORDS).as_bytes());
                if s.bool() {
                    v.push(s.pick(&[b' ', b'\n']));
                }
                if s.chance(1, 3) {
                    v.extend(s.usize(0, 300).to_string().bytes());
                }
            }
        }
        _ => {
            v = dec::valid(s, f, 8);
            v.truncate(s.usize(4, 60));
            for _ in 0..s.usize(1, 5) {
                field(s, f, &mut v);
            }
        }
    }
    let n = s.usize(0, 400);
    v.extend(s.data(n));
    v
}

pub fn input(s: &mut Src, f: Fmt) -> Vec<u8> {
    let mut d = match s.below(8) {
        0 => noise(s, f),
        1 => {
            let c = corpus(f);
            if c.is_empty() {
                noise(s, f)
            } else {
                c[s.usize(0, c.len() - 1)].clone()
            }
        }
        2 => {
            // two files glued
            let mut a = dec::valid(s, f, 20);
            let b = dec::valid(s, f, 20);
            let p = s.usize(0, a.len());
            let q = s.usize(0, b.len());
            a.truncate(p);
            a.extend(&b[q..]);
            a
        }
        _ => {
            let max = s.pick(&[3usize, 12, 40]);
            dec::valid(s, f, max)
        }
    };
    if s.chance(2, 3) {
        for _ in 0..s.usize(1, 3) {
            field(s, f, &mut d);
        }
    }
    if s.chance(2, 3) {
        mutate::edits(s, &mut d, 5);
    }
    d
}

pub fn total(s: &mut Src, c: &mut Ctx) -> Res {
    let f = s.pick(&SIX);
    let d = input(s, f);
    let mut o = dec::options(s);
    let (mw, mh) = if s.chance(1, 8) { (s.usize(0, 64), s.usize(0, 64)) } else { s.pick(&[(512usize, 512usize), (128, 128), (4096, 64), (64, 4096)]) };
    o = o.set_max_width(mw).set_max_height(mh);
    c.artifact("input.bin", &d);
    c.note(format!("{f:?} {} bytes strict {} limits {mw}x{mh}", d.len(), o.strict_mode()));
    let way = match s.below(5) {
        0 | 1 => Way::Decode,
        2 => Way::Headers,
        3 => Way::Into(s.pick(&[0isize, -1, 1, 100, -100])),
        _ => Way::Blind(s.usize(0, 3000))
    };
    let kind = s.below(6);
    let step = s.usize(1, 64);
    pbt::mem::reset();
    let r = match kind {
        0 | 1 => dec::run(f, ZCursor::new(&d), o, way),
        2 => dec::run(f, BufReader::with_capacity(step, Cursor::new(&d)), o, way),
        3 => dec::run(f, Slow::new(&d, step), o, way),
        4 => {
            if let Ok(i) = zune_image::image::Image::read(ZCursor::new(&d), o) {
                c.label("image decodes");
                c.nontrivial();
                let (w, h) = i.dimensions();
                check!(w <= mw && h <= mh, "dimension limits ignored", "{w}x{h}");
                let _ = i.flatten_to_u8();
            }
            Err("-".into())
        }
        _ => {
            // every decoder must cope with every other format
            let g = s.pick(&SIX);
            dec::run(g, ZCursor::new(&d), o, way)
        }
    };
    match &r {
        Ok(x) => {
            c.nontrivial();
            c.label(format!("{f:?} decodes"));
            check!(x.after.w <= mw && x.after.h <= mh, "dimension limits ignored", "{}x{}", x.after.w, x.after.h);
        }
        Err(e) => {
            if !e.starts_with("headers") {
                c.nontrivial();
            }
        }
    }
    let peak = pbt::mem::peak();
    let bound = (if f == Fmt::Bmp { 44 << 20 } else { 2 << 20 }) + 64 * (mw * mh) as u64 + 40 * d.len() as u64;
    check!(peak <= bound, "memory beyond the configured limits", "{peak} bytes at the peak, bound {bound}");
    Ok(())
}

/// default limits, only the in-memory reader
pub fn defaults(s: &mut Src, c: &mut Ctx) -> Res {
    let f = s.pick(&SIX);
    let d = input(s, f);
    c.artifact("input.bin", &d);
    c.note(format!("{f:?} {} bytes default limits", d.len()));
    // avoid pictures that are merely large
    let o = dec::options(s);
    let small = o.set_max_width(2000).set_max_height(2000);
    let h = dec::run(f, ZCursor::new(&d), small, Way::Into(-1_000_000_000));
    let o = if h.is_ok() || h.as_ref().is_err_and(|e| !e.starts_with("headers")) { o } else { o.set_max_width(usize::MAX).set_max_height(usize::MAX) };
    if o.max_width() == usize::MAX {
        // headers only: no pixel memory
        c.label("unlimited headers");
        pbt::mem::reset();
        let r = dec::run_headers(f, ZCursor::new(&d), o);
        if r {
            c.nontrivial();
        }
        let peak = pbt::mem::peak();
        check!(peak <= (if f == Fmt::Bmp { 44 << 20 } else { 4 << 20 }) + 40 * d.len() as u64, "headers use memory", "{peak}");
    } else {
        c.nontrivial();
        let _ = dec::run(f, ZCursor::new(&d), o, s.pick(&[Way::Decode, Way::Headers, Way::Into(0)]));
    }
    Ok(())
}
