//! C19: decoder entry points agree; C20: readers, sinks and faults
use crate::dec::{self, Fmt, Out, Way, ALL};
use crate::jxl;
use crate::util::{ne16, nef};
use models::io::{Sink, Slow};
use models::{mutate, png as mp};
use pbt::{check, fail, first_diff, Ctx, Res, Src};
use std::io::{BufReader, BufWriter, Cursor};
use zune_core::bit_depth::BitDepth;
use zune_core::bytestream::{ZByteWriterTrait, ZCursor};
use zune_core::colorspace::ColorSpace;
use zune_core::options::EncoderOptions;

fn unit(f: Fmt) -> usize {
    match f {
        Fmt::Ff => 2, // announced in bytes, see dec.rs
        Fmt::Hdr => 4,
        _ => 1
    }
}

fn input(s: &mut Src, f: Fmt, broken: bool) -> Vec<u8> {
    let max = s.pick(&[6usize, 20, 70]);
    let mut d = dec::valid(s, f, max);
    if broken {
        mutate::edits(s, &mut d, 3);
    }
    d
}

/// C19
pub fn agree(s: &mut Src, c: &mut Ctx) -> Res {
    let f = s.pick(&ALL);
    let broken = s.chance(1, 4);
    let d = input(s, f, broken);
    let o = dec::options(s).set_max_width(33_000).set_max_height(2000);
    c.note(format!("{f:?} {} bytes{}", d.len(), if broken { " damaged" } else { "" }));
    c.artifact("input.bin", &d);
    let direct = dec::run(f, ZCursor::new(&d), o, Way::Decode);
    let headers = dec::run(f, ZCursor::new(&d), o, Way::Headers);
    if !broken && direct.is_err() {
        if f == Fmt::Jpeg {
            // some output colourspaces are refused
            c.label("colourspace refused");
        } else {
            return fail("valid file rejected", format!("{:?}", direct.err()));
        }
    }
    check!(direct.is_ok() == headers.is_ok(), "decode and headers-then-decode disagree", "{:?} against {:?}", direct.as_ref().err(), headers.as_ref().err());
    let n = s.pick(&[0usize, 1, 7, 1000]);
    let into = dec::run(f, ZCursor::new(&d), o, Way::Into(n as isize));
    check!(direct.is_ok() == into.is_ok(), "decode and decode_into disagree", "{:?} against {:?}", direct.as_ref().err(), into.as_ref().err());
    let (Ok(a), Ok(b), Ok(i)) = (direct, headers, into) else {
        c.label(format!("{f:?} rejected"));
        return Ok(());
    };
    c.nontrivial();
    c.label(format!("{f:?} decoded"));
    let same = |x: &Out, y: &Out, what: &str| -> Res {
        check!((x.after.w, x.after.h, x.after.cs, x.after.depth) == (y.after.w, y.after.h, y.after.cs, y.after.depth), &format!("{what}: descriptions differ"), "{:?} against {:?}", x.after, y.after);
        check!(x.px == y.px, &format!("{what}: pixels differ"), "{:?}", first_diff(&x.px, &y.px));
        Ok(())
    };
    same(&a, &b, "headers-then-decode")?;
    same(&a, &i, "decode_into")?;
    check!(!i.overrun, "decode_into writes outside the announced region", "{n} extra samples");
    let hb = b.before.clone().unwrap();
    check!(hb == b.after, "description changes while decoding", "{hb:?} against {:?}", b.after);
    let (cs, depth) = (a.after.cs, a.after.depth);
    check!(cs.is_some() && depth.is_some(), "incomplete description", "{:?}", a.after);
    check!(a.px.len() == a.after.w * a.after.h * cs.unwrap().num_components() * depth.unwrap().size_of(), "pixels do not fit the description", "{} bytes, {:?}", a.px.len(), a.after);
    if f != Fmt::Pnm && f != Fmt::Psd {
        let size = hb.size;
        check!(size == Some(a.px.len() / unit(f)), "announced buffer size is wrong", "{size:?}, {} bytes decoded", a.px.len());
        let k = s.usize(1, size.unwrap());
        for k in [1, k] {
            let r = dec::run(f, ZCursor::new(&d), o, Way::Into(-(k as isize)));
            check!(r.is_err(), "buffer too small accepted", "{k} samples missing of {size:?}");
        }
        let bl = dec::run(f, ZCursor::new(&d), o, Way::Blind(size.unwrap()));
        match bl {
            Ok(x) => same(&a, &x, "decode_into without headers")?,
            Err(e) => return fail("decode_into without headers refused", e)
        }
        let bl = dec::run(f, ZCursor::new(&d), o, Way::Blind(size.unwrap() - k));
        check!(bl.is_err(), "buffer too small accepted without headers", "{k} samples missing of {size:?}");
    }
    Ok(())
}

/// C19: dimensions around the limits
pub fn limits(s: &mut Src, c: &mut Ctx) -> Res {
    let f = s.pick(&ALL);
    let d = input(s, f, false);
    let o = dec::options(s).set_max_width(33_000).set_max_height(2000);
    let Ok(a) = dec::run(f, ZCursor::new(&d), o, Way::Decode) else { return Ok(()) };
    let (w, h) = (a.after.w, a.after.h);
    let near = |s: &mut Src, x: usize| match s.below(4) {
        0 => x,
        1 => x - 1,
        2 => x + 1,
        _ => s.usize(0, 2 * x)
    };
    let (mw, mh) = (near(s, w), near(s, h));
    let way = s.pick(&[Way::Decode, Way::Headers, Way::Into(0)]);
    c.note(format!("{f:?} {w}x{h} limits {mw}x{mh} {way:?}"));
    c.artifact("input.bin", &d);
    c.nontrivial();
    c.label(format!("{f:?}"));
    let r = dec::run(f, ZCursor::new(&d), o.set_max_width(mw).set_max_height(mh), way);
    check!(r.is_ok() == (w <= mw && h <= mh), "dimension limits not honoured", "{:?}", r.err());
    Ok(())
}

fn huge_file(s: &mut Src, f: Fmt, w: u32, h: u32) -> Vec<u8> {
    match f {
        Fmt::Pnm => {
            let mut v = match s.below(4) {
                0 => format!("P7\nWIDTH {w}\nHEIGHT {h}\nDEPTH 3\nMAXVAL 255\nTUPLTYPE RGB\nENDHDR\n"),
                1 => format!("PF\n{w} {h}\n-1.0\n"),
                2 => format!("P5 {w} {h} 65535\n"),
                _ => format!("P6\n{w} {h}\n255\n")
            }
            .into_bytes();
            v.extend([7; 200]);
            v
        }
        Fmt::Hdr => {
            let mut v = format!("#?RADIANCE\nFORMAT=32-bit_rle_rgbe\n\n-Y {h} +X {w}\n").into_bytes();
            v.extend([7; 200]);
            v
        }
        Fmt::Png => {
            let mut sp = mp::gen_spec(s, 8);
            let mut ch = mp::chunks(s, &sp);
            sp.w = w as usize;
            sp.h = h as usize;
            ch[0] = mp::ihdr(&sp);
            mp::write(&ch)
        }
        Fmt::Jpeg => {
            let mut d = dec::valid(s, f, 20);
            let mut i = 2;
            while i + 9 < d.len() {
                if d[i + 1] == 0xff {
                    i += 1; // fill bytes
                } else if [0xc0, 0xc1, 0xc2].contains(&d[i + 1]) {
                    d[i + 5..i + 7].copy_from_slice(&(h.min(65535) as u16).to_be_bytes());
                    d[i + 7..i + 9].copy_from_slice(&(w.min(65535) as u16).to_be_bytes());
                    break;
                } else {
                    i += 2 + u16::from_be_bytes([d[i + 2], d[i + 3]]) as usize;
                }
            }
            d
        }
        Fmt::Bmp => {
            let mut b = dec::valid(s, f, 8);
            for _ in 0..20 {
                if b[14] < 40 {
                    b = dec::valid(s, f, 8);
                }
            }
            if b[14] < 40 {
                return vec![];
            }
            let neg = i32::from_le_bytes(b[22..26].try_into().unwrap()) < 0;
            b[18..22].copy_from_slice(&w.to_le_bytes());
            b[22..26].copy_from_slice(&(if neg { -(h as i32) } else { h as i32 }).to_le_bytes());
            b
        }
        _ => {
            let mut b = dec::valid(s, f, 8);
            let (p, swap) = match f {
                Fmt::Qoi => (4, false),
                Fmt::Ff => (8, false),
                _ => (14, true)
            };
            let (x, y) = if swap { (h, w) } else { (w, h) };
            b[p..p + 4].copy_from_slice(&x.to_be_bytes());
            b[p + 4..p + 8].copy_from_slice(&y.to_be_bytes());
            b
        }
    }
}

/// C19: pictures far beyond the limits must not cost memory
pub fn huge(s: &mut Src, c: &mut Ctx) -> Res {
    let f = s.pick(&ALL);
    let lim = if f == Fmt::Jpeg { 65536 } else { 1u64 << 31 };
    let a = 3000 + s.below(if f == Fmt::Jpeg { 60_000 } else { 30_000 });
    let b = if s.bool() { 3000 + s.below(30_000) } else { (1 << s.below(31)).min(lim - 1) };
    let (w, h) = if s.bool() { (a, b) } else { (b, a) };
    let (w, h) = (w as u32, h as u32);
    let d = huge_file(s, f, w, h);
    if d.is_empty() {
        return Ok(());
    }
    let o = dec::options(s);
    let big = o.set_max_width(1 << 32).set_max_height(1 << 32);
    let o = match s.below(3) {
        0 => big.set_max_width(w as usize - 1),
        1 => big.set_max_height(h as usize - 1),
        _ => big.set_max_width(s.usize(0, w as usize - 1)).set_max_height(s.usize(0, h as usize - 1))
    };
    c.note(format!("{f:?} {w}x{h} limits {}x{}", o.max_width(), o.max_height()));
    c.artifact("input.bin", &d);
    c.label(format!("{f:?}"));
    c.nontrivial();
    let way = s.pick(&[Way::Decode, Way::Headers, Way::Blind(100)]);
    pbt::mem::reset();
    let r = dec::run(f, ZCursor::new(&d), o, way);
    let peak = pbt::mem::peak();
    check!(r.is_err(), "picture beyond the limits accepted", "");
    check!(peak < (1 << 20) + 4 * d.len() as u64, "memory used before the limits are checked", "{peak} bytes");
    Ok(())
}

fn same(a: &Result<Out, String>, b: &Result<Out, String>) -> Result<(), String> {
    match (a, b) {
        (Ok(x), Ok(y)) => {
            if x.after != y.after {
                return Err(format!("{:?} against {:?}", x.after, y.after));
            }
            match first_diff(&x.px, &y.px) {
                None => Ok(()),
                Some(e) => Err(e)
            }
        }
        (Err(_), Err(_)) => Ok(()),
        (Ok(_), Err(e)) => Err(format!("memory succeeds, reader fails: {e}")),
        (Err(e), Ok(_)) => Err(format!("memory fails, reader succeeds: {e}"))
    }
}

/// C20
pub fn readers(s: &mut Src, c: &mut Ctx) -> Res {
    let f = s.pick(&ALL);
    let broken = s.chance(1, 3);
    let d = input(s, f, broken);
    let o = dec::options(s).set_max_width(33_000).set_max_height(2000);
    let way = s.pick(&[Way::Decode, Way::Headers, Way::Into(0)]);
    c.note(format!("{f:?} {} bytes{} {way:?}", d.len(), if broken { " damaged" } else { "" }));
    c.artifact("input.bin", &d);
    let a = dec::run(f, ZCursor::new(&d), o, way);
    if a.is_ok() {
        c.nontrivial();
    }
    c.label(format!("{f:?}{}", if a.is_ok() { "" } else { " rejected" }));
    let step = s.pick(&[1usize, 2, 3, 5, 8, 13, 64, 500]);
    let cap = s.pick(&[1usize, 2, 3, 16, 100, 8192]);
    let list: [(&str, Result<Out, String>); 4] = [
        ("Cursor", dec::run(f, Cursor::new(&d), o, way)),
        ("BufReader", dec::run(f, BufReader::with_capacity(cap, Cursor::new(&d)), o, way)),
        ("reader in small pieces", dec::run(f, Slow::new(&d, step), o, way)),
        ("buffered reader in small pieces", dec::run(f, BufReader::with_capacity(cap, Slow::new(&d, step)), o, way))
    ];
    for (n, r) in &list {
        if let Err(e) = same(&a, r) {
            return fail(&format!("{n} gives a different result"), format!("step {step} capacity {cap}: {e}"));
        }
    }
    Ok(())
}

/// C20: faults and truncation of the input
pub fn faults(s: &mut Src, c: &mut Ctx) -> Res {
    let f = s.pick(&ALL);
    let d = input(s, f, false);
    let o = dec::options(s).set_max_width(33_000).set_max_height(2000);
    let way = s.pick(&[Way::Decode, Way::Headers, Way::Into(0)]);
    let Ok(clean) = dec::run(f, ZCursor::new(&d), o, way) else { return Ok(()) };
    let strict = o.strict_mode();
    c.artifact("input.bin", &d);
    let step = s.pick(&[1usize, 3, 16, 4096]);
    let kind = s.below(3);
    let (at, r) = match kind {
        0 => {
            let at = s.usize(0, d.len() - 1);
            (at, if s.bool() { dec::run(f, ZCursor::new(&d[..at]), o, way) } else { dec::run(f, Slow::new(&d[..at], step), o, way) })
        }
        1 => {
            let at = s.usize(0, d.len() - 1);
            let mut sl = Slow::new(&d, step);
            sl.bad_at = Some(at as u64);
            (at, if s.bool() { dec::run(f, sl, o, way) } else { dec::run(f, BufReader::with_capacity(step, sl), o, way) })
        }
        _ => {
            // learn how many operations a clean run takes
            let at = if s.bool() { s.usize(0, 40) } else { s.usize(0, d.len() / step + 40) };
            let mut sl = Slow::new(&d, step);
            sl.fuse = Some(at as u64);
            (at, dec::run(f, sl, o, way))
        }
    };
    let what = ["truncated", "bad byte", "failing operations"][kind as usize];
    c.note(format!("{f:?} {} bytes {way:?} strict {strict} {what} at {at} step {step}", d.len()));
    c.label(format!("{f:?} {what} {}", if r.is_ok() { "survives" } else { "error" }));
    c.nontrivial();
    if let Ok(r) = r {
        check!(r.px.len() == clean.px.len() && r.after == clean.after, "incomplete image returned", "{} bytes instead of {}", r.px.len(), clean.px.len());
        check!(!r.overrun, "written outside the region", "");
        // BMP fills missing samples whatever the mode, JPEG and PNG only in lenient mode
        let tolerant = f == Fmt::Bmp || (!strict && matches!(f, Fmt::Jpeg | Fmt::Png));
        // in strict mode the end of a JPEG is still only looked for between rows of MCUs
        if !tolerant && !(f == Fmt::Jpeg && kind == 0) {
            check!(r.px == clean.px, &format!("{f:?}: missing data not reported ({what})"), "{:?}", first_diff(&r.px, &clean.px));
        }
    }
    Ok(())
}

#[derive(Copy, Clone, PartialEq, Debug)]
enum Enc {
    Qoi,
    Ppm,
    Ff,
    Hdr,
    Png,
    Jxl
}

fn encode<W: ZByteWriterTrait>(e: Enc, px: &[u8], fl: &[f32], o: EncoderOptions, w: W) -> Result<usize, String> {
    match e {
        Enc::Qoi => zune_qoi::QoiEncoder::new(px, o).encode(w).map_err(|e| format!("{e:?}")),
        Enc::Ppm => zune_ppm::PPMEncoder::new(px, o).encode(w).map_err(|e| format!("{e:?}")),
        Enc::Ff => zune_farbfeld::FarbFeldEncoder::new(px, o).encode(w).map_err(|e| format!("{e:?}")),
        Enc::Hdr => zune_hdr::HdrEncoder::new(fl, o).encode(w).map_err(|e| format!("{e:?}")),
        Enc::Png => zune_png::PngEncoder::new(px, o).encode(w).map_err(|e| format!("{e:?}")),
        Enc::Jxl => zune_jpegxl::JxlSimpleEncoder::new(px, o).encode(w).map_err(|e| format!("{e:?}"))
    }
}

/// C20: sinks
pub fn sinks(s: &mut Src, c: &mut Ctx) -> Res {
    let e = s.pick(&[Enc::Qoi, Enc::Ppm, Enc::Ff, Enc::Hdr, Enc::Png, Enc::Jxl]);
    let max = if e == Enc::Jxl { 12 } else { s.pick(&[6usize, 40]) };
    let (w, h) = (s.dim(max).max(2), s.dim(max).max(2));
    let (cs, depth) = match e {
        Enc::Qoi => (s.pick(&[ColorSpace::RGB, ColorSpace::RGBA]), BitDepth::Eight),
        Enc::Ff => (ColorSpace::RGBA, BitDepth::Sixteen),
        Enc::Hdr => (ColorSpace::RGB, BitDepth::Float32),
        Enc::Ppm => {
            let d = s.pick(&[BitDepth::Eight, BitDepth::Sixteen]);
            (s.pick(&[ColorSpace::Luma, ColorSpace::LumaA, ColorSpace::RGB, ColorSpace::RGBA]), d)
        }
        _ => (s.pick(&[ColorSpace::Luma, ColorSpace::LumaA, ColorSpace::RGB, ColorSpace::RGBA]), s.pick(&[BitDepth::Eight, BitDepth::Sixteen]))
    };
    let nc = cs.num_components();
    let sa = jxl::samples(s, w, w * h, nc, depth == BitDepth::Sixteen);
    let fl: Vec<f32> = sa.iter().map(|x| *x as f32 / 200.0).collect();
    let px = match depth {
        BitDepth::Eight => sa.iter().map(|x| *x as u8).collect(),
        BitDepth::Sixteen => ne16(&sa),
        _ => nef(&fl)
    };
    let o = EncoderOptions::new(w, h, cs, depth).set_num_threads(s.pick(&[0u8, 1, 4]));
    c.note(format!("{e:?} {w}x{h} {cs:?} {depth:?}"));
    let mut out = vec![];
    let n = match encode(e, &px, &fl, o, &mut out) {
        Ok(n) => n,
        Err(x) => return fail("valid image refused", x)
    };
    c.nontrivial();
    c.artifact("output.bin", &out);
    check!(n == out.len(), "wrong byte count", "{n} reported, {} written", out.len());
    let step = s.pick(&[1usize, 2, 7, 64, 4096]);
    match s.below(5) {
        0 => {
            let mut k = Sink::new(step, None);
            let r = encode(e, &px, &fl, o, &mut k);
            check!(r == Ok(n) && k.data == out, "sink in small pieces gets different bytes", "{r:?} instead of {n}; {:?}", first_diff(&k.data, &out));
            c.label(format!("{e:?} small pieces"));
        }
        1 => {
            let mut k = Cursor::new(vec![0xa5u8; n / 2]);
            let r = encode(e, &px, &fl, o, &mut k);
            check!(r == Ok(n) && k.get_ref()[..] == out[..], "Cursor gets different bytes", "{r:?}; {:?}", first_diff(k.get_ref(), &out));
            c.label(format!("{e:?} cursor"));
        }
        2 => {
            let mut k = Sink::new(step, None);
            let cap = s.pick(&[1usize, 16, 8192]);
            let r = encode(e, &px, &fl, o, &mut BufWriter::with_capacity(cap, &mut k));
            check!(r == Ok(n) && k.data == out, "BufWriter gets different bytes", "{r:?}; {:?}", first_diff(&k.data, &out));
            c.label(format!("{e:?} bufwriter"));
        }
        3 => {
            // a slice: exact, larger, smaller
            let m = match s.below(3) {
                0 => n,
                1 => n + s.usize(1, 50),
                _ => s.usize(0, n - 1)
            };
            let mut b = vec![0xa5u8; m];
            let r = encode(e, &px, &fl, o, &mut b[..]);
            if m >= n {
                check!(r == Ok(n) && b[..n] == out[..] && b[n..].iter().all(|x| *x == 0xa5), "slice gets different bytes", "{r:?} {m} for {n}");
            } else {
                check!(r.is_err(), "short slice accepted", "{r:?}: {m} for {n}");
            }
            c.label(format!("{e:?} slice"));
        }
        _ => {
            let lim = s.usize(0, n - 1);
            let mut k = Sink::new(step, Some(lim));
            let r = encode(e, &px, &fl, o, &mut k);
            check!(r.is_err(), "failing sink not reported", "{e:?}: {r:?}; sink stopped at {lim} of {n}");
            check!(k.data.len() <= lim && out.starts_with(&k.data), "bytes before the fault differ", "{}", k.data.len());
            c.label(format!("{e:?} failing sink"));
        }
    }
    Ok(())
}
