//! C13: PGM, PPM, PAM, PFM
use crate::util::{eopts, ne16, nef};
use pbt::{check, fail, first_diff, Ctx, Res, Src};
use zune_core::bit_depth::BitDepth;
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::DecoderOptions;
use zune_core::result::DecodingResult;
use zune_ppm::{PPMDecoder, PPMEncoder};

pub struct Pnm {
    pub file: Vec<u8>,
    pub w: usize,
    pub h: usize,
    pub cs: ColorSpace,
    pub depth: BitDepth,
    /// native endian samples
    pub want: Vec<u8>,
    pub kind: char
}

fn ws(s: &mut Src, v: &mut Vec<u8>, comments: bool) {
    for _ in 0..s.pick(&[1usize, 1, 1, 2, 3]) {
        v.push(s.pick(&[b'\n', b' ', b'\t', b'\r', b'\x0c']));
    }
    while comments && s.chance(1, 5) {
        v.push(b'#');
        let n = s.usize(0, 12);
        for _ in 0..n {
            v.push(s.pick(&[b'a', b'7', b' ', b'#', b'P', b'\t', 0xff]));
        }
        v.push(s.pick(&[b'\n', b'\n', b'\r']));
        if s.bool() {
            v.push(s.pick(&[b'\n', b' ']));
        }
    }
}

fn num(s: &mut Src, v: &mut Vec<u8>, n: usize) {
    if s.chance(1, 12) {
        v.extend(b"00");
    }
    v.extend(n.to_string().bytes());
}

/// samples limited to maxval
fn samples(s: &mut Src, n: usize, maxval: usize) -> Vec<u16> {
    let mut d = s.data16(n);
    let white = s.chance(1, 3);
    for (i, x) in d.iter_mut().enumerate() {
        *x = (*x as usize % (maxval + 1)) as u16;
        if white && i < 4 {
            // bytes that look like header text
            let b = [b' ', b'\n', b'#', b'\t', b'9'][(*x % 5) as usize] as usize;
            let y = if maxval > 255 { b * 257 } else { b };
            if y <= maxval {
                *x = y as u16;
            }
        }
    }
    d
}

pub fn file(s: &mut Src, max: usize) -> Pnm {
    let (w, h) = (s.dim(max), s.dim(max));
    let kind = s.pick(&['5', '6', '7', '7', 'f', 'F']);
    let mut v = vec![b'P', kind as u8];
    if kind == 'f' || kind == 'F' {
        let nc = if kind == 'f' { 1 } else { 3 };
        ws(s, &mut v, false);
        num(s, &mut v, w);
        ws(s, &mut v, false);
        num(s, &mut v, h);
        ws(s, &mut v, false);
        let le = s.bool();
        if le {
            v.push(b'-');
        }
        v.extend(s.pick(&[&b"1.0"[..], b"1", b"1.000000", b"1e0"]));
        v.push(b'\n');
        let px: Vec<f32> = if s.chance(1, 3) {
            let b = s.data(4 * w * h * nc);
            b.chunks_exact(4).map(|c| f32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect()
        } else {
            s.dataf(w * h * nc)
        };
        for row in px.chunks_exact(w * nc).rev() {
            for x in row {
                v.extend(if le { x.to_le_bytes() } else { x.to_be_bytes() });
            }
        }
        let cs = if nc == 1 { ColorSpace::Luma } else { ColorSpace::RGB };
        return Pnm { file: v, w, h, cs, depth: BitDepth::Float32, want: nef(&px), kind };
    }
    let maxval = match s.below(6) {
        0 | 1 => 255,
        2 => 65535,
        3 => s.usize(1, 65535),
        4 => s.usize(1, 255),
        _ => s.pick(&[1usize, 15, 254, 256, 257, 1023, 4095, 65534])
    };
    let cs;
    if kind == '7' {
        cs = s.pick(&[ColorSpace::Luma, ColorSpace::LumaA, ColorSpace::RGB, ColorSpace::RGBA]);
        let tt = match cs {
            ColorSpace::Luma => "GRAYSCALE",
            ColorSpace::LumaA => "GRAYSCALE_ALPHA",
            ColorSpace::RGB => "RGB",
            _ => "RGB_ALPHA"
        };
        v.push(b'\n');
        let mut lines: Vec<(&str, String)> = vec![
            ("WIDTH", w.to_string()),
            ("HEIGHT", h.to_string()),
            ("DEPTH", cs.num_components().to_string()),
            ("MAXVAL", maxval.to_string()),
            ("TUPLTYPE", tt.to_string()),
        ];
        for i in (1..lines.len()).rev() {
            let j = s.usize(0, i);
            lines.swap(i, i - j);
        }
        for (k, x) in lines {
            if s.chance(1, 8) {
                v.extend(b"# WIDTH 3 comment\n");
            }
            if s.chance(1, 10) {
                v.push(b'\n');
            }
            v.extend(k.bytes());
            for _ in 0..s.pick(&[1usize, 1, 1, 2]) {
                v.push(s.pick(&[b' ', b' ', b'\t']));
            }
            v.extend(x.bytes());
            if s.chance(1, 8) {
                v.push(b' ');
            }
            v.push(b'\n');
        }
        v.extend(b"ENDHDR\n");
    } else {
        cs = if kind == '5' { ColorSpace::Luma } else { ColorSpace::RGB };
        ws(s, &mut v, true);
        num(s, &mut v, w);
        ws(s, &mut v, true);
        num(s, &mut v, h);
        ws(s, &mut v, true);
        num(s, &mut v, maxval);
        v.push(s.pick(&[b'\n', b'\n', b' ', b'\t', b'\r']));
    }
    let px = samples(s, w * h * cs.num_components(), maxval);
    if maxval < 256 {
        let b: Vec<u8> = px.iter().map(|x| *x as u8).collect();
        v.extend(&b);
        Pnm { file: v, w, h, cs, depth: BitDepth::Eight, want: b, kind }
    } else {
        v.extend(px.iter().flat_map(|x| x.to_be_bytes()));
        Pnm { file: v, w, h, cs, depth: BitDepth::Sixteen, want: ne16(&px), kind }
    }
}

pub fn bytes(r: DecodingResult) -> Vec<u8> {
    match r {
        DecodingResult::U8(v) => v,
        DecodingResult::U16(v) => ne16(&v),
        DecodingResult::F32(v) => nef(&v),
        _ => vec![]
    }
}

pub fn decode(s: &mut Src, c: &mut Ctx) -> Res {
    let p = file(s, 50);
    let mut f = p.file.clone();
    c.label(format!("P{}", p.kind));
    c.note(format!("P{} {}x{} {:?} {:?}", p.kind, p.w, p.h, p.cs, p.depth));
    if p.w * p.h > 1 {
        c.nontrivial();
    }
    let full = f.len();
    if s.chance(1, 4) {
        let n = s.usize(0, 9);
        f.extend(s.data(n));
    }
    c.artifact("input.pnm", &f);
    let mut d = PPMDecoder::new(ZCursor::new(&f));
    if s.bool() {
        if let Err(e) = d.decode_headers() {
            return fail("valid header rejected", format!("{e:?}"));
        }
        check!(d.dimensions() == Some((p.w, p.h)), "wrong dimensions", "{:?}", d.dimensions());
        check!(d.bit_depth() == Some(p.depth), "wrong depth", "{:?}", d.bit_depth());
    }
    let got = match d.decode() {
        Ok(v) => bytes(v),
        Err(e) => return fail("valid file rejected", format!("{e:?}"))
    };
    check!(d.dimensions() == Some((p.w, p.h)), "wrong dimensions", "{:?}", d.dimensions());
    check!(d.bit_depth() == Some(p.depth) && d.colorspace() == Some(p.cs), "wrong depth or colourspace", "{:?} {:?}", d.bit_depth(), d.colorspace());
    check!(got == p.want, "wrong samples", "{:?}", first_diff(&got, &p.want));
    let cut = s.usize(0, full - 1);
    let cut = if s.bool() { full - 1 } else { cut };
    check!(PPMDecoder::new(ZCursor::new(&f[..cut])).decode().is_err(), "truncated file accepted", "{cut} of {full} bytes");
    let o = if s.bool() { DecoderOptions::default().set_max_width(p.w - 1) } else { DecoderOptions::default().set_max_height(p.h - 1) };
    check!(PPMDecoder::new_with_options(ZCursor::new(&f), o).decode().is_err(), "limit ignored", "");
    Ok(())
}

/// independent strict reader of what the encoder may write
fn strict(f: &[u8]) -> Option<(usize, usize, usize, usize, usize)> {
    // width, height, components, maxval, offset
    let mut pos = 0;
    let mut line = || {
        let e = f[pos..].iter().position(|b| *b == b'\n')? + pos;
        let l = std::str::from_utf8(&f[pos..e]).ok()?.to_string();
        pos = e + 1;
        Some((l, pos))
    };
    let m = line()?.0;
    if m == "P5" || m == "P6" {
        let mut n = vec![];
        let mut at = 0;
        while n.len() < 3 {
            let (l, p) = line()?;
            at = p;
            for t in l.split_ascii_whitespace() {
                n.push(t.parse().ok()?);
            }
        }
        if n.len() != 3 {
            return None;
        }
        return Some((n[0], n[1], if m == "P5" { 1 } else { 3 }, n[2], at));
    }
    if m != "P7" {
        return None;
    }
    let (mut w, mut h, mut d, mut mv): (Option<usize>, Option<usize>, Option<usize>, Option<usize>) = (None, None, None, None);
    let mut tt = String::new();
    loop {
        let (l, p) = line()?;
        let t: Vec<&str> = l.split_ascii_whitespace().collect();
        match t.as_slice() {
            ["ENDHDR"] => {
                let nc = ["GRAYSCALE", "GRAYSCALE_ALPHA", "RGB", "RGB_ALPHA"].iter().position(|x| *x == tt)? + 1;
                if d? != nc {
                    return None;
                }
                return Some((w?, h?, nc, mv?, p));
            }
            ["WIDTH", x] => w = x.parse().ok(),
            ["HEIGHT", x] => h = x.parse().ok(),
            ["DEPTH", x] => d = x.parse().ok(),
            ["MAXVAL", x] => mv = x.parse().ok(),
            ["TUPLTYPE", x] => tt = x.to_string(),
            _ => return None
        }
    }
}

pub fn encode(s: &mut Src, c: &mut Ctx) -> Res {
    let (w, h) = (s.dim(60), s.dim(60));
    let cs = s.pick(&[ColorSpace::Luma, ColorSpace::LumaA, ColorSpace::RGB, ColorSpace::RGBA, ColorSpace::RGB, ColorSpace::Luma, ColorSpace::CMYK, ColorSpace::YCbCr, ColorSpace::BGR]);
    let depth = s.pick(&[BitDepth::Eight, BitDepth::Sixteen, BitDepth::Eight, BitDepth::Sixteen, BitDepth::Float32]);
    let n = w * h * cs.num_components();
    let (b, be): (Vec<u8>, Vec<u8>) = if depth == BitDepth::Eight {
        let d = s.data(n);
        (d.clone(), d)
    } else {
        let d = s.data16(n * depth.size_of() / 2);
        (ne16(&d), d.iter().flat_map(|x| x.to_be_bytes()).collect())
    };
    c.note(format!("{w}x{h} {cs:?} {depth:?}"));
    c.artifact("pixels.raw", &b);
    let mut out = vec![];
    let r = PPMEncoder::new(&b, eopts(w, h, cs, depth)).encode(&mut out);
    let ok = cs.num_components() <= 4 && matches!(cs, ColorSpace::Luma | ColorSpace::LumaA | ColorSpace::RGB | ColorSpace::RGBA) && depth != BitDepth::Float32;
    let size = match r {
        Ok(n) => n,
        Err(_) if !ok => return Ok(()),
        Err(e) => return fail("encoder failed", format!("{e:?}"))
    };
    c.nontrivial();
    check!(size == out.len(), "returned size is not the number of bytes written", "{size} {}", out.len());
    c.artifact("output.pnm", &out);
    let mut d = PPMDecoder::new(ZCursor::new(&out));
    match d.decode() {
        Ok(v) => {
            let v = bytes(v);
            check!(v == b, "round trip differs", "{:?}", first_diff(&v, &b))
        }
        Err(e) => return fail("own output rejected", format!("{e:?}"))
    }
    check!(d.dimensions() == Some((w, h)) && d.colorspace() == Some(cs) && d.bit_depth() == Some(depth), "round trip changes the description", "{:?} {:?} {:?}", d.dimensions(), d.colorspace(), d.bit_depth());
    let want = (w, h, cs.num_components(), if depth == BitDepth::Eight { 255 } else { 65535 });
    match strict(&out) {
        Some((a, b, n, m, at)) => {
            check!((a, b, n, m) == want, "header describes another image", "{:?}", (a, b, n, m));
            check!(out[at..] == be, "raster differs", "{:?}", first_diff(&out[at..], &be));
        }
        None => return fail("file not conforming", String::from_utf8_lossy(&out[..out.len().min(100)]).to_string())
    }
    Ok(())
}
