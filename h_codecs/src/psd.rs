//! C17: PSD
use pbt::{check, fail, Ctx, Res, Rng, Src};
use zune_core::bit_depth::BitDepth;
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::DecoderOptions;
use zune_core::result::DecodingResult;
use zune_psd::PSDDecoder;

pub struct Psd {
    pub file: Vec<u8>,
    pub w: usize,
    pub h: usize,
    pub cs: ColorSpace,
    pub sixteen: bool,
    pub rle: bool,
    /// decoded channels as stored, interleaved
    pub want: Vec<u16>,
    pub about: String
}

fn be16(v: &mut Vec<u8>, x: usize) {
    v.extend((x as u16).to_be_bytes())
}

fn be32(v: &mut Vec<u8>, x: usize) {
    v.extend((x as u32).to_be_bytes())
}

fn packbits(r: &mut Rng, d: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0;
    while i < d.len() {
        if r.below(16) == 0 {
            v.push(128);
        }
        let left = d.len() - i;
        let mut run = 1;
        while run < left.min(128) && d[i + run] == d[i] {
            run += 1;
        }
        if run >= 2 && r.below(5) != 0 {
            let n = if r.below(4) == 0 { 2 + r.below(run as u64 - 1) as usize } else { run };
            v.extend([(257 - n) as u8, d[i]]);
            i += n;
        } else {
            let n = 1 + r.below(left.min(128) as u64) as usize;
            let n = if r.below(2) == 0 { n } else { n.min(1 + r.below(4) as usize) };
            v.push((n - 1) as u8);
            v.extend(&d[i..i + n]);
            i += n;
        }
    }
    v
}

pub fn file(s: &mut Src, max: usize) -> Psd {
    let (w, h) = (s.dim(max), s.dim(max));
    let sixteen = s.bool();
    let rle = s.bool();
    let (mode, cs, stored) = match s.below(4) {
        0 => (1, ColorSpace::Luma, s.usize(1, 4)),
        1 => (3, ColorSpace::RGB, 3),
        2 => (3, ColorSpace::RGBA, 4),
        _ => (4, ColorSpace::CMYK, 4)
    };
    let nc = cs.num_components();
    let nb = 1 + sixteen as usize;
    let mut planes = vec![];
    let white = s.chance(1, 2);
    for c in 0..stored {
        let mut p = s.data(w * h * nb);
        if c == 3 && s.bool() {
            p.iter_mut().for_each(|b| *b = if *b < 100 { 0 } else { 255 });
        }
        planes.push(p);
    }
    if cs == ColorSpace::RGBA && white {
        // composite on white: every sample at least 1 - alpha
        for i in 0..w * h {
            if sixteen {
                let g = |p: &Vec<u8>| u16::from_be_bytes([p[2 * i], p[2 * i + 1]]);
                let a = g(&planes[3]);
                for c in 0..3 {
                    let v = g(&planes[c]).max(65535 - a);
                    planes[c][2 * i..2 * i + 2].copy_from_slice(&v.to_be_bytes());
                }
            } else {
                let a = planes[3][i];
                for c in 0..3 {
                    planes[c][i] = planes[c][i].max(255 - a);
                }
            }
        }
    }
    let mut v = b"8BPS".to_vec();
    be16(&mut v, 1);
    v.extend([0; 6]);
    be16(&mut v, stored);
    be32(&mut v, h);
    be32(&mut v, w);
    be16(&mut v, nb * 8);
    be16(&mut v, mode);
    let mut lens = vec![];
    for _ in 0..3 {
        let n = if s.bool() { 0 } else { s.usize(0, 300) };
        lens.push(n);
        be32(&mut v, n);
        v.extend(s.data(n));
    }
    be16(&mut v, rle as usize);
    if rle {
        let mut r = s.rng();
        let mut body = vec![];
        for p in &planes {
            for row in p.chunks_exact(w * nb) {
                let d = packbits(&mut r, row);
                be16(&mut v, d.len());
                body.extend(d);
            }
        }
        v.extend(body);
    } else {
        planes.iter().for_each(|p| v.extend(p));
    }
    if s.chance(1, 4) {
        let n = s.usize(1, 40);
        v.extend(s.data(n));
    }
    let mut want = vec![];
    for i in 0..w * h {
        for p in &planes[..nc] {
            want.push(if sixteen { u16::from_be_bytes([p[2 * i], p[2 * i + 1]]) } else { p[i] as u16 });
        }
    }
    let about = format!("{w}x{h} {cs:?} stored {stored} bits {} rle {rle} sections {lens:?}", nb * 8);
    Psd { file: v, w, h, cs, sixteen, rle, want, about }
}

/// the composite has a white matte under partly transparent pixels: (expected, tolerance)
fn unmatte(v: &[u16], max: f64) -> Vec<(u16, u16)> {
    let mut out = vec![];
    for p in v.chunks_exact(4) {
        let a = p[3] as f64 / max;
        for c in 0..4 {
            if c == 3 || p[3] == 0 || p[3] as f64 == max {
                out.push((p[c], 0));
            } else {
                let x = p[c] as f64 / a + max * (1.0 - 1.0 / a);
                let tol = 1.0 + max / a / (1u32 << 21) as f64;
                out.push((x.clamp(0.0, max) as u16, tol.min(1e4) as u16));
            }
        }
    }
    out
}

/// what the decoder returns for raw 8-bit data with several channels (known finding)
fn truncated(p: &Psd) -> Vec<u16> {
    let (n, nc) = (p.w * p.h, p.cs.num_components());
    let at = p.file_data();
    let mut out = vec![0; n * nc];
    let mut k = 0;
    for c in 0..nc {
        let mut i = c;
        while i < n {
            out[i] = at[k] as u16;
            k += 1;
            i += nc;
        }
    }
    out
}

impl Psd {
    fn file_data(&self) -> &[u8] {
        let mut o = 26;
        for _ in 0..3 {
            o += 4 + u32::from_be_bytes(self.file[o..o + 4].try_into().unwrap()) as usize;
        }
        &self.file[o + 2..]
    }
}

fn close(got: &[u16], want: &[(u16, u16)]) -> Option<usize> {
    got.iter().zip(want).position(|(g, (w, t))| g.abs_diff(*w) > *t)
}

pub fn decode(s: &mut Src, c: &mut Ctx) -> Res {
    let p = file(s, 70);
    c.note(p.about.clone());
    c.artifact("input.psd", &p.file);
    if p.w * p.h > 1 {
        c.nontrivial();
    }
    c.label(format!("{:?} {} bits {}", p.cs, if p.sixteen { 16 } else { 8 }, if p.rle { "rle" } else { "raw" }));
    let o = DecoderOptions::default().set_strict_mode(s.bool());
    let mut d = PSDDecoder::new_with_options(ZCursor::new(&p.file), o);
    if s.bool() {
        if let Err(e) = d.decode_headers() {
            return fail("valid header rejected", format!("{e:?}"));
        }
    }
    let got: Vec<u16> = match d.decode() {
        Ok(DecodingResult::U8(v)) if !p.sixteen => v.iter().map(|x| *x as u16).collect(),
        Ok(DecodingResult::U16(v)) if p.sixteen => v,
        Ok(_) => return fail("wrong depth", String::new()),
        Err(e) => return fail("valid file rejected", format!("{e:?}"))
    };
    check!(d.dimensions() == Some((p.w, p.h)), "wrong dimensions", "{:?}", d.dimensions());
    let depth = if p.sixteen { BitDepth::Sixteen } else { BitDepth::Eight };
    check!(d.colorspace() == Some(p.cs) && d.bit_depth() == Some(depth), "wrong colourspace or depth", "{:?} {:?} instead of {:?}", d.colorspace(), d.bit_depth(), p.cs);
    check!(got.len() == p.want.len(), "wrong size", "{} instead of {}", got.len(), p.want.len());
    let max = if p.sixteen { 65535.0 } else { 255.0 };
    let exact = |v: &[u16]| v.iter().map(|x| (*x, 0)).collect::<Vec<_>>();
    let want = if p.cs == ColorSpace::RGBA { unmatte(&p.want, max) } else { exact(&p.want) };
    if let Some(i) = close(&got, &want) {
        let at = format!("sample {i}: {} instead of {:?}", got[i], want[i]);
        let nc = p.cs.num_components();
        if !p.sixteen && !p.rle && nc > 1 {
            let t = truncated(&p);
            let t = if nc == 4 { unmatte(&t, max) } else { exact(&t) };
            if close(&got, &t).is_none() {
                return fail("raw 8-bit planes cut short", at);
            }
        }
        if p.cs == ColorSpace::CMYK && close(&got, &unmatte(&p.want, max)).is_none() {
            return fail("white matte removed from CMYK", at);
        }
        return fail("wrong samples", at);
    }
    Ok(())
}
