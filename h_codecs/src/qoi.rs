//! C12: QOI
use crate::util::{eopts, pixels};
use pbt::{check, fail, first_diff, Ctx, Res, Src};
use zune_core::bit_depth::BitDepth;
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::DecoderOptions;
use zune_qoi::{QoiDecoder, QoiEncoder};

fn hash(p: [u8; 4]) -> usize {
    (p[0] as usize * 3 + p[1] as usize * 5 + p[2] as usize * 7 + p[3] as usize * 11) % 64
}

/// Reference decoder of the chunks of `d` (after the header); strict about conformance.
/// Returns the RGBA pixels and the number of bytes used.
pub fn model(d: &[u8], n: usize) -> Result<(Vec<[u8; 4]>, usize), String> {
    let mut idx = [[0u8; 4]; 64];
    let mut px = [0u8, 0, 0, 255];
    let mut out = vec![];
    let mut p = 0;
    let mut last_index = None;
    while out.len() < n {
        let get = |i: usize| d.get(i).copied().ok_or("chunks end early".to_string());
        let b = get(p)?;
        p += 1;
        let mut run = 1;
        let prev_index = last_index.take();
        match b {
            0xFE => {
                px = [get(p)?, get(p + 1)?, get(p + 2)?, px[3]];
                p += 3;
            }
            0xFF => {
                px = [get(p)?, get(p + 1)?, get(p + 2)?, get(p + 3)?];
                p += 4;
            }
            0..=0x3f => {
                if prev_index == Some(b) {
                    return Err("repeated index chunk".into());
                }
                last_index = Some(b);
                px = idx[b as usize];
            }
            0x40..=0x7f => {
                for (i, sh) in [(0, 4), (1, 2), (2, 0)] {
                    px[i] = px[i].wrapping_add((b >> sh & 3).wrapping_sub(2));
                }
            }
            0x80..=0xbf => {
                let c = get(p)?;
                p += 1;
                let g = (b & 63).wrapping_sub(32);
                px[0] = px[0].wrapping_add(g).wrapping_add((c >> 4).wrapping_sub(8));
                px[1] = px[1].wrapping_add(g);
                px[2] = px[2].wrapping_add(g).wrapping_add((c & 15).wrapping_sub(8));
            }
            _ => run = (b & 63) as usize + 1
        }
        idx[hash(px)] = px;
        if out.len() + run > n {
            return Err("run past the end".into());
        }
        for _ in 0..run {
            out.push(px);
        }
    }
    Ok((out, p))
}

pub fn header(w: usize, h: usize, ch: u8, space: u8) -> Vec<u8> {
    let mut v = b"qoif".to_vec();
    v.extend((w as u32).to_be_bytes());
    v.extend((h as u32).to_be_bytes());
    v.push(ch);
    v.push(space);
    v
}

/// a conforming stream of random chunks
pub fn stream(s: &mut Src, n: usize) -> Vec<u8> {
    let mut r = s.rng();
    let bias = s.below(7);
    let mut v = vec![];
    let mut left = n;
    let mut last = None;
    while left > 0 {
        let k = if r.below(3) == 0 { bias } else { r.below(6) };
        let prev = last.take();
        match k {
            0 => {
                let mut i = r.below(64) as u8;
                if prev == Some(i) {
                    i = (i + 1) & 63;
                }
                last = Some(i);
                v.push(i)
            }
            1 => v.push(0x40 | r.below(64) as u8),
            2 => {
                v.push(0x80 | r.below(64) as u8);
                v.push(r.byte())
            }
            3 => {
                let m = (1 + r.below(62) as usize).min(left);
                v.push(0xC0 | (m - 1) as u8);
                left -= m - 1;
            }
            4 => {
                v.push(0xFE);
                v.extend([r.byte(), r.byte(), r.byte()])
            }
            _ => {
                v.push(0xFF);
                let a = [0, 255, 128, r.byte()][r.below(4) as usize];
                v.extend([r.byte(), r.byte(), r.byte(), a])
            }
        }
        left -= 1;
    }
    v
}

pub const END: [u8; 8] = [0, 0, 0, 0, 0, 0, 0, 1];

/// file, expected samples
pub fn file(s: &mut Src, max: usize) -> (Vec<u8>, usize, usize, usize, Vec<u8>) {
    let (w, h) = (s.dim(max), s.dim(max));
    let nc = s.pick(&[3usize, 4]);
    let space = s.below(2) as u8;
    let d = stream(s, w * h);
    let px = model(&d, w * h).expect("generator").0;
    let mut f = header(w, h, nc as u8, space);
    f.extend(d);
    f.extend(END);
    (f, w, h, nc, px.iter().flat_map(|p| p[..nc].to_vec()).collect())
}

fn cs(nc: usize) -> ColorSpace {
    if nc == 3 {
        ColorSpace::RGB
    } else {
        ColorSpace::RGBA
    }
}

pub fn decode(s: &mut Src, c: &mut Ctx) -> Res {
    let (mut f, w, h, nc, want) = file(s, 70);
    if s.chance(1, 4) {
        let n = s.usize(0, 9);
        f.extend(s.data(n));
    }
    c.artifact("input.qoi", &f);
    c.note(format!("{w}x{h}x{nc}"));
    if w * h > 4 {
        c.nontrivial();
    }
    let o = DecoderOptions::default().set_strict_mode(s.bool());
    let mut d = QoiDecoder::new_with_options(ZCursor::new(&f), o);
    let got = match d.decode() {
        Ok(v) => v,
        Err(e) => return fail("conforming stream rejected", format!("{e:?}"))
    };
    check!(d.dimensions() == Some((w, h)) && d.colorspace() == Some(cs(nc)), "header wrong", "{:?} {:?}", d.dimensions(), d.colorspace());
    check!(got == want, "wrong pixels", "{:?}", first_diff(&got, &want));
    Ok(())
}

pub fn encode(s: &mut Src, c: &mut Ctx) -> Res {
    let big = s.chance(1, 200);
    let (w, h) = if big { (s.usize(1, 700), s.usize(1, 700)) } else { (s.dim(80), s.dim(80)) };
    let nc = s.pick(&[3usize, 4]);
    let px = pixels(s, w * h, nc);
    c.note(format!("{w}x{h}x{nc}"));
    c.artifact("pixels.raw", &px);
    if w * h > 4 {
        c.nontrivial();
    }
    let mut e = QoiEncoder::new(&px, eopts(w, h, cs(nc), BitDepth::Eight));
    let mut out = vec![];
    let n = match e.encode(&mut out) {
        Ok(n) => n,
        Err(e) => return fail("encoder failed", format!("{e:?}"))
    };
    let max = e.max_size();
    c.artifact("output.qoi", &out);
    check!(n == out.len(), "returned size is not the number of bytes written", "{n} {}", out.len());
    check!(n <= max, "output larger than max_size", "{n} > {max}");
    let hd = header(w, h, nc as u8, 0);
    check!(out.len() >= 14 && out[..13] == hd[..13] && out[13] < 2, "bad header", "{:?}", &out[..14.min(out.len())]);
    let (mp, used) = match model(&out[14..], w * h) {
        Ok(v) => v,
        Err(m) => return fail("stream not conforming", m)
    };
    check!(out[14 + used..] == END, "bad end marker", "{:?}", &out[14 + used..]);
    let mp: Vec<u8> = mp.iter().flat_map(|p| p[..nc].to_vec()).collect();
    check!(mp == px, "reference decoder reads other pixels", "{:?}", first_diff(&mp, &px));
    match rapid_qoi::Qoi::decode_alloc(&out) {
        Ok((q, v)) => {
            check!(q.width as usize == w && q.height as usize == h, "rapid-qoi reads another size", "");
            check!(v == px, "rapid-qoi reads other pixels", "{:?}", first_diff(&v, &px));
        }
        Err(e) => return fail("rapid-qoi rejects the stream", format!("{e:?}"))
    }
    match QoiDecoder::new_with_options(ZCursor::new(&out), DecoderOptions::default().set_strict_mode(true)).decode() {
        Ok(v) => check!(v == px, "round trip differs", "{:?}", first_diff(&v, &px)),
        Err(e) => return fail("own output rejected", format!("{e:?}"))
    }
    Ok(())
}
