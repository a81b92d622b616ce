//! C14: farbfeld
use crate::util::{eopts, ne16};
use pbt::{check, fail, first_diff, Ctx, Res, Src};
use zune_core::bit_depth::BitDepth;
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_farbfeld::{FarbFeldDecoder, FarbFeldEncoder};

pub fn write(w: usize, h: usize, px: &[u16]) -> Vec<u8> {
    let mut v = b"farbfeld".to_vec();
    v.extend((w as u32).to_be_bytes());
    v.extend((h as u32).to_be_bytes());
    v.extend(px.iter().flat_map(|x| x.to_be_bytes()));
    v
}

pub fn file(s: &mut Src, max: usize) -> (Vec<u8>, usize, usize, Vec<u16>) {
    let (w, h) = (s.dim(max), s.dim(max));
    let px = s.data16(w * h * 4);
    (write(w, h, &px), w, h, px)
}

pub fn decode(s: &mut Src, c: &mut Ctx) -> Res {
    let (mut f, w, h, px) = file(s, 60);
    c.note(format!("{w}x{h}"));
    if w * h > 1 {
        c.nontrivial();
    }
    if s.chance(1, 4) {
        let n = s.usize(0, 9);
        f.extend(s.data(n));
    }
    c.artifact("input.ff", &f);
    let mut d = FarbFeldDecoder::new(ZCursor::new(&f));
    let r = if s.bool() {
        d.decode()
    } else {
        match d.decode_headers() {
            Err(e) => Err(e),
            Ok(()) => {
                let n = d.output_buffer_size();
                check!(n == Some(w * h * 8), "output_buffer_size wrong", "{n:?}");
                if s.bool() {
                    d.decode()
                } else {
                    let mut b = vec![0u16; w * h * 4];
                    d.decode_into(&mut b).map(|_| b)
                }
            }
        }
    };
    match r {
        Ok(v) => check!(v == px, "wrong samples", "{:?}", first_diff(&v, &px)),
        Err(e) => return fail("valid file rejected", format!("{e:?}"))
    }
    check!(d.dimensions() == Some((w, h)) && d.colorspace() == ColorSpace::RGBA && d.bit_depth() == BitDepth::Sixteen, "header wrong", "{:?}", d.dimensions());
    // a file cut short is an error
    let cut = s.usize(0, 16 + px.len() * 2 - 1);
    check!(FarbFeldDecoder::new(ZCursor::new(&f[..cut])).decode().is_err(), "truncated file accepted", "{cut} bytes");
    Ok(())
}

pub fn encode(s: &mut Src, c: &mut Ctx) -> Res {
    let (w, h) = (s.dim(60), s.dim(60));
    let px = s.data16(w * h * 4);
    c.note(format!("{w}x{h}"));
    if w * h > 1 {
        c.nontrivial();
    }
    let b = ne16(&px);
    c.artifact("pixels.raw", &b);
    let mut out = vec![];
    match FarbFeldEncoder::new(&b, eopts(w, h, ColorSpace::RGBA, BitDepth::Sixteen)).encode(&mut out) {
        Ok(n) => check!(n == out.len(), "returned size is not the number of bytes written", "{n}"),
        Err(e) => return fail("encoder failed", format!("{e:?}"))
    }
    let want = write(w, h, &px);
    check!(out == want, "wrong file", "{:?}", first_diff(&out, &want));
    match FarbFeldDecoder::new(ZCursor::new(&out)).decode() {
        Ok(v) => check!(v == px, "round trip differs", "{:?}", first_diff(&v, &px)),
        Err(e) => return fail("own output rejected", format!("{e:?}"))
    }
    // wrong descriptions are errors
    let bad = match s.below(3) {
        0 => eopts(w, h, ColorSpace::RGB, BitDepth::Sixteen),
        1 => eopts(w, h, ColorSpace::RGBA, BitDepth::Eight),
        _ => eopts(w + 1, h, ColorSpace::RGBA, BitDepth::Sixteen)
    };
    check!(FarbFeldEncoder::new(&b, bad).encode(&mut vec![]).is_err(), "wrong description accepted", "{bad:?}");
    Ok(())
}
