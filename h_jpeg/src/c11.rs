//! Requested output colourspaces and stored metadata.
use crate::c02::SPACES;
use crate::c09::{error, expect};
use crate::gen;
use crate::model::{self, Kind};
use models::io::Slow;
use models::jpeg as mj;
use pbt::{check, fail, first_diff, Ctx, Res, Src};
use std::io::{BufReader, Cursor};
use zune_core::bytestream::{ZByteReaderTrait, ZCursor};
use zune_core::colorspace::ColorSpace;
use zune_core::options::DecoderOptions;
use zune_jpeg::JpegDecoder;

/// conversions the documentation and other decoders make basic
fn must(k: Kind, out: ColorSpace) -> bool {
    match out {
        ColorSpace::RGB => true,
        ColorSpace::RGBA => k != Kind::Rgb,
        ColorSpace::Luma => matches!(k, Kind::Luma | Kind::YCbCr),
        ColorSpace::BGR | ColorSpace::BGRA | ColorSpace::YCbCr => k == Kind::YCbCr,
        ColorSpace::CMYK => k == Kind::Cmyk,
        ColorSpace::YCCK => k == Kind::Ycck,
        _ => false
    }
}

fn modelled(k: Kind, out: ColorSpace) -> bool {
    match out {
        ColorSpace::RGB | ColorSpace::RGBA | ColorSpace::BGR | ColorSpace::BGRA => true,
        ColorSpace::Luma => matches!(k, Kind::Luma | Kind::YCbCr),
        ColorSpace::YCbCr => k == Kind::YCbCr,
        ColorSpace::CMYK => k == Kind::Cmyk,
        ColorSpace::YCCK => k == Kind::Ycck,
        _ => false
    }
}

pub fn spaces(s: &mut Src, c: &mut Ctx) -> Res {
    let max = s.pick(&[12u64, 40, 70]);
    let mut j = gen::frame(s, max);
    let e = gen::any_enc(s, &j);
    mj::clear_padding(&mut j, &e);
    let file = mj::write(s, &j, &e);
    c.artifact("input.jpg", &file);
    let k = model::kind(&j);
    let out = s.pick(&SPACES[..]);
    let out = if s.chance(2, 3) { s.pick(&SPACES[..9]) } else { out };
    let how = s.below(3);
    let simd = s.bool();
    let strict = s.bool();
    c.note(format!("{} out {out:?} set at {how} intrinsics {simd} strict {strict}", gen::describe(&j, &e)));
    let base = DecoderOptions::default().set_use_unsafe(simd).set_strict_mode(strict);
    let o = base.jpeg_set_out_colorspace(out);
    let first = if how == 0 { o } else { base.jpeg_set_out_colorspace(s.pick(&SPACES[..9])) };
    let mut d = JpegDecoder::new_with_options(ZCursor::new(&file), first);
    if how == 1 {
        d.set_options(o);
    }
    if let Err(x) = d.decode_headers() {
        return fail("valid file rejected", format!("{x:?}"));
    }
    if how == 2 {
        d.set_options(o);
    }
    let input = match k {
        Kind::Luma => ColorSpace::Luma,
        Kind::YCbCr => ColorSpace::YCbCr,
        Kind::Rgb => ColorSpace::RGB,
        Kind::Cmyk => ColorSpace::CMYK,
        Kind::Ycck => ColorSpace::YCCK
    };
    // RGB marked by Adobe transform 0 is only settled when decoding starts
    if k != Kind::Rgb && !(k == Kind::Luma && e.extra.iter().any(|x| x.1.len() > 6 && x.1[4..].starts_with(b"Adobe"))) {
        check!(d.input_colorspace() == Some(input), "wrong input colourspace", "{:?} instead of {input:?}", d.input_colorspace());
    }
    check!(d.output_colorspace() == Some(out), "announced colourspace is not the one requested", "{:?}", d.output_colorspace());
    let n = out.num_components();
    let len = j.w * j.h * n;
    check!(d.output_buffer_size() == Some(len), "wrong announced size", "{:?} instead of {len}", d.output_buffer_size());
    let px = if s.bool() {
        d.decode()
    } else {
        let extra = s.usize(0, 80);
        let mut b = vec![0xA5; len + extra];
        match d.decode_into(&mut b) {
            Ok(()) => {
                check!(b[len..].iter().all(|&x| x == 0xA5), "bytes beyond the image written", "");
                b.truncate(len);
                Ok(b)
            }
            Err(x) => Err(x)
        }
    };
    let px = match px {
        Ok(p) => p,
        Err(x) => {
            c.label(format!("{k:?} to {out:?}: error"));
            check!(!must(k, out), "supported conversion rejected", "{k:?} to {out:?}: {x:?}");
            return Ok(());
        }
    };
    c.label(format!("{k:?} to {out:?}"));
    c.nontrivial();
    check!(modelled(k, out), "impossible conversion accepted", "{k:?} to {out:?}");
    check!(px.len() == len, "wrong output length", "{} instead of {len}", px.len());
    let a = expect(&j, out, false, false);
    let b = expect(&j, out, true, false);
    let (m, _, at) = error(&px, &a, &b);
    let limit = match (k, out) {
        (_, ColorSpace::Luma | ColorSpace::YCbCr | ColorSpace::YCCK | ColorSpace::CMYK) => 2.6,
        (Kind::YCbCr | Kind::Ycck, _) => 6.5,
        (Kind::Cmyk, _) => 3.6,
        _ => 2.6
    };
    check!(m <= limit, "pixels off", "{k:?} to {out:?}: off by {m:.1} at pixel ({}, {}) component {}: {} instead of {:.1}/{:.1}", at / n % j.w, at / n / j.w, at % n, px[at], a[at], b[at]);
    if matches!(out, ColorSpace::RGBA | ColorSpace::BGRA) {
        check!(px.chunks(4).all(|p| p[3] == 255), "alpha is not opaque", "{k:?} to {out:?}");
    }
    Ok(())
}

fn payload(s: &mut Src, most: usize) -> Vec<u8> {
    let n = match s.below(6) {
        0 => s.usize(1, 4),
        1 | 2 | 3 => s.usize(1, 300),
        4 => s.usize(most - 3, most),
        _ => s.usize(1, most)
    };
    let n = n.min(most);
    // marker-like bytes must not matter
    let k = s.below(3);
    let mut r = s.rng();
    (0..n).map(|_| if k == 0 && r.below(3) == 0 { 0xFF } else { r.byte() }).collect()
}

fn read<T: ZByteReaderTrait>(r: T, o: DecoderOptions, full: bool) -> Result<[Option<Vec<u8>>; 4], String> {
    let mut d = JpegDecoder::new_with_options(r, o);
    if full {
        d.decode().map_err(|e| format!("{e:?}"))?;
    } else {
        d.decode_headers().map_err(|e| format!("{e:?}"))?;
    }
    Ok([d.exif().cloned(), d.xmp().cloned(), d.iptc().cloned(), d.icc_profile()])
}

pub fn metadata(s: &mut Src, c: &mut Ctx) -> Res {
    let mut j = gen::frame(s, 20);
    let mut e = gen::any_enc(s, &j);
    mj::clear_padding(&mut j, &e);
    let mut want: [Option<Vec<u8>>; 4] = Default::default();
    // segments in any order, before or after the tables and the frame header
    let mut segs: Vec<Vec<u8>> = vec![];
    let big = s.chance(1, 8);
    let cap = |n: usize| if big { n } else { n.min(400) };
    if s.bool() {
        let p = payload(s, cap(65533 - 6));
        segs.push(mj::segment(0xE1, &[b"Exif\0\0".to_vec(), p.clone()].concat()));
        want[0] = Some(p);
    }
    if s.bool() {
        let p = payload(s, cap(65533 - 29));
        segs.push(mj::segment(0xE1, &[b"http://ns.adobe.com/xap/1.0/\0".to_vec(), p.clone()].concat()));
        want[1] = Some(p);
    }
    if s.bool() {
        let p = payload(s, cap(65533 - 14));
        segs.push(mj::segment(0xED, &[b"Photoshop 3.0\0".to_vec(), p.clone()].concat()));
        want[2] = Some(p);
    }
    let mut broken = false;
    if s.chance(2, 3) {
        let n = if s.chance(1, 20) { s.usize(1, 255) } else { s.usize(1, 6) };
        let mut all = vec![];
        let mut parts: Vec<Vec<u8>> = vec![];
        for i in 0..n {
            let p = payload(s, if n > 6 { 20 } else { cap(65533 - 14) });
            parts.push(mj::segment(0xE2, &[b"ICC_PROFILE\0".to_vec(), vec![i as u8 + 1, n as u8], p.clone()].concat()));
            all.extend(p);
        }
        if s.chance(1, 6) && n > 1 {
            let k = s.usize(0, n - 1);
            parts.remove(k);
            broken = true;
        }
        segs.extend(parts);
        want[3] = if broken { None } else { Some(all) };
    }
    for _ in 0..s.below(4) {
        // unrelated
        let p = payload(s, cap(65000));
        let m = s.pick(&[0xFEu8, 0xE1, 0xE2, 0xED, 0xE5, 0xEB]);
        let head = match s.below(4) {
            0 => b"http://ns.adobe.com/xmp/extension/\0".to_vec(),
            1 => b"Photoshop 2.5\0".to_vec(),
            2 => b"urn:iso:std:iso:ts:21496:-1\0".to_vec(),
            _ => b"MPF\0".to_vec()
        };
        segs.push(mj::segment(m, &[head, p].concat()));
    }
    // shuffle
    for i in (1..segs.len()).rev() {
        let k = s.usize(0, i);
        segs.swap(i, k);
    }
    if segs.len() > 1 {
        c.nontrivial();
    }
    c.note(format!("{:?} incomplete icc {broken}, {} segments", want.iter().map(|x| x.as_ref().map(|v| v.len())).collect::<Vec<_>>(), segs.len()));
    for b in segs {
        let at = s.below(3) as usize;
        e.extra.push((at, b));
    }
    let file = mj::write(s, &j, &e);
    c.artifact("input.jpg", &file);
    let strict = s.bool();
    let full = s.bool();
    let o = DecoderOptions::default().set_strict_mode(strict);
    let step = s.usize(1, 200);
    let kind = s.below(4);
    let got = match kind {
        0 | 1 => read(ZCursor::new(&file), o, full),
        2 => read(BufReader::with_capacity(step, Cursor::new(&file)), o, full),
        _ => read(Slow::new(&file, step), o, full)
    };
    let got = match got {
        Ok(g) => g,
        Err(m) => return fail("valid file rejected", m)
    };
    for (i, name) in ["EXIF", "XMP", "IPTC", "ICC"].iter().enumerate() {
        check!(got[i].is_some() == want[i].is_some(), format!("{name} presence wrong"), "{:?} instead of {:?} bytes", got[i].as_ref().map(|x| x.len()), want[i].as_ref().map(|x| x.len()));
        if let (Some(a), Some(b)) = (&got[i], &want[i]) {
            check!(a == b, format!("{name} bytes differ"), "{:?}", first_diff(a, b));
        }
    }
    Ok(())
}
