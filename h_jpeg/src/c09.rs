use crate::gen;
use crate::model::{self, Kind};
use models::jpeg as mj;
use pbt::{check, fail, Ctx, Res, Src};
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::DecoderOptions;
use zune_jpeg::JpegDecoder;

pub fn decode(file: &[u8], o: DecoderOptions) -> Result<(Vec<u8>, usize, usize, u8), String> {
    let mut d = JpegDecoder::new_with_options(ZCursor::new(file), o);
    let px = d.decode().map_err(|e| format!("{e:?}"))?;
    let i = d.info().unwrap();
    Ok((px, i.width as usize, i.height as usize, i.components))
}

/// (largest, mean) difference to the nearest of the two models
pub fn error(got: &[u8], a: &[f64], b: &[f64]) -> (f64, f64, usize) {
    let (mut m, mut t, mut at) = (0.0, 0.0, 0);
    for (i, g) in got.iter().enumerate() {
        let g = *g as f64;
        // anything between the two edge treatments is fine
        let (lo, hi) = (a[i].min(b[i]), a[i].max(b[i]));
        let d = (lo - g).max(g - hi).max(0.0);
        if d > m {
            m = d;
            at = i;
        }
        t += d;
    }
    (m, t / got.len() as f64, at)
}

pub fn expect(j: &mj::Jpeg, out: ColorSpace, edge: bool, nearest: bool) -> Vec<f64> {
    let p = model::upsampled(j, edge, nearest);
    let k = model::kind(j);
    let mut v = vec![];
    for i in 0..j.w * j.h {
        let px: Vec<f64> = p.iter().map(|c| c[i]).collect();
        match out {
            ColorSpace::RGB => v.extend(model::rgb(k, &px)),
            ColorSpace::RGBA => {
                v.extend(model::rgb(k, &px));
                v.push(255.0);
            }
            ColorSpace::BGR => {
                let r = model::rgb(k, &px);
                v.extend([r[2], r[1], r[0]]);
            }
            ColorSpace::BGRA => {
                let r = model::rgb(k, &px);
                v.extend([r[2], r[1], r[0], 255.0]);
            }
            ColorSpace::Luma => v.push(px[0]),
            _ => v.extend(px)
        }
    }
    v
}

pub fn run(s: &mut Src, c: &mut Ctx, max: u64, odd: bool) -> Res {
    let j = if odd { gen::odd_frame(s, max) } else { gen::frame(s, max) };
    run_frame(s, c, j, odd)
}

pub fn huge(s: &mut Src, c: &mut Ctx) -> Res {
    let a = s.usize(65_520, 65_535);
    let b = s.usize(1, 17);
    let (w, h) = if s.bool() { (a, b) } else { (b, a) };
    let samp = s.pick(&[[(1, 1), (1, 1), (1, 1)], [(2, 1), (1, 1), (1, 1)], [(2, 2), (1, 1), (1, 1)], [(1, 2), (1, 1), (1, 1)]]);
    let n = s.pick(&[1usize, 3]);
    let mut j = mj::frame(w, h, &samp[..n]);
    mj::fill(s, &mut j);
    run_frame(s, c, j, false)
}

fn run_frame(s: &mut Src, c: &mut Ctx, mut j: mj::Jpeg, odd: bool) -> Res {
    let mut e = gen::any_enc(s, &j);
    e.sof = if s.bool() { 0xC0 } else { 0xC1 };
    e.scans = mj::sequential_scans(s, &j);
    e.slots = e.slots.min(2);
    mj::clear_padding(&mut j, &e);
    e.dqt16 = false;
    let file = mj::write(s, &j, &e);
    c.artifact("input.jpg", &file);
    let k = model::kind(&j);
    let out = match k {
        Kind::Luma => s.pick(&[ColorSpace::Luma, ColorSpace::RGB]),
        Kind::YCbCr => s.pick(&[ColorSpace::RGB, ColorSpace::RGB, ColorSpace::YCbCr, ColorSpace::Luma]),
        Kind::Rgb => ColorSpace::RGB,
        Kind::Cmyk => s.pick(&[ColorSpace::RGB, ColorSpace::CMYK]),
        Kind::Ycck => s.pick(&[ColorSpace::RGB, ColorSpace::YCCK])
    };
    let safe = s.chance(1, 3);
    c.note(format!("{} out {out:?} intrinsics {}", gen::describe(&j, &e), !safe));
    c.label(format!("{k:?}"));
    if j.w > 8 || j.h > 8 {
        c.nontrivial();
    }
    let o = DecoderOptions::default().jpeg_set_out_colorspace(out).set_use_unsafe(!safe).set_strict_mode(s.bool()).set_max_width(65535).set_max_height(65535);
    let (px, w, h, n) = match decode(&file, o) {
        Ok(v) => v,
        Err(m) => return fail("valid file rejected", format!("{m}"))
    };
    check!((w, h, n as usize) == (j.w, j.h, j.comps.len()), "wrong header information", "{w}x{h} {n}");
    let a = expect(&j, out, false, false);
    let b = expect(&j, out, true, false);
    check!(px.len() == a.len(), "wrong output length", "{} instead of {}", px.len(), a.len());
    let (mut m, mut mean, mut at) = error(&px, &a, &b);
    if odd {
        // replication is as good as interpolation for layouts outside the usual ones
        let n = expect(&j, out, false, true);
        let r = error(&px, &n, &n);
        if r.0 < m {
            (m, mean, at) = r;
        }
    }
    let nc = out.num_components();
    // a fixed-point transform is off by less than 2; conversion from YCbCr multiplies that by up to 1.772
    let limit = match (k, out) {
        (_, ColorSpace::Luma | ColorSpace::YCbCr | ColorSpace::YCCK | ColorSpace::CMYK) => 2.6,
        (Kind::YCbCr | Kind::Ycck, _) => 6.5,
        (Kind::Cmyk, _) => 3.6,
        _ => 2.6
    };
    // a systematic offset would show in the mean of larger images
    let mean_limit = if px.len() >= 1500 { limit / 2.5 } else { limit };
    check!(m <= limit && mean <= mean_limit, "pixels off", "off by {m:.1} (mean {mean:.2}) at pixel ({}, {}) component {}: {} instead of {:.1}/{:.1}", at / nc % j.w, at / nc / j.w, at % nc, px[at], a[at], b[at]);
    Ok(())
}

pub fn small(s: &mut Src, c: &mut Ctx) -> Res {
    run(s, c, 70, false)
}

pub fn large(s: &mut Src, c: &mut Ctx) -> Res {
    run(s, c, 400, false)
}

pub fn sampling(s: &mut Src, c: &mut Ctx) -> Res {
    run(s, c, 70, true)
}
