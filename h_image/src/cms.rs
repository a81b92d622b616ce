//! C37: conversion between colour profiles
use crate::im::*;
use moxcms::{ColorProfile, ToneReprCurve};
use pbt::{check, Ctx, Res, Src};
use zune_core::bit_depth::BitDepth;
use zune_core::colorspace::ColorSpace;
use zune_image::traits::OperationsTrait;
use zune_imageprocs::color_transform::{ColorProfiles, ColorTransform};

type M = [[f64; 3]; 3];
fn mul(a: &M, b: &M) -> M {
    let mut o = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            o[i][j] = (0..3).map(|k| a[i][k] * b[k][j]).sum();
        }
    }
    o
}
fn app(a: &M, v: [f64; 3]) -> [f64; 3] {
    [0, 1, 2].map(|i| (0..3).map(|k| a[i][k] * v[k]).sum())
}
fn inv(m: &M) -> M {
    let c = |a: usize, b: usize, x: usize, y: usize| m[a][x] * m[b][y] - m[a][y] * m[b][x];
    let d = m[0][0] * c(1, 2, 1, 2) - m[0][1] * c(1, 2, 0, 2) + m[0][2] * c(1, 2, 0, 1);
    let mut o = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            let (a, b) = ((j + 1) % 3, (j + 2) % 3);
            let (x, y) = ((i + 1) % 3, (i + 2) % 3);
            o[i][j] = (m[a][x] * m[b][y] - m[a][y] * m[b][x]) / d;
        }
    }
    o
}
fn xyz(x: f64, y: f64) -> [f64; 3] {
    [x / y, 1.0, (1.0 - x - y) / y]
}
/// linear samples of a space to XYZ relative to D50
fn space(prim: [(f64, f64); 3], white: (f64, f64)) -> M {
    let p = prim.map(|(x, y)| xyz(x, y));
    let m: M = [0, 1, 2].map(|i| [p[0][i], p[1][i], p[2][i]]);
    let w = xyz(white.0, white.1);
    let s = app(&inv(&m), w);
    let m: M = [0, 1, 2].map(|i| [0, 1, 2].map(|j| m[i][j] * s[j]));
    let brad: M = [[0.8951, 0.2664, -0.1614], [-0.7502, 1.7135, 0.0367], [0.0389, -0.0685, 1.0296]];
    let (a, b) = (app(&brad, w), app(&brad, [0.9642, 1.0, 0.8249]));
    let d: M = [[b[0] / a[0], 0.0, 0.0], [0.0, b[1] / a[1], 0.0], [0.0, 0.0, b[2] / a[2]]];
    mul(&mul(&inv(&brad), &mul(&d, &brad)), &m)
}

#[derive(Copy, Clone, Debug, PartialEq)]
enum Curve {
    Srgb,
    Rec709,
    Gamma(f64),
}
impl Curve {
    fn lin(self, v: f64) -> f64 {
        match self {
            Curve::Srgb if v <= 0.04045 => v / 12.92,
            Curve::Srgb => ((v + 0.055) / 1.055).powf(2.4),
            Curve::Rec709 if v < 0.08125 => v / 4.5,
            Curve::Rec709 => ((v + 0.099297) / 1.099297).powf(1.0 / 0.45),
            Curve::Gamma(g) => v.max(0.0).powf(g),
        }
    }
    fn enc(self, v: f64) -> f64 {
        let v = v.clamp(0.0, 1.0);
        match self {
            Curve::Srgb if v <= 0.0031308 => v * 12.92,
            Curve::Srgb => 1.055 * v.powf(1.0 / 2.4) - 0.055,
            Curve::Rec709 if v < 0.018054 => v * 4.5,
            Curve::Rec709 => 1.099297 * v.powf(0.45) - 0.099297,
            Curve::Gamma(g) => v.powf(1.0 / g),
        }
    }
}

const D65: (f64, f64) = (0.3127, 0.3290);
const REC709: [(f64, f64); 3] = [(0.64, 0.33), (0.30, 0.60), (0.15, 0.06)];
const ADOBE: [(f64, f64); 3] = [(0.64, 0.33), (0.21, 0.71), (0.15, 0.06)];
const P3: [(f64, f64); 3] = [(0.68, 0.32), (0.265, 0.69), (0.15, 0.06)];
const REC2020: [(f64, f64); 3] = [(0.708, 0.292), (0.17, 0.797), (0.131, 0.046)];
const PROPHOTO: [(f64, f64); 3] = [(0.734699, 0.265301), (0.159597, 0.840403), (0.036598, 0.000105)];
/// as the colour library takes it, the daylight of 6300 K
const DCI_WHITE: (f64, f64) = (0.316145, 0.332493);

/// number of a space, its matrix and the curves it may be described with
fn known(k: usize) -> (M, Vec<Curve>) {
    match k {
        0 => (space(REC709, D65), vec![Curve::Srgb]),
        1 => (space(ADOBE, D65), vec![Curve::Gamma(2.19921875)]),
        2 => (space(P3, D65), vec![Curve::Srgb]),
        3 => (space(REC2020, D65), vec![Curve::Rec709]),
        // described with a gamma of 2.6, tagged as using the sRGB curve
        4 => (space(P3, DCI_WHITE), vec![Curve::Gamma(2.6), Curve::Srgb]),
        _ => (space(PROPHOTO, (0.3457, 0.3585)), vec![Curve::Gamma(1.8)]),
    }
}
fn profile(k: usize) -> ColorProfile {
    match k {
        0 => ColorProfile::new_srgb(),
        1 => ColorProfile::new_adobe_rgb(),
        2 => ColorProfile::new_display_p3(),
        3 => ColorProfile::new_bt2020(),
        4 => ColorProfile::new_dci_p3(),
        _ => ColorProfile::new_pro_photo_rgb(),
    }
}
fn dest(k: usize) -> ColorProfiles {
    [ColorProfiles::sRGB, ColorProfiles::AdobeRgb, ColorProfiles::DisplayP3, ColorProfiles::Bt2020, ColorProfiles::DciP3][k]
}

pub fn profiles(s: &mut Src, c: &mut Ctx) -> Res {
    let (w, h) = crate::geom::sides(s, 24);
    let cs = if s.chance(1, 8) { any_cs(s) } else { s.pick(&[ColorSpace::RGB, ColorSpace::RGBA, ColorSpace::RGB]) };
    let (d, f) = (s.pick(&DEPTHS), nframes(s));
    let p = pic(s, d, cs, w, h, f);
    let mut i = p.image();
    let to = s.below(5) as usize;
    // a profile of one of the spaces, possibly with another curve, none, or garbage
    let kind = s.below(20);
    let k = s.below(6) as usize;
    let (src, mut curves) = known(k);
    let icc = match kind {
        0 => None,
        1 => Some(s.data(200)),
        _ => {
            let mut q = profile(k);
            if s.chance(1, 4) {
                let g = (1.0 + s.below(20) as f64 / 10.0) as f32;
                // a one-parameter curve
                let t = ToneReprCurve::Parametric(vec![g]);
                q.red_trc = Some(t.clone());
                q.green_trc = Some(t.clone());
                q.blue_trc = Some(t);
                q.cicp = None;
                curves = vec![Curve::Gamma(g as f64)];
            }
            Some(q.encode().unwrap())
        }
    };
    c.note(format!("{} from {k} (kind {kind}, {curves:?}) to {to}", p.text()));
    if let Some(v) = &icc {
        i.metadata_mut().set_icc_chunk(v.clone());
    }
    let before = i.clone();
    let r = ColorTransform::new(dest(to)).execute(&mut i);
    let got = Pic::of(&i)?;
    check!((got.w, got.h, got.cs, got.depth, got.frames.len()) == (p.w, p.h, p.cs, p.depth, p.frames.len()), "shape of the picture", "{} for {}", got.text(), p.text());
    for (a, b) in i.frames_ref().iter().zip(before.frames_ref()) {
        check!((a.numerator(), a.denominator()) == (b.numerator(), b.denominator()), "duration of a frame", "");
    }
    if icc.is_none() {
        check!(r.is_ok(), "picture without a profile refused", "{r:?}");
        check!(got.frames == p.frames && i.metadata().icc_chunk().is_none(), "picture without a profile changed", "");
        return Ok(());
    }
    if r.is_err() {
        check!(got.frames == p.frames, "refused but changed", "");
        check!(i.metadata().icc_chunk() == before.metadata().icc_chunk(), "refused but its profile changed", "");
        check!(kind == 1 || !matches!(cs, ColorSpace::RGB | ColorSpace::RGBA), "refused", "{r:?}");
        return Ok(());
    }
    check!(kind != 1, "garbage taken as a profile", "");
    // the result is described by the destination
    let icc = i.metadata().icc_chunk().cloned().unwrap_or_default();
    let q = match ColorProfile::new_from_slice(&icc) {
        Ok(q) => q,
        Err(e) => return pbt::fail("profile of the result", format!("{e:?}")),
    };
    let (dst, dcurves) = known(to);
    for (j, x) in [q.red_colorant, q.green_colorant, q.blue_colorant].iter().enumerate() {
        let e = [x.x, x.y, x.z];
        for n in 0..3 {
            check!((e[n] - dst[n][j]).abs() < 0.004, "profile of the result is not the destination", "colorant {j}: {e:?} for {:?}", [dst[0][j], dst[1][j], dst[2][j]]);
        }
    }
    if !matches!(cs, ColorSpace::RGB | ColorSpace::RGBA) {
        return Ok(());
    }
    if k != to {
        c.nontrivial();
    }
    c.label(format!("{d:?} {k}->{to}"));
    let m = mul(&inv(&dst), &src);
    let max = maxval(d);
    let step = match d {
        BitDepth::Eight => 1.1 / 255.0,
        _ => 0.0012,
    };
    let mut worst = String::new();
    let ok = curves.iter().any(|sc| {
        dcurves.iter().any(|dc| {
            for (gf, pf) in got.frames.iter().zip(&p.frames) {
                for n in 0..w * h {
                    let l = app(&m, [0, 1, 2].map(|j| sc.lin((pf[j][n] / max).clamp(0.0, 1.0))));
                    for j in 0..3 {
                        let e = 0.0035;
                        let (lo, hi) = (dc.enc(l[j] - e) - step, dc.enc(l[j] + e) + step);
                        let v = gf[j][n] / max;
                        if !(v >= lo && v <= hi) {
                            worst = format!("channel {j} of pixel {n}: {:?} gives {v}, expected {} ({lo}..{hi}), curves {sc:?} {dc:?}", [0, 1, 2].map(|j| pf[j][n] / max), dc.enc(l[j]));
                            return false;
                        }
                    }
                }
            }
            true
        })
    });
    check!(ok, &format!("{d:?} colour"), "{k} to {to}: {worst}");
    if cs.has_alpha() {
        for (gf, pf) in got.frames.iter().zip(&p.frames) {
            check!(gf[3] == pf[3], "alpha", "{}", p.text());
        }
    }
    Ok(())
}
