//! C31: resizing, affine transforms and rotation by any angle
use crate::filt::alpha_index;
use crate::geom::{apply, sides};
use crate::im::*;
use pbt::{check, Ctx, Res, Src};
use std::f64::consts::PI;
use zune_core::bit_depth::BitDepth;
use zune_core::colorspace::{ColorCharacteristics as Cc, ColorSpace};
use zune_image::metadata::AlphaState;
use zune_image::traits::OperationsTrait;
use zune_imageprocs::affine::{get_affine_output_dimensions, AffineTransform};
use zune_imageprocs::resize::{Resize, ResizeMethod};
use zune_imageprocs::rotate::Rotate;

/// the transfer curves of ITU-T H.273
fn to_linear(c: Cc, v: f64) -> f64 {
    let piece = |k: f64, cut: f64, a: f64, p: f64| if v < 0.0 { 0.0 } else if v < k * cut { v / k } else if v < 1.0 { ((v + a) / (1.0 + a)).powf(p) } else { 1.0 };
    match c {
        Cc::sRGB => piece(12.92, 0.0030412825601275209, 0.0550107189475866, 2.4),
        Cc::Rec709 => piece(4.5, 0.018053968510807, 0.09929682680944, 1.0 / 0.45),
        Cc::Gamma2p2 => v.clamp(0.0, 1.0).powf(2.2),
        Cc::Gamma2p8 => v.clamp(0.0, 1.0).powf(2.8),
        Cc::Smpte428 => v.max(0.0).powf(2.6) * 52.37 / 48.0,
        Cc::Log100 => if v <= 0.0 { 0.005 } else { 10f64.powf(2.0 * (v.min(1.0) - 1.0)) },
        Cc::Log100Sqrt10 => if v <= 0.0 { 0.00316227766 / 2.0 } else { 10f64.powf(2.5 * (v.min(1.0) - 1.0)) },
        Cc::Bt1361 => piece(4.5, 0.018053968510807, 0.09929682680944, 1.0 / 0.45),
        Cc::Smpte240 => piece(4.0, 0.022821585529445, 0.111572195921731, 1.0 / 0.45),
        Cc::Iec61966 => if v < 4.5 * 0.018053968510807 { v / 4.5 } else { ((v + 0.09929682680944) / 1.09929682680944).powf(1.0 / 0.45) },
        Cc::Linear => v,
    }
}

fn from_linear(c: Cc, v: f64) -> f64 {
    let piece = |k: f64, cut: f64, a: f64, p: f64| if v < 0.0 { 0.0 } else if v < cut { v * k } else if v < 1.0 { (1.0 + a) * v.powf(p) - a } else { 1.0 };
    match c {
        Cc::sRGB => piece(12.92, 0.0030412825601275209, 0.0550107189475866, 1.0 / 2.4),
        Cc::Rec709 => piece(4.5, 0.018053968510807, 0.09929682680944, 0.45),
        Cc::Gamma2p2 => v.clamp(0.0, 1.0).powf(1.0 / 2.2),
        Cc::Gamma2p8 => v.clamp(0.0, 1.0).powf(1.0 / 2.8),
        Cc::Smpte428 => (v.max(0.0) * 48.0 / 52.37).powf(1.0 / 2.6),
        Cc::Log100 => if v <= 0.01 { 0.0 } else { 1.0 + v.min(1.0).log10() / 2.0 },
        Cc::Log100Sqrt10 => if v <= 0.00316227766 { 0.0 } else { 1.0 + v.min(1.0).log10() / 2.5 },
        Cc::Bt1361 => {
            if v < -0.25 {
                -0.25
            } else if v < 0.0 {
                -0.27482420670236 * (-4.0 * v).powf(0.45) + 0.02482420670236
            } else {
                piece(4.5, 0.018053968510807, 0.09929682680944, 0.45)
            }
        }
        Cc::Smpte240 => piece(4.0, 0.022821585529445, 0.111572195921731, 0.45),
        Cc::Iec61966 => {
            if v < -0.018053968510807 {
                -1.09929682680944 * (-v).powf(0.45) + 0.09929682680944
            } else if v < 0.018053968510807 {
                v * 4.5
            } else {
                1.09929682680944 * v.powf(0.45) - 0.09929682680944
            }
        }
        Cc::Linear => v,
    }
}

fn cubic(x: f64, b: f64, c: f64) -> f64 {
    let x = x.abs();
    if x < 1.0 {
        ((12.0 - 9.0 * b - 6.0 * c) * x.powi(3) + (-18.0 + 12.0 * b + 6.0 * c) * x * x + 6.0 - 2.0 * b) / 6.0
    } else if x < 2.0 {
        ((-b - 6.0 * c) * x.powi(3) + (6.0 * b + 30.0 * c) * x * x + (-12.0 * b - 48.0 * c) * x + 8.0 * b + 24.0 * c) / 6.0
    } else {
        0.0
    }
}

fn sinc(x: f64) -> f64 {
    if x == 0.0 {
        1.0
    } else {
        (PI * x).sin() / (PI * x)
    }
}

/// source positions and weights of every output position along one axis
fn taps(m: ResizeMethod, n: usize, out: usize) -> Vec<Vec<(usize, f64)>> {
    let ratio = n as f64 / out as f64;
    (0..out)
        .map(|o| {
            if n == out {
                return vec![(o, 1.0)];
            }
            if m == ResizeMethod::Bilinear {
                let x = o as f64 * ratio;
                let i = (x.floor() as usize).min(n - 1);
                let f = x - i as f64;
                return vec![(i, 1.0 - f), ((i + 1).min(n - 1), f)];
            }
            let x = (o as f64 + 0.5) * ratio - 0.5;
            let a = if matches!(m, ResizeMethod::Lanczos3 | ResizeMethod::Sinc) { 3.0 } else { 2.0 };
            let k = |d: f64| -> f64 {
                if d.abs() >= a {
                    return 0.0;
                }
                match m {
                    ResizeMethod::Lanczos3 | ResizeMethod::Lanczos2 => sinc(d) * sinc(d / a),
                    ResizeMethod::Sinc => sinc(d),
                    ResizeMethod::Bicubic | ResizeMethod::Mitchell => cubic(d, 1.0 / 3.0, 1.0 / 3.0),
                    ResizeMethod::CatmullRom => cubic(d, 0.0, 0.5),
                    ResizeMethod::BSpline => cubic(d, 1.0, 0.0),
                    _ => cubic(d, 0.0, 0.0),
                }
            };
            let all: Vec<(usize, f64)> = (0..n).map(|i| (i, k(i as f64 - x))).filter(|t| t.1 != 0.0).collect();
            let sum: f64 = all.iter().map(|t| t.1).sum();
            all.into_iter().map(|(i, w)| (i, w / sum)).collect()
        })
        .collect()
}

pub fn resized(v: &[f64], w: usize, tx: &[Vec<(usize, f64)>], ty: &[Vec<(usize, f64)>]) -> Vec<f64> {
    let h = v.len() / w;
    let mut rows = vec![0.0; tx.len() * h];
    for y in 0..h {
        for (x, t) in tx.iter().enumerate() {
            rows[y * tx.len() + x] = t.iter().map(|(i, k)| v[y * w + i] * k).sum();
        }
    }
    let mut o = Vec::with_capacity(tx.len() * ty.len());
    for t in ty {
        for x in 0..tx.len() {
            o.push(t.iter().map(|(i, k)| rows[i * tx.len() + x] * k).sum());
        }
    }
    o
}

const METHODS: [ResizeMethod; 9] = [
    ResizeMethod::Lanczos3,
    ResizeMethod::Lanczos2,
    ResizeMethod::Bicubic,
    ResizeMethod::CatmullRom,
    ResizeMethod::Mitchell,
    ResizeMethod::BSpline,
    ResizeMethod::Hermite,
    ResizeMethod::Sinc,
    ResizeMethod::Bilinear,
];

pub fn resize(s: &mut Src, c: &mut Ctx) -> Res {
    let (w, h) = sides(s, 40);
    let (nw, nh) = match s.below(10) {
        0 => (w, h),
        1 => (w, s.dim(60)),
        2 => (s.dim(60), h),
        3 => (2 * w, 2 * h),
        4 => (w.div_ceil(2), h.div_ceil(2)),
        _ => sides(s, 60),
    };
    let cs = if s.chance(1, 3) { any_cs(s) } else { s.pick(&[ColorSpace::RGB, ColorSpace::RGBA, ColorSpace::Luma, ColorSpace::LumaA, ColorSpace::ARGB]) };
    let (d, f) = (s.pick(&DEPTHS), nframes(s));
    let mut p = pic(s, d, cs, w, h, f);
    let constant = s.chance(1, 6);
    let ai = alpha_index(cs);
    if constant {
let floor = p.depth_floor();
        for f in p.frames.iter_mut() {
            for ch in f.iter_mut() {
                let v = ch[0];
                ch.fill(v);
            }
            if let Some(a) = ai {
                if f[a][0] < floor {
                    f[a].fill(maxval(d));
                }
            }
        }
    }
    let method = s.pick(&METHODS);
    let mut i = p.image();
    let mut curve = Cc::sRGB;
    match s.below(6) {
        0 => {
            curve = s.pick(&[Cc::sRGB, Cc::Rec709, Cc::Gamma2p2, Cc::Gamma2p8, Cc::Smpte428, Cc::Log100, Cc::Log100Sqrt10, Cc::Bt1361, Cc::Smpte240, Cc::Iec61966]);
            i.metadata_mut().set_color_trc(curve);
        }
        1 => {
            curve = Cc::Linear;
            i.metadata_mut().set_color_trc(curve);
        }
        2 => {
            curve = Cc::Linear;
            i.metadata_mut().set_linear(true);
        }
        _ => {}
    }
    let premul = s.chance(1, 6);
    if premul {
        i.metadata_mut().set_alpha(AlphaState::PreMultiplied);
    }
    let before = (i.metadata().is_linear(), i.metadata().color_trc(), i.metadata().alpha());
    c.note(format!("{} to {nw}x{nh} {method:?} {curve:?} premultiplied {premul} constant {constant}", p.text()));
    c.label(format!("{method:?}"));
    apply(&Resize::new(nw, nh, method), &mut i)?;
    let got = Pic::of(&i)?;
    check!((got.w, got.h, got.cs, got.depth, got.frames.len()) == (nw, nh, cs, d, f), "resize: type", "{} became {}", p.text(), got.text());
    check!(before == (i.metadata().is_linear(), i.metadata().color_trc(), i.metadata().alpha()), "resize: color metadata changed", "{before:?}");
    if (w, h) == (nw, nh) {
        return got.same(&p, 0.0, "resize: same size");
    }
    c.nontrivial();
    let m = p.max();
    let float = d == BitDepth::Float32;
    let (tx, ty) = (taps(method, w, nw), taps(method, h, nh));
    let mul = ai.is_some() && !premul;
    for (fi, fr) in p.frames.iter().enumerate() {
        let alpha: Option<Vec<f64>> = ai.map(|a| fr[a].iter().map(|v| v / m).collect());
        let new_alpha = alpha.as_ref().map(|a| resized(a, w, &tx, &ty));
        for (ci, ch) in fr.iter().enumerate() {
            let is_alpha = ai == Some(ci);
            let norm: Vec<f64> = ch.iter().map(|v| v / m).collect();
            let lin: Vec<f64> = if is_alpha { norm.clone() } else { norm.iter().map(|v| to_linear(curve, *v)).collect() };
            let pre: Vec<f64> = if mul && !is_alpha { lin.iter().zip(alpha.as_ref().unwrap()).map(|(v, a)| v * a).collect() } else { lin.clone() };
            let out = resized(&pre, w, &tx, &ty);
            // single precision weights: up to 36 products of numbers up to 1.1
            let e0 = if constant { 1e-6 * pre[0].abs() } else { 3e-5 };
            for (k, v) in out.iter().enumerate() {
                let (mut lo, mut hi) = (v - e0, v + e0);
                if mul && !is_alpha {
                    let a = new_alpha.as_ref().unwrap()[k];
                    if a < 0.02 {
                        // hardly visible: the colour is the quotient of two small numbers
                        continue;
                    }
                    let ea = if constant { 1e-6 * a } else { 3e-5 };
                    let (l, h) = (lo.min(0.0) / (a - ea) + lo.max(0.0) / (a + ea), hi.max(0.0) / (a - ea) + hi.min(0.0) / (a + ea));
                    (lo, hi) = (l, h);
                }
                if !is_alpha {
                    // (BT.1361 jumps at zero)
                    let mut ends = vec![from_linear(curve, lo), from_linear(curve, hi)];
                    if lo < 0.0 && hi >= 0.0 {
                        ends.push(from_linear(curve, 0.0));
                        ends.push(from_linear(curve, -1e-12));
                    }
                    lo = ends.iter().cloned().fold(f64::MAX, f64::min);
                    hi = ends.iter().cloned().fold(f64::MIN, f64::max);
                }
                let e1 = if constant { 2e-6 } else { 4e-6 };
                (lo, hi) = ((lo - e1) * m, (hi + e1) * m);
                let g = got.frames[fi][ci][k];
                if !float {
                    (lo, hi) = ((lo - 0.5).ceil().clamp(0.0, m), (hi + 0.5).floor().clamp(0.0, m));
                }
                check!(
                    g >= lo && g <= hi,
                    if constant { "resize: flat image changed" } else { "resize: samples" },
                    "frame {fi} channel {ci} at ({}, {}): got {g}, expected {lo}..{hi}; {} to {nw}x{nh} {method:?} {curve:?}",
                    k % nw,
                    k / nw,
                    p.text()
                );
                if constant && !float && !(ai.is_some() && premul) {
                    check!(g == ch[0], "resize: flat image changed", "frame {fi} channel {ci}: {} became {g}; {} to {nw}x{nh} {method:?} {curve:?}", ch[0], p.text());
                }
            }
        }
    }
    Ok(())
}

impl Pic {
    /// the smallest alpha for which colours are kept
    fn depth_floor(&self) -> f64 {
        if self.depth == BitDepth::Float32 {
            0.02
        } else {
            6.0
        }
    }
}

/// bilinear sample of a plane; None outside; (min, max) over the uncertainty of the position
fn warp_range(v: &[f64], w: usize, h: usize, x: f64, y: f64, m: f64) -> (f64, f64) {
    let e = 2e-3;
    let (mx, my) = ((w - 1) as f64, (h - 1) as f64);
    let surely_out = x < -e || y < -e || x > mx + e || y > my + e;
    if surely_out {
        return (m, m);
    }
    let surely_in = x > e && y > e && x < mx - e && y < my - e;
    let (cx, cy) = (x.clamp(0.0, mx), y.clamp(0.0, my));
    let (x0, y0) = (cx.floor() as usize, cy.floor() as usize);
    let (x1, y1) = ((x0 + 1).min(w - 1), (y0 + 1).min(h - 1));
    let (fx, fy) = (cx - x0 as f64, cy - y0 as f64);
    let (a, b, c, d) = (v[y0 * w + x0], v[y0 * w + x1], v[y1 * w + x0], v[y1 * w + x1]);
    let r = a * (1.0 - fx) * (1.0 - fy) + b * fx * (1.0 - fy) + c * (1.0 - fx) * fy + d * fx * fy;
    // the position is known to about 1e-4 (and near a grid line may fall in the next cell)
    let (lo, hi) = (a.min(b).min(c).min(d), a.max(b).max(c).max(d));
    let mut near = (lo, hi);
    if fx < e || fx > 1.0 - e || fy < e || fy > 1.0 - e {
        for dy in [-1i64, 0, 1, 2] {
            for dx in [-1i64, 0, 1, 2] {
                let q = v[(y0 as i64 + dy).clamp(0, h as i64 - 1) as usize * w + (x0 as i64 + dx).clamp(0, w as i64 - 1) as usize];
                near = (near.0.min(q), near.1.max(q));
            }
        }
    }
    let t = (near.1 - near.0) * 1e-3;
    let (mut l, mut u) = (r - t, r + t);
    if !surely_in {
        u = m;
        l = l.min(m);
    }
    (l, u)
}

pub fn warp(s: &mut Src, c: &mut Ctx) -> Res {
    let (w, h) = sides(s, 30);
    let (cs, d, f) = (any_cs(s), s.pick(&DEPTHS), nframes(s));
    let p = pic(s, d, cs, w, h, f);
    let m = p.max();
    let float = d == BitDepth::Float32;
    let mut i = p.image();
    let real = |s: &mut Src, lo: f64, hi: f64| (lo + s.f64() * (hi - lo)) as f32;
    let kind = s.below(8);
    // (inverse map, output size range, exact map)
    let t: AffineTransform = match kind {
        0 => AffineTransform::identity(),
        1 => AffineTransform::translation(s.below(9) as f32 - 4.0, s.below(9) as f32 - 4.0),
        2 => AffineTransform::scale(real(s, 0.3, 3.0), real(s, 0.3, 3.0)),
        3 => AffineTransform::shear(real(s, -0.8, 0.8), real(s, -0.8, 0.8)),
        4 => AffineTransform::rotation(real(s, -360.0, 360.0)),
        5 => AffineTransform::rotation(real(s, 0.0, 360.0)).then(&AffineTransform::scale(real(s, 0.5, 2.0), real(s, 0.5, 2.0))).then(&AffineTransform::translation(real(s, -9.0, 9.0), real(s, -9.0, 9.0))),
        6 => AffineTransform::new(real(s, -2.0, 2.0), real(s, -2.0, 2.0), real(s, -2.0, 2.0), real(s, -2.0, 2.0), real(s, -20.0, 20.0), real(s, -20.0, 20.0)),
        _ => return turn(&p, real(s, -400.0, 400.0), c),
    };
    c.note(format!("{} by {t:?}", p.text()));
    let (a, b, cc, dd, tx, ty) = (t.a as f64, t.b as f64, t.c as f64, t.d as f64, t.tx as f64, t.ty as f64);
    let det = a * dd - b * cc;
    // the algebra
    let pt = (real(s, -50.0, 50.0), real(s, -50.0, 50.0));
    let q = t.transform_point(pt.0, pt.1);
    check!((q.0 as f64 - (a * pt.0 as f64 + b * pt.1 as f64 + tx)).abs() < 1e-3 && (q.1 as f64 - (cc * pt.0 as f64 + dd * pt.1 as f64 + ty)).abs() < 1e-3, "affine: point", "{pt:?} became {q:?} by {t:?}");
    let u = AffineTransform::new(real(s, -2.0, 2.0), real(s, -2.0, 2.0), real(s, -2.0, 2.0), real(s, -2.0, 2.0), real(s, -9.0, 9.0), real(s, -9.0, 9.0));
    let both = t.then(&u).transform_point(pt.0, pt.1);
    let (p1, p2) = (u.transform_point(pt.0, pt.1), t.transform_point(pt.0, pt.1));
    let (one, other) = (t.transform_point(p1.0, p1.1), u.transform_point(p2.0, p2.1));
    let close = |x: (f32, f32), y: (f32, f32)| (x.0 - y.0).abs() < 1e-2 && (x.1 - y.1).abs() < 1e-2;
    check!(close(both, one) || close(both, other), "affine: composition", "{t:?} then {u:?} maps {pt:?} to {both:?}, one after the other to {one:?} or {other:?}");
    let singular = det.abs() < 1e-9;
    match t.inverse() {
        Some(v) if det.abs() > 0.05 => {
            let r = v.transform_point(q.0, q.1);
            let tol = 1e-2 / det.abs().min(1.0);
            check!(((r.0 - pt.0) as f64).abs() < tol && ((r.1 - pt.1) as f64).abs() < tol, "affine: inverse", "{pt:?} came back as {r:?} by {t:?}");
        }
        None => check!(det.abs() < 1e-5, "affine: inverse", "no inverse of {t:?}"),
        _ => {}
    }
    let r = t.execute(&mut i);
    let got = Pic::of(&i)?;
    if r.is_err() {
        check!(det.abs() < 1e-5, "affine: refused", "{r:?} {t:?}");
        return got.same(&p, 0.0, "affine: refused but changed the picture");
    }
    if singular || det.abs() < 0.15 {
        return Ok(());
    }
    let corners = [(0.0, 0.0), (w as f64, 0.0), (0.0, h as f64), (w as f64, h as f64)].map(|(x, y)| (a * x + b * y + tx, cc * x + dd * y + ty));
    let min = corners.iter().fold((f64::MAX, f64::MAX), |m, c| (m.0.min(c.0), m.1.min(c.1)));
    let max = corners.iter().fold((f64::MIN, f64::MIN), |m, c| (m.0.max(c.0), m.1.max(c.1)));
    for (g, e, n) in [(got.w, max.0 - min.0, "width"), (got.h, max.1 - min.1, "height")] {
        check!(g as f64 >= (e - 1e-3).ceil() && g as f64 <= (e + 1e-3).ceil(), &format!("affine: {n}"), "{g} for an extent of {e}; {} by {t:?}", p.text());
    }
    check!((got.w, got.h) == get_affine_output_dimensions(w, h, &t), "affine: output dimensions", "{t:?}");
    check!((got.cs, got.depth, got.frames.len()) == (cs, d, f), "affine: type", "{} became {}", p.text(), got.text());
    if kind <= 1 {
        return got.same(&p, 0.0, "affine: identity and translation");
    }
    c.nontrivial();
    compare_warp(&p, &got, "affine", m, float, |x, y| {
        let (x, y) = (x + min.0 - tx, y + min.1 - ty);
        ((dd * x - b * y) / det, (a * y - cc * x) / det)
    })
}

fn compare_warp(p: &Pic, got: &Pic, what: &str, m: f64, float: bool, inv: impl Fn(f64, f64) -> (f64, f64)) -> Res {
    for (fi, fr) in p.frames.iter().enumerate() {
        for (ci, ch) in fr.iter().enumerate() {
            for k in 0..got.w * got.h {
                let (x, y) = inv((k % got.w) as f64, (k / got.w) as f64);
                let (lo, hi) = warp_range(ch, p.w, p.h, x, y, m);
                let g = got.frames[fi][ci][k];
                let (lo, hi) = if float { (lo - 1e-5, hi + 1e-5) } else { (lo.floor(), hi.ceil()) };
                check!(g >= lo && g <= hi, &format!("{what}: samples"), "frame {fi} channel {ci} at ({}, {}), source ({x}, {y}): got {g}, expected {lo}..{hi}; {}", k % got.w, k / got.w, p.text());
            }
        }
    }
    Ok(())
}

fn turn(p: &Pic, angle: f32, c: &mut Ctx) -> Res {
    c.note(format!("{} turned by {angle}", p.text()));
    let mut i = p.image();
    apply(&Rotate::new(angle), &mut i)?;
    let got = Pic::of(&i)?;
    let (sin, cos) = (angle as f64).to_radians().sin_cos();
    let (w, h) = (p.w as f64, p.h as f64);
    if sin.abs() < 1e-4 || cos.abs() < 1e-4 {
        return Ok(());
    }
    for (g, e, n) in [(got.w, w * cos.abs() + h * sin.abs(), "width"), (got.h, w * sin.abs() + h * cos.abs(), "height")] {
        check!(g as f64 >= (e - 1e-3).ceil() && g as f64 <= (e + 1e-3).ceil(), &format!("rotate: {n}"), "{g} for an extent of {e}; {} by {angle}", p.text());
    }
    c.nontrivial();
    let (ow, oh) = (got.w as f64 / 2.0, got.h as f64 / 2.0);
    compare_warp(p, &got, "rotate", p.max(), p.depth == BitDepth::Float32, |x, y| {
        let (x, y) = (x - ow, y - oh);
        (x * cos + y * sin + w / 2.0, -x * sin + y * cos + h / 2.0)
    })
}

/// the sizes offered for scaling without distortion
pub fn ratios(s: &mut Src, c: &mut Ctx) -> Res {
    use zune_imageprocs::resize::{ratio_dimensions_larger, ratio_dimensions_smaller};
    let side = |s: &mut Src| 1 + if s.bool() { s.below(60) } else { s.below(20_000) } as usize;
    let (w, h, nw, nh) = (side(s), side(s), side(s), side(s));
    c.note(format!("{w}x{h} into {nw}x{nh}"));
    c.nontrivial();
    for (k, (tw, th)) in [ratio_dimensions_smaller(w, h, nw, nh), ratio_dimensions_larger(w, h, nw, nh)].into_iter().enumerate() {
        let name = ["smaller", "larger"][k];
        let near = |a: usize, b: f64| (a as f64 - b).abs() <= 1.0 + 1e-6;
        // one side is as asked for, the other follows the shape of the picture
        let by_w = near(tw, nw as f64) && near(th, h as f64 * nw as f64 / w as f64);
        let by_h = near(th, nh as f64) && near(tw, w as f64 * nh as f64 / h as f64);
        check!(by_w || by_h, &format!("ratio_dimensions_{name} distorts"), "{w}x{h} into {nw}x{nh}: {tw}x{th}");
        if k == 0 {
            check!(tw <= nw && th <= nh, "ratio_dimensions_smaller exceeds the size", "{w}x{h} into {nw}x{nh}: {tw}x{th}");
        }
    }
    Ok(())
}
