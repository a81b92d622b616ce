//! C29: pointwise operations
use crate::filt::{alpha_index, compare, Range};
use crate::im::*;
use pbt::{check, Ctx, Res, Src};
use zune_core::bit_depth::BitDepth;
use zune_core::colorspace::ColorSpace;
use zune_image::traits::OperationsTrait;
use zune_imageprocs::brighten::Brighten;
use zune_imageprocs::color_matrix::ColorMatrix;
use zune_imageprocs::contrast::Contrast;
use zune_imageprocs::exposure::Exposure;
use zune_imageprocs::gamma::Gamma;
use zune_imageprocs::hsv_adjust::HsvAdjust;
use zune_imageprocs::invert::Invert;
use zune_imageprocs::stretch_contrast::{stretch_contrast, stretch_contrast_f32, StretchContrast};
use zune_imageprocs::threshold::{Threshold, ThresholdMethod};

const PLAIN: [ColorSpace; 4] = [ColorSpace::RGB, ColorSpace::RGBA, ColorSpace::Luma, ColorSpace::LumaA];

/// a real result stored in a sample: truncated or rounded, with an allowance for single precision
fn stored(d: BitDepth, v: f64, clamp: bool) -> Range {
    let m = maxval(d);
    match d {
        BitDepth::Float32 => {
            let e = 1e-5 * (1.0 + v.abs());
            if clamp {
                ((v - e).clamp(0.0, m), (v + e).clamp(0.0, m))
            } else {
                (v - e, v + e)
            }
        }
        _ => {
            let e = m * 1e-6 + v.abs() * 1e-6;
            ((v - e).floor().clamp(0.0, m), (v + e).ceil().clamp(0.0, m))
        }
    }
}

fn real(s: &mut Src, lo: f64, hi: f64) -> f32 {
    (lo + s.f64() * (hi - lo)) as f32
}

pub fn points(s: &mut Src, c: &mut Ctx) -> Res {
    let op = s.below(10);
    // sizes up to a full table of 8-bit values and uneven ones
    let (w, h) = crate::geom::sides(s, 40);
    let cs = if s.chance(1, 2) { s.pick(&PLAIN) } else { any_cs(s) };
    let (d, f) = (s.pick(&DEPTHS), nframes(s));
    let p = if d != BitDepth::Float32 && s.chance(1, 40) {
        // every value of the depth
        let side = if d == BitDepth::Eight { 16 } else { 256 };
        let m = maxval(d) as usize;
        let k = s.usize(0, m);
        let n = cs.num_components();
        Pic { w: side, h: side, cs, depth: d, frames: vec![(0..n).map(|j| (0..side * side).map(|i| ((i + k * j) & m) as f64).collect()).collect()] }
    } else {
        pic(s, d, cs, w, h, f)
    };
    let m = p.max();
    let mut i = p.image();
    let plain = PLAIN.contains(&cs);
    let multi = matches!(cs, ColorSpace::MultiBand(_));
    let float = d == BitDepth::Float32;
    // (operation, name, defined here, alpha is left alone, the value of a sample)
    type F = Box<dyn Fn(f64) -> Range>;
    let (o, what, defined, neutral, val): (Box<dyn OperationsTrait>, &str, bool, bool, F) = match op {
        0 => {
            let v = if s.chance(1, 6) { s.pick(&[0.0, 1.0, -1.0, 2.0, -1.5]) } else { real(s, -1.0, 1.0) };
            c.note(format!("value: {:?}", v));
            let k = if float { v as f64 } else { (v as f64).clamp(-1.0, 1.0) * m };
            (Box::new(Brighten::new(v)), "brighten", plain, v == 0.0, Box::new(move |x| stored(d, x + k, true)))
        }
        1 => {
            let v = if s.chance(1, 6) { s.pick(&[0.0f32, 255.0, -255.0, 258.0]) } else { real(s, -255.0, 255.0) };
            c.note(format!("contrast: {:?}", v));
            let k = v as f64;
            let f = 259.0 * (k + 255.0) / (255.0 * (259.0 - k));
            (Box::new(Contrast::new(v)), "contrast", plain && d == BitDepth::Eight, v == 0.0, Box::new(move |x| stored(d, f * (x - 128.0) + 128.0, true)))
        }
        2 => {
            let e = if s.chance(1, 6) { s.pick(&[1.0f32, 0.0, -1.0, 100.0]) } else { real(s, -3.0, 3.0) };
            let b = if s.chance(1, 3) { s.pick(&[0.0f32, 0.0, 1.0, -1.0, 2.0]) } else { real(s, 0.0, 1.0) };
            c.note(format!("exposure, black: {:?}", (e, b)));
            let k = (b as f64).clamp(0.0, 1.0) * m;
            (Box::new(Exposure::new(e, b)), "exposure", true, e == 1.0 && k == 0.0, Box::new(move |x| {
                let v = (x - k) * e as f64;
                let (lo, hi) = stored(d, v, !float);
                // the black level is a single precision number
                let t = e.abs() as f64 * m * 1e-6;
                if float { (lo - t, hi + t) } else { stored_between(d, v - t, v + t) }
            }))
        }
        3 => {
            let v = if s.chance(1, 6) { s.pick(&[1.0f32, 0.0, 2.0, 0.5]) } else { real(s, 0.1, 4.0) };
            c.note(format!("gamma: {:?}", v));
            (Box::new(Gamma::new(v)), "gamma", true, v == 1.0, Box::new(move |x| stored(d, m * (x / m).powf(v as f64), !float)))
        }
        4 => (Box::new(Invert::new()), "invert", plain, false, Box::new(move |x| {
            let v = m - x;
            if float { ((v - 1e-6), v + 1e-6) } else { (v, v) }
        })),
        5 => {
            let t: f32 = match s.below(5) {
                0 => s.pick(&[0.0f32, 255.0, 65535.0, -3.0, 70000.0, 1.0, 0.5]),
                _ => (s.f64() * m * 1.1) as f32,
            };
            let k = s.below(4);
            c.note(format!("threshold, method: {:?}", (t, k)));
            let th = if float { t as f64 } else { (t as f64).clamp(0.0, m).floor() };
            let (mm, n) = [(ThresholdMethod::Binary, "threshold binary"), (ThresholdMethod::BinaryInv, "threshold inverse"), (ThresholdMethod::ThreshTrunc, "threshold truncate"), (ThresholdMethod::ThreshToZero, "threshold to zero")][k as usize];
            (Box::new(Threshold::new(t, mm)), n, true, false, Box::new(move |x| {
                let v = match (k, x > th) {
                    (0, a) => if a { m } else { 0.0 },
                    (1, a) => if a { 0.0 } else { m },
                    (2, a) => if a { th } else { x },
                    (_, a) => if a { x } else { 0.0 },
                };
                (v, v)
            }))
        }
        _ => {
            if op == 6 {
                return stretch(&p, s, c);
            }
            return mixing(op, p, s, c);
        }
    };
    c.label(what);
    let r = o.execute(&mut i);
    if !defined {
        // refused, or (for the pictures no rule covers) left to the operation
        let after = Pic::of(&i)?;
        if !multi || what == "contrast" && d != BitDepth::Eight {
            check!(r.is_err(), &format!("{what}: unsupported picture accepted"), "{}", p.text());
            after.same(&p, 0.0, &format!("{what}: refused but changed the picture"))?;
        }
        return Ok(());
    }
    check!(r.is_ok(), &format!("{what}: refused"), "{:?} on {}", r, p.text());
    c.nontrivial();
    let got = Pic::of(&i)?;
    if neutral {
        return got.same(&p, if float { 1e-6 } else { 0.0 }, &format!("{what}: neutral parameter"));
    }
    compare(&p, &got, what, true, &|v| v.iter().map(|x| val(*x)).collect())
}

fn stored_between(d: BitDepth, a: f64, b: f64) -> Range {
    (stored(d, a.min(b), true).0, stored(d, a.max(b), true).1)
}

fn stretch(p: &Pic, s: &mut Src, c: &mut Ctx) -> Res {
    c.label("stretch contrast");
    let d = p.depth;
    let m = p.max();
    let float = d == BitDepth::Float32;
    let (mut lo, mut hi) = if float { (s.f64() as f32 as f64, s.f64() as f32 as f64) } else { (s.usize(0, m as usize) as f64, s.usize(0, m as usize) as f64) };
    match s.below(8) {
        0 => (lo, hi) = (0.0, m),
        1 => hi = lo,
        2 => {}
        _ => (lo, hi) = (lo.min(hi), lo.max(hi)),
    }
    c.note(format!("bounds: {:?}", (lo, hi)));
    let val = move |x: f64| -> Range {
        if x >= hi {
            (m, m)
        } else if x <= lo {
            (0.0, 0.0)
        } else {
            stored(d, (x - lo) / (hi - lo) * m, true)
        }
    };
    if float {
        // only the function on slices takes floats
        for f in &p.frames {
            for ch in f {
                let mut v: Vec<f32> = ch.iter().map(|x| *x as f32).collect();
                let r = stretch_contrast_f32(&mut v, lo as f32, hi as f32);
                check!(r.is_ok() == (lo <= hi), "stretch contrast: bounds", "{lo} {hi}: {r:?}");
                if r.is_err() {
                    continue;
                }
                c.nontrivial();
                for (x, g) in ch.iter().zip(&v) {
                    let (a, b) = val(*x);
                    check!(*g as f64 >= a && *g as f64 <= b, "stretch contrast: samples", "{x} became {g}, expected {a}..{b}, bounds {lo} {hi}");
                }
            }
        }
        return Ok(());
    }
    let mut i = p.image();
    let o = StretchContrast::new(lo as f32, hi as f32);
    let r = o.execute(&mut i);
    check!(r.is_ok() == (lo <= hi), "stretch contrast: bounds", "{lo} {hi}: {r:?} on {}", p.text());
    let got = Pic::of(&i)?;
    if r.is_err() {
        return Ok(());
    }
    c.nontrivial();
    if lo == 0.0 && hi == m {
        got.same(p, 0.0, "stretch contrast: neutral parameter")?;
    }
    // alpha: the operation treats it like any channel or leaves it alone
    for (fi, f) in got.frames.iter().enumerate() {
        for (ci, ch) in f.iter().enumerate() {
            let was = &p.frames[fi][ci];
            if alpha_index(p.cs) == Some(ci) && ch == was {
                continue;
            }
            for (k, (x, g)) in was.iter().zip(ch).enumerate() {
                let (a, b) = val(*x);
                check!(*g >= a && *g <= b, "stretch contrast: samples", "frame {fi} channel {ci} sample {k}: {x} became {g}, expected {a}..{b}, bounds {lo} {hi}; {}", p.text());
            }
        }
    }
    // the function on slices
    if d == BitDepth::Eight && alpha_index(p.cs) != Some(0) {
        let mut v: Vec<u8> = p.frames[0][0].iter().map(|x| *x as u8).collect();
        let _ = stretch_contrast(&mut v, lo as u8, hi as u8, 255);
        check!(v.iter().zip(&got.frames[0][0]).all(|(a, b)| *a as f64 == *b), "stretch contrast: slice function", "differs from the operation");
    }
    Ok(())
}

/// colour matrix and HSV adjustment
fn mixing(op: u64, p: Pic, s: &mut Src, c: &mut Ctx) -> Res {
    let cs = p.cs;
    let d = p.depth;
    let m = p.max();
    let float = d == BitDepth::Float32;
    let mut i = p.image();
    let four = matches!(cs, ColorSpace::RGB | ColorSpace::RGBA | ColorSpace::ARGB | ColorSpace::BGR | ColorSpace::BGRA);
    // to RGBA and back with the library (whose conversions are checked on their own)
    let to_rgba = |p: &Pic| -> Option<Pic> {
        let mut i = p.image();
        i.convert_color(ColorSpace::RGBA).ok()?;
        Pic::of(&i).ok()
    };
    let neutral = s.chance(1, 6);
    let (what, r, mat): (&str, Result<(), _>, [[f64; 5]; 4]) = if op < 8 {
        let mut a = [[0f32; 5]; 4];
        for (k, row) in a.iter_mut().enumerate() {
            row[k] = 1.0;
            if !neutral {
                for v in row.iter_mut() {
                    *v = match s.below(4) {
                        0 => 0.0,
                        1 => s.pick(&[1.0, -1.0, 0.5]),
                        _ => real(s, -1.5, 1.5),
                    };
                }
            }
        }
        let o = if s.bool() {
            ColorMatrix::new(a)
        } else {
            let flat: Vec<f32> = a.iter().flatten().copied().collect();
            let short = ColorMatrix::try_from_slice(&flat[..s.usize(0, 19)]);
            check!(short.is_none(), "colour matrix: short slice accepted", "");
            match ColorMatrix::try_from_slice(&flat) {
                Some(o) => o,
                None => return pbt::fail("colour matrix: slice refused", String::new()),
            }
        };
        ("colour matrix", o.execute(&mut i), a.map(|r| r.map(|x| x as f64)))
    } else {
        let (hh, ss, ll) = if neutral {
            (s.pick(&[0.0f32, 360.0]), 1.0, 1.0)
        } else {
            (real(s, -360.0, 360.0), if s.chance(1, 4) { 0.0 } else { real(s, 0.0, 2.0) }, if s.chance(1, 4) { 1.0 } else { real(s, 0.0, 2.0) })
        };
        c.note(format!("hue, saturation, lightness: {:?}", (hh, ss, ll)));
        // grey axis plus rotation about it, weights .299 .587 .114
        let (vv, hr) = (ll as f64, (hh as f64).to_radians());
        let (u, x) = (vv * ss as f64 * hr.cos(), vv * ss as f64 * hr.sin());
        let rows = [
            [0.299 * vv + 0.701 * u + 0.168 * x, 0.587 * vv - 0.587 * u + 0.330 * x, 0.114 * vv - 0.114 * u - 0.497 * x, 0.0, 0.0],
            [0.299 * vv - 0.299 * u - 0.328 * x, 0.587 * vv + 0.413 * u + 0.035 * x, 0.114 * vv - 0.114 * u + 0.292 * x, 0.0, 0.0],
            [0.299 * vv - 0.300 * u + 1.25 * x, 0.587 * vv - 0.588 * u - 1.05 * x, 0.114 * vv + 0.886 * u - 0.203 * x, 0.0, 0.0],
            [0.0, 0.0, 0.0, 1.0, 0.0],
        ];
        ("hsv adjust", HsvAdjust::new(hh, ss, ll).execute(&mut i), rows)
    };
    c.label(what);
    let got = Pic::of(&i)?;
    let Some(rgba) = to_rgba(&p) else {
        check!(r.is_err(), &format!("{what}: unsupported picture accepted"), "{}", p.text());
        return Ok(());
    };
    if r.is_err() && !four {
        // a colourspace which cannot be converted back
        let mut b = rgba.image();
        check!(b.convert_color(cs).is_err(), &format!("{what}: refused"), "{r:?} on {}", p.text());
        return Ok(());
    }
    check!(r.is_ok(), &format!("{what}: refused"), "{r:?} on {}", p.text());
    check!((got.w, got.h, got.cs, got.depth, got.frames.len()) == (p.w, p.h, cs, d, p.frames.len()), &format!("{what}: type"), "{} became {}", p.text(), got.text());
    c.nontrivial();
    if neutral && four {
        return got.same(&p, if float { 2.5e-3 } else if what == "hsv adjust" { (m * 0.0055).max(1.0) } else { 0.0 }, &format!("{what}: neutral parameter"));
    }
    // position of R, G, B, A in the picture's own channels; greys and others by conversion of the bounds
    let pos: Option<[Option<usize>; 4]> = match cs {
        ColorSpace::RGB => Some([Some(0), Some(1), Some(2), None]),
        ColorSpace::BGR => Some([Some(2), Some(1), Some(0), None]),
        ColorSpace::RGBA => Some([Some(0), Some(1), Some(2), Some(3)]),
        ColorSpace::BGRA => Some([Some(2), Some(1), Some(0), Some(3)]),
        ColorSpace::ARGB => Some([Some(1), Some(2), Some(3), Some(0)]),
        _ => None,
    };
    let clamp = !float || what == "hsv adjust";
    match pos {
        Some(pos) => {
            for fi in 0..p.frames.len() {
                for k in 0..p.w * p.h {
                    let px: Vec<f64> = (0..4).map(|c| rgba.frames[fi][c][k]).collect();
                    for (row, po) in mat.iter().zip(pos) {
                        let Some(po) = po else { continue };
                        let v = row[0] * px[0] + row[1] * px[1] + row[2] * px[2] + row[3] * px[3] + row[4] * m;
                        // four products in single precision
                        let t = 2e-6 * m * row.iter().map(|x| x.abs()).sum::<f64>();
                        let (lo, hi) = if clamp { stored_between(d, v - t, v + t) } else { (v - t - 1e-6, v + t + 1e-6) };
                        let g = got.frames[fi][po][k];
                        check!(g >= lo && g <= hi, &format!("{what}: samples"), "frame {fi} channel {po} pixel {k}: got {g}, expected {lo}..{hi}, from {px:?}; {}", p.text());
                    }
                }
            }
            Ok(())
        }
        None => {
            // the operation on the RGBA picture, brought back
            let mut b = rgba.image();
            let again = if op < 8 {
                let mut a = [[0f32; 5]; 4];
                for (x, y) in a.iter_mut().zip(&mat) {
                    for (x, y) in x.iter_mut().zip(y) {
                        *x = *y as f32;
                    }
                }
                ColorMatrix::new(a).execute(&mut b)
            } else {
                return Ok(());
            };
            check!(again.is_ok(), &format!("{what}: refused"), "{again:?}");
            check!(b.convert_color(cs).is_ok(), &format!("{what}: cannot be converted back"), "{}", p.text());
            got.same(&Pic::of(&b)?, 0.0, &format!("{what}: through RGBA"))
        }
    }
}
