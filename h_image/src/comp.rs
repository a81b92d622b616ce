//! C30: composite, blend, premultiply
use crate::filt::alpha_index;
use crate::im::*;
use pbt::{check, Ctx, Res, Src};
use zune_core::bit_depth::BitDepth;
use zune_core::colorspace::ColorSpace;
use zune_image::metadata::AlphaState;
use zune_image::traits::OperationsTrait;
use zune_imageprocs::blend::Blend;
use zune_imageprocs::composite::{Composite, CompositeMethod, Gravity};
use zune_imageprocs::premul_alpha::*;

fn simple_cs(s: &mut Src) -> ColorSpace {
    if s.chance(2, 3) {
        s.pick(&[ColorSpace::RGBA, ColorSpace::RGB, ColorSpace::LumaA, ColorSpace::Luma, ColorSpace::ARGB, ColorSpace::BGRA])
    } else {
        any_cs(s)
    }
}

pub fn composite(s: &mut Src, c: &mut Ctx) -> Res {
    let (cs, d) = (simple_cs(s), s.pick(&DEPTHS));
    let (dw, dh) = crate::geom::sides(s, 40);
    let (sw, sh) = crate::geom::sides(s, 40);
    let (fs, fd) = (nframes(s), nframes(s));
    let dst = pic(s, d, cs, dw, dh, fd);
    let (scs, sd) = match s.below(20) {
        0 => (any_cs(s), d),
        1 => (cs, s.pick(&DEPTHS)),
        _ => (cs, d),
    };
    let src = pic(s, sd, scs, sw, sh, fs);
    let method = s.pick(&[CompositeMethod::Over, CompositeMethod::Over, CompositeMethod::Over, CompositeMethod::Src, CompositeMethod::Dst, CompositeMethod::DstIn]);
    let si = src.image();
    let (op, (x0, y0)) = if s.bool() {
        let far = |s: &mut Src, n: usize| match s.below(12) {
            0 => n,
            1 => n + s.usize(0, 5),
            2 => usize::MAX - s.usize(0, 2),
            _ => s.usize(0, n - 1),
        };
        let p = (far(s, dw), far(s, dh));
        (Composite::new(&si, method, p), p)
    } else {
        let k = s.below(5);
        let (g, x, y) = match k {
            0 => (Gravity::Center, (dw / 2).saturating_sub(sw / 2), (dh / 2).saturating_sub(sh / 2)),
            1 => (Gravity::TopLeft, 0, 0),
            2 => (Gravity::TopRight, dw.saturating_sub(sw), 0),
            3 => (Gravity::BottomLeft, 0, dh.saturating_sub(sh)),
            _ => (Gravity::BottomRight, dw.saturating_sub(sw), dh.saturating_sub(sh)),
        };
        (Composite::new_gravity(&si, method, g), (x, y))
    };
    let what = format!("composite {method:?}");
    c.label(&what);
    c.note(format!("{} over {} at {:?}", src.text(), dst.text(), (x0, y0)));
    let mut i = dst.image();
    let r = op.execute(&mut i);
    let got = Pic::of(&i)?;
    if scs != cs || sd != d {
        check!(r.is_err(), "composite: mismatch accepted", "{} over {}", src.text(), dst.text());
        return got.same(&dst, 0.0, "composite: refused but changed the picture");
    }
    if method == CompositeMethod::DstIn && r.is_err() {
        return got.same(&dst, 0.0, "composite: refused but changed the picture");
    }
    check!(r.is_ok(), &format!("{what}: refused"), "{r:?}, {} over {}", src.text(), dst.text());
    check!((got.w, got.h, got.cs, got.depth, got.frames.len()) == (dw, dh, cs, d, fd), &format!("{what}: type"), "{} became {}", dst.text(), got.text());
    let m = dst.max();
    let float = d == BitDepth::Float32;
    let ai = alpha_index(cs);
    let inside = |x: usize, y: usize| x >= x0 && y >= y0 && x - x0 < sw && y - y0 < sh;
    for fi in 0..fd {
        let covered = fi < fs;
        for y in 0..dh {
            for x in 0..dw {
                let over = covered && inside(x, y);
                if over {
                    c.nontrivial();
                }
                for ci in 0..cs.num_components() {
                    let g = got.at(fi, ci, x, y);
                    let was = dst.at(fi, ci, x, y);
                    let exact = |v: f64| check_exact(&what, over, g, v, fi, ci, x, y, &dst);
                    match method {
                        CompositeMethod::Dst => exact(was)?,
                        CompositeMethod::Src if over => exact(src.at(fi, ci, x - x0, y - y0))?,
                        // the rest is blank
                        CompositeMethod::Src if ai.is_none() && covered => exact(m)?,
                        CompositeMethod::Src if covered => {}
                        CompositeMethod::DstIn if over && ai == Some(ci) => {
                            let v = was * src.at(fi, ci, x - x0, y - y0) / m;
                            check!((g - v).abs() <= if float { 1e-5 } else { 1.0 }, &format!("{what}: alpha"), "got {g}, expected {v}");
                        }
                        _ if !over => exact(was)?,
                        CompositeMethod::Over => {
                            let (sx, sy) = (x - x0, y - y0);
                            let new = src.at(fi, ci, sx, sy);
                            match ai {
                                None => exact(new)?,
                                Some(a) => {
                                    let sa = src.at(fi, a, sx, sy) / m;
                                    let da = dst.at(fi, a, x, y) / m;
                                    let oa = sa + da * (1.0 - sa);
                                    let v = if ci == a {
                                        oa * m
                                    } else if oa == 0.0 {
                                        was
                                    } else {
                                        (sa * new + (1.0 - sa) * da * was) / oa
                                    };
                                    let e = m * 4e-6;
                                    let (lo, hi) = if float { (v - e, v + e) } else { ((v - e).floor(), (v + e).ceil()) };
                                    check!(
                                        g >= lo && g <= hi,
                                        &format!("{what}: {}", if ci == a { "alpha" } else { "colour" }),
                                        "frame {fi} channel {ci} at ({x}, {y}): got {g}, expected {lo}..{hi} (source {new} alpha {sa}, destination {was} alpha {da}); {}",
                                        dst.text()
                                    );
                                }
                            }
                        }
                        _ => exact(was)?,
                    }
                }
            }
        }
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn check_exact(what: &str, over: bool, g: f64, v: f64, fi: usize, ci: usize, x: usize, y: usize, dst: &Pic) -> Res {
    check!(
        g == v,
        &format!("{what}: {}", if over { "covered pixel" } else { "other pixel" }),
        "frame {fi} channel {ci} at ({x}, {y}): got {g}, expected {v}; {}",
        dst.text()
    );
    Ok(())
}

pub fn blend(s: &mut Src, c: &mut Ctx) -> Res {
    let (cs, d) = (simple_cs(s), s.pick(&DEPTHS));
    let (w, h) = crate::geom::sides(s, 40);
    let (fs, fd) = if s.chance(1, 8) { (nframes(s), nframes(s)) } else { let n = nframes(s); (n, n) };
    let dst = pic(s, d, cs, w, h, fd);
    let (mut w2, mut h2, mut cs2, mut d2) = (w, h, cs, d);
    match s.below(25) {
        0 => (w2, h2) = (h, w),
        1 => w2 += 1,
        2 => h2 += 1,
        3 => cs2 = any_cs(s),
        4 => d2 = s.pick(&DEPTHS),
        _ => {}
    }
    let src = pic(s, d2, cs2, w2, h2, fs);
    let a: f32 = match s.below(8) {
        0 => s.pick(&[0.0, 1.0, 0.5, -0.0]),
        1 => s.pick(&[-1.0, 2.0, 1.0001, -0.001, 3.7]),
        2 => s.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY]),
        _ => s.f64() as f32,
    };
    c.note(format!("{} onto {} alpha {a:?}", src.text(), dst.text()));
    let mut i = dst.image();
    let si = src.image();
    let r = Blend::new(&si, a).execute(&mut i);
    let got = Pic::of(&i)?;
    if (w2, h2, cs2, d2) != (w, h, cs, d) || !a.is_finite() {
        check!(r.is_err(), "blend: mismatch accepted", "{} onto {} alpha {a}", src.text(), dst.text());
        return got.same(&dst, 0.0, "blend: refused but changed the picture");
    }
    check!(r.is_ok(), "blend: refused", "{r:?}: {} onto {} alpha {a}", src.text(), dst.text());
    c.nontrivial();
    let float = d == BitDepth::Float32;
    // (the channels of all frames are paired in order; pictures with other numbers of frames blend the first ones)
    check!(got.frames.len() == fd, "blend: frames", "{} became {}", fd, got.frames.len());
    let m = dst.max();
    let al = (a as f64).clamp(0.0, 1.0);
    for fi in 0..fd {
        for ci in 0..cs.num_components() {
            for k in 0..w * h {
                let (g, was) = (got.frames[fi][ci][k], dst.frames[fi][ci][k]);
                if fi >= fs || alpha_index(cs) == Some(ci) || al == 0.0 {
                    check!(g == was, "blend: untouched sample", "frame {fi} channel {ci} sample {k}: {was} became {g} (alpha {a}); {}", dst.text());
                    continue;
                }
                let new = src.frames[fi][ci][k];
                if al == 1.0 {
                    check!(g == new, "blend: full weight", "frame {fi} channel {ci} sample {k}: {g} instead of {new} (alpha {a}); {}", dst.text());
                    continue;
                }
                let v = al * new + (1.0 - al) * was;
                let e = m * 1e-6;
                let (lo, hi) = if float { (v - e, v + e) } else { ((v - e).floor(), (v + e).ceil()) };
                check!(g >= lo && g <= hi, "blend: samples", "frame {fi} channel {ci} sample {k}: got {g}, expected {lo}..{hi} from {new} onto {was} with {a}; {}", dst.text());
            }
        }
    }
    Ok(())
}

/// the nearest whole number, both of them when half way
fn nearest(v: f64, m: f64) -> (f64, f64) {
    let v = v.min(m);
    ((v - 0.5 - 1e-9).ceil(), (v + 0.5 + 1e-9).floor())
}

pub fn premul(s: &mut Src, c: &mut Ctx) -> Res {
    let cs = if s.chance(5, 6) { s.pick(&[ColorSpace::RGBA, ColorSpace::LumaA, ColorSpace::ARGB, ColorSpace::BGRA]) } else { any_cs(s) };
    let (d, f) = (s.pick(&DEPTHS), nframes(s));
    let (w, h) = crate::geom::sides(s, 50);
    let p = if d == BitDepth::Eight && s.chance(1, 30) {
        // all pairs of values
        let n = cs.num_components();
        let ai = alpha_index(cs);
        Pic { w: 256, h: 256, cs, depth: d, frames: vec![(0..n).map(|j| (0..65536).map(|i| if ai == Some(j) { (i >> 8) as f64 } else { (i & 255) as f64 }).collect()).collect()] }
    } else {
        pic(s, d, cs, w, h, f)
    };
    let m = p.max();
    let float = d == BitDepth::Float32;
    let un = s.bool();
    let mut i = p.image();
    let state = s.bool();
    let (from, to) = if un { (AlphaState::PreMultiplied, AlphaState::NonPreMultiplied) } else { (AlphaState::NonPreMultiplied, AlphaState::PreMultiplied) };
    i.metadata_mut().set_alpha(if state { from } else { to });
    let what = if un { "unpremultiply" } else { "premultiply" };
    c.label(what);
    let r = PremultiplyAlpha::new(to).execute(&mut i);
    let got = Pic::of(&i)?;
    check!(r.is_ok(), &format!("{what}: refused"), "{r:?} on {}", p.text());
    let Some(ai) = alpha_index(cs) else {
        return got.same(&p, 0.0, &format!("{what}: no alpha"));
    };
    check!(i.metadata().alpha() == to, &format!("{what}: state not recorded"), "{}", p.text());
    if !state {
        return got.same(&p, 0.0, &format!("{what}: already done"));
    }
    c.nontrivial();
    check!((got.w, got.h, got.cs, got.depth, got.frames.len()) == (p.w, p.h, cs, d, p.frames.len()), &format!("{what}: type"), "{} became {}", p.text(), got.text());
    for fi in 0..p.frames.len() {
        for ci in 0..cs.num_components() {
            for k in 0..p.w * p.h {
                let (g, x, a) = (got.frames[fi][ci][k], p.frames[fi][ci][k], p.frames[fi][ai][k]);
                if ci == ai {
                    check!(g == x, &format!("{what}: alpha changed"), "{x} became {g}");
                    continue;
                }
                let (lo, hi) = match (un, float) {
                    (false, true) => (x * a - 1e-6, x * a + 1e-6),
                    (false, false) => nearest(x * a / m, m),
                    (true, _) if a == 0.0 => (0.0, 0.0),
                    (true, true) => (x / a * (1.0 - 1e-6), x / a * (1.0 + 1e-6)),
                    (true, false) => nearest(x * m / a, m),
                };
                check!(g >= lo && g <= hi, &format!("{what}: samples"), "frame {fi} channel {ci} sample {k}: {x} with alpha {a} became {g}, expected {lo}..{hi}; {}", p.text());
            }
        }
    }
    if !un {
        // and back: as close as the alpha value allows
        let r = PremultiplyAlpha::new(AlphaState::NonPreMultiplied).execute(&mut i);
        check!(r.is_ok(), "round trip: refused", "{r:?}");
        let back = Pic::of(&i)?;
        for fi in 0..p.frames.len() {
            for ci in 0..cs.num_components() {
                for k in 0..p.w * p.h {
                    let (g, x, a) = (back.frames[fi][ci][k], p.frames[fi][ci][k], p.frames[fi][ai][k]);
                    if a == 0.0 || float && a < 1e-3 {
                        continue;
                    }
                    let tol = if float { 1e-4 } else if ci == ai { 0.0 } else { 0.5 * m / a + 0.5 };
                    check!((g - x).abs() <= tol, "round trip: samples", "frame {fi} channel {ci} sample {k}: {x} with alpha {a} came back as {g}; {}", p.text());
                }
            }
        }
    }
    Ok(())
}

/// the functions on slices
pub fn slices(s: &mut Src, c: &mut Ctx) -> Res {
    let n = s.usize(0, 200);
    let mut r = s.rng();
    c.nontrivial();
    if s.bool() {
        let t = create_unpremul_table_u8();
        let v: Vec<u8> = (0..n).map(|_| sample(&mut r, BitDepth::Eight, 3) as u8).collect();
        let a: Vec<u8> = (0..n).map(|_| sample(&mut r, BitDepth::Eight, 3) as u8).collect();
        let (mut x, mut y) = (v.clone(), v.clone());
        premultiply_u8(&mut x, &a);
        unpremultiply_u8(&mut y, &a, &t);
        for k in 0..n {
            let (p, q) = (v[k] as f64 * a[k] as f64 / 255.0, if a[k] == 0 { 0.0 } else { v[k] as f64 * 255.0 / a[k] as f64 });
            let ((l, h), (l2, h2)) = (nearest(p, 255.0), nearest(q, 255.0));
            check!(x[k] as f64 >= l && x[k] as f64 <= h, "premultiply_u8", "{} with alpha {} became {}", v[k], a[k], x[k]);
            check!(y[k] as f64 >= l2 && y[k] as f64 <= h2, "unpremultiply_u8", "{} with alpha {} became {}", v[k], a[k], y[k]);
        }
    } else {
        use std::sync::OnceLock;
        static T: OnceLock<Vec<u128>> = OnceLock::new();
        let t = T.get_or_init(create_unpremul_table_u16);
        let v: Vec<u16> = (0..n).map(|_| sample(&mut r, BitDepth::Sixteen, 3) as u16).collect();
        let a: Vec<u16> = (0..n).map(|_| sample(&mut r, BitDepth::Sixteen, 3) as u16).collect();
        let (mut x, mut y) = (v.clone(), v.clone());
        premultiply_u16(&mut x, &a);
        unpremultiply_u16(&mut y, &a, t);
        for k in 0..n {
            let (p, q) = (v[k] as f64 * a[k] as f64 / 65535.0, if a[k] == 0 { 0.0 } else { v[k] as f64 * 65535.0 / a[k] as f64 });
            let ((l, h), (l2, h2)) = (nearest(p, 65535.0), nearest(q, 65535.0));
            check!(x[k] as f64 >= l && x[k] as f64 <= h, "premultiply_u16", "{} with alpha {} became {}", v[k], a[k], x[k]);
            check!(y[k] as f64 >= l2 && y[k] as f64 <= h2, "unpremultiply_u16", "{} with alpha {} became {}", v[k], a[k], y[k]);
        }
    }
    Ok(())
}
