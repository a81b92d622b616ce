//! C23: depth conversion. C24: colourspace conversion.
use crate::im::*;
use pbt::{check, Ctx, Res, Src};
use zune_core::bit_depth::BitDepth;
use zune_core::colorspace::ColorSpace;
use zune_image::core_filters::colorspace::ColorspaceConv;
use zune_image::core_filters::depth::Depth;
use zune_image::traits::OperationsTrait;

fn conv_depth(p: &Pic, to: BitDepth, how: u64) -> Result<Pic, pbt::Fail> {
    let mut i = p.image();
    let r = match how {
        0 => i.convert_depth(to),
        1 => Depth::new(to).execute(&mut i),
        _ => Depth::new(to).clone_and_execute(&i).map(|x| i = x),
    };
    if let Err(e) = r {
        return pbt::fail("depth conversion refused", format!("{} to {to:?}: {e:?}", p.text()));
    }
    let q = Pic::of(&i)?;
    check!(q.depth == to, "depth not set", "{} to {to:?}: is {:?}", p.text(), q.depth);
    check!(
        (q.w, q.h, q.cs, q.frames.len()) == (p.w, p.h, p.cs, p.frames.len()),
        "depth conversion changed the layout",
        "{} became {}",
        p.text(),
        q.text()
    );
    Ok(q)
}

pub fn depth(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut p = any_pic(s, 24);
    let how = s.below(3);
    let to = s.pick(&DEPTHS);
    let every = s.chance(1, 60);
    if every {
        // all values of the depth at once
        let n = if p.depth == BitDepth::Eight { 256 } else { 65536 };
        let mut r = s.rng();
        p = Pic { w: 256, h: n / 256, cs: ColorSpace::LumaA, depth: p.depth, frames: vec![vec![vec![0.0; n]; 2]] };
        for c in 0..2 {
            for i in 0..n {
                p.frames[0][c][i] = match p.depth {
                    BitDepth::Float32 => {
                        let base = i as f32 / 65535.0;
                        let nudge = r.below(5) as i32 - 2;
                        f32::from_bits((base.to_bits() as i32 + nudge).max(0) as u32).min(1.0) as f64
                    }
                    _ => i as f64,
                };
            }
        }
    } else if p.depth == BitDepth::Float32 && s.chance(1, 4) {
        // floats outside of the range
        let mut r = s.rng();
        for f in p.frames.iter_mut().flatten() {
            for v in f.iter_mut() {
                if r.below(3) == 0 {
                    *v = ((r.f64() as f32) * 8.0 - 4.0) as f64;
                }
            }
        }
    }
    cx.note(format!("{} to {to:?}", p.text()));
    let q = conv_depth(&p, to, how)?;
    if to == p.depth {
        return q.same(&p, 0.0, "conversion to the same depth");
    }
    cx.nontrivial();
    let scale = maxval(to) / p.max();
    let (lo, hi) = (0.0, maxval(to));
    for (fi, (a, b)) in p.frames.iter().zip(&q.frames).enumerate() {
        for (ci, (x, y)) in a.iter().zip(b).enumerate() {
            for (v, w) in x.iter().zip(y) {
                let exact = v * scale;
                let ok = if to == BitDepth::Float32 {
                    (w - exact).abs() <= 1e-6
                } else {
                    let e = exact.clamp(lo, hi);
                    // any rounding of the exact value, which is itself subject to float rounding
                    (w - e).abs() < 1.0 + 0.01 && (e.fract() > 0.01 || (w - e).abs() <= 0.51 || p.depth == BitDepth::Float32)
                };
                let src_end = *v <= 0.0 && (p.depth != BitDepth::Float32 || to != BitDepth::Float32) || *v >= p.max();
                check!(ok, "depth value", "{:?} {v} became {to:?} {w}, scaled value {exact} (frame {fi} channel {ci})", p.depth);
                if src_end {
                    let want = exact.clamp(lo, hi);
                    check!((w - want).abs() < 1e-6 || (to == BitDepth::Float32 && p.depth == BitDepth::Float32), "black or white not preserved", "{:?} {v} became {to:?} {w}", p.depth);
                }
            }
            // order
            let mut ix: Vec<usize> = (0..x.len()).collect();
            ix.sort_by(|i, j| x[*i].partial_cmp(&x[*j]).unwrap());
            for k in ix.windows(2) {
                check!(y[k[0]] <= y[k[1]], "order not kept", "{:?} {} <= {} became {to:?} {} > {}", p.depth, x[k[0]], x[k[1]], y[k[0]], y[k[1]]);
                if x[k[0]] == x[k[1]] {
                    check!(y[k[0]] == y[k[1]], "equal samples became different", "{:?} {}", p.depth, x[k[0]]);
                }
            }
        }
    }
    // widening then narrowing
    if p.depth == BitDepth::Eight || (p.depth == BitDepth::Sixteen && to == BitDepth::Float32) {
        conv_depth(&q, p.depth, how)?.same(&p, 0.0, &format!("{:?} to {to:?} and back", p.depth))?;
        if p.depth == BitDepth::Eight {
            let third = if to == BitDepth::Sixteen { BitDepth::Float32 } else { BitDepth::Sixteen };
            let t = conv_depth(&q, third, how)?;
            if third == BitDepth::Float32 {
                conv_depth(&t, BitDepth::Sixteen, how)?.same(&q, 0.0, "8 to 16 to float to 16 bits")?;
            }
            conv_depth(&t, p.depth, how)?.same(&p, 0.0, &format!("8 bits to {to:?} to {third:?} and back"))?;
        }
    }
    // to_u8 accessor
    let u = p.image().flatten_to_u8();
    let narrow = if p.depth == BitDepth::Eight { p.clone() } else { conv_depth(&p, BitDepth::Eight, 0)? };
    for (f, g) in narrow.frames.iter().zip(&u) {
        let n = f.len();
        let flat: Vec<u8> = (0..n * p.w * p.h).map(|i| f[i % n][i / n] as u8).collect();
        check!(flat == *g, "flatten_to_u8", "{}: {}", p.text(), pbt::first_diff(g, &flat).unwrap_or_default());
    }
    Ok(())
}

const KNOWN: [ColorSpace; 10] = [
    ColorSpace::RGB,
    ColorSpace::RGBA,
    ColorSpace::Luma,
    ColorSpace::LumaA,
    ColorSpace::CMYK,
    ColorSpace::BGR,
    ColorSpace::BGRA,
    ColorSpace::ARGB,
    ColorSpace::HSL,
    ColorSpace::HSV,
];

fn conv(p: &Pic, to: ColorSpace, how: u64) -> Result<Pic, pbt::Fail> {
    let mut i = p.image();
    let r = match how {
        0 => i.convert_color(to),
        1 => ColorspaceConv::new(to).execute(&mut i),
        _ => ColorspaceConv::new(to).clone_and_execute(&i).map(|x| i = x),
    };
    if let Err(e) = r {
        return pbt::fail("colour conversion refused", format!("{} to {to:?}: {e:?}", p.text()));
    }
    let q = Pic::of(&i)?;
    check!(q.cs == to, "colourspace not set", "{} to {to:?}: is {:?}", p.text(), q.cs);
    check!((q.w, q.h, q.depth, q.frames.len()) == (p.w, p.h, p.depth, p.frames.len()), "colour conversion changed the layout", "{} became {}", p.text(), q.text());
    Ok(q)
}

fn hsl(r: f64, g: f64, b: f64) -> [f64; 3] {
    let (mx, mn) = (r.max(g).max(b), r.min(g).min(b));
    let l = (mx + mn) / 2.0;
    if mx == mn {
        return [0.0, 0.0, l];
    }
    let s = (mx - mn) / (1.0 - (2.0 * l - 1.0).abs());
    [hue(r, g, b), s, l]
}
fn hue(r: f64, g: f64, b: f64) -> f64 {
    let (mx, mn) = (r.max(g).max(b), r.min(g).min(b));
    let d = mx - mn;
    let h = if mx == r {
        (g - b) / d
    } else if mx == g {
        2.0 + (b - r) / d
    } else {
        4.0 + (r - g) / d
    };
    (h / 6.0).rem_euclid(1.0)
}
fn hsv(r: f64, g: f64, b: f64) -> [f64; 3] {
    let (mx, mn) = (r.max(g).max(b), r.min(g).min(b));
    if mx == mn {
        return [0.0, 0.0, mx];
    }
    [hue(r, g, b), (mx - mn) / mx, mx]
}
/// the colour of a hue at full chroma
fn pure(h: f64) -> [f64; 3] {
    let f = |n: f64| {
        let k = (n + h * 6.0).rem_euclid(6.0);
        1.0 - k.min(4.0 - k).clamp(0.0, 1.0)
    };
    [f(5.0), f(3.0), f(1.0)]
}
fn unhsv(h: f64, s: f64, v: f64) -> [f64; 3] {
    pure(h).map(|c| v * (1.0 - s * (1.0 - c)))
}
fn unhsl(h: f64, s: f64, l: f64) -> [f64; 3] {
    let c = s * (1.0 - (2.0 * l - 1.0).abs());
    pure(h).map(|p| l + c * (p - 0.5))
}

/// colour and alpha of RGB-like pictures as normalised planes
fn rgba(p: &Pic, f: usize, i: usize) -> ([f64; 3], f64) {
    let m = p.max();
    let c = &p.frames[f];
    let g = |k: usize| c[k][i] / m;
    match p.cs {
        ColorSpace::RGB => ([g(0), g(1), g(2)], 1.0),
        ColorSpace::RGBA => ([g(0), g(1), g(2)], g(3)),
        ColorSpace::BGR => ([g(2), g(1), g(0)], 1.0),
        ColorSpace::BGRA => ([g(2), g(1), g(0)], g(3)),
        ColorSpace::ARGB => ([g(1), g(2), g(3)], g(0)),
        ColorSpace::Luma => ([g(0); 3], 1.0),
        ColorSpace::LumaA => ([g(0); 3], g(1)),
        ColorSpace::CMYK => ([g(0) * g(3), g(1) * g(3), g(2) * g(3)], 1.0),
        ColorSpace::HSL => (unhsl(g(0), g(1), g(2)), 1.0),
        ColorSpace::HSV => (unhsv(g(0), g(1), g(2)), 1.0),
        c => unreachable!("{c:?}"),
    }
}

/// expected channels with tolerances (in units of the sample range) of an RGB(A) pixel in a target colourspace
fn target(to: ColorSpace, [r, g, b]: [f64; 3], a: f64, unit: f64) -> Vec<(f64, f64)> {
    let x = |v: f64| (v, 0.0);
    let grey = (0.2989 * r + 0.5870 * g + 0.1140 * b, unit * 1.3);
    match to {
        ColorSpace::RGB => vec![x(r), x(g), x(b)],
        ColorSpace::RGBA => vec![x(r), x(g), x(b), x(a)],
        ColorSpace::BGR => vec![x(b), x(g), x(r)],
        ColorSpace::BGRA => vec![x(b), x(g), x(r), x(a)],
        ColorSpace::ARGB => vec![x(a), x(r), x(g), x(b)],
        ColorSpace::Luma => vec![grey],
        ColorSpace::LumaA => vec![grey, x(a)],
        ColorSpace::CMYK => {
            let k = r.max(g).max(b);
            let q = |v: f64| if k > 0.0 { (v / k, unit * 1.01 + 1e-6 / k.max(1e-6)) } else { (0.5, 0.51) };
            vec![q(r), q(g), q(b), (k, unit * 1.01)]
        }
        ColorSpace::HSL | ColorSpace::HSV => {
            let v = if to == ColorSpace::HSL { hsl(r, g, b) } else { hsv(r, g, b) };
            let (mx, mn) = (r.max(g).max(b), r.min(g).min(b));
            let d = (mx - mn).max(1e-9);
            let hue = 1.01 * unit + 4e-7 / d;
            let sat = 1.01 * unit + 4e-7 / if to == ColorSpace::HSL { (1.0 - (mx + mn - 1.0).abs()).max(1e-9) } else { mx.max(1e-9) };
            vec![(v[0], hue), (v[1], sat), (v[2], 1.01 * unit)]
        }
        c => unreachable!("{c:?}"),
    }
}

/// unit of a depth relative to its range (rounding either way is accepted)
fn unit(d: BitDepth) -> f64 {
    match d {
        BitDepth::Eight => 1.0 / 255.0,
        BitDepth::Sixteen => 1.0 / 65535.0,
        _ => 3e-6,
    }
}

fn check_against(q: &Pic, want: impl Fn(usize, usize) -> Vec<(f64, f64)>, what: &str, p: &Pic) -> Res {
    let m = q.max();
    for (f, fr) in q.frames.iter().enumerate() {
        for i in 0..q.w * q.h {
            let w = want(f, i);
            for (c, (v, tol)) in w.iter().enumerate() {
                let got = fr[c][i] / m;
                let mut d = (got - v).abs();
                if c == 0 && matches!(q.cs, ColorSpace::HSL | ColorSpace::HSV) {
                    d = d.min((1.0 - d).abs());
                }
                if !(d <= tol + 1e-9) {
                    let src: Vec<f64> = p.frames[f].iter().map(|x| x[i]).collect();
                    return pbt::fail(
                        &format!("{what}: channel {c}"),
                        format!("pixel {i} of {} frame {f} = {src:?} became {:?} {:?}; channel {c} should be {} (tolerance {})", p.text(), q.cs, fr.iter().map(|x| x[i]).collect::<Vec<_>>(), v * m, tol * m),
                    );
                }
            }
        }
    }
    Ok(())
}

pub fn color(s: &mut Src, cx: &mut Ctx) -> Res {
    let depth = s.pick(&DEPTHS);
    let from = s.pick(&KNOWN);
    let to = s.pick(&KNOWN);
    let how = s.below(3);
    let (w, h) = if s.bool() { (s.dim(70), s.dim(3)) } else { (s.dim(20), s.dim(20)) };
    let nf = nframes(s);
    let p = pic(s, depth, from, w, h, nf);
    cx.note(format!("{} to {to:?}", p.text()));
    let q = conv(&p, to, how)?;
    if from == to {
        return q.same(&p, 0.0, "conversion to the same colourspace");
    }
    cx.nontrivial();
    cx.label(format!("{from:?} to {to:?}"));
    let u = unit(depth);
    let rgb_like = |c: ColorSpace| matches!(c, ColorSpace::RGB | ColorSpace::RGBA | ColorSpace::BGR | ColorSpace::BGRA | ColorSpace::ARGB);
    let grey = |c: ColorSpace| matches!(c, ColorSpace::Luma | ColorSpace::LumaA);
    let what = format!("{from:?} to {to:?}");
    if grey(from) && grey(to) {
        return check_against(
            &q,
            |f, i| {
                let (c, a) = rgba(&p, f, i);
                if to == ColorSpace::Luma {
                    vec![(c[0], 0.0)]
                } else {
                    vec![(c[0], 0.0), (a, 0.0)]
                }
            },
            &what,
            &p,
        );
    }
    if rgb_like(from) || grey(from) {
        check_against(
            &q,
            |f, i| {
                let (c, a) = rgba(&p, f, i);
                target(to, c, a, u)
            },
            &what,
            &p,
        )?;
    } else if rgb_like(to) {
        // CMYK, HSL or HSV into RGB with opaque alpha
        check_against(
            &q,
            |f, i| {
                let (c, a) = rgba(&p, f, i);
                let mut t = target(to, c, a, u);
                let ai = to.alpha_position();
                for (k, x) in t.iter_mut().enumerate() {
                    if !(to.has_alpha() && Some(k) == ai) {
                        x.1 = 1.5 * u;
                    }
                }
                t
            },
            &what,
            &p,
        )?;
    } else {
        // defined as the two steps through RGB
        let mid = conv(&p, ColorSpace::RGB, how)?;
        let two = conv(&mid, to, how)?;
        q.same(&two, 0.0, &format!("{what} differs from the steps through RGB"))?;
    }
    // lossless pairs
    let n = |c: ColorSpace| c.num_components();
    if (rgb_like(from) && rgb_like(to) && n(to) >= n(from)) || (grey(from) && rgb_like(to) && (n(to) == 4 || from == ColorSpace::Luma)) {
        if rgb_like(from) {
            conv(&q, from, how)?.same(&p, 0.0, &format!("{what} and back"))?;
        }
    }
    // independence of the size: the same pixels in another arrangement
    if w * h > 1 {
        let mut a = p.clone();
        (a.w, a.h) = (w * h, 1);
        let one = conv(&a, to, how)?;
        let k = s.usize(0, w * h - 1);
        let cut = |p: &Pic| Pic { w: w * h - k, h: 1, frames: p.frames.iter().map(|f| f.iter().map(|c| c[k..].to_vec()).collect()).collect(), ..p.clone() };
        conv(&cut(&a), to, how)?.same(&cut(&one), 0.0, &format!("{what}: depends on the picture's size"))?;
    }
    Ok(())
}

/// pairs that are not supported are refused and leave a well-formed image
pub fn refused(s: &mut Src, cx: &mut Ctx) -> Res {
    let p = any_pic(s, 8);
    let to = any_cs(s);
    let supported = p.cs == to || (KNOWN.contains(&p.cs) && KNOWN.contains(&to));
    cx.note(format!("{} to {to:?}", p.text()));
    let mut i = p.image();
    let r = i.convert_color(to);
    if supported {
        check!(r.is_ok(), "supported conversion refused", "{} to {to:?}: {r:?}", p.text());
    } else {
        cx.nontrivial();
        check!(r.is_err(), "unsupported conversion accepted", "{} to {to:?}", p.text());
    }
    Pic::of(&i)?;
    Ok(())
}
