//! C27: geometric operations move pixels exactly
use crate::im::*;
use exif::{Field, In, Tag, Value};
use pbt::{check, Ctx, Fail, Res, Src};
use zune_image::image::Image;
use zune_image::traits::OperationsTrait;
use zune_imageprocs::auto_orient::AutoOrient;
use zune_imageprocs::crop::Crop;
use zune_imageprocs::flip::{Flip, FlipDirection};
use zune_imageprocs::mirror::{Mirror, MirrorMode};
use zune_imageprocs::pad::{pad, PadMethod};
use zune_imageprocs::rotate::Rotate;
use zune_imageprocs::transpose as tr;

/// the picture with every sample taken from `from(x, y)` of the original; None gives 0
pub fn remap(p: &Pic, w: usize, h: usize, from: impl Fn(usize, usize) -> Option<(usize, usize)>) -> Pic {
    let mut o = p.clone();
    (o.w, o.h) = (w, h);
    for (fo, fi) in o.frames.iter_mut().zip(&p.frames) {
        for (co, ci) in fo.iter_mut().zip(fi) {
            *co = (0..w * h).map(|i| from(i % w, i / w).map_or(0.0, |(x, y)| ci[y * p.w + x])).collect();
        }
    }
    o
}

/// clockwise quarter turns
pub fn turned(p: &Pic, quarters: usize) -> Pic {
    let (w, h) = (p.w, p.h);
    match quarters % 4 {
        0 => p.clone(),
        1 => remap(p, h, w, |x, y| Some((y, h - 1 - x))),
        2 => remap(p, w, h, |x, y| Some((w - 1 - x, h - 1 - y))),
        _ => remap(p, h, w, |x, y| Some((w - 1 - y, x))),
    }
}

pub fn oriented(p: &Pic, o: u16) -> Pic {
    let (w, h) = (p.w, p.h);
    match o {
        2 => remap(p, w, h, |x, y| Some((w - 1 - x, y))),
        3 => turned(p, 2),
        4 => remap(p, w, h, |x, y| Some((x, h - 1 - y))),
        5 => remap(p, h, w, |x, y| Some((y, x))),
        6 => turned(p, 1),
        7 => remap(p, h, w, |x, y| Some((w - 1 - y, h - 1 - x))),
        8 => turned(p, 3),
        _ => p.clone(),
    }
}

pub fn apply(op: &dyn OperationsTrait, i: &mut Image) -> Res {
    op.execute(i).map_err(|e| Fail { sig: format!("{} refused", op.name()), msg: format!("{e:?} on {:?} {:?} {:?}", i.dimensions(), i.colorspace(), i.depth()) })
}

pub fn sides(s: &mut Src, max: usize) -> (usize, usize) {
    match s.below(4) {
        0 => (1 + s.below(9) as usize, s.dim(max)),
        1 => (s.dim(max), 1 + s.below(9) as usize),
        _ => (s.dim(max), s.dim(max)),
    }
}

pub fn moves(s: &mut Src, c: &mut Ctx) -> Res {
    let (w, h) = sides(s, 70);
    let (cs, d, f) = (any_cs(s), s.pick(&DEPTHS), nframes(s));
    let p = pic(s, d, cs, w, h, f);
    let mut i = p.image();
    if w * h > 1 {
        c.nontrivial();
    }
    let (want, what): (Pic, String) = match s.below(12) {
        0 => {
            apply(&Flip::new(FlipDirection::Horizontal), &mut i)?;
            (oriented(&p, 2), "flip horizontal".into())
        }
        1 => {
            apply(&Flip::new(FlipDirection::Vertical), &mut i)?;
            (oriented(&p, 4), "flip vertical".into())
        }
        2 => {
            apply(&Flip::new(FlipDirection::MirrorXAxis), &mut i)?;
            (turned(&p, 2), "flip both".into())
        }
        3 => {
            let k = s.below(4);
            let m = [MirrorMode::North, MirrorMode::South, MirrorMode::East, MirrorMode::West][k as usize];
            apply(&Mirror::new(m), &mut i)?;
            let want = match k {
                // the northern half (with the middle row) stays
                0 => remap(&p, w, h, |x, y| Some((x, y.min(h - 1 - y)))),
                1 => remap(&p, w, h, |x, y| Some((x, y.max(h - 1 - y)))),
                2 => remap(&p, w, h, |x, y| Some((x.max(w - 1 - x), y))),
                _ => remap(&p, w, h, |x, y| Some((x.min(w - 1 - x), y))),
            };
            (want, format!("mirror {}", ["north", "south", "east", "west"][k as usize]))
        }
        4 | 5 => {
            apply(&tr::Transpose::new(), &mut i)?;
            (oriented(&p, 5), "transpose".into())
        }
        6 | 7 => {
            let k = s.below(17) as i32 - 8;
            apply(&Rotate::new(k as f32 * 90.0), &mut i)?;
            (turned(&p, k.rem_euclid(4) as usize), format!("rotate {}", k.rem_euclid(4) * 90))
        }
        8 | 9 => {
            // inside of the picture, or hanging over its edges (where the result is the source's pixel or black)
            let inside = s.chance(4, 5);
            let (cw, ch, x, y) = if inside {
                let (cw, ch) = (1 + s.below(w as u64) as usize, 1 + s.below(h as u64) as usize);
                (cw, ch, s.below((w - cw) as u64 + 1) as usize, s.below((h - ch) as u64 + 1) as usize)
            } else {
                (1 + s.below(2 * w as u64) as usize, 1 + s.below(2 * h as u64) as usize, s.below(2 * w as u64) as usize, s.below(2 * h as u64) as usize)
            };
            c.note(format!("crop {cw}x{ch}+{x}+{y}"));
            apply(&Crop::new(cw, ch, x, y), &mut i)?;
            let want = remap(&p, cw, ch, |ox, oy| (ox + x < w && oy + y < h).then_some((ox + x, oy + y)));
            if !inside && (x + cw > w || y + ch > h) {
                // documented: rows which do not lie inside may be left black
                let got = Pic::of(&i)?;
                check!((got.w, got.h) == (cw, ch), "crop: dimensions", "got {}x{}, expected {cw}x{ch}", got.w, got.h);
                for (gf, wf) in got.frames.iter().zip(&want.frames) {
                    for (gp, wp) in gf.iter().zip(wf) {
                        for (n, (a, b)) in gp.iter().zip(wp).enumerate() {
                            check!(a == b || *a == 0.0, "crop: samples", "at ({}, {}) of a crop over the edge: got {a}, expected {b} or 0", n % cw, n / cw);
                        }
                    }
                }
                return Ok(());
            }
            (want, "crop".into())
        }
        _ => {
            let o = s.below(11) as u16;
            let mut fields = vec![];
            let other = |s: &mut Src| Field { tag: Tag::ImageWidth, ifd_num: In::PRIMARY, value: Value::Long(vec![s.below(1000) as u32]) };
            if s.bool() {
                fields.push(other(s));
            }
            fields.push(Field { tag: Tag::Orientation, ifd_num: In::PRIMARY, value: Value::Short(vec![o]) });
            if s.bool() {
                fields.push(other(s));
            }
            if s.bool() {
                set_exif(&mut i, fields);
                apply(&AutoOrient, &mut i)?;
                let want = oriented(&p, o);
                Pic::of(&i)?.same(&want, 0.0, &format!("auto orient {o}"))?;
                // the second time nothing is left to do
                apply(&AutoOrient, &mut i)?;
                (want, format!("auto orient {o} twice"))
            } else {
                apply(&AutoOrient, &mut i)?;
                (p.clone(), "auto orient without exif".into())
            }
        }
    };
    c.label(what.split(' ').next().unwrap());
    Pic::of(&i)?.same(&want, 0.0, &what)
}

/// the functions on plain slices
pub fn slices(s: &mut Src, c: &mut Ctx) -> Res {
    let (w, h) = sides(s, 80);
    c.nontrivial();
    let mut r = s.rng();
    macro_rules! transposed {
        ($t:ty, $f:path, $n:expr) => {{
            let a: Vec<$t> = (0..w * h).map(|_| (r.next() % 251) as $t).collect();
            let mut b: Vec<$t> = vec![255 as $t; w * h];
            $f(&a, &mut b, w, h);
            for y in 0..h {
                for x in 0..w {
                    check!(b[x * h + y] == a[y * w + x], $n, "{w}x{h} at ({x}, {y}): got {}, expected {}", b[x * h + y], a[y * w + x]);
                }
            }
        }};
    }
    match s.below(7) {
        0 => transposed!(u8, tr::transpose_u8, "transpose_u8"),
        1 => transposed!(u16, tr::transpose_u16, "transpose_u16"),
        2 => transposed!(f32, tr::transpose_float, "transpose_float"),
        3 => transposed!(u32, tr::transpose_u32, "transpose_u32"),
        4 => transposed!(u64, tr::transpose_generic, "transpose_generic"),
        k => {
            let (px, py) = (s.below(12) as usize, s.below(12) as usize);
            let a: Vec<u16> = (0..w * h).map(|_| 1 + (r.next() % 60000) as u16).collect();
            let m = if k == 5 { PadMethod::Replicate } else { PadMethod::Constant };
            let b = pad(&a, w, h, px, py, m);
            let (pw, ph) = (w + 2 * px, h + 2 * py);
            check!(b.len() == pw * ph, "pad: length", "{} for {pw}x{ph}", b.len());
            for y in 0..ph {
                for x in 0..pw {
                    let (sx, sy) = (x as isize - px as isize, y as isize - py as isize);
                    let inside = sx >= 0 && sy >= 0 && sx < w as isize && sy < h as isize;
                    let e = if inside || k == 5 { a[sy.clamp(0, h as isize - 1) as usize * w + sx.clamp(0, w as isize - 1) as usize] } else { 0 };
                    check!(b[y * pw + x] == e, "pad", "{w}x{h} padded by {px},{py} ({}) at ({x}, {y}): got {}, expected {e}", if k == 5 { "replicate" } else { "constant" }, b[y * pw + x]);
                }
            }
        }
    }
    Ok(())
}

