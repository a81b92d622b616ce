//! C22: interleaved samples survive images and frames
use crate::im::{any_cs, Pic};
use pbt::{check, Ctx, Fail, Res, Src};
use std::cell::{Cell, RefCell};
use std::fmt::Debug;
use zune_core::bit_depth::BitDepth;
use zune_core::colorspace::ColorSpace;
use zune_image::channel::Channel;
use zune_image::frame::Frame;
use zune_image::image::Image;
use zune_image::traits::ZuneInts;
use zune_image::utils::swizzle_channels;

pub trait El: Copy + Clone + PartialEq + Debug + Default + 'static + bytemuck::Pod + ZuneInts<Self> {
    fn gen(r: &mut pbt::Rng) -> Self;
    fn image(p: &[Self], w: usize, h: usize, cs: ColorSpace) -> Image;
    fn frame(p: &[Self], cs: ColorSpace) -> Frame;
}
impl El for u8 {
    fn gen(r: &mut pbt::Rng) -> u8 {
        r.byte()
    }
    fn image(p: &[u8], w: usize, h: usize, cs: ColorSpace) -> Image {
        Image::from_u8(p, w, h, cs)
    }
    fn frame(p: &[u8], cs: ColorSpace) -> Frame {
        Frame::from_u8(p, cs, 3, 7)
    }
}
impl El for u16 {
    fn gen(r: &mut pbt::Rng) -> u16 {
        r.next() as u16
    }
    fn image(p: &[u16], w: usize, h: usize, cs: ColorSpace) -> Image {
        Image::from_u16(p, w, h, cs)
    }
    fn frame(p: &[u16], cs: ColorSpace) -> Frame {
        Frame::from_u16(p, cs, 3, 7)
    }
}
impl El for f32 {
    fn gen(r: &mut pbt::Rng) -> f32 {
        match r.below(8) {
            0 => r.f64() as f32 * 1000.0 - 500.0,
            1 => [0.0, -0.0, 1.0, f32::INFINITY, f32::MIN_POSITIVE, 1e-42][r.below(6) as usize],
            _ => r.f64() as f32,
        }
    }
    fn image(p: &[f32], w: usize, h: usize, cs: ColorSpace) -> Image {
        Image::from_f32(p, w, h, cs)
    }
    fn frame(p: &[f32], cs: ColorSpace) -> Frame {
        Frame::from_f32(p, cs, 3, 7)
    }
}

fn eq<T: El>(got: &[T], want: &[T], what: &str, info: &str) -> Res {
    // bit equality, so that the sign of zero counts
    let (a, b) = (bytemuck::cast_slice::<T, u8>(got), bytemuck::cast_slice::<T, u8>(want));
    check!(a == b, what, "{info}: {}", pbt::first_diff(got, want).unwrap_or_else(|| "signs of zero".into()));
    Ok(())
}

fn dims(s: &mut Src) -> (usize, usize) {
    if s.chance(1, 12) {
        // large enough for the threaded clone
        (s.usize(20, 60), s.usize(30, 60))
    } else {
        (s.dim(40), s.dim(20))
    }
}

fn run<T: El>(s: &mut Src, cx: &mut Ctx) -> Res {
    let cs = any_cs(s);
    let nc = cs.num_components();
    let (w, h) = dims(s);
    let n = w * h;
    let mut r = s.rng();
    let nf = if s.chance(1, 4) { 3 } else { 1 };
    let data: Vec<Vec<T>> = (0..nf).map(|_| (0..n * nc).map(|_| T::gen(&mut r)).collect()).collect();
    let how = s.below(5);
    let info = format!("{w}x{h} {cs:?} {:?} constructor {how} frames {nf}", T::depth());
    cx.note(&info);
    if nc > 1 && n > 1 {
        cx.nontrivial();
    }
    let planes = |d: &[T]| -> Vec<Vec<T>> { (0..nc).map(|c| d.iter().skip(c).step_by(nc).copied().collect()).collect() };
    let by_channels = |d: &[T]| -> Vec<Channel> {
        planes(d)
            .iter()
            .map(|p| {
                let mut c = Channel::new_with_length::<T>(n * std::mem::size_of::<T>());
                c.reinterpret_as_mut::<T>().unwrap().copy_from_slice(p);
                c
            })
            .collect()
    };
    let mut img = match how {
        0 => T::image(&data[0], w, h, cs),
        1 => Image::new_frames(data.iter().map(|d| T::frame(d, cs)).collect(), T::depth(), w, h, cs),
        2 => Image::new(by_channels(&data[0]), T::depth(), w, h, cs),
        3 if nc <= 4 => {
            let seen = RefCell::new(vec![0u32; n]);
            let bad = Cell::new(None);
            let img = Image::from_fn::<T, _>(w, h, cs, |y, x, px| {
                if x >= w || y >= h {
                    bad.set(Some((x, y)));
                    return;
                }
                seen.borrow_mut()[y * w + x] += 1;
                px[..nc].copy_from_slice(&data[0][(y * w + x) * nc..(y * w + x + 1) * nc]);
            });
            check!(bad.get().is_none(), "from_fn coordinates", "{info}: called with {:?}", bad.get());
            check!(seen.borrow().iter().all(|x| *x == 1), "from_fn visits", "{info}: not every pixel visited exactly once");
            img
        }
        _ => {
            let mut f: Vec<Frame> = vec![];
            for d in &data {
                let mut fr = Frame::new_with_duration(vec![], 3, 7);
                let ch = by_channels(d);
                for (i, c) in ch.into_iter().enumerate() {
                    if i % 2 == 0 {
                        fr.push(c)
                    } else {
                        fr.insert(i, c)
                    }
                }
                f.push(fr);
            }
            Image::new_frames(f, T::depth(), w, h, cs)
        }
    };
    let nf = if how == 1 || how >= 4 || (how == 3 && nc > 4) { nf } else { 1 };
    let data = &data[..nf];
    check!(img.dimensions() == (w, h) && img.colorspace() == cs && img.depth() == T::depth(), "metadata", "{info}");
    check!(img.frames_len() == nf && img.is_animated() == (nf > 1), "frame count", "{info}");
    accessors(&mut img, data, cs, n, &info, s)?;
    // clones
    let mut c = img.clone();
    check!(c == img, "clone differs", "{info}");
    accessors(&mut c, data, cs, n, &format!("{info} (clone)"), s)?;
    if n > 0 {
        let k = r.below(nc as u64) as usize;
        let i = r.below(n as u64) as usize;
        let px = c.frames_mut()[0].channels_vec()[k].reinterpret_as_mut::<T>().unwrap();
        let mut v = T::gen(&mut r);
        while bytemuck::bytes_of(&v) == bytemuck::bytes_of(&px[i]) {
            v = T::gen(&mut r);
        }
        px[i] = v;
        check!(c != img, "equality ignores a sample", "{info}: channel {k} sample {i}");
        accessors(&mut img, data, cs, n, &format!("{info} (after changing the clone)"), s)?;
    }
    // per-pixel access
    if nc <= 4 {
        let seen = RefCell::new(vec![0u32; n]);
        let wrong = Cell::new(None);
        let res = img.modify_pixels_mut::<T, _>(|y, x, px| {
            let p = y * w + x;
            if x >= w || y >= h {
                wrong.set(Some((x, y, 9)));
                return;
            }
            let f = seen.borrow()[p] as usize;
            seen.borrow_mut()[p] += 1;
            for (k, v) in px.into_iter().enumerate().take(nc) {
                if f >= nf || bytemuck::bytes_of(v) != bytemuck::bytes_of(&data[f][p * nc + k]) {
                    wrong.set(Some((x, y, k)));
                }
                // leave a value behind: the next frame's pixel, shifted
                *v = data[(f + 1) % nf][p * nc + (k + 1) % nc];
            }
        });
        check!(res.is_ok(), "modify_pixels_mut refused", "{info}");
        check!(wrong.get().is_none(), "modify_pixels_mut pixel", "{info}: at {:?}", wrong.get());
        check!(seen.borrow().iter().all(|x| *x as usize == nf), "modify_pixels_mut visits", "{info}");
        let want: Vec<Vec<T>> = (0..nf)
            .map(|f| {
                let src = &data[(f + 1) % nf];
                (0..n * nc).map(|i| src[i / nc * nc + (i % nc + 1) % nc]).collect()
            })
            .collect();
        let got = img.flatten_frames::<T>();
        for (a, b) in got.iter().zip(&want) {
            eq(a, b, "modify_pixels_mut result", &info)?;
        }
    }
    Ok(())
}

fn accessors<T: El>(img: &mut Image, data: &[Vec<T>], cs: ColorSpace, n: usize, info: &str, s: &mut Src) -> Res {
    let nc = cs.num_components();
    let flat = img.flatten_frames::<T>();
    check!(flat.len() == data.len(), "flatten_frames count", "{info}");
    for (a, b) in flat.iter().zip(data) {
        eq(a, b, "flatten_frames", info)?;
    }
    for (f, d) in img.frames_ref().iter().zip(data) {
        eq(&f.flatten::<T>(), d, "flatten", info)?;
        let fc = f.clone();
        eq(&fc.flatten::<T>(), d, "flatten of a cloned frame", info)?;
        check!((fc.numerator(), fc.denominator()) == (f.numerator(), f.denominator()), "cloned frame duration", "{info}");
        // into buffers of the same, larger and smaller size
        let extra = s.pick(&[0usize, 0, 1, nc, nc + 3]);
        let less = s.pick(&[0usize, 0, 1, nc, n * nc / 2]);
        let mark = T::default();
        let mut out = vec![mark; n * nc + extra];
        let res = f.flatten_into(&mut out);
        check!(matches!(res, Ok(x) if x == n * nc), "flatten_into result", "{info}: {res:?} with {extra} spare elements");
        eq(&out[..n * nc], d, "flatten_into", info)?;
        let res = swizzle_channels(f.channels_vec_ref(), &mut out);
        check!(res.is_ok(), "swizzle_channels result", "{info}: {res:?}");
        let short = (n * nc).saturating_sub(less);
        let mut out = vec![mark; short];
        let res = f.flatten_into(&mut out);
        check!(res.is_ok(), "flatten_into a short buffer", "{info}: {res:?}");
        let whole = short / nc * nc;
        eq(&out[..whole], &d[..whole], "flatten_into a short buffer", info)?;
        // channels
        let planes: Vec<Vec<T>> = (0..nc).map(|c| d.iter().skip(c).step_by(nc).copied().collect()).collect();
        let all = f.channels_ref(cs, false);
        check!(all.len() == nc, "channels_ref", "{info}: {} channels", all.len());
        for (c, p) in all.iter().zip(&planes) {
            eq(c.reinterpret_as::<T>().map_err(|e| Fail { sig: "type".into(), msg: format!("{e:?}") })?, p, "channels_ref", info)?;
        }
        let alpha = match cs {
            ColorSpace::RGBA | ColorSpace::BGRA => Some(3),
            ColorSpace::LumaA => Some(1),
            ColorSpace::ARGB => Some(0),
            _ => None,
        };
        let colour: Vec<&Vec<T>> = planes.iter().enumerate().filter(|(i, _)| Some(*i) != alpha).map(|x| x.1).collect();
        let c = f.channels_ref(cs, true);
        check!(c.len() == colour.len(), "channels_ref without alpha", "{info}: {} channels", c.len());
        for (c, p) in c.iter().zip(&colour) {
            eq(c.reinterpret_as::<T>().unwrap(), p, "channels_ref without alpha", info)?;
        }
        let sep = f.separate_color_and_alpha_ref(cs);
        check!(sep.is_some() == alpha.is_some(), "separate_color_and_alpha_ref", "{info}");
        if let (Some((c, a)), Some(ai)) = (sep, alpha) {
            check!(c.len() == colour.len(), "separate_color_and_alpha_ref", "{info}");
            for (c, p) in c.iter().zip(&colour) {
                eq(c.reinterpret_as::<T>().unwrap(), p, "separated colour", info)?;
            }
            eq(a.reinterpret_as::<T>().unwrap(), &planes[ai], "separated alpha", info)?;
        }
        if T::depth() == BitDepth::Sixteen {
            let v: &[u16] = bytemuck::cast_slice(d);
            let be: Vec<u8> = v.iter().flat_map(|x| x.to_be_bytes()).collect();
            let ne: Vec<u8> = v.iter().flat_map(|x| x.to_ne_bytes()).collect();
            check!(f.u16_to_native_endian() == ne, "u16_to_native_endian", "{info}");
            check!(f.u16_to_big_endian(cs) == be, "u16_to_big_endian", "{info}");
        }
    }
    if T::depth() == BitDepth::Eight {
        let u = img.flatten_to_u8();
        for (a, b) in u.iter().zip(data) {
            eq(a, bytemuck::cast_slice::<T, u8>(b), "flatten_to_u8", info)?;
        }
    }
    let alpha = cs.has_alpha() as usize;
    check!(img.channels_ref(false).len() == nc * data.len(), "image channels_ref", "{info}");
    check!(img.channels_ref(true).len() == (nc - alpha) * data.len(), "image channels_ref without alpha", "{info}");
    check!(img.channels_mut(false).len() == nc * data.len(), "image channels_mut", "{info}");
    check!(img.channels_mut(true).len() == (nc - alpha) * data.len(), "image channels_mut without alpha", "{info}");
    for (i, c) in img.channels_mut(false).into_iter().enumerate() {
        let p: Vec<T> = data[i / nc].iter().skip(i % nc).step_by(nc).copied().collect();
        eq(c.reinterpret_as_mut::<T>().unwrap(), &p, "image channels_mut", info)?;
    }
    Ok(())
}

pub fn layout(s: &mut Src, cx: &mut Ctx) -> Res {
    match s.below(3) {
        0 => run::<u8>(s, cx),
        1 => run::<u16>(s, cx),
        _ => run::<f32>(s, cx),
    }
}

/// sums and differences of images, and filled images
pub fn arith(s: &mut Src, cx: &mut Ctx) -> Res {
    let a = crate::im::any_pic(s, 20);
    let mut b = a.clone();
    for f in b.frames.iter_mut() {
        for c in f.iter_mut() {
            *c = crate::im::plane(s, a.depth, a.w, a.h);
        }
    }
    cx.note(a.text());
    cx.nontrivial();
    let add = s.bool();
    let got = if add { a.image() + b.image() } else { a.image() - b.image() };
    let got = Pic::of(&got)?;
    let mut want = a.clone();
    let alpha = a.cs.alpha_position();
    for (f, g) in want.frames.iter_mut().zip(&b.frames) {
        for (i, (c, d)) in f.iter_mut().zip(g).enumerate() {
            if a.cs.has_alpha() && Some(i) == alpha {
                continue;
            }
            for (x, y) in c.iter_mut().zip(d) {
                *x = if a.depth == BitDepth::Float32 {
                    (if add { *x as f32 + *y as f32 } else { *x as f32 - *y as f32 }) as f64
                } else {
                    (if add { *x + *y } else { *x - *y }).clamp(0.0, a.max())
                };
            }
        }
    }
    got.same(&want, 0.0, if add { "sum" } else { "difference" })?;
    // fill
    let v = a.frames[0][0][0];
    let img = match a.depth {
        BitDepth::Eight => Image::fill(v as u8, a.cs, a.w, a.h),
        BitDepth::Sixteen => Image::fill(v as u16, a.cs, a.w, a.h),
        _ => Image::fill(v as f32, a.cs, a.w, a.h),
    };
    let want = Pic { frames: vec![vec![vec![v; a.w * a.h]; a.cs.num_components()]], ..a.clone() };
    Pic::of(&img)?.same(&want, 0.0, "fill")
}
