//! C26: histories of operations
use crate::im::*;
use crate::save;
use pbt::{check, fail, Ctx, Fail, Res, Src};
use zune_core::bit_depth::BitDepth;
use zune_core::bytestream::ZCursor;
use zune_image::core_filters::colorspace::ColorspaceConv;
use zune_image::core_filters::depth::Depth;
use zune_image::errors::ImageErrors;
use zune_image::image::Image;
use zune_image::metadata::AlphaState;
use zune_image::traits::OperationsTrait;
use zune_imageprocs::affine::AffineTransform;
use zune_imageprocs::auto_orient::AutoOrient;
use zune_imageprocs::bilateral_filter::BilateralFilter;
use zune_imageprocs::blend::Blend;
use zune_imageprocs::box_blur::BoxBlur;
use zune_imageprocs::brighten::Brighten;
use zune_imageprocs::color_matrix::ColorMatrix;
use zune_imageprocs::color_transform::{ColorProfiles, ColorTransform};
use zune_imageprocs::composite::{Composite, CompositeMethod};
use zune_imageprocs::contrast::Contrast;
use zune_imageprocs::convolve::Convolve;
use zune_imageprocs::crop::Crop;
use zune_imageprocs::exposure::Exposure;
use zune_imageprocs::flip::{Flip, FlipDirection};
use zune_imageprocs::gamma::Gamma;
use zune_imageprocs::gaussian_blur::GaussianBlur;
use zune_imageprocs::hsv_adjust::HsvAdjust;
use zune_imageprocs::invert::Invert;
use zune_imageprocs::median::Median;
use zune_imageprocs::mirror::{Mirror, MirrorMode};
use zune_imageprocs::premul_alpha::PremultiplyAlpha;
use zune_imageprocs::resize::{Resize, ResizeMethod};
use zune_imageprocs::rotate::Rotate;
use zune_imageprocs::scharr::Scharr;
use zune_imageprocs::sobel::Sobel;
use zune_imageprocs::spatial::SpatialOps;
use zune_imageprocs::spatial_ops::SpatialOperations;
use zune_imageprocs::stretch_contrast::StretchContrast;
use zune_imageprocs::threshold::{Threshold, ThresholdMethod};
use zune_imageprocs::transpose::Transpose;
use zune_imageprocs::unsharpen::Unsharpen;

pub struct Step {
    pub name: String,
    run: Box<dyn Fn(&mut Image) -> Result<(), ImageErrors>>,
    /// treats each frame by itself
    pub framewise: bool,
}
impl Step {
    pub fn run(&self, i: &mut Image) -> Result<(), ImageErrors> {
        (self.run)(i)
    }
}

fn op<O: OperationsTrait + 'static>(name: String, o: O) -> Step {
    Step { name, run: Box::new(move |i| o.execute(i)), framewise: true }
}

fn real(s: &mut Src, lo: f64, hi: f64) -> f32 {
    match s.below(8) {
        0 => 0.0,
        1 => s.pick(&[1.0f32, -1.0, 0.5, 255.0, 65535.0, 1e-6, 1e6, -1e6]),
        _ => (lo + s.f64() * (hi - lo)) as f32,
    }
}

pub const METHODS: [ResizeMethod; 9] = [
    ResizeMethod::Lanczos3,
    ResizeMethod::Lanczos2,
    ResizeMethod::Bicubic,
    ResizeMethod::CatmullRom,
    ResizeMethod::Mitchell,
    ResizeMethod::BSpline,
    ResizeMethod::Hermite,
    ResizeMethod::Sinc,
    ResizeMethod::Bilinear,
];

/// any operation with any parameters, for an image of a given size
pub fn any_step(s: &mut Src, i: &Image) -> Step {
    let (w, h) = i.dimensions();
    // an image that has grown is cut down
    if w * h > 20_000 {
        let (a, b) = (w.min(64), h.min(64));
        return op(format!("crop {a} {b} 0 0"), Crop::new(a, b, 0, 0));
    }
    match s.below(34) {
        0 => op("flip".into(), Flip::new(s.pick(&[FlipDirection::Horizontal, FlipDirection::Vertical]))),
        1 => {
            let k = s.below(4);
            op(format!("mirror {k}"), Mirror::new([MirrorMode::North, MirrorMode::South, MirrorMode::East, MirrorMode::West][k as usize]))
        }
        2 => op("transpose".into(), Transpose::new()),
        3 => {
            let a = if s.bool() { 90.0 * s.below(9) as f32 - 360.0 } else { real(s, -400.0, 400.0) };
            op(format!("rotate {a}"), Rotate::new(a))
        }
        4 => {
            let (a, b, x, y) = (s.usize(0, w + 2), s.usize(0, h + 2), s.usize(0, w), s.usize(0, h));
            op(format!("crop {a} {b} {x} {y}"), Crop::new(a, b, x, y))
        }
        5 => {
            let (a, b, m) = (s.usize(0, 48), s.usize(0, 48), s.pick(&METHODS));
            op(format!("resize {a} {b} {m:?}"), Resize::new(a, b, m))
        }
        6 => {
            let mut v = [0f32; 6];
            for x in &mut v {
                *x = (s.f64() * 4.0 - 2.0) as f32;
            }
            let t = match s.below(6) {
                0 => AffineTransform::identity(),
                1 => AffineTransform::rotation(v[0] * 180.0),
                2 => AffineTransform::translation(v[0] * 10.0, v[1] * 10.0),
                3 => AffineTransform::scale(v[0], v[1]),
                4 => AffineTransform::shear(v[0], v[1]),
                _ => AffineTransform::new(v[0], v[1], v[2], v[3], v[4] * 20.0, v[5] * 20.0),
            };
            op(format!("affine {v:?}"), t)
        }
        7 => op("auto orient".into(), AutoOrient),
        8 => {
            let (d, a, b) = (s.below(9) as i32 - 2, real(s, -2.0, 60.0), real(s, -2.0, 8.0).min(20.0));
            op(format!("bilateral {d} {a} {b}"), BilateralFilter::new(d, a, b))
        }
        9 => {
            let r = s.usize(0, 60);
            op(format!("box blur {r}"), BoxBlur::new(r))
        }
        10 => {
            let v = real(s, -1.5, 1.5);
            op(format!("brighten {v}"), Brighten::new(v))
        }
        11 => {
            let mut m = [[0f32; 5]; 4];
            for v in m.iter_mut().flatten() {
                *v = real(s, -1.5, 1.5);
            }
            op(format!("matrix {m:?}"), ColorMatrix::new(m))
        }
        12 => {
            let k = s.below(5);
            let p = [ColorProfiles::sRGB, ColorProfiles::AdobeRgb, ColorProfiles::DisplayP3, ColorProfiles::Bt2020, ColorProfiles::DciP3][k as usize];
            op(format!("profile {k}"), ColorTransform::new(p))
        }
        13 => {
            let v = real(s, -260.0, 300.0);
            op(format!("contrast {v}"), Contrast::new(v))
        }
        14 => {
            let n = s.pick(&[9usize, 25, 49, 0, 1, 10, 81]);
            let v: Vec<f32> = (0..n).map(|_| real(s, -1.0, 1.0)).collect();
            let k = real(s, -2.0, 10.0);
            op(format!("convolve {n} {k}"), Convolve::new(v, k))
        }
        15 => {
            let (a, b) = (real(s, -3.0, 3.0), real(s, -1.0, 1.0));
            op(format!("exposure {a} {b}"), Exposure::new(a, b))
        }
        16 => {
            let v = real(s, -3.0, 5.0);
            op(format!("gamma {v}"), Gamma::new(v))
        }
        17 => {
            let v = real(s, -2.0, 20.0);
            op(format!("gaussian {v}"), GaussianBlur::new(v.min(300.0)))
        }
        18 => {
            let (a, b, c) = (real(s, -400.0, 400.0), real(s, -1.0, 3.0), real(s, -1.0, 3.0));
            op(format!("hsv {a} {b} {c}"), HsvAdjust::new(a, b, c))
        }
        19 => op("invert".into(), Invert::new()),
        20 => {
            let r = s.usize(0, 7);
            op(format!("median {r}"), Median::new(r))
        }
        21 => {
            let t = s.pick(&[AlphaState::PreMultiplied, AlphaState::NonPreMultiplied]);
            op(format!("premultiply {t:?}"), PremultiplyAlpha::new(t))
        }
        22 => op("scharr".into(), Scharr::new()),
        23 => op("sobel".into(), Sobel::new()),
        24 => {
            let (r, k) = (s.usize(0, 6), s.below(5));
            let o = [SpatialOperations::Contrast, SpatialOperations::Maximum, SpatialOperations::Gradient, SpatialOperations::Minimum, SpatialOperations::Mean][k as usize];
            op(format!("spatial {r} {k}"), SpatialOps::new(r, o))
        }
        25 => {
            let (a, b) = (real(s, -10.0, 300.0), real(s, -10.0, 300.0));
            op(format!("stretch {a} {b}"), StretchContrast::new(a, b))
        }
        26 => {
            let (t, k) = (real(s, -10.0, 300.0), s.below(4));
            let m = [ThresholdMethod::Binary, ThresholdMethod::BinaryInv, ThresholdMethod::ThreshTrunc, ThresholdMethod::ThreshToZero][k as usize];
            op(format!("threshold {t} {k}"), Threshold::new(t, m))
        }
        27 => {
            let (a, t, p) = (real(s, -1.0, 8.0).min(300.0), s.below(300) as u16, s.byte());
            op(format!("unsharpen {a} {t} {p}"), Unsharpen::new(a, t, p))
        }
        28 | 29 => {
            let c = if s.chance(1, 6) { any_cs(s) } else { s.pick(&COLORS) };
            op(format!("colour {c:?}"), ColorspaceConv::new(c))
        }
        30 => {
            let d = s.pick(&DEPTHS);
            op(format!("depth {d:?}"), Depth::new(d))
        }
        31 => {
            // another picture laid over or mixed in, mostly of the same kind
            let same = s.chance(4, 5);
            let (cs, d) = if same { (i.colorspace(), i.depth()) } else { (any_cs(s), s.pick(&DEPTHS)) };
            let other = pic(s, d, cs, w, h, i.frames_len()).image();
            let a = real(s, -0.5, 1.5);
            Step { name: format!("blend {a} with {cs:?} {d:?}"), run: Box::new(move |i| Blend::new(&other, a).execute(i)), framewise: false }
        }
        32 => {
            let same = s.chance(4, 5);
            let (cs, d) = if same { (i.colorspace(), i.depth()) } else { (any_cs(s), s.pick(&DEPTHS)) };
            let (ow, oh) = (s.dim(20), s.dim(20));
            let other = pic(s, d, cs, ow, oh, 1).image();
            let k = s.below(4);
            let (x, y) = (s.usize(0, w + 3), s.usize(0, h + 3));
            Step {
                name: format!("composite {k} of {cs:?} {d:?} {ow}x{oh} at {x} {y}"),
                run: Box::new(move |i| {
                    let m = [CompositeMethod::Over, CompositeMethod::Src, CompositeMethod::Dst, CompositeMethod::DstIn][k as usize];
                    Composite::new(&other, m, (x, y)).execute(i)
                }),
                framewise: false,
            }
        }
        _ => {
            let k = s.byte();
            Step {
                name: format!("modify pixels {k}"),
                run: Box::new(move |i| {
                    match i.depth() {
                        BitDepth::Eight => i.modify_pixels_mut(|x, y, p: [&mut u8; 4]| {
                            let v = *p[0];
                            *p[0] = v.wrapping_add(k).wrapping_add((x ^ y) as u8)
                        }),
                        BitDepth::Sixteen => i.modify_pixels_mut(|x, y, p: [&mut u16; 4]| {
                            let v = *p[0];
                            *p[0] = v.wrapping_add(u16::from(k)).wrapping_add((x ^ y) as u16)
                        }),
                        _ => i.modify_pixels_mut(|_, _, p: [&mut f32; 4]| {
                            let v = *p[0];
                            *p[0] = 1.0 - v
                        }),
                    }
                    .map_err(ImageErrors::ChannelErrors)
                }),
                framewise: true,
            }
        }
    }
}

/// compares samples as bits, so that equal means equal also for what isn't a number
fn bits(i: &Image) -> Vec<Vec<Vec<u8>>> {
    i.frames_ref().iter().map(|f| f.channels_vec_ref().iter().map(|c| unsafe { c.alias().to_vec() }).collect()).collect()
}

pub fn well_formed(i: &Image) -> Res {
    Pic::of(i)?;
    let (w, h) = i.dimensions();
    let n = i.colorspace().num_components();
    let flat = i.flatten_to_u8();
    check!(flat.len() == i.frames_len(), "flatten: frames", "{} of {}", flat.len(), i.frames_len());
    for f in &flat {
        check!(f.len() == w * h * n, "flatten: length", "{} for {w}x{h} {:?} {:?}", f.len(), i.colorspace(), i.depth());
    }
    Ok(())
}

pub fn history(s: &mut Src, c: &mut Ctx) -> Res {
    let p = if s.chance(1, 8) {
        let (cs, d) = (s.pick(&COLORS), s.pick(&DEPTHS));
        let (w, h) = s.pick(&[(1usize, 1usize), (1, 33), (33, 1), (2, 2), (70, 3)]);
        let n = nframes(s);
        pic(s, d, cs, w, h, n)
    } else {
        any_pic(s, 32)
    };
    let mut i = p.image();
    if s.chance(1, 4) {
        let f = exif::Field { tag: exif::Tag::Orientation, ifd_num: exif::In::PRIMARY, value: exif::Value::Short(vec![s.below(10) as u16]) };
        set_exif(&mut i, vec![f]);
    }
    if s.chance(1, 4) {
        i.metadata_mut().set_icc_chunk(match s.below(4) {
            0 => s.data(200),
            1 => moxcms::ColorProfile::new_srgb().encode().unwrap(),
            2 => moxcms::ColorProfile::new_gray_with_gamma(2.2).encode().unwrap(),
            _ => moxcms::ColorProfile::new_adobe_rgb().encode().unwrap(),
        });
    }
    let mut text = p.text();
    let n = 1 + s.usize(0, 9);
    let mut done = 0;
    for _ in 0..n {
        let frames = i.frames_len();
        let step = any_step(s, &i);
        text = format!("{text}; {}", step.name);
        c.note(text.clone());
        c.label(step.name.split(' ').next().unwrap());
        let before = i.clone();
        let r = step.run(&mut i);
        if r.is_err() {
            text.push_str(" (refused)");
        } else {
            done += 1;
        }
        well_formed(&i).map_err(|f| Fail { sig: format!("after {}: {}", step.name.split(' ').next().unwrap(), f.sig), msg: f.msg })?;
        check!(i.frames_len() == frames, "frames lost", "{} of {frames}", i.frames_len());
        if s.chance(1, 3) {
            // the same again gives the same
            let mut j = before.clone();
            let q = step.run(&mut j);
            check!(r.is_ok() == q.is_ok(), "outcome differs when repeated", "{:?} then {:?}", r.err(), q.err());
            if r.is_ok() {
                check!(bits(&i) == bits(&j) && i.dimensions() == j.dimensions(), "result differs when repeated", "{}", step.name);
            }
            // and so does each frame by itself
            if frames > 1 && step.framewise && r.is_ok() {
                let k = s.usize(0, frames - 1);
                let mut one = Image::new_frames(vec![before.frames_ref()[k].clone()], before.depth(), before.dimensions().0, before.dimensions().1, before.colorspace());
                *one.metadata_mut() = before.metadata().clone();
                let q = step.run(&mut one);
                check!(q.is_ok(), "a frame alone is refused", "{:?}", q.err());
                check!(bits(&i)[k] == bits(&one)[0], "a frame alone gives another result", "frame {k} {}", step.name);
            }
        }
        if i.dimensions().0 == 0 || i.dimensions().1 == 0 {
            // nothing left of the picture
            return Ok(());
        }
    }
    if done > 1 {
        c.nontrivial();
    }
    // what comes out can be written and read
    let f = s.pick(&save::LOSSLESS);
    let want = save::converted(&i, f)?;
    let mut out = vec![];
    let r = f.encode(&i, Default::default(), &mut out);
    match (want, r) {
        (None, Err(_)) => Ok(()),
        (None, Ok(_)) => fail("encoded without a conversion", format!("{f:?}")),
        (Some((w, _)), Err(e)) => {
            if f == zune_image::codecs::ImageFormat::JPEG_XL && (w.w < 2 || w.h < 2) {
                return Ok(());
            }
            fail(&format!("{f:?}: encoding failed"), format!("{e:?}"))
        }
        (Some((w, v)), Ok(_)) => {
            let got = Image::read(ZCursor::new(&out), Default::default()).map_err(|e| Fail { sig: format!("{f:?}: can't read what was written"), msg: format!("{e:?}") })?;
            check!(got.dimensions() == i.dimensions(), "dimensions read back", "{:?} for {:?}", got.dimensions(), i.dimensions());
            let plain = |p: &Pic| p.frames.iter().flatten().flatten().all(|v| v.is_finite() && *v >= 0.0 && *v <= maxval(p.depth));
            if plain(&w) && i.metadata().alpha() == AlphaState::NonPreMultiplied {
                save::arrived(f, &got, &w).or_else(|e| save::arrived(f, &got, &v).map_err(|_| e))?;
            }
            Ok(())
        }
    }
}
