//! operations as arguments of the tool and as the library knows them
use pbt::Src;
use zune_core::bit_depth::BitDepth;
use zune_core::colorspace::ColorSpace;
use zune_image::core_filters::colorspace::ColorspaceConv;
use zune_image::core_filters::depth::Depth;
use zune_image::traits::OperationsTrait;
use zune_imageprocs::affine::AffineTransform;
use zune_imageprocs::auto_orient::AutoOrient;
use zune_imageprocs::box_blur::BoxBlur;
use zune_imageprocs::brighten::Brighten;
use zune_imageprocs::color_transform::{ColorProfiles, ColorTransform};
use zune_imageprocs::contrast::Contrast;
use zune_imageprocs::convolve::Convolve;
use zune_imageprocs::crop::Crop;
use zune_imageprocs::exposure::Exposure;
use zune_imageprocs::flip::{Flip, FlipDirection};
use zune_imageprocs::gamma::Gamma;
use zune_imageprocs::gaussian_blur::GaussianBlur;
use zune_imageprocs::hsv_adjust::HsvAdjust;
use zune_imageprocs::invert::Invert;
use zune_imageprocs::median::Median;
use zune_imageprocs::mirror::{Mirror, MirrorMode};
use zune_imageprocs::resize::{Resize, ResizeMethod};
use zune_imageprocs::rotate::Rotate;
use zune_imageprocs::scharr::Scharr;
use zune_imageprocs::sobel::Sobel;
use zune_imageprocs::spatial::SpatialOps;
use zune_imageprocs::spatial_ops::SpatialOperations;
use zune_imageprocs::stretch_contrast::StretchContrast;
use zune_imageprocs::threshold::{Threshold, ThresholdMethod};
use zune_imageprocs::transpose::Transpose;
use zune_imageprocs::unsharpen::Unsharpen;

pub struct Op {
    pub name: &'static str,
    pub args: Vec<String>,
    pub make: Box<dyn Fn() -> Box<dyn OperationsTrait>>,
}

fn o<T: OperationsTrait + 'static>(name: &'static str, args: Vec<String>, f: impl Fn() -> T + 'static) -> Op {
    Op { name, args, make: Box::new(move || Box::new(f())) }
}
fn flag(n: &str) -> Vec<String> {
    vec![format!("--{n}")]
}
/// one value, in either form
fn one(s: &mut Src, n: &str, v: impl std::fmt::Display) -> Vec<String> {
    let v = v.to_string();
    if s.bool() || v.starts_with('-') {
        vec![format!("--{n}={v}")]
    } else {
        vec![format!("--{n}"), v]
    }
}
fn many(n: &str, v: &[String]) -> Vec<String> {
    let mut a = vec![format!("--{n}")];
    a.extend(v.iter().cloned());
    a
}
fn real(s: &mut Src, lo: f64, hi: f64) -> f32 {
    if s.bool() {
        ((lo + s.f64() * (hi - lo)) as f32).round()
    } else {
        (lo + s.f64() * (hi - lo)) as f32
    }
}

pub fn any_op(s: &mut Src, w: usize, h: usize) -> Op {
    match s.below(33) {
        0 => o("flip", flag("flip"), || Flip::new(FlipDirection::MirrorXAxis)),
        1 => o("flop", flag("flop"), || Flip::new(FlipDirection::Horizontal)),
        2 => o("v-flip", flag("v-flip"), || Flip::new(FlipDirection::Vertical)),
        3 => o("grayscale", flag("grayscale"), || ColorspaceConv::new(ColorSpace::Luma)),
        4 => o("transpose", flag("transpose"), Transpose::new),
        5 => {
            let k = s.usize(0, 3);
            let a = one(s, "mirror", ["north", "south", "east", "west"][k]);
            o("mirror", a, move || Mirror::new([MirrorMode::North, MirrorMode::South, MirrorMode::East, MirrorMode::West][k]))
        }
        6 => o("invert", flag("invert"), Invert::new),
        7 => {
            // between -255 and 255
            let v = real(s, -255.0, 255.0);
            let a = one(s, "brighten", v);
            o("brighten", a, move || Brighten::new(v / 255.0))
        }
        8 => {
            let v = [s.usize(1, w), s.usize(1, h), s.usize(0, w / 2), s.usize(0, h / 2)];
            let t: Vec<String> = v.iter().map(|x| x.to_string()).collect();
            let a = if s.bool() { many("crop", &t) } else { vec![format!("--crop={}", t.join(":"))] };
            o("crop", a, move || Crop::new(v[0], v[1], v[2], v[3]))
        }
        9 => {
            let (v, k) = (real(s, 0.0, 255.0), s.usize(0, 3));
            let m = ["binary", "binary_inv", "thresh_trunc", "thresh_to_zero"][k];
            let a = if s.bool() { many("threshold", &[v.to_string(), m.into()]) } else { vec![format!("--threshold={v}:{m}")] };
            o("threshold", a, move || {
                Threshold::new(v, [ThresholdMethod::Binary, ThresholdMethod::BinaryInv, ThresholdMethod::ThreshTrunc, ThresholdMethod::ThreshToZero][k])
            })
        }
        10 => {
            let v = real(s, 0.0, 4.0);
            let a = one(s, "gamma", v);
            o("gamma", a, move || Gamma::new(v))
        }
        11 => {
            let (l, u) = (real(s, 0.0, 120.0), real(s, 121.0, 255.0));
            o("stretch-contrast", many("stretch-contrast", &[l.to_string(), u.to_string()]), move || StretchContrast::new(l, u))
        }
        12 => {
            let v = real(s, -200.0, 200.0);
            let a = one(s, "contrast", v);
            o("contrast", a, move || Contrast::new(v))
        }
        13 => {
            let (a, b) = (s.usize(1, 48), s.usize(1, 48));
            let mut t = one(s, "resize", format!("{a}x{b}"));
            let mut m = ResizeMethod::Bicubic;
            if s.bool() {
                let k = s.usize(0, 8);
                m = [
                    ResizeMethod::Lanczos3,
                    ResizeMethod::Lanczos2,
                    ResizeMethod::Bilinear,
                    ResizeMethod::Bicubic,
                    ResizeMethod::CatmullRom,
                    ResizeMethod::Mitchell,
                    ResizeMethod::BSpline,
                    ResizeMethod::Hermite,
                    ResizeMethod::Sinc,
                ][k];
                let n = ["lanczos", "lanczos2", "bilinear", "bicubic", "catmullrom", "mitchell", "bspline", "hermite", "sinc"][k];
                let q = one(s, "resize-method", n);
                if s.bool() {
                    t.extend(q);
                } else {
                    t = [q, t].concat();
                }
            }
            o("resize", t, move || Resize::new(a, b, m))
        }
        14 => {
            let d = s.pick(&[BitDepth::Eight, BitDepth::Sixteen]);
            let a = one(s, "depth", if d == BitDepth::Eight { 8 } else { 16 });
            o("depth", a, move || Depth::new(d))
        }
        15 => o("auto-orient", flag("auto-orient"), || AutoOrient),
        16 => {
            let v = real(s, -3.0, 3.0);
            let a = one(s, "exposure", v);
            o("exposure", a, move || Exposure::new(v, 0.0))
        }
        17 => {
            let v = real(s, 0.0, 360.0);
            let a = one(s, "huerotate", v);
            o("huerotate", a, move || HsvAdjust::new(v, 1.0, 1.0))
        }
        18 => {
            let v = real(s, -1.0, 3.0);
            let a = one(s, "saturate", v);
            o("saturate", a, move || HsvAdjust::new(0.0, v, 1.0))
        }
        19 => {
            let v = real(s, -1.0, 3.0);
            let a = one(s, "lightness", v);
            o("lightness", a, move || HsvAdjust::new(0.0, 1.0, v))
        }
        20 => {
            let v = if s.bool() { s.pick(&[90.0f32, 180.0, 270.0, 360.0, 0.0]) } else { real(s, 0.0, 360.0) };
            let a = one(s, "rotate", v);
            o("rotate", a, move || Rotate::new(v))
        }
        21 => {
            let k = s.usize(0, 5);
            let a = one(s, "colorspace", ["rgba", "rgb", "ycbcr", "grayscale", "luma", "lumaA"][k]);
            o("colorspace", a, move || {
                ColorspaceConv::new([ColorSpace::RGBA, ColorSpace::RGB, ColorSpace::YCbCr, ColorSpace::Luma, ColorSpace::Luma, ColorSpace::LumaA][k])
            })
        }
        22 => {
            let r = s.usize(0, 30);
            let a = one(s, "box-blur", r);
            o("box-blur", a, move || BoxBlur::new(r))
        }
        23 => {
            let v = real(s, 0.0, 8.0);
            let a = one(s, "blur", v);
            o("blur", a, move || GaussianBlur::new(v))
        }
        24 => {
            let (v, t) = (real(s, 0.0, 5.0), s.below(256) as f32);
            o("unsharpen", many("unsharpen", &[v.to_string(), t.to_string()]), move || Unsharpen::new(v, t as u16, 0))
        }
        25 => {
            let (r, k) = (s.usize(0, 5), s.usize(0, 7));
            let n = ["contrast", "maximum", "max", "gradient", "minimum", "min", "mean", "avg"][k];
            o("statistic", many("statistic", &[r.to_string(), n.into()]), move || {
                SpatialOps::new(
                    r,
                    match k {
                        0 => SpatialOperations::Contrast,
                        1 | 2 => SpatialOperations::Maximum,
                        3 => SpatialOperations::Gradient,
                        4 | 5 => SpatialOperations::Minimum,
                        _ => SpatialOperations::Mean,
                    },
                )
            })
        }
        26 => {
            let r = s.usize(0, 6);
            let a = one(s, "mean-blur", r);
            o("mean-blur", a, move || SpatialOps::new(r, SpatialOperations::Mean))
        }
        27 => o("sobel", flag("sobel"), Sobel::new),
        28 => o("scharr", flag("scharr"), Scharr::new),
        29 => {
            let n = s.pick(&[9usize, 25, 49]);
            let v: Vec<f32> = (0..n).map(|_| real(s, -1.0, 1.0)).collect();
            o("convolve", v.iter().map(|x| format!("--convolve={x}")).collect(), move || Convolve::new(v.clone(), 1.0))
        }
        30 => {
            let r = s.usize(0, 6);
            let a = one(s, "median-blur", r);
            o("median-blur", a, move || Median::new(r))
        }
        31 => {
            let k = s.usize(0, 3);
            let a = one(s, "color-transform", ["rgb", "adobe-rgb", "display-p3", "bt-2020"][k]);
            o("color-transform", a, move || ColorTransform::new([ColorProfiles::sRGB, ColorProfiles::AdobeRgb, ColorProfiles::DisplayP3, ColorProfiles::Bt2020][k]))
        }
        _ => {
            let v: Vec<f32> = (0..6).map(|i| if i < 4 { real(s, -2.0, 2.0) } else { real(s, -20.0, 20.0) }).collect();
            let t: Vec<String> = v.iter().map(|x| x.to_string()).collect();
            o("affine-transform", many("affine-transform", &t), move || AffineTransform::new(v[0], v[1], v[2], v[3], v[4], v[5]))
        }
    }
}
