//! C28: neighbourhood filters against their window definitions on the edge-extended plane
use crate::geom::{apply, sides};
use crate::im::*;
use pbt::{check, Ctx, Res, Src};
use zune_core::bit_depth::BitDepth;
use zune_core::colorspace::ColorSpace;
use zune_image::traits::OperationsTrait;
use zune_imageprocs::bilateral_filter::BilateralFilter;
use zune_imageprocs::box_blur::BoxBlur;
use zune_imageprocs::convolve::Convolve;
use zune_imageprocs::box_blur::{box_blur_f32, box_blur_u16, box_blur_u8};
use zune_imageprocs::gaussian_blur::{gaussian_blur_f32, gaussian_blur_u16, gaussian_blur_u8, GaussianBlur};
use zune_imageprocs::median::Median;
use zune_imageprocs::scharr::Scharr;
use zune_imageprocs::sobel::Sobel;
use zune_imageprocs::spatial::SpatialOps;
use zune_imageprocs::spatial_ops::SpatialOperations;
use zune_imageprocs::unsharpen::Unsharpen;

/// a plane read with its edges extended without end
pub struct Edge<'a> {
    pub v: &'a [f64],
    pub w: usize,
    pub h: usize,
}
impl Edge<'_> {
    pub fn at(&self, x: i64, y: i64) -> f64 {
        let x = x.clamp(0, self.w as i64 - 1) as usize;
        let y = y.clamp(0, self.h as i64 - 1) as usize;
        self.v[y * self.w + x]
    }
}

pub fn alpha_index(cs: ColorSpace) -> Option<usize> {
    match cs {
        ColorSpace::ARGB => Some(0),
        ColorSpace::LumaA => Some(1),
        ColorSpace::RGBA | ColorSpace::BGRA => Some(3),
        _ => None,
    }
}

/// the range of values allowed for each sample
pub type Range = (f64, f64);

pub fn compare(p: &Pic, got: &Pic, what: &str, skip_alpha: bool, model: &dyn Fn(&[f64]) -> Vec<Range>) -> Res {
    check!((got.w, got.h, got.cs, got.depth, got.frames.len()) == (p.w, p.h, p.cs, p.depth, p.frames.len()), &format!("{what}: type"), "{} became {}", p.text(), got.text());
    for (fi, (a, b)) in got.frames.iter().zip(&p.frames).enumerate() {
        for (ci, (ga, pb)) in a.iter().zip(b).enumerate() {
            if skip_alpha && alpha_index(p.cs) == Some(ci) {
                check!(ga == pb, &format!("{what}: alpha changed"), "frame {fi} channel {ci} of {}", p.text());
                continue;
            }
            let want = model(pb);
            for (i, (g, (lo, hi))) in ga.iter().zip(&want).enumerate() {
                check!(
                    *g >= *lo && *g <= *hi,
                    &format!("{what}: samples"),
                    "frame {fi} channel {ci} at ({}, {}): got {g}, expected {lo}..{hi} ({} samples out of range; {})",
                    i % p.w,
                    i / p.w,
                    ga.iter().zip(&want).filter(|(g, (lo, hi))| !(**g >= *lo && **g <= *hi)).count(),
                    p.text()
                );
            }
        }
    }
    Ok(())
}

fn each(w: usize, h: usize, f: impl Fn(i64, i64) -> Range) -> Vec<Range> {
    (0..w * h).map(|i| f((i % w) as i64, (i / w) as i64)).collect()
}

/// moving averages of 2r+1 samples along rows, then columns
fn boxed(v: &[f64], w: usize, h: usize, rx: i64, ry: i64) -> Vec<f64> {
    let e = Edge { v, w, h };
    let a: Vec<f64> = (0..w * h)
        .map(|i| {
            let (x, y) = ((i % w) as i64, (i / w) as i64);
            (-rx..=rx).map(|d| e.at(x + d, y)).sum::<f64>() / (2 * rx + 1) as f64
        })
        .collect();
    let e = Edge { v: &a, w, h };
    (0..w * h)
        .map(|i| {
            let (x, y) = ((i % w) as i64, (i / w) as i64);
            (-ry..=ry).map(|d| e.at(x, y + d)).sum::<f64>() / (2 * ry + 1) as f64
        })
        .collect()
}

/// widths of the three boxes which together approximate a Gaussian (https://blog.ivank.net/fastest-gaussian-blur.html)
fn gauss_boxes(sigma: f64) -> [i64; 3] {
    if !(sigma > 0.0) {
        return [1; 3];
    }
    let n = 3.0;
    let ideal = (12.0 * sigma * sigma / n + 1.0).sqrt();
    let mut wl = ideal.floor();
    if wl % 2.0 == 0.0 {
        wl -= 1.0;
    }
    let m = ((12.0 * sigma * sigma - n * wl * wl - 4.0 * n * wl - 3.0 * n) / (-4.0 * wl - 4.0)).round();
    let mut o = [0; 3];
    for (i, b) in o.iter_mut().enumerate() {
        *b = if (i as f64) < m { wl as i64 } else { wl as i64 + 2 };
    }
    o
}

/// distance of sigma to the nearest value at which the box widths change, relative
fn gauss_stable(sigma: f64) -> bool {
    gauss_boxes(sigma * 0.9999) == gauss_boxes(sigma * 1.0001)
}

pub fn filters(s: &mut Src, c: &mut Ctx) -> Res {
    let op = s.below(20);
    let d = match op {
        // integer only
        2..=7 | 12..=15 => s.pick(&[BitDepth::Eight, BitDepth::Sixteen]),
        8 => s.pick(&[BitDepth::Eight, BitDepth::Sixteen]),
        _ => s.pick(&DEPTHS),
    };
    let max = match (op, d) {
        (2 | 3, BitDepth::Sixteen) => 10,
        (12 | 13, _) => 16,
        _ => 40,
    };
    let (w, h) = sides(s, max);
    let cs = match s.below(4) {
        0 => any_cs(s),
        _ => s.pick(&[ColorSpace::Luma, ColorSpace::LumaA, ColorSpace::ARGB, ColorSpace::RGBA, ColorSpace::RGB]),
    };
    let frames = nframes(s);
    let p = pic(s, d, cs, w, h, frames);
    let (w, h) = (p.w, p.h);
    let m = p.max();
    let int = d != BitDepth::Float32;
    let mut i = p.image();
    if w * h > 1 && p.frames.iter().any(|f| f.iter().any(|c| c.windows(2).any(|v| v[0] != v[1]))) {
        c.nontrivial();
    }
    match op {
        0 | 1 => {
            let mut r = radius(s);
            c.note(format!("box blur radius {r} of {}", p.text()));
            apply(&BoxBlur::new(r as usize), &mut i)?;
            if r <= 1 {
                r = 0;
            } else if r % 2 == 0 {
                r += 1;
            }
            compare(&p, &Pic::of(&i)?, "box blur", false, &|v| {
                boxed(v, w, h, r, r).iter().map(|x| if int { (x - if r == 0 { 0.0 } else { 2.001 }, x + if r == 0 { 0.0 } else { 1.001 }) } else { (x - 2e-5, x + 2e-5) }).collect()
            })
        }
        2 | 3 => {
            let r = if d == BitDepth::Eight { radius(s).min(12) } else { s.below(5) as i64 };
            c.note(format!("median radius {r} of {}", p.text()));
            apply(&Median::new(r as usize), &mut i)?;
            compare(&p, &Pic::of(&i)?, "median", true, &|v| {
                let e = Edge { v, w, h };
                each(w, h, |x, y| {
                    let mut a: Vec<f64> = (-r..=r).flat_map(|dy| (-r..=r).map(move |dx| (dx, dy))).map(|(dx, dy)| e.at(x + dx, y + dy)).collect();
                    a.sort_by(f64::total_cmp);
                    (a[a.len() / 2], a[a.len() / 2])
                })
            })
        }
        4..=7 => {
            let r = radius(s).min(8);
            let k = s.below(5) as usize;
            let o = [SpatialOperations::Contrast, SpatialOperations::Maximum, SpatialOperations::Gradient, SpatialOperations::Minimum, SpatialOperations::Mean][k];
            let name = ["contrast", "maximum", "gradient", "minimum", "mean"][k];
            check!(SpatialOperations::from_string_result(name).is_ok(), "name of a statistic", "{name} is not accepted");
            c.note(format!("{name} radius {r} of {}", p.text()));
            apply(&SpatialOps::new(r as usize, o), &mut i)?;
            compare(&p, &Pic::of(&i)?, name, true, &|v| {
                let e = Edge { v, w, h };
                each(w, h, |x, y| {
                    let (mut lo, mut hi, mut sum) = (f64::MAX, f64::MIN, 0.0);
                    for dy in -r..=r {
                        for dx in -r..=r {
                            let a = e.at(x + dx, y + dy);
                            lo = lo.min(a);
                            hi = hi.max(a);
                            sum += a;
                        }
                    }
                    let n = ((2 * r + 1) * (2 * r + 1)) as f64;
                    match k {
                        // whole numbers can hardly hold a contrast
                        0 => (0.0, 1.0),
                        1 => (hi, hi),
                        2 => (hi - lo, hi - lo),
                        3 => (lo, lo),
                        _ => (sum / n - 1.0, sum / n + 1.0),
                    }
                })
            })
        }
        8 => {
            let sigma = sigma(s);
            let threshold = match s.below(3) {
                0 => 0,
                1 => s.below(65536) as u16,
                _ => s.below(30) as u16,
            };
            let percent = s.byte();
            c.note(format!("unsharpen sigma {sigma} threshold {threshold} of {}", p.text()));
            apply(&Unsharpen::new(sigma, threshold, percent), &mut i)?;
            let threshold = (threshold as f64).min(m);
            compare(&p, &Pic::of(&i)?, "unsharpen", true, &|v| {
                let mut b: Vec<f64> = v.to_vec();
                if d == BitDepth::Eight {
                    let mut a: Vec<u8> = v.iter().map(|x| *x as u8).collect();
                    gaussian_blur_u8(&mut a, &mut vec![0; w * h], w, h, sigma);
                    b.iter_mut().zip(a).for_each(|(x, y)| *x = y as f64);
                } else {
                    let mut a: Vec<u16> = v.iter().map(|x| *x as u16).collect();
                    gaussian_blur_u16(&mut a, &mut vec![0; w * h], w, h, sigma);
                    b.iter_mut().zip(a).for_each(|(x, y)| *x = y as f64);
                }
                v.iter()
                    .zip(b)
                    .map(|(x, b)| {
                        let diff = x - b;
                        let o = if diff > threshold { (x + diff).min(m) } else { *x };
                        (o, o)
                    })
                    .collect()
            })
        }
        9 | 10 | 11 => {
            // weights of any size and sign; wrong counts are refused
            let n = [3i64, 5, 7][s.below(3) as usize];
            let mut r = s.rng();
            let kind = s.below(3);
            let weights: Vec<f32> = (0..n * n)
                .map(|_| match kind {
                    0 => r.below(5) as f32 - 2.0,
                    1 => r.f64() as f32,
                    _ => (r.f64() * 4.0 - 2.0) as f32,
                })
                .collect();
            if s.chance(1, 12) {
                let bad = Convolve::new(vec![1.0; [0, 1, 4, 8, 10, 16, 24, 36, 50, 81][s.below(10) as usize]], 1.0);
                check!(bad.execute(&mut i).is_err(), "convolve with a wrong number of weights accepted", "{}", p.text());
                return Ok(());
            }
            let sum: f32 = weights.iter().sum();
            let scale = match s.below(3) {
                0 => 1.0,
                1 if sum.abs() > 0.1 => 1.0 / sum,
                _ => (s.f64() * 2.0 - 0.5) as f32,
            };
            c.note(format!("convolve {n}x{n} scale {scale} of {}", p.text()));
            apply(&Convolve::new(weights.clone(), scale), &mut i)?;
            let k = n / 2;
            compare(&p, &Pic::of(&i)?, "convolve", true, &|v| {
                let e = Edge { v, w, h };
                each(w, h, |x, y| {
                    let (mut t, mut size) = (0.0, 0.0);
                    for (q, wt) in weights.iter().enumerate() {
                        let (dx, dy) = (q as i64 % n - k, q as i64 / n - k);
                        let a = e.at(x + dx, y + dy) * *wt as f64;
                        t += a;
                        size += a.abs();
                    }
                    let t = t * scale as f64;
                    let tol = (size * scale.abs() as f64 + m) * 8e-6;
                    let lo = (t - tol - if int { 1.0 } else { 0.0 }).clamp(0.0, m);
                    let hi = (t + tol + if int { 0.5 } else { 0.0 }).clamp(0.0, m);
                    (lo, hi)
                })
            })
        }
        12 | 13 => {
            let dia = if s.chance(1, 6) { -(s.below(3) as i32) } else { 1 + s.below(9) as i32 };
            let sc = match s.below(6) {
                0 => -(s.below(2) as f32),
                1 => 1.0 + s.below(5) as f32,
                _ => (m * s.f64() + 0.5) as f32,
            };
            let ss = match s.below(6) {
                0 => -(s.below(2) as f32),
                _ => (0.3 + 5.0 * s.f64()) as f32,
            };
            c.note(format!("bilateral d {dia} sigma color {sc} sigma space {ss} of {}", p.text()));
            apply(&BilateralFilter::new(dia, sc, ss), &mut i)?;
            let (sc, ss) = (if sc <= 0.0 { 1.0 } else { sc as f64 }, if ss <= 0.0 { 1.0 } else { ss as f64 });
            let r = if dia <= 0 { (ss * 1.5).round() as i64 } else { dia as i64 / 2 };
            if dia <= 0 && ((ss * 1.5).fract() - 0.5).abs() < 1e-3 {
                return Ok(());
            }
            compare(&p, &Pic::of(&i)?, "bilateral", true, &|v| {
                let e = Edge { v, w, h };
                each(w, h, |x, y| {
                    let (mut t, mut n) = (0.0, 0.0);
                    let mid = e.at(x, y);
                    for dy in -r..=r {
                        for dx in -r..=r {
                            let d2 = (dx * dx + dy * dy) as f64;
                            if d2.sqrt() > r as f64 {
                                continue;
                            }
                            let a = e.at(x + dx, y + dy);
                            let k = (-0.5 * d2 / (ss * ss) - 0.5 * (a - mid) * (a - mid) / (sc * sc)).exp();
                            t += a * k;
                            n += k;
                        }
                    }
                    let t = t / n;
                    let tol = 0.51 + m * 1e-6;
                    (t - tol, t + tol)
                })
            })
        }
        14 | 15 => {
            let sigma = sigma(s);
            c.note(format!("gaussian blur sigma {sigma} of {}", p.text()));
            apply(&GaussianBlur::new(sigma), &mut i)?;
            if !gauss_stable(sigma as f64) {
                return Ok(());
            }
            let b = gauss_boxes(sigma as f64);
            compare(&p, &Pic::of(&i)?, "gaussian blur", false, &|v| {
                let mut a = v.to_vec();
                for k in b {
                    a = boxed(&a, w, h, k / 2, k / 2);
                }
                let passes = 2.0 * b.iter().filter(|k| **k > 1).count() as f64;
                a.iter().map(|x| (x - passes - 0.001, x + passes / 2.0 + 0.001)).collect()
            })
        }
        _ => {
            let scharr = op >= 18;
            let (a, b) = if scharr { (3.0, 10.0) } else { (1.0, 2.0) };
            let name = if scharr { "scharr" } else { "sobel" };
            c.note(format!("{name} of {}", p.text()));
            if scharr {
                apply(&Scharr::new(), &mut i)?;
            } else {
                apply(&Sobel::new(), &mut i)?;
            }
            compare(&p, &Pic::of(&i)?, name, true, &|v| {
                let e = Edge { v, w, h };
                each(w, h, |x, y| {
                    let g = |dx: i64, dy: i64| e.at(x + dx, y + dy);
                    let gx = a * (g(1, -1) + g(1, 1) - g(-1, -1) - g(-1, 1)) + b * (g(1, 0) - g(-1, 0));
                    let gy = a * (g(-1, 1) + g(1, 1) - g(-1, -1) - g(1, -1)) + b * (g(0, 1) - g(0, -1));
                    let t = (gx * gx + gy * gy).sqrt();
                    if int {
                        ((t - 1.0).min(m), (t + 0.51).min(m))
                    } else {
                        (t - 1e-4, t + 1e-4)
                    }
                })
            })
        }
    }
}

fn radius(s: &mut Src) -> i64 {
    match s.below(8) {
        0 => s.below(60) as i64,
        1..=3 => s.below(12) as i64,
        _ => s.below(5) as i64,
    }
}

fn sigma(s: &mut Src) -> f32 {
    match s.below(8) {
        0 => [0.0, -1.0, 0.1, 1.0, 2.0][s.below(5) as usize],
        1 => (s.f64() * 40.0) as f32,
        _ => (s.f64() * 5.0) as f32,
    }
}

/// a Gaussian blur spreads a single line by its sigma
pub fn spread(s: &mut Src, c: &mut Ctx) -> Res {
    let sigma = (1.5 + 6.0 * s.f64()) as f32;
    let n = 121;
    let across = s.bool();
    let (w, h) = if across { (n, 1 + s.below(4) as usize) } else { (1 + s.below(4) as usize, n) };
    let v: Vec<f64> = (0..w * h).map(|i| if (if across { i % w } else { i / w }) == n / 2 { 65535.0 } else { 0.0 }).collect();
    let p = Pic { w, h, cs: ColorSpace::Luma, depth: BitDepth::Sixteen, frames: vec![vec![v]] };
    let mut i = p.image();
    c.nontrivial();
    c.note(format!("sigma {sigma} across {across} {w}x{h}"));
    apply(&GaussianBlur::new(sigma), &mut i)?;
    let g = Pic::of(&i)?;
    let line: Vec<f64> = (0..n).map(|k| if across { g.at(0, 0, k, 0) } else { g.at(0, 0, 0, k) }).collect();
    let sum: f64 = line.iter().sum();
    let mean: f64 = line.iter().enumerate().map(|(k, v)| k as f64 * v).sum::<f64>() / sum;
    let var: f64 = line.iter().enumerate().map(|(k, v)| (k as f64 - mean).powi(2) * v).sum::<f64>() / sum;
    check!((mean - (n / 2) as f64).abs() < 0.05, "gaussian blur moves the image", "sigma {sigma}: the line moved to {mean}");
    check!((sum - 65535.0).abs() < 65535.0 * 0.01, "gaussian blur changes brightness", "sigma {sigma}: sum {sum}");
    // with three boxes of odd widths only some deviations can be had (1.41, 1.83, 2.16..)
    check!((var.sqrt() / sigma as f64 - 1.0).abs() < 0.15, "gaussian blur of another width", "sigma {sigma}: the line has a standard deviation of {}", var.sqrt());
    Ok(())
}

/// moving average of 2r+1 samples of a line whose ends go on for ever
fn averaged(v: &[f64], r: i64) -> Vec<f64> {
    let n = v.len() as i64;
    let mut sums = vec![0.0; v.len() + 1];
    for (i, x) in v.iter().enumerate() {
        sums[i + 1] = sums[i] + x;
    }
    (0..n)
        .map(|x| {
            let (a, b) = (x - r, x + r);
            let inside = sums[(b.min(n - 1) + 1) as usize] - sums[a.max(0) as usize];
            let left = (-a).max(0) as f64 * v[0];
            let right = (b - n + 1).max(0) as f64 * v[v.len() - 1];
            (inside + left + right) / (2 * r + 1) as f64
        })
        .collect()
}

/// the blurs on single lines, along and across, with windows from 3 to millions of samples
pub fn lines(s: &mut Src, c: &mut Ctx) -> Res {
    let n = s.dim(1500);
    let across = s.bool();
    let (w, h) = if across { (n, 1) } else { (1, n) };
    let d = s.pick(&DEPTHS);
    let p = pic(s, d, ColorSpace::Luma, w, h, 1);
    let v = p.frames[0][0].clone();
    let gauss = s.bool();
    let (radius, sigma) = match s.below(6) {
        0 => (32_760 + s.below(20), 26_800.0 + 10.0 * s.f64()),
        1 => (8_421_490 + s.below(30), 6.88e6 * (0.99 + 0.02 * s.f64())),
        2 => (s.below(100_000_000), 1e5 * s.f64()),
        3 => (s.below(3000), 1000.0 * s.f64()),
        _ => (s.below(40), 20.0 * s.f64())
    };
    let sigma = sigma as f32;
    c.note(format!("{} blur of {}, radius {radius} or sigma {sigma}", if gauss { "gaussian" } else { "box" }, p.text()));
    c.nontrivial();
    c.label(format!("{} {d:?}", if gauss { "gaussian" } else { "box" }));
    let got: Vec<f64> = match d {
        BitDepth::Eight => {
            let mut a: Vec<u8> = v.iter().map(|x| *x as u8).collect();
            let mut b = vec![0; n];
            if gauss {
                gaussian_blur_u8(&mut a, &mut b, w, h, sigma)
            } else {
                box_blur_u8(&mut a, &mut b, w, h, radius as usize)
            }
            a.iter().map(|x| *x as f64).collect()
        }
        BitDepth::Sixteen => {
            let mut a: Vec<u16> = v.iter().map(|x| *x as u16).collect();
            let mut b = vec![0; n];
            if gauss {
                gaussian_blur_u16(&mut a, &mut b, w, h, sigma)
            } else {
                box_blur_u16(&mut a, &mut b, w, h, radius as usize)
            }
            a.iter().map(|x| *x as f64).collect()
        }
        _ => {
            let mut a: Vec<f32> = v.iter().map(|x| *x as f32).collect();
            let mut b = vec![0.0; n];
            if gauss {
                gaussian_blur_f32(&mut a, &mut b, w, h, sigma)
            } else {
                box_blur_f32(&mut a, &mut b, w, h, radius as usize)
            }
            a.iter().map(|x| *x as f64).collect()
        }
    };
    let float = d == BitDepth::Float32;
    let mut want = v.clone();
    let mut passes = 1.0;
    if gauss {
        if !gauss_stable(sigma as f64) {
            return Ok(());
        }
        let b = gauss_boxes(sigma as f64);
        b.iter().for_each(|k| want = averaged(&want, k / 2));
        passes = b.iter().filter(|k| **k > 1).count() as f64;
    } else if radius > 1 {
        want = averaged(&want, radius as i64 | 1);
    } else {
        passes = 0.0;
    }
    for (i, (g, t)) in got.iter().zip(&want).enumerate() {
        let (lo, hi) = if float {
            // single precision running sums
            let e = 2e-6 + 1.2e-7 * (n as f64) + 1e-6 * p.max();
            (t - e, t + e)
        } else {
            // each pass cuts or rounds
            (t - passes * (1.0 - 1e-9) - 1e-6, t + passes * 0.5 + 1e-6)
        };
        check!(*g >= lo && *g <= hi, if gauss { "line: gaussian blur" } else { "line: box blur" }, "at {i} of {n}: got {g}, expected {lo}..{hi}; {}", p.text());
    }
    Ok(())
}
