//! Reference reconstruction of the full-resolution components.
use models::jpeg::{self as mj, Jpeg};

/// Full-size float planes; `edge` = use the samples beyond the component's own width/height
/// (they exist in whole blocks) rather than repeating the last one.
pub fn upsampled(j: &Jpeg, edge: bool, nearest: bool) -> Vec<Vec<f64>> {
    let single = j.comps.len() == 1;
    mj::planes(j)
        .into_iter()
        .zip(&j.comps)
        .map(|((pw, ph, p), c)| {
            let (fh, fv) = if single { (1, 1) } else { (j.hmax / c.h, j.vmax / c.v) };
            let cw = if edge { pw } else { (j.w * c.h).div_ceil(j.hmax) };
            let chh = if edge { ph } else { (j.h * c.v).div_ceil(j.vmax) };
            let p: Vec<f64> = p.iter().map(|v| v.round()).collect();
            let at = |x: isize, y: isize| p[(y.clamp(0, chh as isize - 1) as usize).min(ph - 1) * pw + (x.clamp(0, cw as isize - 1) as usize).min(pw - 1)];
            let mut out = vec![0.0; j.w * j.h];
            for y in 0..j.h {
                for x in 0..j.w {
                    let (sx, sy) = ((x / fh) as isize, (y / fv) as isize);
                    let dx = if x % 2 == 0 { -1 } else { 1 };
                    let dy = if y % 2 == 0 { -1 } else { 1 };
                    out[y * j.w + x] = match (fh, fv) {
                        _ if nearest => at(sx, sy),
                        (1, 1) => at(sx, sy),
                        (2, 1) => (3.0 * at(sx, sy) + at(sx + dx, sy)) / 4.0,
                        (1, 2) => (3.0 * at(sx, sy) + at(sx, sy + dy)) / 4.0,
                        (2, 2) => (9.0 * at(sx, sy) + 3.0 * at(sx + dx, sy) + 3.0 * at(sx, sy + dy) + at(sx + dx, sy + dy)) / 16.0,
                        _ => at(sx, sy)
                    };
                }
            }
            out
        })
        .collect()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Luma,
    YCbCr,
    Rgb,
    Cmyk,
    Ycck
}

pub fn kind(j: &Jpeg) -> Kind {
    match (j.comps.len(), j.adobe) {
        (1, _) => Kind::Luma,
        (3, Some(0)) => Kind::Rgb,
        (3, None) if j.comps.iter().map(|c| c.id).eq(*b"RGB") => Kind::Rgb,
        (3, _) => Kind::YCbCr,
        (_, Some(2)) => Kind::Ycck,
        _ => Kind::Cmyk
    }
}

pub fn ycc(y: f64, cb: f64, cr: f64) -> [f64; 3] {
    let (cb, cr) = (cb - 128.0, cr - 128.0);
    [y + 1.402 * cr, y - 0.344_136_286 * cb - 0.714_136_286 * cr, y + 1.772 * cb].map(|v| v.clamp(0.0, 255.0))
}

/// RGB of one pixel given its component values
pub fn rgb(k: Kind, v: &[f64]) -> [f64; 3] {
    match k {
        Kind::Luma => [v[0]; 3],
        Kind::YCbCr => ycc(v[0], v[1], v[2]),
        Kind::Rgb => [v[0], v[1], v[2]],
        Kind::Cmyk => [v[0] * v[3] / 255.0, v[1] * v[3] / 255.0, v[2] * v[3] / 255.0],
        Kind::Ycck => ycc(v[0], v[1], v[2]).map(|c| (255.0 - c) * v[3] / 255.0)
    }
}
