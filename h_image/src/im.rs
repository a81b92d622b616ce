//! Pictures as planes of f64 (which hold 8-bit, 16-bit and float samples exactly), and their conversion to and from images.
use pbt::{Fail, Src};
use std::num::NonZeroU32;
use zune_core::bit_depth::BitDepth;
use zune_core::colorspace::ColorSpace;
use zune_image::channel::Channel;
use zune_image::frame::Frame;
use zune_image::image::Image;

pub const COLORS: [ColorSpace; 11] = [
    ColorSpace::RGB,
    ColorSpace::RGBA,
    ColorSpace::Luma,
    ColorSpace::LumaA,
    ColorSpace::BGR,
    ColorSpace::BGRA,
    ColorSpace::ARGB,
    ColorSpace::CMYK,
    ColorSpace::YCbCr,
    ColorSpace::HSL,
    ColorSpace::HSV,
];
pub const DEPTHS: [BitDepth; 3] = [BitDepth::Eight, BitDepth::Sixteen, BitDepth::Float32];

#[derive(Clone, Debug, PartialEq)]
pub struct Pic {
    pub w: usize,
    pub h: usize,
    pub cs: ColorSpace,
    pub depth: BitDepth,
    /// frame, channel, sample
    pub frames: Vec<Vec<Vec<f64>>>,
}

pub fn maxval(d: BitDepth) -> f64 {
    match d {
        BitDepth::Eight => 255.0,
        BitDepth::Sixteen => 65535.0,
        _ => 1.0,
    }
}

pub fn any_cs(s: &mut Src) -> ColorSpace {
    match s.below(16) {
        0..=10 => s.pick(&COLORS),
        11 => s.pick(&[ColorSpace::YCCK, ColorSpace::CMYK]),
        12 => ColorSpace::MultiBand(NonZeroU32::new(1 + s.below(9) as u32).unwrap()),
        _ => s.pick(&[ColorSpace::RGB, ColorSpace::RGBA, ColorSpace::Luma, ColorSpace::LumaA]),
    }
}

/// one sample of a depth
pub fn sample(r: &mut pbt::Rng, depth: BitDepth, kind: u64) -> f64 {
    let m = maxval(depth);
    match kind {
        // anything
        0 => match depth {
            BitDepth::Float32 => (r.f64() as f32) as f64,
            _ => r.below(m as u64 + 1) as f64,
        },
        // the ends of the range
        1 => match depth {
            BitDepth::Float32 => [0.0, 1.0, 0.5, (1.0f32 / 255.0) as f64][r.below(4) as usize],
            _ => [0.0, m, 1.0, m - 1.0, (m / 2.0).floor(), (m / 2.0).ceil()][r.below(6) as usize],
        },
        // few values
        2 => match depth {
            BitDepth::Float32 => ((r.below(5) as f32) / 4.0) as f64,
            _ => (r.below(5) as f64 * m / 4.0).round(),
        },
        _ => match r.below(3) {
            0 => sample(r, depth, 1),
            _ => sample(r, depth, 0),
        },
    }
}

pub fn plane(s: &mut Src, depth: BitDepth, w: usize, h: usize) -> Vec<f64> {
    let kind = s.below(6);
    let mut r = s.rng();
    match kind {
        4 => {
            let v = sample(&mut r, depth, 3);
            vec![v; w * h]
        }
        5 => {
            // a ramp
            let m = maxval(depth);
            let (a, b, c) = (r.f64(), r.f64(), r.f64());
            (0..w * h)
                .map(|i| {
                    let (x, y) = ((i % w) as f64 / w as f64, (i / w) as f64 / h as f64);
                    let v = (a * x + b * y + c) / 3.0 * m;
                    if depth == BitDepth::Float32 {
                        v as f32 as f64
                    } else {
                        v.round()
                    }
                })
                .collect()
        }
        k => (0..w * h).map(|_| sample(&mut r, depth, k)).collect(),
    }
}

pub fn pic(s: &mut Src, depth: BitDepth, cs: ColorSpace, w: usize, h: usize, frames: usize) -> Pic {
    let n = cs.num_components();
    Pic { w, h, cs, depth, frames: (0..frames).map(|_| (0..n).map(|_| plane(s, depth, w, h)).collect()).collect() }
}

pub fn nframes(s: &mut Src) -> usize {
    if s.chance(1, 6) {
        1 + s.below(3) as usize
    } else {
        1
    }
}

/// any picture with sides up to `max`
pub fn any_pic(s: &mut Src, max: usize) -> Pic {
    let (w, h) = (s.dim(max), s.dim(max));
    let (cs, d, f) = (any_cs(s), s.pick(&DEPTHS), nframes(s));
    pic(s, d, cs, w, h, f)
}

pub fn chan(depth: BitDepth, v: &[f64]) -> Channel {
    match depth {
        BitDepth::Eight => {
            let mut c = Channel::new_with_capacity::<u8>(v.len());
            c.extend(&v.iter().map(|x| *x as u8).collect::<Vec<u8>>());
            c
        }
        BitDepth::Sixteen => {
            let mut c = Channel::new_with_capacity::<u16>(v.len() * 2);
            c.extend(&v.iter().map(|x| *x as u16).collect::<Vec<u16>>());
            c
        }
        _ => {
            let mut c = Channel::new_with_capacity::<f32>(v.len() * 4);
            c.extend(&v.iter().map(|x| *x as f32).collect::<Vec<f32>>());
            c
        }
    }
}

pub fn unchan(depth: BitDepth, c: &Channel) -> Result<Vec<f64>, Fail> {
    let e = |e| Fail { sig: "channel of the wrong type".into(), msg: format!("{e:?}") };
    Ok(match depth {
        BitDepth::Eight => c.reinterpret_as::<u8>().map_err(e)?.iter().map(|x| *x as f64).collect(),
        BitDepth::Sixteen => c.reinterpret_as::<u16>().map_err(e)?.iter().map(|x| *x as f64).collect(),
        _ => c.reinterpret_as::<f32>().map_err(e)?.iter().map(|x| *x as f64).collect(),
    })
}

impl Pic {
    pub fn image(&self) -> Image {
        let frames = self.frames.iter().map(|f| Frame::new(f.iter().map(|c| chan(self.depth, c)).collect())).collect();
        Image::new_frames(frames, self.depth, self.w, self.h, self.cs)
    }
    /// the picture held by an image; fails unless the image is well formed
    pub fn of(i: &Image) -> Result<Pic, Fail> {
        let (w, h) = i.dimensions();
        let (cs, depth) = (i.colorspace(), i.depth());
        let mut frames = vec![];
        for (n, f) in i.frames_ref().iter().enumerate() {
            let ch = f.channels_vec_ref();
            if ch.len() != cs.num_components() {
                return pbt::fail("channel count", format!("frame {n} has {} channels in {cs:?}", ch.len()));
            }
            let mut planes = vec![];
            for (k, c) in ch.iter().enumerate() {
                let v = unchan(depth, c)?;
                if v.len() != w * h {
                    return pbt::fail("channel length", format!("frame {n} channel {k} has {} samples, image is {w}x{h}", v.len()));
                }
                planes.push(v);
            }
            frames.push(planes);
        }
        Ok(Pic { w, h, cs, depth, frames })
    }
    pub fn max(&self) -> f64 {
        maxval(self.depth)
    }
    pub fn at(&self, f: usize, c: usize, x: usize, y: usize) -> f64 {
        self.frames[f][c][y * self.w + x]
    }
    pub fn text(&self) -> String {
        format!("{}x{} {:?} {:?} frames {}", self.w, self.h, self.cs, self.depth, self.frames.len())
    }
    /// exact comparison, or within `tol`
    pub fn same(&self, want: &Pic, tol: f64, what: &str) -> Result<(), Fail> {
        if (self.w, self.h) != (want.w, want.h) {
            return pbt::fail(&format!("{what}: dimensions"), format!("got {}x{}, expected {}x{}", self.w, self.h, want.w, want.h));
        }
        if (self.cs, self.depth) != (want.cs, want.depth) {
            return pbt::fail(&format!("{what}: type"), format!("got {:?} {:?}, expected {:?} {:?}", self.cs, self.depth, want.cs, want.depth));
        }
        if self.frames.len() != want.frames.len() {
            return pbt::fail(&format!("{what}: frames"), format!("got {}, expected {}", self.frames.len(), want.frames.len()));
        }
        for (fi, (a, b)) in self.frames.iter().zip(&want.frames).enumerate() {
            for (ci, (p, q)) in a.iter().zip(b).enumerate() {
                for (i, (x, y)) in p.iter().zip(q).enumerate() {
                    let ok = x == y || (x - y).abs() <= tol;
                    if !ok {
                        let n = p.iter().zip(q).filter(|(x, y)| !(x == y || (*x - *y).abs() <= tol)).count();
                        return pbt::fail(
                            &format!("{what}: samples"),
                            format!("frame {fi} channel {ci} at ({}, {}): got {x}, expected {y}, tolerance {tol} ({n} of {} samples differ; {})", i % self.w, i / self.w, p.len(), self.text()),
                        );
                    }
                }
            }
        }
        Ok(())
    }
}

/// metadata holding the given EXIF fields (an image only gets EXIF data from a decoder)
pub fn exif_metadata(fields: Vec<exif::Field>) -> zune_image::metadata::ImageMetadata {
    use std::sync::OnceLock;
    static META: OnceLock<zune_image::metadata::ImageMetadata> = OnceLock::new();
    let mut m = META
        .get_or_init(|| {
            let f = exif::Field { tag: exif::Tag::ImageWidth, ifd_num: exif::In::PRIMARY, value: exif::Value::Long(vec![1]) };
            let mut w = exif::experimental::Writer::new();
            w.push_field(&f);
            let mut buf = std::io::Cursor::new(vec![]);
            w.write(&mut buf, false).unwrap();
            let o = zune_core::options::EncoderOptions::new(1, 1, ColorSpace::RGB, BitDepth::Eight);
            let mut e = zune_png::PngEncoder::new(&[1, 2, 3], o);
            e.add_exif_segment(buf.get_ref());
            let mut out = vec![];
            e.encode(&mut out).unwrap();
            Image::read(zune_core::bytestream::ZCursor::new(out), Default::default()).unwrap().metadata().clone()
        })
        .clone();
    *m.exif_mut().expect("the EXIF data of a PNG file was lost") = fields;
    m
}

pub fn set_exif(i: &mut Image, fields: Vec<exif::Field>) {
    let mut m = exif_metadata(fields);
    let (w, h) = i.dimensions();
    m.set_dimensions(w, h);
    m.set_colorspace(i.colorspace());
    m.set_depth(i.depth());
    *i.metadata_mut() = m;
}
