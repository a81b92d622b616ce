//! C18: JPEG XL
use crate::util::{ne16, pixels};
use jxl_oxide::JxlImage;
use pbt::{check, fail, Ctx, Res, Src};
use zune_core::bit_depth::BitDepth;
use zune_core::colorspace::ColorSpace;
use zune_core::options::EncoderOptions;
use zune_jpegxl::JxlSimpleEncoder;

pub fn samples(s: &mut Src, w: usize, n: usize, nc: usize, sixteen: bool) -> Vec<u16> {
    if !sixteen {
        return pixels(s, n, nc).into_iter().map(|x| x as u16).collect();
    }
    match s.below(4) {
        3 => {
            // checkerboards: the largest prediction errors
            let a = s.data16(2 * nc);
            let hard = s.bool();
            let wide = if s.chance(2, 3) { w | 1 } else { s.usize(1, 40) };
            (0..n * nc)
                .map(|i| {
                    let (p, k) = (i / nc, i % nc);
                    let on = (p % w + p / wide) % 2 == 0;
                    if hard { 65535 * ((on ^ (k == 2)) as u16) } else { a[k + nc * on as usize] }
                })
                .collect()
        }
        0 => pixels(s, n, nc).into_iter().map(|x| x as u16 * 257).collect(),
        1 => {
            let a = pixels(s, n, nc);
            let lo = s.pick(&[0u16, 32700, 65280]);
            a.into_iter().map(|x| lo + x as u16).collect()
        }
        _ => s.data16(n * nc)
    }
}

fn dims(s: &mut Src) -> (usize, usize) {
    match s.below(20) {
        0 => (s.pick(&[255usize, 256, 257, 300, 513]), s.pick(&[2usize, 3, 255, 256, 257, 300])),
        1 => (s.pick(&[2usize, 5, 16]), s.pick(&[256usize, 257, 511, 600])),
        2 if s.chance(1, 10) => (s.pick(&[2usize, 2047, 2048, 2049, 2300]), s.pick(&[2usize, 3, 2049])),
        _ => (s.dim(70), s.dim(70))
    }
}

pub fn encode(s: &mut Src, c: &mut Ctx) -> Res {
    let (mut w, mut h) = dims(s);
    if w * h > 400_000 {
        w = 2;
    }
    if s.chance(1, 3) {
        std::mem::swap(&mut w, &mut h);
    }
    let cs = s.pick(&[ColorSpace::Luma, ColorSpace::LumaA, ColorSpace::RGB, ColorSpace::RGBA]);
    let sixteen = s.bool();
    let nc = cs.num_components();
    let px = samples(s, w, w * h, nc, sixteen);
    let bytes: Vec<u8> = if sixteen { ne16(&px) } else { px.iter().map(|x| *x as u8).collect() };
    let depth = if sixteen { BitDepth::Sixteen } else { BitDepth::Eight };
    let effort = s.pick(&[0u8, 1, 2, 4, 7, 10, 64, 100, 127, 200]);
    let threads = s.pick(&[0u8, 1, 2, 3, 4, 8, 255]);
    let o = EncoderOptions::new(w, h, cs, depth).set_effort(effort).set_num_threads(threads);
    c.note(format!("{w}x{h} {cs:?} {depth:?} effort {effort} threads {threads}"));
    c.artifact("samples.bin", &bytes);
    c.label(format!("{cs:?} {depth:?}{}", if w > 256 || h > 256 { " groups" } else { "" }));
    let mut out = vec![];
    let n = match JxlSimpleEncoder::new(&bytes, o).encode(&mut out) {
        Ok(n) => n,
        Err(e) => {
            if w == 1 || h == 1 {
                return Ok(());
            }
            return fail("valid image refused", format!("{e:?}"));
        }
    };
    c.nontrivial();
    c.artifact("output.jxl", &out);
    check!(n == out.len(), "wrong byte count", "{n} reported, {} written", out.len());
    let img = match JxlImage::builder().read(&out[..]) {
        Ok(i) => i,
        Err(e) => return fail("stream rejected by the decoder", format!("{e}"))
    };
    check!(img.is_loading_done(), "incomplete stream", "{} bytes", out.len());
    check!((img.width() as usize, img.height() as usize) == (w, h), "wrong dimensions", "{}x{}", img.width(), img.height());
    let m = &img.image_header().metadata;
    let bits = depth.bit_size() as u32;
    check!(m.bit_depth.bits_per_sample() == bits, "wrong depth", "{:?}", m.bit_depth);
    check!(m.ec_info.len() == cs.has_alpha() as usize, "wrong number of extra channels", "{}", m.ec_info.len());
    for e in &m.ec_info {
        check!(e.bit_depth.bits_per_sample() == bits, "wrong alpha depth", "{:?}", e.bit_depth);
    }
    check!(img.pixel_format().channels() == nc, "wrong channels", "{:?}", img.pixel_format());
    let r = match img.render_frame(0) {
        Ok(r) => r,
        Err(e) => return fail("frame rejected by the decoder", format!("{e}"))
    };
    let fb = r.image_all_channels();
    check!(fb.channels() == nc && fb.buf().len() == px.len(), "wrong channels", "{}", fb.channels());
    let max = if sixteen { 65535.0 } else { 255.0 };
    for (i, (g, p)) in fb.buf().iter().zip(&px).enumerate() {
        check!(((*g as f64) * max - *p as f64).abs() < 0.25, "not lossless", "pixel ({}, {}) component {}: {} instead of {p}", i / nc % w, i / nc / w, i % nc, *g as f64 * max);
    }
    // thread count must not matter
    if w.max(h) > 256 || s.chance(1, 8) {
        let t2 = s.pick(&[0u8, 1, 2, 5, 16]);
        let mut out2 = vec![];
        let r = JxlSimpleEncoder::new(&bytes, o.set_num_threads(t2)).encode(&mut out2);
        check!(r.is_ok() && out == out2, "output depends on the thread count", "{threads} and {t2} threads: {:?}, {} and {} bytes", r.is_ok(), out.len(), out2.len());
    }
    // a wrong description is an error
    if s.chance(1, 8) && !bytes.is_empty() {
        let r = JxlSimpleEncoder::new(&bytes[..bytes.len() - 1], o).encode(&mut vec![]);
        check!(r.is_err(), "short input accepted", "{} of {} bytes", bytes.len() - 1, bytes.len());
    }
    Ok(())
}
