use crate::c09::decode;
use crate::gen;
use crate::model::{self, Kind};
use models::jpeg as mj;
use pbt::{check, fail, first_diff, max_diff_u8, Ctx, Res, Src};
use zune_core::colorspace::ColorSpace;
use zune_core::options::DecoderOptions;

fn run(s: &mut Src, c: &mut Ctx, max: u64) -> Res {
    let j = gen::frame(s, max);
    let a = gen::base_enc(&j);
    let fa = mj::write(s, &j, &a);
    let k = model::kind(&j);
    let out = match k {
        Kind::Luma => s.pick(&[ColorSpace::Luma, ColorSpace::RGB]),
        Kind::YCbCr => s.pick(&[ColorSpace::RGB, ColorSpace::RGB, ColorSpace::YCbCr, ColorSpace::Luma]),
        Kind::Rgb => ColorSpace::RGB,
        Kind::Cmyk => s.pick(&[ColorSpace::RGB, ColorSpace::CMYK]),
        Kind::Ycck => s.pick(&[ColorSpace::RGB, ColorSpace::YCCK])
    };
    let o = DecoderOptions::default().jpeg_set_out_colorspace(out).set_strict_mode(true);
    let simd = s.bool();
    let o = o.set_use_unsafe(simd);
    c.artifact("baseline.jpg", &fa);
    let ra = match decode(&fa, o) {
        Ok(v) => v,
        Err(m) => return fail("baseline file rejected", m)
    };
    let b = gen::any_enc(s, &j);
    let fb = mj::write(s, &j, &b);
    c.artifact("other.jpg", &fb);
    c.note(format!("{} out {out:?} intrinsics {simd}", gen::describe(&j, &b)));
    c.label(format!("{k:?} {}", if b.sof == 0xC2 { "progressive" } else if b.scans.len() > 1 { "multi-scan" } else { "single" }));
    if b.scans.len() > 1 || b.restart > 0 {
        c.nontrivial();
    }
    let strict = s.bool();
    let rb = match decode(&fb, o.set_strict_mode(strict)) {
        Ok(v) => v,
        Err(m) => return fail("equivalent file rejected", m)
    };
    check!(ra.1 == rb.1 && ra.2 == rb.2 && ra.3 == rb.3, "header information differs", "");
    check!(ra.0 == rb.0, "equivalent files decode differently", "{:?}; largest difference {}", first_diff(&ra.0, &rb.0), max_diff_u8(&ra.0, &rb.0).0);
    // intrinsics
    let rc = match decode(&fb, o.set_use_unsafe(!simd)) {
        Ok(v) => v,
        Err(m) => return fail("file rejected depending on intrinsics", m)
    };
    let (m, at) = max_diff_u8(&rb.0, &rc.0);
    check!(rb.0.len() == rc.0.len() && m <= 3, "intrinsics change the result", "by {m} at byte {at}");
    Ok(())
}

pub fn small(s: &mut Src, c: &mut Ctx) -> Res {
    run(s, c, 50)
}

pub fn large(s: &mut Src, c: &mut Ctx) -> Res {
    run(s, c, 300)
}
