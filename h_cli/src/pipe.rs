//! pipelines in the library
use crate::im::*;
use crate::ops::*;
use pbt::{check, Ctx, Res, Src};
use zune_image::errors::ImageErrors;
use zune_image::image::Image;
use zune_image::pipelines::Pipeline;
use zune_image::traits::IntoImage;

struct Source(Option<Image>);
impl IntoImage for Source {
    fn into_image(&mut self) -> Result<Image, ImageErrors> {
        self.0.clone().ok_or(ImageErrors::GenericStr("no picture today"))
    }
}

pub fn bits(i: &Image) -> Vec<Vec<Vec<u8>>> {
    i.frames_ref().iter().map(|f| f.channels_vec_ref().iter().map(|c| unsafe { c.alias().to_vec() }).collect()).collect()
}
pub fn equal(a: &Image, b: &Image) -> bool {
    a.dimensions() == b.dimensions() && a.colorspace() == b.colorspace() && a.depth() == b.depth() && bits(a) == bits(b) && format!("{:?}", a.metadata()) == format!("{:?}", b.metadata())
}

pub fn pipeline(s: &mut Src, c: &mut Ctx) -> Res {
    let mut images: Vec<Image> = (0..s.usize(0, 3)).map(|_| any_pic(s, 16).image()).collect();
    let mut p = Pipeline::new();
    let nops = s.usize(0, 5);
    let ops: Vec<Op> = (0..nops).map(|_| any_op(s, 8, 8)).collect();
    c.note(format!("{} images, {:?}", images.len(), ops.iter().map(|o| &o.args).collect::<Vec<_>>()));
    // everything is chained in any order
    let decoded = match s.below(4) {
        0 => None,
        1 => Some(None),
        _ => Some(Some(any_pic(s, 16).image())),
    };
    let early = s.bool();
    if let (true, Some(d)) = (early, &decoded) {
        p.chain_decoder(Box::new(Source(d.clone())));
    }
    for i in &images {
        p.chain_image(i.clone());
    }
    for o in &ops {
        p.chain_operations((o.make)());
    }
    if let (false, Some(d)) = (early, &decoded) {
        // only the last decoder counts
        if s.bool() {
            p.chain_decoder(Box::new(Source(None)));
        }
        p.chain_decoder(Box::new(Source(d.clone())));
    }
    // what should come out
    let mut want: Result<(), String> = Ok(());
    match &decoded {
        Some(Some(i)) => images.push(i.clone()),
        Some(None) => want = Err("decoder".into()),
        None => {}
    }
    if images.is_empty() && want.is_ok() {
        want = Err("nothing to work on".into());
    }
    if want.is_ok() {
        'all: for i in &mut images {
            for o in &ops {
                if let Err(e) = (o.make)().execute(i) {
                    want = Err(format!("{}: {e:?}", o.name));
                    break 'all;
                }
            }
        }
    }
    let got = if s.bool() {
        p.advance_to_end()
    } else {
        let mut r = Ok(());
        for _ in 0..4 + s.usize(2, 6) {
            r = p.advance();
            if r.is_err() {
                break;
            }
        }
        r
    };
    match (&got, &want) {
        (Ok(()), Ok(())) => {}
        (Err(_), Err(_)) => return Ok(()),
        (g, w) => return pbt::fail("outcome", format!("{g:?} for {w:?}")),
    }
    // running it again changes nothing
    if s.bool() {
        check!(p.advance_to_end().is_ok() && p.advance().is_ok(), "finished pipeline fails", "");
    }
    if nops > 1 {
        c.nontrivial();
    }
    check!(p.images().len() == images.len(), "number of images", "{} of {}", p.images().len(), images.len());
    for (k, (a, b)) in p.images().iter().zip(&images).enumerate() {
        check!(equal(a, b), "images", "image {k} of {}: {} for {}", images.len(), Pic::of(a)?.text(), Pic::of(b)?.text());
    }
    let n = p.images_mut().len();
    check!(n == images.len(), "images_mut", "{n}");
    Ok(())
}
