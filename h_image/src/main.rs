mod chan;
mod cms;
mod color;
mod comp;
mod filt;
mod geom;
mod hist;
mod im;
mod layout;
mod meta;
mod point;
mod save;
mod warp;
use pbt::{Property, Sub};

fn main() {
    pbt::main(vec![
        Property {
            id: "C22",
            rule: "layout: random interleaved 8-bit, 16-bit or float samples in any colourspace (also MultiBand of up to 9 channels), sizes around block boundaries, one or three frames, built by every constructor and read by every accessor (also into longer and shorter buffers), compared bit for bit; clones are independent; from_fn and modify_pixels_mut visit each pixel once with its own coordinates and samples. arith: sum and difference of two images, filled images. Non-trivial: more than one channel and pixel (layout), every case (arith).",
            assumptions: &["only the AVX2 paths of the deinterleaver run on this processor"],
            subs: vec![
                Sub { name: "layout", f: layout::layout, quick: 300_000, thorough: 20_000_000 },
                Sub { name: "arith", f: layout::arith, quick: 100_000, thorough: 5_000_000 },
            ]
        },
        Property {
            id: "C37",
            rule: "profiles: random pictures (RGB and RGBA mostly, three depths, up to 3 frames) carrying the profile of one of six spaces (with its own curve or a random gamma), no profile or garbage, transformed to each of the five destinations; every sample compared with the transform computed in double precision from the published primaries, white points and curves (Bradford adaptation to D50); alpha, size, depth and frame durations unchanged, the profile of the result has the destination's colorants; without a profile nothing changes; a refusal changes nothing. Non-trivial: source and destination differ.",
            assumptions: &["colours are compared within 0.0035 of linear light plus 1.1 levels (8 bit) or 0.0012", "out-of-gamut colours are clipped per channel", "DCI-P3 may use its gamma of 2.6 or the sRGB curve it is tagged with"],
            subs: vec![Sub { name: "profiles", f: cms::profiles, quick: 20_000, thorough: 1_000_000 }]
        },
        Property {
            id: "C23",
            rule: "depth: random images (any colourspace, up to 3 frames, random, extreme, constant and ramp contents; one case in 60 holds all values of the depth) through every entry point, each sample compared with the exact scaling (either rounding), order, ends of the range, widening followed by narrowing. Non-trivial: the depth changes.",
            assumptions: &["floats are finite; outside of [0,1] they are clamped when narrowed"],
            subs: vec![Sub { name: "depth", f: color::depth, quick: 150_000, thorough: 8_000_000 }]
        },
        Property {
            id: "C24",
            rule: "color: random images over all 10x10 pairs of convertible colourspaces, three depths, sizes around the kernels' block sizes, up to 3 frames; every pixel compared with the defining formula in double precision (conversions between non-RGB spaces with the two steps through RGB), lossless pairs converted back, part of the picture converted alone must give the same pixels. refused: pairs outside of the table give an error and leave a well-formed image. Non-trivial: the colourspaces differ (color), the pair is unsupported (refused).",
            assumptions: &["either rounding of the exact value is accepted", "CMY of pure black may be anything (only K is defined)", "grey weights 0.2989, 0.5870, 0.1140"],
            subs: vec![
                Sub { name: "color", f: color::color, quick: 200_000, thorough: 10_000_000 },
                Sub { name: "refused", f: color::refused, quick: 50_000, thorough: 1_000_000 },
            ]
        },
        Property {
            id: "C36",
            rule: "channels: up to 25 random operations (push, extend, fill, clone, swap with a clone, write through a slice, raw bytes, comparisons, attempts to read as seven other types) on channels of eight element types from every constructor, compared with a typed vector after each; the heap is watched by a guard allocator. Non-trivial: the channel grew.",
            assumptions: &["the unsafe functions (realloc, alias, alias_mut) are used within their contracts"],
            subs: vec![Sub { name: "channels", f: chan::channels, quick: 500_000, thorough: 30_000_000 }]
        },
        Property {
            id: "C27",
            rule: "moves: random pictures (any colourspace, three depths, up to 3 frames, sizes around the 4, 8 and 16 blocks and thin ones) through flips, mirrors, transpose, rotation by any multiple of 90 degrees, crop (also over the edge), EXIF orientation 0..10, compared sample by sample with an index map. slices: transpose and pad functions on plain slices. Non-trivial: more than one pixel.",
            assumptions: &["a mirror keeps the half it is named after (as its code and the north/south pictures of its documentation say; the east/west pictures are swapped)"],
            subs: vec![
                Sub { name: "moves", f: geom::moves, quick: 150_000, thorough: 8_000_000 },
                Sub { name: "slices", f: geom::slices, quick: 60_000, thorough: 3_000_000 },
            ]
        },
        Property {
            id: "C28",
            rule: "filters: random pictures (any colourspace with and without alpha, the depths each filter supports, up to 3 frames, sizes 1..40 and thin ones) through box blur, Gaussian blur, median, minimum, maximum, mean, gradient, contrast, Sobel, Scharr, bilateral, convolution (3x3, 5x5, 7x7, random weights, wrong counts), unsharpen with random parameters (also larger than the picture); every sample compared with the window computed directly in double precision on the edge-extended plane; alpha unchanged where the filter ignores it. spread: a single line blurred by sigma has that standard deviation, stays in place and keeps its sum. lines: the box and Gaussian blurs of all depths on single rows and columns with windows of up to millions of samples against prefix sums. Non-trivial: the picture is not constant.",
            assumptions: &["a box blur radius of 0 or 1 does nothing and an even one counts as the next odd one (as its code says)", "whole-number results may be truncated or rounded once per pass", "Gaussian blur is three box blurs of the widths its documentation refers to"],
            subs: vec![
                Sub { name: "filters", f: filt::filters, quick: 60_000, thorough: 4_000_000 },
                Sub { name: "spread", f: filt::spread, quick: 2_000, thorough: 50_000 },
                Sub { name: "lines", f: filt::lines, quick: 30_000, thorough: 2_000_000 },
            ]
        },
        Property {
            id: "C29",
            rule: "points: random pictures (any colourspace, three depths, up to 3 frames; some hold every value of the depth) through brighten, contrast, exposure, gamma, invert, the four thresholds, contrast stretching, colour matrix and HSV adjustment with random, extreme and neutral parameters; each sample compared with the documented formula in double precision, alpha left alone, neutral parameters change nothing, unsupported pictures are refused and left alone. Non-trivial: the operation is defined for the picture.",
            assumptions: &["whole-number results may be truncated or rounded", "contrast stretching may or may not treat alpha", "the HSV matrix is the one of the cited article, whose rows sum to one within 0.1 %"],
            subs: vec![Sub { name: "points", f: point::points, quick: 150_000, thorough: 8_000_000 }]
        },
        Property {
            id: "C30",
            rule: "composite: random pairs of pictures at any position or gravity (also over the edge and outside), four methods; every pixel of the result compared with the Porter-Duff formula for straight alpha or the untouched destination. blend: random pairs, weights in and out of range, mismatched pairs. premul: premultiply and back, all 8-bit pairs, state kept in the metadata. slices: the same on plain slices. Non-trivial: at least one pixel is covered (composite), the pair is accepted (blend), the picture has alpha to change (premul).",
            assumptions: &["whole-number results of composite and blend may be truncated or rounded; premultiplication is rounded to the nearest", "DstIn, which has no implementation, may be refused", "Src leaves unspecified what is outside of the source in pictures with alpha"],
            subs: vec![
                Sub { name: "composite", f: comp::composite, quick: 100_000, thorough: 5_000_000 },
                Sub { name: "blend", f: comp::blend, quick: 60_000, thorough: 3_000_000 },
                Sub { name: "premul", f: comp::premul, quick: 30_000, thorough: 1_500_000 },
                Sub { name: "slices", f: comp::slices, quick: 100_000, thorough: 5_000_000 },
            ]
        },
        Property {
            id: "C31",
            rule: "resize: random pictures (any colourspace, three depths, frames, alpha straight or premultiplied, eleven transfer curves; one in six flat) resized to random, equal, half and double sizes with the nine methods; every sample compared with the kernel evaluated directly in double precision in linear light with premultiplied alpha; flat pictures stay flat exactly, an unchanged size changes nothing. warp: affine transforms (identity, translation, scale, shear, rotation, products, random matrices) and rotation by any angle against direct bilinear sampling; algebra of the matrices. ratios: the sizes offered for scaling without distortion keep the shape within a pixel. Non-trivial: the size changes (resize), the map is not a translation (warp).",
            assumptions: &["colours under an alpha below 2 % are not compared", "the kernels have a fixed support in source pixels (no widening when shrinking), bilinear sampling is aligned to corners, as in the code", "warps cover source positions 0..=w-1 and fill the rest with the maximum; positions are exact within 1e-3 pixel"],
            subs: vec![
                Sub { name: "resize", f: warp::resize, quick: 60_000, thorough: 3_000_000 },
                Sub { name: "warp", f: warp::warp, quick: 60_000, thorough: 3_000_000 },
                Sub { name: "ratios", f: warp::ratios, quick: 100_000, thorough: 5_000_000 },
            ]
        },
        Property {
            id: "C25",
            rule: "lossless: random pictures (any colourspace, three depths, up to 3 frames, thin ones) written to PNG, PPM, QOI, Farbfeld, JPEG XL and HDR by every entry point with random encoder options, recognised, read back by every entry point and compared with the conversion the library defines; the source must be untouched; impossible conversions must be refused. lossy: the same through JPEG at quality 100, each sample close to the original. premultiplied: a picture marked as premultiplied must come back as the straight colours it shows. Non-trivial: the picture could be encoded (premultiplied: and has a bright translucent pixel).",
            assumptions: &["the order of the depth and the colour conversion is free", "HDR keeps 8 bits of each pixel's largest channel; JPEG XL is read as floats"],
            subs: vec![
                Sub { name: "lossless", f: save::lossless, quick: 180_000, thorough: 3_000_000 },
                Sub { name: "lossy", f: save::lossy, quick: 100_000, thorough: 1_000_000 },
                Sub { name: "premultiplied", f: save::premultiplied, quick: 5_000, thorough: 100_000 },
            ]
        },
        Property {
            id: "C26",
            rule: "history: random pictures (any colourspace, three depths, up to 3 frames, thin ones, with EXIF orientation and colour profiles) through up to 10 random operations out of 34 with parameters inside and outside of the useful range; after each the image must be well formed, whether the operation succeeded or was refused, repeating it on a copy gives the same bits and so does each frame by itself; at the end the picture is written to a lossless format and read back. Non-trivial: at least two operations succeeded.",
            assumptions: &["pictures are kept below 20000 pixels", "parameters are finite numbers"],
            subs: vec![Sub { name: "history", f: hist::history, quick: 25_000, thorough: 4_000_000 }]
        },
        Property {
            id: "C34",
            rule: "metadata: PNG, JPEG, WebP and BMP files made without the library, with random EXIF fields (24 known and unknown tags, all value types, two directories, both byte orders) and profiles of up to 200000 bytes, read by every entry point, put through up to four random operations and written to every format with and without stripping; PNG and JPEG files are then taken apart without the library and compared. described: files of every format written by the library; what headers, decoder and image say of the pixels must agree. Non-trivial: there is EXIF data or a profile (metadata), the picture could be encoded (described).",
            assumptions: &["EXIF of more than 60000 bytes, which JPEG can't hold, is left out", "EXIF after the pixels of a PNG file is left out", "read_headers of a JPEG file gives the colourspace of the file"],
            subs: vec![
                Sub { name: "metadata", f: meta::metadata, quick: 60_000, thorough: 3_000_000 },
                Sub { name: "described", f: meta::described, quick: 40_000, thorough: 1_000_000 },
            ]
        },
    ]);
}
