use models::deflate as md;
use pbt::{check, fail, first_diff, Ctx, Property, Res, Src, Sub};
use std::io::Write;
use zune_inflate::errors::DecodeErrorStatus;
use zune_inflate::{DeflateDecoder, DeflateEncoder, DeflateOptions};

fn opts(s: &mut Src, len: usize) -> DeflateOptions {
    let hint = match s.below(5) {
        0 => 37000,
        1 => len,
        2 => 0,
        3 => s.usize(0, len + 400),
        _ => len.saturating_sub(1)
    };
    DeflateOptions::default().set_size_hint(hint)
}

fn same(kind: &str, got: Result<Vec<u8>, zune_inflate::errors::InflateDecodeErrors>, want: &[u8]) -> Res {
    match got {
        Ok(v) => {
            if let Some(d) = first_diff(&v, want) {
                return fail(&format!("{kind}: wrong data"), d);
            }
            Ok(())
        }
        Err(e) => fail(&format!("{kind}: valid stream rejected"), format!("{:?}", e.error))
    }
}

/// arbitrary legal streams from the generator, raw / zlib / gzip
fn legal(s: &mut Src, c: &mut Ctx) -> Res {
    let size = s.pick(&[100usize, 1000, 1000, 6000, 40000]);
    let g = md::generate(s, size);
    // the generator is checked against the reference decoder on every case
    let r = md::inflate(&g.stream, usize::MAX);
    assert!(r.err.is_none() && r.out == g.data && r.used == g.stream.len(), "model error {:?}", r.err);
    if g.matches > 0 || g.dynamic > 0 {
        c.nontrivial();
    }
    if g.matches > 0 {
        c.label("has matches");
    }
    if g.dynamic > 0 {
        c.label("has dynamic block");
    }
    if g.stored > 0 {
        c.label("has stored block");
    }
    if g.subtables {
        c.label("codes longer than the main tables");
    }
    let trailing = if s.bool() { 0 } else { s.usize(1, 60) };
    let tail = s.data(trailing);
    let o = opts(s, g.data.len());
    let wrap = s.below(3);
    c.note(format!("wrap {wrap} hint {} out {} trailing {trailing}: {}", o.get_size_hint(), g.data.len(), g.desc));
    let mut st = match wrap {
        0 => g.stream.clone(),
        1 => md::zlib_wrap(&g.stream, &g.data),
        _ => md::gzip_wrap(s, &g.stream, &g.data)
    };
    st.extend(&tail);
    c.artifact("input.bin", &st);
    let mut d = DeflateDecoder::new_with_options(&st, o);
    let got = match wrap {
        0 => d.decode_deflate(),
        1 => d.decode_zlib(),
        _ => d.decode_gzip()
    };
    same(["deflate", "zlib", "gzip"][wrap as usize], got, &g.data)
}

/// realistic data through two independent compressors
fn compressors(s: &mut Src, c: &mut Ctx) -> Res {
    let n = match s.below(4) {
        0 => s.usize(0, 300),
        1 => s.usize(0, 5000),
        2 => s.usize(0, 40000),
        _ => s.usize(0, 250_000)
    };
    let mut data = s.data(n);
    if s.bool() {
        let m = s.data(n / 2);
        data.extend(m);
    }
    let which = s.below(2);
    let level = s.below(13) as u32;
    let wrap = s.below(3);
    let mut buf;
    if which == 0 {
        let lv = flate2::Compression::new(level.min(9));
        buf = match wrap {
            0 => {
                let mut e = flate2::write::DeflateEncoder::new(vec![], lv);
                e.write_all(&data).unwrap();
                e.finish().unwrap()
            }
            1 => {
                let mut e = flate2::write::ZlibEncoder::new(vec![], lv);
                e.write_all(&data).unwrap();
                e.finish().unwrap()
            }
            _ => {
                let mut e = flate2::write::GzEncoder::new(vec![], lv);
                e.write_all(&data).unwrap();
                e.finish().unwrap()
            }
        };
    } else {
        let mut e = libdeflater::Compressor::new(libdeflater::CompressionLvl::new(level.max(1) as i32).unwrap());
        buf = vec![0; e.gzip_compress_bound(data.len()) + 64];
        let k = match wrap {
            0 => e.deflate_compress(&data, &mut buf).unwrap(),
            1 => e.zlib_compress(&data, &mut buf).unwrap(),
            _ => e.gzip_compress(&data, &mut buf).unwrap()
        };
        buf.truncate(k);
    }
    if data.len() > 20 {
        c.nontrivial();
    }
    c.label(format!("compressor {which}"));
    c.note(format!("compressor {which} level {level} wrap {wrap}, {} -> {} bytes", data.len(), buf.len()));
    c.artifact("input.bin", &buf);
    let o = opts(s, data.len());
    let mut d = DeflateDecoder::new_with_options(&buf, o);
    let got = match wrap {
        0 => d.decode_deflate(),
        1 => d.decode_zlib(),
        _ => d.decode_gzip()
    };
    same(["deflate", "zlib", "gzip"][wrap as usize], got, &data)
}

/// damaged raw streams against the reference decoder
fn damaged(s: &mut Src, c: &mut Ctx) -> Res {
    let size = s.pick(&[60usize, 600, 3000]);
    let g = md::generate(s, size);
    let mut st = g.stream.clone();
    let how = s.below(4);
    match how {
        0 => {
            let k = s.usize(0, st.len());
            st.truncate(k);
        }
        1 | 2 => {
            for _ in 0..s.usize(1, 3) {
                let p = if s.bool() { s.usize(0, st.len() - 1) } else { s.usize(0, (st.len() - 1).min(40)) };
                let b = s.below(8);
                st[p] ^= 1 << b;
            }
        }
        _ => {
            let p = s.usize(0, st.len() - 1);
            let k = s.usize(0, 40);
            let d = s.data(k);
            let e = s.usize(p, st.len());
            st.splice(p..e, d);
        }
    }
    if s.bool() {
        let k = s.usize(0, 40);
        let d = s.data(k);
        st.extend(d);
    }
    c.artifact("input.bin", &st);
    let r = md::inflate(&st, 3 << 20);
    if r.err == Some(md::InfErr::TooLong) {
        return Ok(());
    }
    let o = opts(s, r.out.len());
    c.note(format!("damage {how}, hint {}, {} bytes, reference: {:?} after {} bytes; {}", o.get_size_hint(), st.len(), r.err, r.out.len(), g.desc));
    c.label(format!("reference {:?}", r.err));
    c.nontrivial();
    let got = DeflateDecoder::new_with_options(&st, o).decode_deflate();
    match (got, r.err) {
        (Ok(v), None) => {
            if let Some(d) = first_diff(&v, &r.out) {
                return fail("damaged: decoded data differs from the reference", d);
            }
        }
        (Err(e), None) => {
            check!(r.odd, "damaged: still valid stream rejected", "{:?}", e.error);
        }
        (Err(e), Some(_)) => {
            // partial data: everything returned must be a prefix of what the reference decoded
            let n = e.data.len().min(r.out.len());
            if let Some(d) = first_diff(&e.data[..n], &r.out[..n]) {
                return fail("damaged: partial data is not what the stream encodes", d);
            }
        }
        (Ok(v), Some(e)) => {
            // over-long length runs, unassigned symbols and missing end-of-block codes are tolerated;
            // running off the end, bad distances, stored lengths or block types must not be
            use md::InfErr::*;
            if matches!(e, Eof | BadBlockType | BadStoredLen | BadDistance) {
                return fail(&format!("damaged: invalid stream accepted ({e:?})"), format!("returned {} bytes", v.len()));
            }
        }
    }
    Ok(())
}

fn checksums(s: &mut Src, c: &mut Ctx) -> Res {
    let size = s.pick(&[10usize, 300, 3000]);
    let g = md::generate(s, size);
    let zlib = s.bool();
    let mut st = if zlib { md::zlib_wrap(&g.stream, &g.data) } else { md::gzip_wrap(s, &g.stream, &g.data) };
    let n = st.len();
    let confirm = s.chance(2, 3);
    // which trailer byte is damaged
    let k = s.usize(1, if zlib { 4 } else { 8 });
    let x = 1u8 << s.below(8);
    st[n - k] ^= x;
    let isize_damaged = !zlib && k <= 4;
    c.note(format!("zlib {zlib}, trailer byte -{k} xor {x:#x}, confirm {confirm}, {} bytes of data", g.data.len()));
    c.nontrivial();
    c.artifact("input.bin", &st);
    let o = opts(s, g.data.len()).set_confirm_checksum(confirm);
    let mut d = DeflateDecoder::new_with_options(&st, o);
    let got = if zlib { d.decode_zlib() } else { d.decode_gzip() };
    if confirm || isize_damaged {
        match got {
            Ok(_) => return fail("checksum: damaged trailer accepted", format!("zlib {zlib} byte -{k}")),
            Err(e) => {
                if let Some(df) = first_diff(&e.data, &g.data) {
                    return fail("checksum: data returned with the error is wrong", df);
                }
                let ok = match e.error {
                    DecodeErrorStatus::MismatchedAdler(want, found) => zlib && found == md::adler32(&g.data) && want == u32::from_be_bytes(st[n - 4..n].try_into().unwrap()),
                    DecodeErrorStatus::MismatchedCRC(want, found) => !zlib && found == md::crc32(&g.data) && want == u32::from_le_bytes(st[n - 8..n - 4].try_into().unwrap()),
                    _ => isize_damaged
                };
                check!(ok, "checksum: wrong error for a damaged trailer", "{:?}", e.error);
            }
        }
    } else {
        same("checksum off", got, &g.data)?;
    }
    // a truncated trailer is an error too when checksums are confirmed
    if confirm {
        let cut = s.usize(1, 4);
        let st2 = &st[..n - cut];
        let mut d = DeflateDecoder::new_with_options(st2, o);
        let got = if zlib { d.decode_zlib() } else { d.decode_gzip() };
        check!(got.is_err(), "checksum: truncated trailer accepted", "cut {cut}");
    }
    Ok(())
}

fn limits(s: &mut Src, c: &mut Ctx) -> Res {
    let size = s.pick(&[100usize, 2000, 20000]);
    let g = md::generate(s, size);
    let n = g.data.len();
    let limit = match s.below(3) {
        0 => n,
        1 => n + s.usize(0, 1000),
        _ => s.usize(0, n)
    };
    let o = opts(s, n).set_limit(limit);
    let got = DeflateDecoder::new_with_options(&g.stream, o).decode_deflate();
    c.note(format!("limit {limit}, real size {n}: {}", g.desc));
    c.artifact("input.bin", &g.stream);
    if n > 0 {
        c.nontrivial();
    }
    if n <= limit {
        return same("limit not reached", got, &g.data);
    }
    // the limit is best effort: literals and one stored block may overshoot, but copies may not
    match got {
        Ok(v) => {
            check!(v == g.data, "limit: silently wrong data", "{} bytes", v.len());
            let slack = limit + g.stream.len() * 8 + 65536;
            check!(v.len() <= slack, "limit: output far beyond the limit", "{} bytes with limit {limit}", v.len());
            c.label("overshoot by literals");
        }
        Err(e) => {
            c.label("limit error");
            check!(matches!(e.error, DecodeErrorStatus::OutputLimitExceeded(..)), "limit: wrong error", "{:?}", e.error);
            let k = e.data.len().min(n);
            check!(e.data.len() <= n && e.data[..k] == g.data[..k], "limit: partial data wrong", "{} bytes", e.data.len());
        }
    }
    // a bomb: a run of matches far beyond the limit must be stopped close to it
    let reps = s.usize(1, 400);
    let big = vec![s.byte(); 3000 + reps * 258];
    let z = md::deflate_of(s, &big);
    let lim = s.usize(0, 2000);
    if z.len() < big.len() / 4 {
        c.label("bomb");
        match DeflateDecoder::new_with_options(&z, DeflateOptions::default().set_limit(lim)).decode_deflate() {
            Ok(v) => return fail("limit: bomb inflated", format!("{} bytes with limit {lim}", v.len())),
            Err(e) => check!(e.data.len() <= lim + 600, "limit: bomb overshoot", "{} bytes with limit {lim}", e.data.len())
        }
    }
    Ok(())
}

fn encoder(s: &mut Src, c: &mut Ctx) -> Res {
    let n = match s.below(6) {
        0 => s.usize(0, 3),
        1 => s.pick(&[65534usize, 65535, 65536, 131069, 131070, 131071, 196605]),
        2 => s.usize(0, 200_000),
        _ => s.usize(0, 3000)
    };
    let data = s.data(n);
    c.note(format!("{n} bytes"));
    if n > 0 {
        c.nontrivial();
    }
    let z = DeflateEncoder::new(&data).encode_zlib();
    c.artifact("input.bin", &data);
    c.artifact("encoded.bin", &z);
    check!(z.len() >= 6, "encoder: stream too short", "{}", z.len());
    let hdr = u16::from_be_bytes([z[0], z[1]]);
    check!(hdr % 31 == 0 && z[0] & 15 == 8 && z[0] >> 4 <= 7 && z[1] & 0x20 == 0, "encoder: bad zlib header", "{hdr:#x}");
    let r = md::inflate(&z[2..], usize::MAX);
    check!(r.err.is_none(), "encoder: reference decoder rejects the stream", "{:?}", r.err);
    if let Some(d) = first_diff(&r.out, &data) {
        return fail("encoder: stream holds other data", d);
    }
    check!(2 + r.used + 4 == z.len(), "encoder: stray bytes", "{} vs {}", 2 + r.used + 4, z.len());
    check!(z[z.len() - 4..] == md::adler32(&data).to_be_bytes(), "encoder: wrong adler", "");
    same("encoder round trip", DeflateDecoder::new(&z).decode_zlib(), &data)
}

/// arbitrary bytes: only totality
fn garbage(s: &mut Src, c: &mut Ctx) -> Res {
    let n = s.usize(0, 400);
    let mut d = s.data(n);
    match s.below(4) {
        0 => {}
        1 => {
            if d.len() > 1 {
                d[0] = 0x78;
                d[1] = 0x9c;
            }
        }
        2 => {
            let f = s.below(32) as u8;
            for (i, b) in [0x1f, 0x8b, 8, f].into_iter().enumerate() {
                if i < d.len() {
                    d[i] = b
                }
            }
        }
        _ => {
            if !d.is_empty() {
                let keep = d[0] & 0xf8;
                d[0] = keep | s.below(8) as u8;
            }
        }
    }
    c.artifact("input.bin", &d);
    c.note(pbt::hex(&d[..d.len().min(40)]));
    if n > 0 {
        c.nontrivial();
    }
    let hint = s.usize(0, 100);
    let o = DeflateOptions::default().set_limit(1 << 22).set_size_hint(hint);
    let a = DeflateDecoder::new_with_options(&d, o).decode_deflate();
    let b = DeflateDecoder::new_with_options(&d, o).decode_zlib();
    let g = DeflateDecoder::new_with_options(&d, o).decode_gzip();
    for (k, r) in [("raw", a.is_ok()), ("zlib", b.is_ok()), ("gzip", g.is_ok())] {
        c.label(format!("{k} {}", if r { "ok" } else { "err" }));
    }
    Ok(())
}

fn main() {
    pbt::main(vec![Property {
        id: "C04",
        rule: "deflate streams are built block by block from random tokens and random legal Huffman codes (plus streams of two independent compressors, damaged streams, damaged trailers, limits, garbage); non-trivial: the stream has a match or a dynamic block, or was damaged, or carries data",
        assumptions: &["the bit-at-a-time reference inflate in models/src/deflate.rs follows RFC 1951; every generated stream is checked against it"],
        subs: vec![
            Sub { name: "legal", f: legal, quick: 500_000, thorough: 10_000_000 },
            Sub { name: "compressors", f: compressors, quick: 25_000, thorough: 400_000 },
            Sub { name: "damaged", f: damaged, quick: 500_000, thorough: 10_000_000 },
            Sub { name: "checksums", f: checksums, quick: 60_000, thorough: 1_000_000 },
            Sub { name: "limits", f: limits, quick: 60_000, thorough: 1_000_000 },
            Sub { name: "encoder", f: encoder, quick: 5_000, thorough: 100_000 },
            Sub { name: "garbage", f: garbage, quick: 500_000, thorough: 10_000_000 },
        ]
    }]);
}
