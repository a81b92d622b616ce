//! C21: readers and writers against an array with a cursor.
//! The module is compiled twice, for zune-core with and without its std feature.
use pbt::{check, fail, Ctx, Res, Src};

fn data(s: &mut Src) -> Vec<u8> {
    let n = match s.below(4) {
        0 => s.usize(0, 8),
        _ => s.usize(0, 80)
    };
    s.rng().fill(n)
}

trait Fill {
    fn fill(&mut self, n: usize) -> Vec<u8>;
}
impl Fill for pbt::Rng {
    fn fill(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.byte() | 1).collect()
    }
}

/// how far to move
fn amount(s: &mut Src, len: usize) -> usize {
    match s.below(12) {
        0 => 0,
        1 => len,
        2 => len + 1,
        3 => 1 << s.usize(0, 63),
        4 => (1usize << s.usize(0, 63)).wrapping_sub(1),
        5 => usize::MAX - s.usize(0, 20),
        _ => s.usize(0, 12)
    }
}

#[derive(Copy, Clone, PartialEq, Debug)]
enum Kind {
    /// short reads never happen
    Whole,
    /// a read may deliver less than there is
    Pieces
}

macro_rules! reader_check {
    ($m:ident, $z:ident) => {
        pub mod $m {
            use super::*;
            use $z::bytestream::{ZByteReaderTrait, ZReader, ZSeekFrom};

            fn fixed<const N: usize, T: ZByteReaderTrait>(r: &mut ZReader<T>, zero: bool) -> Option<Vec<u8>> {
                if zero {
                    Some(r.read_fixed_bytes_or_zero::<N>().to_vec())
                } else {
                    r.read_fixed_bytes_or_error::<N>().ok().map(|x| x.to_vec())
                }
            }

            pub(super) fn run<T: ZByteReaderTrait>(s: &mut Src, c: &mut Ctx, src: T, d: &[u8], kind: Kind) -> Res {
                let mut r = ZReader::new(src);
                let mut p: u64 = 0;
                let len = d.len();
                let n_ops = s.usize(1, 25);
                let mut moved = 0;
                for i in 0..n_ops {
                    let at = (p.min(len as u64)) as usize;
                    let rest = &d[at..];
                    let before = p;
                    let op = s.below(20);
                    let what;
                    macro_rules! number {
                        ($t:ty, $be:ident, $le:ident, $bee:ident, $lee:ident) => {{
                            const N: usize = std::mem::size_of::<$t>();
                            let want: Option<[u8; N]> = rest.get(..N).map(|x| x.try_into().unwrap());
                            let (name, got, exp) = match s.below(4) {
                                0 => (stringify!($be), Some(r.$be()), Some(want.map(<$t>::from_be_bytes).unwrap_or(0))),
                                1 => (stringify!($le), Some(r.$le()), Some(want.map(<$t>::from_le_bytes).unwrap_or(0))),
                                2 => (stringify!($bee), r.$bee().ok(), want.map(<$t>::from_be_bytes)),
                                _ => (stringify!($lee), r.$lee().ok(), want.map(<$t>::from_le_bytes))
                            };
                            check!(got == exp, &format!("{name} returns the wrong value"), "op {i} at {p} of {len}: got {got:x?}, expected {exp:x?}");
                            if want.is_some() {
                                p += N as u64;
                            }
                            what = name.to_string();
                        }};
                    }
                    match op {
                        0 | 1 => {
                            let n = amount(s, len);
                            let back = s.bool();
                            what = format!("{}({n})", if back { "rewind" } else { "skip" });
                            let got = if back { r.rewind(n) } else { r.skip(n) }.ok();
                            let exp = if back { p.checked_sub(n as u64) } else { p.checked_add(n as u64) };
                            if let Some(g) = got {
                                check!(Some(g) == exp, "skip or rewind goes to the wrong place", "op {i} {what} at {p}: {g}");
                                p = g;
                            } else {
                                // positions beyond the range of i64 may be refused
                                check!(exp.is_none() || n as u64 > i64::MAX as u64 || exp.unwrap() > i64::MAX as u64, "skip or rewind refused", "op {i} {what} at {p}");
                            }
                        }
                        2 | 3 => {
                            let n = amount(s, len);
                            let sg = |s: &mut Src| {
                                let v = n as i64;
                                if s.bool() { v } else { v.wrapping_neg() }
                            };
                            let (f, exp) = match s.below(3) {
                                0 => (ZSeekFrom::Start(n as u64), Some(n as u64)),
                                1 => {
                                    let k = sg(s);
                                    (ZSeekFrom::End(k), (len as u64).checked_add_signed(k))
                                }
                                _ => {
                                    let k = sg(s);
                                    (ZSeekFrom::Current(k), p.checked_add_signed(k))
                                }
                            };
                            what = format!("{f:?}");
                            let got = r.seek(f).ok();
                            if let Some(g) = got {
                                check!(Some(g) == exp, "seek goes to the wrong place", "op {i} {what} at {p} of {len}: {g}");
                                p = g;
                            } else {
                                check!(exp.is_none() || exp.unwrap() > i64::MAX as u64, "seek refused", "op {i} {what} at {p} of {len}");
                            }
                        }
                        4 => {
                            let n = amount(s, len);
                            let ok = r.set_position(n).is_ok();
                            what = format!("set_position({n})");
                            check!(ok || n as u64 > i64::MAX as u64, "set_position refused", "op {i} {n}");
                            if ok {
                                p = n as u64;
                            }
                        }
                        5 => {
                            let g = r.read_u8();
                            what = "read_u8".into();
                            check!(g == *rest.first().unwrap_or(&0), "read_u8 returns the wrong byte", "op {i} at {p} of {len}: {g}");
                            p += !rest.is_empty() as u64;
                        }
                        6 => {
                            let g = r.read_u8_err().ok();
                            what = "read_u8_err".into();
                            check!(g == rest.first().copied(), "read_u8_err returns the wrong byte", "op {i} at {p} of {len}: {g:?}");
                            p += !rest.is_empty() as u64;
                        }
                        7 | 8 => {
                            let a = if s.bool() { 0 } else { amount(s, len) };
                            let n = match s.below(20) {
                                0 => 20 * 1024 * 1024 + s.usize(0, 1),
                                1 => usize::MAX - s.usize(0, 3),
                                _ => s.usize(0, 14)
                            };
                            what = format!("peek_at({a}, {n})");
                            let exp = (p as u128 + a as u128 + n as u128 <= len as u128).then(|| &d[p as usize + a..p as usize + a + n]);
                            let got = r.peek_at(a, n).ok();
                            if n > 0 {
                                check!(got == exp, "peek_at returns the wrong bytes", "op {i} {what} at {p} of {len}: got {got:x?}, expected {exp:x?}");
                            } else if let Some(g) = got {
                                check!(g.is_empty(), "peek_at returns the wrong bytes", "op {i} {what} at {p} of {len}: {g:x?}");
                            }
                        }
                        9 => {
                            let zero = s.bool();
                            let (n, got) = match s.below(5) {
                                0 => (0, fixed::<0, _>(&mut r, zero)),
                                1 => (1, fixed::<1, _>(&mut r, zero)),
                                2 => (3, fixed::<3, _>(&mut r, zero)),
                                3 => (7, fixed::<7, _>(&mut r, zero)),
                                _ => (32, fixed::<32, _>(&mut r, zero))
                            };
                            what = format!("fixed bytes {n} zero {zero}");
                            let ok = rest.len() >= n;
                            let exp = if ok { Some(rest[..n].to_vec()) } else if zero { Some(vec![0; n]) } else { None };
                            // reading nothing beyond the end may be an error
                            if n > 0 || zero {
                                check!(got == exp, "fixed-size read returns the wrong bytes", "op {i} {what} at {p} of {len}: got {got:x?}, expected {exp:x?}");
                            }
                            if ok {
                                p += n as u64;
                            }
                        }
                        10 => {
                            let n = s.usize(0, 40);
                            what = format!("read_exact_bytes({n})");
                            let mut b = vec![0; n];
                            let ok = r.read_exact_bytes(&mut b).is_ok();
                            if n > 0 {
                                check!(ok == (rest.len() >= n), "read_exact_bytes misjudges the end", "op {i} {what} at {p} of {len}: {ok}");
                            }
                            if ok {
                                check!(b == rest[..n], "read_exact_bytes returns the wrong bytes", "op {i} {what} at {p} of {len}: {b:x?}");
                                p += n as u64;
                            }
                        }
                        11 => {
                            let n = s.usize(0, 40);
                            let mut b = vec![0; n];
                            let got = match r.read_bytes(&mut b) {
                                Ok(k) => k,
                                Err(e) => return fail("read_bytes fails", format!("op {i} at {p} of {len}: {e:?}"))
                            };
                            what = format!("read_bytes({n}) -> {got}");
                            let most = n.min(rest.len());
                            check!(got <= most && (got == most || kind == Kind::Pieces) && (got > 0) == (most > 0), "read_bytes reads the wrong number of bytes", "op {i} {what} at {p} of {len}");
                            check!(b[..got] == rest[..got], "read_bytes returns the wrong bytes", "op {i} {what} at {p} of {len}: {b:x?}");
                            p += got as u64;
                        }
                        12 => number!(u16, get_u16_be, get_u16_le, get_u16_be_err, get_u16_le_err),
                        13 => number!(u32, get_u32_be, get_u32_le, get_u32_be_err, get_u32_le_err),
                        14 => number!(u64, get_u64_be, get_u64_le, get_u64_be_err, get_u64_le_err),
                        15 => {
                            let g = r.eof().ok();
                            what = "eof".into();
                            check!(g == Some(p >= len as u64), "eof is wrong", "op {i} at {p} of {len}: {g:?}");
                        }
                        16 => {
                            // the methods of the trait, without the wrapper
                            let mut t = r.consume();
                            let n = s.usize(0, 20);
                            let mut b = vec![0; n];
                            match s.below(5) {
                                0 => {
                                    what = format!("peek_bytes({n})");
                                    let got = t.peek_bytes(&mut b).ok();
                                    let most = n.min(rest.len());
                                    let Some(g) = got else { return fail("peek_bytes fails", format!("op {i} at {p} of {len}")) };
                                    check!(g <= most && (g == most || kind == Kind::Pieces) && (g > 0) == (most > 0), "peek_bytes reads the wrong number of bytes", "op {i} {what} at {p} of {len}: {g}");
                                    check!(b[..g] == rest[..g], "peek_bytes returns the wrong bytes", "op {i} {what} at {p} of {len}: {b:x?}");
                                }
                                1 => {
                                    what = format!("peek_exact_bytes({n})");
                                    let ok = t.peek_exact_bytes(&mut b).is_ok();
                                    if n > 0 {
                                        check!(ok == (n <= rest.len()), "peek_exact_bytes misjudges the end", "op {i} {what} at {p} of {len}: {ok}");
                                    }
                                    check!(!ok || b == rest[..n], "peek_exact_bytes returns the wrong bytes", "op {i} {what} at {p} of {len}: {b:x?}");
                                }
                                2 => {
                                    what = "read_remaining".into();
                                    let mut sink = vec![9, 9];
                                    let got = t.read_remaining(&mut sink).ok();
                                    check!(got == Some(rest.len()) || (got.is_none() && p > len as u64), "read_remaining reads the wrong number of bytes", "op {i} at {p} of {len}: {got:?}");
                                    check!(sink[..2] == [9, 9] && sink[2..] == *rest, "read_remaining returns the wrong bytes", "op {i} at {p} of {len}: {sink:x?}");
                                    p += rest.len() as u64;
                                }
                                3 => {
                                    what = "read_const_bytes_no_error".into();
                                    let mut b = [0xa5u8; 4];
                                    t.read_const_bytes_no_error(&mut b);
                                    if rest.len() >= 4 {
                                        check!(b == rest[..4], "read_const_bytes_no_error returns the wrong bytes", "op {i} at {p} of {len}: {b:x?}");
                                        p += 4;
                                    } else {
                                        check!(b == [0xa5; 4], "read_const_bytes_no_error changes the buffer", "op {i} at {p} of {len}: {b:x?}");
                                    }
                                }
                                _ => {
                                    what = "read_const_bytes".into();
                                    let mut b = [0u8; 5];
                                    let ok = t.read_const_bytes(&mut b).is_ok();
                                    check!(ok == (rest.len() >= 5), "read_const_bytes misjudges the end", "op {i} at {p} of {len}: {ok}");
                                    if ok {
                                        check!(b == rest[..5], "read_const_bytes returns the wrong bytes", "op {i} at {p} of {len}: {b:x?}");
                                        p += 5;
                                    }
                                }
                            }
                            r = ZReader::new(t);
                        }
                        _ => {
                            // go somewhere inside
                            let n = s.usize(0, len);
                            what = format!("seek({n})");
                            check!(r.seek(ZSeekFrom::Start(n as u64)).ok() == Some(n as u64), "seek goes to the wrong place", "op {i} {what}");
                            p = n as u64;
                        }
                    }
                    if c.verbose {
                        c.note(format!("op {i} at {before} of {len}: {what}"));
                    }
                    // std's seek-based position is limited to what i64 can express
                    match r.position() {
                        Ok(g) => check!(g == p, "position is wrong", "op {i} {what} at {before} of {len}: position {g}, expected {p}"),
                        Err(e) => check!(p > i64::MAX as u64, "position fails", "op {i} {what}: {e:?}")
                    }
                    moved += (p != before) as usize;
                }
                if moved > 0 {
                    c.nontrivial();
                }
                Ok(())
            }
        }
    };
}
reader_check!(with_std, zune_core);
reader_check!(without_std, zune_core_nostd);

pub fn readers(s: &mut Src, c: &mut Ctx) -> Res {
    use std::io::{BufReader, Cursor};
    let d = data(s);
    c.note(format!("{} bytes", d.len()));
    let step = s.pick(&[1usize, 2, 3, 5, 17]);
    let cap = s.pick(&[1usize, 2, 3, 8, 100]);
    match s.below(8) {
        0 => {
            c.label("ZCursor");
            with_std::run(s, c, zune_core::bytestream::ZCursor::new(&d), &d, Kind::Whole)
        }
        1 => {
            c.label("ZCursor owned");
            with_std::run(s, c, zune_core::bytestream::ZCursor::new(d.clone()), &d, Kind::Whole)
        }
        2 => {
            c.label("Cursor");
            with_std::run(s, c, Cursor::new(&d), &d, Kind::Whole)
        }
        3 => {
            c.label("BufReader");
            with_std::run(s, c, BufReader::with_capacity(cap, Cursor::new(&d)), &d, Kind::Pieces)
        }
        4 => {
            c.label("small pieces");
            with_std::run(s, c, models::io::Slow::new(&d, step), &d, Kind::Pieces)
        }
        5 => {
            c.label("buffered small pieces");
            with_std::run(s, c, BufReader::with_capacity(cap, models::io::Slow::new(&d, step)), &d, Kind::Pieces)
        }
        _ => {
            c.label("ZCursor without std");
            without_std::run(s, c, zune_core_nostd::bytestream::ZCursor::new(&d), &d, Kind::Whole)
        }
    }
}

/// the methods of ZCursor itself, and its std::io traits
pub fn cursor(s: &mut Src, c: &mut Ctx) -> Res {
    use std::io::{BufRead, Read, Seek, SeekFrom};
    let d = data(s);
    let mut a = zune_core::bytestream::ZCursor::new(&d);
    let mut b = std::io::Cursor::new(&d);
    let mut x = zune_core_nostd::bytestream::ZCursor::new(&d);
    let mut xp = 0usize;
    for i in 0..s.usize(1, 20) {
        let op = s.below(7);
        match op {
            0 => {
                let n = amount(s, d.len()) % (1 << 57);
                a.skip(n);
                b.set_position(b.position() + n as u64);
                x.skip(n);
                xp += n;
            }
            1 => {
                let n = amount(s, d.len());
                a.rewind(n);
                b.set_position(b.position().saturating_sub(n as u64));
                x.rewind(n);
                xp = xp.saturating_sub(n);
            }
            2 => {
                let n = s.usize(0, 30);
                let (mut p, mut q) = (vec![0; n], vec![0; n]);
                let (m, k) = (a.read(&mut p).ok(), b.read(&mut q).ok());
                check!(m == k && p == q, "Read differs from std", "op {i}: {m:?} {k:?} {p:x?} {q:x?}");
            }
            3 => {
                let (p, q) = (a.fill_buf().unwrap().to_vec(), b.fill_buf().unwrap().to_vec());
                check!(p == q, "fill_buf differs from std", "op {i}: {p:x?} {q:x?}");
                let k = s.usize(0, p.len());
                a.consume(k);
                b.consume(k);
            }
            4 => {
                let n = amount(s, d.len()) as i64;
                let f = match s.below(4) {
                    0 => SeekFrom::Start(n as u64 >> 7),
                    1 => SeekFrom::End(n >> 6),
                    2 => SeekFrom::End(n.wrapping_neg() >> 6),
                    _ => SeekFrom::Current(n.wrapping_neg() >> 6)
                };
                let (m, k) = (a.seek(f).ok(), b.seek(f).ok());
                check!(m == k, "Seek differs from std", "op {i} {f:?}: {m:?} {k:?}");
            }
            5 => {
                let n = s.usize(0, 20);
                let (mut p, mut q) = (vec![], vec![]);
                let sep = d.get(n).copied().unwrap_or(0);
                let (m, k) = (a.read_until(sep, &mut p).ok(), b.read_until(sep, &mut q).ok());
                check!(m == k && p == q, "read_until differs from std", "op {i}: {m:?} {k:?}");
            }
            _ => {
                let at = xp.min(d.len());
                check!(x.split() == (&d[..at], &d[at..]), "split is wrong", "op {i} at {xp} of {}", d.len());
            }
        }
        let at = (b.position() as usize).min(d.len());
        check!(zune_core::bytestream::ZCursor::split(&a) == (&d[..at], &d[at..]), "split is wrong", "op {i} {op} at {} of {}", b.position(), d.len());
        check!(a.stream_position().ok() == Some(b.position()), "position is wrong", "op {i} {op} {:?} {}", a.stream_position(), b.position());
        c.nontrivial();
    }
    Ok(())
}

macro_rules! writer_check {
    ($m:ident, $z:ident) => {
        pub mod $m {
            use super::*;
            use $z::bytestream::{ZByteWriterTrait, ZWriter};
            /// `room`: bytes the sink takes before it refuses
            pub(super) fn run<T: ZByteWriterTrait>(s: &mut Src, c: &mut Ctx, w: &mut ZWriter<T>, room: usize, kind: Kind) -> Result<Vec<u8>, pbt::Fail> {
                let mut want: Vec<u8> = vec![];
                for i in 0..s.usize(1, 25) {
                    let v = s.rng().next();
                    let left = room - want.len();
                    macro_rules! number {
                        ($t:ty, $be:ident, $le:ident, $bee:ident, $lee:ident) => {{
                            let v = v as $t;
                            let (ok, b) = match s.below(4) {
                                0 => {
                                    w.$be(v);
                                    (None, v.to_be_bytes())
                                }
                                1 => {
                                    w.$le(v);
                                    (None, v.to_le_bytes())
                                }
                                2 => (Some(w.$bee(v).is_ok()), v.to_be_bytes()),
                                _ => (Some(w.$lee(v).is_ok()), v.to_le_bytes())
                            };
                            (ok, b.to_vec())
                        }};
                    }
                    let (ok, b) = match s.below(9) {
                        0 => {
                            let b = s.rng().fill(v as usize % 20);
                            let r = w.write(&b).ok();
                            let most = left.min(b.len());
                            match r {
                                Some(k) => {
                                    check!(k <= most && (k == most || kind == Kind::Pieces), "write takes the wrong number of bytes", "op {i}: {k} of {} with room for {left}", b.len());
                                    (Some(true), b[..k].to_vec())
                                }
                                None => {
                                    check!(most == 0, "write refused", "op {i}: {} with room for {left}", b.len());
                                    (None, b)
                                }
                            }
                        }
                        1 | 2 => {
                            let b = s.rng().fill(v as usize % 30);
                            (Some(w.write_all(&b).is_ok()), b)
                        }
                        3 => {
                            w.write_u8(v as u8);
                            (None, vec![v as u8])
                        }
                        4 => (Some(w.write_u8_err(v as u8).is_ok()), vec![v as u8]),
                        5 => number!(u16, write_u16_be, write_u16_le, write_u16_be_err, write_u16_le_err),
                        6 => number!(u32, write_u32_be, write_u32_le, write_u32_be_err, write_u32_le_err),
                        7 => number!(u64, write_u64_be, write_u64_le, write_u64_be_err, write_u64_le_err),
                        _ => {
                            let b = v.to_ne_bytes();
                            (Some(w.write_const_bytes(&b).is_ok()), b.to_vec())
                        }
                    };
                    let fits = b.len() <= left;
                    if let Some(ok) = ok {
                        check!(ok == fits, if fits { "write refused" } else { "write beyond the end accepted" }, "op {i}: {} bytes with room for {left}", b.len());
                    }
                    if !fits {
                        // part of the data may be stored, but it does not count
                        check!(w.bytes_written() == want.len(), "bytes_written counts a failed write", "op {i}: {} instead of {}", w.bytes_written(), want.len());
                        c.label("sink full");
                        break;
                    }
                    want.extend(b);
                    check!(w.bytes_written() == want.len(), "bytes_written is wrong", "op {i}: {} instead of {}", w.bytes_written(), want.len());
                }
                if want.len() > 1 {
                    c.nontrivial();
                }
                let _ = w.reserve(s.usize(0, 100));
                Ok(want)
            }
        }
    };
}
writer_check!(w_std, zune_core);
writer_check!(w_nostd, zune_core_nostd);

pub fn writers(s: &mut Src, c: &mut Ctx) -> Res {
    use std::io::{BufWriter, Cursor};
    let step = s.pick(&[1usize, 2, 3, 5, 17]);
    let many = usize::MAX / 2;
    let m = s.usize(0, 60);
    let old = s.rng().fill(s.usize(0, 5));
    let same = |got: &[u8], want: &[u8], what: &str| -> Res {
        check!(got == want, &format!("{what}: wrong bytes stored"), "{got:x?} instead of {want:x?}");
        Ok(())
    };
    match s.below(7) {
        0 => {
            c.label("Vec");
            let mut v = old.clone();
            let mut w = zune_core::bytestream::ZWriter::new(&mut v);
            let want = w_std::run(s, c, &mut w, many, Kind::Whole)?;
            same(&v[old.len()..], &want, "Vec")?;
            same(&v[..old.len()], &old, "Vec, earlier contents")
        }
        1 => {
            c.label("slice");
            let mut v = vec![0xeeu8; m];
            let mut w = zune_core::bytestream::ZWriter::new(&mut v[..]);
            let want = w_std::run(s, c, &mut w, m, Kind::Whole)?;
            same(&v[..want.len()], &want, "slice")
        }
        2 => {
            c.label("Cursor");
            let mut w = zune_core::bytestream::ZWriter::new(Cursor::new(old.clone()));
            let want = w_std::run(s, c, &mut w, many, Kind::Whole)?;
            let v = w.inner().into_inner();
            same(&v[..want.len()], &want, "Cursor")
        }
        3 => {
            c.label("small pieces");
            let mut w = zune_core::bytestream::ZWriter::new(models::io::Sink::new(step, None));
            let want = w_std::run(s, c, &mut w, many, Kind::Pieces)?;
            same(&w.inner_ref().data.clone(), &want, "pieces")?;
            same(&w.inner().data, &want, "pieces")
        }
        4 => {
            c.label("BufWriter");
            let mut k = models::io::Sink::new(step, None);
            let mut w = zune_core::bytestream::ZWriter::new(BufWriter::with_capacity(3, &mut k));
            let want = w_std::run(s, c, &mut w, many, Kind::Pieces)?;
            drop(w);
            same(&k.data, &want, "BufWriter")
        }
        5 => {
            c.label("Vec without std");
            let mut v = old.clone();
            let mut w = zune_core_nostd::bytestream::ZWriter::new(&mut v);
            let want = w_nostd::run(s, c, &mut w, many, Kind::Whole)?;
            same(&v[old.len()..], &want, "Vec")
        }
        _ => {
            c.label("slice without std");
            let mut v = vec![0xeeu8; m];
            let mut w = zune_core_nostd::bytestream::ZWriter::new(&mut v[..]);
            let want = w_nostd::run(s, c, &mut w, m, Kind::Whole)?;
            same(&v[..want.len()], &want, "slice")?;
            check!(v[want.len()..].iter().all(|x| *x == 0xee), "a refused write changes the slice", "{v:x?}");
            Ok(())
        }
    }
}
