//! C36: channels against typed vectors
use pbt::{check, Ctx, Res, Src};
use std::any::TypeId;
use std::fmt::Debug;
use zune_core::bit_depth::BitType;
use zune_image::channel::Channel;

trait El: Copy + Clone + PartialEq + Debug + Default + 'static + bytemuck::Pod {
    fn gen(r: &mut pbt::Rng) -> Self;
    const BIT: Option<BitType>;
}
macro_rules! el {
    ($t:ty, $b:expr, $f:expr) => {
        impl El for $t {
            fn gen(r: &mut pbt::Rng) -> Self {
                let f: fn(u64) -> $t = $f;
                f(r.next())
            }
            const BIT: Option<BitType> = $b;
        }
    };
}
el!(u8, Some(BitType::U8), |x| x as u8);
el!(i8, None, |x| x as i8);
el!(u16, Some(BitType::U16), |x| x as u16);
el!(i16, None, |x| x as i16);
el!(u32, None, |x| x as u32);
el!(f32, Some(BitType::F32), |x| (x % 1000) as f32 / 7.0);
el!(u64, None, |x| x);
el!(f64, None, |x| (x % 100000) as f64 / 3.0);

fn vecof<T: El>(r: &mut pbt::Rng, n: usize) -> Vec<T> {
    (0..n).map(|_| T::gen(r)).collect()
}

fn same<T: El>(c: &mut Channel, m: &[T], what: &str) -> Res {
    let sz = std::mem::size_of::<T>();
    check!(c.len() == m.len() * sz, "length", "after {what}: len() is {}, expected {} elements of {sz} bytes", c.len(), m.len());
    check!(c.is_empty() == m.is_empty(), "is_empty", "after {what}");
    check!(c.capacity() >= c.len(), "capacity below the length", "after {what}: {} < {}", c.capacity(), c.len());
    check!(c.type_id() == TypeId::of::<T>(), "type id", "after {what}");
    match c.reinterpret_as::<T>() {
        Ok(v) => check!(v == m, "contents", "after {what}: {}", pbt::first_diff(v, m).unwrap_or_default()),
        Err(e) => return pbt::fail("refused its own type", format!("after {what}: {e:?}")),
    }
    match c.reinterpret_as_mut::<T>() {
        Ok(v) => check!(v == m, "contents", "after {what} (mut): {}", pbt::first_diff(v, m).unwrap_or_default()),
        Err(e) => return pbt::fail("refused its own type", format!("after {what}: {e:?}")),
    }
    Ok(())
}

fn refuses<T: El, U: El>(c: &mut Channel) -> Res {
    if TypeId::of::<T>() != TypeId::of::<U>() {
        check!(c.reinterpret_as::<U>().is_err(), "read as another type", "{} as {}", std::any::type_name::<T>(), std::any::type_name::<U>());
        check!(c.reinterpret_as_mut::<U>().is_err(), "read as another type (mut)", "{} as {}", std::any::type_name::<T>(), std::any::type_name::<U>());
        check!(c.fill(U::default()).is_err(), "filled with another type", "{} as {}", std::any::type_name::<T>(), std::any::type_name::<U>());
    }
    Ok(())
}

fn run<T: El>(s: &mut Src, cx: &mut Ctx) -> Res {
    let sz = std::mem::size_of::<T>();
    let mut r = s.rng();
    let n = s.pick(&[0usize, 1, 2, 3, 5, 8, 16, 63, 64, 65, 200, 1001]);
    let kind = s.below(6);
    let mut m: Vec<T> = vec![];
    let mut c = match kind {
        0 => Channel::new::<T>(),
        1 => Channel::new_with_capacity::<T>(s.usize(0, 3 * n)),
        2 => {
            m = vec![T::default(); n];
            Channel::new_with_length::<T>(n * sz)
        }
        3 => {
            m = vec![T::default(); n];
            Channel::new_with_length_and_type(n * sz, TypeId::of::<T>())
        }
        4 => {
            let e = T::gen(&mut r);
            m = vec![e; n];
            Channel::from_elm::<T>(n, e)
        }
        _ => match T::BIT {
            Some(b) => {
                m = vec![T::default(); n];
                Channel::new_with_bit_type(n * sz, b)
            }
            None => Channel::new::<T>(),
        },
    };
    let mut hist = format!("{} from constructor {kind} n {n}", std::any::type_name::<T>());
    same(&mut c, &m, &hist)?;
    let ops = s.usize(1, 25);
    let mut others: Vec<(Channel, Vec<T>)> = vec![];
    for _ in 0..ops {
        match s.below(12) {
            0 | 1 | 2 => {
                let k = s.pick(&[1usize, 1, 2, 7, 40]);
                for _ in 0..k {
                    let e = T::gen(&mut r);
                    c.push(e);
                    m.push(e);
                }
                hist += &format!(" push*{k}");
                cx.nontrivial();
            }
            3 | 4 => {
                let k = s.pick(&[0usize, 1, 3, 9, 10, 11, 30, 300]);
                let v = vecof::<T>(&mut r, k);
                c.extend(&v);
                m.extend(&v);
                hist += &format!(" extend {k}");
                cx.nontrivial();
            }
            5 => {
                let e = T::gen(&mut r);
                let res = c.fill(e);
                check!(res.is_ok(), "fill refused", "{hist}: {res:?}");
                m.iter_mut().for_each(|x| *x = e);
                hist += " fill";
            }
            6 => {
                let d = c.clone();
                check!(d == c, "clone differs", "{hist}");
                others.push((d, m.clone()));
                hist += " clone";
            }
            7 => {
                // swap with an earlier copy: both must be independent
                if let Some(o) = others.last_mut() {
                    std::mem::swap(&mut o.0, &mut c);
                    std::mem::swap(&mut o.1, &mut m);
                    hist += " swap";
                }
            }
            8 => {
                if !m.is_empty() {
                    let i = r.below(m.len() as u64) as usize;
                    let e = T::gen(&mut r);
                    match c.reinterpret_as_mut::<T>() {
                        Ok(v) => v[i] = e,
                        Err(e) => return pbt::fail("refused its own type", format!("{hist}: {e:?}")),
                    }
                    m[i] = e;
                    hist += &format!(" set {i}");
                }
            }
            9 => {
                refuses::<T, u8>(&mut c)?;
                refuses::<T, i8>(&mut c)?;
                refuses::<T, u16>(&mut c)?;
                refuses::<T, i16>(&mut c)?;
                refuses::<T, u32>(&mut c)?;
                refuses::<T, f32>(&mut c)?;
                refuses::<T, f64>(&mut c)?;
            }
            10 => {
                // equality follows the bytes
                let bytes = |v: &[T]| bytemuck::cast_slice::<T, u8>(v).to_vec();
                for (d, dm) in &others {
                    check!((*d == c) == (bytes(dm) == bytes(&m)), "equality", "{hist}: == gives {}", *d == c);
                }
                let other = Channel::new_with_length_and_type(c.len(), TypeId::of::<()>());
                check!(other != c, "equal to a channel of another type", "{hist}");
            }
            _ => {
                let b = unsafe { c.alias() };
                check!(b == bytemuck::cast_slice::<T, u8>(&m), "alias", "{hist}: bytes differ");
                if s.bool() && !m.is_empty() {
                    let i = r.below(m.len() as u64) as usize;
                    let e = T::gen(&mut r);
                    m[i] = e;
                    let b = unsafe { c.alias_mut() };
                    b[i * sz..(i + 1) * sz].copy_from_slice(bytemuck::bytes_of(&e));
                }
            }
        }
        same(&mut c, &m, &hist)?;
    }
    for (d, dm) in others.iter_mut() {
        same(d, dm, &format!("{hist} (copy)"))?;
    }
    cx.note(&hist);
    Ok(())
}

pub fn channels(s: &mut Src, cx: &mut Ctx) -> Res {
    match s.below(8) {
        0 => run::<u8>(s, cx),
        1 => run::<u16>(s, cx),
        2 => run::<f32>(s, cx),
        3 => run::<i8>(s, cx),
        4 => run::<i16>(s, cx),
        5 => run::<u32>(s, cx),
        6 => run::<u64>(s, cx),
        _ => run::<f64>(s, cx),
    }
}
