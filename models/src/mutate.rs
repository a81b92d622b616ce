//! Damage to files.
use pbt::Src;

/// One random edit of a byte string.
pub fn edit(s: &mut Src, d: &mut Vec<u8>) {
    if d.is_empty() {
        let n = s.usize(1, 20);
        *d = s.data(n);
        return;
    }
    // positions near the front (headers) are preferred
    let pos = |s: &mut Src, d: &Vec<u8>| -> usize {
        let n = d.len();
        match s.below(4) {
            0 => s.usize(0, n - 1),
            1 => s.usize(0, n.min(32) - 1),
            2 => s.usize(0, n.min(150) - 1),
            _ => s.usize(0, n.min(1000) - 1)
        }
    };
    match s.below(12) {
        0 => {
            let p = pos(s, d);
            d[p] ^= 1 << s.below(8);
        }
        1 => {
            let p = pos(s, d);
            d[p] = s.pick(&[0u8, 1, 2, 0x7f, 0x80, 0xff, 0xfe, 16, 32, 64, 100]);
        }
        2 => {
            let p = pos(s, d);
            d[p] = s.byte();
        }
        3 => {
            let p = pos(s, d);
            d[p] = d[p].wrapping_add(1);
        }
        4 => {
            let p = pos(s, d);
            d[p] = d[p].wrapping_sub(1);
        }
        5 => {
            // 16/32-bit interesting values
            let p = pos(s, d);
            let v = s.pick(&[0u32, 1, 2, 3, 0xffff, 0x7fff, 0x8000, 0xffff_ffff, 0x7fff_ffff, 0x8000_0000, 0x10000, 0xffff_fffe, 65537, 1 << 14, (1 << 14) + 1, 0x4000_0000, 255, 256]);
            let w = if s.bool() { 4 } else { 2 };
            let b = if s.bool() { v.to_be_bytes()[4 - w..].to_vec() } else { v.to_le_bytes()[..w].to_vec() };
            for (i, x) in b.into_iter().enumerate() {
                if p + i < d.len() {
                    d[p + i] = x;
                }
            }
        }
        6 => {
            // truncate
            let n = if s.bool() { s.usize(0, d.len() - 1) } else { d.len() - 1 - s.usize(0, (d.len() - 1).min(40)) };
            d.truncate(n);
        }
        7 => {
            let p = pos(s, d);
            let n = s.usize(1, 8).min(d.len() - p);
            d.drain(p..p + n);
        }
        8 => {
            let p = pos(s, d);
            let n = s.usize(1, 16);
            let b = s.data(n);
            d.splice(p..p, b);
        }
        9 => {
            // copy a piece over another place
            let (p, q) = (pos(s, d), pos(s, d));
            let n = s.usize(1, 64).min(d.len() - p.max(q));
            let b = d[p..p + n].to_vec();
            d[q..q + n].copy_from_slice(&b);
        }
        10 => {
            // duplicate a piece
            let (p, q) = (pos(s, d), pos(s, d));
            let n = s.usize(1, 200).min(d.len() - p);
            let b = d[p..p + n].to_vec();
            d.splice(q..q, b);
        }
        _ => {
            // ASCII digit games
            let p = pos(s, d);
            if d[p].is_ascii_digit() {
                let n = s.usize(0, 12);
                let b: Vec<u8> = (0..n).map(|_| b'0' + s.below(10) as u8).collect();
                d.splice(p..p, b);
            } else {
                let p = pos(s, d);
                d[p] = s.byte();
            }
        }
    }
}

pub fn edits(s: &mut Src, d: &mut Vec<u8>, max: usize) {
    let n = match s.below(4) {
        0 => 1,
        1 => s.usize(1, 3.min(max)),
        _ => s.usize(1, max)
    };
    for _ in 0..n {
        edit(s, d);
    }
}
