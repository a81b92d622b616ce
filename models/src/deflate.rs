//! Reference inflate (bit-at-a-time, canonical Huffman counting) and a generator of arbitrary legal
//! deflate streams.
use pbt::{Rng, Src};

pub const LEN_BASE: [u16; 29] = [3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258];
pub const LEN_EXTRA: [u8; 29] = [0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0];
pub const DIST_BASE: [u16; 30] = [
    1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577
];
pub const DIST_EXTRA: [u8; 30] = [0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13];
const ORDER: [usize; 19] = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15];

// ---------------------------------------------------------------- reference inflate
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum InfErr {
    Eof,
    BadBlockType,
    BadStoredLen,
    BadCodes,
    BadRepeat,
    BadSymbol,
    BadDistance,
    TooLong
}
struct Bits<'a> {
    d: &'a [u8],
    pos: usize // in bits
}
impl Bits<'_> {
    fn bit(&mut self) -> Result<u32, InfErr> {
        let b = *self.d.get(self.pos >> 3).ok_or(InfErr::Eof)?;
        let v = (b >> (self.pos & 7)) & 1;
        self.pos += 1;
        Ok(v as u32)
    }
    fn bits(&mut self, n: u32) -> Result<u32, InfErr> {
        let mut v = 0;
        for i in 0..n {
            v |= self.bit()? << i;
        }
        Ok(v)
    }
}
struct Huff {
    count: [u32; 16],
    syms: Vec<u16>,
    /// Kraft sum: 0 complete, >0 left over, <0 over-subscribed
    left: i64,
    used: usize
}
impl Huff {
    fn new(lens: &[u8]) -> Huff {
        let mut count = [0u32; 16];
        for l in lens {
            count[*l as usize] += 1;
        }
        let used = lens.len() - count[0] as usize;
        count[0] = 0;
        let mut left = 1i64;
        for c in &count[1..] {
            left = left * 2 - *c as i64;
        }
        let mut syms: Vec<u16> = (0..lens.len() as u16).filter(|s| lens[*s as usize] != 0).collect();
        syms.sort_by_key(|s| (lens[*s as usize], *s));
        Huff { count, syms, left, used }
    }
    fn sym(&self, b: &mut Bits) -> Result<usize, InfErr> {
        let (mut code, mut first, mut index) = (0i64, 0i64, 0i64);
        for len in 1..16 {
            code |= b.bit()? as i64;
            if (self.left > 0 && code == 1 && len == 1) || self.used == 0 {
                // the unassigned half of an incomplete code
                return Err(InfErr::BadSymbol);
            }
            let c = self.count[len] as i64;
            if code - first < c {
                return Ok(self.syms[(index + code - first) as usize] as usize);
            }
            index += c;
            first = (first + c) << 1;
            code <<= 1;
        }
        Err(InfErr::BadSymbol)
    }
}

pub struct Inflated {
    pub out: Vec<u8>,
    /// bytes of input consumed (when Ok)
    pub used: usize,
    pub err: Option<InfErr>,
    /// an incomplete code was used in a way the RFC leaves open
    pub odd: bool
}

/// Decode a raw deflate stream; on error `out` holds everything decoded so far.
pub fn inflate(d: &[u8], max: usize) -> Inflated {
    let mut b = Bits { d, pos: 0 };
    let mut r = Inflated { out: vec![], used: 0, err: None, odd: false };
    if let Err(e) = inflate_inner(&mut b, &mut r, max) {
        r.err = Some(e);
    }
    r.used = b.pos.div_ceil(8);
    r
}

fn inflate_inner(b: &mut Bits, r: &mut Inflated, max: usize) -> Result<(), InfErr> {
    loop {
        let last = b.bits(1)?;
        match b.bits(2)? {
            0 => {
                b.pos = b.pos.div_ceil(8) * 8;
                let len = b.bits(16)?;
                let nlen = b.bits(16)?;
                if len != !nlen & 0xffff {
                    return Err(InfErr::BadStoredLen);
                }
                for _ in 0..len {
                    let v = b.bits(8)? as u8;
                    r.out.push(v);
                }
                if r.out.len() > max {
                    return Err(InfErr::TooLong);
                }
            }
            3 => return Err(InfErr::BadBlockType),
            t => {
                let (lit, dist) = if t == 1 {
                    let mut l = [8u8; 288];
                    l[144..256].fill(9);
                    l[256..280].fill(7);
                    (Huff::new(&l), Huff::new(&[5u8; 32]))
                } else {
                    let nlit = b.bits(5)? as usize + 257;
                    let ndist = b.bits(5)? as usize + 1;
                    let ncl = b.bits(4)? as usize + 4;
                    let mut cl = [0u8; 19];
                    for o in ORDER.iter().take(ncl) {
                        cl[*o] = b.bits(3)? as u8;
                    }
                    let clh = Huff::new(&cl);
                    if clh.left < 0 || clh.used == 0 {
                        return Err(InfErr::BadCodes);
                    }
                    if clh.left > 0 {
                        r.odd = true;
                    }
                    let mut lens = vec![];
                    while lens.len() < nlit + ndist {
                        match clh.sym(b)? {
                            s @ 0..=15 => lens.push(s as u8),
                            s => {
                                let (v, n) = match s {
                                    16 => (*lens.last().ok_or(InfErr::BadRepeat)?, 3 + b.bits(2)?),
                                    17 => (0, 3 + b.bits(3)?),
                                    _ => (0, 11 + b.bits(7)?)
                                };
                                for _ in 0..n {
                                    lens.push(v);
                                }
                            }
                        }
                    }
                    if lens.len() > nlit + ndist {
                        return Err(InfErr::BadRepeat);
                    }
                    let lit = Huff::new(&lens[..nlit]);
                    let dist = Huff::new(&lens[nlit..]);
                    if lit.left < 0 || dist.left < 0 || lens[256] == 0 {
                        return Err(InfErr::BadCodes);
                    }
                    if (lit.left > 0 && !(lit.used == 1 && lit.count[1] == 1)) || (dist.left > 0 && !(dist.used == 1 && dist.count[1] == 1) && dist.used != 0) {
                        return Err(InfErr::BadCodes);
                    }
                    if lit.left > 0 {
                        r.odd = true;
                    }
                    (lit, dist)
                };
                loop {
                    let s = lit.sym(b)?;
                    if s < 256 {
                        r.out.push(s as u8);
                    } else if s == 256 {
                        break;
                    } else {
                        if s > 285 {
                            return Err(InfErr::BadSymbol);
                        }
                        let l = LEN_BASE[s - 257] as usize + b.bits(LEN_EXTRA[s - 257] as u32)? as usize;
                        let ds = dist.sym(b)?;
                        if ds > 29 {
                            return Err(InfErr::BadSymbol);
                        }
                        let dd = DIST_BASE[ds] as usize + b.bits(DIST_EXTRA[ds] as u32)? as usize;
                        if dd > r.out.len() {
                            return Err(InfErr::BadDistance);
                        }
                        for _ in 0..l {
                            let v = r.out[r.out.len() - dd];
                            r.out.push(v);
                        }
                    }
                    if r.out.len() > max {
                        return Err(InfErr::TooLong);
                    }
                }
            }
        }
        if last == 1 {
            return Ok(());
        }
    }
}

// ---------------------------------------------------------------- bit writer
#[derive(Default)]
pub struct BitW {
    pub out: Vec<u8>,
    acc: u64,
    n: u32
}
impl BitW {
    pub fn put(&mut self, v: u64, n: u32) {
        for i in 0..n {
            self.acc |= ((v >> i) & 1) << self.n;
            self.n += 1;
            if self.n == 8 {
                self.out.push(self.acc as u8);
                self.acc = 0;
                self.n = 0;
            }
        }
    }
    fn code(&mut self, c: (u32, u8)) {
        for i in (0..c.1).rev() {
            self.put((c.0 >> i) as u64 & 1, 1);
        }
    }
    pub fn align(&mut self, fill: u8) {
        if self.n > 0 {
            self.put(fill as u64, 8 - self.n);
        }
    }
}

/// canonical codes
pub fn canonical(lens: &[u8]) -> Vec<(u32, u8)> {
    let mut out = vec![(0, 0); lens.len()];
    let mut code = 0u32;
    for l in 1..=15u8 {
        for (i, x) in lens.iter().enumerate() {
            if *x == l {
                out[i] = (code, l);
                code += 1;
            }
        }
        code <<= 1;
    }
    out
}

/// Lengths of a random complete prefix code over the symbols marked used.  `deep` makes lopsided codes.
fn random_lens(r: &mut Rng, used: &[usize], n: usize, maxlen: u8, style: u64) -> Vec<u8> {
    let mut lens = vec![0u8; n];
    if used.is_empty() {
        return lens;
    }
    if used.len() == 1 {
        lens[used[0]] = 1;
        return lens;
    }
    let mut leaves = vec![0u8];
    while leaves.len() < used.len() {
        let cand: Vec<usize> = (0..leaves.len()).filter(|i| leaves[*i] < maxlen).collect();
        let i = match style {
            // balanced
            0 => *cand.iter().min_by_key(|i| leaves[**i]).unwrap(),
            // deep: mostly the deepest leaf that can still be split
            1 => {
                if r.below(4) != 0 {
                    *cand.iter().max_by_key(|i| leaves[**i]).unwrap()
                } else {
                    cand[r.below(cand.len() as u64) as usize]
                }
            }
            _ => cand[r.below(cand.len() as u64) as usize]
        };
        leaves[i] += 1;
        let l = leaves[i];
        leaves.push(l);
        // never run out of room: the remaining capacity must cover what is still needed
    }
    // shuffle
    for i in (1..leaves.len()).rev() {
        let j = r.below(i as u64 + 1) as usize;
        leaves.swap(i, j);
    }
    for (s, l) in used.iter().zip(leaves) {
        lens[*s] = l;
    }
    lens
}

fn len_sym(l: usize) -> usize {
    if l == 258 {
        return 28;
    }
    (0..28).rev().find(|i| LEN_BASE[*i] as usize <= l).unwrap()
}
fn dist_sym(d: usize) -> usize {
    (0..30).rev().find(|i| DIST_BASE[*i] as usize <= d).unwrap()
}

enum Tok {
    Lit(u8),
    /// length, distance, length symbol (258 may be spelled 284+31)
    Match(usize, usize, usize)
}

pub struct Gen {
    pub stream: Vec<u8>,
    pub data: Vec<u8>,
    pub desc: String,
    pub matches: usize,
    pub dynamic: usize,
    pub stored: usize,
    pub subtables: bool
}

/// An arbitrary legal deflate stream of about `size` output bytes.
pub fn generate(s: &mut Src, size: usize) -> Gen {
    let mut w = BitW::default();
    let mut g = Gen { stream: vec![], data: vec![], desc: String::new(), matches: 0, dynamic: 0, stored: 0, subtables: false };
    let nblocks = s.usize(1, 6);
    for bi in 0..nblocks {
        let last = bi + 1 == nblocks;
        w.put(last as u64, 1);
        let ty = s.below(4);
        let n = match s.below(6) {
            0 => 0,
            1 => s.usize(1, 20),
            2 => s.usize(1, 400),
            _ => s.usize(0, size / nblocks + 1)
        };
        if ty == 1 {
            // stored
            w.put(0, 2);
            w.align(0);
            let d = s.data(n.min(65535));
            w.out.extend((d.len() as u16).to_le_bytes());
            w.out.extend((!(d.len() as u16)).to_le_bytes());
            w.out.extend(&d);
            g.data.extend(&d);
            g.stored += 1;
            g.desc.push_str(&format!("stored({}) ", d.len()));
            continue;
        }
        // tokens
        let alphabet = s.pick(&[256u64, 1, 2, 5, 20, 100]);
        let mprob = s.pick(&[0u64, 10, 40, 80, 100]); // percent
        let dist_kind = s.below(5);
        let len_kind = s.below(4);
        let long258 = s.chance(1, 10);
        let mut r = s.rng();
        let mut toks = vec![];
        let start = g.data.len();
        while g.data.len() - start < n {
            if !g.data.is_empty() && r.below(100) < mprob {
                let max = g.data.len().min(32768) as u64;
                let d = match dist_kind {
                    0 => 1 + r.below(max.min(4)),
                    1 => 1 + r.below(max.min(40)),
                    2 => 1 + r.below(max),
                    3 => max - r.below(max.min(5)),
                    _ => {
                        // close to a power of two
                        let k = 1u64 << r.below(16);
                        (k + r.below(3)).saturating_sub(1).clamp(1, max)
                    }
                } as usize;
                let l = match len_kind {
                    0 => 3 + r.below(8),
                    1 => 3 + r.below(256),
                    2 => 258,
                    _ => 3 + r.below(40)
                } as usize;
                let ls = if l == 258 && long258 && r.below(2) == 0 { 27 } else { len_sym(l) };
                for _ in 0..l {
                    let v = g.data[g.data.len() - d];
                    g.data.push(v);
                }
                toks.push(Tok::Match(l, d, ls));
                g.matches += 1;
            } else {
                let v = (r.below(alphabet) * 37) as u8;
                g.data.push(v);
                toks.push(Tok::Lit(v));
            }
        }
        let (lit, dist) = if ty == 0 {
            w.put(1, 2);
            g.desc.push_str(&format!("fixed({} tokens) ", toks.len()));
            let mut l = [8u8; 288];
            l[144..256].fill(9);
            l[256..280].fill(7);
            (canonical(&l), canonical(&[5u8; 32]))
        } else {
            w.put(2, 2);
            g.dynamic += 1;
            // used symbols
            let mut lu = vec![false; 286];
            let mut du = vec![false; 30];
            lu[256] = true;
            for t in &toks {
                match t {
                    Tok::Lit(v) => lu[*v as usize] = true,
                    Tok::Match(_, d, ls) => {
                        lu[257 + ls] = true;
                        du[dist_sym(*d)] = true;
                    }
                }
            }
            // unused symbols may have codes too
            let extra_l = s.pick(&[0u64, 1, 30, 285]);
            let extra_d = s.pick(&[0u64, 1, 8, 30]);
            for _ in 0..extra_l {
                let k = r.below(286) as usize;
                lu[k] = true;
            }
            for _ in 0..extra_d {
                let k = r.below(30) as usize;
                du[k] = true;
            }
            let lused: Vec<usize> = (0..286).filter(|i| lu[*i]).collect();
            let dused: Vec<usize> = (0..30).filter(|i| du[*i]).collect();
            // a literal code with a single symbol is a corner the RFC leaves open: give it a second one
            let lused = if lused.len() == 1 { vec![0, 256] } else { lused };
            let style = s.below(3);
            let llen = random_lens(&mut r, &lused, 286, 15, style);
            let dstyle = s.below(3);
            let dlen = random_lens(&mut r, &dused, 30, 15, dstyle);
            if llen.iter().any(|l| *l > 11) || dlen.iter().any(|l| *l > 8) {
                g.subtables = true;
            }
            let minl = (0..286).rev().find(|i| llen[*i] != 0).unwrap() + 1;
            let mind = (0..30).rev().find(|i| dlen[*i] != 0).map_or(1, |v| v + 1);
            let hlit = if s.bool() { minl.max(257) } else { s.usize(minl.max(257), 286) };
            let hdist = if s.bool() { mind } else { s.usize(mind, 30) };
            let all: Vec<u8> = llen[..hlit].iter().chain(&dlen[..hdist]).copied().collect();
            // run-length code them, with arbitrary choices
            let rle = s.below(4); // 0 never, 1 greedy, 2 random, 3 greedy
            let mut seq: Vec<(usize, u64, u32)> = vec![];
            let mut i = 0;
            while i < all.len() {
                let mut run = 1;
                while i + run < all.len() && all[i + run] == all[i] {
                    run += 1;
                }
                let want = match rle {
                    0 => false,
                    2 => r.below(2) == 0,
                    _ => true
                };
                if want && all[i] == 0 && run >= 3 {
                    let k = if rle == 2 { 3 + r.below(run as u64 - 2) as usize } else { run };
                    if k >= 11 {
                        let k = k.min(138);
                        seq.push((18, k as u64 - 11, 7));
                        i += k;
                    } else {
                        seq.push((17, k as u64 - 3, 3));
                        i += k;
                    }
                } else if want && i > 0 && all[i - 1] == all[i] && run >= 3 {
                    let k = run.min(6);
                    let k = if rle == 2 { 3 + r.below(k as u64 - 2) as usize } else { k };
                    seq.push((16, k as u64 - 3, 2));
                    i += k;
                } else {
                    seq.push((all[i] as usize, 0, 0));
                    i += 1;
                }
            }
            let mut cu = [false; 19];
            for q in &seq {
                cu[q.0] = true;
            }
            let extra_c = s.pick(&[0u64, 0, 3, 19]);
            for _ in 0..extra_c {
                let k = r.below(19) as usize;
                cu[k] = true;
            }
            let mut cused: Vec<usize> = (0..19).filter(|i| cu[*i]).collect();
            if cused.len() == 1 {
                cused.push(if cused[0] == 0 { 1 } else { 0 });
                cused.sort();
            }
            let cstyle = s.below(3);
            let clen = random_lens(&mut r, &cused, 19, 7, cstyle);
            let minc = (0..19).rev().find(|i| clen[ORDER[*i]] != 0).unwrap() + 1;
            let hclen = if s.bool() { minc.max(4) } else { 19 };
            w.put(hlit as u64 - 257, 5);
            w.put(hdist as u64 - 1, 5);
            w.put(hclen as u64 - 4, 4);
            for o in ORDER.iter().take(hclen) {
                w.put(clen[*o] as u64, 3);
            }
            let cc = canonical(&clen);
            for (sym, ev, en) in seq {
                w.code(cc[sym]);
                w.put(ev, en);
            }
            g.desc.push_str(&format!("dynamic({} tokens, {} lit codes max {}, {} dist codes max {}) ", toks.len(), lused.len(), llen.iter().max().unwrap(), dused.len(), dlen.iter().max().unwrap()));
            (canonical(&llen), canonical(&dlen))
        };
        for t in &toks {
            match t {
                Tok::Lit(v) => w.code(lit[*v as usize]),
                Tok::Match(l, d, ls) => {
                    w.code(lit[257 + ls]);
                    w.put((*l - LEN_BASE[*ls] as usize) as u64, LEN_EXTRA[*ls] as u32);
                    let ds = dist_sym(*d);
                    w.code(dist[ds]);
                    w.put((*d - DIST_BASE[ds] as usize) as u64, DIST_EXTRA[ds] as u32);
                }
            }
        }
        w.code(lit[256]);
    }
    let fill = if s.bool() { 0xff } else { 0 };
    w.align(fill);
    g.stream = w.out;
    g
}

/// stored/fixed/dynamic encoding of the given data (for embedding in other formats)
pub fn deflate_of(s: &mut Src, data: &[u8]) -> Vec<u8> {
    match s.below(3) {
        0 => stored(s, data),
        _ => {
            // fixed code with greedy 3-byte hash matches
            let mut w = BitW::default();
            w.put(1, 1);
            w.put(1, 2);
            let mut l = [8u8; 288];
            l[144..256].fill(9);
            l[256..280].fill(7);
            let lit = canonical(&l);
            let dist = canonical(&[5u8; 32]);
            let mut head = std::collections::HashMap::new();
            let mut i = 0;
            while i < data.len() {
                let mut best = (0, 0);
                if i + 3 <= data.len() {
                    let key = [data[i], data[i + 1], data[i + 2]];
                    if let Some(p) = head.get(&key).copied() {
                        let d: usize = i - p;
                        if d <= 32768 {
                            let mut k = 0;
                            while k < 258 && i + k < data.len() && data[p + k] == data[i + k] {
                                k += 1;
                            }
                            best = (k, d);
                        }
                    }
                    head.insert(key, i);
                }
                if best.0 >= 3 {
                    let ls = len_sym(best.0);
                    w.code(lit[257 + ls]);
                    w.put((best.0 - LEN_BASE[ls] as usize) as u64, LEN_EXTRA[ls] as u32);
                    let ds = dist_sym(best.1);
                    w.code(dist[ds]);
                    w.put((best.1 - DIST_BASE[ds] as usize) as u64, DIST_EXTRA[ds] as u32);
                    i += best.0;
                } else {
                    w.code(lit[data[i] as usize]);
                    i += 1;
                }
            }
            w.code(lit[256]);
            w.align(0);
            w.out
        }
    }
}
pub fn stored(s: &mut Src, data: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let chunk = if s.bool() { 65535 } else { s.usize(1, 65535) };
    let mut chunks: Vec<&[u8]> = data.chunks(chunk).collect();
    if chunks.is_empty() {
        chunks.push(&[]);
    }
    let n = chunks.len();
    for (i, c) in chunks.into_iter().enumerate() {
        out.push((i + 1 == n) as u8);
        out.extend((c.len() as u16).to_le_bytes());
        out.extend((!(c.len() as u16)).to_le_bytes());
        out.extend(c);
    }
    out
}
pub fn adler32(d: &[u8]) -> u32 {
    let (mut a, mut b) = (1u32, 0u32);
    for c in d.chunks(5000) {
        for x in c {
            a += *x as u32;
            b += a;
        }
        a %= 65521;
        b %= 65521;
    }
    b << 16 | a
}
pub fn crc32(d: &[u8]) -> u32 {
    static T: std::sync::OnceLock<[u32; 256]> = std::sync::OnceLock::new();
    let t = T.get_or_init(|| {
        let mut t = [0u32; 256];
        for (i, e) in t.iter_mut().enumerate() {
            let mut c = i as u32;
            for _ in 0..8 {
                c = if c & 1 != 0 { 0xEDB88320 ^ (c >> 1) } else { c >> 1 };
            }
            *e = c;
        }
        t
    });
    let mut c = !0u32;
    for x in d {
        c = t[((c ^ *x as u32) & 255) as usize] ^ (c >> 8);
    }
    !c
}
pub fn zlib_wrap(deflate: &[u8], data: &[u8]) -> Vec<u8> {
    let mut o = vec![0x78, 0x9c];
    o.extend(deflate);
    o.extend(adler32(data).to_be_bytes());
    o
}
/// gzip with optional header fields
pub fn gzip_wrap(s: &mut Src, deflate: &[u8], data: &[u8]) -> Vec<u8> {
    let flags = s.below(32) as u8;
    let mut o = vec![0x1f, 0x8b, 8, flags];
    o.extend((s.below(1 << 32) as u32).to_le_bytes());
    o.push(s.pick(&[0, 2, 4]));
    o.push(s.byte());
    if flags & 4 != 0 {
        let n = s.usize(0, 300);
        let d = s.data(n);
        o.extend((n as u16).to_le_bytes());
        o.extend(d);
    }
    for bit in [8, 16] {
        if flags & bit != 0 {
            let n = s.usize(0, 60);
            for b in s.data(n) {
                o.push(b.max(1));
            }
            o.push(0);
        }
    }
    if flags & 2 != 0 {
        let c = crc32(&o) as u16;
        o.extend(c.to_le_bytes());
    }
    o.extend(deflate);
    o.extend(crc32(data).to_le_bytes());
    o.extend((data.len() as u32).to_le_bytes());
    o
}
