use models::jpeg::{self as mj, Enc, Jpeg};
use pbt::Src;

pub const SAMP3: &[[(usize, usize); 3]] = &[
    [(1, 1), (1, 1), (1, 1)],
    [(2, 1), (1, 1), (1, 1)],
    [(2, 2), (1, 1), (1, 1)],
    [(1, 2), (1, 1), (1, 1)],
    [(4, 1), (1, 1), (1, 1)]
];

/// a frame with one of the usual sampling layouts, filled with coefficients
pub fn frame(s: &mut Src, max: u64) -> Jpeg {
    let w = dim(s, max);
    let h = dim(s, max);
    let n = s.pick(&[1, 3, 3, 3, 4]);
    let samp: Vec<(usize, usize)> = match n {
        1 => vec![s.pick(&[(1, 1), (1, 1), (2, 2), (2, 1), (1, 2)])],
        3 => SAMP3[s.pick(&[0usize, 1, 2, 3, 0, 1, 2, 3, 4])].to_vec(),
        _ => s.pick(&[[(1, 1); 4], [(2, 2), (1, 1), (1, 1), (2, 2)], [(2, 1), (1, 1), (1, 1), (2, 1)], [(1, 2), (1, 1), (1, 1), (1, 2)]]).to_vec()
    };
    let mut j = mj::frame(w, h, &samp);
    mj::fill(s, &mut j);
    j.adobe = match n {
        1 => None,
        3 => s.pick(&[None, None, Some(1), Some(0)]),
        _ => s.pick(&[None, Some(0), Some(2)])
    };
    j.jfif = j.adobe.is_none() && s.bool();
    if n == 3 && j.adobe.is_none() && !j.jfif && s.chance(1, 8) {
        // identifiers that mean RGB
        for (c, id) in j.comps.iter_mut().zip(*b"RGB") {
            c.id = id;
        }
        return j;
    }
    if s.chance(1, 6) {
        // component identifiers are free
        let base = s.below(200) as u8;
        let n = j.comps.len();
        for (i, c) in j.comps.iter_mut().enumerate() {
            c.id = base + ((n - i) * 7) as u8;
        }
    }
    j
}

/// unusual but legal sampling factors
pub fn odd_frame(s: &mut Src, max: u64) -> Jpeg {
    let (w, h) = (dim(s, max), dim(s, max));
    let n = s.pick(&[1, 3, 3, 3, 4]);
    let mut samp;
    loop {
        samp = (0..n).map(|_| (s.pick(&[1usize, 2, 4]), s.pick(&[1usize, 2, 3, 4]))).collect::<Vec<_>>();
        let (hm, vm) = (samp.iter().map(|x| x.0).max().unwrap(), samp.iter().map(|x| x.1).max().unwrap());
        if samp.iter().all(|x| hm % x.0 == 0 && vm % x.1 == 0) && samp.iter().map(|x| x.0 * x.1).sum::<usize>() <= 10 {
            break;
        }
    }
    let mut j = mj::frame(w, h, &samp);
    mj::fill(s, &mut j);
    j.adobe = match n {
        1 => None,
        3 => s.pick(&[None, None, Some(1), Some(0)]),
        _ => s.pick(&[None, Some(0), Some(2)])
    };
    j
}

pub fn dim(s: &mut Src, max: u64) -> usize {
    match s.below(4) {
        0 => 1 + s.below(17.min(max)) as usize,
        1 => s.pick(&[7usize, 8, 9, 15, 16, 17, 31, 32, 33, 48, 64, 65]).min(max as usize),
        _ => 1 + s.below(max) as usize
    }
}

pub fn base_enc(j: &Jpeg) -> Enc {
    Enc { sof: 0xC0, scans: mj::baseline_scans(j), restart: 0, shared: true, slots: 2, fill: false, dqt16: false, extra: vec![], dri_late: false, dht_early: false, dqt_late: false, eoi: true }
}

pub fn any_enc(s: &mut Src, j: &Jpeg) -> Enc {
    let mut e = base_enc(j);
    match s.below(4) {
        0 | 1 => {
            e.sof = 0xC2;
            e.scans = mj::progressive_scans(s, j);
        }
        2 => e.scans = mj::sequential_scans(s, j),
        _ => {}
    }
    if e.sof == 0xC0 && s.chance(1, 4) {
        e.sof = 0xC1;
    }
    if s.chance(1, 3) {
        e.restart = s.pick(&[1usize, 2, 3, 5, 8, 100]);
        e.dri_late = s.bool();
    }
    e.shared = s.bool();
    e.dht_early = s.chance(1, 4);
    e.dqt_late = s.chance(1, 4);
    e.slots = 1 + s.below(if e.sof == 0xC0 { 2 } else { 4 }) as usize;
    e.fill = s.chance(1, 4);
    e.dqt16 = e.sof != 0xC0 && s.chance(1, 6);
    for _ in 0..s.below(3) {
        let at = s.below(4) as usize;
        let body = s.data(40);
        // a foreign APP14 does not start with "Adobe" (random data of a few bytes never does)
        let m = s.pick(&[0xFEu8, 0xE3, 0xEC, 0xEF, 0xEE]);
        e.extra.push((at, mj::segment(m, &body)));
    }
    if j.comps.len() == 1 && s.chance(1, 10) {
        // says nothing about a single component
        let mut b = b"Adobe".to_vec();
        b.extend([0, 100, 0, 0, 0, 0, s.below(3) as u8]);
        let at = s.below(4) as usize;
        e.extra.push((at, mj::segment(0xEE, &b)));
    }
    e
}

pub fn describe(j: &Jpeg, e: &Enc) -> String {
    format!(
        "{}x{} samp {:?} ids {:?} adobe {:?} sof {:x} scans {} restart {} shared {} slots {} fill {} early dht {} late dqt {} dqt16 {} extra {:?}",
        j.w,
        j.h,
        j.comps.iter().map(|c| (c.h, c.v)).collect::<Vec<_>>(),
        j.comps.iter().map(|c| c.id).collect::<Vec<_>>(),
        j.adobe,
        e.sof,
        e.scans.iter().take(12).map(|x| format!("{:?}:{}-{}:{}{}", x.comps, x.ss, x.se, x.ah, x.al)).collect::<Vec<_>>().join(" "),
        e.restart,
        e.shared,
        e.slots,
        e.fill,
        e.dht_early,
        e.dqt_late,
        e.dqt16,
        e.extra.iter().map(|x| (x.0, x.1.len())).collect::<Vec<_>>()
    )
}
