//! Builders for files of every scheme, written straight into an image the way
//! CBM DOS and GEOS would (not through the crate under test).
use crate::ctx::Rng;
use crate::raw::*;

/// Take a random free data sector and mark it in use.
pub fn take(img: &mut Img, r: &mut Rng) -> Option<L> {
    let k = img.k;
    let bam = img.bam();
    for _ in 0..400 {
        let t = r.range(1, k.bam_tracks() as usize) as u8;
        if t == k.dir_track() || t == k.reserved() {
            continue;
        }
        let s = r.below(k.spt(t) as usize) as u8;
        if bam[t as usize].map >> s & 1 == 1 {
            img.mark((t, s), false);
            return Some((t, s));
        }
    }
    for l in k.all() {
        if k.in_bam(l) && l.0 != k.dir_track() && l.0 != k.reserved() && bam[l.0 as usize].map >> l.1 & 1 == 1 {
            img.mark(l, false);
            return Some(l);
        }
    }
    None
}

pub fn put_chain(img: &mut Img, r: &mut Rng, data: &[u8]) -> Option<Vec<L>> {
    let n = ((data.len() + 253) / 254).max(1);
    let mut locs = vec![];
    for _ in 0..n {
        locs.push(take(img, r)?);
    }
    for i in 0..n {
        let part = &data[(i * 254).min(data.len())..((i + 1) * 254).min(data.len())];
        let fill = r.byte();
        let s = img.sec_mut(locs[i]);
        for b in s.iter_mut() {
            *b = fill;
        }
        s[2..2 + part.len()].copy_from_slice(part);
        if i + 1 < n {
            s[0] = locs[i + 1].0;
            s[1] = locs[i + 1].1;
        } else {
            s[0] = 0;
            s[1] = part.len() as u8 + 1;
        }
    }
    Some(locs)
}

/// Store a raw entry (bytes 2..32 used) in a free slot; extends the directory.
pub fn add_entry(img: &mut Img, _r: &mut Rng, raw: &[u8; 32]) -> Option<(L, usize)> {
    let slot = img.slots().ok()?.into_iter().find(|e| e.scratched() && !e.border).map(|e| e.pos);
    let pos = match slot {
        Some(p) => p,
        None => {
            let dt = img.k.dir_track();
            let last = *img.dir_chain().locs.last()?;
            let free = (0..img.k.spt(dt)).map(|s| (dt, s)).find(|l| img.is_free(*l))?;
            img.mark(free, false);
            let s = img.sec_mut(free);
            for b in s.iter_mut() {
                *b = 0;
            }
            s[1] = 0xFF;
            let s = img.sec_mut(last);
            s[0] = free.0;
            s[1] = free.1;
            (free, 0)
        }
    };
    img.sec_mut(pos.0)[pos.1 + 2..pos.1 + 32].copy_from_slice(&raw[2..]);
    Some(pos)
}

pub fn entry(typ: u8, first: L, name: &[u8], extra: [u8; 9], blocks: usize) -> [u8; 32] {
    let mut e = [0u8; 32];
    e[2] = typ;
    e[3] = first.0;
    e[4] = first.1;
    for i in 0..16 {
        e[5 + i] = if i < name.len() { name[i] } else { 0xA0 };
    }
    e[0x15..0x1E].copy_from_slice(&extra);
    e[30] = blocks as u8;
    e[31] = (blocks >> 8) as u8;
    e
}

pub struct Made {
    pub pos: (L, usize),
    pub records: Vec<Vec<u8>>,
    pub locs: Vec<L>,
}

pub fn linear(img: &mut Img, r: &mut Rng, name: &[u8], typ: u8, data: &[u8]) -> Option<Made> {
    let locs = put_chain(img, r, data)?;
    let pos = add_entry(img, r, &entry(typ, locs[0], name, [0; 9], locs.len()))?;
    Some(Made { pos, records: vec![data.to_vec()], locs })
}

/// A relative file; `data` is a multiple of `rl` and at most 720 sectors.
pub fn rel(img: &mut Img, r: &mut Rng, name: &[u8], rl: u8, nrec: usize) -> Option<Made> {
    let data = r.bytes(rl as usize * nrec);
    let locs = put_chain(img, r, &data)?;
    let nss = ((locs.len() + 119) / 120).max(1);
    assert!(nss <= 6);
    let mut ss = vec![];
    for _ in 0..nss {
        ss.push(take(img, r)?);
    }
    for i in 0..nss {
        let part: Vec<L> = locs.iter().skip(i * 120).take(120).cloned().collect();
        let junk = r.bytes(256);
        let s = img.sec_mut(ss[i]);
        for b in s.iter_mut() {
            *b = 0;
        }
        if i + 1 < nss {
            s[0] = ss[i + 1].0;
            s[1] = ss[i + 1].1;
        } else {
            s[0] = 0;
            s[1] = (16 + part.len() * 2 - 1) as u8;
        }
        s[2] = i as u8;
        s[3] = rl;
        for (j, l) in ss.iter().enumerate() {
            s[4 + 2 * j] = l.0;
            s[5 + 2 * j] = l.1;
        }
        for (j, l) in part.iter().enumerate() {
            s[16 + 2 * j] = l.0;
            s[17 + 2 * j] = l.1;
        }
        for j in 16 + 2 * part.len()..256 {
            s[j] = junk[j];
        }
    }
    let mut x = [0u8; 9];
    x[0] = ss[0].0;
    x[1] = ss[0].1;
    x[2] = rl;
    let pos = add_entry(img, r, &entry(0x84, locs[0], name, x, locs.len() + nss))?;
    let mut all = locs.clone();
    all.extend(&ss);
    let records = data.chunks(rl as usize).map(|c| c.to_vec()).collect();
    Some(Made { pos, records, locs: all })
}

fn info_block(img: &mut Img, r: &mut Rng) -> Option<L> {
    let l = take(img, r)?;
    let b = r.bytes(254);
    let s = img.sec_mut(l);
    s[0] = 0;
    s[1] = 0xFF;
    s[2..].copy_from_slice(&b);
    Some(l)
}

pub fn gseq(img: &mut Img, r: &mut Rng, name: &[u8], data: &[u8], info: bool) -> Option<Made> {
    let locs = put_chain(img, r, data)?;
    let mut all = locs.clone();
    let il = if info { Some(info_block(img, r)?) } else { None };
    all.extend(il);
    let il = il.unwrap_or((0, 0));
    let gt = *r.pick(&[1u8, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14]);
    let x = [il.0, il.1, 0, gt, 88, 1 + r.below(12) as u8, 1 + r.below(28) as u8, r.below(24) as u8, r.below(60) as u8];
    let typ = *r.pick(&[0x81u8, 0x82, 0x83, 0xC3]);
    let pos = add_entry(img, r, &entry(typ, locs[0], name, x, all.len()))?;
    Some(Made { pos, records: vec![data.to_vec()], locs: all })
}

/// records: None = unavailable
pub fn vlir(img: &mut Img, r: &mut Rng, name: &[u8], recs: &[Option<Vec<u8>>], info: bool) -> Option<Made> {
    let mut idx = vec![];
    let mut all = vec![];
    for rec in recs {
        match rec {
            None => idx.push((0u8, 255u8)),
            Some(d) => {
                let c = put_chain(img, r, d)?;
                idx.push(c[0]);
                all.extend(c);
            }
        }
    }
    let il = take(img, r)?;
    all.push(il);
    let s = img.sec_mut(il);
    for b in s.iter_mut() {
        *b = 0;
    }
    s[1] = 0xFF;
    for (i, l) in idx.iter().enumerate() {
        s[2 + 2 * i] = l.0;
        s[3 + 2 * i] = l.1;
    }
    let inf = if info { Some(info_block(img, r)?) } else { None };
    all.extend(inf);
    let inf = inf.unwrap_or((0, 0));
    let x = [inf.0, inf.1, 1, r.range(0, 14) as u8, 90, 2, 3, 4, 5];
    let pos = add_entry(img, r, &entry(0x83, il, name, x, all.len()))?;
    let records = recs.iter().map(|x| x.clone().unwrap_or_default()).collect();
    Some(Made { pos, records, locs: all })
}

pub fn rand_name(r: &mut Rng) -> Vec<u8> {
    let n = if r.chance(1, 6) { 16 } else { r.range(1, 12) };
    let wild = r.chance(1, 4);
    let mut v: Vec<u8> = (0..n).map(|_| if wild { r.byte() } else { *r.pick(b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 ") }).collect();
    if *v.last().unwrap() == 0xA0 {
        *v.last_mut().unwrap() = b'Z';
    }
    v
}

pub fn rand_len(r: &mut Rng, max: usize) -> usize {
    let m = match r.below(5) {
        0 => *r.pick(&[0usize, 1, 2, 253, 254, 255, 507, 508, 509, 762]),
        1 => r.below(300),
        2 => r.below(3000),
        _ => r.below(max + 1),
    };
    m.min(max)
}

/// Some random file of any scheme.
pub fn any_file(img: &mut Img, r: &mut Rng, name: &[u8]) -> Option<Made> {
    match r.below(5) {
        0 => {
            let n = rand_len(r, 6000);
            let d = r.bytes(n);
            let typ = *r.pick(&[0x81u8, 0x82, 0x83, 0xC2, 0x02]);
            linear(img, r, name, typ, &d)
        }
        1 => {
            let rl = r.range(1, 254) as u8;
            let big = r.chance(1, 6);
            let n = if r.chance(1, 25) {
                // enough data sectors for all six side sectors
                r.range(601 * 254 / rl as usize, 640 * 254 / rl as usize)
            } else if big { r.range(1, (40000 / rl as usize).max(1)) } else { r.range(1, (5000 / rl as usize).max(1)) };
            rel(img, r, name, rl, n)
        }
        2 => {
            let n = rand_len(r, 4000);
            let d = r.bytes(n);
            let info = r.chance(4, 5);
            gseq(img, r, name, &d, info)
        }
        _ => {
            let n = if r.chance(1, 12) { 127 } else { r.below(9) };
            let recs: Vec<Option<Vec<u8>>> = (0..n)
                .map(|_| {
                    if r.chance(1, 4) {
                        None
                    } else {
                        let m = if n > 20 { 300 } else { 1500 };
                        let l = rand_len(r, m);
                        Some(r.bytes(l))
                    }
                })
                .collect();
            let info = r.chance(4, 5);
            vlir(img, r, name, &recs, info)
        }
    }
}
