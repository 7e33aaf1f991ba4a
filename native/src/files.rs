//! P12 robustness, P13 read-only, P15 validation, P16 relative files, P17 GEOS
//! files, P22 chains.
use crate::build;
use crate::ck;
use crate::codec::cmp;
use crate::ctx::*;
use crate::hist::read_chunks;
use crate::raw::*;
use cbm::disk::directory::{DirectoryEntry, FileType};
use cbm::disk::file::{File, FileOps, Scheme};
use cbm::disk::{Disk, DiskError, Id, ValidationError};
use cbm::Petscii;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};

fn ps(b: &[u8]) -> Petscii {
    Petscii::from_bytes(b)
}

/// A formatted image with files of every scheme.
pub fn populated(r: &mut Rng, k: Kind, err: bool, geos: bool, nfiles: usize) -> Img {
    let mut img = Img::blank(k, err);
    img.format(b"POPULATED", *b"PP");
    if geos {
        img.make_geos((20, 5));
    }
    for i in 0..nfiles {
        let mut name = build::rand_name(r);
        name.truncate(13);
        name.push(b'a' + (i % 26) as u8);
        let keep = img.clone();
        if build::any_file(&mut img, r, &name).is_none() {
            img = keep;
        }
    }
    img
}

fn corrupt(img: &mut Img, r: &mut Rng) {
    let k = img.k;
    let occupied: Vec<L> = img.allocated().into_iter().collect();
    let ents = img.files().unwrap_or_default();
    let n = *r.pick(&[1usize, 1, 2, 3, 5, 10, 40]);
    for _ in 0..n {
        match r.below(10) {
            0 | 1 => {
                // a link
                let l = *r.pick(&occupied);
                let (a, b) = match r.below(4) {
                    0 => (r.byte(), r.byte()),
                    1 => *r.pick(&occupied),
                    2 => (0, r.byte()),
                    _ => *r.pick(&k.all()),
                };
                let s = img.sec_mut(l);
                s[0] = a;
                s[1] = b;
            }
            2 => {
                // a pair somewhere in a file sector (index block, side sector)
                let l = *r.pick(&occupied);
                let o = 2 * r.below(128);
                let v = if r.chance(1, 2) { *r.pick(&k.all()) } else { (r.byte(), r.byte()) };
                let s = img.sec_mut(l);
                s[o] = v.0;
                s[o + 1] = v.1;
            }
            3 | 4 if !ents.is_empty() => {
                // a byte of a directory entry
                let e = r.pick(&ents).pos;
                let o = r.range(2, 31);
                let v = if r.chance(1, 2) { r.byte() } else { *r.pick(&[0u8, 1, 4, 0x84, 0x81, 0xFF, 35, 40, 41, 70, 71, 80, 81, 18, 53]) };
                img.sec_mut(e.0)[e.1 + o] = v;
                if r.chance(1, 8) {
                    img.sec_mut(e.0)[e.1 + 30..e.1 + 32].copy_from_slice(&[0xFF, 0xFF]);
                }
            }
            5 => {
                // directory sectors
                let l = img.dir_chain().locs.last().cloned().unwrap_or(k.first_dir());
                let v = (r.byte(), r.byte());
                let z = r.chance(1, 2);
                let s = img.sec_mut(l);
                s[0] = if z { 0 } else { v.0 };
                s[1] = v.1;
            }
            6 => {
                // the free-space map
                let mut bam = img.bam();
                for _ in 0..r.range(1, 8) {
                    let t = r.range(1, k.bam_tracks() as usize);
                    match r.below(3) {
                        0 => bam[t].count = r.byte(),
                        1 => bam[t].map = r.next(),
                        _ => bam[t].map = 0,
                    }
                }
                img.set_bam(&bam);
            }
            7 => {
                // header
                let o = r.below(256);
                let v = r.byte();
                img.sec_mut(k.header())[o] = v;
            }
            8 => {
                let v = (r.byte(), r.byte());
                let good = r.chance(1, 2);
                let l = *r.pick(&k.all());
                let h = img.sec_mut(k.header());
                h[0xAD..0xAD + 16].copy_from_slice(b"GEOS format V1.0");
                h[0xAB] = if good { l.0 } else { v.0 };
                h[0xAC] = if good { l.1 } else { v.1 };
            }
            _ => {
                let l = *r.pick(&occupied);
                let b = r.bytes(256);
                img.sec_mut(l).copy_from_slice(&b);
            }
        }
    }
}

struct Null;
impl Write for Null {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Everything that only reads.
fn read_everything(c: &mut Ctx, r: &mut Rng, d: &mut (dyn Disk + 'static), deep: bool) -> R {
    let _ = format!("{} {:?}", &*d, &*d);
    let _ = d.name();
    let _ = d.blocks_free();
    let _ = d.bam().map(|b| {
        let b = b.borrow();
        let _ = b.allocated_sectors();
        let _ = b.free_sectors();
        let _ = format!("{:?}", *b);
    });
    let mut entries: Vec<DirectoryEntry> = vec![];
    let mut n = 0;
    for e in d.iter() {
        n += 1;
        if n > 60000 {
            return Err("the directory listing does not end".into());
        }
        if let Ok(e) = e {
            let _ = format!("{} {:#} {:?}", e, e, e);
            entries.push(e);
        }
    }
    let _ = d.validate();
    c.tick();
    r.shuffle(&mut entries);
    for e in entries.iter().take(if deep { 24 } else { 8 }) {
        c.tick();
        let _ = d.find_directory_entry(&e.filename);
        let f = match d.open_file_from_entry(e) {
            Ok(f) => f,
            Err(_) => continue,
        };
        c.stat("files opened", 1);
        let _ = f.occupied_sectors();
        let _ = f.details(&mut Null, 0);
        let _ = f.details(&mut Null, 2);
        let rc = f.record_count().unwrap_or(0);
        let step = (rc / 60).max(1);
        let mut i = 0;
        while i < rc {
            let _ = f.record(i);
            i += if r.chance(1, 3) { 1 } else { step };
            c.tick();
        }
        for x in [rc, rc + 1, usize::MAX, usize::MAX / 2] {
            let _ = f.record(x);
        }
        if rc < 300 {
            let _ = f.dump(&mut Null);
        }
        if let Ok(mut rd) = f.reader() {
            let _ = read_chunks(&mut *rd, r);
        }
        match &f {
            File::GEOSSequential(g) | File::GEOSVLIR(g) => {
                let _ = f.geos_info().map(|i| i.map(|i| i.to_string()));
                if let Ok(mut rd) = g.reader() {
                    let mut b = vec![0u8; *r.pick(&[1usize, 100, 254, 4096])];
                    let mut n = 0usize;
                    while let Ok(x) = rd.read(&mut b) {
                        n += x;
                        if x == 0 {
                            break;
                        }
                        if n > 127 * 255 * 256 + 1000 {
                            return Err("the Convert stream does not end".into());
                        }
                    }
                }
            }
            _ => {
                let _ = f.geos_info();
            }
        }
    }
    Ok(())
}

fn modify_everything(c: &mut Ctx, r: &mut Rng, d: &mut Box<dyn Disk>) -> R {
    for _ in 0..r.range(4, 14) {
        c.tick();
        let entries: Vec<DirectoryEntry> = d.iter().take(3000).filter_map(|e| e.ok()).collect();
        match r.below(8) {
            0 | 1 => {
                let n = build::rand_name(r);
                if let Ok(f) = d.create_file(&ps(&n), FileType::PRG, Scheme::Linear) {
                    if let Ok(mut w) = f.writer() {
                        let l = build::rand_len(r, 20000);
                        let _ = w.write_all(&r.bytes(l));
                        let _ = w.flush();
                    };
                }
            }
            2 | 3 if !entries.is_empty() => {
                // append
                let e = r.pick(&entries);
                if let Ok(f) = d.open_file_from_entry(e) {
                    if let Ok(mut w) = f.writer() {
                        let l = build::rand_len(r, 2000);
                        let _ = w.write_all(&r.bytes(l));
                        if r.chance(1, 4) {
                            let _ = w.write_all(&vec![7u8; 900_000]);
                        }
                        let _ = w.flush();
                    };
                }
            }
            4 if !entries.is_empty() => {
                let e = r.pick(&entries).filename.clone();
                let _ = d.rename(&e, &ps(&build::rand_name(r)));
            }
            5 | 6 if !entries.is_empty() => {
                let e = r.pick(&entries);
                if let Ok(mut f) = d.open_file_from_entry(e) {
                    let _ = f.delete();
                }
            }
            _ => {
                let _ = d.next_free_directory_entry();
                let _ = d.flush_header();
            }
        }
    }
    Ok(())
}

pub fn p12(c: &mut Ctx) {
    let n = c.n(500);
    for i in 0..n {
        for k in KINDS {
            c.case(&format!("{:?} image {}", k, i), |c, r| {
                let err = r.chance(1, 5);
                let geos = r.chance(1, 3);
                let mut img = match i % 10 {
                    0 => Img { k, b: r.bytes(k.size(err)) },
                    1 => {
                        // small values everywhere: links that often lead somewhere
                        let mut b = r.bytes(k.size(err));
                        for x in b.iter_mut() {
                            *x %= k.tracks() + 3;
                        }
                        Img { k, b }
                    }
                    2 => {
                        let x = *r.pick(&[0u8, 0xFF, 1, 18, 40, 0xA0]);
                        Img { k, b: vec![x; k.size(err)] }
                    }
                    _ => {
                        let nf = r.below(12);
                        let mut im = populated(r, k, err, geos, nf);
                        corrupt(&mut im, r);
                        im
                    }
                };
                if k == Kind::D71 && r.chance(7, 8) {
                    img.sec_mut((18, 0))[3] = 0x80;
                }
                let path = c.path(&format!("c.{}", k.ext()));
                save(&path, &img);
                let mut d = open(&path, true)?;
                read_everything(c, r, &mut *d, false)?;
                modify_everything(c, r, &mut d)?;
                read_everything(c, r, &mut *d, false)?;
                if r.chance(1, 6) {
                    let _ = d.dump(&mut Null);
                    let _ = d.write_format(&ps(b"AGAIN"), &Id::from_bytes(b"AG"));
                    modify_everything(c, r, &mut d)?;
                }
                Ok(())
            });
        }
    }
}

pub fn p13(c: &mut Ctx) {
    let n = c.n(30);
    for i in 0..n {
        for k in KINDS {
            c.case(&format!("{:?} read-only {}", k, i), |c, r| {
                let path = c.path(&format!("r.{}", k.ext()));
                let nf = r.range(1, 12);
                let (e, g) = (r.chance(1, 3), r.chance(1, 3));
                let mut img = populated(r, k, e, g, nf);
                // often a directory without a free slot, or a full disk
                if r.chance(1, 3) {
                    loop {
                        let full = img.slots().unwrap().iter().filter(|e| !e.border).all(|e| !e.scratched());
                        if full {
                            break;
                        }
                        let nm = build::rand_name(r);
                        if build::linear(&mut img, r, &nm, 0x82, b"x").is_none() {
                            break;
                        }
                    }
                }
                if r.chance(1, 6) {
                    while build::take(&mut img, r).is_some() {}
                }
                let unformatted = r.chance(1, 12);
                if unformatted {
                    img.b = r.bytes(img.b.len());
                }
                save(&path, &img);
                let mut d = open(&path, false)?;
                let snap = |d: &mut Box<dyn Disk>| -> String {
                    let mut s = format!("{:?} {:?}", d.blocks_free().ok(), d.name());
                    for e in d.iter().take(400) {
                        match e {
                            Ok(e) => {
                                s.push_str(&format!("{} {:?} {:?}", e, e.filename.as_bytes(), e.first_sector));
                                if let Ok(f) = d.open_file_from_entry(&e) {
                                    let o = f.occupied_sectors().map(|v| v.iter().map(|l| (l.0, l.1)).collect::<Vec<_>>());
                                    s.push_str(&format!("{:?}", o.ok()));
                                }
                            }
                            Err(e) => s.push_str(&e.to_string()),
                        }
                    }
                    if let Ok(b) = d.bam() {
                        let b = b.borrow();
                        s.push_str(&format!("{:?}", b.allocated_sectors().map(|v| v.iter().map(|l| (l.0, l.1)).collect::<Vec<_>>()).ok()));
                    }
                    s
                };
                let before = snap(&mut d);
                let entries: Vec<DirectoryEntry> = d.iter().take(400).filter_map(|e| e.ok()).collect();
                let ro = |what: &str, r: Result<(), std::io::Error>| -> R {
                    match r {
                        Ok(()) => Err(format!("{} succeeded on a read-only image", what)),
                        Err(e) => {
                            ck!(unformatted || derr(&e) == Some(DiskError::ReadOnly), "{} on a read-only image gave: {}", what, e);
                            Ok(())
                        }
                    }
                };
                for _ in 0..14 {
                    match r.below(11) {
                        0 => ro("create", d.create_file(&ps(b"NEW NAME"), FileType::SEQ, Scheme::Linear).map(|_| ()))?,
                        1 if !entries.is_empty() => {
                            let from = r.pick(&entries).filename.clone();
                            if from.as_bytes().last() != Some(&0xA0) {
                                ro("rename", d.rename(&from, &ps(b"OTHER NAME")))?
                            }
                        }
                        2 if !entries.is_empty() => {
                            let e = r.pick(&entries);
                            if let Ok(mut f) = d.open_file_from_entry(e) {
                                ro("delete", f.delete())?;
                            }
                        }
                        3 => ro("format", d.write_format(&ps(b"X"), &Id::from_bytes(b"XX")))?,
                        4 => {
                            let l = *r.pick(&k.all());
                            let x = crate::loc!(d, l);
                            ro("write_sector", d.write_sector(x, &[1; 256]))?
                        }
                        5 if !entries.is_empty() => {
                            let mut e = r.pick(&entries).clone();
                            e.file_size = e.file_size.wrapping_add(1);
                            ro("write_directory_entry", d.write_directory_entry(&e))?
                        }
                        6 => ro("header_mut", d.header_mut().map(|_| ()))?,
                        7 => ro("flush_header", d.flush_header())?,
                        8 => {
                            if let Ok(b) = d.bam() {
                                ro("writing the free-space map", b.borrow_mut().flush())?;
                            }
                        }
                        9 if !entries.is_empty() => {
                            let e = r.pick(&entries);
                            if let Ok(f) = d.open_file_from_entry(e) {
                                let linear = e.scheme == Scheme::Linear;
                                let l = build::rand_len(r, 5000) + 1;
                                let data = r.bytes(l);
                                let res = f.writer().and_then(|mut w| {
                                    w.write_all(&data)?;
                                    w.flush()
                                });
                                match res {
                                    Ok(()) => return Err("append succeeded on a read-only image".into()),
                                    Err(e) => ck!(!linear || unformatted || derr(&e) == Some(DiskError::ReadOnly) || f.occupied_sectors().is_err(), "append gave: {}", e),
                                }
                            }
                        }
                        _ => {
                            // a free slot is found without writing; extending the directory is refused
                            match d.next_free_directory_entry() {
                                Ok(_) => {}
                                Err(e) => ck!(unformatted || matches!(derr(&e), Some(DiskError::ReadOnly) | Some(DiskError::DiskFull)), "next_free_directory_entry gave {}", e),
                            }
                        }
                    }
                    cmp(&load(&path, k), &img, "read-only image")?;
                    ck!(snap(&mut d) == before, "what the disk reports changed after a refused operation");
                    c.stat("refused operations", 1);
                    c.tick();
                }
                drop(d);
                cmp(&load(&path, k), &img, "read-only image after closing")?;
                // reading a writable image
                let mut d = open(&path, true)?;
                read_everything(c, r, &mut *d, true)?;
                drop(d);
                cmp(&load(&path, k), &img, "image that was only read")?;
                Ok(())
            });
        }
    }
}

pub fn p15(c: &mut Ctx) {
    let n = c.n(150);
    for i in 0..n {
        for k in KINDS {
            c.case(&format!("{:?} validate {}", k, i), |c, r| {
                let path = c.path(&format!("v.{}", k.ext()));
                let nf = r.below(9);
                let (e, g) = (r.chance(1, 4), r.chance(1, 3));
                let mut img = populated(r, k, e, g, nf);
                if i % 9 == 4 {
                    // a long directory
                    for j in 0..r.range(20, 310) {
                        let keep = img.clone();
                        if build::linear(&mut img, r, format!("L{}", j).as_bytes(), 0x82, b"X").is_none() {
                            img = keep;
                            break;
                        }
                    }
                }
                let mut single = String::new();
                if r.chance(1, 6) {
                    // two files of the same name
                    let es = img.files().unwrap_or_default();
                    if es.len() > 1 {
                        let (a, b) = (r.pick(&es).clone(), r.pick(&es).pos);
                        img.sec_mut(b.0)[b.1 + 5..b.1 + 21].copy_from_slice(&a.raw[5..21]);
                        if r.chance(1, 2) {
                            img.sec_mut(b.0)[b.1 + 2..b.1 + 32].copy_from_slice(&a.raw[2..32]);
                        }
                    }
                }
                match i % 4 {
                    0 => {}
                    1 => {
                        // flip the status of a few sectors
                        for _ in 0..r.range(1, 4) {
                            let l = match r.below(6) {
                                0 | 1 => *r.pick(&k.system().into_iter().collect::<Vec<_>>()),
                                2 => *r.pick(&img.dir_chain().locs),
                                3 => img.geos_border().unwrap_or(k.first_dir()),
                                _ => *r.pick(&k.all()),
                            };
                            if k.in_bam(l) {
                                let f = img.is_free(l);
                                img.mark(l, !f);
                                single.push_str(&format!("{:?}", l));
                            }
                        }
                    }
                    2 => {
                        // one link or pointer
                        let occ: Vec<L> = img.allocated().into_iter().filter(|l| l.0 != k.dir_track()).collect();
                        if !occ.is_empty() {
                            let l = *r.pick(&occ);
                            let t = *r.pick(&occ);
                            let o = if r.chance(2, 3) { 0 } else { 2 * r.below(128) };
                            let s = img.sec_mut(l);
                            s[o] = t.0;
                            s[o + 1] = t.1;
                        }
                    }
                    _ => corrupt(&mut img, r),
                }
                if k == Kind::D71 && img.sec((18, 0))[3] != 0x80 {
                    img.sec_mut((18, 0))[3] = 0x80;
                }
                save(&path, &img);
                let d = open(&path, true)?;
                let got = d.validate();
                drop(d);
                cmp(&load(&path, k), &img, "validation")?;
                let want = expected(&img);
                match (got, want) {
                    (Err(_), Err(_)) => {
                        c.stat("directory unreadable", 1);
                    }
                    (Ok(g), Ok(w)) => {
                        let mut gs: BTreeMap<String, usize> = BTreeMap::new();
                        for e in g {
                            *gs.entry(render(&e)).or_insert(0) += 1;
                        }
                        let mut ws: BTreeMap<String, usize> = BTreeMap::new();
                        for e in w {
                            *ws.entry(e).or_insert(0) += 1;
                        }
                        if gs != ws {
                            let miss: Vec<_> = ws.iter().filter(|(k, v)| gs.get(*k) != Some(v)).take(4).collect();
                            let extra: Vec<_> = gs.iter().filter(|(k, v)| ws.get(*k) != Some(v)).take(4).collect();
                            return Err(format!("not reported as expected: {:?}; reported instead: {:?}", miss, extra));
                        }
                        c.stat(if gs.is_empty() { "clean disks" } else { "inconsistent disks" }, 1);
                        c.stat("errors compared", gs.len() as u64);
                    }
                    (Ok(_), Err(e)) => return Err(format!("validation succeeded although the directory is unreadable ({:?})", e)),
                    (Err(e), Ok(_)) => return Err(format!("validation failed: {}", e)),
                }
                Ok(())
            });
        }
    }
}

fn render(e: &ValidationError) -> String {
    match e {
        ValidationError::SystemSectorNotAllocated(l) => format!("system {:?}", (l.0, l.1)),
        ValidationError::SectorMisallocated(l) => format!("misallocated {:?}", (l.0, l.1)),
        ValidationError::SectorMisoccupied(l, n) => format!("misoccupied {:?} {:?}", (l.0, l.1), n.as_bytes()),
        ValidationError::SectorOveroccupied(l, a, b) => format!("overoccupied {:?} {:?} {:?}", (l.0, l.1), a.as_bytes(), b.as_bytes()),
        ValidationError::FileScanError(_, n) => format!("scan {:?}", n.as_bytes()),
        x => format!("{:?}", x),
    }
}

fn expected(img: &Img) -> Result<Vec<String>, CErr> {
    let k = img.k;
    let mut out = vec![];
    // "CBM DOS" in PETSCII, spelled as the library displays it
    let sys = Petscii::from("CBM DOS").as_bytes().to_vec();
    let mut owner: BTreeMap<L, Vec<u8>> = BTreeMap::new();
    for l in k.system() {
        owner.insert(l, sys.clone());
    }
    let dc = img.dir_chain();
    if let Some(e) = dc.err {
        return Err(e);
    }
    for l in dc.locs {
        owner.insert(l, sys.clone());
    }
    if let Some(b) = img.geos_border() {
        owner.insert(b, sys.clone());
    }
    for e in img.files()? {
        match img.occupied(&e) {
            Err(_) => out.push(format!("scan {:?}", e.name())),
            Ok(v) => {
                let v: BTreeSet<L> = v.into_iter().collect();
                for l in v {
                    match owner.get(&l) {
                        Some(o) => out.push(format!("overoccupied {:?} {:?} {:?}", l, o, e.name())),
                        None => {
                            owner.insert(l, e.name());
                        }
                    }
                }
            }
        }
    }
    let alloc = img.allocated();
    let system = k.system();
    for l in &system {
        if !alloc.contains(l) {
            out.push(format!("system {:?}", l));
        }
    }
    for l in k.all() {
        if !k.in_bam(l) {
            continue;
        }
        match (alloc.contains(&l), owner.get(&l)) {
            (true, None) => out.push(format!("misallocated {:?}", l)),
            (false, Some(n)) if !system.contains(&l) => out.push(format!("misoccupied {:?} {:?}", l, n)),
            _ => {}
        }
    }
    Ok(out)
}

fn code(e: &std::io::Error) -> Option<DiskError> {
    derr(e)
}

pub fn p16(c: &mut Ctx) {
    let n = c.n(6);
    for k in [Kind::D64, Kind::D71, Kind::D81] {
        for rl in 1..=255u16 {
            c.case(&format!("{:?} record length {}", k, rl), |c, r| {
                let path = c.path(&format!("l.{}", k.ext()));
                for v in 0..n {
                    let mut img = Img::blank(k, false);
                    img.format(b"REL", *b"RR");
                    let rl = rl as u8;
                    let maxbytes = if k == Kind::D81 && v == 0 && rl % 16 == 0 { 170_000 } else { 14_000 };
                    // every alignment of a record within a sector occurs when there are more than 254 of them
                    let nrec = if v == 0 && rl >= 252 { 290 } else if v == 1 { 0 } else { r.range(1, maxbytes / rl as usize) };
                    let m = build::rel(&mut img, r, b"RELFILE", rl, nrec).ok_or("no room")?;
                    save(&path, &img);
                    {
                        let d = open(&path, false)?;
                        let f = d.open_file(&ps(b"RELFILE")).map_err(|e| format!("intact file of {} records of {}: {}", nrec, rl, e))?;
                        ck!(f.record_count().ok() == Some(nrec), "{} records of {} bytes counted as {:?}", nrec, rl, f.record_count());
                        let full = nrec < 400;
                        for i in 0..nrec {
                            if full || r.chance(1, 8) || i + 3 > nrec {
                                let g = f.record(i).map_err(|e| format!("record {}: {}", i, e))?;
                                ck!(g == m.records[i], "record {} of {} (length {}) is not the {}th slice of the data", i, nrec, rl, i);
                                c.stat("records", 1);
                            }
                        }
                        for x in [nrec, nrec + 1, nrec + 1000, usize::MAX, usize::MAX / 254] {
                            ck!(f.record(x).is_err(), "record {} of {} accepted", x, nrec);
                        }
                        let mut o: Vec<L> = f.occupied_sectors().map_err(|e| e.to_string())?.iter().map(|l| (l.0, l.1)).collect();
                        o.sort();
                        let mut w = m.locs.clone();
                        w.sort();
                        ck!(o == w, "sectors of the relative file");
                    }
                    // damaged versions
                    let ent = img.files().unwrap().into_iter().find(|e| e.name() == b"RELFILE").unwrap();
                    let ss = img.chain((ent.raw[0x15], ent.raw[0x16])).locs;
                    let mut bad = img.clone();
                    let what;
                    match r.below(4) {
                        0 => {
                            what = "record length zero";
                            bad.sec_mut(ent.pos.0)[ent.pos.1 + 0x17] = 0;
                        }
                        1 => {
                            what = "side-sector list of one side sector inconsistent";
                            let l = *r.pick(&ss);
                            let i = r.below(ss.len());
                            bad.sec_mut(l)[4 + 2 * i] ^= 1 + (r.below(15) as u8);
                        }
                        2 => {
                            what = "last data sector links on";
                            let last = *img.contents_locs(&ent).last().unwrap();
                            bad.sec_mut(last)[0] = 1;
                        }
                        _ => {
                            what = "data length no multiple of the record length";
                            if rl == 1 {
                                continue;
                            }
                            let last = *img.contents_locs(&ent).last().unwrap();
                            let s = bad.sec_mut(last);
                            if s[1] > 2 {
                                s[1] -= 1;
                            } else {
                                s[1] += 1;
                            }
                            if bad.rel(&ent).is_ok() {
                                continue;
                            }
                        }
                    }
                    save(&path, &bad);
                    let d = open(&path, false)?;
                    match d.open_file(&ps(b"RELFILE")) {
                        Ok(_) => return Err(format!("damaged relative file opened: {}", what)),
                        Err(e) => ck!(code(&e) == Some(DiskError::InvalidRelativeFile), "{}: {}", what, e),
                    }
                    c.stat("damaged files", 1);
                }
                Ok(())
            });
        }
    }
}

pub fn p17(c: &mut Ctx) {
    let n = c.n(250);
    for i in 0..n {
        for k in [Kind::D64, Kind::D71, Kind::D81] {
            c.case(&format!("{:?} GEOS file {}", k, i), |c, r| {
                let path = c.path(&format!("g.{}", k.ext()));
                let mut img = Img::blank(k, false);
                img.format(b"GEOS", *b"GG");
                let on_geos = r.chance(1, 2);
                if on_geos {
                    img.make_geos((20, 5));
                }
                let info = r.chance(9, 10);
                let vl = r.chance(3, 4);
                let name = build::rand_name(r);
                let mut recs: Vec<Option<Vec<u8>>> = vec![];
                let m = if vl {
                    let n = match r.below(6) {
                        0 => 127,
                        1 => 0,
                        2 => 1,
                        _ => r.range(1, 14),
                    };
                    for _ in 0..n {
                        recs.push(if r.chance(1, 4) {
                            None
                        } else {
                            let mx = if n > 50 { 600 } else { 4000 };
                            let l = build::rand_len(r, mx);
                            Some(r.bytes(l))
                        });
                    }
                    if i % 40 == 7 && n < 50 && n > 0 {
                        // more than 255 blocks cannot be expressed
                        let l = 254 * 254 + 1 + r.below(600);
                        recs[0] = Some(r.bytes(l));
                    }
                    build::vlir(&mut img, r, &name, &recs, info)
                } else {
                    let l = build::rand_len(r, 12000);
                    recs.push(Some(r.bytes(l)));
                    let d = recs[0].clone().unwrap();
                    build::gseq(&mut img, r, &name, &d, info)
                };
                let _m = match m {
                    Some(m) => m,
                    None => return Ok(()),
                };
                // an entry moved to the border block
                let ent = img.files().unwrap().into_iter().find(|e| e.name() == name).ok_or("built file lost")?;
                if on_geos && r.chance(1, 4) {
                    let b = img.geos_border().unwrap();
                    let raw = ent.raw.clone();
                    img.sec_mut(b)[34..64].copy_from_slice(&raw[2..]);
                    img.sec_mut(ent.pos.0)[ent.pos.1 + 2] = 0;
                }
                save(&path, &img);
                let d = open(&path, false)?;
                let f = d.open_file(&ps(&name)).map_err(|e| e.to_string())?;
                let count = f.record_count().map_err(|e| e.to_string())?;
                ck!(count == recs.len(), "{} records, the index names {}", count, recs.len());
                for (j, w) in recs.iter().enumerate() {
                    let g = f.record(j).map_err(|e| format!("record {}: {}", j, e))?;
                    ck!(g == w.clone().unwrap_or_default(), "record {} has {} bytes, expected {:?}", j, g.len(), w.as_ref().map(|w| w.len()));
                    c.stat("records", 1);
                }
                if vl {
                    for x in [count, count + 1, usize::MAX] {
                        ck!(f.record(x).is_err(), "record {} of {} accepted", x, count);
                    }
                }
                // Convert stream
                let mut want = vec![];
                want.extend_from_slice(&ent.raw[2..32]);
                want.extend_from_slice(if vl { b"PRG" } else { b"SEQ" });
                want.extend_from_slice(b" formatted GEOS file V1.0");
                want.resize(254, 0);
                let mut too_large = false;
                if let Some(il) = ent.info() {
                    want.extend_from_slice(&img.sec(il)[2..]);
                }
                if vl {
                    let mut ix = vec![];
                    for w in &recs {
                        match w {
                            None => ix.extend_from_slice(&[0, 255]),
                            Some(b) => {
                                let blocks = ((b.len() + 253) / 254).max(1);
                                let last = b.len() - (blocks - 1) * 254;
                                too_large |= blocks > 255;
                                ix.push(blocks as u8);
                                ix.push(last as u8 + 1);
                            }
                        }
                    }
                    ix.resize(254, 0);
                    want.extend(ix);
                }
                let present: Vec<&Vec<u8>> = recs.iter().flatten().collect();
                for (j, b) in present.iter().enumerate() {
                    want.extend_from_slice(b);
                    if j + 1 < present.len() {
                        while (want.len()) % 254 != 0 {
                            want.push(0);
                        }
                    }
                }
                let g = match &f {
                    File::GEOSSequential(g) if !vl => g,
                    File::GEOSVLIR(g) if vl => g,
                    _ => return Err("wrong kind of file".into()),
                };
                for round in 0..4 {
                    let mut rd = match g.reader() {
                        Ok(x) => x,
                        Err(e) => {
                            ck!(!info && code(&e) == Some(DiskError::GEOSInfoNotFound), "no stream: {}", e);
                            break;
                        }
                    };
                    ck!(info, "a file without info block converted");
                    let got = if round == 0 {
                        let mut v = vec![];
                        rd.read_to_end(&mut v).map(|_| v)
                    } else {
                        read_chunks(&mut rd, r)
                    };
                    match got {
                        Ok(v) => {
                            ck!(!too_large, "a record of more than 255 blocks was converted");
                            if v != want {
                                let p = v.iter().zip(want.iter()).position(|(a, b)| a != b);
                                return Err(format!("Convert stream has {} bytes, expected {}; first difference {:?}", v.len(), want.len(), p));
                            }
                        }
                        Err(e) => ck!(too_large && code(&e) == Some(DiskError::RecordTooLarge), "stream failed: {}", e),
                    }
                    // nothing follows the end
                    if !too_large {
                        let mut b = [0u8; 8];
                        ck!(rd.read(&mut b).ok() == Some(0), "data after the end of the stream");
                    }
                    c.stat("streams", 1);
                }
                if info {
                    let gi = f.geos_info().map_err(|e| e.to_string())?.ok_or("info block missing")?;
                    let mut b = img.sec(ent.info().unwrap()).to_vec();
                    gi.to_bytes(&mut b);
                    ck!(b == img.sec(ent.info().unwrap()), "info block of the file");
                } else {
                    ck!(matches!(f.geos_info(), Ok(None)), "info block out of nowhere");
                }
                Ok(())
            });
        }
    }
}

pub fn p22(c: &mut Ctx) {
    let n = c.n(40);
    for i in 0..n {
        for k in KINDS {
            c.case(&format!("{:?} chains {}", k, i), |c, r| {
                let path = c.path(&format!("t.{}", k.ext()));
                let mut img = Img { k, b: r.bytes(k.size(false)) };
                img.format(b"CHAINS", *b"CC");
                build::linear(&mut img, r, b"PROBE", 0x82, b"probe").ok_or("no room")?;
                let keep: BTreeSet<L> = k.system().into_iter().collect();
                let all: Vec<L> = k.all().into_iter().filter(|l| !keep.contains(l)).collect();
                let fill = r.bytes(k.sectors() * 256);
                // permutation-like, short-loop, random or corrupt links
                let mut perm = all.clone();
                r.shuffle(&mut perm);
                let style = r.below(4);
                for (j, l) in all.iter().enumerate() {
                    let o = k.offset(*l);
                    img.b[o + 2..o + 256].copy_from_slice(&fill[o + 2..o + 256]);
                    let v = match (style, r.below(60)) {
                        (_, 0) => (0, r.byte()),
                        (_, 1) if style != 3 => (r.byte(), r.byte()),
                        (0, _) => perm[j],
                        (1, _) => all[(j + 1) % all.len()],
                        (2, _) => *r.pick(&all),
                        _ => {
                            if r.chance(1, 12) {
                                (0, r.range(1, 255) as u8)
                            } else {
                                perm[j]
                            }
                        }
                    };
                    img.b[o] = v.0;
                    img.b[o + 1] = v.1;
                }
                for l in k.system() {
                    if l == k.first_dir() || l == k.header() {
                        continue;
                    }
                }
                save(&path, &img);
                let d = open(&path, true)?;
                let probe = d.find_directory_entry(&ps(b"PROBE")).map_err(|e| e.to_string())?;
                for t in 0..40 {
                    let mut e = probe.clone();
                    let start = match t {
                        0 => (0, 0),
                        1 => (r.byte(), r.byte()),
                        2 => (k.tracks() + 1, 0),
                        3 => (1, k.spt(1)),
                        _ => *r.pick(&all),
                    };
                    e.first_sector.0 = start.0;
                    e.first_sector.1 = start.1;
                    let want = img.chain(start);
                    let f = d.open_file_from_entry(&e).map_err(|e| e.to_string())?;
                    // bytes, in order, then the error or the end
                    let data: Vec<u8> = want.data.concat();
                    let mut rd = f.reader().map_err(|e| e.to_string())?;
                    let step = *r.pick(&[1usize, 1, 2, 127, 254]);
                    let mut got = vec![];
                    let mut err = None;
                    loop {
                        let mut b = vec![0u8; step];
                        match rd.read(&mut b) {
                            Ok(0) => break,
                            Ok(n) => got.extend_from_slice(&b[..n]),
                            Err(e) => {
                                err = Some(code(&e));
                                break;
                            }
                        }
                        ck!(got.len() <= data.len(), "chain from {:?} yields more than its {} bytes", start, data.len());
                    }
                    let we = want.err.map(|e| {
                        Some(match e {
                            CErr::Loop => DiskError::ChainLoop,
                            CErr::Location => DiskError::InvalidLocation,
                            CErr::Link => DiskError::InvalidChainLink,
                            CErr::Rel => DiskError::InvalidRelativeFile,
                        })
                    });
                    ck!(err == we, "chain from {:?} ended with {:?}, expected {:?}", start, err, we);
                    if we.is_none() || step == 1 || step == 2 || step == 254 || step == 127 {
                        ck!(got == data, "chain from {:?}: {} bytes, expected {}", start, got.len(), data.len());
                    }
                    if err.is_some() {
                        for _ in 0..3 {
                            let mut b = [0u8; 16];
                            ck!(rd.read(&mut b).ok() == Some(0), "something follows after the error of the chain from {:?}", start);
                        }
                    }
                    // the sectors
                    match f.occupied_sectors() {
                        Ok(v) => {
                            ck!(we.is_none(), "sectors of the broken chain from {:?} listed", start);
                            let mut w = want.locs.clone();
                            w.sort();
                            ck!(v.iter().map(|l| (l.0, l.1)).collect::<Vec<_>>() == w, "sectors of the chain from {:?}", start);
                        }
                        Err(x) => ck!(Some(code(&x)) == we, "sector list of the chain from {:?}: {}", start, x),
                    }
                    // positioning a writer at the end
                    match f.writer() {
                        Ok(w) => {
                            ck!(we.is_none(), "writer opened on the broken chain from {:?}", start);
                            std::mem::forget(w); // dropping it would store the free-space map
                        }
                        Err(x) => ck!(Some(code(&x)) == we, "writer on the chain from {:?}: {}", start, x),
                    }
                    c.stat("chains", 1);
                    c.stat("chain sectors", want.locs.len() as u64);
                    if we.is_some() {
                        c.stat("broken chains", 1);
                    }
                    c.tick();
                }
                cmp(&load(&path, k), &img, "following chains")?;
                drop(d);
                // the directory chain is one, too
                let mut img2 = img.clone();
                for t in 0..4 {
                    let dirs: Vec<L> = (0..k.spt(k.dir_track())).map(|s| (k.dir_track(), s)).filter(|l| !keep.contains(l)).collect();
                    let mut cur = k.first_dir();
                    for _ in 0..r.below(4) {
                        let nx = *r.pick(&dirs);
                        let s = img2.sec_mut(cur);
                        s[0] = nx.0;
                        s[1] = nx.1;
                        cur = nx;
                    }
                    let end = match t {
                        0 => (0, r.below(2) as u8),
                        1 => k.first_dir(),
                        2 => (r.byte(), r.byte()),
                        _ => (0, r.range(2, 255) as u8),
                    };
                    let s = img2.sec_mut(cur);
                    s[0] = end.0;
                    s[1] = end.1;
                    save(&path, &img2);
                    let d = open(&path, false)?;
                    let want = img2.dir_chain();
                    let mut n = 0;
                    for (l, x) in want.locs.iter().zip(want.data.iter()) {
                        n += (0..(x.len() + 2) / 32).filter(|i| !crate::raw::Ent { pos: (*l, i * 32), raw: img2.sec(*l)[i * 32..i * 32 + 32].to_vec(), border: false }.scratched()).count();
                    }
                    let (mut got, mut errs) = (0, vec![]);
                    for e in d.iter().take(20000) {
                        match e {
                            Ok(_) => {
                                ck!(errs.is_empty(), "the listing goes on after an error");
                                got += 1
                            }
                            Err(e) => errs.push(code(&e)),
                        }
                    }
                    let we: Vec<_> = want
                        .err
                        .iter()
                        .map(|e| {
                            Some(match e {
                                CErr::Loop => DiskError::ChainLoop,
                                CErr::Location => DiskError::InvalidLocation,
                                CErr::Link => DiskError::InvalidChainLink,
                                CErr::Rel => DiskError::InvalidRelativeFile,
                            })
                        })
                        .collect();
                    ck!(errs.len() == we.len() && errs == we, "directory chain: {} errors {:?}, expected {:?}", errs.len(), errs.iter().take(3).collect::<Vec<_>>(), we);
                    ck!(got == n, "directory chain: {} entries, expected {}", got, n);
                    c.stat("directory chains", 1);
                }
                Ok(())
            });
        }
    }
}
