//! P01 addressing, P02/P03 free-space map, P04/P05 allocator, P14 format, P21 opening.
use crate::ctx::*;
use crate::raw::*;
use crate::{ck, loc};
use cbm::disk::file::{FileOps, Scheme};
use cbm::disk::{self, directory::FileType, Disk, DiskError, DiskType, Id, D64, D71, D81};
use cbm::Petscii;

pub fn p01(c: &mut Ctx) {
    for k in KINDS {
        for err in [false, true] {
            c.case(&format!("{:?} err={}", k, err), |c, r| {
                let path = c.path(&format!("a.{}", k.ext()));
                let mut img = Img { k, b: r.bytes(k.size(err)) };
                // make the D71 header readable or not at random; addressing must not care
                save(&path, &img);
                let mut d = open(&path, true)?;
                // every address
                for t in 0..=255u8 {
                    for s in 0..=255u8 {
                        let l = loc!(d, (t, s));
                        let got = d.read_sector(l);
                        if k.valid((t, s)) {
                            ck!(got.as_ref().ok().map(|v| &v[..]) == Some(img.sec((t, s))), "read of ({},{}) returned {:?}", t, s, got.map(|v| v.len()));
                        } else {
                            match got {
                                Ok(_) => return Err(format!("read of nonexistent ({},{}) succeeded", t, s)),
                                Err(e) => ck!(derr(&e) == Some(DiskError::InvalidLocation), "read of ({},{}): {:?}", t, s, e),
                            }
                            let w = d.write_sector(l, &[0u8; 256]);
                            ck!(w.is_err() && derr(&w.unwrap_err()) == Some(DiskError::InvalidLocation), "write of nonexistent ({},{})", t, s);
                        }
                    }
                    c.tick();
                }
                ck!(load(&path, k).b == img.b, "refused or reading operations changed the image");
                let mut all = k.all();
                r.shuffle(&mut all);
                for (i, l) in all.iter().enumerate() {
                    let data = r.bytes(256);
                    let n = *r.pick(&[0usize, 1, 255, 257, 512]);
                    ck!(d.write_sector(loc!(d, *l), &vec![7u8; n]).is_err(), "write of {} bytes accepted", n);
                    d.write_sector(loc!(d, *l), &data).map_err(|e| format!("write {:?}: {}", l, e))?;
                    img.sec_mut(*l).copy_from_slice(&data);
                    if i % 61 == 0 || i + 1 == all.len() {
                        ck!(load(&path, k).b == img.b, "image differs after writing {:?} (or one of the 61 before)", l);
                    }
                    c.tick();
                }
                for l in &all {
                    ck!(d.read_sector(loc!(d, *l)).unwrap() == img.sec(*l), "read back {:?}", l);
                }
                c.stat("addresses", 65536);
                c.stat("sectors written", all.len() as u64);
                Ok(())
            });
        }
    }
}

/// A consistent free-space map: counts match the bits, system sectors in use.
pub fn random_bam(k: Kind, r: &mut Rng) -> BamM {
    let style = r.below(6);
    let mut bam: BamM = vec![BamT { count: 0, map: 0 }];
    let only = r.range(1, k.bam_tracks() as usize) as u8;
    for t in 1..=k.bam_tracks() {
        let mask = (1u64 << k.spt(t)) - 1;
        let mut map = match style {
            0 => r.next(),
            1 => r.next() & r.next() & r.next(),
            2 => {
                if r.chance(1, 8) {
                    r.next()
                } else {
                    0
                }
            }
            3 => {
                if t == only {
                    1u64 << r.below(k.spt(t) as usize)
                } else {
                    0
                }
            }
            4 => !0,
            _ => {
                if r.chance(1, 3) {
                    1u64 << r.below(k.spt(t) as usize)
                } else if r.chance(1, 2) {
                    0
                } else {
                    r.next() & r.next()
                }
            }
        } & mask;
        for l in k.system() {
            if l.0 == t {
                map &= !(1 << l.1);
            }
        }
        bam.push(BamT { count: map.count_ones() as u8, map });
    }
    bam
}

pub fn p02(c: &mut Ctx) {
    let n = c.n(40);
    for k in KINDS {
        for i in 0..n {
            c.case(&format!("{:?} map {}", k, i), |c, r| {
                let path = c.path(&format!("a.{}", k.ext()));
                let mut img = Img::blank(k, false);
                img.format(b"X", *b"ID");
                let mut bam = random_bam(k, r);
                if i % 2 == 1 {
                    // counts that do not agree with the maps: each operation puts its track right
                    for e in bam.iter_mut() {
                        if r.chance(1, 2) {
                            e.count = if r.chance(1, 2) { 0 } else { r.range(0, 41) as u8 };
                        }
                    }
                }
                img.set_bam(&bam);
                save(&path, &img);
                let d = open(&path, true)?;
                let b = d.bam().map_err(|e| e.to_string())?;
                let mut b = b.borrow_mut();
                let all = k.all();
                for _ in 0..300 {
                    let l = match r.below(4) {
                        0 => (r.byte(), r.byte()),
                        1 => (r.range(0, k.bam_tracks() as usize + 1) as u8, r.range(0, 66) as u8),
                        _ => *r.pick(&all),
                    };
                    let free = r.chance(1, 2);
                    let x = loc!(d, l);
                    let res = if free { b.free(x) } else { b.allocate(x) };
                    if k.in_bam(l) {
                        ck!(res.is_ok(), "{} {:?}: {:?}", if free { "free" } else { "allocate" }, l, res);
                        let e = &mut bam[l.0 as usize];
                        if free {
                            e.map |= 1 << l.1
                        } else {
                            e.map &= !(1 << l.1)
                        }
                        e.count = e.map.count_ones() as u8;
                    } else {
                        ck!(res.is_err(), "location {:?} outside the map accepted", l);
                        ck!(derr(&res.unwrap_err()) == Some(DiskError::InvalidLocation), "wrong error for {:?}", l);
                    }
                    for t in 1..=k.bam_tracks() {
                        let e = b.entry(t).map_err(|e| e.to_string())?;
                        ck!(e.sector_map() == bam[t as usize].map, "after {} {:?}: track {} map {:x}, expected {:x}", free, l, t, e.sector_map(), bam[t as usize].map);
                        ck!(e.free_sectors == bam[t as usize].count, "after {} {:?}: track {} count {}, expected {}", free, l, t, e.free_sectors, bam[t as usize].count);
                        ck!(e.has_availability() == (e.free_sectors > 0), "availability of track {}", t);
                    }
                    c.stat("operations", 1);
                }
                let mut m = img.clone();
                m.set_bam(&bam);
                let mut al: Vec<L> = b.allocated_sectors().unwrap().iter().map(|l| (l.0, l.1)).collect();
                al.sort();
                ck!(al == m.allocated().into_iter().collect::<Vec<_>>(), "list of sectors in use differs from the map");
                let fr: std::collections::BTreeSet<L> = b.free_sectors().unwrap().iter().map(|l| (l.0, l.1)).collect();
                let inuse = m.allocated();
                let want: std::collections::BTreeSet<L> = k.all().into_iter().filter(|l| k.in_bam(*l) && !inuse.contains(l)).collect();
                ck!(fr == want, "list of free sectors differs from the map");
                ck!(b.blocks_free() == m.blocks_free(), "blocks free {} expected {}", b.blocks_free(), m.blocks_free());
                Ok(())
            });
        }
    }
}

pub fn p03(c: &mut Ctx) {
    let n = c.n(150);
    for k in KINDS {
        for i in 0..n {
            let err = i % 5 == 4;
            c.case(&format!("{:?} map {}", k, i), |c, r| {
                let path = c.path(&format!("a.{}", k.ext()));
                let mut img = Img { k, b: r.bytes(k.size(err)) };
                if i % 2 == 0 {
                    img.format(b"NAME", *b"ID");
                }
                if k == Kind::D71 {
                    img.sec_mut((18, 0))[3] = 0x80;
                }
                let start = img.bam();
                save(&path, &img);
                let d = open(&path, true)?;
                let b = d.bam().map_err(|e| e.to_string())?;
                // what is read is what is stored
                for t in 1..=k.bam_tracks() {
                    let bb = b.borrow();
                    let e = bb.entry(t).map_err(|e| e.to_string())?;
                    ck!(e.sector_map() == start[t as usize].map && e.free_sectors == start[t as usize].count, "track {} read as {:x}/{}, stored {:x}/{}", t, e.sector_map(), e.free_sectors, start[t as usize].map, start[t as usize].count);
                }
                // set an arbitrary map and write it
                let mut bam = start.clone();
                for t in 1..=k.bam_tracks() {
                    let bits = if k == Kind::D81 { 40 } else { 24 };
                    let m = r.next() & ((1u64 << bits) - 1);
                    let cnt = if i % 3 == 0 { r.byte() } else { m.count_ones() as u8 };
                    bam[t as usize] = BamT { count: cnt, map: m };
                    let mut bb = b.borrow_mut();
                    let e = bb.entry_mut(t).map_err(|e| e.to_string())?;
                    e.sector_map = m;
                    e.free_sectors = cnt;
                }
                b.borrow_mut().flush().map_err(|e| e.to_string())?;
                img.set_bam(&bam);
                let now = load(&path, k);
                if now.b != img.b {
                    let o = now.b.iter().zip(img.b.iter()).position(|(a, b)| a != b).unwrap();
                    return Err(format!("image byte 0x{:x} is {:02x}, expected {:02x}", o, now.b[o], img.b[o]));
                }
                drop(b);
                drop(d);
                let d = open(&path, false)?;
                let b = d.bam().map_err(|e| e.to_string())?;
                let b = b.borrow();
                for t in 1..=k.bam_tracks() {
                    let e = b.entry(t).map_err(|e| e.to_string())?;
                    ck!(e.sector_map() == bam[t as usize].map && e.free_sectors == bam[t as usize].count, "track {} differs after reopening", t);
                }
                Ok(())
            });
        }
    }
}

pub fn p04_05(c: &mut Ctx) {
    let n = c.n(60);
    for k in [Kind::D64, Kind::D71, Kind::D81, Kind::D64x40] {
        for geos in [false, true] {
            for i in 0..n {
                c.case(&format!("{:?} geos={} map {}", k, geos, i), |c, r| {
                    let path = c.path(&format!("a.{}", k.ext()));
                    let mut img = Img::blank(k, false);
                    img.format(b"X", *b"ID");
                    if geos {
                        img.make_geos((19, 8));
                    }
                    let mut bam = random_bam(k, r);
                    if i == 0 {
                        for e in bam.iter_mut() {
                            *e = BamT { count: 0, map: 0 };
                        }
                    }
                    if r.chance(1, 4) {
                        bam[k.dir_track() as usize] = BamT { count: 0, map: 0 };
                    }
                    img.set_bam(&bam);
                    save(&path, &img);
                    let d = open(&path, false)?;
                    let b = d.bam().map_err(|e| e.to_string())?;
                    let b = b.borrow();
                    let mut prevs: Vec<Option<L>> = vec![None];
                    for l in k.all() {
                        if k.in_bam(l) && l.0 != k.reserved() {
                            prevs.push(Some(l));
                        }
                    }
                    for p in prevs {
                        let got = b.next_free_block(p.map(|l| loc!(d, l)));
                        let eligible: Vec<u8> = match p {
                            Some(l) if l.0 == k.dir_track() => vec![k.dir_track()],
                            _ => (1..=k.bam_tracks()).filter(|t| *t != k.dir_track() && *t != k.reserved()).collect(),
                        };
                        let any = eligible.iter().any(|t| bam[*t as usize].map != 0);
                        match &got {
                            Ok(l) => {
                                let l = (l.0, l.1);
                                ck!(k.in_bam(l), "previous {:?}: returned nonexistent sector {:?}", p, l);
                                ck!(bam[l.0 as usize].map >> l.1 & 1 == 1, "previous {:?}: returned {:?} which is in use", p, l);
                                ck!(eligible.contains(&l.0), "previous {:?}: returned {:?} on a track not eligible", p, l);
                            }
                            Err(e) => {
                                ck!(derr(e) == Some(DiskError::DiskFull), "previous {:?}: error {:?}", p, e);
                                ck!(!any, "previous {:?}: reported disk full although sectors are free", p);
                            }
                        }
                        if c.wants("P05") {
                            let want = reference_next(k, geos, &bam, p);
                            ck!(got.as_ref().ok().map(|l| (l.0, l.1)) == want, "previous {:?}: placed at {:?}, the algorithm prescribes {:?}", p, got.as_ref().ok().map(|l| (l.0, l.1)), want);
                        }
                        c.stat("allocations", 1);
                    }
                    Ok(())
                });
            }
        }
    }
    if c.wants("P05") {
        p05_files(c);
    }
}

/// Placement as seen in the chains of files and of the directory.
fn p05_files(c: &mut Ctx) {
    let n = c.n(12);
    for k in [Kind::D64, Kind::D71, Kind::D81] {
        for geos in [false, true] {
            for i in 0..n {
                c.case(&format!("{:?} geos={} files {}", k, geos, i), |c, r| {
                    let path = c.path(&format!("a.{}", k.ext()));
                    let mut img = Img::blank(k, false);
                    img.format(b"X", *b"ID");
                    if geos {
                        img.make_geos((19, 8));
                    }
                    let mut bam = random_bam(k, r);
                    bam[k.dir_track() as usize] = img.bam()[k.dir_track() as usize].clone();
                    if r.chance(1, 2) {
                        bam = img.bam();
                    }
                    img.set_bam(&bam);
                    if geos {
                        img.mark((19, 8), false); // the border sector is never free
                    }
                    save(&path, &img);
                    let mut d = open(&path, true)?;
                    // many files fill several directory sectors
                    let many = r.chance(1, 3);
                    for f in 0..if many { 44 } else { 12 } {
                        let before = load(&path, k);
                        let name: Petscii = format!("F{}", f).as_str().into();
                        let dirn = before.dir_chain().locs;
                        let want_dir = reference_next(k, geos, &before.bam(), dirn.last().cloned());
                        let file = match d.create_file(&name, FileType::PRG, Scheme::Linear) {
                            Ok(f) => f,
                            Err(e) => {
                                ck!(derr(&e) == Some(DiskError::DiskFull), "create: {}", e);
                                break;
                            }
                        };
                        let after = load(&path, k);
                        let dirs = after.dir_chain().locs;
                        if dirs.len() > dirn.len() {
                            ck!(dirs.last().cloned() == want_dir, "directory extended to {:?}, the algorithm prescribes {:?}", dirs.last(), want_dir);
                            c.stat("directory extensions", 1);
                        }
                        let mut b2 = before.clone();
                        if dirs.len() > dirn.len() {
                            b2.mark(*dirs.last().unwrap(), false);
                        }
                        let want = reference_next(k, geos, &b2.bam(), None);
                        let got = match after.files().unwrap().into_iter().find(|e| e.name() == name.as_bytes()) {
                            Some(e) => e.first(),
                            None => return Err(format!("created file F{} is not in the directory", f)),
                        };
                        ck!(Some(got) == want, "first sector of a file placed at {:?}, the algorithm prescribes {:?}", got, want);
                        // next blocks
                        let mut w = file.writer().map_err(|e| e.to_string())?;
                        let blocks = if many { r.range(0, 1) } else { r.range(1, 6) };
                        let mut prev = got;
                        let mut known = 0;
                        for _ in 0..blocks {
                            let before = load(&path, k);
                            if w.write(&[1u8; 254]).is_err() || w.flush().is_err() {
                                break;
                            }
                            let after = load(&path, k);
                            let cur = *after.chain(got).locs.last().unwrap();
                            if cur == prev {
                                continue;
                            }
                            let want = reference_next(k, geos, &before.bam(), Some(prev));
                            let alt = reference_next(k, geos, &before.bam(), None);
                            if Some(cur) != want {
                                // known finding K1: the next block is searched as if the file had none yet
                                ck!(Some(cur) == alt, "block after {:?} placed at {:?}, the algorithm prescribes {:?}", prev, cur, want);
                                known += 1;
                            }
                            prev = cur;
                        }
                        if known > 0 {
                            c.stat("known:K1", known);
                        }
                        c.stat("files", 1);
                    }
                    Ok(())
                });
            }
        }
    }
}

pub fn p14(c: &mut Ctx) {
    let n = c.n(12);
    for k in KINDS {
        for err in [false, true] {
            for i in 0..n {
                c.case(&format!("{:?} err={} {}", k, err, i), |c, r| {
                    let path = c.path(&format!("a.{}", k.ext()));
                    let mut img = Img { k, b: r.bytes(k.size(err)) };
                    if i % 3 == 0 {
                        for b in img.b.iter_mut() {
                            *b = if i % 2 == 0 { 0 } else { 0xFF };
                        }
                    }
                    if i % 4 == 1 {
                        img.format(b"OLD", *b"00");
                        img.make_geos((20, 1));
                    }
                    save(&path, &img);
                    let mut d = open(&path, true)?;
                    // over-long names change nothing
                    let nl = r.range(17, 40);
                    let long = Petscii::from_bytes(&r.bytes(nl));
                    let id = [r.byte(), r.byte()];
                    let res = d.write_format(&long, &Id::from_bytes(&id));
                    ck!(res.is_err(), "name of {} characters accepted", long.len());
                    ck!(load(&path, k).b == img.b, "refused format changed the image");
                    // in-memory state as before too: a disk that was formatted still is
                    let nl = r.range(0, 16);
                    let name = r.bytes(nl);
                    d.write_format(&Petscii::from_bytes(&name), &Id::from_bytes(&id)).map_err(|e| e.to_string())?;
                    img.format(&name, id);
                    let now = load(&path, k);
                    if now.b != img.b {
                        let o = now.b.iter().zip(img.b.iter()).position(|(a, b)| a != b).unwrap();
                        return Err(format!("formatted image byte 0x{:x} is {:02x}, expected {:02x}", o, now.b[o], img.b[o]));
                    }
                    for _ in 0..2 {
                        ck!(d.iter().count() == 0, "directory not empty after format");
                        ck!(d.blocks_free().unwrap() == k.total_blocks(), "{} blocks free after format", d.blocks_free().unwrap());
                        ck!(d.validate().unwrap().is_empty(), "fresh disk does not validate: {:?}", d.validate().unwrap());
                        let mut pn = name.clone();
                        pn.resize(16, 0xA0);
                        let got = d.name().unwrap().as_bytes().to_vec();
                        // the name is reported with or without its padding
                        let mut gp = got.clone();
                        gp.resize(16.max(gp.len()), 0xA0);
                        ck!(gp == pn, "disk name {:?} expected {:?}", got, pn);
                        ck!(d.header().unwrap().disk_id == Id::from_bytes(&id), "disk id");
                        let mut al: Vec<L> = d.bam().unwrap().borrow().allocated_sectors().unwrap().iter().map(|l| (l.0, l.1)).collect();
                        al.sort();
                        ck!(al == k.system().into_iter().collect::<Vec<_>>(), "sectors in use after format: {:?}", al);
                        ck!(d.disk_format().unwrap().total_data_blocks() == k.total_blocks(), "total_data_blocks");
                        let mut f = d.create_file(&"probe".into(), FileType::SEQ, Scheme::Linear).map_err(|e| e.to_string())?;
                        // placed as on any freshly formatted disk, whatever the disk was before
                        let got = f.entry().first_sector;
                        let want = reference_next(k, false, &img.bam(), None);
                        ck!(Some((got.0, got.1)) == want, "first file after format placed at {:?}, expected {:?}", got, want);
                        f.delete().map_err(|e| e.to_string())?;
                        drop(f);
                        save(&path, &img);
                        d = open(&path, true)?;
                    }
                    Ok(())
                });
            }
        }
    }
}

pub fn p21(c: &mut Ctx) {
    // sizes are distinct and exactly these are accepted
    c.case("sizes", |c, _| {
        let mut sizes = vec![];
        for k in KINDS {
            for e in [false, true] {
                sizes.push((k, e, k.size(e)));
            }
        }
        for (i, a) in sizes.iter().enumerate() {
            for b in &sizes[i + 1..] {
                ck!(a.2 != b.2, "{:?} and {:?} have the same size", a, b);
            }
        }
        let g: Vec<(Kind, bool, usize)> = vec![
            (Kind::D64, false, D64::geometry(false).size()),
            (Kind::D64, true, D64::geometry(true).size()),
            (Kind::D64x40, false, D64::geometry_40_tracks(false).size()),
            (Kind::D64x40, true, D64::geometry_40_tracks(true).size()),
            (Kind::D71, false, D71::geometry(false).size()),
            (Kind::D71, true, D71::geometry(true).size()),
            (Kind::D81, false, D81::geometry(false).size()),
            (Kind::D81, true, D81::geometry(true).size()),
        ];
        for (k, e, s) in g {
            ck!(s == k.size(e), "{:?} err={} has size {}, expected {}", k, e, s, k.size(e));
        }
        // D64::create etc. make files of that size
        let p = c.path("created.img");
        let _ = std::fs::remove_file(&p);
        for (k, e) in [(Kind::D64, false), (Kind::D64, true), (Kind::D64x40, false), (Kind::D64x40, true), (Kind::D71, false), (Kind::D71, true), (Kind::D81, false), (Kind::D81, true)] {
            // like cdisk create, the file exists beforehand
            std::fs::write(&p, b"").unwrap();
            let r: Result<Box<dyn Disk>, String> = match k {
                Kind::D64 => D64::create(&p, D64::geometry(e), false).map(|d| Box::new(d) as Box<dyn Disk>),
                Kind::D64x40 => D64::create(&p, D64::geometry_40_tracks(e), false).map(|d| Box::new(d) as Box<dyn Disk>),
                Kind::D71 => D71::create(&p, D71::geometry(e), false).map(|d| Box::new(d) as Box<dyn Disk>),
                Kind::D81 => D81::create(&p, D81::geometry(e), false).map(|d| Box::new(d) as Box<dyn Disk>),
            }
            .map_err(|x| x.to_string());
            let mut d = r.map_err(|x| format!("create {:?}: {}", k, x))?;
            d.write_format(&"NEW".into(), &"01".into()).map_err(|x| x.to_string())?;
            drop(d);
            ck!(std::fs::metadata(&p).unwrap().len() as usize == k.size(e), "created {:?} has the wrong size", k);
            ck!(open(&p, false)?.blocks_free().ok() == Some(k.total_blocks()), "created {:?} does not reopen", k);
            let x = D64::create(&p, D64::geometry(false), true);
            ck!(x.is_err(), "create_new accepted an existing file");
            ck!(std::fs::metadata(&p).unwrap().len() as usize == k.size(e), "refused creation changed the file");
            std::fs::remove_file(&p).unwrap();
            let x = D64::create(&p, D64::geometry(false), true).is_ok();
            ck!(x && std::fs::metadata(&p).map(|m| m.len() as usize).ok() == Some(Kind::D64.size(false)), "create_new of a new file");
            std::fs::remove_file(&p).unwrap();
        }
        Ok(())
    });
    // extension and size detection
    c.case("extension", |_, r| {
        for (e, w) in [("d64", Some(0)), ("d71", Some(1)), ("d81", Some(2)), ("d82", None), ("d6", None), ("d644", None), ("", None), ("img", None), ("64", None)] {
            for _ in 0..20 {
                let v: String = e.chars().map(|ch| if r.chance(1, 2) { ch.to_ascii_uppercase() } else { ch }).collect();
                for stem in ["x", "dir.d71/x", "x.d81", ".hidden", "x.y.z"] {
                    let p = if v.is_empty() { stem.to_string() } else { format!("{}.{}", stem, v) };
                    let want = if v.is_empty() {
                        match stem {
                            "x.d81" => Some(2),
                            _ => None,
                        }
                    } else {
                        w
                    };
                    let got = DiskType::from_extension(&p).map(|t| match t {
                        DiskType::D64 => 0,
                        DiskType::D71 => 1,
                        DiskType::D81 => 2,
                    });
                    ck!(got == want, "extension of {:?} detected as {:?}", p, got);
                }
            }
        }
        Ok(())
    });
    let n = c.n(3);
    for k in KINDS {
        for e in [false, true] {
            for i in 0..n {
                c.case(&format!("open {:?} err={} {}", k, e, i), |c, r| {
                    let mut img = Img::blank(k, e);
                    let body = k.sectors() * 256;
                    for b in img.b[body..].iter_mut() {
                        *b = r.byte();
                    }
                    img.format(b"NAME", *b"ID");
                    let sz = img.b.len();
                    for name in ["a.d64", "a.D64", "a.d71", "a.D71", "a.d81", "a.D81", "a.img", "a", "a.d64.bak"] {
                        let p = c.path(name);
                        save(&p, &img);
                        let typed = match name.to_lowercase().as_str() {
                            "a.d64" => Some("d64"),
                            "a.d71" => Some("d71"),
                            "a.d81" => Some("d81"),
                            _ => None,
                        };
                        let ok = typed.is_none() || typed == Some(k.ext());
                        for w in [false, true] {
                            let res = disk::open(&p, w);
                            match res {
                                Ok(d) => {
                                    ck!(ok, "{:?} image opened as {}", k, name);
                                    ck!(d.blocks_free().ok() == Some(k.total_blocks()), "{:?} image {} opened as another type", k, name);
                                    ck!(d.read_sector(loc!(d, (k.tracks(), k.spt(k.tracks()) - 1))).is_ok(), "last sector missing");
                                    ck!(d.read_sector(loc!(d, (k.tracks() + 1, 0))).is_err(), "too many tracks");
                                    // a writable image takes changes, whatever told its type
                                    let l = (k.tracks(), 0);
                                    let mut d = d;
                                    let mark = r.bytes(256);
                                    let x = loc!(d, l);
                                    let res = d.write_sector(x, &mark);
                                    drop(d);
                                    ck!(res.is_ok() == w, "{} opened with writable={}: writing gave {:?}", name, w, res.err());
                                    let now = load(&p, k);
                                    ck!(now.sec(l) == if w { &mark[..] } else { img.sec(l) }, "{} opened with writable={}: the file holds something else", name, w);
                                }
                                Err(er) => {
                                    ck!(!ok, "{:?} image {} refused: {}", k, name, er);
                                    ck!(derr(&er) == Some(DiskError::InvalidLayout), "wrong error {}", er);
                                }
                            }
                        }
                        // wrong sizes
                        for delta in [1usize, 256, 255, 257] {
                            for neg in [false, true] {
                                let s2 = if neg { sz - delta } else { sz + delta };
                                let any = KINDS.iter().any(|k| k.size(false) == s2 || k.size(true) == s2);
                                if any {
                                    continue;
                                }
                                std::fs::write(&p, vec![0u8; s2]).unwrap();
                                match disk::open(&p, false) {
                                    Ok(_) => return Err(format!("file of {} bytes accepted as {}", s2, name)),
                                    Err(er) => ck!(derr(&er) == Some(DiskError::InvalidLayout), "wrong error {} for size {}", er, s2),
                                }
                            }
                        }
                        std::fs::remove_file(&p).unwrap();
                    }
                    // a session reaches the file; the error table stays
                    let p = c.path(&format!("s.{}", k.ext()));
                    save(&p, &img);
                    let nl = r.range(1, 3000);
                    let data = r.bytes(nl);
                    {
                        let mut d = open(&p, true)?;
                        if r.chance(1, 2) {
                            d.write_format(&"N2".into(), &"ZZ".into()).map_err(|e| e.to_string())?;
                        }
                        for (j, drop_only) in [true, false].iter().enumerate() {
                            let f = d.create_file(&Petscii::from_bytes(&[b'F', b'0' + j as u8]), FileType::SEQ, Scheme::Linear).map_err(|e| e.to_string())?;
                            let mut w = f.writer().map_err(|e| e.to_string())?;
                            w.write_all(&data).map_err(|e| e.to_string())?;
                            if !drop_only {
                                w.flush().map_err(|e| e.to_string())?;
                            }
                        }
                        d.rename(&Petscii::from_bytes(b"F0"), &Petscii::from_bytes(b"G0")).map_err(|e| e.to_string())?;
                    }
                    let d = open(&p, false)?;
                    let names: Vec<Vec<u8>> = d.iter().map(|e| e.unwrap().filename.as_bytes().to_vec()).collect();
                    ck!(names == vec![b"G0".to_vec(), b"F1".to_vec()], "names after reopening: {:?}", names);
                    for n in ["G0", "F1"] {
                        let f = d.open_file(&Petscii::from_bytes(n.as_bytes())).map_err(|e| e.to_string())?;
                        ck!(f.record(0).ok().as_ref() == Some(&data), "contents of {} after reopening", n);
                    }
                    ck!(load(&p, k).b[body..] == img.b[body..], "error table changed");
                    ck!(load(&p, k).b.len() == sz, "file size changed");
                    Ok(())
                });
            }
        }
    }
}
