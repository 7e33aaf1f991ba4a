//! Histories of file operations, checked after every operation against the
//! stored image: P06 contents, P07 accounting, P08 frame, P09 deletion, P11 names.
use crate::build;
use crate::ck;
use crate::ctx::*;
use crate::raw::*;
use cbm::disk::directory::FileType;
use cbm::disk::file::{FileOps, Scheme};
use cbm::disk::{Disk, DiskError, Id};
use cbm::Petscii;
use std::collections::BTreeSet;
use std::io::{Read, Write};

#[derive(Clone)]
struct MF {
    name: Vec<u8>,
    typ: u8,
    /// None: a file made by the builders whose bytes are not tracked here
    data: Option<Vec<u8>>,
}

macro_rules! req {
    ($c:expr, $tag:expr, $cond:expr, $($a:tt)*) => {
        if $c.wants($tag) && !($cond) { return Err(format!($($a)*)); }
    };
}

fn ps(b: &[u8]) -> Petscii {
    Petscii::from_bytes(b)
}

/// Read in pieces of random sizes.
pub fn read_chunks(rd: &mut dyn Read, r: &mut Rng) -> Result<Vec<u8>, std::io::Error> {
    let mut out = vec![];
    let style = r.below(4);
    loop {
        let n = match style {
            0 => 1,
            1 => r.range(1, 20),
            2 => r.range(1, 600),
            _ => 65536,
        };
        if r.chance(1, 10) {
            assert_eq!(rd.read(&mut [])?, 0);
        }
        let mut b = vec![0xEEu8; n];
        let got = rd.read(&mut b)?;
        assert!(got <= n, "read returned more than asked");
        if got == 0 {
            return Ok(out);
        }
        out.extend_from_slice(&b[..got]);
    }
}

fn diff(a: &Img, b: &Img) -> Vec<usize> {
    if a.b.len() != b.b.len() {
        return vec![a.b.len()];
    }
    if a.b == b.b {
        return vec![];
    }
    (0..a.b.len()).filter(|i| a.b[*i] != b.b[*i]).collect()
}

fn where_is(k: Kind, off: usize) -> Option<(L, usize)> {
    let n = off / 256;
    if n >= k.sectors() {
        return None;
    }
    Some((k.all()[n], off % 256))
}

fn bam_bytes(k: Kind) -> BTreeSet<usize> {
    let mut s = BTreeSet::new();
    for t in 1..=k.bam_tracks() {
        let ((cl, co), (bl, bo, bs)) = k.bam_pos(t);
        s.insert(k.offset(cl) + co);
        for i in 0..bs {
            s.insert(k.offset(bl) + bo + i);
        }
    }
    s
}

/// What one operation on the file in slot `slot` (if known) may change (P08).
fn frame(before: &Img, after: &Img, slot: Option<(L, usize)>, own: &BTreeSet<L>, what: &str) -> R {
    let k = before.k;
    let d = diff(before, after);
    if d.is_empty() {
        return Ok(());
    }
    let bam = bam_bytes(k);
    let bm = before.bam();
    let free: BTreeSet<L> = k.all().into_iter().filter(|l| k.in_bam(*l) && bm[l.0 as usize].map >> l.1 & 1 == 1).collect();
    let dirs: Vec<L> = before.dir_chain().locs;
    let border = before.geos_border();
    let locs = k.all();
    for o in d {
        if o / 256 >= k.sectors() {
            return Err(format!("{}: changed byte 0x{:x} of the error table", what, o));
        }
        let (l, i) = (locs[o / 256], o % 256);
        if bam.contains(&o) || free.contains(&l) || own.contains(&l) {
            continue;
        }
        if dirs.contains(&l) || Some(l) == border {
            let in_slot = slot.map_or(false, |(sl, so)| sl == l && i >= so + 2 && i < so + 32);
            let tail_link = i < 2 && Some(&l) == dirs.last();
            if in_slot || tail_link {
                continue;
            }
            return Err(format!("{}: changed byte {} of directory sector {:?}, outside the file's entry", what, i, l));
        }
        return Err(format!("{}: changed byte {} of unrelated sector {:?}", what, i, l));
    }
    Ok(())
}

fn find_slot(img: &Img, name: &[u8]) -> Option<Ent> {
    img.files().ok()?.into_iter().find(|e| e.name() == name)
}

struct St {
    k: Kind,
    path: String,
    files: Vec<MF>,
    d: Option<Box<dyn Disk>>,
    log: Vec<String>,
}

impl St {
    fn d(&mut self) -> &mut Box<dyn Disk> {
        self.d.as_mut().unwrap()
    }
    fn img(&self) -> Img {
        load(&self.path, self.k)
    }
}

fn check_all(c: &mut Ctx, r: &mut Rng, s: &mut St, full: bool) -> R {
    let img = s.img();
    if c.wants("P07") {
        if let Err(m) = img.accounting() {
            return Err(m);
        }
        let bf = s.d().blocks_free().map_err(|e| e.to_string())?;
        ck!(bf == img.blocks_free(), "disk says {} blocks free, image {}", bf, img.blocks_free());
        let v = s.d().validate().map_err(|e| format!("validate: {}", e))?;
        ck!(v.is_empty(), "validation reports {:?}", v);
    }
    if c.wants("P11") {
        check_names(c, r, s, &img)?;
    }
    if c.wants("P06") || c.wants("P08") {
        let n = s.files.len();
        for i in 0..n {
            if !full && !r.chance(1, 3) {
                continue;
            }
            let f = s.files[i].clone();
            if let Some(data) = &f.data {
                let file = s.d().open_file(&ps(&f.name)).map_err(|e| format!("open {:?}: {}", f.name, e))?;
                let mut rd = file.reader().map_err(|e| e.to_string())?;
                let got = read_chunks(&mut *rd, r).map_err(|e| format!("read {:?}: {}", f.name, e))?;
                ck!(got == *data, "file {:?} reads {} bytes, expected {} ({})", f.name, got.len(), data.len(), first_diff(&got, data));
                let e = find_slot(&img, &f.name).ok_or("entry missing")?;
                ck!(e.typ() == f.typ, "type of {:?}", f.name);
                ck!(file.record(0).ok().as_ref() == Some(data), "record 0 of {:?}", f.name);
                if c.wants("P06") {
                    ck!(img.contents(e.first()).ok().as_ref() == Some(data), "stored contents of {:?} differ from what was written", f.name);
                }
                c.stat("file contents compared", 1);
            }
        }
    }
    Ok(())
}

fn first_diff(a: &[u8], b: &[u8]) -> String {
    match a.iter().zip(b.iter()).position(|(x, y)| x != y) {
        Some(i) => format!("first difference at {}", i),
        None => "one is a prefix of the other".into(),
    }
}

fn check_names(c: &mut Ctx, r: &mut Rng, s: &mut St, img: &Img) -> R {
    let want: Vec<Ent> = img.files().map_err(|e| format!("{:?}", e))?;
    let got: Vec<_> = s.d().iter().collect::<Result<Vec<_>, _>>().map_err(|e| e.to_string())?;
    ck!(got.len() == want.len(), "listing has {} entries, the directory {}", got.len(), want.len());
    for (g, w) in got.iter().zip(want.iter()) {
        ck!(g.filename.as_bytes() == &w.name()[..], "listed name {:?}, stored {:?}", g.filename, w.name());
        ck!((g.first_sector.0, g.first_sector.1) == w.first(), "listing out of order at {:?}", w.name());
    }
    // lookups
    let mut q: Vec<Vec<u8>> = want.iter().map(|e| e.name()).collect();
    for _ in 0..3 {
        q.push(build::rand_name(r));
    }
    for e in &want {
        let mut n = e.name();
        if r.chance(1, 4) && !n.is_empty() {
            n.pop();
            q.push(n.clone());
        }
        if r.chance(1, 4) && n.len() < 16 {
            n.push(b'!');
            q.push(n);
        }
    }
    for n in q {
        if n.last() == Some(&0xA0) {
            continue;
        }
        let w = want.iter().find(|e| e.name() == n);
        match (s.d().find_directory_entry(&ps(&n)), w) {
            (Ok(g), Some(w)) => {
                let p = g.position.ok_or("no position")?;
                ck!(g.filename.as_bytes() == &n[..], "lookup of {:?} found {:?}", n, g.filename);
                ck!(((p.location.0, p.location.1), p.offset as usize) == w.pos, "lookup of {:?} found a later entry", n);
            }
            (Err(e), None) => ck!(derr(&e) == Some(DiskError::NotFound), "lookup of missing {:?}: {}", n, e),
            (Ok(_), None) => return Err(format!("lookup of missing {:?} succeeded", n)),
            (Err(e), Some(_)) => return Err(format!("lookup of {:?} failed: {}", n, e)),
        }
        c.stat("lookups", 1);
    }
    // no two names equal among the model
    Ok(())
}

fn write_file(c: &mut Ctx, r: &mut Rng, s: &mut St, idx: usize, len: usize) -> R {
    let mut name = s.files[idx].name.clone();
    let old = s.files[idx].data.clone().unwrap();
    let before = s.img();
    let ent = find_slot(&before, &name).ok_or_else(|| format!("entry of {:?} lost", name))?;
    let own: BTreeSet<L> = before.occupied(&ent).map_err(|e| format!("{:?}", e))?.into_iter().collect();
    let data = r.bytes(len);
    let file = s.d().open_file(&ps(&name)).map_err(|e| format!("open {:?}: {}", name, e))?;
    let mut full = false;
    {
        let mut w = file.writer().map_err(|e| format!("writer: {}", e))?;
        let mut rest = &data[..];
        let style = r.below(4);
        loop {
            if rest.is_empty() {
                break;
            }
            if r.chance(1, 40) {
                // a second writer from the same file handle
                drop(w);
                w = file.writer().map_err(|e| format!("second writer: {}", e))?;
            }
            if r.chance(1, 60) {
                // the file gets another name while it is being written
                let to = format!("RN{:06X}", r.below(0x1000000)).into_bytes();
                if find_slot(&before, &to).is_none() && s.files.iter().all(|f| f.name != to) {
                    s.d().rename(&ps(&name), &ps(&to)).map_err(|e| format!("rename of an open file: {}", e))?;
                    s.files[idx].name = to.clone();
                    name = to;
                    c.stat("renames while writing", 1);
                }
            }
            let n = match style {
                0 => r.range(1, 5),
                1 => r.range(0, 300),
                2 => *r.pick(&[254usize, 256, 253, 255, 508]),
                _ => rest.len(),
            }
            .min(rest.len());
            match w.write_all(&rest[..n]) {
                Ok(()) => rest = &rest[n..],
                Err(e) => {
                    req!(c, "P06", derr(&e) == Some(DiskError::DiskFull), "write failed with {}", e);
                    full = true;
                    break;
                }
            }
            if r.chance(1, 12) {
                w.flush().map_err(|e| format!("flush: {}", e))?;
            }
        }
        if r.chance(1, 2) {
            w.flush().map_err(|e| format!("flush: {}", e))?;
        }
    }
    let after = s.img();
    let mut want = old.clone();
    want.extend_from_slice(&data);
    let ent2 = find_slot(&after, &name).ok_or_else(|| format!("entry of {:?} lost by writing", name))?;
    let now = after.contents(ent2.first()).map_err(|e| format!("file {:?} broken after write: {:?}", name, e))?;
    if full {
        req!(c, "P06", want.starts_with(&now) && now.len() >= old.len(), "after a full disk {:?} holds {} bytes that are no prefix of the {} written", name, now.len(), want.len());
        req!(c, "P06", now.len() % 254 == 0 && now.len() > 0, "full disk but the last sector of {:?} has room", name);
        req!(c, "P07", before.blocks_free() < want.len() / 254 + 1, "disk full reported with {} blocks free", before.blocks_free());
        c.stat("disk full", 1);
        s.files[idx].data = Some(now);
    } else {
        req!(c, "P06", now == want, "stored {} bytes, written {} ({})", now.len(), want.len(), first_diff(&now, &want));
        s.files[idx].data = Some(want);
    }
    if c.wants("P08") {
        frame(&before, &after, Some(ent.pos), &own, &format!("writing {:?}", name))?;
        let (a, b) = (&ent.raw, &ent2.raw);
        let renamed = ent.name() != name;
        ck!(a[2..5] == b[2..5] && a[21..30] == b[21..30] && (renamed || a[5..21] == b[5..21]), "writing changed the entry beyond its block count");
    }
    c.stat("writes", 1);
    Ok(())
}

/// Two writers open at once on different files.
fn interleaved(c: &mut Ctx, r: &mut Rng, s: &mut St, i: usize, j: usize) -> R {
    let before = s.img();
    let mut data = [vec![], vec![]];
    let mut own: BTreeSet<L> = BTreeSet::new();
    let mut handles = vec![];
    for x in [i, j] {
        let name = s.files[x].name.clone();
        let e = find_slot(&before, &name).ok_or("entry lost")?;
        own.extend(before.occupied(&e).map_err(|e| format!("{:?}", e))?);
        handles.push(s.d().open_file(&ps(&name)).map_err(|e| e.to_string())?);
    }
    {
        let mut ws = vec![];
        for h in &handles {
            ws.push(h.writer().map_err(|e| e.to_string())?);
        }
        let mut dead = [false, false];
        for _ in 0..r.range(2, 30) {
            let w = r.below(2);
            if dead[w] {
                continue;
            }
            let n = build::rand_len(r, 700);
            let d = r.bytes(n);
            match ws[w].write_all(&d) {
                Ok(()) => data[w].extend(d),
                Err(e) => {
                    req!(c, "P06", derr(&e) == Some(DiskError::DiskFull), "write failed with {}", e);
                    dead[w] = true;
                    data[w].extend(d);
                }
            }
            if r.chance(1, 5) {
                ws[w].flush().map_err(|e| e.to_string())?;
            }
        }
        if dead[0] || dead[1] {
            // prefix only; learn it from the image afterwards
        }
        drop(ws);
        let after = s.img();
        for (w, x) in [i, j].iter().enumerate() {
            let name = s.files[*x].name.clone();
            let e = find_slot(&after, &name).ok_or("entry lost")?;
            let now = after.contents(e.first()).map_err(|e| format!("{:?} broken: {:?}", name, e))?;
            let mut want = s.files[*x].data.clone().unwrap();
            want.extend_from_slice(&data[w]);
            if dead[w] {
                req!(c, "P06", want.starts_with(&now), "interleaved write: {:?} holds no prefix", name);
            } else {
                req!(c, "P06", now == want, "interleaved write: {:?} holds {} bytes, written {}", name, now.len(), want.len());
            }
            s.files[*x].data = Some(now);
        }
        if c.wants("P08") {
            let mut b = before.clone();
            for x in [i, j] {
                // both entries may change; take the second one's bytes as given
                let e = find_slot(&after, &s.files[x].name).ok_or("entry lost")?;
                b.sec_mut(e.pos.0)[e.pos.1 + 30..e.pos.1 + 32].copy_from_slice(&e.raw[30..32]);
            }
            frame(&b, &after, None, &own, "interleaved writes")?;
        }
    }
    c.stat("interleaved writes", 1);
    Ok(())
}

fn create(c: &mut Ctx, r: &mut Rng, s: &mut St) -> R {
    let name = match r.below(8) {
        0 if !s.files.is_empty() => s.files[r.below(s.files.len())].name.clone(),
        1 => {
            let n = r.range(17, 24);
            let mut v = r.bytes(n);
            v[n - 1] = b'X';
            v
        }
        _ => build::rand_name(r),
    };
    let (ft, typ) = match r.below(3) {
        0 => (FileType::SEQ, 1),
        1 => (FileType::PRG, 2),
        _ => (FileType::USR, 3),
    };
    let before = s.img();
    let exists = s.files.iter().any(|f| f.name == name);
    let res = s.d().create_file(&ps(&name), ft, Scheme::Linear);
    let after = s.img();
    s.log.push(format!("create {:?} -> {}", name, res.is_ok()));
    match res {
        Err(e) => {
            let de = derr(&e);
            if name.len() > 16 {
                req!(c, "P11", de == Some(DiskError::FilenameTooLong), "overlong name: {}", e);
                req!(c, "P11", diff(&before, &after).is_empty(), "refused name changed the image");
            } else if exists {
                req!(c, "P11", de == Some(DiskError::FileExists), "existing name: {}", e);
                req!(c, "P11", diff(&before, &after).is_empty(), "refused name changed the image");
            } else {
                req!(c, "P07", de == Some(DiskError::DiskFull), "create {:?} failed with {}", name, e);
                let room = before.slots().map_err(|e| format!("{:?}", e))?.iter().any(|e| e.scratched());
                let dir_room = before.bam()[s.k.dir_track() as usize].map != 0;
                req!(c, "P07", before.blocks_free() == 0 || (!room && !dir_room), "create refused with {} blocks free and room in the directory", before.blocks_free());
                c.stat("creates refused: full", 1);
            }
            if c.wants("P08") {
                frame(&before, &after, None, &BTreeSet::new(), "refused create")?;
            }
        }
        Ok(f) => {
            req!(c, "P11", name.len() <= 16, "overlong name {:?} accepted", name);
            req!(c, "P11", !exists, "a second file {:?} was created", name);
            if name.len() > 16 || exists {
                return Ok(());
            }
            drop(f);
            let e = find_slot(&after, &name).ok_or_else(|| format!("created file {:?} not in the directory", name))?;
            req!(c, "P11", e.typ() == typ && e.raw[2] == 0x80 | typ, "created with type byte {:02x}", e.raw[2]);
            if c.wants("P08") {
                frame(&before, &after, Some(e.pos), &BTreeSet::new(), "create")?;
                let was = before.slots().unwrap().into_iter().find(|x| x.pos == e.pos);
                ck!(was.map_or(true, |w| w.scratched()), "create overwrote an existing entry");
            }
            s.files.push(MF { name, typ, data: Some(vec![]) });
            c.stat("creates", 1);
        }
    }
    Ok(())
}

fn rename(c: &mut Ctx, r: &mut Rng, s: &mut St) -> R {
    if s.files.is_empty() {
        return Ok(());
    }
    let missing = r.chance(1, 10);
    let i = r.below(s.files.len());
    let from = if missing { b"NO SUCH FILE!!".to_vec() } else { s.files[i].name.clone() };
    let to = match r.below(6) {
        0 => s.files[r.below(s.files.len())].name.clone(),
        1 => {
            let n = r.range(17, 20);
            let mut v = r.bytes(n);
            v[n - 1] = 1;
            v
        }
        _ => build::rand_name(r),
    };
    let before = s.img();
    let exists = s.files.iter().any(|f| f.name == to);
    let res = s.d().rename(&ps(&from), &ps(&to));
    let after = s.img();
    s.log.push(format!("rename {:?} {:?} -> {}", from, to, res.is_ok()));
    let ok = !missing && to.len() <= 16 && !exists;
    match res {
        Ok(()) => {
            req!(c, "P11", ok, "rename of {:?} to {:?} accepted", from, to);
            if !ok {
                return Ok(());
            }
            let e = find_slot(&before, &from).ok_or("entry lost")?;
            if c.wants("P11") {
                let o = s.k.offset(e.pos.0) + e.pos.1 + 5;
                let mut want = before.clone();
                for x in 0..16 {
                    want.b[o + x] = if x < to.len() { to[x] } else { 0xA0 };
                }
                let d = diff(&want, &after);
                ck!(d.is_empty(), "rename changed byte {:?}", where_is(s.k, d[0]));
            }
            if c.wants("P08") {
                frame(&before, &after, Some(e.pos), &BTreeSet::new(), "rename")?;
            }
            s.files[i].name = to;
            c.stat("renames", 1);
        }
        Err(e) => {
            req!(c, "P11", !ok, "rename {:?} to {:?} refused: {}", from, to, e);
            let de = derr(&e);
            let good = (missing && de == Some(DiskError::NotFound)) || (to.len() > 16 && de == Some(DiskError::FilenameTooLong)) || (exists && de == Some(DiskError::FileExists));
            req!(c, "P11", good, "refused rename gave {}", e);
            req!(c, "P11", diff(&before, &after).is_empty(), "refused rename changed the image");
            if c.wants("P08") {
                frame(&before, &after, None, &BTreeSet::new(), "refused rename")?;
            }
        }
    }
    Ok(())
}

fn delete(c: &mut Ctx, r: &mut Rng, s: &mut St) -> R {
    if s.files.is_empty() {
        return Ok(());
    }
    let i = r.below(s.files.len());
    let name = s.files[i].name.clone();
    let before = s.img();
    let ent = find_slot(&before, &name).ok_or_else(|| format!("entry of {:?} lost", name))?;
    let occ: BTreeSet<L> = before.occupied(&ent).map_err(|e| format!("{:?} broken: {:?}", name, e))?.into_iter().collect();
    let mut f = s.d().open_file(&ps(&name)).map_err(|e| format!("open {:?}: {}", name, e))?;
    f.delete().map_err(|e| format!("delete {:?}: {}", name, e))?;
    let after = s.img();
    s.log.push(format!("delete {:?} {:?}", name, ent.scheme()));
    if c.wants("P09") {
        let mut want = before.clone();
        for l in &occ {
            want.mark(*l, true);
        }
        let mut exp = want.bam();
        // counts follow the bits
        for t in 1..=s.k.bam_tracks() {
            exp[t as usize].count = exp[t as usize].map.count_ones() as u8;
        }
        let got = after.bam();
        for t in 1..=s.k.bam_tracks() as usize {
            ck!(got[t] == exp[t], "delete of {:?} ({:?}): track {} map {:x}/{} expected {:x}/{}", name, ent.scheme(), t, got[t].map, got[t].count, exp[t].map, exp[t].count);
        }
        let e2 = after.slots().map_err(|e| format!("{:?}", e))?.into_iter().find(|x| x.pos == ent.pos).ok_or("slot lost")?;
        ck!(e2.scratched(), "entry of {:?} still listed", name);
        let mut w2 = want.clone();
        w2.sec_mut(ent.pos.0)[ent.pos.1 + 2] = e2.raw[2];
        let d = diff(&w2, &after);
        ck!(d.is_empty(), "delete of {:?} changed byte {:?}", name, where_is(s.k, d[0]));
        match s.d().open_file(&ps(&name)) {
            Ok(_) => return Err(format!("deleted file {:?} still opens", name)),
            Err(e) => ck!(derr(&e) == Some(DiskError::NotFound), "opening deleted file: {}", e),
        }
    }
    if c.wants("P08") {
        frame(&before, &after, Some(ent.pos), &occ, "delete")?;
    }
    s.files.remove(i);
    c.stat(&format!("deletes {:?}", ent.scheme()), 1);
    Ok(())
}

pub fn run(c: &mut Ctx) {
    let n = c.n(14);
    for k in KINDS {
        for variant in 0..n {
            let err = variant % 4 == 1;
            let geos = variant % 5 == 2;
            let foreign = variant % 2 == 1;
            c.case(&format!("{:?} history {} err={} geos={} foreign={}", k, variant, err, geos, foreign), |c, r| history(c, r, k, err, geos, foreign));
        }
    }
    if c.wants("P09") {
        damaged(c);
        large(c);
    }
    if c.wants("P07") || c.wants("P08") || c.wants("P11") {
        refused(c);
    }
    if c.wants("P11") || c.wants("P08") {
        images(c);
    }
}

fn history(c: &mut Ctx, r: &mut Rng, k: Kind, err: bool, geos: bool, foreign: bool) -> R {
    let path = c.path(&format!("h.{}", k.ext()));
    let mut img = Img { k, b: r.bytes(k.size(err)) };
    let mut s = St { k, path: path.clone(), files: vec![], d: None, log: vec![] };
    if geos || foreign || r.chance(1, 2) {
        img.format(b"HISTORY", *b"HI");
        if geos {
            let b = loop {
                let b = *r.pick(&k.all());
                if k.in_bam(b) && b.0 != k.reserved() && img.is_free(b) {
                    break b;
                }
            };
            img.make_geos(b);
        }
        if foreign {
            for i in 0..r.range(1, 10) {
                let mut name = build::rand_name(r);
                name.truncate(12);
                name.push(b'a' + i as u8);
                let keep = img.clone();
                match build::any_file(&mut img, r, &name) {
                    Some(_) => {
                        let e = find_slot(&img, &name).unwrap();
                        let data = if e.scheme() == Sch::Linear { img.contents(e.first()).ok() } else { None };
                        s.files.push(MF { name, typ: e.typ(), data });
                    }
                    None => img = keep,
                }
            }
        }
        if r.chance(1, 2) {
            litter(&mut img, r);
        }
        save(&path, &img);
        s.d = Some(open(&path, true)?);
    } else {
        save(&path, &img);
        s.d = Some(open(&path, true)?);
        s.d().write_format(&ps(b"HISTORY"), &Id::from_bytes(b"HI")).map_err(|e| e.to_string())?;
    }
    check_all(c, r, &mut s, true)?;
    let big = k.total_blocks() * 254;
    let ops = if r.chance(1, 5) { 160 } else { 40 };
    let many = ops > 100; // many small files: the directory fills up
    for step in 0..ops {
        let lin: Vec<usize> = (0..s.files.len()).filter(|i| s.files[*i].data.is_some()).collect();
        let pick = if lin.is_empty() { 0 } else { lin[r.below(lin.len())] };
        let res = match r.below(if many { 10 } else { 16 }) {
            0..=3 => create(c, r, &mut s),
            4 => rename(c, r, &mut s),
            5 if !many || r.chance(1, 3) => delete(c, r, &mut s),
            6..=7 if many => create(c, r, &mut s),
            8 => {
                // close and open again
                s.d = None;
                s.d = Some(open(&path, true)?);
                check_all(c, r, &mut s, false)
            }
            9 if lin.len() >= 2 => {
                let a = lin[r.below(lin.len())];
                let b = lin[r.below(lin.len())];
                if a != b {
                    interleaved(c, r, &mut s, a, b)
                } else {
                    Ok(())
                }
            }
            10 if !lin.is_empty() && r.chance(1, 5) => write_file(c, r, &mut s, pick, big),
            _ if !lin.is_empty() => {
                let l = if many { build::rand_len(r, 900) } else { build::rand_len(r, 30000) };
                write_file(c, r, &mut s, pick, l)
            }
            _ => create(c, r, &mut s),
        };
        c.tick();
        c.stat("operations", 1);
        let res = res.and_then(|_| check_all(c, r, &mut s, false));
        if let Err(m) = res {
            let from = s.log.len().saturating_sub(6);
            return Err(format!("step {}: {} (last directory operations: {:?})", step, m, &s.log[from..]));
        }
    }
    s.d = None;
    s.d = Some(open(&path, false)?);
    check_all(c, r, &mut s, true)
}

/// Overwrite the sectors nobody uses.
fn litter(img: &mut Img, r: &mut Rng) {
    let k = img.k;
    for l in k.all() {
        if k.in_bam(l) && img.is_free(l) {
            let b = r.bytes(256);
            img.sec_mut(l).copy_from_slice(&b);
        }
    }
}

/// Creation refused on a full disk whose directory has no room in its sectors.
fn refused(c: &mut Ctx) {
    let n = c.n(8);
    for k in KINDS {
        for i in 0..n {
            c.case(&format!("{:?} refused creation {}", k, i), |c, r| {
                let path = c.path(&format!("f.{}", k.ext()));
                let mut img = Img::blank(k, false);
                img.format(b"REFUSED", *b"RF");
                if r.chance(1, 3) {
                    img.make_geos((20, 5));
                }
                let m = 8 * r.range(1, 4) - if r.chance(1, 4) { r.below(8) } else { 0 };
                let mut left = m;
                let all = r.chance(2, 3);
                while left > 1 {
                    build::linear(&mut img, r, format!("S{}", left).as_bytes(), 0x82, b"X").ok_or("no room")?;
                    left -= 1;
                }
                // the last one takes the rest of the disk, or leaves a sector or two
                let spare = if all { 0 } else { r.range(1, 2) };
                let rest = img.blocks_free() - spare;
                let d = r.bytes(rest * 254);
                build::linear(&mut img, r, b"REST", 0x81, &d).ok_or("no room for the rest")?;
                litter(&mut img, r);
                save(&path, &img);
                let names0: Vec<Vec<u8>> = img.files().map_err(|e| format!("{:?}", e))?.iter().map(|e| e.name()).collect();
                let mut dk = open(&path, true)?;
                for t in 0..3 {
                    let before = load(&path, k);
                    let free = before.blocks_free();
                    let nm = format!("NEW{}", t);
                    let res = dk.create_file(&ps(nm.as_bytes()), FileType::PRG, Scheme::Linear);
                    let after = load(&path, k);
                    after.accounting().map_err(|e| format!("after creating with {} blocks free: {}", free, e))?;
                    let mut want = before.files().map_err(|e| format!("{:?}", e))?.iter().map(|e| e.name()).collect::<Vec<_>>();
                    match res {
                        Ok(_) => {
                            ck!(free > 0, "file created on a full disk");
                            want.push(nm.into_bytes());
                        }
                        Err(e) => {
                            ck!(free == 0, "creation refused with {} blocks free: {}", free, e);
                            ck!(derr(&e) == Some(DiskError::DiskFull), "creation on a full disk: {}", e);
                        }
                    }
                    let mut names: Vec<Vec<u8>> = dk.directory().map_err(|e| e.to_string())?.iter().map(|e| e.filename.as_bytes().to_vec()).collect();
                    names.sort();
                    want.sort();
                    ck!(names == want, "listing after a creation: {:?}, expected {:?}", names, want);
                    let v = dk.validate().map_err(|e| e.to_string())?;
                    ck!(v.is_empty(), "validation after a creation: {:?}", v);
                }
                ck!(names0.len() == m, "setup");
                // room again: the slots behave
                dk.open_file(&ps(b"REST")).and_then(|mut f| f.delete()).map_err(|e| e.to_string())?;
                for t in 0..10 {
                    let nm = format!("AGAIN{}", t);
                    dk.create_file(&ps(nm.as_bytes()), FileType::PRG, Scheme::Linear).map_err(|e| e.to_string())?;
                }
                load(&path, k).accounting()?;
                let v = dk.validate().map_err(|e| e.to_string())?;
                ck!(v.is_empty(), "validation at the end: {:?}", v);
                c.stat("refused creations", 1);
                Ok(())
            });
        }
    }
}

/// P09: deletion of files of several hundred sectors.
fn large(c: &mut Ctx) {
    let n = c.n(4);
    for k in [Kind::D64, Kind::D71, Kind::D81] {
        for i in 0..n {
            c.case(&format!("{:?} large file {}", k, i), |c, r| {
                let path = c.path(&format!("l.{}", k.ext()));
                let mut img = Img::blank(k, false);
                img.format(b"LARGE", *b"LL");
                let bytes = r.range(254 * 250, if k == Kind::D64 { 150_000 } else { 250_000 });
                let m = match i % 4 {
                    0 => {
                        let d = r.bytes(bytes);
                        build::linear(&mut img, r, b"VICTIM", 0x82, &d)
                    }
                    1 => {
                        let d = r.bytes(bytes);
                        build::gseq(&mut img, r, b"VICTIM", &d, true)
                    }
                    2 => {
                        let mut recs = vec![];
                        for _ in 0..r.range(100, 126) {
                            let l = r.range(1, bytes / 160);
                            recs.push(if r.chance(1, 10) { None } else { Some(r.bytes(l)) });
                        }
                        build::vlir(&mut img, r, b"VICTIM", &recs, true)
                    }
                    _ => {
                        let n = 508 + 2 * r.below(300);
                        build::rel(&mut img, r, b"VICTIM", 127, n)
                    }
                };
                let m = match m {
                    Some(m) => m,
                    None => return Ok(()),
                };
                save(&path, &img);
                let d = open(&path, true)?;
                let mut f = d.open_file(&ps(b"VICTIM")).map_err(|e| e.to_string())?;
                f.delete().map_err(|e| e.to_string())?;
                drop(f);
                d.blocks_ref_mut().flush().map_err(|e| e.to_string())?;
                let after = load(&path, k);
                let mut want = img.clone();
                for l in &m.locs {
                    want.mark(*l, true);
                }
                let o = k.offset(m.pos.0) + m.pos.1 + 2;
                want.b[o] = after.b[o]; // type and closed flag: the file must be gone
                ck!(after.files().map_err(|e| format!("{:?}", e))?.is_empty(), "deleted file is still listed");
                let df = diff(&want, &after);
                ck!(df.is_empty(), "deletion of a file of {} sectors: byte {:?} differs", m.locs.len(), where_is(k, df[0]));
                c.stat("large files deleted", 1);
                Ok(())
            });
        }
    }
}

/// P09: deletion of damaged files is all or nothing.
fn damaged(c: &mut Ctx) {
    let n = c.n(220);
    for k in KINDS {
        for i in 0..n {
            c.case(&format!("{:?} damaged file {}", k, i), |c, r| {
                let path = c.path(&format!("d.{}", k.ext()));
                let mut img = Img::blank(k, false);
                img.format(b"DAMAGED", *b"DD");
                let m = match build::any_file(&mut img, r, b"VICTIM") {
                    Some(m) => m,
                    None => return Ok(()),
                };
                let other = build::any_file(&mut img, r, b"OTHER");
                let _ = other;
                // damage: a random link or pointer of the file
                let l = *r.pick(&m.locs);
                let o = img.k.offset(l);
                match r.below(5) {
                    0 => {
                        img.b[o] = r.byte();
                        img.b[o + 1] = r.byte();
                    }
                    1 => {
                        let x = *r.pick(&m.locs);
                        img.b[o] = x.0;
                        img.b[o + 1] = x.1;
                    }
                    2 => {
                        let p = 2 + 2 * r.below(12);
                        img.b[o + p] = r.byte();
                        img.b[o + p + 1] = r.byte();
                    }
                    3 => {
                        // points at a track the free-space map does not cover
                        img.b[o] = *r.pick(&[36u8, 40, 41, 71, 81, 255]);
                        img.b[o + 1] = r.below(20) as u8;
                    }
                    _ => {
                        let p = r.range(0x15, 0x18);
                        let e = img.k.offset(m.pos.0) + m.pos.1 + p;
                        img.b[e] = r.byte();
                    }
                }
                if k == Kind::D64x40 && r.chance(1, 2) {
                    // a valid sector outside the free-space map
                    img.b[o] = 38;
                    img.b[o + 1] = 3;
                    let o2 = img.k.offset((38, 3));
                    img.b[o2] = 0;
                    img.b[o2 + 1] = 9;
                }
                save(&path, &img);
                let d = open(&path, true)?;
                let bam0 = d.bam().unwrap();
                let snap: Vec<(u64, u8)> = (1..=k.bam_tracks()).map(|t| (bam0.borrow().entry(t).unwrap().sector_map(), bam0.borrow().entry(t).unwrap().free_sectors)).collect();
                let entry = match d.find_directory_entry(&ps(b"VICTIM")) {
                    Ok(e) => e,
                    Err(e) => return Err(format!("lookup: {}", e)),
                };
                let res = d.open_file_from_entry(&entry).and_then(|mut f| f.delete());
                let after = load(&path, k);
                let now: Vec<(u64, u8)> = (1..=k.bam_tracks()).map(|t| (bam0.borrow().entry(t).unwrap().sector_map(), bam0.borrow().entry(t).unwrap().free_sectors)).collect();
                match res {
                    Err(_) => {
                        ck!(after.b == img.b, "refused deletion changed the image");
                        ck!(snap == now, "refused deletion changed the free-space map in memory");
                        c.stat("refused deletions", 1);
                    }
                    Ok(()) => {
                        // what was freed is at least consistent: map and stored map agree
                        let st: Vec<(u64, u8)> = (1..=k.bam_tracks()).map(|t| (after.bam()[t as usize].map, after.bam()[t as usize].count)).collect();
                        ck!(st == now, "free-space map in memory differs from the stored one");
                        c.stat("deletions of damaged files accepted", 1);
                    }
                }
                Ok(())
            });
        }
    }
}

/// P11: listing and lookup on directories with arbitrary entries.
fn images(c: &mut Ctx) {
    let n = c.n(if c.wants("P11") { 120 } else { 40 });
    for k in KINDS {
        for i in 0..n {
            c.case(&format!("{:?} directory {}", k, i), |c, r| {
                let path = c.path(&format!("n.{}", k.ext()));
                let mut img = Img::blank(k, false);
                img.format(b"NAMES", *b"NN");
                if r.chance(1, 3) {
                    img.make_geos((19, 3));
                    let b = r.bytes(256);
                    let s = img.sec_mut((19, 3));
                    s[2..].copy_from_slice(&b[2..]);
                    if r.chance(1, 2) {
                        for x in 0..8 {
                            s[x * 32 + 2] = 0;
                        }
                    }
                }
                // a chain of directory sectors with random contents
                let dt = k.dir_track();
                let mut secs: Vec<L> = (0..k.spt(dt)).map(|s| (dt, s)).filter(|l| img.is_free(*l)).collect();
                r.shuffle(&mut secs);
                secs.truncate(r.below(5));
                secs.insert(0, k.first_dir());
                let pool: Vec<Vec<u8>> = (0..4).map(|_| build::rand_name(r)).collect();
                for (j, l) in secs.iter().enumerate() {
                    img.mark(*l, false);
                    let b = r.bytes(256);
                    let next = secs.get(j + 1).cloned();
                    let last = if r.chance(1, 4) { r.range(1, 255) as u8 } else { 255 };
                    let mut names = vec![];
                    for _ in 0..8 {
                        names.push(if r.chance(1, 2) { pool[r.below(4)].clone() } else { build::rand_name(r) });
                    }
                    let scr: Vec<bool> = (0..8).map(|_| r.chance(1, 3)).collect();
                    let s = img.sec_mut(*l);
                    s.copy_from_slice(&b);
                    for x in 0..8 {
                        for y in 0..16 {
                            s[x * 32 + 5 + y] = *names[x].get(y).unwrap_or(&0xA0);
                        }
                        if r.chance(1, 5) {
                            // listed, with a size of zero
                            s[x * 32 + 2] = *r.pick(&[0x80u8, 0x81, 0x82, 0xC0, 0x02]);
                            s[x * 32 + 30] = 0;
                            s[x * 32 + 31] = 0;
                        }
                        if scr[x] {
                            s[x * 32 + 2] = 0;
                        }
                    }
                    match next {
                        Some(nx) => {
                            s[0] = nx.0;
                            s[1] = nx.1;
                        }
                        None => {
                            s[0] = 0;
                            s[1] = last;
                        }
                    }
                }
                save(&path, &img);
                let mut s = St { k, path: path.clone(), files: vec![], d: Some(open(&path, true)?), log: vec![] };
                check_names(c, r, &mut s, &img)?;
                // rename on such a directory
                let files = img.files().map_err(|e| format!("{:?}", e))?;
                for _ in 0..4 {
                    if files.is_empty() {
                        break;
                    }
                    let before = s.img();
                    let names: Vec<Vec<u8>> = before.files().unwrap().iter().map(|e| e.name()).collect();
                    let from = names[r.below(names.len())].clone();
                    if from.last() == Some(&0xA0) {
                        continue;
                    }
                    let to = if r.chance(1, 3) { names[r.below(names.len())].clone() } else { build::rand_name(r) };
                    let res = s.d().rename(&ps(&from), &ps(&to));
                    let after = s.img();
                    if names.contains(&to) {
                        ck!(res.is_err() && derr(&res.unwrap_err()) == Some(DiskError::FileExists), "rename to the existing name {:?} not refused", to);
                        ck!(diff(&before, &after).is_empty(), "refused rename changed the image");
                    } else {
                        ck!(res.is_ok(), "rename {:?} {:?}: {:?}", from, to, res);
                        let e = find_slot(&before, &from).unwrap();
                        let o = k.offset(e.pos.0) + e.pos.1 + 5;
                        let mut want = before.clone();
                        for x in 0..16 {
                            want.b[o + x] = if x < to.len() { to[x] } else { 0xA0 };
                        }
                        let d = diff(&want, &after);
                        ck!(d.is_empty(), "rename of {:?} to {:?} changed byte {:?}", from, to, where_is(k, d[0]));
                    }
                    c.stat("renames", 1);
                }
                Ok(())
            });
        }
    }
}
