//! Independent description of the CBM disk formats: geometry, BAM, header,
//! directory, chains, files and the allocation algorithm, computed on raw image
//! bytes.  Nothing here calls the crate under test; the numbers come from the
//! format documents (D64.TXT, D71.TXT, D81.TXT, DISK.TXT, GEOS.TXT), not from
//! the crate's tables.
use std::collections::{BTreeMap, BTreeSet};

pub type L = (u8, u8);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    D64,
    D64x40,
    D71,
    D81,
}
pub const KINDS: [Kind; 4] = [Kind::D64, Kind::D64x40, Kind::D71, Kind::D81];

fn spt1541(t: u8) -> u8 {
    match t {
        1..=17 => 21,
        18..=24 => 19,
        25..=30 => 18,
        31..=40 => 17,
        _ => 0,
    }
}

impl Kind {
    /// tracks physically present
    pub fn tracks(self) -> u8 {
        match self {
            Kind::D64 => 35,
            Kind::D64x40 => 40,
            Kind::D71 => 70,
            Kind::D81 => 80,
        }
    }
    /// tracks covered by the BAM
    pub fn bam_tracks(self) -> u8 {
        match self {
            Kind::D64 | Kind::D64x40 => 35,
            Kind::D71 => 70,
            Kind::D81 => 80,
        }
    }
    pub fn spt(self, t: u8) -> u8 {
        if t == 0 || t > self.tracks() {
            return 0;
        }
        match self {
            Kind::D64 | Kind::D64x40 => spt1541(t),
            Kind::D71 => {
                if t <= 35 {
                    spt1541(t)
                } else {
                    spt1541(t - 35)
                }
            }
            Kind::D81 => 40,
        }
    }
    pub fn valid(self, l: L) -> bool {
        l.1 < self.spt(l.0)
    }
    pub fn in_bam(self, l: L) -> bool {
        l.0 >= 1 && l.0 <= self.bam_tracks() && self.valid(l)
    }
    pub fn offset(self, l: L) -> usize {
        assert!(self.valid(l));
        let mut n = 0usize;
        for t in 1..l.0 {
            n += self.spt(t) as usize;
        }
        (n + l.1 as usize) * 256
    }
    pub fn sectors(self) -> usize {
        (1..=self.tracks()).map(|t| self.spt(t) as usize).sum()
    }
    pub fn size(self, err: bool) -> usize {
        self.sectors() * if err { 257 } else { 256 }
    }
    pub fn dir_track(self) -> u8 {
        if self == Kind::D81 {
            40
        } else {
            18
        }
    }
    pub fn first_dir(self) -> L {
        if self == Kind::D81 {
            (40, 3)
        } else {
            (18, 1)
        }
    }
    pub fn header(self) -> L {
        (self.dir_track(), 0)
    }
    pub fn reserved(self) -> u8 {
        if self == Kind::D71 {
            53
        } else {
            0
        }
    }
    pub fn interleave(self) -> (u8, u8) {
        match self {
            Kind::D64 | Kind::D64x40 => (10, 3),
            Kind::D71 => (6, 3),
            Kind::D81 => (1, 1),
        }
    }
    pub fn total_blocks(self) -> usize {
        match self {
            Kind::D64 | Kind::D64x40 => 664,
            Kind::D71 => 1328,
            Kind::D81 => 3160,
        }
    }
    pub fn ext(self) -> &'static str {
        match self {
            Kind::D64 | Kind::D64x40 => "d64",
            Kind::D71 => "d71",
            Kind::D81 => "d81",
        }
    }
    pub fn system(self) -> BTreeSet<L> {
        let mut s = BTreeSet::new();
        match self {
            Kind::D64 | Kind::D64x40 => {
                s.insert((18, 0));
                s.insert((18, 1));
            }
            Kind::D71 => {
                s.insert((18, 0));
                s.insert((18, 1));
                for i in 0..19 {
                    s.insert((53, i));
                }
            }
            Kind::D81 => {
                for i in 0..4 {
                    s.insert((40, i));
                }
            }
        }
        s
    }
    /// (location, offset) of the free count and (location, offset, size) of the bitmap
    pub fn bam_pos(self, t: u8) -> ((L, usize), (L, usize, usize)) {
        match self {
            Kind::D64 | Kind::D64x40 => {
                let o = 4 * t as usize;
                (((18, 0), o), ((18, 0), o + 1, 3))
            }
            Kind::D71 => {
                if t <= 35 {
                    let o = 4 * t as usize;
                    (((18, 0), o), ((18, 0), o + 1, 3))
                } else {
                    let i = (t - 36) as usize;
                    (((18, 0), 0xDD + i), ((53, 0), 3 * i, 3))
                }
            }
            Kind::D81 => {
                let (s, i) = if t <= 40 { (1, t - 1) } else { (2, t - 41) };
                let o = 0x10 + 6 * i as usize;
                (((40, s), o), ((40, s), o + 1, 5))
            }
        }
    }
    pub fn all(self) -> Vec<L> {
        let mut v = vec![];
        for t in 1..=self.tracks() {
            for s in 0..self.spt(t) {
                v.push((t, s));
            }
        }
        v
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct BamT {
    pub count: u8,
    pub map: u64,
}
/// index 0 unused
pub type BamM = Vec<BamT>;

#[derive(Clone)]
pub struct Img {
    pub k: Kind,
    pub b: Vec<u8>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CErr {
    Loop,
    Location,
    Link,
    Rel,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Chain {
    pub locs: Vec<L>,
    pub data: Vec<Vec<u8>>, // without link bytes
    pub err: Option<CErr>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ent {
    pub pos: (L, usize),
    pub raw: Vec<u8>, // 32 bytes
    pub border: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sch {
    Linear,
    Rel,
    GSeq,
    Vlir,
}

impl Ent {
    pub fn name(&self) -> Vec<u8> {
        let mut n = self.raw[5..21].to_vec();
        while n.last() == Some(&0xA0) {
            n.pop();
        }
        n
    }
    pub fn typ(&self) -> u8 {
        self.raw[2] & 0x0F
    }
    pub fn scratched(&self) -> bool {
        self.raw[2] & 0x8F == 0
    }
    pub fn first(&self) -> L {
        (self.raw[3], self.raw[4])
    }
    pub fn blocks(&self) -> u16 {
        self.raw[30] as u16 | (self.raw[31] as u16) << 8
    }
    pub fn scheme(&self) -> Sch {
        let structure = self.raw[0x17];
        let gtype = self.raw[0x18];
        if self.typ() == 4 {
            Sch::Rel
        } else if self.raw[2] & 7 < 4 && structure <= 1 && (structure != 0 || gtype != 0) {
            if structure == 1 {
                Sch::Vlir
            } else {
                Sch::GSeq
            }
        } else {
            Sch::Linear
        }
    }
    pub fn info(&self) -> Option<L> {
        let l = (self.raw[0x15], self.raw[0x16]);
        if l == (0, 0) {
            None
        } else {
            Some(l)
        }
    }
}

impl Img {
    pub fn blank(k: Kind, err: bool) -> Img {
        Img { k, b: vec![0; k.size(err)] }
    }
    pub fn sec(&self, l: L) -> &[u8] {
        let o = self.k.offset(l);
        &self.b[o..o + 256]
    }
    pub fn sec_mut(&mut self, l: L) -> &mut [u8] {
        let o = self.k.offset(l);
        &mut self.b[o..o + 256]
    }
    pub fn bam(&self) -> BamM {
        let mut v = vec![BamT { count: 0, map: 0 }];
        for t in 1..=self.k.bam_tracks() {
            let ((cl, co), (bl, bo, bs)) = self.k.bam_pos(t);
            let mut map = 0u64;
            for i in 0..bs {
                map |= (self.sec(bl)[bo + i] as u64) << (8 * i);
            }
            v.push(BamT { count: self.sec(cl)[co], map });
        }
        v
    }
    pub fn set_bam(&mut self, bam: &BamM) {
        for t in 1..=self.k.bam_tracks() {
            let ((cl, co), (bl, bo, bs)) = self.k.bam_pos(t);
            let e = bam[t as usize].clone();
            self.sec_mut(cl)[co] = e.count;
            for i in 0..bs {
                self.sec_mut(bl)[bo + i] = (e.map >> (8 * i)) as u8;
            }
        }
    }
    pub fn is_free(&self, l: L) -> bool {
        let (_, (bl, bo, _)) = self.k.bam_pos(l.0);
        self.sec(bl)[bo + l.1 as usize / 8] >> (l.1 % 8) & 1 == 1
    }
    pub fn mark(&mut self, l: L, free: bool) {
        let mut b = self.bam();
        let e = &mut b[l.0 as usize];
        if free {
            e.map |= 1 << l.1;
        } else {
            e.map &= !(1 << l.1);
        }
        e.count = e.map.count_ones() as u8;
        self.set_bam(&b);
    }
    pub fn allocated(&self) -> BTreeSet<L> {
        let b = self.bam();
        let mut s = BTreeSet::new();
        for t in 1..=self.k.bam_tracks() {
            for i in 0..self.k.spt(t) {
                if b[t as usize].map >> i & 1 == 0 {
                    s.insert((t, i));
                }
            }
        }
        s
    }
    pub fn chain(&self, start: L) -> Chain {
        let mut c = Chain { locs: vec![], data: vec![], err: None };
        let mut seen = BTreeSet::new();
        let mut l = start;
        loop {
            if !seen.insert(l) {
                c.err = Some(CErr::Loop);
                return c;
            }
            if !self.k.valid(l) {
                c.err = Some(CErr::Location);
                return c;
            }
            let s = self.sec(l);
            if s[0] == 0 {
                if s[1] == 0 {
                    c.err = Some(CErr::Link);
                    return c;
                }
                c.locs.push(l);
                c.data.push(s[2..s[1] as usize + 1].to_vec());
                return c;
            }
            c.locs.push(l);
            c.data.push(s[2..].to_vec());
            l = (s[0], s[1]);
        }
    }
    pub fn contents(&self, start: L) -> Result<Vec<u8>, CErr> {
        let c = self.chain(start);
        match c.err {
            Some(e) => Err(e),
            None => Ok(c.data.concat()),
        }
    }
    /// sectors of the chain that starts at the entry's first sector
    pub fn contents_locs(&self, e: &Ent) -> Vec<L> {
        self.chain(e.first()).locs
    }
    pub fn geos_border(&self) -> Option<L> {
        let h = self.sec(self.k.header());
        if &h[0xAD..0xAD + 11] == b"GEOS format" {
            Some((h[0xAB], h[0xAC]))
        } else {
            None
        }
    }
    pub fn dir_chain(&self) -> Chain {
        self.chain(self.k.first_dir())
    }
    /// every 32-byte slot of the directory (chain, then the border block)
    pub fn slots(&self) -> Result<Vec<Ent>, CErr> {
        let c = self.dir_chain();
        if let Some(e) = c.err {
            return Err(e);
        }
        let mut v = vec![];
        for (l, d) in c.locs.iter().zip(c.data.iter()) {
            let used = d.len() + 2;
            for i in 0..used / 32 {
                v.push(Ent { pos: (*l, i * 32), raw: self.sec(*l)[i * 32..i * 32 + 32].to_vec(), border: false });
            }
        }
        if let Some(b) = self.geos_border() {
            if !self.k.valid(b) {
                return Err(CErr::Location);
            }
            for i in 0..8 {
                v.push(Ent { pos: (b, i * 32), raw: self.sec(b)[i * 32..i * 32 + 32].to_vec(), border: true });
            }
        }
        Ok(v)
    }
    pub fn files(&self) -> Result<Vec<Ent>, CErr> {
        Ok(self.slots()?.into_iter().filter(|e| !e.scratched()).collect())
    }
    pub fn vlir_index(&self, l: L) -> Result<Vec<Option<L>>, CErr> {
        if !self.k.valid(l) {
            return Err(CErr::Location);
        }
        let s = self.sec(l);
        let mut v = vec![];
        let mut i = 2;
        while i < 256 {
            let p = (s[i], s[i + 1]);
            if p == (0, 0) {
                break;
            }
            v.push(if p == (0, 255) { None } else { Some(p) });
            i += 2;
        }
        Ok(v)
    }
    /// (data sectors, side sectors, number of records)
    pub fn rel(&self, e: &Ent) -> Result<(Vec<L>, Vec<L>, usize), CErr> {
        let rl = e.raw[0x17] as usize;
        if rl == 0 {
            return Err(CErr::Rel);
        }
        let c = self.chain((e.raw[0x15], e.raw[0x16]));
        let mut data = vec![];
        let mut lists = vec![];
        for (l, d) in c.locs.iter().zip(c.data.iter()) {
            let used = d.len() + 2;
            if used < 16 || used % 2 == 1 {
                return Err(CErr::Rel);
            }
            let s = self.sec(*l);
            let list: Vec<L> = (0..6).map(|i| (s[4 + 2 * i], s[5 + 2 * i])).filter(|l| l.0 != 0).collect();
            lists.push(list);
            let mut i = 16;
            while i < used {
                data.push((s[i], s[i + 1]));
                i += 2;
            }
        }
        if let Some(er) = c.err {
            return Err(er);
        }
        if c.locs.len() > 6 || lists.iter().any(|x| *x != c.locs) {
            return Err(CErr::Rel);
        }
        let mut size = 0;
        if let Some(last) = data.last() {
            if !self.k.valid(*last) {
                return Err(CErr::Location);
            }
            let s = self.sec(*last);
            if s[0] != 0 {
                return Err(CErr::Rel);
            }
            if s[1] == 0 {
                return Err(CErr::Link);
            }
            size = (data.len() - 1) * 254 + s[1] as usize - 1;
        }
        if size % rl != 0 {
            return Err(CErr::Rel);
        }
        Ok((data, c.locs, size / rl))
    }
    /// sectors a file occupies (as the directory structure says)
    pub fn occupied(&self, e: &Ent) -> Result<BTreeSet<L>, CErr> {
        fn ok(c: Chain) -> Result<Vec<L>, CErr> {
            match c.err {
                Some(e) => Err(e),
                None => Ok(c.locs),
            }
        }
        let mut s = BTreeSet::new();
        match e.scheme() {
            Sch::Linear => s.extend(ok(self.chain(e.first()))?),
            Sch::Rel => {
                let (d, ss, _) = self.rel(e)?;
                s.extend(d);
                s.extend(ss);
            }
            Sch::GSeq => {
                s.extend(ok(self.chain(e.first()))?);
                s.extend(e.info());
            }
            Sch::Vlir => {
                let idx = self.vlir_index(e.first())?;
                s.extend(ok(self.chain(e.first()))?);
                s.extend(e.info());
                for l in idx.into_iter().flatten() {
                    s.extend(ok(self.chain(l))?);
                }
            }
        }
        Ok(s)
    }
    /// Space accounting of a disk that should be consistent.
    pub fn accounting(&self) -> Result<(), String> {
        let mut owner: BTreeMap<L, String> = BTreeMap::new();
        for l in self.k.system() {
            owner.insert(l, "system".into());
        }
        let dc = self.dir_chain();
        if let Some(e) = dc.err {
            return Err(format!("directory chain broken: {:?}", e));
        }
        for l in &dc.locs {
            if *l != self.k.first_dir() && owner.insert(*l, "directory".into()).is_some() {
                return Err(format!("directory sector {:?} is a system sector", l));
            }
        }
        if let Some(b) = self.geos_border() {
            owner.insert(b, "border".into());
        }
        let mut used = 0usize;
        for e in self.files().map_err(|e| format!("{:?}", e))? {
            let occ = self.occupied(&e).map_err(|x| format!("file {:?} broken: {:?}", e.name(), x))?;
            for l in &occ {
                if let Some(o) = owner.insert(*l, format!("{:?}", e.name())) {
                    return Err(format!("sector {:?} shared by {} and {:?}", l, o, e.name()));
                }
            }
            if e.blocks() as usize != occ.len() {
                return Err(format!("entry of {:?} says {} blocks, file has {}", e.name(), e.blocks(), occ.len()));
            }
            if occ.iter().any(|l| l.0 == self.k.dir_track() || l.0 == self.k.reserved()) {
                return Err(format!("file {:?} placed on a reserved track: {:?}", e.name(), occ));
            }
            used += occ.len();
        }
        let want: BTreeSet<L> = owner.keys().cloned().collect();
        let got = self.allocated();
        if want != got {
            let a: Vec<_> = want.difference(&got).collect();
            let b: Vec<_> = got.difference(&want).collect();
            return Err(format!("occupied but free: {:?}; in use but unoccupied: {:?}", a, b));
        }
        let bam = self.bam();
        for t in 1..=self.k.bam_tracks() {
            let e = &bam[t as usize];
            if e.count as u32 != e.map.count_ones() {
                return Err(format!("track {} count {} but map {:x}", t, e.count, e.map));
            }
        }
        let free = self.blocks_free();
        let border = match self.geos_border() {
            Some(b) if b.0 != self.k.dir_track() => 1,
            _ => 0,
        };
        if free + used + border != self.k.total_blocks() {
            return Err(format!("{} free + {} used != {}", free, used, self.k.total_blocks()));
        }
        Ok(())
    }
    pub fn blocks_free(&self) -> usize {
        let bam = self.bam();
        (1..=self.k.bam_tracks()).filter(|t| *t != self.k.dir_track()).map(|t| bam[t as usize].count as usize).sum()
    }
    /// a freshly formatted image (independent of the crate's write_format)
    pub fn format(&mut self, name: &[u8], id: [u8; 2]) {
        let k = self.k;
        let n = k.sectors() * 256;
        for b in self.b[..n].iter_mut() {
            *b = 0;
        }
        let mut bam: BamM = vec![BamT { count: 0, map: 0 }];
        let sys = k.system();
        for t in 1..=k.bam_tracks() {
            let mut map = (1u64 << k.spt(t)) - 1;
            for l in &sys {
                if l.0 == t {
                    map &= !(1 << l.1);
                }
            }
            bam.push(BamT { count: map.count_ones() as u8, map });
        }
        self.set_bam(&bam);
        let fd = k.first_dir();
        self.sec_mut(fd)[1] = 0xFF;
        let (no, io, dv, pads, ft, dosv): (usize, usize, usize, &[usize], u8, u8) = match k {
            Kind::D81 => (0x04, 0x16, 0x19, &[0x14, 0x15, 0x18, 0x1B, 0x1C], b'D', b'3'),
            _ => (0x90, 0xA2, 0xA5, &[0xA0, 0xA1, 0xA4, 0xA7, 0xA8, 0xA9, 0xAA], b'A', b'2'),
        };
        let h = self.sec_mut(k.header());
        h[0] = fd.0;
        h[1] = fd.1;
        h[2] = ft;
        if k == Kind::D71 {
            h[3] = 0x80;
        }
        for i in 0..16 {
            h[no + i] = if i < name.len() { name[i] } else { 0xA0 };
        }
        h[io] = id[0];
        h[io + 1] = id[1];
        h[dv] = dosv;
        h[dv + 1] = ft;
        for p in pads {
            h[*p] = 0xA0;
        }
    }
    pub fn header_fields(&self) -> (L, u8, Vec<u8>, [u8; 2], u8, u8) {
        let h = self.sec(self.k.header());
        let (no, io, dv) = match self.k {
            Kind::D81 => (0x04, 0x16, 0x19),
            _ => (0x90, 0xA2, 0xA5),
        };
        ((h[0], h[1]), h[2], h[no..no + 16].to_vec(), [h[io], h[io + 1]], h[dv], h[dv + 1])
    }
    pub fn make_geos(&mut self, border: L) {
        let k = self.k;
        {
            let h = self.sec_mut(k.header());
            h[0xAB] = border.0;
            h[0xAC] = border.1;
            h[0xAD..0xAD + 16].copy_from_slice(b"GEOS format V1.0");
        }
        self.mark(border, false);
        let s = self.sec_mut(border);
        for b in s.iter_mut() {
            *b = 0;
        }
        s[1] = 0xFF;
    }
}

// ---------------------------------------------------------------- allocator
/// The sector the documented algorithm prescribes (None: disk full).
pub fn reference_next(k: Kind, geos: bool, bam: &BamM, prev: Option<L>) -> Option<L> {
    let last = k.bam_tracks();
    let dir = k.dir_track();
    let res = k.reserved();
    let avail = |t: u8| bam[t as usize].map & ((1u64 << k.spt(t)) - 1) != 0;
    let prev = match prev {
        Some(p) => p,
        None => {
            if geos {
                (1, 0)
            } else {
                // nearest track, below before above, lowest sector
                for d in 1..=last {
                    for t in [dir.checked_sub(d), dir.checked_add(d)].iter().flatten() {
                        if *t >= 1 && *t <= last && *t != res && avail(*t) {
                            return Some((*t, bam[*t as usize].map.trailing_zeros() as u8));
                        }
                    }
                }
                return None;
            }
        }
    };
    // ordered list of (track, reset)
    let mut order: Vec<(u8, bool)> = vec![];
    if prev.0 == dir {
        order.push((dir, false));
    } else if geos {
        for t in prev.0..=last {
            order.push((t, false));
        }
        if prev.0 != 1 {
            for t in 1..=last {
                order.push((t, true));
            }
        }
    } else {
        let low: Vec<u8> = (1..dir).rev().collect();
        let high: Vec<u8> = (dir + 1..=last).collect();
        let (own, other) = if prev.0 < dir { (low, high) } else { (high, low) };
        for t in own.iter().filter(|t| if prev.0 < dir { **t <= prev.0 } else { **t >= prev.0 }) {
            order.push((*t, false));
        }
        for t in other.iter().chain(own.iter()) {
            order.push((*t, true));
        }
    }
    let (t, reset) = *order.iter().find(|(t, _)| *t != res && (*t != dir || prev.0 == dir) && avail(*t))?;
    let n = k.spt(t) as i32;
    let il = if t == dir { k.interleave().1 } else { k.interleave().0 } as i32;
    let mut s: i32 = if reset {
        0
    } else if !geos {
        prev.1 as i32 + il
    } else if t == prev.0 {
        prev.1 as i32 + il - if t >= 25 { 1 } else { 0 }
    } else {
        (t as i32 - prev.0 as i32) * 2 + 4 + il
    };
    while s >= n {
        s -= n;
        if s > 0 && !geos {
            s -= 1;
        }
    }
    for i in 0..n {
        let c = (s + i) % n;
        if bam[t as usize].map >> c & 1 == 1 {
            return Some((t, c as u8));
        }
    }
    None
}
