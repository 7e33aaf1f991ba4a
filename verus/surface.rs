pub mod surface {
use super::*;

// ---------------------------------------------------------------- sectors, free blocks, name

impl D64 {
//@props P01 P12
//@fn src/disk/mod.rs Disk::read_sector
//@ret r
//@sig /&self/ => &self, hb: &ImageBlockDevice
//@sub /self\.blocks_ref\(\)/ => hb
//@spec
    requires hb.wf()
    ensures
        r.is_ok() <==> hb.valid(location), r.is_err() ==> r->Err_0.e == DiskError::InvalidLocation, // [P01]
        r.is_ok() ==> r->Ok_0@ == hb.sec(location) && r->Ok_0@.len() == 256, // [P01]
//@endfn
//@props P01 P08 P12 P13
//@fn src/disk/mod.rs Disk::write_sector
//@ret r
//@sig /&mut self/ => &mut self, hb: &mut ImageBlockDevice
//@sub /self\.blocks_ref_mut\(\)/ => (&mut *hb)
//@spec
    requires old(hb).wf()
    ensures
        *final(self) == *old(self),
        r.is_ok() <==> data@.len() == 256 && old(hb).writable() && old(hb).valid(location),
        r.is_ok() ==> sector_replaced(old(hb), final(hb), location, data@), // [P01]
        r.is_err() ==> final(hb).image == old(hb).image && final(hb).geometry == old(hb).geometry, // [P01]
        data@.len() == 256 && r.is_err() ==> r->Err_0.e == (if old(hb).writable() { DiskError::InvalidLocation } else { DiskError::ReadOnly }), // [P13]
//@endfn
//@props P02 P07 P12
//@fn src/disk/mod.rs Disk::blocks_free
//@ret r
//@sig /&self/ => &self, hm: &Bam
//@sub /(\w+)\.borrow\(\)/ => (&*hm)
//@spec
    requires hm.wf(), self.format.is_some() ==> self.format->Some_0 == hm.format
    ensures
        r.is_ok() <==> self.bam.is_some(), r.is_err() ==> r->Err_0.e == DiskError::Unformatted,
        r.is_ok() ==> r->Ok_0 == free_total(hm.entries@, hm.format.directory_track as int, hm.format.last_track as int), // [P07]
//@endfn
//@props P14 P20
//@fn src/disk/mod.rs Disk::name
//@ret r
//@spec
    ensures r.is_some() <==> self.header.is_some(), r.is_some() ==> *r->Some_0 == (self.header->Some_0).disk_name
//@endfn
//@props P15
//@fn src/disk/mod.rs Disk::validate
//@ret r
//@sig /&self/ => &self, hb: &ImageBlockDevice, hm: &Bam
//@sub /(?:self::)?(?:validation::)?validate\(self\)/ => crate::validate::validate(self, hb, hm)
//@spec
    requires hb.wf(), hm.wf(), self.format.is_some() ==> self.format->Some_0 == hm.format, hm.format.first_track == 1
    ensures
        r.is_ok() ==> self.format.is_some() && self.header.is_some() && self.bam.is_some()
            && exists|ls: Seq<Location>| #[trigger] dir_chain(hb, dir_start(self), disk_border(self), ls) && validated(hb, hm, &self.format->Some_0, ls, disk_border(self), r->Ok_0@), // [P15]
        r.is_err() ==> self.format.is_none() || self.header.is_none() || self.bam.is_none() || no_dir(hb, dir_start(self), disk_border(self)), // [P15]
//@endfn
}

// ---------------------------------------------------------------- the listing

/// the slots that are not scratched, in order
pub open spec fn lives(dev: &ImageBlockDevice, s: Seq<Position>) -> Seq<Position>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else if live(dev, s.last()) { lives(dev, s.drop_last()).push(s.last()) } else { lives(dev, s.drop_last()) }
}
pub proof fn lemma_lives_push(dev: &ImageBlockDevice, s: Seq<Position>, p: Position)
    ensures lives(dev, s.push(p)) == (if live(dev, p) { lives(dev, s).push(p) } else { lives(dev, s) })
{ assert(s.push(p).drop_last() =~= s); }
pub proof fn lemma_lives_dead(dev: &ImageBlockDevice, s: Seq<Position>, a: int, b: int)
    requires 0 <= a <= b <= s.len(), forall|j: int| a <= j < b ==> !live(dev, #[trigger] s[j])
    ensures lives(dev, s.take(b)) == lives(dev, s.take(a))
    decreases b - a
{
    if a < b {
        lemma_lives_dead(dev, s, a, b - 1);
        assert(s.take(b) =~= s.take(b - 1).push(s[b - 1]));
        lemma_lives_push(dev, s.take(b - 1), s[b - 1]);
    }
}
/// v are the entries of the slots s
pub open spec fn entries_of(dev: &ImageBlockDevice, v: Seq<DirectoryEntry>, s: Seq<Position>, border: Option<Location>) -> bool {
    v.len() == s.len() && forall|j: int| 0 <= j < v.len() ==> entry_at(dev, &#[trigger] v[j], s[j], border)
}
/// the listing: the entries that are not scratched, in directory order
pub open spec fn listing(dev: &ImageBlockDevice, ls: Seq<Location>, border: Option<Location>, v: Seq<DirectoryEntry>) -> bool {
    entries_of(dev, v, lives(dev, all_slots(dev, ls, border)), border)
}
pub proof fn lemma_listed(dev: &ImageBlockDevice, start: Location, border: Option<Location>, w: Seq<Location>, dn: bool, k: int, w2: Seq<Location>, dn2: bool, k2: int)
    requires passed(dev, start, border, w, dn, k, w2, dn2, k2), 0 <= k <= slots(dev, w, dn, border).len()
    ensures lives(dev, slots(dev, w2, dn2, border).take(k2)) == lives(dev, slots(dev, w, dn, border).take(k))
{
    let (a, b) = (slots(dev, w, dn, border), slots(dev, w2, dn2, border));
    lemma_lives_dead(dev, b, k, k2);
    assert(b.take(k) =~= a.take(k)) by { assert forall|j: int| 0 <= j < k implies a[j] == #[trigger] b[j] by { assert(b[j] == b.take(a.len() as int)[j]); } }
}
impl D64 {
//@props P11 P12
//@fn src/disk/mod.rs Disk::directory
//@ret r
//@sig /&self/ => &self, hb: &ImageBlockDevice
//@sub /self\s*\.iter\(\)\s*\.collect(?:::<io::Result<Vec<\w+>>>)?\(\)/ => let mut out_: Vec<DirectoryEntry> = Vec::new(); let mut it_ = self.iter(hb); loop { let x_ = it_.next(hb, Ghost(start), Ghost(border), Ghost(w), Ghost(dn), Ghost(k)); match x_ { None => { return Ok(out_); } Some(Ok(e_)) => { out_.push(e_); } Some(Err(e_)) => { return Err(e_); } } }
//@spec
    requires hb.wf()
    ensures
        self.format.is_none() || self.header.is_none() ==> is_err(r, DiskError::Unformatted),
        self.format.is_some() && self.header.is_some() ==> match r {
            Ok(v) => exists|ls: Seq<Location>| #[trigger] dir_chain(hb, dir_start(self), disk_border(self), ls) && listing(hb, ls, disk_border(self), v@), // [P11]
            Err(_) => no_dir(hb, dir_start(self), disk_border(self)),
        },
//@start
    hide(walk); hide(before); hide(dir_slots); hide(decodes); hide(lives); hide(live);
    let ghost start = dir_start(self);
    let ghost border = disk_border(self);
    let ghost ok = self.format.is_some() && self.header.is_some();
    let ghost mut w: Seq<Location> = Seq::empty();
    let ghost mut dn = false;
    let ghost mut k: int = 0;
    proof { assert(walk(hb, start, w)) by { reveal(walk); } }
//@beforeloop 1
    proof {
        if ok { lemma_dir_facts(hb, &it_, start, border, w, dn, k); }
        assert(lives(hb, slots(hb, w, dn, border).take(0)).len() == 0) by { reveal(lives); }
    }
//@loop 1
    invariant
        hb.wf(), ok == (self.format.is_some() && self.header.is_some()), start == dir_start(self), border == disk_border(self),
        !ok ==> it_.error.is_some() && (it_.error->Some_0).e == DiskError::Unformatted,
        ok ==> it_.error.is_none() && dir_at(hb, &it_, start, border, w, dn, k),
        walk(hb, start, w), 0 <= k <= slots(hb, w, dn, border).len(),
        entries_of(hb, out_@, lives(hb, slots(hb, w, dn, border).take(k)), border),
    decreases 8 * before(hb.geometry.track_layouts@, hb.geometry.tracks + 1) + 8 - k
//@after /let x_ =/
    proof {
        if ok {
            match x_ {
                None => {
                    let (w2, d2) = choose|w2: Seq<Location>, d2: bool| #[trigger] passed(hb, start, border, w, dn, k, w2, d2, slots(hb, w2, d2, border).len() as int) && dir_chain(hb, start, border, w2) && d2 == border.is_some();
                    let n = slots(hb, w2, d2, border).len() as int;
                    lemma_listed(hb, start, border, w, dn, k, w2, d2, n);
                    assert(slots(hb, w2, d2, border) =~= all_slots(hb, w2, border));
                    assert(slots(hb, w2, d2, border).take(n) =~= slots(hb, w2, d2, border));
                    assert(dir_chain(hb, start, border, w2) && listing(hb, w2, border, out_@));
                },
                Some(Ok(_)) => {
                    let e = x_->Some_0->Ok_0;
                    let (w2, d2, k2) = choose|w2: Seq<Location>, d2: bool, k2: int| #[trigger] passed(hb, start, border, w, dn, k, w2, d2, k2) && dir_at(hb, &it_, start, border, w2, d2, k2 + 1)
                        && entry_at(hb, &e, slots(hb, w2, d2, border)[k2], border) && live(hb, slots(hb, w2, d2, border)[k2]);
                    lemma_listed(hb, start, border, w, dn, k, w2, d2, k2);
                    lemma_dir_facts(hb, &it_, start, border, w2, d2, k2 + 1);
                    let s = slots(hb, w2, d2, border);
                    assert(s.take(k2 + 1) =~= s.take(k2).push(s[k2]));
                    lemma_lives_push(hb, s.take(k2), s[k2]);
                    w = w2; dn = d2; k = k2 + 1;
                },
                Some(Err(_)) => {},
            }
        }
    }
//@endfn
}

// ---------------------------------------------------------------- files, whatever their scheme

impl LinearFile {
//@props P09 P11
//@fn src/disk/file.rs FileOps for LinearFile::entry
//@ret r
//@spec
    ensures *r == self.entry
//@endfn
}
impl RelativeFile {
//@fn src/disk/file.rs FileOps for RelativeFile::entry
//@ret r
//@spec
    ensures *r == self.entry
//@endfn
}
impl GEOSFile {
//@fn src/disk/geos/file.rs FileOps for GEOSFile::entry
//@ret r
//@spec
    ensures *r == self.entry
//@endfn
}
pub open spec fn ops_entry(f: &FileRef<'_>) -> DirectoryEntry { match f { FileRef::L(x) => x.entry, FileRef::R(x) => x.entry, FileRef::G(x) => x.entry } }
pub open spec fn ops_records(f: &FileRef<'_>) -> int { match f { FileRef::L(x) => 1, FileRef::R(x) => x.records as int, FileRef::G(x) => geos_records(x) } }
/// what is needed to read records
pub open spec fn ops_readable(dev: &ImageBlockDevice, f: &FileRef<'_>) -> bool {
    match f {
        FileRef::R(x) => 1 <= x.record_size <= 255 && x.records * x.record_size == data_size(dev, x.data_sectors@) && x.data_sectors@.len() <= 720 && data_end_ok(dev, x.data_sectors@),
        _ => true,
    }
}
/// the contents of the chain from l
pub open spec fn chain_bytes(dev: &ImageBlockDevice, l: Location, v: Seq<u8>) -> bool { exists|c: Seq<Location>| #[trigger] chain(dev, l, c) && v =~= content(dev, c) }
pub open spec fn unchained(dev: &ImageBlockDevice, l: Location) -> bool { forall|c: Seq<Location>| !chain(dev, l, c) }
/// r is record i of the file
pub open spec fn ops_record(dev: &ImageBlockDevice, f: &FileRef<'_>, i: int, r: io::Result<Vec<u8>>) -> bool {
    if i >= ops_records(f) { r.is_err() } else {
        match f {
            FileRef::L(x) => if r.is_ok() { chain_bytes(dev, x.entry.first_sector, r->Ok_0@) } else { unchained(dev, x.entry.first_sector) },
            FileRef::R(x) => {
                &&& r.is_ok() <==> forall|k: int| i * x.record_size <= k < i * x.record_size + x.record_size ==> dev.valid(#[trigger] x.data_sectors@[k / 254])
                &&& r.is_ok() ==> r->Ok_0@ == data_range(dev, x.data_sectors@, i * x.record_size, x.record_size as int)
            },
            FileRef::G(x) => {
                let s = geos_record_start(x, i);
                &&& s.is_none() ==> r.is_ok() && r->Ok_0@.len() == 0
                &&& s.is_some() && r.is_ok() ==> chain_bytes(dev, s->Some_0, r->Ok_0@)
                &&& s.is_some() && r.is_err() ==> unchained(dev, s->Some_0)
            },
        }
    }
}
impl<'a> FileRef<'a> {
    pub fn entry(&self) -> (r: &'a DirectoryEntry)
        ensures *r == ops_entry(self)
    { match self { FileRef::L(f) => f.entry(), FileRef::R(f) => f.entry(), FileRef::G(f) => f.entry() } }
    pub fn record_count(&self) -> (r: io::Result<usize>)
        ensures r.is_ok(), r->Ok_0 == ops_records(self)
    { match self { FileRef::L(f) => f.record_count(), FileRef::R(f) => f.record_count(), FileRef::G(f) => f.record_count() } }
    pub fn record(&self, hb: &ImageBlockDevice, index: usize) -> (r: io::Result<Vec<u8>>)
        requires hb.wf(), ops_readable(hb, self)
        ensures ops_record(hb, self, index as int, r)
    {
        let r = match self { FileRef::L(f) => f.record(hb, index), FileRef::R(f) => f.record(hb, index), FileRef::G(f) => f.record(hb, index) };
        r
    }
}
/// the entry a file was opened from
pub open spec fn file_entry(f: &File) -> DirectoryEntry { ops_entry(&fref(f)) }
/// the sectors that deleting the file frees
pub open spec fn frees(dev: &ImageBlockDevice, f: &File, v: Seq<Location>) -> bool {
    match f {
        File::Linear(x) => chain(dev, x.entry.first_sector, v),
        File::Relative(x) => exists|c: Seq<Location>| #[trigger] chain(dev, x.entry.first_sector, c) && v == c + x.side_sectors@,
        File::GEOSSequential(x) => geos_frees(dev, x, v),
        File::GEOSVLIR(x) => geos_frees(dev, x, v),
        _ => false,
    }
}
pub open spec fn geos_frees(dev: &ImageBlockDevice, x: &GEOSFile, v: Seq<Location>) -> bool {
    exists|c: Seq<Location>, cs: Seq<Seq<Location>>| #[trigger] geos_sectors(dev, x, c, cs) && forall|l: Location| v.contains(l) <==> geos_owns(x, c, cs, l)
}
/// a file that is not relative: deleting it frees what it occupies
pub proof fn lemma_frees(dev: &ImageBlockDevice, f: &File, e: &DirectoryEntry, v: Seq<Location>)
    requires dev.wf(), file_of(dev, f, e), schemed(e), frees(dev, f, v), !(f is Relative)
    ensures forall|l: Location| #[trigger] v.contains(l) <==> owns(dev, e, l) // [P09]
{ lemma_file_owns(dev, f, e); assert(ops_owns(dev, &fref(f), v)); }
/// a deleted file is no longer in its slot
pub proof fn lemma_gone(d0: &ImageBlockDevice, b0: &Bam, d1: &ImageBlockDevice, b1: &Bam, p: Position, f: Seq<Location>)
    requires d0.wf(), deleted(d0, b0, d1, b1, p, f), d0.valid(p.location), p.size == 32, p.offset + 32 <= 256
    ensures !live(d1, p) // [P09]
{
    d0.lemma_off(p.location);
    d1.lemma_off(p.location);
    assert(slot(d1, p) =~= scratch(slot(d0, p)));
    let a = slot(d0, p)[2];
    assert((a & 0x70) & 0x87 == 0) by (bit_vector);
    assert((a & 0x70) & 0x0F == 0 && (a & 0x70) & 0x80 == 0) by (bit_vector);
}
impl File {
//@props P09 P11 P12
//@fn src/disk/file.rs FileOps for File::entry
//@ret r
//@spec
    requires known_file(self)
    ensures *r == file_entry(self)
//@endfn
//@props P06 P12 P16 P17
//@fn src/disk/file.rs FileOps for File::record_count
//@ret r
//@spec
    requires known_file(self)
    ensures r.is_ok(), r->Ok_0 == ops_records(&fref(self))
//@endfn
//@fn src/disk/file.rs FileOps for File::record
//@ret r
//@sig /&self/ => &self, hb: &ImageBlockDevice
//@sub /\.record\((\w+)\)/ => .record(hb, \1)
//@spec
    requires hb.wf(), known_file(self), ops_readable(hb, &fref(self))
    ensures ops_record(hb, &fref(self), index as int, r)
//@endfn
//@props P12 P19
//@fn src/disk/file.rs File::geos_info
//@ret r
//@sig /&self/ => &self, hb: &ImageBlockDevice
//@sub /unimplemented!\(\)/ => vstd::pervasive::unreached()
//@sub /(\w+)\.info\(\)/ => \1.info(hb)
//@spec
    requires hb.wf(), known_file(self), self is GEOSSequential || self is GEOSVLIR ==> file_entry(self).extra is GEOS
    ensures
        self is Linear || self is Relative ==> r.is_ok() && r->Ok_0.is_none(),
        self is GEOSSequential || self is GEOSVLIR ==> ({
            let l = entry_info(&file_entry(self));
            &&& l.is_none() ==> r.is_ok() && r->Ok_0.is_none()
            &&& l.is_some() ==> (r.is_ok() <==> hb.valid(l->Some_0))
            &&& l.is_some() && r.is_ok() ==> r->Ok_0.is_some() && info_of(&(r->Ok_0)->Some_0, hb.sec(l->Some_0))
        }),
//@endfn
//@props P09 P12 P13
// get_specialized_file_mut, with the call its only user makes on the result
//@fn src/disk/file.rs File::get_specialized_file_mut
//@ret r
//@sig /get_specialized_file_mut\(&mut self\) -> &mut dyn FileOps/ => delete_specialized(&mut self, hb: &mut ImageBlockDevice, hm: &mut Bam) -> io::Result<()>
//@sub /unimplemented!\(\)/ => vstd::pervasive::unreached()
//@sub / => f,/ => => f.delete(hb, hm),
//@spec
    requires known_file(old(self)), map_ok(old(hb), old(hm)), listed_entry(old(hb), old(hm), &file_entry(old(self))), ops_ok(old(hb), &fref(old(self)))
    ensures
        r.is_ok() ==> exists|f: Seq<Location>| #[trigger] deleted(old(hb), old(hm), final(hb), final(hm), file_entry(old(self)).position->Some_0, f) && frees(old(hb), old(self), f), // [P09]
        r.is_err() ==> *final(hb) == *old(hb) && *final(hm) == *old(hm),
        !old(hb).writable() ==> r.is_err(), // [P13]
//@endfn
//@fn src/disk/file.rs FileOps for File::delete
//@ret r
//@sig /&mut self/ => &mut self, hb: &mut ImageBlockDevice, hm: &mut Bam
//@sub /self\.get_specialized_file_mut\(\)\.delete\(\)/ => self.delete_specialized(hb, hm)
//@spec
    requires known_file(old(self)), map_ok(old(hb), old(hm)), listed_entry(old(hb), old(hm), &file_entry(old(self))), ops_ok(old(hb), &fref(old(self)))
    ensures
        r.is_ok() ==> exists|f: Seq<Location>| #[trigger] deleted(old(hb), old(hm), final(hb), final(hm), file_entry(old(self)).position->Some_0, f) && frees(old(hb), old(self), f), // [P09]
        r.is_err() ==> *final(hb) == *old(hb) && *final(hm) == *old(hm),
        !old(hb).writable() ==> r.is_err(), // [P13]
//@endfn
//@props P06 P11 P12 P15
//@fn src/disk/file.rs File::open
//@ret r
//@sig /open<T: Disk>\(disk: &T,/ => open(disk: &D64, hb: &ImageBlockDevice,
//@sig /\bwhere\s+T: \?Sized,?/ =>
//@sub /disk\.find_directory_entry\((\w+)\)/ => disk.find_directory_entry(hb, \1)
//@sub /(Self|File)::open_from_entry\(disk, ([^()]*)\)/ => ({ let r_ = File::open_from_entry(disk, hb, \2); proof { if r_.is_ok() { assert(opens(hb, dir_start(disk), disk_border(disk), filename@, &entry, &r_->Ok_0)); } } r_ })
//@spec
    requires hb.wf()
    ensures opened(disk, hb, filename@, r)
//@start
    hide(lookup); hide(file_of); hide(scannable); hide(absent); hide(no_dir); hide(schemed);
//@after /let entry =/
    proof { lemma_looked_up(hb, dir_start(disk), disk_border(disk), filename@, &entry); }
//@endfn
}
pub proof fn lemma_looked_up(dev: &ImageBlockDevice, start: Location, border: Option<Location>, name: Seq<u8>, e: &DirectoryEntry)
    requires lookup(dev, start, border, name, e)
    ensures schemed(e)
{ lemma_slot_owner(dev, e.position->Some_0, e); }
/// f is the file of the first entry with that name, e
pub open spec fn opens(dev: &ImageBlockDevice, start: Location, border: Option<Location>, name: Seq<u8>, e: &DirectoryEntry, f: &File) -> bool {
    lookup(dev, start, border, name, e) && file_of(dev, f, e)
}
/// r is the file of the first entry with that name, or there is none, or it cannot be followed
pub open spec fn opened(d: &D64, dev: &ImageBlockDevice, name: Seq<u8>, r: io::Result<File>) -> bool {
    &&& d.format.is_none() || d.header.is_none() ==> r.is_err() && r->Err_0.e == DiskError::Unformatted
    &&& r.is_ok() ==> exists|e: DirectoryEntry| #[trigger] opens(dev, dir_start(d), disk_border(d), name, &e, &r->Ok_0)
    &&& r.is_err() && d.format.is_some() && d.header.is_some() && d.bam.is_some() ==> absent(dev, dir_start(d), disk_border(d), name) || no_dir(dev, dir_start(d), disk_border(d))
        || exists|e: DirectoryEntry| #[trigger] lookup(dev, dir_start(d), disk_border(d), name, &e) && !scannable(dev, &e)
}
impl D64 {
//@fn src/disk/mod.rs Disk::open_file
//@ret r
//@sig /&self/ => &self, hb: &ImageBlockDevice
//@sub /File::open\(self, / => File::open(self, hb, 
//@spec
    requires hb.wf()
    ensures opened(self, hb, filename@, r)
//@endfn
}
} // mod surface
pub use surface::*;
