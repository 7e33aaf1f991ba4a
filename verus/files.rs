pub mod files {
use super::*;
//@item src/disk/file.rs struct LinearFile
//@item src/disk/file.rs struct RelativeFile
//@item src/disk/geos/file.rs struct GEOSFile
//@item src/disk/file.rs const MAX_SIDE_SECTORS
//@item src/disk/file.rs const SIDE_SECTOR_SSLIST_OFFSET
//@item src/disk/file.rs const SIDE_SECTOR_DATA_OFFSET

// ---------------------------------------------------------------- stand-ins for the standard library

pub open spec fn same_extra(a: &Extra, b: &Extra) -> bool {
    match a {
        Extra::Linear(x) => b is Linear && x.unused@ == b->Linear_0.unused@,
        Extra::Relative(x) => b is Relative && x.first_side_sector == b->Relative_0.first_side_sector && x.record_length == b->Relative_0.record_length
            && x.unused@ == b->Relative_0.unused@,
        Extra::GEOS(x) => b is GEOS && *x == b->GEOS_0,
    }
}
pub open spec fn same_entry(a: &DirectoryEntry, b: &DirectoryEntry) -> bool {
    &&& a.file_attributes == b.file_attributes && a.first_sector == b.first_sector && a.filename@ == b.filename@ && same_extra(&a.extra, &b.extra)
    &&& a.file_size == b.file_size && a.scheme == b.scheme && a.position == b.position && a.geos_border == b.geos_border
}
impl DirectoryEntry {
    /// derive(Clone)
    #[verifier::external_body]
    pub fn clone(&self) -> (r: DirectoryEntry)
        ensures same_entry(self, &r)
    { unimplemented!() }
}
/// Vec::sort and Vec::dedup on locations: the same sectors, each once
#[verifier::external_body]
pub fn sort_dedup(v: &mut Vec<Location>)
    ensures final(v)@.no_duplicates(), forall|l: Location| final(v)@.contains(l) <==> old(v)@.contains(l)
{ unimplemented!() }
/// Vec::extend with the elements of another vector
pub fn extend_copied(v: &mut Vec<Location>, o: &Vec<Location>)
    ensures final(v)@ == old(v)@ + o@
{
    let mut i: usize = 0;
    while i < o.len()
        invariant i <= o.len(), v@ == old(v)@ + o@.take(i as int)
        decreases o.len() - i
    {
        v.push(o[i]);
        i += 1;
        assert(o@.take(i as int) =~= o@.take(i - 1).push(o@[i - 1]));
    }
    assert(o@.take(i as int) =~= o@);
}
pub fn same_locations(a: &Vec<Location>, b: &Vec<Location>) -> (r: bool)
    ensures r == (a@ == b@)
{
    if a.len() != b.len() { return false; }
    let mut i: usize = 0;
    while i < a.len()
        invariant i <= a.len(), a.len() == b.len(), a@.take(i as int) == b@.take(i as int)
        decreases a.len() - i
    {
        if a[i].0 != b[i].0 || a[i].1 != b[i].1 { return false; }
        i += 1;
        assert(a@.take(i as int) =~= a@.take(i - 1).push(a@[i - 1]));
        assert(b@.take(i as int) =~= b@.take(i - 1).push(b@[i - 1]));
    }
    assert(a@.take(i as int) =~= a@);
    assert(b@.take(i as int) =~= b@);
    true
}
pub proof fn lemma_content_len(dev: &ImageBlockDevice, ls: Seq<Location>)
    requires dev.wf(), forall|k: int| 0 <= k < ls.len() ==> dev.valid(#[trigger] ls[k])
    ensures content(dev, ls).len() <= 254 * ls.len()
    decreases ls.len()
{
    if ls.len() > 0 {
        lemma_content_len(dev, ls.drop_last());
        assert(dev.valid(ls[ls.len() - 1]));
        dev.lemma_off(ls.last());
        assert(payload(dev.sec(ls.last())).len() <= 254);
    }
}
impl ChainReader {
    /// Read::read_to_end (std): reads until the end of the file
    pub fn read_to_end(&mut self, out: &mut Vec<u8>, hb: &ImageBlockDevice, Ghost(start): Ghost<Location>) -> (r: io::Result<usize>)
        requires hb.wf(), reader_at(hb, old(self), start, Seq::empty())
        ensures
            r.is_ok() ==> exists|c: Seq<Location>| #[trigger] chain(hb, start, c) && final(out)@ == old(out)@ + content(hb, c),
            r.is_err() ==> forall|c: Seq<Location>| !chain(hb, start, c),
    {
        let ghost mut w: Seq<Location> = Seq::empty();
        let ghost bound = 254 * before(hb.geometry.track_layouts@, hb.geometry.tracks + 1);
        let ghost o0 = out@;
        let mut total: usize = 0;
        proof { assert(delivered(hb, self, w) =~= Seq::<u8>::empty()); assert(o0 + Seq::<u8>::empty() =~= o0); }
        loop
            invariant hb.wf(), reader_at(hb, self, start, w), out@ == o0 + delivered(hb, self, w), o0 == old(out)@,
                bound == 254 * before(hb.geometry.track_layouts@, hb.geometry.tracks + 1), total == delivered(hb, self, w).len(), 
            ensures self.eof
            decreases bound - delivered(hb, self, w).len()
        {
            let mut buf: [u8; 32] = [0; 32];
            let ghost d0 = delivered(hb, self, w);
            let r = self.read(hb, Ghost(start), Ghost(w), &mut buf);
            let n = match r { Ok(n) => n, Err(e) => { return Err(e); } };
            let ghost w1 = choose|ls2: Seq<Location>| #[trigger] reader_at(hb, self, start, ls2)
                && delivered(hb, self, ls2) == d0 + buf@.take(n as int) && (n < 32 ==> self.eof);
            proof {
                lemma_walk_bound(hb, start, w1);
                lemma_content_len(hb, w1);
                w = w1;
                assert(o0 + (d0 + buf@.take(n as int)) =~= (o0 + d0) + buf@.take(n as int));
            }
            if n == 0 { proof { assert(buf@.take(0) =~= Seq::<u8>::empty()); assert((o0 + d0) + Seq::<u8>::empty() =~= o0 + d0); } break; }
            let ghost o1 = out@;
            let mut k: usize = 0;
            while k < n
                invariant k <= n <= 32, out@ == o1 + buf@.take(k as int)
                decreases n - k
            {
                out.push(buf[k]);
                k += 1;
                assert(buf@.take(k as int) =~= buf@.take(k - 1).push(buf@[k - 1]));
            }
            total = total + n;
        }
        proof {
            lemma_walk_bound(hb, start, w);
            assert(delivered(hb, self, w) =~= content(hb, w));
            assert(w.len() > 0);
            assert(chain(hb, start, w));
        }
        Ok(total)
    }
}

// ---------------------------------------------------------------- deleting

/// the map can be stored on the device
pub open spec fn map_ok(dev: &ImageBlockDevice, bam: &Bam) -> bool {
    &&& dev.wf() && bam.wf() && wf_bamformat(bam.bam_rw.format) && bam_fits(bam.bam_rw.format, dev) && bam.bam_rw.format.sections@.len() > 0
    &&& sum_tracks(bam.bam_rw.format.sections@, bam.bam_rw.format.sections@.len() as int) == bam.entries@.len()
}
/// e was read from its slot, which is not part of the map
pub open spec fn listed_entry(dev: &ImageBlockDevice, bam: &Bam, e: &DirectoryEntry) -> bool {
    &&& e.position.is_some() && wf_pos(dev, e.position->Some_0) && decodes(e, slot(dev, e.position->Some_0))
    &&& !bam_sector(bam.bam_rw.format, (e.position->Some_0).location)
}
/// the slot of a deleted file: type DEL, not closed, all else as it was
pub open spec fn scratch(b: Seq<u8>) -> Seq<u8> { b.update(2, b[2] & 0x70) }
/// the file in slot p was deleted and its sectors f freed, and nothing else was changed
pub open spec fn deleted(d0: &ImageBlockDevice, b0: &Bam, d1: &ImageBlockDevice, b1: &Bam, p: Position, f: Seq<Location>) -> bool {
    &&& released(b0, b1, f) && bam_stored(b0.bam_rw.format, d1, b1.entries@)
    &&& d1.wf() && d1.same_shape(d0) && d1.same_table(d0)
    &&& d1.sec(p.location) == with_slot(d0.sec(p.location), p, scratch(slot(d0, p)))
    &&& forall|l: Location, x: int| d0.valid(l) && l != p.location && 0 <= x < 256 && !covered(b0.bam_rw.format.sections@, b0.bam_rw.format.sections@.len() as int, l, x)
        ==> #[trigger] d1.sec(l)[x] == d0.sec(l)[x]
}
pub proof fn lemma_scratch(e: &DirectoryEntry, e2: &DirectoryEntry, b: Seq<u8>, c: Seq<u8>)
    requires
        decodes(e, b), encodes(e2, c), c.take(2) == b.take(2),
        e2.file_attributes == (FileAttributes { file_type: FileType::DEL, closed_flag: false, ..e.file_attributes }),
        e2.first_sector == e.first_sector, e2.filename == e.filename, e2.extra == e.extra, e2.file_size == e.file_size,
    ensures c == scratch(b)
{
    let c0 = c.update(2, b[2]);
    assert(c0.subrange(5, 21) =~= c.subrange(5, 21));
    assert(c0.subrange(21, 30) =~= c.subrange(21, 30));
    lemma_attr_roundtrip(b[2]);
    assert(encodes(e, c0));
    lemma_entry_roundtrip(e, b, c0);
    let a = b[2];
    assert((0u8 | (if a & 0x10 != 0 { 0x10u8 } else { 0 }) | (if a & 0x20 != 0 { 0x20u8 } else { 0 })
        | (if a & 0x40 != 0 { 0x40u8 } else { 0 }) | 0u8) == a & 0x70) by (bit_vector);
    assert forall|k: int| 0 <= k < 32 implies c[k] == scratch(b)[k] by {
        if k < 2 { assert(c.take(2)[k] == c[k]); assert(b.take(2)[k] == b[k]); }
        else if k > 2 { assert(c0.skip(2)[k - 2] == b.skip(2)[k - 2]); }
    }
    assert(c =~= scratch(b));
}
/// the steps of a deletion: sectors freed (d0 to d1), then the entry written (d1 to d2)
pub proof fn lemma_deleted(d0: &ImageBlockDevice, b0: &Bam, d1: &ImageBlockDevice, b1: &Bam, d2: &ImageBlockDevice, e: &DirectoryEntry, e2: &DirectoryEntry, f: Seq<Location>, r: io::Result<()>)
    requires
        map_ok(d0, b0), listed_entry(d0, b0, e), freed(d0, b0, d1, b1, f, r), r.is_ok(), slot_written(d1, d2, e2), e2.position == e.position,
        e2.file_attributes == (FileAttributes { file_type: FileType::DEL, closed_flag: false, ..e.file_attributes }),
        e2.first_sector == e.first_sector, e2.filename == e.filename, e2.extra == e.extra, e2.file_size == e.file_size,
    ensures deleted(d0, b0, d2, b1, e.position->Some_0, f)
{
    let p = e.position->Some_0;
    let bf = b0.bam_rw.format;
    let n = bf.sections@.len() as int;
    d0.lemma_off(p.location);
    d1.lemma_off(p.location);
    d2.lemma_off(p.location);
    assert forall|x: int| 0 <= x < 256 implies d1.sec(p.location)[x] == d0.sec(p.location)[x] by { lemma_not_covered(bf, p.location, x); }
    assert(d1.sec(p.location) =~= d0.sec(p.location));
    lemma_scratch(e, e2, slot(d0, p), slot(d2, p));
    assert forall|l: Location, x: int| d0.valid(l) && l != p.location && 0 <= x < 256 && !covered(bf.sections@, n, l, x) implies #[trigger] d2.sec(l)[x] == d0.sec(l)[x] by {
        assert(d1.valid(l));
        assert(d2.sec(l) == d1.sec(l));
        assert(d1.sec(l)[x] == d0.sec(l)[x]);
    }
    assert forall|k: int| 0 <= k < n implies stored(&#[trigger] bf.sections@[k], d2, b1.entries@, sum_tracks(bf.sections@, k)) by {
        assert(stored(&bf.sections@[k], d1, b1.entries@, sum_tracks(bf.sections@, k)));
        let (x, y) = (bf.sections@[k].bitmap_location, bf.sections@[k].free_location);
        assert(bam_sector(bf, x) && bam_sector(bf, y));
        assert(d0.valid(x) && d0.valid(y));
        assert(d1.valid(x) && d1.valid(y));
        assert(d2.sec(x) == d1.sec(x));
        assert(d2.sec(y) == d1.sec(y));
    }
}

// ---------------------------------------------------------------- linear files

impl LinearFile {
//@props P06 P09
//@fn src/disk/file.rs LinearFile::new
//@ret r
//@spec
    ensures r.entry == entry
//@endfn
//@props P09 P12 P13
//@fn src/disk/file.rs FileOps for LinearFile::delete
//@ret r
//@sig /&mut self/ => &mut self, hb: &mut ImageBlockDevice, hm: &mut Bam
//@sub /self\.(blocks|bam)\.clone\(\)/ => self.\1
//@sub /chain::remove_chain\(/ => remove_chain(hb, hm, 
//@sub /self\.blocks\.borrow_mut\(\)/ => (&mut *hb)
//@spec
    requires map_ok(old(hb), old(hm)), listed_entry(old(hb), old(hm), &old(self).entry)
    ensures
        r.is_ok() ==> exists|ls: Seq<Location>| #[trigger] chain(old(hb), old(self).entry.first_sector, ls)
            && deleted(old(hb), old(hm), final(hb), final(hm), old(self).entry.position->Some_0, ls),
        r.is_err() ==> *final(hb) == *old(hb) && *final(hm) == *old(hm),
        !old(hb).writable() ==> r.is_err(), // [P13]
//@start
    let ghost mut ls: Seq<Location> = Seq::empty();
    let ghost e0 = self.entry;
    let ghost mut d1 = *hb;
    proof { lemma_decodes_wf(&e0, slot(hb, e0.position->Some_0)); }
//@after /remove_chain/
    proof {
        ls = choose|ls: Seq<Location>| #[trigger] chain(old(hb), old(self).entry.first_sector, ls) && freed(old(hb), old(hm), hb, hm, ls, Ok(()));
        d1 = *hb;
    }
//@end
    proof { lemma_deleted(old(hb), old(hm), &d1, hm, hb, &e0, &self.entry, ls, Ok(())); }
//@endfn
//@props P06 P12
//@fn src/disk/file.rs FileOps for LinearFile::record_count
//@ret r
//@spec
    ensures r.is_ok() && r->Ok_0 == 1
//@endfn
//@fn src/disk/file.rs FileOps for LinearFile::record
//@ret r
//@sig /&self/ => &self, hb: &ImageBlockDevice
//@sub? /let mut record = vec!\[\];/ => let mut record: Vec<u8> = Vec::new();
//@sub /\.read_to_end\(&mut (\w+)\)/ => .read_to_end(&mut \1, hb, Ghost(self.entry.first_sector))
//@spec
    requires hb.wf()
    ensures
        index == 0 && r.is_ok() ==> exists|c: Seq<Location>| #[trigger] chain(hb, self.entry.first_sector, c) && r->Ok_0@ =~= content(hb, c),
        index == 0 && r.is_err() ==> forall|c: Seq<Location>| !chain(hb, self.entry.first_sector, c),
        index != 0 ==> is_err(r, DiskError::InvalidRecord),
//@endfn
//@props P09 P12 P15
//@fn src/disk/file.rs FileOps for LinearFile::occupied_sectors
//@ret r
//@sig /&self/ => &self, hb: &ImageBlockDevice
//@sub /self\.blocks\.clone\(\)/ => self.blocks
//@sub /(ChainIterator::new\(self\.blocks, ([^()]*)\))\s*\.map\(\|(\w+)\| \3\.map\(\|(\w+)\| \4\.location\)\)\s*\.collect::<io::Result<Vec<_>>>\(\)/ => \1.locations(hb, Ghost(\2))
//@sub /locations\.sort\(\);\s*locations\.dedup\(\);/ => sort_dedup(&mut locations);
//@spec
    requires hb.wf()
    ensures
        r.is_ok() ==> r->Ok_0@.no_duplicates() && exists|c: Seq<Location>| #[trigger] chain(hb, self.entry.first_sector, c) && forall|l: Location| r->Ok_0@.contains(l) <==> c.contains(l),
        r.is_err() ==> forall|c: Seq<Location>| !chain(hb, self.entry.first_sector, c),
//@endfn
//@props P06 P12
//@fn src/disk/file.rs FileOps for LinearFile::reader
//@ret r
//@sig /Box<dyn Read>/ => Box<ChainReader>
//@sub /self\.blocks\.clone\(\)/ => self.blocks
//@sub? /Box::new\((ChainReader::new\([^()]*\))\)/ => ({ let c_ = \1; let b_ = Box::new(c_); proof { assert forall|dev: &ImageBlockDevice| reader_at(dev, &*b_, self.entry.first_sector, Seq::empty()) by { let d_ = delivered(dev, &c_, Seq::empty()); assert(reader_at(dev, &c_, self.entry.first_sector, Seq::empty())); } } b_ })
//@spec
    ensures r.is_ok(), forall|dev: &ImageBlockDevice| reader_at(dev, &*r->Ok_0, self.entry.first_sector, Seq::empty())
//@endfn
//@fn src/disk/file.rs FileOps for LinearFile::writer
//@ret r
//@sig /&self/ => &self, hb: &ImageBlockDevice
//@sig /Box<dyn Write>/ => Box<ChainWriter>
//@sub /self\.(blocks|bam)\.clone\(\)/ => self.\1
//@sub /ChainWriter::new\(/ => ChainWriter::new(hb, 
//@spec
    requires hb.wf()
    ensures
        r.is_ok() ==> same_entry(&self.entry, &r->Ok_0.entry)
            && exists|ls: Seq<Location>| #[trigger] chain(hb, self.entry.first_sector, ls) && r->Ok_0.location == ls.last() && r->Ok_0.block@ == hb.sec(ls.last()),
        r.is_err() ==> forall|c: Seq<Location>| !chain(hb, self.entry.first_sector, c),
//@endfn
}

// ---------------------------------------------------------------- relative files

/// consecutive pairs of bytes as locations
pub open spec fn pairs(s: Seq<u8>) -> Seq<Location> { Seq::new((s.len() / 2) as nat, |k: int| Location(s[2 * k], s[2 * k + 1])) }
/// those with a track number
pub open spec fn nonzero(q: Seq<Location>) -> Seq<Location>
    decreases q.len()
{
    if q.len() == 0 { Seq::empty() } else if q.last().0 != 0 { nonzero(q.drop_last()).push(q.last()) } else { nonzero(q.drop_last()) }
}
/// the data sectors the side sectors ss list
pub open spec fn side_data(dev: &ImageBlockDevice, ss: Seq<Location>) -> Seq<Location>
    decreases ss.len()
{
    if ss.len() == 0 { Seq::empty() } else { side_data(dev, ss.drop_last()) + pairs(dev.sec(ss.last()).subrange(16, used(dev.sec(ss.last())))) }
}
/// a side sector: its data part holds pairs, it lists all side sectors
pub open spec fn side_sized(b: Seq<u8>) -> bool { used(b) >= 16 && used(b) % 2 == 0 }
pub open spec fn side_list(b: Seq<u8>) -> Seq<Location> { nonzero(pairs(b.subrange(4, 16))) }
/// number of data bytes in the sectors ds, the last one being partly used
pub open spec fn data_size(dev: &ImageBlockDevice, ds: Seq<Location>) -> int {
    if ds.len() == 0 { 0 } else { 254 * (ds.len() - 1) + used(dev.sec(ds.last())) - 2 }
}
pub open spec fn data_end_ok(dev: &ImageBlockDevice, ds: Seq<Location>) -> bool {
    ds.len() > 0 ==> dev.valid(ds.last()) && link(dev.sec(ds.last())).is_some() && link_next(dev.sec(ds.last())).is_none()
}
/// the conditions on a relative file with side sectors ss and record length n
pub open spec fn intact_rel(dev: &ImageBlockDevice, first: Location, n: int, ss: Seq<Location>) -> bool {
    &&& n > 0 && chain(dev, first, ss) && ss.len() <= 6
    &&& forall|k: int| 0 <= k < ss.len() ==> side_sized(#[trigger] dev.sec(ss[k])) && side_list(dev.sec(ss[k])) == ss
    &&& data_end_ok(dev, side_data(dev, ss)) && data_size(dev, side_data(dev, ss)) % n == 0
}
pub open spec fn rel_ok(dev: &ImageBlockDevice, f: &RelativeFile, first: Location) -> bool {
    &&& intact_rel(dev, first, f.record_size as int, f.side_sectors@) && f.data_sectors@ == side_data(dev, f.side_sectors@)
    &&& f.records * f.record_size == data_size(dev, f.data_sectors@) && f.record_size <= 255 && f.data_sectors@.len() <= 720
}
/// byte x of the data in the sectors ds
pub open spec fn data_byte(dev: &ImageBlockDevice, ds: Seq<Location>, x: int) -> u8 { dev.sec(ds[x / 254])[2 + x % 254] }
pub open spec fn data_range(dev: &ImageBlockDevice, ds: Seq<Location>, o: int, n: int) -> Seq<u8> { Seq::new(n as nat, |j: int| data_byte(dev, ds, o + j)) }

//@props P16
/// when the side sectors list the chain of the file, the data are the contents of that chain
pub proof fn lemma_rel_content(dev: &ImageBlockDevice, first: Location, ds: Seq<Location>)
    requires dev.wf(), chain(dev, first, ds)
    ensures content(dev, ds) == data_range(dev, ds, 0, data_size(dev, ds))
{
    lemma_full_content(dev, first, ds, ds.len() - 1);
    let m = ds.len() - 1;
    assert(ds.take(m) =~= ds.drop_last());
    let b = dev.sec(ds.last());
    assert(dev.valid(ds[m]) && link(dev.sec(ds[m])).is_some());
    dev.lemma_off(ds.last());
    assert forall|x: int| 0 <= x < data_size(dev, ds) implies #[trigger] content(dev, ds)[x] == data_byte(dev, ds, x) by {
        if x < 254 * m {
            assert(content(dev, ds)[x] == content(dev, ds.take(m))[x]);
            assert(content(dev, ds.take(m))[x] == data_byte(dev, ds, x));
        } else {
            assert(x / 254 == m && x % 254 == x - 254 * m);
            assert(content(dev, ds)[x] == payload(b)[x - 254 * m]);
        }
    }
    assert(content(dev, ds).len() == data_size(dev, ds));
    assert(content(dev, ds) =~= data_range(dev, ds, 0, data_size(dev, ds)));
}
pub proof fn lemma_full_content(dev: &ImageBlockDevice, first: Location, ds: Seq<Location>, m: int)
    requires dev.wf(), chain(dev, first, ds), 0 <= m < ds.len()
    ensures content(dev, ds.take(m)).len() == 254 * m, forall|x: int| 0 <= x < 254 * m ==> #[trigger] content(dev, ds.take(m))[x] == data_byte(dev, ds, x)
    decreases m
{
    if m > 0 {
        lemma_full_content(dev, first, ds, m - 1);
        assert(ds.take(m).drop_last() =~= ds.take(m - 1));
        let b = dev.sec(ds[m - 1]);
        assert(dev.valid(ds[m - 1]));
        dev.lemma_off(ds[m - 1]);
        assert(link_next(b) == Some(ds[m]));
        assert(used(b) == 256);
        assert forall|x: int| 0 <= x < 254 * m implies #[trigger] content(dev, ds.take(m))[x] == data_byte(dev, ds, x) by {
            if x < 254 * (m - 1) { assert(content(dev, ds.take(m))[x] == content(dev, ds.take(m - 1))[x]); }
            else { assert(x / 254 == m - 1 && x % 254 == x - 254 * (m - 1)); assert(content(dev, ds.take(m))[x] == payload(b)[x - 254 * (m - 1)]); }
        }
    }
}
pub proof fn lemma_pairs_push(s: Seq<u8>, k: int)
    requires 0 <= k, k + 2 <= s.len(), k % 2 == 0
    ensures pairs(s.take(k + 2)) == pairs(s.take(k)).push(Location(s[k], s[k + 1])),
        nonzero(pairs(s.take(k + 2))) == (if s[k] != 0 { nonzero(pairs(s.take(k))).push(Location(s[k], s[k + 1])) } else { nonzero(pairs(s.take(k))) }),
{
    let (a, b) = (pairs(s.take(k + 2)), pairs(s.take(k)).push(Location(s[k], s[k + 1])));
    assert(a.len() == b.len());
    assert forall|j: int| 0 <= j < a.len() implies a[j] == b[j] by { if j < k / 2 { assert(s.take(k + 2)[2 * j] == s.take(k)[2 * j]); } else { assert(2 * j == k); } }
    assert(a =~= b);
    assert(a.drop_last() =~= pairs(s.take(k)));
}
pub proof fn lemma_chain_unique(dev: &ImageBlockDevice, start: Location, c: Seq<Location>, d: Seq<Location>)
    requires chain(dev, start, c), chain(dev, start, d)
    ensures c == d
{
    lemma_walk_of_chain(dev, start, c, d);
    lemma_walk_of_chain(dev, start, d, c);
    assert(c =~= d);
}

pub proof fn lemma_bad_side(dev: &ImageBlockDevice, first: Location, n: int, w: Seq<Location>, l: Location)
    requires walk(dev, first, w.push(l)), !side_sized(dev.sec(l))
    ensures forall|ss: Seq<Location>| !intact_rel(dev, first, n, ss)
{
    assert forall|ss: Seq<Location>| !intact_rel(dev, first, n, ss) by {
        if chain(dev, first, ss) {
            let v = w.push(l);
            lemma_walk_of_chain(dev, first, v, ss);
            assert(v[v.len() - 1] == l);
            assert(ss.take(v.len() as int)[v.len() - 1] == l);
            assert(ss[v.len() - 1] == l);
        }
    }
}
/// one more side sector
pub proof fn lemma_side_step(dev: &ImageBlockDevice, w0: Seq<Location>, l: Location, lists0: Seq<Seq<Location>>, lb: Seq<u8>, src: Seq<u8>)
    requires
        dev.wf(), dev.valid(l), side_sized(dev.sec(l)), lb == dev.sec(l).subrange(4, 16), src == dev.sec(l).subrange(16, used(dev.sec(l))), lists0.len() == w0.len(),
        forall|k: int| 0 <= k < w0.len() ==> side_sized(#[trigger] dev.sec(w0[k])) && side_list(dev.sec(w0[k])) == lists0[k],
    ensures
        side_data(dev, w0.push(l)) == side_data(dev, w0) + pairs(src), pairs(src).len() <= 120,
        forall|k: int| 0 <= k < w0.push(l).len() ==> side_sized(#[trigger] dev.sec(w0.push(l)[k])) && side_list(dev.sec(w0.push(l)[k])) == lists0.push(nonzero(pairs(lb)))[k],
{
    let w = w0.push(l);
    dev.lemma_off(l);
    assert(w.drop_last() =~= w0);
    assert forall|k: int| 0 <= k < w.len() implies side_sized(#[trigger] dev.sec(w[k])) && side_list(dev.sec(w[k])) == lists0.push(nonzero(pairs(lb)))[k] by {
        if k < w0.len() { assert(w[k] == w0[k]); }
    }
}
pub open spec fn views(v: Seq<Vec<Location>>) -> Seq<Seq<Location>> { Seq::new(v.len(), |k: int| v[k]@) }

impl RelativeFile {
//@props P12 P16
//@fn src/disk/file.rs RelativeFile::new
//@ret r
//@sig /blocks: BlockDeviceRef,/ => hb: &ImageBlockDevice, blocks: BlockDeviceRef,
//@sub /blocks\.clone\(\)/ => blocks
//@sub /blocks\.borrow\(\)/ => (&*hb)
//@sub? /for (\w+) in chain \{/ => let mut it_ = chain; loop { let \1 = match it_.next(hb) { None => { break; } Some(s_) => s_ };
//@sub? /let list: Vec<Location> = list_bytes\s*\.chunks\(2\)\s*\.map\(\|c\| ([^|]*?)\)\s*\.filter\(\|l\| ([^|]*?)\)\s*\.collect\(\);/ => let mut list: Vec<Location> = Vec::new(); let mut k_: usize = 0; while k_ < list_bytes.len() { let e_ = if k_ + 2 <= list_bytes.len() { k_ + 2 } else { list_bytes.len() }; let v_ = { let c = &list_bytes[k_..e_]; \1 }; let keep_ = { let l = &v_; \2 }; if keep_ { list.push(v_); } k_ = e_; }
//@sub? /let mut sectors: Vec<Location> = (sector\.data\[[^\]]*\])\s*\.chunks\(2\)\s*\.map\(\|c\| ([^|]*?)\)\s*\.collect\(\);/ => let src_: &[u8] = &\1; let mut sectors: Vec<Location> = Vec::new(); let mut k_: usize = 0; while k_ < src_.len() { let e_ = if k_ + 2 <= src_.len() { k_ + 2 } else { src_.len() }; let v_ = { let c = &src_[k_..e_]; \2 }; sectors.push(v_); k_ = e_; }
//@sub? /if (\w+) != side_sectors \{/ => if !same_locations(&\1, &side_sectors) {
//@spec
    requires hb.wf()
    ensures
        r.is_ok() ==> entry.extra is Relative && rel_ok(hb, &r->Ok_0, entry.extra->Relative_0.first_side_sector) && r->Ok_0.entry == entry
            && r->Ok_0.record_size == entry.extra->Relative_0.record_length,
        r.is_err() && entry.extra is Relative ==> forall|ss: Seq<Location>| !intact_rel(hb, entry.extra->Relative_0.first_side_sector, entry.extra->Relative_0.record_length as int, ss),
        r.is_err() && !(entry.extra is Relative) ==> is_err(r, DiskError::InvalidRelativeFile),
        r.is_err() && !is_err(r, DiskError::InvalidRelativeFile) ==> ({
            let first = entry.extra->Relative_0.first_side_sector;
            ||| forall|ss: Seq<Location>| !chain(hb, first, ss)
            ||| exists|ss: Seq<Location>| #[trigger] chain(hb, first, ss) && side_data(hb, ss).len() > 0
                && (!hb.valid(side_data(hb, ss).last()) || link(hb.sec(side_data(hb, ss).last())).is_none())
        }),
//@start
    hide(walk); hide(content);
    let ghost first = entry.extra->Relative_0.first_side_sector;
    let ghost n0 = entry.extra->Relative_0.record_length as int;
//@loop 1
    invariant
        hb.wf(), entry.extra is Relative, first == entry.extra->Relative_0.first_side_sector, iter_at(hb, &it_, first, side_sectors@), data_sectors@ == side_data(hb, side_sectors@), data_sectors@.len() <= 120 * side_sectors@.len(),
        side_sector_lists@.len() == side_sectors@.len(), n0 == entry.extra->Relative_0.record_length,
        forall|k: int| 0 <= k < side_sectors@.len() ==> side_sized(#[trigger] hb.sec(side_sectors@[k])) && side_list(hb.sec(side_sectors@[k])) == views(side_sector_lists@)[k],
    ensures it_.next_sector.is_none()
    decreases before(hb.geometry.track_layouts@, hb.geometry.tracks + 1) - side_sectors@.len()
//@loopstart 1
    let ghost w0 = side_sectors@;
    let ghost d0 = data_sectors@;
    let ghost sl0 = views(side_sector_lists@);
    proof {
        lemma_walk_bound(hb, first, side_sectors@);
        if let Some(l) = it_.next_sector {
            lemma_next(hb, first, side_sectors@, l);
            if hb.valid(l) { hb.lemma_off(l); }
            if !side_sectors@.contains(l) && hb.valid(l) && link(hb.sec(l)).is_some() && !side_sized(hb.sec(l)) { lemma_bad_side(hb, first, n0, side_sectors@, l); }
        }
    }
//@loop 2
    invariant k_ <= list_bytes@.len(), list_bytes@.len() == 12, k_ % 2 == 0, list@ == nonzero(pairs(list_bytes@.take(k_ as int)))
    decreases list_bytes@.len() - k_
//@loopstart 2
    proof { lemma_pairs_push(list_bytes@, k_ as int); }
//@loop 3
    invariant k_ <= src_@.len(), src_@.len() <= 240, src_@.len() % 2 == 0, k_ % 2 == 0, sectors@ == pairs(src_@.take(k_ as int))
    decreases src_@.len() - k_
//@loopstart 3
    proof { lemma_pairs_push(src_@, k_ as int); }
//@beforeloop 2
    proof { assert(pairs(list_bytes@.take(0)) =~= Seq::<Location>::empty()); }
//@beforeloop 3
    proof { assert(pairs(src_@.take(0)) =~= Seq::<Location>::empty()); }
//@loopend 1
    proof {
        let l = side_sectors@.last();
        let b = hb.sec(l);
        assert(list_bytes@ =~= b.subrange(4, 16));
        assert(list_bytes@.take(12) =~= list_bytes@);
        assert(src_@ =~= b.subrange(16, used(b)));
        assert(src_@.take(src_@.len() as int) =~= src_@);
        lemma_side_step(hb, w0, l, sl0, list_bytes@, src_@);
        assert(side_sectors@ =~= w0.push(l));
        assert(views(side_sector_lists@) =~= sl0.push(nonzero(pairs(list_bytes@))));
    }
//@afterloop 1
    proof { assert forall|ss: Seq<Location>| crate::chain::chain(hb, first, ss) implies ss == side_sectors@ by { lemma_chain_unique(hb, first, ss, side_sectors@); } }
//@loop 4 it
    invariant
        forall|ss: Seq<Location>| crate::chain::chain(hb, first, ss) ==> ss == side_sectors@, entry.extra is Relative, first == entry.extra->Relative_0.first_side_sector, n0 == entry.extra->Relative_0.record_length,
        it.seq().len() == side_sectors@.len(),
        forall|k: int| 0 <= k < side_sectors@.len() ==> side_list(#[trigger] hb.sec(side_sectors@[k])) == it.seq()[k]@,
        forall|k: int| 0 <= k < it.index@ ==> side_list(#[trigger] hb.sec(side_sectors@[k])) == side_sectors@,
//@loopstart 4
    proof { assert(side_list(hb.sec(side_sectors@[it.index@])) == it.seq()[it.index@]@); }
//@before /let data_in_full_blocks/
    proof {
        assert(data_sectors@.len() <= 720);
        let m = data_sectors@.len() - 1;
        assert(BLOCK_SIZE - 2 == 254);
        assert(m * (BLOCK_SIZE - 2) == 254 * m) by (nonlinear_arith) requires BLOCK_SIZE - 2 == 254;
        if data_sectors@.len() > 0 { hb.lemma_off(data_sectors@.last()); }
    }
//@before /let records\b/
    proof { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(data_size as int, record_size as int); }
//@end
    proof { assert(records * record_size == data_size) by (nonlinear_arith) requires data_size as int == record_size as int * (data_size as int / record_size as int), records as int == data_size as int / record_size as int; }
//@endfn
//@fn src/disk/file.rs RelativeFile::record_position
//@ret r
//@spec
    requires 1 <= self.record_size <= 255, self.records * self.record_size <= 254 * self.data_sectors@.len(), self.data_sectors@.len() <= 720
    ensures
        r.is_ok() <==> index < self.records, r.is_err() ==> is_err(r, DiskError::InvalidRecordIndex),
        r.is_ok() ==> ({
            let (p, q) = r->Ok_0;
            let o = index * self.record_size;
            let m = if o % 254 + self.record_size <= 254 { self.record_size as int } else { 254 - o % 254 };
            &&& 0 <= o / 254 < self.data_sectors@.len() && p.location == self.data_sectors@[o / 254] && p.offset == 2 + o % 254 && p.size == m
            &&& q.is_none() <==> m == self.record_size
            &&& q.is_some() ==> o / 254 + 1 < self.data_sectors@.len() && q->Some_0.location == self.data_sectors@[o / 254 + 1] && q->Some_0.offset == 2
                && q->Some_0.size == self.record_size - m
        }),
//@before /let data_offset/
    proof {
        let (i, n, s) = (index as int, self.records as int, self.record_size as int);
        assert(s * i + s <= n * s && s * i >= 0 && s * i == i * s) by (nonlinear_arith) requires 0 <= i < n, s >= 1;
        assert(BLOCK_SIZE - 2 == 254);
    }
//@endfn
//@fn src/disk/file.rs FileOps for RelativeFile::record_count
//@ret r
//@spec
    ensures r.is_ok() && r->Ok_0 == self.records
//@endfn
//@fn src/disk/file.rs FileOps for RelativeFile::record
//@ret r
//@sig /&self/ => &self, hb: &ImageBlockDevice
//@sub /self\.blocks\.borrow\(\)/ => (&*hb)
//@sub? /(blocks\.read_position\([^()]*\)\?)\.to_vec\(\)/ => ({ let s_ = \1; let v_ = s_.to_vec(); assert(v_@ =~= s_@); v_ })
//@spec
    requires hb.wf(), 1 <= self.record_size <= 255, self.records * self.record_size == data_size(hb, self.data_sectors@), self.data_sectors@.len() <= 720, data_end_ok(hb, self.data_sectors@)
    ensures
        index >= self.records ==> is_err(r, DiskError::InvalidRecordIndex),
        index < self.records ==> (r.is_ok() <==> forall|x: int| index * self.record_size <= x < index * self.record_size + self.record_size ==> hb.valid(#[trigger] self.data_sectors@[x / 254])),
        r.is_ok() ==> r->Ok_0@ == data_range(hb, self.data_sectors@, index * self.record_size, self.record_size as int),
//@start
    proof {
        let ds = self.data_sectors@;
        let (i, n, s) = (index as int, self.records as int, self.record_size as int);
        if ds.len() > 0 { hb.lemma_off(ds.last()); }
        let o = i * s;
        if i < n {
            assert(s * i + s <= n * s && s * i >= 0 && s * i == i * s) by (nonlinear_arith) requires 0 <= i < n, s >= 1;
            let j = o / 254;
            assert(o / 254 == j);
            let x1 = 254 * (j + 1);
            if o % 254 + s > 254 { assert(o <= x1 < o + s && x1 / 254 == j + 1); }
            assert forall|x: int| o <= x < o + s implies (#[trigger] ds[x / 254] == ds[j] || (o % 254 + s > 254 && ds[x / 254] == ds[j + 1])) by { assert(x / 254 == j || x / 254 == j + 1); }
            assert(ds[o / 254] == ds[j]);
            if hb.valid(ds[j]) { hb.lemma_off(ds[j]); }
            if hb.valid(ds[j + 1]) { hb.lemma_off(ds[j + 1]); }
        }
    }
//@end
    proof {
        let ds = self.data_sectors@;
        let o = index * self.record_size;
        let j = o / 254;
        let want = data_range(hb, ds, o, self.record_size as int);
        assert forall|k: int| 0 <= k < self.record_size implies record@[k] == #[trigger] want[k] by {
            assert(want[k] == data_byte(hb, ds, o + k));
            if o % 254 + k < 254 { assert((o + k) / 254 == j && (o + k) % 254 == o % 254 + k); }
            else { assert((o + k) / 254 == j + 1 && (o + k) % 254 == o % 254 + k - 254); }
        }
        assert(record@ =~= want);
    }
//@endfn
//@props P09 P12 P15
//@fn src/disk/file.rs FileOps for RelativeFile::occupied_sectors
//@ret r
//@sub? /let mut locations = vec!\[\];/ => let mut locations: Vec<Location> = Vec::new();
//@sub /locations\.extend\((self\.\w+)\.iter\(\)\);/ => extend_copied(&mut locations, &\1);
//@sub /locations\.sort\(\);\s*locations\.dedup\(\);/ => proof { lemma_contains_cat(self.data_sectors@, self.side_sectors@, locations@); } sort_dedup(&mut locations);
//@spec
    ensures r.is_ok(), r->Ok_0@.no_duplicates(), forall|l: Location| r->Ok_0@.contains(l) <==> self.data_sectors@.contains(l) || self.side_sectors@.contains(l)
//@endfn
//@props P09 P12 P13
//@fn src/disk/file.rs FileOps for RelativeFile::delete
//@ret r
//@sig /&mut self/ => &mut self, hb: &mut ImageBlockDevice, hm: &mut Bam
//@sub /self\.(blocks|bam)\.clone\(\)/ => self.\1
//@sub /(ChainIterator::new\(self\.blocks, ([^()]*)\))\s*\.locations\(\)/ => \1.locations(hb, Ghost(\2))
//@sub /locations\.extend\((self\.\w+)\.iter\(\)\);/ => let ghost ls0 = locations@; extend_copied(&mut locations, &\1);
//@sub /chain::free_sectors\(/ => free_sectors(hb, hm, 
//@sub /self\.blocks\.borrow_mut\(\)/ => (&mut *hb)
//@spec
    requires map_ok(old(hb), old(hm)), listed_entry(old(hb), old(hm), &old(self).entry)
    ensures
        r.is_ok() ==> exists|ls: Seq<Location>| #[trigger] chain(old(hb), old(self).entry.first_sector, ls)
            && deleted(old(hb), old(hm), final(hb), final(hm), old(self).entry.position->Some_0, ls + old(self).side_sectors@),
        r.is_err() ==> *final(hb) == *old(hb) && *final(hm) == *old(hm),
        !old(hb).writable() ==> r.is_err(), // [P13]
//@start
    let ghost mut ls: Seq<Location> = Seq::empty();
    let ghost e0 = self.entry;
    let ghost mut d1 = *hb;
    proof { lemma_decodes_wf(&e0, slot(hb, e0.position->Some_0)); }
//@after /free_sectors/
    proof { ls = locations@; d1 = *hb; }
//@end
    proof { lemma_deleted(old(hb), old(hm), &d1, hm, hb, &e0, &self.entry, ls, Ok(())); }
//@endfn
}
pub proof fn lemma_contains_cat(a: Seq<Location>, b: Seq<Location>, c: Seq<Location>)
    requires c == Seq::<Location>::empty() + a + b
    ensures forall|l: Location| c.contains(l) <==> a.contains(l) || b.contains(l)
{
    assert forall|l: Location| c.contains(l) <==> a.contains(l) || b.contains(l) by {
        if a.contains(l) { let k = choose|k: int| 0 <= k < a.len() && a[k] == l; assert(c[k] == l); }
        if b.contains(l) { let k = choose|k: int| 0 <= k < b.len() && b[k] == l; assert(c[a.len() + k] == l); }
        if c.contains(l) { let k = choose|k: int| 0 <= k < c.len() && c[k] == l; if k < a.len() { assert(a[k] == l); } else { assert(b[k - a.len()] == l); } }
    }
}

// ---------------------------------------------------------------- GEOS files

/// number of index entries: up to the first pair of zeros
pub open spec fn index_len(s: Seq<u8>, k: int) -> int
    decreases s.len() - 2 * k
{
    if 2 * k + 1 >= s.len() || k < 0 { k } else if s[2 * k] == 0 && s[2 * k + 1] == 0 { k } else { index_len(s, k + 1) }
}
/// what entry i of the index says: the start of a record, or None for an unavailable one
pub open spec fn index_entry(s: Seq<u8>, i: int) -> Option<Location> {
    if s[2 * i] == 0 && s[2 * i + 1] == 0xFF { None } else { Some(Location(s[2 * i], s[2 * i + 1])) }
}
pub open spec fn vlir_index(b: Seq<u8>) -> Seq<Option<Location>> {
    let s = b.subrange(2, 256);
    Seq::new(index_len(s, 0) as nat, |i: int| index_entry(s, i))
}
pub open spec fn geos_of_entry(e: &DirectoryEntry) -> bool { e.extra is GEOS }
pub open spec fn entry_vlir(e: &DirectoryEntry) -> bool { e.extra->GEOS_0.structure is VLIR }
pub open spec fn entry_info(e: &DirectoryEntry) -> Option<Location> {
    let l = e.extra->GEOS_0.info_block;
    if l.0 == 0 && l.1 == 0 { None } else { Some(l) }
}
/// f was opened from its entry on this disk
pub open spec fn geos_ok(dev: &ImageBlockDevice, f: &GEOSFile) -> bool {
    &&& f.entry.extra is GEOS && !(f.entry.extra->GEOS_0.structure is Undefined)
    &&& f.vlir.is_some() == entry_vlir(&f.entry)
    &&& f.vlir.is_some() ==> dev.valid(f.entry.first_sector) && f.vlir->Some_0@ == vlir_index(dev.sec(f.entry.first_sector))
}
pub open spec fn geos_record_start(f: &GEOSFile, i: int) -> Option<Location> {
    if f.vlir.is_some() { f.vlir->Some_0@[i] } else { Some(f.entry.first_sector) }
}
pub open spec fn geos_records(f: &GEOSFile) -> int { if f.vlir.is_some() { f.vlir->Some_0@.len() as int } else { 1 } }
/// the chains of the first n index entries
pub open spec fn record_chains(dev: &ImageBlockDevice, v: Seq<Option<Location>>, n: int, cs: Seq<Seq<Location>>) -> bool {
    &&& cs.len() == n
    &&& forall|k: int| 0 <= k < n ==> if v[k].is_some() { chain(dev, v[k]->Some_0, #[trigger] cs[k]) } else { cs[k].len() == 0 }
}
pub open spec fn in_some(cs: Seq<Seq<Location>>, l: Location) -> bool { exists|k: int| 0 <= k < cs.len() && (#[trigger] cs[k]).contains(l) }
/// what a GEOS file occupies, given the chain of its entry and those of its records
pub open spec fn geos_owns(f: &GEOSFile, c: Seq<Location>, cs: Seq<Seq<Location>>, l: Location) -> bool {
    c.contains(l) || entry_info(&f.entry) == Some(l) || in_some(cs, l)
}
pub open spec fn geos_sectors(dev: &ImageBlockDevice, f: &GEOSFile, c: Seq<Location>, cs: Seq<Seq<Location>>) -> bool {
    &&& chain(dev, f.entry.first_sector, c)
    &&& if f.vlir.is_some() { record_chains(dev, f.vlir->Some_0@, f.vlir->Some_0@.len() as int, cs) } else { cs.len() == 0 }
}
pub proof fn lemma_index_step(s: Seq<u8>, k: int)
    requires 0 <= k, 2 * k + 1 < s.len()
    ensures s[2 * k] != 0 || s[2 * k + 1] != 0 ==> index_len(s, k) == index_len(s, k + 1), s[2 * k] == 0 && s[2 * k + 1] == 0 ==> index_len(s, k) == k
{}

impl DirectoryEntry {
//@props P09 P12 P17
//@fn src/disk/geos/mod.rs GEOSDirectoryEntry for DirectoryEntry::is_vlir
//@ret r
//@spec
    requires self.extra is GEOS
    ensures r.is_err() <==> self.extra->GEOS_0.structure is Undefined, r.is_err() ==> is_err(r, DiskError::UnknownFormat), r.is_ok() ==> r->Ok_0 == entry_vlir(self)
//@endfn
//@fn src/disk/geos/mod.rs GEOSDirectoryEntry for DirectoryEntry::info_location
//@ret r
//@spec
    requires self.extra is GEOS
    ensures r.is_ok() && r->Ok_0 == entry_info(self)
//@endfn
}
impl GEOSFile {
//@fn src/disk/geos/file.rs GEOSFile::new
//@ret r
//@sig /blocks: BlockDeviceRef,/ => hb: &ImageBlockDevice, blocks: BlockDeviceRef,
//@sub /blocks\.borrow\(\)/ => (&*hb)
//@sub /let records: Vec<Option<Location>> = index_block\[([^\]]*)\]\s*\.chunks\(2\)\s*\.take_while\(\|chunk\| ([^|{}]*(?:\|\|)?[^|{}]*)\)\s*\.map\(\|chunk\| \{(.*?)\}\)\s*\.collect\(\);/ => let src_: &[u8] = &index_block[\1]; let mut records: Vec<Option<Location>> = Vec::new(); let mut k_: usize = 0; while k_ < src_.len() { let e_ = if k_ + 2 <= src_.len() { k_ + 2 } else { src_.len() }; let chunk = &src_[k_..e_]; if !(\2) { break; } let v_: Option<Location> = {\3}; records.push(v_); k_ = e_; }
//@spec
    requires hb.wf(), entry.extra is GEOS
    ensures
        r.is_ok() ==> geos_ok(hb, &r->Ok_0) && r->Ok_0.entry == entry,
        r.is_ok() <==> !(entry.extra->GEOS_0.structure is Undefined) && (entry_vlir(&entry) ==> hb.valid(entry.first_sector)),
//@loop 1
    invariant k_ <= src_@.len(), src_@.len() == 254, k_ % 2 == 0, records@.len() == k_ / 2, index_len(src_@, 0) == index_len(src_@, k_ as int / 2),
        forall|i: int| 0 <= i < records@.len() ==> #[trigger] records@[i] == index_entry(src_@, i),
    ensures records@.len() == index_len(src_@, 0), src_@.len() == 254, forall|i: int| 0 <= i < records@.len() ==> #[trigger] records@[i] == index_entry(src_@, i),
    decreases src_@.len() - k_
//@loopstart 1
    proof { lemma_index_step(src_@, k_ as int / 2); }
//@afterloop 1
    proof { assert(src_@ =~= hb.sec(entry.first_sector).subrange(2, 256)); assert(records@ =~= vlir_index(hb.sec(entry.first_sector))); }
//@endfn
//@props P12 P17
//@fn src/disk/geos/file.rs GEOSFile::record_start
//@ret r
//@sub? /records\.get\((\w+)\)/ => (if \1 < records.len() { Some(&records[\1]) } else { None })
//@spec
    ensures
        index >= geos_records(self) ==> is_err(r, DiskError::InvalidRecordIndex),
        index < geos_records(self) ==> r.is_ok() && r->Ok_0 == geos_record_start(self, index as int),
//@endfn
//@fn src/disk/geos/file.rs FileOps for GEOSFile::record_count
//@ret r
//@spec
    ensures r.is_ok() && r->Ok_0 == geos_records(self)
//@endfn
//@fn src/disk/geos/file.rs FileOps for GEOSFile::record
//@ret r
//@sig /&self/ => &self, hb: &ImageBlockDevice
//@sub /self\.blocks\.clone\(\)/ => self.blocks
//@sub? /let mut record = vec!\[\];/ => let mut record: Vec<u8> = Vec::new(); proof { let d_ = delivered(hb, &reader, Seq::empty()); assert(reader_at(hb, &reader, location, Seq::empty())); }
//@sub? /Ok\(vec!\[\]\)/ => ({ let v_: Vec<u8> = Vec::new(); Ok(v_) })
//@sub /reader\.read_to_end\(&mut (\w+)\)/ => reader.read_to_end(&mut \1, hb, Ghost(location))
//@spec
    requires hb.wf()
    ensures
        index >= geos_records(self) ==> is_err(r, DiskError::InvalidRecordIndex),
        index < geos_records(self) ==> ({
            let s = geos_record_start(self, index as int);
            &&& s.is_none() ==> r.is_ok() && r->Ok_0@.len() == 0
            &&& s.is_some() && r.is_ok() ==> exists|c: Seq<Location>| #[trigger] chain(hb, s->Some_0, c) && r->Ok_0@ =~= content(hb, c)
            &&& s.is_some() && r.is_err() ==> forall|c: Seq<Location>| !chain(hb, s->Some_0, c)
        }),
//@endfn
//@props P12 P17 P19
//@fn src/disk/geos/file.rs GEOSFile::info
//@ret r
//@sig /&self/ => &self, hb: &ImageBlockDevice
//@sub /self\.blocks\.borrow(?:_mut)?\(\)/ => (&*hb)
//@spec
    requires hb.wf(), self.entry.extra is GEOS
    ensures
        entry_info(&self.entry).is_none() ==> r.is_ok() && r->Ok_0.is_none(),
        entry_info(&self.entry).is_some() ==> (r.is_ok() <==> hb.valid(entry_info(&self.entry)->Some_0)),
        entry_info(&self.entry).is_some() && r.is_ok() ==> r->Ok_0.is_some() && info_of(&(r->Ok_0)->Some_0, hb.sec(entry_info(&self.entry)->Some_0)),
//@endfn
//@props P09 P12 P15
//@fn src/disk/geos/file.rs FileOps for GEOSFile::occupied_sectors
//@ret r
//@sig /&self/ => &self, hb: &ImageBlockDevice
//@sub /self\.blocks\.clone\(\)/ => self.blocks
//@sub /(ChainIterator::new\(self\.blocks, ([^()]*)\))\s*\.map\(\|(\w+)\| \3\.map\(\|(\w+)\| \4\.location\)\)\s*\.collect::<io::Result<Vec<_>>>\(\)/ => ({ let r_ = \1.locations(hb, Ghost(\2)); proof { if r_.is_err() { lemma_no_geos(hb, self, \2); } } r_ })
//@sub? /for (\w+) in (\w+)\.iter\(\)\.flatten\(\) \{/ => for o_ in \2.iter() { let ghost w0 = locations@; let ghost cs0 = cs; proof { cs = cs.push(Seq::empty()); } if let Some(\1) = o_ {
//@sub? /locations\.extend\((\w+)\);\s*\}/ => let mut rl_ = \1; proof { cs = cs0.push(rl_@); } locations.append(&mut rl_); } }
//@sub /locations\.sort\(\);\s*locations\.dedup\(\);/ => proof { assert(cs.len() == 0 || self.vlir.is_some()); assert(geos_sectors(hb, self, c, cs)); } sort_dedup(&mut locations);
//@spec
    requires hb.wf(), geos_ok(hb, self)
    ensures
        r.is_ok() ==> r->Ok_0@.no_duplicates() && exists|c: Seq<Location>, cs: Seq<Seq<Location>>| #[trigger] geos_sectors(hb, self, c, cs)
            && forall|l: Location| r->Ok_0@.contains(l) <==> geos_owns(self, c, cs, l),
        r.is_err() ==> forall|c: Seq<Location>, cs: Seq<Seq<Location>>| !geos_sectors(hb, self, c, cs),
//@start
    let ghost mut c: Seq<Location> = Seq::empty();
    let ghost mut cs: Seq<Seq<Location>> = Seq::empty();
//@after /let mut locations/
    proof { c = locations@; }
    let ghost v = self.vlir->Some_0@;
//@after /if let Some\(info_location/
    proof {
        assert forall|l: Location| locations@.contains(l) <==> geos_owns(self, c, cs, l) by {
            if entry_info(&self.entry).is_some() { lemma_push_contains(c, entry_info(&self.entry)->Some_0, l); }
        }
    }
//@loop 1 it
    invariant
        hb.wf(), chain(hb, self.entry.first_sector, c), self.vlir.is_some(), v == self.vlir->Some_0@, v == vlir_record_starts@,
        it.seq().len() == v.len(), forall|k: int| 0 <= k < v.len() ==> *#[trigger] it.seq()[k] == v[k],
        record_chains(hb, v, it.index@, cs), forall|l: Location| locations@.contains(l) <==> geos_owns(self, c, cs, l),
//@loopend 1
    proof {
        lemma_owns_step(self, c, cs0, cs, w0, locations@);
        assert(record_chains(hb, v, it.index@ + 1, cs));
    }
//@endfn
//@props P09 P12 P13
//@fn src/disk/geos/file.rs FileOps for GEOSFile::delete
//@ret r
//@sig /&mut self/ => &mut self, hb: &mut ImageBlockDevice, hm: &mut Bam
//@sub /self\.(blocks|bam)\.clone\(\)/ => self.\1
//@sub /self\.occupied_sectors\(\)/ => self.occupied_sectors(hb)
//@sub /chain::free_sectors\(/ => free_sectors(hb, hm, 
//@sub /self\.blocks\.borrow_mut\(\)/ => (&mut *hb)
//@spec
    requires map_ok(old(hb), old(hm)), listed_entry(old(hb), old(hm), &old(self).entry), geos_ok(old(hb), old(self))
    ensures
        r.is_ok() ==> exists|f: Seq<Location>| #[trigger] deleted(old(hb), old(hm), final(hb), final(hm), old(self).entry.position->Some_0, f)
            && exists|c: Seq<Location>, cs: Seq<Seq<Location>>| #[trigger] geos_sectors(old(hb), old(self), c, cs)
                && forall|l: Location| f.contains(l) <==> geos_owns(old(self), c, cs, l),
        r.is_err() ==> *final(hb) == *old(hb) && *final(hm) == *old(hm),
        !old(hb).writable() ==> r.is_err(), // [P13]
//@start
    let ghost mut ls: Seq<Location> = Seq::empty();
    let ghost e0 = self.entry;
    let ghost mut d1 = *hb;
    proof { lemma_decodes_wf(&e0, slot(hb, e0.position->Some_0)); }
//@after /free_sectors/
    proof { ls = locations@; d1 = *hb; }
//@end
    proof { lemma_deleted(old(hb), old(hm), &d1, hm, hb, &e0, &self.entry, ls, Ok(())); }
//@endfn
//@props P12 P17
//@fn src/disk/geos/file.rs FileOps for GEOSFile::reader
//@ret r
//@sig /fn reader/ => fn linear_reader
//@sig /Box<dyn Read>/ => Box<ChainReader>
//@sub /self\.blocks\.clone\(\)/ => self.blocks
//@sub? /Box::new\((ChainReader::new\([^()]*\))\)/ => ({ let c_ = \1; let b_ = Box::new(c_); proof { assert forall|dev: &ImageBlockDevice| reader_at(dev, &*b_, self.entry.first_sector, Seq::empty()) by { let d_ = delivered(dev, &c_, Seq::empty()); assert(reader_at(dev, &c_, self.entry.first_sector, Seq::empty())); } } b_ })
//@spec
    ensures
        self.vlir.is_some() ==> is_err(r, DiskError::NonLinearFile),
        self.vlir.is_none() ==> r.is_ok() && forall|dev: &ImageBlockDevice| reader_at(dev, &*r->Ok_0, self.entry.first_sector, Seq::empty()),
//@endfn
}
pub proof fn lemma_no_geos(dev: &ImageBlockDevice, f: &GEOSFile, l: Location)
    requires forall|c: Seq<Location>| !chain(dev, l, c), l == f.entry.first_sector || (f.vlir.is_some() && exists|k: int| 0 <= k < f.vlir->Some_0@.len() && f.vlir->Some_0@[k] == Some(l))
    ensures forall|c: Seq<Location>, cs: Seq<Seq<Location>>| !geos_sectors(dev, f, c, cs)
{
    assert forall|c: Seq<Location>, cs: Seq<Seq<Location>>| !geos_sectors(dev, f, c, cs) by {
        if geos_sectors(dev, f, c, cs) && l != f.entry.first_sector {
            let k = choose|k: int| 0 <= k < f.vlir->Some_0@.len() && f.vlir->Some_0@[k] == Some(l);
            assert(chain(dev, l, cs[k]));
        }
    }
}
/// adding the chain of one more record
pub proof fn lemma_owns_step(f: &GEOSFile, c: Seq<Location>, cs0: Seq<Seq<Location>>, cs: Seq<Seq<Location>>, w0: Seq<Location>, w: Seq<Location>)
    requires
        cs.len() == cs0.len() + 1, cs == cs0.push(cs.last()), w == w0 + cs.last(),
        forall|l: Location| w0.contains(l) <==> geos_owns(f, c, cs0, l),
    ensures forall|l: Location| w.contains(l) <==> geos_owns(f, c, cs, l)
{
    let x = cs.last();
    assert forall|l: Location| w.contains(l) <==> geos_owns(f, c, cs, l) by {
        if w.contains(l) {
            let k = choose|k: int| 0 <= k < w.len() && w[k] == l;
            if k < w0.len() { assert(w0[k] == l); assert(w0.contains(l)); if in_some(cs0, l) { let j = choose|j: int| 0 <= j < cs0.len() && (#[trigger] cs0[j]).contains(l); assert(cs[j].contains(l)); } }
            else { assert(x[k - w0.len()] == l); assert(cs[cs.len() - 1].contains(l)); }
        }
        if in_some(cs, l) {
            let j = choose|j: int| 0 <= j < cs.len() && (#[trigger] cs[j]).contains(l);
            if j < cs0.len() { assert(cs0[j].contains(l)); assert(w0.contains(l)); let k = choose|k: int| 0 <= k < w0.len() && w0[k] == l; assert(w[k] == l); }
            else { let k = choose|k: int| 0 <= k < x.len() && x[k] == l; assert(w[w0.len() + k] == l); }
        } else if geos_owns(f, c, cs, l) {
            assert(w0.contains(l)); let k = choose|k: int| 0 <= k < w0.len() && w0[k] == l; assert(w[k] == l);
        }
    }
}
} // mod files
pub use files::*;
