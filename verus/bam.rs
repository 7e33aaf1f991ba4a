pub mod bam {
use super::*;

/// Handle to the shared block device (`Rc<RefCell<dyn BlockDevice>>` in the source).  The device itself
/// is passed explicitly (`hb`) to the functions that dereference a handle.
#[derive(Clone, Copy)]
pub struct BlockDeviceRef;

//@item src/disk/bam.rs struct BamFormat
//@item src/disk/bam.rs struct BamSection
//@item src/disk/bam.rs struct BamWriter
//@item src/disk/bam.rs struct BamEntry
//@item src/disk/bam.rs struct Bam

//@props P02 P03
// ---------------------------------------------------------------- bitmaps

/// sector s is marked free
pub open spec fn fr(map: u64, s: int) -> bool { 0 <= s < 64 && (map >> (s as u64)) & 1 == 1 }

/// number of sectors marked free among the first n
pub open spec fn count(map: u64, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { count(map, n - 1) + if fr(map, n - 1) { 1int } else { 0 } }
}

pub proof fn lemma_count_bound(map: u64, n: int)
    requires 0 <= n
    ensures 0 <= count(map, n) <= n
    decreases n
{
    if n > 0 { lemma_count_bound(map, n - 1); }
}

pub proof fn lemma_clear(map: u64, s: u8)
    requires s < 64
    ensures
        !fr(map & !(1u64 << s), s as int),
        forall|t: int| 0 <= t < 64 && t != s ==> #[trigger] fr(map & !(1u64 << s), t) == fr(map, t),
        fr(map, s as int) || map & !(1u64 << s) == map,
{
    assert(((map & !(1u64 << s)) >> (s as u64)) & 1 == 0) by (bit_vector) requires s < 64;
    assert(((map >> (s as u64)) & 1 == 1) || map & !(1u64 << s) == map) by (bit_vector) requires s < 64;
    assert forall|t: int| 0 <= t < 64 && t != s implies #[trigger] fr(map & !(1u64 << s), t) == fr(map, t) by {
        let u = t as u64;
        let v = s as u64;
        assert(((map & !(1u64 << v)) >> u) & 1 == (map >> u) & 1) by (bit_vector) requires u < 64, v < 64, u != v;
        assert(1u64 << s == 1u64 << v) by (bit_vector) requires v == s as u64;
    }
}

pub proof fn lemma_set(map: u64, s: u8)
    requires s < 64
    ensures
        fr(map | (1u64 << s), s as int),
        forall|t: int| 0 <= t < 64 && t != s ==> #[trigger] fr(map | (1u64 << s), t) == fr(map, t),
        fr(map, s as int) ==> map | (1u64 << s) == map,
{
    assert(((map | (1u64 << s)) >> (s as u64)) & 1 == 1) by (bit_vector) requires s < 64;
    assert(((map >> (s as u64)) & 1 == 1) ==> map | (1u64 << s) == map) by (bit_vector) requires s < 64;
    assert forall|t: int| 0 <= t < 64 && t != s implies #[trigger] fr(map | (1u64 << s), t) == fr(map, t) by {
        let u = t as u64;
        let v = s as u64;
        assert(((map | (1u64 << v)) >> u) & 1 == (map >> u) & 1) by (bit_vector) requires u < 64, v < 64, u != v;
        assert(1u64 << s == 1u64 << v) by (bit_vector) requires v == s as u64;
    }
}

/// byte k of the map, as stored
pub open spec fn map_byte(map: u64, k: int) -> u8 { ((map >> ((8 * k) as u64)) & 0xff) as u8 }

/// value of a little-endian bitmap
pub open spec fn from_le(b: Seq<u8>) -> u64
    decreases b.len()
{
    if b.len() == 0 { 0 } else { ((from_le(b.drop_first()) << 8) | b[0] as u64) }
}

pub proof fn lemma_from_le_byte(b: Seq<u8>, k: int)
    requires 0 <= k < b.len() <= 8
    ensures map_byte(from_le(b), k) == b[k]
    decreases b.len()
{
    let r = from_le(b.drop_first());
    let x = b[0];
    if k == 0 {
        assert((((r << 8) | x as u64) >> 0) & 0xff == x as u64) by (bit_vector);
    } else {
        lemma_from_le_byte(b.drop_first(), k - 1);
        let i = (8 * (k - 1)) as u64;
        assert((((r << 8) | x as u64) >> ((i + 8) as u64)) & 0xff == (r >> i) & 0xff) by (bit_vector) requires i <= 48;
        assert(b.drop_first()[k - 1] == b[k]);
    }
}

/// the bytes of a map that fits into them give the map back
pub proof fn lemma_map_bytes(map: u64, b: Seq<u8>)
    requires 1 <= b.len() <= 5, forall|k: int| 0 <= k < b.len() ==> b[k] == #[trigger] map_byte(map, k),
        map >> ((8 * b.len()) as u64) == 0
    ensures from_le(b) == map
    decreases b.len()
{
    let x = b[0];
    let t = b.drop_first();
    let m = map >> 8;
    assert(b[0] == map_byte(map, 0));
    assert((map >> 0) & 0xff == map & 0xff) by (bit_vector);
    assert(((map & 0xff) as u8) as u64 == map & 0xff) by (bit_vector);
    assert(((map >> 8) << 8) | (map & 0xff) == map) by (bit_vector);
    if b.len() == 1 {
        assert(t.len() == 0);
        assert(from_le(t) == 0);
        assert(m == 0) by { assert(8 * b.len() == 8); }
    } else {
        assert forall|k: int| 0 <= k < t.len() implies t[k] == #[trigger] map_byte(m, k) by {
            assert(b[k + 1] == map_byte(map, k + 1));
            let i = (8 * k) as u64;
            assert(((map >> 8) >> i) == map >> ((i + 8) as u64)) by (bit_vector) requires i <= 32;
        }
        let n = (8 * t.len()) as u64;
        assert(((map >> 8) >> n) == map >> ((n + 8) as u64)) by (bit_vector) requires n <= 32;
        lemma_map_bytes(m, t);
    }
}

pub proof fn lemma_push(map: u64)
    ensures
        fr((map << 1) | 1, 0),
        forall|s: int| 1 <= s < 64 ==> #[trigger] fr((map << 1) | 1, s) == fr(map, s - 1),
{
    assert((((map << 1) | 1) >> 0) & 1 == 1) by (bit_vector);
    assert forall|s: int| 1 <= s < 64 implies #[trigger] fr((map << 1) | 1, s) == fr(map, s - 1) by {
        let u = (s - 1) as u64;
        assert((((map << 1) | 1) >> ((u + 1) as u64)) & 1 == (map >> u) & 1) by (bit_vector) requires u < 63;
    }
}

pub proof fn lemma_shift(map: u64, n: int)
    requires 0 <= n < 64
    ensures
        (map >> (n as u64)) >> 1 == (if n + 1 < 64 { map >> ((n + 1) as u64) } else { 0 }),
        ((map >> (n as u64)) & 1 == 1) == fr(map, n),
        ((map >> (n as u64)) & 1 == 0) == !fr(map, n),
{
    let u = n as u64;
    assert(u < 63 ==> (map >> u) >> 1 == map >> ((u + 1) as u64)) by (bit_vector) requires u < 64;
    assert(u == 63 ==> (map >> u) >> 1 == 0) by (bit_vector) requires u < 64;
    assert((map >> u) & 1 == 1 || (map >> u) & 1 == 0) by (bit_vector);
}

impl BamEntry {
//@props P02 P14
//@fn src/disk/bam.rs BamEntry::new
//@ret r
//@spec
    requires sectors < 64
    ensures
        r.free_sectors == sectors,
        forall|s: int| 0 <= s < 64 ==> #[trigger] fr(r.sector_map, s) == (s < sectors),
//@loop 1 it
    invariant sectors < 64, 0 <= it.index@ <= sectors,
        forall|s: int| 0 <= s < 64 ==> #[trigger] fr(map, s) == (s < it.index@),
//@loopstart 1
    proof { lemma_push(map); }
//@beforeloop 1
    proof {
        assert forall|s: int| 0 <= s < 64 implies !#[trigger] fr(0, s) by {
            let u = s as u64;
            assert((0u64 >> u) & 1 == 0) by (bit_vector);
        }
    }
//@endfn

//@props P03 P12
//@fn src/disk/bam.rs BamEntry::from_bytes
//@ret r
//@spec
    ensures r.free_sectors == free_sectors, r.sector_map == from_le(bitmap@)
//@loop 1
    invariant sector_map == from_le(bitmap@.skip(bitmap@.len() - i)), i <= bitmap@.len(),
//@loopstart 1
    proof {
        let s = bitmap@.skip(bitmap@.len() - i - 1);
        assert(s.drop_first() =~= bitmap@.skip(bitmap@.len() - i));
    }
//@end
    proof { assert(bitmap@.skip(0) =~= bitmap@); }
//@beforeloop 1
    proof { assert(bitmap@.skip(bitmap@.len() as int).len() == 0); }
//@endfn

//@fn src/disk/bam.rs BamEntry::write_bitmap
//@ret r
//@spec
    requires old(bitmap)@.len() <= 8
    ensures
        final(bitmap)@.len() == old(bitmap)@.len(),
        forall|k: int| 0 <= k < old(bitmap)@.len() ==> #[trigger] final(bitmap)@[k] == map_byte(self.sector_map, k),
//@loop 1 it
    invariant
        it.seq().len() == old(bitmap)@.len(), it.seq().len() <= 8, 0 <= it.index@ <= it.seq().len(),
        sector_map == (if it.index@ < 8 { self.sector_map >> ((8 * it.index@) as u64) } else { 0 }),
        forall|k: int| 0 <= k < it.index@ ==> *final(#[trigger] it.seq()[k]) == map_byte(self.sector_map, k),
//@loopstart 1
    proof {
        let m = self.sector_map;
        let n = (8 * it.index@) as u64;
        assert(n < 56 ==> (m >> n) >> 8 == m >> ((n + 8) as u64)) by (bit_vector);
        assert(n == 56 ==> (m >> n) >> 8 == 0) by (bit_vector);
    }
//@beforeloop 1
    proof { let m = self.sector_map; assert(m >> 0 == m) by (bit_vector); }
//@endfn

//@props P02
//@fn src/disk/bam.rs BamEntry::has_availability
//@ret r
//@spec
    ensures r == (self.free_sectors > 0)
//@endfn
//@fn src/disk/bam.rs BamEntry::sector_map
//@ret r
//@spec
    ensures r == self.sector_map
//@endfn
//@fn src/disk/bam.rs BamEntry::allocate
//@ret r
//@spec
    requires sector < 64
    ensures
        !fr(final(self).sector_map, sector as int),
        forall|t: int| 0 <= t < 64 && t != sector ==> #[trigger] fr(final(self).sector_map, t) == fr(old(self).sector_map, t),
        final(self).free_sectors == count(final(self).sector_map, 64),
//@start
    proof { lemma_clear(self.sector_map, sector); }
//@endfn
//@fn src/disk/bam.rs BamEntry::free
//@ret r
//@spec
    requires sector < 64
    ensures
        fr(final(self).sector_map, sector as int),
        forall|t: int| 0 <= t < 64 && t != sector ==> #[trigger] fr(final(self).sector_map, t) == fr(old(self).sector_map, t),
        final(self).free_sectors == count(final(self).sector_map, 64),
//@start
    proof { lemma_set(self.sector_map, sector); }
//@endfn
//@fn src/disk/bam.rs BamEntry::update_free_sectors
//@ret r
//@spec
    ensures
        final(self).sector_map == old(self).sector_map,
        final(self).free_sectors == count(old(self).sector_map, 64),
//@loop 1 it
    invariant
        0 <= it.index@ <= 64,
        map == (if it.index@ < 64 { self.sector_map >> (it.index@ as u64) } else { 0 }),
        count == crate::bam::count(self.sector_map, it.index@ as int), count <= it.index@,
        self.sector_map == old(self).sector_map,
//@loopstart 1
    proof { lemma_shift(self.sector_map, it.index@ as int); lemma_count_bound(self.sector_map, it.index@ as int); }
//@beforeloop 1
    proof { let m = self.sector_map; assert(m >> 0 == m) by (bit_vector); }
//@endfn
}

// ---------------------------------------------------------------- the map of a disk

/// what the statics of the supported formats satisfy (mod tables)
pub open spec fn wf_format(f: &DiskFormat) -> bool {
    &&& f.first_track == 1
    &&& 2 <= f.directory_track <= 40 && f.directory_track + 2 < f.last_track <= 80
    &&& f.first_directory_sector < 4
    &&& f.reserved_track == 0 || f.directory_track + 1 < f.reserved_track < f.last_track
    &&& wf_layout(f.tracks@, f.last_track as int)
    &&& forall|t: int| 1 <= t <= f.last_track ==> f.tracks@[t].sectors > 15
    &&& 1 <= f.interleave <= 10 && 1 <= f.directory_interleave <= 3
    &&& f.tracks@.len() <= 256
    &&& f.tracks@.len() > f.last_nonstandard_track >= f.last_track
}

impl Bam {
    pub open spec fn wf(&self) -> bool {
        &&& wf_format(&self.format)
        &&& self.entries@.len() == self.format.last_track
    }
    /// the sector has an entry
    pub open spec fn has(&self, loc: Location) -> bool {
        exists_on(self.format.tracks@, self.format.last_track as int, loc)
    }
    pub open spec fn is_free(&self, loc: Location) -> bool {
        fr(self.entries@[loc.0 - 1].sector_map, loc.1 as int)
    }
    pub open spec fn counted(&self, t: int) -> bool {
        self.entries@[t - 1].free_sectors == count(self.entries@[t - 1].sector_map, 64)
    }

    /// the map after a change at loc: loc's status is `free`, its track is counted, nothing else differs
    pub open spec fn changed(&self, o: &Bam, loc: Location, free: bool) -> bool {
        &&& self.format == o.format && self.bam_rw == o.bam_rw && self.invalidated == o.invalidated
        &&& self.entries@.len() == o.entries@.len()
        &&& self.is_free(loc) == free
        &&& self.counted(loc.0 as int)
        &&& forall|s: int| 0 <= s < 64 && s != loc.1 ==>
                #[trigger] fr(self.entries@[loc.0 - 1].sector_map, s) == fr(o.entries@[loc.0 - 1].sector_map, s)
        &&& forall|t: int| 0 <= t < o.entries@.len() && t != loc.0 - 1 ==> #[trigger] self.entries@[t] == o.entries@[t]
    }

//@props P03 P14
//@fn src/disk/bam.rs Bam::from_entries
//@ret r
//@spec
    ensures r.format == *format, r.entries == entries, *r.bam_rw == *bam_rw, !r.invalidated
//@endfn
//@fn src/disk/bam.rs Bam::new
//@ret r
//@sub? /let mut (\w+) = vec!\[\];/ => let mut \1: Vec<BamEntry> = vec![];
//@spec
    requires
        wf_bamformat(disk_format.bam), wf_format(disk_format),
        sum_tracks(disk_format.bam.sections@, disk_format.bam.sections@.len() as int) == disk_format.last_track,
    ensures
        r.wf(), r.format == *disk_format, !r.invalidated, r.bam_rw.format == disk_format.bam,
        forall|t: int| 1 <= t <= disk_format.last_track ==> (#[trigger] r.entries@[t - 1]).free_sectors == disk_format.tracks@[t].sectors,
        forall|t: int, s: int| 1 <= t <= disk_format.last_track && 0 <= s < 64 ==> #[trigger] fr(r.entries@[t - 1].sector_map, s) == (s < disk_format.tracks@[t].sectors),
//@loop 1 it
    invariant
        wf_format(disk_format), it.seq().len() == disk_format.last_track, bam_entries@.len() == it.index@,
        forall|k: int| 0 <= k < it.seq().len() ==> #[trigger] it.seq()[k] == k + 1,
        forall|t: int| 1 <= t <= it.index@ ==> (#[trigger] bam_entries@[t - 1]).free_sectors == disk_format.tracks@[t].sectors,
        forall|t: int, s: int| 1 <= t <= it.index@ && 0 <= s < 64 ==> #[trigger] fr(bam_entries@[t - 1].sector_map, s) == (s < disk_format.tracks@[t].sectors),
//@endfn
//@props P03 P12
//@fn src/disk/bam.rs Bam::read
//@ret r
//@sub? /let mut (\w+) = Vec::/ => let mut \1: Vec<BamEntry> = Vec::
//@sig /blocks_ref: BlockDeviceRef,/ => hb: &ImageBlockDevice, blocks_ref: BlockDeviceRef,
//@sub /blocks_ref\.borrow\(\)/ => (&*hb)
//@spec
    requires
        hb.wf(), wf_format(disk_format), wf_bamformat(disk_format.bam), bam_fits(disk_format.bam, hb),
        sum_tracks(disk_format.bam.sections@, disk_format.bam.sections@.len() as int) == disk_format.last_track,
    ensures
        r.is_ok(), r->Ok_0.wf(), r->Ok_0.format == *disk_format, !r->Ok_0.invalidated, r->Ok_0.bam_rw.format == disk_format.bam,
        bam_loaded(disk_format.bam, hb, r->Ok_0.entries@),
//@loop 1 it
    invariant
        blocks == hb, hb.wf(), wf_bamformat(disk_format.bam), bam_fits(disk_format.bam, hb),
        it.seq() == disk_format.bam.sections@.map_values(|s: BamSection| &s), 0 <= it.index@ <= disk_format.bam.sections@.len(),
        entries@.len() == sum_tracks(disk_format.bam.sections@, it.index@),
        forall|k: int| 0 <= k < it.index@ ==> loaded(&#[trigger] disk_format.bam.sections@[k], disk_format.bam.sections@[k].tracks as int, hb, entries@, sum_tracks(disk_format.bam.sections@, k)),
//@loopstart 1
    let ghost kk = it.index@;
    let ghost base = entries@.len() as int;
    let ghost ent0 = entries@;
    proof {
        assert(*section == disk_format.bam.sections@[kk]);
        assert(wf_section(section));
        lemma_sum_mono(disk_format.bam.sections@, kk, kk);
    }
//@loop 2
    invariant
        wf_section(section), free_counts_block@ == hb.sec(section.free_location), bitmaps_block@ == hb.sec(section.bitmap_location),
        free_counts_block@.len() == 256, bitmaps_block@.len() == 256,
        entries@.len() == base + i, i <= section.tracks, base >= 0,
        loaded(section, i as int, hb, entries@, base),
        forall|x: int| 0 <= x < base ==> #[trigger] entries@[x] == ent0[x],
//@loopstart 2
    let ghost e0 = entries@;
    proof { lemma_pos(section, i as int); lemma_mul(i as int, section.tracks as int, section.bitmap_stride as int); lemma_mul(i as int, section.tracks as int, section.free_stride as int); }
//@loopend 2
    proof {
        assert forall|k: int| 0 <= k < i + 1 implies {
            &&& (#[trigger] entries@[base + k]).free_sectors == hb.sec(section.free_location)[fpos(section, k)]
            &&& entries@[base + k].sector_map == from_le(hb.sec(section.bitmap_location).subrange(bpos(section, k, 0), bpos(section, k, section.bitmap_size as int)))
        } by {
            if k < i { assert(entries@[base + k] == e0[base + k]); }
        }
    }
//@loopend 1
    proof {
        assert forall|k: int| 0 <= k < kk + 1 implies loaded(&#[trigger] disk_format.bam.sections@[k], disk_format.bam.sections@[k].tracks as int, hb, entries@, sum_tracks(disk_format.bam.sections@, k)) by {
            if k < kk {
                let s = &disk_format.bam.sections@[k];
                let b = sum_tracks(disk_format.bam.sections@, k);
                lemma_sum_mono(disk_format.bam.sections@, k + 1, kk);
                lemma_sum_mono(disk_format.bam.sections@, k, k);
                assert(loaded(s, s.tracks as int, hb, ent0, b));
                assert forall|i: int| 0 <= i < s.tracks implies {
                    &&& (#[trigger] entries@[b + i]).free_sectors == hb.sec(s.free_location)[fpos(s, i)]
                    &&& entries@[b + i].sector_map == from_le(hb.sec(s.bitmap_location).subrange(bpos(s, i, 0), bpos(s, i, s.bitmap_size as int)))
                } by {
                    assert(entries@[b + i] == ent0[b + i]);
                }
            }
        }
    }
//@endfn
//@props P03 P13
//@fn src/disk/bam.rs Bam::flush
//@ret r
//@sig /&mut self/ => &mut self, hb: &mut ImageBlockDevice
//@sub /self\.bam_rw\.write\(/ => self.bam_rw.write(hb, 
//@spec
    requires
        old(self).wf(), old(hb).wf(), wf_bamformat(old(self).bam_rw.format), bam_fits(old(self).bam_rw.format, old(hb)),
        sum_tracks(old(self).bam_rw.format.sections@, old(self).bam_rw.format.sections@.len() as int) == old(self).entries@.len(),
    ensures
        final(self).entries == old(self).entries, final(self).format == old(self).format, final(self).invalidated == old(self).invalidated,
        final(self).bam_rw.format == old(self).bam_rw.format,
        final(hb).wf(), final(hb).same_shape(old(hb)), final(hb).same_table(old(hb)),
        r.is_ok() ==> bam_stored(old(self).bam_rw.format, final(hb), old(self).entries@),
        bam_frame(old(self).bam_rw.format, old(self).bam_rw.format.sections@.len() as int, final(hb), old(hb)),
        old(self).invalidated ==> is_err(r, DiskError::InvalidBAM) && *final(hb) == *old(hb),
        !old(self).invalidated && old(hb).writable() ==> r.is_ok(),
        !old(self).invalidated && !old(hb).writable() && old(self).bam_rw.format.sections@.len() > 0 ==> is_err(r, DiskError::ReadOnly) && *final(hb) == *old(hb),
//@endfn
//@fn src/disk/bam.rs Bam::set_format
//@ret r
//@spec
    ensures final(self).format == *format, final(self).entries == old(self).entries,
        final(self).invalidated == old(self).invalidated, final(self).bam_rw == old(self).bam_rw
//@endfn
//@props P02
//@fn src/disk/bam.rs Bam::blocks_free
//@ret r
//@spec
    requires self.wf()
    ensures r == free_total(self.entries@, self.format.directory_track as int, self.format.last_track as int)
//@loop 1
    invariant
        self.wf(), blocks_free == free_total(self.entries@, self.format.directory_track as int, track as int),
        blocks_free <= 255 * track, 0 <= track <= self.format.last_track,
//@endfn
//@fn src/disk/bam.rs Bam::check_track
//@ret r
//@spec
    ensures
        r.is_ok() <==> 1 <= track <= self.entries@.len(),
        r.is_err() ==> r->Err_0.e == DiskError::InvalidLocation,
//@endfn
//@fn src/disk/bam.rs Bam::check_validity
//@ret r
//@spec
    ensures r.is_ok() <==> !self.invalidated, r.is_err() ==> r->Err_0.e == DiskError::InvalidBAM,
//@endfn
//@fn src/disk/bam.rs Bam::check_location
//@ret r
//@spec
    requires self.wf()
    ensures r.is_ok() <==> self.has(location), r.is_err() ==> r->Err_0.e == DiskError::InvalidLocation,
//@endfn
//@fn src/disk/bam.rs Bam::entry
//@ret r
//@spec
    ensures
        r.is_ok() <==> !self.invalidated && 1 <= track <= self.entries@.len(),
        r.is_ok() ==> *r->Ok_0 == self.entries@[track - 1],
        r.is_err() ==> (r->Err_0.e == if self.invalidated { DiskError::InvalidBAM } else { DiskError::InvalidLocation }),
//@endfn
//@fn src/disk/bam.rs Bam::entry_mut
//@ret r
//@spec
    ensures
        r.is_ok() <==> !old(self).invalidated && 1 <= track <= old(self).entries@.len(),
        r.is_err() ==> *final(self) == *old(self)
            && (r->Err_0.e == if old(self).invalidated { DiskError::InvalidBAM } else { DiskError::InvalidLocation }),
        r.is_ok() ==> {
            let e = r->Ok_0;
            &&& *e == old(self).entries@[track - 1]
            &&& final(self).entries@ == old(self).entries@.update(track - 1, *final(e))
            &&& final(self).format == old(self).format && final(self).bam_rw == old(self).bam_rw
            &&& final(self).invalidated == old(self).invalidated
        },
//@endfn
//@fn src/disk/bam.rs Bam::allocate
//@ret r
//@spec
    requires old(self).wf()
    ensures
        r.is_ok() <==> !old(self).invalidated && old(self).has(location),
        r.is_ok() ==> final(self).changed(old(self), location, false),
        r.is_err() ==> *final(self) == *old(self)
            && (r->Err_0.e == if old(self).invalidated { DiskError::InvalidBAM } else { DiskError::InvalidLocation }),
        final(self).wf(),
//@endfn
//@fn src/disk/bam.rs Bam::free
//@ret r
//@spec
    requires old(self).wf()
    ensures
        r.is_ok() <==> !old(self).invalidated && old(self).has(location),
        r.is_ok() ==> final(self).changed(old(self), location, true),
        r.is_err() ==> *final(self) == *old(self)
            && (r->Err_0.e == if old(self).invalidated { DiskError::InvalidBAM } else { DiskError::InvalidLocation }),
        final(self).wf(),
//@endfn
//@props P02 P15
//@fn src/disk/bam.rs Bam::allocated_sectors
//@ret r
//@spec
    requires self.wf()
    ensures r.is_ok(), forall|l: Location| #[trigger] r->Ok_0@.contains(l) <==> self.has(l) && !self.is_free(l)
//@loop 1
    invariant
        self.wf(), 0 <= track <= self.format.last_track,
        forall|l: Location| #[trigger] locations@.contains(l) <==> self.has(l) && !self.is_free(l) && l.0 - 1 < track
//@loop 2 it
    invariant
        self.wf(), 0 <= track < self.format.last_track, sector <= self.format.tracks@[track + 1].sectors,
        it.index@ == sector, map == self.entries@[track as int].sector_map >> (sector as u64),
        forall|l: Location| #[trigger] locations@.contains(l) <==>
            self.has(l) && !self.is_free(l) && (l.0 - 1 < track || l.0 - 1 == track && l.1 < sector)
//@loopstart 2
    proof { lemma_shift(self.entries@[track as int].sector_map, sector as int); }
    let ghost l0 = locations@;
//@loopend 2
    proof {
        let x = Location((track + 1) as u8, sector);
        assert forall|l: Location| #[trigger] locations@.contains(l) <==> l0.contains(l) || (l == x && !self.is_free(x)) by {
            lemma_push_contains(l0, x, l);
        }
    }
//@beforeloop 2
    proof { assert(map >> 0 == map) by (bit_vector); }
//@endfn
//@fn src/disk/bam.rs Bam::free_sectors
//@ret r
//@spec
    requires self.wf()
    ensures r.is_ok(), forall|l: Location| #[trigger] r->Ok_0@.contains(l) <==> self.has(l) && self.is_free(l)
//@loop 1
    invariant
        self.wf(), 0 <= track <= self.format.last_track,
        forall|l: Location| #[trigger] locations@.contains(l) <==> self.has(l) && self.is_free(l) && l.0 - 1 < track
//@loop 2 it
    invariant
        self.wf(), 0 <= track < self.format.last_track, sector <= self.format.tracks@[track + 1].sectors,
        it.index@ == sector, map == self.entries@[track as int].sector_map >> (sector as u64),
        forall|l: Location| #[trigger] locations@.contains(l) <==>
            self.has(l) && self.is_free(l) && (l.0 - 1 < track || l.0 - 1 == track && l.1 < sector)
//@loopstart 2
    proof { lemma_shift(self.entries@[track as int].sector_map, sector as int); }
    let ghost l0 = locations@;
//@loopend 2
    proof {
        let x = Location((track + 1) as u8, sector);
        assert forall|l: Location| #[trigger] locations@.contains(l) <==> l0.contains(l) || (l == x && self.is_free(x)) by {
            lemma_push_contains(l0, x, l);
        }
    }
//@beforeloop 2
    proof { assert(map >> 0 == map) by (bit_vector); }
//@endfn
//@props P04 P05 P12
//@fn src/disk/bam.rs Bam::next_free_block
//@ret r
//@spec
    requires self.wf(),
        previous.is_some() ==> exists_on(self.format.tracks@, self.format.last_track as int, previous->Some_0) && (previous->Some_0).0 != self.format.reserved_track,
    ensures
        self.invalidated ==> is_err(r, DiskError::InvalidBAM),
        !self.invalidated ==> next_block_rule(&self.format, self, previous, r), // [P05]
        consistent(&self.format, self) ==> allocation_ok(&self.format, self, previous.is_some() && (previous->Some_0).0 == self.format.directory_track, r),
//@sub? /self\.format\.next_free_block\(self, previous\)/ => ({ let r_ = self.format.next_free_block(self, previous); proof { if consistent(&self.format, self) { lemma_p04(&self.format, self, previous.is_some() && (previous->Some_0).0 == self.format.directory_track, r_); } } r_ })
//@endfn
//@props P02
//@fn src/disk/bam.rs Bam::invalidate
//@ret r
//@spec
    ensures final(self).invalidated, final(self).entries == old(self).entries, final(self).format == old(self).format,
        final(self).bam_rw == old(self).bam_rw
//@endfn
}

//@props P03
// ---------------------------------------------------------------- storing the map

pub open spec fn sum_tracks(s: Seq<BamSection>, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { sum_tracks(s, n - 1) + s[n - 1].tracks }
}

/// position of byte j of the bitmap of entry i, and of its free count
pub open spec fn bpos(s: &BamSection, i: int, j: int) -> int { s.bitmap_offset + i * s.bitmap_stride + j }
pub open spec fn fpos(s: &BamSection, i: int) -> int { s.free_offset + i * s.free_stride }

pub open spec fn bm_covers(s: &BamSection, n: int, o: int) -> bool {
    exists|i: int, j: int| 0 <= i < n && 0 <= j < s.bitmap_size && o == #[trigger] bpos(s, i, j)
}
pub open spec fn fr_covers(s: &BamSection, n: int, o: int) -> bool {
    exists|i: int| 0 <= i < n && o == #[trigger] fpos(s, i)
}
/// byte o of sector loc belongs to section s
pub open spec fn covers(s: &BamSection, loc: Location, o: int) -> bool {
    (loc == s.bitmap_location && bm_covers(s, s.tracks as int, o)) || (loc == s.free_location && fr_covers(s, s.tracks as int, o))
}
/// ... to one of the first n sections
pub open spec fn covered(s: Seq<BamSection>, n: int, loc: Location, o: int) -> bool {
    exists|k: int| 0 <= k < n && covers(&#[trigger] s[k], loc, o)
}

pub open spec fn wf_section(s: &BamSection) -> bool {
    &&& 1 <= s.bitmap_size <= 5 && s.bitmap_stride >= s.bitmap_size && s.bitmap_stride <= 256
    &&& 1 <= s.tracks <= 80
    &&& 1 <= s.free_stride <= 256
    &&& s.bitmap_offset + (s.tracks - 1) * s.bitmap_stride + s.bitmap_size <= 256
    &&& s.free_offset + (s.tracks - 1) * s.free_stride < 256
    // counts and bitmaps of one section do not overlap
    &&& s.bitmap_location == s.free_location ==>
        forall|o: int| !(#[trigger] bm_covers(s, s.tracks as int, o) && fr_covers(s, s.tracks as int, o))
}

pub open spec fn wf_bamformat(f: &BamFormat) -> bool {
    &&& f.sections@.len() <= 4
    &&& forall|k: int| 0 <= k < f.sections@.len() ==> wf_section(&#[trigger] f.sections@[k])
    // different sections do not overlap
    &&& forall|k: int, m: int, loc: Location, o: int| 0 <= k < m < f.sections@.len() ==>
        !(#[trigger] covers(&f.sections@[k], loc, o) && #[trigger] covers(&f.sections@[m], loc, o))
}

pub open spec fn bam_fits(f: &BamFormat, dev: &ImageBlockDevice) -> bool {
    forall|k: int| 0 <= k < f.sections@.len() ==>
        dev.valid((#[trigger] f.sections@[k]).bitmap_location) && dev.valid(f.sections@[k].free_location)
}

/// the entries of one section are stored in dev, the first of them being entries[base]
pub open spec fn bm_stored(s: &BamSection, n: int, b: Seq<u8>, e: Seq<BamEntry>, base: int) -> bool {
    forall|i: int, j: int| 0 <= i < n && 0 <= j < s.bitmap_size ==> b[#[trigger] bpos(s, i, j)] == map_byte(e[base + i].sector_map, j)
}
pub open spec fn fr_stored(s: &BamSection, n: int, b: Seq<u8>, e: Seq<BamEntry>, base: int) -> bool {
    forall|i: int| 0 <= i < n ==> b[#[trigger] fpos(s, i)] == e[base + i].free_sectors
}
pub open spec fn stored(s: &BamSection, dev: &ImageBlockDevice, e: Seq<BamEntry>, base: int) -> bool {
    &&& bm_stored(s, s.tracks as int, dev.sec(s.bitmap_location), e, base)
    &&& fr_stored(s, s.tracks as int, dev.sec(s.free_location), e, base)
}

/// dev holds the map `e` in the places of format f
pub open spec fn bam_stored(f: &BamFormat, dev: &ImageBlockDevice, e: Seq<BamEntry>) -> bool {
    forall|k: int| 0 <= k < f.sections@.len() ==> stored(&#[trigger] f.sections@[k], dev, e, sum_tracks(f.sections@, k))
}

/// the entries read from one section
pub open spec fn loaded(s: &BamSection, n: int, dev: &ImageBlockDevice, e: Seq<BamEntry>, base: int) -> bool {
    forall|i: int| 0 <= i < n ==> {
        &&& (#[trigger] e[base + i]).free_sectors == dev.sec(s.free_location)[fpos(s, i)]
        &&& e[base + i].sector_map == from_le(dev.sec(s.bitmap_location).subrange(bpos(s, i, 0), bpos(s, i, s.bitmap_size as int)))
    }
}
pub open spec fn bam_loaded(f: &BamFormat, dev: &ImageBlockDevice, e: Seq<BamEntry>) -> bool {
    forall|k: int| 0 <= k < f.sections@.len() ==> loaded(&#[trigger] f.sections@[k], f.sections@[k].tracks as int, dev, e, sum_tracks(f.sections@, k))
}

/// the maps fit into the bytes the format gives them
pub open spec fn bam_fits_bytes(f: &BamFormat, e: Seq<BamEntry>) -> bool {
    forall|k: int, i: int| 0 <= k < f.sections@.len() && 0 <= i < f.sections@[k].tracks ==>
        (#[trigger] e[sum_tracks(f.sections@, k) + i]).sector_map >> ((8 * (#[trigger] f.sections@[k]).bitmap_size) as u64) == 0
}

pub proof fn lemma_section_of(s: Seq<BamSection>, n: int, x: int) -> (r: (int, int))
    requires 0 <= n <= s.len(), 0 <= x < sum_tracks(s, n)
    ensures 0 <= r.0 < n, 0 <= r.1 < s[r.0].tracks, x == sum_tracks(s, r.0) + r.1
    decreases n
{
    if x < sum_tracks(s, n - 1) { lemma_section_of(s, n - 1, x) } else { (n - 1, x - sum_tracks(s, n - 1)) }
}

/// P03: reading back what was written gives the same map
pub proof fn lemma_roundtrip(f: &BamFormat, dev: &ImageBlockDevice, e: Seq<BamEntry>, e2: Seq<BamEntry>)
    requires
        wf_bamformat(f), dev.wf(), bam_fits(f, dev), bam_stored(f, dev, e), bam_loaded(f, dev, e2), bam_fits_bytes(f, e),
        e.len() == e2.len() == sum_tracks(f.sections@, f.sections@.len() as int),
    ensures e2 == e
{
    assert forall|x: int| 0 <= x < e.len() implies e2[x] == e[x] by {
        let (k, i) = lemma_section_of(f.sections@, f.sections@.len() as int, x);
        let s = &f.sections@[k];
        let base = sum_tracks(f.sections@, k);
        lemma_pos(s, i);
        dev.lemma_off(s.bitmap_location);
        assert(stored(s, dev, e, base));
        assert(loaded(s, s.tracks as int, dev, e2, base));
        let b = dev.sec(s.bitmap_location).subrange(bpos(s, i, 0), bpos(s, i, s.bitmap_size as int));
        assert forall|j: int| 0 <= j < b.len() implies b[j] == #[trigger] map_byte(e[x].sector_map, j) by {
            assert(b[j] == dev.sec(s.bitmap_location)[bpos(s, i, j)]);
        }
        assert(e[base + i].sector_map >> ((8 * s.bitmap_size) as u64) == 0);
        lemma_map_bytes(e[x].sector_map, b);
        assert(e2[base + i].free_sectors == dev.sec(s.free_location)[fpos(s, i)]);
        assert(dev.sec(s.free_location)[fpos(s, i)] == e[base + i].free_sectors);
    }
    assert(e2 =~= e);
}

/// dev differs from o in bytes of the map only
pub open spec fn bam_frame(f: &BamFormat, n: int, dev: &ImageBlockDevice, o: &ImageBlockDevice) -> bool {
    forall|loc: Location, x: int| o.valid(loc) && 0 <= x < 256 && !covered(f.sections@, n, loc, x) ==>
        #[trigger] dev.sec(loc)[x] == o.sec(loc)[x]
}

pub proof fn lemma_mul(i: int, n: int, s: int)
    requires 0 <= i < n, 0 <= s
    ensures 0 <= i * s, i * s + s <= n * s, i * s <= (n - 1) * s
{
    assert(0 <= i * s && i * s + s <= n * s && i * s <= (n - 1) * s) by (nonlinear_arith) requires 0 <= i < n, 0 <= s;
}

pub proof fn lemma_pos(s: &BamSection, i: int)
    requires wf_section(s), 0 <= i < s.tracks
    ensures
        0 <= bpos(s, i, 0), bpos(s, i, s.bitmap_size as int) <= 256, 0 <= fpos(s, i) < 256,
        forall|k: int, j: int| 0 <= k < i && 0 <= j < s.bitmap_size ==> #[trigger] bpos(s, k, j) < bpos(s, i, 0) && bpos(s, k, j) >= 0,
        forall|k: int| 0 <= k < i ==> #[trigger] fpos(s, k) < fpos(s, i) && fpos(s, k) >= 0,
{
    lemma_mul(i, s.tracks as int, s.bitmap_stride as int);
    lemma_mul(i, s.tracks as int, s.free_stride as int);
    assert forall|k: int, j: int| 0 <= k < i && 0 <= j < s.bitmap_size implies #[trigger] bpos(s, k, j) < bpos(s, i, 0) && bpos(s, k, j) >= 0 by {
        lemma_mul(k, i, s.bitmap_stride as int);
    }
    assert forall|k: int| 0 <= k < i implies #[trigger] fpos(s, k) < fpos(s, i) && fpos(s, k) >= 0 by {
        lemma_mul(k, i, s.free_stride as int);
    }
}

pub proof fn lemma_bm_step(s: &BamSection, i: int, o: int)
    requires wf_section(s), 0 <= i < s.tracks
    ensures bm_covers(s, i + 1, o) <==> bm_covers(s, i, o) || bpos(s, i, 0) <= o < bpos(s, i, s.bitmap_size as int)
{
    if bm_covers(s, i, o) {
        let (k, j) = choose|k: int, j: int| 0 <= k < i && 0 <= j < s.bitmap_size && o == #[trigger] bpos(s, k, j);
        assert(o == bpos(s, k, j) && k < i + 1);
    }
    if bpos(s, i, 0) <= o < bpos(s, i, s.bitmap_size as int) {
        assert(o == bpos(s, i, o - bpos(s, i, 0)));
    }
    if bm_covers(s, i + 1, o) {
        let (k, j) = choose|k: int, j: int| 0 <= k < i + 1 && 0 <= j < s.bitmap_size && o == #[trigger] bpos(s, k, j);
        if k < i { assert(bm_covers(s, i, o)); }
    }
}
pub proof fn lemma_fr_step(s: &BamSection, i: int, o: int)
    requires wf_section(s), 0 <= i < s.tracks
    ensures fr_covers(s, i + 1, o) <==> fr_covers(s, i, o) || o == fpos(s, i)
{
    if fr_covers(s, i, o) {
        let k = choose|k: int| 0 <= k < i && o == #[trigger] fpos(s, k);
        assert(o == fpos(s, k) && k < i + 1);
    }
    if o == fpos(s, i) { assert(fr_covers(s, i + 1, o)); }
    if fr_covers(s, i + 1, o) {
        let k = choose|k: int| 0 <= k < i + 1 && o == #[trigger] fpos(s, k);
        if k < i { assert(fr_covers(s, i, o)); }
    }
}

pub proof fn lemma_sum_mono(s: Seq<BamSection>, a: int, b: int)
    requires 0 <= a <= b <= s.len()
    ensures 0 <= sum_tracks(s, a) <= sum_tracks(s, b)
    decreases b
{
    if a < b { lemma_sum_mono(s, a, b - 1); } else if a > 0 { lemma_sum_mono(s, a - 1, a - 1); }
}

/// writing section k on top of the earlier ones
pub proof fn lemma_section_step(f: &BamFormat, k: int, o: &ImageBlockDevice, h0: &ImageBlockDevice, h1: &ImageBlockDevice, e: Seq<BamEntry>)
    requires
        wf_bamformat(f), 0 <= k < f.sections@.len(), bam_fits(f, o), h0.same_shape(o), h1.same_shape(o), o.wf(),
        forall|m: int| 0 <= m < k ==> stored(&#[trigger] f.sections@[m], h0, e, sum_tracks(f.sections@, m)),
        bam_frame(f, k, h0, o),
        stored(&f.sections@[k], h1, e, sum_tracks(f.sections@, k)),
        forall|l: Location, x: int| o.valid(l) && 0 <= x < 256 && !covers(&f.sections@[k], l, x) ==> #[trigger] h1.sec(l)[x] == h0.sec(l)[x],
    ensures
        forall|m: int| 0 <= m < k + 1 ==> stored(&#[trigger] f.sections@[m], h1, e, sum_tracks(f.sections@, m)),
        bam_frame(f, k + 1, h1, o),
{
    assert forall|m: int| 0 <= m < k + 1 implies stored(&#[trigger] f.sections@[m], h1, e, sum_tracks(f.sections@, m)) by {
        if m < k {
            let s = &f.sections@[m];
            let base = sum_tracks(f.sections@, m);
            assert forall|i: int, j: int| 0 <= i < s.tracks && 0 <= j < s.bitmap_size implies
                h1.sec(s.bitmap_location)[#[trigger] bpos(s, i, j)] == map_byte(e[base + i].sector_map, j) by {
                lemma_pos(s, i);
                let x = bpos(s, i, j);
                assert(bm_covers(s, s.tracks as int, x));
                assert(covers(s, s.bitmap_location, x));
                assert(!covers(&f.sections@[k], s.bitmap_location, x));
                assert(h1.sec(s.bitmap_location)[x] == h0.sec(s.bitmap_location)[x]);
            }
            assert forall|i: int| 0 <= i < s.tracks implies
                h1.sec(s.free_location)[#[trigger] fpos(s, i)] == e[base + i].free_sectors by {
                lemma_pos(s, i);
                let x = fpos(s, i);
                assert(fr_covers(s, s.tracks as int, x));
                assert(covers(s, s.free_location, x));
                assert(!covers(&f.sections@[k], s.free_location, x));
                assert(h1.sec(s.free_location)[x] == h0.sec(s.free_location)[x]);
            }
        }
    }
    assert forall|loc: Location, x: int| o.valid(loc) && 0 <= x < 256 && !covered(f.sections@, k + 1, loc, x) implies
        #[trigger] h1.sec(loc)[x] == o.sec(loc)[x] by {
        assert(!covers(&f.sections@[k], loc, x));
        if covered(f.sections@, k, loc, x) {
            let m = choose|m: int| 0 <= m < k && covers(&#[trigger] f.sections@[m], loc, x);
            assert(covers(&f.sections@[m], loc, x));
        }
        assert(h0.sec(loc)[x] == o.sec(loc)[x]);
    }
}

impl BamFormat {
//@props P03 P12
//@fn src/disk/bam.rs BamFormat::tracks
//@ret r
//@sub /self\s*\.sections\s*\.iter\(\)\s*\.map\(\|(\w+)\| (.*?)\)\s*\.sum(?:::<usize>)?\(\)/ => let mut sum_: usize = 0; let mut i_: usize = 0; while i_ < self.sections.len() { let \1 = &self.sections[i_]; sum_ = sum_ + (\2); i_ = i_ + 1; } sum_
//@spec
    requires wf_bamformat(self)
    ensures r == sum_tracks(self.sections@, self.sections@.len() as int)
//@loop 1
    invariant wf_bamformat(self), i_ <= self.sections@.len(), sum_ == sum_tracks(self.sections@, i_ as int), sum_ <= 80 * i_
    decreases self.sections@.len() - i_
//@endfn
}

impl BamWriter {
//@fn src/disk/bam.rs BamWriter::new
//@ret r
//@spec
    ensures r.format == format
//@endfn
//@fn src/disk/bam.rs BamWriter::write
//@ret r
//@sig /&mut self, / => &mut self, hb: &mut ImageBlockDevice, 
//@sub /self\s*\.blocks\s*\.borrow\(\)/ => (&*hb)
//@sub /self\s*\.blocks\s*\.borrow_mut\(\)/ => (&mut *hb)
//@sub? /let mut previous_tracks = 0;/ => let mut previous_tracks: usize = 0;
//@sub /&mut block\[/ => &mut block.as_mut_slice()[
//@spec
    requires
        old(hb).wf(), wf_bamformat(old(self).format), bam_fits(old(self).format, old(hb)),
        sum_tracks(old(self).format.sections@, old(self).format.sections@.len() as int) == entries@.len(),
        entries@.len() <= 80,
    ensures
        *final(self) == *old(self),
        final(hb).wf(), final(hb).same_shape(old(hb)), final(hb).same_table(old(hb)),
        old(hb).writable() ==> r.is_ok(),
        r.is_ok() ==> bam_stored(old(self).format, final(hb), entries@),
        bam_frame(old(self).format, old(self).format.sections@.len() as int, final(hb), old(hb)),
        !old(hb).writable() && old(self).format.sections@.len() > 0 ==> is_err(r, DiskError::ReadOnly) && *final(hb) == *old(hb),
//@loop 1 it
    invariant
        *self == *old(self), it.seq() == self.format.sections@.map_values(|s: BamSection| &s), 0 <= it.index@ <= self.format.sections@.len(),
        hb.wf(), hb.same_shape(old(hb)), hb.same_table(old(hb)), wf_bamformat(self.format), bam_fits(self.format, old(hb)),
        previous_tracks == sum_tracks(self.format.sections@, it.index@),
        sum_tracks(self.format.sections@, self.format.sections@.len() as int) == entries@.len(), entries@.len() <= 80,
        forall|k: int| 0 <= k < it.index@ ==> stored(&#[trigger] self.format.sections@[k], hb, entries@, sum_tracks(self.format.sections@, k)),
        bam_frame(self.format, it.index@, hb, old(hb)),
        it.index@ > 0 ==> hb.writable(),
        it.index@ == 0 ==> *hb == *old(hb),
//@loop 2
    invariant
        wf_section(section), block@.len() == 256, previous_tracks + section.tracks <= entries@.len(), i <= section.tracks, entries@.len() <= 80,
        bm_stored(section, i as int, block@, entries@, previous_tracks as int),
        forall|o: int| 0 <= o < 256 && !bm_covers(section, i as int, o) ==> #[trigger] block@[o] == b0[o],
//@loop 3
    invariant
        wf_section(section), block@.len() == 256, previous_tracks + section.tracks <= entries@.len(), i <= section.tracks, entries@.len() <= 80,
        fr_stored(section, i as int, block@, entries@, previous_tracks as int),
        forall|o: int| 0 <= o < 256 && !fr_covers(section, i as int, o) ==> #[trigger] block@[o] == b1[o],
//@loopstart 1
    let ghost h0 = *hb;
    let ghost kk = it.index@;
    proof {
        assert(*section == self.format.sections@[kk]);
        assert(wf_section(section));
        lemma_sum_mono(self.format.sections@, kk + 1, self.format.sections@.len() as int);
        lemma_sum_mono(self.format.sections@, kk, kk);
    }
//@beforeloop 2
    let ghost b0 = block@;
//@loopstart 2
    let ghost pb = block@;
    proof { lemma_pos(section, i as int); lemma_mul(i as int, section.tracks as int, section.bitmap_stride as int); }
//@loopend 2
    proof {
        assert forall|k: int, j: int| 0 <= k < i + 1 && 0 <= j < section.bitmap_size implies
            block@[#[trigger] bpos(section, k, j)] == map_byte(entries@[previous_tracks + k].sector_map, j) by {
            if k < i { assert(bpos(section, k, j) < bpos(section, i as int, 0)); assert(block@[bpos(section, k, j)] == pb[bpos(section, k, j)]); }
        }
        assert forall|o: int| 0 <= o < 256 && !bm_covers(section, i + 1, o) implies #[trigger] block@[o] == b0[o] by {
            lemma_bm_step(section, i as int, o);
            assert(block@[o] == pb[o]);
        }
    }
//@afterloop 2
    let ghost b2 = block@;
    proof { assert(b2 =~= b2); }
//@beforeloop 3
    let ghost b1 = block@;
    let ghost h1 = *hb;
    proof {
        assert(old(hb).valid(section.bitmap_location) && old(hb).valid(section.free_location));
        assert(h0.valid(section.bitmap_location) && h0.valid(section.free_location));
        assert(h1.valid(section.bitmap_location));
        if section.bitmap_location == section.free_location { assert(b1 == b2); } else { assert(h1.sec(section.bitmap_location) == b2); assert(b1 == h0.sec(section.free_location)); }
        assert(b0 == h0.sec(section.bitmap_location));
    }
//@loopstart 3
    let ghost pb = block@;
    proof { lemma_pos(section, i as int); lemma_mul(i as int, section.tracks as int, section.free_stride as int); }
//@loopend 3
    proof {
        assert forall|k: int| 0 <= k < i + 1 implies
            block@[#[trigger] fpos(section, k)] == entries@[previous_tracks + k].free_sectors by {
            if k < i { assert(fpos(section, k) < fpos(section, i as int)); }
        }
        assert forall|o: int| 0 <= o < 256 && !fr_covers(section, i + 1, o) implies #[trigger] block@[o] == b1[o] by {
            lemma_fr_step(section, i as int, o);
        }
    }
//@loopend 1
    proof {
        assert(hb.sec(section.free_location) == block@);
        assert forall|i: int, j: int| 0 <= i < section.tracks && 0 <= j < section.bitmap_size implies
            hb.sec(section.bitmap_location)[#[trigger] bpos(section, i, j)] == map_byte(entries@[sum_tracks(self.format.sections@, kk) + i].sector_map, j) by {
            lemma_pos(section, i);
            let x = bpos(section, i, j);
            assert(bm_covers(section, section.tracks as int, x));
            assert(b2[x] == map_byte(entries@[sum_tracks(self.format.sections@, kk) + i].sector_map, j));
            if section.bitmap_location == section.free_location {
                assert(!fr_covers(section, section.tracks as int, x));
                assert(block@[x] == b1[x]);
            } else {
                assert(hb.sec(section.bitmap_location) == h1.sec(section.bitmap_location));
            }
        }
        assert forall|l: Location, x: int| old(hb).valid(l) && 0 <= x < 256 && !covers(section, l, x) implies
            #[trigger] hb.sec(l)[x] == h0.sec(l)[x] by {
            assert(h0.valid(l) && h1.valid(l));
            if l == section.bitmap_location { assert(!bm_covers(section, section.tracks as int, x)); assert(b2[x] == b0[x]); }
            if l == section.free_location { assert(!fr_covers(section, section.tracks as int, x)); assert(block@[x] == b1[x]); }
        }
        lemma_section_step(self.format, kk, old(hb), &h0, hb, entries@);
    }
//@endfn
}

pub proof fn lemma_push_contains(s: Seq<Location>, x: Location, l: Location)
    ensures s.push(x).contains(l) <==> s.contains(l) || l == x
{
    if s.contains(l) { let i = choose|i: int| 0 <= i < s.len() && s[i] == l; assert(s.push(x)[i] == l); }
    assert(s.push(x)[s.len() as int] == x);
    if s.push(x).contains(l) && l != x {
        let i = choose|i: int| 0 <= i < s.push(x).len() && s.push(x)[i] == l;
        assert(s[i] == l);
    }
}

/// free blocks of the first n tracks, directory track not counted
pub open spec fn free_total(e: Seq<BamEntry>, dir: int, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { free_total(e, dir, n - 1) + if n == dir { 0 } else { e[n - 1].free_sectors as int } }
}

} // mod bam
pub use bam::*;
