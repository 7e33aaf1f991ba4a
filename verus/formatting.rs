pub mod formatting {
use super::*;

// ---------------------------------------------------------------- the formats of the drives

/// sectors in use on an empty disk
pub open spec fn system_sector(f: &DiskFormat, l: Location) -> bool {
    ||| l == f.header.location
    ||| exists|k: int| 0 <= k < f.bam.sections@.len() && (#[trigger] f.bam.sections@[k]).bitmap_location == l
    ||| l == first_dir(f)
    ||| f.reserved_track != 0 && l.0 == f.reserved_track && l.1 < f.tracks@[l.0 as int].sectors
}
pub open spec fn first_dir(f: &DiskFormat) -> Location { Location(f.directory_track, f.first_directory_sector) }
/// byte o of the header sector belongs to the header
pub open spec fn header_byte(f: &HeaderFormat, o: int) -> bool { field_no(f, o) != 6 || is_flag(f, o) || is_pad(f, o) }
pub open spec fn map_covered(f: &DiskFormat, l: Location, o: int) -> bool { covered(f.bam.sections@, f.bam.sections@.len() as int, l, o) }
/// what the three drive formats have in common
pub open spec fn native(f: &DiskFormat) -> bool {
    &&& wf_format(f) && !f.geos && wf_bamformat(f.bam) && f.bam.sections@.len() > 0 && wf_header_format(f.header)
    &&& sum_tracks(f.bam.sections@, f.bam.sections@.len() as int) == f.last_track
    &&& forall|l: Location| #[trigger] system_sector(f, l) ==> exists_on(f.tracks@, f.last_track as int, l) && f.skipped(l.0 as int)
    &&& forall|l: Location| #[trigger] bam_sector(f.bam, l) ==> system_sector(f, l)
    &&& first_dir(f) != f.header.location && !bam_sector(f.bam, first_dir(f))
    &&& forall|o: int| #[trigger] map_covered(f, f.header.location, o) ==> !header_byte(f.header, o) && !(0xAB <= o < 0xBD)
    &&& forall|k: int, i: int| 0 <= k < f.bam.sections@.len() && 0 <= i < f.bam.sections@[k].tracks ==>
            #[trigger] f.tracks@[sum_tracks(f.bam.sections@, k) + i + 1].sectors <= 8 * (#[trigger] f.bam.sections@[k]).bitmap_size
}
/// the image has the tracks of the format
pub open spec fn fits_on(f: &DiskFormat, dev: &ImageBlockDevice) -> bool {
    &&& dev.wf() && f.last_track <= dev.geometry.tracks <= f.last_nonstandard_track
    &&& forall|t: int| 1 <= t <= dev.geometry.tracks ==> #[trigger] dev.geometry.track_layouts@[t].sectors == f.tracks@[t].sectors
}
//@props P14
pub proof fn lemma_native_covered(f: &DiskFormat, s: &BamSection, l: Location, o: int)
    requires wf_section(s), covers(s, l, o)
    ensures
        l == s.bitmap_location && s.bitmap_offset <= o < s.bitmap_offset + (s.tracks - 1) * s.bitmap_stride + s.bitmap_size
        || l == s.free_location && s.free_offset <= o <= s.free_offset + (s.tracks - 1) * s.free_stride
{
    if l == s.bitmap_location && bm_covers(s, s.tracks as int, o) {
        let (i, j) = choose|i: int, j: int| 0 <= i < s.tracks && 0 <= j < s.bitmap_size && o == #[trigger] bpos(s, i, j);
        lemma_mul(i, s.tracks as int, s.bitmap_stride as int);
    } else {
        let i = choose|i: int| 0 <= i < s.tracks && o == #[trigger] fpos(s, i);
        lemma_mul(i, s.tracks as int, s.free_stride as int);
    }
}
pub proof fn lemma_native_d64(f: &DiskFormat)
    requires d64_format(f), wf_format(f), wf_bamformat(f.bam)
    ensures native(f)
{
    let s = f.bam.sections@;
    lemma_bam_d64(f.bam);
    lemma_formats(f.header);
    assert(f.tracks@[18].sectors == 19);
    assert(s[0].bitmap_location == Location(18, 0));
    assert forall|o: int| #[trigger] map_covered(f, f.header.location, o) implies !header_byte(f.header, o) && !(0xAB <= o < 0xBD) by {
        lemma_native_covered(f, &s[0], f.header.location, o);
    }
    assert forall|k: int, i: int| 0 <= k < s.len() && 0 <= i < s[k].tracks implies #[trigger] f.tracks@[sum_tracks(s, k) + i + 1].sectors <= 8 * (#[trigger] s[k]).bitmap_size by {
        assert(sum_tracks(s, 0) == 0);
    }
}
pub proof fn lemma_native_d71(f: &DiskFormat)
    requires d71_format(f), wf_format(f), wf_bamformat(f.bam)
    ensures native(f)
{
    let s = f.bam.sections@;
    lemma_bam_d71(f.bam);
    lemma_formats(f.header);
    assert(f.tracks@[18].sectors == 19 && f.tracks@[53].sectors == 19);
    assert(s[0].bitmap_location == Location(18, 0) && s[1].bitmap_location == Location(53, 0));
    assert forall|o: int| #[trigger] map_covered(f, f.header.location, o) implies !header_byte(f.header, o) && !(0xAB <= o < 0xBD) by {
        let k = choose|k: int| 0 <= k < s.len() && covers(&#[trigger] s[k], f.header.location, o);
        lemma_native_covered(f, &s[k], f.header.location, o);
        assert(k == 0 || k == 1);
    }
    assert forall|k: int, i: int| 0 <= k < s.len() && 0 <= i < s[k].tracks implies #[trigger] f.tracks@[sum_tracks(s, k) + i + 1].sectors <= 8 * (#[trigger] s[k]).bitmap_size by {
        assert(sum_tracks(s, 0) == 0);
        assert(sum_tracks(s, 1) == sum_tracks(s, 0) + 35);
        assert(k == 0 || k == 1);
    }
}
pub proof fn lemma_native_d81(f: &DiskFormat)
    requires d81_format(f), wf_format(f), wf_bamformat(f.bam)
    ensures native(f)
{
    let s = f.bam.sections@;
    lemma_bam_d81(f.bam);
    lemma_formats(f.header);
    assert(f.tracks@[40].sectors == 40);
    assert(s[0].bitmap_location == Location(40, 1) && s[1].bitmap_location == Location(40, 2));
    assert forall|o: int| #[trigger] map_covered(f, f.header.location, o) implies false by {
        let k = choose|k: int| 0 <= k < s.len() && covers(&#[trigger] s[k], f.header.location, o);
        assert(k == 0 || k == 1);
    }
    assert forall|k: int, i: int| 0 <= k < s.len() && 0 <= i < s[k].tracks implies #[trigger] f.tracks@[sum_tracks(s, k) + i + 1].sectors <= 8 * (#[trigger] s[k]).bitmap_size by {
        assert(sum_tracks(s, 0) == 0);
        assert(sum_tracks(s, 1) == sum_tracks(s, 0) + 40);
        assert(k == 0 || k == 1);
    }
}
/// data blocks on the first n tracks
pub open spec fn data_blocks(f: &DiskFormat, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { data_blocks(f, n - 1) + if f.skipped(n) { 0 } else { f.tracks@[n].sectors as int } }
}
pub open spec fn upto_1541(t: int) -> int { if t <= 17 { 21 * t } else if t <= 24 { 357 + 19 * (t - 18) } else if t <= 30 { 471 + 18 * (t - 24) } else { 579 + 17 * (t - 30) } }
/// P14: the numbers of blocks documented for the drives
pub proof fn lemma_data_blocks(f: &DiskFormat, n: int)
    requires 0 <= n <= f.last_track, d64_format(f) || d71_format(f) || d81_format(f)
    ensures
        d64_format(f) ==> data_blocks(f, n) == upto_1541(n) && data_blocks(f, 35) == 664 || n < 35,
        d64_format(f) ==> data_blocks(f, n) == upto_1541(n),
        d71_format(f) ==> data_blocks(f, n) == if n <= 35 { upto_1541(n) } else { 664 + upto_1541(n - 35) },
        d81_format(f) ==> data_blocks(f, n) == if n < 40 { 40 * n } else { 40 * (n - 1) },
        n == f.last_track ==> data_blocks(f, n) == (if d64_format(f) { 664int } else if d71_format(f) { 1328 } else { 3160 }),
    decreases n
{
    if n > 0 { lemma_data_blocks(f, n - 1); assert(f.tracks@[n].sectors == f.tracks@[n].sectors); }
}

impl DiskFormat {
//@props P14 P15
//@fn src/disk/format.rs DiskFormat::system_locations
//@ret r
//@sub? /let mut locations = vec!\[(.*?)\];/ => let mut locations: Vec<Location> = Vec::new(); locations.push(\1);
//@sub /locations\.sort\(\);\s*locations\.dedup\(\);/ => sort_dedup(&mut locations);
//@spec
    requires wf_format(self)
    ensures r@.no_duplicates(), forall|l: Location| #[trigger] r@.contains(l) <==> system_sector(self, l)
//@beforeloop 1
    let ghost s = self.bam.sections@;
    proof { assert(locations@ =~= Seq::empty().push(self.header.location)); assert forall|l: Location| locations@.contains(l) <==> l == self.header.location by { lemma_push_contains(Seq::empty(), self.header.location, l); } }
//@loop 1 it
    invariant
        s == self.bam.sections@, it.seq().len() == s.len(), forall|k: int| 0 <= k < s.len() ==> *#[trigger] it.seq()[k] == s[k],
        forall|l: Location| #[trigger] locations@.contains(l) <==> l == self.header.location || exists|k: int| 0 <= k < it.index@ && (#[trigger] s[k]).bitmap_location == l,
//@loopstart 1
    let ghost v0 = locations@;
//@loopend 1
    proof {
        assert(*section == s[it.index@]);
        assert forall|l: Location| #[trigger] locations@.contains(l) <==> l == self.header.location || exists|k: int| 0 <= k < it.index@ + 1 && (#[trigger] s[k]).bitmap_location == l by {
            lemma_push_contains(v0, section.bitmap_location, l);
            if l == section.bitmap_location { assert(s[it.index@].bitmap_location == l); }
            if v0.contains(l) && l != self.header.location { let k = choose|k: int| 0 <= k < it.index@ && (#[trigger] s[k]).bitmap_location == l; assert(s[k].bitmap_location == l); }
            if exists|k: int| 0 <= k < it.index@ + 1 && (#[trigger] s[k]).bitmap_location == l {
                let k = choose|k: int| 0 <= k < it.index@ + 1 && (#[trigger] s[k]).bitmap_location == l;
                if k < it.index@ { assert(v0.contains(l)); }
            }
        }
    }
//@afterloop 1
    let ghost v1 = locations@;
//@after /first_directory_location\(\)\)/
    let ghost v2 = locations@;
    proof { assert forall|l: Location| #[trigger] v2.contains(l) <==> v1.contains(l) || l == first_dir(self) by { lemma_push_contains(v1, first_dir(self), l); } }
//@loop 2 it
    invariant
        self.reserved_track != 0, wf_format(self), it.seq().len() == self.tracks@[self.reserved_track as int].sectors, forall|k: int| 0 <= k < it.seq().len() ==> #[trigger] it.seq()[k] == k,
        forall|l: Location| #[trigger] locations@.contains(l) <==> v2.contains(l) || l.0 == self.reserved_track && l.1 < it.index@,
//@loopstart 2
    let ghost v3 = locations@;
//@loopend 2
    proof { assert forall|l: Location| #[trigger] locations@.contains(l) <==> v2.contains(l) || l.0 == self.reserved_track && l.1 < it.index@ + 1 by { lemma_push_contains(v3, Location(self.reserved_track, sector), l); assert(v3.contains(l) <==> v2.contains(l) || l.0 == self.reserved_track && l.1 < it.index@); } }
//@endfn
//@props P14
//@fn src/disk/format.rs DiskFormat::total_data_blocks
//@ret r
//@sub /self\.tracks\s*\.iter\(\)\s*\.enumerate\(\)\s*\.filter\(\|\((\w+), _\)\| \{(.*?)\}\)\s*\.map\(\|\(_, (\w+)\)\| (.*?)\)\s*\.sum\(\)/ => let mut sum_: usize = 0; let mut i_: usize = 0; while i_ < self.tracks.len() { let \1 = &i_; if { \2 } { let \3 = &self.tracks[i_]; sum_ = sum_ + (\4); } i_ = i_ + 1; } sum_
//@sub? /\bi (>=|<=|!=) &\(/ => *i \1 (
//@spec
    requires wf_format(self)
    ensures r == data_blocks(self, self.last_track as int)
//@loop 1
    invariant
        wf_format(self), i_ <= self.tracks@.len(), sum_ <= 255 * i_,
        sum_ == data_blocks(self, if i_ == 0 { 0 } else if i_ - 1 > self.last_track { self.last_track as int } else { i_ - 1 }),
    decreases self.tracks@.len() - i_
//@endfn
}

// ---------------------------------------------------------------- reading the format of an image

//@props P14
/// the disk d and the map m are what the image holds
pub open spec fn initialized(f: &DiskFormat, dev: &ImageBlockDevice, d: &D64, m: &Bam) -> bool {
    let b = dev.sec(f.header.location);
    if flag_ok(f.header, b) {
        &&& d.header.is_some() && header_of(f.header, &d.header->Some_0, b) && (d.header->Some_0).disk_name@ == name_field(f.header, b) && geos_of((d.header->Some_0).geos, b)
        &&& d.format == Some(DiskFormat { geos: (d.header->Some_0).geos.is_some(), ..*f })
        &&& d.bam.is_some() && m.wf() && m.format == d.format->Some_0 && m.bam_rw.format == f.bam && !m.invalidated && bam_loaded(f.bam, dev, m.entries@)
    } else { d.header.is_none() && d.format.is_none() && d.bam.is_none() }
}
//@props P02 P14 P20
//@fn src/disk/mod.rs set_bam
//@ret r
//@sig /fn set_bam\(/ => fn set_bam_(hm: &mut Bam, 
//@sub /cell\.replace\(new_bam\)/ => *hm = new_bam
//@sub /Rc::new\(RefCell::new\(new_bam\)\)/ => { *hm = new_bam; BamRef }
//@sub /cell\.borrow_mut\(\)/ => hm
//@spec
    ensures
        final(bam_ref).is_some() == new_bam.is_some(),
        new_bam.is_some() ==> *final(hm) == new_bam->Some_0,
        new_bam.is_none() && old(bam_ref).is_some() ==> final(hm).invalidated && final(hm).entries == old(hm).entries && final(hm).format == old(hm).format,
        new_bam.is_none() && old(bam_ref).is_none() ==> *final(hm) == *old(hm),
//@endfn
impl D64 {
//@fn src/disk/d64.rs Disk for D64::set_bam
//@ret r
//@sig /&mut self/ => &mut self, hm: &mut Bam
//@sub /disk::set_bam\(/ => set_bam_(hm, 
//@spec
    ensures
        final(self).bam.is_some() == bam.is_some(), final(self).header == old(self).header, final(self).format == old(self).format,
        bam.is_some() ==> *final(hm) == bam->Some_0,
        bam.is_none() && old(self).bam.is_some() ==> final(hm).invalidated && final(hm).entries == old(hm).entries && final(hm).format == old(hm).format,
        bam.is_none() && old(self).bam.is_none() ==> *final(hm) == *old(hm),
//@endfn
//@fn src/disk/mod.rs Disk::initialize
//@ret r
//@sig /&mut self/ => &mut self, hb: &ImageBlockDevice, hm: &mut Bam, nf: &'static DiskFormat
//@sub /self\.native_disk_format\(\)/ => nf
//@sub /self\.blocks\(\)\.clone\(\)/ => self.blocks()
//@sub /(Header|Bam)::read\(/ => \1::read(hb, 
//@sub /self\.set_bam\(/ => self.set_bam(hm, 
//@spec
    requires native(nf), fits_on(nf, hb)
    ensures initialized(nf, hb, final(self), final(hm))
//@start
    proof { lemma_fits(nf, hb); }
//@endfn
}
pub proof fn lemma_fits(f: &DiskFormat, dev: &ImageBlockDevice)
    requires native(f), fits_on(f, dev)
    ensures
        bam_fits(f.bam, dev), dev.valid(f.header.location), dev.valid(first_dir(f)),
        forall|l: Location| #[trigger] exists_on(f.tracks@, f.last_track as int, l) ==> dev.valid(l),
        forall|l: Location| #[trigger] dev.valid(l) ==> 1 <= l.0 <= dev.geometry.tracks && l.1 < f.tracks@[l.0 as int].sectors,
{
    let s = f.bam.sections@;
    assert forall|l: Location| #[trigger] exists_on(f.tracks@, f.last_track as int, l) implies dev.valid(l) by { assert(dev.geometry.track_layouts@[l.0 as int].sectors == f.tracks@[l.0 as int].sectors); }
    assert forall|l: Location| #[trigger] dev.valid(l) implies 1 <= l.0 <= dev.geometry.tracks && l.1 < f.tracks@[l.0 as int].sectors by { assert(dev.geometry.track_layouts@[l.0 as int].sectors == f.tracks@[l.0 as int].sectors); }
    assert(system_sector(f, f.header.location) && system_sector(f, first_dir(f)));
    assert(exists_on(f.tracks@, f.last_track as int, f.header.location) && exists_on(f.tracks@, f.last_track as int, first_dir(f)));
    assert forall|k: int| 0 <= k < s.len() implies dev.valid((#[trigger] s[k]).bitmap_location) && dev.valid(s[k].free_location) by {
        assert(bam_sector(f.bam, s[k].bitmap_location) && bam_sector(f.bam, s[k].free_location));
        assert(exists_on(f.tracks@, f.last_track as int, s[k].bitmap_location) && exists_on(f.tracks@, f.last_track as int, s[k].free_location));
    }
}

// ---------------------------------------------------------------- formatting

/// the map of an empty disk
pub open spec fn fresh_map(f: &DiskFormat, m: &Bam) -> bool { map_without(f, m, |l: Location| system_sector(f, l)) }
/// every sector is free but those taken
pub open spec fn map_without(f: &DiskFormat, m: &Bam, used: spec_fn(Location) -> bool) -> bool {
    &&& m.wf() && m.format == *f && m.bam_rw.format == f.bam && !m.invalidated
    &&& forall|t: int| 1 <= t <= f.last_track ==> (#[trigger] m.entries@[t - 1]).free_sectors == crate::bam::count(m.entries@[t - 1].sector_map, 64)
    &&& forall|t: int, s: int| 1 <= t <= f.last_track && 0 <= s < 64 ==>
            #[trigger] fr(m.entries@[t - 1].sector_map, s) == (s < f.tracks@[t].sectors && !used(Location(t as u8, s as u8)))
}
pub proof fn lemma_count_prefix(map: u64, n: int, m: int)
    requires 0 <= n <= 64, 0 <= m, forall|s: int| 0 <= s < 64 ==> #[trigger] fr(map, s) == (s < m)
    ensures crate::bam::count(map, n) == if n < m { n } else { m }
    decreases n
{ if n > 0 { lemma_count_prefix(map, n - 1, m); } }
/// every byte that is neither of the header nor of the map is zero, but for the link of the directory
pub open spec fn blank(f: &DiskFormat, dev: &ImageBlockDevice) -> bool {
    &&& forall|l: Location, o: int| dev.valid(l) && 0 <= o < 256 && !map_covered(f, l, o) && !(l == f.header.location && header_byte(f.header, o)) && !(l == first_dir(f) && o == 1)
            ==> #[trigger] dev.sec(l)[o] == 0
    &&& dev.sec(first_dir(f))[1] == 0xFF
}
/// the header sector of an empty disk
pub open spec fn header_fresh(f: &DiskFormat, b: Seq<u8>, name: Seq<u8>, id: &Id) -> bool {
    let a = f.header.first_directory_offset as int;
    &&& b.len() == 256 && Location(b[a], b[a + 1]) == first_dir(f) && b[f.header.disk_format_type_offset as int] == f.header.default_disk_format_type
    &&& b.subrange(f.header.disk_id_offset as int, f.header.disk_id_offset + 2) == id.0@
    &&& b[f.header.directory_dos_version_offset as int] == f.header.default_directory_dos_version && b[f.header.directory_format_type_offset as int] == f.header.default_directory_format_type
    &&& name_field(f.header, b) == padded_name(name) && flag_ok(f.header, b)
    &&& forall|x: int| 0 <= x < 256 && is_pad(f.header, x) ==> #[trigger] b[x] == 0xA0
}
/// dev holds an empty disk
pub open spec fn formatted(f: &DiskFormat, dev: &ImageBlockDevice, m: &Bam, name: Seq<u8>, id: &Id) -> bool {
    &&& blank(f, dev) && header_fresh(f, dev.sec(f.header.location), name, id)
    &&& fresh_map(f, m) && bam_stored(f.bam, dev, m.entries@)
}
pub open spec fn cleared(dev: &ImageBlockDevice, t: int, s: int) -> bool {
    forall|l: Location, o: int| dev.valid(l) && (l.0 < t || l.0 == t && l.1 < s) && 0 <= o < 256 ==> #[trigger] dev.sec(l)[o] == 0
}
pub proof fn lemma_high_zero(map: u64, n: int)
    requires 0 <= n < 64, forall|s: int| n <= s < 64 ==> !(#[trigger] fr(map, s))
    ensures map >> (n as u64) == 0
    decreases 64 - n
{
    lemma_shift(map, n);
    if n + 1 < 64 { lemma_high_zero(map, n + 1); }
    assert(!fr(map, n));
    let x = map >> (n as u64);
    assert(x == 0) by (bit_vector) requires x >> 1 == 0, x & 1 == 0;
}
pub proof fn lemma_fresh_fits(f: &DiskFormat, m: &Bam)
    requires native(f), fresh_map(f, m)
    ensures bam_fits_bytes(f.bam, m.entries@)
{
    let s = f.bam.sections@;
    assert forall|k: int, i: int| 0 <= k < s.len() && 0 <= i < s[k].tracks implies (#[trigger] m.entries@[sum_tracks(s, k) + i]).sector_map >> ((8 * (#[trigger] s[k]).bitmap_size) as u64) == 0 by {
        let t = sum_tracks(s, k) + i + 1;
        lemma_sum_mono(s, k + 1, s.len() as int);
        lemma_sum_mono(s, 0, k);
        assert(sum_tracks(s, k + 1) == sum_tracks(s, k) + s[k].tracks);
        assert(wf_section(&s[k]));
        assert(f.tracks@[sum_tracks(s, k) + i + 1].sectors <= 8 * s[k].bitmap_size);
        assert forall|x: int| 8 * s[k].bitmap_size <= x < 64 implies !(#[trigger] fr(m.entries@[t - 1].sector_map, x)) by { }
        lemma_high_zero(m.entries@[t - 1].sector_map, 8 * s[k].bitmap_size as int);
    }
}
/// the steps of formatting: sectors cleared (h1), directory (h2), header (h3), map (h4)
pub proof fn lemma_formatted(f: &DiskFormat, h1: &ImageBlockDevice, h2: &ImageBlockDevice, h3: &ImageBlockDevice, h4: &ImageBlockDevice, h: &Header, b: Seq<u8>, m: &Bam, name: Seq<u8>, id: &Id)
    requires
        native(f), fits_on(f, h1), cleared(h1, h1.geometry.tracks + 1, 0),
        sector_replaced(h1, h2, first_dir(f), h1.sec(first_dir(f)).update(0, 0).update(1, 0xFF)),
        header_stored(f.header, h, h2.sec(f.header.location), b), sector_replaced(h2, h3, f.header.location, b),
        h.first_directory_sector == first_dir(f), h.disk_name@ == name, h.disk_id == *id, h.disk_format_type == f.header.default_disk_format_type,
        h.directory_format_type == f.header.default_directory_format_type, h.directory_dos_version == f.header.default_directory_dos_version,
        fresh_map(f, m), h4.wf(), h4.same_shape(h3), bam_stored(f.bam, h4, m.entries@), bam_frame(f.bam, f.bam.sections@.len() as int, h4, h3),
    ensures formatted(f, h4, m, name, id), flag_ok(f.header, h4.sec(f.header.location)), h4.sec(f.header.location).subrange(0xAD, 0xB8) != signature()
{
    let (hl, fd) = (f.header.location, first_dir(f));
    lemma_fits(f, h1);
    h1.lemma_off(fd); h1.lemma_off(hl); h4.lemma_off(fd); h4.lemma_off(hl);
    assert(h1.valid(fd) && h2.valid(fd) && h3.valid(fd) && h3.valid(hl));
    assert forall|l: Location, o: int| h4.valid(l) && 0 <= o < 256 && !map_covered(f, l, o) && !(l == hl && header_byte(f.header, o)) && !(l == fd && o == 1) implies #[trigger] h4.sec(l)[o] == 0 by {
        assert(h1.valid(l) && h2.valid(l) && h3.valid(l));
        assert(h1.sec(l)[o] == 0);
        h1.lemma_off(l);
        assert(h4.sec(l)[o] == h3.sec(l)[o]);
        if l == hl { assert(b[o] == h2.sec(hl)[o]); }
    }
    assert(!map_covered(f, fd, 1)) by {
        if map_covered(f, fd, 1) {
            let k = choose|k: int| 0 <= k < f.bam.sections@.len() && covers(&#[trigger] f.bam.sections@[k], fd, 1);
            assert(bam_sector(f.bam, fd));
        }
    }
    assert(h4.sec(fd)[1] == h3.sec(fd)[1]);
    let c = h4.sec(hl);
    assert forall|o: int| 0 <= o < 256 && header_byte(f.header, o) implies #[trigger] c[o] == b[o] by {
        assert(!map_covered(f, hl, o));
        assert(h4.sec(hl)[o] == h3.sec(hl)[o]);
    }
    let n = f.header.disk_name_offset as int;
    let i = f.header.disk_id_offset as int;
    assert forall|k: int| 0 <= k < 16 implies #[trigger] name_field(f.header, c)[k] == padded_name(name)[k] by {
        assert(header_byte(f.header, n + k)); assert(c[n + k] == b[n + k]);
        assert(name_field(f.header, b)[k] == b[n + k]);
        if k < name.len() { assert(name_field(f.header, b).take(name.len() as int)[k] == name[k]); }
    }
    assert(name_field(f.header, c) =~= padded_name(name));
    assert(header_byte(f.header, i) && header_byte(f.header, i + 1));
    assert(c.subrange(i, i + 2) =~= b.subrange(i, i + 2));
    let a = f.header.first_directory_offset as int;
    assert(header_byte(f.header, a) && header_byte(f.header, a + 1) && header_byte(f.header, f.header.disk_format_type_offset as int)
        && header_byte(f.header, f.header.directory_dos_version_offset as int) && header_byte(f.header, f.header.directory_format_type_offset as int));
    assert forall|x: int| 0 <= x < 256 && is_pad(f.header, x) implies #[trigger] c[x] == 0xA0 by { assert(header_byte(f.header, x)); assert(b[x] == 0xA0); }
    if f.header.double_sided_flag_expectation.is_some() { assert(header_byte(f.header, (f.header.double_sided_flag_expectation->Some_0).0 as int)); }
    assert(c.subrange(0xAD, 0xB8)[0] == 0) by {
        assert(!header_byte(f.header, 0xAD) && !map_covered(f, hl, 0xAD));
        assert(h4.sec(hl)[0xAD] == 0);
    }
    assert(signature()[0] == 0x47);
}
pub open spec fn seen(s: Seq<Location>, n: int, l: Location) -> bool { exists|k: int| 0 <= k < n && #[trigger] s[k] == l }
/// free blocks of the first n tracks of an empty disk
pub proof fn lemma_fresh_total(f: &DiskFormat, m: &Bam, n: int)
    requires native(f), fresh_map(f, m), 0 <= n <= f.last_track
    ensures free_total(m.entries@, f.directory_track as int, n) == data_blocks(f, n)
    decreases n
{
    if n > 0 {
        lemma_fresh_total(f, m, n - 1);
        let map = m.entries@[n - 1].sector_map;
        assert(m.entries@[n - 1].free_sectors == crate::bam::count(map, 64));
        if n == f.directory_track { }
        else if n == f.reserved_track {
            assert forall|s: int| 0 <= s < 64 implies !(#[trigger] fr(map, s)) by { if s < f.tracks@[n].sectors { assert(system_sector(f, Location(n as u8, s as u8))); } }
            lemma_count_zero(map, 64);
        } else {
            assert forall|s: int| 0 <= s < 64 implies #[trigger] fr(map, s) == (s < f.tracks@[n].sectors) by {
                let l = Location(n as u8, s as u8);
                if system_sector(f, l) { assert(f.skipped(l.0 as int)); }
            }
            lemma_count_prefix(map, 64, f.tracks@[n].sectors as int);
        }
    }
}
/// P14: what users rely on after formatting: the map agrees with the directory and the system areas, all data blocks are free, no file exists,
/// and the preconditions of the other operations hold
pub proof fn lemma_formatted_ok(f: &DiskFormat, dev: &ImageBlockDevice, m: &Bam, name: Seq<u8>, id: &Id)
    requires native(f), fits_on(f, dev), formatted(f, dev, m, name, id)
    ensures
        disk_ok(dev, m), map_ok(dev, m), map_used(m), dir_ok(dev, m, first_dir(f)),
        chain(dev, first_dir(f), seq![first_dir(f)]), no_files(dev, first_dir(f)),
        free_total(m.entries@, f.directory_track as int, f.last_track as int) == data_blocks(f, f.last_track as int),
{
    let fd = first_dir(f);
    lemma_fits(f, dev);
    lemma_fresh_total(f, m, f.last_track as int);
    assert forall|s: int| f.reserved_track > 0 implies !#[trigger] fr(m.entries@[f.reserved_track - 1].sector_map, s) by {
        if 0 <= s < f.tracks@[f.reserved_track as int].sectors { assert(system_sector(f, Location(f.reserved_track, s as u8))); }
        if 0 <= s < 64 { assert(fr(m.entries@[f.reserved_track - 1].sector_map, s) == (s < f.tracks@[f.reserved_track as int].sectors && !system_sector(f, Location(f.reserved_track, s as u8)))); }
    }
    assert forall|t: int, s: int| 1 <= t <= f.last_track && f.tracks@[t].sectors <= s < 64 implies !#[trigger] fr(m.entries@[t - 1].sector_map, s) by { }
    assert forall|l: Location| #[trigger] bam_sector(m.bam_rw.format, l) implies m.format.skipped(l.0 as int) by { assert(system_sector(f, l)); }
    assert forall|l: Location| #[trigger] m.has(l) implies dev.valid(l) by { assert(exists_on(f.tracks@, f.last_track as int, l)); }
    assert forall|l: Location| #[trigger] system_sector(f, l) implies m.has(l) && !m.is_free(l) by {
        assert(exists_on(f.tracks@, f.last_track as int, l));
        if l.1 < 64 { assert(fr(m.entries@[l.0 as int - 1].sector_map, l.1 as int) == (l.1 < f.tracks@[l.0 as int].sectors && !system_sector(f, Location(l.0, l.1)))); }
    }
    assert forall|l: Location| #[trigger] bam_sector(m.bam_rw.format, l) implies !m.is_free(l) by { assert(system_sector(f, l)); }
    assert(system_sector(f, fd));
    let b = dev.sec(fd);
    dev.lemma_off(fd);
    assert forall|o: int| 0 <= o < 256 && o != 1 implies #[trigger] b[o] == 0 by {
        assert(!map_covered(f, fd, o)) by {
            if map_covered(f, fd, o) {
                let k = choose|k: int| 0 <= k < f.bam.sections@.len() && covers(&#[trigger] f.bam.sections@[k], fd, o);
                assert(bam_sector(f.bam, fd));
            }
        }
    }
    let c = seq![fd];
    assert(c.len() == 1 && c[0] == fd);
    assert(chain(dev, fd, c));
    assert forall|ls: Seq<Location>, k: int| #[trigger] chain(dev, fd, ls) && 0 <= k < ls.len() implies dir_sector(m, #[trigger] ls[k]) by { lemma_chain_unique(dev, fd, ls, c); }
    assert forall|ls: Seq<Location>, j: int| #[trigger] chain(dev, fd, ls) && 0 <= j < dir_slots(dev, ls).len() implies !live(dev, #[trigger] dir_slots(dev, ls)[j]) by {
        lemma_chain_unique(dev, fd, ls, c);
        assert(c.drop_last() =~= Seq::<Location>::empty());
        assert(dir_slots(dev, c.drop_last()) =~= Seq::<Position>::empty());
        assert(dir_slots(dev, c) =~= slots_in(fd, 8));
        let p = dir_slots(dev, ls)[j];
        assert(slot(dev, p)[2] == b[p.offset + 2]);
        assert(b[p.offset + 2] == 0);
        assert(0u8 & 0x0F == 0 && 0u8 & 0x80 == 0) by (bit_vector);
        assert(scratched(attrs_of(0)));
    }
}
/// no slot of the directory holds an entry
pub open spec fn no_files(dev: &ImageBlockDevice, start: Location) -> bool {
    forall|ls: Seq<Location>, j: int| #[trigger] chain(dev, start, ls) && 0 <= j < dir_slots(dev, ls).len() ==> !live(dev, #[trigger] dir_slots(dev, ls)[j])
}
/// P14: formatting is deterministic: two images formatted with the same name and id hold the same sectors
pub proof fn lemma_formatted_same(f: &DiskFormat, d1: &ImageBlockDevice, m1: &Bam, d2: &ImageBlockDevice, m2: &Bam, name: Seq<u8>, id: &Id, l: Location, o: int)
    requires native(f), fits_on(f, d1), fits_on(f, d2), d1.geometry == d2.geometry, formatted(f, d1, m1, name, id), formatted(f, d2, m2, name, id), d1.valid(l), 0 <= o < 256
    ensures d1.sec(l)[o] == d2.sec(l)[o]
{
    let s = f.bam.sections@;
    let hl = f.header.location;
    assert(d2.valid(l));
    if map_covered(f, l, o) {
        let k = choose|k: int| 0 <= k < s.len() && covers(&#[trigger] s[k], l, o);
        lemma_sum_mono(s, k + 1, s.len() as int);
        lemma_sum_mono(s, k, k);
        assert(sum_tracks(s, k + 1) == sum_tracks(s, k) + s[k].tracks);
        assert(stored(&s[k], d1, m1.entries@, sum_tracks(s, k)) && stored(&s[k], d2, m2.entries@, sum_tracks(s, k)));
        assert forall|t: int| 1 <= t <= f.last_track implies #[trigger] m1.entries@[t - 1] == m2.entries@[t - 1] by {
            assert forall|x: int| 0 <= x < 64 implies #[trigger] fr(m1.entries@[t - 1].sector_map, x) == fr(m2.entries@[t - 1].sector_map, x) by {
                assert(fr(m2.entries@[t - 1].sector_map, x) == (x < f.tracks@[t].sectors && !system_sector(f, Location(t as u8, x as u8))));
            }
            lemma_same_map(m1.entries@[t - 1].sector_map, m2.entries@[t - 1].sector_map, 0);
            assert(m1.entries@[t - 1].free_sectors == crate::bam::count(m1.entries@[t - 1].sector_map, 64));
            assert(m2.entries@[t - 1].free_sectors == crate::bam::count(m2.entries@[t - 1].sector_map, 64));
        }
        if l == s[k].bitmap_location && bm_covers(&s[k], s[k].tracks as int, o) {
            let (i, j) = choose|i: int, j: int| 0 <= i < s[k].tracks && 0 <= j < s[k].bitmap_size && o == #[trigger] bpos(&s[k], i, j);
            assert(m1.entries@[sum_tracks(s, k) + i + 1 - 1] == m2.entries@[sum_tracks(s, k) + i + 1 - 1]);
        } else {
            let i = choose|i: int| 0 <= i < s[k].tracks && o == #[trigger] fpos(&s[k], i);
            assert(m1.entries@[sum_tracks(s, k) + i + 1 - 1] == m2.entries@[sum_tracks(s, k) + i + 1 - 1]);
        }
    } else if l == hl && header_byte(f.header, o) {
        let (b, c) = (d1.sec(hl), d2.sec(hl));
        let n = f.header.disk_name_offset as int;
        let i = f.header.disk_id_offset as int;
        if n <= o < n + 16 { assert(name_field(f.header, b)[o - n] == b[o] && name_field(f.header, c)[o - n] == c[o]); }
        if i <= o < i + 2 { assert(b.subrange(i, i + 2)[o - i] == b[o] && c.subrange(i, i + 2)[o - i] == c[o]); }
    } else if l == first_dir(f) && o == 1 {
    } else {
        assert(d1.sec(l)[o] == 0 && d2.sec(l)[o] == 0);
    }
}
pub proof fn lemma_same_map(a: u64, b: u64, n: int)
    requires 0 <= n < 64, forall|s: int| n <= s < 64 ==> #[trigger] fr(a, s) == fr(b, s)
    ensures a >> (n as u64) == b >> (n as u64), n == 0 ==> a == b
    decreases 64 - n
{
    lemma_shift(a, n); lemma_shift(b, n);
    if n + 1 < 64 { lemma_same_map(a, b, n + 1); }
    let (x, y) = (a >> (n as u64), b >> (n as u64));
    assert(fr(a, n) == fr(b, n));
    assert(x & 1 == 0 || x & 1 == 1) by (bit_vector);
    assert(y & 1 == 0 || y & 1 == 1) by (bit_vector);
    assert(x == y) by (bit_vector) requires x >> 1 == y >> 1, x & 1 == y & 1;
    assert(a >> 0 == a && b >> 0 == b) by (bit_vector);
}
impl D64 {
//@props P14
//@fn src/disk/mod.rs Disk::write_format
//@ret r
//@sig /&mut self/ => &mut self, hb: &mut ImageBlockDevice, hm: &mut Bam, nf: &'static DiskFormat
//@sub /self\.native_disk_format\(\)/ => nf
//@sub? /self\.blocks_ref\(\)\.geometry\(\)/ => hb.geometry
//@sub /self\.blocks_ref_mut\(\)/ => (&mut *hb)
//@sub /for (\w+) in block\.iter_mut\(\)\.take\(([^()]*)\) \{(.*?)\}/ => let mut k_: usize = 0; while k_ < (\2) && k_ < block.len() { let \1 = &mut block[k_]; \3 k_ = k_ + 1; }
//@sub /for (\w+) in disk_format\.system_locations\(\) \{/ => let v_ = disk_format.system_locations(); let ghost sl = v_@; for \1 in v_ {
//@sub /header\.write\(/ => header.write(hb, 
//@sub /bam\.flush\(\)/ => bam.flush(hb)
//@sub /self\.set_bam\(/ => self.set_bam(hm, 
//@sub /self\.initialize\(\)/ => self.initialize(hb, hm, nf)
//@spec
    requires native(nf), fits_on(nf, old(hb))
    ensures
        r.is_ok() ==> name@.len() <= 16 && old(hb).writable(),
        r.is_ok() ==> formatted(nf, final(hb), final(hm), name@, id) && initialized(nf, final(hb), final(self), final(hm)) && final(self).format == Some(*nf),
        r.is_ok() ==> final(hb).same_shape(old(hb)) && final(hb).same_table(old(hb)), // [P21]
        name@.len() > 16 ==> is_err(r, DiskError::FilenameTooLong),
        !old(hb).writable() ==> r.is_err(), // [P13]
        name@.len() <= 16 && old(hb).image is Memory ==> r.is_ok(),
        r.is_err() && (name@.len() > 16 || !old(hb).writable()) ==> *final(self) == *old(self) && *final(hb) == *old(hb) && *final(hm) == *old(hm),
//@start
    hide(before);
    let ghost mut gh: Header = arbitrary();
    let ghost mut h2: ImageBlockDevice = arbitrary();
    let ghost mut m4: Bam = arbitrary();
    let ghost mut h4: ImageBlockDevice = arbitrary();
    proof { lemma_fits(nf, hb); }
//@loop 1 it
    invariant
        native(nf), fits_on(nf, hb), disk_format == nf, name@.len() <= 16, *self == *old(self), *hm == *old(hm),
        it.seq().len() == track_count, track_count == hb.geometry.tracks, forall|k: int| 0 <= k < it.seq().len() ==> #[trigger] it.seq()[k] == k + 1,
        hb.same_shape(old(hb)), hb.same_table(old(hb)), cleared(hb, it.index@ + 1, 0), (it.index@ > 0 ==> hb.writable()), (it.index@ == 0 ==> *hb == *old(hb)),
//@loop 2 it2
    invariant
        native(nf), fits_on(nf, hb), disk_format == nf, name@.len() <= 16, *self == *old(self), *hm == *old(hm), 1 <= track <= hb.geometry.tracks,
        it2.seq().len() == nf.tracks@[track as int].sectors, forall|k: int| 0 <= k < it2.seq().len() ==> #[trigger] it2.seq()[k] == k,
        hb.same_shape(old(hb)), hb.same_table(old(hb)), cleared(hb, track as int, it2.index@), (it2.index@ > 0 || track > 1 ==> hb.writable()), (!hb.writable() ==> *hb == *old(hb)),
//@loopstart 2
    let ghost h0 = *hb;
    proof { assert(hb.geometry.track_layouts@[track as int].sectors == nf.tracks@[track as int].sectors); assert(hb.valid(Location(track, sector))); }
//@loopend 2
    proof {
        assert forall|l: Location, o: int| hb.valid(l) && (l.0 < track || l.0 == track && l.1 < it2.index@ + 1) && 0 <= o < 256 implies #[trigger] hb.sec(l)[o] == 0 by {
            assert(h0.valid(l));
            if l == location { } else { assert(hb.sec(l) == h0.sec(l)); assert(h0.sec(l)[o] == 0); }
        }
    }
//@loop 3
    invariant block@.len() == 256, k_ <= 256, forall|x: int| 0 <= x < k_ ==> #[trigger] block@[x] == 0
    decreases 256 - k_
//@afterloop 1
    let ghost h1 = *hb;
//@before /let mut header = Header::new/
    proof { h2 = *hb; }
//@before /self\.set_header\(/
    proof { gh = header; }
//@before /let mut bam = Bam::new/
    let ghost h3 = *hb;
//@before /self\.set_bam\(/
    proof {
        m4 = bam;
        h4 = *hb;
        assert forall|l: Location| #[trigger] seen(sl, sl.len() as int, l) == system_sector(nf, l) by {
            if sl.contains(l) { let k = choose|k: int| 0 <= k < sl.len() && sl[k] == l; assert(seen(sl, sl.len() as int, l)); }
        }
        assert(fresh_map(nf, &bam));
        let b = h3.sec(nf.header.location);
        assert(header_stored(nf.header, &gh, h2.sec(nf.header.location), b));
        lemma_formatted(nf, &h1, &h2, &h3, &h4, &gh, b, &m4, name@, id);
        lemma_fresh_fits(nf, &m4);
    }
//@before /self\.initialize\(/
    let ghost h5 = *hb;
    proof {
        assert forall|l: Location| h5.valid(l) implies #[trigger] h5.sec(l) == h4.sec(l) by { }
        assert(formatted(nf, &h5, &m4, name@, id));
    }
//@after /self\.initialize\(/
    proof {
        lemma_roundtrip(nf.bam, hb, m4.entries@, hm.entries@);
        assert(fresh_map(nf, hm));
    }
//@beforeloop 4
    proof {
        assert forall|t: int| 1 <= t <= nf.last_track implies (#[trigger] bam.entries@[t - 1]).free_sectors == crate::bam::count(bam.entries@[t - 1].sector_map, 64) by {
            lemma_count_prefix(bam.entries@[t - 1].sector_map, 64, nf.tracks@[t].sectors as int);
        }
        assert(map_without(nf, &bam, |l: Location| seen(sl, 0, l)));
    }
//@loop 4 it4
    invariant
        native(nf), it4.seq() == sl, forall|l: Location| #[trigger] sl.contains(l) <==> system_sector(nf, l),
        map_without(nf, &bam, |l: Location| seen(sl, it4.index@, l)),
//@loopstart 4
    let ghost bam0 = bam;
    proof { assert(sl.contains(location)); assert(system_sector(nf, location)); }
//@loopend 4
    proof {
        let n = it4.index@;
        assert forall|t: int, s: int| 1 <= t <= nf.last_track && 0 <= s < 64 implies
            #[trigger] fr(bam.entries@[t - 1].sector_map, s) == (s < nf.tracks@[t].sectors && !seen(sl, n + 1, Location(t as u8, s as u8))) by {
            let l = Location(t as u8, s as u8);
            assert(fr(bam0.entries@[t - 1].sector_map, s) == (s < nf.tracks@[t].sectors && !seen(sl, n, l)));
            if l == location { assert(sl[n] == l); }
            else { assert(seen(sl, n + 1, l) == seen(sl, n, l)) by { if seen(sl, n + 1, l) { let k = choose|k: int| 0 <= k < n + 1 && #[trigger] sl[k] == l; } if seen(sl, n, l) { let k = choose|k: int| 0 <= k < n && #[trigger] sl[k] == l; assert(sl[k] == l); } } }
        }
    }
//@endfn
}
} // mod formatting
pub use formatting::*;
