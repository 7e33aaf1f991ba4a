pub mod tables {
use super::*;
/// sectors on track t, as documented for the drives
pub open spec fn zone_1541(t: int) -> int { if t <= 17 { 21 } else if t <= 24 { 19 } else if t <= 30 { 18 } else { 17 } }
pub open spec fn zone_1571(t: int) -> int { if t <= 35 { zone_1541(t) } else { zone_1541(t - 35) } }
pub open spec fn zone_1581(t: int) -> int { 40 }
pub open spec fn track_ok(l: Seq<Track>, t: int, z: int) -> bool {
    l[t].sectors == z && l[t].byte_offset == 256 * before(l, t)
}
pub open spec fn zones(l: Seq<Track>, n: int, z: spec_fn(int) -> int) -> bool {
    forall|t: int| 1 <= t <= n ==> #[trigger] l[t].sectors == z(t)
}
pub open spec fn d64_format(f: &DiskFormat) -> bool {
    &&& f.directory_track == 18 && f.first_directory_sector == 1 && f.reserved_track == 0 && f.first_track == 1
    &&& f.last_track == 35 && f.last_nonstandard_track == 40 && f.interleave == 10 && f.directory_interleave == 3 && !f.geos
    &&& f.tracks@.len() == 41 && zones(f.tracks@, 40, |t: int| zone_1541(t)) && d64_bam(f.bam) && d64_header(f.header)
}
pub open spec fn d71_format(f: &DiskFormat) -> bool {
    &&& f.directory_track == 18 && f.first_directory_sector == 1 && f.reserved_track == 53 && f.first_track == 1
    &&& f.last_track == 70 && f.last_nonstandard_track == 70 && f.interleave == 6 && f.directory_interleave == 3 && !f.geos
    &&& f.tracks@.len() == 71 && zones(f.tracks@, 70, |t: int| zone_1571(t)) && d71_bam(f.bam) && d71_header(f.header)
}
pub open spec fn d81_format(f: &DiskFormat) -> bool {
    &&& f.directory_track == 40 && f.first_directory_sector == 3 && f.reserved_track == 0 && f.first_track == 1
    &&& f.last_track == 80 && f.last_nonstandard_track == 80 && f.interleave == 1 && f.directory_interleave == 1 && !f.geos
    &&& f.tracks@.len() == 81 && zones(f.tracks@, 80, |t: int| zone_1581(t)) && d81_bam(f.bam) && d81_header(f.header)
}
pub open spec fn section_is(s: &BamSection, bl: Location, bo: int, bsz: int, bst: int, fl: Location, fo: int, fst: int, n: int) -> bool {
    s.bitmap_location == bl && s.bitmap_offset == bo && s.bitmap_size == bsz && s.bitmap_stride == bst
    && s.free_location == fl && s.free_offset == fo && s.free_stride == fst && s.tracks == n
}
pub open spec fn d64_bam(b: &BamFormat) -> bool {
    b.sections@.len() == 1 && section_is(&b.sections@[0], Location(18, 0), 5, 3, 4, Location(18, 0), 4, 4, 35)
}
pub open spec fn d71_bam(b: &BamFormat) -> bool {
    &&& b.sections@.len() == 2 && section_is(&b.sections@[0], Location(18, 0), 5, 3, 4, Location(18, 0), 4, 4, 35)
    &&& section_is(&b.sections@[1], Location(53, 0), 0, 3, 3, Location(18, 0), 0xDD, 1, 35)
}
pub open spec fn d81_bam(b: &BamFormat) -> bool {
    &&& b.sections@.len() == 2 && section_is(&b.sections@[0], Location(40, 1), 0x11, 5, 6, Location(40, 1), 0x10, 6, 40)
    &&& section_is(&b.sections@[1], Location(40, 2), 0x11, 5, 6, Location(40, 2), 0x10, 6, 40)
}
/// documented layout of the header sector
pub open spec fn header_is(h: &HeaderFormat, loc: Location, name: int, id: int, dos: int, c: u8, d: u8) -> bool {
    &&& h.location == loc && h.first_directory_offset == 0 && h.disk_format_type_offset == 2
    &&& h.disk_name_offset == name && h.disk_id_offset == id && h.directory_dos_version_offset == dos
    &&& h.directory_format_type_offset == dos + 1
    &&& h.default_disk_format_type == c && h.default_directory_dos_version == d && h.default_directory_format_type == c
}
pub open spec fn d64_header(h: &HeaderFormat) -> bool {
    &&& header_is(h, Location(18, 0), 0x90, 0xA2, 0xA5, 0x41, 0x32) && h.double_sided_flag_expectation.is_none()
    &&& h.padding_offsets@ == seq![0xA0u8, 0xA1, 0xA4, 0xA7, 0xA8, 0xA9, 0xAA]
}
pub open spec fn d71_header(h: &HeaderFormat) -> bool {
    &&& header_is(h, Location(18, 0), 0x90, 0xA2, 0xA5, 0x41, 0x32) && h.double_sided_flag_expectation == Some((3usize, 0x80u8))
    &&& h.padding_offsets@ == seq![0xA0u8, 0xA1, 0xA4, 0xA7, 0xA8, 0xA9, 0xAA]
}
pub open spec fn d81_header(h: &HeaderFormat) -> bool {
    &&& header_is(h, Location(40, 0), 0x04, 0x16, 0x19, 0x44, 0x33) && h.double_sided_flag_expectation.is_none()
    &&& h.padding_offsets@ == seq![0x14u8, 0x15, 0x18, 0x1B, 0x1C]
}
pub open spec fn geometry_is(g: &Geometry, n: int, errors: bool, size: int) -> bool {
    &&& g.tracks == n && g.with_error_table == errors && wf_geometry(g)
    &&& geometry_size(g) == size
}

pub mod d64 {
use super::*;
//@props P01 P12 P21
//@static src/disk/d64.rs TRACKS
//@spec
    ensures TRACKS@.len() == 41, wf_layout(TRACKS@, 35), wf_layout(TRACKS@, 40),
        forall|t: int| 1 <= t <= 40 ==> #[trigger] TRACKS@[t].sectors == zone_1541(t),
        before(TRACKS@, 36) == 683,
        before(TRACKS@, 41) == 768,
        TRACKS@[0].sectors == 0,
//@start
    proof {
        let l = r_@;
        assert(before(l, 1) == 0);
        assert(track_ok(l, 1, zone_1541(1)) && before(l, 2) == 21);
        assert(track_ok(l, 2, zone_1541(2)) && before(l, 3) == 42);
        assert(track_ok(l, 3, zone_1541(3)) && before(l, 4) == 63);
        assert(track_ok(l, 4, zone_1541(4)) && before(l, 5) == 84);
        assert(track_ok(l, 5, zone_1541(5)) && before(l, 6) == 105);
        assert(track_ok(l, 6, zone_1541(6)) && before(l, 7) == 126);
        assert(track_ok(l, 7, zone_1541(7)) && before(l, 8) == 147);
        assert(track_ok(l, 8, zone_1541(8)) && before(l, 9) == 168);
        assert(track_ok(l, 9, zone_1541(9)) && before(l, 10) == 189);
        assert(track_ok(l, 10, zone_1541(10)) && before(l, 11) == 210);
        assert(track_ok(l, 11, zone_1541(11)) && before(l, 12) == 231);
        assert(track_ok(l, 12, zone_1541(12)) && before(l, 13) == 252);
        assert(track_ok(l, 13, zone_1541(13)) && before(l, 14) == 273);
        assert(track_ok(l, 14, zone_1541(14)) && before(l, 15) == 294);
        assert(track_ok(l, 15, zone_1541(15)) && before(l, 16) == 315);
        assert(track_ok(l, 16, zone_1541(16)) && before(l, 17) == 336);
        assert(track_ok(l, 17, zone_1541(17)) && before(l, 18) == 357);
        assert(track_ok(l, 18, zone_1541(18)) && before(l, 19) == 376);
        assert(track_ok(l, 19, zone_1541(19)) && before(l, 20) == 395);
        assert(track_ok(l, 20, zone_1541(20)) && before(l, 21) == 414);
        assert(track_ok(l, 21, zone_1541(21)) && before(l, 22) == 433);
        assert(track_ok(l, 22, zone_1541(22)) && before(l, 23) == 452);
        assert(track_ok(l, 23, zone_1541(23)) && before(l, 24) == 471);
        assert(track_ok(l, 24, zone_1541(24)) && before(l, 25) == 490);
        assert(track_ok(l, 25, zone_1541(25)) && before(l, 26) == 508);
        assert(track_ok(l, 26, zone_1541(26)) && before(l, 27) == 526);
        assert(track_ok(l, 27, zone_1541(27)) && before(l, 28) == 544);
        assert(track_ok(l, 28, zone_1541(28)) && before(l, 29) == 562);
        assert(track_ok(l, 29, zone_1541(29)) && before(l, 30) == 580);
        assert(track_ok(l, 30, zone_1541(30)) && before(l, 31) == 598);
        assert(track_ok(l, 31, zone_1541(31)) && before(l, 32) == 615);
        assert(track_ok(l, 32, zone_1541(32)) && before(l, 33) == 632);
        assert(track_ok(l, 33, zone_1541(33)) && before(l, 34) == 649);
        assert(track_ok(l, 34, zone_1541(34)) && before(l, 35) == 666);
        assert(track_ok(l, 35, zone_1541(35)) && before(l, 36) == 683);
        assert(track_ok(l, 36, zone_1541(36)) && before(l, 37) == 700);
        assert(track_ok(l, 37, zone_1541(37)) && before(l, 38) == 717);
        assert(track_ok(l, 38, zone_1541(38)) && before(l, 39) == 734);
        assert(track_ok(l, 39, zone_1541(39)) && before(l, 40) == 751);
        assert(track_ok(l, 40, zone_1541(40)) && before(l, 41) == 768);
        assert forall|t: int| 1 <= t <= 40 implies #[trigger] track_ok(l, t, zone_1541(t)) by {
            if t == 1 { }
            else if t == 2 { }
            else if t == 3 { }
            else if t == 4 { }
            else if t == 5 { }
            else if t == 6 { }
            else if t == 7 { }
            else if t == 8 { }
            else if t == 9 { }
            else if t == 10 { }
            else if t == 11 { }
            else if t == 12 { }
            else if t == 13 { }
            else if t == 14 { }
            else if t == 15 { }
            else if t == 16 { }
            else if t == 17 { }
            else if t == 18 { }
            else if t == 19 { }
            else if t == 20 { }
            else if t == 21 { }
            else if t == 22 { }
            else if t == 23 { }
            else if t == 24 { }
            else if t == 25 { }
            else if t == 26 { }
            else if t == 27 { }
            else if t == 28 { }
            else if t == 29 { }
            else if t == 30 { }
            else if t == 31 { }
            else if t == 32 { }
            else if t == 33 { }
            else if t == 34 { }
            else if t == 35 { }
            else if t == 36 { }
            else if t == 37 { }
            else if t == 38 { }
            else if t == 39 { }
            else if t == 40 { }
        }
        assert forall|t: int| 1 <= t <= 40 implies #[trigger] l[t].sectors == zone_1541(t) && 1 <= l[t].sectors <= 40 && l[t].byte_offset == 256 * before(l, t) by { assert(track_ok(l, t, zone_1541(t))); }
    }
//@endfn
//@props P03
//@static src/disk/d64.rs BAM_FORMAT
//@spec
    ensures wf_bamformat(&BAM_FORMAT), d64_bam(&BAM_FORMAT), sum_tracks(BAM_FORMAT.sections@, BAM_FORMAT.sections@.len() as int) == 35
//@start
    proof { let f = &r_; assert(d64_bam(f)); lemma_bam_d64(f); }
//@endfn
//@props P20
//@static src/disk/d64.rs HEADER_FORMAT
//@spec
    ensures d64_header(&HEADER_FORMAT)
//@start
    proof { assert(r_.padding_offsets@ =~= seq![0xA0u8, 0xA1, 0xA4, 0xA7, 0xA8, 0xA9, 0xAA]); }
//@endfn
//@props P04 P05 P14
//@static src/disk/d64.rs DISK_FORMAT
//@spec
    ensures wf_format(&DISK_FORMAT), wf_bamformat(DISK_FORMAT.bam), d64_format(&DISK_FORMAT)
//@endfn
//@props P01 P21
//@static src/disk/d64.rs GEOMETRY_35
//@spec
    ensures geometry_is(&GEOMETRY_35, 35, false, 174848), zones(GEOMETRY_35.track_layouts@, 35, |t: int| zone_1541(t))
//@endfn
//@props P01 P21
//@static src/disk/d64.rs GEOMETRY_35_ERRORS
//@spec
    ensures geometry_is(&GEOMETRY_35_ERRORS, 35, true, 175531), zones(GEOMETRY_35_ERRORS.track_layouts@, 35, |t: int| zone_1541(t))
//@endfn
//@props P01 P21
//@static src/disk/d64.rs GEOMETRY_40
//@spec
    ensures geometry_is(&GEOMETRY_40, 40, false, 196608), zones(GEOMETRY_40.track_layouts@, 40, |t: int| zone_1541(t))
//@endfn
//@props P01 P21
//@static src/disk/d64.rs GEOMETRY_40_ERRORS
//@spec
    ensures geometry_is(&GEOMETRY_40_ERRORS, 40, true, 197376), zones(GEOMETRY_40_ERRORS.track_layouts@, 40, |t: int| zone_1541(t))
//@endfn
} // mod d64
pub mod d71 {
use super::*;
//@item src/disk/d71.rs const TRACK_COUNT
//@item src/disk/d71.rs const HEADER_DOUBLE_SIDED_FLAG_OFFSET
//@item src/disk/d71.rs const HEADER_DOUBLE_SIDED_VALUE
//@props P01 P12 P21
//@static src/disk/d71.rs TRACKS
//@spec
    ensures TRACKS@.len() == 71, wf_layout(TRACKS@, 70),
        forall|t: int| 1 <= t <= 70 ==> #[trigger] TRACKS@[t].sectors == zone_1571(t),
        before(TRACKS@, 71) == 1366,
        TRACKS@[0].sectors == 0,
//@start
    proof {
        let l = r_@;
        assert(before(l, 1) == 0);
        assert(track_ok(l, 1, zone_1571(1)) && before(l, 2) == 21);
        assert(track_ok(l, 2, zone_1571(2)) && before(l, 3) == 42);
        assert(track_ok(l, 3, zone_1571(3)) && before(l, 4) == 63);
        assert(track_ok(l, 4, zone_1571(4)) && before(l, 5) == 84);
        assert(track_ok(l, 5, zone_1571(5)) && before(l, 6) == 105);
        assert(track_ok(l, 6, zone_1571(6)) && before(l, 7) == 126);
        assert(track_ok(l, 7, zone_1571(7)) && before(l, 8) == 147);
        assert(track_ok(l, 8, zone_1571(8)) && before(l, 9) == 168);
        assert(track_ok(l, 9, zone_1571(9)) && before(l, 10) == 189);
        assert(track_ok(l, 10, zone_1571(10)) && before(l, 11) == 210);
        assert(track_ok(l, 11, zone_1571(11)) && before(l, 12) == 231);
        assert(track_ok(l, 12, zone_1571(12)) && before(l, 13) == 252);
        assert(track_ok(l, 13, zone_1571(13)) && before(l, 14) == 273);
        assert(track_ok(l, 14, zone_1571(14)) && before(l, 15) == 294);
        assert(track_ok(l, 15, zone_1571(15)) && before(l, 16) == 315);
        assert(track_ok(l, 16, zone_1571(16)) && before(l, 17) == 336);
        assert(track_ok(l, 17, zone_1571(17)) && before(l, 18) == 357);
        assert(track_ok(l, 18, zone_1571(18)) && before(l, 19) == 376);
        assert(track_ok(l, 19, zone_1571(19)) && before(l, 20) == 395);
        assert(track_ok(l, 20, zone_1571(20)) && before(l, 21) == 414);
        assert(track_ok(l, 21, zone_1571(21)) && before(l, 22) == 433);
        assert(track_ok(l, 22, zone_1571(22)) && before(l, 23) == 452);
        assert(track_ok(l, 23, zone_1571(23)) && before(l, 24) == 471);
        assert(track_ok(l, 24, zone_1571(24)) && before(l, 25) == 490);
        assert(track_ok(l, 25, zone_1571(25)) && before(l, 26) == 508);
        assert(track_ok(l, 26, zone_1571(26)) && before(l, 27) == 526);
        assert(track_ok(l, 27, zone_1571(27)) && before(l, 28) == 544);
        assert(track_ok(l, 28, zone_1571(28)) && before(l, 29) == 562);
        assert(track_ok(l, 29, zone_1571(29)) && before(l, 30) == 580);
        assert(track_ok(l, 30, zone_1571(30)) && before(l, 31) == 598);
        assert(track_ok(l, 31, zone_1571(31)) && before(l, 32) == 615);
        assert(track_ok(l, 32, zone_1571(32)) && before(l, 33) == 632);
        assert(track_ok(l, 33, zone_1571(33)) && before(l, 34) == 649);
        assert(track_ok(l, 34, zone_1571(34)) && before(l, 35) == 666);
        assert(track_ok(l, 35, zone_1571(35)) && before(l, 36) == 683);
        assert(track_ok(l, 36, zone_1571(36)) && before(l, 37) == 704);
        assert(track_ok(l, 37, zone_1571(37)) && before(l, 38) == 725);
        assert(track_ok(l, 38, zone_1571(38)) && before(l, 39) == 746);
        assert(track_ok(l, 39, zone_1571(39)) && before(l, 40) == 767);
        assert(track_ok(l, 40, zone_1571(40)) && before(l, 41) == 788);
        assert(track_ok(l, 41, zone_1571(41)) && before(l, 42) == 809);
        assert(track_ok(l, 42, zone_1571(42)) && before(l, 43) == 830);
        assert(track_ok(l, 43, zone_1571(43)) && before(l, 44) == 851);
        assert(track_ok(l, 44, zone_1571(44)) && before(l, 45) == 872);
        assert(track_ok(l, 45, zone_1571(45)) && before(l, 46) == 893);
        assert(track_ok(l, 46, zone_1571(46)) && before(l, 47) == 914);
        assert(track_ok(l, 47, zone_1571(47)) && before(l, 48) == 935);
        assert(track_ok(l, 48, zone_1571(48)) && before(l, 49) == 956);
        assert(track_ok(l, 49, zone_1571(49)) && before(l, 50) == 977);
        assert(track_ok(l, 50, zone_1571(50)) && before(l, 51) == 998);
        assert(track_ok(l, 51, zone_1571(51)) && before(l, 52) == 1019);
        assert(track_ok(l, 52, zone_1571(52)) && before(l, 53) == 1040);
        assert(track_ok(l, 53, zone_1571(53)) && before(l, 54) == 1059);
        assert(track_ok(l, 54, zone_1571(54)) && before(l, 55) == 1078);
        assert(track_ok(l, 55, zone_1571(55)) && before(l, 56) == 1097);
        assert(track_ok(l, 56, zone_1571(56)) && before(l, 57) == 1116);
        assert(track_ok(l, 57, zone_1571(57)) && before(l, 58) == 1135);
        assert(track_ok(l, 58, zone_1571(58)) && before(l, 59) == 1154);
        assert(track_ok(l, 59, zone_1571(59)) && before(l, 60) == 1173);
        assert(track_ok(l, 60, zone_1571(60)) && before(l, 61) == 1191);
        assert(track_ok(l, 61, zone_1571(61)) && before(l, 62) == 1209);
        assert(track_ok(l, 62, zone_1571(62)) && before(l, 63) == 1227);
        assert(track_ok(l, 63, zone_1571(63)) && before(l, 64) == 1245);
        assert(track_ok(l, 64, zone_1571(64)) && before(l, 65) == 1263);
        assert(track_ok(l, 65, zone_1571(65)) && before(l, 66) == 1281);
        assert(track_ok(l, 66, zone_1571(66)) && before(l, 67) == 1298);
        assert(track_ok(l, 67, zone_1571(67)) && before(l, 68) == 1315);
        assert(track_ok(l, 68, zone_1571(68)) && before(l, 69) == 1332);
        assert(track_ok(l, 69, zone_1571(69)) && before(l, 70) == 1349);
        assert(track_ok(l, 70, zone_1571(70)) && before(l, 71) == 1366);
        assert forall|t: int| 1 <= t <= 70 implies #[trigger] track_ok(l, t, zone_1571(t)) by {
            if t == 1 { }
            else if t == 2 { }
            else if t == 3 { }
            else if t == 4 { }
            else if t == 5 { }
            else if t == 6 { }
            else if t == 7 { }
            else if t == 8 { }
            else if t == 9 { }
            else if t == 10 { }
            else if t == 11 { }
            else if t == 12 { }
            else if t == 13 { }
            else if t == 14 { }
            else if t == 15 { }
            else if t == 16 { }
            else if t == 17 { }
            else if t == 18 { }
            else if t == 19 { }
            else if t == 20 { }
            else if t == 21 { }
            else if t == 22 { }
            else if t == 23 { }
            else if t == 24 { }
            else if t == 25 { }
            else if t == 26 { }
            else if t == 27 { }
            else if t == 28 { }
            else if t == 29 { }
            else if t == 30 { }
            else if t == 31 { }
            else if t == 32 { }
            else if t == 33 { }
            else if t == 34 { }
            else if t == 35 { }
            else if t == 36 { }
            else if t == 37 { }
            else if t == 38 { }
            else if t == 39 { }
            else if t == 40 { }
            else if t == 41 { }
            else if t == 42 { }
            else if t == 43 { }
            else if t == 44 { }
            else if t == 45 { }
            else if t == 46 { }
            else if t == 47 { }
            else if t == 48 { }
            else if t == 49 { }
            else if t == 50 { }
            else if t == 51 { }
            else if t == 52 { }
            else if t == 53 { }
            else if t == 54 { }
            else if t == 55 { }
            else if t == 56 { }
            else if t == 57 { }
            else if t == 58 { }
            else if t == 59 { }
            else if t == 60 { }
            else if t == 61 { }
            else if t == 62 { }
            else if t == 63 { }
            else if t == 64 { }
            else if t == 65 { }
            else if t == 66 { }
            else if t == 67 { }
            else if t == 68 { }
            else if t == 69 { }
            else if t == 70 { }
        }
        assert forall|t: int| 1 <= t <= 70 implies #[trigger] l[t].sectors == zone_1571(t) && 1 <= l[t].sectors <= 40 && l[t].byte_offset == 256 * before(l, t) by { assert(track_ok(l, t, zone_1571(t))); }
    }
//@endfn
//@props P03
//@static src/disk/d71.rs BAM_FORMAT
//@spec
    ensures wf_bamformat(&BAM_FORMAT), d71_bam(&BAM_FORMAT), sum_tracks(BAM_FORMAT.sections@, BAM_FORMAT.sections@.len() as int) == 70
//@start
    proof { let f = &r_; assert(d71_bam(f)); lemma_bam_d71(f); }
//@endfn
//@props P20
//@static src/disk/d71.rs HEADER_FORMAT
//@spec
    ensures d71_header(&HEADER_FORMAT)
//@start
    proof { assert(r_.padding_offsets@ =~= seq![0xA0u8, 0xA1, 0xA4, 0xA7, 0xA8, 0xA9, 0xAA]); }
//@endfn
//@props P04 P05 P14
//@static src/disk/d71.rs DISK_FORMAT
//@spec
    ensures wf_format(&DISK_FORMAT), wf_bamformat(DISK_FORMAT.bam), d71_format(&DISK_FORMAT)
//@endfn
//@props P01 P21
//@static src/disk/d71.rs GEOMETRY
//@spec
    ensures geometry_is(&GEOMETRY, 70, false, 349696), zones(GEOMETRY.track_layouts@, 70, |t: int| zone_1571(t))
//@endfn
//@props P01 P21
//@static src/disk/d71.rs GEOMETRY_ERRORS
//@spec
    ensures geometry_is(&GEOMETRY_ERRORS, 70, true, 351062), zones(GEOMETRY_ERRORS.track_layouts@, 70, |t: int| zone_1571(t))
//@endfn
} // mod d71
pub mod d81 {
use super::*;
//@item src/disk/d81.rs const TRACK_COUNT
//@props P01 P12 P21
//@static src/disk/d81.rs TRACKS
//@spec
    ensures TRACKS@.len() == 81, wf_layout(TRACKS@, 80),
        forall|t: int| 1 <= t <= 80 ==> #[trigger] TRACKS@[t].sectors == zone_1581(t),
        before(TRACKS@, 81) == 3200,
        TRACKS@[0].sectors == 0,
//@start
    proof {
        let l = r_@;
        assert(before(l, 1) == 0);
        assert(track_ok(l, 1, zone_1581(1)) && before(l, 2) == 40);
        assert(track_ok(l, 2, zone_1581(2)) && before(l, 3) == 80);
        assert(track_ok(l, 3, zone_1581(3)) && before(l, 4) == 120);
        assert(track_ok(l, 4, zone_1581(4)) && before(l, 5) == 160);
        assert(track_ok(l, 5, zone_1581(5)) && before(l, 6) == 200);
        assert(track_ok(l, 6, zone_1581(6)) && before(l, 7) == 240);
        assert(track_ok(l, 7, zone_1581(7)) && before(l, 8) == 280);
        assert(track_ok(l, 8, zone_1581(8)) && before(l, 9) == 320);
        assert(track_ok(l, 9, zone_1581(9)) && before(l, 10) == 360);
        assert(track_ok(l, 10, zone_1581(10)) && before(l, 11) == 400);
        assert(track_ok(l, 11, zone_1581(11)) && before(l, 12) == 440);
        assert(track_ok(l, 12, zone_1581(12)) && before(l, 13) == 480);
        assert(track_ok(l, 13, zone_1581(13)) && before(l, 14) == 520);
        assert(track_ok(l, 14, zone_1581(14)) && before(l, 15) == 560);
        assert(track_ok(l, 15, zone_1581(15)) && before(l, 16) == 600);
        assert(track_ok(l, 16, zone_1581(16)) && before(l, 17) == 640);
        assert(track_ok(l, 17, zone_1581(17)) && before(l, 18) == 680);
        assert(track_ok(l, 18, zone_1581(18)) && before(l, 19) == 720);
        assert(track_ok(l, 19, zone_1581(19)) && before(l, 20) == 760);
        assert(track_ok(l, 20, zone_1581(20)) && before(l, 21) == 800);
        assert(track_ok(l, 21, zone_1581(21)) && before(l, 22) == 840);
        assert(track_ok(l, 22, zone_1581(22)) && before(l, 23) == 880);
        assert(track_ok(l, 23, zone_1581(23)) && before(l, 24) == 920);
        assert(track_ok(l, 24, zone_1581(24)) && before(l, 25) == 960);
        assert(track_ok(l, 25, zone_1581(25)) && before(l, 26) == 1000);
        assert(track_ok(l, 26, zone_1581(26)) && before(l, 27) == 1040);
        assert(track_ok(l, 27, zone_1581(27)) && before(l, 28) == 1080);
        assert(track_ok(l, 28, zone_1581(28)) && before(l, 29) == 1120);
        assert(track_ok(l, 29, zone_1581(29)) && before(l, 30) == 1160);
        assert(track_ok(l, 30, zone_1581(30)) && before(l, 31) == 1200);
        assert(track_ok(l, 31, zone_1581(31)) && before(l, 32) == 1240);
        assert(track_ok(l, 32, zone_1581(32)) && before(l, 33) == 1280);
        assert(track_ok(l, 33, zone_1581(33)) && before(l, 34) == 1320);
        assert(track_ok(l, 34, zone_1581(34)) && before(l, 35) == 1360);
        assert(track_ok(l, 35, zone_1581(35)) && before(l, 36) == 1400);
        assert(track_ok(l, 36, zone_1581(36)) && before(l, 37) == 1440);
        assert(track_ok(l, 37, zone_1581(37)) && before(l, 38) == 1480);
        assert(track_ok(l, 38, zone_1581(38)) && before(l, 39) == 1520);
        assert(track_ok(l, 39, zone_1581(39)) && before(l, 40) == 1560);
        assert(track_ok(l, 40, zone_1581(40)) && before(l, 41) == 1600);
        assert(track_ok(l, 41, zone_1581(41)) && before(l, 42) == 1640);
        assert(track_ok(l, 42, zone_1581(42)) && before(l, 43) == 1680);
        assert(track_ok(l, 43, zone_1581(43)) && before(l, 44) == 1720);
        assert(track_ok(l, 44, zone_1581(44)) && before(l, 45) == 1760);
        assert(track_ok(l, 45, zone_1581(45)) && before(l, 46) == 1800);
        assert(track_ok(l, 46, zone_1581(46)) && before(l, 47) == 1840);
        assert(track_ok(l, 47, zone_1581(47)) && before(l, 48) == 1880);
        assert(track_ok(l, 48, zone_1581(48)) && before(l, 49) == 1920);
        assert(track_ok(l, 49, zone_1581(49)) && before(l, 50) == 1960);
        assert(track_ok(l, 50, zone_1581(50)) && before(l, 51) == 2000);
        assert(track_ok(l, 51, zone_1581(51)) && before(l, 52) == 2040);
        assert(track_ok(l, 52, zone_1581(52)) && before(l, 53) == 2080);
        assert(track_ok(l, 53, zone_1581(53)) && before(l, 54) == 2120);
        assert(track_ok(l, 54, zone_1581(54)) && before(l, 55) == 2160);
        assert(track_ok(l, 55, zone_1581(55)) && before(l, 56) == 2200);
        assert(track_ok(l, 56, zone_1581(56)) && before(l, 57) == 2240);
        assert(track_ok(l, 57, zone_1581(57)) && before(l, 58) == 2280);
        assert(track_ok(l, 58, zone_1581(58)) && before(l, 59) == 2320);
        assert(track_ok(l, 59, zone_1581(59)) && before(l, 60) == 2360);
        assert(track_ok(l, 60, zone_1581(60)) && before(l, 61) == 2400);
        assert(track_ok(l, 61, zone_1581(61)) && before(l, 62) == 2440);
        assert(track_ok(l, 62, zone_1581(62)) && before(l, 63) == 2480);
        assert(track_ok(l, 63, zone_1581(63)) && before(l, 64) == 2520);
        assert(track_ok(l, 64, zone_1581(64)) && before(l, 65) == 2560);
        assert(track_ok(l, 65, zone_1581(65)) && before(l, 66) == 2600);
        assert(track_ok(l, 66, zone_1581(66)) && before(l, 67) == 2640);
        assert(track_ok(l, 67, zone_1581(67)) && before(l, 68) == 2680);
        assert(track_ok(l, 68, zone_1581(68)) && before(l, 69) == 2720);
        assert(track_ok(l, 69, zone_1581(69)) && before(l, 70) == 2760);
        assert(track_ok(l, 70, zone_1581(70)) && before(l, 71) == 2800);
        assert(track_ok(l, 71, zone_1581(71)) && before(l, 72) == 2840);
        assert(track_ok(l, 72, zone_1581(72)) && before(l, 73) == 2880);
        assert(track_ok(l, 73, zone_1581(73)) && before(l, 74) == 2920);
        assert(track_ok(l, 74, zone_1581(74)) && before(l, 75) == 2960);
        assert(track_ok(l, 75, zone_1581(75)) && before(l, 76) == 3000);
        assert(track_ok(l, 76, zone_1581(76)) && before(l, 77) == 3040);
        assert(track_ok(l, 77, zone_1581(77)) && before(l, 78) == 3080);
        assert(track_ok(l, 78, zone_1581(78)) && before(l, 79) == 3120);
        assert(track_ok(l, 79, zone_1581(79)) && before(l, 80) == 3160);
        assert(track_ok(l, 80, zone_1581(80)) && before(l, 81) == 3200);
        assert forall|t: int| 1 <= t <= 80 implies #[trigger] track_ok(l, t, zone_1581(t)) by {
            if t == 1 { }
            else if t == 2 { }
            else if t == 3 { }
            else if t == 4 { }
            else if t == 5 { }
            else if t == 6 { }
            else if t == 7 { }
            else if t == 8 { }
            else if t == 9 { }
            else if t == 10 { }
            else if t == 11 { }
            else if t == 12 { }
            else if t == 13 { }
            else if t == 14 { }
            else if t == 15 { }
            else if t == 16 { }
            else if t == 17 { }
            else if t == 18 { }
            else if t == 19 { }
            else if t == 20 { }
            else if t == 21 { }
            else if t == 22 { }
            else if t == 23 { }
            else if t == 24 { }
            else if t == 25 { }
            else if t == 26 { }
            else if t == 27 { }
            else if t == 28 { }
            else if t == 29 { }
            else if t == 30 { }
            else if t == 31 { }
            else if t == 32 { }
            else if t == 33 { }
            else if t == 34 { }
            else if t == 35 { }
            else if t == 36 { }
            else if t == 37 { }
            else if t == 38 { }
            else if t == 39 { }
            else if t == 40 { }
            else if t == 41 { }
            else if t == 42 { }
            else if t == 43 { }
            else if t == 44 { }
            else if t == 45 { }
            else if t == 46 { }
            else if t == 47 { }
            else if t == 48 { }
            else if t == 49 { }
            else if t == 50 { }
            else if t == 51 { }
            else if t == 52 { }
            else if t == 53 { }
            else if t == 54 { }
            else if t == 55 { }
            else if t == 56 { }
            else if t == 57 { }
            else if t == 58 { }
            else if t == 59 { }
            else if t == 60 { }
            else if t == 61 { }
            else if t == 62 { }
            else if t == 63 { }
            else if t == 64 { }
            else if t == 65 { }
            else if t == 66 { }
            else if t == 67 { }
            else if t == 68 { }
            else if t == 69 { }
            else if t == 70 { }
            else if t == 71 { }
            else if t == 72 { }
            else if t == 73 { }
            else if t == 74 { }
            else if t == 75 { }
            else if t == 76 { }
            else if t == 77 { }
            else if t == 78 { }
            else if t == 79 { }
            else if t == 80 { }
        }
        assert forall|t: int| 1 <= t <= 80 implies #[trigger] l[t].sectors == zone_1581(t) && 1 <= l[t].sectors <= 40 && l[t].byte_offset == 256 * before(l, t) by { assert(track_ok(l, t, zone_1581(t))); }
    }
//@endfn
//@props P03
//@static src/disk/d81.rs BAM_FORMAT
//@spec
    ensures wf_bamformat(&BAM_FORMAT), d81_bam(&BAM_FORMAT), sum_tracks(BAM_FORMAT.sections@, BAM_FORMAT.sections@.len() as int) == 80
//@start
    proof { let f = &r_; assert(d81_bam(f)); lemma_bam_d81(f); }
//@endfn
//@props P20
//@static src/disk/d81.rs HEADER_FORMAT
//@spec
    ensures d81_header(&HEADER_FORMAT)
//@start
    proof { assert(r_.padding_offsets@ =~= seq![0x14u8, 0x15, 0x18, 0x1B, 0x1C]); }
//@endfn
//@props P04 P05 P14
//@static src/disk/d81.rs DISK_FORMAT
//@spec
    ensures wf_format(&DISK_FORMAT), wf_bamformat(DISK_FORMAT.bam), d81_format(&DISK_FORMAT)
//@endfn
//@props P01 P21
//@static src/disk/d81.rs GEOMETRY
//@spec
    ensures geometry_is(&GEOMETRY, 80, false, 819200), zones(GEOMETRY.track_layouts@, 80, |t: int| zone_1581(t))
//@endfn
//@props P01 P21
//@static src/disk/d81.rs GEOMETRY_ERRORS
//@spec
    ensures geometry_is(&GEOMETRY_ERRORS, 80, true, 822400), zones(GEOMETRY_ERRORS.track_layouts@, 80, |t: int| zone_1581(t))
//@endfn
} // mod d81

//@props P03
pub proof fn lemma_bam_d64(f: &BamFormat)
    requires d64_bam(f)
    ensures wf_bamformat(f), sum_tracks(f.sections@, f.sections@.len() as int) == 35
{
    reveal_with_fuel(sum_tracks, 3);
}
pub proof fn lemma_bam_d71(f: &BamFormat)
    requires d71_bam(f)
    ensures wf_bamformat(f), sum_tracks(f.sections@, f.sections@.len() as int) == 70
{
    reveal_with_fuel(sum_tracks, 4);
}
pub proof fn lemma_bam_d81(f: &BamFormat)
    requires d81_bam(f)
    ensures wf_bamformat(f), sum_tracks(f.sections@, f.sections@.len() as int) == 80
{
    reveal_with_fuel(sum_tracks, 4);
}
} // mod tables
pub use tables::*;
