"""Writes verus/tables.rs: contracts of the static tables (the step-by-step proof text is repetitive)."""
import os
HERE = os.path.dirname(os.path.abspath(__file__))
out = []
w = out.append

def tracks(path, n, zone, ns):
    w('//@props P01 P12 P21')
    w('//@static %s TRACKS' % path)
    w('//@spec')
    w('    ensures TRACKS@.len() == %d, %s,' % (n + 1, ', '.join('wf_layout(TRACKS@, %d)' % k for k in ns)))
    w('        forall|t: int| 1 <= t <= %d ==> #[trigger] TRACKS@[t].sectors == %s(t),' % (n, zone))
    for k in ns:
        w('        before(TRACKS@, %d) == %d,' % (k + 1, total(zone, k)))
    w('        TRACKS@[0].sectors == 0,')
    w('//@start')
    w('    proof {')
    w('        let l = r_@;')
    w('        assert(before(l, 1) == 0);')
    for t in range(1, n + 1):
        w('        assert(track_ok(l, %d, %s(%d))); assert(tracks_ok(l, %d, |t: int| %s(t)) || true);' % (t, zone, t, t, zone) if 0 else
          '        assert(track_ok(l, %d, %s(%d)) && before(l, %d) == %d);' % (t, zone, t, t + 1, total(zone, t)))
    w('        assert forall|t: int| 1 <= t <= %d implies #[trigger] track_ok(l, t, %s(t)) by {' % (n, zone))
    for t in range(1, n + 1):
        w('            %sif t == %d { }' % ('' if t == 1 else 'else ', t))
    w('        }')
    w('        assert forall|t: int| 1 <= t <= %d implies #[trigger] l[t].sectors == %s(t) && 1 <= l[t].sectors <= 40 && l[t].byte_offset == 256 * before(l, t) by { assert(track_ok(l, t, %s(t))); }' % (n, zone, zone))
    w('    }')
    w('//@endfn')

def z64(t): return 21 if t <= 17 else 19 if t <= 24 else 18 if t <= 30 else 17
Z = {'zone_1541': z64, 'zone_1571': lambda t: z64(t) if t <= 35 else z64(t - 35), 'zone_1581': lambda t: 40}
def total(z, k): return sum(Z[z](t) for t in range(1, k + 1))

w('''pub mod tables {
use super::*;
/// sectors on track t, as documented for the drives
pub open spec fn zone_1541(t: int) -> int { if t <= 17 { 21 } else if t <= 24 { 19 } else if t <= 30 { 18 } else { 17 } }
pub open spec fn zone_1571(t: int) -> int { if t <= 35 { zone_1541(t) } else { zone_1541(t - 35) } }
pub open spec fn zone_1581(t: int) -> int { 40 }
pub open spec fn track_ok(l: Seq<Track>, t: int, z: int) -> bool {
    l[t].sectors == z && l[t].byte_offset == 256 * before(l, t)
}
pub open spec fn zones(l: Seq<Track>, n: int, z: spec_fn(int) -> int) -> bool {
    forall|t: int| 1 <= t <= n ==> #[trigger] l[t].sectors == z(t)
}
pub open spec fn d64_format(f: &DiskFormat) -> bool {
    &&& f.directory_track == 18 && f.first_directory_sector == 1 && f.reserved_track == 0 && f.first_track == 1
    &&& f.last_track == 35 && f.last_nonstandard_track == 40 && f.interleave == 10 && f.directory_interleave == 3 && !f.geos
    &&& f.tracks@.len() == 41 && zones(f.tracks@, 40, |t: int| zone_1541(t)) && d64_bam(f.bam) && d64_header(f.header)
}
pub open spec fn d71_format(f: &DiskFormat) -> bool {
    &&& f.directory_track == 18 && f.first_directory_sector == 1 && f.reserved_track == 53 && f.first_track == 1
    &&& f.last_track == 70 && f.last_nonstandard_track == 70 && f.interleave == 6 && f.directory_interleave == 3 && !f.geos
    &&& f.tracks@.len() == 71 && zones(f.tracks@, 70, |t: int| zone_1571(t)) && d71_bam(f.bam) && d71_header(f.header)
}
pub open spec fn d81_format(f: &DiskFormat) -> bool {
    &&& f.directory_track == 40 && f.first_directory_sector == 3 && f.reserved_track == 0 && f.first_track == 1
    &&& f.last_track == 80 && f.last_nonstandard_track == 80 && f.interleave == 1 && f.directory_interleave == 1 && !f.geos
    &&& f.tracks@.len() == 81 && zones(f.tracks@, 80, |t: int| zone_1581(t)) && d81_bam(f.bam) && d81_header(f.header)
}
pub open spec fn section_is(s: &BamSection, bl: Location, bo: int, bsz: int, bst: int, fl: Location, fo: int, fst: int, n: int) -> bool {
    s.bitmap_location == bl && s.bitmap_offset == bo && s.bitmap_size == bsz && s.bitmap_stride == bst
    && s.free_location == fl && s.free_offset == fo && s.free_stride == fst && s.tracks == n
}
pub open spec fn d64_bam(b: &BamFormat) -> bool {
    b.sections@.len() == 1 && section_is(&b.sections@[0], Location(18, 0), 5, 3, 4, Location(18, 0), 4, 4, 35)
}
pub open spec fn d71_bam(b: &BamFormat) -> bool {
    &&& b.sections@.len() == 2 && section_is(&b.sections@[0], Location(18, 0), 5, 3, 4, Location(18, 0), 4, 4, 35)
    &&& section_is(&b.sections@[1], Location(53, 0), 0, 3, 3, Location(18, 0), 0xDD, 1, 35)
}
pub open spec fn d81_bam(b: &BamFormat) -> bool {
    &&& b.sections@.len() == 2 && section_is(&b.sections@[0], Location(40, 1), 0x11, 5, 6, Location(40, 1), 0x10, 6, 40)
    &&& section_is(&b.sections@[1], Location(40, 2), 0x11, 5, 6, Location(40, 2), 0x10, 6, 40)
}
/// documented layout of the header sector
pub open spec fn header_is(h: &HeaderFormat, loc: Location, name: int, id: int, dos: int, c: u8, d: u8) -> bool {
    &&& h.location == loc && h.first_directory_offset == 0 && h.disk_format_type_offset == 2
    &&& h.disk_name_offset == name && h.disk_id_offset == id && h.directory_dos_version_offset == dos
    &&& h.directory_format_type_offset == dos + 1
    &&& h.default_disk_format_type == c && h.default_directory_dos_version == d && h.default_directory_format_type == c
}
pub open spec fn d64_header(h: &HeaderFormat) -> bool {
    &&& header_is(h, Location(18, 0), 0x90, 0xA2, 0xA5, 0x41, 0x32) && h.double_sided_flag_expectation.is_none()
    &&& h.padding_offsets@ == seq![0xA0u8, 0xA1, 0xA4, 0xA7, 0xA8, 0xA9, 0xAA]
}
pub open spec fn d71_header(h: &HeaderFormat) -> bool {
    &&& header_is(h, Location(18, 0), 0x90, 0xA2, 0xA5, 0x41, 0x32) && h.double_sided_flag_expectation == Some((3usize, 0x80u8))
    &&& h.padding_offsets@ == seq![0xA0u8, 0xA1, 0xA4, 0xA7, 0xA8, 0xA9, 0xAA]
}
pub open spec fn d81_header(h: &HeaderFormat) -> bool {
    &&& header_is(h, Location(40, 0), 0x04, 0x16, 0x19, 0x44, 0x33) && h.double_sided_flag_expectation.is_none()
    &&& h.padding_offsets@ == seq![0x14u8, 0x15, 0x18, 0x1B, 0x1C]
}
pub open spec fn geometry_is(g: &Geometry, n: int, errors: bool, size: int) -> bool {
    &&& g.tracks == n && g.with_error_table == errors && wf_geometry(g)
    &&& geometry_size(g) == size
}
''')
for m, path, n, zone, ns in (('d64', 'src/disk/d64.rs', 40, 'zone_1541', [35, 40]), ('d71', 'src/disk/d71.rs', 70, 'zone_1571', [70]), ('d81', 'src/disk/d81.rs', 80, 'zone_1581', [80])):
    w('pub mod %s {\nuse super::*;' % m)
    if m != 'd64':
        w('//@item %s const TRACK_COUNT' % path)
    if m == 'd71':
        w('//@item %s const HEADER_DOUBLE_SIDED_FLAG_OFFSET' % path)
        w('//@item %s const HEADER_DOUBLE_SIDED_VALUE' % path)
    tracks(path, n, zone, ns)
    w('''//@props P03
//@static %s BAM_FORMAT
//@spec
    ensures wf_bamformat(&BAM_FORMAT), %s_bam(&BAM_FORMAT), sum_tracks(BAM_FORMAT.sections@, BAM_FORMAT.sections@.len() as int) == %d
//@start
    proof { let f = &r_; assert(%s_bam(f)); lemma_bam_%s(f); }
//@endfn
//@props P20
//@static %s HEADER_FORMAT
//@spec
    ensures %s_header(&HEADER_FORMAT)
//@start
    proof { assert(r_.padding_offsets@ =~= seq![%s]); }
//@endfn
//@props P04 P05 P14
//@static %s DISK_FORMAT
//@spec
    ensures wf_format(&DISK_FORMAT), wf_bamformat(DISK_FORMAT.bam), %s_format(&DISK_FORMAT)
//@endfn''' % (path, m, 35 if m == 'd64' else n, m, m, path, m, '0x14u8, 0x15, 0x18, 0x1B, 0x1C' if m == 'd81' else '0xA0u8, 0xA1, 0xA4, 0xA7, 0xA8, 0xA9, 0xAA', path, m))
    for g in ([('GEOMETRY_35', 35, 0), ('GEOMETRY_35_ERRORS', 35, 1), ('GEOMETRY_40', 40, 0), ('GEOMETRY_40_ERRORS', 40, 1)] if m == 'd64' else [('GEOMETRY', n, 0), ('GEOMETRY_ERRORS', n, 1)]):
        w('''//@props P01 P21
//@static %s %s
//@spec
    ensures geometry_is(&%s, %d, %s, %d), zones(%s.track_layouts@, %d, |t: int| %s(t))
//@endfn''' % (path, g[0], g[0], g[1], 'true' if g[2] else 'false', total(zone, g[1]) * (257 if g[2] else 256), g[0], g[1], zone))
    w('} // mod %s' % m)
w('''
//@props P03
pub proof fn lemma_bam_d64(f: &BamFormat)
    requires d64_bam(f)
    ensures wf_bamformat(f), sum_tracks(f.sections@, f.sections@.len() as int) == 35
{
    reveal_with_fuel(sum_tracks, 3);
}
pub proof fn lemma_bam_d71(f: &BamFormat)
    requires d71_bam(f)
    ensures wf_bamformat(f), sum_tracks(f.sections@, f.sections@.len() as int) == 70
{
    reveal_with_fuel(sum_tracks, 4);
}
pub proof fn lemma_bam_d81(f: &BamFormat)
    requires d81_bam(f)
    ensures wf_bamformat(f), sum_tracks(f.sections@, f.sections@.len() as int) == 80
{
    reveal_with_fuel(sum_tracks, 4);
}
} // mod tables
pub use tables::*;''')
open(os.path.join(HERE, '..', 'verus', 'tables.rs'), 'w').write('\n'.join(out) + '\n')
