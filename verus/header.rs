pub mod header {
use super::*;
//@item src/disk/mod.rs const DISK_NAME_SIZE
//@item src/disk/mod.rs struct Id
//@item src/disk/header.rs struct Header
//@item src/disk/geos/mod.rs static GEOS_SIGNATURE /\bstatic GEOS_SIGNATURE: &\[u8\] = &(.*);/ => const GEOS_SIGNATURE: [u8; 11] = \1;
//@item src/disk/geos/mod.rs const GEOS_SIGNATURE_OFFSET
//@item src/disk/geos/mod.rs const GEOS_ID_OFFSET
//@item src/disk/geos/mod.rs const GEOS_ID_SIZE
//@item src/disk/geos/mod.rs const GEOS_BORDER_OFFSET
//@item src/disk/geos/mod.rs struct GEOSDiskHeader

/// "GEOS format"
pub open spec fn signature() -> Seq<u8> { seq![0x47u8, 0x45, 0x4F, 0x53, 0x20, 0x66, 0x6F, 0x72, 0x6D, 0x61, 0x74] }
pub open spec fn geos_of(g: Option<GEOSDiskHeader>, b: Seq<u8>) -> bool {
    if b.subrange(0xAD, 0xB8) == signature() {
        g.is_some() && g->Some_0.border == Location(b[0xAB], b[0xAC]) && g->Some_0.id.data@ == b.subrange(0xAD, 0xBD)
    } else { g.is_none() }
}
/// byte x of the sector belongs to the field of the header at o, n bytes long
pub open spec fn at(o: int, n: int, x: int) -> bool { o <= x < o + n }
/// field number i of a header (2 bytes link, type, 16 bytes name, 2 bytes id, version, format)
pub open spec fn field_no(f: &HeaderFormat, x: int) -> int {
    if at(f.first_directory_offset as int, 2, x) { 0 } else if at(f.disk_format_type_offset as int, 1, x) { 1 } else if at(f.disk_name_offset as int, 16, x) { 2 }
    else if at(f.disk_id_offset as int, 2, x) { 3 } else if at(f.directory_dos_version_offset as int, 1, x) { 4 } else if at(f.directory_format_type_offset as int, 1, x) { 5 } else { 6 }
}
pub open spec fn is_flag(f: &HeaderFormat, x: int) -> bool { f.double_sided_flag_expectation.is_some() && (f.double_sided_flag_expectation->Some_0).0 == x }
pub open spec fn is_pad(f: &HeaderFormat, x: int) -> bool { exists|k: int| 0 <= k < f.padding_offsets@.len() && #[trigger] f.padding_offsets@[k] == x }
/// the fields lie in the sector, do not overlap, and leave the GEOS data alone
pub open spec fn wf_header_format(f: &HeaderFormat) -> bool {
    let (a, b, c, d, e, g) = (f.first_directory_offset as int, f.disk_format_type_offset as int, f.disk_name_offset as int, f.disk_id_offset as int,
        f.directory_dos_version_offset as int, f.directory_format_type_offset as int);
    &&& 0 <= a && a + 2 <= b && b < c && c + 16 <= d && d + 2 <= e && e < g && g < 0xAB
    &&& forall|k: int| 0 <= k < f.padding_offsets@.len() ==> #[trigger] f.padding_offsets@[k] < 0xAB && field_no(f, f.padding_offsets@[k] as int) == 6 && !is_flag(f, f.padding_offsets@[k] as int)
    &&& f.double_sided_flag_expectation.is_some() ==> (f.double_sided_flag_expectation->Some_0).0 < 0xAB && field_no(f, (f.double_sided_flag_expectation->Some_0).0 as int) == 6
}
/// the sector b holds the header h
pub open spec fn header_of(f: &HeaderFormat, h: &Header, b: Seq<u8>) -> bool {
    let a = f.first_directory_offset as int;
    &&& h.first_directory_sector == Location(b[a], b[a + 1])
    &&& h.disk_format_type == b[f.disk_format_type_offset as int]
    &&& h.disk_id.0@ == b.subrange(f.disk_id_offset as int, f.disk_id_offset + 2)
    &&& h.directory_dos_version == b[f.directory_dos_version_offset as int] && h.directory_format_type == b[f.directory_format_type_offset as int]
}
pub open spec fn name_field(f: &HeaderFormat, b: Seq<u8>) -> Seq<u8> { b.subrange(f.disk_name_offset as int, f.disk_name_offset + 16) }
pub open spec fn flag_ok(f: &HeaderFormat, b: Seq<u8>) -> bool {
    f.double_sided_flag_expectation.is_some() ==> b[(f.double_sided_flag_expectation->Some_0).0 as int] == (f.double_sided_flag_expectation->Some_0).1
}
/// b1 is b0 with the header h stored in it
pub open spec fn header_stored(f: &HeaderFormat, h: &Header, b0: Seq<u8>, b1: Seq<u8>) -> bool {
    &&& b1.len() == 256 && header_of(f, h, b1) && padded(name_field(f, b1), h.disk_name@, 0xA0) && flag_ok(f, b1)
    &&& forall|x: int| 0 <= x < 256 && is_pad(f, x) ==> #[trigger] b1[x] == 0xA0
    &&& forall|x: int| 0 <= x < 256 && field_no(f, x) == 6 && !is_flag(f, x) && !is_pad(f, x) ==> #[trigger] b1[x] == b0[x]
}
//@props P20
/// the formats of the three drives are well formed
pub proof fn lemma_formats(f: &HeaderFormat)
    requires d64_header(f) || d71_header(f) || d81_header(f)
    ensures wf_header_format(f)
{
    let p = f.padding_offsets@;
    if d81_header(f) { assert(p[0] == 0x14 && p[1] == 0x15 && p[2] == 0x18 && p[3] == 0x1B && p[4] == 0x1C && p.len() == 5); }
    else { assert(p[0] == 0xA0 && p[1] == 0xA1 && p[2] == 0xA4 && p[3] == 0xA7 && p[4] == 0xA8 && p[5] == 0xA9 && p[6] == 0xAA && p.len() == 7); }
}
/// P20: writing back the header that was read changes the fixed bytes only, and reading it again gives the same header
pub proof fn lemma_header_rewrite(f: &HeaderFormat, h: &Header, b0: Seq<u8>, b1: Seq<u8>, h1: &Header)
    requires
        wf_header_format(f), b0.len() == 256, header_of(f, h, b0), h.disk_name@ == name_field(f, b0), geos_of(h.geos, b0), header_stored(f, h, b0, b1),
        header_of(f, h1, b1), h1.disk_name@ == name_field(f, b1), geos_of(h1.geos, b1),
    ensures
        forall|x: int| 0 <= x < 256 && !is_flag(f, x) && !is_pad(f, x) ==> #[trigger] b1[x] == b0[x],
        h1.first_directory_sector == h.first_directory_sector, h1.disk_format_type == h.disk_format_type, h1.disk_name@ == h.disk_name@, h1.disk_id.0@ == h.disk_id.0@,
        h1.directory_dos_version == h.directory_dos_version, h1.directory_format_type == h.directory_format_type, h1.geos.is_some() == h.geos.is_some(),
        h.geos.is_some() ==> h1.geos->Some_0.border == h.geos->Some_0.border && h1.geos->Some_0.id.data@ == h.geos->Some_0.id.data@,
{
    assert(name_field(f, b1).take(16) =~= name_field(f, b1));
    assert forall|x: int| 0 <= x < 256 && !is_flag(f, x) && !is_pad(f, x) implies #[trigger] b1[x] == b0[x] by {
        let n = f.disk_name_offset as int;
        let d = f.disk_id_offset as int;
        if field_no(f, x) == 2 { assert(name_field(f, b1)[x - n] == name_field(f, b0)[x - n]); }
        else if field_no(f, x) == 3 { assert(b1.subrange(d, d + 2)[x - d] == b0.subrange(d, d + 2)[x - d]); }
    }
    assert forall|x: int| 0xAB <= x < 256 implies #[trigger] b1[x] == b0[x] by { }
    assert(b1.subrange(0xAD, 0xB8) =~= b0.subrange(0xAD, 0xB8));
    assert(b1.subrange(0xAD, 0xBD) =~= b0.subrange(0xAD, 0xBD));
}

impl Id {
//@fn src/disk/mod.rs From<&[u8]> for Id::from
//@ret r
//@sig /fn from\(/ => fn from_slice_(
//@spec
    ensures
        r.0@[0] == (if bytes@.len() > 0 { bytes@[0] } else { 0 }), r.0@[1] == (if bytes@.len() > 1 { bytes@[1] } else { 0 }),
//@endfn
//@fn src/disk/mod.rs Id::from_bytes
//@ret r
//@sub /bytes\.into\(\)/ => Id::from_slice_(bytes)
//@spec
    ensures
        r.0@[0] == (if bytes@.len() > 0 { bytes@[0] } else { 0 }), r.0@[1] == (if bytes@.len() > 1 { bytes@[1] } else { 0 }),
//@endfn
//@fn src/disk/mod.rs Index<usize> for Id::index
//@ret r
//@sig /fn index\(/ => fn index_(
//@spec
    requires i < 2
    ensures *r == self.0@[i as int]
//@endfn
}
impl GEOSDiskHeader {
//@fn src/disk/geos/mod.rs GEOSDiskHeader::new
//@ret r
//@sub? /&block\[([^\]]*)\]\s*== GEOS_SIGNATURE\b/ => slice_eq(&block[\1], &GEOS_SIGNATURE)
//@spec
    requires block@.len() == 256
    ensures geos_of(r, block@)
//@start
    proof { assert(GEOS_SIGNATURE@ =~= signature()); }
//@endfn
}
/// comparison of byte slices with ==
#[verifier::external_body]
pub fn slice_eq(a: &[u8], b: &[u8]) -> (r: bool)
    ensures r == (a@ == b@)
{ a == b }

impl Header {
//@props P14 P20
//@fn src/disk/header.rs Header::new
//@ret r
//@spec
    ensures
        r.first_directory_sector == Location(disk_format.directory_track, disk_format.first_directory_sector), r.disk_name@ == name@, r.disk_id == *id, r.geos.is_none(),
        r.disk_format_type == header_format.default_disk_format_type, r.directory_format_type == header_format.default_directory_format_type,
        r.directory_dos_version == header_format.default_directory_dos_version,
//@endfn
//@props P12 P20
//@fn src/disk/header.rs Header::read
//@ret r
//@sig /blocks: BlockDeviceRef/ => hb: &ImageBlockDevice, blocks: BlockDeviceRef
//@sub /blocks\.borrow\(\)/ => (&*hb)
//@sub? /disk::DISK_NAME_SIZE/ => DISK_NAME_SIZE
//@spec
    requires hb.wf(), wf_header_format(format), hb.valid(format.location)
    ensures
        r.is_ok() <==> flag_ok(format, hb.sec(format.location)), r.is_err() ==> r->Err_0.e == DiskError::InvalidHeader,
        r.is_ok() ==> header_of(format, &r->Ok_0, hb.sec(format.location)) && r->Ok_0.disk_name@ == name_field(format, hb.sec(format.location)) && geos_of(r->Ok_0.geos, hb.sec(format.location)),
//@sub? /(disk_id: )(Id::from_bytes\([^()]*\)),/ => \1({ let i_ = \2; assert(i_.0@ =~= block@.subrange(format.disk_id_offset as int, format.disk_id_offset + 2)); i_ }),
//@endfn
//@props P13 P14 P20
//@fn src/disk/header.rs Header::write
//@ret r
//@sig /blocks: BlockDeviceRef/ => hb: &mut ImageBlockDevice, blocks: BlockDeviceRef
//@sub /blocks\s*\.borrow\(\)/ => (&*hb)
//@sub /blocks\s*\.borrow_mut\(\)/ => (&mut *hb)
//@sub? /\bdisk::(DISK_NAME_SIZE|PADDING_BYTE)/ => \1
//@sub? /let mut block = (.*?\?)\.to_vec\(\);/ => let mut block = ({ let s_ = \1; let v_ = s_.to_vec(); assert(v_@ =~= s_@); v_ });
//@sub? /&mut block\s*\[/ => &mut block.as_mut_slice()[
//@sub? /self\.disk_id\[(\d)\]/ => *self.disk_id.index_(\1)
//@sub? /\.map_err\(\|_\| \{\s*let e: io::Error = (\w+::\w+)\.into\(\);\s*e\s*\}\)/ => .map_err(|_e: PetsciiError| -> (o_: io::Error) ensures o_.e == \1 { let e: io::Error = \1.into(); e })
//@spec
    requires old(hb).wf(), wf_header_format(format), old(hb).valid(format.location)
    ensures
        r.is_ok() <==> old(self).disk_name@.len() <= 16 && old(hb).writable(),
        r.is_err() ==> *final(hb) == *old(hb) && r->Err_0.e == (if old(self).disk_name@.len() > 16 { DiskError::FilenameTooLong } else { DiskError::ReadOnly }),
        r.is_ok() ==> exists|b: Seq<u8>| #[trigger] header_stored(format, old(self), old(hb).sec(format.location), b) && sector_replaced(old(hb), final(hb), format.location, b),
        *final(self) == *old(self),
//@start
    let ghost s0 = hb.sec(format.location);
    let ghost mut b2: Seq<u8> = Seq::empty();
//@after /write_bytes_with_padding/
    proof { b2 = block@; assert(padded(name_field(format, b2), old(self).disk_name@, 0xA0)) by { assert(name_field(format, b2) =~= b2.subrange(format.disk_name_offset as int, format.disk_name_offset + 16)); } }
//@beforeloop 1
    let ghost b3 = block@;
    proof {
        assert forall|x: int| 0 <= x < 256 && field_no(format, x) == 6 && !is_flag(format, x) implies #[trigger] b3[x] == s0[x] by { }
    }
//@loop 1 it
    invariant
        block@.len() == 256, b3.len() == 256, wf_header_format(format), it.seq().len() == format.padding_offsets@.len(), forall|k: int| 0 <= k < it.seq().len() ==> *#[trigger] it.seq()[k] == format.padding_offsets@[k],
        forall|k: int| 0 <= k < it.index@ ==> block@[#[trigger] format.padding_offsets@[k] as int] == 0xA0,
        forall|x: int| 0 <= x < 256 && !is_pad(format, x) ==> #[trigger] block@[x] == b3[x],
//@loopstart 1
    proof { assert(*it.seq()[it.index@] == format.padding_offsets@[it.index@]); assert(is_pad(format, *padding_offset as int)); }
//@afterloop 1
    proof {
        let b = block@;
        let f = format;
        assert forall|x: int| 0 <= x < 256 && field_no(f, x) != 6 implies !is_pad(f, x) by { }
        assert forall|x: int| 0 <= x < 256 && is_flag(f, x) implies !is_pad(f, x) by { }
        assert forall|x: int| 0 <= x < 256 && field_no(f, x) == 2 implies #[trigger] b3[x] == b2[x] by { }
        assert(name_field(f, b) =~= name_field(f, b2)) by {
            assert forall|j: int| 0 <= j < 16 implies #[trigger] name_field(f, b)[j] == name_field(f, b2)[j] by {
                let x = f.disk_name_offset + j;
                assert(field_no(f, x) == 2);
                assert(b[x] == b3[x]);
            }
        }
        let a = f.first_directory_offset as int;
        let d = f.disk_id_offset as int;
        assert(field_no(f, a) == 0 && field_no(f, a + 1) == 0 && field_no(f, d) == 3 && field_no(f, d + 1) == 3);
        assert(b[d] == b3[d] && b[d + 1] == b3[d + 1] && b[a] == b3[a] && b[a + 1] == b3[a + 1]);
        assert(field_no(f, f.disk_format_type_offset as int) == 1 && field_no(f, f.directory_dos_version_offset as int) == 4 && field_no(f, f.directory_format_type_offset as int) == 5);
        assert(b[f.disk_format_type_offset as int] == b3[f.disk_format_type_offset as int]);
        assert(b[f.directory_dos_version_offset as int] == b3[f.directory_dos_version_offset as int]);
        assert(b[f.directory_format_type_offset as int] == b3[f.directory_format_type_offset as int]);
        assert(old(self).disk_id.0@ =~= b.subrange(d, d + 2));
        assert(header_of(f, old(self), b));
        if f.double_sided_flag_expectation.is_some() { let x = (f.double_sided_flag_expectation->Some_0).0 as int; assert(is_flag(f, x)); assert(b[x] == b3[x]); }
        assert(header_stored(f, old(self), s0, b));
    }
//@endfn
}
} // mod header
pub use header::*;
