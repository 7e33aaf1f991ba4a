pub mod dirent {
use super::*;
//@item src/disk/mod.rs const PADDING_BYTE
//@item src/disk/directory.rs const FILE_TYPE_DEL
//@item src/disk/directory.rs const FILE_TYPE_SEQ
//@item src/disk/directory.rs const FILE_TYPE_PRG
//@item src/disk/directory.rs const FILE_TYPE_USR
//@item src/disk/directory.rs const FILE_TYPE_REL
//@item src/disk/directory.rs const FILE_ATTRIB_FILE_TYPE_MASK
//@item src/disk/directory.rs const FILE_ATTRIB_UNUSED_MASK
//@item src/disk/directory.rs const FILE_ATTRIB_SAVE_WITH_REPLACE_MASK
//@item src/disk/directory.rs const FILE_ATTRIB_LOCKED_MASK
//@item src/disk/directory.rs const FILE_ATTRIB_CLOSED_MASK
//@item src/disk/directory.rs const ENTRY_SIZE
//@item src/disk/directory.rs const ENTRY_FILE_ATTRIBUTE_OFFSET
//@item src/disk/directory.rs const ENTRY_FIRST_SECTOR_OFFSET
//@item src/disk/directory.rs const ENTRY_FILENAME_OFFSET
//@item src/disk/directory.rs const ENTRY_FILENAME_LENGTH
//@item src/disk/directory.rs const ENTRY_EXTRA_OFFSET
//@item src/disk/directory.rs const EXTRA_SIZE
//@item src/disk/directory.rs const ENTRY_FILE_SIZE_OFFSET
//@item src/disk/directory.rs enum FileType
//@item src/disk/directory.rs struct FileAttributes /#\[derive\(.*?\)\]/ => #[derive(Clone, Copy)]
//@item src/disk/directory.rs enum Extra /#\[derive\(.*?\)\]/ =>
//@item src/disk/directory.rs struct LinearExtra /#\[derive\(.*?\)\]/ =>
//@item src/disk/directory.rs struct RelativeExtra /#\[derive\(.*?\)\]/ =>
//@item src/disk/directory.rs struct GEOSExtra /#\[derive\(.*?\)\]/ =>
//@item src/disk/directory.rs struct DirectoryEntry /#\[derive\(.*?\)\]/ =>
//@item src/disk/file.rs enum Scheme
//@item src/disk/geos/mod.rs enum GEOSFileStructure
//@item src/disk/geos/mod.rs enum GEOSFileType

impl vstd::std_specs::cmp::PartialEqSpecImpl for FileType {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &FileType) -> bool { *self == *o }
}

// ---------------------------------------------------------------- the documented layout

pub open spec fn type_of(b: u8) -> FileType {
    let t = b & 0x0F;
    if t == 0 { FileType::DEL } else if t == 1 { FileType::SEQ } else if t == 2 { FileType::PRG } else if t == 3 { FileType::USR }
    else if t == 4 { FileType::REL } else { FileType::Unknown(t) }
}
pub open spec fn type_byte(t: FileType) -> u8 {
    match t { FileType::DEL => 0, FileType::SEQ => 1, FileType::PRG => 2, FileType::USR => 3, FileType::REL => 4, FileType::Unknown(b) => b }
}
pub open spec fn attrs_of(b: u8) -> FileAttributes {
    FileAttributes {
        file_type: type_of(b), unused_bit: b & 0x10 != 0, save_with_replace_flag: b & 0x20 != 0,
        locked_flag: b & 0x40 != 0, closed_flag: b & 0x80 != 0,
    }
}
pub open spec fn bit(c: bool, m: u8) -> u8 { if c { m } else { 0 } }
pub open spec fn attr_byte(a: FileAttributes) -> u8 {
    type_byte(a.file_type) | bit(a.unused_bit, 0x10) | bit(a.save_with_replace_flag, 0x20) | bit(a.locked_flag, 0x40) | bit(a.closed_flag, 0x80)
}
pub open spec fn geos_entry(b: Seq<u8>) -> bool { (b[2] & 7) < 4 && (b[0x17] != 0 || b[0x18] != 0) && b[0x17] <= 1 }
pub open spec fn scheme_of(b: Seq<u8>) -> Scheme {
    if type_of(b[2]) == FileType::REL { Scheme::Relative }
    else if geos_entry(b) { if b[0x17] == 1 { Scheme::GEOSVLIR } else { Scheme::GEOSSequential } }
    else { Scheme::Linear }
}
pub open spec fn structure_byte(s: GEOSFileStructure) -> u8 {
    match s { GEOSFileStructure::Sequential => 0, GEOSFileStructure::VLIR => 1, GEOSFileStructure::Undefined(b) => b }
}
pub open spec fn structure_of(b: u8) -> GEOSFileStructure {
    if b == 0 { GEOSFileStructure::Sequential } else if b == 1 { GEOSFileStructure::VLIR } else { GEOSFileStructure::Undefined(b) }
}
pub open spec fn geos_type_byte(s: GEOSFileType) -> u8 {
    match s {
        GEOSFileType::NonGEOS => 0, GEOSFileType::BASIC => 1, GEOSFileType::Assembler => 2, GEOSFileType::DataFile => 3,
        GEOSFileType::SystemFile => 4, GEOSFileType::DeskAccessory => 5, GEOSFileType::Application => 6, GEOSFileType::ApplicationData => 7,
        GEOSFileType::FontFile => 8, GEOSFileType::PrinterDriver => 9, GEOSFileType::InputDriver => 10, GEOSFileType::DiskDriver => 11,
        GEOSFileType::SystemBootFile => 12, GEOSFileType::Temporary => 13, GEOSFileType::AutoExecuteFile => 14, GEOSFileType::Undefined(b) => b,
    }
}
/// documented GEOS file type of a byte: codes 0..14 have names, the others are kept
pub open spec fn geos_type_ok(t: GEOSFileType, b: u8) -> bool { geos_type_byte(t) == b && (b <= 14 ==> !(t is Undefined)) }

/// the nine extra bytes x are those of e
pub open spec fn extra_of(e: &Extra, s: Scheme, x: Seq<u8>) -> bool {
    match s {
        Scheme::Linear => e is Linear && e->Linear_0.unused@ == x,
        Scheme::Relative => e is Relative && e->Relative_0.first_side_sector == Location(x[0], x[1]) && e->Relative_0.record_length == x[2]
            && e->Relative_0.unused@ == x.subrange(3, 9),
        _ => e is GEOS && geos_extra_of(&e->GEOS_0, x),
    }
}
pub open spec fn geos_extra_of(g: &GEOSExtra, x: Seq<u8>) -> bool {
    &&& g.info_block == Location(x[0], x[1]) && g.structure == structure_of(x[2]) && geos_type_ok(g.geos_file_type, x[3])
    &&& g.year == x[4] && g.month == x[5] && g.day == x[6] && g.hour == x[7] && g.minute == x[8]
}
/// e is what the 32 bytes b mean
pub open spec fn decodes(e: &DirectoryEntry, b: Seq<u8>) -> bool {
    &&& b.len() == 32
    &&& e.file_attributes == attrs_of(b[2])
    &&& e.first_sector == Location(b[3], b[4])
    &&& e.filename@ == strip(b.subrange(5, 21), 0xA0)
    &&& e.scheme == scheme_of(b) && extra_of(&e.extra, e.scheme, b.subrange(21, 30))
    &&& e.file_size == b[30] + 256 * b[31]
}

pub open spec fn wf_extra(e: &Extra) -> bool {
    match e { Extra::Linear(l) => l.unused@.len() == 9, Extra::Relative(r) => r.unused@.len() == 6, Extra::GEOS(_) => true }
}
/// the nine bytes an Extra is stored as
pub open spec fn extra_bytes(e: &Extra) -> Seq<u8> {
    match e {
        Extra::Linear(l) => l.unused@,
        Extra::Relative(r) => seq![r.first_side_sector.0, r.first_side_sector.1, r.record_length] + r.unused@,
        Extra::GEOS(g) => seq![g.info_block.0, g.info_block.1, structure_byte(g.structure), geos_type_byte(g.geos_file_type),
            g.year, g.month, g.day, g.hour, g.minute],
    }
}
pub open spec fn wf_entry(e: &DirectoryEntry) -> bool { e.filename@.len() <= 16 && wf_extra(&e.extra) }
/// b holds the encoding of e (its first two bytes are not part of it)
pub open spec fn encodes(e: &DirectoryEntry, b: Seq<u8>) -> bool {
    &&& b.len() == 32
    &&& b[2] == attr_byte(e.file_attributes) && b[3] == e.first_sector.0 && b[4] == e.first_sector.1
    &&& padded(b.subrange(5, 21), e.filename@, 0xA0)
    &&& b.subrange(21, 30) == extra_bytes(&e.extra)
    &&& b[30] == e.file_size % 256 && b[31] == e.file_size / 256
}

//@props P10
pub proof fn lemma_attr_roundtrip(b: u8)
    ensures attr_byte(attrs_of(b)) == b
{
    assert((b & 0x0F) | (if b & 0x10 != 0 { 0x10u8 } else { 0 }) | (if b & 0x20 != 0 { 0x20u8 } else { 0 })
        | (if b & 0x40 != 0 { 0x40u8 } else { 0 }) | (if b & 0x80 != 0 { 0x80u8 } else { 0 }) == b) by (bit_vector);
}
/// P10: encoding what was decoded reproduces every byte of the entry behind the link
pub proof fn lemma_entry_roundtrip(e: &DirectoryEntry, b: Seq<u8>, c: Seq<u8>)
    requires decodes(e, b), encodes(e, c)
    ensures c.skip(2) == b.skip(2), wf_entry(e)
{
    lemma_attr_roundtrip(b[2]);
    let x = b.subrange(21, 30);
    assert(extra_bytes(&e.extra) =~= x);
    lemma_strip_prefix(b.subrange(5, 21), 0xA0);
    assert(c.subrange(5, 21) =~= b.subrange(5, 21)) by {
        let n = e.filename@.len() as int;
        assert forall|k: int| 0 <= k < 16 implies c.subrange(5, 21)[k] == b.subrange(5, 21)[k] by {
            if k < n { assert(c.subrange(5, 21).take(n)[k] == b.subrange(5, 21).take(n)[k]); }
        }
    }
    assert forall|k: int| 2 <= k < 32 implies c[k] == b[k] by {
        if 5 <= k < 21 { assert(c.subrange(5, 21)[k - 5] == b.subrange(5, 21)[k - 5]); }
        if 21 <= k < 30 { assert(c.subrange(21, 30)[k - 21] == x[k - 21]); }
    }
    assert(c.skip(2) =~= b.skip(2));
}
pub proof fn lemma_decodes_wf(e: &DirectoryEntry, b: Seq<u8>)
    requires decodes(e, b)
    ensures wf_entry(e)
{
    lemma_strip_prefix(b.subrange(5, 21), 0xA0);
}

impl FileAttributes {
//@fn src/disk/directory.rs FileAttributes::from_byte
//@ret r
//@spec
    ensures r == attrs_of(byte)
//@endfn
//@fn src/disk/directory.rs FileAttributes::to_byte
//@ret r
//@spec
    ensures r == attr_byte(*self)
//@start
    proof { assert(forall|x: u8| #[trigger] (x | 0u8) == x) by (bit_vector); }
//@endfn
//@props P10 P11
//@fn src/disk/directory.rs FileAttributes::is_scratched
//@ret r
//@spec
    ensures r == scratched(*self)
//@endfn
}
pub open spec fn scratched(a: FileAttributes) -> bool { a.file_type == FileType::DEL && !a.closed_flag }

//@props P10
impl GEOSFileStructure {
//@fn src/disk/geos/mod.rs GEOSFileStructure::from_byte
//@ret r
//@spec
    ensures r == structure_of(byte)
//@endfn
//@fn src/disk/geos/mod.rs GEOSFileStructure::to_byte
//@ret r
//@spec
    ensures r == structure_byte(*self)
//@endfn
}
impl GEOSFileType {
//@fn src/disk/geos/mod.rs GEOSFileType::from_byte
//@ret r
//@spec
    ensures geos_type_ok(r, byte)
//@endfn
//@fn src/disk/geos/mod.rs GEOSFileType::to_byte
//@ret r
//@spec
    ensures r == geos_type_byte(*self)
//@endfn
}
impl LinearExtra {
//@fn src/disk/directory.rs LinearExtra::from_bytes
//@ret r
//@sub? /bytes\.to_vec\(\)/ => ({ let v_ = bytes.to_vec(); assert(v_@ =~= bytes@); v_ })
//@spec
    requires bytes@.len() == 9
    ensures r.unused@ == bytes@
//@endfn
//@fn src/disk/directory.rs LinearExtra::to_bytes
//@ret r
//@sub? /\(&mut bytes\[\.\.\]\)\.copy_from_slice/ => bytes.copy_from_slice
//@spec
    requires old(bytes)@.len() == 9, self.unused@.len() == 9
    ensures final(bytes)@ == self.unused@
//@endfn
}
impl RelativeExtra {
//@consts src/disk/directory.rs RelativeExtra
//@fn src/disk/directory.rs RelativeExtra::from_bytes
//@ret r
//@sub? /(bytes\[[^\]]*\])\.to_vec\(\)/ => ({ let v_ = \1.to_vec(); assert(v_@ =~= bytes@.subrange(3, 9)); v_ })
//@spec
    requires bytes@.len() == 9
    ensures extra_of(&Extra::Relative(r), Scheme::Relative, bytes@)
//@endfn
//@fn src/disk/directory.rs RelativeExtra::to_bytes
//@ret r
//@sub? /\(&mut (bytes\[[^\]]*\])\)\.copy_from_slice/ => \1.copy_from_slice
//@spec
    requires old(bytes)@.len() == 9, self.unused@.len() == 6
    ensures final(bytes)@ == extra_bytes(&Extra::Relative(*self))
//@end
    assert(bytes@ =~= extra_bytes(&Extra::Relative(*self)));
//@endfn
}
impl GEOSExtra {
//@consts src/disk/directory.rs GEOSExtra
//@fn src/disk/directory.rs GEOSExtra::from_bytes
//@ret r
//@spec
    requires bytes@.len() == 9
    ensures geos_extra_of(&r, bytes@)
//@endfn
//@fn src/disk/directory.rs GEOSExtra::to_bytes
//@ret r
//@spec
    requires old(bytes)@.len() == 9
    ensures final(bytes)@ == extra_bytes(&Extra::GEOS(*self))
//@end
    assert(bytes@ =~= extra_bytes(&Extra::GEOS(*self)));
//@endfn
//@fn src/disk/directory.rs GEOSExtra::is_entry_geos
//@ret r
//@spec
    requires bytes@.len() == 32
    ensures r == geos_entry(bytes@)
//@endfn
//@fn src/disk/directory.rs GEOSExtra::is_entry_vlir
//@ret r
//@spec
    requires bytes@.len() == 32
    ensures r == (bytes@[0x17] == 1)
//@endfn
}
impl Extra {
//@fn src/disk/directory.rs Extra::default
//@ret r
//@spec
    ensures wf_extra(&r), r is Linear, extra_bytes(&r) == Seq::new(9, |k: int| 0u8)
//@endfn
//@fn src/disk/directory.rs Extra::from_bytes
//@ret r
//@spec
    requires bytes@.len() == 9
    ensures extra_of(&r, scheme, bytes@)
//@endfn
//@fn src/disk/directory.rs Extra::to_bytes
//@ret r
//@spec
    requires old(bytes)@.len() == 9, wf_extra(self)
    ensures final(bytes)@ == extra_bytes(self), final(bytes)@.len() == 9
//@endfn
}
impl DirectoryEntry {
//@props P10 P11
//@fn src/disk/directory.rs DirectoryEntry::from_positioned_bytes
//@ret r
//@spec
    requires bytes@.len() == 32
    ensures decodes(&r, bytes@), r.position == Some(position), !r.geos_border
//@endfn
//@fn src/disk/directory.rs DirectoryEntry::parse
//@ret r
//@spec
    requires bytes@.len() == 32
    ensures decodes(&r, bytes@), r.position == position, !r.geos_border
//@start
    proof {
        lemma_words();
        assert(bytes@.subrange(21, 30).len() == 9);
    }
//@endfn
//@props P10
//@fn src/disk/directory.rs DirectoryEntry::reset
//@ret r
//@spec
    ensures
        final(self).position == old(self).position, final(self).geos_border == old(self).geos_border, wf_entry(final(self)),
        final(self).file_attributes == attrs_of(0), final(self).first_sector == Location(0, 0), final(self).file_size == 0,
        final(self).scheme == Scheme::Linear, final(self).extra is Linear, extra_bytes(&final(self).extra) == Seq::new(9, |k: int| 0u8),
//@endfn
//@fn src/disk/directory.rs DirectoryEntry::reread_from_bytes
//@ret r
//@spec
    requires bytes@.len() == 32
    ensures decodes(final(self), bytes@), final(self).position == old(self).position
//@endfn
//@fn src/disk/directory.rs DirectoryEntry::to_bytes
//@ret r
//@spec
    requires old(bytes)@.len() == 32, wf_entry(self)
    ensures encodes(self, final(bytes)@), final(bytes)@.take(2) == old(bytes)@.take(2)
//@start
    proof {
        lemma_words();
    }
//@after /write_bytes_with_padding/
    let ghost fname = bytes@.subrange(5, 21);
//@end
    assert(bytes@.subrange(5, 21) =~= fname);
    assert(bytes@.subrange(21, 30) =~= extra_bytes(&self.extra));
    assert(padded(bytes@.subrange(5, 21), self.filename@, 0xA0));
    assert(bytes@.take(2) =~= old(bytes)@.take(2));
//@endfn
//@fn src/disk/directory.rs DirectoryEntry::is_geos_border
//@ret r
//@spec
    ensures r == self.geos_border
//@endfn
//@props P08 P10
//@fn src/disk/directory.rs PositionedData for DirectoryEntry::position
//@ret r
//@spec
    ensures self.position.is_some() ==> r == io::Result::Ok(self.position->Some_0), self.position.is_none() ==> is_err(r, DiskError::Unpositioned)
//@endfn
//@fn src/disk/directory.rs PositionedData for DirectoryEntry::positioned_read
//@ret r
//@spec
    requires buffer@.len() == 32
    ensures
        old(self).position.is_some() && (old(self).position->Some_0).size <= 32 ==> r.is_ok() && decodes(final(self), buffer@) && final(self).position == old(self).position,
        r.is_err() ==> *final(self) == *old(self),
//@endfn
//@fn src/disk/directory.rs PositionedData for DirectoryEntry::positioned_write
//@ret r
//@spec
    requires old(buffer)@.len() == 32, wf_entry(self)
    ensures
        final(buffer)@.len() == 32,
        self.position.is_some() && (self.position->Some_0).size <= 32 ==> r.is_ok() && encodes(self, final(buffer)@) && final(buffer)@.take(2) == old(buffer)@.take(2),
        r.is_err() ==> final(buffer)@ == old(buffer)@,
//@endfn
}
} // mod dirent
pub use dirent::*;
