pub mod opening {
use super::*;

// ---------------------------------------------------------------- stand-ins for the host

/// a path of the host: only its extension and the file behind it matter
#[derive(Clone, Copy)]
pub struct HostPath { pub no: usize }
/// what the file holds (nobody else changes it while it is open)
pub uninterp spec fn file_bytes(p: HostPath) -> Seq<u8>;
/// an open file
pub struct HostFile { pub path: HostPath, pub write: bool, pub len: Ghost<Option<int>> }
impl HostFile {
    /// std::fs::File::open
    #[verifier::external_body]
    pub fn open(path: HostPath) -> (r: io::Result<HostFile>)
        ensures r.is_ok() ==> r->Ok_0.path == path && !r->Ok_0.write && r->Ok_0.len@.is_none(), r.is_err() ==> r->Err_0.e != DiskError::InvalidLayout
    { unimplemented!() }
    /// std::fs::File::set_len
    #[verifier::external_body]
    pub fn set_len(&mut self, n: u64) -> (r: io::Result<()>)
        ensures
            final(self).path == old(self).path && final(self).write == old(self).write, r.is_ok() ==> final(self).len@ == Some(n as int),
            r.is_err() ==> final(self).len == old(self).len && r->Err_0.e != DiskError::InvalidLayout
    { unimplemented!() }
}
/// std::fs::OpenOptions
pub struct OpenOptions { pub r: bool, pub w: bool, pub c: bool, pub n: bool, pub t: bool }
impl OpenOptions {
    pub fn new() -> (r: OpenOptions) ensures !r.r && !r.w && !r.c && !r.n && !r.t { OpenOptions { r: false, w: false, c: false, n: false, t: false } }
    pub fn read(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { r: b, ..self }) { OpenOptions { r: b, ..self } }
    pub fn write(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { w: b, ..self }) { OpenOptions { w: b, ..self } }
    pub fn create(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { c: b, ..self }) { OpenOptions { c: b, ..self } }
    pub fn create_new(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { n: b, ..self }) { OpenOptions { n: b, ..self } }
    pub fn truncate(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { t: b, ..self }) { OpenOptions { t: b, ..self } }
    #[verifier::external_body]
    pub fn open(self, path: HostPath) -> (r: io::Result<HostFile>)
        ensures r.is_ok() ==> r->Ok_0.path == path && r->Ok_0.write == self.w && (!self.c && !self.n && !self.t ==> r->Ok_0.len@.is_none()), r.is_err() ==> r->Err_0.e != DiskError::InvalidLayout
    { unimplemented!() }
}
/// memmap::MmapOptions
#[verifier::external_body]
pub fn map_file(f: &HostFile) -> (r: io::Result<Mmap>)
    ensures r.is_ok() ==> (f.len@.is_none() ==> r->Ok_0@ == file_bytes(f.path)) && (f.len@.is_some() ==> r->Ok_0@.len() == f.len@->Some_0), r.is_err() ==> r->Err_0.e != DiskError::InvalidLayout
{ unimplemented!() }
#[verifier::external_body]
pub fn map_file_mut(f: &HostFile) -> (r: io::Result<MmapMut>)
    requires f.write
    ensures r.is_ok() ==> (f.len@.is_none() ==> r->Ok_0@ == file_bytes(f.path)) && (f.len@.is_some() ==> r->Ok_0@.len() == f.len@->Some_0), r.is_err() ==> r->Err_0.e != DiskError::InvalidLayout
{ unimplemented!() }

impl Image {
//@props P12 P21
//@fn src/disk/image.rs Image::open_memory
//@ret r
//@sub /\.into_boxed_slice\(\)/ =>
//@spec
    ensures r.is_ok(), r->Ok_0 is Memory, r->Ok_0.bytes().len() == length, forall|k: int| 0 <= k < length ==> #[trigger] r->Ok_0.bytes()[k] == 0
//@endfn
//@props P12 P13 P21
//@fn src/disk/image.rs Image::open_read_only
//@ret r
//@sig /<P: AsRef<Path>>\(path: P/ => (path: HostPath
//@sub /\bFile::open\(/ => HostFile::open(
//@sub /unsafe \{ MmapOptions::new\(\)\.(map(?:_mut)?)\(/ => ({ \1_(
//@sub /\{ map_\((.*?)\}/ => { map_file(\1 })
//@spec
    ensures
        r.is_ok() ==> r->Ok_0 is ReadOnlyMap && r->Ok_0.bytes() == file_bytes(path), // [P13]
        r.is_err() ==> r->Err_0.e != DiskError::InvalidLayout,
//@endfn
//@fn src/disk/image.rs Image::open_read_write
//@ret r
//@sig /<P: AsRef<Path>>\(path: P/ => (path: HostPath
//@sub /unsafe \{ MmapOptions::new\(\)\.map_mut\((.*?)\}/ => ({ map_file_mut(\1 })
//@spec
    ensures
        r.is_ok() ==> r->Ok_0 is ReadWriteMap && r->Ok_0.bytes() == file_bytes(path),
        r.is_err() ==> r->Err_0.e != DiskError::InvalidLayout,
//@endfn
//@fn src/disk/image.rs Image::create
//@ret r
//@sig /<P: AsRef<Path>>\(path: P/ => (path: HostPath
//@sub? /let file = OpenOptions/ => let mut file = OpenOptions
//@sub /unsafe \{ MmapOptions::new\(\)\.map_mut\((.*?)\}/ => ({ map_file_mut(\1 })
//@spec
    ensures
        r.is_ok() ==> r->Ok_0 is ReadWriteMap && r->Ok_0.bytes().len() == length,
        r.is_err() ==> r->Err_0.e != DiskError::InvalidLayout,
//@endfn
}

/// the device, the map and the disk object after opening an image as a disk of the format nf
pub open spec fn disk_open(nf: &DiskFormat, image: &Image, dev: &ImageBlockDevice, d: &D64, m: &Bam) -> bool {
    native(nf) && dev.image == *image && fits_on(nf, dev) && dev.image.bytes().len() == geometry_size(dev.geometry) && initialized(nf, dev, d, m)
}

// ---------------------------------------------------------------- D64

pub mod open_d64 {
use super::*;
use crate::tables::d64::*;

pub open spec fn d64_size(n: int) -> bool { n == 174848 || n == 175531 || n == 196608 || n == 197376 }
/// an image opened as a D64
pub open spec fn d64_open(image: &Image, dev: &ImageBlockDevice, d: &D64, m: &Bam) -> bool {
    exists|nf: DiskFormat| #[trigger] d64_format(&nf) && disk_open(&nf, image, dev, &*d, m)
}
//@props P01 P21
//@static src/disk/d64.rs ALLOWED_GEOMETRIES
//@spec
    ensures
        forall|k: int| 0 <= k < ALLOWED_GEOMETRIES@.len() ==> wf_geometry(#[trigger] ALLOWED_GEOMETRIES@[k]) && d64_geometry(ALLOWED_GEOMETRIES@[k]), // [P01]
        forall|n: int| #[trigger] d64_size(n) ==> exists|k: int| 0 <= k < ALLOWED_GEOMETRIES@.len() && geometry_size(#[trigger] ALLOWED_GEOMETRIES@[k]) == n,
//@start
    proof {
        assert(d64_geometry(r_@[0]) && d64_geometry(r_@[1]) && d64_geometry(r_@[2]) && d64_geometry(r_@[3]));
        assert forall|n: int| #[trigger] d64_size(n) implies exists|k: int| 0 <= k < r_@.len() && geometry_size(#[trigger] r_@[k]) == n by { if n == geometry_size(r_@[0]) {} if n == geometry_size(r_@[1]) {} if n == geometry_size(r_@[2]) {} if n == geometry_size(r_@[3]) {} }
    }
//@endfn
/// a layout of a D64
pub open spec fn d64_geometry(g: &Geometry) -> bool {
    &&& wf_geometry(g) && d64_size(geometry_size(g)) && (g.tracks == 35 || g.tracks == 40) && zones(g.track_layouts@, g.tracks as int, |t: int| zone_1541(t))
}
pub proof fn lemma_fits_d64(f: &DiskFormat, dev: &ImageBlockDevice)
    requires d64_format(f), wf_format(f), wf_bamformat(f.bam), d64_geometry(dev.geometry), dev.image.bytes().len() == geometry_size(dev.geometry)
    ensures native(f), fits_on(f, dev)
{
    lemma_native_d64(f);
    lemma_before_bound(dev.geometry.track_layouts@, dev.geometry.tracks as int, dev.geometry.tracks + 1);
    lemma_before_nonneg(dev.geometry.track_layouts@, dev.geometry.tracks as int, dev.geometry.tracks + 1);
    assert forall|t: int| 1 <= t <= dev.geometry.tracks implies #[trigger] dev.geometry.track_layouts@[t].sectors == f.tracks@[t].sectors by { assert(f.tracks@[t].sectors == zone_1541(t)); }
}
impl D64 {
//@props P14 P20 P21
//@fn src/disk/d64.rs Disk for D64::native_disk_format
//@ret r
//@sub? /&DISK_FORMAT/ => ({ let f_ = &DISK_FORMAT; proof { lemma_native_d64(f_); } f_ })
//@spec
    ensures d64_format(r), wf_format(r), wf_bamformat(r.bam), native(r)
//@endfn

//@props P13 P20
//@fn src/disk/d64.rs Disk for D64::header_mut
//@ret r
//@sig /&mut self/ => &mut self, hb: &ImageBlockDevice
//@sub /self\.blocks\.borrow\(\)/ => (&*hb)
//@spec
    ensures
        r.is_ok() <==> hb.writable() && old(self).header.is_some(), r.is_err() ==> *final(self) == *old(self) && r->Err_0.e == (if hb.writable() { DiskError::Unformatted } else { DiskError::ReadOnly }), // [P13]
        r.is_ok() ==> *r->Ok_0 == old(self).header->Some_0 && final(self).header == Some(*final(r->Ok_0)) && final(self).format == old(self).format && final(self).bam == old(self).bam,
//@endfn
//@fn src/disk/d64.rs Disk for D64::flush_header
//@ret r
//@sig /&mut self/ => &mut self, hb: &mut ImageBlockDevice
//@sub? /header\.write\(self\.blocks\.clone\(\), &HEADER_FORMAT\)/ => ({ let h_ = &HEADER_FORMAT; proof { lemma_formats(h_); hf = *h_; assert(hb.valid(h_.location)); } header.write(hb, self.blocks, h_) })
//@spec
    requires old(hb).wf(), old(hb).valid(Location(18, 0))
    ensures
        *final(self) == *old(self),
        old(self).header.is_none() ==> is_err(r, DiskError::Unformatted) && *final(hb) == *old(hb),
        r.is_err() ==> *final(hb) == *old(hb), !old(hb).writable() ==> r.is_err(), // [P13]
        r.is_ok() ==> exists|f: HeaderFormat, b: Seq<u8>| d64_header(&f) && #[trigger] header_stored(&f, &old(self).header->Some_0, old(hb).sec(Location(18, 0)), b) && sector_replaced(old(hb), final(hb), Location(18, 0), b),
//@start
    let ghost mut hf: HeaderFormat = arbitrary();
//@endfn
//@props P12 P13 P14 P20 P21
//@fn src/disk/d64.rs D64::new
//@ret r
//@sig /\(image: Image/ => (hb: &mut ImageBlockDevice, hm: &mut Bam, image: Image
//@sub /&ALLOWED_GEOMETRIES\[\.\.\]/ => ALLOWED_GEOMETRIES.as_slice()
//@sub /Rc::new\(RefCell::new\((\w+)\)\)/ => ({ *hb = \1; BlockDeviceRef })
//@sub? /(\w+)\.initialize\(\)/ => { let nf_ = \1.native_disk_format(); proof { assert(d64_geometry(hb.geometry)); lemma_fits_d64(nf_, hb); } \1.initialize(hb, hm, nf_); proof { assert(d64_open(&image, hb, &\1, hm)) by { assert(d64_format(&*nf_)); } } }
//@spec
    ensures
        r.is_ok() <==> d64_size(image.bytes().len() as int), r.is_err() ==> r->Err_0.e == DiskError::InvalidLayout, // [P21]
        r.is_ok() ==> d64_open(&image, final(hb), &r->Ok_0, final(hm)),
//@endfn
//@props P12 P13 P21
//@fn src/disk/d64.rs D64::open
//@ret r
//@sig /<P: AsRef<Path>>\(path: P/ => (hb: &mut ImageBlockDevice, hm: &mut Bam, path: HostPath
//@sub /Self::new\(/ => Self::new(hb, hm, 
//@spec
    ensures d64_opened(path, writable, final(hb), final(hm), r)
//@endfn
//@fn src/disk/d64.rs D64::create
//@ret r
//@sig /<P: AsRef<Path>>\(/ => (hb: &mut ImageBlockDevice, hm: &mut Bam,
//@sig /\bpath: P\b/ => path: HostPath
//@sub /Self::new\(/ => Self::new(hb, hm, 
//@spec
    requires wf_geometry(geometry)
    ensures
        r.is_ok() ==> d64_size(geometry_size(geometry)) && final(hb).image is ReadWriteMap && d64_open(&final(hb).image, final(hb), &r->Ok_0, final(hm)) && final(hb).image.bytes().len() == geometry_size(geometry),
        r.is_err() && d64_size(geometry_size(geometry)) ==> r->Err_0.e != DiskError::InvalidLayout,
//@endfn
//@fn src/disk/d64.rs D64::open_memory
//@ret r
//@sig /\(geometry:/ => (hb: &mut ImageBlockDevice, hm: &mut Bam, geometry:
//@sub /Self::new\(/ => Self::new(hb, hm, 
//@spec
    requires wf_geometry(geometry)
    ensures
        r.is_ok() <==> d64_size(geometry_size(geometry)), r.is_err() ==> r->Err_0.e == DiskError::InvalidLayout,
        r.is_ok() ==> final(hb).image is Memory && d64_open(&final(hb).image, final(hb), &r->Ok_0, final(hm)) && final(hb).image.bytes().len() == geometry_size(geometry),
//@endfn
//@fn src/disk/d64.rs D64::geometry
//@ret r
//@spec
    ensures d64_geometry(r) && r.with_error_table == with_error_table && r.tracks == 35
//@endfn
//@fn src/disk/d64.rs D64::geometry_40_tracks
//@ret r
//@spec
    ensures d64_geometry(r) && r.with_error_table == with_error_table && r.tracks == 40
//@endfn
}
/// the outcome of opening the file as a D64
pub open spec fn d64_opened(path: HostPath, writable: bool, dev: &ImageBlockDevice, m: &Bam, r: io::Result<D64>) -> bool {
    &&& r.is_ok() ==> d64_size(file_bytes(path).len() as int) && dev.image.bytes() == file_bytes(path) && dev.writable() == writable && d64_open(&dev.image, dev, &r->Ok_0, m)
    &&& r.is_err() && r->Err_0.e == DiskError::InvalidLayout ==> !d64_size(file_bytes(path).len() as int)
}
} // mod open_d64
pub use open_d64::*;

// ---------------------------------------------------------------- D71

pub mod open_d71 {
use super::*;
use crate::tables::d71::*;
//@item src/disk/d71.rs struct D71 /Rc<RefCell<ImageBlockDevice>>/ => BlockDeviceRef
pub open spec fn as64_d71(d: D71) -> D64 { D64 { blocks: d.blocks, header: d.header, bam: d.bam, format: d.format } }
pub open spec fn d71_size(n: int) -> bool { n == 349696 || n == 351062 }
/// an image opened as a D71
pub open spec fn d71_open(image: &Image, dev: &ImageBlockDevice, d: &D71, m: &Bam) -> bool {
    exists|nf: DiskFormat| #[trigger] d71_format(&nf) && disk_open(&nf, image, dev, &as64_d71(*d), m)
}
//@props P01 P21
//@static src/disk/d71.rs ALLOWED_GEOMETRIES
//@spec
    ensures
        forall|k: int| 0 <= k < ALLOWED_GEOMETRIES@.len() ==> wf_geometry(#[trigger] ALLOWED_GEOMETRIES@[k]) && d71_geometry(ALLOWED_GEOMETRIES@[k]), // [P01]
        forall|n: int| #[trigger] d71_size(n) ==> exists|k: int| 0 <= k < ALLOWED_GEOMETRIES@.len() && geometry_size(#[trigger] ALLOWED_GEOMETRIES@[k]) == n,
//@start
    proof {
        assert(d71_geometry(r_@[0]) && d71_geometry(r_@[1]));
        assert forall|n: int| #[trigger] d71_size(n) implies exists|k: int| 0 <= k < r_@.len() && geometry_size(#[trigger] r_@[k]) == n by { if n == geometry_size(r_@[0]) {} if n == geometry_size(r_@[1]) {} }
    }
//@endfn
/// a layout of a D71
pub open spec fn d71_geometry(g: &Geometry) -> bool {
    &&& wf_geometry(g) && d71_size(geometry_size(g)) && g.tracks == 70 && zones(g.track_layouts@, g.tracks as int, |t: int| zone_1571(t))
}
pub proof fn lemma_fits_d71(f: &DiskFormat, dev: &ImageBlockDevice)
    requires d71_format(f), wf_format(f), wf_bamformat(f.bam), d71_geometry(dev.geometry), dev.image.bytes().len() == geometry_size(dev.geometry)
    ensures native(f), fits_on(f, dev)
{
    lemma_native_d71(f);
    lemma_before_bound(dev.geometry.track_layouts@, dev.geometry.tracks as int, dev.geometry.tracks + 1);
    lemma_before_nonneg(dev.geometry.track_layouts@, dev.geometry.tracks as int, dev.geometry.tracks + 1);
    assert forall|t: int| 1 <= t <= dev.geometry.tracks implies #[trigger] dev.geometry.track_layouts@[t].sectors == f.tracks@[t].sectors by { assert(f.tracks@[t].sectors == zone_1571(t)); }
}
impl D71 {
//@props P14 P20 P21
//@fn src/disk/d71.rs Disk for D71::native_disk_format
//@ret r
//@sub? /&DISK_FORMAT/ => ({ let f_ = &DISK_FORMAT; proof { lemma_native_d71(f_); } f_ })
//@spec
    ensures d71_format(r), wf_format(r), wf_bamformat(r.bam), native(r)
//@endfn
//@props P07 P08 P11 P12
//@fn src/disk/d71.rs Disk for D71::disk_format
//@ret r
//@spec
    ensures r.is_ok() <==> self.format.is_some(), r.is_ok() ==> *r->Ok_0 == self.format->Some_0, r.is_err() ==> r->Err_0.e == DiskError::Unformatted
//@endfn
//@fn src/disk/d71.rs Disk for D71::header
//@ret r
//@spec
    ensures r.is_ok() <==> self.header.is_some(), r.is_ok() ==> *r->Ok_0 == self.header->Some_0, r.is_err() ==> r->Err_0.e == DiskError::Unformatted
//@endfn
//@fn src/disk/d71.rs Disk for D71::bam
//@ret r
//@sub /\b(\w+)\.clone\(\)/ => *\1
//@spec
    ensures r.is_ok() <==> self.bam.is_some(), r.is_err() ==> r->Err_0.e == DiskError::Unformatted
//@endfn
//@fn src/disk/d71.rs Disk for D71::blocks
//@ret r
//@sub /self\.blocks\.clone\(\)/ => self.blocks
//@endfn
//@fn src/disk/d71.rs Disk for D71::set_disk_format
//@ret r
//@spec
    ensures final(self).format == disk_format, final(self).header == old(self).header, final(self).bam == old(self).bam
//@endfn
//@fn src/disk/d71.rs Disk for D71::set_header
//@ret r
//@spec
    ensures final(self).header == header, final(self).format == old(self).format, final(self).bam == old(self).bam
//@endfn
//@props P02 P14 P20
//@fn src/disk/d71.rs Disk for D71::set_bam
//@ret r
//@sig /&mut self/ => &mut self, hm: &mut Bam
//@sub /disk::set_bam\(/ => set_bam_(hm, 
//@spec
    ensures
        final(self).bam.is_some() == bam.is_some(), final(self).header == old(self).header, final(self).format == old(self).format,
        bam.is_some() ==> *final(hm) == bam->Some_0,
        bam.is_none() && old(self).bam.is_some() ==> final(hm).invalidated && final(hm).entries == old(hm).entries && final(hm).format == old(hm).format,
        bam.is_none() && old(self).bam.is_none() ==> *final(hm) == *old(hm),
//@endfn
//@fn src/disk/mod.rs Disk::initialize
//@ret r
//@sig /&mut self/ => &mut self, hb: &ImageBlockDevice, hm: &mut Bam, nf: &'static DiskFormat
//@sub /self\.native_disk_format\(\)/ => nf
//@sub /self\.blocks\(\)\.clone\(\)/ => self.blocks()
//@sub /(Header|Bam)::read\(/ => \1::read(hb, 
//@sub /self\.set_bam\(/ => self.set_bam(hm, 
//@spec
    requires native(nf), fits_on(nf, hb)
    ensures initialized(nf, hb, &as64_d71(*final(self)), final(hm))
//@start
    proof { lemma_fits(nf, hb); }
//@endfn
//@props P13 P20
//@fn src/disk/d71.rs Disk for D71::header_mut
//@ret r
//@sig /&mut self/ => &mut self, hb: &ImageBlockDevice
//@sub /self\.blocks\.borrow\(\)/ => (&*hb)
//@spec
    ensures
        r.is_ok() <==> hb.writable() && old(self).header.is_some(), r.is_err() ==> *final(self) == *old(self) && r->Err_0.e == (if hb.writable() { DiskError::Unformatted } else { DiskError::ReadOnly }), // [P13]
        r.is_ok() ==> *r->Ok_0 == old(self).header->Some_0 && final(self).header == Some(*final(r->Ok_0)) && final(self).format == old(self).format && final(self).bam == old(self).bam,
//@endfn
//@fn src/disk/d71.rs Disk for D71::flush_header
//@ret r
//@sig /&mut self/ => &mut self, hb: &mut ImageBlockDevice
//@sub? /header\.write\(self\.blocks\.clone\(\), &HEADER_FORMAT\)/ => ({ let h_ = &HEADER_FORMAT; proof { lemma_formats(h_); hf = *h_; assert(hb.valid(h_.location)); } header.write(hb, self.blocks, h_) })
//@spec
    requires old(hb).wf(), old(hb).valid(Location(18, 0))
    ensures
        *final(self) == *old(self),
        old(self).header.is_none() ==> is_err(r, DiskError::Unformatted) && *final(hb) == *old(hb),
        r.is_err() ==> *final(hb) == *old(hb), !old(hb).writable() ==> r.is_err(), // [P13]
        r.is_ok() ==> exists|f: HeaderFormat, b: Seq<u8>| d71_header(&f) && #[trigger] header_stored(&f, &old(self).header->Some_0, old(hb).sec(Location(18, 0)), b) && sector_replaced(old(hb), final(hb), Location(18, 0), b),
//@start
    let ghost mut hf: HeaderFormat = arbitrary();
//@endfn
//@props P12 P13 P14 P20 P21
//@fn src/disk/d71.rs D71::new
//@ret r
//@sig /\(image: Image/ => (hb: &mut ImageBlockDevice, hm: &mut Bam, image: Image
//@sub /&ALLOWED_GEOMETRIES\[\.\.\]/ => ALLOWED_GEOMETRIES.as_slice()
//@sub /Rc::new\(RefCell::new\((\w+)\)\)/ => ({ *hb = \1; BlockDeviceRef })
//@sub? /(\w+)\.initialize\(\)/ => { let nf_ = \1.native_disk_format(); proof { assert(d71_geometry(hb.geometry)); lemma_fits_d71(nf_, hb); } \1.initialize(hb, hm, nf_); proof { assert(d71_open(&image, hb, &\1, hm)) by { assert(d71_format(&*nf_)); } } }
//@spec
    ensures
        r.is_ok() <==> d71_size(image.bytes().len() as int), r.is_err() ==> r->Err_0.e == DiskError::InvalidLayout, // [P21]
        r.is_ok() ==> d71_open(&image, final(hb), &r->Ok_0, final(hm)),
//@endfn
//@props P12 P13 P21
//@fn src/disk/d71.rs D71::open
//@ret r
//@sig /<P: AsRef<Path>>\(path: P/ => (hb: &mut ImageBlockDevice, hm: &mut Bam, path: HostPath
//@sub /Self::new\(/ => Self::new(hb, hm, 
//@spec
    ensures d71_opened(path, writable, final(hb), final(hm), r)
//@endfn
//@fn src/disk/d71.rs D71::create
//@ret r
//@sig /<P: AsRef<Path>>\(/ => (hb: &mut ImageBlockDevice, hm: &mut Bam,
//@sig /\bpath: P\b/ => path: HostPath
//@sub /Self::new\(/ => Self::new(hb, hm, 
//@spec
    requires wf_geometry(geometry)
    ensures
        r.is_ok() ==> d71_size(geometry_size(geometry)) && final(hb).image is ReadWriteMap && d71_open(&final(hb).image, final(hb), &r->Ok_0, final(hm)) && final(hb).image.bytes().len() == geometry_size(geometry),
        r.is_err() && d71_size(geometry_size(geometry)) ==> r->Err_0.e != DiskError::InvalidLayout,
//@endfn
//@fn src/disk/d71.rs D71::open_memory
//@ret r
//@sig /\(geometry:/ => (hb: &mut ImageBlockDevice, hm: &mut Bam, geometry:
//@sub /Self::new\(/ => Self::new(hb, hm, 
//@spec
    requires wf_geometry(geometry)
    ensures
        r.is_ok() <==> d71_size(geometry_size(geometry)), r.is_err() ==> r->Err_0.e == DiskError::InvalidLayout,
        r.is_ok() ==> final(hb).image is Memory && d71_open(&final(hb).image, final(hb), &r->Ok_0, final(hm)) && final(hb).image.bytes().len() == geometry_size(geometry),
//@endfn
//@fn src/disk/d71.rs D71::geometry
//@ret r
//@spec
    ensures d71_geometry(r) && r.with_error_table == with_error_table && r.tracks == 70
//@endfn

}
/// the outcome of opening the file as a D71
pub open spec fn d71_opened(path: HostPath, writable: bool, dev: &ImageBlockDevice, m: &Bam, r: io::Result<D71>) -> bool {
    &&& r.is_ok() ==> d71_size(file_bytes(path).len() as int) && dev.image.bytes() == file_bytes(path) && dev.writable() == writable && d71_open(&dev.image, dev, &r->Ok_0, m)
    &&& r.is_err() && r->Err_0.e == DiskError::InvalidLayout ==> !d71_size(file_bytes(path).len() as int)
}
} // mod open_d71
pub use open_d71::*;

// ---------------------------------------------------------------- D81

pub mod open_d81 {
use super::*;
use crate::tables::d81::*;
//@item src/disk/d81.rs struct D81 /Rc<RefCell<ImageBlockDevice>>/ => BlockDeviceRef
pub open spec fn as64_d81(d: D81) -> D64 { D64 { blocks: d.blocks, header: d.header, bam: d.bam, format: d.format } }
pub open spec fn d81_size(n: int) -> bool { n == 819200 || n == 822400 }
/// an image opened as a D81
pub open spec fn d81_open(image: &Image, dev: &ImageBlockDevice, d: &D81, m: &Bam) -> bool {
    exists|nf: DiskFormat| #[trigger] d81_format(&nf) && disk_open(&nf, image, dev, &as64_d81(*d), m)
}
//@props P01 P21
//@static src/disk/d81.rs ALLOWED_GEOMETRIES
//@spec
    ensures
        forall|k: int| 0 <= k < ALLOWED_GEOMETRIES@.len() ==> wf_geometry(#[trigger] ALLOWED_GEOMETRIES@[k]) && d81_geometry(ALLOWED_GEOMETRIES@[k]), // [P01]
        forall|n: int| #[trigger] d81_size(n) ==> exists|k: int| 0 <= k < ALLOWED_GEOMETRIES@.len() && geometry_size(#[trigger] ALLOWED_GEOMETRIES@[k]) == n,
//@start
    proof {
        assert(d81_geometry(r_@[0]) && d81_geometry(r_@[1]));
        assert forall|n: int| #[trigger] d81_size(n) implies exists|k: int| 0 <= k < r_@.len() && geometry_size(#[trigger] r_@[k]) == n by { if n == geometry_size(r_@[0]) {} if n == geometry_size(r_@[1]) {} }
    }
//@endfn
/// a layout of a D81
pub open spec fn d81_geometry(g: &Geometry) -> bool {
    &&& wf_geometry(g) && d81_size(geometry_size(g)) && g.tracks == 80 && zones(g.track_layouts@, g.tracks as int, |t: int| zone_1581(t))
}
pub proof fn lemma_fits_d81(f: &DiskFormat, dev: &ImageBlockDevice)
    requires d81_format(f), wf_format(f), wf_bamformat(f.bam), d81_geometry(dev.geometry), dev.image.bytes().len() == geometry_size(dev.geometry)
    ensures native(f), fits_on(f, dev)
{
    lemma_native_d81(f);
    lemma_before_bound(dev.geometry.track_layouts@, dev.geometry.tracks as int, dev.geometry.tracks + 1);
    lemma_before_nonneg(dev.geometry.track_layouts@, dev.geometry.tracks as int, dev.geometry.tracks + 1);
    assert forall|t: int| 1 <= t <= dev.geometry.tracks implies #[trigger] dev.geometry.track_layouts@[t].sectors == f.tracks@[t].sectors by { assert(f.tracks@[t].sectors == zone_1581(t)); }
}
impl D81 {
//@props P14 P20 P21
//@fn src/disk/d81.rs Disk for D81::native_disk_format
//@ret r
//@sub? /&DISK_FORMAT/ => ({ let f_ = &DISK_FORMAT; proof { lemma_native_d81(f_); } f_ })
//@spec
    ensures d81_format(r), wf_format(r), wf_bamformat(r.bam), native(r)
//@endfn
//@props P07 P08 P11 P12
//@fn src/disk/d81.rs Disk for D81::disk_format
//@ret r
//@spec
    ensures r.is_ok() <==> self.format.is_some(), r.is_ok() ==> *r->Ok_0 == self.format->Some_0, r.is_err() ==> r->Err_0.e == DiskError::Unformatted
//@endfn
//@fn src/disk/d81.rs Disk for D81::header
//@ret r
//@spec
    ensures r.is_ok() <==> self.header.is_some(), r.is_ok() ==> *r->Ok_0 == self.header->Some_0, r.is_err() ==> r->Err_0.e == DiskError::Unformatted
//@endfn
//@fn src/disk/d81.rs Disk for D81::bam
//@ret r
//@sub /\b(\w+)\.clone\(\)/ => *\1
//@spec
    ensures r.is_ok() <==> self.bam.is_some(), r.is_err() ==> r->Err_0.e == DiskError::Unformatted
//@endfn
//@fn src/disk/d81.rs Disk for D81::blocks
//@ret r
//@sub /self\.blocks\.clone\(\)/ => self.blocks
//@endfn
//@fn src/disk/d81.rs Disk for D81::set_disk_format
//@ret r
//@spec
    ensures final(self).format == disk_format, final(self).header == old(self).header, final(self).bam == old(self).bam
//@endfn
//@fn src/disk/d81.rs Disk for D81::set_header
//@ret r
//@spec
    ensures final(self).header == header, final(self).format == old(self).format, final(self).bam == old(self).bam
//@endfn
//@props P02 P14 P20
//@fn src/disk/d81.rs Disk for D81::set_bam
//@ret r
//@sig /&mut self/ => &mut self, hm: &mut Bam
//@sub /disk::set_bam\(/ => set_bam_(hm, 
//@spec
    ensures
        final(self).bam.is_some() == bam.is_some(), final(self).header == old(self).header, final(self).format == old(self).format,
        bam.is_some() ==> *final(hm) == bam->Some_0,
        bam.is_none() && old(self).bam.is_some() ==> final(hm).invalidated && final(hm).entries == old(hm).entries && final(hm).format == old(hm).format,
        bam.is_none() && old(self).bam.is_none() ==> *final(hm) == *old(hm),
//@endfn
//@fn src/disk/mod.rs Disk::initialize
//@ret r
//@sig /&mut self/ => &mut self, hb: &ImageBlockDevice, hm: &mut Bam, nf: &'static DiskFormat
//@sub /self\.native_disk_format\(\)/ => nf
//@sub /self\.blocks\(\)\.clone\(\)/ => self.blocks()
//@sub /(Header|Bam)::read\(/ => \1::read(hb, 
//@sub /self\.set_bam\(/ => self.set_bam(hm, 
//@spec
    requires native(nf), fits_on(nf, hb)
    ensures initialized(nf, hb, &as64_d81(*final(self)), final(hm))
//@start
    proof { lemma_fits(nf, hb); }
//@endfn
//@props P13 P20
//@fn src/disk/d81.rs Disk for D81::header_mut
//@ret r
//@sig /&mut self/ => &mut self, hb: &ImageBlockDevice
//@sub /self\.blocks\.borrow\(\)/ => (&*hb)
//@spec
    ensures
        r.is_ok() <==> hb.writable() && old(self).header.is_some(), r.is_err() ==> *final(self) == *old(self) && r->Err_0.e == (if hb.writable() { DiskError::Unformatted } else { DiskError::ReadOnly }), // [P13]
        r.is_ok() ==> *r->Ok_0 == old(self).header->Some_0 && final(self).header == Some(*final(r->Ok_0)) && final(self).format == old(self).format && final(self).bam == old(self).bam,
//@endfn
//@fn src/disk/d81.rs Disk for D81::flush_header
//@ret r
//@sig /&mut self/ => &mut self, hb: &mut ImageBlockDevice
//@sub? /header\.write\(self\.blocks\.clone\(\), &HEADER_FORMAT\)/ => ({ let h_ = &HEADER_FORMAT; proof { lemma_formats(h_); hf = *h_; assert(hb.valid(h_.location)); } header.write(hb, self.blocks, h_) })
//@spec
    requires old(hb).wf(), old(hb).valid(Location(40, 0))
    ensures
        *final(self) == *old(self),
        old(self).header.is_none() ==> is_err(r, DiskError::Unformatted) && *final(hb) == *old(hb),
        r.is_err() ==> *final(hb) == *old(hb), !old(hb).writable() ==> r.is_err(), // [P13]
        r.is_ok() ==> exists|f: HeaderFormat, b: Seq<u8>| d81_header(&f) && #[trigger] header_stored(&f, &old(self).header->Some_0, old(hb).sec(Location(40, 0)), b) && sector_replaced(old(hb), final(hb), Location(40, 0), b),
//@start
    let ghost mut hf: HeaderFormat = arbitrary();
//@endfn
//@props P12 P13 P14 P20 P21
//@fn src/disk/d81.rs D81::new
//@ret r
//@sig /\(image: Image/ => (hb: &mut ImageBlockDevice, hm: &mut Bam, image: Image
//@sub /&ALLOWED_GEOMETRIES\[\.\.\]/ => ALLOWED_GEOMETRIES.as_slice()
//@sub /Rc::new\(RefCell::new\((\w+)\)\)/ => ({ *hb = \1; BlockDeviceRef })
//@sub? /(\w+)\.initialize\(\)/ => { let nf_ = \1.native_disk_format(); proof { assert(d81_geometry(hb.geometry)); lemma_fits_d81(nf_, hb); } \1.initialize(hb, hm, nf_); proof { assert(d81_open(&image, hb, &\1, hm)) by { assert(d81_format(&*nf_)); } } }
//@spec
    ensures
        r.is_ok() <==> d81_size(image.bytes().len() as int), r.is_err() ==> r->Err_0.e == DiskError::InvalidLayout, // [P21]
        r.is_ok() ==> d81_open(&image, final(hb), &r->Ok_0, final(hm)),
//@endfn
//@props P12 P13 P21
//@fn src/disk/d81.rs D81::open
//@ret r
//@sig /<P: AsRef<Path>>\(path: P/ => (hb: &mut ImageBlockDevice, hm: &mut Bam, path: HostPath
//@sub /Self::new\(/ => Self::new(hb, hm, 
//@spec
    ensures d81_opened(path, writable, final(hb), final(hm), r)
//@endfn
//@fn src/disk/d81.rs D81::create
//@ret r
//@sig /<P: AsRef<Path>>\(/ => (hb: &mut ImageBlockDevice, hm: &mut Bam,
//@sig /\bpath: P\b/ => path: HostPath
//@sub /Self::new\(/ => Self::new(hb, hm, 
//@spec
    requires wf_geometry(geometry)
    ensures
        r.is_ok() ==> d81_size(geometry_size(geometry)) && final(hb).image is ReadWriteMap && d81_open(&final(hb).image, final(hb), &r->Ok_0, final(hm)) && final(hb).image.bytes().len() == geometry_size(geometry),
        r.is_err() && d81_size(geometry_size(geometry)) ==> r->Err_0.e != DiskError::InvalidLayout,
//@endfn
//@fn src/disk/d81.rs D81::open_memory
//@ret r
//@sig /\(geometry:/ => (hb: &mut ImageBlockDevice, hm: &mut Bam, geometry:
//@sub /Self::new\(/ => Self::new(hb, hm, 
//@spec
    requires wf_geometry(geometry)
    ensures
        r.is_ok() <==> d81_size(geometry_size(geometry)), r.is_err() ==> r->Err_0.e == DiskError::InvalidLayout,
        r.is_ok() ==> final(hb).image is Memory && d81_open(&final(hb).image, final(hb), &r->Ok_0, final(hm)) && final(hb).image.bytes().len() == geometry_size(geometry),
//@endfn
//@fn src/disk/d81.rs D81::geometry
//@ret r
//@spec
    ensures d81_geometry(r) && r.with_error_table == with_error_table && r.tracks == 80
//@endfn

}
/// the outcome of opening the file as a D81
pub open spec fn d81_opened(path: HostPath, writable: bool, dev: &ImageBlockDevice, m: &Bam, r: io::Result<D81>) -> bool {
    &&& r.is_ok() ==> d81_size(file_bytes(path).len() as int) && dev.image.bytes() == file_bytes(path) && dev.writable() == writable && d81_open(&dev.image, dev, &r->Ok_0, m)
    &&& r.is_err() && r->Err_0.e == DiskError::InvalidLayout ==> !d81_size(file_bytes(path).len() as int)
}
} // mod open_d81
pub use open_d81::*;

// ---------------------------------------------------------------- choosing the type

//@item src/disk/mod.rs enum DiskType
/// the extension of a path, as text
pub uninterp spec fn extension(p: HostPath) -> Option<Seq<char>>;
/// str::to_lowercase
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn lower_extension(p: HostPath) -> (r: Option<String>)
    ensures r.is_some() == extension(p).is_some(), r.is_some() ==> r->Some_0@ == lower(extension(p)->Some_0) && lower(r->Some_0@) == r->Some_0@
{ unimplemented!() }
#[verifier::external_body]
pub fn to_lower(s: &String) -> (r: String) ensures r@ == lower(s@) { unimplemented!() }
#[verifier::external_body]
pub fn same_text(s: &String, t: &str) -> (r: bool) ensures r == (s@ == t@) { unimplemented!() }
/// P21: the type an extension stands for, in any letter case
pub open spec fn extension_type(p: HostPath) -> Option<DiskType> {
    if extension(p).is_none() { None } else {
        let x = lower(extension(p)->Some_0);
        if x == "d64"@ { Some(DiskType::D64) } else if x == "d71"@ { Some(DiskType::D71) } else if x == "d81"@ { Some(DiskType::D81) } else { None }
    }
}
impl DiskType {
//@props P12 P21
//@fn src/disk/mod.rs DiskType::from_extension
//@ret r
//@sig /<P: AsRef<Path>>\(path: P/ => (path: HostPath
//@sub /const (\w+): &str = ("\w+");/ => let \1: &str = \2;
//@sub /path\s*\.as_ref\(\)\s*\.extension\(\)\s*\.and_then\(\|s\| s\.to_str\(\)\)\s*\.map\(\|s\| s\.to_lowercase\(\)\)/ => lower_extension(path)
//@sub /match &(\w+)\.to_lowercase\(\)\[\.\.\] \{(.*?)_ => None,?\s*\}/ => let x_ = to_lower(&\1); \2 None
//@sub /(\w+_EXTENSION) => (Some\([\w:]+\)),/ => if same_text(&x_, \1) { return \2; }
//@spec
    ensures r == extension_type(path)
//@start
    proof { reveal_strlit("d64"); reveal_strlit("d71"); reveal_strlit("d81"); assert("d64"@[1] != "d71"@[1] && "d64"@[1] != "d81"@[1] && "d71"@[1] != "d81"@[1]); }
//@endfn
}
/// Box<dyn Disk>
pub enum AnyDisk { D64(D64), D71(D71), D81(D81) }
impl D64 { pub fn boxed(self) -> (r: AnyDisk) ensures r == AnyDisk::D64(self) { AnyDisk::D64(self) } }
impl D71 { pub fn boxed(self) -> (r: AnyDisk) ensures r == AnyDisk::D71(self) { AnyDisk::D71(self) } }
impl D81 { pub fn boxed(self) -> (r: AnyDisk) ensures r == AnyDisk::D81(self) { AnyDisk::D81(self) } }
//@fn src/disk/mod.rs open/is_layout_error
//@ret r
//@spec
    ensures r == (error.e == DiskError::InvalidLayout)
//@endfn
//@fn src/disk/mod.rs open
//@ret r
//@sig /<P: AsRef<Path>>\(path: P/ => (hb: &mut ImageBlockDevice, hm: &mut Bam, path: HostPath
//@sig /fn open/ => fn open_any
//@sig /Box<dyn Disk>/ => AnyDisk
//@sub? /(?s:(?:#\[inline\]\s*)?fn is_layout_error\([^{]*\{[^{}]*\})/ => 
//@sub /DiskType::from_extension\(&path\)/ => DiskType::from_extension(path)
//@sub? /path\.as_ref\(\)/ => path
//@sub /\b(?:d\d\d::)?(D\d\d)::open\(path/ => \1::open(hb, hm, path
//@sub /Box::new\(((?:[^()]|\([^()]*\))*)\)/ => (\1).boxed()
//@spec
    ensures
        r.is_ok() ==> final(hb).image.bytes() == file_bytes(path) && final(hb).writable() == writable && match r->Ok_0 {
            AnyDisk::D64(d) => (extension_type(path) is None || extension_type(path) == Some(DiskType::D64)) && d64_open(&final(hb).image, final(hb), &d, final(hm)),
            AnyDisk::D71(d) => (extension_type(path) is None || extension_type(path) == Some(DiskType::D71)) && d71_open(&final(hb).image, final(hb), &d, final(hm)),
            AnyDisk::D81(d) => (extension_type(path) is None || extension_type(path) == Some(DiskType::D81)) && d81_open(&final(hb).image, final(hb), &d, final(hm)),
        },
        is_err(r, DiskError::InvalidLayout) ==> ({
            let n = file_bytes(path).len() as int;
            match extension_type(path) {
                Some(DiskType::D64) => !d64_size(n), Some(DiskType::D71) => !d71_size(n), Some(DiskType::D81) => !d81_size(n),
                None => !d64_size(n) && !d71_size(n) && !d81_size(n),
            }
        }),
//@endfn
/// every layout has a size of its own, and a size fits at most one type
pub proof fn lemma_sizes(n: int)
    ensures !(d64_size(n) && d71_size(n)) && !(d64_size(n) && d81_size(n)) && !(d71_size(n) && d81_size(n)) // [P21]
{}
} // mod opening
pub use opening::*;
