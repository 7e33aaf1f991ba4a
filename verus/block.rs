pub mod block {
use super::*;

// The backing store (mapped file or boxed slice) is a plain byte vector here.
pub type Mmap = Vec<u8>;
pub type MmapMut = Vec<u8>;
/// msync of the mapping: assumed to leave the bytes alone.
#[verifier::external_body]
pub fn mmap_flush(m: &mut MmapMut) -> (r: io::Result<()>)
    ensures *final(m) == *old(m)
{ Ok(()) }

//@item src/disk/image.rs enum Image /Box<\[u8\]>/ => Vec<u8>
//@item src/disk/block.rs const BLOCK_SIZE
//@item src/disk/format.rs struct Track
//@item src/disk/mod.rs struct Geometry
//@item src/disk/block.rs struct Location
impl vstd::std_specs::cmp::PartialEqSpecImpl for Location {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Location) -> bool { *self == *o }
}
//@item src/disk/block.rs struct Position
//@item src/disk/block.rs struct ImageBlockDevice

impl Image {
    pub open spec fn bytes(&self) -> Seq<u8> {
        match self { Image::ReadOnlyMap(m) => m@, Image::ReadWriteMap(m) => m@, Image::Memory(m) => m@ }
    }
    pub open spec fn writable(&self) -> bool { !(self is ReadOnlyMap) }

//@props P01 P12 P21
//@fn src/disk/image.rs Image::len
//@ret r
//@spec
    ensures r == self.bytes().len()
//@endfn
//@props P01 P12
//@fn src/disk/image.rs Image::check_bounds
//@ret r
//@spec
    ensures r.is_ok() <==> offset <= self.bytes().len(), r.is_err() ==> r->Err_0.e == DiskError::InvalidOffset
//@endfn
//@props P01 P13
//@fn src/disk/image.rs Image::check_writability
//@ret r
//@spec
    ensures r.is_ok() <==> self.writable(), r.is_err() ==> r->Err_0.e == DiskError::ReadOnly
//@endfn
//@props P01 P12
//@fn src/disk/image.rs Image::slice
//@ret r
//@spec
    requires offset + length <= usize::MAX
    ensures
        r.is_ok() <==> offset + length <= self.bytes().len(),
        r.is_err() ==> r->Err_0.e == DiskError::InvalidOffset,
        r.is_ok() ==> r->Ok_0@ == self.bytes().subrange(offset as int, offset + length),
//@endfn
//@props P01 P12 P13
//@fn src/disk/image.rs Image::slice_mut
//@ret r
//@sub? /&mut (mmap|array)\[/ => &mut \1.as_mut_slice()[
//@spec
    requires offset + length <= usize::MAX
    ensures
        r.is_ok() <==> offset + length <= old(self).bytes().len() && old(self).writable(),
        r.is_err() ==> *final(self) == *old(self)
            && (r->Err_0.e == if offset + length <= old(self).bytes().len() { DiskError::ReadOnly } else { DiskError::InvalidOffset }),
        r.is_ok() ==> {
            let s = r->Ok_0;
            &&& s@ == old(self).bytes().subrange(offset as int, offset + length)
            &&& final(self).bytes() == splice(old(self).bytes(), offset as int, length as int, final(s)@)
            &&& final(self).writable() && ((*final(self)) is Memory) == ((*old(self)) is Memory)
        },
//@endfn
//@props P13 P21
//@fn src/disk/image.rs Image::flush
//@ret r
//@sub /mmap\.flush\(\)/ => mmap_flush(mmap)
//@spec
    ensures
        final(self).bytes() == old(self).bytes(),
        final(self).writable() == old(self).writable() && ((*final(self)) is Memory) == ((*old(self)) is Memory),
        !old(self).writable() ==> is_err(r, DiskError::ReadOnly),
        (*old(self)) is Memory ==> r.is_ok(),
//@endfn
}

/// `b` with the `n` bytes from `o` on replaced by `w`
pub open spec fn splice(b: Seq<u8>, o: int, n: int, w: Seq<u8>) -> Seq<u8> {
    b.take(o) + w + b.skip(o + n)
}

// ---------------------------------------------------------------- geometry

/// sectors on the tracks before track t
pub open spec fn before(l: Seq<Track>, t: int) -> int
    decreases t
{
    if t <= 1 { 0 } else { before(l, t - 1) + l[t - 1].sectors }
}

pub open spec fn wf_layout(l: Seq<Track>, tracks: int) -> bool {
    &&& 1 <= tracks <= 80
    &&& tracks < l.len()
    &&& forall|t: int| 1 <= t <= tracks ==> 1 <= #[trigger] l[t].sectors <= 40
    &&& forall|t: int| 1 <= t <= tracks ==> #[trigger] l[t].byte_offset == 256 * before(l, t)
}

pub open spec fn exists_on(l: Seq<Track>, tracks: int, loc: Location) -> bool {
    1 <= loc.0 <= tracks && loc.1 < l[loc.0 as int].sectors
}

pub open spec fn sector_no(l: Seq<Track>, loc: Location) -> int {
    before(l, loc.0 as int) + loc.1
}

pub proof fn lemma_before_mono(l: Seq<Track>, tracks: int, s: int, t: int)
    requires wf_layout(l, tracks), 1 <= s < t <= tracks + 1
    ensures before(l, s) + l[s].sectors <= before(l, t), 0 <= before(l, s)
    decreases t - s, t
{
    if s > 1 { lemma_before_mono(l, tracks, s - 1, s); }
    if s + 1 < t { lemma_before_mono(l, tracks, s, t - 1); }
}

pub proof fn lemma_before_nonneg(l: Seq<Track>, tracks: int, t: int)
    requires wf_layout(l, tracks), t <= tracks + 1
    ensures before(l, t) >= 0
    decreases t
{
    if t > 1 { lemma_before_nonneg(l, tracks, t - 1); }
}

/// P01: different existing sectors have different numbers, all below the total
pub proof fn lemma_sector_no(l: Seq<Track>, tracks: int, a: Location, b: Location)
    requires wf_layout(l, tracks), exists_on(l, tracks, a), exists_on(l, tracks, b)
    ensures
        0 <= sector_no(l, a) < before(l, tracks + 1),
        sector_no(l, a) == sector_no(l, b) ==> a == b,
{
    lemma_before_mono(l, tracks, a.0 as int, tracks + 1);
    if a.0 < b.0 { lemma_before_mono(l, tracks, a.0 as int, b.0 as int); }
    if b.0 < a.0 { lemma_before_mono(l, tracks, b.0 as int, a.0 as int); }
}

pub proof fn lemma_before_bound(l: Seq<Track>, tracks: int, t: int)
    requires wf_layout(l, tracks), t <= tracks + 1
    ensures before(l, t) <= (if t <= 1 { 0 } else { 40 * (t - 1) })
    decreases t
{
    if t > 1 { lemma_before_bound(l, tracks, t - 1); }
}

impl ImageBlockDevice {
    /// A device is well formed when its layout is and the image has room for it.
    pub open spec fn wf(&self) -> bool {
        &&& wf_layout(self.geometry.track_layouts@, self.geometry.tracks as int)
        &&& self.image.bytes().len() >= 256 * before(self.geometry.track_layouts@, self.geometry.tracks + 1)
        &&& self.image.bytes().len() <= 0x1000000
    }
    pub open spec fn valid(&self, loc: Location) -> bool {
        exists_on(self.geometry.track_layouts@, self.geometry.tracks as int, loc)
    }
    pub open spec fn off(&self, loc: Location) -> int {
        256 * sector_no(self.geometry.track_layouts@, loc)
    }
    /// contents of a sector
    pub open spec fn sec(&self, loc: Location) -> Seq<u8> {
        self.image.bytes().subrange(self.off(loc), self.off(loc) + 256)
    }
    pub open spec fn writable(&self) -> bool { self.image.writable() }
    /// same layout, same writability, same length: what no operation changes
    pub open spec fn same_shape(&self, o: &ImageBlockDevice) -> bool {
        &&& self.geometry == o.geometry
        &&& self.writable() == o.writable() && (self.image is Memory) == (o.image is Memory)
        &&& self.image.bytes().len() == o.image.bytes().len()
        &&& self.wf() == o.wf()
    }
    /// all bytes beyond the sectors (the error table) are equal
    pub open spec fn same_table(&self, o: &ImageBlockDevice) -> bool {
        let n = 256 * before(self.geometry.track_layouts@, self.geometry.tracks + 1);
        self.image.bytes().skip(n) == o.image.bytes().skip(n)
    }

    pub proof fn lemma_off(&self, loc: Location)
        requires self.wf(), self.valid(loc)
        ensures
            0 <= self.off(loc), self.off(loc) + 256 <= 256 * before(self.geometry.track_layouts@, self.geometry.tracks + 1),
            self.off(loc) + 256 <= self.image.bytes().len(), self.sec(loc).len() == 256,
    {
        lemma_sector_no(self.geometry.track_layouts@, self.geometry.tracks as int, loc, loc);
    }

    /// replacing one sector changes that sector and no other, and not the error table
    pub proof fn lemma_splice(&self, o: &ImageBlockDevice, loc: Location, w: Seq<u8>)
        requires
            o.wf(), o.valid(loc), w.len() == 256, self.geometry == o.geometry,
            self.image.bytes() == splice(o.image.bytes(), o.off(loc), 256, w),
        ensures
            self.wf(), self.sec(loc) == w,
            self.image.bytes().len() == o.image.bytes().len(),
            self.same_table(o),
            forall|l: Location| #[trigger] o.valid(l) && l != loc ==> self.sec(l) == o.sec(l),
    {
        o.lemma_off(loc);
        let n = 256 * before(self.geometry.track_layouts@, self.geometry.tracks + 1);
        assert(self.sec(loc) =~= w);
        assert(self.image.bytes().skip(n) =~= o.image.bytes().skip(n));
        assert forall|l: Location| #[trigger] o.valid(l) && l != loc implies self.sec(l) == o.sec(l) by {
            o.lemma_off(l);
            lemma_sector_no(self.geometry.track_layouts@, self.geometry.tracks as int, l, loc);
            assert(self.sec(l) =~= o.sec(l));
        }
    }

//@props P01 P12
//@fn src/disk/block.rs ImageBlockDevice::new
//@ret r
//@spec
    ensures r.image == image, r.geometry == geometry
//@endfn

//@fn src/disk/block.rs ImageBlockDevice::get_offset
//@ret r
//@spec
    requires self.wf()
    ensures
        r.is_ok() <==> self.valid(location),
        r.is_err() ==> r->Err_0.e == DiskError::InvalidLocation,
        r.is_ok() ==> r->Ok_0 == self.off(location),
//@start
    proof {
        if self.valid(location) { self.lemma_off(location); }
    }
//@endfn

//@props P13
//@fn src/disk/block.rs BlockDevice for ImageBlockDevice::check_writability
//@ret r
//@spec
    ensures r.is_ok() <==> self.writable(), r.is_err() ==> r->Err_0.e == DiskError::ReadOnly
//@endfn

//@props P01 P12
//@fn src/disk/block.rs BlockDevice for ImageBlockDevice::sector
//@ret r
//@spec
    requires self.wf()
    ensures
        r.is_ok() <==> self.valid(location),
        r.is_err() ==> r->Err_0.e == DiskError::InvalidLocation,
        r.is_ok() ==> r->Ok_0@ == self.sec(location) && r->Ok_0@.len() == 256,
//@start
    proof {
        if self.valid(location) { self.lemma_off(location); }
    }
//@endfn

//@props P01 P12 P13
//@fn src/disk/block.rs BlockDevice for ImageBlockDevice::sector_mut
//@ret r
//@spec
    requires old(self).wf()
    ensures
        r.is_ok() <==> old(self).writable() && old(self).valid(location),
        final(self).geometry == old(self).geometry, final(self).writable() == old(self).writable(), (final(self).image is Memory) == (old(self).image is Memory),
        r.is_err() ==> final(self).image == old(self).image
            && (r->Err_0.e == if old(self).writable() { DiskError::InvalidLocation } else { DiskError::ReadOnly }),
        r.is_ok() ==> {
            let s = r->Ok_0;
            &&& s@ == old(self).sec(location) && s@.len() == 256
            &&& final(s)@.len() == 256 ==> sector_replaced(old(self), final(self), location, final(s)@)
        },
//@start
    proof {
        if self.valid(location) {
            let o = *self;
            o.lemma_off(location);
            assert forall|f: ImageBlockDevice, w: Seq<u8>|
                f.geometry == o.geometry && w.len() == 256 && f.writable() == o.writable() && (f.image is Memory) == (o.image is Memory)
                && #[trigger] f.image.bytes() == #[trigger] splice(o.image.bytes(), o.off(location), 256, w)
                implies sector_replaced(&o, &f, location, w) by { f.lemma_splice(&o, location, w); }
        }
    }
//@endfn
}

/// f is o with the contents of one sector replaced: nothing else differs
pub open spec fn sector_replaced(o: &ImageBlockDevice, f: &ImageBlockDevice, loc: Location, w: Seq<u8>) -> bool {
    &&& f.wf() && f.same_shape(o) && f.same_table(o)
    &&& f.image.bytes() == splice(o.image.bytes(), o.off(loc), 256, w)
    &&& f.sec(loc) == w
    &&& forall|l: Location| #[trigger] o.valid(l) && l != loc ==> f.sec(l) == o.sec(l)
}

impl Location {
//@props P01 P10
//@fn src/disk/block.rs Location::new
//@ret r
//@spec
    ensures r == Location(track, sector)
//@endfn
//@fn src/disk/block.rs Location::from_bytes
//@ret r
//@spec
    requires bytes@.len() >= 2
    ensures r == Location(bytes@[0], bytes@[1])
//@endfn
//@fn src/disk/block.rs Location::write_bytes
//@ret r
//@spec
    requires old(bytes)@.len() >= 2
    ensures final(bytes)@ == old(bytes)@.update(0, self.0).update(1, self.1)
//@endfn
}

// ---------------------------------------------------------------- geometries

pub open spec fn wf_geometry(g: &Geometry) -> bool {
    wf_layout(g.track_layouts@, g.tracks as int) && g.track_layouts@[0].sectors == 0
}
pub open spec fn geometry_sectors(g: &Geometry) -> int { before(g.track_layouts@, g.tracks + 1) }
pub open spec fn geometry_size(g: &Geometry) -> int {
    256 * geometry_sectors(g) + if g.with_error_table { geometry_sectors(g) } else { 0 }
}
impl Geometry {
//@props P21
//@fn src/disk/mod.rs Geometry::find_by_size
//@ret r
//@spec
    requires forall|k: int| 0 <= k < geometries@.len() ==> wf_geometry(#[trigger] geometries@[k])
    ensures
        r.is_some() ==> geometry_size(r->Some_0) == size && exists|k: int| 0 <= k < geometries@.len() && #[trigger] geometries@[k] == r->Some_0,
        r.is_none() ==> forall|k: int| 0 <= k < geometries@.len() ==> geometry_size(#[trigger] geometries@[k]) != size,
//@loop 1 it
    invariant
        it.seq().len() == geometries@.len(), forall|k: int| 0 <= k < it.seq().len() ==> *#[trigger] it.seq()[k] == geometries@[k],
        forall|k: int| 0 <= k < geometries@.len() ==> wf_geometry(#[trigger] geometries@[k]),
        forall|k: int| 0 <= k < it.index@ ==> geometry_size(#[trigger] geometries@[k]) != size,
//@endfn
//@fn src/disk/mod.rs Geometry::size_without_error_table
//@ret r
//@spec
    requires wf_geometry(self)
    ensures r == 256 * geometry_sectors(self)
//@start
    proof { lemma_before_bound(self.track_layouts@, self.tracks as int, self.tracks as int); lemma_before_nonneg(self.track_layouts@, self.tracks as int, self.tracks as int); }
//@endfn
//@fn src/disk/mod.rs Geometry::error_table_size
//@ret r
//@sub /self\s*\.track_layouts\s*\.iter\(\)\s*\.take\((.*?)\)\s*\.map\(\|(\w+)\| (.*?)\)\s*\.sum::<usize>\(\)/ => let take_: usize = \1; let mut sum_: usize = 0; let mut i_: usize = 0; while i_ < take_ && i_ < self.track_layouts.len() { let \2 = &self.track_layouts[i_]; sum_ = sum_ + (\3); i_ = i_ + 1; } sum_
//@spec
    requires wf_geometry(self)
    ensures r == geometry_sectors(self)
//@loop 1
    invariant
        wf_geometry(self), take_ == self.tracks + 1, i_ <= take_, sum_ == (if i_ == 0 { 0 } else { before(self.track_layouts@, i_ as int) }),
        sum_ <= 40 * i_,
    decreases take_ - i_
//@endfn
//@fn src/disk/mod.rs Geometry::size
//@ret r
//@spec
    requires wf_geometry(self)
    ensures r == geometry_size(self)
//@start
    proof { lemma_before_bound(self.track_layouts@, self.tracks as int, self.tracks + 1); }
//@endfn
//@fn src/disk/mod.rs Geometry::error_table_offset
//@ret r
//@spec
    requires wf_geometry(self)
    ensures r == (if self.with_error_table { Some((256 * geometry_sectors(self)) as usize) } else { None })
//@endfn
}
} // mod block
pub use block::*;
