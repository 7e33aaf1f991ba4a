pub mod writer {
use super::*;
//@item src/disk/chain.rs struct ChainWriter

#[derive(Clone, Copy)]
pub struct BamRef;

// ---------------------------------------------------------------- positioned data

/// a directory slot on the disk
pub open spec fn wf_pos(dev: &ImageBlockDevice, p: Position) -> bool { p.size == 32 && p.offset + 32 <= 256 && dev.valid(p.location) }
pub open spec fn slot(dev: &ImageBlockDevice, p: Position) -> Seq<u8> { dev.sec(p.location).subrange(p.offset as int, p.offset + 32) }
pub open spec fn with_slot(s: Seq<u8>, p: Position, b: Seq<u8>) -> Seq<u8> { splice(s, p.offset as int, 32, b) }

impl ImageBlockDevice {
//@props P01 P12
//@fn src/disk/block.rs BlockDevice::sector_owned
//@ret r
//@sub? /(self\.sector\(\w+\)\?)\.to_owned\(\)/ => ({ let s_ = \1; let v_ = s_.to_vec(); assert(v_@ =~= s_@); v_ })
//@spec
    requires self.wf()
    ensures
        r.is_ok() <==> self.valid(location), r.is_err() ==> r->Err_0.e == DiskError::InvalidLocation,
        r.is_ok() ==> r->Ok_0@ == self.sec(location) && r->Ok_0@.len() == 256,
//@endfn
//@fn src/disk/block.rs BlockDevice::read_position
//@ret r
//@spec
    requires self.wf(), position.offset + position.size <= 256
    ensures
        r.is_ok() <==> self.valid(position.location), r.is_err() ==> r->Err_0.e == DiskError::InvalidLocation,
        r.is_ok() ==> r->Ok_0@ == self.sec(position.location).subrange(position.offset as int, position.offset + position.size),
//@endfn
//@props P08 P11 P12
//@fn src/disk/block.rs BlockDevice::positioned_read
//@ret r
//@sig /&mut dyn PositionedData/ => &mut DirectoryEntry
//@spec
    requires self.wf(), old(positioned_data).position.is_some() ==> (old(positioned_data).position->Some_0).size == 32 && (old(positioned_data).position->Some_0).offset + 32 <= 256
    ensures
        r.is_ok() <==> old(positioned_data).position.is_some() && self.valid((old(positioned_data).position->Some_0).location),
        r.is_ok() ==> decodes(final(positioned_data), slot(self, old(positioned_data).position->Some_0)) && final(positioned_data).position == old(positioned_data).position,
        r.is_err() ==> *final(positioned_data) == *old(positioned_data)
            && r->Err_0.e == (if old(positioned_data).position.is_some() { DiskError::InvalidLocation } else { DiskError::Unpositioned }),
//@endfn
//@props P08 P11 P12 P13
//@fn src/disk/block.rs BlockDevice::positioned_write
//@ret r
//@sig /&dyn PositionedData/ => &DirectoryEntry
//@spec
    requires old(self).wf(), wf_entry(positioned_data),
        positioned_data.position.is_some() ==> (positioned_data.position->Some_0).size == 32 && (positioned_data.position->Some_0).offset + 32 <= 256
    ensures
        r.is_ok() <==> positioned_data.position.is_some() && old(self).writable() && old(self).valid((positioned_data.position->Some_0).location),
        r.is_err() ==> final(self).image == old(self).image && final(self).geometry == old(self).geometry,
        is_err(r, DiskError::ReadOnly) <==> r.is_err() && positioned_data.position.is_some() && !old(self).writable(),
        r.is_ok() ==> slot_written(old(self), final(self), positioned_data),
//@endfn
}
/// f is o with the slot of e holding the encoding of e, its two link bytes kept; nothing else differs
pub open spec fn slot_written(o: &ImageBlockDevice, f: &ImageBlockDevice, e: &DirectoryEntry) -> bool {
    let p = e.position->Some_0;
    &&& encodes(e, slot(f, p)) && slot(f, p).take(2) == slot(o, p).take(2)
    &&& sector_replaced(o, f, p.location, with_slot(o.sec(p.location), p, slot(f, p)))
}

// ---------------------------------------------------------------- stored block counts

pub open spec fn stored_size(b: Seq<u8>) -> int { b[30] + 256 * b[31] }
pub open spec fn with_size(b: Seq<u8>, n: int) -> Seq<u8> { b.update(30, (n % 256) as u8).update(31, (n / 256) as u8) }
/// one block more (the count is 16 bits wide)
pub open spec fn bump(n: int) -> int { if n < 65535 { n + 1 } else { 65535 } }
pub open spec fn bumps(n: int, k: int) -> int { if n + k < 65535 { n + k } else { 65535 } }

pub proof fn lemma_resize(e: &DirectoryEntry, e2: &DirectoryEntry, b: Seq<u8>, c: Seq<u8>)
    requires
        decodes(e, b), encodes(e2, c), c.take(2) == b.take(2),
        e2.file_attributes == e.file_attributes, e2.first_sector == e.first_sector, e2.filename == e.filename, e2.extra == e.extra,
    ensures c == with_size(b, e2.file_size as int)
{
    let c0 = with_size(c, e.file_size as int);
    assert(c0.subrange(5, 21) =~= c.subrange(5, 21));
    assert(c0.subrange(21, 30) =~= c.subrange(21, 30));
    assert(encodes(e, c0));
    lemma_entry_roundtrip(e, b, c0);
    assert forall|k: int| 0 <= k < 32 implies c[k] == with_size(b, e2.file_size as int)[k] by {
        if k < 2 { assert(c.take(2)[k] == b.take(2)[k]); assert(c.take(2)[k] == c[k]); assert(b.take(2)[k] == b[k]); assert(c[k] == b[k]); assert(with_size(b, e2.file_size as int)[k] == b[k]); }
        else if k < 30 { assert(c0.skip(2)[k - 2] == b.skip(2)[k - 2]); assert(c0[k] == c[k]); assert(c0[k] == b[k]); assert(with_size(b, e2.file_size as int)[k] == b[k]); }
        else if k == 30 { assert(c[30] as int == e2.file_size as int % 256); assert(with_size(b, e2.file_size as int)[30] == (e2.file_size as int % 256) as u8); }
        else { assert(c[31] as int == e2.file_size as int / 256); assert(with_size(b, e2.file_size as int)[31] == (e2.file_size as int / 256) as u8); }
    }
    assert(c =~= with_size(b, e2.file_size as int));
}

// ---------------------------------------------------------------- disk and writer invariants

pub open spec fn bam_sector(f: &BamFormat, l: Location) -> bool {
    exists|k: int| 0 <= k < f.sections@.len() && (l == (#[trigger] f.sections@[k]).bitmap_location || l == f.sections@[k].free_location)
}
/// device and free-space map of one disk: well formed, and the map is consistent
pub open spec fn disk_ok(dev: &ImageBlockDevice, bam: &Bam) -> bool {
    &&& dev.wf() && bam.wf() && consistent(&bam.format, bam)
    &&& forall|l: Location| #[trigger] bam.has(l) ==> dev.valid(l)
    &&& wf_bamformat(bam.bam_rw.format) && bam_fits(bam.bam_rw.format, dev) && bam.bam_rw.format.sections@.len() > 0
    &&& sum_tracks(bam.bam_rw.format.sections@, bam.bam_rw.format.sections@.len() as int) == bam.entries@.len()
    &&& forall|l: Location| #[trigger] bam_sector(bam.bam_rw.format, l) ==> bam.format.skipped(l.0 as int)
}
/// l may hold file data: it is in use, and is neither a map sector nor the directory sector d
pub open spec fn owned(bam: &Bam, d: Location, l: Location) -> bool {
    bam.has(l) && !bam.is_free(l) && l != d && !bam_sector(bam.bam_rw.format, l)
}
/// the writer is at the end of the chain ls; its last block is in memory, its earlier ones on the disk
#[verifier::opaque]
pub open spec fn writer_at(dev: &ImageBlockDevice, bam: &Bam, w: &ChainWriter, start: Location, ls: Seq<Location>) -> bool {
    &&& disk_ok(dev, bam)
    &&& chain(dev, start, ls) && w.location == ls.last()
    &&& w.block@.len() == 256 && link(w.block@).is_some() && link_next(w.block@).is_none()
    &&& w.entry.position.is_some() && wf_pos(dev, w.entry.position->Some_0)
    &&& ({ let d = (w.entry.position->Some_0).location; !bam_sector(bam.bam_rw.format, d) && bam.has(d) && !bam.is_free(d) })
    &&& forall|k: int| 0 <= k < ls.len() ==> owned(bam, (w.entry.position->Some_0).location, #[trigger] ls[k])
}
/// the bytes of the file, the pending ones included
pub open spec fn written(dev: &ImageBlockDevice, w: &ChainWriter, ls: Seq<Location>) -> Seq<u8> {
    content(dev, ls.drop_last()) + payload(w.block@)
}
/// the same map but for the sectors `new`, which were free and now are in use
pub open spec fn taken(b0: &Bam, b1: &Bam, new: Seq<Location>) -> bool {
    &&& b1.format == b0.format && b1.bam_rw.format == b0.bam_rw.format && b1.invalidated == b0.invalidated
    &&& forall|k: int| 0 <= k < new.len() ==> b0.has(#[trigger] new[k]) && b0.is_free(new[k]) && !b0.format.skipped(new[k].0 as int)
    &&& forall|l: Location| b0.has(l) ==> #[trigger] b1.is_free(l) == (b0.is_free(l) && !new.contains(l))
}
/// what a writer may change: the last sector it had, new sectors, and the block count of its entry
pub open spec fn write_frame(d0: &ImageBlockDevice, d1: &ImageBlockDevice, p: Position, last: Location, new: Seq<Location>) -> bool {
    &&& d1.same_shape(d0) && d1.same_table(d0)
    &&& d1.sec(p.location) == with_slot(d0.sec(p.location), p, with_size(slot(d0, p), bumps(stored_size(slot(d0, p)), new.len() as int)))
    &&& forall|l: Location| #[trigger] d0.valid(l) && l != last && l != p.location && !new.contains(l) ==> d1.sec(l) == d0.sec(l)
}

pub proof fn lemma_frame_none(d0: &ImageBlockDevice, d1: &ImageBlockDevice, p: Position, last: Location)
    requires
        d0.wf(), wf_pos(d0, p), d1.same_shape(d0), d1.same_table(d0), last != p.location || d0 == d1,
        forall|l: Location| #[trigger] d0.valid(l) && l != last ==> d1.sec(l) == d0.sec(l),
    ensures write_frame(d0, d1, p, last, Seq::empty())
{
    d0.lemma_off(p.location);
    let b = slot(d0, p);
    assert(d0.valid(p.location));
    assert(with_size(b, bumps(stored_size(b), 0)) =~= b);
    assert(with_slot(d0.sec(p.location), p, b) =~= d0.sec(p.location));
}
/// disk_ok depends on the shape of the device and the consistency of the map
pub proof fn lemma_disk_ok(d0: &ImageBlockDevice, b0: &Bam, d1: &ImageBlockDevice, b1: &Bam)
    requires
        disk_ok(d0, b0), d1.wf(), d1.geometry == d0.geometry, b1.wf(), consistent(&b1.format, b1),
        b1.format == b0.format, b1.bam_rw.format == b0.bam_rw.format, b1.entries@.len() == b0.entries@.len(),
    ensures disk_ok(d1, b1)
{
    assert forall|l: Location| #[trigger] b1.has(l) implies d1.valid(l) by { assert(b0.has(l)); assert(d0.valid(l)); }
    let f = b1.bam_rw.format;
    assert forall|k: int| 0 <= k < f.sections@.len() implies d1.valid((#[trigger] f.sections@[k]).bitmap_location) && d1.valid(f.sections@[k].free_location) by {
        assert(d0.valid(f.sections@[k].bitmap_location) && d0.valid(f.sections@[k].free_location));
    }
}
/// chains and their contents depend on their own sectors only
pub proof fn lemma_content_frame(d0: &ImageBlockDevice, d1: &ImageBlockDevice, ls: Seq<Location>)
    requires forall|k: int| 0 <= k < ls.len() ==> d1.sec(#[trigger] ls[k]) == d0.sec(ls[k])
    ensures content(d1, ls) == content(d0, ls)
    decreases ls.len()
{
    if ls.len() > 0 {
        let i = ls.len() - 1;
        assert(d1.sec(ls[i]) == d0.sec(ls[i]));
        assert forall|k: int| 0 <= k < ls.drop_last().len() implies d1.sec(#[trigger] ls.drop_last()[k]) == d0.sec(ls.drop_last()[k]) by { assert(d1.sec(ls[k]) == d0.sec(ls[k])); }
        lemma_content_frame(d0, d1, ls.drop_last());
    }
}
pub proof fn lemma_walk_frame(d0: &ImageBlockDevice, d1: &ImageBlockDevice, start: Location, ls: Seq<Location>)
    requires walk(d0, start, ls), d0.geometry == d1.geometry, forall|k: int| 0 <= k < ls.len() ==> d1.sec(#[trigger] ls[k]) == d0.sec(ls[k])
    ensures walk(d1, start, ls), content(d1, ls) == content(d0, ls), next_of(d1, start, ls) == next_of(d0, start, ls)
{
    lemma_content_frame(d0, d1, ls);
    assert forall|k: int| 0 <= k < ls.len() implies d1.valid(#[trigger] ls[k]) && link(d1.sec(ls[k])).is_some() by { assert(d0.valid(ls[k])); }
    assert forall|k: int| 0 <= k < ls.len() - 1 implies link_next(#[trigger] d1.sec(ls[k])) == Some(ls[k + 1]) by { assert(link_next(d0.sec(ls[k])) == Some(ls[k + 1])); }
    if ls.len() > 0 { let i = ls.len() - 1; assert(d1.sec(ls[i]) == d0.sec(ls[i])); }
}
/// replacing the last sector of a chain by another tail keeps the chain
pub proof fn lemma_chain_tail(d0: &ImageBlockDevice, d1: &ImageBlockDevice, start: Location, ls: Seq<Location>, b: Seq<u8>)
    requires
        chain(d0, start, ls), d0.geometry == d1.geometry, d1.sec(ls.last()) == b, link(b).is_some(), link_next(b).is_none(),
        forall|k: int| 0 <= k < ls.len() - 1 ==> d1.sec(#[trigger] ls[k]) == d0.sec(ls[k]),
    ensures
        chain(d1, start, ls), content(d1, ls) == content(d0, ls.drop_last()) + payload(b), content(d1, ls.drop_last()) == content(d0, ls.drop_last()),
{
    let q = ls.drop_last();
    assert forall|k: int| 0 <= k < q.len() implies d1.sec(#[trigger] q[k]) == d0.sec(q[k]) by { assert(d1.sec(ls[k]) == d0.sec(ls[k])); }
    lemma_content_frame(d0, d1, q);
    assert forall|k: int| 0 <= k < ls.len() implies d1.valid(#[trigger] ls[k]) && link(d1.sec(ls[k])).is_some() by { assert(d0.valid(ls[k])); if k < ls.len() - 1 { assert(d1.sec(ls[k]) == d0.sec(ls[k])); } }
    assert forall|k: int| 0 <= k < ls.len() - 1 implies link_next(#[trigger] d1.sec(ls[k])) == Some(ls[k + 1]) by { assert(link_next(d0.sec(ls[k])) == Some(ls[k + 1])); assert(d1.sec(ls[k]) == d0.sec(ls[k])); }
}
/// linking the last sector of a chain to a new tail
pub proof fn lemma_chain_extend(d0: &ImageBlockDevice, d1: &ImageBlockDevice, start: Location, ls: Seq<Location>, l: Location)
    requires
        chain(d0, start, ls), d0.geometry == d1.geometry, d1.valid(l), !ls.contains(l),
        link_next(d1.sec(ls.last())) == Some(l), link(d1.sec(l)).is_some(), link_next(d1.sec(l)).is_none(),
        forall|k: int| 0 <= k < ls.len() - 1 ==> d1.sec(#[trigger] ls[k]) == d0.sec(ls[k]),
    ensures
        chain(d1, start, ls.push(l)), content(d1, ls) == content(d0, ls.drop_last()) + payload(d1.sec(ls.last())), ls.push(l).drop_last() == ls,
{
    let q = ls.drop_last();
    assert forall|k: int| 0 <= k < q.len() implies d1.sec(#[trigger] q[k]) == d0.sec(q[k]) by { assert(d1.sec(ls[k]) == d0.sec(ls[k])); }
    lemma_content_frame(d0, d1, q);
    let v = ls.push(l);
    assert(v.drop_last() =~= ls);
    assert forall|k: int| 0 <= k < v.len() implies d1.valid(#[trigger] v[k]) && link(d1.sec(v[k])).is_some() by {
        if k < ls.len() { assert(d0.valid(ls[k])); if k < ls.len() - 1 { assert(d1.sec(ls[k]) == d0.sec(ls[k])); } }
    }
    assert forall|j: int, k: int| 0 <= j < k < v.len() implies #[trigger] v[j] != #[trigger] v[k] by {
        if k == ls.len() { assert(v[j] == ls[j]); assert(ls.contains(ls[j])); }
    }
    assert forall|k: int| 0 <= k < v.len() - 1 implies link_next(#[trigger] d1.sec(v[k])) == Some(v[k + 1]) by {
        if k < ls.len() - 1 { assert(link_next(d0.sec(ls[k])) == Some(ls[k + 1])); assert(d1.sec(ls[k]) == d0.sec(ls[k])); }
    }
}
/// marking one sector keeps a map consistent
pub proof fn lemma_allocate_consistent(b0: &Bam, b1: &Bam, l: Location)
    requires b0.wf(), b1.wf(), consistent(&b0.format, b0), b0.has(l), b1.changed(b0, l, false)
    ensures consistent(&b1.format, b1), forall|x: Location| b0.has(x) ==> #[trigger] b1.is_free(x) == (b0.is_free(x) && x != l)
{
    assert forall|t: int| 1 <= t <= b1.format.last_track implies (#[trigger] b1.entries@[t - 1]).free_sectors == crate::bam::count(b1.entries@[t - 1].sector_map, 64) by {
        if t != l.0 { assert(b1.entries@[t - 1] == b0.entries@[t - 1]); }
    }
    assert forall|t: int, s: int| 1 <= t <= b1.format.last_track && b1.format.tracks@[t].sectors <= s < 64 implies !#[trigger] fr(b1.entries@[t - 1].sector_map, s) by {
        if t != l.0 { assert(b1.entries@[t - 1] == b0.entries@[t - 1]); } else { assert(!fr(b0.entries@[t - 1].sector_map, s)); }
    }
    assert forall|s: int| b1.format.reserved_track > 0 implies !#[trigger] fr(b1.entries@[b1.format.reserved_track - 1].sector_map, s) by {
        let t = b1.format.reserved_track as int;
        assert(!fr(b0.entries@[t - 1].sector_map, s));
        if t != l.0 { assert(b1.entries@[t - 1] == b0.entries@[t - 1]); }
        else if s != l.1 && 0 <= s < 64 { }
    }
    assert forall|x: Location| b0.has(x) implies #[trigger] b1.is_free(x) == (b0.is_free(x) && x != l) by {
        if x.0 != l.0 { assert(b1.entries@[x.0 - 1] == b0.entries@[x.0 - 1]); }
        else if x.1 != l.1 { assert(fr(b1.entries@[l.0 - 1].sector_map, x.1 as int) == fr(b0.entries@[l.0 - 1].sector_map, x.1 as int)); }
    }
}

/// the walk ls goes on to l, which was not visited
#[verifier::opaque]
pub open spec fn walking(dev: &ImageBlockDevice, start: Location, ls: Seq<Location>, l: Location) -> bool {
    walk(dev, start, ls) && next_of(dev, start, ls) == Some(l) && !ls.contains(l)
}
pub proof fn lemma_walking_start(dev: &ImageBlockDevice, start: Location)
    requires dev.wf()
    ensures walking(dev, start, Seq::empty(), start), !dev.valid(start) ==> forall|c: Seq<Location>| !chain(dev, start, c)
{
    reveal(walking);
    lemma_next(dev, start, Seq::empty(), start);
}
pub proof fn lemma_walking(dev: &ImageBlockDevice, start: Location, ls: Seq<Location>, l: Location)
    requires dev.wf(), walking(dev, start, ls, l), dev.valid(l)
    ensures
        link(dev.sec(l)).is_none() ==> forall|c: Seq<Location>| !chain(dev, start, c),
        link(dev.sec(l)).is_some() ==> ls.len() < before(dev.geometry.track_layouts@, dev.geometry.tracks + 1),
        link(dev.sec(l)).is_some() && link_next(dev.sec(l)).is_none() ==> chain(dev, start, ls.push(l)),
        link_next(dev.sec(l)).is_some() ==> ({
            let n = link_next(dev.sec(l))->Some_0;
            &&& set_of(ls.push(l)).contains(n) || !dev.valid(n) ==> forall|c: Seq<Location>| !chain(dev, start, c)
            &&& !set_of(ls.push(l)).contains(n) ==> walking(dev, start, ls.push(l), n)
        }),
{
    reveal(walking);
    lemma_next(dev, start, ls, l);
    lemma_set_push(ls.push(l), l);
    if let Some(n) = link_next(dev.sec(l)) { lemma_next(dev, start, ls.push(l), n); }
}
/// a writer on a device that differs in other sectors and in its last one
pub proof fn lemma_writer_frame(d0: &ImageBlockDevice, b0: &Bam, w0: &ChainWriter, d1: &ImageBlockDevice, b1: &Bam, w1: &ChainWriter, start: Location, ls: Seq<Location>)
    requires
        writer_at(d0, b0, w0, start, ls), w1.location == w0.location, w1.block == w0.block, w1.entry == w0.entry,
        d1.wf(), d1.geometry == d0.geometry, b1.entries == b0.entries, b1.format == b0.format, b1.bam_rw.format == b0.bam_rw.format, b1.invalidated == b0.invalidated,
        forall|l: Location, x: int| d0.valid(l) && l != ls.last() && 0 <= x < 256 && !covered(b0.bam_rw.format.sections@, b0.bam_rw.format.sections@.len() as int, l, x)
            ==> #[trigger] d1.sec(l)[x] == d0.sec(l)[x],
        d1.sec(ls.last()) == d0.sec(ls.last()) || d1.sec(ls.last()) == w0.block@,
    ensures
        writer_at(d1, b1, w1, start, ls), written(d1, w1, ls) == written(d0, w0, ls),
        d1.sec(ls.last()) == w0.block@ ==> content(d1, ls) == written(d0, w0, ls),
{
    reveal(writer_at);
    let p = w0.entry.position->Some_0;
    let last = ls.last();
    assert forall|k: int| 0 <= k < ls.len() - 1 implies d1.sec(#[trigger] ls[k]) == d0.sec(ls[k]) by {
        let l = ls[k];
        assert(d0.valid(l) && l != ls[ls.len() - 1]);
        assert(owned(b0, p.location, l));
        d0.lemma_off(l); d1.lemma_off(l);
        assert forall|x: int| 0 <= x < 256 implies d1.sec(l)[x] == d0.sec(l)[x] by { lemma_not_covered(b0.bam_rw.format, l, x); }
        assert(d1.sec(l) =~= d0.sec(l));
    }
    lemma_chain_tail(d0, d1, start, ls, d1.sec(last));
    lemma_disk_ok(d0, b0, d1, b1);
    assert forall|k: int| 0 <= k < ls.len() implies owned(b1, p.location, #[trigger] ls[k]) by { assert(owned(b0, p.location, ls[k])); }
}
pub proof fn lemma_not_covered(f: &BamFormat, l: Location, x: int)
    requires !bam_sector(f, l)
    ensures !covered(f.sections@, f.sections@.len() as int, l, x)
{
    if covered(f.sections@, f.sections@.len() as int, l, x) {
        let k = choose|k: int| 0 <= k < f.sections@.len() && covers(&#[trigger] f.sections@[k], l, x);
        assert(l == f.sections@[k].bitmap_location || l == f.sections@[k].free_location);
    }
}

impl ImageBlockDevice {
//@props P13 P21
//@fn src/disk/block.rs BlockDevice for ImageBlockDevice::flush
//@ret r
//@spec
    ensures
        final(self).image.bytes() == old(self).image.bytes(), final(self).geometry == old(self).geometry, final(self).writable() == old(self).writable(),
        forall|l: Location| #[trigger] final(self).sec(l) == old(self).sec(l), old(self).wf() ==> final(self).wf(),
        old(self).wf() ==> final(self).same_shape(old(self)) && final(self).same_table(old(self)),
        !old(self).writable() ==> is_err(r, DiskError::ReadOnly), old(self).image is Memory ==> r.is_ok(),
//@endfn
}

impl ChainWriter {
//@props P06 P07 P08 P12
//@fn src/disk/chain.rs ChainWriter::increment_entry_blocks
//@ret r
//@sig /&mut self/ => &mut self, hb: &mut ImageBlockDevice
//@sub /self\.blocks\.borrow_mut\(\)/ => (&mut *hb)
//@spec
    requires old(hb).wf(), old(self).entry.position.is_some(), wf_pos(old(hb), old(self).entry.position->Some_0)
    ensures
        final(self).location == old(self).location, final(self).block == old(self).block, final(self).dirty == old(self).dirty,
        final(self).entry.position == old(self).entry.position,
        r.is_ok() <==> old(hb).writable(),
        r.is_err() ==> final(hb).image == old(hb).image && final(hb).geometry == old(hb).geometry,
        r.is_ok() ==> ({
            let p = old(self).entry.position->Some_0;
            let b = slot(old(hb), p);
            sector_replaced(old(hb), final(hb), p.location, with_slot(old(hb).sec(p.location), p, with_size(b, bump(stored_size(b)))))
        }),
//@after /positioned_read/
    let ghost e0 = self.entry;
    proof { lemma_decodes_wf(&e0, slot(old(hb), e0.position->Some_0)); }
//@end
    proof {
        let p = e0.position->Some_0;
        lemma_resize(&e0, &self.entry, slot(old(hb), p), slot(hb, p));
    }
//@endfn
//@fn src/disk/chain.rs ChainWriter::write_current_block
//@ret r
//@sig /&mut self/ => &mut self, hb: &mut ImageBlockDevice
//@sub /self\.blocks\.borrow_mut\(\)/ => (&mut *hb)
//@spec
    requires old(hb).wf(), old(self).block@.len() == 256
    ensures
        *final(self) == *old(self),
        r.is_ok() <==> old(hb).writable() && old(hb).valid(old(self).location),
        r.is_err() ==> final(hb).image == old(hb).image && final(hb).geometry == old(hb).geometry,
        !old(hb).writable() ==> is_err(r, DiskError::ReadOnly), // [P13]
        r.is_ok() ==> sector_replaced(old(hb), final(hb), old(self).location, old(self).block@),
//@endfn
//@fn src/disk/chain.rs ChainWriter::allocate_next_block
//@ret r
//@sig /&mut self/ => &mut self, hb: &mut ImageBlockDevice, hm: &mut Bam, Ghost(start): Ghost<Location>, Ghost(ls): Ghost<Seq<Location>>
//@sub /self\s*\.blocks\s*\.borrow_mut\(\)/ => (&mut *hb)
//@sub /self\s*\.bam\s*\.borrow_mut\(\)/ => (&mut *hm)
//@sub /self\.write_current_block\(\)/ => self.write_current_block(hb)
//@sub /self\.increment_entry_blocks\(\)/ => self.increment_entry_blocks(hb)
//@sub? /&mut self\.block\[\.\.\]/ => self.block.as_mut_slice()
//@spec
    requires writer_at(old(hb), old(hm), old(self), start, ls), used(old(self).block@) == 256
    ensures
        !old(hb).writable() ==> is_err(r, DiskError::ReadOnly) && *final(hm) == *old(hm) && final(hb).image == old(hb).image && final(hb).geometry == old(hb).geometry, // [P13]
        r.is_err() ==> not_extended(old(hb), old(hm), old(self), final(hb), final(hm), final(self), start, ls),
        r.is_err() && old(hb).writable() ==> r->Err_0.e == DiskError::DiskFull && forall|l: Location| eligible(&old(hm).format, false, l) ==> !#[trigger] old(hm).is_free(l),
        r.is_ok() ==> r->Ok_0 == 254 && used(final(self).block@) == 2 && final(self).block@.len() == 256 && link(final(self).block@).is_some() && link_next(final(self).block@).is_none()
            && extended(old(hb), old(hm), old(self), final(hb), final(hm), final(self), start, ls),
        final(hb).geometry == old(hb).geometry && final(hb).writable() == old(hb).writable(),
//@start
    let ghost p = self.entry.position->Some_0;
    proof {
        reveal(writer_at); reveal(not_extended); reveal(extended);
        lemma_frame_none(hb, hb, p, ls.last());
        assert(owned(hm, p.location, ls[ls.len() - 1]));
        assert(hb.valid(ls[ls.len() - 1]));
    }
//@after /write_current_block/
    let ghost d1 = *hb;
    proof {
        lemma_chain_tail(old(hb), hb, start, ls, self.block@);
        lemma_frame_none(old(hb), hb, p, ls.last());
    }
//@after /let next_location/
    let ghost l = next_location;
    proof {
        assert(hm.has(l) && hm.is_free(l));
        assert(!ls.contains(l)) by { if ls.contains(l) { let k = choose|k: int| 0 <= k < ls.len() && ls[k] == l; assert(owned(hm, p.location, ls[k])); } }
        assert(!bam_sector(hm.bam_rw.format, l));
        assert(hb.valid(l));
    }
//@after /\.allocate\(/
    let ghost d2 = *hb;
    proof { lemma_allocate_consistent(old(hm), hm, l); }
//@after /increment_entry_blocks/
    let ghost d3 = *hb;
//@loop 1
    invariant self.block@.len() == 256, self.location == old(self).location, self.entry == old(self).entry, self.dirty == old(self).dirty
//@end
    proof {
        let last = ls.last();
        let ext = ls.push(l);
        assert(seq![l][0] == l);
        assert forall|x: Location| seq![l].contains(x) <==> x == l by { assert(seq![l][0] == l); }
        assert(d1.sec(p.location) == old(hb).sec(p.location));
        assert(d1.valid(p.location) && l != p.location);
        assert(d2.sec(p.location) == d1.sec(p.location));
        assert(d2.valid(p.location) && d3.valid(last) && d2.valid(last) && d1.valid(last));
        assert(d3.sec(last) == d2.sec(last));
        assert(d2.sec(last) == old(self).block@);
        assert(hb.sec(last) == old(self).block@.update(0, l.0).update(1, l.1));
        assert(d3.valid(l) && d2.valid(l));
        assert(hb.sec(l) == self.block@);
        assert(payload(hb.sec(last)) =~= payload(old(self).block@));
        assert(payload(self.block@) =~= Seq::<u8>::empty());
        assert forall|k: int| 0 <= k < ls.len() - 1 implies hb.sec(#[trigger] ls[k]) == old(hb).sec(ls[k]) by {
            let x = ls[k];
            assert(owned(old(hm), p.location, x));
            assert(old(hb).valid(x) && d1.valid(x) && d2.valid(x) && d3.valid(x));
            assert(ls[k] != ls[ls.len() - 1]);
            assert(x != l);
        }
        lemma_chain_extend(old(hb), hb, start, ls, l);
        assert(written(hb, self, ext) =~= written(old(hb), old(self), ls));
        assert forall|x: Location| #[trigger] old(hb).valid(x) && x != last && x != p.location && !seq![l].contains(x) implies hb.sec(x) == old(hb).sec(x) by {
            assert(d1.valid(x) && d2.valid(x) && d3.valid(x));
        }
        assert(d3.valid(p.location));
        assert forall|k: int| 0 <= k < ext.len() implies owned(hm, p.location, #[trigger] ext[k]) by {
            if k < ls.len() { assert(owned(old(hm), p.location, ls[k])); assert(ls.contains(ls[k])); }
        }
        assert(write_frame(old(hb), hb, p, last, seq![l]));
        assert(taken(old(hm), hm, seq![l]));
        lemma_disk_ok(old(hb), old(hm), hb, hm);
    }
//@endfn
//@fn src/disk/chain.rs Write for ChainWriter::write
//@ret r
//@sig /&mut self, mut buf: &\[u8\]/ => &mut self, hb: &mut ImageBlockDevice, hm: &mut Bam, Ghost(start): Ghost<Location>, Ghost(ls): Ghost<Seq<Location>>, buf_a: &[u8]
//@sub /self\.allocate_next_block\(\)/ => ({ let r_ = self.allocate_next_block(hb, hm, Ghost(start), Ghost(ls + new)); proof { if r_.is_err() { assert(self.dirty == w1.dirty) by { reveal(not_extended); } lemma_wrote_fail(old(hb), old(hm), old(self), &d1, &m1, &w1, hb, hm, self, start, ls, new, buf_a@.take(total_nbytes as int)); } else { assert(self.dirty == w1.dirty) by { reveal(extended); } lemma_wrote_alloc(old(hb), old(hm), old(self), &d1, &m1, &w1, hb, hm, self, start, ls, new, buf_a@.take(total_nbytes as int)); new = new.push(self.location); } } r_ })
//@sub? /let mut total_nbytes = 0;/ => let mut total_nbytes: usize = 0;
//@sub? /let _ = &self\.block(\[[^;]*?\]\.copy_from_slice\([^;]*\));/ => self.block.as_mut_slice()\1;
//@sub? /\.to_bytes\(&mut self\.block\)/ => .to_bytes(self.block.as_mut_slice())
//@sub? /ChainLink::new\(&self\.block\)/ => ChainLink::new(self.block.as_slice())
//@spec
    requires writer_at(old(hb), old(hm), old(self), start, ls), buf_a@.len() <= 0x7fff_ffff
    ensures
        r.is_ok() ==> r->Ok_0 == buf_a@.len(),
        exists|new: Seq<Location>, m: int| 0 <= m <= buf_a@.len() && (r.is_ok() ==> m == buf_a@.len())
            && #[trigger] wrote(old(hb), old(hm), old(self), final(hb), final(hm), final(self), start, ls, new, buf_a@.take(m)),
        buf_a@.len() > 0 ==> final(self).dirty, // [P05]
        buf_a@.len() == 0 ==> *final(hb) == *old(hb) && *final(hm) == *old(hm),
        r.is_err() && old(hb).writable() ==> r->Err_0.e == DiskError::DiskFull && forall|l: Location| eligible(&final(hm).format, false, l) ==> !#[trigger] final(hm).is_free(l),
        !old(hb).writable() ==> final(hb).image == old(hb).image && *final(hm) == *old(hm) && (r.is_err() ==> r->Err_0.e == DiskError::ReadOnly), // [P13]
//@start
    let mut buf: &[u8] = buf_a;
    let ghost mut new: Seq<Location> = Seq::empty();
//@beforeloop 1
    proof { lemma_wrote_start(hb, hm, old(self), self, start, ls, buf_a@); }
//@loop 1
    invariant
        wrote(old(hb), old(hm), old(self), hb, hm, self, start, ls, new, buf_a@.take(total_nbytes as int)),
        writer_at(old(hb), old(hm), old(self), start, ls),
        buf_a@.len() <= 0x7fff_ffff, total_nbytes + buf@.len() == buf_a@.len(), buf@ == buf_a@.skip(total_nbytes as int),
        !old(hb).writable() ==> hb.image == old(hb).image && *hm == *old(hm),
        buf_a@.len() > 0 ==> self.dirty,
        buf_a@.len() == 0 ==> *hb == *old(hb) && *hm == *old(hm),
    decreases buf@.len()
//@loopstart 1
    let ghost d1 = *hb;
    let ghost m1 = *hm;
    let ghost w1 = *self;
    proof { lemma_wrote_at(old(hb), old(hm), old(self), hb, hm, self, start, ls, new, buf_a@.take(total_nbytes as int)); }
//@after /let \(offset, remaining\)/
    let ghost w2 = *self;
//@loopend 1
    proof {
        let n = buf_a@.len() - buf@.len();
        let chunk = buf_a@.subrange(n - nbytes, n as int);
        assert(payload(self.block@) =~= payload(w2.block@) + chunk);
        assert(buf_a@.take(n as int) =~= buf_a@.take(n - nbytes) + chunk);
        lemma_wrote_fill(old(hb), old(hm), old(self), hb, hm, &w2, self, start, ls, new, buf_a@.take(n - nbytes), chunk);
    }
//@afterloop 1
    proof { assert(buf_a@.take(total_nbytes as int) =~= buf_a@); }
//@endfn
//@fn src/disk/chain.rs ChainWriter::new
//@ret r
//@sig /blocks: BlockDeviceRef,/ => hb: &ImageBlockDevice, blocks: BlockDeviceRef,
//@sub /blocks\.borrow\(\)/ => (&*hb)
//@sub? /while let ChainLink::Next\((\w+)\) = (ChainLink::new\(\w+\)\?) \{/ => loop { let \1 = match \2 { ChainLink::Next(\1) => \1, _ => { break; } };
//@sub? /(tail_block = block)\.to_vec\(\);/ => \1.to_vec(); assert(tail_block@ =~= block@);
//@sub? /let tail_block;/ => let tail_block: Vec<u8>;
//@sub? /let mut tail_location;/ => let mut tail_location: Location;
//@spec
    requires hb.wf()
    ensures
        r.is_ok() ==> r->Ok_0.entry == entry && exists|ls: Seq<Location>| #[trigger] chain(hb, start, ls) && r->Ok_0.location == ls.last() && r->Ok_0.block@ == hb.sec(ls.last()) && r->Ok_0.block@.len() == 256,
        r.is_err() ==> forall|c: Seq<Location>| !chain(hb, start, c),
//@start
    let ghost mut ls: Seq<Location> = Seq::empty();
    proof { lemma_walking_start(hb, start); }
//@loop 1
    invariant
        hb.wf(), *blocks == *hb, hb.valid(tail_location), block@ == hb.sec(tail_location), block@.len() == 256, walking(hb, start, ls, tail_location),
        visited_sectors@ == set_of(ls.push(tail_location)),
    ensures link(block@).is_some(), link_next(block@).is_none()
    decreases before(hb.geometry.track_layouts@, hb.geometry.tracks + 1) - ls.len()
//@beforeloop 1
    proof { lemma_set_push(ls, start); assert(set_of(ls) =~= Set::<Location>::empty()); }
//@loopstart 1
    let ghost w0 = tail_location;
    proof { lemma_walking(hb, start, ls, tail_location); }
//@loopend 1
    proof { ls = ls.push(w0); lemma_set_push(ls, tail_location); }
//@afterloop 1
    proof {
        lemma_walking(hb, start, ls, tail_location);
        assert(ls.push(tail_location).last() == tail_location);
    }
//@endfn
//@fn src/disk/chain.rs Write for ChainWriter::flush
//@ret r
//@sig /&mut self/ => &mut self, hb: &mut ImageBlockDevice, hm: &mut Bam, Ghost(start): Ghost<Location>, Ghost(ls): Ghost<Seq<Location>>
//@sub /self\s*\.blocks\s*\.borrow_mut\(\)/ => (&mut *hb)
//@sub /self\s*\.bam\s*\.borrow_mut\(\)\s*\.flush\(\)/ => (&mut *hm).flush(hb)
//@sub /self\.write_current_block\(\)/ => self.write_current_block(hb)
//@spec
    requires writer_at(old(hb), old(hm), old(self), start, ls)
    ensures
        writer_at(final(hb), final(hm), final(self), start, ls),
        final(hm).entries == old(hm).entries, final(hm).format == old(hm).format, final(hm).bam_rw.format == old(hm).bam_rw.format, final(hm).invalidated == old(hm).invalidated,
        written(final(hb), final(self), ls) == written(old(hb), old(self), ls), final(self).entry == old(self).entry,
        r.is_ok() && old(self).dirty ==> content(final(hb), ls) == written(old(hb), old(self), ls) && bam_stored(old(hm).bam_rw.format, final(hb), old(hm).entries@),
        r.is_ok() ==> !final(self).dirty,
        !old(self).dirty ==> r.is_ok() && *final(hb) == *old(hb),
        forall|l: Location, x: int| old(hb).valid(l) && l != ls.last() && 0 <= x < 256 && !covered(old(hm).bam_rw.format.sections@, old(hm).bam_rw.format.sections@.len() as int, l, x)
            ==> #[trigger] final(hb).sec(l)[x] == old(hb).sec(l)[x],
        final(hb).same_shape(old(hb)), final(hb).same_table(old(hb)),
        !old(hb).writable() && old(self).dirty ==> is_err(r, DiskError::ReadOnly) && final(hb).image == old(hb).image, // [P13]
//@sub? /(let mut blocks = \(&mut \*hb\));\s*(blocks\.flush\(\))\?;/ => let ghost d2_ = *hb; \1; ({ let r_ = \2; proof { lemma_stored_same(old(hm).bam_rw.format, &d2_, hb, old(hm).entries@); lemma_flush_step(old(hb), old(hm), old(self), hb, hm, self, start, ls); } r_ })?;
//@sub? /(?<![=;] )(\(&mut \*hb\)\.flush\(\))\?;/ => let ghost d2_ = *hb; ({ let r_ = \1; proof { lemma_stored_same(old(hm).bam_rw.format, &d2_, hb, old(hm).entries@); lemma_flush_step(old(hb), old(hm), old(self), hb, hm, self, start, ls); } r_ })?;
//@sub? /((?:\(&mut \*hm\)|self)\.(?:flush|write_current_block)\(hb\))\?;/ => ({ let r_ = \1; proof { lemma_flush_step(old(hb), old(hm), old(self), hb, hm, self, start, ls); } r_ })?;
//@start
    proof { reveal(writer_at); assert(hb.valid(ls[ls.len() - 1])); lemma_writer_frame(hb, hm, self, hb, hm, self, start, ls); }
//@end
    proof { lemma_flush_step(old(hb), old(hm), old(self), hb, hm, self, start, ls); }
//@endfn
}
/// what is stored depends on the sectors only
pub proof fn lemma_stored_same(f: &BamFormat, d: &ImageBlockDevice, d1: &ImageBlockDevice, e: Seq<BamEntry>)
    requires forall|l: Location| #[trigger] d1.sec(l) == d.sec(l)
    ensures bam_stored(f, d, e) ==> bam_stored(f, d1, e)
{
    if bam_stored(f, d, e) {
        assert forall|k: int| 0 <= k < f.sections@.len() implies stored(&#[trigger] f.sections@[k], d1, e, sum_tracks(f.sections@, k)) by {
            assert(stored(&f.sections@[k], d, e, sum_tracks(f.sections@, k)));
            assert(d1.sec(f.sections@[k].bitmap_location) == d.sec(f.sections@[k].bitmap_location));
            assert(d1.sec(f.sections@[k].free_location) == d.sec(f.sections@[k].free_location));
        }
    }
}
/// flushing: the pending block and the map are written
pub proof fn lemma_flush_step(d0: &ImageBlockDevice, b0: &Bam, w0: &ChainWriter, d1: &ImageBlockDevice, b1: &Bam, w1: &ChainWriter, start: Location, ls: Seq<Location>)
    requires
        writer_at(d0, b0, w0, start, ls), w1.location == w0.location, w1.block == w0.block, w1.entry == w0.entry,
        d1.wf(), d1.geometry == d0.geometry, b1.entries == b0.entries, b1.format == b0.format, b1.bam_rw.format == b0.bam_rw.format, b1.invalidated == b0.invalidated,
        forall|l: Location, x: int| d0.valid(l) && l != ls.last() && 0 <= x < 256 && !covered(b0.bam_rw.format.sections@, b0.bam_rw.format.sections@.len() as int, l, x)
            ==> #[trigger] d1.sec(l)[x] == d0.sec(l)[x],
        forall|x: int| 0 <= x < 256 ==> #[trigger] d1.sec(ls.last())[x] == w0.block@[x] || d1.sec(ls.last()) == d0.sec(ls.last()),
    ensures
        writer_at(d1, b1, w1, start, ls), written(d1, w1, ls) == written(d0, w0, ls),
        (forall|x: int| 0 <= x < 256 ==> #[trigger] d1.sec(ls.last())[x] == w0.block@[x]) ==> content(d1, ls) == written(d0, w0, ls),
{
    reveal(writer_at);
    d1.lemma_off(ls.last());
    if forall|x: int| 0 <= x < 256 ==> #[trigger] d1.sec(ls.last())[x] == w0.block@[x] { assert(d1.sec(ls.last()) =~= w0.block@); }
    if d1.sec(ls.last()) != d0.sec(ls.last()) { assert(d1.sec(ls.last()) =~= w0.block@); }
    lemma_writer_frame(d0, b0, w0, d1, b1, w1, start, ls);
}
/// the writer could not go on: nothing but the pending block was written
#[verifier::opaque]
pub open spec fn not_extended(d0: &ImageBlockDevice, b0: &Bam, w0: &ChainWriter, d1: &ImageBlockDevice, b1: &Bam, w1: &ChainWriter, start: Location, ls: Seq<Location>) -> bool {
    &&& writer_at(d1, b1, w1, start, ls) && written(d1, w1, ls) == written(d0, w0, ls)
    &&& *b1 == *b0 && *w1 == *w0
    &&& write_frame(d0, d1, w0.entry.position->Some_0, ls.last(), Seq::empty())
}
/// the writer went on to a new, empty block
#[verifier::opaque]
pub open spec fn extended(d0: &ImageBlockDevice, b0: &Bam, w0: &ChainWriter, d1: &ImageBlockDevice, b1: &Bam, w1: &ChainWriter, start: Location, ls: Seq<Location>) -> bool {
    let l = w1.location;
    &&& writer_at(d1, b1, w1, start, ls.push(l))
    &&& written(d1, w1, ls.push(l)) == written(d0, w0, ls)
    &&& taken(b0, b1, seq![l])
    &&& write_frame(d0, d1, w0.entry.position->Some_0, ls.last(), seq![l])
    &&& w1.entry.position == w0.entry.position && w1.dirty == w0.dirty
}
/// `data` was appended, taking the sectors `new`
#[verifier::opaque]
pub open spec fn wrote(d0: &ImageBlockDevice, b0: &Bam, w0: &ChainWriter, d1: &ImageBlockDevice, b1: &Bam, w1: &ChainWriter,
    start: Location, ls: Seq<Location>, new: Seq<Location>, data: Seq<u8>) -> bool {
    &&& writer_at(d1, b1, w1, start, ls + new)
    &&& written(d1, w1, ls + new) == written(d0, w0, ls) + data
    &&& taken(b0, b1, new)
    &&& write_frame(d0, d1, w0.entry.position->Some_0, ls.last(), new)
    &&& w1.entry.position == w0.entry.position
}
pub proof fn lemma_wrote_start(d: &ImageBlockDevice, b: &Bam, w: &ChainWriter, w1: &ChainWriter, start: Location, ls: Seq<Location>, data: Seq<u8>)
    requires writer_at(d, b, w, start, ls), w1.location == w.location, w1.entry == w.entry, w1.block == w.block
    ensures wrote(d, b, w, d, b, w1, start, ls, Seq::empty(), data.take(0))
{
    reveal(wrote); reveal(writer_at); reveal(extended); reveal(not_extended);
    let p = w.entry.position->Some_0;
    lemma_frame_none(d, d, p, ls.last());
    assert(ls + Seq::<Location>::empty() =~= ls);
    assert(written(d, w, ls) + data.take(0) =~= written(d, w, ls));
}
pub proof fn lemma_wrote_at(d0: &ImageBlockDevice, b0: &Bam, w0: &ChainWriter, d1: &ImageBlockDevice, b1: &Bam, w1: &ChainWriter,
    start: Location, ls: Seq<Location>, new: Seq<Location>, data: Seq<u8>)
    requires wrote(d0, b0, w0, d1, b1, w1, start, ls, new, data)
    ensures writer_at(d1, b1, w1, start, ls + new), w1.block@.len() == 256, link(w1.block@).is_some(), link_next(w1.block@).is_none(), w1.entry.position == w0.entry.position, d1.writable() == d0.writable()
{
    reveal(wrote); reveal(writer_at); reveal(extended); reveal(not_extended);
}
/// a failed allocation
pub proof fn lemma_wrote_fail(d0: &ImageBlockDevice, b0: &Bam, w0: &ChainWriter, d1: &ImageBlockDevice, b1: &Bam, w1: &ChainWriter,
    d2: &ImageBlockDevice, b2: &Bam, w2: &ChainWriter, start: Location, ls: Seq<Location>, new: Seq<Location>, data: Seq<u8>)
    requires
        writer_at(d0, b0, w0, start, ls), wrote(d0, b0, w0, d1, b1, w1, start, ls, new, data),
        not_extended(d1, b1, w1, d2, b2, w2, start, ls + new),
    ensures wrote(d0, b0, w0, d2, b2, w2, start, ls, new, data), *b2 == *b1
{
    reveal(wrote); reveal(writer_at); reveal(extended); reveal(not_extended);
    let p = w0.entry.position->Some_0;
    assert(owned(b0, p.location, ls[ls.len() - 1]));
    assert(d0.valid(ls[ls.len() - 1]));
    lemma_write_nostep(d0, d1, d2, p, ls, new);
}
/// a new sector
pub proof fn lemma_wrote_alloc(d0: &ImageBlockDevice, b0: &Bam, w0: &ChainWriter, d1: &ImageBlockDevice, b1: &Bam, w1: &ChainWriter,
    d2: &ImageBlockDevice, b2: &Bam, w2: &ChainWriter, start: Location, ls: Seq<Location>, new: Seq<Location>, data: Seq<u8>)
    requires
        writer_at(d0, b0, w0, start, ls), wrote(d0, b0, w0, d1, b1, w1, start, ls, new, data), extended(d1, b1, w1, d2, b2, w2, start, ls + new),
    ensures wrote(d0, b0, w0, d2, b2, w2, start, ls, new.push(w2.location), data)
{
    reveal(wrote); reveal(writer_at); reveal(extended); reveal(not_extended);
    let p = w0.entry.position->Some_0;
    assert(owned(b0, p.location, ls[ls.len() - 1]));
    assert(d0.valid(ls[ls.len() - 1]));
    lemma_write_step(d0, b0, d1, b1, d2, b2, p, ls, new, w2.location);
    assert(ls + new.push(w2.location) =~= (ls + new).push(w2.location));
}
/// bytes added to the block in memory
pub proof fn lemma_wrote_fill(d0: &ImageBlockDevice, b0: &Bam, w0: &ChainWriter, d1: &ImageBlockDevice, b1: &Bam, w1: &ChainWriter, w2: &ChainWriter,
    start: Location, ls: Seq<Location>, new: Seq<Location>, data: Seq<u8>, chunk: Seq<u8>)
    requires
        wrote(d0, b0, w0, d1, b1, w1, start, ls, new, data), w2.location == w1.location, w2.entry == w1.entry,
        w2.block@.len() == 256, link(w2.block@).is_some(), link_next(w2.block@).is_none(), payload(w2.block@) == payload(w1.block@) + chunk,
    ensures wrote(d0, b0, w0, d1, b1, w2, start, ls, new, data + chunk)
{
    reveal(wrote); reveal(writer_at); reveal(extended); reveal(not_extended);
    let x = content(d1, (ls + new).drop_last());
    assert(x + (payload(w1.block@) + chunk) =~= written(d1, w1, ls + new) + chunk);
    assert((written(d0, w0, ls) + data) + chunk =~= written(d0, w0, ls) + (data + chunk));
}
pub proof fn lemma_write_step(d0: &ImageBlockDevice, b0: &Bam, d1: &ImageBlockDevice, b1: &Bam, d2: &ImageBlockDevice, b2: &Bam,
    p: Position, ls: Seq<Location>, new: Seq<Location>, l: Location)
    requires
        d0.wf(), wf_pos(d0, p), ls.len() > 0, ls.last() != p.location, d0.valid(ls.last()), b0.wf(),
        b0.has(p.location) && !b0.is_free(p.location), b0.has(ls.last()) && !b0.is_free(ls.last()),
        taken(b0, b1, new), taken(b1, b2, seq![l]),
        write_frame(d0, d1, p, ls.last(), new), write_frame(d1, d2, p, (ls + new).last(), seq![l]),
    ensures taken(b0, b2, new.push(l)), write_frame(d0, d2, p, ls.last(), new.push(l))
{
    let nn = new.push(l);
    assert(seq![l][0] == l);
    assert forall|x: Location| seq![l].contains(x) <==> x == l by { assert(seq![l][0] == l); }
    assert forall|x: Location| nn.contains(x) <==> new.contains(x) || x == l by { lemma_push_contains(new, l, x); }
    assert(b1.has(l) && b1.is_free(l));
    assert(b0.has(l));
    assert forall|k: int| 0 <= k < nn.len() implies b0.has(#[trigger] nn[k]) && b0.is_free(nn[k]) && !b0.format.skipped(nn[k].0 as int) by {
        if k < new.len() { assert(nn[k] == new[k]); }
    }
    assert forall|x: Location| b0.has(x) implies #[trigger] b2.is_free(x) == (b0.is_free(x) && !nn.contains(x)) by { assert(b1.has(x)); }
    let q = (ls + new).last();
    if new.len() == 0 { assert(ls + new =~= ls); } else { assert(q == new.last()); assert(new.contains(q)); }
    d0.lemma_off(p.location);
    let s0 = d0.sec(p.location);
    let b = slot(d0, p);
    let c1 = with_size(b, bumps(stored_size(b), new.len() as int));
    assert(slot(d1, p) =~= c1);
    lemma_bumps(b, new.len() as int);
    assert(d2.sec(p.location) =~= with_slot(s0, p, with_size(b, bumps(stored_size(b), nn.len() as int))));
    assert forall|x: Location| #[trigger] d0.valid(x) && x != ls.last() && x != p.location && !nn.contains(x) implies d2.sec(x) == d0.sec(x) by {
        assert(d1.valid(x));
        assert(x != q);
    }
}
pub proof fn lemma_write_nostep(d0: &ImageBlockDevice, d1: &ImageBlockDevice, d2: &ImageBlockDevice, p: Position, ls: Seq<Location>, new: Seq<Location>)
    requires
        d0.wf(), wf_pos(d0, p), ls.len() > 0, ls.last() != p.location, d0.valid(ls.last()),
        write_frame(d0, d1, p, ls.last(), new), write_frame(d1, d2, p, (ls + new).last(), Seq::empty()),
    ensures write_frame(d0, d2, p, ls.last(), new)
{
    let q = (ls + new).last();
    if new.len() == 0 { assert(ls + new =~= ls); } else { assert(q == new.last()); assert(new.contains(q)); }
    d0.lemma_off(p.location);
    let b = slot(d0, p);
    let c1 = with_size(b, bumps(stored_size(b), new.len() as int));
    assert(slot(d1, p) =~= c1);
    lemma_bumps(b, new.len() as int);
    assert(with_size(c1, bumps(stored_size(c1), 0)) =~= c1);
    assert(with_slot(d1.sec(p.location), p, c1) =~= d1.sec(p.location));
    assert forall|x: Location| #[trigger] d0.valid(x) && x != ls.last() && x != p.location && !new.contains(x) implies d2.sec(x) == d0.sec(x) by {
        assert(d1.valid(x));
        assert(x != q);
    }
}
pub proof fn lemma_bumps(b: Seq<u8>, k: int)
    requires b.len() == 32, k >= 0
    ensures ({ let c = with_size(b, bumps(stored_size(b), k)); stored_size(c) == bumps(stored_size(b), k)
        && with_size(c, bumps(stored_size(c), 1)) == with_size(b, bumps(stored_size(b), k + 1)) })
{
    let n = bumps(stored_size(b), k);
    let c = with_size(b, n);
    assert(0 <= n < 65536);
    assert(c[30] as int == n % 256 && c[31] as int == n / 256);
    assert(with_size(c, bumps(n, 1)) =~= with_size(b, bumps(stored_size(b), k + 1)));
}

// ---------------------------------------------------------------- freeing

/// the map after freeing `f`: those sectors are free, all others as before, counts exact
pub open spec fn released(b0: &Bam, b1: &Bam, f: Seq<Location>) -> bool {
    &&& b1.wf() && b1.format == b0.format && b1.bam_rw.format == b0.bam_rw.format && b1.invalidated == b0.invalidated && b1.entries@.len() == b0.entries@.len()
    &&& forall|l: Location| b0.has(l) ==> #[trigger] b1.is_free(l) == (b0.is_free(l) || f.contains(l))
    &&& consistent(&b0.format, b0) && (forall|k: int| 0 <= k < f.len() ==> !b0.format.skipped((#[trigger] f[k]).0 as int)) ==> consistent(&b1.format, b1)
}
pub proof fn lemma_released_none(b: &Bam)
    requires b.wf()
    ensures released(b, b, Seq::empty())
{}
pub proof fn lemma_released_step(b0: &Bam, b1: &Bam, b2: &Bam, f: Seq<Location>, l: Location)
    requires b0.wf(), released(b0, b1, f), b0.has(l), b2.wf(), b2.changed(b1, l, true)
    ensures released(b0, b2, f.push(l))
{
    let g = f.push(l);
    assert(b1.has(l));
    assert forall|x: Location| b0.has(x) implies #[trigger] b2.is_free(x) == (b0.is_free(x) || g.contains(x)) by {
        lemma_push_contains(f, l, x);
        assert(b1.is_free(x) == (b0.is_free(x) || f.contains(x)));
        if x.0 != l.0 { assert(b2.entries@[x.0 - 1] == b1.entries@[x.0 - 1]); }
        else if x.1 != l.1 { assert(fr(b2.entries@[l.0 - 1].sector_map, x.1 as int) == fr(b1.entries@[l.0 - 1].sector_map, x.1 as int)); }
    }
    if consistent(&b0.format, b0) && (forall|k: int| 0 <= k < g.len() ==> !b0.format.skipped((#[trigger] g[k]).0 as int)) {
        assert forall|k: int| 0 <= k < f.len() implies !b0.format.skipped((#[trigger] f[k]).0 as int) by { assert(g[k] == f[k]); }
        assert(g[f.len() as int] == l);
        assert forall|t: int| 1 <= t <= b2.format.last_track implies (#[trigger] b2.entries@[t - 1]).free_sectors == crate::bam::count(b2.entries@[t - 1].sector_map, 64) by {
            if t != l.0 { assert(b2.entries@[t - 1] == b1.entries@[t - 1]); }
        }
        assert forall|t: int, s: int| 1 <= t <= b2.format.last_track && b2.format.tracks@[t].sectors <= s < 64 implies !#[trigger] fr(b2.entries@[t - 1].sector_map, s) by {
            if t != l.0 { assert(b2.entries@[t - 1] == b1.entries@[t - 1]); } else { assert(!fr(b1.entries@[t - 1].sector_map, s)); }
        }
        assert forall|s: int| b2.format.reserved_track > 0 implies !#[trigger] fr(b2.entries@[b2.format.reserved_track - 1].sector_map, s) by {
            let t = b2.format.reserved_track as int;
            assert(!fr(b1.entries@[t - 1].sector_map, s));
            if t != l.0 { assert(b2.entries@[t - 1] == b1.entries@[t - 1]); }
        }
    }
}
/// what deallocating may do: all of the sectors, or nothing
pub open spec fn freed(d0: &ImageBlockDevice, b0: &Bam, d1: &ImageBlockDevice, b1: &Bam, f: Seq<Location>, r: io::Result<()>) -> bool {
    &&& r.is_ok() <==> d0.writable() && !b0.invalidated && forall|k: int| 0 <= k < f.len() ==> b0.has(#[trigger] f[k])
    &&& r.is_ok() ==> released(b0, b1, f) && bam_stored(b0.bam_rw.format, d1, b1.entries@)
            && bam_frame(b0.bam_rw.format, b0.bam_rw.format.sections@.len() as int, d1, d0) && d1.wf() && d1.same_shape(d0) && d1.same_table(d0)
    &&& r.is_err() ==> *d1 == *d0 && *b1 == *b0
    &&& !d0.writable() ==> is_err(r, DiskError::ReadOnly)
}
//@props P07 P09 P13
#[verifier::loop_isolation(false)]
//@fn src/disk/chain.rs free_sectors
//@ret r
//@sig /blocks: BlockDeviceRef, bam: BamRef/ => hb: &mut ImageBlockDevice, hm: &mut Bam, blocks: BlockDeviceRef, bam: BamRef
//@sub /blocks\.borrow(?:_mut)?\(\)/ => (&*hb)
//@sub /bam\.borrow_mut\(\)/ => (&mut *hm)
//@sub /bam\.flush\(\)/ => bam.flush(hb)
//@spec
    requires
        old(hb).wf(), old(hm).wf(), wf_bamformat(old(hm).bam_rw.format), bam_fits(old(hm).bam_rw.format, old(hb)), old(hm).bam_rw.format.sections@.len() > 0,
        sum_tracks(old(hm).bam_rw.format.sections@, old(hm).bam_rw.format.sections@.len() as int) == old(hm).entries@.len(),
    ensures freed(old(hb), old(hm), final(hb), final(hm), locations@, r)
//@loop 1 it
    invariant *bam == *old(hm), bam.wf(), it.seq().len() == locations@.len(), forall|k: int| 0 <= k < locations@.len() ==> *#[trigger] it.seq()[k] == locations@[k],
        forall|k: int| 0 <= k < it.index@ ==> old(hm).has(#[trigger] locations@[k])
//@loop 2 it
    invariant
        old(hm).wf(), bam.wf(), it.seq().len() == locations@.len(), forall|k: int| 0 <= k < locations@.len() ==> *#[trigger] it.seq()[k] == locations@[k],
        forall|k: int| 0 <= k < locations@.len() ==> old(hm).has(#[trigger] locations@[k]),
        released(old(hm), bam, locations@.take(it.index@)), it.index@ == 0 ==> *bam == *old(hm), it.index@ > 0 ==> !bam.invalidated,
//@loopstart 2
    let ghost m0 = *bam;
//@loopend 2
    proof { lemma_released_step(old(hm), &m0, bam, locations@.take(it.index@), *location); assert(locations@.take(it.index@).push(*location) =~= locations@.take(it.index@ + 1)); }
//@beforeloop 2
    proof { lemma_released_none(bam); assert(locations@.take(0) =~= Seq::<Location>::empty()); }
//@afterloop 2
    proof { assert(locations@.take(locations@.len() as int) =~= locations@); }
//@endfn
//@fn src/disk/chain.rs remove_chain
//@ret r
//@sig /blocks: BlockDeviceRef, bam: BamRef/ => hb: &mut ImageBlockDevice, hm: &mut Bam, blocks: BlockDeviceRef, bam: BamRef
//@sub /(ChainIterator::new\(blocks)\.clone\(\), start\)\s*\.locations\(\)/ => \1, start).locations(hb, Ghost(start))
//@sub /free_sectors\(/ => free_sectors(hb, hm, 
//@spec
    requires
        old(hb).wf(), old(hm).wf(), wf_bamformat(old(hm).bam_rw.format), bam_fits(old(hm).bam_rw.format, old(hb)), old(hm).bam_rw.format.sections@.len() > 0,
        sum_tracks(old(hm).bam_rw.format.sections@, old(hm).bam_rw.format.sections@.len() as int) == old(hm).entries@.len(),
    ensures
        r.is_err() ==> *final(hb) == *old(hb) && *final(hm) == *old(hm),
        r.is_ok() ==> exists|ls: Seq<Location>| #[trigger] chain(old(hb), start, ls) && freed(old(hb), old(hm), final(hb), final(hm), ls, r),
        !old(hb).writable() ==> r.is_err(),
//@endfn
} // mod writer
pub use writer::*;
