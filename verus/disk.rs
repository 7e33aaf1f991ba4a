pub mod disk {
use super::*;

// ---------------------------------------------------------------- room for a new directory entry

/// a sector that directory entries may live in
pub open spec fn dir_sector(bam: &Bam, l: Location) -> bool {
    bam.has(l) && !bam.is_free(l) && l.0 == bam.format.directory_track && l.0 != bam.format.reserved_track && !bam_sector(bam.bam_rw.format, l)
}
/// the sectors of the map are marked in use
pub open spec fn map_used(bam: &Bam) -> bool { forall|l: Location| #[trigger] bam_sector(bam.bam_rw.format, l) ==> !bam.is_free(l) }
/// the directory is on the directory track, in sectors marked in use
pub open spec fn dir_ok(dev: &ImageBlockDevice, bam: &Bam, start: Location) -> bool {
    forall|ls: Seq<Location>, k: int| #[trigger] chain(dev, start, ls) && 0 <= k < ls.len() ==> dir_sector(bam, #[trigger] ls[k])
}
pub open spec fn first_scratched(dev: &ImageBlockDevice, start: Location, ls: Seq<Location>, k: int) -> bool {
    let all = dir_slots(dev, ls);
    &&& walk(dev, start, ls) && 0 <= k < all.len() && !live(dev, all[k])
    &&& forall|j: int| 0 <= j < k ==> live(dev, #[trigger] all[j])
}
pub open spec fn no_scratched(dev: &ImageBlockDevice, ls: Seq<Location>) -> bool { forall|j: int| 0 <= j < dir_slots(dev, ls).len() ==> live(dev, #[trigger] dir_slots(dev, ls)[j]) }
/// a directory sector without entries: last of the directory, completely used
pub open spec fn empty_dir_sector(b: Seq<u8>) -> bool { b.len() == 256 && b[0] == 0 && b[1] == 0xFF && forall|x: int| 2 <= x < 256 ==> #[trigger] b[x] == 0 }
/// the directory ls was extended by sector l, and the map stored
pub open spec fn dir_extended(d0: &ImageBlockDevice, b0: &Bam, d1: &ImageBlockDevice, b1: &Bam, start: Location, ls: Seq<Location>, l: Location) -> bool {
    &&& chain(d0, start, ls) && chain(d1, start, ls.push(l)) && no_scratched(d0, ls)
    &&& eligible(&b0.format, true, l) && b0.is_free(l) && b0.has(l) && !bam_sector(b0.bam_rw.format, l) // [P04]
    &&& from_previous(&b0.format, b0, ls.last(), Ok(l))
    &&& b1.format == b0.format && b1.bam_rw.format == b0.bam_rw.format && b1.invalidated == b0.invalidated && consistent(&b1.format, b1)
    &&& forall|x: Location| b0.has(x) ==> #[trigger] b1.is_free(x) == (b0.is_free(x) && x != l)
    &&& bam_stored(b0.bam_rw.format, d1, b1.entries@)
    &&& d1.wf() && d1.same_shape(d0) && d1.same_table(d0)
    &&& empty_dir_sector(d1.sec(l))
    &&& d1.sec(ls.last()) == d0.sec(ls.last()).update(0, l.0).update(1, l.1)
    &&& forall|x: Location, o: int| d0.valid(x) && x != l && x != ls.last() && 0 <= o < 256 && !covered(b0.bam_rw.format.sections@, b0.bam_rw.format.sections@.len() as int, x, o)
        ==> #[trigger] d1.sec(x)[o] == d0.sec(x)[o]
}
/// what next_free_directory_entry returns
pub open spec fn free_entry(d0: &ImageBlockDevice, b0: &Bam, d1: &ImageBlockDevice, b1: &Bam, start: Location, e: &DirectoryEntry) -> bool {
    &&& e.position.is_some() && wf_pos(d1, e.position->Some_0) && decodes(e, slot(d1, e.position->Some_0)) && !live(d1, e.position->Some_0) && !e.geos_border
    &&& if d1 == d0 && b1 == b0 { exists|ls: Seq<Location>, k: int| #[trigger] first_scratched(d0, start, ls, k) && e.position == Some(dir_slots(d0, ls)[k]) }
        else { exists|ls: Seq<Location>, l: Location| #[trigger] dir_extended(d0, b0, d1, b1, start, ls, l) && e.position == Some(Position { location: l, offset: 0, size: 32 }) }
}
pub proof fn lemma_slots_push(dev: &ImageBlockDevice, w: Seq<Location>, l: Location)
    ensures dir_slots(dev, w.push(l)) == dir_slots(dev, w) + slots_in(l, used(dev.sec(l)) / 32)
{ assert(w.push(l).drop_last() =~= w); }
/// piece i of the used bytes of a sector is a slot
pub proof fn lemma_piece(dev: &ImageBlockDevice, w: Seq<Location>, l: Location, data: Seq<u8>, i: int)
    requires dev.wf(), dev.valid(l), data == dev.sec(l).take(used(dev.sec(l))), 0 <= i, i % 32 == 0, i + 32 <= data.len()
    ensures
        data.len() == used(dev.sec(l)), data.len() <= 256,
        ({ let p = Position { location: l, offset: i as u8, size: 32 };
        &&& wf_pos(dev, p) && data.subrange(i, i + 32) == slot(dev, p) && i <= 224
        &&& dir_slots(dev, w).len() + i / 32 < dir_slots(dev, w.push(l)).len()
        &&& dir_slots(dev, w.push(l))[dir_slots(dev, w).len() + i / 32] == p })
{
    dev.lemma_off(l);
    lemma_used_bound(dev, l);
    lemma_slots_push(dev, w, l);
    assert(data.subrange(i, i + 32) =~= dev.sec(l).subrange(i, i + 32));
    assert(32 * (i / 32) == i);
    assert(i / 32 < used(dev.sec(l)) / 32);
}
/// a new sector d1.sec(l), then the link (d2), then the map (d3)
pub proof fn lemma_dir_extended(d0: &ImageBlockDevice, b0: &Bam, d1: &ImageBlockDevice, d2: &ImageBlockDevice, b1: &Bam, d3: &ImageBlockDevice, b2: &Bam, start: Location, ls: Seq<Location>, l: Location)
    requires
        disk_ok(d0, b0), dir_ok(d0, b0, start), chain(d0, start, ls), no_scratched(d0, ls),
        eligible(&b0.format, true, l), b0.is_free(l), from_previous(&b0.format, b0, ls.last(), Ok(l)), !bam_sector(b0.bam_rw.format, l),
        sector_replaced(d0, d1, l, d1.sec(l)), empty_dir_sector(d1.sec(l)),
        b1.wf(), b1.changed(b0, l, false),
        sector_replaced(d1, d2, ls.last(), d1.sec(ls.last()).update(0, l.0).update(1, l.1)),
        b2.entries == b1.entries, b2.format == b1.format, b2.invalidated == b1.invalidated, b2.bam_rw.format == b1.bam_rw.format,
        d3.wf(), d3.same_shape(d2), d3.same_table(d2), bam_stored(b1.bam_rw.format, d3, b1.entries@),
        bam_frame(b1.bam_rw.format, b1.bam_rw.format.sections@.len() as int, d3, d2),
    ensures dir_extended(d0, b0, d3, b2, start, ls, l), disk_ok(d3, b2)
{
    hide(from_previous); hide(before);
    let last = ls.last();
    let sx = b0.bam_rw.format.sections@;
    assert(ls[ls.len() - 1] == last);
    assert(dir_sector(b0, ls[ls.len() - 1]));
    assert(b0.has(l));
    assert(d0.valid(l) && d0.valid(last));
    assert(last != l);
    assert(d1.valid(l) && d1.valid(last));
    assert(d1.sec(last) == d0.sec(last));
    assert(d2.sec(l) == d1.sec(l));
    d0.lemma_off(last); d2.lemma_off(last); d2.lemma_off(l); d3.lemma_off(last); d3.lemma_off(l);
    assert forall|x: Location| (x == l || x == last || #[trigger] ls.contains(x)) && d0.valid(x) implies d3.sec(x) == d2.sec(x) by {
        if ls.contains(x) { let k = choose|k: int| 0 <= k < ls.len() && ls[k] == x; assert(dir_sector(b0, ls[k])); }
        d2.lemma_off(x); d3.lemma_off(x);
        assert forall|o: int| 0 <= o < 256 implies d3.sec(x)[o] == d2.sec(x)[o] by { lemma_not_covered(b0.bam_rw.format, x, o); assert(d2.valid(x)); }
        assert(d3.sec(x) =~= d2.sec(x));
    }
    assert(ls.contains(last)) by { assert(ls[ls.len() - 1] == last); }
    assert(d3.sec(last) == d2.sec(last));
    assert(d3.sec(l) == d2.sec(l)) by { assert(ls.contains(l) || !ls.contains(l)); }
    lemma_allocate_consistent(b0, b1, l);
    assert forall|x: Location| b0.has(x) implies #[trigger] b2.is_free(x) == (b0.is_free(x) && x != l) by { assert(b1.is_free(x) == (b0.is_free(x) && x != l)); }
    assert(consistent(&b2.format, b2)) by {
        assert forall|t: int| 1 <= t <= b2.format.last_track implies (#[trigger] b2.entries@[t - 1]).free_sectors == crate::bam::count(b2.entries@[t - 1].sector_map, 64) by { assert(b1.entries@[t - 1].free_sectors == crate::bam::count(b1.entries@[t - 1].sector_map, 64)); }
        assert forall|t: int, s: int| 1 <= t <= b2.format.last_track && b2.format.tracks@[t].sectors <= s < 64 implies !#[trigger] fr(b2.entries@[t - 1].sector_map, s) by { assert(!fr(b1.entries@[t - 1].sector_map, s)); }
        assert forall|s: int| b2.format.reserved_track > 0 implies !#[trigger] fr(b2.entries@[b2.format.reserved_track - 1].sector_map, s) by { assert(!fr(b1.entries@[b1.format.reserved_track - 1].sector_map, s)); }
    }
    lemma_disk_ok(d0, b0, d3, b2);
    assert forall|k: int| 0 <= k < ls.len() - 1 implies d3.sec(#[trigger] ls[k]) == d0.sec(ls[k]) by {
        let x = ls[k];
        assert(d0.valid(x) && x != ls[ls.len() - 1]);
        assert(dir_sector(b0, x));
        assert(x != l);
        assert(ls.contains(x));
        assert(d3.sec(x) == d2.sec(x));
        assert(d1.valid(x));
        assert(d2.sec(x) == d1.sec(x));
        assert(d1.sec(x) == d0.sec(x));
    }
    assert(!ls.contains(l)) by { if ls.contains(l) { let k = choose|k: int| 0 <= k < ls.len() && ls[k] == l; assert(dir_sector(b0, ls[k])); } }
    assert(l.0 != 0) by { assert(exists_on(b0.format.tracks@, b0.format.last_track as int, l)); }
    lemma_chain_extend(d0, d3, start, ls, l);
    assert forall|x: Location, o: int| d0.valid(x) && x != l && x != last && 0 <= o < 256 && !covered(sx, sx.len() as int, x, o) implies #[trigger] d3.sec(x)[o] == d0.sec(x)[o] by {
        assert(d1.valid(x) && d2.valid(x));
        assert(d3.sec(x)[o] == d2.sec(x)[o]);
        assert(d2.sec(x) == d1.sec(x));
        assert(d1.sec(x) == d0.sec(x));
    }
}

pub proof fn lemma_zero_scratched()
    ensures scratched(attrs_of(0))
{
    assert(0u8 & 0x0F == 0 && 0u8 & 0x10 == 0 && 0u8 & 0x20 == 0 && 0u8 & 0x40 == 0 && 0u8 & 0x80 == 0) by (bit_vector);
}
//@props P04 P07 P08 P12
//@fn src/disk/directory.rs next_free_directory_entry
//@ret r
//@sig /<T: Disk>\(disk: &mut T\)/ => (disk: &mut D64, hb: &mut ImageBlockDevice, hm: &mut Bam)
//@sig /\bwhere\s+T: \?Sized,?/ =>
//@sub /for (\w+) in chain \{/ => let mut it_ = chain; loop { let \1 = match it_.next(&*hb) { Some(x_) => x_, None => { break; } };
//@sub /for (\w+) in data\.chunks_exact\(ENTRY_SIZE\) \{/ => let mut i_: usize = 0; while i_ + 32 <= data.len() { let \1 = slice_subrange(data.as_slice(), i_, i_ + 32); i_ = i_ + 32;
//@sub /for (\w+) in block\.iter_mut\(\)\.take\((\w+)\)\.skip\((\w+)\) \{(.*?)\}/ => let mut k_: usize = \3; while k_ < \2 && k_ < block.len() { let \1 = &mut block[k_]; \4 k_ = k_ + 1; }
//@sub /disk\.blocks_ref_mut\(\)/ => (&mut *hb)
//@sub /bam\.borrow\(\)/ => (&*hm)
//@sub /bam\.borrow_mut\(\)/ => (&mut *hm)
//@sub /\.flush\(\)/ => .flush(hb)
//@spec
    requires
        disk_ok(old(hb), old(hm)), old(disk).format.is_some() ==> old(disk).format->Some_0 == old(hm).format && dir_ok(old(hb), old(hm), dir_start(old(disk))),
        map_used(old(hm)),
    ensures
        *final(disk) == *old(disk),
        r.is_err() ==> *final(hm) == *old(hm) && *final(hb) == *old(hb),
        r.is_ok() ==> old(disk).format.is_some() && disk_ok(final(hb), final(hm)) && free_entry(old(hb), old(hm), final(hb), final(hm), dir_start(old(disk)), &r->Ok_0),
//@start
    hide(walk); hide(before); hide(dir_slots); hide(content); hide(decodes); hide(from_previous); hide(consistent); hide(scratched);
    let ghost d0 = *hb;
    let ghost b0 = *hm;
    let ghost mut w: Seq<Location> = Seq::empty();
    let ghost start = dir_start(disk);
    let ghost mut d1 = *hb;
    proof { assert(walk(hb, start, w)) by { reveal(walk); } assert(dir_slots(hb, w).len() == 0) by { reveal(dir_slots); } }
//@loop 1
    invariant
        d0 == *hb, b0 == *hm, *hb == *old(hb), *hm == *old(hm), *disk == *old(disk), disk_ok(hb, hm), disk.format.is_some(), start == dir_start(disk),
        iter_at(hb, &it_, start, w), walk(hb, start, w), no_scratched(hb, w), w.len() > 0 ==> last_sector == w.last(),
    ensures crate::chain::chain(hb, start, w)
    decreases before(hb.geometry.track_layouts@, hb.geometry.tracks + 1) - w.len()
//@loopstart 1
    let ghost nx = it_.next_sector;
//@before /let ChainSector/
    let ghost l = nx->Some_0;
    proof { lemma_next(hb, start, w, l); assert(set_of(w).contains(l) == w.contains(l)); if hb.valid(l) { hb.lemma_off(l); lemma_used_bound(hb, l); } }
//@loop 2
    invariant
        d0 == *hb, b0 == *hm, *hb == *old(hb), *hm == *old(hm), *disk == *old(disk), disk_ok(hb, hm), disk.format.is_some(), start == dir_start(disk),
        hb.valid(l), location == l, data@ == hb.sec(l).take(used(hb.sec(l))), data@.len() <= 256, walk(hb, start, w.push(l)),
        i_ % 32 == 0, i_ <= data@.len(), offset as int == i_ as int % 256,
        forall|j: int| 0 <= j < dir_slots(hb, w).len() + i_ / 32 ==> live(hb, #[trigger] dir_slots(hb, w.push(l))[j]),
    decreases data@.len() - i_
//@loopstart 2
    let ghost i0 = i_ as int;
    proof { lemma_piece(hb, w, l, data@, i0); }
//@before /is_scratched\(\)/
    proof {
        assert(chunk@ == slot(hb, entry.position->Some_0));
        let k = dir_slots(hb, w).len() + i0 / 32;
        assert(live(hb, dir_slots(hb, w.push(l))[k]) == !scratched(entry.file_attributes)) by { reveal(decodes); }
        if scratched(entry.file_attributes) { assert(first_scratched(hb, start, w.push(l), k)); }
    }
//@afterloop 2
    proof {
        lemma_slots_push(hb, w, l);
        w = w.push(l);
    }
//@before /let bam = disk/
    proof {
        assert(w[w.len() - 1] == last_sector) by { reveal(walk); }
        assert(dir_sector(hm, w[w.len() - 1]));
    }
//@before /\.allocate\(/
    proof { d1 = *hb; }
//@before /\.flush\(/
    let ghost d2 = *hb;
    let ghost b1 = *hm;
//@end
    proof {
        let l = new_sector;
        assert(!bam_sector(b0.bam_rw.format, l));
        lemma_dir_extended(&d0, &b0, &d1, &d2, &b1, hb, hm, start, w, l);
        assert(dir_extended(&d0, &b0, hb, hm, start, w, l));
        assert(b0.is_free(l) && !hm.is_free(l));
        let p = Position { location: l, offset: 0, size: 32 };
        hb.lemma_off(l); d1.lemma_off(l);
        assert(hb.valid(l));
        assert(slot(hb, p) =~= slot(&d1, p)) by {
            assert(empty_dir_sector(hb.sec(l)));
            assert(empty_dir_sector(d1.sec(l)));
            assert(hb.sec(l) =~= d1.sec(l));
        }
        lemma_zero_scratched();
        assert(slot(hb, p)[2] == hb.sec(l)[2]);
    }
//@loop 3
    invariant block@.len() == 256, block@[0] == 0, block@[1] == 0xFF, 2 <= k_ <= 256, forall|x: int| 2 <= x < k_ ==> #[trigger] block@[x] == 0
    decreases 256 - k_
//@beforeloop 2
    proof {
        lemma_slots_push(hb, w, l);
        assert forall|j: int| 0 <= j < dir_slots(hb, w).len() implies live(hb, #[trigger] dir_slots(hb, w.push(l))[j]) by { assert(live(hb, dir_slots(hb, w)[j])); }
    }
//@endfn

// ---------------------------------------------------------------- creating a file

//@item src/disk/file.rs enum File
//@item src/disk/chain.rs static CHAIN_LINK_ZERO /\bstatic\b/ => const

pub open spec fn new_attributes(t: FileType) -> FileAttributes {
    FileAttributes { file_type: t, unused_bit: false, save_with_replace_flag: false, locked_flag: false, closed_flag: true }
}
/// c is the slot of a new, closed, empty file of one block at l; the link bytes are those of b
pub open spec fn new_entry(c: Seq<u8>, b: Seq<u8>, t: FileType, l: Location, name: Seq<u8>) -> bool {
    &&& c.len() == 32 && c.take(2) == b.take(2)
    &&& c[2] == attr_byte(new_attributes(t)) && c[3] == l.0 && c[4] == l.1
    &&& c.subrange(5, 21) == padded_name(name)
    &&& c.subrange(21, 30) == Seq::new(9, |k: int| 0u8)
    &&& c[30] == 1 && c[31] == 0
}
/// an empty file was created at l, with its entry in slot p: nothing else was changed but the stored map
pub open spec fn created(dm: &ImageBlockDevice, bm: &Bam, d: &ImageBlockDevice, b: &Bam, p: Position, l: Location, t: FileType, name: Seq<u8>) -> bool {
    &&& eligible(&bm.format, false, l) && bm.has(l) && bm.is_free(l)
    &&& next_block_rule(&bm.format, bm, None, Ok(l))
    &&& b.format == bm.format && b.bam_rw.format == bm.bam_rw.format && b.invalidated == bm.invalidated
    &&& forall|x: Location| bm.has(x) ==> #[trigger] b.is_free(x) == (bm.is_free(x) && x != l)
    &&& disk_ok(d, b) && bam_stored(b.bam_rw.format, d, b.entries@)
    &&& d.same_shape(dm) && d.same_table(dm)
    &&& dir_sector(bm, p.location) && wf_pos(d, p) && p.location != l
    &&& d.sec(l) == dm.sec(l).update(0, 0).update(1, 1)
    &&& d.sec(p.location) == with_slot(dm.sec(p.location), p, slot(d, p)) && new_entry(slot(d, p), slot(dm, p), t, l, name)
    &&& forall|x: Location, o: int| dm.valid(x) && x != l && x != p.location && 0 <= o < 256 && !covered(bm.bam_rw.format.sections@, bm.bam_rw.format.sections@.len() as int, x, o)
        ==> #[trigger] d.sec(x)[o] == dm.sec(x)[o]
}
pub open spec fn plain_type(t: FileType) -> bool { t == FileType::SEQ || t == FileType::PRG || t == FileType::USR }
/// the handle of a created file
pub open spec fn handle_of(f: &File, d: &ImageBlockDevice, p: Position, l: Location, t: FileType, name: Seq<u8>) -> bool {
    &&& f is Linear && f->Linear_0.entry.position == Some(p) && f->Linear_0.entry.first_sector == l && f->Linear_0.entry.filename@ == name
    &&& encodes(&f->Linear_0.entry, slot(d, p))
    &&& plain_type(t) && (name.len() > 0 ==> name.last() != 0xA0) ==> decodes(&f->Linear_0.entry, slot(d, p))
}
pub proof fn lemma_slot_location(dev: &ImageBlockDevice, ls: Seq<Location>, k: int)
    requires 0 <= k < dir_slots(dev, ls).len()
    ensures ls.contains(dir_slots(dev, ls)[k].location)
    decreases ls.len()
{
    if ls.len() > 0 {
        let q = ls.drop_last();
        if k < dir_slots(dev, q).len() {
            lemma_slot_location(dev, q, k);
            let j = choose|j: int| 0 <= j < q.len() && q[j] == dir_slots(dev, q)[k].location;
            assert(ls[j] == q[j]);
        } else { assert(ls[ls.len() - 1] == ls.last()); }
    }
}
/// the slot for a new entry is in a sector of the directory
pub proof fn lemma_free_entry(d0: &ImageBlockDevice, b0: &Bam, d1: &ImageBlockDevice, b1: &Bam, start: Location, c: Seq<Location>, e: &DirectoryEntry)
    requires disk_ok(d0, b0), dir_ok(d0, b0, start), chain(d0, start, c), free_entry(d0, b0, d1, b1, start, e)
    ensures dir_sector(b1, (e.position->Some_0).location), b1.format == b0.format, b1.bam_rw.format == b0.bam_rw.format, d1.same_shape(d0)
{
    hide(from_previous); hide(before); hide(dir_slots);
    let p = e.position->Some_0;
    if d1 == d0 && b1 == b0 {
        let (ls, k) = choose|ls: Seq<Location>, k: int| #[trigger] first_scratched(d0, start, ls, k) && e.position == Some(dir_slots(d0, ls)[k]);
        lemma_slot_location(d0, ls, k);
        lemma_walk_of_chain(d0, start, ls, c);
        let j = choose|j: int| 0 <= j < ls.len() && ls[j] == p.location;
        assert(c.take(ls.len() as int)[j] == c[j]);
        assert(dir_sector(b0, c[j]));
    } else {
        let (ls, l) = choose|ls: Seq<Location>, l: Location| #[trigger] dir_extended(d0, b0, d1, b1, start, ls, l) && e.position == Some(Position { location: l, offset: 0, size: 32 });
        assert(b1.is_free(l) == (b0.is_free(l) && l != l));
        assert(b1.has(l) == b0.has(l));
        assert(dir_sector(b0, ls[ls.len() - 1]));
    }
}
pub proof fn lemma_new_entry(e: &DirectoryEntry, c: Seq<u8>, b: Seq<u8>, t: FileType, l: Location, name: Seq<u8>)
    requires
        encodes(e, c), c.take(2) == b.take(2), e.file_attributes == new_attributes(t), e.first_sector == l, e.filename@ == name, name.len() <= 16,
        extra_bytes(&e.extra) == Seq::new(9, |k: int| 0u8), e.file_size == 1, e.scheme == Scheme::Linear, e.extra is Linear,
    ensures
        new_entry(c, b, t, l, name),
        plain_type(t) && (name.len() > 0 ==> name.last() != 0xA0) ==> decodes(e, c),
{
    let n = name.len() as int;
    let s = c.subrange(5, 21);
    assert forall|k: int| 0 <= k < 16 implies s[k] == padded_name(name)[k] by { if k < n { assert(s.take(n)[k] == name[k]); } }
    assert(s =~= padded_name(name));
    if plain_type(t) && (name.len() > 0 ==> name.last() != 0xA0) {
        lemma_padded_roundtrip(s, name, 0xA0);
        assert(c.subrange(21, 30)[2] == c[0x17] && c.subrange(21, 30)[3] == c[0x18]);
        let a = c[2];
        assert((1u8 | 0 | 0 | 0 | 0x80) == 0x81u8 && (2u8 | 0 | 0 | 0 | 0x80) == 0x82u8 && (3u8 | 0 | 0 | 0 | 0x80) == 0x83u8) by (bit_vector);
        assert(a == 0x81 || a == 0x82 || a == 0x83);
        assert(a == 0x81 || a == 0x82 || a == 0x83 ==> a & 0x0F == a - 0x80 && a & 0x10 == 0 && a & 0x20 == 0 && a & 0x40 == 0 && a & 0x80 != 0) by (bit_vector);
        assert(c[30] + 256 * c[31] == 1);
    }
}
impl D64 {
//@props P07 P12
//@fn src/disk/mod.rs Disk::next_free_directory_entry
//@ret r
//@sig /&mut self/ => &mut self, hb: &mut ImageBlockDevice, hm: &mut Bam
//@sub /directory::next_free_directory_entry\(self\)/ => crate::disk::next_free_directory_entry(self, hb, hm)
//@spec
    requires
        disk_ok(old(hb), old(hm)), old(self).format.is_some() ==> old(self).format->Some_0 == old(hm).format && dir_ok(old(hb), old(hm), dir_start(old(self))),
        map_used(old(hm)),
    ensures
        *final(self) == *old(self),
        r.is_err() ==> *final(hm) == *old(hm) && *final(hb) == *old(hb),
        r.is_ok() ==> old(self).format.is_some() && disk_ok(final(hb), final(hm)) && free_entry(old(hb), old(hm), final(hb), final(hm), dir_start(old(self)), &r->Ok_0),
//@endfn
//@props P04 P07 P08 P10 P11 P12
//@fn src/disk/mod.rs Disk::create_file
//@ret r
//@sig /&mut self,/ => &mut self, hb: &mut ImageBlockDevice, hm: &mut Bam,
//@sub /assert_eq!\(scheme, Scheme::Linear\);/ => assert(scheme == Scheme::Linear);
//@sub? /directory::check_filename_validity/ => check_filename_validity
//@sub /self\.check_filename_availability\((\w+)\)/ => self.check_filename_availability(&*hb, \1)
//@sub /self\.next_free_directory_entry\(\)/ => self.next_free_directory_entry(hb, hm)
//@sub /self\.blocks_ref\(\)/ => (&*hb)
//@sub /self\.blocks_ref_mut\(\)/ => (&mut *hb)
//@sub /bam\.borrow_mut\(\)/ => (&mut *hm)
//@sub /bam\.flush\(\)/ => bam.flush(hb)
//@sub? /drop\(blocks\);/ => 
//@sub? /chain::CHAIN_LINK_ZERO/ => CHAIN_LINK_ZERO
//@spec
    requires
        scheme == Scheme::Linear, old(self).bam.is_some(), disk_ok(old(hb), old(hm)), map_used(old(hm)),
        old(self).format.is_some() ==> old(self).format->Some_0 == old(hm).format && dir_ok(old(hb), old(hm), dir_start(old(self))),
    ensures
        *final(self) == *old(self),
        r.is_ok() ==> old(hb).writable() && filename@.len() <= 16 && absent(old(hb), dir_start(old(self)), disk_border(old(self)), filename@), // [P11]
        r.is_ok() ==> exists|dm: ImageBlockDevice, bm: Bam, e: DirectoryEntry| #[trigger] free_entry(old(hb), old(hm), &dm, &bm, dir_start(old(self)), &e)
            && disk_ok(&dm, &bm) && created(&dm, &bm, final(hb), final(hm), e.position->Some_0, r->Ok_0->Linear_0.entry.first_sector, file_type, filename@)
            && handle_of(&r->Ok_0, final(hb), e.position->Some_0, r->Ok_0->Linear_0.entry.first_sector, file_type, filename@),
        r.is_err() ==> *final(hb) == *old(hb) && *final(hm) == *old(hm)
            || r->Err_0.e == DiskError::DiskFull && (forall|l: Location| eligible(&old(hm).format, false, l) ==> !#[trigger] final(hm).is_free(l))
                && disk_ok(final(hb), final(hm)) && exists|e: DirectoryEntry| #[trigger] free_entry(old(hb), old(hm), final(hb), final(hm), dir_start(old(self)), &e),
        !old(hb).writable() ==> r.is_err() && *final(hb) == *old(hb) && *final(hm) == *old(hm), // [P13]
//@start
    hide(walk); hide(before); hide(dir_slots); hide(content); hide(decodes); hide(encodes); hide(from_previous); hide(consistent); hide(scratched); hide(free_entry); hide(new_entry); hide(attr_byte);
    let ghost d0 = *hb;
    let ghost b0 = *hm;
    let ghost start = dir_start(self);
    let ghost mut c: Seq<Location> = Seq::empty();
    let ghost mut dm = *hb;
    let ghost mut bm = *hm;
    let ghost mut e0: DirectoryEntry = arbitrary();
    let ghost mut d1 = *hb;
    let ghost mut b1 = *hm;
    let ghost mut d2 = *hb;
    let ghost mut p = Position { location: Location(0, 0), offset: 0, size: 0 };
//@after /self\s*\.check_filename_availability/
    proof { c = choose|ls: Seq<Location>| #[trigger] dir_chain(hb, start, disk_border(self), ls); assert(chain(hb, start, c)); }
//@after /let mut entry =/
    proof {
        dm = *hb; bm = *hm; e0 = entry; p = entry.position->Some_0;
        lemma_free_entry(&d0, &b0, &dm, &bm, start, c, &entry);
        assert(wf_pos(hb, p) && entry.position == Some(p)) by { reveal(free_entry); }
        assert(0u8 & 0x0F == 0 && 0u8 & 0x10 == 0 && 0u8 & 0x20 == 0 && 0u8 & 0x40 == 0 && 0u8 & 0x80 == 0) by (bit_vector);
    }
//@before /\.positioned_write\(/
    proof {
        d1 = *blocks; b1 = *bam;
        assert(dm.valid(first_sector)); dm.lemma_off(first_sector);
        assert(p.location != first_sector); assert(dm.valid(p.location)); assert(d1.valid(p.location)); assert(d1.writable());
    }
//@before /bam\.flush\(/
    proof { d2 = *hb; b1 = *bam; }
//@end
    proof {
        reveal(free_entry);
        assert(slot(&d1, p) == slot(&dm, p)) by { assert(dm.valid(p.location)); }
        lemma_created(&dm, &bm, &d1, &b1, &d2, hb, hm, &entry, first_sector, file_type, filename@);
        assert(free_entry(&d0, &b0, &dm, &bm, start, &e0));
    }
//@endfn
}
/// the steps of creating a file: first sector (d1), map (b1), entry (d2), stored map (d3)
pub proof fn lemma_created(dm: &ImageBlockDevice, bm: &Bam, d1: &ImageBlockDevice, b1: &Bam, d2: &ImageBlockDevice, d3: &ImageBlockDevice, b2: &Bam, e: &DirectoryEntry, l: Location, t: FileType, name: Seq<u8>)
    requires
        disk_ok(dm, bm), eligible(&bm.format, false, l), bm.is_free(l), next_block_rule(&bm.format, bm, None, Ok(l)),
        e.position.is_some(), wf_pos(dm, e.position->Some_0), dir_sector(bm, (e.position->Some_0).location),
        sector_replaced(dm, d1, l, dm.sec(l).update(0, 0).update(1, 1)), b1.wf(), b1.changed(bm, l, false),
        slot_written(d1, d2, e),
        e.file_attributes == new_attributes(t), e.first_sector == l, e.filename@ == name, name.len() <= 16,
        extra_bytes(&e.extra) == Seq::new(9, |k: int| 0u8), e.file_size == 1, e.scheme == Scheme::Linear, e.extra is Linear,
        b2.entries == b1.entries, b2.format == b1.format, b2.invalidated == b1.invalidated, b2.bam_rw.format == b1.bam_rw.format,
        d3.wf(), d3.same_shape(d2), d3.same_table(d2), bam_stored(b1.bam_rw.format, d3, b1.entries@),
        bam_frame(b1.bam_rw.format, b1.bam_rw.format.sections@.len() as int, d3, d2),
    ensures
        created(dm, bm, d3, b2, e.position->Some_0, l, t, name),
        encodes(e, slot(d3, e.position->Some_0)),
        plain_type(t) && (name.len() > 0 ==> name.last() != 0xA0) ==> decodes(e, slot(d3, e.position->Some_0)),
{
    hide(from_previous); hide(before); hide(encodes); hide(decodes); hide(new_entry); hide(attr_byte);
    let p = e.position->Some_0;
    let sx = bm.bam_rw.format.sections@;
    assert(bm.has(l));
    assert(dm.valid(l) && d1.valid(l) && d2.valid(l) && d1.valid(p.location));
    assert(!bam_sector(bm.bam_rw.format, l)) by { if bam_sector(bm.bam_rw.format, l) { assert(bm.format.skipped(l.0 as int)); } }
    assert(d1.sec(p.location) == dm.sec(p.location));
    assert(d2.sec(l) == d1.sec(l));
    dm.lemma_off(l); dm.lemma_off(p.location); d1.lemma_off(p.location);
    assert forall|x: Location| (x == l || x == p.location) && #[trigger] dm.valid(x) implies d3.sec(x) == d2.sec(x) by {
        d2.lemma_off(x); d3.lemma_off(x);
        assert forall|o: int| 0 <= o < 256 implies d3.sec(x)[o] == d2.sec(x)[o] by { lemma_not_covered(bm.bam_rw.format, x, o); assert(d2.valid(x)); }
        assert(d3.sec(x) =~= d2.sec(x));
    }
    assert(d3.sec(l) == d2.sec(l) && d3.sec(p.location) == d2.sec(p.location));
    lemma_allocate_consistent(bm, b1, l);
    assert forall|x: Location| bm.has(x) implies #[trigger] b2.is_free(x) == (bm.is_free(x) && x != l) by { assert(b1.is_free(x) == (bm.is_free(x) && x != l)); }
    assert(consistent(&b2.format, b2)) by {
        assert forall|t: int| 1 <= t <= b2.format.last_track implies (#[trigger] b2.entries@[t - 1]).free_sectors == crate::bam::count(b2.entries@[t - 1].sector_map, 64) by { assert(b1.entries@[t - 1].free_sectors == crate::bam::count(b1.entries@[t - 1].sector_map, 64)); }
        assert forall|t: int, s: int| 1 <= t <= b2.format.last_track && b2.format.tracks@[t].sectors <= s < 64 implies !#[trigger] fr(b2.entries@[t - 1].sector_map, s) by { assert(!fr(b1.entries@[t - 1].sector_map, s)); }
        assert forall|s: int| b2.format.reserved_track > 0 implies !#[trigger] fr(b2.entries@[b2.format.reserved_track - 1].sector_map, s) by { assert(!fr(b1.entries@[b1.format.reserved_track - 1].sector_map, s)); }
    }
    lemma_disk_ok(dm, bm, d3, b2);
    lemma_new_entry(e, slot(d3, p), slot(dm, p), t, l, name);
    assert forall|x: Location, o: int| dm.valid(x) && x != l && x != p.location && 0 <= o < 256 && !covered(sx, sx.len() as int, x, o) implies #[trigger] d3.sec(x)[o] == dm.sec(x)[o] by {
        assert(d1.valid(x) && d2.valid(x));
        assert(d3.sec(x)[o] == d2.sec(x)[o]);
        assert(d2.sec(x) == d1.sec(x));
        assert(d1.sec(x) == dm.sec(x));
    }
}
} // mod disk
pub use disk::*;
