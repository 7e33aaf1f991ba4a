pub mod history {
use super::*;

// ---------------------------------------------------------------- the invariant of a disk in use

pub open spec fn first_of(b: Seq<u8>) -> Location { Location(b[3], b[4]) }
/// the slot of a closed SEQ, PRG or USR file without GEOS data
pub open spec fn plain(b: Seq<u8>) -> bool { b.len() == 32 && (b[2] == 0x81 || b[2] == 0x82 || b[2] == 0x83) && b[0x17] == 0 && b[0x18] == 0 }
pub open spec fn in_dir(ds: Seq<Location>, p: Position) -> bool { ds.contains(p.location) && p.size == 32 && p.offset % 32 == 0 }
/// a sector in use, on a track for file data
pub open spec fn data_sector(bam: &Bam, l: Location) -> bool { bam.has(l) && !bam.is_free(l) && !bam.format.skipped(l.0 as int) }
/// the file in slot p has the sectors c, and its entry states how many
pub open spec fn file_ok(dev: &ImageBlockDevice, bam: &Bam, p: Position, c: Seq<Location>) -> bool {
    &&& live(dev, p) && plain(slot(dev, p)) && chain(dev, first_of(slot(dev, p)), c) && stored_size(slot(dev, p)) == bumps(0, c.len() as int)
    &&& forall|k: int| 0 <= k < c.len() ==> data_sector(bam, #[trigger] c[k])
}
pub open spec fn apart(a: Seq<Location>, b: Seq<Location>) -> bool { forall|l: Location| !(#[trigger] a.contains(l) && #[trigger] b.contains(l)) }
pub open spec fn filed(fs: Map<Position, Seq<Location>>, l: Location) -> bool { exists|p: Position| #[trigger] fs.dom().contains(p) && fs[p].contains(l) }
/// the directory: a chain of full sectors marked in use
pub open spec fn dir_part(dev: &ImageBlockDevice, bam: &Bam, start: Location, ds: Seq<Location>) -> bool {
    &&& chain(dev, start, ds)
    &&& forall|k: int| 0 <= k < ds.len() ==> dir_sector(bam, #[trigger] ds[k]) && used(dev.sec(ds[k])) == 256
}
/// the files fs (slot and sectors of each) are those of the directory ds, no sector has two owners, names differ,
/// and the sectors in use are exactly those of the system, the directory and the files
#[verifier::opaque]
pub open spec fn sound(dev: &ImageBlockDevice, bam: &Bam, start: Location, ds: Seq<Location>, fs: Map<Position, Seq<Location>>) -> bool {
    &&& native(&bam.format) && fits_on(&bam.format, dev) && bam.bam_rw.format == bam.format.bam && start == first_dir(&bam.format)
    &&& !ds.contains(bam.format.header.location)
    &&& disk_ok(dev, bam) && map_used(bam) && dir_part(dev, bam, start, ds)
    &&& forall|p: Position| #[trigger] fs.dom().contains(p) <==> in_dir(ds, p) && live(dev, p)
    &&& forall|p: Position| #[trigger] fs.dom().contains(p) ==> file_ok(dev, bam, p, fs[p])
    &&& forall|p: Position, q: Position| #[trigger] fs.dom().contains(p) && #[trigger] fs.dom().contains(q) && p != q ==> apart(fs[p], fs[q]) && name_at(dev, p) != name_at(dev, q)
    &&& forall|l: Location| #[trigger] system_sector(&bam.format, l) ==> bam.has(l) && !bam.is_free(l) && bam.format.skipped(l.0 as int)
    &&& forall|l: Location| bam.has(l) && !#[trigger] bam.is_free(l) ==> system_sector(&bam.format, l) || ds.contains(l) || filed(fs, l)
}
/// the header says that the disk is formatted and no GEOS disk
pub open spec fn mountable(f: &DiskFormat, dev: &ImageBlockDevice) -> bool {
    let b = dev.sec(f.header.location);
    b.len() == 256 && flag_ok(f.header, b) && b.subrange(0xAD, 0xB8) != signature()
}
/// the image holds the map and a header: opening it again gives the same disk
#[verifier::opaque]
pub open spec fn saved(dev: &ImageBlockDevice, bam: &Bam) -> bool { bam_stored(bam.bam_rw.format, dev, bam.entries@) && mountable(&bam.format, dev) }
/// what an operation on one file leaves alone: entry and contents of every other file
pub open spec fn kept(d0: &ImageBlockDevice, d1: &ImageBlockDevice, q: Position, c: Seq<Location>) -> bool {
    &&& slot(d1, q).skip(2) == slot(d0, q).skip(2) && content(d1, c) == content(d0, c)
    &&& forall|k: int| 0 <= k < c.len() ==> d1.sec(#[trigger] c[k]) == d0.sec(c[k])
}

// ---------------------------------------------------------------- tools

pub proof fn lemma_slot_cases(dev: &ImageBlockDevice, l: Location, p: Position)
    ensures slots_in(l, 8).contains(p) <==> p.location == l && p.size == 32 && p.offset % 32 == 0
{
    if p.location == l && p.size == 32 && p.offset % 32 == 0 {
        let j = (p.offset / 32) as int;
        assert(slots_in(l, 8)[j] == p);
    }
    if slots_in(l, 8).contains(p) { let j = choose|j: int| 0 <= j < 8 && slots_in(l, 8)[j] == p; assert(p.offset == 32 * j); }
}
/// the slots of a directory of full sectors
pub proof fn lemma_in_dir(dev: &ImageBlockDevice, ds: Seq<Location>, p: Position)
    requires forall|k: int| 0 <= k < ds.len() ==> used(dev.sec(#[trigger] ds[k])) == 256
    ensures dir_slots(dev, ds).contains(p) <==> in_dir(ds, p)
    decreases ds.len()
{
    if ds.len() > 0 {
        let q = ds.drop_last();
        let l = ds.last();
        assert(used(dev.sec(ds[ds.len() - 1])) == 256);
        assert forall|k: int| 0 <= k < q.len() implies used(dev.sec(#[trigger] q[k])) == 256 by { assert(used(dev.sec(ds[k])) == 256); }
        lemma_in_dir(dev, q, p);
        lemma_slot_cases(dev, l, p);
        let (a, b) = (dir_slots(dev, q), slots_in(l, 8));
        assert(dir_slots(dev, ds) == a + b);
        if (a + b).contains(p) { let j = choose|j: int| 0 <= j < (a + b).len() && (a + b)[j] == p; if j < a.len() { assert(a[j] == p); } else { assert(b[j - a.len()] == p); } }
        if a.contains(p) { let j = choose|j: int| 0 <= j < a.len() && a[j] == p; assert((a + b)[j] == p); }
        if b.contains(p) { let j = choose|j: int| 0 <= j < b.len() && b[j] == p; assert((a + b)[a.len() + j] == p); }
        if ds.contains(p.location) && !q.contains(p.location) { let j = choose|j: int| 0 <= j < ds.len() && ds[j] == p.location; if j < q.len() { assert(q[j] == p.location); } }
        if q.contains(p.location) { let j = choose|j: int| 0 <= j < q.len() && q[j] == p.location; assert(ds[j] == p.location); }
        if p.location == l { assert(ds[ds.len() - 1] == l); }
    }
}
/// one slot of a sector changed, its link bytes kept
pub proof fn lemma_slot_change(d0: &ImageBlockDevice, d1: &ImageBlockDevice, p: Position, n: Seq<u8>)
    requires
        d0.wf(), d0.valid(p.location), p.size == 32, p.offset % 32 == 0, n.len() == 32, n.take(2) == slot(d0, p).take(2),
        d1.sec(p.location) == with_slot(d0.sec(p.location), p, n),
    ensures
        wf_pos(d0, p), slot(d1, p) == n, d1.sec(p.location).len() == 256,
        d1.sec(p.location)[0] == d0.sec(p.location)[0], d1.sec(p.location)[1] == d0.sec(p.location)[1],
        forall|q: Position| q.location == p.location && q.size == 32 && q.offset % 32 == 0 && q != p ==> #[trigger] slot(d1, q) == slot(d0, q),
{
    d0.lemma_off(p.location);
    let s = d0.sec(p.location);
    assert(p.offset <= 224);
    assert(slot(d1, p) =~= n);
    assert(n.take(2)[0] == n[0] && n.take(2)[1] == n[1]);
    assert(slot(d0, p).take(2)[0] == s[p.offset as int] && slot(d0, p).take(2)[1] == s[p.offset + 1]);
    assert forall|q: Position| q.location == p.location && q.size == 32 && q.offset % 32 == 0 && q != p implies #[trigger] slot(d1, q) == slot(d0, q) by {
        assert(q.offset <= 224 && q.offset != p.offset);
        assert(q.offset + 32 <= p.offset || p.offset + 32 <= q.offset) by {
            let (a, b) = (q.offset as int / 32, p.offset as int / 32);
            assert(q.offset == 32 * a && p.offset == 32 * b);
            assert(a != b);
        }
        assert(slot(d1, q) =~= slot(d0, q));
    }
}
/// a chain of which only bytes behind the links changed
pub proof fn lemma_links(d0: &ImageBlockDevice, d1: &ImageBlockDevice, start: Location, ls: Seq<Location>)
    requires
        chain(d0, start, ls), d1.geometry == d0.geometry,
        forall|k: int| 0 <= k < ls.len() ==> d1.sec(#[trigger] ls[k])[0] == d0.sec(ls[k])[0] && d1.sec(ls[k])[1] == d0.sec(ls[k])[1],
    ensures chain(d1, start, ls), forall|k: int| 0 <= k < ls.len() ==> used(d1.sec(#[trigger] ls[k])) == used(d0.sec(ls[k]))
{
    assert forall|k: int| 0 <= k < ls.len() implies link(d1.sec(#[trigger] ls[k])) == link(d0.sec(ls[k])) by { }
    assert forall|k: int| 0 <= k < ls.len() implies d1.valid(#[trigger] ls[k]) && link(d1.sec(ls[k])).is_some() by { assert(d0.valid(ls[k])); }
    assert forall|k: int| 0 <= k < ls.len() - 1 implies link_next(#[trigger] d1.sec(ls[k])) == Some(ls[k + 1]) by { assert(link_next(d0.sec(ls[k])) == Some(ls[k + 1])); assert(link(d1.sec(ls[k])) == link(d0.sec(ls[k]))); }
    assert(link(d1.sec(ls[ls.len() - 1])) == link(d0.sec(ls[ls.len() - 1])));
}
/// a sector that is no map sector and has the same bytes where the map is not
pub proof fn lemma_same_sector(d0: &ImageBlockDevice, d1: &ImageBlockDevice, f: &BamFormat, x: Location)
    requires
        d0.wf(), d1.same_shape(d0), d0.valid(x), !bam_sector(f, x),
        forall|o: int| 0 <= o < 256 && !covered(f.sections@, f.sections@.len() as int, x, o) ==> #[trigger] d1.sec(x)[o] == d0.sec(x)[o],
    ensures d1.sec(x) == d0.sec(x)
{
    d0.lemma_off(x); d1.lemma_off(x);
    assert forall|o: int| 0 <= o < 256 implies d1.sec(x)[o] == d0.sec(x)[o] by { lemma_not_covered(f, x, o); }
    assert(d1.sec(x) =~= d0.sec(x));
}
pub proof fn lemma_slot_tail(a: Seq<u8>, b: Seq<u8>)
    requires a.len() == 32, b.len() == 32, a.skip(2) == b.skip(2)
    ensures forall|k: int| 2 <= k < 32 ==> #[trigger] a[k] == b[k], a.subrange(5, 21) == b.subrange(5, 21)
{
    assert forall|k: int| 2 <= k < 32 implies #[trigger] a[k] == b[k] by { assert(a.skip(2)[k - 2] == b.skip(2)[k - 2]); }
    assert(a.subrange(5, 21) =~= b.subrange(5, 21));
}
/// P08: a file whose slot and sectors were not touched is as before
pub proof fn lemma_other(d0: &ImageBlockDevice, b0: &Bam, d1: &ImageBlockDevice, b1: &Bam, q: Position, c: Seq<Location>)
    requires
        file_ok(d0, b0, q, c), d1.geometry == d0.geometry, b1.format == b0.format, slot(d1, q).len() == 32, slot(d1, q).skip(2) == slot(d0, q).skip(2),
        forall|k: int| 0 <= k < c.len() ==> d1.sec(#[trigger] c[k]) == d0.sec(c[k]) && !b1.is_free(c[k]),
    ensures file_ok(d1, b1, q, c), kept(d0, d1, q, c), name_at(d1, q) == name_at(d0, q) // [P08]
{
    lemma_walk_frame(d0, d1, first_of(slot(d0, q)), c);
    lemma_slot_tail(slot(d0, q), slot(d1, q));
    assert forall|k: int| 0 <= k < c.len() implies data_sector(b1, #[trigger] c[k]) by { assert(data_sector(b0, c[k])); }
}
/// where the sectors of a disk in use lie
pub proof fn lemma_places(dev: &ImageBlockDevice, bam: &Bam, start: Location, ds: Seq<Location>, fs: Map<Position, Seq<Location>>)
    requires sound(dev, bam, start, ds, fs)
    ensures
        forall|l: Location| #[trigger] ds.contains(l) ==> dir_sector(bam, l) && dev.valid(l),
        forall|p: Position, k: int| fs.dom().contains(p) && 0 <= k < fs[p].len() ==> data_sector(bam, #[trigger] fs[p][k]) && dev.valid(fs[p][k]) && !bam_sector(bam.bam_rw.format, fs[p][k]) && !ds.contains(fs[p][k]),
        forall|p: Position, l: Location| #[trigger] fs.dom().contains(p) && #[trigger] fs[p].contains(l) ==> data_sector(bam, l) && dev.valid(l) && !ds.contains(l),
{
    reveal(sound);
    assert forall|l: Location| #[trigger] ds.contains(l) implies dir_sector(bam, l) && dev.valid(l) by {
        let k = choose|k: int| 0 <= k < ds.len() && ds[k] == l;
        assert(dir_sector(bam, ds[k]));
    }
    assert forall|p: Position, k: int| fs.dom().contains(p) && 0 <= k < fs[p].len() implies
        data_sector(bam, #[trigger] fs[p][k]) && dev.valid(fs[p][k]) && !bam_sector(bam.bam_rw.format, fs[p][k]) && !ds.contains(fs[p][k]) by {
        assert(file_ok(dev, bam, p, fs[p]));
        let l = fs[p][k];
        assert(data_sector(bam, l));
        if ds.contains(l) { assert(dir_sector(bam, l)); }
    }
    assert forall|p: Position, l: Location| #[trigger] fs.dom().contains(p) && #[trigger] fs[p].contains(l) implies data_sector(bam, l) && dev.valid(l) && !ds.contains(l) by {
        let k = choose|k: int| 0 <= k < fs[p].len() && fs[p][k] == l;
        assert(data_sector(bam, fs[p][k]));
    }
}
/// the preconditions of the operations hold on a disk in use
pub proof fn lemma_ready(dev: &ImageBlockDevice, bam: &Bam, start: Location, ds: Seq<Location>, fs: Map<Position, Seq<Location>>)
    requires sound(dev, bam, start, ds, fs)
    ensures disk_ok(dev, bam), map_ok(dev, bam), map_used(bam), dir_ok(dev, bam, start), dir_chain(dev, start, None, ds)
{
    reveal(sound);
    assert forall|ls: Seq<Location>, k: int| #[trigger] chain(dev, start, ls) && 0 <= k < ls.len() implies dir_sector(bam, #[trigger] ls[k]) by {
        lemma_walk_of_chain(dev, start, ls, ds);
        assert(dir_sector(bam, ds[k]));
    }
}
/// looking a name up on a disk in use
pub proof fn lemma_absent(dev: &ImageBlockDevice, bam: &Bam, start: Location, ds: Seq<Location>, fs: Map<Position, Seq<Location>>, name: Seq<u8>)
    requires sound(dev, bam, start, ds, fs)
    ensures absent(dev, start, None, name) <==> forall|p: Position| #[trigger] fs.dom().contains(p) ==> name_at(dev, p) != name // [P11]
{
    reveal(sound);
    assert(dir_chain(dev, start, None, ds));
    assert(all_slots(dev, ds, None) =~= dir_slots(dev, ds));
    if absent(dev, start, None, name) {
        let ls = choose|ls: Seq<Location>| #[trigger] dir_chain(dev, start, None, ls) && forall|j: int| 0 <= j < all_slots(dev, ls, None).len() ==> !named(dev, #[trigger] all_slots(dev, ls, None)[j], name);
        lemma_walk_of_chain(dev, start, ls, ds);
        assert forall|p: Position| #[trigger] fs.dom().contains(p) implies name_at(dev, p) != name by {
            lemma_in_dir(dev, ds, p);
            let j = choose|j: int| 0 <= j < dir_slots(dev, ds).len() && dir_slots(dev, ds)[j] == p;
            assert(!named(dev, all_slots(dev, ls, None)[j], name));
        }
    }
    if forall|p: Position| #[trigger] fs.dom().contains(p) ==> name_at(dev, p) != name {
        assert forall|j: int| 0 <= j < all_slots(dev, ds, None).len() implies !named(dev, #[trigger] all_slots(dev, ds, None)[j], name) by {
            let p = dir_slots(dev, ds)[j];
            lemma_in_dir(dev, ds, p);
            assert(dir_slots(dev, ds).contains(p));
            if live(dev, p) { assert(fs.dom().contains(p)); }
        }
    }
}

// ---------------------------------------------------------------- steps

/// the file in slot p, if any, after an operation on it
pub open spec fn with_file(fs: Map<Position, Seq<Location>>, p: Position, c: Option<Seq<Location>>) -> Map<Position, Seq<Location>> {
    match c { Some(c) => fs.insert(p, c), None => fs.remove(p) }
}
/// what an operation on the file in slot p may do: slot p becomes n, sectors of t may change, and the map bytes
pub open spec fn file_change(d0: &ImageBlockDevice, b0: &Bam, d1: &ImageBlockDevice, b1: &Bam, p: Position, n: Seq<u8>, t: Seq<Location>) -> bool {
    &&& disk_ok(d1, b1) && d1.same_shape(d0) && b1.format == b0.format && b1.bam_rw.format == b0.bam_rw.format
    &&& n.len() == 32 && n.take(2) == slot(d0, p).take(2) && d1.sec(p.location) == with_slot(d0.sec(p.location), p, n)
    &&& forall|x: Location| #[trigger] t.contains(x) ==> b0.has(x) && !b0.format.skipped(x.0 as int)
    &&& forall|x: Location| #[trigger] d0.valid(x) && x != p.location && !bam_sector(b0.bam_rw.format, x) && !t.contains(x) ==> d1.sec(x) == d0.sec(x)
}
pub proof fn lemma_change(d0: &ImageBlockDevice, b0: &Bam, d1: &ImageBlockDevice, b1: &Bam, start: Location, ds: Seq<Location>, fs: Map<Position, Seq<Location>>,
    p: Position, n: Seq<u8>, t: Seq<Location>, c: Option<Seq<Location>>)
    requires
        sound(d0, b0, start, ds, fs), in_dir(ds, p), file_change(d0, b0, d1, b1, p, n, t),
        forall|x: Location| b0.has(x) && !b0.is_free(x) && b0.format.skipped(x.0 as int) ==> !#[trigger] b1.is_free(x),
        forall|q: Position| #[trigger] fs.dom().contains(q) && q != p ==> apart(fs[q], t),
        forall|q: Position, k: int| fs.dom().contains(q) && q != p && 0 <= k < fs[q].len() ==> !b1.is_free(#[trigger] fs[q][k]),
        c.is_some() ==> file_ok(d1, b1, p, c->Some_0) && forall|q: Position| #[trigger] fs.dom().contains(q) && q != p ==> apart(fs[q], c->Some_0) && name_at(d0, q) != name_at(d1, p),
        c.is_none() ==> !live(d1, p),
        forall|l: Location| b1.has(l) && !#[trigger] b1.is_free(l) ==> b0.has(l) && !b0.is_free(l) && !(c.is_none() && fs.dom().contains(p) && fs[p].contains(l)) || c.is_some() && c->Some_0.contains(l),
        c.is_some() && fs.dom().contains(p) ==> forall|l: Location| #[trigger] fs[p].contains(l) ==> c->Some_0.contains(l),
    ensures
        sound(d1, b1, start, ds, with_file(fs, p, c)),
        forall|q: Position| #[trigger] fs.dom().contains(q) && q != p ==> kept(d0, d1, q, fs[q]),
{
    hide(content); hide(covered); hide(consistent); hide(wf_bamformat); hide(bam_fits); hide(wf_format); hide(walk); hide(next_of); hide(usable); hide(wf_header_format);
    let f1 = with_file(fs, p, c);
    lemma_places(d0, b0, start, ds, fs);
    reveal(sound);
    assert(ds.contains(p.location));
    lemma_slot_change(d0, d1, p, n);
    let bf = b0.bam_rw.format;
    assert forall|x: Location| #[trigger] ds.contains(x) implies b0.format.skipped(x.0 as int) && !t.contains(x) && !bam_sector(bf, x) && d0.valid(x) by { assert(dir_sector(b0, x)); }
    assert forall|k: int| 0 <= k < ds.len() implies d1.sec(#[trigger] ds[k])[0] == d0.sec(ds[k])[0] && d1.sec(ds[k])[1] == d0.sec(ds[k])[1] by {
        assert(ds.contains(ds[k]));
        assert(d0.valid(ds[k]));
    }
    lemma_links(d0, d1, start, ds);
    assert forall|k: int| 0 <= k < ds.len() implies dir_sector(b1, #[trigger] ds[k]) && used(d1.sec(ds[k])) == 256 by {
        assert(dir_sector(b0, ds[k]));
        assert(!b1.is_free(ds[k]));
    }
    // the other slots
    assert forall|q: Position| in_dir(ds, q) && q != p implies #[trigger] slot(d1, q) == slot(d0, q) by {
        assert(ds.contains(q.location));
        assert(d0.valid(q.location));
        if q.location != p.location { assert(d1.sec(q.location) == d0.sec(q.location)); }
    }
    assert forall|q: Position| #[trigger] fs.dom().contains(q) && q != p implies file_ok(d1, b1, q, fs[q]) && kept(d0, d1, q, fs[q]) && name_at(d1, q) == name_at(d0, q) by {
        assert(in_dir(ds, q) && file_ok(d0, b0, q, fs[q]));
        assert(slot(d1, q) == slot(d0, q));
        assert forall|k: int| 0 <= k < fs[q].len() implies d1.sec(#[trigger] fs[q][k]) == d0.sec(fs[q][k]) && !b1.is_free(fs[q][k]) by {
            assert(fs[q].contains(fs[q][k]));
            assert(data_sector(b0, fs[q][k]) && d0.valid(fs[q][k]) && !ds.contains(fs[q][k]));
        }
        lemma_other(d0, b0, d1, b1, q, fs[q]);
    }
    assert forall|q: Position| #[trigger] f1.dom().contains(q) <==> in_dir(ds, q) && live(d1, q) by {
        if q != p { assert(f1.dom().contains(q) == fs.dom().contains(q)); if in_dir(ds, q) { assert(slot(d1, q) == slot(d0, q)); } }
    }
    assert forall|q: Position| #[trigger] f1.dom().contains(q) implies file_ok(d1, b1, q, f1[q]) by { if q != p { assert(fs.dom().contains(q)); assert(f1[q] == fs[q]); } }
    assert forall|q: Position, r: Position| #[trigger] f1.dom().contains(q) && #[trigger] f1.dom().contains(r) && q != r implies apart(f1[q], f1[r]) && name_at(d1, q) != name_at(d1, r) by {
        if q != p { assert(fs.dom().contains(q) && f1[q] == fs[q] && name_at(d1, q) == name_at(d0, q)); }
        if r != p { assert(fs.dom().contains(r) && f1[r] == fs[r] && name_at(d1, r) == name_at(d0, r)); }
    }
    assert forall|l: Location| #[trigger] system_sector(&b1.format, l) implies b1.has(l) && !b1.is_free(l) && b1.format.skipped(l.0 as int) by { assert(system_sector(&b0.format, l)); }
    assert forall|l: Location| #[trigger] bam_sector(b1.bam_rw.format, l) implies !b1.is_free(l) by { assert(system_sector(&b0.format, l)); }
    assert forall|l: Location| b1.has(l) && !#[trigger] b1.is_free(l) implies system_sector(&b1.format, l) || ds.contains(l) || filed(f1, l) by {
        if c.is_some() && c->Some_0.contains(l) { assert(f1.dom().contains(p) && f1[p].contains(l)); }
        else {
            assert(b0.has(l) && !b0.is_free(l));
            if filed(fs, l) {
                let q = choose|q: Position| #[trigger] fs.dom().contains(q) && fs[q].contains(l);
                assert(q != p);
                assert(f1.dom().contains(q) && f1[q] == fs[q]);
            }
        }
    }
}

/// P07: a freshly formatted disk
pub proof fn lemma_history_formatted(f: &DiskFormat, dev: &ImageBlockDevice, m: &Bam, name: Seq<u8>, id: &Id)
    requires native(f), fits_on(f, dev), formatted(f, dev, m, name, id)
    ensures sound(dev, m, first_dir(f), seq![first_dir(f)], Map::empty()) // [P07]
{
    reveal(sound);
    lemma_formatted_ok(f, dev, m, name, id);
    let fd = first_dir(f);
    let ds = seq![fd];
    let fs = Map::<Position, Seq<Location>>::empty();
    assert(system_sector(f, fd));
    dev.lemma_off(fd);
    lemma_not_covered(f.bam, fd, 0);
    assert(dev.sec(fd)[0] == 0 && dev.sec(fd)[1] == 0xFF);
    assert(ds.len() == 1 && ds[0] == fd);
    assert(!ds.contains(f.header.location));
    assert(dir_sector(m, ds[0]));
    assert(used(dev.sec(fd)) == 256);
    assert forall|p: Position| #[trigger] fs.dom().contains(p) <==> in_dir(ds, p) && live(dev, p) by {
        lemma_in_dir(dev, ds, p);
        if in_dir(ds, p) {
            let j = choose|j: int| 0 <= j < dir_slots(dev, ds).len() && dir_slots(dev, ds)[j] == p;
            assert(!live(dev, dir_slots(dev, ds)[j]));
        }
    }
    assert forall|l: Location| #[trigger] system_sector(&m.format, l) implies m.has(l) && !m.is_free(l) && m.format.skipped(l.0 as int) by {
        assert(exists_on(f.tracks@, f.last_track as int, l));
        assert(fr(m.entries@[l.0 as int - 1].sector_map, l.1 as int) == (l.1 < f.tracks@[l.0 as int].sectors && !system_sector(f, Location(l.0, l.1))));
    }
    assert forall|l: Location| m.has(l) && !#[trigger] m.is_free(l) implies system_sector(&m.format, l) || ds.contains(l) || filed(fs, l) by {
        assert(fr(m.entries@[l.0 as int - 1].sector_map, l.1 as int) == (l.1 < f.tracks@[l.0 as int].sectors && !system_sector(f, Location(l.0, l.1))));
    }
}
/// P07: the directory got one more sector (also when the creation itself was refused)
pub proof fn lemma_history_extended(d0: &ImageBlockDevice, b0: &Bam, d1: &ImageBlockDevice, b1: &Bam, start: Location, ds: Seq<Location>, fs: Map<Position, Seq<Location>>, l: Location)
    requires sound(d0, b0, start, ds, fs), dir_extended(d0, b0, d1, b1, start, ds, l), disk_ok(d1, b1)
    ensures
        sound(d1, b1, start, ds.push(l), fs), // [P07]
        forall|q: Position| #[trigger] fs.dom().contains(q) ==> kept(d0, d1, q, fs[q]), // [P08]
{
    hide(from_previous); hide(consistent); hide(bam_stored); hide(no_scratched); hide(wf_bamformat); hide(bam_fits); hide(walk); hide(content); hide(next_of); hide(covered); hide(usable); hide(wf_format);
    lemma_places(d0, b0, start, ds, fs);
    reveal(sound);
    let bf = b0.bam_rw.format;
    let e = ds.push(l);
    let last = ds.last();
    assert(ds[ds.len() - 1] == last);
    assert(ds.contains(last));
    assert(!ds.contains(l)) by { if ds.contains(l) { assert(dir_sector(b0, l)); } }
    assert forall|x: Location| #[trigger] e.contains(x) <==> ds.contains(x) || x == l by { lemma_push_contains(ds, l, x); }
    assert(system_sector(&b0.format, b0.format.header.location));
    assert(!e.contains(b0.format.header.location));
    d0.lemma_off(last); d1.lemma_off(l);
    assert forall|x: Location| #[trigger] d0.valid(x) && x != l && x != last && !bam_sector(bf, x) implies d1.sec(x) == d0.sec(x) by { lemma_same_sector(d0, d1, bf, x); }
    assert(b1.has(l) && !b1.is_free(l));
    assert forall|k: int| 0 <= k < e.len() implies dir_sector(b1, #[trigger] e[k]) && used(d1.sec(e[k])) == 256 by {
        if k < ds.len() {
            assert(e[k] == ds[k] && dir_sector(b0, ds[k]) && used(d0.sec(ds[k])) == 256);
            assert(d0.valid(ds[k]));
            if ds[k] == last { assert(link(d1.sec(last)) == Some(ChainLink::Next(l))); } else { assert(d1.sec(ds[k]) == d0.sec(ds[k])); }
        } else { assert(dir_sector(b0, last)); }
    }
    // slots of the old sectors
    assert forall|q: Position| in_dir(ds, q) implies live(d1, q) == live(d0, q) && #[trigger] slot(d1, q).skip(2) == slot(d0, q).skip(2) by {
        assert(ds.contains(q.location));
        assert(d0.valid(q.location));
        d0.lemma_off(q.location); d1.lemma_off(q.location);
        assert(q.offset <= 224);
        assert(slot(d1, q).skip(2) =~= slot(d0, q).skip(2));
        assert(slot(d1, q)[2] == slot(d1, q).skip(2)[0] && slot(d0, q)[2] == slot(d0, q).skip(2)[0]);
    }
    assert forall|q: Position| #[trigger] fs.dom().contains(q) <==> in_dir(e, q) && live(d1, q) by {
        if in_dir(e, q) && q.location == l {
            assert(slot(d1, q)[2] == d1.sec(l)[q.offset + 2]);
            assert(0u8 & 0x0F == 0 && 0u8 & 0x80 == 0) by (bit_vector);
            assert(!live(d1, q));
        }
        if in_dir(e, q) && q.location != l { assert(in_dir(ds, q)); assert(slot(d1, q).skip(2) == slot(d0, q).skip(2)); }
        if fs.dom().contains(q) { assert(in_dir(ds, q)); assert(slot(d1, q).skip(2) == slot(d0, q).skip(2)); }
    }
    assert forall|q: Position| #[trigger] fs.dom().contains(q) implies file_ok(d1, b1, q, fs[q]) && kept(d0, d1, q, fs[q]) && name_at(d1, q) == name_at(d0, q) by {
        assert(file_ok(d0, b0, q, fs[q]));
        assert(in_dir(ds, q));
        lemma_slot_tail(slot(d0, q), slot(d1, q));
        assert forall|k: int| 0 <= k < fs[q].len() implies d1.sec(#[trigger] fs[q][k]) == d0.sec(fs[q][k]) && !b1.is_free(fs[q][k]) by {
            assert(data_sector(b0, fs[q][k]) && d0.valid(fs[q][k]) && !ds.contains(fs[q][k]));
        }
        lemma_other(d0, b0, d1, b1, q, fs[q]);
    }
    assert forall|x: Location| #[trigger] system_sector(&b1.format, x) implies b1.has(x) && !b1.is_free(x) && b1.format.skipped(x.0 as int) by { assert(system_sector(&b0.format, x)); }
    assert forall|x: Location| #[trigger] bam_sector(b1.bam_rw.format, x) implies !b1.is_free(x) by { assert(system_sector(&b0.format, x)); }
    assert forall|x: Location| b1.has(x) && !#[trigger] b1.is_free(x) implies system_sector(&b1.format, x) || e.contains(x) || filed(fs, x) by { }
}

pub proof fn lemma_plain_live(dev: &ImageBlockDevice, p: Position)
    requires plain(slot(dev, p))
    ensures live(dev, p)
{
    let a = slot(dev, p)[2];
    assert(a == 0x81 || a == 0x82 || a == 0x83 ==> a & 0x80 != 0) by (bit_vector);
}
/// P07, P11: a file was created
pub proof fn lemma_history_created(d0: &ImageBlockDevice, b0: &Bam, d1: &ImageBlockDevice, b1: &Bam, start: Location, ds: Seq<Location>, fs: Map<Position, Seq<Location>>,
    p: Position, l: Location, t: FileType, name: Seq<u8>)
    requires
        sound(d0, b0, start, ds, fs), created(d0, b0, d1, b1, p, l, t, name), in_dir(ds, p), !live(d0, p), plain_type(t), name.len() <= 16, name.len() > 0 ==> name.last() != 0xA0,
        forall|q: Position| #[trigger] fs.dom().contains(q) ==> name_at(d0, q) != name,
    ensures
        sound(d1, b1, start, ds, fs.insert(p, seq![l])), // [P07]
        forall|q: Position| #[trigger] fs.dom().contains(q) ==> q != p && kept(d0, d1, q, fs[q]), // [P08]
        name_at(d1, p) == name, // [P11]
        content(d1, seq![l]) == Seq::<u8>::empty(),
{
    hide(next_block_rule); hide(consistent); hide(bam_stored); hide(wf_bamformat); hide(bam_fits); hide(covered); hide(usable); hide(wf_format); hide(native); hide(fits_on);
    lemma_places(d0, b0, start, ds, fs);
    assert(disk_ok(d0, b0) && !fs.dom().contains(p)) by { reveal(sound); }
    let n = slot(d1, p);
    let c = seq![l];
    let bf = b0.bam_rw.format;
    assert(c.len() == 1 && c[0] == l);
    assert forall|x: Location| #[trigger] c.contains(x) <==> x == l by { assert(c[0] == l); }
    assert(d0.valid(l));
    d0.lemma_off(l); d1.lemma_off(l); d0.lemma_off(p.location); d1.lemma_off(p.location);
    assert forall|x: Location| #[trigger] d0.valid(x) && x != p.location && !bam_sector(bf, x) && !c.contains(x) implies d1.sec(x) == d0.sec(x) by { lemma_same_sector(d0, d1, bf, x); }
    assert(file_change(d0, b0, d1, b1, p, n, c));
    assert((1u8 | 0 | 0 | 0 | 0x80) == 0x81u8 && (2u8 | 0 | 0 | 0 | 0x80) == 0x82u8 && (3u8 | 0 | 0 | 0 | 0x80) == 0x83u8) by (bit_vector);
    assert(n[2] == 0x81 || n[2] == 0x82 || n[2] == 0x83);
    assert(n.subrange(21, 30)[2] == n[0x17] && n.subrange(21, 30)[3] == n[0x18]);
    assert(plain(n));
    lemma_plain_live(d1, p);
    assert(link(d1.sec(l)) == Some(ChainLink::Tail(2usize)));
    assert(d1.valid(l));
    assert(chain(d1, l, c));
    assert(!b1.is_free(l) && b1.has(l));
    assert(file_ok(d1, b1, p, c));
    assert(padded_name(name).take(name.len() as int) =~= name);
    lemma_padded_roundtrip(n.subrange(5, 21), name, 0xA0);
    assert(name_at(d1, p) == name);
    assert forall|q: Position| #[trigger] fs.dom().contains(q) && q != p implies apart(fs[q], c) by {
        assert forall|x: Location| !(#[trigger] fs[q].contains(x) && #[trigger] c.contains(x)) by { if fs[q].contains(x) { assert(data_sector(b0, x)); } }
    }
    assert forall|q: Position, k: int| fs.dom().contains(q) && q != p && 0 <= k < fs[q].len() implies !b1.is_free(#[trigger] fs[q][k]) by { assert(data_sector(b0, fs[q][k])); }
    lemma_change(d0, b0, d1, b1, start, ds, fs, p, n, c, Some(c));
    assert(c.drop_last() =~= Seq::<Location>::empty());
    assert(content(d1, c.drop_last()) =~= Seq::<u8>::empty());
    assert(content(d1, c) =~= Seq::<u8>::empty());
}
/// P07, P08: a file was deleted
pub proof fn lemma_history_deleted(d0: &ImageBlockDevice, b0: &Bam, d1: &ImageBlockDevice, b1: &Bam, start: Location, ds: Seq<Location>, fs: Map<Position, Seq<Location>>,
    p: Position, f: Seq<Location>)
    requires sound(d0, b0, start, ds, fs), fs.dom().contains(p), chain(d0, first_of(slot(d0, p)), f), deleted(d0, b0, d1, b1, p, f)
    ensures
        sound(d1, b1, start, ds, fs.remove(p)), // [P07]
        forall|q: Position| #[trigger] fs.dom().contains(q) && q != p ==> kept(d0, d1, q, fs[q]), // [P08]
{
    hide(bam_stored); hide(wf_bamformat); hide(bam_fits); hide(covered); hide(usable); hide(wf_format); hide(native); hide(fits_on); hide(content); hide(consistent);
    lemma_places(d0, b0, start, ds, fs);
    assert(disk_ok(d0, b0) && file_ok(d0, b0, p, fs[p]) && in_dir(ds, p)) by { reveal(sound); }
    lemma_chain_unique(d0, first_of(slot(d0, p)), f, fs[p]);
    let n = scratch(slot(d0, p));
    let bf = b0.bam_rw.format;
    let a = slot(d0, p)[2];
    d0.lemma_off(p.location);
    assert(n.take(2) =~= slot(d0, p).take(2));
    assert forall|k: int| 0 <= k < f.len() implies !b0.format.skipped((#[trigger] f[k]).0 as int) by { assert(data_sector(b0, f[k])); }
    assert forall|x: Location| #[trigger] f.contains(x) implies data_sector(b0, x) by { assert(fs[p].contains(x)); }
    assert(forall|l: Location| b1.has(l) == b0.has(l));
    assert(d1.wf() && b1.wf());
    assert(consistent(&b1.format, b1));
    assert(bam_fits(b1.bam_rw.format, d1)) by { reveal(bam_fits); }
    assert(forall|l: Location| #[trigger] b1.has(l) ==> d1.valid(l)) by { assert(forall|l: Location| b0.has(l) ==> d0.valid(l)); }
    assert(disk_ok(d1, b1));
    let t = Seq::<Location>::empty();
    assert forall|x: Location| #[trigger] d0.valid(x) && x != p.location && !bam_sector(bf, x) && !t.contains(x) implies d1.sec(x) == d0.sec(x) by { lemma_same_sector(d0, d1, bf, x); }
    assert(file_change(d0, b0, d1, b1, p, n, t));
    lemma_slot_change(d0, d1, p, n);
    assert((a & 0x70) & 0x0F == 0 && (a & 0x70) & 0x80 == 0) by (bit_vector);
    assert(!live(d1, p));
    assert forall|q: Position| #[trigger] fs.dom().contains(q) && q != p implies apart(fs[q], f) by { reveal(sound); assert(apart(fs[q], fs[p])); }
    assert forall|q: Position, k: int| fs.dom().contains(q) && q != p && 0 <= k < fs[q].len() implies !b1.is_free(#[trigger] fs[q][k]) by {
        assert(data_sector(b0, fs[q][k]));
        assert(fs[q].contains(fs[q][k]));
        assert(apart(fs[q], f));
    }
    assert forall|x: Location| b0.has(x) && !b0.is_free(x) && b0.format.skipped(x.0 as int) implies !#[trigger] b1.is_free(x) by { if f.contains(x) { assert(data_sector(b0, x)); } }
    lemma_change(d0, b0, d1, b1, start, ds, fs, p, n, t, None);
}
/// P07, P08, P11: a file was renamed
pub proof fn lemma_history_renamed(d0: &ImageBlockDevice, b: &Bam, d1: &ImageBlockDevice, start: Location, ds: Seq<Location>, fs: Map<Position, Seq<Location>>, p: Position, name: Seq<u8>)
    requires
        sound(d0, b, start, ds, fs), fs.dom().contains(p), name_replaced(d0, d1, p, name), name.len() <= 16, name.len() > 0 ==> name.last() != 0xA0,
        forall|q: Position| #[trigger] fs.dom().contains(q) ==> name_at(d0, q) != name,
    ensures
        sound(d1, b, start, ds, fs), // [P07]
        forall|q: Position| #[trigger] fs.dom().contains(q) && q != p ==> kept(d0, d1, q, fs[q]), // [P08]
        content(d1, fs[p]) == content(d0, fs[p]), // [P08]
        name_at(d1, p) == name, // [P11]
{
    hide(wf_bamformat); hide(covered); hide(usable); hide(wf_format); hide(native); hide(fits_on); hide(consistent);
    lemma_places(d0, b, start, ds, fs);
    assert(disk_ok(d0, b) && file_ok(d0, b, p, fs[p]) && in_dir(ds, p)) by { reveal(sound); }
    assert(ds.contains(p.location));
    d0.lemma_off(p.location);
    assert(p.offset <= 224);
    lemma_renamed(d0, d1, p, name);
    let n = with_name(slot(d0, p), name);
    assert(n.take(2) =~= slot(d0, p).take(2));
    let t = Seq::<Location>::empty();
    assert(file_change(d0, b, d1, b, p, n, t));
    assert(plain(slot(d1, p)));
    lemma_plain_live(d1, p);
    assert forall|k: int| 0 <= k < fs[p].len() implies d1.sec(#[trigger] fs[p][k]) == d0.sec(fs[p][k]) by {
        assert(d0.valid(fs[p][k]) && !ds.contains(fs[p][k]));
    }
    lemma_walk_frame(d0, d1, first_of(slot(d0, p)), fs[p]);
    assert(file_ok(d1, b, p, fs[p]));
    assert forall|q: Position| #[trigger] fs.dom().contains(q) && q != p implies apart(fs[q], fs[p]) && apart(fs[q], t) by { reveal(sound); }
    assert forall|q: Position, k: int| fs.dom().contains(q) && q != p && 0 <= k < fs[q].len() implies !b.is_free(#[trigger] fs[q][k]) by { assert(data_sector(b, fs[q][k])); }
    lemma_change(d0, b, d1, b, start, ds, fs, p, n, t, Some(fs[p]));
    assert(with_file(fs, p, Some(fs[p])) =~= fs);
}

/// a writer of the file in slot p: opened before or after any operations on other files, it finds its file as it left it
pub proof fn lemma_history_writer(dev: &ImageBlockDevice, bam: &Bam, start: Location, ds: Seq<Location>, fs: Map<Position, Seq<Location>>, p: Position, w: &ChainWriter)
    requires
        sound(dev, bam, start, ds, fs), fs.dom().contains(p), w.entry.position == Some(p), w.location == fs[p].last(),
        w.block@.len() == 256, link(w.block@).is_some(), link_next(w.block@).is_none(),
    ensures writer_at(dev, bam, w, first_of(slot(dev, p)), fs[p]) // [P07] [P08]
{
    hide(content); hide(covered); hide(wf_bamformat); hide(bam_fits); hide(consistent); hide(wf_format); hide(native); hide(fits_on);
    lemma_places(dev, bam, start, ds, fs);
    assert(disk_ok(dev, bam) && file_ok(dev, bam, p, fs[p]) && in_dir(ds, p)) by { reveal(sound); }
    reveal(writer_at);
    assert(ds.contains(p.location));
    assert(dir_sector(bam, p.location));
    assert(p.offset <= 224);
    assert forall|k: int| 0 <= k < fs[p].len() implies owned(bam, p.location, #[trigger] fs[p][k]) by {
        assert(data_sector(bam, fs[p][k]) && !ds.contains(fs[p][k]));
    }
}
/// P07, P08: data was written to a file, as far as the disk had room
pub proof fn lemma_history_wrote(d0: &ImageBlockDevice, b0: &Bam, w0: &ChainWriter, d1: &ImageBlockDevice, b1: &Bam, w1: &ChainWriter,
    start: Location, ds: Seq<Location>, fs: Map<Position, Seq<Location>>, p: Position, new: Seq<Location>, data: Seq<u8>)
    requires
        sound(d0, b0, start, ds, fs), fs.dom().contains(p), w0.entry.position == Some(p),
        writer_at(d0, b0, w0, first_of(slot(d0, p)), fs[p]), wrote(d0, b0, w0, d1, b1, w1, first_of(slot(d0, p)), fs[p], new, data),
    ensures
        sound(d1, b1, start, ds, fs.insert(p, fs[p] + new)), // [P07]
        forall|q: Position| #[trigger] fs.dom().contains(q) && q != p ==> kept(d0, d1, q, fs[q]), // [P08]
        writer_at(d1, b1, w1, first_of(slot(d1, p)), fs[p] + new), name_at(d1, p) == name_at(d0, p), first_of(slot(d1, p)) == first_of(slot(d0, p)), // [P08]
{
    hide(wf_bamformat); hide(bam_fits); hide(covered); hide(usable); hide(wf_format); hide(native); hide(fits_on); hide(content); hide(consistent);
    lemma_places(d0, b0, start, ds, fs);
    assert(disk_ok(d0, b0) && file_ok(d0, b0, p, fs[p]) && in_dir(ds, p)) by { reveal(sound); }
    reveal(wrote); reveal(writer_at);
    let c = fs[p] + new;
    let last = fs[p].last();
    let t = new.push(last);
    let b = slot(d0, p);
    let n = with_size(b, bumps(stored_size(b), new.len() as int));
    assert(fs[p][fs[p].len() - 1] == last);
    assert(fs[p].contains(last));
    assert(data_sector(b0, last));
    assert(ds.contains(p.location));
    d0.lemma_off(p.location);
    lemma_bumps(b, new.len() as int);
    assert(n.take(2) =~= b.take(2));
    assert forall|x: Location| #[trigger] t.contains(x) <==> new.contains(x) || x == last by { lemma_push_contains(new, last, x); }
    assert forall|x: Location| #[trigger] new.contains(x) implies b0.has(x) && b0.is_free(x) && !b0.format.skipped(x.0 as int) by {
        let k = choose|k: int| 0 <= k < new.len() && new[k] == x;
        assert(b0.has(new[k]));
    }
    assert(file_change(d0, b0, d1, b1, p, n, t));
    lemma_slot_change(d0, d1, p, n);
    assert(n.subrange(5, 21) =~= b.subrange(5, 21));
    assert(plain(n));
    lemma_plain_live(d1, p);
    assert forall|x: Location| #[trigger] c.contains(x) <==> fs[p].contains(x) || new.contains(x) by {
        if c.contains(x) { let k = choose|k: int| 0 <= k < c.len() && c[k] == x; if k < fs[p].len() { assert(fs[p][k] == x); } else { assert(new[k - fs[p].len()] == x); } }
        if fs[p].contains(x) { let k = choose|k: int| 0 <= k < fs[p].len() && fs[p][k] == x; assert(c[k] == x); }
        if new.contains(x) { let k = choose|k: int| 0 <= k < new.len() && new[k] == x; assert(c[fs[p].len() + k] == x); }
    }
    assert forall|k: int| 0 <= k < c.len() implies data_sector(b1, #[trigger] c[k]) by {
        assert(c.contains(c[k]));
        assert(b0.has(c[k]));
        assert(b1.is_free(c[k]) == (b0.is_free(c[k]) && !new.contains(c[k])));
        if fs[p].contains(c[k]) { assert(data_sector(b0, c[k])); }
    }
    assert(first_of(slot(d1, p)) == first_of(b));
    assert(file_ok(d1, b1, p, c));
    assert forall|q: Position| #[trigger] fs.dom().contains(q) && q != p implies apart(fs[q], c) && apart(fs[q], t) && name_at(d0, q) != name_at(d1, p) by {
        reveal(sound);
        assert(apart(fs[q], fs[p]) && name_at(d0, q) != name_at(d0, p));
        assert forall|x: Location| #[trigger] fs[q].contains(x) implies !new.contains(x) && !fs[p].contains(x) by { assert(data_sector(b0, x)); }
    }
    assert forall|q: Position, k: int| fs.dom().contains(q) && q != p && 0 <= k < fs[q].len() implies !b1.is_free(#[trigger] fs[q][k]) by { assert(data_sector(b0, fs[q][k])); }
    assert forall|l: Location| b1.has(l) && !#[trigger] b1.is_free(l) implies b0.has(l) && !b0.is_free(l) || c.contains(l) by { assert(b0.has(l)); }
    lemma_change(d0, b0, d1, b1, start, ds, fs, p, n, t, Some(c));
}
/// P07, P08: a writer flushed its last sector and the map
pub proof fn lemma_history_flushed(d0: &ImageBlockDevice, b0: &Bam, w: &ChainWriter, d1: &ImageBlockDevice, b1: &Bam, start: Location, ds: Seq<Location>, fs: Map<Position, Seq<Location>>, p: Position)
    requires
        sound(d0, b0, start, ds, fs), fs.dom().contains(p), w.entry.position == Some(p), writer_at(d1, b1, w, first_of(slot(d0, p)), fs[p]),
        b1.entries == b0.entries, b1.format == b0.format, b1.bam_rw.format == b0.bam_rw.format, d1.same_shape(d0),
        forall|l: Location, x: int| d0.valid(l) && l != fs[p].last() && 0 <= x < 256 && !covered(b0.bam_rw.format.sections@, b0.bam_rw.format.sections@.len() as int, l, x)
            ==> #[trigger] d1.sec(l)[x] == d0.sec(l)[x],
    ensures
        sound(d1, b1, start, ds, fs), // [P07]
        forall|q: Position| #[trigger] fs.dom().contains(q) && q != p ==> kept(d0, d1, q, fs[q]), // [P08]
        slot(d1, p) == slot(d0, p),
{
    hide(wf_bamformat); hide(bam_fits); hide(covered); hide(usable); hide(wf_format); hide(native); hide(fits_on); hide(content); hide(consistent);
    lemma_places(d0, b0, start, ds, fs);
    assert(disk_ok(d0, b0) && file_ok(d0, b0, p, fs[p]) && in_dir(ds, p)) by { reveal(sound); }
    reveal(writer_at);
    let last = fs[p].last();
    let t = seq![last];
    let bf = b0.bam_rw.format;
    let n = slot(d0, p);
    assert(fs[p][fs[p].len() - 1] == last);
    assert(fs[p].contains(last) && data_sector(b0, last) && !ds.contains(last));
    assert(ds.contains(p.location) && dir_sector(b0, p.location));
    d0.lemma_off(p.location);
    assert(p.offset <= 224);
    assert forall|x: Location| #[trigger] t.contains(x) <==> x == last by { assert(t[0] == last); }
    assert forall|x: Location| #[trigger] d0.valid(x) && !bam_sector(bf, x) && !t.contains(x) implies d1.sec(x) == d0.sec(x) by { lemma_same_sector(d0, d1, bf, x); }
    assert(d1.sec(p.location) == d0.sec(p.location)) by { assert(d0.valid(p.location)); }
    assert(with_slot(d0.sec(p.location), p, n) =~= d0.sec(p.location));
    assert(file_change(d0, b0, d1, b1, p, n, t));
    assert forall|k: int| 0 <= k < fs[p].len() implies data_sector(b1, #[trigger] fs[p][k]) by { assert(data_sector(b0, fs[p][k])); }
    assert(file_ok(d1, b1, p, fs[p]));
    assert forall|q: Position| #[trigger] fs.dom().contains(q) && q != p implies apart(fs[q], fs[p]) && apart(fs[q], t) && name_at(d0, q) != name_at(d1, p) by {
        reveal(sound);
        assert(apart(fs[q], fs[p]));
    }
    assert forall|q: Position, k: int| fs.dom().contains(q) && q != p && 0 <= k < fs[q].len() implies !b1.is_free(#[trigger] fs[q][k]) by { assert(data_sector(b0, fs[q][k])); }
    lemma_change(d0, b0, d1, b1, start, ds, fs, p, n, t, Some(fs[p]));
    assert(with_file(fs, p, Some(fs[p])) =~= fs);
}
/// P07, P08, P11: create_file, whatever it had to do to the directory
pub proof fn lemma_history_create(d0: &ImageBlockDevice, b0: &Bam, dm: &ImageBlockDevice, bm: &Bam, e: &DirectoryEntry, start: Location, ds: Seq<Location>, fs: Map<Position, Seq<Location>>)
    requires sound(d0, b0, start, ds, fs), free_entry(d0, b0, dm, bm, start, e), disk_ok(dm, bm)
    ensures
        exists|es: Seq<Location>| #[trigger] sound(dm, bm, start, es, fs) && in_dir(es, e.position->Some_0), // [P07]
        forall|q: Position| #[trigger] fs.dom().contains(q) ==> kept(d0, dm, q, fs[q]) && name_at(dm, q) == name_at(d0, q), // [P08]
        !fs.dom().contains(e.position->Some_0), !live(dm, e.position->Some_0),
{
    hide(from_previous); hide(before); hide(decodes);
    assert(disk_ok(d0, b0) && dir_part(d0, b0, start, ds)) by { reveal(sound); }
    let p = e.position->Some_0;
    if dm == d0 && bm == b0 {
        let (ls, k) = choose|ls: Seq<Location>, k: int| #[trigger] first_scratched(d0, start, ls, k) && e.position == Some(dir_slots(d0, ls)[k]);
        lemma_walk_of_chain(d0, start, ls, ds);
        assert forall|j: int| 0 <= j < ls.len() implies used(d0.sec(#[trigger] ls[j])) == 256 by { assert(ds.take(ls.len() as int)[j] == ds[j]); assert(used(d0.sec(ds[j])) == 256); }
        lemma_in_dir(d0, ls, p);
        assert(dir_slots(d0, ls).contains(p));
        let j = choose|j: int| 0 <= j < ls.len() && ls[j] == p.location;
        assert(ds.take(ls.len() as int)[j] == ds[j]);
        assert(in_dir(ds, p));
        assert(sound(dm, bm, start, ds, fs));
        reveal(sound);
    } else {
        let (ls, l) = choose|ls: Seq<Location>, l: Location| #[trigger] dir_extended(d0, b0, dm, bm, start, ls, l) && e.position == Some(Position { location: l, offset: 0, size: 32 });
        lemma_chain_unique(d0, start, ls, ds);
        lemma_history_extended(d0, b0, dm, bm, start, ds, fs, l);
        lemma_push_contains(ds, l, l);
        assert(in_dir(ds.push(l), p));
        assert(sound(dm, bm, start, ds.push(l), fs));
        assert(!fs.dom().contains(p)) by { reveal(sound); }
        assert forall|q: Position| #[trigger] fs.dom().contains(q) implies name_at(dm, q) == name_at(d0, q) by {
            reveal(sound);
            assert(file_ok(d0, b0, q, fs[q]) && file_ok(dm, bm, q, fs[q]));
            assert(kept(d0, dm, q, fs[q]));
            lemma_slot_tail(slot(d0, q), slot(dm, q));
        }
    }
}

// ---------------------------------------------------------------- what is stored

pub open spec fn header_kept(f: &DiskFormat, d0: &ImageBlockDevice, d1: &ImageBlockDevice) -> bool {
    forall|o: int| 0 <= o < 256 && !covered(f.bam.sections@, f.bam.sections@.len() as int, f.header.location, o) ==> #[trigger] d1.sec(f.header.location)[o] == d0.sec(f.header.location)[o]
}
pub proof fn lemma_mountable(f: &DiskFormat, d0: &ImageBlockDevice, d1: &ImageBlockDevice)
    requires native(f), d0.wf(), d1.wf(), d0.valid(f.header.location), d1.valid(f.header.location), header_kept(f, d0, d1), mountable(f, d0)
    ensures mountable(f, d1)
{
    let h = f.header.location;
    d0.lemma_off(h); d1.lemma_off(h);
    let (a, b) = (d0.sec(h), d1.sec(h));
    assert forall|o: int| 0xAD <= o < 0xB8 implies b[o] == a[o] by { assert(!map_covered(f, h, o)); }
    assert(a.subrange(0xAD, 0xB8) =~= b.subrange(0xAD, 0xB8));
    if f.header.double_sided_flag_expectation.is_some() {
        let o = (f.header.double_sided_flag_expectation->Some_0).0 as int;
        assert(header_byte(f.header, o));
        assert(!map_covered(f, h, o));
    }
}
/// the map stays stored when its sectors stay
pub proof fn lemma_stored_kept(f: &BamFormat, d0: &ImageBlockDevice, d1: &ImageBlockDevice, e: Seq<BamEntry>)
    requires bam_stored(f, d0, e), forall|l: Location| #[trigger] bam_sector(f, l) ==> d1.sec(l) == d0.sec(l)
    ensures bam_stored(f, d1, e)
{
    assert forall|k: int| 0 <= k < f.sections@.len() implies stored(&#[trigger] f.sections@[k], d1, e, sum_tracks(f.sections@, k)) by {
        assert(stored(&f.sections@[k], d0, e, sum_tracks(f.sections@, k)));
        assert(bam_sector(f, f.sections@[k].bitmap_location) && bam_sector(f, f.sections@[k].free_location));
    }
}
/// the header sector of a disk in use belongs to no file and not to the directory
pub proof fn lemma_header_place(dev: &ImageBlockDevice, bam: &Bam, start: Location, ds: Seq<Location>, fs: Map<Position, Seq<Location>>)
    requires sound(dev, bam, start, ds, fs)
    ensures native(&bam.format), dev.wf(), dev.valid(bam.format.header.location), !ds.contains(bam.format.header.location), bam.bam_rw.format == bam.format.bam,
        bam.has(bam.format.header.location), !bam.is_free(bam.format.header.location), bam.format.skipped(bam.format.header.location.0 as int),
        forall|p: Position| #[trigger] fs.dom().contains(p) ==> !fs[p].contains(bam.format.header.location) && p.location != bam.format.header.location,
{
    reveal(sound);
    lemma_fits(&bam.format, dev);
    assert(system_sector(&bam.format, bam.format.header.location));
    lemma_places(dev, bam, start, ds, fs);
    assert forall|p: Position| #[trigger] fs.dom().contains(p) implies !fs[p].contains(bam.format.header.location) && p.location != bam.format.header.location by { assert(in_dir(ds, p)); }
}
/// one step: the new map is stored, and the header was left alone
pub proof fn lemma_saved(d0: &ImageBlockDevice, b0: &Bam, d1: &ImageBlockDevice, b1: &Bam, start: Location, ds: Seq<Location>, fs: Map<Position, Seq<Location>>)
    requires
        sound(d0, b0, start, ds, fs), saved(d0, b0), d1.wf(), d1.same_shape(d0), b1.format == b0.format, b1.bam_rw.format == b0.bam_rw.format,
        bam_stored(b1.bam_rw.format, d1, b1.entries@), header_kept(&b0.format, d0, d1),
    ensures saved(d1, b1)
{
    lemma_header_place(d0, b0, start, ds, fs);
    reveal(saved);
    lemma_mountable(&b0.format, d0, d1);
}
/// the map of a disk in use fits into its bytes
pub proof fn lemma_map_bytes_fit(dev: &ImageBlockDevice, bam: &Bam, start: Location, ds: Seq<Location>, fs: Map<Position, Seq<Location>>)
    requires sound(dev, bam, start, ds, fs)
    ensures bam_fits_bytes(bam.format.bam, bam.entries@)
{
    reveal(sound);
    let f = &bam.format;
    let s = f.bam.sections@;
    assert forall|k: int, i: int| 0 <= k < s.len() && 0 <= i < s[k].tracks implies (#[trigger] bam.entries@[sum_tracks(s, k) + i]).sector_map >> ((8 * (#[trigger] s[k]).bitmap_size) as u64) == 0 by {
        let t = sum_tracks(s, k) + i + 1;
        lemma_sum_mono(s, k + 1, s.len() as int);
        lemma_sum_mono(s, 0, k);
        assert(sum_tracks(s, k + 1) == sum_tracks(s, k) + s[k].tracks);
        assert(f.tracks@[t].sectors <= 8 * s[k].bitmap_size);
        assert(wf_section(&s[k]));
        let n = 8 * s[k].bitmap_size as int;
        assert forall|x: int| n <= x < 64 implies !#[trigger] fr(bam.entries@[t - 1].sector_map, x) by { }
        lemma_high_zero(bam.entries@[t - 1].sector_map, n);
    }
}
/// soundness depends on the entries of the map only
pub proof fn lemma_history_same_map(dev: &ImageBlockDevice, b0: &Bam, b1: &Bam, start: Location, ds: Seq<Location>, fs: Map<Position, Seq<Location>>)
    requires sound(dev, b0, start, ds, fs), b1.wf(), b1.entries@ == b0.entries@, b1.format == b0.format, b1.bam_rw.format == b0.bam_rw.format, !b1.invalidated
    ensures sound(dev, b1, start, ds, fs)
{
    reveal(sound);
    assert forall|l: Location| #[trigger] b1.has(l) == b0.has(l) by { }
    assert forall|l: Location| b0.has(l) implies #[trigger] b1.is_free(l) == b0.is_free(l) by { }
    assert(disk_ok(dev, b1));
    assert forall|k: int| 0 <= k < ds.len() implies dir_sector(b1, #[trigger] ds[k]) && used(dev.sec(ds[k])) == 256 by { assert(dir_sector(b0, ds[k])); }
    assert forall|p: Position| #[trigger] fs.dom().contains(p) implies file_ok(dev, b1, p, fs[p]) by {
        assert(file_ok(dev, b0, p, fs[p]));
        assert forall|k: int| 0 <= k < fs[p].len() implies data_sector(b1, #[trigger] fs[p][k]) by { assert(data_sector(b0, fs[p][k])); }
    }
}

/// directory extended, or not
pub proof fn lemma_saved_extended(d0: &ImageBlockDevice, b0: &Bam, dm: &ImageBlockDevice, bm: &Bam, e: &DirectoryEntry, start: Location, ds: Seq<Location>, fs: Map<Position, Seq<Location>>)
    requires sound(d0, b0, start, ds, fs), free_entry(d0, b0, dm, bm, start, e), saved(d0, b0)
    ensures saved(dm, bm)
{
    hide(from_previous); hide(covered); hide(consistent); hide(native);
    if !(dm == d0 && bm == b0) {
        let (ls, l) = choose|ls: Seq<Location>, l: Location| #[trigger] dir_extended(d0, b0, dm, bm, start, ls, l) && e.position == Some(Position { location: l, offset: 0, size: 32 });
        assert(dir_part(d0, b0, start, ds) && d0.wf()) by { reveal(sound); }
        lemma_chain_unique(d0, start, ls, ds);
        lemma_header_place(d0, b0, start, ds, fs);
        let h = b0.format.header.location;
        assert(ds[ds.len() - 1] == ds.last());
        assert(ds.contains(ds.last()));
        assert(l != h && ls.last() != h);
        lemma_saved(d0, b0, dm, bm, start, ds, fs);
    }
}
pub proof fn lemma_saved_created(d0: &ImageBlockDevice, b0: &Bam, d1: &ImageBlockDevice, b1: &Bam, start: Location, ds: Seq<Location>, fs: Map<Position, Seq<Location>>, p: Position, l: Location, t: FileType, name: Seq<u8>)
    requires sound(d0, b0, start, ds, fs), created(d0, b0, d1, b1, p, l, t, name), in_dir(ds, p), saved(d0, b0)
    ensures saved(d1, b1)
{
    hide(next_block_rule); hide(covered); hide(consistent); hide(native);
    lemma_header_place(d0, b0, start, ds, fs);
    assert(ds.contains(p.location));
    assert(d1.wf());
    lemma_saved(d0, b0, d1, b1, start, ds, fs);
}
pub proof fn lemma_saved_deleted(d0: &ImageBlockDevice, b0: &Bam, d1: &ImageBlockDevice, b1: &Bam, start: Location, ds: Seq<Location>, fs: Map<Position, Seq<Location>>, p: Position, f: Seq<Location>)
    requires sound(d0, b0, start, ds, fs), fs.dom().contains(p), deleted(d0, b0, d1, b1, p, f), saved(d0, b0)
    ensures saved(d1, b1)
{
    hide(covered); hide(native);
    lemma_header_place(d0, b0, start, ds, fs);
    lemma_saved(d0, b0, d1, b1, start, ds, fs);
}
pub proof fn lemma_saved_renamed(d0: &ImageBlockDevice, b: &Bam, d1: &ImageBlockDevice, start: Location, ds: Seq<Location>, fs: Map<Position, Seq<Location>>, p: Position, name: Seq<u8>)
    requires sound(d0, b, start, ds, fs), fs.dom().contains(p), name_replaced(d0, d1, p, name), saved(d0, b)
    ensures saved(d1, b)
{
    hide(covered); hide(native);
    lemma_header_place(d0, b, start, ds, fs);
    lemma_places(d0, b, start, ds, fs);
    let bf = b.bam_rw.format;
    assert(in_dir(ds, p) && disk_ok(d0, b)) by { reveal(sound); }
    assert(ds.contains(p.location) && dir_sector(b, p.location));
    assert forall|l: Location| #[trigger] bam_sector(bf, l) implies d1.sec(l) == d0.sec(l) by { assert(d0.valid(l)); }
    assert(bam_stored(bf, d0, b.entries@)) by { reveal(saved); }
    lemma_stored_kept(bf, d0, d1, b.entries@);
    lemma_saved(d0, b, d1, b, start, ds, fs);
}
pub proof fn lemma_saved_same(d0: &ImageBlockDevice, b0: &Bam, d1: &ImageBlockDevice, b1: &Bam)
    requires saved(d0, b0), d1 == d0, b1.entries == b0.entries, b1.format == b0.format, b1.bam_rw.format == b0.bam_rw.format
    ensures saved(d1, b1)
{ reveal(saved); }
pub proof fn lemma_saved_written(d0: &ImageBlockDevice, b0: &Bam, w0: &ChainWriter, d1: &ImageBlockDevice, b1: &Bam, w1: &ChainWriter, d2: &ImageBlockDevice, b2: &Bam,
    start: Location, ds: Seq<Location>, fs: Map<Position, Seq<Location>>, p: Position, first: Location, new: Seq<Location>, data: Seq<u8>)
    requires
        sound(d0, b0, start, ds, fs), fs.dom().contains(p), fs[p].len() > 0, w0.entry.position == Some(p), saved(d0, b0), wrote(d0, b0, w0, d1, b1, w1, first, fs[p], new, data),
        d2.wf(), d2.same_shape(d1), b2.format == b1.format, b2.bam_rw.format == b1.bam_rw.format, b2.entries == b1.entries,
        bam_stored(b1.bam_rw.format, d2, b1.entries@),
        forall|l: Location, x: int| d1.valid(l) && l != (fs[p] + new).last() && 0 <= x < 256 && !covered(b1.bam_rw.format.sections@, b1.bam_rw.format.sections@.len() as int, l, x)
            ==> #[trigger] d2.sec(l)[x] == d1.sec(l)[x],
    ensures saved(d2, b2)
{
    hide(covered); hide(native); hide(writer_at); hide(written);
    lemma_header_place(d0, b0, start, ds, fs);
    let h = b0.format.header.location;
    let ls = fs[p];
    assert(ls[ls.len() - 1] == ls.last());
    assert(ls.contains(ls.last()));
    reveal(wrote);
    assert(!new.contains(h)) by { if new.contains(h) { let k = choose|k: int| 0 <= k < new.len() && new[k] == h; assert(b0.is_free(new[k])); } }
    assert((ls + new).last() != h) by { if new.len() > 0 { assert((ls + new).last() == new[new.len() - 1]); assert(new.contains(new[new.len() - 1])); } else { assert(ls + new =~= ls); } }
    assert(d1.sec(h) == d0.sec(h));
    assert(d1.valid(h));
    lemma_saved(d0, b0, d2, b2, start, ds, fs);
}

// ---------------------------------------------------------------- counting blocks

/// the blocks of all files
pub open spec fn total(fs: Map<Position, Seq<Location>>) -> int
    decreases fs.dom().len()
{
    if fs.dom().len() == 0 { 0 } else { let p = fs.dom().choose(); if fs.dom().contains(p) { fs[p].len() as int + total(fs.remove(p)) } else { 0 } }
}
pub proof fn lemma_total_remove(fs: Map<Position, Seq<Location>>, p: Position)
    requires fs.dom().contains(p)
    ensures total(fs) == fs[p].len() + total(fs.remove(p))
    decreases fs.dom().len()
{
    let q = fs.dom().choose();
    assert(fs.dom().len() > 0);
    assert(fs.dom().contains(q));
    if q != p {
        lemma_total_remove(fs.remove(q), p);
        lemma_total_remove(fs.remove(p), q);
        assert(fs.remove(q).remove(p) =~= fs.remove(p).remove(q));
    }
}
pub proof fn lemma_total_insert(fs: Map<Position, Seq<Location>>, p: Position, c: Seq<Location>)
    ensures total(fs.insert(p, c)) == total(fs) + c.len() - (if fs.dom().contains(p) { fs[p].len() as int } else { 0 })
{
    lemma_total_remove(fs.insert(p, c), p);
    if fs.dom().contains(p) { lemma_total_remove(fs, p); assert(fs.insert(p, c).remove(p) =~= fs.remove(p)); } else { assert(fs.insert(p, c).remove(p) =~= fs); }
}
/// free sectors below n on track t, those of x left out
pub open spec fn free_on(b: &Bam, x: Seq<Location>, t: int, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { free_on(b, x, t, n - 1) + if fr(b.entries@[t - 1].sector_map, n - 1) && !x.contains(Location(t as u8, (n - 1) as u8)) { 1int } else { 0 } }
}
/// free sectors up to track n but for the directory track, those of x left out
pub open spec fn free_but(b: &Bam, x: Seq<Location>, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { free_but(b, x, n - 1) + if n == b.format.directory_track { 0 } else { free_on(b, x, n, 64) } }
}
pub proof fn lemma_free_on_none(b: &Bam, t: int, n: int)
    requires 0 <= n <= 64
    ensures free_on(b, Seq::empty(), t, n) == crate::bam::count(b.entries@[t - 1].sector_map, n)
    decreases n
{ if n > 0 { lemma_free_on_none(b, t, n - 1); } }
pub proof fn lemma_free_none(b: &Bam, n: int)
    requires consistent(&b.format, b), 0 <= n <= b.format.last_track
    ensures free_but(b, Seq::empty(), n) == free_total(b.entries@, b.format.directory_track as int, n)
    decreases n
{
    if n > 0 {
        lemma_free_none(b, n - 1);
        lemma_free_on_none(b, n, 64);
        assert(b.entries@[n - 1].free_sectors == crate::bam::count(b.entries@[n - 1].sector_map, 64));
    }
}
pub proof fn lemma_free_on_push(b: &Bam, x: Seq<Location>, l: Location, t: int, n: int)
    requires 0 <= n <= 64, 1 <= t <= 255, !x.contains(l), b.is_free(l)
    ensures free_on(b, x.push(l), t, n) == free_on(b, x, t, n) - (if t == l.0 && l.1 < n { 1int } else { 0 })
    decreases n
{
    if n > 0 {
        lemma_free_on_push(b, x, l, t, n - 1);
        lemma_push_contains(x, l, Location(t as u8, (n - 1) as u8));
    }
}
pub proof fn lemma_free_push(b: &Bam, x: Seq<Location>, l: Location, n: int)
    requires 0 <= n <= 255, l.0 >= 1, l.1 < 64, !x.contains(l), b.is_free(l), l.0 != b.format.directory_track
    ensures free_but(b, x.push(l), n) == free_but(b, x, n) - (if l.0 <= n { 1int } else { 0 })
    decreases n
{
    if n > 0 { lemma_free_push(b, x, l, n - 1); lemma_free_on_push(b, x, l, n, 64); }
}
/// leaving out sectors that are free
pub proof fn lemma_free_seq(b: &Bam, x: Seq<Location>, n: int)
    requires
        0 <= n <= 255, x.no_duplicates(),
        forall|k: int| 0 <= k < x.len() ==> b.is_free(#[trigger] x[k]) && 1 <= x[k].0 <= n && x[k].1 < 64 && x[k].0 != b.format.directory_track,
    ensures free_but(b, x, n) == free_but(b, Seq::empty(), n) - x.len()
    decreases x.len()
{
    if x.len() > 0 {
        let y = x.drop_last();
        let l = x.last();
        assert(x[x.len() - 1] == l);
        assert forall|k: int| 0 <= k < y.len() implies b.is_free(#[trigger] y[k]) && 1 <= y[k].0 <= n && y[k].1 < 64 && y[k].0 != b.format.directory_track by { assert(y[k] == x[k]); }
        assert(y.no_duplicates());
        lemma_free_seq(b, y, n);
        assert(!y.contains(l));
        lemma_free_push(b, y, l, n);
        assert(y.push(l) =~= x);
    } else { assert(x =~= Seq::empty()); }
}
pub proof fn lemma_free_on_same(b0: &Bam, b1: &Bam, x: Seq<Location>, t: int, n: int)
    requires
        0 <= n <= 64, 1 <= t <= 255,
        forall|s: int| 0 <= s < 64 ==> #[trigger] fr(b1.entries@[t - 1].sector_map, s) == (fr(b0.entries@[t - 1].sector_map, s) && !x.contains(Location(t as u8, s as u8))),
    ensures free_on(b1, Seq::empty(), t, n) == free_on(b0, x, t, n)
    decreases n
{ if n > 0 { lemma_free_on_same(b0, b1, x, t, n - 1); } }
pub proof fn lemma_free_same(b0: &Bam, b1: &Bam, x: Seq<Location>, n: int)
    requires
        consistent(&b0.format, b0), consistent(&b1.format, b1), b1.format == b0.format, 0 <= n <= b0.format.last_track,
        forall|l: Location| b0.has(l) && l.0 != b0.format.directory_track ==> #[trigger] b1.is_free(l) == (b0.is_free(l) && !x.contains(l)),
    ensures free_but(b1, Seq::empty(), n) == free_but(b0, x, n)
    decreases n
{
    if n > 0 {
        lemma_free_same(b0, b1, x, n - 1);
        if n != b0.format.directory_track {
            assert forall|s: int| 0 <= s < 64 implies #[trigger] fr(b1.entries@[n - 1].sector_map, s) == (fr(b0.entries@[n - 1].sector_map, s) && !x.contains(Location(n as u8, s as u8))) by {
                let l = Location(n as u8, s as u8);
                if s < b0.format.tracks@[n].sectors { assert(b0.has(l)); assert(b1.is_free(l) == (b0.is_free(l) && !x.contains(l))); }
                else { assert(!fr(b0.entries@[n - 1].sector_map, s)); assert(!fr(b1.entries@[n - 1].sector_map, s)); }
            }
            lemma_free_on_same(b0, b1, x, n, 64);
        }
    }
}
pub open spec fn free_count(b: &Bam) -> int { free_total(b.entries@, b.format.directory_track as int, b.format.last_track as int) }
/// b1 is b0 without the sectors of x, which were free (the directory track left aside)
pub proof fn lemma_free_count(b0: &Bam, b1: &Bam, x: Seq<Location>)
    requires
        consistent(&b0.format, b0), consistent(&b1.format, b1), b1.format == b0.format, x.no_duplicates(), wf_format(&b0.format),
        forall|k: int| 0 <= k < x.len() ==> b0.has(#[trigger] x[k]) && b0.is_free(x[k]) && x[k].0 != b0.format.directory_track,
        forall|l: Location| b0.has(l) && l.0 != b0.format.directory_track ==> #[trigger] b1.is_free(l) == (b0.is_free(l) && !x.contains(l)),
    ensures free_count(b1) == free_count(b0) - x.len()
{
    let n = b0.format.last_track as int;
    lemma_free_same(b0, b1, x, n);
    lemma_free_seq(b0, x, n);
    lemma_free_none(b0, n); lemma_free_none(b1, n);
}
/// the free blocks and those of the files make up the disk
#[verifier::opaque]
pub open spec fn balanced(bam: &Bam, fs: Map<Position, Seq<Location>>) -> bool { free_count(bam) + total(fs) == data_blocks(&bam.format, bam.format.last_track as int) }
#[verifier::spinoff_prover]
pub proof fn lemma_balanced_extended(d0: &ImageBlockDevice, b0: &Bam, dm: &ImageBlockDevice, bm: &Bam, e: &DirectoryEntry, start: Location, ds: Seq<Location>, fs: Map<Position, Seq<Location>>)
    requires sound(d0, b0, start, ds, fs), free_entry(d0, b0, dm, bm, start, e), balanced(b0, fs)
    ensures balanced(bm, fs)
{
    hide(from_previous); hide(covered); hide(consistent); hide(total); hide(free_total);
    reveal(balanced);
    if !(dm == d0 && bm == b0) {
        let (ls, l) = choose|ls: Seq<Location>, l: Location| #[trigger] dir_extended(d0, b0, dm, bm, start, ls, l) && e.position == Some(Position { location: l, offset: 0, size: 32 });
        assert(disk_ok(d0, b0) && wf_format(&b0.format)) by { reveal(sound); }
        assert forall|x: Location| b0.has(x) && x.0 != b0.format.directory_track implies #[trigger] bm.is_free(x) == (b0.is_free(x) && !Seq::<Location>::empty().contains(x)) by { assert(x != l); }
        lemma_free_count(b0, bm, Seq::empty());
    }
}
pub proof fn lemma_balanced_created(d0: &ImageBlockDevice, b0: &Bam, d1: &ImageBlockDevice, b1: &Bam, start: Location, ds: Seq<Location>, fs: Map<Position, Seq<Location>>, p: Position, l: Location, t: FileType, name: Seq<u8>)
    requires sound(d0, b0, start, ds, fs), created(d0, b0, d1, b1, p, l, t, name), !fs.dom().contains(p), balanced(b0, fs)
    ensures balanced(b1, fs.insert(p, seq![l]))
{
    hide(next_block_rule); hide(covered); hide(consistent); hide(total); hide(free_total);
    reveal(balanced);
    assert(disk_ok(d0, b0) && wf_format(&b0.format)) by { reveal(sound); }
    let x = seq![l];
    assert(x.len() == 1 && x[0] == l);
    assert forall|y: Location| #[trigger] x.contains(y) <==> y == l by { assert(x[0] == l); }
    assert(disk_ok(d1, b1));
    lemma_free_count(b0, b1, x);
    lemma_total_insert(fs, p, x);
}
#[verifier::spinoff_prover]
pub proof fn lemma_balanced_deleted(d0: &ImageBlockDevice, b0: &Bam, d1: &ImageBlockDevice, b1: &Bam, start: Location, ds: Seq<Location>, fs: Map<Position, Seq<Location>>, p: Position, f: Seq<Location>)
    requires sound(d0, b0, start, ds, fs), fs.dom().contains(p), chain(d0, first_of(slot(d0, p)), f), deleted(d0, b0, d1, b1, p, f), balanced(b0, fs)
    ensures balanced(b1, fs.remove(p))
{
    hide(covered); hide(consistent); hide(total); hide(free_total);
    reveal(balanced);
    assert(disk_ok(d0, b0) && wf_format(&b0.format) && file_ok(d0, b0, p, fs[p])) by { reveal(sound); }
    lemma_chain_unique(d0, first_of(slot(d0, p)), f, fs[p]);
    assert forall|k: int| 0 <= k < f.len() implies b1.has(#[trigger] f[k]) && b1.is_free(f[k]) && !b0.is_free(f[k]) && !b0.format.skipped(f[k].0 as int) && f[k].0 != b1.format.directory_track by {
        assert(data_sector(b0, f[k]));
        assert(f.contains(f[k]));
        assert(b0.has(f[k]));
    }
    assert(consistent(&b1.format, b1));
    assert forall|l: Location| b1.has(l) && l.0 != b1.format.directory_track implies #[trigger] b0.is_free(l) == (b1.is_free(l) && !f.contains(l)) by {
        assert(b0.has(l));
        assert(b1.is_free(l) == (b0.is_free(l) || f.contains(l)));
        if f.contains(l) { let k = choose|k: int| 0 <= k < f.len() && f[k] == l; assert(!b0.is_free(f[k])); }
    }
    assert(f.no_duplicates());
    lemma_free_count(b1, b0, f);
    lemma_total_remove(fs, p);
}
pub proof fn lemma_tail_distinct(dev: &ImageBlockDevice, first: Location, ls: Seq<Location>, new: Seq<Location>)
    requires chain(dev, first, ls + new)
    ensures new.no_duplicates()
{
    assert forall|i: int, j: int| 0 <= i < j < new.len() implies new[i] != new[j] by { assert((ls + new)[ls.len() + i] == new[i] && (ls + new)[ls.len() + j] == new[j]); }
}
pub proof fn lemma_balanced_written(d0: &ImageBlockDevice, b0: &Bam, w0: &ChainWriter, d1: &ImageBlockDevice, b1: &Bam, w1: &ChainWriter, b2: &Bam,
    start: Location, ds: Seq<Location>, fs: Map<Position, Seq<Location>>, p: Position, first: Location, new: Seq<Location>, data: Seq<u8>)
    requires
        sound(d0, b0, start, ds, fs), fs.dom().contains(p), wrote(d0, b0, w0, d1, b1, w1, first, fs[p], new, data),
        b2.format == b1.format, b2.entries == b1.entries, balanced(b0, fs),
    ensures balanced(b2, fs.insert(p, fs[p] + new))
{
    hide(covered); hide(consistent); hide(total); hide(free_total); hide(written); hide(walk); hide(chain); hide(disk_ok); hide(wf_format);
    let ls = fs[p];
    assert(consistent(&b0.format, b0) && wf_format(&b0.format)) by { reveal(sound); reveal(disk_ok); }
    assert(taken(b0, b1, new) && writer_at(d1, b1, w1, first, ls + new)) by { reveal(wrote); }
    assert(consistent(&b1.format, b1) && chain(d1, first, ls + new)) by { reveal(writer_at); reveal(disk_ok); }
    lemma_tail_distinct(d1, first, ls, new);
    assert forall|k: int| 0 <= k < new.len() implies b0.has(#[trigger] new[k]) && b0.is_free(new[k]) && new[k].0 != b0.format.directory_track by { assert(!b0.format.skipped(new[k].0 as int)); }
    lemma_free_count(b0, b1, new);
    lemma_total_insert(fs, p, ls + new);
    reveal(balanced);
}

// ---------------------------------------------------------------- what users see

/// P11: a lookup on a disk in use finds the one file of that name
pub proof fn lemma_history_lookup(dev: &ImageBlockDevice, bam: &Bam, start: Location, ds: Seq<Location>, fs: Map<Position, Seq<Location>>, name: Seq<u8>, ls: Seq<Location>, done: bool, k: int)
    requires sound(dev, bam, start, ds, fs), first_named(dev, start, None, name, ls, done, k)
    ensures
        fs.dom().contains(slots(dev, ls, done, None)[k]) && name_at(dev, slots(dev, ls, done, None)[k]) == name,
        forall|q: Position| #[trigger] fs.dom().contains(q) && name_at(dev, q) == name ==> q == slots(dev, ls, done, None)[k], // [P11]
{
    reveal(sound);
    let p = slots(dev, ls, done, None)[k];
    assert(slots(dev, ls, done, None) =~= dir_slots(dev, ls));
    lemma_walk_of_chain(dev, start, ls, ds);
    assert forall|j: int| 0 <= j < ls.len() implies used(dev.sec(#[trigger] ls[j])) == 256 by { assert(ds.take(ls.len() as int)[j] == ds[j]); assert(used(dev.sec(ds[j])) == 256); }
    lemma_in_dir(dev, ls, p);
    assert(dir_slots(dev, ls).contains(p));
    let j = choose|j: int| 0 <= j < ls.len() && ls[j] == p.location;
    assert(ds.take(ls.len() as int)[j] == ds[j]);
    assert(in_dir(ds, p) && live(dev, p));
    assert(fs.dom().contains(p));
}
/// what a file of a disk in use occupies
pub proof fn lemma_history_owner(dev: &ImageBlockDevice, bam: &Bam, start: Location, ds: Seq<Location>, fs: Map<Position, Seq<Location>>, p: Position, e: &DirectoryEntry)
    requires sound(dev, bam, start, ds, fs), fs.dom().contains(p), decodes(e, slot(dev, p))
    ensures e.scheme == Scheme::Linear, e.first_sector == first_of(slot(dev, p)), scannable(dev, e), forall|l: Location| #[trigger] owns(dev, e, l) <==> fs[p].contains(l)
{
    reveal(sound);
    assert(file_ok(dev, bam, p, fs[p]));
    let a = slot(dev, p)[2];
    assert(a == 0x81 || a == 0x82 || a == 0x83 ==> a & 0x0F == a - 0x80 && (a & 7) < 4) by (bit_vector);
    assert(e.scheme == Scheme::Linear);
    assert(chain(dev, e.first_sector, fs[p]));
    assert forall|l: Location| #[trigger] owns(dev, e, l) <==> fs[p].contains(l) by {
        if owns(dev, e, l) {
            let c = choose|c: Seq<Location>| #[trigger] chain(dev, e.first_sector, c) && c.contains(l);
            lemma_chain_unique(dev, e.first_sector, c, fs[p]);
        }
    }
}

/// P07: a disk in use validates without errors
pub proof fn lemma_history_valid(dev: &ImageBlockDevice, bam: &Bam, start: Location, ds: Seq<Location>, fs: Map<Position, Seq<Location>>, ls: Seq<Location>, es: Seq<ValidationError>)
    requires sound(dev, bam, start, ds, fs), dir_chain(dev, start, None, ls), validated(dev, bam, &bam.format, ls, None, es)
    ensures es.len() == 0 // [P07]
{
    hide(native); hide(fits_on); hide(consistent); hide(content); hide(decodes); hide(owns); hide(scannable);
    lemma_places(dev, bam, start, ds, fs);
    let all = all_slots(dev, ls, None);
    let n = all.len() as int;
    assert(chain(dev, start, ds)) by { reveal(sound); }
    lemma_chain_unique(dev, start, ls, ds);
    assert(all =~= dir_slots(dev, ds));
    assert forall|j: int| 0 <= j < n && live(dev, #[trigger] all[j]) implies fs.dom().contains(all[j]) && slot_scannable(dev, all[j]) && forall|l: Location| #[trigger] slot_owns(dev, all[j], l) <==> fs[all[j]].contains(l) by {
        let p = all[j];
        assert(fs.dom().contains(p)) by { reveal(sound); lemma_in_dir(dev, ds, p); assert(dir_slots(dev, ds).contains(p)); }
        assert(slot(dev, p).len() == 32) by { reveal(sound); assert(file_ok(dev, bam, p, fs[p])); }
        assert(exists|e: DirectoryEntry| #[trigger] decodes(&e, slot(dev, all[j]))) by { reveal(all_read); }
        let e = choose|e: DirectoryEntry| #[trigger] decodes(&e, slot(dev, all[j]));
        lemma_history_owner(dev, bam, start, ds, fs, p, &e);
        lemma_slot_owner(dev, p, &e);
    }
    assert forall|p: Position, l: Location| #[trigger] fs.dom().contains(p) && #[trigger] fs[p].contains(l) implies taken_by(dev, all, n, l) by {
        assert(in_dir(ds, p) && live(dev, p)) by { reveal(sound); }
        assert(dir_slots(dev, ds).contains(p)) by { reveal(sound); lemma_in_dir(dev, ds, p); }
        let j = choose|j: int| 0 <= j < n && all[j] == p;
        assert(live(dev, all[j]) && slot_owns(dev, all[j], l));
    }
    assert forall|l: Location| #[trigger] taken_by(dev, all, n, l) implies data_sector(bam, l) && !ds.contains(l) by {
        let j = choose|j: int| 0 <= j < n && live(dev, #[trigger] all[j]) && slot_owns(dev, all[j], l);
        assert(fs.dom().contains(all[j]) && fs[all[j]].contains(l));
    }
    assert forall|l: Location| !#[trigger] rep_system(es, l) by { if rep_system(es, l) { reveal(sound); } }
    assert forall|l: Location| !#[trigger] rep_misallocated(es, l) by {
        if rep_misallocated(es, l) {
            reveal(sound);
            assert(filed(fs, l));
            let q = choose|q: Position| #[trigger] fs.dom().contains(q) && fs[q].contains(l);
            assert(fs.dom().contains(q) && fs[q].contains(l));
        }
    }
    assert forall|l: Location| !#[trigger] rep_misoccupied(es, l) by { if rep_misoccupied(es, l) { if ds.contains(l) { assert(dir_sector(bam, l)); } } }
    assert forall|l: Location| !#[trigger] rep_over(es, l) by {
        if rep_over(es, l) {
            let j = choose|j: int| 0 <= j < n && live(dev, #[trigger] all[j]) && slot_owns(dev, all[j], l) && (system_set(&bam.format, ls, None).contains(l) || taken_by(dev, all, j, l));
            let p = all[j];
            assert(fs.dom().contains(p) && fs[p].contains(l));
            assert(data_sector(bam, l) && !ds.contains(l));
            if taken_by(dev, all, j, l) {
                let i = choose|i: int| 0 <= i < j && live(dev, #[trigger] all[i]) && slot_owns(dev, all[i], l);
                let q = all[i];
                assert(fs.dom().contains(q) && fs[q].contains(l));
                assert(p != q) by { lemma_slots_distinct(dev, bam, start, ds, fs, i, j); }
                assert(apart(fs[p], fs[q])) by { reveal(sound); }
            } else {
                assert(system_sector(&bam.format, l));
                reveal(sound);
            }
        }
    }
    assert forall|x: Seq<u8>| !#[trigger] rep_scan(es, x) by { if rep_scan(es, x) { let j = choose|j: int| 0 <= j < n && live(dev, #[trigger] all[j]) && !slot_scannable(dev, all[j]) && name_at(dev, all[j]) == x; assert(slot_scannable(dev, all[j])); } }
    if es.len() > 0 {
        let e = es[0];
        match e {
            ValidationError::SystemSectorNotAllocated(l) => { assert(rep_system(es, l)); },
            ValidationError::SectorMisallocated(l) => { assert(rep_misallocated(es, l)); },
            ValidationError::SectorMisoccupied(l, _) => { assert(rep_misoccupied(es, l)); },
            ValidationError::SectorOveroccupied(l, _, _) => { assert(rep_over(es, l)); },
            ValidationError::FileScanError(_, x) => { assert(rep_scan(es, x@)); },
            ValidationError::Unknown => { assert(rep_unknown(es)); },
        }
    }
}
/// slots of a directory are all different
pub proof fn lemma_slots_distinct(dev: &ImageBlockDevice, bam: &Bam, start: Location, ds: Seq<Location>, fs: Map<Position, Seq<Location>>, i: int, j: int)
    requires sound(dev, bam, start, ds, fs), 0 <= i < j < dir_slots(dev, ds).len()
    ensures dir_slots(dev, ds)[i] != dir_slots(dev, ds)[j]
{ reveal(sound); lemma_slots_apart(dev, ds, i, j); }
pub proof fn lemma_slots_apart(dev: &ImageBlockDevice, ds: Seq<Location>, i: int, j: int)
    requires
        forall|a: int, b: int| 0 <= a < b < ds.len() ==> #[trigger] ds[a] != #[trigger] ds[b],
        forall|k: int| 0 <= k < ds.len() ==> used(dev.sec(#[trigger] ds[k])) == 256,
        0 <= i < j < dir_slots(dev, ds).len(),
    ensures dir_slots(dev, ds)[i] != dir_slots(dev, ds)[j]
    decreases ds.len()
{
    let q = ds.drop_last();
    let l = ds.last();
    let n = dir_slots(dev, q).len() as int;
    assert(used(dev.sec(ds[ds.len() - 1])) == 256);
    assert forall|k: int| 0 <= k < q.len() implies used(dev.sec(#[trigger] q[k])) == 256 by { assert(used(dev.sec(ds[k])) == 256); }
    assert forall|a: int, b: int| 0 <= a < b < q.len() implies #[trigger] q[a] != #[trigger] q[b] by { assert(ds[a] != ds[b]); }
    if j < n { lemma_slots_apart(dev, q, i, j); }
    else if i < n {
        lemma_slot_location(dev, q, i);
        let a = choose|a: int| 0 <= a < q.len() && q[a] == dir_slots(dev, q)[i].location;
        assert(ds[a] != ds[ds.len() - 1]);
    } else { assert(32 * (i - n) < 256 && 32 * (j - n) < 256); }
}

// ---------------------------------------------------------------- clients: any history of the operations

/// the disk object belongs to the map, and the disk is not a GEOS one
pub open spec fn mounted(d: &D64, bam: &Bam) -> bool {
    d.format == Some(bam.format) && d.header.is_some() && (d.header->Some_0).geos.is_none() && d.bam.is_some()
}
/// every file but the one in slot p, if any, is still there, with its entry and contents
pub open spec fn others_kept(d0: &ImageBlockDevice, d1: &ImageBlockDevice, f0: Map<Position, Seq<Location>>, f1: Map<Position, Seq<Location>>, p: Option<Position>) -> bool {
    forall|q: Position| #[trigger] f0.dom().contains(q) && Some(q) != p ==> f1.dom().contains(q) && f1[q] == f0[q] && kept(d0, d1, q, f0[q])
}
pub open spec fn good_name(n: Seq<u8>) -> bool { n.len() > 0 ==> n.last() != 0xA0 }
/// ghost results of an operation: the directory, the files, and the slot it worked on
pub struct Files { pub ds: Seq<Location>, pub fs: Map<Position, Seq<Location>>, pub p: Option<Position> }
pub open spec fn in_use(dev: &ImageBlockDevice, bam: &Bam, g: Files) -> bool { sound(dev, bam, first_dir(&bam.format), g.ds, g.fs) }

/// nothing to keep apart: the same disk
pub proof fn lemma_kept_same(d: &ImageBlockDevice, fs: Map<Position, Seq<Location>>)
    ensures others_kept(d, d, fs, fs, None)
{ }
//@props P07 P08 P11
pub fn client_create(disk: &mut D64, hb: &mut ImageBlockDevice, hm: &mut Bam, name: &Petscii, t: FileType, Ghost(g): Ghost<Files>) -> (r: (io::Result<File>, Ghost<Files>))
    requires mounted(old(disk), old(hm)), in_use(old(hb), old(hm), g), plain_type(t), good_name(name@)
    ensures
        balanced(old(hm), g.fs) ==> balanced(final(hm), r.1@.fs), // [P07]
        saved(old(hb), old(hm)) ==> saved(final(hb), final(hm)), // [P07]
        *final(disk) == *old(disk), mounted(final(disk), final(hm)), in_use(final(hb), final(hm), r.1@), // [P07]
        others_kept(old(hb), final(hb), g.fs, r.1@.fs, None), // [P08]
        r.0.is_ok() ==> r.1@.p.is_some() && !g.fs.dom().contains(r.1@.p->Some_0) && r.1@.fs.dom() =~= g.fs.dom().insert(r.1@.p->Some_0) && name_at(final(hb), r.1@.p->Some_0) == name@, // [P11]
        r.0.is_ok() ==> forall|q: Position| #[trigger] g.fs.dom().contains(q) ==> name_at(old(hb), q) != name@, // [P11]
        r.0.is_err() ==> r.1@.fs == g.fs,
{
    proof { lemma_ready(hb, hm, first_dir(&hm.format), g.ds, g.fs); }
    let r = disk.create_file(hb, hm, name, t, Scheme::Linear);
    let ghost mut h = g;
    proof {
        let start = first_dir(&old(hm).format);
        let name = name@;
        if r.is_ok() {
            let (dm, bm, e) = choose|dm: ImageBlockDevice, bm: Bam, e: DirectoryEntry| #[trigger] free_entry(old(hb), old(hm), &dm, &bm, start, &e)
                && disk_ok(&dm, &bm) && created(&dm, &bm, hb, hm, e.position->Some_0, r->Ok_0->Linear_0.entry.first_sector, t, name)
                && handle_of(&r->Ok_0, hb, e.position->Some_0, r->Ok_0->Linear_0.entry.first_sector, t, name);
            lemma_history_create(old(hb), old(hm), &dm, &bm, &e, start, g.ds, g.fs);
            lemma_absent(old(hb), old(hm), start, g.ds, g.fs, name);
            let p = e.position->Some_0;
            let l = r->Ok_0->Linear_0.entry.first_sector;
            let es = choose|es: Seq<Location>| #[trigger] sound(&dm, &bm, start, es, g.fs) && in_dir(es, p);
            lemma_history_created(&dm, &bm, hb, hm, start, es, g.fs, p, l, t, name);
            if balanced(old(hm), g.fs) { lemma_balanced_extended(old(hb), old(hm), &dm, &bm, &e, start, g.ds, g.fs); lemma_balanced_created(&dm, &bm, hb, hm, start, es, g.fs, p, l, t, name); }
            if saved(old(hb), old(hm)) { lemma_saved_extended(old(hb), old(hm), &dm, &bm, &e, start, g.ds, g.fs); lemma_saved_created(&dm, &bm, hb, hm, start, es, g.fs, p, l, t, name); }
            h = Files { ds: es, fs: g.fs.insert(p, seq![l]), p: Some(p) };
            assert forall|q: Position| #[trigger] g.fs.dom().contains(q) implies h.fs.dom().contains(q) && h.fs[q] == g.fs[q] && kept(old(hb), hb, q, g.fs[q]) by {
                assert(kept(old(hb), &dm, q, g.fs[q]) && kept(&dm, hb, q, g.fs[q]));
            }
        } else if *hb == *old(hb) && *hm == *old(hm) {
            h = Files { p: None, ..g };
        } else {
            let e = choose|e: DirectoryEntry| #[trigger] free_entry(old(hb), old(hm), hb, hm, start, &e);
            lemma_history_create(old(hb), old(hm), hb, hm, &e, start, g.ds, g.fs);
            let es = choose|es: Seq<Location>| #[trigger] sound(hb, hm, start, es, g.fs) && in_dir(es, e.position->Some_0);
            if balanced(old(hm), g.fs) { lemma_balanced_extended(old(hb), old(hm), hb, hm, &e, start, g.ds, g.fs); }
            if saved(old(hb), old(hm)) { lemma_saved_extended(old(hb), old(hm), hb, hm, &e, start, g.ds, g.fs); }
            h = Files { ds: es, fs: g.fs, p: None };
        }
    }
    (r, Ghost(h))
}

pub proof fn lemma_history_found(dev: &ImageBlockDevice, bam: &Bam, g: Files, name: Seq<u8>, e: &DirectoryEntry)
    requires in_use(dev, bam, g), lookup(dev, first_dir(&bam.format), None, name, e)
    ensures
        e.position.is_some(), g.fs.dom().contains(e.position->Some_0), name_at(dev, e.position->Some_0) == name, decodes(e, slot(dev, e.position->Some_0)),
        e.scheme == Scheme::Linear, e.first_sector == first_of(slot(dev, e.position->Some_0)), wf_pos(dev, e.position->Some_0), !bam_sector(bam.bam_rw.format, (e.position->Some_0).location),
        chain(dev, e.first_sector, g.fs[e.position->Some_0]),
{
    let start = first_dir(&bam.format);
    let (ls, done, k) = choose|ls: Seq<Location>, done: bool, k: int| #[trigger] first_named(dev, start, None, name, ls, done, k) && entry_at(dev, e, slots(dev, ls, done, None)[k], None);
    lemma_history_lookup(dev, bam, start, g.ds, g.fs, name, ls, done, k);
    let p = slots(dev, ls, done, None)[k];
    lemma_history_owner(dev, bam, start, g.ds, g.fs, p, e);
    assert(in_dir(g.ds, p) && file_ok(dev, bam, p, g.fs[p])) by { reveal(sound); }
    lemma_places(dev, bam, start, g.ds, g.fs);
    assert(g.ds.contains(p.location));
}
pub proof fn lemma_history_opened(dev: &ImageBlockDevice, bam: &Bam, g: Files, name: Seq<u8>, e: &DirectoryEntry, f: &File)
    requires in_use(dev, bam, g), opens(dev, first_dir(&bam.format), None, name, e, f)
    ensures
        *f is Linear, f->Linear_0.entry.position.is_some(), g.fs.dom().contains(f->Linear_0.entry.position->Some_0), name_at(dev, f->Linear_0.entry.position->Some_0) == name,
        listed_entry(dev, bam, &f->Linear_0.entry), f->Linear_0.entry.first_sector == first_of(slot(dev, f->Linear_0.entry.position->Some_0)),
        chain(dev, f->Linear_0.entry.first_sector, g.fs[f->Linear_0.entry.position->Some_0]),
{
    lemma_history_found(dev, bam, g, name, e);
    let x = f->Linear_0.entry;
    assert(same_entry(e, &x));
    assert(decodes(&x, slot(dev, x.position->Some_0)));
}
//@props P07 P08 P11
pub fn client_delete(disk: &mut D64, hb: &mut ImageBlockDevice, hm: &mut Bam, name: &Petscii, Ghost(g): Ghost<Files>) -> (r: (io::Result<()>, Ghost<Files>))
    requires mounted(old(disk), old(hm)), in_use(old(hb), old(hm), g)
    ensures
        balanced(old(hm), g.fs) ==> balanced(final(hm), r.1@.fs), // [P07]
        saved(old(hb), old(hm)) ==> saved(final(hb), final(hm)), // [P07]
        *final(disk) == *old(disk), mounted(final(disk), final(hm)), in_use(final(hb), final(hm), r.1@), // [P07]
        others_kept(old(hb), final(hb), g.fs, r.1@.fs, r.1@.p), // [P08]
        r.0.is_ok() ==> r.1@.p.is_some() && g.fs.dom().contains(r.1@.p->Some_0) && name_at(old(hb), r.1@.p->Some_0) == name@ && r.1@.fs == g.fs.remove(r.1@.p->Some_0), // [P11]
        r.0.is_err() ==> r.1@.fs == g.fs && r.1@.p.is_none(),
{
    proof { lemma_ready(hb, hm, first_dir(&hm.format), g.ds, g.fs); }
    let ghost start = first_dir(&hm.format);
    let f = disk.open_file(&*hb, name);
    let mut file = match f { Ok(x) => x, Err(e) => { return (Err(e), Ghost(Files { p: None, ..g })); } };
    let ghost e = choose|e: DirectoryEntry| #[trigger] opens(hb, start, None, name@, &e, &file);
    proof { lemma_history_opened(hb, hm, g, name@, &e, &file); }
    let ghost f0 = file;
    let ghost p = f0->Linear_0.entry.position->Some_0;
    let r = file.delete(hb, hm);
    let ghost mut h = Files { p: None, ..g };
    proof {
        if r.is_ok() {
            let v = choose|v: Seq<Location>| #[trigger] deleted(old(hb), old(hm), hb, hm, p, v) && frees(old(hb), &f0, v);
            lemma_history_deleted(old(hb), old(hm), hb, hm, start, g.ds, g.fs, p, v);
            if balanced(old(hm), g.fs) { lemma_balanced_deleted(old(hb), old(hm), hb, hm, start, g.ds, g.fs, p, v); }
            if saved(old(hb), old(hm)) { lemma_saved_deleted(old(hb), old(hm), hb, hm, start, g.ds, g.fs, p, v); }
            h = Files { ds: g.ds, fs: g.fs.remove(p), p: Some(p) };
        }
    }
    (r, Ghost(h))
}
//@props P07 P08 P11
pub fn client_rename(disk: &mut D64, hb: &mut ImageBlockDevice, hm: &mut Bam, from: &Petscii, to: &Petscii, Ghost(g): Ghost<Files>) -> (r: (io::Result<()>, Ghost<Files>))
    requires mounted(old(disk), old(hm)), in_use(old(hb), old(hm), g), good_name(to@)
    ensures
        balanced(old(hm), g.fs) ==> balanced(final(hm), r.1@.fs), // [P07]
        saved(old(hb), old(hm)) ==> saved(final(hb), final(hm)), // [P07]
        *final(disk) == *old(disk), mounted(final(disk), final(hm)), *final(hm) == *old(hm), in_use(final(hb), final(hm), r.1@), r.1@.fs == g.fs, // [P07]
        others_kept(old(hb), final(hb), g.fs, r.1@.fs, r.1@.p), // [P08]
        r.0.is_ok() ==> r.1@.p.is_some() && name_at(old(hb), r.1@.p->Some_0) == from@ && name_at(final(hb), r.1@.p->Some_0) == to@ // [P11]
            && content(final(hb), g.fs[r.1@.p->Some_0]) == content(old(hb), g.fs[r.1@.p->Some_0]), // [P11]
        r.0.is_err() ==> *final(hb) == *old(hb) && r.1@.p.is_none(), // [P11]
{
    proof { lemma_ready(hb, hm, first_dir(&hm.format), g.ds, g.fs); }
    let ghost start = first_dir(&hm.format);
    let r = disk.rename(hb, from, to);
    let ghost mut h = Files { p: None, ..g };
    proof {
        if r.is_ok() {
            let (ls, done, k) = choose|ls: Seq<Location>, done: bool, k: int| #[trigger] first_named(old(hb), start, None, from@, ls, done, k) && name_replaced(old(hb), hb, slots(old(hb), ls, done, None)[k], to@);
            let p = slots(old(hb), ls, done, None)[k];
            lemma_history_lookup(old(hb), hm, start, g.ds, g.fs, from@, ls, done, k);
            lemma_absent(old(hb), hm, start, g.ds, g.fs, to@);
            lemma_history_renamed(old(hb), hm, hb, start, g.ds, g.fs, p, to@);
            if saved(old(hb), old(hm)) { lemma_saved_renamed(old(hb), hm, hb, start, g.ds, g.fs, p, to@); }
            h = Files { p: Some(p), ..g };
        } else { assert(*hb == *old(hb)); }
    }
    (r, Ghost(h))
}
pub proof fn lemma_last_sector(dev: &ImageBlockDevice, bam: &Bam, g: Files, p: Position)
    requires in_use(dev, bam, g), g.fs.dom().contains(p)
    ensures ({ let b = dev.sec(g.fs[p].last()); b.len() == 256 && link(b).is_some() && link_next(b).is_none() }), g.fs[p].len() > 0
{
    reveal(sound);
    let ls = g.fs[p];
    assert(file_ok(dev, bam, p, ls));
    assert(dev.valid(ls[ls.len() - 1]) && link(dev.sec(ls[ls.len() - 1])).is_some());
    dev.lemma_off(ls.last());
}
//@props P05 P07 P08
#[verifier::spinoff_prover]
pub fn client_append(disk: &mut D64, hb: &mut ImageBlockDevice, hm: &mut Bam, name: &Petscii, data: &[u8], Ghost(g): Ghost<Files>) -> (r: (io::Result<usize>, Ghost<Files>, bool))
    requires mounted(old(disk), old(hm)), in_use(old(hb), old(hm), g), data@.len() <= 0x7fff_ffff
    ensures
        balanced(old(hm), g.fs) ==> balanced(final(hm), r.1@.fs), // [P07]
        r.2 ==> r.0.is_err(), saved(old(hb), old(hm)) && !r.2 ==> saved(final(hb), final(hm)), // [P07]
        *final(disk) == *old(disk), mounted(final(disk), final(hm)), in_use(final(hb), final(hm), r.1@), // [P07]
        others_kept(old(hb), final(hb), g.fs, r.1@.fs, r.1@.p), // [P08]
        r.1@.fs.dom() == g.fs.dom(),
        r.1@.p.is_some() ==> g.fs.dom().contains(r.1@.p->Some_0) && name_at(old(hb), r.1@.p->Some_0) == name@ && name_at(final(hb), r.1@.p->Some_0) == name@,
        r.0.is_ok() && data@.len() > 0 ==> r.1@.p.is_some() && content(final(hb), r.1@.fs[r.1@.p->Some_0]) == content(old(hb), g.fs[r.1@.p->Some_0]) + data@, // [P05]
{
    hide(content); hide(walk); hide(chain); hide(decodes); hide(covered); hide(disk_ok); hide(first_named); hide(lookup); hide(absent); hide(dir_ok); hide(live); hide(name_at); hide(kept); hide(map_ok); hide(taken); hide(eligible);
    proof { lemma_ready(hb, hm, first_dir(&hm.format), g.ds, g.fs); }
    let ghost start = first_dir(&hm.format);
    proof { assert(hb.wf()) by { reveal(disk_ok); } assert(others_kept(hb, hb, g.fs, g.fs, None)) by { reveal(kept); } }
    let f = disk.open_file(&*hb, name);
    let file = match f { Ok(File::Linear(x)) => x, Ok(_) => { return (Err(DiskError::Unknown.into()), Ghost(Files { p: None, ..g }), false); }, Err(e) => { return (Err(e), Ghost(Files { p: None, ..g }), false); } };
    let ghost e = choose|e: DirectoryEntry| #[trigger] opens(hb, start, None, name@, &e, &File::Linear(file));
    proof { lemma_history_opened(hb, hm, g, name@, &e, &File::Linear(file)); }
    let ghost p = file.entry.position->Some_0;
    let ghost first = file.entry.first_sector;
    let ghost ls = g.fs[p];
    let w = file.writer(&*hb);
    let mut w = match w { Ok(w) => *w, Err(e) => { return (Err(e), Ghost(Files { p: None, ..g }), false); } };
    proof {
        let c = choose|c: Seq<Location>| #[trigger] chain(hb, first, c) && w.location == c.last() && w.block@ == hb.sec(c.last());
        lemma_chain_unique(hb, first, c, ls);
        lemma_last_sector(hb, hm, g, p);
        lemma_history_writer(hb, hm, start, g.ds, g.fs, p, &w);
        assert(written(hb, &w, ls) == content(hb, ls)) by { reveal(content); }
    }
    let ghost w0 = w;
    let r = w.write(hb, hm, Ghost(first), Ghost(ls), data);
    let ghost (new, m) = choose|new: Seq<Location>, m: int| 0 <= m <= data@.len() && (r.is_ok() ==> m == data@.len()) && #[trigger] wrote(old(hb), old(hm), &w0, hb, hm, &w, first, ls, new, data@.take(m));
    let ghost h = Files { ds: g.ds, fs: g.fs.insert(p, ls + new), p: Some(p) };
    let ghost d1 = *hb;
    let ghost b1 = *hm;
    let ghost w1 = w;
    proof {
        lemma_history_wrote(old(hb), old(hm), &w0, hb, hm, &w, start, g.ds, g.fs, p, new, data@.take(m));
        assert(h.fs[p] == ls + new);
    }
    let s = w.flush(hb, hm, Ghost(first), Ghost(ls + new));
    proof {
        assert(w1.entry.position == Some(p) && hm.format == b1.format && b1.format == old(hm).format && b1.bam_rw.format == old(hm).bam_rw.format) by { reveal(wrote); reveal(taken); }
        assert(data@.len() > 0 && r.is_ok() ==> written(&d1, &w1, ls + new) == content(old(hb), ls) + data@) by { reveal(wrote); assert(data@.take(data@.len() as int) =~= data@); }
        lemma_history_flushed(&d1, &b1, &w, hb, hm, start, h.ds, h.fs, p);
        assert(h.fs.dom() =~= g.fs.dom());
        assert(name_at(hb, p) == name_at(&d1, p)) by { reveal(name_at); }
        assert(others_kept(old(hb), hb, g.fs, h.fs, Some(p))) by {
            reveal(kept);
            assert forall|q: Position| #[trigger] g.fs.dom().contains(q) && Some(q) != Some(p) implies h.fs.dom().contains(q) && h.fs[q] == g.fs[q] && kept(old(hb), hb, q, g.fs[q]) by {
                assert(kept(old(hb), &d1, q, g.fs[q]));
                assert(h.fs.dom().contains(q) && h.fs[q] == g.fs[q]);
                assert(kept(&d1, hb, q, h.fs[q]));
            }
        }
    }
    let failed = s.is_err();
    proof {
        if balanced(old(hm), g.fs) { lemma_balanced_written(old(hb), old(hm), &w0, &d1, &b1, &w1, hm, start, g.ds, g.fs, p, first, new, data@.take(m)); }
        if saved(old(hb), old(hm)) && !failed {
            if w1.dirty {
                assert(hb.wf()) by { reveal(sound); reveal(disk_ok); }
                lemma_saved_written(old(hb), old(hm), &w0, &d1, &b1, &w1, hb, hm, start, g.ds, g.fs, p, first, new, data@.take(m));
            } else { assert(data@.len() == 0 && d1 == *old(hb) && b1 == *old(hm)); lemma_saved_same(&d1, &b1, hb, hm); }
        }
    }
    let n = match r { Ok(n) => n, Err(e) => { return (Err(e), Ghost(h), failed); } };
    match s { Ok(_) => {}, Err(e) => { return (Err(e), Ghost(h), true); } };
    (Ok(n), Ghost(h), false)
}

//@props P06
/// reading a file in pieces of any sizes; the last result says that the end was met
pub fn client_read(disk: &D64, hb: &ImageBlockDevice, hm: &Bam, name: &Petscii, sizes: &Vec<usize>, Ghost(g): Ghost<Files>) -> (r: (io::Result<Vec<u8>>, Ghost<Position>, bool))
    requires mounted(disk, hm), in_use(hb, hm, g), forall|i: int| 0 <= i < sizes@.len() ==> #[trigger] sizes@[i] <= 0x7fff_ffff
    ensures
        r.0.is_ok() ==> g.fs.dom().contains(r.1@) && name_at(hb, r.1@) == name@, // [P06]
        r.0.is_ok() ==> (r.0->Ok_0)@.len() <= content(hb, g.fs[r.1@]).len() && (r.0->Ok_0)@ == content(hb, g.fs[r.1@]).take((r.0->Ok_0)@.len() as int), // [P06]
        r.0.is_ok() && r.2 ==> (r.0->Ok_0)@ == content(hb, g.fs[r.1@]), // [P06]
{
    hide(walk); hide(chain); hide(decodes); hide(covered); hide(disk_ok); hide(first_named); hide(lookup); hide(absent); hide(dir_ok); hide(live); hide(name_at); hide(map_ok); hide(reader_at); hide(content);
    proof { lemma_ready(hb, hm, first_dir(&hm.format), g.ds, g.fs); assert(hb.wf()) by { reveal(disk_ok); } }
    let ghost start = first_dir(&hm.format);
    let f = disk.open_file(hb, name);
    let file = match f { Ok(File::Linear(x)) => x, Ok(_) => { return (Err(DiskError::Unknown.into()), Ghost(arbitrary()), false); }, Err(e) => { return (Err(e), Ghost(arbitrary()), false); } };
    let ghost e = choose|e: DirectoryEntry| #[trigger] opens(hb, start, None, name@, &e, &File::Linear(file));
    proof { lemma_history_opened(hb, hm, g, name@, &e, &File::Linear(file)); }
    let ghost p = file.entry.position->Some_0;
    let ghost first = file.entry.first_sector;
    let ghost c = g.fs[p];
    let mut rd = match file.reader() { Ok(x) => *x, Err(e) => { return (Err(e), Ghost(p), false); } };
    let ghost mut w: Seq<Location> = Seq::empty();
    let mut out: Vec<u8> = Vec::new();
    proof { assert(reader_at(hb, &rd, first, w)); assert(delivered(hb, &rd, w) =~= Seq::empty()) by { reveal(content); reveal(reader_at); } }
    let mut done = false;
    let mut i: usize = 0;
    while i < sizes.len()
        invariant
            i <= sizes@.len(), forall|i: int| 0 <= i < sizes@.len() ==> #[trigger] sizes@[i] <= 0x7fff_ffff, hb.wf(),
            reader_at(hb, &rd, first, w), out@ == delivered(hb, &rd, w), chain(hb, first, c), done ==> rd.eof,
        decreases sizes@.len() - i
    {
        let n = sizes[i];
        let mut buf: Vec<u8> = Vec::new();
        buf.resize(n, 0);
        let ghost rd0 = rd;
        let r = rd.read(hb, Ghost(first), Ghost(w), buf.as_mut_slice());
        match r {
            Ok(k) => {
                proof { w = choose|w2: Seq<Location>| #[trigger] reader_at(hb, &rd, first, w2) && delivered(hb, &rd, w2) == delivered(hb, &rd0, w) + buf@.take(k as int) && (k < n ==> rd.eof); }
                done = k < n;
                let ghost o = out@;
                let mut j: usize = 0;
                while j < k
                    invariant j <= k <= buf@.len(), out@ == o + buf@.take(j as int)
                    decreases k - j
                {
                    out.push(buf[j]);
                    j = j + 1;
                    assert(out@ =~= o + buf@.take(j as int));
                }
            },
            Err(e) => { assert(false); return (Err(e), Ghost(p), false); }
        }
        i = i + 1;
    }
    proof { lemma_read_all(hb, &rd, first, w, c); }
    (Ok(out), Ghost(p), done)
}

/// one operation of a history
pub enum Op { Reopen, Create(Petscii, FileType), Append(Petscii, Vec<u8>), Rename(Petscii, Petscii), Delete(Petscii) }
pub open spec fn op_ok(op: Op) -> bool {
    match op { Op::Create(n, t) => good_name(n@) && plain_type(t), Op::Append(_, d) => d@.len() <= 0x7fff_ffff, Op::Rename(_, n) => good_name(n@), Op::Delete(_) => true, Op::Reopen => true }
}
pub proof fn lemma_saved_formatted(f: &DiskFormat, dev: &ImageBlockDevice, m: &Bam, d: &D64, name: Seq<u8>, id: &Id)
    requires native(f), formatted(f, dev, m, name, id), initialized(f, dev, d, m), d.format == Some(*f), m.format == *f, m.bam_rw.format == f.bam
    ensures saved(dev, m)
{
    reveal(saved);
    assert(flag_ok(f.header, dev.sec(f.header.location)));
    assert((d.header->Some_0).geos.is_some() == f.geos);
}
//@props P07
/// the image is opened again: the map and every file are as before
pub fn client_reopen(disk: &mut D64, hb: &ImageBlockDevice, hm: &mut Bam, nf: &'static DiskFormat, Ghost(m): Ghost<Bam>, Ghost(g): Ghost<Files>)
    requires m.format == *nf, in_use(hb, &m, g), saved(hb, &m)
    ensures mounted(final(disk), final(hm)), final(hm).format == *nf, final(hm).entries@ == m.entries@, in_use(hb, final(hm), g), saved(hb, final(hm)), balanced(&m, g.fs) ==> balanced(final(hm), g.fs) // [P07]
{
    hide(native); hide(fits_on); hide(covered); hide(consistent);
    proof { assert(native(nf) && fits_on(nf, hb) && m.bam_rw.format == nf.bam && disk_ok(hb, &m)) by { reveal(sound); } assert(!nf.geos) by { reveal(native); } reveal(saved); }
    disk.initialize(hb, hm, nf);
    proof {
        lemma_map_bytes_fit(hb, &m, first_dir(nf), g.ds, g.fs);
        assert(flag_ok(nf.header, hb.sec(nf.header.location)));
        assert((disk.header->Some_0).geos.is_none());
        assert(hm.format == *nf);
        assert(wf_bamformat(nf.bam) && bam_fits(nf.bam, hb));
        assert(sum_tracks(nf.bam.sections@, nf.bam.sections@.len() as int) == m.entries@.len() && hm.entries@.len() == m.entries@.len()) by { reveal(native); reveal(consistent); }
        lemma_roundtrip(nf.bam, hb, m.entries@, hm.entries@);
        lemma_history_same_map(hb, &m, hm, first_dir(nf), g.ds, g.fs);
        reveal(balanced);
    }
}
//@props P07 P08 P11
/// any history: a disk is formatted, then any operations follow, refused or not; after each of them the disk is in order, validation finds nothing,
/// and the free blocks are those of the empty disk less the blocks of the files
pub fn client_history(disk: &mut D64, hb: &mut ImageBlockDevice, hm: &mut Bam, nf: &'static DiskFormat, name: &Petscii, id: &Id, ops: &Vec<Op>) -> (r: (io::Result<()>, Ghost<Files>))
    requires native(nf), nf.first_track == 1, fits_on(nf, old(hb)), forall|i: int| 0 <= i < ops@.len() ==> op_ok(#[trigger] ops@[i])
    ensures r.0.is_ok() ==> mounted(final(disk), final(hm)) && in_use(final(hb), final(hm), r.1@) && balanced(final(hm), r.1@.fs) // [P07] [P08] [P11]
{
    hide(sound); hide(native); hide(fits_on);
    let ghost mut g = Files { ds: seq![first_dir(nf)], fs: Map::empty(), p: None };
    match disk.write_format(hb, hm, nf, name, id) { Ok(_) => {}, Err(e) => { return (Err(e), Ghost(g)); } };
    proof {
        assert(fits_on(nf, hb)) by { reveal(fits_on); }
        lemma_history_formatted(nf, hb, hm, name@, id);
        assert(hm.format == *nf && !nf.geos) by { reveal(native); }
        assert(mounted(disk, hm));
        assert(balanced(hm, g.fs)) by { reveal(balanced); lemma_formatted_ok(nf, hb, hm, name@, id); assert(g.fs.dom().len() == 0); }
        assert(saved(hb, hm)) by { lemma_saved_formatted(nf, hb, hm, disk, name@, id); }
    }
    let mut failed = false;
    let mut i: usize = 0;
    while i < ops.len()
        invariant
            i <= ops@.len(), forall|i: int| 0 <= i < ops@.len() ==> op_ok(#[trigger] ops@[i]), hm.format.first_track == 1,
            mounted(disk, hm), in_use(hb, hm, g), balanced(hm, g.fs), hm.format == *nf, !failed ==> saved(hb, hm),
        decreases ops@.len() - i
    {
        let ghost f = hm.format;
        let op = &ops[i];
        proof { assert(op_ok(ops@[i as int])); }
        match op {
            Op::Create(n, t) => { let r = client_create(disk, hb, hm, n, *t, Ghost(g)); proof { g = r.1@; } },
            Op::Append(n, d) => { let r = client_append(disk, hb, hm, n, d.as_slice(), Ghost(g)); if r.2 { failed = true; } proof { g = r.1@; } },
            Op::Reopen => { if !failed { client_reopen(disk, &*hb, hm, nf, Ghost(*hm), Ghost(g)); } },
            Op::Rename(m, n) => { let r = client_rename(disk, hb, hm, m, n, Ghost(g)); proof { g = r.1@; } },
            Op::Delete(n) => { let r = client_delete(disk, hb, hm, n, Ghost(g)); proof { g = r.1@; } },
        }
        let v = client_validate(disk, &*hb, &*hm, Ghost(g));
        assert(v@.len() == 0);
        let n = client_free(disk, &*hb, &*hm, Ghost(g));
        assert(n == data_blocks(&hm.format, hm.format.last_track as int) - total(g.fs));
        i = i + 1;
    }
    (Ok(()), Ghost(g))
}
//@props P07
pub fn client_free(disk: &D64, hb: &ImageBlockDevice, hm: &Bam, Ghost(g): Ghost<Files>) -> (r: usize)
    requires mounted(disk, hm), in_use(hb, hm, g), balanced(hm, g.fs)
    ensures r == data_blocks(&hm.format, hm.format.last_track as int) - total(g.fs) // [P07]
{
    proof { lemma_ready(hb, hm, first_dir(&hm.format), g.ds, g.fs); reveal(balanced); }
    match disk.blocks_free(hm) { Ok(n) => n, Err(_) => { assert(false); 0 } }
}
//@props P07
pub fn client_validate(disk: &D64, hb: &ImageBlockDevice, hm: &Bam, Ghost(g): Ghost<Files>) -> (r: Vec<ValidationError>)
    requires mounted(disk, hm), in_use(hb, hm, g), hm.format.first_track == 1
    ensures r@.len() == 0 // [P07]
{
    hide(validated); hide(absent);
    let ghost start = first_dir(&hm.format);
    proof { lemma_ready(hb, hm, start, g.ds, g.fs); assert(dir_chain(hb, start, None, g.ds)); }
    let r = disk.validate(hb, hm);
    match r {
        Ok(v) => {
            proof {
                let ls = choose|ls: Seq<Location>| #[trigger] dir_chain(hb, start, None, ls) && validated(hb, hm, &hm.format, ls, None, v@);
                lemma_history_valid(hb, hm, start, g.ds, g.fs, ls, v@);
            }
            v
        },
        Err(_) => { assert(no_dir(hb, start, None)); Vec::new() },
    }
}
} // mod history
pub use history::*;
