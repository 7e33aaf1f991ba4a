pub mod directory {
use super::*;
//@item src/disk/d64.rs struct D64 /Rc<RefCell<ImageBlockDevice>>/ => BlockDeviceRef
//@item src/disk/directory.rs struct DirectoryIterator /(::)?std::vec::IntoIter<Vec<u8>>/ => Chunks

// ---------------------------------------------------------------- stand-ins for the standard library

/// vec::IntoIter
pub struct Chunks { pub v: Vec<Vec<u8>> }
impl Chunks {
    pub fn empty() -> (r: Chunks) ensures r.v@.len() == 0 { Chunks { v: Vec::new() } }
    pub fn next(&mut self) -> (r: Option<Vec<u8>>)
        ensures
            old(self).v@.len() == 0 ==> r.is_none() && final(self).v@ == old(self).v@,
            old(self).v@.len() > 0 ==> r == Some(old(self).v@[0]) && final(self).v@ == old(self).v@.skip(1),
    {
        if self.v.len() == 0 { None } else { let x = self.v.remove(0); proof { assert(self.v@ =~= old(self).v@.skip(1)); } Some(x) }
    }
}
/// a chain of sectors, with one more item after it or not (Iterator::chain, iter::once, iter::empty)
pub struct DirectoryBlockIterator { pub chain: ChainIterator, pub tail: Option<io::Result<ChainSector>> }
impl DirectoryBlockIterator {
    pub fn none() -> (r: DirectoryBlockIterator)
        ensures r.chain.next_sector.is_none(), r.tail.is_none()
    { let mut c = ChainIterator::new(BlockDeviceRef, Location(0, 0)); c.next_sector = None; DirectoryBlockIterator { chain: c, tail: None } }
    pub fn next(&mut self, hb: &ImageBlockDevice) -> (r: Option<io::Result<ChainSector>>)
        requires hb.wf()
        ensures
            old(self).chain.next_sector.is_none() ==> r == old(self).tail && final(self).tail.is_none() && final(self).chain == old(self).chain,
            old(self).chain.next_sector.is_some() ==> final(self).tail == old(self).tail && r.is_some() && ({
                let l = old(self).chain.next_sector->Some_0;
                let x = r->Some_0;
                if old(self).chain.visited_sectors@.contains(l) || !hb.valid(l) || link(hb.sec(l)).is_none() { x.is_err() && x->Err_0.e != DiskError::NotFound }
                else {
                    &&& x.is_ok() && is_sector(hb, &x->Ok_0, l)
                    &&& final(self).chain.next_sector == link_next(hb.sec(l))
                    &&& final(self).chain.visited_sectors@ == old(self).chain.visited_sectors@.insert(l)
                }
            }),
    {
        match self.chain.next(hb) { Some(x) => Some(x), None => self.tail.take() }
    }
}
impl DiskError {
    /// error.rs: the DiskError an io::Error was made from
    #[verifier::external_body]
    pub fn from_io_error(error: &io::Error) -> (r: Option<DiskError>)
        ensures r == Some(error.e)
    { unimplemented!() }
}
// ---------------------------------------------------------------- what a directory lists

pub open spec fn slots_in(l: Location, n: int) -> Seq<Position> { Seq::new(n as nat, |j: int| Position { location: l, offset: (32 * j) as u8, size: 32 }) }
/// the slots of the directory sectors ls
pub open spec fn dir_slots(dev: &ImageBlockDevice, ls: Seq<Location>) -> Seq<Position>
    decreases ls.len()
{
    if ls.len() == 0 { Seq::empty() } else { dir_slots(dev, ls.drop_last()) + slots_in(ls.last(), used(dev.sec(ls.last())) / 32) }
}
/// the slots of the GEOS border sector
pub open spec fn border_slots(border: Option<Location>) -> Seq<Position> { match border { Some(b) => slots_in(b, 8), None => Seq::empty() } }
/// the slots of the first sectors ls of the directory, and of the border sector if `done`
pub open spec fn slots(dev: &ImageBlockDevice, ls: Seq<Location>, done: bool, border: Option<Location>) -> Seq<Position> {
    dir_slots(dev, ls) + (if done { border_slots(border) } else { Seq::empty() })
}
/// the slot holds an entry that is not scratched
pub open spec fn live(dev: &ImageBlockDevice, p: Position) -> bool { !scratched(attrs_of(slot(dev, p)[2])) }
pub open spec fn name_at(dev: &ImageBlockDevice, p: Position) -> Seq<u8> { strip(slot(dev, p).subrange(5, 21), 0xA0) }
pub open spec fn named(dev: &ImageBlockDevice, p: Position, name: Seq<u8>) -> bool { live(dev, p) && name_at(dev, p) == name }
/// e is the entry in slot p
pub open spec fn entry_at(dev: &ImageBlockDevice, e: &DirectoryEntry, p: Position, border: Option<Location>) -> bool {
    e.position == Some(p) && wf_pos(dev, p) && decodes(e, slot(dev, p)) && e.geos_border == (border == Some(p.location))
}
/// the directory is intact: a chain from its first sector, and the border sector exists
pub open spec fn dir_chain(dev: &ImageBlockDevice, start: Location, border: Option<Location>, ls: Seq<Location>) -> bool {
    chain(dev, start, ls) && (border.is_some() ==> dev.valid(border->Some_0))
}
pub open spec fn no_dir(dev: &ImageBlockDevice, start: Location, border: Option<Location>) -> bool { forall|ls: Seq<Location>| !dir_chain(dev, start, border, ls) }
pub open spec fn all_slots(dev: &ImageBlockDevice, ls: Seq<Location>, border: Option<Location>) -> Seq<Position> { slots(dev, ls, true, border) }
pub open spec fn prefix(a: Seq<Position>, b: Seq<Position>) -> bool { a.len() <= b.len() && b.take(a.len() as int) == a }

/// the pieces ch of a sector are the slots pend, and maybe an incomplete one
pub open spec fn chunks_ok(dev: &ImageBlockDevice, ch: Seq<Vec<u8>>, pend: Seq<Position>) -> bool {
    &&& pend.len() <= ch.len() <= pend.len() + 1
    &&& forall|k: int| 0 <= k < pend.len() ==> (#[trigger] ch[k])@ == slot(dev, pend[k]) && ch[k]@.len() == 32
    &&& ch.len() > pend.len() ==> ch.last()@.len() != 32
    &&& forall|k: int| 0 <= k < pend.len() ==> (#[trigger] pend[k]).location == pend[0].location && pend[k].offset == pend[0].offset + 32 * k && wf_pos(dev, pend[k])
}
/// the iterator has looked at the first `seen` slots of slots(dev, ls, done, border), and has the rest of them in memory
#[verifier::opaque]
pub open spec fn dir_at(dev: &ImageBlockDevice, it: &DirectoryIterator, start: Location, border: Option<Location>, ls: Seq<Location>, done: bool, seen: int) -> bool {
    let all = slots(dev, ls, done, border);
    let pend = all.skip(seen);
    &&& it.error.is_none() && it.geos_border == border && iter_at(dev, &it.block_iter.chain, start, ls)
    &&& if done { it.block_iter.tail.is_none() && it.block_iter.chain.next_sector.is_none() && border.is_some() && dev.valid(border->Some_0) } else { tail_ok(dev, it.block_iter.tail, border) }
    &&& 0 <= seen <= all.len() && chunks_ok(dev, it.chunks.v@, pend)
    &&& it.position.size == 32
    &&& pend.len() > 0 ==> it.position == pend[0] && it.processing_geos_border == (border == Some(pend[0].location))
    &&& border.is_none() ==> !it.processing_geos_border
}
pub open spec fn tail_ok(dev: &ImageBlockDevice, t: Option<io::Result<ChainSector>>, border: Option<Location>) -> bool {
    match border {
        None => t.is_none(),
        Some(b) => t.is_some() && (t->Some_0.is_ok() <==> dev.valid(b)) && (t->Some_0.is_ok() ==> (t->Some_0)->Ok_0.location == b && (t->Some_0)->Ok_0.data@ == dev.sec(b))
            && (t->Some_0.is_err() ==> (t->Some_0)->Err_0.e != DiskError::NotFound),
    }
}
pub open spec fn disk_border(d: &D64) -> Option<Location> { match (d.header->Some_0).geos { Some(g) => Some(g.border), None => None } }
pub open spec fn dir_start(d: &D64) -> Location { Location((d.format->Some_0).directory_track, (d.format->Some_0).first_directory_sector) }

/// what next() leaves alone
pub open spec fn same_rest(a: &DirectoryIterator, b: &DirectoryIterator) -> bool {
    a.error.is_none() && b.error.is_none() && a.geos_border == b.geos_border
}
pub proof fn lemma_dir_skip(dev: &ImageBlockDevice, a: &DirectoryIterator, b: &DirectoryIterator, start: Location, border: Option<Location>, w: Seq<Location>, dn: bool, k: int)
    requires
        dev.wf(), dir_at(dev, a, start, border, w, dn, k), a.chunks.v@.len() > 0, a.chunks.v@[0]@.len() == 32,
        same_rest(a, b), b.block_iter == a.block_iter, b.chunks.v@ == a.chunks.v@.skip(1), b.processing_geos_border == a.processing_geos_border,
        b.position.location == a.position.location, b.position.size == a.position.size,
        a.position.offset + 32 <= 255 ==> b.position.offset == a.position.offset + 32,
    ensures
        dir_at(dev, b, start, border, w, dn, k + 1), k < slots(dev, w, dn, border).len(),
        a.position == slots(dev, w, dn, border)[k], wf_pos(dev, a.position), a.chunks.v@[0]@ == slot(dev, a.position),
        a.processing_geos_border == (border == Some(a.position.location)),
{
    reveal(dir_at);
    let all = slots(dev, w, dn, border);
    let pend = all.skip(k);
    let pend2 = all.skip(k + 1);
    let ch = a.chunks.v@;
    if pend.len() == 0 { assert(ch.last() == ch[0]); assert(false); }
    assert(pend[0] == all[k]);
    assert(ch[0]@ == slot(dev, pend[0]));
    assert(pend2 =~= pend.skip(1));
    let ch2 = b.chunks.v@;
    assert forall|j: int| 0 <= j < pend2.len() implies (#[trigger] ch2[j])@ == slot(dev, pend2[j]) && ch2[j]@.len() == 32 by { assert(ch2[j] == ch[j + 1]); assert(pend2[j] == pend[j + 1]); }
    assert forall|j: int| 0 <= j < pend2.len() implies (#[trigger] pend2[j]).location == pend2[0].location && pend2[j].offset == pend2[0].offset + 32 * j && wf_pos(dev, pend2[j]) by { assert(pend2[j] == pend[j + 1]); assert(pend2[0] == pend[1]); }
    if pend2.len() > 0 { assert(pend2[0] == pend[1]); assert(wf_pos(dev, pend[1])); }
    if ch2.len() > 0 { assert(ch2.last() == ch.last()); }
}
pub proof fn lemma_dir_partial(dev: &ImageBlockDevice, a: &DirectoryIterator, b: &DirectoryIterator, start: Location, border: Option<Location>, w: Seq<Location>, dn: bool, k: int)
    requires
        dev.wf(), dir_at(dev, a, start, border, w, dn, k), a.chunks.v@.len() > 0, a.chunks.v@[0]@.len() != 32,
        same_rest(a, b), b.block_iter == a.block_iter, b.chunks.v@ == a.chunks.v@.skip(1), b.processing_geos_border == a.processing_geos_border, b.position == a.position,
    ensures dir_at(dev, b, start, border, w, dn, k)
{
    reveal(dir_at);
    let pend = slots(dev, w, dn, border).skip(k);
    if pend.len() > 0 { assert(a.chunks.v@[0]@.len() == 32); }
}
/// nothing in memory: all slots so far have been looked at
pub proof fn lemma_dir_drained(dev: &ImageBlockDevice, a: &DirectoryIterator, start: Location, border: Option<Location>, w: Seq<Location>, dn: bool, k: int)
    requires dev.wf(), dir_at(dev, a, start, border, w, dn, k), a.chunks.v@.len() == 0
    ensures
        k == slots(dev, w, dn, border).len(), walk(dev, start, w), a.block_iter.chain.next_sector == next_of(dev, start, w), a.block_iter.chain.visited_sectors@ == set_of(w),
        dn ==> a.block_iter.tail.is_none() && a.block_iter.chain.next_sector.is_none() && border.is_some() && dev.valid(border->Some_0),
        !dn ==> tail_ok(dev, a.block_iter.tail, border), a.geos_border == border, border.is_none() ==> !a.processing_geos_border, a.position.size == 32,
        a.block_iter.chain.next_sector.is_none() ==> chain(dev, start, w), a.error.is_none(),
{ reveal(dir_at); }
pub proof fn lemma_dir_facts(dev: &ImageBlockDevice, a: &DirectoryIterator, start: Location, border: Option<Location>, w: Seq<Location>, dn: bool, k: int)
    requires dev.wf(), dir_at(dev, a, start, border, w, dn, k)
    ensures
        0 <= k <= slots(dev, w, dn, border).len(), walk(dev, start, w), a.error.is_none(),
        k <= 8 * before(dev.geometry.track_layouts@, dev.geometry.tracks + 1) + 8,
{
    reveal(dir_at);
    lemma_walk_bound(dev, start, w);
    lemma_slots_bound(dev, w, dn, border);
}
pub proof fn lemma_decoded_wf(e: &DirectoryEntry, b: Seq<u8>)
    requires decodes(e, b)
    ensures wf_entry(e)
{ lemma_strip_prefix(b.subrange(5, 21), 0xA0); }
/// the pieces of a sector are its slots
pub proof fn lemma_split(dev: &ImageBlockDevice, l: Location, n: int, ch: Seq<Vec<u8>>)
    requires
        dev.wf(), dev.valid(l), 0 <= n <= 256, ch.len() == (n + 31) / 32,
        forall|k: int| 0 <= k < ch.len() ==> (#[trigger] ch[k])@ == dev.sec(l).take(n).subrange(32 * k, if 32 * k + 32 <= n { 32 * k + 32 } else { n }),
    ensures chunks_ok(dev, ch, slots_in(l, n / 32))
{
    dev.lemma_off(l);
    let pend = slots_in(l, n / 32);
    assert forall|k: int| 0 <= k < pend.len() implies (#[trigger] ch[k])@ == slot(dev, pend[k]) && ch[k]@.len() == 32 by {
        assert(dev.sec(l).take(n).subrange(32 * k, 32 * k + 32) =~= dev.sec(l).subrange(32 * k, 32 * k + 32));
    }
    if ch.len() > pend.len() { assert(ch.last() == ch[ch.len() - 1]); }
}
/// the next sector of the directory
pub proof fn lemma_dir_block(dev: &ImageBlockDevice, a: &DirectoryIterator, b: &DirectoryIterator, start: Location, border: Option<Location>, w: Seq<Location>, dn: bool, k: int, l: Location)
    requires
        dev.wf(), dir_at(dev, a, start, border, w, dn, k), a.chunks.v@.len() == 0, a.block_iter.chain.next_sector == Some(l),
        !w.contains(l) && dev.valid(l) && link(dev.sec(l)).is_some(),
        same_rest(a, b), b.block_iter.tail == a.block_iter.tail, b.block_iter.chain.next_sector == link_next(dev.sec(l)),
        b.block_iter.chain.visited_sectors@ == a.block_iter.chain.visited_sectors@.insert(l),
        chunks_ok(dev, b.chunks.v@, slots_in(l, used(dev.sec(l)) / 32)),
        b.position == (Position { location: l, offset: 0, size: 32 }),
        border.is_some() ==> b.processing_geos_border == (border->Some_0 == l), border.is_none() ==> b.processing_geos_border == a.processing_geos_border,
    ensures
        dir_at(dev, b, start, border, w.push(l), dn, k), !dn,
        slots(dev, w.push(l), dn, border) == slots(dev, w, dn, border) + slots_in(l, used(dev.sec(l)) / 32),
        walk(dev, start, w.push(l)), w.len() < before(dev.geometry.track_layouts@, dev.geometry.tracks + 1),
{
    lemma_dir_drained(dev, a, start, border, w, dn, k);
    lemma_next(dev, start, w, l);
    reveal(dir_at);
    let s0 = slots(dev, w, dn, border);
    let add = slots_in(l, used(dev.sec(l)) / 32);
    assert(w.push(l).drop_last() =~= w);
    assert(slots(dev, w.push(l), dn, border) =~= s0 + add);
    assert((s0 + add).skip(k) =~= add);
}
/// the border sector, after the directory
pub proof fn lemma_dir_border(dev: &ImageBlockDevice, a: &DirectoryIterator, b: &DirectoryIterator, start: Location, border: Option<Location>, w: Seq<Location>, dn: bool, k: int, l: Location)
    requires
        dev.wf(), dir_at(dev, a, start, border, w, dn, k), a.chunks.v@.len() == 0, a.block_iter.chain.next_sector.is_none(), a.block_iter.tail.is_some(),
        border == Some(l), dev.valid(l),
        same_rest(a, b), b.block_iter.tail.is_none(), b.block_iter.chain == a.block_iter.chain,
        chunks_ok(dev, b.chunks.v@, slots_in(l, 8)),
        b.position == (Position { location: l, offset: 0, size: 32 }), b.processing_geos_border,
    ensures
        dir_at(dev, b, start, border, w, true, k), !dn,
        slots(dev, w, true, border) == slots(dev, w, dn, border) + slots_in(l, 8),
{
    lemma_dir_drained(dev, a, start, border, w, dn, k);
    reveal(dir_at);
    let s0 = slots(dev, w, dn, border);
    let add = slots_in(l, 8);
    assert(slots(dev, w, true, border) =~= s0 + add);
    assert((s0 + add).skip(k) =~= add);
}
pub proof fn lemma_passed_more(dev: &ImageBlockDevice, start: Location, border: Option<Location>, ls: Seq<Location>, done: bool, seen: int, w: Seq<Location>, dn: bool, k: int, w2: Seq<Location>, dn2: bool, add: Seq<Position>)
    requires passed(dev, start, border, ls, done, seen, w, dn, k), slots(dev, w2, dn2, border) == slots(dev, w, dn, border) + add, walk(dev, start, w2)
    ensures passed(dev, start, border, ls, done, seen, w2, dn2, k)
{
    let (a, b, c) = (slots(dev, ls, done, border), slots(dev, w, dn, border), slots(dev, w2, dn2, border));
    assert(c.take(a.len() as int) =~= b.take(a.len() as int));
    assert forall|j: int| seen <= j < k implies !live(dev, #[trigger] c[j]) by { assert(c[j] == b[j]); }
}

//@props P07 P08 P11 P12
impl D64 {
//@fn src/disk/d64.rs Disk for D64::disk_format
//@ret r
//@spec
    ensures r.is_ok() <==> self.format.is_some(), r.is_ok() ==> *r->Ok_0 == self.format->Some_0, r.is_err() ==> r->Err_0.e == DiskError::Unformatted
//@endfn
//@fn src/disk/d64.rs Disk for D64::header
//@ret r
//@spec
    ensures r.is_ok() <==> self.header.is_some(), r.is_ok() ==> *r->Ok_0 == self.header->Some_0, r.is_err() ==> r->Err_0.e == DiskError::Unformatted
//@endfn
//@fn src/disk/d64.rs Disk for D64::bam
//@ret r
//@sub /\b(\w+)\.clone\(\)/ => *\1
//@spec
    ensures r.is_ok() <==> self.bam.is_some(), r.is_err() ==> r->Err_0.e == DiskError::Unformatted
//@endfn
//@fn src/disk/d64.rs Disk for D64::blocks
//@ret r
//@sub /self\.blocks\.clone\(\)/ => self.blocks
//@endfn
//@fn src/disk/d64.rs Disk for D64::set_disk_format
//@ret r
//@spec
    ensures final(self).format == disk_format, final(self).header == old(self).header, final(self).bam == old(self).bam
//@endfn
//@fn src/disk/d64.rs Disk for D64::set_header
//@ret r
//@spec
    ensures final(self).header == header, final(self).format == old(self).format, final(self).bam == old(self).bam
//@endfn
//@fn src/disk/mod.rs Disk::iter
//@ret r
//@sig /&self/ => &self, hb: &ImageBlockDevice
//@sub /DirectoryIterator::new\(self\)/ => DirectoryIterator::new(self, hb)
//@spec
    requires hb.wf()
    ensures
        self.format.is_some() && self.header.is_some() ==> dir_at(hb, &r, dir_start(self), disk_border(self), Seq::empty(), false, 0),
        self.format.is_none() || self.header.is_none() ==> r.error.is_some() && (r.error->Some_0).e == DiskError::Unformatted,
//@endfn
}
impl DirectoryIterator {
//@fn src/disk/directory.rs DirectoryIterator::new
//@ret r
//@sig /new<T: Disk>\(disk: &T\)/ => new(disk: &D64, hb: &ImageBlockDevice)
//@sig /\bwhere\s+T: \?Sized,?/ =>
//@sub /disk\.blocks_ref\(\)/ => hb
//@sub /iter::once\((\w+)\.map\(\|(\w+)\| (ChainSector \{.*?\})\)\)/ => (match \1 { Ok(\2) => Ok(\3), Err(e_) => Err(e_) })
//@sub /Box::new\(chain\.chain\((\w+)\)\)/ => DirectoryBlockIterator { chain: chain, tail: Some(\1) }
//@sub /Box::new\(chain\)/ => DirectoryBlockIterator { chain: chain, tail: None }
//@sub /vec!\[\]\.into_iter\(\)/ => Chunks::empty()
//@spec
    requires hb.wf()
    ensures
        disk.format.is_some() && disk.header.is_some() ==> dir_at(hb, &r, dir_start(disk), disk_border(disk), Seq::empty(), false, 0),
        disk.format.is_none() || disk.header.is_none() ==> r.error.is_some() && (r.error->Some_0).e == DiskError::Unformatted,
//@start
    reveal(dir_at);
//@endfn
//@fn src/disk/directory.rs DirectoryIterator::new_error
//@ret r
//@sig /new_error<T: Disk>\(_disk: &T,/ => new_error(_disk: &D64,
//@sig /\bwhere\s+T: \?Sized,?/ =>
//@sub /Box::new\(iter::empty\(\)\)/ => DirectoryBlockIterator::none()
//@sub /vec!\[\]\.into_iter\(\)/ => Chunks::empty()
//@spec
    ensures r.error == Some(error)
//@endfn
//@fn src/disk/directory.rs Iterator for DirectoryIterator::next
//@ret r
//@sig /&mut self/ => &mut self, hb: &ImageBlockDevice, Ghost(start): Ghost<Location>, Ghost(border): Ghost<Option<Location>>, Ghost(ls): Ghost<Seq<Location>>, Ghost(done): Ghost<bool>, Ghost(seen): Ghost<int>
//@sub /self\.block_iter\.next\(\)/ => self.block_iter.next(hb)
//@sub /let mut (\w+): Vec<Vec<u8>> = vec!\[\];\s*for (\w+) in (block\.data)\.chunks\(ENTRY_SIZE\) \{\s*\1\.push\(\2\.to_vec\(\)\);\s*\}\s*self\.chunks = \1\.into_iter\(\);/ => self.chunks = Chunks { v: split32(&\3) };
//@spec
    requires hb.wf(), old(self).error.is_some() || dir_at(hb, old(self), start, border, ls, done, seen)
    ensures
        old(self).error.is_some() ==> r.is_some() && r->Some_0.is_err() && r->Some_0->Err_0 == old(self).error->Some_0,
        old(self).error.is_none() ==> match r {
            None => exists|ls2: Seq<Location>, done2: bool| #[trigger] passed(hb, start, border, ls, done, seen, ls2, done2, slots(hb, ls2, done2, border).len() as int)
                && dir_chain(hb, start, border, ls2) && done2 == border.is_some(),
            Some(Ok(e)) => exists|ls2: Seq<Location>, done2: bool, k: int| #[trigger] passed(hb, start, border, ls, done, seen, ls2, done2, k)
                && dir_at(hb, final(self), start, border, ls2, done2, k + 1) && entry_at(hb, &e, slots(hb, ls2, done2, border)[k], border) && live(hb, slots(hb, ls2, done2, border)[k]),
            Some(Err(x)) => no_dir(hb, start, border) && x.e != DiskError::NotFound,
        },
//@start
    hide(walk); hide(before); hide(dir_slots); hide(content);
    let ghost mut w = ls;
    let ghost mut dn = done;
    let ghost mut k = seen;
    proof { reveal(dir_at); if old(self).error.is_none() { assert(slots(hb, ls, done, border).take(slots(hb, ls, done, border).len() as int) =~= slots(hb, ls, done, border)); } }
//@loop 1
    invariant
        hb.wf(), old(self).error.is_none(), self.error.is_none(), dir_at(hb, self, start, border, w, dn, k), passed(hb, start, border, ls, done, seen, w, dn, k),
    decreases before(hb.geometry.track_layouts@, hb.geometry.tracks + 1) - w.len(), (if dn { 0int } else { 1 }), self.chunks.v@.len(),
//@loopstart 1
    let ghost it0 = *self;
    let ghost mut k0 = k;
    let ghost mut nx = self.block_iter.chain.next_sector;
    proof { if self.chunks.v@.len() == 0 { lemma_dir_drained(hb, self, start, border, w, dn, k); if let Some(l) = nx { lemma_next(hb, start, w, l); assert(set_of(w).contains(l) == w.contains(l)); } } }
//@before /chunk\.len\(\)/
    proof { if chunk@.len() != 32 { lemma_dir_partial(hb, &it0, self, start, border, w, dn, k); } }
//@before /is_scratched\(\)/
    proof { lemma_dir_skip(hb, &it0, self, start, border, w, dn, k); k = k + 1; }
//@loopend 1
    proof {
        if let Some(l) = nx {
            hb.lemma_off(l);
            lemma_split(hb, l, used(hb.sec(l)), self.chunks.v@);
            lemma_dir_block(hb, &it0, self, start, border, w, dn, k, l);
            lemma_passed_more(hb, start, border, ls, done, seen, w, dn, k, w.push(l), dn, slots_in(l, used(hb.sec(l)) / 32));
            w = w.push(l);
        } else {
            let l = border->Some_0;
            hb.lemma_off(l);
            assert(hb.sec(l).take(256) =~= hb.sec(l));
            lemma_split(hb, l, 256, self.chunks.v@);
            lemma_dir_border(hb, &it0, self, start, border, w, dn, k, l);
            lemma_passed_more(hb, start, border, ls, done, seen, w, dn, k, w, true, slots_in(l, 8));
            dn = true;
        }
    }
//@endfn
}
/// slot k is the first of the listed slots that holds an entry of this name
pub open spec fn first_named(dev: &ImageBlockDevice, start: Location, border: Option<Location>, name: Seq<u8>, ls: Seq<Location>, done: bool, k: int) -> bool {
    let all = slots(dev, ls, done, border);
    &&& walk(dev, start, ls) && 0 <= k < all.len() && named(dev, all[k], name)
    &&& forall|j: int| 0 <= j < k ==> !named(dev, #[trigger] all[j], name)
}
/// e is the first entry of this name
pub open spec fn lookup(dev: &ImageBlockDevice, start: Location, border: Option<Location>, name: Seq<u8>, e: &DirectoryEntry) -> bool {
    exists|ls: Seq<Location>, done: bool, k: int| #[trigger] first_named(dev, start, border, name, ls, done, k) && entry_at(dev, e, slots(dev, ls, done, border)[k], border)
}
/// the directory is intact, and none of its entries has this name
pub open spec fn absent(dev: &ImageBlockDevice, start: Location, border: Option<Location>, name: Seq<u8>) -> bool {
    exists|ls: Seq<Location>| #[trigger] dir_chain(dev, start, border, ls) && forall|j: int| 0 <= j < all_slots(dev, ls, border).len() ==> !named(dev, #[trigger] all_slots(dev, ls, border)[j], name)
}
pub proof fn lemma_slots_bound(dev: &ImageBlockDevice, ls: Seq<Location>, done: bool, border: Option<Location>)
    requires dev.wf(), forall|k: int| 0 <= k < ls.len() ==> dev.valid(#[trigger] ls[k])
    ensures slots(dev, ls, done, border).len() <= 8 * ls.len() + 8
    decreases ls.len()
{
    if ls.len() > 0 {
        assert forall|k: int| 0 <= k < ls.drop_last().len() implies dev.valid(#[trigger] ls.drop_last()[k]) by { assert(ls.drop_last()[k] == ls[k]); }
        lemma_slots_bound(dev, ls.drop_last(), false, border);
        lemma_used_bound(dev, ls.last());
        assert(slots(dev, ls.drop_last(), false, border) =~= dir_slots(dev, ls.drop_last()));
        lemma_dir_slots_bound(dev, ls);
    }
}
pub proof fn lemma_used_bound(dev: &ImageBlockDevice, l: Location)
    ensures 0 <= used(dev.sec(l)) <= 256
{ }
pub proof fn lemma_dir_slots_bound(dev: &ImageBlockDevice, ls: Seq<Location>)
    ensures dir_slots(dev, ls).len() <= 8 * ls.len()
    decreases ls.len()
{
    if ls.len() > 0 { lemma_dir_slots_bound(dev, ls.drop_last()); lemma_used_bound(dev, ls.last()); }
}
/// what was looked at before is the beginning of what has been looked at now
pub proof fn lemma_seen(dev: &ImageBlockDevice, start: Location, border: Option<Location>, name: Seq<u8>, w: Seq<Location>, dn: bool, k: int, w2: Seq<Location>, dn2: bool, k2: int)
    requires
        passed(dev, start, border, w, dn, k, w2, dn2, k2), 0 <= k <= slots(dev, w, dn, border).len(),
        forall|j: int| 0 <= j < k ==> !named(dev, #[trigger] slots(dev, w, dn, border)[j], name),
    ensures forall|j: int| 0 <= j < k2 ==> !named(dev, #[trigger] slots(dev, w2, dn2, border)[j], name)
{
    let (a, b) = (slots(dev, w, dn, border), slots(dev, w2, dn2, border));
    assert forall|j: int| 0 <= j < k2 implies !named(dev, #[trigger] b[j], name) by {
        if j < k { assert(b[j] == b.take(a.len() as int)[j]); assert(b[j] == a[j]); } else { assert(!live(dev, b[j])); }
    }
}
// ---------------------------------------------------------------- renaming

pub open spec fn padded_name(name: Seq<u8>) -> Seq<u8> { Seq::new(16, |k: int| if k < name.len() { name[k] } else { 0xA0u8 }) }
pub open spec fn with_name(b: Seq<u8>, name: Seq<u8>) -> Seq<u8> { splice(b, 5, 16, padded_name(name)) }
pub proof fn lemma_rename(e: &DirectoryEntry, e2: &DirectoryEntry, b: Seq<u8>, c: Seq<u8>)
    requires
        decodes(e, b), encodes(e2, c), c.take(2) == b.take(2), e2.filename@.len() <= 16,
        e2.file_attributes == e.file_attributes, e2.first_sector == e.first_sector, e2.file_size == e.file_size, e2.extra == e.extra,
    ensures c == with_name(b, e2.filename@)
{
    let c0 = splice(c, 5, 16, b.subrange(5, 21));
    lemma_strip_prefix(b.subrange(5, 21), 0xA0);
    assert(c0.subrange(5, 21) =~= b.subrange(5, 21));
    assert(c0.subrange(21, 30) =~= c.subrange(21, 30));
    assert(encodes(e, c0));
    lemma_entry_roundtrip(e, b, c0);
    let w = with_name(b, e2.filename@);
    assert forall|k: int| 0 <= k < 32 implies c[k] == w[k] by {
        if k < 2 { assert(c.take(2)[k] == c[k]); assert(b.take(2)[k] == b[k]); }
        else if 5 <= k < 21 {
            assert(c.subrange(5, 21)[k - 5] == c[k]);
            if k - 5 < e2.filename@.len() { assert(c.subrange(5, 21).take(e2.filename@.len() as int)[k - 5] == e2.filename@[k - 5]); }
        } else { assert(c0.skip(2)[k - 2] == b.skip(2)[k - 2]); assert(c0[k] == c[k]); }
    }
    assert(c =~= w);
}
/// slot p has a new name; nothing else differs
pub open spec fn name_replaced(o: &ImageBlockDevice, f: &ImageBlockDevice, p: Position, name: Seq<u8>) -> bool {
    sector_replaced(o, f, p.location, with_slot(o.sec(p.location), p, with_name(slot(o, p), name)))
}
/// the first entry called `from` is now called `to`; no entry was called `to`
pub open spec fn renamed(o: &ImageBlockDevice, f: &ImageBlockDevice, start: Location, border: Option<Location>, from: Seq<u8>, to: Seq<u8>) -> bool {
    &&& absent(o, start, border, to) && to.len() <= 16
    &&& exists|ls: Seq<Location>, done: bool, k: int| #[trigger] first_named(o, start, border, from, ls, done, k) && name_replaced(o, f, slots(o, ls, done, border)[k], to)
}
/// P11: every other slot is as before, the renamed one is found under its new name, and the directory is the same sectors
pub proof fn lemma_renamed(o: &ImageBlockDevice, f: &ImageBlockDevice, p: Position, name: Seq<u8>)
    requires o.wf(), wf_pos(o, p), p.offset % 32 == 0, name_replaced(o, f, p, name), name.len() <= 16, name.len() > 0 ==> name.last() != 0xA0
    ensures
        name_at(f, p) == name, live(f, p) == live(o, p), slot(f, p) == with_name(slot(o, p), name),
        forall|q: Position| #[trigger] wf_pos(o, q) && q.offset % 32 == 0 && (q.location != p.location || q.offset != p.offset) ==> slot(f, q) == slot(o, q),
        forall|l: Location| #[trigger] o.valid(l) ==> f.sec(l).take(2) == o.sec(l).take(2),
{
    o.lemma_off(p.location);
    let s = o.sec(p.location);
    let n = with_name(slot(o, p), name);
    assert(n.len() == 32);
    assert(slot(f, p) =~= n);
    assert(n.subrange(5, 21) =~= padded_name(name));
    assert(padded_name(name).take(name.len() as int) =~= name);
    lemma_padded_roundtrip(padded_name(name), name, 0xA0);
    assert forall|q: Position| #[trigger] wf_pos(o, q) && q.offset % 32 == 0 && (q.location != p.location || q.offset != p.offset) implies slot(f, q) == slot(o, q) by {
        assert(o.valid(q.location));
        o.lemma_off(q.location);
        assert(slot(f, q) =~= slot(o, q));
    }
    assert forall|l: Location| #[trigger] o.valid(l) implies f.sec(l).take(2) == o.sec(l).take(2) by {
        o.lemma_off(l);
        if l == p.location { assert(f.sec(l).take(2) =~= o.sec(l).take(2)); }
    }
}
/// the slots from `seen` up to k are all scratched
pub open spec fn passed(dev: &ImageBlockDevice, start: Location, border: Option<Location>, ls: Seq<Location>, done: bool, seen: int, ls2: Seq<Location>, done2: bool, k: int) -> bool {
    let (a, b) = (slots(dev, ls, done, border), slots(dev, ls2, done2, border));
    &&& prefix(a, b) && walk(dev, start, ls2) && seen <= k <= b.len()
    &&& forall|j: int| seen <= j < k ==> !live(dev, #[trigger] b[j])
}
/// slice::chunks(32), each piece as a vector
#[verifier::external_body]
pub fn split32(v: &Vec<u8>) -> (r: Vec<Vec<u8>>)
    ensures
        r@.len() == (v@.len() + 31) / 32,
        forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k])@ == v@.subrange(32 * k, if 32 * k + 32 <= v@.len() { 32 * k + 32 } else { v@.len() as int }),
{ v.chunks(32).map(|c| c.to_vec()).collect() }
//@props P07 P08 P11 P12
//@fn src/disk/directory.rs check_filename_validity
//@ret r
//@spec
    ensures r.is_ok() <==> filename@.len() <= 16, r.is_err() ==> r->Err_0.e == DiskError::FilenameTooLong
//@endfn
impl D64 {
//@fn src/disk/mod.rs Disk::find_directory_entry
//@ret r
//@sig /&self/ => &self, hb: &ImageBlockDevice
//@sub /self\s*\.iter\(\)\s*\.find\(\|(\w+)\|\s*(match \1 \{.*?\})\s*\)\s*\.unwrap_or_else\(\|\| (Err\(.*?\))\)\s*\}/ => let mut it_ = self.iter(hb); loop { let x_ = it_.next(hb, Ghost(start), Ghost(border), Ghost(w), Ghost(dn), Ghost(k)); match x_ { None => { return \3; } Some(v_) => { let hit_ = { let \1 = &v_; \2 }; if hit_ { return v_; } } } } }
//@spec
    requires hb.wf()
    ensures
        self.format.is_none() || self.header.is_none() ==> is_err(r, DiskError::Unformatted),
        self.format.is_some() && self.header.is_some() ==> match r {
            Ok(e) => lookup(hb, dir_start(self), disk_border(self), filename@, &e), // [P11]
            Err(x) => if x.e == DiskError::NotFound { absent(hb, dir_start(self), disk_border(self), filename@) } else { no_dir(hb, dir_start(self), disk_border(self)) },
        },
//@start
    hide(walk); hide(before); hide(dir_slots); hide(content); hide(decodes);
    let ghost start = dir_start(self);
    let ghost border = disk_border(self);
    let ghost ok = self.format.is_some() && self.header.is_some();
    let ghost mut w: Seq<Location> = Seq::empty();
    let ghost mut dn = false;
    let ghost mut k: int = 0;
    proof { assert(walk(hb, start, w)) by { reveal(walk); } }
//@beforeloop 1
    proof { if ok { lemma_dir_facts(hb, &it_, start, border, w, dn, k); } }
//@loop 1
    invariant
        hb.wf(), ok == (self.format.is_some() && self.header.is_some()), start == dir_start(self), border == disk_border(self),
        !ok ==> it_.error.is_some() && (it_.error->Some_0).e == DiskError::Unformatted,
        ok ==> it_.error.is_none() && dir_at(hb, &it_, start, border, w, dn, k),
        walk(hb, start, w), 0 <= k <= slots(hb, w, dn, border).len(),
        forall|j: int| 0 <= j < k ==> !named(hb, #[trigger] slots(hb, w, dn, border)[j], filename@),
    decreases 8 * before(hb.geometry.track_layouts@, hb.geometry.tracks + 1) + 8 - k
//@after /let x_ =/
    let ghost mut k1 = k;
    proof {
        if ok {
            match x_ {
                None => {
                    let (w2, d2) = choose|w2: Seq<Location>, d2: bool| #[trigger] passed(hb, start, border, w, dn, k, w2, d2, slots(hb, w2, d2, border).len() as int) && dir_chain(hb, start, border, w2) && d2 == border.is_some();
                    lemma_seen(hb, start, border, filename@, w, dn, k, w2, d2, slots(hb, w2, d2, border).len() as int);
                    assert(slots(hb, w2, d2, border) =~= all_slots(hb, w2, border));
                    assert(absent(hb, start, border, filename@));
                },
                Some(Ok(_)) => {
                    let e = x_->Some_0->Ok_0;
                    let (w2, d2, k2) = choose|w2: Seq<Location>, d2: bool, k2: int| #[trigger] passed(hb, start, border, w, dn, k, w2, d2, k2) && dir_at(hb, &it_, start, border, w2, d2, k2 + 1)
                        && entry_at(hb, &e, slots(hb, w2, d2, border)[k2], border) && live(hb, slots(hb, w2, d2, border)[k2]);
                    lemma_seen(hb, start, border, filename@, w, dn, k, w2, d2, k2);
                    lemma_dir_facts(hb, &it_, start, border, w2, d2, k2 + 1);
                    assert(e.filename@ == name_at(hb, slots(hb, w2, d2, border)[k2])) by { reveal(decodes); }
                    if e.filename@ == filename@ { assert(first_named(hb, start, border, filename@, w2, d2, k2)); }
                    w = w2; dn = d2; k1 = k2; k = k2 + 1;
                },
                Some(Err(_)) => {},
            }
        }
    }
//@endfn
//@fn src/disk/mod.rs Disk::check_filename_availability
//@ret r
//@sig /&self/ => &self, hb: &ImageBlockDevice
//@sub /self\.find_directory_entry\(filename\)/ => self.find_directory_entry(hb, filename)
//@spec
    requires hb.wf()
    ensures
        self.format.is_none() || self.header.is_none() ==> is_err(r, DiskError::Unformatted),
        self.format.is_some() && self.header.is_some() ==> match r {
            Ok(_) => absent(hb, dir_start(self), disk_border(self), filename@), // [P11]
            Err(x) => no_dir(hb, dir_start(self), disk_border(self)) || x.e == DiskError::FileExists && exists|e: DirectoryEntry| lookup(hb, dir_start(self), disk_border(self), filename@, &e),
        },
//@endfn
//@fn src/disk/mod.rs Disk::write_directory_entry
//@ret r
//@sig /&mut self/ => &mut self, hb: &mut ImageBlockDevice
//@sub /self\.blocks_ref_mut\(\)/ => (&mut *hb)
//@spec
    requires old(hb).wf(), wf_entry(entry),
        entry.position.is_some() ==> (entry.position->Some_0).size == 32 && (entry.position->Some_0).offset + 32 <= 256
    ensures
        *final(self) == *old(self),
        r.is_ok() <==> entry.position.is_some() && old(hb).writable() && old(hb).valid((entry.position->Some_0).location),
        r.is_err() ==> final(hb).image == old(hb).image && final(hb).geometry == old(hb).geometry,
        r.is_ok() ==> slot_written(old(hb), final(hb), entry),
//@endfn
//@fn src/disk/mod.rs Disk::rename
//@ret r
//@sig /&mut self/ => &mut self, hb: &mut ImageBlockDevice
//@sub? /directory::check_filename_validity/ => check_filename_validity
//@sub /self\.find_directory_entry\((\w+)\)/ => self.find_directory_entry(&*hb, \1)
//@sub /self\.check_filename_availability\((\w+)\)/ => self.check_filename_availability(&*hb, \1)
//@sub /self\.write_directory_entry\((&?\w+)\)/ => ({ let r_ = self.write_directory_entry(hb, \1); proof { if r_.is_ok() { lemma_rename(&e0, \1, slot(h0, p), slot(hb, p)); assert(name_replaced(h0, hb, p, new_filename@)); } } r_ })
//@spec
    requires old(hb).wf()
    ensures
        *final(self) == *old(self),
        r.is_ok() ==> old(self).format.is_some() && old(self).header.is_some() && renamed(old(hb), final(hb), dir_start(old(self)), disk_border(old(self)), original_filename@, new_filename@), // [P11]
        r.is_err() ==> final(hb).image == old(hb).image && final(hb).geometry == old(hb).geometry, // [P11]
        !old(hb).writable() ==> r.is_err(),
//@start
    hide(walk); hide(before); hide(dir_slots); hide(content);
    let ghost h0 = &*hb;
    let ghost mut p = Position { location: Location(0, 0), offset: 0, size: 0 };
    let ghost mut e0: DirectoryEntry = arbitrary();
//@after /let mut entry =/
    proof { e0 = entry; p = entry.position->Some_0; lemma_strip_prefix(slot(hb, p).subrange(5, 21), 0xA0); lemma_decoded_wf(&entry, slot(hb, p)); }
//@endfn
}
} // mod directory
pub use directory::*;
