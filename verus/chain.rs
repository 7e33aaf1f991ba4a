pub mod chain {
use super::*;
//@item src/disk/chain.rs enum ChainLink
//@item src/disk/chain.rs struct ChainSector
//@item src/disk/chain.rs struct ChainIterator
//@item src/disk/chain.rs struct ChainReader

/// std::collections::HashSet, as a set of sector addresses
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashSet<T> { s: Vec<T> }
impl HashSet<Location> {
    pub uninterp spec fn view(&self) -> Set<Location>;
    #[verifier::external_body]
    pub fn new() -> (r: HashSet<Location>)
        ensures r@ == Set::<Location>::empty()
    { HashSet { s: Vec::new() } }
    #[verifier::external_body]
    pub fn insert(&mut self, l: Location) -> (r: bool)
        ensures final(self)@ == old(self)@.insert(l), r == !old(self)@.contains(l)
    { if self.s.contains(&l) { false } else { self.s.push(l); true } }
    #[verifier::external_body]
    pub fn contains(&self, l: &Location) -> (r: bool)
        ensures r == self@.contains(*l)
    { self.s.contains(l) }
}

// ---------------------------------------------------------------- links

/// the link in the first two bytes of a sector; None when it is invalid
pub open spec fn link(b: Seq<u8>) -> Option<ChainLink> {
    if b[0] == 0 { if b[1] == 0 { None } else { Some(ChainLink::Tail((b[1] + 1) as usize)) } }
    else { Some(ChainLink::Next(Location(b[0], b[1]))) }
}
/// used bytes of a sector
pub open spec fn used(b: Seq<u8>) -> int {
    match link(b) { Some(ChainLink::Tail(n)) => n as int, _ => 256 }
}
pub open spec fn link_next(b: Seq<u8>) -> Option<Location> {
    match link(b) { Some(ChainLink::Next(l)) => Some(l), _ => None }
}
pub open spec fn payload(b: Seq<u8>) -> Seq<u8> { b.subrange(2, used(b)) }

//@props P06 P22 P12
impl ChainLink {
//@fn src/disk/chain.rs ChainLink::new
//@ret r
//@spec
    requires block@.len() >= 2
    ensures
        r.is_ok() <==> link(block@).is_some(),
        r.is_ok() ==> Some(r->Ok_0) == link(block@),
        r.is_err() ==> r->Err_0.e == DiskError::InvalidChainLink,
//@endfn
//@fn src/disk/chain.rs ChainLink::to_bytes
//@ret r
//@spec
    requires old(bytes)@.len() >= 2, (*self) is Tail ==> 2 <= (*self)->Tail_0 <= 256
    ensures
        (*self) is Tail ==> final(bytes)@ == old(bytes)@.update(0, 0).update(1, ((*self)->Tail_0 - 1) as u8),
        (*self) is Next ==> final(bytes)@ == old(bytes)@.update(0, (*self)->Next_0.0).update(1, (*self)->Next_0.1),
//@endfn
}

// ---------------------------------------------------------------- walks and chains

/// ls are the first sectors of the chain that starts at start: existing, all different, each linked to the next
pub open spec fn walk(dev: &ImageBlockDevice, start: Location, ls: Seq<Location>) -> bool {
    &&& ls.len() > 0 ==> ls[0] == start
    &&& forall|k: int| 0 <= k < ls.len() ==> dev.valid(#[trigger] ls[k]) && link(dev.sec(ls[k])).is_some()
    &&& forall|j: int, k: int| 0 <= j < k < ls.len() ==> #[trigger] ls[j] != #[trigger] ls[k]
    &&& forall|k: int| 0 <= k < ls.len() - 1 ==> link_next(#[trigger] dev.sec(ls[k])) == Some(ls[k + 1])
}
/// where the walk goes on
pub open spec fn next_of(dev: &ImageBlockDevice, start: Location, ls: Seq<Location>) -> Option<Location> {
    if ls.len() == 0 { Some(start) } else { link_next(dev.sec(ls.last())) }
}
/// ls is the whole chain
pub open spec fn chain(dev: &ImageBlockDevice, start: Location, ls: Seq<Location>) -> bool {
    walk(dev, start, ls) && ls.len() > 0 && next_of(dev, start, ls).is_none()
}
/// the data bytes of the sectors ls
pub open spec fn content(dev: &ImageBlockDevice, ls: Seq<Location>) -> Seq<u8>
    decreases ls.len()
{
    if ls.len() == 0 { Seq::empty() } else { content(dev, ls.drop_last()) + payload(dev.sec(ls.last())) }
}
pub open spec fn set_of(ls: Seq<Location>) -> Set<Location> { ls.to_set() }

/// walks from the same start are prefixes of each other
pub proof fn lemma_walk_prefix(dev: &ImageBlockDevice, start: Location, a: Seq<Location>, b: Seq<Location>, n: int)
    requires walk(dev, start, a), walk(dev, start, b), 0 <= n <= a.len(), n <= b.len()
    ensures a.take(n) == b.take(n)
    decreases n
{
    if n > 0 {
        lemma_walk_prefix(dev, start, a, b, n - 1);
        if n > 1 {
            assert(a[n - 2] == a.take(n - 1)[n - 2]);
            assert(b[n - 2] == b.take(n - 1)[n - 2]);
            assert(link_next(dev.sec(a[n - 2])) == Some(a[n - 2 + 1]));
            assert(link_next(dev.sec(b[n - 2])) == Some(b[n - 2 + 1]));
        }
        assert forall|k: int| 0 <= k < n implies a.take(n)[k] == b.take(n)[k] by {
            if k < n - 1 { assert(a.take(n - 1)[k] == b.take(n - 1)[k]); }
        }
    }
    assert(a.take(n) =~= b.take(n));
}
/// P22: a walk is a prefix of the chain, and the chain is unique
pub proof fn lemma_walk_of_chain(dev: &ImageBlockDevice, start: Location, w: Seq<Location>, c: Seq<Location>)
    requires walk(dev, start, w), chain(dev, start, c)
    ensures w.len() <= c.len(), w == c.take(w.len() as int), w.len() == c.len() ==> w == c,
        next_of(dev, start, w).is_none() ==> w == c,
        w.len() < c.len() ==> next_of(dev, start, w) == Some(c[w.len() as int]),
{
    if w.len() > c.len() {
        lemma_walk_prefix(dev, start, w, c, c.len() as int);
        let n = c.len() as int;
        assert(w.take(n)[n - 1] == c.take(n)[n - 1]);
        assert(link_next(dev.sec(w[n - 1])) == Some(w[n - 1 + 1]));
        assert(false);
    }
    let n = w.len() as int;
    lemma_walk_prefix(dev, start, w, c, n);
    assert(w.take(n) =~= w);
    if n == c.len() { assert(c.take(n) =~= c); }
    if 0 < n < c.len() {
        assert(w.last() == c.take(n)[n - 1]);
        assert(link_next(dev.sec(c[n - 1])) == Some(c[n - 1 + 1]));
    }
}
/// if the walk cannot go on at l, there is no chain
pub proof fn lemma_stuck(dev: &ImageBlockDevice, start: Location, w: Seq<Location>, l: Location)
    requires walk(dev, start, w), next_of(dev, start, w) == Some(l), w.contains(l) || !dev.valid(l) || link(dev.sec(l)).is_none()
    ensures forall|c: Seq<Location>| !chain(dev, start, c)
{
    assert forall|c: Seq<Location>| !chain(dev, start, c) by {
        if chain(dev, start, c) {
            lemma_walk_of_chain(dev, start, w, c);
            if w.len() == c.len() { assert(false); }
            let n = w.len() as int;
            assert(c[n] == l);
            if w.contains(l) {
                let i = choose|i: int| 0 <= i < w.len() && w[i] == l;
                assert(c.take(n)[i] == c[i]);
                assert(c[i] == c[n]);
            }
        }
    }
}
pub proof fn lemma_walk_push(dev: &ImageBlockDevice, start: Location, w: Seq<Location>, l: Location)
    requires walk(dev, start, w), next_of(dev, start, w) == Some(l), !w.contains(l), dev.valid(l), link(dev.sec(l)).is_some()
    ensures walk(dev, start, w.push(l)), next_of(dev, start, w.push(l)) == link_next(dev.sec(l)),
        content(dev, w.push(l)) == content(dev, w) + payload(dev.sec(l)),
        set_of(w.push(l)) =~= set_of(w).insert(l),
{
    let v = w.push(l);
    assert forall|j: int, k: int| 0 <= j < k < v.len() implies #[trigger] v[j] != #[trigger] v[k] by {
        if k == w.len() { assert(v[j] == w[j]); assert(w.contains(w[j])); }
    }
    assert forall|k: int| 0 <= k < v.len() - 1 implies link_next(#[trigger] dev.sec(v[k])) == Some(v[k + 1]) by {
        if k == w.len() - 1 { assert(w.last() == v[k]); } else { assert(link_next(dev.sec(w[k])) == Some(w[k + 1])); }
    }
    assert(v.drop_last() =~= w);
    lemma_set_push(w, l);
}
pub proof fn lemma_set_push(w: Seq<Location>, l: Location)
    ensures set_of(w.push(l)) == set_of(w).insert(l), forall|x: Location| #[trigger] set_of(w).contains(x) <==> w.contains(x)
{
    assert forall|x: Location| set_of(w.push(l)).contains(x) == set_of(w).insert(l).contains(x) by { lemma_push_contains(w, l, x); }
    assert(set_of(w.push(l)) =~= set_of(w).insert(l));
}
/// a walk has no more sectors than the disk
pub proof fn lemma_walk_bound(dev: &ImageBlockDevice, start: Location, ls: Seq<Location>)
    requires dev.wf(), walk(dev, start, ls)
    ensures ls.len() <= before(dev.geometry.track_layouts@, dev.geometry.tracks + 1)
{
    let l = dev.geometry.track_layouts@;
    let n = before(l, dev.geometry.tracks + 1);
    lemma_before_nonneg(l, dev.geometry.tracks as int, dev.geometry.tracks + 1);
    let s = Seq::new(ls.len(), |k: int| sector_no(l, ls[k]));
    assert forall|j: int, k: int| 0 <= j < k < s.len() implies s[j] != s[k] by {
        assert(ls[j] != ls[k]);
        lemma_sector_no(l, dev.geometry.tracks as int, ls[j], ls[k]);
    }
    assert(s.no_duplicates());
    s.unique_seq_to_set();
    vstd::set_lib::lemma_int_range(0, n);
    assert(s.to_set().subset_of(vstd::set_lib::set_int_range(0, n))) by {
        assert forall|x: int| s.to_set().contains(x) implies vstd::set_lib::set_int_range(0, n).contains(x) by {
            let k = choose|k: int| 0 <= k < s.len() && s[k] == x;
            lemma_sector_no(l, dev.geometry.tracks as int, ls[k], ls[k]);
        }
    }
    vstd::set_lib::lemma_len_subset(s.to_set(), vstd::set_lib::set_int_range(0, n));
}

// ---------------------------------------------------------------- iteration

/// the iterator has yielded the sectors ls of the chain at start
pub open spec fn iter_at(dev: &ImageBlockDevice, it: &ChainIterator, start: Location, ls: Seq<Location>) -> bool {
    walk(dev, start, ls) && it.visited_sectors@ == set_of(ls) && it.next_sector == next_of(dev, start, ls)
}
/// what a sector is yielded as
pub open spec fn is_sector(dev: &ImageBlockDevice, cs: &ChainSector, l: Location) -> bool {
    cs.location == l && cs.data@ == dev.sec(l).take(used(dev.sec(l)))
}

/// P22 for one step, in terms of the walk so far
pub proof fn lemma_next(dev: &ImageBlockDevice, start: Location, ls: Seq<Location>, l: Location)
    requires dev.wf(), walk(dev, start, ls), next_of(dev, start, ls) == Some(l)
    ensures
        ({ let ok = !ls.contains(l) && dev.valid(l) && link(dev.sec(l)).is_some();
        &&& ok ==> walk(dev, start, ls.push(l)) && next_of(dev, start, ls.push(l)) == link_next(dev.sec(l)) && set_of(ls.push(l)) == set_of(ls).insert(l)
            && content(dev, ls.push(l)) == content(dev, ls) + payload(dev.sec(l)) && ls.len() < before(dev.geometry.track_layouts@, dev.geometry.tracks + 1)
        &&& !ok ==> forall|c: Seq<Location>| !chain(dev, start, c) })
{
    if !ls.contains(l) && dev.valid(l) && link(dev.sec(l)).is_some() {
        lemma_walk_push(dev, start, ls, l);
        lemma_walk_bound(dev, start, ls.push(l));
    } else {
        lemma_stuck(dev, start, ls, l);
    }
}

impl ChainIterator {
//@props P06 P12 P22
//@fn src/disk/chain.rs ChainIterator::new
//@ret r
//@spec
    ensures r.next_sector == Some(starting_sector), r.visited_sectors@ == Set::<Location>::empty(),
        forall|dev: &ImageBlockDevice| iter_at(dev, &r, starting_sector, Seq::empty()),
//@end
    proof { assert(set_of(Seq::empty()) =~= Set::<Location>::empty()); }
//@endfn
//@fn src/disk/chain.rs Iterator for ChainIterator::next
//@ret r
//@sig /&mut self/ => &mut self, hb: &ImageBlockDevice
//@sig /Self::Item/ => io::Result<ChainSector>
//@sub /self\.blocks\.borrow\(\)/ => (&*hb)
//@sub? /(block)\.to_vec\(\)/ => ({ let v_ = \1.to_vec(); assert(v_@ =~= \1@); v_ })
//@spec
    requires hb.wf()
    ensures
        old(self).next_sector.is_none() ==> r.is_none() && *final(self) == *old(self),
        old(self).next_sector.is_some() ==> r.is_some() && ({
            let l = old(self).next_sector->Some_0;
            let x = r->Some_0;
            if old(self).visited_sectors@.contains(l) { is_err(x, DiskError::ChainLoop) && final(self).next_sector.is_none() }
            else if !hb.valid(l) { is_err(x, DiskError::InvalidLocation) && final(self).next_sector.is_none() }
            else if link(hb.sec(l)).is_none() { is_err(x, DiskError::InvalidChainLink) && final(self).next_sector.is_none() }
            else {
                &&& x.is_ok() && is_sector(hb, &x->Ok_0, l)
                &&& final(self).next_sector == link_next(hb.sec(l))
                &&& final(self).visited_sectors@ == old(self).visited_sectors@.insert(l)
            }
        }),
//@endfn
//@props P07 P09 P12 P15 P22
//@fn src/disk/chain.rs ChainIterator::locations
//@ret r
//@sig /\(self\)/ => (self, hb: &ImageBlockDevice, Ghost(start): Ghost<Location>)
//@sub /self\.map\(\|(\w+)\| \1\.map\(\|(\w+)\| ([^()]*)\)\)\.collect\(\)/ => let mut it_ = self; let mut out_: Vec<Location> = Vec::new(); loop { match it_.next(hb) { None => { break; } Some(Ok(\2)) => { out_.push(\3); } Some(Err(e_)) => { return Err(e_); } } } Ok(out_)
//@spec
    requires hb.wf(), iter_at(hb, &self, start, Seq::empty())
    ensures
        r.is_ok() ==> chain(hb, start, r->Ok_0@),
        r.is_err() ==> forall|c: Seq<Location>| !chain(hb, start, c),
//@loop 1
    invariant hb.wf(), iter_at(hb, &it_, start, out_@)
    ensures it_.next_sector.is_none()
    decreases before(hb.geometry.track_layouts@, hb.geometry.tracks + 1) - out_@.len()
//@loopstart 1
    proof {
        lemma_walk_bound(hb, start, out_@);
        if let Some(l) = it_.next_sector { lemma_next(hb, start, out_@, l); }
    }
//@endfn
}

// ---------------------------------------------------------------- reading

pub open spec fn unread(rd: &ChainReader) -> Seq<u8> { match rd.block { Some(b) => b@, None => Seq::empty() } }
/// the reader has walked the sectors ls; what it has not delivered of them is the end of the last one
pub open spec fn reader_at(dev: &ImageBlockDevice, rd: &ChainReader, start: Location, ls: Seq<Location>) -> bool {
    &&& iter_at(dev, &rd.chain, start, ls)
    &&& unread(rd).len() <= content(dev, ls).len()
    &&& content(dev, ls) == delivered(dev, rd, ls) + unread(rd)
    &&& rd.eof ==> rd.chain.next_sector.is_none() && unread(rd).len() == 0
}
pub open spec fn delivered(dev: &ImageBlockDevice, rd: &ChainReader, ls: Seq<Location>) -> Seq<u8> {
    content(dev, ls).take(content(dev, ls).len() - unread(rd).len())
}
/// P06: a reader that has come to the end has delivered the contents of the chain
pub proof fn lemma_read_all(dev: &ImageBlockDevice, rd: &ChainReader, start: Location, ls: Seq<Location>, c: Seq<Location>)
    requires reader_at(dev, rd, start, ls), chain(dev, start, c)
    ensures
        delivered(dev, rd, ls).len() <= content(dev, c).len(),
        delivered(dev, rd, ls) == content(dev, c).take(delivered(dev, rd, ls).len() as int),
        rd.eof ==> delivered(dev, rd, ls) == content(dev, c),
{
    lemma_walk_of_chain(dev, start, ls, c);
    lemma_content_prefix(dev, c, ls.len() as int);
    let d = delivered(dev, rd, ls);
    assert(d =~= content(dev, c).take(d.len() as int));
    if rd.eof { assert(d =~= content(dev, ls)); }
}
pub proof fn lemma_content_prefix(dev: &ImageBlockDevice, c: Seq<Location>, n: int)
    requires 0 <= n <= c.len()
    ensures content(dev, c.take(n)).len() <= content(dev, c).len(), content(dev, c.take(n)) == content(dev, c).take(content(dev, c.take(n)).len() as int)
    decreases c.len()
{
    if n == c.len() {
        assert(c.take(n) =~= c);
        assert(content(dev, c).take(content(dev, c).len() as int) =~= content(dev, c));
    } else {
        lemma_content_prefix(dev, c.drop_last(), n);
        assert(c.drop_last().take(n) =~= c.take(n));
        let p = content(dev, c.take(n)).len() as int;
        assert(content(dev, c).take(p) =~= content(dev, c.drop_last()).take(p));
    }
}

//@props P06 P12
impl ChainReader {
//@fn src/disk/chain.rs ChainReader::new
//@ret r
//@spec
    ensures !r.eof, forall|dev: &ImageBlockDevice| reader_at(dev, &r, start, Seq::empty()) && delivered(dev, &r, Seq::empty()) =~= Seq::<u8>::empty()
//@endfn
//@fn src/disk/chain.rs Read for ChainReader::read
//@ret r
//@sig /&mut self, mut buf: &mut \[u8\]/ => &mut self, hb: &ImageBlockDevice, Ghost(start): Ghost<Location>, Ghost(ls): Ghost<Seq<Location>>, buf_a: &mut [u8]
//@sub /self\.chain\.next\(\)/ => self.chain.next(hb)
//@sub? /let mut total_nbytes = 0;/ => let mut total_nbytes: usize = 0;
//@sub? /let buf_ref = &mut buf;\s*let value: &mut \[u8\] = std::mem::take\(buf_ref\);\s*\*buf_ref = &mut value\[(\w+)\.\.\];/ => let value_ = buf; buf = &mut value_[\1..]; assert((out + chunk) + final(buf)@ =~= out + after_borrow(value_)@); proof { out = out + chunk; }
//@sub? /let _ = &(\w+\[[^;]*?\]\.copy_from_slice\([^;]*\));/ => \1;
//@spec
    requires hb.wf(), reader_at(hb, old(self), start, ls), old(buf_a)@.len() <= 0x7fff_ffff
    ensures
        r.is_ok() ==> r->Ok_0 <= old(buf_a)@.len() && final(buf_a)@.len() == old(buf_a)@.len()
            && exists|ls2: Seq<Location>| #[trigger] reader_at(hb, final(self), start, ls2)
                && delivered(hb, final(self), ls2) == delivered(hb, old(self), ls) + final(buf_a)@.take(r->Ok_0 as int)
                && (r->Ok_0 < old(buf_a)@.len() ==> final(self).eof),
        r.is_err() ==> final(self).eof && forall|c: Seq<Location>| !chain(hb, start, c),
//@start
    let mut buf: &mut [u8] = &mut *buf_a;
    let ghost mut w = ls;
    let ghost mut out: Seq<u8> = Seq::empty();
    let ghost d0 = delivered(hb, self, ls);
    proof { assert(d0 + out =~= d0); }
//@loop 1
    invariant
        hb.wf(), reader_at(hb, self, start, w), delivered(hb, self, w) == d0 + out, d0 == delivered(hb, old(self), ls),
        out.len() == total_nbytes, total_nbytes + buf@.len() == old(buf_a)@.len(), old(buf_a)@.len() <= 0x7fff_ffff,
        after_borrow(buf_a)@ == out + final(buf)@,
    decreases before(hb.geometry.track_layouts@, hb.geometry.tracks + 1) - w.len(), buf@.len(), (if self.block.is_some() { 1int } else { 0 }) + (if self.eof { 0int } else { 1 }),
//@loopstart 1
    let ghost u0 = unread(self);
    let ghost b0 = self.block;
    let ghost nx = self.chain.next_sector;
    let ghost w0 = w;
    let ghost n = if u0.len() <= buf@.len() { u0.len() as int } else { buf@.len() as int };
    let ghost chunk = u0.take(n);
    proof {
        lemma_walk_bound(hb, start, w);
        lemma_deliver(content(hb, w), u0, n);
        if let Some(l) = nx {
            lemma_next(hb, start, w, l);
            if hb.valid(l) { hb.lemma_off(l); assert(hb.sec(l).take(used(hb.sec(l))).skip(2) =~= payload(hb.sec(l))); }
        }
        assert(d0 + (out + chunk) =~= (d0 + out) + chunk);
    }
//@loopend 1
    proof {
        if b0.is_some() {
            assert(unread(self) =~= u0.skip(n));
        } else if self.block.is_some() {
            let l = nx->Some_0;
            w = w0.push(l);
            assert(unread(self) =~= payload(hb.sec(l)));
            assert(content(hb, w).take(content(hb, w).len() - unread(self).len()) =~= content(hb, w0));
            assert(content(hb, w0).take(content(hb, w0).len() as int) =~= content(hb, w0));
        }
    }
//@afterloop 1
    proof { assert((out + buf@).take(out.len() as int) =~= out); }
//@endfn
}
pub proof fn lemma_deliver(c: Seq<u8>, u: Seq<u8>, n: int)
    requires u.len() <= c.len(), c == c.take(c.len() - u.len()) + u, 0 <= n <= u.len()
    ensures c.take(c.len() - u.skip(n).len()) == c.take(c.len() - u.len()) + u.take(n), c == c.take(c.len() - u.skip(n).len()) + u.skip(n)
{
    let p = c.take(c.len() - u.len());
    assert(c.take(c.len() - u.skip(n).len()) =~= p + u.take(n));
    assert(c =~= p + u.take(n) + u.skip(n));
}
} // mod chain
pub use chain::*;
