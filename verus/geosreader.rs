pub mod geosreader {
use super::*;
use std::collections::VecDeque;
//@item src/disk/geos/reader.rs const BLOCK_DATA_SIZE
//@item src/disk/geos/reader.rs enum GEOSReaderState
//@item src/disk/geos/reader.rs struct GEOSReader

// ---------------------------------------------------------------- stand-ins for the standard library

/// Vec::drain(0..n), the elements dropped
pub fn drain_front(v: &mut Vec<u8>, n: usize)
    requires n <= old(v)@.len()
    ensures final(v)@ == old(v)@.skip(n as int)
{
    let t = v.split_off(n);
    *v = t;
    assert(v@ =~= old(v)@.skip(n as int));
}
/// into_iter().flatten().collect()
pub fn flatten_readers(v: Vec<Option<ChainReader>>) -> (q: VecDeque<ChainReader>)
    ensures q@ == readers_of(v@)
{
    let mut q: VecDeque<ChainReader> = VecDeque::new();
    let ghost w = v@;
    for x in it: v
        invariant it.seq() == w, q@ == readers_of(w.take(it.index@))
    {
        if let Some(r) = x { q.push_back(r); }
        proof { assert(w.take(it.index@ + 1) =~= w.take(it.index@).push(w[it.index@])); assert(w.take(it.index@ + 1).drop_last() =~= w.take(it.index@)); }
    }
    assert(w.take(w.len() as int) =~= w);
    q
}
pub open spec fn readers_of(v: Seq<Option<ChainReader>>) -> Seq<ChainReader>
    decreases v.len()
{
    if v.len() == 0 { Seq::empty() } else if v.last().is_some() { readers_of(v.drop_last()).push(v.last()->Some_0) } else { readers_of(v.drop_last()) }
}

// ---------------------------------------------------------------- the CVT stream

pub open spec fn has_chain(dev: &ImageBlockDevice, l: Location) -> bool { exists|c: Seq<Location>| chain(dev, l, c) }
pub open spec fn the_chain(dev: &ImageBlockDevice, l: Location) -> Seq<Location> { choose|c: Seq<Location>| chain(dev, l, c) }
pub open spec fn rec(dev: &ImageBlockDevice, l: Location) -> Seq<u8> { content(dev, the_chain(dev, l)) }
pub open spec fn zeros(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0u8) }
/// filled up to a multiple of 254 bytes
pub open spec fn filled(s: Seq<u8>) -> Seq<u8> { s + zeros((254 - s.len() % 254) % 254) }
/// the records that start at st, one after the other, all but the last filled up
pub open spec fn recs(dev: &ImageBlockDevice, st: Seq<Location>) -> Seq<u8>
    decreases st.len()
{
    if st.len() == 0 { Seq::empty() } else if st.len() == 1 { rec(dev, st[0]) } else { filled(rec(dev, st[0])) + recs(dev, st.skip(1)) }
}
/// the available records of an index
pub open spec fn starts_of(v: Seq<Option<Location>>) -> Seq<Location>
    decreases v.len()
{
    if v.len() == 0 { Seq::empty() } else if v.last().is_some() { starts_of(v.drop_last()).push(v.last()->Some_0) } else { starts_of(v.drop_last()) }
}
/// number of blocks and last used byte of a record
pub open spec fn conv(dev: &ImageBlockDevice, o: Option<Location>) -> (u8, u8) {
    match o { None => (0u8, 0xFFu8), Some(l) => { let c = the_chain(dev, l); (c.len() as u8, (used(dev.sec(c.last())) - 1) as u8) } }
}
pub open spec fn conv_index(dev: &ImageBlockDevice, v: Seq<Option<Location>>) -> Seq<u8>
    decreases v.len()
{
    if v.len() == 0 { Seq::empty() } else { conv_index(dev, v.drop_last()).push(conv(dev, v.last()).0).push(conv(dev, v.last()).1) }
}
/// the index can be converted: every available record is a chain of at most 255 sectors
pub open spec fn convertible(dev: &ImageBlockDevice, v: Seq<Option<Location>>) -> bool {
    forall|k: int| 0 <= k < v.len() && (#[trigger] v[k]).is_some() ==> has_chain(dev, v[k]->Some_0) && the_chain(dev, v[k]->Some_0).len() <= 255
}
/// the file of a reader
pub open spec fn vlir_of(dev: &ImageBlockDevice, rd: &GEOSReader) -> Seq<Option<Location>> { vlir_index(dev.sec(rd.start_location)) }
/// what follows the info block
pub open spec fn after_info(dev: &ImageBlockDevice, rd: &GEOSReader) -> Seq<u8> {
    if rd.is_vlir { let x = conv_index(dev, vlir_of(dev, rd)); x + zeros(254 - x.len()) + recs(dev, starts_of(vlir_of(dev, rd))) } else { rec(dev, rd.start_location) }
}
pub open spec fn after_info_ok(dev: &ImageBlockDevice, rd: &GEOSReader) -> bool {
    if rd.is_vlir { dev.valid(rd.start_location) && convertible(dev, vlir_of(dev, rd)) } else { has_chain(dev, rd.start_location) }
}
/// what follows the buffer
pub open spec fn tail(dev: &ImageBlockDevice, rd: &GEOSReader, st: Seq<Location>) -> Seq<u8> {
    match rd.state {
        GEOSReaderState::DirectoryEntry => dev.sec(rd.info_location).skip(2) + after_info(dev, rd),
        GEOSReaderState::InfoBlock => after_info(dev, rd),
        GEOSReaderState::VLIRIndexBlock => recs(dev, st),
        GEOSReaderState::Records => recs(dev, st),
        GEOSReaderState::Finished => Seq::empty(),
    }
}
pub open spec fn todo(dev: &ImageBlockDevice, rd: &GEOSReader, st: Seq<Location>) -> Seq<u8> { rd.buffer@ + tail(dev, rd, st) }
/// everything that is still to be read can be read
pub open spec fn intact(dev: &ImageBlockDevice, rd: &GEOSReader, st: Seq<Location>) -> bool {
    match rd.state {
        GEOSReaderState::DirectoryEntry => dev.valid(rd.info_location) && after_info_ok(dev, rd),
        GEOSReaderState::InfoBlock => after_info_ok(dev, rd),
        _ => forall|k: int| 0 <= k < st.len() ==> has_chain(dev, #[trigger] st[k]),
    }
}
/// lemmas on indexes
pub proof fn lemma_convertible_push(dev: &ImageBlockDevice, v: Seq<Option<Location>>, k: int)
    requires 0 <= k < v.len()
    ensures
        v.take(k + 1).drop_last() == v.take(k), v.take(k + 1).last() == v[k],
        convertible(dev, v.take(k)) && (v[k].is_some() ==> has_chain(dev, v[k]->Some_0) && the_chain(dev, v[k]->Some_0).len() <= 255) ==> convertible(dev, v.take(k + 1)),
{
    assert(v.take(k + 1).drop_last() =~= v.take(k));
    assert(v.take(k + 1).last() == v[k]);
    if convertible(dev, v.take(k)) && (v[k].is_some() ==> has_chain(dev, v[k]->Some_0) && the_chain(dev, v[k]->Some_0).len() <= 255) {
        assert forall|j: int| 0 <= j < v.take(k + 1).len() && (#[trigger] v.take(k + 1)[j]).is_some() implies has_chain(dev, v.take(k + 1)[j]->Some_0) && the_chain(dev, v.take(k + 1)[j]->Some_0).len() <= 255 by {
            if j < k { assert(v.take(k)[j] == v[j]); }
        }
    }
}
/// r holds a reader for every available record among v
pub open spec fn match_index(dev: &ImageBlockDevice, r: Seq<Option<ChainReader>>, v: Seq<Option<Location>>) -> bool {
    &&& r.len() == v.len()
    &&& forall|k: int| 0 <= k < v.len() ==> (#[trigger] r[k]).is_some() == v[k].is_some() && (v[k].is_some() ==> reader_at(dev, &r[k]->Some_0, v[k]->Some_0, Seq::empty()))
}
pub proof fn lemma_match_index(dev: &ImageBlockDevice, r: Seq<Option<ChainReader>>, v: Seq<Option<Location>>)
    requires match_index(dev, r, v)
    ensures
        readers_of(r).len() == starts_of(v).len(),
        forall|k: int| 0 <= k < starts_of(v).len() ==> reader_at(dev, &#[trigger] readers_of(r)[k], starts_of(v)[k], Seq::empty()),
    decreases v.len()
{
    if v.len() > 0 {
        assert(match_index(dev, r.drop_last(), v.drop_last())) by {
            assert forall|k: int| 0 <= k < v.len() - 1 implies (#[trigger] r.drop_last()[k]).is_some() == v.drop_last()[k].is_some()
                && (v.drop_last()[k].is_some() ==> reader_at(dev, &r.drop_last()[k]->Some_0, v.drop_last()[k]->Some_0, Seq::empty())) by { assert(r[k] == r.drop_last()[k]); }
        }
        lemma_match_index(dev, r.drop_last(), v.drop_last());
        assert(r[v.len() - 1] == r.last());
    }
}
pub open spec fn rank(rd: &GEOSReader) -> int {
    match rd.state {
        GEOSReaderState::DirectoryEntry => 4, GEOSReaderState::InfoBlock => 3, GEOSReaderState::VLIRIndexBlock => 2, GEOSReaderState::Records => 1, GEOSReaderState::Finished => 0,
    }
}
/// the chain readers stand at the records that start at st
pub open spec fn rd_ok(dev: &ImageBlockDevice, rd: &GEOSReader, st: Seq<Location>) -> bool {
    &&& rd.chains@.len() == st.len()
    &&& forall|k: int| 0 <= k < st.len() ==> reader_at(dev, &#[trigger] rd.chains@[k], st[k], Seq::empty())
    &&& rank(rd) >= 3 || rank(rd) == 0 ==> st.len() == 0
    &&& rank(rd) == 0 ==> rd.buffer@.len() == 0
}
/// the first block of the stream: the directory entry without its link, and the signature
pub open spec fn cvt_header(e: &DirectoryEntry, b: Seq<u8>) -> bool {
    &&& b.len() == 254
    &&& exists|c: Seq<u8>| #[trigger] encodes(e, c) && b.take(30) == c.skip(2)
    &&& b.subrange(30, 33) == (if entry_vlir(e) { seq![0x50u8, 0x52, 0x47] } else { seq![0x53u8, 0x45, 0x51] })
    &&& b.subrange(33, 58) == seq![0x20u8, 0x66, 0x6f, 0x72, 0x6d, 0x61, 0x74, 0x74, 0x65, 0x64, 0x20, 0x47, 0x45, 0x4f, 0x53, 0x20, 0x66, 0x69, 0x6c, 0x65, 0x20, 0x56, 0x31, 0x2e, 0x30]
    &&& b.skip(58) == zeros(196)
}
pub proof fn lemma_conv_len(dev: &ImageBlockDevice, v: Seq<Option<Location>>)
    ensures conv_index(dev, v).len() == 2 * v.len()
    decreases v.len()
{
    if v.len() > 0 { lemma_conv_len(dev, v.drop_last()); }
}
pub proof fn lemma_the_chain(dev: &ImageBlockDevice, l: Location, c: Seq<Location>)
    requires chain(dev, l, c)
    ensures has_chain(dev, l), the_chain(dev, l) == c
{
    lemma_walk_of_chain(dev, l, the_chain(dev, l), c);
}

//@props P12 P17
//@fn src/disk/geos/reader.rs GEOSReader::process_vlir_index_block/scan_chain
//@ret r
//@sig /blocks: BlockDeviceRef/ => hb: &ImageBlockDevice, blocks: BlockDeviceRef
//@sub /let \((\w+), (\w+)\) = (ChainIterator::new\([^()]*\))\.fold\(Ok\(\(0, 0\)\), \|acc, b\| \{\s*acc\.and_then\(\|\((\w+), (\w+)\)\| \{\s*b\.map\(\|(\w+)\| (.*?)\)\s*\}\)\s*\}\)\?;/ => let mut it_ = \3; let mut acc_: (usize, usize) = (0, 0); loop { match it_.next(hb) { None => { break; } Some(Ok(\6)) => { let (\4, \5) = acc_; acc_ = \7; } Some(Err(e_)) => { return Err(e_); } } } let (\1, \2) = acc_;
//@spec
    requires hb.wf()
    ensures
        r.is_ok() ==> has_chain(hb, start) && the_chain(hb, start).len() <= 255 && r->Ok_0 == conv(hb, Some(start)),
        r.is_err() ==> !(has_chain(hb, start) && the_chain(hb, start).len() <= 255),
//@start
    hide(content); hide(before);
    let ghost mut w: Seq<Location> = Seq::empty();
//@loop 1
    invariant hb.wf(), iter_at(hb, &it_, start, w), acc_.0 == w.len(), w.len() > 0 ==> acc_.1 == used(hb.sec(w.last())) - 1,
        w.len() == 0 ==> acc_.1 == 0,
    ensures it_.next_sector.is_none()
    decreases before(hb.geometry.track_layouts@, hb.geometry.tracks + 1) - w.len()
//@loopstart 1
    let ghost nx = it_.next_sector;
    proof {
        lemma_walk_bound(hb, start, w);
        lemma_before_small(hb);
        if let Some(l) = nx { lemma_next(hb, start, w, l); if hb.valid(l) { hb.lemma_off(l); } }
    }
//@loopend 1
    proof { w = w.push(nx->Some_0); }
//@afterloop 1
    proof { assert(w.len() > 0); assert(chain(hb, start, w)); lemma_the_chain(hb, start, w); hb.lemma_off(w.last()); }
//@endfn
pub proof fn lemma_before_small(dev: &ImageBlockDevice)
    requires dev.wf()
    ensures before(dev.geometry.track_layouts@, dev.geometry.tracks + 1) <= 0xff_ffff
{}

pub proof fn lemma_index_ge(s: Seq<u8>, k: int)
    requires 0 <= k, 2 * k <= s.len()
    ensures k <= index_len(s, k), 2 * index_len(s, k) <= s.len()
    decreases s.len() - 2 * k
{ if 2 * k + 1 < s.len() { lemma_index_ge(s, k + 1); } }
/// unfolding of recs
pub proof fn lemma_recs(dev: &ImageBlockDevice, st: Seq<Location>)
    ensures
        st.len() == 0 ==> recs(dev, st) == Seq::<u8>::empty(), st.len() == 1 ==> recs(dev, st) == rec(dev, st[0]) && recs(dev, st.skip(1)) == Seq::<u8>::empty(),
        st.len() > 1 ==> recs(dev, st) == filled(rec(dev, st[0])) + recs(dev, st.skip(1)),
{}
pub proof fn lemma_starts(dev: &ImageBlockDevice, v: Seq<Option<Location>>)
    requires convertible(dev, v)
    ensures forall|k: int| 0 <= k < starts_of(v).len() ==> has_chain(dev, #[trigger] starts_of(v)[k])
    decreases v.len()
{
    if v.len() > 0 {
        assert(v.take(v.len() - 1) =~= v.drop_last());
        assert forall|j: int| 0 <= j < v.drop_last().len() && (#[trigger] v.drop_last()[j]).is_some() implies has_chain(dev, v.drop_last()[j]->Some_0) && the_chain(dev, v.drop_last()[j]->Some_0).len() <= 255 by { assert(v[j] == v.drop_last()[j]); }
        lemma_starts(dev, v.drop_last());
        assert(v[v.len() - 1] == v.last());
        let t = starts_of(v.drop_last());
        if v.last().is_some() {
            assert(has_chain(dev, v.last()->Some_0));
            assert(starts_of(v) == t.push(v.last()->Some_0));
            assert forall|k: int| 0 <= k < starts_of(v).len() implies has_chain(dev, #[trigger] starts_of(v)[k]) by { if k < t.len() { assert(starts_of(v)[k] == t[k]); } }
        }
    }
}
pub proof fn lemma_skip_chains(dev: &ImageBlockDevice, st: Seq<Location>)
    requires st.len() > 0, has_chain(dev, st[0])
    ensures (forall|k: int| 0 <= k < st.len() ==> has_chain(dev, #[trigger] st[k])) == (forall|k: int| 0 <= k < st.skip(1).len() ==> has_chain(dev, #[trigger] st.skip(1)[k]))
{
    if forall|k: int| 0 <= k < st.skip(1).len() ==> has_chain(dev, #[trigger] st.skip(1)[k]) {
        assert forall|k: int| 0 <= k < st.len() implies has_chain(dev, #[trigger] st[k]) by { if k > 0 { assert(st.skip(1)[k - 1] == st[k]); } }
    }
    if forall|k: int| 0 <= k < st.len() ==> has_chain(dev, #[trigger] st[k]) {
        assert forall|k: int| 0 <= k < st.skip(1).len() implies has_chain(dev, #[trigger] st.skip(1)[k]) by { assert(st.skip(1)[k] == st[k + 1]); }
    }
}
pub proof fn lemma_rec_len(dev: &ImageBlockDevice, l: Location)
    requires dev.wf(), has_chain(dev, l)
    ensures rec(dev, l).len() <= 254 * 0xff_ffff
{
    lemma_walk_bound(dev, l, the_chain(dev, l));
    lemma_before_small(dev);
    lemma_content_len(dev, the_chain(dev, l));
}
impl GEOSReader {
//@fn src/disk/geos/reader.rs GEOSReader::process_vlir_index_block
//@ret r
//@sig /&mut self/ => &mut self, hb: &ImageBlockDevice
//@sub /self\.blocks\.borrow\(\)/ => (&*hb)
//@sub? /let mut (\w+) = (\w+\.sector\([^()]*\)\?\[[^\]]*\])\.to_vec\(\);/ => let s_: &[u8] = &\2; let mut \1 = s_.to_vec(); let ghost gv = vlir_index(hb.sec(self.start_location)); proof { assert(\1@ =~= s_@); assert(\1@ =~= hb.sec(self.start_location).subrange(2, 256)); lemma_index_ge(\1@, 0); assert(gv.take(0) =~= Seq::empty()); if gv.len() == 0 { assert(gv.take(0) =~= gv); } }
//@sub /let \((\w+), (\w+)\): \(Vec<Option<ChainReader>>, Vec<\(u8, u8\)>\) = (\w+)\s*\.chunks(?:_mut)?\(2\)\s*\.take_while\(\|(\w+)\| ([^{}]*?)\)\s*\.map\(\|(\w+)\| \{(.*?)\}\)\s*\.collect::<io::Result<Vec<_>>>\(\)\?\s*\.into_iter\(\)\s*\.unzip\(\);/ => let mut \1: Vec<Option<ChainReader>> = Vec::new(); let mut \2: Vec<(u8, u8)> = Vec::new(); let src_: &[u8] = \3.as_slice(); let mut k_: usize = 0; while k_ < src_.len() { let e_ = if k_ + 2 <= src_.len() { k_ + 2 } else { src_.len() }; let \4: &[u8] = &src_[k_..e_]; if !(\5) { break; } let \6: &[u8] = \4; let v_: io::Result<(Option<ChainReader>, (u8, u8))> = {\7}; match v_ { Ok((a_, b_)) => { \1.push(a_); \2.push(b_); } Err(x_) => { return Err(x_); } } k_ = e_; }
//@sub? /let mut (\w+) =\s*(\w+)\s*\.iter\(\)\s*\.fold\((Vec::with_capacity\([^()]*\)), \|mut (\w+), (\w+)\| \{(.*?)\s*\4\s*\}\);/ => let mut \4: Vec<u8> = \3; for \5 in \2.iter() { let ghost v0_ = \4@; proof { lemma_convertible_push(hb, gv, it.index@); } \6 proof { assert(\4@ =~= v0_.push(\5.0).push(\5.1)); } } proof { assert(gv.take(gv.len() as int) =~= gv); lemma_conv_len(hb, gv); lemma_match_index(hb, chains@, gv); } let mut \1: Vec<u8> = \4;
//@sub? /self\.blocks\.clone\(\)/ => self.blocks
//@sub? /scan_chain\(/ => scan_chain(hb, 
//@sub /(\w+)\.into_iter\(\)\.flatten\(\)\.collect\(\)/ => flatten_readers(\1)
//@spec
    requires hb.wf()
    ensures
        final(self).blocks == old(self).blocks, final(self).state == old(self).state, final(self).is_vlir == old(self).is_vlir,
        final(self).info_location == old(self).info_location, final(self).start_location == old(self).start_location,
        r.is_ok() ==> ({
            let v = vlir_index(hb.sec(old(self).start_location));
            let x = conv_index(hb, v);
            let st = starts_of(v);
            &&& hb.valid(old(self).start_location) && convertible(hb, v)
            &&& final(self).buffer@ == x + zeros(254 - x.len())
            &&& final(self).chains@.len() == st.len()
            &&& forall|k: int| 0 <= k < st.len() ==> reader_at(hb, &#[trigger] final(self).chains@[k], st[k], Seq::empty())
        }),
        r.is_err() ==> !(hb.valid(old(self).start_location) && convertible(hb, vlir_index(hb.sec(old(self).start_location)))),
//@loop 1
    invariant
        hb.wf(), k_ <= src_@.len(), src_@.len() == 254, k_ % 2 == 0, chains@.len() == k_ / 2, conversions@.len() == k_ / 2,
        hb.valid(self.start_location), src_@ == hb.sec(self.start_location).subrange(2, 256),
        gv == vlir_index(hb.sec(self.start_location)), gv.len() == index_len(src_@, 0), index_len(src_@, 0) == index_len(src_@, k_ as int / 2), k_ / 2 <= gv.len(), k_ as int / 2 == gv.len() ==> gv.take(k_ as int / 2) == gv,
        match_index(hb, chains@, gv.take(k_ as int / 2)), convertible(hb, gv.take(k_ as int / 2)),
        forall|i: int| 0 <= i < conversions@.len() ==> #[trigger] conversions@[i] == conv(hb, gv[i]),
    ensures chains@.len() == gv.len(), conversions@.len() == gv.len(), gv.len() <= 127, match_index(hb, chains@, gv), convertible(hb, gv),
        forall|i: int| 0 <= i < conversions@.len() ==> #[trigger] conversions@[i] == conv(hb, gv[i]),
    decreases src_@.len() - k_
//@loopstart 1
    let ghost r0_ = chains@;
    proof {
        lemma_index_step(src_@, k_ as int / 2);
        lemma_index_ge(src_@, k_ as int / 2); lemma_index_ge(src_@, k_ as int / 2 + 1);
        if k_ as int / 2 == gv.len() { assert(gv.take(k_ as int / 2) =~= gv); } else { lemma_convertible_push(hb, gv, k_ as int / 2); }
    }
//@loopend 1
    proof {
        let k = k_ as int / 2 - 1;
        assert(gv.take(k + 1) =~= gv.take(k).push(gv[k]));
        assert(chains@.drop_last() =~= r0_);
        if gv[k].is_some() { let rd = chains@[k]->Some_0; let d_ = delivered(hb, &rd, Seq::empty()); assert(reader_at(hb, &rd, gv[k]->Some_0, Seq::empty())); }
        assert forall|j: int| 0 <= j <= k implies (#[trigger] chains@[j]).is_some() == gv.take(k + 1)[j].is_some()
            && (gv.take(k + 1)[j].is_some() ==> reader_at(hb, &chains@[j]->Some_0, gv.take(k + 1)[j]->Some_0, Seq::empty())) by { if j < k { assert(chains@[j] == r0_[j]); assert(gv.take(k)[j] == gv[j]); } }
        if k + 1 == gv.len() { assert(gv.take(k + 1) =~= gv); }
    }
//@loop 2 it
    invariant it.seq().len() == conversions@.len(), conversions@.len() == gv.len(), forall|k: int| 0 <= k < gv.len() ==> *#[trigger] it.seq()[k] == conversions@[k],
        forall|i: int| 0 <= i < conversions@.len() ==> #[trigger] conversions@[i] == conv(hb, gv[i]),
        v@ == conv_index(hb, gv.take(it.index@)),
//@endfn
//@fn src/disk/geos/reader.rs GEOSReader::next_state
//@ret r
//@sig /&mut self/ => &mut self, hb: &ImageBlockDevice, Ghost(st): Ghost<Seq<Location>>
//@sub? /self\.blocks\.borrow\(\)/ => (&*hb)
//@sub? /self\.blocks\.clone\(\)/ => self.blocks
//@sub? /self\.process_vlir_index_block\(\)/ => self.process_vlir_index_block(hb)
//@sub? /self\.next_state\(\)/ => self.next_state(hb, Ghost(st))
//@sub? /self\.chains\.is_empty\(\)/ => (self.chains.len() == 0)
//@sub? /self\s*\.chains\s*\.push_back\((ChainReader::new\([^()]*\))\);/ => let c_ = \1; proof { let d_ = delivered(hb, &c_, Seq::empty()); assert(reader_at(hb, &c_, self.start_location, Seq::empty())); } self.chains.push_back(c_);
//@sub? /chain\.read_to_end\(&mut self\.buffer\)\?;/ => { let r_ = chain.read_to_end(&mut self.buffer, hb, Ghost(st[0])); proof { if r_.is_ok() { let c = choose|c: Seq<Location>| #[trigger] crate::chain::chain(hb, st[0], c) && self.buffer@ == old(self).buffer@ + content(hb, c); lemma_the_chain(hb, st[0], c); assert(self.buffer@ =~= content(hb, c)); lemma_rec_len(hb, st[0]); } } let n_ = r_?; }
//@sub? /self\.buffer = (\w+\[[^\]]*\])\.to_vec\(\);/ => self.buffer = ({ let s_: &[u8] = &\1; let v_ = s_.to_vec(); proof { assert(v_@ =~= s_@); } v_ });
//@spec
    requires hb.wf(), old(self).buffer@.len() == 0, rd_ok(hb, old(self), st)
    ensures
        final(self).is_vlir == old(self).is_vlir, final(self).info_location == old(self).info_location, final(self).start_location == old(self).start_location,
        r.is_ok() ==> exists|st2: Seq<Location>| #[trigger] rd_ok(hb, final(self), st2) && tail(hb, old(self), st) == todo(hb, final(self), st2)
            && intact(hb, old(self), st) == intact(hb, final(self), st2)
            && (rank(old(self)) > 0 ==> rank(final(self)) < rank(old(self)) || (rank(final(self)) == rank(old(self)) && st2.len() < st.len())),
        r.is_err() ==> !intact(hb, old(self), st),
    decreases rank(old(self))
//@start
    hide(walk); hide(content);
    proof { lemma_recs(hb, st); assert(st.len() > 0 ==> st.skip(1).len() < st.len()); }
//@end
    proof {
        match old(self).state {
            GEOSReaderState::DirectoryEntry => {
                assert(rd_ok(hb, self, st));
                assert(tail(hb, old(self), st) =~= todo(hb, self, st));
            }
            GEOSReaderState::InfoBlock => if self.is_vlir {
                let st2 = starts_of(vlir_of(hb, self));
                lemma_starts(hb, vlir_of(hb, self));
                assert(rd_ok(hb, self, st2));
                assert(tail(hb, old(self), st) =~= todo(hb, self, st2));
                assert(intact(hb, self, st2));
            } else {
                let st2 = seq![self.start_location];
                lemma_recs(hb, st2);
                assert(rd_ok(hb, self, st2));
                assert(tail(hb, old(self), st) =~= todo(hb, self, st2));
                assert(has_chain(hb, st2[0]) == has_chain(hb, self.start_location));
            },
            GEOSReaderState::VLIRIndexBlock => {
                let st2 = choose|st2: Seq<Location>| #[trigger] rd_ok(hb, self, st2) && recs(hb, st) == todo(hb, self, st2)
                    && intact(hb, self, st2) == (forall|k: int| 0 <= k < st.len() ==> has_chain(hb, #[trigger] st[k]))
                    && (rank(self) < 1 || (rank(self) == 1 && st2.len() < st.len()));
                assert(rd_ok(hb, self, st2));
            }
            GEOSReaderState::Records => if st.len() > 0 {
                let st2 = st.skip(1);
                assert(rd_ok(hb, self, st2));
                assert(tail(hb, old(self), st) =~= todo(hb, self, st2));
                lemma_skip_chains(hb, st);
            } else {
                assert(rd_ok(hb, self, st));
                assert(tail(hb, old(self), st) =~= todo(hb, self, st));
            },
            GEOSReaderState::Finished => {
                assert(rd_ok(hb, self, st));
                assert(tail(hb, old(self), st) =~= todo(hb, self, st));
            }
        }
    }
//@endfn
//@fn src/disk/geos/reader.rs Read for GEOSReader::read
//@ret r
//@sig /&mut self, mut buf: &mut \[u8\]/ => &mut self, hb: &ImageBlockDevice, Ghost(st): Ghost<Seq<Location>>, buf_a: &mut [u8]
//@sub? /self\.next_state\(\)\?/ => ({ let ghost q0 = *self; let r_ = self.next_state(hb, Ghost(w)); proof { assert(q0.buffer@ + tail(hb, &q0, w) =~= tail(hb, &q0, w)); assert((out + buf@).take(bytes_written as int) =~= out); assert(!(r_.is_err() && intact(hb, &q0, w))); if r_.is_ok() { let w0 = w; w = choose|st2: Seq<Location>| #[trigger] rd_ok(hb, self, st2) && tail(hb, &q0, w0) == todo(hb, self, st2) && intact(hb, &q0, w0) == intact(hb, self, st2) && (rank(&q0) > 0 ==> rank(self) < rank(&q0) || (rank(self) == rank(&q0) && st2.len() < w0.len())); } } r_ })?
//@sub? /self\.buffer\.drain\(0\.\.(\w+)\);/ => drain_front(&mut self.buffer, \1);
//@sub? /let buf_ref = &mut buf;\s*let value: &mut \[u8\] = std::mem::take\(buf_ref\);\s*\*buf_ref = &mut value\[(\w+)\.\.\];/ => let value_ = buf; buf = &mut value_[\1..]; assert((out + chunk) + final(buf)@ =~= out + after_borrow(value_)@); proof { out = out + chunk; }
//@sub? /let _ = &mut (\w+\[[^;]*?\])\.copy_from_slice\(&self\.buffer\[([^;]*)\]\);/ => \1.copy_from_slice(&self.buffer.as_slice()[\2]);
//@spec
    requires hb.wf(), rd_ok(hb, old(self), st), old(buf_a)@.len() <= 0x7fff_ffff
    ensures
        r.is_ok() ==> r->Ok_0 <= old(buf_a)@.len() && final(buf_a)@.len() == old(buf_a)@.len()
            && exists|st2: Seq<Location>| #[trigger] rd_ok(hb, final(self), st2)
                && todo(hb, old(self), st) == final(buf_a)@.take(r->Ok_0 as int) + todo(hb, final(self), st2)
                && (r->Ok_0 < old(buf_a)@.len() ==> rank(final(self)) == 0)
                && intact(hb, old(self), st) == intact(hb, final(self), st2),
        r.is_err() ==> !intact(hb, old(self), st),
//@start
    let mut buf: &mut [u8] = &mut *buf_a;
    let ghost mut w = st;
    let ghost mut out: Seq<u8> = Seq::empty();
    proof { assert(todo(hb, self, st) =~= buf@.take(0) + todo(hb, self, st)); assert(todo(hb, self, st) =~= out + todo(hb, self, st)); }
//@loop 1
    invariant_except_break
        rank(self) > 0, todo(hb, old(self), st) == out + todo(hb, self, w),
        out.len() == bytes_written, bytes_written + buf@.len() == old(buf_a)@.len(),
    invariant
        hb.wf(), rd_ok(hb, self, w), intact(hb, self, w) == intact(hb, old(self), st), old(buf_a)@.len() <= 0x7fff_ffff,
        after_borrow(buf_a)@ == out + final(buf)@,
    ensures
        bytes_written <= old(buf_a)@.len(), out.len() + buf@.len() == old(buf_a)@.len(),
        todo(hb, old(self), st) == (out + buf@).take(bytes_written as int) + todo(hb, self, w),
        bytes_written < old(buf_a)@.len() ==> rank(self) == 0,
    decreases rank(self), w.len()
//@loopstart 1
    let ghost b0 = self.buffer@;
    let ghost n = if b0.len() <= buf@.len() { b0.len() as int } else { buf@.len() as int };
    let ghost chunk = b0.take(n);
    proof {
        assert(b0 =~= chunk + b0.skip(n));
        assert(out + todo(hb, self, w) =~= (out + chunk) + (b0.skip(n) + tail(hb, self, w)));
    }
//@before /break;/
    proof { assert((out + buf@).take(bytes_written as int) =~= out + chunk); }
//@loopend 1
    proof { assert((out + buf@).take(bytes_written as int) =~= out); assert(Seq::<u8>::empty() + tail(hb, self, w) =~= tail(hb, self, w)); }
//@endfn
//@fn src/disk/geos/reader.rs GEOSReader::new
//@ret r
//@sub? /const (CVT_SIGNATURE_\w+): (usize|&\[u8\]) =/ => let \1: \2 =
//@sub? /let mut buffer = \[0; BLOCK_SIZE\]\.to_vec\(\);/ => let z_: [u8; BLOCK_SIZE] = [0u8; BLOCK_SIZE]; let mut buffer: Vec<u8> = z_.as_slice().to_vec(); proof { assert(buffer@ =~= z_@); }
//@sub? /&mut buffer\[0\.\.directory::ENTRY_SIZE\]/ => &mut buffer.as_mut_slice()[0..ENTRY_SIZE]
//@sub? /buffer\[([^\]]*)\]\s*\.copy_from_slice/ => buffer.as_mut_slice()[\1].copy_from_slice
//@sub? /buffer\.drain\(0\.\.2\);/ => proof { b2 = buffer@; } drain_front(&mut buffer, 2);
//@sub? /entry\s*\.info_location\(\)\?\s*\.ok_or_else\(\|\| DiskError::GEOSInfoNotFound\.to_io_error\(\)\)\?/ => (match entry.info_location()? { Some(l_) => l_, None => { return Err(DiskError::GEOSInfoNotFound.into()); } })
//@spec
    requires entry.extra is GEOS, wf_entry(entry)
    ensures
        r.is_ok() <==> !(entry.extra->GEOS_0.structure is Undefined) && entry_info(entry).is_some(),
        r.is_ok() ==> ({
            let g = r->Ok_0;
            &&& g.state is DirectoryEntry && cvt_header(entry, g.buffer@) && g.is_vlir == entry_vlir(entry)
            &&& entry_info(entry) == Some(g.info_location) && g.start_location == entry.first_sector && g.chains@.len() == 0
        }),
//@start
    let ghost mut b2: Seq<u8> = Seq::empty();
    let ghost mut c1: Seq<u8> = Seq::empty();
//@after /entry\.to_bytes/
    proof { c1 = buffer@.take(32); assert(c1 =~= buffer@.subrange(0, 32)); }
//@end
    proof {
        assert(buffer@.take(30) =~= b2.take(32).skip(2));
        assert(b2.take(32) =~= c1);
        assert(encodes(entry, c1));
        assert(buffer@.subrange(30, 33) =~= (if entry_vlir(entry) { seq![0x50u8, 0x52, 0x47] } else { seq![0x53u8, 0x45, 0x51] }));
        assert(buffer@.subrange(33, 58) =~= seq![0x20u8, 0x66, 0x6f, 0x72, 0x6d, 0x61, 0x74, 0x74, 0x65, 0x64, 0x20, 0x47, 0x45, 0x4f, 0x53, 0x20, 0x66, 0x69, 0x6c, 0x65, 0x20, 0x56, 0x31, 0x2e, 0x30]);
        assert(buffer@.skip(58) =~= zeros(196));
    }
//@endfn
}
/// P17: what a reader delivers for a GEOS entry: its entry, its info block, then the records, after the converted index if it has one
pub proof fn lemma_cvt(dev: &ImageBlockDevice, e: &DirectoryEntry, g: &GEOSReader)
    requires g.state is DirectoryEntry, g.is_vlir == entry_vlir(e), entry_info(e) == Some(g.info_location), g.start_location == e.first_sector, g.chains@.len() == 0
    ensures
        rd_ok(dev, g, Seq::empty()),
        todo(dev, g, Seq::empty()) == g.buffer@ + (dev.sec(entry_info(e)->Some_0).skip(2) + (if entry_vlir(e) {
            let v = vlir_index(dev.sec(e.first_sector));
            let x = conv_index(dev, v);
            x + zeros(254 - x.len()) + recs(dev, starts_of(v))
        } else { rec(dev, e.first_sector) })),
{}
} // mod geosreader
pub use geosreader::*;
