pub mod format {
use super::*;
//@item src/disk/header.rs struct HeaderFormat
//@item src/disk/format.rs struct DiskFormat /#\[derive\(Clone\)\]/ =>
/// derived Clone of a struct of Copy fields: a copy
impl Clone for DiskFormat {
    #[verifier::external_body]
    fn clone(&self) -> (r: DiskFormat) ensures r == *self { unimplemented!() }
}
impl DiskFormat {
//@props P04 P05 P12
//@fn src/disk/format.rs DiskFormat::sectors_in_track
//@ret r
//@spec
    requires track < self.tracks@.len()
    ensures r == self.tracks@[track as int].sectors
//@endfn

//@fn src/disk/format.rs DiskFormat::is_reserved_track
//@ret r
//@spec
    ensures r == self.skipped(track as int)
//@endfn
//@fn src/disk/format.rs DiskFormat::first_directory_location
//@ret r
//@spec
    ensures r == Location(self.directory_track, self.first_directory_sector)
//@endfn

    /// tracks that hold no file data
    pub open spec fn skipped(&self, t: int) -> bool { t == self.directory_track || t == self.reserved_track }
    pub open spec fn data_track(&self, t: int) -> bool { 1 <= t <= self.last_track && !self.skipped(t) }

//@fn src/disk/format.rs DiskFormat::first_free_track
//@ret r
//@sub? /(::)?(std|core)::cmp::max\(/ => cmp_max(
//@spec
    requires wf_format(self), usable(self, bam)
    ensures
        r.is_err() ==> r->Err_0.e == DiskError::DiskFull && forall|t: int| 1 <= t <= self.last_track && t != self.directory_track ==> !avail(bam, t),
        r.is_ok() ==> {
            let t = r->Ok_0.0 as int;
            1 <= t <= self.last_track && t != self.directory_track && avail(bam, t) && *r->Ok_0.1 == bam.entries@[t - 1]
        },
        r.is_ok() ==> forall|u: int| 1 <= u <= self.last_track && u != self.directory_track && #[trigger] avail(bam, u) ==> nearer(self.directory_track as int, r->Ok_0.0 as int, u), // [P05]
//@loop 1 it
    invariant
        wf_format(self), usable(self, bam), it.seq().len() == max_distance,
        forall|k: int| 0 <= k < it.seq().len() ==> #[trigger] it.seq()[k] == k + 1,
        max_distance >= self.directory_track - 1, max_distance >= self.last_track - self.directory_track, max_distance <= 80,
        forall|t: int| 1 <= t <= self.last_track && t != self.directory_track && dist(self.directory_track as int, t) <= it.index@ ==> !#[trigger] avail(bam, t),
//@endfn
#[verifier::loop_isolation(false)]
//@fn src/disk/format.rs DiskFormat::first_free_block
//@ret r
//@spec
    requires wf_format(self), usable(self, bam)
    ensures
        self.geos ==> from_previous(self, bam, Location(1, 0), r), // [P05]
        !self.geos ==> first_cbm(self, bam, r), // [P05]
        alloc_weak(self, bam, false, r),
//@loop 1 it
    invariant
        wf_format(self), it.seq().len() == self.tracks@[track as int].sectors, track <= self.last_track, track >= 1,
        forall|k: int| 0 <= k < it.seq().len() ==> #[trigger] it.seq()[k] == k,
        map == entry.sector_map >> (it.index@ as u64),
        forall|s: int| 0 <= s < it.index@ ==> !#[trigger] fr(entry.sector_map, s),
//@loopstart 1
    proof { lemma_shift(entry.sector_map, it.index@); }
//@beforeloop 1
    proof { let m = entry.sector_map; assert(m >> 0 == m) by (bit_vector); }
//@endfn
//@fn src/disk/format.rs DiskFormat::next_free_track_geos
//@ret r
//@spec
    requires wf_format(self), usable(self, bam), 1 <= previous_track <= self.last_track, previous_track != self.reserved_track,
    ensures
        track_geos(self, bam, previous_track as int, r), // [P05]
        track_weak(self, bam, previous_track as int, r),
//@loop 1
    invariant
        wf_format(self), usable(self, bam), 1 <= previous_track <= self.last_track, previous_track != self.reserved_track,
        1 <= track <= self.last_track, track != self.reserved_track,
        previous_track == self.directory_track ==> track == previous_track && !reset_sector && passes == 2,
        previous_track != self.directory_track ==> track != self.directory_track,
        passes <= 2, previous_track == 1 ==> passes <= 1,
        !reset_sector ==> track >= previous_track && passes == (if previous_track == 1 { 1int } else { 2 })
            && forall|t: int| previous_track <= t < track && self.data_track(t) ==> !#[trigger] avail(bam, t),
        reset_sector ==> previous_track != self.directory_track && passes == (if previous_track == 1 { 0int } else { 1 }) || passes == 0,
        reset_sector ==> previous_track != self.directory_track && forall|t: int| previous_track <= t && self.data_track(t) ==> !#[trigger] avail(bam, t),
        reset_sector && passes == 1 ==> forall|t: int| t < track && self.data_track(t) ==> !#[trigger] avail(bam, t),
        reset_sector && passes == 0 ==> forall|t: int| self.data_track(t) ==> !#[trigger] avail(bam, t),
    decreases passes, 100 - track
//@loop 2
    invariant
        wf_format(self), 1 <= t0 <= track <= self.last_track, passes == p0, reset_sector == r0,
        forall|t: int| t0 <= t < track ==> self.skipped(t),
    decreases 100 - track
//@beforeloop 2
    let ghost t0 = track; let ghost p0 = passes; let ghost r0 = reset_sector;
//@endfn
//@fn src/disk/format.rs DiskFormat::next_free_track_cbm
//@ret r
//@spec
    requires !self.geos, wf_format(self), usable(self, bam), 1 <= previous_track <= self.last_track, previous_track != self.reserved_track,
    ensures
        track_cbm(self, bam, previous_track as int, r), // [P05]
        track_weak(self, bam, previous_track as int, r),
//@sub? /let mut passes = NUM_PASSES;/ => let mut passes: usize = NUM_PASSES;
//@loop 1
    invariant
        !self.geos, wf_format(self), usable(self, bam), 1 <= previous_track <= self.last_track, previous_track != self.reserved_track,
        passes <= 3, reset_sector == (passes < 3),
        1 <= track <= self.last_track, track != self.reserved_track,
        previous_track == self.directory_track ==> track == previous_track && passes == 3,
        previous_track != self.directory_track ==> track != self.directory_track,
        previous_track < self.directory_track ==> {
            let d = self.directory_track as int; let p = previous_track as int; let last = self.last_track as int;
            &&& passes == 3 ==> track <= p && none_in(self, bam, track + 1, p)
            &&& passes < 3 ==> none_in(self, bam, 1, p)
            &&& passes == 2 ==> track > d && none_in(self, bam, d + 1, track - 1)
            &&& passes < 2 ==> none_in(self, bam, d + 1, last)
            &&& passes == 1 ==> track < d && none_in(self, bam, track + 1, d - 1)
            &&& passes == 0 ==> none_in(self, bam, 1, last)
        },
        previous_track > self.directory_track ==> {
            let d = self.directory_track as int; let p = previous_track as int; let last = self.last_track as int;
            &&& passes == 3 ==> track >= p && none_in(self, bam, p, track - 1)
            &&& passes < 3 ==> none_in(self, bam, p, last)
            &&& passes == 2 ==> track < d && none_in(self, bam, track + 1, d - 1)
            &&& passes < 2 ==> none_in(self, bam, 1, d - 1)
            &&& passes == 1 ==> track > d && none_in(self, bam, d + 1, track - 1)
            &&& passes == 0 ==> none_in(self, bam, 1, last)
        },
    decreases passes, if track < self.directory_track { track as int } else { 100 - track }
//@loop 2
    invariant
        wf_format(self), track <= t0, t0 + 1 < self.directory_track,
        forall|t: int| track < t <= t0 ==> self.skipped(t),
    decreases track
//@beforeloop 2
    let ghost t0 = track;
//@loop 3
    invariant
        wf_format(self), t0 <= track <= self.last_track + 1, t0 > self.directory_track,
        forall|t: int| t0 <= t < track ==> self.skipped(t),
    decreases 100 - track
//@beforeloop 3
    let ghost t0 = track;
//@endfn
//@fn src/disk/format.rs DiskFormat::next_free_track
//@ret r
//@spec
    requires wf_format(self), usable(self, bam), 1 <= previous_track <= self.last_track, previous_track != self.reserved_track,
    ensures
        track_rule(self, bam, previous_track as int, r), // [P05]
        track_weak(self, bam, previous_track as int, r),
//@endfn
#[verifier::loop_isolation(false)]
//@fn src/disk/format.rs DiskFormat::next_free_block_from_previous
//@ret r
//@spec
    requires wf_format(self), usable(self, bam), exists_on(self.tracks@, self.last_track as int, previous), previous.0 != self.reserved_track,
    ensures
        from_previous(self, bam, previous, r), // [P05]
        alloc_weak(self, bam, previous.0 == self.directory_track, r),
//@start
    proof { lemma_shl1(); }
//@beforeloop 1
    let ghost s0 = sector as int;
    proof {
        if previous.0 != self.directory_track { assert(track != self.directory_track); }
        assert(s0 == start_sector(self, previous, track as int, reset_sector)); // [P05]
    }
//@loop 1
    invariant
        num_sectors > 15, s0 <= 172, sector <= s0,
        wrap(sector as int, num_sectors as int, self.geos) == wrap(s0, num_sectors as int, self.geos), // [P05]
    decreases sector
//@beforeloop 2
    let ghost m = map; let ghost n = num_sectors as int;
//@loop 2
    invariant
        15 < num_sectors <= 40, 0 <= sector < num_sectors, 0 <= start_sector < num_sectors, map == m, n == num_sectors,
        sector >= start_sector ==> forall|x: int| start_sector <= x < sector ==> !#[trigger] fr(m, x),
        sector < start_sector ==> forall|x: int| (start_sector <= x < n || 0 <= x < sector) ==> !#[trigger] fr(m, x),
    decreases if sector >= start_sector { num_sectors - sector + start_sector } else { start_sector - sector }
//@endfn
//@fn src/disk/format.rs DiskFormat::next_free_block
//@ret r
//@spec
    requires wf_format(self), usable(self, bam),
        previous.is_some() ==> exists_on(self.tracks@, self.last_track as int, previous->Some_0) && (previous->Some_0).0 != self.reserved_track,
    ensures
        next_block_rule(self, bam, previous, r), // [P05]
        alloc_weak(self, bam, previous.is_some() && (previous->Some_0).0 == self.directory_track, r),
//@endfn
}

pub proof fn lemma_shl1()
    ensures forall|x: u8| x < 128 ==> #[trigger] (x << 1) == 2 * x
{
    assert forall|x: u8| x < 128 implies #[trigger] (x << 1) == 2 * x by { assert((x << 1) == 2 * x) by (bit_vector) requires x < 128; }
}
pub fn cmp_max(a: u8, b: u8) -> (r: u8)
    ensures r == (if a >= b { a } else { b })
{ if a >= b { a } else { b } }

pub open spec fn usable(f: &DiskFormat, bam: &Bam) -> bool { !bam.invalidated && bam.entries@.len() == f.last_track }
/// the track's free count says there is room
pub open spec fn avail(bam: &Bam, t: int) -> bool { bam.entries@[t - 1].free_sectors > 0 }

pub open spec fn dist(d: int, t: int) -> int { if t < d { d - t } else { t - d } }
/// t is at most as far from d as u; at equal distance the lower track comes first
pub open spec fn nearer(d: int, t: int, u: int) -> bool { dist(d, t) < dist(d, u) || dist(d, t) == dist(d, u) && t <= u }

type TrackResult<'a> = io::Result<(u8, &'a BamEntry, bool)>;

/// what P04 needs of the track chosen: it has room according to its count and is eligible; none only if no eligible track has
pub open spec fn track_weak(f: &DiskFormat, bam: &Bam, p: int, r: TrackResult) -> bool {
    &&& r.is_ok() ==> {
        let t = r->Ok_0.0 as int;
        &&& 1 <= t <= f.last_track && avail(bam, t) && *r->Ok_0.1 == bam.entries@[t - 1]
        &&& if p == f.directory_track { t == p && !r->Ok_0.2 } else { f.data_track(t) && (r->Ok_0.2 || !f.geos || t >= p) }
    }
    &&& r.is_err() ==> r->Err_0.e == DiskError::DiskFull && if p == f.directory_track { !avail(bam, p) } else { none_in(f, bam, 1, f.last_track as int) }
}
/// what P04 needs of the sector chosen (the counts are not assumed to agree with the bitmaps here)
pub open spec fn alloc_weak(f: &DiskFormat, bam: &Bam, dir: bool, r: io::Result<Location>) -> bool {
    &&& r.is_ok() ==> {
        let l = r->Ok_0;
        &&& exists_on(f.tracks@, f.last_track as int, l) && bam.is_free(l) && avail(bam, l.0 as int)
        &&& if dir { l.0 == f.directory_track } else { l.0 != f.directory_track }
    }
    &&& r.is_err() ==> {
        ||| r->Err_0.e == DiskError::DiskFull && if dir { !avail(bam, f.directory_track as int) } else { none_in(f, bam, 1, f.last_track as int) }
        ||| exists|t: int| 1 <= t <= f.last_track && #[trigger] avail(bam, t) && !room(f, bam, t)
    }
}

pub open spec fn found(bam: &Bam, r: TrackResult, t: int, reset: bool) -> bool {
    r.is_ok() && r->Ok_0.0 == t && *r->Ok_0.1 == bam.entries@[t - 1] && r->Ok_0.2 == reset
}

/// the track the CBM algorithm prescribes after track p
pub open spec fn track_cbm(f: &DiskFormat, bam: &Bam, p: int, r: TrackResult) -> bool {
    let d = f.directory_track as int;
    if p == d {
        if avail(bam, d) { found(bam, r, d, false) } else { is_err(r, DiskError::DiskFull) }
    } else if p < d {
        ||| r.is_ok() && highest(f, bam, 1, p, r->Ok_0.0 as int) && found(bam, r, r->Ok_0.0 as int, false)
        ||| none_in(f, bam, 1, p) && r.is_ok() && lowest(f, bam, d + 1, f.last_track as int, r->Ok_0.0 as int) && found(bam, r, r->Ok_0.0 as int, true)
        ||| none_in(f, bam, 1, p) && none_in(f, bam, d + 1, f.last_track as int) && r.is_ok() && highest(f, bam, 1, d - 1, r->Ok_0.0 as int) && found(bam, r, r->Ok_0.0 as int, true)
        ||| none_in(f, bam, 1, f.last_track as int) && is_err(r, DiskError::DiskFull)
    } else {
        ||| r.is_ok() && lowest(f, bam, p, f.last_track as int, r->Ok_0.0 as int) && found(bam, r, r->Ok_0.0 as int, false)
        ||| none_in(f, bam, p, f.last_track as int) && r.is_ok() && highest(f, bam, 1, d - 1, r->Ok_0.0 as int) && found(bam, r, r->Ok_0.0 as int, true)
        ||| none_in(f, bam, p, f.last_track as int) && none_in(f, bam, 1, d - 1) && r.is_ok() && lowest(f, bam, d + 1, f.last_track as int, r->Ok_0.0 as int) && found(bam, r, r->Ok_0.0 as int, true)
        ||| none_in(f, bam, 1, f.last_track as int) && is_err(r, DiskError::DiskFull)
    }
}

/// the track the GEOS algorithm prescribes after track p
pub open spec fn track_geos(f: &DiskFormat, bam: &Bam, p: int, r: TrackResult) -> bool {
    let d = f.directory_track as int;
    if p == d {
        if avail(bam, d) { found(bam, r, d, false) } else { is_err(r, DiskError::DiskFull) }
    } else {
        ||| r.is_ok() && lowest(f, bam, p, f.last_track as int, r->Ok_0.0 as int) && found(bam, r, r->Ok_0.0 as int, false)
        ||| none_in(f, bam, p, f.last_track as int) && r.is_ok() && lowest(f, bam, 1, f.last_track as int, r->Ok_0.0 as int) && found(bam, r, r->Ok_0.0 as int, true)
        ||| none_in(f, bam, 1, f.last_track as int) && is_err(r, DiskError::DiskFull)
    }
}

/// no data track from a to b has room
pub open spec fn none_in(f: &DiskFormat, bam: &Bam, a: int, b: int) -> bool {
    forall|t: int| a <= t <= b && f.data_track(t) ==> !#[trigger] avail(bam, t)
}
pub open spec fn lowest(f: &DiskFormat, bam: &Bam, a: int, b: int, t: int) -> bool {
    a <= t <= b && f.data_track(t) && avail(bam, t) && none_in(f, bam, a, t - 1)
}
pub open spec fn highest(f: &DiskFormat, bam: &Bam, a: int, b: int, t: int) -> bool {
    a <= t <= b && f.data_track(t) && avail(bam, t) && none_in(f, bam, t + 1, b)
}

/// the first sector of a file on a CBM disk
pub open spec fn first_cbm(f: &DiskFormat, bam: &Bam, r: io::Result<Location>) -> bool {
    &&& r.is_ok() ==> {
        let l = r->Ok_0;
        let t = l.0 as int;
        &&& exists_on(f.tracks@, f.last_track as int, l) && t != f.directory_track
        &&& avail(bam, t) && bam.is_free(l)
        &&& forall|u: int| 1 <= u <= f.last_track && u != f.directory_track && #[trigger] avail(bam, u) ==> nearer(f.directory_track as int, t, u)
        &&& forall|s: int| 0 <= s < l.1 ==> !#[trigger] fr(bam.entries@[t - 1].sector_map, s)
    }
    &&& r.is_err() ==> r->Err_0.e == DiskError::DiskFull && (
        (forall|t: int| 1 <= t <= f.last_track && t != f.directory_track ==> !#[trigger] avail(bam, t))
        || exists|t: int| 1 <= t <= f.last_track && #[trigger] avail(bam, t) && !room(f, bam, t))
}

/// the bitmap of the track has a free sector
pub open spec fn room(f: &DiskFormat, bam: &Bam, t: int) -> bool {
    exists|s: int| 0 <= s < f.tracks@[t].sectors && #[trigger] fr(bam.entries@[t - 1].sector_map, s)
}

/// where the search for a sector starts (before wrapping)
pub open spec fn start_sector(f: &DiskFormat, p: Location, t: int, reset: bool) -> int {
    let il = if t == f.directory_track { f.directory_interleave as int } else { f.interleave as int };
    if reset { 0 }
    else if !f.geos { p.1 + il }
    else if t == p.0 { p.1 + il - if t >= 25 { 1int } else { 0 } }
    else { (t - p.0) * 2 + 4 + il }
}
/// wrapping past the last sector; off a GEOS disk one sector less unless at sector 0
pub open spec fn wrap(s: int, n: int, geos: bool) -> int
    decreases s
{
    if n <= 0 || s < n { s } else if s - n > 0 && !geos { wrap(s - n - 1, n, geos) } else { wrap(s - n, n, geos) }
}
/// s is the first free sector from `start` on, going round
pub open spec fn first_from(map: u64, n: int, start: int, s: int) -> bool {
    &&& 0 <= s < n && fr(map, s)
    &&& s >= start ==> forall|x: int| start <= x < s ==> !#[trigger] fr(map, x)
    &&& s < start ==> forall|x: int| (start <= x < n || 0 <= x < s) ==> !#[trigger] fr(map, x)
}

/// the sector the algorithms prescribe after sector p
pub open spec fn from_previous(f: &DiskFormat, bam: &Bam, p: Location, r: io::Result<Location>) -> bool {
    exists|tr: TrackResult| #[trigger] track_rule(f, bam, p.0 as int, tr) && sector_after(f, bam, p, tr, r)
}
/// the next track: GEOS or CBM rule
pub open spec fn track_rule(f: &DiskFormat, bam: &Bam, p: int, tr: TrackResult) -> bool {
    if f.geos { track_geos(f, bam, p, tr) } else { track_cbm(f, bam, p, tr) }
}
pub open spec fn sector_after(f: &DiskFormat, bam: &Bam, p: Location, tr: TrackResult, r: io::Result<Location>) -> bool {
    if tr.is_err() { r.is_err() && r->Err_0 == tr->Err_0 } else {
        let t = tr->Ok_0.0 as int;
        let n = f.tracks@[t].sectors as int;
        let start = wrap(start_sector(f, p, t, tr->Ok_0.2), n, f.geos);
        &&& r.is_ok() ==> r->Ok_0.0 == t && first_from(bam.entries@[t - 1].sector_map, n, start, (r->Ok_0).1 as int)
        &&& r.is_err() ==> r->Err_0.e == DiskError::InvalidBAM && !room(f, bam, t)
    }
}

// ---------------------------------------------------------------- P04: what the placement rules imply on a consistent map

/// counts agree with the bitmaps, no bit beyond a track's sectors, the reserved track is all in use
pub open spec fn consistent(f: &DiskFormat, bam: &Bam) -> bool {
    &&& usable(f, bam)
    &&& forall|t: int| 1 <= t <= f.last_track ==> (#[trigger] bam.entries@[t - 1]).free_sectors == crate::bam::count(bam.entries@[t - 1].sector_map, 64)
    &&& forall|t: int, s: int| 1 <= t <= f.last_track && f.tracks@[t].sectors <= s < 64 ==> !#[trigger] fr(bam.entries@[t - 1].sector_map, s)
    &&& forall|s: int| f.reserved_track > 0 ==> !#[trigger] fr(bam.entries@[f.reserved_track - 1].sector_map, s)
}
pub proof fn lemma_count_zero(map: u64, n: int)
    requires 0 <= n <= 64
    ensures crate::bam::count(map, n) >= 0, crate::bam::count(map, n) == 0 <==> forall|s: int| 0 <= s < n ==> !#[trigger] fr(map, s)
    decreases n
{
    if n > 0 { lemma_count_zero(map, n - 1); }
}
pub proof fn lemma_avail(f: &DiskFormat, bam: &Bam, t: int)
    requires consistent(f, bam), 1 <= t <= f.last_track
    ensures avail(bam, t) <==> room(f, bam, t), t == f.reserved_track ==> !avail(bam, t)
{
    let e = bam.entries@[t - 1];
    lemma_count_zero(e.sector_map, 64);
    if avail(bam, t) {
        let s = choose|s: int| 0 <= s < 64 && fr(e.sector_map, s);
        assert(fr(e.sector_map, s));
    }
}
/// an eligible sector: on the directory track for directory sectors, on a data track for file sectors
pub open spec fn eligible(f: &DiskFormat, dir: bool, l: Location) -> bool {
    exists_on(f.tracks@, f.last_track as int, l) && (if dir { l.0 == f.directory_track } else { !f.skipped(l.0 as int) })
}
pub open spec fn allocation_ok(f: &DiskFormat, bam: &Bam, dir: bool, r: io::Result<Location>) -> bool {
    &&& r.is_ok() ==> eligible(f, dir, r->Ok_0) && bam.is_free(r->Ok_0)
    &&& r.is_err() ==> r->Err_0.e == DiskError::DiskFull && forall|l: Location| eligible(f, dir, l) ==> !#[trigger] bam.is_free(l)
}
pub open spec fn next_block_rule(f: &DiskFormat, bam: &Bam, previous: Option<Location>, r: io::Result<Location>) -> bool {
    match previous {
        Some(p) => from_previous(f, bam, p, r),
        None => if f.geos { from_previous(f, bam, Location(1, 0), r) } else { first_cbm(f, bam, r) },
    }
}
pub proof fn lemma_p04(f: &DiskFormat, bam: &Bam, dir: bool, r: io::Result<Location>)
    requires wf_format(f), consistent(f, bam), alloc_weak(f, bam, dir, r)
    ensures allocation_ok(f, bam, dir, r)
{
    assert forall|t: int| 1 <= t <= f.last_track implies (#[trigger] avail(bam, t) <==> room(f, bam, t)) && (t == f.reserved_track ==> !avail(bam, t)) by { lemma_avail(f, bam, t); }
    if r.is_err() {
        assert forall|l: Location| eligible(f, dir, l) implies !#[trigger] bam.is_free(l) by {
            assert(!avail(bam, l.0 as int));
        }
    }
}
} // mod format
pub use format::*;
