pub mod validate {
use super::*;

// ---------------------------------------------------------------- what a file occupies

pub open spec fn geos_entry_sectors(dev: &ImageBlockDevice, e: &DirectoryEntry, c: Seq<Location>, cs: Seq<Seq<Location>>) -> bool {
    &&& chain(dev, e.first_sector, c)
    &&& if entry_vlir(e) { record_chains(dev, vlir_index(dev.sec(e.first_sector)), vlir_index(dev.sec(e.first_sector)).len() as int, cs) } else { cs.len() == 0 }
}
/// the structure of the file can be followed to its end
pub open spec fn scannable(dev: &ImageBlockDevice, e: &DirectoryEntry) -> bool {
    match e.scheme {
        Scheme::Linear => exists|c: Seq<Location>| #[trigger] chain(dev, e.first_sector, c),
        Scheme::Relative => e.extra is Relative && exists|ss: Seq<Location>| #[trigger] intact_rel(dev, e.extra->Relative_0.first_side_sector, e.extra->Relative_0.record_length as int, ss),
        _ => e.extra is GEOS && !(e.extra->GEOS_0.structure is Undefined) && exists|c: Seq<Location>, cs: Seq<Seq<Location>>| #[trigger] geos_entry_sectors(dev, e, c, cs),
    }
}
/// l is one of the sectors of the file
pub open spec fn owns(dev: &ImageBlockDevice, e: &DirectoryEntry, l: Location) -> bool {
    match e.scheme {
        Scheme::Linear => exists|c: Seq<Location>| #[trigger] chain(dev, e.first_sector, c) && c.contains(l),
        Scheme::Relative => e.extra is Relative && exists|ss: Seq<Location>| #[trigger] intact_rel(dev, e.extra->Relative_0.first_side_sector, e.extra->Relative_0.record_length as int, ss)
            && (side_data(dev, ss).contains(l) || ss.contains(l)),
        _ => e.extra is GEOS && !(e.extra->GEOS_0.structure is Undefined) && exists|c: Seq<Location>, cs: Seq<Seq<Location>>| #[trigger] geos_entry_sectors(dev, e, c, cs)
            && (c.contains(l) || entry_info(e) == Some(l) || in_some(cs, l)),
    }
}
/// f was opened from entry e
pub open spec fn file_of(dev: &ImageBlockDevice, f: &File, e: &DirectoryEntry) -> bool {
    match e.scheme {
        Scheme::Linear => f is Linear && same_entry(e, &f->Linear_0.entry),
        Scheme::Relative => f is Relative && same_entry(e, &f->Relative_0.entry) && e.extra is Relative && rel_ok(dev, &f->Relative_0, e.extra->Relative_0.first_side_sector)
            && f->Relative_0.record_size == e.extra->Relative_0.record_length,
        Scheme::GEOSSequential => f is GEOSSequential && same_entry(e, &f->GEOSSequential_0.entry) && geos_ok(dev, &f->GEOSSequential_0),
        Scheme::GEOSVLIR => f is GEOSVLIR && same_entry(e, &f->GEOSVLIR_0.entry) && geos_ok(dev, &f->GEOSVLIR_0),
    }
}
/// the scheme says what the extra bytes are
pub open spec fn schemed(e: &DirectoryEntry) -> bool {
    match e.scheme { Scheme::Linear => true, Scheme::Relative => e.extra is Relative, _ => e.extra is GEOS }
}
pub proof fn lemma_chains_unique(dev: &ImageBlockDevice, v: Seq<Option<Location>>, n: int, a: Seq<Seq<Location>>, b: Seq<Seq<Location>>)
    requires record_chains(dev, v, n, a), record_chains(dev, v, n, b)
    ensures a == b
{
    assert forall|k: int| 0 <= k < n implies a[k] == b[k] by {
        if v[k].is_some() { let x = v[k]->Some_0; assert(chain(dev, x, a[k])); assert(chain(dev, x, b[k])); lemma_chain_unique(dev, x, a[k], b[k]); }
        else { assert(a[k].len() == 0 && b[k].len() == 0); assert(a[k] =~= b[k]); }
    }
    assert(a =~= b);
}
/// the chain of a linear file
pub proof fn lemma_linear_owns(dev: &ImageBlockDevice, e: &DirectoryEntry, c: Seq<Location>)
    requires e.scheme == Scheme::Linear, chain(dev, e.first_sector, c)
    ensures scannable(dev, e), forall|l: Location| #[trigger] owns(dev, e, l) <==> c.contains(l)
{
    assert forall|l: Location| #[trigger] owns(dev, e, l) <==> c.contains(l) by {
        if owns(dev, e, l) { let d = choose|d: Seq<Location>| #[trigger] chain(dev, e.first_sector, d) && d.contains(l); lemma_chain_unique(dev, e.first_sector, c, d); }
    }
}
pub proof fn lemma_rel_owns(dev: &ImageBlockDevice, e: &DirectoryEntry, ss: Seq<Location>)
    requires e.scheme == Scheme::Relative, e.extra is Relative, intact_rel(dev, e.extra->Relative_0.first_side_sector, e.extra->Relative_0.record_length as int, ss)
    ensures scannable(dev, e), forall|l: Location| #[trigger] owns(dev, e, l) <==> side_data(dev, ss).contains(l) || ss.contains(l)
{
    let (s, n) = (e.extra->Relative_0.first_side_sector, e.extra->Relative_0.record_length as int);
    assert forall|l: Location| #[trigger] owns(dev, e, l) <==> side_data(dev, ss).contains(l) || ss.contains(l) by {
        if owns(dev, e, l) { let d = choose|d: Seq<Location>| #[trigger] intact_rel(dev, s, n, d) && (side_data(dev, d).contains(l) || d.contains(l)); lemma_chain_unique(dev, s, ss, d); }
    }
}
pub proof fn lemma_geos_owns(dev: &ImageBlockDevice, e: &DirectoryEntry, c: Seq<Location>, cs: Seq<Seq<Location>>)
    requires e.scheme == Scheme::GEOSSequential || e.scheme == Scheme::GEOSVLIR, e.extra is GEOS, !(e.extra->GEOS_0.structure is Undefined), geos_entry_sectors(dev, e, c, cs)
    ensures scannable(dev, e), forall|l: Location| #[trigger] owns(dev, e, l) <==> c.contains(l) || entry_info(e) == Some(l) || in_some(cs, l)
{
    assert forall|l: Location| #[trigger] owns(dev, e, l) <==> c.contains(l) || entry_info(e) == Some(l) || in_some(cs, l) by {
        if owns(dev, e, l) {
            let (d, ds) = choose|d: Seq<Location>, ds: Seq<Seq<Location>>| #[trigger] geos_entry_sectors(dev, e, d, ds) && (d.contains(l) || entry_info(e) == Some(l) || in_some(ds, l));
            lemma_chain_unique(dev, e.first_sector, c, d);
            if entry_vlir(e) { let v = vlir_index(dev.sec(e.first_sector)); lemma_chains_unique(dev, v, v.len() as int, cs, ds); } else { assert(cs =~= ds); }
        }
    }
}
/// what a file occupies depends on the entry's fields only
pub proof fn lemma_same_owner(dev: &ImageBlockDevice, a: &DirectoryEntry, b: &DirectoryEntry)
    requires a.scheme == b.scheme, a.first_sector == b.first_sector,
        a.extra is Relative == b.extra is Relative, a.extra is GEOS == b.extra is GEOS,
        a.extra is Relative ==> a.extra->Relative_0.first_side_sector == b.extra->Relative_0.first_side_sector && a.extra->Relative_0.record_length == b.extra->Relative_0.record_length,
        a.extra is GEOS ==> a.extra->GEOS_0.info_block == b.extra->GEOS_0.info_block && a.extra->GEOS_0.structure == b.extra->GEOS_0.structure,
    ensures scannable(dev, a) == scannable(dev, b), forall|l: Location| #[trigger] owns(dev, a, l) == owns(dev, b, l)
{
    assert(a.extra is GEOS ==> forall|c: Seq<Location>, cs: Seq<Seq<Location>>| geos_entry_sectors(dev, a, c, cs) == #[trigger] geos_entry_sectors(dev, b, c, cs));
    assert(a.extra is GEOS ==> forall|c: Seq<Location>, cs: Seq<Seq<Location>>| #[trigger] geos_entry_sectors(dev, a, c, cs) == geos_entry_sectors(dev, b, c, cs));
    assert(a.extra is GEOS ==> entry_info(a) == entry_info(b));
}

// ---------------------------------------------------------------- opening files

/// `&dyn FileOps`: the three implementations
pub enum FileRef<'a> { L(&'a LinearFile), R(&'a RelativeFile), G(&'a GEOSFile) }
impl LinearFile { pub fn as_ops(&self) -> (r: FileRef<'_>) ensures r == FileRef::L(self) { FileRef::L(self) } }
impl RelativeFile { pub fn as_ops(&self) -> (r: FileRef<'_>) ensures r == FileRef::R(self) { FileRef::R(self) } }
impl GEOSFile { pub fn as_ops(&self) -> (r: FileRef<'_>) ensures r == FileRef::G(self) { FileRef::G(self) } }
pub open spec fn ops_ok(dev: &ImageBlockDevice, f: &FileRef<'_>) -> bool { match f { FileRef::G(g) => geos_ok(dev, g), _ => true } }
pub open spec fn ops_scannable(dev: &ImageBlockDevice, f: &FileRef<'_>) -> bool {
    match f {
        FileRef::L(x) => exists|c: Seq<Location>| #[trigger] chain(dev, x.entry.first_sector, c),
        FileRef::R(x) => true,
        FileRef::G(x) => exists|c: Seq<Location>, cs: Seq<Seq<Location>>| #[trigger] geos_sectors(dev, x, c, cs),
    }
}
pub open spec fn ops_owns(dev: &ImageBlockDevice, f: &FileRef<'_>, v: Seq<Location>) -> bool {
    match f {
        FileRef::L(x) => exists|c: Seq<Location>| #[trigger] chain(dev, x.entry.first_sector, c) && forall|l: Location| v.contains(l) <==> c.contains(l),
        FileRef::R(x) => forall|l: Location| v.contains(l) <==> x.data_sectors@.contains(l) || x.side_sectors@.contains(l),
        FileRef::G(x) => exists|c: Seq<Location>, cs: Seq<Seq<Location>>| #[trigger] geos_sectors(dev, x, c, cs) && forall|l: Location| v.contains(l) <==> geos_owns(x, c, cs, l),
    }
}
impl<'a> FileRef<'a> {
    pub fn occupied_sectors(&self, hb: &ImageBlockDevice) -> (r: io::Result<Vec<Location>>)
        requires hb.wf(), ops_ok(hb, self)
        ensures r.is_ok() == ops_scannable(hb, self), r.is_ok() ==> r->Ok_0@.no_duplicates() && ops_owns(hb, self, r->Ok_0@)
    { match self { FileRef::L(f) => f.occupied_sectors(hb), FileRef::R(f) => f.occupied_sectors(), FileRef::G(f) => f.occupied_sectors(hb) } }
}
pub open spec fn known_file(f: &File) -> bool { f is Linear || f is Relative || f is GEOSSequential || f is GEOSVLIR }
impl File {
//@props P09 P12 P15 P16 P17
//@fn src/disk/file.rs File::open_from_entry
//@ret r
//@sig /open_from_entry<T: Disk>\(disk: &T,/ => open_from_entry(disk: &D64, hb: &ImageBlockDevice,
//@sig /\bwhere\s+T: \?Sized,?/ =>
//@sub /(RelativeFile|GEOSFile)::new\(/ => \1::new(hb, 
//@spec
    requires hb.wf(), schemed(entry)
    ensures
        r.is_ok() ==> disk.bam.is_some() && file_of(hb, &r->Ok_0, entry),
        r.is_err() && disk.bam.is_some() ==> !scannable(hb, entry), // [P15]
//@endfn
//@fn src/disk/file.rs File::get_specialized_file
//@ret r
//@sig /&dyn FileOps/ => FileRef<'_>
//@sub /unimplemented!\(\)/ => vstd::pervasive::unreached()
//@sub /=> f,/ => => f.as_ops(),
//@spec
    requires known_file(self)
    ensures match self { File::Linear(f) => r == FileRef::L(f), File::Relative(f) => r == FileRef::R(f), File::GEOSSequential(f) => r == FileRef::G(f), File::GEOSVLIR(f) => r == FileRef::G(f), _ => false }
//@endfn
//@fn src/disk/file.rs FileOps for File::occupied_sectors
//@ret r
//@sig /&self/ => &self, hb: &ImageBlockDevice, Ghost(e): Ghost<&DirectoryEntry>
//@sub /\.occupied_sectors\(\)/ => .occupied_sectors(hb)
//@spec
    requires hb.wf(), file_of(hb, self, e), schemed(e)
    ensures r.is_ok() == scannable(hb, e), r.is_ok() ==> r->Ok_0@.no_duplicates() && forall|l: Location| #[trigger] r->Ok_0@.contains(l) <==> owns(hb, e, l)
//@start
    proof { lemma_file_owns(hb, self, e); }
//@endfn
}
pub open spec fn fref(f: &File) -> FileRef<'_> {
    match f { File::Linear(f) => FileRef::L(f), File::Relative(f) => FileRef::R(f), File::GEOSSequential(f) => FileRef::G(f), File::GEOSVLIR(f) => FileRef::G(f), _ => arbitrary() }
}
pub proof fn lemma_file_owns(dev: &ImageBlockDevice, f: &File, e: &DirectoryEntry)
    requires dev.wf(), file_of(dev, f, e), schemed(e)
    ensures
        known_file(f), ops_ok(dev, &fref(f)), ops_scannable(dev, &fref(f)) == scannable(dev, e),
        forall|v: Seq<Location>| #[trigger] ops_owns(dev, &fref(f), v) ==> forall|l: Location| #[trigger] v.contains(l) <==> owns(dev, e, l),
{
    match e.scheme {
        Scheme::Linear => {
            assert forall|v: Seq<Location>| #[trigger] ops_owns(dev, &fref(f), v) implies forall|l: Location| #[trigger] v.contains(l) <==> owns(dev, e, l) by {
                let c = choose|c: Seq<Location>| #[trigger] chain(dev, e.first_sector, c) && forall|l: Location| v.contains(l) <==> c.contains(l);
                lemma_linear_owns(dev, e, c);
            }
        },
        Scheme::Relative => { lemma_rel_owns(dev, e, f->Relative_0.side_sectors@); },
        _ => {
            let g = if f is GEOSSequential { &f->GEOSSequential_0 } else { &f->GEOSVLIR_0 };
            assert(fref(f) == FileRef::G(g));
            assert forall|c: Seq<Location>, cs: Seq<Seq<Location>>| #[trigger] geos_sectors(dev, g, c, cs) <==> geos_entry_sectors(dev, e, c, cs) by { }
            assert forall|v: Seq<Location>| #[trigger] ops_owns(dev, &fref(f), v) implies forall|l: Location| #[trigger] v.contains(l) <==> owns(dev, e, l) by {
                let (c, cs) = choose|c: Seq<Location>, cs: Seq<Seq<Location>>| #[trigger] geos_sectors(dev, g, c, cs) && forall|l: Location| v.contains(l) <==> geos_owns(g, c, cs, l);
                lemma_geos_owns(dev, e, c, cs);
            }
            if scannable(dev, e) { let (c, cs) = choose|c: Seq<Location>, cs: Seq<Seq<Location>>| #[trigger] geos_entry_sectors(dev, e, c, cs); assert(geos_sectors(dev, g, c, cs)); }
            if ops_scannable(dev, &fref(f)) { let (c, cs) = choose|c: Seq<Location>, cs: Seq<Seq<Location>>| #[trigger] geos_sectors(dev, g, c, cs); assert(geos_entry_sectors(dev, e, c, cs)); }
        },
    }
}

// ---------------------------------------------------------------- sets and maps of sectors

impl HashSet<Location> {
    /// HashSet::from_iter over the elements of a slice
    #[verifier::external_body]
    pub fn from_slice_(s: &[Location]) -> (r: HashSet<Location>)
        ensures r@ == s@.to_set()
    { unimplemented!() }
    /// HashSet::iter: every element once, in some order
    #[verifier::external_body]
    pub fn elements_(&self) -> (r: Vec<Location>)
        ensures r@.no_duplicates(), forall|l: Location| #[trigger] r@.contains(l) <==> self@.contains(l)
    { unimplemented!() }
    /// HashSet::intersection
    #[verifier::external_body]
    pub fn intersection_(&self, o: &HashSet<Location>) -> (r: Vec<Location>)
        ensures r@.no_duplicates(), forall|l: Location| #[trigger] r@.contains(l) <==> self@.contains(l) && o@.contains(l)
    { unimplemented!() }
}
/// std::collections::HashMap
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { s: Vec<(K, V)> }
impl HashMap<Location, Petscii> {
    pub uninterp spec fn view(&self) -> Map<Location, Seq<u8>>;
    #[verifier::external_body]
    pub fn new() -> (r: HashMap<Location, Petscii>)
        ensures r@ == Map::<Location, Seq<u8>>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, l: Location, n: Petscii) -> (r: Option<Petscii>)
        ensures final(self)@ == old(self)@.insert(l, n@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_(&self, l: &Location) -> (r: Option<Petscii>)
        ensures r.is_some() <==> self@.dom().contains(*l), r.is_some() ==> (r->Some_0)@ == self@[*l]
    { unimplemented!() }
    /// the keys as a set
    #[verifier::external_body]
    pub fn key_set_(&self) -> (r: HashSet<Location>)
        ensures forall|l: Location| #[trigger] r@.contains(l) <==> self@.dom().contains(l)
    { unimplemented!() }
}
/// Petscii::from(&str), contents not needed here
#[verifier::external_body]
pub fn petscii_of(s: &str) -> (r: Petscii)
{ unimplemented!() }

// ---------------------------------------------------------------- reports

//@item src/disk/validation.rs enum ValidationError

pub open spec fn rep_system(es: Seq<ValidationError>, l: Location) -> bool { exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]) is SystemSectorNotAllocated && es[i]->SystemSectorNotAllocated_0 == l }
pub open spec fn rep_misallocated(es: Seq<ValidationError>, l: Location) -> bool { exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]) is SectorMisallocated && es[i]->SectorMisallocated_0 == l }
pub open spec fn rep_misoccupied(es: Seq<ValidationError>, l: Location) -> bool { exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]) is SectorMisoccupied && es[i]->SectorMisoccupied_0 == l }
pub open spec fn rep_over(es: Seq<ValidationError>, l: Location) -> bool { exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]) is SectorOveroccupied && es[i]->SectorOveroccupied_0 == l }
pub open spec fn rep_scan(es: Seq<ValidationError>, n: Seq<u8>) -> bool { exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]) is FileScanError && es[i]->FileScanError_1@ == n }
pub open spec fn rep_unknown(es: Seq<ValidationError>) -> bool { exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]) is Unknown }
/// one more report
pub proof fn lemma_report(es: Seq<ValidationError>, e: ValidationError)
    ensures
        forall|l: Location| #[trigger] rep_system(es.push(e), l) <==> rep_system(es, l) || e is SystemSectorNotAllocated && e->SystemSectorNotAllocated_0 == l,
        forall|l: Location| #[trigger] rep_misallocated(es.push(e), l) <==> rep_misallocated(es, l) || e is SectorMisallocated && e->SectorMisallocated_0 == l,
        forall|l: Location| #[trigger] rep_misoccupied(es.push(e), l) <==> rep_misoccupied(es, l) || e is SectorMisoccupied && e->SectorMisoccupied_0 == l,
        forall|l: Location| #[trigger] rep_over(es.push(e), l) <==> rep_over(es, l) || e is SectorOveroccupied && e->SectorOveroccupied_0 == l,
        forall|n: Seq<u8>| #[trigger] rep_scan(es.push(e), n) <==> rep_scan(es, n) || e is FileScanError && e->FileScanError_1@ == n,
        rep_unknown(es.push(e)) <==> rep_unknown(es) || e is Unknown,
{
    let f = es.push(e);
    assert(forall|i: int| 0 <= i < es.len() ==> #[trigger] es[i] == f[i]);
    assert(f[es.len() as int] == e);
    assert forall|l: Location| #[trigger] rep_system(f, l) <==> rep_system(es, l) || e is SystemSectorNotAllocated && e->SystemSectorNotAllocated_0 == l by {
        if rep_system(es, l) { let i = choose|i: int| 0 <= i < es.len() && (#[trigger] es[i]) is SystemSectorNotAllocated && es[i]->SystemSectorNotAllocated_0 == l; assert(f[i] == es[i]); }
    }
    assert forall|l: Location| #[trigger] rep_misallocated(f, l) <==> rep_misallocated(es, l) || e is SectorMisallocated && e->SectorMisallocated_0 == l by {
        if rep_misallocated(es, l) { let i = choose|i: int| 0 <= i < es.len() && (#[trigger] es[i]) is SectorMisallocated && es[i]->SectorMisallocated_0 == l; assert(f[i] == es[i]); }
    }
    assert forall|l: Location| #[trigger] rep_misoccupied(f, l) <==> rep_misoccupied(es, l) || e is SectorMisoccupied && e->SectorMisoccupied_0 == l by {
        if rep_misoccupied(es, l) { let i = choose|i: int| 0 <= i < es.len() && (#[trigger] es[i]) is SectorMisoccupied && es[i]->SectorMisoccupied_0 == l; assert(f[i] == es[i]); }
    }
    assert forall|l: Location| #[trigger] rep_over(f, l) <==> rep_over(es, l) || e is SectorOveroccupied && e->SectorOveroccupied_0 == l by {
        if rep_over(es, l) { let i = choose|i: int| 0 <= i < es.len() && (#[trigger] es[i]) is SectorOveroccupied && es[i]->SectorOveroccupied_0 == l; assert(f[i] == es[i]); }
    }
    assert forall|n: Seq<u8>| #[trigger] rep_scan(f, n) <==> rep_scan(es, n) || e is FileScanError && e->FileScanError_1@ == n by {
        if rep_scan(es, n) { let i = choose|i: int| 0 <= i < es.len() && (#[trigger] es[i]) is FileScanError && es[i]->FileScanError_1@ == n; assert(f[i] == es[i]); }
    }
    if rep_unknown(es) { let i = choose|i: int| 0 <= i < es.len() && (#[trigger] es[i]) is Unknown; assert(f[i] == es[i]); }
}

// ---------------------------------------------------------------- the directory as a list of owners

/// the file in slot p occupies l
pub open spec fn slot_owns(dev: &ImageBlockDevice, p: Position, l: Location) -> bool { exists|e: DirectoryEntry| #[trigger] decodes(&e, slot(dev, p)) && owns(dev, &e, l) }
pub open spec fn slot_scannable(dev: &ImageBlockDevice, p: Position) -> bool { exists|e: DirectoryEntry| #[trigger] decodes(&e, slot(dev, p)) && scannable(dev, &e) }
pub proof fn lemma_slot_owner(dev: &ImageBlockDevice, p: Position, e: &DirectoryEntry)
    requires decodes(e, slot(dev, p))
    ensures schemed(e), slot_scannable(dev, p) == scannable(dev, e), forall|l: Location| #[trigger] slot_owns(dev, p, l) == owns(dev, e, l)
{
    assert forall|f: DirectoryEntry| #[trigger] decodes(&f, slot(dev, p)) implies scannable(dev, &f) == scannable(dev, e) && forall|l: Location| #[trigger] owns(dev, &f, l) == owns(dev, e, l) by {
        lemma_same_owner(dev, &f, e);
    }
    assert(decodes(&*e, slot(dev, p)));
}
/// one of the first k slots has a file that occupies l
pub open spec fn taken_by(dev: &ImageBlockDevice, all: Seq<Position>, k: int, l: Location) -> bool { exists|j: int| 0 <= j < k && live(dev, #[trigger] all[j]) && slot_owns(dev, all[j], l) }
/// one of the first k slots has a file that occupies l, and so does another owner before it
pub open spec fn contested(dev: &ImageBlockDevice, base: ISet<Location>, all: Seq<Position>, k: int, l: Location) -> bool {
    exists|j: int| 0 <= j < k && live(dev, #[trigger] all[j]) && slot_owns(dev, all[j], l) && (base.contains(l) || taken_by(dev, all, j, l))
}
/// one of the first k slots has a file of this name that cannot be followed
pub open spec fn unscannable(dev: &ImageBlockDevice, all: Seq<Position>, k: int, n: Seq<u8>) -> bool { exists|j: int| 0 <= j < k && live(dev, #[trigger] all[j]) && !slot_scannable(dev, all[j]) && name_at(dev, all[j]) == n }
/// the first k slots hold entries, where they are not scratched
#[verifier::opaque]
pub open spec fn all_read(dev: &ImageBlockDevice, all: Seq<Position>, k: int) -> bool { forall|j: int| 0 <= j < k && live(dev, #[trigger] all[j]) ==> exists|e: DirectoryEntry| #[trigger] decodes(&e, slot(dev, all[j])) }
/// the map and the reports after the first k slots
pub open spec fn seen_slots(dev: &ImageBlockDevice, base: ISet<Location>, all: Seq<Position>, k: int, m: Map<Location, Seq<u8>>, es: Seq<ValidationError>) -> bool {
    &&& forall|l: Location| #[trigger] m.dom().contains(l) <==> base.contains(l) || taken_by(dev, all, k, l)
    &&& forall|l: Location| #[trigger] rep_over(es, l) <==> contested(dev, base, all, k, l)
    &&& forall|n: Seq<u8>| #[trigger] rep_scan(es, n) <==> unscannable(dev, all, k, n)
    &&& forall|l: Location| !#[trigger] rep_system(es, l)
    &&& forall|l: Location| !#[trigger] rep_misallocated(es, l)
    &&& forall|l: Location| !#[trigger] rep_misoccupied(es, l)
    &&& !rep_unknown(es) && all_read(dev, all, k)
}
pub proof fn lemma_seen_none(dev: &ImageBlockDevice, base: ISet<Location>, all: Seq<Position>, m: Map<Location, Seq<u8>>)
    requires forall|l: Location| #[trigger] m.dom().contains(l) <==> base.contains(l)
    ensures seen_slots(dev, base, all, 0, m, Seq::empty())
{ reveal(all_read); }
/// scratched slots do not matter
pub proof fn lemma_slots_passed(dev: &ImageBlockDevice, start: Location, border: Option<Location>, base: ISet<Location>, w: Seq<Location>, dn: bool, k: int, w2: Seq<Location>, dn2: bool, k2: int, m: Map<Location, Seq<u8>>, es: Seq<ValidationError>)
    requires seen_slots(dev, base, slots(dev, w, dn, border), k, m, es), passed(dev, start, border, w, dn, k, w2, dn2, k2), 0 <= k <= slots(dev, w, dn, border).len()
    ensures seen_slots(dev, base, slots(dev, w2, dn2, border), k2, m, es)
{
    hide(live);
    let (a, b) = (slots(dev, w, dn, border), slots(dev, w2, dn2, border));
    assert forall|j: int| 0 <= j < k implies a[j] == #[trigger] b[j] by { assert(b[j] == b.take(a.len() as int)[j]); }
    assert(all_read(dev, b, k2)) by {
        reveal(all_read);
        assert forall|j: int| 0 <= j < k2 && live(dev, #[trigger] b[j]) implies exists|e: DirectoryEntry| #[trigger] decodes(&e, slot(dev, b[j])) by { assert(j < k); assert(a[j] == b[j]); assert(live(dev, a[j])); }
    }
    assert forall|i: int, l: Location| 0 <= i <= k implies #[trigger] taken_by(dev, a, i, l) == taken_by(dev, b, i, l) by {
        if taken_by(dev, a, i, l) { let j = choose|j: int| 0 <= j < i && live(dev, #[trigger] a[j]) && slot_owns(dev, a[j], l); assert(a[j] == b[j]); }
        if taken_by(dev, b, i, l) { let j = choose|j: int| 0 <= j < i && live(dev, #[trigger] b[j]) && slot_owns(dev, b[j], l); assert(a[j] == b[j]); }
    }
    assert forall|l: Location| #[trigger] taken_by(dev, b, k2, l) == taken_by(dev, a, k, l) by {
        assert(taken_by(dev, a, k, l) == taken_by(dev, b, k, l));
        if taken_by(dev, b, k2, l) { let j = choose|j: int| 0 <= j < k2 && live(dev, #[trigger] b[j]) && slot_owns(dev, b[j], l); assert(j < k); }
        if taken_by(dev, b, k, l) { let j = choose|j: int| 0 <= j < k && live(dev, #[trigger] b[j]) && slot_owns(dev, b[j], l); assert(live(dev, b[j])); }
    }
    assert forall|l: Location| #[trigger] contested(dev, base, b, k2, l) == contested(dev, base, a, k, l) by {
        if contested(dev, base, b, k2, l) {
            let j = choose|j: int| 0 <= j < k2 && live(dev, #[trigger] b[j]) && slot_owns(dev, b[j], l) && (base.contains(l) || taken_by(dev, b, j, l));
            assert(j < k); assert(a[j] == b[j]); assert(taken_by(dev, a, j, l) == taken_by(dev, b, j, l));
        }
        if contested(dev, base, a, k, l) {
            let j = choose|j: int| 0 <= j < k && live(dev, #[trigger] a[j]) && slot_owns(dev, a[j], l) && (base.contains(l) || taken_by(dev, a, j, l));
            assert(a[j] == b[j]); assert(taken_by(dev, a, j, l) == taken_by(dev, b, j, l));
        }
    }
    assert forall|n: Seq<u8>| #[trigger] unscannable(dev, b, k2, n) == unscannable(dev, a, k, n) by {
        if unscannable(dev, b, k2, n) { let j = choose|j: int| 0 <= j < k2 && live(dev, #[trigger] b[j]) && !slot_scannable(dev, b[j]) && name_at(dev, b[j]) == n; assert(j < k); assert(a[j] == b[j]); }
        if unscannable(dev, a, k, n) { let j = choose|j: int| 0 <= j < k && live(dev, #[trigger] a[j]) && !slot_scannable(dev, a[j]) && name_at(dev, a[j]) == n; assert(a[j] == b[j]); }
    }
}
/// one more entry
pub proof fn lemma_slot_more(dev: &ImageBlockDevice, base: ISet<Location>, all: Seq<Position>, k: int, e: &DirectoryEntry, m: Map<Location, Seq<u8>>, es: Seq<ValidationError>, m2: Map<Location, Seq<u8>>, es2: Seq<ValidationError>)
    requires
        seen_slots(dev, base, all, k, m, es), 0 <= k < all.len(), live(dev, all[k]), decodes(e, slot(dev, all[k])),
        forall|l: Location| !#[trigger] rep_system(es2, l), forall|l: Location| !#[trigger] rep_misallocated(es2, l), forall|l: Location| !#[trigger] rep_misoccupied(es2, l), !rep_unknown(es2),
        scannable(dev, e) ==> (forall|l: Location| #[trigger] m2.dom().contains(l) <==> m.dom().contains(l) || owns(dev, e, l))
            && (forall|l: Location| #[trigger] rep_over(es2, l) <==> rep_over(es, l) || owns(dev, e, l) && m.dom().contains(l))
            && (forall|n: Seq<u8>| #[trigger] rep_scan(es2, n) <==> rep_scan(es, n)),
        !scannable(dev, e) ==> m2 == m && (forall|l: Location| #[trigger] rep_over(es2, l) <==> rep_over(es, l))
            && (forall|n: Seq<u8>| #[trigger] rep_scan(es2, n) <==> rep_scan(es, n) || n == e.filename@),
        !scannable(dev, e) ==> forall|l: Location| !owns(dev, e, l),
    ensures seen_slots(dev, base, all, k + 1, m2, es2)
{
    hide(live); hide(scannable); hide(owns);
    lemma_slot_owner(dev, all[k], e);
    let p = all[k];
    assert(all_read(dev, all, k + 1)) by {
        reveal(all_read);
        assert forall|j: int| 0 <= j < k + 1 && live(dev, #[trigger] all[j]) implies exists|e: DirectoryEntry| #[trigger] decodes(&e, slot(dev, all[j])) by { if j == k { let f = *e; assert(decodes(&f, slot(dev, all[j]))); } }
    }
    assert(name_at(dev, p) == e.filename@);
    assert forall|l: Location| #[trigger] taken_by(dev, all, k + 1, l) == (taken_by(dev, all, k, l) || owns(dev, e, l)) by {
        assert(slot_owns(dev, all[k], l) == owns(dev, e, l));
        if taken_by(dev, all, k + 1, l) { let j = choose|j: int| 0 <= j < k + 1 && live(dev, #[trigger] all[j]) && slot_owns(dev, all[j], l); if j < k { assert(taken_by(dev, all, k, l)); } }
        if taken_by(dev, all, k, l) { let j = choose|j: int| 0 <= j < k && live(dev, #[trigger] all[j]) && slot_owns(dev, all[j], l); assert(live(dev, all[j])); }
    }
    assert forall|l: Location| #[trigger] contested(dev, base, all, k + 1, l) == (contested(dev, base, all, k, l) || owns(dev, e, l) && (base.contains(l) || taken_by(dev, all, k, l))) by {
        assert(slot_owns(dev, all[k], l) == owns(dev, e, l));
        if contested(dev, base, all, k + 1, l) {
            let j = choose|j: int| 0 <= j < k + 1 && live(dev, #[trigger] all[j]) && slot_owns(dev, all[j], l) && (base.contains(l) || taken_by(dev, all, j, l));
            if j < k { assert(contested(dev, base, all, k, l)); }
        }
        if contested(dev, base, all, k, l) {
            let j = choose|j: int| 0 <= j < k && live(dev, #[trigger] all[j]) && slot_owns(dev, all[j], l) && (base.contains(l) || taken_by(dev, all, j, l));
            assert(live(dev, all[j]));
        }
    }
    assert forall|n: Seq<u8>| #[trigger] unscannable(dev, all, k + 1, n) == (unscannable(dev, all, k, n) || !scannable(dev, e) && n == e.filename@) by {
        if unscannable(dev, all, k + 1, n) { let j = choose|j: int| 0 <= j < k + 1 && live(dev, #[trigger] all[j]) && !slot_scannable(dev, all[j]) && name_at(dev, all[j]) == n; if j < k { assert(unscannable(dev, all, k, n)); } }
        if unscannable(dev, all, k, n) { let j = choose|j: int| 0 <= j < k && live(dev, #[trigger] all[j]) && !slot_scannable(dev, all[j]) && name_at(dev, all[j]) == n; assert(live(dev, all[j])); }
    }
}

// ---------------------------------------------------------------- validation

/// what the system occupies: its own sectors, the directory ls and the GEOS border sector
pub open spec fn system_owned(f: &DiskFormat, ls: Seq<Location>, border: Option<Location>, l: Location) -> bool { system_sector(f, l) || ls.contains(l) || border == Some(l) }
pub open spec fn system_set(f: &DiskFormat, ls: Seq<Location>, border: Option<Location>) -> ISet<Location> { ISet::new(|l: Location| system_owned(f, ls, border, l)) }
/// l is among the first k of v
pub open spec fn among(v: Seq<Location>, k: int, l: Location) -> bool { exists|j: int| 0 <= j < k && #[trigger] v[j] == l }
pub proof fn lemma_among(v: Seq<Location>, k: int)
    requires 0 <= k < v.len()
    ensures forall|l: Location| #[trigger] among(v, k + 1, l) <==> among(v, k, l) || v[k] == l
{
    assert forall|l: Location| #[trigger] among(v, k + 1, l) <==> among(v, k, l) || v[k] == l by {
        if among(v, k, l) { let j = choose|j: int| 0 <= j < k && #[trigger] v[j] == l; assert(v[j] == l); }
        if among(v, k + 1, l) { let j = choose|j: int| 0 <= j < k + 1 && #[trigger] v[j] == l; if j < k { assert(v[j] == l); } }
    }
}
pub proof fn lemma_among_all(v: Seq<Location>)
    ensures forall|l: Location| #[trigger] among(v, v.len() as int, l) <==> v.contains(l), forall|l: Location| !#[trigger] among(v, 0, l)
{
    assert forall|l: Location| #[trigger] among(v, v.len() as int, l) <==> v.contains(l) by {
        if v.contains(l) { let j = choose|j: int| 0 <= j < v.len() && v[j] == l; assert(v[j] == l); }
    }
}
/// the reports about the disk with directory ls are exactly its inconsistencies
pub open spec fn validated(dev: &ImageBlockDevice, bam: &Bam, f: &DiskFormat, ls: Seq<Location>, border: Option<Location>, es: Seq<ValidationError>) -> bool {
    let all = all_slots(dev, ls, border);
    let n = all.len() as int;
    &&& forall|l: Location| #[trigger] rep_system(es, l) <==> system_sector(f, l) && !(bam.has(l) && !bam.is_free(l))
    &&& forall|l: Location| #[trigger] rep_misallocated(es, l) <==> bam.has(l) && !bam.is_free(l) && !system_owned(f, ls, border, l) && !taken_by(dev, all, n, l)
    &&& forall|l: Location| #[trigger] rep_misoccupied(es, l) <==> bam.has(l) && bam.is_free(l) && !system_sector(f, l) && (system_owned(f, ls, border, l) || taken_by(dev, all, n, l))
    &&& forall|l: Location| #[trigger] rep_over(es, l) <==> contested(dev, system_set(f, ls, border), all, n, l)
    &&& forall|x: Seq<u8>| #[trigger] rep_scan(es, x) <==> unscannable(dev, all, n, x)
    &&& !rep_unknown(es) && all_read(dev, all, n)
}
pub proof fn lemma_unscannable_owns_nothing(dev: &ImageBlockDevice, e: &DirectoryEntry)
    requires !scannable(dev, e)
    ensures forall|l: Location| !owns(dev, e, l)
{
    assert forall|l: Location| !owns(dev, e, l) by { if owns(dev, e, l) { assert(scannable(dev, e)); } }
}

//@props P12 P15
//@fn src/disk/validation.rs hashset_from_locations
//@ret r
//@sub /HashSet::from_iter\((\w+)\.iter\(\)\.(?:cloned|copied)\(\)\)/ => HashSet::from_slice_(\1)
//@spec
    ensures r@ == data@.to_set()
//@endfn
//@fn src/disk/validation.rs invert_locations
//@ret r
//@sub? /for (\w+) in ([\w.]+)\.\.=([\w.]+) \{/ => let mut t_: u16 = \2 as u16; let end_: u16 = \3 as u16; while t_ <= end_ { let \1: u8 = t_ as u8; t_ = t_ + 1;
//@sub? /let mut (\w+) = HashSet::new\(\);/ => let mut \1: HashSet<Location> = HashSet::new();
//@spec
    requires wf_format(format), format.first_track == 1
    ensures forall|l: Location| #[trigger] r@.contains(l) <==> exists_on(format.tracks@, format.last_track as int, l) && !locations@.contains(l)
//@loop 1
    invariant
        wf_format(format), format.first_track == 1, 1 <= t_ <= end_ + 1, end_ == format.last_track,
        forall|l: Location| #[trigger] inverse@.contains(l) <==> exists_on(format.tracks@, format.last_track as int, l) && !locations@.contains(l) && l.0 < t_,
    decreases end_ + 1 - t_
//@loop 2 it
    invariant
        wf_format(format), 1 <= track <= format.last_track, t_ == track + 1, end_ == format.last_track,
        it.seq().len() == format.tracks@[track as int].sectors, forall|k: int| 0 <= k < it.seq().len() ==> #[trigger] it.seq()[k] == k,
        forall|l: Location| #[trigger] inverse@.contains(l) <==> exists_on(format.tracks@, format.last_track as int, l) && !locations@.contains(l) && (l.0 < track || l.0 == track && l.1 < it.index@),
//@endfn
//@fn src/disk/validation.rs scan_file
//@ret r
//@sig /scan_file<T: Disk>\(disk: &T,/ => scan_file(disk: &D64, hb: &ImageBlockDevice,
//@sig /\bwhere\s+T: \?Sized,?/ =>
//@sub /disk\.open_file_from_entry\((\w+)\)\?\.occupied_sectors\(\)/ => disk.open_file_from_entry(hb, \1)?.occupied_sectors(hb, Ghost(\1))
//@spec
    requires hb.wf(), schemed(entry), disk.bam.is_some()
    ensures r.is_ok() == scannable(hb, entry), r.is_ok() ==> r->Ok_0@.no_duplicates() && forall|l: Location| #[trigger] r->Ok_0@.contains(l) <==> owns(hb, entry, l)
//@endfn
impl D64 {
//@props P12 P15
//@fn src/disk/mod.rs Disk::open_file_from_entry
//@ret r
//@sig /&self/ => &self, hb: &ImageBlockDevice
//@sub /File::open_from_entry\(self, (\w+)\)/ => File::open_from_entry(self, hb, \1)
//@spec
    requires hb.wf(), schemed(entry)
    ensures
        r.is_ok() ==> self.bam.is_some() && file_of(hb, &r->Ok_0, entry),
        r.is_err() && self.bam.is_some() ==> !scannable(hb, entry),
//@endfn
}
//@props P12 P15
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@fn src/disk/validation.rs validate
//@ret r
//@sig /validate<T: Disk>\(disk: &T\)/ => validate(disk: &D64, hb: &ImageBlockDevice, hm: &Bam)
//@sig /\bwhere\s+T: \?Sized,?/ =>
//@sub? /static (\w+): &str =/ => let \1: &str =
//@sub /(\w+|"[^"]*")\.into\(\)/ => petscii_of(\1)
//@sub /(\w+)\.borrow(?:_mut)?\(\)/ => (&*hm)
//@sub /hashset_from_locations\(&([^;]*)\);/ => hashset_from_locations(\1.as_slice());
//@sub /for (\w+) in (system_sectors)\.iter\(\) \{/ => let v_ = \2.elements_(); for \1 in v_.iter() {
//@sub /(ChainIterator::new\(disk\.blocks\(\), (\w+)\))\s*(?:\.map\(\|(\w+)\| \3\.map\(\|(\w+)\| \4\.location\)\)\s*\.collect::<io::Result<Vec<_>>>\(\)|\.locations\(\))\?;/ => \1.locations(hb, Ghost(\2))?; proof { c = directory_locations@; base = system_set(format, c, border); }
//@sub /for (\w+) in disk\.iter\(\) \{/ => let mut it_ = disk.iter(hb); loop { let x_ = it_.next(hb, Ghost(start), Ghost(border), Ghost(w), Ghost(dn), Ghost(k)); let \1 = match x_ { None => { break; } Some(v_) => v_ };
//@sub /scan_file\(disk, (&?\w+)\)/ => scan_file(disk, hb, \1)
//@sub /match (\w+)\.entry\(\*(\w+)\) \{\s*Entry::Occupied\((\w+)\) => \{(.*?)\}\s*Entry::Vacant\((\w+)\) => \{\s*\5\.insert\((.*?)\);\s*\}\s*\}/ => match \1.get_(\2) { Some(\3) => {\4} None => { \1.insert(*\2, \6); } }
//@sub /(errors\.push\(ValidationError::FileScanError\(.*?\)\);\s*)continue;/ => \1 proof { lemma_report(es0, errors@.last()); assert(errors@ =~= es0.push(errors@.last())); lemma_unscannable_owns_nothing(hb, &entry); lemma_slot_more(hb, base, slots(hb, w, dn, border), k, &entry, m0, es0, occupied_sector_map@, errors@); k = k + 1; } continue;
//@sub /(\w+)\.get\(\)\.clone\(\)/ => \1.clone()
//@sub /HashSet::from_iter\((\w+)\.keys\(\)\.(?:copied|cloned)\(\)\)/ => \1.key_set_()
//@sub /for (\w+) in (\w+)\.intersection\(&(\w+)\) \{/ => let v_ = \2.intersection_(&\3); for \1 in v_.iter() {
//@sub /(\w+)\s*\.get\((\w+)\)\s*\.cloned\(\)\s*\.unwrap_or_else\(\|\| (.*?)\);/ => match \1.get_(\2) { Some(n_) => n_, None => \3 };
//@spec
    requires hb.wf(), hm.wf(), disk.format.is_some() ==> disk.format->Some_0 == hm.format, hm.format.first_track == 1
    ensures
        r.is_ok() ==> disk.format.is_some() && disk.header.is_some() && disk.bam.is_some()
            && exists|ls: Seq<Location>| #[trigger] dir_chain(hb, dir_start(disk), disk_border(disk), ls) && validated(hb, hm, &disk.format->Some_0, ls, disk_border(disk), r->Ok_0@), // [P15]
        r.is_err() ==> disk.format.is_none() || disk.header.is_none() || disk.bam.is_none() || no_dir(hb, dir_start(disk), disk_border(disk)), // [P15]
//@start
    hide(walk); hide(before); hide(dir_slots); hide(decodes); hide(owns); hide(scannable); hide(live); hide(seen_slots); hide(slot_owns); hide(taken_by); hide(contested); hide(unscannable);
    hide(rep_system); hide(rep_misallocated); hide(rep_misoccupied); hide(rep_over); hide(rep_scan); hide(rep_unknown);
    let ghost start = dir_start(disk);
    let ghost border = disk_border(disk);
    let ghost mut w: Seq<Location> = Seq::empty();
    let ghost mut dn = false;
    let ghost mut k: int = 0;
    let ghost mut c: Seq<Location> = Seq::empty();
    let ghost mut base: ISet<Location> = ISet::empty();
    let ghost mut es0: Seq<ValidationError> = Seq::empty();
    let ghost mut m0: Map<Location, Seq<u8>> = Map::empty();
//@beforeloop 1
    proof { lemma_among_all(v_@); }
//@loop 1 it
    invariant
        it.seq().len() == v_@.len(), forall|j: int| 0 <= j < v_@.len() ==> *#[trigger] it.seq()[j] == v_@[j],
        forall|l: Location| #[trigger] occupied_sector_map@.dom().contains(l) <==> among(v_@, it.index@, l),
//@loopstart 1
    proof { lemma_among(v_@, it.index@); }
//@beforeloop 2
    let ghost dl = directory_locations@;
    proof {
        lemma_among_all(dl);
        assert forall|l: Location| dl.contains(l) <==> c.contains(l) || border == Some(l) by { if border.is_some() { lemma_push_contains(c, border->Some_0, l); } }
    }
//@loop 2 it
    invariant
        it.seq() == dl,
        forall|l: Location| #[trigger] occupied_sector_map@.dom().contains(l) <==> system_sectors@.contains(l) || among(dl, it.index@, l),
//@loopstart 2
    proof { lemma_among(dl, it.index@); }
//@beforeloop 3
    proof {
        assert(walk(hb, start, w)) by { reveal(walk); }
        lemma_dir_facts(hb, &it_, start, border, w, dn, k);
        assert(errors@ =~= Seq::empty());
        lemma_seen_none(hb, base, slots(hb, w, dn, border), occupied_sector_map@);
    }
//@loop 3
    invariant
        it_.error.is_none(), dir_at(hb, &it_, start, border, w, dn, k), walk(hb, start, w), 0 <= k <= slots(hb, w, dn, border).len(),
        seen_slots(hb, base, slots(hb, w, dn, border), k, occupied_sector_map@, errors@),
    ensures
        dir_chain(hb, start, border, w), seen_slots(hb, base, all_slots(hb, w, border), all_slots(hb, w, border).len() as int, occupied_sector_map@, errors@),
    decreases 8 * before(hb.geometry.track_layouts@, hb.geometry.tracks + 1) + 8 - k
//@after /let x_ =/
    proof {
        es0 = errors@; m0 = occupied_sector_map@;
        match x_ {
            None => {
                let (w2, d2) = choose|w2: Seq<Location>, d2: bool| #[trigger] passed(hb, start, border, w, dn, k, w2, d2, slots(hb, w2, d2, border).len() as int) && dir_chain(hb, start, border, w2) && d2 == border.is_some();
                lemma_slots_passed(hb, start, border, base, w, dn, k, w2, d2, slots(hb, w2, d2, border).len() as int, m0, es0);
                assert(slots(hb, w2, d2, border) =~= all_slots(hb, w2, border));
                w = w2;
            },
            Some(Ok(_)) => {
                let e = x_->Some_0->Ok_0;
                let (w2, d2, k2) = choose|w2: Seq<Location>, d2: bool, k2: int| #[trigger] passed(hb, start, border, w, dn, k, w2, d2, k2) && dir_at(hb, &it_, start, border, w2, d2, k2 + 1)
                    && entry_at(hb, &e, slots(hb, w2, d2, border)[k2], border) && live(hb, slots(hb, w2, d2, border)[k2]);
                lemma_slots_passed(hb, start, border, base, w, dn, k, w2, d2, k2, m0, es0);
                lemma_dir_facts(hb, &it_, start, border, w2, d2, k2 + 1);
                lemma_slot_owner(hb, slots(hb, w2, d2, border)[k2], &e);
                w = w2; dn = d2; k = k2;
                assert(seen_slots(hb, base, slots(hb, w, dn, border), k, m0, es0));
                reveal(seen_slots);
            },
            Some(Err(_)) => {},
        }
    }
//@beforeloop 4
    let ghost v = file_occupied_sectors@;
    proof { lemma_among_all(v); }
//@loop 4 it
    invariant
        it.seq().len() == v.len(), forall|j: int| 0 <= j < v.len() ==> *#[trigger] it.seq()[j] == v[j],
        forall|l: Location| #[trigger] occupied_sector_map@.dom().contains(l) <==> m0.dom().contains(l) || among(v, it.index@, l),
        forall|l: Location| #[trigger] rep_over(errors@, l) <==> rep_over(es0, l) || among(v, it.index@, l) && m0.dom().contains(l),
        forall|n: Seq<u8>| #[trigger] rep_scan(errors@, n) <==> rep_scan(es0, n),
        forall|l: Location| !#[trigger] rep_system(errors@, l), forall|l: Location| !#[trigger] rep_misallocated(errors@, l), forall|l: Location| !#[trigger] rep_misoccupied(errors@, l), !rep_unknown(errors@),
//@loopstart 4
    let ghost e1 = errors@;
    proof { lemma_among(v, it.index@); assert(!among(v, it.index@, v[it.index@])); }
//@loopend 4
    proof { if errors@.len() > e1.len() { lemma_report(e1, errors@.last()); assert(errors@ =~= e1.push(errors@.last())); } }
//@loopend 3
    proof {
        lemma_slot_more(hb, base, slots(hb, w, dn, border), k, &entry, m0, es0, occupied_sector_map@, errors@);
        k = k + 1;
    }
//@beforeloop 5
    let ghost e3 = errors@;
    let ghost all = all_slots(hb, w, border);
    proof { lemma_among_all(v_@); reveal(seen_slots); lemma_chain_unique(hb, start, c, w); }
//@loop 5 it
    invariant
        it.seq().len() == v_@.len(), forall|j: int| 0 <= j < v_@.len() ==> *#[trigger] it.seq()[j] == v_@[j],
        forall|l: Location| #[trigger] rep_system(errors@, l) <==> among(v_@, it.index@, l) && !allocated_sectors@.contains(l),
        forall|l: Location| #[trigger] rep_over(errors@, l) <==> rep_over(e3, l), forall|n: Seq<u8>| #[trigger] rep_scan(errors@, n) <==> rep_scan(e3, n),
        forall|l: Location| !#[trigger] rep_misallocated(errors@, l), forall|l: Location| !#[trigger] rep_misoccupied(errors@, l), !rep_unknown(errors@),
//@loopstart 5
    let ghost e1 = errors@;
    proof { lemma_among(v_@, it.index@); }
//@loopend 5
    proof { if errors@.len() > e1.len() { lemma_report(e1, errors@.last()); assert(errors@ =~= e1.push(errors@.last())); } }
//@beforeloop 6
    let ghost e5 = errors@;
    proof { lemma_among_all(v_@); }
//@loop 6 it
    invariant
        it.seq().len() == v_@.len(), forall|j: int| 0 <= j < v_@.len() ==> *#[trigger] it.seq()[j] == v_@[j],
        forall|l: Location| #[trigger] rep_misallocated(errors@, l) <==> among(v_@, it.index@, l), forall|l: Location| #[trigger] rep_system(errors@, l) <==> rep_system(e5, l),
        forall|l: Location| #[trigger] rep_over(errors@, l) <==> rep_over(e3, l), forall|n: Seq<u8>| #[trigger] rep_scan(errors@, n) <==> rep_scan(e3, n),
        forall|l: Location| !#[trigger] rep_misoccupied(errors@, l), !rep_unknown(errors@),
//@loopstart 6
    let ghost e1 = errors@;
    proof { lemma_among(v_@, it.index@); }
//@loopend 6
    proof { if errors@.len() > e1.len() { lemma_report(e1, errors@.last()); assert(errors@ =~= e1.push(errors@.last())); } }
//@beforeloop 7
    let ghost e6 = errors@;
    proof { lemma_among_all(v_@); }
//@loop 7 it
    invariant
        it.seq().len() == v_@.len(), forall|j: int| 0 <= j < v_@.len() ==> *#[trigger] it.seq()[j] == v_@[j],
        forall|l: Location| #[trigger] rep_misoccupied(errors@, l) <==> among(v_@, it.index@, l) && !system_sectors@.contains(l),
        forall|l: Location| #[trigger] rep_misallocated(errors@, l) <==> rep_misallocated(e6, l), forall|l: Location| #[trigger] rep_system(errors@, l) <==> rep_system(e5, l),
        forall|l: Location| #[trigger] rep_over(errors@, l) <==> rep_over(e3, l), forall|n: Seq<u8>| #[trigger] rep_scan(errors@, n) <==> rep_scan(e3, n),
        !rep_unknown(errors@),
//@loopstart 7
    let ghost e1 = errors@;
    proof { lemma_among(v_@, it.index@); }
//@loopend 7
    proof { if errors@.len() > e1.len() { lemma_report(e1, errors@.last()); assert(errors@ =~= e1.push(errors@.last())); } }
//@afterloop 7
    proof { assert(dir_chain(hb, start, border, w) && validated(hb, hm, format, w, border, errors@)); }
//@endfn
} // mod validate
pub use validate::*;
