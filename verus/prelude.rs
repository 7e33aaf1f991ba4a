// Stand-ins for what lies outside the verified code: std::io::Error, mapped files.
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_braces, non_snake_case, unused_parens, unused_assignments)]
#![cfg_attr(verus_keep_ghost, feature(const_destruct))]
use vstd::prelude::*;
use vstd::slice::*;
use std::cmp::Ordering;

verus! {

pub mod error {
use super::*;

//@item src/disk/error.rs enum DiskError
impl vstd::std_specs::cmp::PartialEqSpecImpl for DiskError {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &DiskError) -> bool { *self == *o }
}

/// std::io::Error carries the DiskError it was made from (error.rs, `From<DiskError> for io::Error`).
pub mod io {
    use super::*;
    pub struct Error { pub e: DiskError }
    pub type Result<T> = std::result::Result<T, Error>;
}
impl vstd::std_specs::convert::FromSpecImpl<DiskError> for io::Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: DiskError) -> io::Error { io::Error { e: v } }
}
impl From<DiskError> for io::Error {
    fn from(e: DiskError) -> (r: io::Error) { io::Error { e } }
}

pub open spec fn is_err<T>(r: io::Result<T>, e: DiskError) -> bool {
    r.is_err() && r->Err_0.e == e
}

pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> vstd::pervasive::cloned::<T>(#[trigger] s@[i], r@[i]),
        s@ =~= r@ ==> s@ == r@;
/// bytes and words, in the ways they are commonly written
pub proof fn lemma_words()
    ensures
        forall|h: u16, l: u16| h < 256 && l < 256 ==> #[trigger] ((h << 8) | l) == l + 256 * h,
        forall|h: u16, l: u16| h < 256 && l < 256 ==> #[trigger] (l | (h << 8)) == l + 256 * h,
        forall|h: u16| h < 256 ==> #[trigger] (h << 8) == 256 * h,
        forall|n: u16| #[trigger] (n & 0xFF) == n % 256,
        forall|n: u16| #[trigger] (n >> 8) == n / 256,
{
    assert(forall|h: u16, l: u16| h < 256 && l < 256 ==> #[trigger] ((h << 8) | l) == l + 256 * h) by (bit_vector);
    assert(forall|h: u16, l: u16| h < 256 && l < 256 ==> #[trigger] (l | (h << 8)) == l + 256 * h) by (bit_vector);
    assert(forall|h: u16| h < 256 ==> #[trigger] (h << 8) == 256 * h) by (bit_vector);
    assert(forall|n: u16| #[trigger] (n & 0xFF) == n % 256) by (bit_vector);
    assert(forall|n: u16| #[trigger] (n >> 8) == n / 256) by (bit_vector);
}
} // mod error
pub use error::*;
