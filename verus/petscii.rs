pub mod petscii {
use super::*;
//@item src/petscii.rs const NONE /char::REPLACEMENT_CHARACTER/ => '\\u{FFFD}'
//@item src/petscii.rs const PETSCII_NONE
//@item src/petscii.rs static PETSCII_TO_CHAR_MAP /\bstatic\b/ => const
//@item src/petscii.rs enum PetsciiError /^/ => #[derive(Debug)]\n
//@item src/petscii.rs struct Petscii /#\[derive\(.*?\)\]/ =>

/// derived Clone / PartialEq of a struct with one Vec<u8>
impl Clone for Petscii {
    fn clone(&self) -> (r: Petscii) ensures r.0@ == self.0@ { let r = Petscii(self.0.as_slice().to_vec()); assert(r.0@ =~= self.0@); r }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Petscii {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Petscii) -> bool { self.0@ == o.0@ }
}
impl PartialEq for Petscii {
    #[verifier::external_body]
    fn eq(&self, o: &Petscii) -> (r: bool) { self.0 == o.0 }
}

/// `str::chars`, as the sequence of the characters
#[verifier::external_body]
pub fn chars_of(s: &str) -> (r: Vec<char>)
    ensures r@ == s@
{ s.chars().collect() }

/// the field b holds the string s, padded
pub open spec fn padded(b: Seq<u8>, s: Seq<u8>, pad: u8) -> bool {
    s.len() <= b.len() && b.take(s.len() as int) == s && forall|k: int| s.len() <= k < b.len() ==> #[trigger] b[k] == pad
}
/// s is b without its trailing padding
pub open spec fn unpadded(b: Seq<u8>, s: Seq<u8>, pad: u8) -> bool {
    padded(b, s, pad) && (s.len() > 0 ==> s.last() != pad)
}
pub open spec fn strip(b: Seq<u8>, pad: u8) -> Seq<u8>
    decreases b.len()
{
    if b.len() == 0 { b } else if b.last() == pad { strip(b.drop_last(), pad) } else { b }
}
pub proof fn lemma_strip(b: Seq<u8>, s: Seq<u8>, pad: u8)
    requires unpadded(b, s, pad)
    ensures s == strip(b, pad)
    decreases b.len()
{
    if b.len() == 0 { assert(s =~= b); }
    else if b.last() == pad {
        if s.len() == b.len() { assert(s.last() == b.last()) by { assert(b.take(s.len() as int)[b.len() - 1] == b[b.len() - 1]); } }
        assert(b.drop_last().take(s.len() as int) =~= s);
        lemma_strip(b.drop_last(), s, pad);
    } else {
        if s.len() < b.len() { assert(b[b.len() - 1] == pad); }
        assert(s =~= b);
    }
}
pub proof fn lemma_strip_prefix(b: Seq<u8>, pad: u8)
    ensures strip(b, pad).len() <= b.len(), padded(b, strip(b, pad), pad), strip(b, pad).len() > 0 ==> strip(b, pad).last() != pad
    decreases b.len()
{
    if b.len() > 0 && b.last() == pad {
        lemma_strip_prefix(b.drop_last(), pad);
        let s = strip(b, pad);
        assert(b.take(s.len() as int) =~= b.drop_last().take(s.len() as int));
        assert forall|k: int| s.len() <= k < b.len() implies #[trigger] b[k] == pad by { if k < b.len() - 1 { assert(b.drop_last()[k] == pad); } }
    } else {
        assert(b.take(b.len() as int) =~= b);
    }
}
//@props P18
/// P18: writing a string into a field and reading it back yields it, unless it ends in the padding byte
pub proof fn lemma_padded_roundtrip(b: Seq<u8>, s: Seq<u8>, pad: u8)
    requires padded(b, s, pad), s.len() > 0 ==> s.last() != pad
    ensures strip(b, pad) == s
{
    lemma_strip(b, s, pad);
}

/// c is translated to code p
pub open spec fn code_of(c: char, p: u8) -> bool {
    if exists|q: int| 0 <= q < 256 && #[trigger] PETSCII_TO_CHAR_MAP@[q] == c {
        PETSCII_TO_CHAR_MAP@[p as int] == c && forall|q: int| 0 <= q < p ==> #[trigger] PETSCII_TO_CHAR_MAP@[q] != c
    } else { p == 0x7F }
}

/// P18: displaying and converting again is stable: a code stands for the same character as the code it is converted to
pub proof fn lemma_stable(p: u8, q: u8)
    requires code_of(PETSCII_TO_CHAR_MAP@[p as int], q)
    ensures PETSCII_TO_CHAR_MAP@[q as int] == PETSCII_TO_CHAR_MAP@[p as int]
{
    assert(PETSCII_TO_CHAR_MAP@[p as int] == PETSCII_TO_CHAR_MAP@[p as int]);
}

//@fn src/petscii.rs petscii_to_unicode_char
//@ret r
//@spec
    ensures r == PETSCII_TO_CHAR_MAP@[byte as int]
//@endfn
impl Petscii {
    pub open spec fn view(&self) -> Seq<u8> { self.0@ }
//@fn src/petscii.rs Petscii::from_bytes
//@ret r
//@sub? /\.to_owned\(\)/ => .to_vec()
//@spec
    ensures r@ == bytes@
//@sub? /Petscii\(bytes\.to_vec\(\)\)/ => ({ let v_ = bytes.to_vec(); assert(v_@ =~= bytes@); Petscii(v_) })
//@endfn
//@fn src/petscii.rs Petscii::from_padded_bytes
//@ret r
//@sub? /for (\w+) in \(0\.\.(\w+)\)\.rev\(\) \{/ => let mut k_: usize = \2; while k_ > 0 { k_ = k_ - 1; let \1: usize = k_;
//@sub? /\.to_owned\(\)/ => .to_vec()
//@spec
    ensures r@ == strip(bytes@, pad_byte), unpadded(bytes@, r@, pad_byte)
//@loop 1
    invariant_except_break
        end == k_,
    invariant
        end <= bytes@.len(),
        forall|k: int| end <= k < bytes@.len() ==> #[trigger] bytes@[k] == pad_byte,
    ensures end > 0 ==> bytes@[end - 1] != pad_byte
    decreases k_
//@sub? /Petscii\(\(bytes\[\.\.end\]\)\.to_vec\(\)\)/ => ({ let v_ = (bytes[..end]).to_vec(); assert(v_@ =~= bytes@.take(end as int)); proof { assert(unpadded(bytes@, v_@, pad_byte)); lemma_strip(bytes@, v_@, pad_byte); } Petscii(v_) })
//@endfn
#[verifier::loop_isolation(false)]
//@fn src/petscii.rs Petscii::from_str_lossy
//@ret r
//@sub /'(\w+): for c in string\.chars\(\) \{(.*?)for \(p, mapping\) in PETSCII_TO_CHAR_MAP\.iter\(\)\.enumerate\(\) \{\s*if (.*?) \{(.*?)continue '\1;\s*\}\s*\}(.*?)\}/ => for c in it: chars_of(string) {\2 let mut found_: bool = false; let mut p: usize = 0; while p < PETSCII_TO_CHAR_MAP.len() && !found_ { let mapping = &PETSCII_TO_CHAR_MAP[p]; if \3 { \4 found_ = true; } else { p = p + 1; } } if !found_ { \5 } }
//@sub? /Vec::with_capacity\(string\.len\(\)\)/ => Vec::<u8>::new()
//@sub? /\.to_owned\(\)/ => .as_slice().to_vec()
//@spec
    ensures r@.len() == string@.len(), forall|k: int| 0 <= k < r@.len() ==> code_of(string@[k], #[trigger] r@[k])
//@loop 1
    invariant
        it.seq() == string@,
        petscii_bytes@.len() == it.index@, forall|k: int| 0 <= k < it.index@ ==> code_of(string@[k], #[trigger] petscii_bytes@[k]),
//@loop 2
    invariant
        p <= 256, it.seq() == string@, it.index@ < it.seq().len(), c == it.seq()[it.index@ as int],
        forall|q: int| 0 <= q < p ==> #[trigger] PETSCII_TO_CHAR_MAP@[q] != c,
        found_ ==> p < 256 && PETSCII_TO_CHAR_MAP@[p as int] == c && petscii_bytes@.len() == it.index@ + 1 && petscii_bytes@[it.index@ as int] == p,
        !found_ ==> petscii_bytes@.len() == it.index@,
        forall|k: int| 0 <= k < it.index@ ==> code_of(string@[k], #[trigger] petscii_bytes@[k]),
    decreases 256 - p, if found_ { 0int } else { 1 }
//@endfn
//@fn src/petscii.rs Petscii::as_bytes
//@ret r
//@spec
    ensures r@ == self@
//@endfn
//@fn src/petscii.rs Petscii::len
//@ret r
//@spec
    ensures r == self@.len()
//@endfn
//@fn src/petscii.rs Petscii::is_empty
//@ret r
//@spec
    ensures r == (self@.len() == 0)
//@endfn
//@props P18 P10
//@fn src/petscii.rs Petscii::write_bytes_with_padding
//@ret r
//@sub? /let _ = &(\w+\[.*?\]\.copy_from_slice)/ => \1
//@sub? /for (\w+) in bytes\.iter_mut\(\)\.take\((\w+)\)\.skip\((\w+)\) \{(.*?)\}/ => let mut k_: usize = \3; while k_ < \2 && k_ < bytes.len() { let \1 = &mut bytes[k_]; \4 k_ = k_ + 1; }
//@spec
    ensures
        final(bytes)@.len() == old(bytes)@.len(),
        self@.len() > old(bytes)@.len() ==> r.is_err() && final(bytes)@ == old(bytes)@,
        self@.len() <= old(bytes)@.len() ==> r.is_ok() && padded(final(bytes)@, self@, pad_byte),
//@loop 1
    invariant
        src_len == self@.len(), dst_len == bytes@.len(), src_len <= k_ <= dst_len, bytes@.len() == old(bytes)@.len(),
        bytes@.take(src_len as int) == self@,
        forall|k: int| src_len <= k < k_ ==> #[trigger] bytes@[k] == pad_byte,
    decreases dst_len - k_
//@beforeloop 1
    proof { assert(bytes@.take(src_len as int) =~= self@); }
//@loopend 1
    proof { assert(bytes@.take(src_len as int) =~= self@); }
//@endfn
}
} // mod petscii
pub use petscii::*;
