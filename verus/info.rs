pub mod info {
use super::*;
//@item src/sprite.rs const SPRITE_SIZE
//@item src/sprite.rs const SPRITE_WIDTH
//@item src/sprite.rs const SPRITE_HEIGHT
//@item src/sprite.rs struct Sprite
//@item src/sprite.rs static UNICODE_BLOCK_ELEMENTS /\bstatic\b/ => const
//@item src/disk/geos/mod.rs struct GEOSString
//@item src/disk/geos/mod.rs struct GEOSInfo

pub assume_specification [String::with_capacity] (n: usize) -> (r: String)
    ensures r@ == Seq::<char>::empty();

//@props P19 P20
//@fn src/util/mod.rs Slice for &[u8]::slice
//@ret r
//@sig /slice\(&self,/ => slice_of(this: &[u8],
//@sub /self/ => this
//@spec
    requires offset + size <= this@.len(), offset + size <= 0x7fff_ffff
    ensures r@ == this@.subrange(offset as int, offset + size)
//@endfn
//@fn src/util/mod.rs SliceMut for &mut[u8]::slice_mut
//@ret r
//@sig /slice_mut\(&mut self,/ => slice_mut_of(this: &mut [u8],
//@sub /self/ => this
//@spec
    requires offset + size <= old(this)@.len(), offset + size <= 0x7fff_ffff
    ensures r@ == old(this)@.subrange(offset as int, offset + size), final(r)@.len() == size,
        final(this)@ == splice(old(this)@, offset as int, size as int, final(r)@),
//@endfn

//@props P19
pub open spec fn word(b: Seq<u8>, o: int) -> int { b[o] + 256 * b[o + 1] }
//@fn src/disk/geos/mod.rs u16_from_le
//@ret r
//@spec
    requires bytes@.len() >= 2
    ensures r == word(bytes@, 0)
//@start
    proof { lemma_words(); }
//@endfn
//@fn src/disk/geos/mod.rs u16_to_le
//@ret r
//@spec
    requires old(bytes)@.len() >= 2
    ensures final(bytes)@ == old(bytes)@.update(0, (n % 256) as u8).update(1, (n / 256) as u8)
//@start
    proof { lemma_words(); }
//@end
    proof { assert(bytes@ =~= old(bytes)@.update(0, (n % 256) as u8).update(1, (n / 256) as u8)); }
//@endfn

/// the quadrant character with these pixels set
pub open spec fn quadrants(ul: bool, ur: bool, ll: bool, lr: bool) -> char {
    if ul {
        if ur { if ll { if lr { '\u{2588}' } else { '\u{259B}' } } else { if lr { '\u{259C}' } else { '\u{2580}' } } }
        else { if ll { if lr { '\u{2599}' } else { '\u{258C}' } } else { if lr { '\u{259A}' } else { '\u{2598}' } } }
    } else {
        if ur { if ll { if lr { '\u{259F}' } else { '\u{259E}' } } else { if lr { '\u{2590}' } else { '\u{259D}' } } }
        else { if ll { if lr { '\u{2584}' } else { '\u{2596}' } } else { if lr { '\u{2597}' } else { ' ' } } }
    }
}
pub open spec fn px(b: u8, k: int) -> bool { (b >> ((7 - k) as u8)) & 1 == 1 }
/// pixel (x, y) of the icon: 24 by 21, three bytes per line, the left pixel in the high bit
pub open spec fn pixel(d: Seq<u8>, x: int, y: int) -> bool { 0 <= y < 21 && 0 <= x < 24 && px(d[y * 3 + x / 8], x % 8) }
pub open spec fn cell(d: Seq<u8>, c: int, r: int) -> char {
    quadrants(pixel(d, 2 * c, 2 * r), pixel(d, 2 * c + 1, 2 * r), pixel(d, 2 * c, 2 * r + 1), pixel(d, 2 * c + 1, 2 * r + 1))
}
/// character number i of the drawing: 11 lines of 12 characters
pub open spec fn glyph_at(d: Seq<u8>, i: int) -> char { if i % 13 == 12 { '\n' } else { cell(d, i % 13, i / 13) } }
pub open spec fn drawn(d: Seq<u8>, s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == glyph_at(d, i) }

pub proof fn lemma_glyph(t: u8, b: u8, k: u8)
    requires k < 4
    ensures ({
        let sh = ((3 - k) * 2) as u8;
        let g = (((t >> sh) & 0x03) << 2) | ((b >> sh) & 0x03);
        g < 16 && UNICODE_BLOCK_ELEMENTS@[g as int] == quadrants(px(t, 2 * k), px(t, 2 * k + 1), px(b, 2 * k), px(b, 2 * k + 1))
    })
{
    let sh = ((3 - k) * 2) as u8;
    let g = (((t >> sh) & 0x03) << 2) | ((b >> sh) & 0x03);
    let h = (sh + 1) as u8;
    assert(sh <= 6 && h == sh + 1 ==> {
        &&& (((t >> sh) & 0x03) << 2) | ((b >> sh) & 0x03) < 16
        &&& ((((t >> sh) & 0x03) << 2) | ((b >> sh) & 0x03)) & 8 == 8 <==> (t >> h) & 1 == 1
        &&& ((((t >> sh) & 0x03) << 2) | ((b >> sh) & 0x03)) & 4 == 4 <==> (t >> sh) & 1 == 1
        &&& ((((t >> sh) & 0x03) << 2) | ((b >> sh) & 0x03)) & 2 == 2 <==> (b >> h) & 1 == 1
        &&& ((((t >> sh) & 0x03) << 2) | ((b >> sh) & 0x03)) & 1 == 1 <==> (b >> sh) & 1 == 1
    }) by (bit_vector);
    assert(h == 7 - 2 * k && sh == 7 - (2 * k + 1));
    assert(px(t, 2 * k) == (g & 8 == 8) && px(t, 2 * k + 1) == (g & 4 == 4) && px(b, 2 * k) == (g & 2 == 2) && px(b, 2 * k + 1) == (g & 1 == 1));
    assert(g < 16);
    assert(0u8 & 8 == 0 && 0u8 & 4 == 0 && 0u8 & 2 == 0 && 0u8 & 1 == 0) by (bit_vector);
    assert(1u8 & 8 == 0 && 1u8 & 4 == 0 && 1u8 & 2 == 0 && 1u8 & 1 == 1) by (bit_vector);
    assert(2u8 & 8 == 0 && 2u8 & 4 == 0 && 2u8 & 2 == 2 && 2u8 & 1 == 0) by (bit_vector);
    assert(3u8 & 8 == 0 && 3u8 & 4 == 0 && 3u8 & 2 == 2 && 3u8 & 1 == 1) by (bit_vector);
    assert(4u8 & 8 == 0 && 4u8 & 4 == 4 && 4u8 & 2 == 0 && 4u8 & 1 == 0) by (bit_vector);
    assert(5u8 & 8 == 0 && 5u8 & 4 == 4 && 5u8 & 2 == 0 && 5u8 & 1 == 1) by (bit_vector);
    assert(6u8 & 8 == 0 && 6u8 & 4 == 4 && 6u8 & 2 == 2 && 6u8 & 1 == 0) by (bit_vector);
    assert(7u8 & 8 == 0 && 7u8 & 4 == 4 && 7u8 & 2 == 2 && 7u8 & 1 == 1) by (bit_vector);
    assert(8u8 & 8 == 8 && 8u8 & 4 == 0 && 8u8 & 2 == 0 && 8u8 & 1 == 0) by (bit_vector);
    assert(9u8 & 8 == 8 && 9u8 & 4 == 0 && 9u8 & 2 == 0 && 9u8 & 1 == 1) by (bit_vector);
    assert(10u8 & 8 == 8 && 10u8 & 4 == 0 && 10u8 & 2 == 2 && 10u8 & 1 == 0) by (bit_vector);
    assert(11u8 & 8 == 8 && 11u8 & 4 == 0 && 11u8 & 2 == 2 && 11u8 & 1 == 1) by (bit_vector);
    assert(12u8 & 8 == 8 && 12u8 & 4 == 4 && 12u8 & 2 == 0 && 12u8 & 1 == 0) by (bit_vector);
    assert(13u8 & 8 == 8 && 13u8 & 4 == 4 && 13u8 & 2 == 0 && 13u8 & 1 == 1) by (bit_vector);
    assert(14u8 & 8 == 8 && 14u8 & 4 == 4 && 14u8 & 2 == 2 && 14u8 & 1 == 0) by (bit_vector);
    assert(15u8 & 8 == 8 && 15u8 & 4 == 4 && 15u8 & 2 == 2 && 15u8 & 1 == 1) by (bit_vector);
    let m = UNICODE_BLOCK_ELEMENTS@;
    assert(m[0] == ' ' && m[1] == '\u{2597}' && m[2] == '\u{2596}' && m[3] == '\u{2584}' && m[4] == '\u{259D}' && m[5] == '\u{2590}' && m[6] == '\u{259E}' && m[7] == '\u{259F}'
        && m[8] == '\u{2598}' && m[9] == '\u{259A}' && m[10] == '\u{258C}' && m[11] == '\u{2599}' && m[12] == '\u{2580}' && m[13] == '\u{259C}' && m[14] == '\u{259B}' && m[15] == '\u{2588}');
}

impl Sprite {
//@fn src/sprite.rs Sprite::from_bytes
//@ret r
//@sub? /bytes\.to_vec\(\)/ => ({ let v_ = bytes.to_vec(); assert(v_@ =~= bytes@); v_ })
//@spec
    requires bytes@.len() == 63
    ensures r.data@ == bytes@
//@endfn
//@fn src/sprite.rs Sprite::to_bytes
//@ret r
//@spec
    requires old(bytes)@.len() == 63, self.data@.len() == 63
    ensures final(bytes)@ == self.data@
//@endfn
//@fn src/sprite.rs Sprite::to_unicode
//@ret r
//@sub? /const (ROWS|COLUMNS|MAX_BYTES): usize =/ => let \1: usize =
//@spec
    requires self.data@.len() == 63
    ensures r@.len() == 143, drawn(self.data@, r@)
//@after /let COLUMNS/
    proof { assert(3 * ROWS * COLUMNS == 396) by (nonlinear_arith) requires ROWS == 11, COLUMNS == 12; }
//@loop 1
    invariant ROWS == 11, COLUMNS == 12, self.data@.len() == 63, string@.len() == 13 * row, drawn(self.data@, string@)
//@loop 2
    invariant ROWS == 11, row < 11, self.data@.len() == 63, string@.len() == 13 * row + 4 * offset, drawn(self.data@, string@)
//@loop 3
    invariant ROWS == 11, row < 11, offset < 3, self.data@.len() == 63, string@.len() == 13 * row + 4 * offset + block as int, drawn(self.data@, string@),
        top_byte == self.data@[row * 6 + offset], bottom_byte == (if row < 10 { self.data@[row * 6 + 3 + offset] } else { 0 }),
//@loopstart 3
    proof {
        let bl = block as int;
        lemma_glyph(top_byte, bottom_byte, bl as u8);
        let i = 13 * row + 4 * offset + bl;
        assert(i % 13 == 4 * offset + bl && i / 13 == row);
        let x = 2 * (4 * offset + bl);
        assert(x / 8 == offset && x % 8 == 2 * bl && (x + 1) / 8 == offset && (x + 1) % 8 == 2 * bl + 1);
        assert((2 * row) * 3 + offset == row * 6 + offset && (2 * row + 1) * 3 + offset == row * 6 + 3 + offset);
        assert(0u8 >> ((7 - 2 * bl) as u8) & 1 != 1 && 0u8 >> ((6 - 2 * bl) as u8) & 1 != 1) by { assert(forall|s: u8| s < 8 ==> (0u8 >> s) & 1 != 1) by (bit_vector); }
    }
//@endfn
}
impl GEOSString {
//@props P17 P19 P20
//@fn src/disk/geos/mod.rs GEOSString::from_bytes
//@ret r
//@sub? /data\.to_vec\(\)/ => ({ let v_ = data.to_vec(); assert(v_@ =~= data@); v_ })
//@spec
    ensures r.data@ == data@
//@endfn
//@fn src/disk/geos/mod.rs GEOSString::to_bytes
//@ret r
//@spec
    requires old(bytes)@.len() == self.data@.len()
    ensures final(bytes)@ == self.data@
//@endfn
}
//@props P19
/// the fields of an info block, at their documented places
pub open spec fn info_of(i: &GEOSInfo, b: Seq<u8>) -> bool {
    &&& i.icon.data@ == b.subrange(0x05, 0x44)
    &&& i.file_attributes == attrs_of(b[0x44]) && geos_type_ok(i.geos_file_type, b[0x45]) && i.structure == structure_of(b[0x46])
    &&& i.program_load_address == word(b, 0x47) && i.program_end_address == word(b, 0x49) && i.program_start_address == word(b, 0x4B)
    &&& i.class.data@ == b.subrange(0x4D, 0x61) && i.author.data@ == b.subrange(0x61, 0x75) && i.application.data@ == b.subrange(0x75, 0x89)
    &&& i.reserved@ == b.subrange(0x89, 0xA0) && i.description.data@ == b.subrange(0xA0, 0x100)
}
pub open spec fn wf_info(i: &GEOSInfo) -> bool {
    &&& i.icon.data@.len() == 63 && i.class.data@.len() == 20 && i.author.data@.len() == 20 && i.application.data@.len() == 20
    &&& i.reserved@.len() == 23 && i.description.data@.len() == 96
}
/// b holds the fields of i
pub open spec fn info_bytes(i: &GEOSInfo, b: Seq<u8>) -> bool {
    &&& b.len() == 256
    &&& i.icon.data@ == b.subrange(0x05, 0x44)
    &&& b[0x44] == attr_byte(i.file_attributes) && b[0x45] == geos_type_byte(i.geos_file_type) && b[0x46] == structure_byte(i.structure)
    &&& i.program_load_address == word(b, 0x47) && i.program_end_address == word(b, 0x49) && i.program_start_address == word(b, 0x4B)
    &&& i.class.data@ == b.subrange(0x4D, 0x61) && i.author.data@ == b.subrange(0x61, 0x75) && i.application.data@ == b.subrange(0x75, 0x89)
    &&& i.reserved@ == b.subrange(0x89, 0xA0) && i.description.data@ == b.subrange(0xA0, 0x100)
}
/// P19: decoding and encoding into the same block reproduces it
pub proof fn lemma_info_roundtrip(i: &GEOSInfo, b: Seq<u8>, c: Seq<u8>)
    requires b.len() == 256, info_of(i, b), info_bytes(i, c), c.take(5) == b.take(5)
    ensures c == b
{
    lemma_attr_roundtrip(b[0x44]);
    assert forall|k: int| 0 <= k < 256 implies c[k] == b[k] by {
        if k < 5 { assert(c.take(5)[k] == b.take(5)[k]); assert(c.take(5)[k] == c[k]); assert(b.take(5)[k] == b[k]); }
        else if k < 0x44 { assert(c.subrange(0x05, 0x44)[k - 5] == b.subrange(0x05, 0x44)[k - 5]); }
        else if 0x4D <= k < 0x61 { assert(c.subrange(0x4D, 0x61)[k - 0x4D] == b.subrange(0x4D, 0x61)[k - 0x4D]); }
        else if 0x61 <= k < 0x75 { assert(c.subrange(0x61, 0x75)[k - 0x61] == b.subrange(0x61, 0x75)[k - 0x61]); }
        else if 0x75 <= k < 0x89 { assert(c.subrange(0x75, 0x89)[k - 0x75] == b.subrange(0x75, 0x89)[k - 0x75]); }
        else if 0x89 <= k < 0xA0 { assert(c.subrange(0x89, 0xA0)[k - 0x89] == b.subrange(0x89, 0xA0)[k - 0x89]); }
        else if 0xA0 <= k { assert(c.subrange(0xA0, 0x100)[k - 0xA0] == b.subrange(0xA0, 0x100)[k - 0xA0]); }
    }
    assert(c =~= b);
}
impl GEOSInfo {
//@consts src/disk/geos/mod.rs GEOSInfo
//@fn src/disk/geos/mod.rs GEOSInfo::from_bytes
//@ret r
//@sub /bytes\s*\.slice\(/ => slice_of(bytes, 
//@sub? /(reserved: )(slice_of\([^()]*\))\s*\.to_vec\(\)/ => \1({ let s_ = \2; let v_ = s_.to_vec(); assert(v_@ =~= s_@); v_ })
//@spec
    requires bytes@.len() == 256
    ensures info_of(&r, bytes@), wf_info(&r)
//@endfn
//@fn src/disk/geos/mod.rs GEOSInfo::to_bytes
//@ret r
//@sig /mut bytes: &mut \[u8\]/ => bytes: &mut [u8]
//@sub /bytes\s*\.slice_mut\(/ => slice_mut_of(&mut *bytes, 
//@spec
    requires old(bytes)@.len() == 256, wf_info(self)
    ensures info_bytes(self, final(bytes)@), final(bytes)@.take(5) == old(bytes)@.take(5)
//@end
    proof {
        let b = bytes@;
        assert(self.icon.data@ =~= b.subrange(0x05, 0x44));
        assert(self.class.data@ =~= b.subrange(0x4D, 0x61));
        assert(self.author.data@ =~= b.subrange(0x61, 0x75));
        assert(self.application.data@ =~= b.subrange(0x75, 0x89));
        assert(self.reserved@ =~= b.subrange(0x89, 0xA0));
        assert(self.description.data@ =~= b.subrange(0xA0, 0x100));
        assert(b.take(5) =~= old(bytes)@.take(5));
    }
//@endfn
}
} // mod info
pub use info::*;
