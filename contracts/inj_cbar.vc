=== use inj tab_cbar
=== spec
pub open spec fn cbar_head(b: Seq<u8>) -> int {
    if b[1] == 0 { if b[2] == 0 { if b[4] == 0 { if b[5] == 0 { 18 } else { if b[6] == 0 { 6 } else { 7 } } } else { 8 } } else { if b[3] == 0 { if b[4] == 0 { if b[6] == 0 { if b[7] == 0 { 17 } else { 2 } } else { if b[8] == 0 { 19 } else { 10 } } } else { if b[5] == 0 { 0 } else { 1 } } } else { if b[5] == 0 { if b[7] == 0 { if b[8] == 0 { 16 } else { 11 } } else { 15 } } else { 4 } } } } else { if b[3] == 0 { 3 } else { if b[4] == 0 { if b[5] == 0 { 9 } else { if b[6] == 0 { 5 } else { 12 } } } else { if b[7] == 0 { 13 } else { 14 } } } }
}
pub open spec fn cbar_word(v: int) -> Seq<u8> { cbar_pat(v) + seq![0u8] }
pub proof fn cbar_read0(v: int, r: Seq<u8>)
    requires 0 <= v < 20
    ensures cbar_head(cbar_word(v) + r) == v, cbar_word(v).len() == (if v == 12 || v == 13 || v == 14 || v == 16 || v == 17 || v == 18 || v == 19 { 11nat } else if v == 15 { 13nat } else { 10nat }), cbar_word(v)[0] == 1, bits(cbar_word(v)), cbar_word(v).last() == 0
{
    let b = cbar_word(v) + r;
    if v == 0 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 1); assert(b[9] == 0); }
    else if v == 1 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 0); }
    else if v == 2 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 1); assert(b[9] == 0); }
    else if v == 3 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 0); }
    else if v == 4 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 0); }
    else if v == 5 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 0); }
    else if v == 6 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 1); assert(b[9] == 0); }
    else if v == 7 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 0); }
    else if v == 8 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 0); }
    else if v == 9 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 0); }
    else if v == 10 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 0); }
    else if v == 11 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 0); }
    else if v == 12 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 13 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 14 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 1); assert(b[8] == 0); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 15 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 1); assert(b[8] == 0); assert(b[9] == 0); assert(b[10] == 1); assert(b[11] == 1); assert(b[12] == 0); }
    else if v == 16 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 0); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 17 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 18 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 19 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 0); assert(b[9] == 1); assert(b[10] == 0); }
}
pub proof fn cbar_read(v: int, r: Seq<u8>)
    requires 0 <= v < 20
    ensures cbar_head(cbar_word(v) + r) == v, cbar_word(v).len() > 0, cbar_word(v)[0] == 1, bits(cbar_word(v))
{ if v < 20 { cbar_read0(v, r); } }
pub open spec fn cbar_words() -> spec_fn(int) -> Seq<u8> { |v: int| cbar_word(v) }
pub open spec fn cbar_heads() -> spec_fn(Seq<u8>) -> int { |b: Seq<u8>| cbar_head(b) }
pub proof fn cbar_readable() ensures readable(cbar_words(), cbar_heads(), 20), forall|v: int| 0 <= v < 20 ==> bits(#[trigger] cbar_words()(v)) {
    assert forall|v: int, r: Seq<u8>| 0 <= v < 20 && barfirst(r) implies cbar_heads()(#[trigger] (cbar_words()(v) + r)) == v by { cbar_read(v, r); }
    assert forall|v: int| 0 <= v < 20 implies (#[trigger] cbar_words()(v)).len() > 0 && cbar_words()(v)[0] == 1 && bits(cbar_words()(v)) by { cbar_read(v, Seq::<u8>::empty()); }
}
