=== use inj tab_c11
=== spec
pub open spec fn c11_head(b: Seq<u8>) -> int {
    if b[1] == 0 { if b[2] == 0 { if b[4] == 0 { 2 } else { 6 } } else { if b[3] == 0 { if b[4] == 0 { 7 } else { 0 } } else { if b[6] == 0 { 10 } else { 4 } } } } else { if b[3] == 0 { 3 } else { if b[4] == 0 { if b[5] == 0 { 8 } else { if b[6] == 0 { 9 } else { 1 } } } else { 5 } } }
}
pub open spec fn c11_word(v: int) -> Seq<u8> { c11_pat(v) + seq![0u8] }
pub proof fn c11_read0(v: int, r: Seq<u8>)
    requires 0 <= v < 11
    ensures c11_head(c11_word(v) + r) == v, c11_word(v).len() == (if v == 0 || v == 9 || v == 10 { 7nat } else { 8nat }), c11_word(v)[0] == 1, bits(c11_word(v)), c11_word(v).last() == 0
{
    let b = c11_word(v) + r;
    if v == 0 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 1); assert(b[6] == 0); }
    else if v == 1 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 0); }
    else if v == 2 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 0); }
    else if v == 3 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 0); }
    else if v == 4 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 0); }
    else if v == 5 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 0); }
    else if v == 6 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 0); }
    else if v == 7 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 0); }
    else if v == 8 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 0); }
    else if v == 9 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 0); }
    else if v == 10 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 0); }
}
pub proof fn c11_read(v: int, r: Seq<u8>)
    requires 0 <= v < 11
    ensures c11_head(c11_word(v) + r) == v, c11_word(v).len() > 0, c11_word(v)[0] == 1, bits(c11_word(v))
{ if v < 11 { c11_read0(v, r); } }
pub open spec fn c11_words() -> spec_fn(int) -> Seq<u8> { |v: int| c11_word(v) }
pub open spec fn c11_heads() -> spec_fn(Seq<u8>) -> int { |b: Seq<u8>| c11_head(b) }
pub proof fn c11_readable() ensures readable(c11_words(), c11_heads(), 11), forall|v: int| 0 <= v < 11 ==> bits(#[trigger] c11_words()(v)) {
    assert forall|v: int, r: Seq<u8>| 0 <= v < 11 && barfirst(r) implies c11_heads()(#[trigger] (c11_words()(v) + r)) == v by { c11_read(v, r); }
    assert forall|v: int| 0 <= v < 11 implies (#[trigger] c11_words()(v)).len() > 0 && c11_words()(v)[0] == 1 && bits(c11_words()(v)) by { c11_read(v, Seq::<u8>::empty()); }
}
