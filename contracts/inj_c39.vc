=== use inj tab_c39
=== spec
pub open spec fn c39_head(b: Seq<u8>) -> int {
    if b[1] == 0 { if b[2] == 0 { if b[4] == 0 { if b[5] == 0 { if b[8] == 0 { 39 } else { 40 } } else { if b[6] == 0 { if b[7] == 0 { 41 } else { 36 } } else { 33 } } } else { if b[7] == 0 { if b[9] == 0 { 31 } else { 38 } } else { 35 } } } else { if b[3] == 0 { if b[4] == 0 { if b[6] == 0 { if b[7] == 0 { 42 } else { 7 } } else { if b[9] == 0 { 4 } else { 0 } } } else { if b[5] == 0 { if b[6] == 0 { 16 } else { 26 } } else { if b[7] == 0 { if b[9] == 0 { 13 } else { 19 } } else { if b[8] == 0 { 23 } else { 29 } } } } } else { if b[5] == 0 { if b[7] == 0 { if b[9] == 0 { 2 } else { 9 } } else { 6 } } else { if b[6] == 0 { if b[7] == 0 { if b[9] == 0 { 11 } else { 18 } } else { if b[8] == 0 { 21 } else { 28 } } } else { if b[8] == 0 { 15 } else { 25 } } } } } } else { if b[3] == 0 { if b[5] == 0 { if b[7] == 0 { if b[9] == 0 { 30 } else { 37 } } else { 34 } } else { 32 } } else { if b[4] == 0 { if b[5] == 0 { if b[7] == 0 { if b[9] == 0 { 1 } else { 8 } } else { 5 } } else { if b[6] == 0 { if b[7] == 0 { if b[9] == 0 { 10 } else { 17 } } else { if b[8] == 0 { 20 } else { 27 } } } else { if b[8] == 0 { 14 } else { 24 } } } } else { if b[6] == 0 { 3 } else { if b[8] == 0 { 12 } else { 22 } } } } }
}
pub open spec fn c39_word(v: int) -> Seq<u8> { c39_pat(v) + seq![0u8] }
pub proof fn c39_read0(v: int, r: Seq<u8>)
    requires 0 <= v < 20
    ensures c39_head(c39_word(v) + r) == v, c39_word(v).len() == (13), c39_word(v)[0] == 1, bits(c39_word(v)), c39_word(v).last() == 0
{
    let b = c39_word(v) + r;
    if v == 0 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 1); assert(b[10] == 0); assert(b[11] == 1); assert(b[12] == 0); }
    else if v == 1 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 1); assert(b[11] == 1); assert(b[12] == 0); }
    else if v == 2 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 1); assert(b[11] == 1); assert(b[12] == 0); }
    else if v == 3 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 0); assert(b[9] == 1); assert(b[10] == 0); assert(b[11] == 1); assert(b[12] == 0); }
    else if v == 4 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 1); assert(b[11] == 1); assert(b[12] == 0); }
    else if v == 5 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 1); assert(b[8] == 0); assert(b[9] == 1); assert(b[10] == 0); assert(b[11] == 1); assert(b[12] == 0); }
    else if v == 6 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 1); assert(b[8] == 0); assert(b[9] == 1); assert(b[10] == 0); assert(b[11] == 1); assert(b[12] == 0); }
    else if v == 7 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 1); assert(b[11] == 1); assert(b[12] == 0); }
    else if v == 8 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 1); assert(b[10] == 0); assert(b[11] == 1); assert(b[12] == 0); }
    else if v == 9 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 1); assert(b[10] == 0); assert(b[11] == 1); assert(b[12] == 0); }
    else if v == 10 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 1); assert(b[11] == 1); assert(b[12] == 0); }
    else if v == 11 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 1); assert(b[11] == 1); assert(b[12] == 0); }
    else if v == 12 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 0); assert(b[9] == 1); assert(b[10] == 0); assert(b[11] == 1); assert(b[12] == 0); }
    else if v == 13 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 1); assert(b[11] == 1); assert(b[12] == 0); }
    else if v == 14 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 0); assert(b[9] == 1); assert(b[10] == 0); assert(b[11] == 1); assert(b[12] == 0); }
    else if v == 15 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 0); assert(b[9] == 1); assert(b[10] == 0); assert(b[11] == 1); assert(b[12] == 0); }
    else if v == 16 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 1); assert(b[11] == 1); assert(b[12] == 0); }
    else if v == 17 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 1); assert(b[10] == 0); assert(b[11] == 1); assert(b[12] == 0); }
    else if v == 18 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 1); assert(b[10] == 0); assert(b[11] == 1); assert(b[12] == 0); }
    else if v == 19 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 1); assert(b[10] == 0); assert(b[11] == 1); assert(b[12] == 0); }
}
pub proof fn c39_read20(v: int, r: Seq<u8>)
    requires 20 <= v < 40
    ensures c39_head(c39_word(v) + r) == v, c39_word(v).len() == (13), c39_word(v)[0] == 1, bits(c39_word(v)), c39_word(v).last() == 0
{
    let b = c39_word(v) + r;
    if v == 20 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 0); assert(b[9] == 0); assert(b[10] == 1); assert(b[11] == 1); assert(b[12] == 0); }
    else if v == 21 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 0); assert(b[9] == 0); assert(b[10] == 1); assert(b[11] == 1); assert(b[12] == 0); }
    else if v == 22 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 0); assert(b[11] == 1); assert(b[12] == 0); }
    else if v == 23 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 0); assert(b[9] == 0); assert(b[10] == 1); assert(b[11] == 1); assert(b[12] == 0); }
    else if v == 24 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 0); assert(b[11] == 1); assert(b[12] == 0); }
    else if v == 25 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 0); assert(b[11] == 1); assert(b[12] == 0); }
    else if v == 26 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 1); assert(b[8] == 0); assert(b[9] == 0); assert(b[10] == 1); assert(b[11] == 1); assert(b[12] == 0); }
    else if v == 27 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 0); assert(b[11] == 1); assert(b[12] == 0); }
    else if v == 28 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 0); assert(b[11] == 1); assert(b[12] == 0); }
    else if v == 29 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 0); assert(b[11] == 1); assert(b[12] == 0); }
    else if v == 30 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 1); assert(b[11] == 1); assert(b[12] == 0); }
    else if v == 31 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 1); assert(b[11] == 1); assert(b[12] == 0); }
    else if v == 32 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 0); assert(b[9] == 1); assert(b[10] == 0); assert(b[11] == 1); assert(b[12] == 0); }
    else if v == 33 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 1); assert(b[11] == 1); assert(b[12] == 0); }
    else if v == 34 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 1); assert(b[8] == 0); assert(b[9] == 1); assert(b[10] == 0); assert(b[11] == 1); assert(b[12] == 0); }
    else if v == 35 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 1); assert(b[8] == 0); assert(b[9] == 1); assert(b[10] == 0); assert(b[11] == 1); assert(b[12] == 0); }
    else if v == 36 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 1); assert(b[11] == 1); assert(b[12] == 0); }
    else if v == 37 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 1); assert(b[10] == 0); assert(b[11] == 1); assert(b[12] == 0); }
    else if v == 38 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 1); assert(b[10] == 0); assert(b[11] == 1); assert(b[12] == 0); }
    else if v == 39 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 0); assert(b[9] == 1); assert(b[10] == 0); assert(b[11] == 1); assert(b[12] == 0); }
}
pub proof fn c39_read40(v: int, r: Seq<u8>)
    requires 40 <= v < 43
    ensures c39_head(c39_word(v) + r) == v, c39_word(v).len() == (13), c39_word(v)[0] == 1, bits(c39_word(v)), c39_word(v).last() == 0
{
    let b = c39_word(v) + r;
    if v == 40 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 0); assert(b[11] == 1); assert(b[12] == 0); }
    else if v == 41 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 0); assert(b[11] == 1); assert(b[12] == 0); }
    else if v == 42 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 0); assert(b[11] == 1); assert(b[12] == 0); }
}
pub proof fn c39_read(v: int, r: Seq<u8>)
    requires 0 <= v < 43
    ensures c39_head(c39_word(v) + r) == v, c39_word(v).len() > 0, c39_word(v)[0] == 1, bits(c39_word(v)), c39_word(v).len() == 13
{ if v < 20 { c39_read0(v, r); } else if v < 40 { c39_read20(v, r); } else if v < 43 { c39_read40(v, r); } }
pub open spec fn c39_words() -> spec_fn(int) -> Seq<u8> { |v: int| c39_word(v) }
pub open spec fn c39_heads() -> spec_fn(Seq<u8>) -> int { |b: Seq<u8>| c39_head(b) }
pub proof fn c39_readable() ensures readable(c39_words(), c39_heads(), 43), forall|v: int| 0 <= v < 43 ==> bits(#[trigger] c39_words()(v)) {
    assert forall|v: int, r: Seq<u8>| 0 <= v < 43 && barfirst(r) implies c39_heads()(#[trigger] (c39_words()(v) + r)) == v by { c39_read(v, r); }
    assert forall|v: int| 0 <= v < 43 implies (#[trigger] c39_words()(v)).len() > 0 && c39_words()(v)[0] == 1 && bits(c39_words()(v)) by { c39_read(v, Seq::<u8>::empty()); }
}
