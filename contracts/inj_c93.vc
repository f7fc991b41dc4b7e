=== use inj tab_c93
=== spec
pub open spec fn c93_head(b: Seq<u8>) -> int {
    if b[1] == 0 { if b[2] == 0 { if b[3] == 0 { if b[4] == 0 { 9 } else { if b[5] == 0 { if b[6] == 0 { 8 } else { if b[7] == 0 { 0 } else { 25 } } } else { 20 } } } else { if b[4] == 0 { if b[5] == 0 { if b[6] == 0 { 6 } else { if b[7] == 0 { 5 } else { 43 } } } else { if b[6] == 0 { 4 } else { if b[7] == 0 { 24 } else { 36 } } } } else { if b[5] == 0 { if b[6] == 0 { 46 } else { if b[7] == 0 { 19 } else { 34 } } } else { 35 } } } } else { if b[3] == 0 { if b[4] == 0 { if b[5] == 0 { if b[6] == 0 { 3 } else { if b[7] == 0 { 2 } else { 23 } } } else { if b[6] == 0 { 1 } else { 22 } } } else { if b[5] == 0 { 7 } else { 21 } } } else { if b[4] == 0 { if b[5] == 0 { if b[6] == 0 { 18 } else { if b[7] == 0 { 17 } else { 33 } } } else { if b[6] == 0 { 16 } else { if b[7] == 0 { 32 } else { 40 } } } } else { 41 } } } } else { if b[2] == 0 { if b[3] == 0 { if b[4] == 0 { 15 } else { if b[5] == 0 { if b[6] == 0 { 14 } else { if b[7] == 0 { 13 } else { 30 } } } else { 31 } } } else { if b[4] == 0 { if b[5] == 0 { if b[6] == 0 { 12 } else { if b[7] == 0 { 11 } else { 29 } } } else { if b[6] == 0 { 10 } else { if b[7] == 0 { 28 } else { 42 } } } } else { if b[6] == 0 { 27 } else { 26 } } } } else { if b[4] == 0 { 39 } else { if b[5] == 0 { if b[6] == 0 { 38 } else { if b[7] == 0 { 37 } else { 45 } } } else { 44 } } } }
}
pub open spec fn c93_word(v: int) -> Seq<u8> { c93_pat(v) }
pub proof fn c93_read0(v: int, r: Seq<u8>)
    requires 0 <= v < 20
    ensures c93_head(c93_word(v) + r) == v, c93_word(v).len() == (9), c93_word(v)[0] == 1, bits(c93_word(v)), c93_word(v).last() == c93_word(v).last()
{
    let b = c93_word(v) + r;
    if v == 0 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 0); }
    else if v == 1 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 0); assert(b[8] == 0); }
    else if v == 2 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 0); }
    else if v == 3 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 0); }
    else if v == 4 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 0); assert(b[8] == 0); }
    else if v == 5 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 0); }
    else if v == 6 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 0); }
    else if v == 7 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 0); assert(b[7] == 0); assert(b[8] == 0); }
    else if v == 8 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 0); }
    else if v == 9 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 0); }
    else if v == 10 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 0); assert(b[8] == 0); }
    else if v == 11 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 0); }
    else if v == 12 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 0); }
    else if v == 13 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 0); }
    else if v == 14 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 0); }
    else if v == 15 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 0); }
    else if v == 16 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 0); assert(b[8] == 0); }
    else if v == 17 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 0); }
    else if v == 18 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 0); }
    else if v == 19 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 0); }
}
pub proof fn c93_read20(v: int, r: Seq<u8>)
    requires 20 <= v < 40
    ensures c93_head(c93_word(v) + r) == v, c93_word(v).len() == (9), c93_word(v)[0] == 1, bits(c93_word(v)), c93_word(v).last() == c93_word(v).last()
{
    let b = c93_word(v) + r;
    if v == 20 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 0); }
    else if v == 21 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 0); assert(b[8] == 0); }
    else if v == 22 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 0); }
    else if v == 23 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 1); assert(b[8] == 0); }
    else if v == 24 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 0); }
    else if v == 25 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 1); assert(b[8] == 0); }
    else if v == 26 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 0); }
    else if v == 27 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 0); }
    else if v == 28 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 0); }
    else if v == 29 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 1); assert(b[8] == 0); }
    else if v == 30 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 1); assert(b[8] == 0); }
    else if v == 31 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 0); }
    else if v == 32 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 0); }
    else if v == 33 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 1); assert(b[8] == 0); }
    else if v == 34 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 1); assert(b[8] == 0); }
    else if v == 35 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 1); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 0); }
    else if v == 36 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 1); assert(b[8] == 0); }
    else if v == 37 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 0); }
    else if v == 38 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 0); }
    else if v == 39 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 0); }
}
pub proof fn c93_read40(v: int, r: Seq<u8>)
    requires 40 <= v < 47
    ensures c93_head(c93_word(v) + r) == v, c93_word(v).len() == (9), c93_word(v)[0] == 1, bits(c93_word(v)), c93_word(v).last() == c93_word(v).last()
{
    let b = c93_word(v) + r;
    if v == 40 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 1); assert(b[8] == 0); }
    else if v == 41 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 1); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 1); assert(b[8] == 0); }
    else if v == 42 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 1); assert(b[8] == 0); }
    else if v == 43 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 1); assert(b[8] == 0); }
    else if v == 44 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 0); }
    else if v == 45 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 1); assert(b[8] == 0); }
    else if v == 46 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 0); }
}
pub proof fn c93_read(v: int, r: Seq<u8>)
    requires 0 <= v < 47
    ensures c93_head(c93_word(v) + r) == v, c93_word(v).len() > 0, c93_word(v)[0] == 1, bits(c93_word(v)), c93_word(v).len() == 9
{ if v < 20 { c93_read0(v, r); } else if v < 40 { c93_read20(v, r); } else if v < 47 { c93_read40(v, r); } }
pub open spec fn c93_words() -> spec_fn(int) -> Seq<u8> { |v: int| c93_word(v) }
pub open spec fn c93_heads() -> spec_fn(Seq<u8>) -> int { |b: Seq<u8>| c93_head(b) }
pub proof fn c93_readable() ensures readable(c93_words(), c93_heads(), 47), forall|v: int| 0 <= v < 47 ==> bits(#[trigger] c93_words()(v)) {
    assert forall|v: int, r: Seq<u8>| 0 <= v < 47 && barfirst(r) implies c93_heads()(#[trigger] (c93_words()(v) + r)) == v by { c93_read(v, r); }
    assert forall|v: int| 0 <= v < 47 implies (#[trigger] c93_words()(v)).len() > 0 && c93_words()(v)[0] == 1 && bits(c93_words()(v)) by { c93_read(v, Seq::<u8>::empty()); }
}
