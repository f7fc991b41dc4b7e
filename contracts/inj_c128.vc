=== use inj tab_c128
=== spec
pub open spec fn c128_head(b: Seq<u8>) -> int {
    if b[1] == 0 { if b[2] == 0 { if b[3] == 0 { if b[4] == 0 { if b[6] == 0 { if b[7] == 0 { 68 } else { 67 } } else { if b[8] == 0 { 74 } else { 73 } } } else { if b[5] == 0 { if b[6] == 0 { if b[7] == 0 { 35 } else { 5 } } else { if b[8] == 0 { 34 } else { 94 } } } else { if b[6] == 0 { if b[7] == 0 { if b[8] == 0 { 38 } else { 8 } } else { if b[8] == 0 { 37 } else { 44 } } } else { if b[7] == 0 { 47 } else { 79 } } } } } else { if b[4] == 0 { if b[5] == 0 { if b[6] == 0 { if b[7] == 0 { 66 } else { 4 } } else { if b[8] == 0 { 3 } else { 82 } } } else { if b[7] == 0 { 65 } else { 81 } } } else { if b[5] == 0 { if b[6] == 0 { if b[7] == 0 { if b[8] == 0 { 72 } else { 7 } } else { if b[8] == 0 { 6 } else { 14 } } } else { if b[7] == 0 { 71 } else { 13 } } } else { if b[6] == 0 { if b[7] == 0 { 17 } else { 16 } } else { if b[8] == 0 { 85 } else { 84 } } } } } } else { if b[3] == 0 { if b[4] == 0 { if b[5] == 0 { if b[6] == 0 { 64 } else { if b[8] == 0 { 33 } else { 93 } } } else { if b[7] == 0 { 63 } else { 80 } } } else { 92 } } else { if b[4] == 0 { if b[5] == 0 { if b[6] == 0 { if b[7] == 0 { 70 } else { if b[8] == 0 { 36 } else { 43 } } } else { if b[7] == 0 { 69 } else { 12 } } } else { 42 } } else { if b[5] == 0 { if b[6] == 0 { if b[7] == 0 { 46 } else { 15 } } else { if b[8] == 0 { 45 } else { 99 } } } else { if b[7] == 0 { if b[8] == 0 { 96 } else { 83 } } else { if b[8] == 0 { 95 } else { 100 } } } } } } } else { if b[2] == 0 { if b[3] == 0 { if b[4] == 0 { if b[5] == 0 { if b[8] == 0 { 75 } else { 78 } } else { if b[6] == 0 { if b[7] == 0 { if b[8] == 0 { 41 } else { 11 } } else { if b[8] == 0 { 40 } else { 50 } } } else { 32 } } } else { if b[5] == 0 { if b[6] == 0 { if b[7] == 0 { if b[8] == 0 { 61 } else { 10 } } else { if b[8] == 0 { 9 } else { 20 } } } else { if b[7] == 0 { 76 } else { 19 } } } else { if b[6] == 0 { if b[7] == 0 { 2 } else { 1 } } else { if b[8] == 0 { 18 } else { 22 } } } } } else { if b[4] == 0 { if b[6] == 0 { if b[7] == 0 { 103 } else { if b[8] == 0 { 39 } else { 49 } } } else { if b[7] == 0 { 104 } else { 105 } } } else { if b[5] == 0 { if b[6] == 0 { if b[7] == 0 { 31 } else { 0 } } else { if b[8] == 0 { 30 } else { 89 } } } else { if b[6] == 0 { if b[7] == 0 { if b[8] == 0 { 52 } else { 21 } } else { if b[8] == 0 { 51 } else { 53 } } } else { 90 } } } } } else { if b[3] == 0 { if b[4] == 0 { if b[5] == 0 { if b[7] == 0 { 56 } else { 59 } } else { if b[6] == 0 { if b[7] == 0 { 26 } else { 25 } } else { if b[8] == 0 { 29 } else { 28 } } } } else { if b[5] == 0 { if b[6] == 0 { if b[7] == 0 { 55 } else { 24 } } else { if b[8] == 0 { 54 } else { 101 } } } else { if b[6] == 0 { if b[7] == 0 { if b[8] == 0 { 58 } else { 27 } } else { if b[8] == 0 { 57 } else { 23 } } } else { if b[7] == 0 { 48 } else { 60 } } } } } else { if b[5] == 0 { if b[6] == 0 { 62 } else { if b[8] == 0 { 88 } else { 87 } } } else { if b[6] == 0 { if b[7] == 0 { if b[8] == 0 { 98 } else { 86 } } else { if b[8] == 0 { 97 } else { 102 } } } else { if b[7] == 0 { 91 } else { 77 } } } } } }
}
pub open spec fn c128_word(v: int) -> Seq<u8> { c128_pat(v) }
pub proof fn c128_read0(v: int, r: Seq<u8>)
    requires 0 <= v < 20
    ensures c128_head(c128_word(v) + r) == v, c128_word(v).len() == (11), c128_word(v)[0] == 1, bits(c128_word(v)), c128_word(v).last() == c128_word(v).last()
{
    let b = c128_word(v) + r;
    if v == 0 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 1 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 2 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 3 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 1); assert(b[8] == 0); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 4 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 5 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 6 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 0); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 7 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 0); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 8 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 9 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 0); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 10 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 0); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 11 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 12 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 1); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 13 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 1); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 14 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 1); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 15 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 1); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 16 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 1); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 17 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 1); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 18 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 0); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 19 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 1); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 0); }
}
pub proof fn c128_read20(v: int, r: Seq<u8>)
    requires 20 <= v < 40
    ensures c128_head(c128_word(v) + r) == v, c128_word(v).len() == (11), c128_word(v)[0] == 1, bits(c128_word(v)), c128_word(v).last() == c128_word(v).last()
{
    let b = c128_word(v) + r;
    if v == 20 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 1); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 21 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 1); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 22 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 23 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 1); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 24 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 25 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 26 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 27 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 28 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 29 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 0); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 30 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 1); assert(b[8] == 0); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 31 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 0); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 32 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 33 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 1); assert(b[8] == 0); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 34 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 1); assert(b[8] == 0); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 35 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 0); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 36 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 0); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 37 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 0); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 38 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 0); assert(b[8] == 0); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 39 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 0); assert(b[9] == 0); assert(b[10] == 0); }
}
pub proof fn c128_read40(v: int, r: Seq<u8>)
    requires 40 <= v < 60
    ensures c128_head(c128_word(v) + r) == v, c128_word(v).len() == (11), c128_word(v)[0] == 1, bits(c128_word(v)), c128_word(v).last() == c128_word(v).last()
{
    let b = c128_word(v) + r;
    if v == 40 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 0); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 41 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 0); assert(b[8] == 0); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 42 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 1); assert(b[8] == 0); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 43 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 1); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 44 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 1); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 45 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 1); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 1); assert(b[8] == 0); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 46 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 1); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 0); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 47 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 48 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 49 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 1); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 50 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 1); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 51 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 1); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 0); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 52 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 1); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 0); assert(b[8] == 0); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 53 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 1); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 1); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 54 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 1); assert(b[8] == 0); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 55 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 0); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 56 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 57 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 0); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 58 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 0); assert(b[8] == 0); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 59 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 1); assert(b[8] == 0); assert(b[9] == 1); assert(b[10] == 0); }
}
pub proof fn c128_read60(v: int, r: Seq<u8>)
    requires 60 <= v < 80
    ensures c128_head(c128_word(v) + r) == v, c128_word(v).len() == (11), c128_word(v)[0] == 1, bits(c128_word(v)), c128_word(v).last() == c128_word(v).last()
{
    let b = c128_word(v) + r;
    if v == 60 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 1); assert(b[8] == 0); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 61 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 0); assert(b[7] == 0); assert(b[8] == 0); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 62 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 1); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 0); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 63 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 0); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 64 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 65 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 0); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 66 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 0); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 67 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 68 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 69 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 0); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 70 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 0); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 71 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 0); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 72 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 0); assert(b[7] == 0); assert(b[8] == 0); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 73 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 74 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 0); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 75 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 0); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 76 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 0); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 77 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 1); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 1); assert(b[8] == 0); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 78 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 79 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 1); assert(b[8] == 0); assert(b[9] == 1); assert(b[10] == 0); }
}
pub proof fn c128_read80(v: int, r: Seq<u8>)
    requires 80 <= v < 100
    ensures c128_head(c128_word(v) + r) == v, c128_word(v).len() == (11), c128_word(v)[0] == 1, bits(c128_word(v)), c128_word(v).last() == c128_word(v).last()
{
    let b = c128_word(v) + r;
    if v == 80 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 1); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 81 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 1); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 82 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 1); assert(b[8] == 1); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 83 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 1); assert(b[4] == 1); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 84 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 1); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 85 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 1); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 0); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 86 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 1); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 87 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 1); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 88 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 1); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 0); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 89 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 1); assert(b[8] == 1); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 90 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 1); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 91 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 1); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 92 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 1); assert(b[8] == 0); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 93 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 1); assert(b[8] == 1); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 94 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 1); assert(b[8] == 1); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 95 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 1); assert(b[4] == 1); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 0); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 96 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 1); assert(b[4] == 1); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 0); assert(b[8] == 0); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 97 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 1); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 0); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 98 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 1); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 0); assert(b[8] == 0); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 99 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 1); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 1); assert(b[8] == 1); assert(b[9] == 1); assert(b[10] == 0); }
}
pub proof fn c128_read100(v: int, r: Seq<u8>)
    requires 100 <= v < 106
    ensures c128_head(c128_word(v) + r) == v, c128_word(v).len() == (11), c128_word(v)[0] == 1, bits(c128_word(v)), c128_word(v).last() == c128_word(v).last()
{
    let b = c128_word(v) + r;
    if v == 100 { assert(b[0] == 1); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 1); assert(b[4] == 1); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 1); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 101 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 1); assert(b[3] == 0); assert(b[4] == 1); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 1); assert(b[8] == 1); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 102 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 1); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 1); assert(b[6] == 0); assert(b[7] == 1); assert(b[8] == 1); assert(b[9] == 1); assert(b[10] == 0); }
    else if v == 103 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 0); assert(b[7] == 0); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 104 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 0); assert(b[8] == 0); assert(b[9] == 0); assert(b[10] == 0); }
    else if v == 105 { assert(b[0] == 1); assert(b[1] == 1); assert(b[2] == 0); assert(b[3] == 1); assert(b[4] == 0); assert(b[5] == 0); assert(b[6] == 1); assert(b[7] == 1); assert(b[8] == 1); assert(b[9] == 0); assert(b[10] == 0); }
}
pub proof fn c128_read(v: int, r: Seq<u8>)
    requires 0 <= v < 106
    ensures c128_head(c128_word(v) + r) == v, c128_word(v).len() > 0, c128_word(v)[0] == 1, bits(c128_word(v)), c128_word(v).len() == 11
{ if v < 20 { c128_read0(v, r); } else if v < 40 { c128_read20(v, r); } else if v < 60 { c128_read40(v, r); } else if v < 80 { c128_read60(v, r); } else if v < 100 { c128_read80(v, r); } else if v < 106 { c128_read100(v, r); } }
pub open spec fn c128_words() -> spec_fn(int) -> Seq<u8> { |v: int| c128_word(v) }
pub open spec fn c128_heads() -> spec_fn(Seq<u8>) -> int { |b: Seq<u8>| c128_head(b) }
pub proof fn c128_readable() ensures readable(c128_words(), c128_heads(), 106), forall|v: int| 0 <= v < 106 ==> bits(#[trigger] c128_words()(v)) {
    assert forall|v: int, r: Seq<u8>| 0 <= v < 106 && barfirst(r) implies c128_heads()(#[trigger] (c128_words()(v) + r)) == v by { c128_read(v, r); }
    assert forall|v: int| 0 <= v < 106 implies (#[trigger] c128_words()(v)).len() > 0 && c128_words()(v)[0] == 1 && bits(c128_words()(v)) by { c128_read(v, Seq::<u8>::empty()); }
}
