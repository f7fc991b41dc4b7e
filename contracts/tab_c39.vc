=== spec
/// value -> character, character -> value, value -> modules
pub open spec fn c39_chr(v: int) -> char {
    if v == 0 { '0' }
    else if v == 1 { '1' }
    else if v == 2 { '2' }
    else if v == 3 { '3' }
    else if v == 4 { '4' }
    else if v == 5 { '5' }
    else if v == 6 { '6' }
    else if v == 7 { '7' }
    else if v == 8 { '8' }
    else if v == 9 { '9' }
    else if v == 10 { 'A' }
    else if v == 11 { 'B' }
    else if v == 12 { 'C' }
    else if v == 13 { 'D' }
    else if v == 14 { 'E' }
    else if v == 15 { 'F' }
    else if v == 16 { 'G' }
    else if v == 17 { 'H' }
    else if v == 18 { 'I' }
    else if v == 19 { 'J' }
    else if v == 20 { 'K' }
    else if v == 21 { 'L' }
    else if v == 22 { 'M' }
    else if v == 23 { 'N' }
    else if v == 24 { 'O' }
    else if v == 25 { 'P' }
    else if v == 26 { 'Q' }
    else if v == 27 { 'R' }
    else if v == 28 { 'S' }
    else if v == 29 { 'T' }
    else if v == 30 { 'U' }
    else if v == 31 { 'V' }
    else if v == 32 { 'W' }
    else if v == 33 { 'X' }
    else if v == 34 { 'Y' }
    else if v == 35 { 'Z' }
    else if v == 36 { '-' }
    else if v == 37 { '.' }
    else if v == 38 { ' ' }
    else if v == 39 { '$' }
    else if v == 40 { '/' }
    else if v == 41 { '+' }
    else if v == 42 { '%' }
    else { '\0' }
}
pub open spec fn c39_val(c: char) -> int {
    if c == '0' { 0 }
    else if c == '1' { 1 }
    else if c == '2' { 2 }
    else if c == '3' { 3 }
    else if c == '4' { 4 }
    else if c == '5' { 5 }
    else if c == '6' { 6 }
    else if c == '7' { 7 }
    else if c == '8' { 8 }
    else if c == '9' { 9 }
    else if c == 'A' { 10 }
    else if c == 'B' { 11 }
    else if c == 'C' { 12 }
    else if c == 'D' { 13 }
    else if c == 'E' { 14 }
    else if c == 'F' { 15 }
    else if c == 'G' { 16 }
    else if c == 'H' { 17 }
    else if c == 'I' { 18 }
    else if c == 'J' { 19 }
    else if c == 'K' { 20 }
    else if c == 'L' { 21 }
    else if c == 'M' { 22 }
    else if c == 'N' { 23 }
    else if c == 'O' { 24 }
    else if c == 'P' { 25 }
    else if c == 'Q' { 26 }
    else if c == 'R' { 27 }
    else if c == 'S' { 28 }
    else if c == 'T' { 29 }
    else if c == 'U' { 30 }
    else if c == 'V' { 31 }
    else if c == 'W' { 32 }
    else if c == 'X' { 33 }
    else if c == 'Y' { 34 }
    else if c == 'Z' { 35 }
    else if c == '-' { 36 }
    else if c == '.' { 37 }
    else if c == ' ' { 38 }
    else if c == '$' { 39 }
    else if c == '/' { 40 }
    else if c == '+' { 41 }
    else if c == '%' { 42 }
    else { -1int }
}
pub open spec fn c39_pat(v: int) -> Seq<u8> {
    if v == 0 { seq![1u8,0,1,0,0,1,1,0,1,1,0,1] }
    else if v == 1 { seq![1u8,1,0,1,0,0,1,0,1,0,1,1] }
    else if v == 2 { seq![1u8,0,1,1,0,0,1,0,1,0,1,1] }
    else if v == 3 { seq![1u8,1,0,1,1,0,0,1,0,1,0,1] }
    else if v == 4 { seq![1u8,0,1,0,0,1,1,0,1,0,1,1] }
    else if v == 5 { seq![1u8,1,0,1,0,0,1,1,0,1,0,1] }
    else if v == 6 { seq![1u8,0,1,1,0,0,1,1,0,1,0,1] }
    else if v == 7 { seq![1u8,0,1,0,0,1,0,1,1,0,1,1] }
    else if v == 8 { seq![1u8,1,0,1,0,0,1,0,1,1,0,1] }
    else if v == 9 { seq![1u8,0,1,1,0,0,1,0,1,1,0,1] }
    else if v == 10 { seq![1u8,1,0,1,0,1,0,0,1,0,1,1] }
    else if v == 11 { seq![1u8,0,1,1,0,1,0,0,1,0,1,1] }
    else if v == 12 { seq![1u8,1,0,1,1,0,1,0,0,1,0,1] }
    else if v == 13 { seq![1u8,0,1,0,1,1,0,0,1,0,1,1] }
    else if v == 14 { seq![1u8,1,0,1,0,1,1,0,0,1,0,1] }
    else if v == 15 { seq![1u8,0,1,1,0,1,1,0,0,1,0,1] }
    else if v == 16 { seq![1u8,0,1,0,1,0,0,1,1,0,1,1] }
    else if v == 17 { seq![1u8,1,0,1,0,1,0,0,1,1,0,1] }
    else if v == 18 { seq![1u8,0,1,1,0,1,0,0,1,1,0,1] }
    else if v == 19 { seq![1u8,0,1,0,1,1,0,0,1,1,0,1] }
    else if v == 20 { seq![1u8,1,0,1,0,1,0,1,0,0,1,1] }
    else if v == 21 { seq![1u8,0,1,1,0,1,0,1,0,0,1,1] }
    else if v == 22 { seq![1u8,1,0,1,1,0,1,0,1,0,0,1] }
    else if v == 23 { seq![1u8,0,1,0,1,1,0,1,0,0,1,1] }
    else if v == 24 { seq![1u8,1,0,1,0,1,1,0,1,0,0,1] }
    else if v == 25 { seq![1u8,0,1,1,0,1,1,0,1,0,0,1] }
    else if v == 26 { seq![1u8,0,1,0,1,0,1,1,0,0,1,1] }
    else if v == 27 { seq![1u8,1,0,1,0,1,0,1,1,0,0,1] }
    else if v == 28 { seq![1u8,0,1,1,0,1,0,1,1,0,0,1] }
    else if v == 29 { seq![1u8,0,1,0,1,1,0,1,1,0,0,1] }
    else if v == 30 { seq![1u8,1,0,0,1,0,1,0,1,0,1,1] }
    else if v == 31 { seq![1u8,0,0,1,1,0,1,0,1,0,1,1] }
    else if v == 32 { seq![1u8,1,0,0,1,1,0,1,0,1,0,1] }
    else if v == 33 { seq![1u8,0,0,1,0,1,1,0,1,0,1,1] }
    else if v == 34 { seq![1u8,1,0,0,1,0,1,1,0,1,0,1] }
    else if v == 35 { seq![1u8,0,0,1,1,0,1,1,0,1,0,1] }
    else if v == 36 { seq![1u8,0,0,1,0,1,0,1,1,0,1,1] }
    else if v == 37 { seq![1u8,1,0,0,1,0,1,0,1,1,0,1] }
    else if v == 38 { seq![1u8,0,0,1,1,0,1,0,1,1,0,1] }
    else if v == 39 { seq![1u8,0,0,1,0,0,1,0,0,1,0,1] }
    else if v == 40 { seq![1u8,0,0,1,0,0,1,0,1,0,0,1] }
    else if v == 41 { seq![1u8,0,0,1,0,1,0,0,1,0,0,1] }
    else if v == 42 { seq![1u8,0,1,0,0,1,0,0,1,0,0,1] }
    else { Seq::<u8>::empty() }
}
pub open spec fn c39_ok(c: char) -> bool { c39_val(c) >= 0 }
pub proof fn c39_tab(v: int)
    requires 0 <= v < 43
    ensures c39_val(c39_chr(v)) == v, (c39_chr(v) as u32) < 0x80
{}
pub proof fn c39_inj(c: char)
    requires c39_ok(c)
    ensures 0 <= c39_val(c) < 43, c39_chr(c39_val(c)) == c, (c as u32) < 0x80
{}
pub open spec fn c39_all(s: Seq<char>) -> bool { forall|k: int| 0 <= k < s.len() ==> c39_ok(#[trigger] s[k]) }
