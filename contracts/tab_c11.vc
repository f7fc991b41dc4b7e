=== spec
/// value -> character, character -> value, value -> modules
pub open spec fn c11_chr(v: int) -> char {
    if v == 0 { '0' }
    else if v == 1 { '1' }
    else if v == 2 { '2' }
    else if v == 3 { '3' }
    else if v == 4 { '4' }
    else if v == 5 { '5' }
    else if v == 6 { '6' }
    else if v == 7 { '7' }
    else if v == 8 { '8' }
    else if v == 9 { '9' }
    else if v == 10 { '-' }
    else { '\0' }
}
pub open spec fn c11_val(c: char) -> int {
    if c == '0' { 0 }
    else if c == '1' { 1 }
    else if c == '2' { 2 }
    else if c == '3' { 3 }
    else if c == '4' { 4 }
    else if c == '5' { 5 }
    else if c == '6' { 6 }
    else if c == '7' { 7 }
    else if c == '8' { 8 }
    else if c == '9' { 9 }
    else if c == '-' { 10 }
    else { -1int }
}
pub open spec fn c11_pat(v: int) -> Seq<u8> {
    if v == 0 { seq![1u8,0,1,0,1,1] }
    else if v == 1 { seq![1u8,1,0,1,0,1,1] }
    else if v == 2 { seq![1u8,0,0,1,0,1,1] }
    else if v == 3 { seq![1u8,1,0,0,1,0,1] }
    else if v == 4 { seq![1u8,0,1,1,0,1,1] }
    else if v == 5 { seq![1u8,1,0,1,1,0,1] }
    else if v == 6 { seq![1u8,0,0,1,1,0,1] }
    else if v == 7 { seq![1u8,0,1,0,0,1,1] }
    else if v == 8 { seq![1u8,1,0,1,0,0,1] }
    else if v == 9 { seq![1u8,1,0,1,0,1] }
    else if v == 10 { seq![1u8,0,1,1,0,1] }
    else { Seq::<u8>::empty() }
}
pub open spec fn c11_ok(c: char) -> bool { c11_val(c) >= 0 }
pub proof fn c11_tab(v: int)
    requires 0 <= v < 11
    ensures c11_val(c11_chr(v)) == v, (c11_chr(v) as u32) < 0x80
{}
pub proof fn c11_inj(c: char)
    requires c11_ok(c)
    ensures 0 <= c11_val(c) < 11, c11_chr(c11_val(c)) == c, (c as u32) < 0x80
{}
pub open spec fn c11_all(s: Seq<char>) -> bool { forall|k: int| 0 <= k < s.len() ==> c11_ok(#[trigger] s[k]) }
