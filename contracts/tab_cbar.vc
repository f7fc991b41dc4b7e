=== spec
/// value -> character, character -> value, value -> modules
pub open spec fn cbar_chr(v: int) -> char {
    if v == 0 { '0' }
    else if v == 1 { '1' }
    else if v == 2 { '2' }
    else if v == 3 { '3' }
    else if v == 4 { '4' }
    else if v == 5 { '5' }
    else if v == 6 { '6' }
    else if v == 7 { '7' }
    else if v == 8 { '8' }
    else if v == 9 { '9' }
    else if v == 10 { '-' }
    else if v == 11 { '$' }
    else if v == 12 { ':' }
    else if v == 13 { '/' }
    else if v == 14 { '.' }
    else if v == 15 { '+' }
    else if v == 16 { 'A' }
    else if v == 17 { 'B' }
    else if v == 18 { 'C' }
    else if v == 19 { 'D' }
    else { '\0' }
}
pub open spec fn cbar_val(c: char) -> int {
    if c == '0' { 0 }
    else if c == '1' { 1 }
    else if c == '2' { 2 }
    else if c == '3' { 3 }
    else if c == '4' { 4 }
    else if c == '5' { 5 }
    else if c == '6' { 6 }
    else if c == '7' { 7 }
    else if c == '8' { 8 }
    else if c == '9' { 9 }
    else if c == '-' { 10 }
    else if c == '$' { 11 }
    else if c == ':' { 12 }
    else if c == '/' { 13 }
    else if c == '.' { 14 }
    else if c == '+' { 15 }
    else if c == 'A' { 16 }
    else if c == 'B' { 17 }
    else if c == 'C' { 18 }
    else if c == 'D' { 19 }
    else { -1int }
}
pub open spec fn cbar_pat(v: int) -> Seq<u8> {
    if v == 0 { seq![1u8,0,1,0,1,0,0,1,1] }
    else if v == 1 { seq![1u8,0,1,0,1,1,0,0,1] }
    else if v == 2 { seq![1u8,0,1,0,0,1,0,1,1] }
    else if v == 3 { seq![1u8,1,0,0,1,0,1,0,1] }
    else if v == 4 { seq![1u8,0,1,1,0,1,0,0,1] }
    else if v == 5 { seq![1u8,1,0,1,0,1,0,0,1] }
    else if v == 6 { seq![1u8,0,0,1,0,1,0,1,1] }
    else if v == 7 { seq![1u8,0,0,1,0,1,1,0,1] }
    else if v == 8 { seq![1u8,0,0,1,1,0,1,0,1] }
    else if v == 9 { seq![1u8,1,0,1,0,0,1,0,1] }
    else if v == 10 { seq![1u8,0,1,0,0,1,1,0,1] }
    else if v == 11 { seq![1u8,0,1,1,0,0,1,0,1] }
    else if v == 12 { seq![1u8,1,0,1,0,1,1,0,1,1] }
    else if v == 13 { seq![1u8,1,0,1,1,0,1,0,1,1] }
    else if v == 14 { seq![1u8,1,0,1,1,0,1,1,0,1] }
    else if v == 15 { seq![1u8,0,1,1,0,0,1,1,0,0,1,1] }
    else if v == 16 { seq![1u8,0,1,1,0,0,1,0,0,1] }
    else if v == 17 { seq![1u8,0,1,0,0,1,0,0,1,1] }
    else if v == 18 { seq![1u8,0,0,1,0,0,1,0,1,1] }
    else if v == 19 { seq![1u8,0,1,0,0,1,1,0,0,1] }
    else { Seq::<u8>::empty() }
}
pub open spec fn cbar_ok(c: char) -> bool { cbar_val(c) >= 0 }
pub proof fn cbar_tab(v: int)
    requires 0 <= v < 20
    ensures cbar_val(cbar_chr(v)) == v, (cbar_chr(v) as u32) < 0x80
{}
pub proof fn cbar_inj(c: char)
    requires cbar_ok(c)
    ensures 0 <= cbar_val(c) < 20, cbar_chr(cbar_val(c)) == c, (c as u32) < 0x80
{}
pub open spec fn cbar_all(s: Seq<char>) -> bool { forall|k: int| 0 <= k < s.len() ==> cbar_ok(#[trigger] s[k]) }
