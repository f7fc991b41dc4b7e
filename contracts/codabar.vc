=== use tab_cbar
=== spec
/// the value of the character a unit stands for
pub open spec fn cbar_unit(u: codabar_Unit) -> int {
    match u {
        codabar_Unit::Zero => 0,
        codabar_Unit::One => 1,
        codabar_Unit::Two => 2,
        codabar_Unit::Three => 3,
        codabar_Unit::Four => 4,
        codabar_Unit::Five => 5,
        codabar_Unit::Six => 6,
        codabar_Unit::Seven => 7,
        codabar_Unit::Eight => 8,
        codabar_Unit::Nine => 9,
        codabar_Unit::Dash => 10,
        codabar_Unit::Dollar => 11,
        codabar_Unit::Colon => 12,
        codabar_Unit::Slash => 13,
        codabar_Unit::Point => 14,
        codabar_Unit::Plus => 15,
        codabar_Unit::A => 16,
        codabar_Unit::B => 17,
        codabar_Unit::C => 18,
        codabar_Unit::D => 19,
    }
}
/// patterns of the first k characters, each followed by a narrow space
pub open spec fn cbar_row(s: Seq<char>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::<u8>::empty() } else { cbar_row(s.drop_last()) + cbar_pat(cbar_val(s.last())) + seq![0u8] }
}
/// one narrow space between characters and none after the last
pub open spec fn cbar_symbol(s: Seq<char>) -> Seq<u8> { cbar_row(s.drop_last()) + cbar_pat(cbar_val(s.last())) }
pub open spec fn cbar_chars(b: codabar_Codabar) -> Seq<char> { Seq::new(b.0@.len(), |k: int| cbar_chr(cbar_unit(b.0@[k]))) }
pub open spec fn cbar_inv(b: codabar_Codabar) -> bool { 1 <= b.0@.len() <= 256 }

=== parse codabar_Codabar cbar_ok 1 256
end: proof { assert($r@[0] == '0'); assert($r@[1] == '1'); assert($r@[2] == '2'); assert($r@[3] == '3'); assert($r@[4] == '4'); assert($r@[5] == '5'); assert($r@[6] == '6'); assert($r@[7] == '7'); assert($r@[8] == '8'); assert($r@[9] == '9'); assert($r@[10] == '-'); assert($r@[11] == '/'); assert($r@[12] == '.'); assert($r@[13] == ':'); assert($r@[14] == '+'); assert($r@[15] == '$'); assert($r@[16] == 'A'); assert($r@[17] == 'B'); assert($r@[18] == 'C'); assert($r@[19] == 'D'); assert forall|c: char| cbar_ok(c) implies #[trigger] $r@.contains(c) by { if c == '0' { assert($r@[0] == c); } else if c == '1' { assert($r@[1] == c); } else if c == '2' { assert($r@[2] == c); } else if c == '3' { assert($r@[3] == c); } else if c == '4' { assert($r@[4] == c); } else if c == '5' { assert($r@[5] == c); } else if c == '6' { assert($r@[6] == c); } else if c == '7' { assert($r@[7] == c); } else if c == '8' { assert($r@[8] == c); } else if c == '9' { assert($r@[9] == c); } else if c == '-' { assert($r@[10] == c); } else if c == '/' { assert($r@[11] == c); } else if c == '.' { assert($r@[12] == c); } else if c == ':' { assert($r@[13] == c); } else if c == '+' { assert($r@[14] == c); } else if c == '$' { assert($r@[15] == c); } else if c == 'A' { assert($r@[16] == c); } else if c == 'B' { assert($r@[17] == c); } else if c == 'C' { assert($r@[18] == c); } else if c == 'D' { assert($r@[19] == c); } } }

=== spec
pub proof fn cbar_row_step(s: Seq<char>, i: int) requires 0 <= i < s.len() ensures cbar_row(s.take(i + 1)) =~= cbar_row(s.take(i)) + cbar_pat(cbar_val(s[i])) + seq![0u8] {
    assert(s.take(i + 1).drop_last() =~= s.take(i));
}
=== fn codabar_Unit_lookup(self_) -> r
ens C08 pat: r@ =~= cbar_pat(cbar_unit(self_))
=== fn codabar_Unit_from_char(c) -> r
ens C08 unit: cbar_ok(c) ==> r is Some && cbar_unit(r->Some_0) == cbar_val(c)
ens C08 none: !cbar_ok(c) ==> r is None
=== fn codabar_Codabar_new(data) -> r
ens C13 err: r is Err ==> r->Err_0 == (if utf8_len(data@) < 1 || utf8_len(data@) > 256 { error_Error::Length } else { error_Error::Character })
ens C13 ok: r is Ok <==> 1 <= utf8_len(data@) <= 256 && cbar_all(data@)
ens C08 data: r is Ok ==> cbar_chars(r->Ok_0) =~= data@ && cbar_inv(r->Ok_0)
pre: proof { lemma_utf8_len(data@); if data@.len() == 0 { assert(utf8_len(data@) == 0); } }
pre: proof { assert forall|c: char| cbar_ok(c) implies cbar_chr(#[trigger] cbar_val(c)) == c by { cbar_inj(c); } }
cand: forall|k: int| 0 <= k < {i} ==> cbar_unit(#[trigger] {a:Vec<codabar_Unit>}@[k]) == cbar_val(data@[k])
=== fn codabar_Codabar_encode(self_) -> r
req inv: cbar_inv(*self_)
ens C08 symbol: r@ =~= cbar_symbol(cbar_chars(*self_))
pre: let ghost s = cbar_chars(*self_);
pre: proof { assert forall|v: int| 0 <= v < 20 implies cbar_val(#[trigger] cbar_chr(v)) == v by { cbar_tab(v); } }
pre: proof { assert(s.take(s.len() as int) =~= s); assert(s.take(s.len() - 1) =~= s.drop_last());
    }
step: if {i} < s.len() { cbar_row_step(s, {i} as int); }
step: if 0 < {i} <= s.len() { cbar_row_step(s, {i} - 1); }
alt a: {i} < s.len() ==> {a:Vec<u8>}@ =~= cbar_row(s.take({i} as int))
alt a: {i} == s.len() ==> {a:Vec<u8>}@ =~= cbar_row(s.take(s.len() - 1)) + cbar_pat(cbar_val(s.last()))
alt b: {i} > 0 ==> {a:Vec<u8>}@ =~= cbar_row(s.take({i} - 1)) + cbar_pat(cbar_val(s[{i} - 1]))
alt b: {i} == 0 ==> {a:Vec<u8>}@.len() == 0
alt c: {a:Vec<u8>}@ =~= cbar_row(s.take({i} as int))
alt d: {i} < s.len() ==> {a:Vec<u8>}@ =~= cbar_row(s.take({i} as int)) + cbar_pat(cbar_val(s[{i} as int]))
cand: forall|k: int| 0 <= k < {i} ==> {a:Vec<Vec<u8>>}@[k]@ =~= cbar_pat(cbar_val(s[k]))
=== thm C08 symbol
fn thm_C08(data: &str)
{
    match codabar_Codabar_new(data) {
        Ok(b) => { let r = codabar_Codabar_encode(&b); assert(r@ =~= cbar_symbol(data@)); }
        Err(_) => {}
    }
}
