=== use tab_c39
=== spec
pub open spec fn c39_guard() -> Seq<u8> { seq![1u8,0,0,1,0,1,1,0,1,1,0,1] }
/// patterns of the characters, each followed by a narrow space
pub open spec fn c39_row(s: Seq<char>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::<u8>::empty() } else { c39_row(s.drop_last()) + c39_pat(c39_val(s.last())) + seq![0u8] }
}
pub open spec fn c39_sum(s: Seq<char>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { c39_sum(s.drop_last()) + c39_val(s.last()) }
}
pub open spec fn c39_check(s: Seq<char>) -> char { c39_chr(c39_sum(s) % 43) }
/// the text that stands between the guards
pub open spec fn c39_text(s: Seq<char>, check: bool) -> Seq<char> { if check { s.push(c39_check(s)) } else { s } }
pub open spec fn c39_symbol(s: Seq<char>, check: bool) -> Seq<u8> { c39_guard() + (seq![0u8] + c39_row(c39_text(s, check))) + c39_guard() }
pub open spec fn c39_inv(b: code39_Code39) -> bool { 1 <= b.data@.len() <= 256 && c39_all(b.data@) }
pub proof fn lemma_c39_sum(s: Seq<char>) requires c39_all(s) ensures 0 <= c39_sum(s) <= 42 * s.len() decreases s.len() {
    if s.len() > 0 { c39_inj(s.last()); assert(c39_all(s.drop_last())) by { assert forall|k: int| 0 <= k < s.drop_last().len() implies c39_ok(#[trigger] s.drop_last()[k]) by { assert(c39_ok(s[k])); } } lemma_c39_sum(s.drop_last()); }
}
pub proof fn lemma_c39_sum_step(s: Seq<char>, i: int) requires c39_all(s), 0 <= i < s.len() ensures c39_sum(s.take(i + 1)) == c39_sum(s.take(i)) + c39_val(s[i]), 0 <= c39_sum(s.take(i)) <= 42 * i {
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    assert(c39_all(s.take(i))) by { assert forall|k: int| 0 <= k < i implies c39_ok(#[trigger] s.take(i)[k]) by { assert(c39_ok(s[k])); } }
    lemma_c39_sum(s.take(i));
}
pub proof fn lemma_c39_mod(s: Seq<char>, i: int) requires c39_all(s), 0 <= i < s.len() ensures c39_sum(s.take(i + 1)) % 43 == (c39_sum(s.take(i)) % 43 + c39_val(s[i])) % 43 {
    lemma_c39_sum_step(s, i);
    assert((c39_sum(s.take(i)) % 43 + c39_val(s[i])) % 43 == (c39_sum(s.take(i)) + c39_val(s[i])) % 43);
}

=== parse code39_Code39 c39_ok 1 256
pre: proof { assert forall|k: int| 0 <= k < 43 implies (#[trigger] code39_CHARS@[k]).0 == c39_chr(k) by {} }
cand: forall|k: int| 0 <= k < {i} ==> {a:Vec<char>}@[k] == c39_chr(k)
end: proof { assert forall|c: char| c39_ok(c) implies #[trigger] $r@.contains(c) by { c39_inj(c); assert($r@[c39_val(c)] == c); } }
end: proof { assert forall|c: char| #[trigger] $r@.contains(c) implies c39_ok(c) by { let k = choose|k: int| 0 <= k < 43 && $r@[k] == c; c39_tab(k); } }

=== fn code39_Code39_init(data, checksum) -> r
ens C13 err: r is Err ==> r->Err_0 == (if utf8_len(data@) < 1 || utf8_len(data@) > 256 { error_Error::Length } else { error_Error::Character })
ens C13 ok: r is Ok <==> 1 <= utf8_len(data@) <= 256 && c39_all(data@)
ens C05 data: r is Ok ==> r->Ok_0.data@ =~= data@ && r->Ok_0.checksum == checksum && c39_inv(r->Ok_0)
pre: proof { lemma_utf8_len(data@); if data@.len() == 0 { assert(utf8_len(data@) == 0); } }
=== fn code39_Code39_new(data) -> r
ens C13 err: r is Err ==> r->Err_0 == (if utf8_len(data@) < 1 || utf8_len(data@) > 256 { error_Error::Length } else { error_Error::Character })
ens C13 ok: r is Ok <==> 1 <= utf8_len(data@) <= 256 && c39_all(data@)
ens C05 data: r is Ok ==> r->Ok_0.data@ =~= data@ && !r->Ok_0.checksum && c39_inv(r->Ok_0)
=== fn code39_Code39_with_checksum(data) -> r
ens C13 err: r is Err ==> r->Err_0 == (if utf8_len(data@) < 1 || utf8_len(data@) > 256 { error_Error::Length } else { error_Error::Character })
ens C13 ok: r is Ok <==> 1 <= utf8_len(data@) <= 256 && c39_all(data@)
ens C05 data: r is Ok ==> r->Ok_0.data@ =~= data@ && r->Ok_0.checksum && c39_inv(r->Ok_0)
=== fn code39_Code39_checksum_char(self_) -> r
req inv: c39_inv(*self_)
ens C05 check: r == Some(c39_check(self_.data@)) && c39_ok(c39_check(self_.data@))
pre: proof { assert forall|k: int| 0 <= k < 43 implies (#[trigger] code39_CHARS@[k]).0 == c39_chr(k) by {} }
pre: proof { assert forall|k: int| 0 <= k < 43 implies c39_val(#[trigger] c39_chr(k)) == k by { c39_tab(k); } }
pre: proof { assert forall|c: char| c39_ok(c) implies 0 <= #[trigger] c39_val(c) < 43 && c39_chr(c39_val(c)) == c by { c39_inj(c); } }
pre: proof { lemma_c39_sum(self_.data@); assert(self_.data@.take(self_.data@.len() as int) =~= self_.data@); c39_tab(c39_sum(self_.data@) % 43); assert(self_.data@.take(0) =~= Seq::<char>::empty()); }
cand: {a:usize} == c39_sum(self_.data@.take({i} as int))
cand: {a:usize} <= 42 * {i}
alt mod: {a:usize} == c39_sum(self_.data@.take({i} as int)) % 43
step: if {i} < self_.data@.len() { lemma_c39_sum_step(self_.data@, {i} as int); lemma_c39_mod(self_.data@, {i} as int); }
=== fn code39_Code39_checksum_encoding(self_) -> r
req inv: c39_inv(*self_)
ens C05 check: r@ =~= c39_pat(c39_val(c39_check(self_.data@)))
=== fn code39_Code39_char_encoding(self_, c) -> r
req dom: c39_ok(c)
ens C05 pat: r@ =~= c39_pat(c39_val(c))
pre: proof { assert forall|k: int| 0 <= k < 43 implies (#[trigger] code39_CHARS@[k]).0 == c39_chr(k) && code39_CHARS@[k].1@ =~= c39_pat(k) by {} }
pre: proof { assert forall|k: int| 0 <= k < 43 implies c39_val(#[trigger] c39_chr(k)) == k by { c39_tab(k); } }
pre: proof { c39_inj(c); assert(code39_CHARS@[c39_val(c)].0 == c); }
=== fn code39_Code39_push_encoding(self_, into, from) -> r
ens C05 push: final(into)@ =~= old(into)@ + from@ + seq![0u8]
=== fn code39_Code39_payload(self_) -> r
req inv: c39_inv(*self_)
ens C05 row: r@ =~= seq![0u8] + c39_row(c39_text(self_.data@, self_.checksum))
pre: proof { assert(c39_text(self_.data@, true).drop_last() =~= self_.data@); assert(self_.data@.take(self_.data@.len() as int) =~= self_.data@); }
cand: {a:Vec<u8>}@ =~= {a0} + c39_row({S:char}.take({i} as int))
cand: forall|k: int| 0 <= k < {i} ==> {a:Vec<[u8; 12]>}@[k]@ =~= c39_pat(c39_val(self_.data@[k]))
cand: {a:Vec<u8>}@ =~= {a0} + c39_row(text.take({i} as int))
pre: let ghost text = c39_text(self_.data@, self_.checksum); proof { assert(text.take(text.len() as int) =~= text); }
step: if {i} < text.len() { assert(text.take({i} + 1).drop_last() =~= text.take({i} as int)); assert(text.take({i} + 1).last() == text[{i} as int]); }
=== fn code39_Code39_encode(self_) -> r
req inv: c39_inv(*self_)
pre: broadcast use lemma_flat_small;
pre: proof { assert(code39_GUARD@ =~= c39_guard()); }
ens C05 symbol: r@ =~= c39_symbol(self_.data@, self_.checksum)
=== thm C05 symbol
fn thm_C05(data: &str, check: bool)
{
    let m = if check { code39_Code39_with_checksum(data) } else { code39_Code39_new(data) };
    match m {
        Ok(b) => { let r = code39_Code39_encode(&b); assert(r@ =~= c39_symbol(data@, check)); }
        Err(_) => {}
    }
}
