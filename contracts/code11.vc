=== use tab_c11 checkw
=== spec
pub open spec fn c11_guard() -> Seq<u8> { seq![1u8,0,1,1,0,0,1] }
/// patterns of the characters, each followed by a narrow space
pub open spec fn c11_row(s: Seq<char>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::<u8>::empty() } else { c11_row(s.drop_last()) + c11_pat(c11_val(s.last())) + seq![0u8] }
}
pub open spec fn c11_vals(s: Seq<char>) -> Seq<int> { Seq::new(s.len(), |k: int| c11_val(s[k])) }
/// modulo-11 check character, weights 1..=w cycling from the right
pub open spec fn c11_check(s: Seq<char>, w: int) -> char { c11_chr(rw_sum(c11_vals(s), w, s.len() as int) % 11) }
pub open spec fn c11_C(s: Seq<char>) -> char { c11_check(s, 10) }
pub open spec fn c11_K(s: Seq<char>) -> char { c11_check(s.push(c11_C(s)), 9) }
/// data, C, and K when the data is longer than ten characters
pub open spec fn c11_text(s: Seq<char>) -> Seq<char> { if s.len() > 10 { s.push(c11_C(s)).push(c11_K(s)) } else { s.push(c11_C(s)) } }
pub open spec fn c11_symbol(s: Seq<char>) -> Seq<u8> { c11_guard() + seq![0u8] + c11_row(c11_text(s)) + c11_guard() }
pub open spec fn c11_inv(b: code11_Code11) -> bool { 1 <= b.0@.len() <= 256 && c11_all(b.0@) }
pub proof fn lemma_c11_vals(s: Seq<char>) requires c11_all(s) ensures rw_vals(c11_vals(s), 10) {
    assert forall|k: int| 0 <= k < s.len() implies 0 <= #[trigger] c11_vals(s)[k] <= 10 by { c11_inj(s[k]); }
}
pub proof fn lemma_c11_check(s: Seq<char>, w: int) requires c11_all(s), 1 <= w ensures c11_ok(c11_check(s, w)) {
    lemma_c11_vals(s); lemma_rw_sum(c11_vals(s), w, s.len() as int, 10); c11_tab(rw_sum(c11_vals(s), w, s.len() as int) % 11);
}
pub proof fn lemma_c11_push(s: Seq<char>) requires c11_all(s) ensures c11_ok(c11_C(s)), c11_all(s.push(c11_C(s))), c11_ok(c11_K(s)) {
    lemma_c11_check(s, 10);
    lemma_c11_check(s.push(c11_C(s)), 9);
}

=== parse code11_Code11 c11_ok 1 256
pre: proof { assert forall|k: int| 0 <= k < 11 implies (#[trigger] code11_CHARS@[k]).0 == c11_chr(k) by {} }
cand: forall|k: int| 0 <= k < {i} ==> {a:Vec<char>}@[k] == c11_chr(k)
end: proof { assert forall|c: char| c11_ok(c) implies #[trigger] $r@.contains(c) by { c11_inj(c); assert($r@[c11_val(c)] == c); } }
end: proof { assert forall|c: char| #[trigger] $r@.contains(c) implies c11_ok(c) by { let k = choose|k: int| 0 <= k < 11 && $r@[k] == c; c11_tab(k); } }

=== fn code11_Code11_new(data) -> r
ens C13 err: r is Err ==> r->Err_0 == (if utf8_len(data@) < 1 || utf8_len(data@) > 256 { error_Error::Length } else { error_Error::Character })
ens C13 ok: r is Ok <==> 1 <= utf8_len(data@) <= 256 && c11_all(data@)
ens C07 data: r is Ok ==> r->Ok_0.0@ =~= data@ && c11_inv(r->Ok_0)
pre: proof { lemma_utf8_len(data@); if data@.len() == 0 { assert(utf8_len(data@) == 0); } }
=== fn code11_Code11_char_encoding(self_, c) -> r
req dom: c11_ok(c)
ens C07 pat: r@ =~= c11_pat(c11_val(c))
pre: proof { assert forall|k: int| 0 <= k < 11 implies (#[trigger] code11_CHARS@[k]).0 == c11_chr(k) && code11_CHARS@[k].1.v() =~= c11_pat(k) by {} }
pre: proof { assert forall|k: int| 0 <= k < 11 implies c11_val(#[trigger] c11_chr(k)) == k by { c11_tab(k); } }
pre: proof { c11_inj(c); assert(code11_CHARS@[c11_val(c)].0 == c); }
=== fn code11_Code11_checksum_char(self_, data, weight_threshold) -> r
req dom: data@.len() <= 257 && c11_all(data@) && 1 <= weight_threshold <= 20
ens C07 check: r == Some(c11_check(data@, weight_threshold as int)) && c11_ok(c11_check(data@, weight_threshold as int))
pre: proof { assert forall|k: int| 0 <= k < 11 implies (#[trigger] code11_CHARS@[k]).0 == c11_chr(k) by {} }
pre: proof { assert forall|k: int| 0 <= k < 11 implies c11_val(#[trigger] c11_chr(k)) == k by { c11_tab(k); } }
pre: proof { assert forall|c: char| c11_ok(c) implies 0 <= #[trigger] c11_val(c) < 11 && c11_chr(c11_val(c)) == c by { c11_inj(c); } }
pre: let ghost vs = c11_vals(data@); let ghost w = weight_threshold as int;
pre: proof { lemma_c11_vals(data@); lemma_c11_check(data@, w); lemma_rw_both(vs, w, 0); }
step: if {i} < vs.len() { lemma_rw_step(vs, w, {i} as int, 10); lemma_rw(vs.len() - {i}, w); if {i} + 1 < vs.len() { lemma_rw_next(vs.len() - {i} - 1, w); } }
step: if {i} < vs.len() { lemma_rw_bstep(vs, w, {i} as int, 10); lemma_rw({i} + 1, w); lemma_rw_next({i} + 1, w); }
pre: proof { lemma_rw_next(1, w); }
alt fwd: {a:usize} == rw_sum(vs, w, {i} as int) && {a:usize} <= 920 * {i}
alt fwd: {i} < vs.len() ==> {a:usize} == rw(vs.len() - {i}, w)
alt back: {a:usize} == rw_back(vs, w, {i} as int) && {a:usize} <= 920 * {i}
alt back: {a:usize} == rw({i} + 1, w)
alt fwdm: {a:usize} == rw_sum(vs, w, {i} as int) % 11
alt fwdm: {i} < vs.len() ==> {a:usize} == rw(vs.len() - {i}, w)
alt backm: {a:usize} == rw_back(vs, w, {i} as int) % 11
alt backm: {a:usize} == rw({i} + 1, w)
alt back0: {a:usize} == rw_back(vs, w, {i} as int) && {a:usize} <= 920 * {i}
alt back0: {a:usize} == (if {i} == 0 { 0int } else { rw({i} as int, w) })
alt back0m: {a:usize} == rw_back(vs, w, {i} as int) % 11
alt back0m: {a:usize} == (if {i} == 0 { 0int } else { rw({i} as int, w) })
step: if {i} < vs.len() { lemma_rw_cyc({i} as int, w); }
step: if {i} < vs.len() { lemma_rw_poly(vs[vs.len() - 1 - {i}], {i} + 1, w); lemma_rw_poly(vs[{i} as int], vs.len() - {i}, w); }
step: if {i} < vs.len() { lemma_rw_mod(vs, w, {i} as int, 10, 11); }
=== fn code11_Code11_c_checksum_char(self_) -> r
req inv: c11_inv(*self_)
ens C07 C: r == Some(c11_C(self_.0@)) && c11_ok(c11_C(self_.0@))
=== fn code11_Code11_k_checksum_char(self_, c_checksum) -> r
after /code11_Code11_checksum_char\(\w+, (\w+)\./: assert($1@ =~= self_.0@.push(c_checksum));
req inv: c11_inv(*self_) && c11_ok(c_checksum)
ens C07 K: r == Some(c11_check(self_.0@.push(c_checksum), 9)) && c11_ok(c11_check(self_.0@.push(c_checksum), 9))
=== fn code11_Code11_push_encoding(self_, into, from) -> r
ens C07 push: final(into)@ =~= old(into)@ + from@ + seq![0u8]
=== fn code11_Code11_payload(self_) -> r
req inv: c11_inv(*self_)
ens C07 row: r@ =~= c11_row(c11_text(self_.0@))
pre: proof { let s = self_.0@; lemma_c11_push(s); let t = s.push(c11_C(s)); let u = t.push(c11_K(s)); assert(t.drop_last() =~= s); assert(u.drop_last() =~= t);
    assert(c11_row(t) == c11_row(s) + c11_pat(c11_val(c11_C(s))) + seq![0u8]); assert(c11_row(u) == c11_row(t) + c11_pat(c11_val(c11_K(s))) + seq![0u8]); assert(s.take(s.len() as int) =~= s); }
cand: {a:Vec<u8>}@ =~= {a0} + c11_row({S:char}.take({i} as int))
cand: {a:Vec<u8>}@ =~= {a0} + c11_row(text.take({i} as int))
pre: let ghost text = c11_text(self_.0@); proof { assert(text.take(text.len() as int) =~= text); }
step: if {i} < text.len() { assert(text.take({i} + 1).drop_last() =~= text.take({i} as int)); assert(text.take({i} + 1).last() == text[{i} as int]); }
=== fn code11_Code11_encode(self_) -> r
req inv: c11_inv(*self_)
pre: broadcast use lemma_flat_small;
pre: proof { assert(code11_GUARD@ =~= c11_guard()); assert(code11_SEPARATOR@ =~= seq![0u8]); }
ens C07 symbol: r@ =~= c11_symbol(self_.0@)
=== thm C07 symbol
fn thm_C07(data: &str)
{
    match code11_Code11_new(data) {
        Ok(b) => { let r = code11_Code11_encode(&b); assert(r@ =~= c11_symbol(data@)); }
        Err(_) => {}
    }
}
