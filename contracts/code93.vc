=== use tab_c93 checkw
=== spec
pub open spec fn c93_guard() -> Seq<u8> { seq![1u8,0,1,0,1,1,1,1,0] }
pub open spec fn c93_row(s: Seq<char>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::<u8>::empty() } else { c93_row(s.drop_last()) + c93_pat(c93_val(s.last())) }
}
pub open spec fn c93_vals(s: Seq<char>) -> Seq<int> { Seq::new(s.len(), |k: int| c93_val(s[k])) }
/// modulo-47 check character, weights 1..=w cycling from the right
pub open spec fn c93_check(s: Seq<char>, w: int) -> char { c93_chr(rw_sum(c93_vals(s), w, s.len() as int) % 47) }
pub open spec fn c93_C(s: Seq<char>) -> char { c93_check(s, 20) }
pub open spec fn c93_K(s: Seq<char>) -> char { c93_check(s.push(c93_C(s)), 15) }
pub open spec fn c93_text(s: Seq<char>) -> Seq<char> { s.push(c93_C(s)).push(c93_K(s)) }
pub open spec fn c93_symbol(s: Seq<char>) -> Seq<u8> { c93_guard() + c93_row(c93_text(s)) + c93_guard() + seq![1u8] }
pub open spec fn c93_inv(b: code93_Code93) -> bool { 1 <= b.0@.len() <= 256 && c93_all(b.0@) }
pub proof fn lemma_c93_vals(s: Seq<char>) requires c93_all(s) ensures rw_vals(c93_vals(s), 46) {
    assert forall|k: int| 0 <= k < s.len() implies 0 <= #[trigger] c93_vals(s)[k] <= 46 by { c93_inj(s[k]); }
}
pub proof fn lemma_c93_check(s: Seq<char>, w: int) requires c93_all(s), 1 <= w ensures c93_ok(c93_check(s, w)) {
    lemma_c93_vals(s); lemma_rw_sum(c93_vals(s), w, s.len() as int, 46); c93_tab(rw_sum(c93_vals(s), w, s.len() as int) % 47);
}
pub proof fn lemma_c93_push(s: Seq<char>) requires c93_all(s) ensures c93_ok(c93_C(s)), c93_all(s.push(c93_C(s))), c93_ok(c93_K(s)) {
    lemma_c93_check(s, 20);
    lemma_c93_check(s.push(c93_C(s)), 15);
}
pub proof fn lemma_c93_two(x: Seq<char>) requires x.len() == 2 ensures c93_row(x) =~= c93_pat(c93_val(x[0])) + c93_pat(c93_val(x[1])) {
    assert(c93_row(x.drop_last().drop_last()) =~= Seq::<u8>::empty()); assert(c93_row(x.drop_last()) =~= c93_pat(c93_val(x[0])));
}

=== parse code93_Code93 c93_ok 1 256
pre: proof { assert forall|k: int| 0 <= k < 47 implies (#[trigger] code93_CHARS@[k]).0 == c93_chr(k) by {} }
cand: forall|k: int| 0 <= k < {i} ==> {a:Vec<char>}@[k] == c93_chr(k)
end: proof { assert forall|c: char| c93_ok(c) implies #[trigger] $r@.contains(c) by { c93_inj(c); assert($r@[c93_val(c)] == c); } }
end: proof { assert forall|c: char| #[trigger] $r@.contains(c) implies c93_ok(c) by { let k = choose|k: int| 0 <= k < 47 && $r@[k] == c; c93_tab(k); } }

=== fn code93_Code93_new(data) -> r
ens C13 err: r is Err ==> r->Err_0 == (if utf8_len(data@) < 1 || utf8_len(data@) > 256 { error_Error::Length } else { error_Error::Character })
ens C13 ok: r is Ok <==> 1 <= utf8_len(data@) <= 256 && c93_all(data@)
ens C06 data: r is Ok ==> r->Ok_0.0@ =~= data@ && c93_inv(r->Ok_0)
pre: proof { lemma_utf8_len(data@); if data@.len() == 0 { assert(utf8_len(data@) == 0); } }
=== fn code93_Code93_char_encoding(self_, c) -> r
req dom: c93_ok(c)
ens C06 pat: r@ =~= c93_pat(c93_val(c))
pre: proof { assert forall|k: int| 0 <= k < 47 implies (#[trigger] code93_CHARS@[k]).0 == c93_chr(k) && code93_CHARS@[k].1@ =~= c93_pat(k) by {} }
pre: proof { assert forall|k: int| 0 <= k < 47 implies c93_val(#[trigger] c93_chr(k)) == k by { c93_tab(k); } }
pre: proof { c93_inj(c); assert(code93_CHARS@[c93_val(c)].0 == c); }
=== fn code93_Code93_checksum_char(self_, data, weight_threshold) -> r
req dom: data@.len() <= 257 && c93_all(data@) && 1 <= weight_threshold <= 20
ens C06 check: r == Some(c93_check(data@, weight_threshold as int)) && c93_ok(c93_check(data@, weight_threshold as int))
pre: proof { assert forall|k: int| 0 <= k < 47 implies (#[trigger] code93_CHARS@[k]).0 == c93_chr(k) by {} }
pre: proof { assert forall|k: int| 0 <= k < 47 implies c93_val(#[trigger] c93_chr(k)) == k by { c93_tab(k); } }
pre: proof { assert forall|c: char| c93_ok(c) implies 0 <= #[trigger] c93_val(c) < 47 && c93_chr(c93_val(c)) == c by { c93_inj(c); } }
pre: let ghost vs = c93_vals(data@); let ghost w = weight_threshold as int;
pre: proof { lemma_c93_vals(data@); lemma_c93_check(data@, w); lemma_rw_both(vs, w, 0); }
step: if {i} < vs.len() { lemma_rw_step(vs, w, {i} as int, 46); lemma_rw(vs.len() - {i}, w); if {i} + 1 < vs.len() { lemma_rw_next(vs.len() - {i} - 1, w); } }
step: if {i} < vs.len() { lemma_rw_bstep(vs, w, {i} as int, 46); lemma_rw({i} + 1, w); lemma_rw_next({i} + 1, w); }
pre: proof { lemma_rw_next(1, w); }
alt fwd: {a:usize} == rw_sum(vs, w, {i} as int) && {a:usize} <= 920 * {i}
alt fwd: {i} < vs.len() ==> {a:usize} == rw(vs.len() - {i}, w)
alt back: {a:usize} == rw_back(vs, w, {i} as int) && {a:usize} <= 920 * {i}
alt back: {a:usize} == rw({i} + 1, w)
alt fwdm: {a:usize} == rw_sum(vs, w, {i} as int) % 47
alt fwdm: {i} < vs.len() ==> {a:usize} == rw(vs.len() - {i}, w)
alt backm: {a:usize} == rw_back(vs, w, {i} as int) % 47
alt backm: {a:usize} == rw({i} + 1, w)
alt back0: {a:usize} == rw_back(vs, w, {i} as int) && {a:usize} <= 920 * {i}
alt back0: {a:usize} == (if {i} == 0 { 0int } else { rw({i} as int, w) })
alt back0m: {a:usize} == rw_back(vs, w, {i} as int) % 47
alt back0m: {a:usize} == (if {i} == 0 { 0int } else { rw({i} as int, w) })
step: if {i} < vs.len() { lemma_rw_cyc({i} as int, w); }
step: if {i} < vs.len() { lemma_rw_poly(vs[vs.len() - 1 - {i}], {i} + 1, w); lemma_rw_poly(vs[{i} as int], vs.len() - {i}, w); }
step: if {i} < vs.len() { lemma_rw_mod(vs, w, {i} as int, 46, 47); }
=== fn code93_Code93_c_checksum_char(self_) -> r
req inv: c93_inv(*self_)
ens C06 C: r == Some(c93_C(self_.0@)) && c93_ok(c93_C(self_.0@))
=== fn code93_Code93_k_checksum_char(self_, c_checksum) -> r
after /code93_Code93_checksum_char\(\w+, (\w+)\./: assert($1@ =~= self_.0@.push(c_checksum));
req inv: c93_inv(*self_) && c93_ok(c_checksum)
ens C06 K: r == Some(c93_check(self_.0@.push(c_checksum), 15)) && c93_ok(c93_check(self_.0@.push(c_checksum), 15))
=== fn code93_Code93_push_encoding(self_, into, from) -> r
ens C06 push: final(into)@ =~= old(into)@ + from@
=== fn code93_Code93_payload(self_) -> r
req inv: c93_inv(*self_)
ens C06 row: r@ =~= c93_row(c93_text(self_.0@))
pre: proof { let s = self_.0@; lemma_c93_push(s); let t = s.push(c93_C(s)); assert(t.drop_last() =~= s); assert(c93_text(s).drop_last() =~= t); assert(c93_row(t) == c93_row(s) + c93_pat(c93_val(c93_C(s)))); assert(c93_row(c93_text(s)) == c93_row(t) + c93_pat(c93_val(c93_K(s)))); assert(s.take(s.len() as int) =~= s); }
pre: proof { assert forall|x: Seq<char>| x.len() == 2 implies #[trigger] c93_row(x) =~= c93_pat(c93_val(x[0])) + c93_pat(c93_val(x[1])) by { lemma_c93_two(x); } }
cand: {a:Vec<u8>}@ =~= {a0} + c93_row({S:char}.take({i} as int))
cand: forall|k: int| 0 <= k < {i} ==> {a:Vec<[u8; 9]>}@[k]@ =~= c93_pat(c93_val(self_.0@[k]))
cand: {a:Vec<u8>}@ =~= {a0} + c93_row(text.take({i} as int))
pre: let ghost text = c93_text(self_.0@); proof { assert(text.take(text.len() as int) =~= text); }
step: if {i} < text.len() { assert(text.take({i} + 1).drop_last() =~= text.take({i} as int)); assert(text.take({i} + 1).last() == text[{i} as int]); }
=== fn code93_Code93_encode(self_) -> r
req inv: c93_inv(*self_)
pre: broadcast use lemma_flat_small;
pre: proof { assert(code93_GUARD@ =~= c93_guard()); assert(code93_TERMINATOR@ =~= seq![1u8]); }
ens C06 symbol: r@ =~= c93_symbol(self_.0@)
=== thm C06 symbol
fn thm_C06(data: &str)
{
    match code93_Code93_new(data) {
        Ok(b) => { let r = code93_Code93_encode(&b); assert(r@ =~= c93_symbol(data@)); }
        Err(_) => {}
    }
}
