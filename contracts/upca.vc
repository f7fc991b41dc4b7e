=== use gs1
=== spec
pub open spec fn upca_symbol(d: Seq<u8>) -> Seq<u8> {
    seq![1u8,0,1] + eanrow(d.subrange(0, 6), seq![0int,0,0,0,0,0], 6) + seq![0u8,1,0,1,0]
    + eanrow(d.subrange(6, 11), seq![2int,2,2,2,2], 5) + eanC(d[11]) + seq![1u8,0,1]
}
pub open spec fn upca_full(d: Seq<u8>) -> Seq<u8> { d.push(check10(d, 3, 1)) }
pub open spec fn upca_inv(s: upca_UPCA) -> bool { s.0@.len() == 11 && digits(s.0@) }

=== parse upca_UPCA isdig 11 12

=== fn upca_UPCA_new(data) -> r
pre: proof { if alldig(data@) { lemma_utf8_ascii(data@); } lemma_utf8_len(data@); }
ens C13 len: (utf8_len(data@) < 11 || utf8_len(data@) > 12) ==> r == Err::<upca_UPCA, _>(error_Error::Length)
ens C13 char: 11 <= utf8_len(data@) <= 12 && !alldig(data@) ==> r == Err::<upca_UPCA, _>(error_Error::Character)
ens C14 bad: data@.len() == 12 && alldig(data@) && dv(data@[11]) != check10(digs(data@).take(11), 3, 1) ==> r == Err::<upca_UPCA, _>(error_Error::Checksum)
ens C14 good: data@.len() == 12 && alldig(data@) && dv(data@[11]) == check10(digs(data@).take(11), 3, 1) ==> r is Ok
ens C13 ok: alldig(data@) && data@.len() == 11 ==> r is Ok
ens C03 stored: r is Ok ==> alldig(data@) && (11 <= data@.len() <= 12) && r->Ok_0.0@ =~= digs(data@).take(11) && upca_inv(r->Ok_0)
after /^let (\w+) = upca_UPCA\((\w+)\);/: assert($1.0@ =~= digs(data@).take(11));
cand: forall|k: int| 0 <= k < {i} ==> {a:Vec<u8>}@[k] == dv(data@[k])

=== fn upca_UPCA_checksum_digit(self_) -> r
req inv: upca_inv(*self_)
ens C03 check: r == check10(self_.0@, 3, 1) && r < 10
pre: broadcast use lemma_take_step;
pre: proof { lemma_wsum(self_.0@, 3, 1); assert(self_.0@.take(self_.0@.len() as int) =~= self_.0@); }
cand: {a:int} == wsum(self_.0@.take({i} as int), 1, 0) && {a:int} <= 9 * (({i} + 1) / 2)
cand: {a:int} == wsum(self_.0@.take({i} as int), 0, 1) && {a:int} <= 9 * ({i} / 2)
cand: {a:int} == wsum(self_.0@.take({i} as int), 3, 1) && {a:int} <= 27 * (({i} + 1) / 2) + 9 * ({i} / 2)
cand: {a:int} == wsum(self_.0@, 3, 1) - wsum(self_.0@.take(self_.0@.len() - {i}), 3, 1) && {a:int} <= 27 * {i}
cand: {a:int} == wsum(self_.0@, 1, 0) - wsum(self_.0@.take(self_.0@.len() - {i}), 1, 0)
cand: {a:int} == wsum(self_.0@, 0, 1) - wsum(self_.0@.take(self_.0@.len() - {i}), 0, 1)
cand: {a:int} == wsum(self_.0@.take(if 2 * {i} <= self_.0@.len() { 2 * {i} } else { self_.0@.len() as int }), 1, 0) && {a:int} <= 9 * {i}
cand: {a:int} == wsum(self_.0@.take(if 2 * {i} <= self_.0@.len() { 2 * {i} } else { self_.0@.len() as int }), 0, 1) && {a:int} <= 9 * {i}
cand: {a:int} == wsum(self_.0@.take(if 2 * {i} <= self_.0@.len() { 2 * {i} } else { self_.0@.len() as int }), 3, 1) && {a:int} <= 36 * {i}
cand: {a:int} == wsum(self_.0@.take({i} as int), 3, 1) % 10
cand: {a:int} == (if {i} % 2 == 0 { 3int } else { 1int })
step: lemma_wsum_pair(self_.0@, {i} as int);
=== fn upca_UPCA_checksum_encoding(self_) -> r
req inv: upca_inv(*self_)
ens C03 cke: r@ =~= eanC(check10(self_.0@, 3, 1))
=== fn upca_UPCA_char_encoding(self_, side, d) -> r
req dom: side < 2 && d < 10
ens C03 pat: r@ =~= eanset(if side == 0 { 0int } else { 2int }, d)
=== fn upca_UPCA_left_digits(self_) -> r
req inv: upca_inv(*self_)
ens C03 left_digits: r@ =~= self_.0@.subrange(0, 6)
=== fn upca_UPCA_right_digits(self_) -> r
req inv: upca_inv(*self_)
ens C03 right_digits: r@ =~= self_.0@.subrange(6, 11)
=== fn upca_UPCA_left_payload(self_) -> r
req inv: upca_inv(*self_)
ens C03 left_payload: r@ =~= eanrow(self_.0@.subrange(0, 6), seq![0int,0,0,0,0,0], 6)
cand: flat({a:Vec<[u8; 7]>}@) =~= eanrow(self_.0@.subrange(0, 6), seq![0int,0,0,0,0,0], {i} as int)
cand: {a:Vec<u8>}@ =~= eanrow(self_.0@.subrange(0, 6), seq![0int,0,0,0,0,0], {i} as int)
cand: {a:Vec<u8>}@ =~= {a0} + eanrow(self_.0@.subrange(0, 6), seq![0int,0,0,0,0,0], {i} as int)
=== fn upca_UPCA_right_payload(self_) -> r
req inv: upca_inv(*self_)
ens C03 right_payload: r@ =~= eanrow(self_.0@.subrange(6, 11), seq![2int,2,2,2,2], 5)
cand: flat({a:Vec<[u8; 7]>}@) =~= eanrow(self_.0@.subrange(6, 11), seq![2int,2,2,2,2], {i} as int)
cand: {a:Vec<u8>}@ =~= eanrow(self_.0@.subrange(6, 11), seq![2int,2,2,2,2], {i} as int)
cand: {a:Vec<u8>}@ =~= {a0} + eanrow(self_.0@.subrange(6, 11), seq![2int,2,2,2,2], {i} as int)
=== fn upca_UPCA_encode(self_) -> r
req inv: upca_inv(*self_)
pre: broadcast use lemma_flat_small;
pre: proof { assert(upca_LEFT_GUARD@ =~= seq![1u8,0,1]); assert(upca_MIDDLE_GUARD@ =~= seq![0u8,1,0,1,0]); assert(upca_RIGHT_GUARD@ =~= seq![1u8,0,1]); }
pre: proof { let f = upca_full(self_.0@); assert(f.subrange(0, 6) =~= self_.0@.subrange(0, 6)); assert(f.subrange(6, 11) =~= self_.0@.subrange(6, 11)); }
ens C03 symbol: r@ =~= upca_symbol(upca_full(self_.0@))

=== thm C03 symbol
fn thm_C03(data: &str)
{
    match upca_UPCA_new(data) {
        Ok(b) => {
            let r = upca_UPCA_encode(&b);
            let ghost d = digs(data@).take(11);
            assert(r@ =~= upca_symbol(upca_full(d)));
            assert(data@.len() == 12 ==> upca_full(d) =~= digs(data@));
        }
        Err(_) => {}
    }
}
