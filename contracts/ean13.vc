=== use gs1
=== spec
pub open spec fn ean13_symbol(d: Seq<u8>) -> Seq<u8> {
    seq![1u8,0,1] + eanA(d[1]) + eanrow(d.subrange(2, 7), par13(d[0]), 5) + seq![0u8,1,0,1,0]
    + eanrow(d.subrange(7, 12), seq![2int,2,2,2,2], 5) + eanC(d[12]) + seq![1u8,0,1]
}
pub open spec fn ean13_full(d: Seq<u8>) -> Seq<u8> { d.push(check10(d, 1, 3)) }
pub open spec fn ean13_inv(s: ean13_EAN13) -> bool { s.0@.len() == 12 && digits(s.0@) }
pub open spec fn ean13_ok(c: char) -> bool { isdig(c) }

=== parse ean13_EAN13 ean13_ok 12 13

=== fn ean13_EAN13_new(data) -> r
pre: proof { if alldig(data@) { lemma_utf8_ascii(data@); } lemma_utf8_len(data@); }
ens C13 len: (utf8_len(data@) < 12 || utf8_len(data@) > 13) ==> r == Err::<ean13_EAN13, _>(error_Error::Length)
ens C13 char: 12 <= utf8_len(data@) <= 13 && !alldig(data@) ==> r == Err::<ean13_EAN13, _>(error_Error::Character)
ens C14 bad: data@.len() == 13 && alldig(data@) && dv(data@[12]) != check10(digs(data@).take(12), 1, 3) ==> r == Err::<ean13_EAN13, _>(error_Error::Checksum)
ens C14 good: data@.len() == 13 && alldig(data@) && dv(data@[12]) == check10(digs(data@).take(12), 1, 3) ==> r is Ok
ens C13 ok: alldig(data@) && data@.len() == 12 ==> r is Ok
ens C01 stored: r is Ok ==> alldig(data@) && (12 <= data@.len() <= 13) && r->Ok_0.0@ =~= digs(data@).take(12) && ean13_inv(r->Ok_0)
after /^let (\w+) = ean13_EAN13\((\w+)\);/: assert($1.0@ =~= digs(data@).take(12));
cand: forall|k: int| 0 <= k < {i} ==> {a:Vec<u8>}@[k] == dv(data@[k])

=== fn ean13_EAN13_checksum_digit(self_) -> r
req inv: ean13_inv(*self_)
ens C01 check: r == check10(self_.0@, 1, 3) && r < 10
pre: broadcast use lemma_take_step;
pre: proof { lemma_wsum(self_.0@, 1, 3); assert(self_.0@.take(self_.0@.len() as int) =~= self_.0@); }
cand: {a:int} == wsum(self_.0@.take({i} as int), 1, 0) && {a:int} <= 9 * (({i} + 1) / 2)
cand: {a:int} == wsum(self_.0@.take({i} as int), 0, 1) && {a:int} <= 9 * ({i} / 2)
cand: {a:int} == wsum(self_.0@.take({i} as int), 1, 3) && {a:int} <= 9 * (({i} + 1) / 2) + 27 * ({i} / 2)
cand: {a:int} == wsum(self_.0@, 1, 3) - wsum(self_.0@.take(self_.0@.len() - {i}), 1, 3) && {a:int} <= 27 * {i}
cand: {a:int} == wsum(self_.0@, 1, 0) - wsum(self_.0@.take(self_.0@.len() - {i}), 1, 0)
cand: {a:int} == wsum(self_.0@, 0, 1) - wsum(self_.0@.take(self_.0@.len() - {i}), 0, 1)
cand: {a:int} == wsum(self_.0@.take(if 2 * {i} <= self_.0@.len() { 2 * {i} } else { self_.0@.len() as int }), 1, 0) && {a:int} <= 9 * {i}
cand: {a:int} == wsum(self_.0@.take(if 2 * {i} <= self_.0@.len() { 2 * {i} } else { self_.0@.len() as int }), 0, 1) && {a:int} <= 9 * {i}
cand: {a:int} == wsum(self_.0@.take(if 2 * {i} <= self_.0@.len() { 2 * {i} } else { self_.0@.len() as int }), 1, 3) && {a:int} <= 36 * {i}
cand: {a:int} == wsum(self_.0@.take({i} as int), 1, 3) % 10
cand: {a:int} == (if {i} % 2 == 0 { 1int } else { 3int })
step: lemma_wsum_pair(self_.0@, {i} as int);
=== fn ean13_EAN13_number_system_digit(self_) -> r
req inv: ean13_inv(*self_)
ens C01 nsd: r == self_.0@[1]
=== fn ean13_EAN13_number_system_encoding(self_) -> r
req inv: ean13_inv(*self_)
ens C01 nse: r@ =~= eanA(self_.0@[1])
=== fn ean13_EAN13_checksum_encoding(self_) -> r
req inv: ean13_inv(*self_)
ens C01 cke: r@ =~= eanC(check10(self_.0@, 1, 3))
=== fn ean13_EAN13_char_encoding(self_, side, d) -> r
req dom: side < 3 && d < 10
ens C01 pat: r@ =~= eanset(side as int, d)
=== fn ean13_EAN13_left_digits(self_) -> r
req inv: ean13_inv(*self_)
ens C01 ld: r@ =~= self_.0@.subrange(2, 7)
=== fn ean13_EAN13_right_digits(self_) -> r
req inv: ean13_inv(*self_)
ens C01 rd: r@ =~= self_.0@.subrange(7, 12)
=== fn ean13_EAN13_parity_mapping(self_) -> r
req inv: ean13_inv(*self_)
ens C01 par: forall|k: int| 0 <= k < 5 ==> r@[k] as int == par13(self_.0@[0])[k] && r@[k] < 2
=== fn ean13_EAN13_left_payload(self_) -> r
req inv: ean13_inv(*self_)
ens C01 left: r@ =~= eanrow(self_.0@.subrange(2, 7), par13(self_.0@[0]), 5)
cand: flat({a:Vec<[u8; 7]>}@) =~= eanrow(self_.0@.subrange(2, 7), par13(self_.0@[0]), {i} as int)
cand: {a:Vec<u8>}@ =~= eanrow(self_.0@.subrange(2, 7), par13(self_.0@[0]), {i} as int)
cand: {a:Vec<u8>}@ =~= {a0} + eanrow(self_.0@.subrange(2, 7), par13(self_.0@[0]), {i} as int)
=== fn ean13_EAN13_right_payload(self_) -> r
req inv: ean13_inv(*self_)
ens C01 right: r@ =~= eanrow(self_.0@.subrange(7, 12), seq![2int,2,2,2,2], 5)
cand: flat({a:Vec<[u8; 7]>}@) =~= eanrow(self_.0@.subrange(7, 12), seq![2int,2,2,2,2], {i} as int)
cand: {a:Vec<u8>}@ =~= eanrow(self_.0@.subrange(7, 12), seq![2int,2,2,2,2], {i} as int)
cand: {a:Vec<u8>}@ =~= {a0} + eanrow(self_.0@.subrange(7, 12), seq![2int,2,2,2,2], {i} as int)
=== fn ean13_EAN13_encode(self_) -> r
req inv: ean13_inv(*self_)
pre: broadcast use lemma_flat_small;
pre: proof { assert(ean13_LEFT_GUARD@ =~= seq![1u8,0,1]); assert(ean13_MIDDLE_GUARD@ =~= seq![0u8,1,0,1,0]); assert(ean13_RIGHT_GUARD@ =~= seq![1u8,0,1]); }
pre: proof { assert(ean13_full(self_.0@).subrange(2, 7) =~= self_.0@.subrange(2, 7)); assert(ean13_full(self_.0@).subrange(7, 12) =~= self_.0@.subrange(7, 12)); }
ens C01 symbol: r@ =~= ean13_symbol(ean13_full(self_.0@))

=== thm C01 symbol
fn thm_C01(data: &str)
{
    match ean13_EAN13_new(data) {
        Ok(b) => {
            let r = ean13_EAN13_encode(&b);
            let ghost d = digs(data@).take(12);
            assert(r@ =~= ean13_symbol(ean13_full(d)));
            assert(data@.len() == 13 ==> ean13_full(d) =~= digs(data@));
        }
        Err(_) => {}
    }
}
