=== use gs1
=== spec
pub open spec fn ean8_symbol(d: Seq<u8>) -> Seq<u8> {
    seq![1u8,0,1] + eanrow(d.subrange(0, 2), seq![0int,0], 2) + eanrow(d.subrange(2, 4), seq![0int,0], 2) + seq![0u8,1,0,1,0]
    + eanrow(d.subrange(4, 7), seq![2int,2,2], 3) + eanC(d[7]) + seq![1u8,0,1]
}
/// the four digits left of the middle guard, in one go
pub proof fn lemma_ean8_four(d: Seq<u8>) requires d.len() >= 7
    ensures eanrow(d.subrange(0, 4), seq![0int,0,0,0], 4) =~= eanrow(d.subrange(0, 2), seq![0int,0], 2) + eanrow(d.subrange(2, 4), seq![0int,0], 2)
{ reveal_with_fuel(eanrow, 5); assert(eanrow(d.subrange(0, 4), seq![0int,0,0,0], 4) =~= eanA(d[0]) + eanA(d[1]) + eanA(d[2]) + eanA(d[3])); }
pub open spec fn ean8_full(d: Seq<u8>) -> Seq<u8> { d.push(check10(d, 3, 1)) }
pub open spec fn ean8_inv(s: ean8_EAN8) -> bool { s.0@.len() == 7 && digits(s.0@) }

=== parse ean8_EAN8 isdig 7 8

=== fn ean8_EAN8_new(data) -> r
pre: proof { if alldig(data@) { lemma_utf8_ascii(data@); } lemma_utf8_len(data@); }
ens C13 len: (utf8_len(data@) < 7 || utf8_len(data@) > 8) ==> r == Err::<ean8_EAN8, _>(error_Error::Length)
ens C13 char: 7 <= utf8_len(data@) <= 8 && !alldig(data@) ==> r == Err::<ean8_EAN8, _>(error_Error::Character)
ens C14 bad: data@.len() == 8 && alldig(data@) && dv(data@[7]) != check10(digs(data@).take(7), 3, 1) ==> r == Err::<ean8_EAN8, _>(error_Error::Checksum)
ens C14 good: data@.len() == 8 && alldig(data@) && dv(data@[7]) == check10(digs(data@).take(7), 3, 1) ==> r is Ok
ens C13 ok: alldig(data@) && data@.len() == 7 ==> r is Ok
ens C02 stored: r is Ok ==> alldig(data@) && (7 <= data@.len() <= 8) && r->Ok_0.0@ =~= digs(data@).take(7) && ean8_inv(r->Ok_0)
after /^let (\w+) = ean8_EAN8\((\w+)\);/: assert($1.0@ =~= digs(data@).take(7));
cand: forall|k: int| 0 <= k < {i} ==> {a:Vec<u8>}@[k] == dv(data@[k])

=== fn ean8_EAN8_checksum_digit(self_) -> r
req inv: ean8_inv(*self_)
ens C02 check: r == check10(self_.0@, 3, 1) && r < 10
pre: broadcast use lemma_take_step;
pre: proof { lemma_wsum(self_.0@, 3, 1); assert(self_.0@.take(self_.0@.len() as int) =~= self_.0@); }
cand: {a:int} == wsum(self_.0@.take({i} as int), 1, 0) && {a:int} <= 9 * (({i} + 1) / 2)
cand: {a:int} == wsum(self_.0@.take({i} as int), 0, 1) && {a:int} <= 9 * ({i} / 2)
cand: {a:int} == wsum(self_.0@.take({i} as int), 3, 1) && {a:int} <= 27 * (({i} + 1) / 2) + 9 * ({i} / 2)
cand: {a:int} == wsum(self_.0@, 3, 1) - wsum(self_.0@.take(self_.0@.len() - {i}), 3, 1) && {a:int} <= 27 * {i}
cand: {a:int} == wsum(self_.0@, 1, 0) - wsum(self_.0@.take(self_.0@.len() - {i}), 1, 0)
cand: {a:int} == wsum(self_.0@, 0, 1) - wsum(self_.0@.take(self_.0@.len() - {i}), 0, 1)
cand: {a:int} == wsum(self_.0@.take(if 2 * {i} <= self_.0@.len() { 2 * {i} } else { self_.0@.len() as int }), 1, 0) && {a:int} <= 9 * {i}
cand: {a:int} == wsum(self_.0@.take(if 2 * {i} <= self_.0@.len() { 2 * {i} } else { self_.0@.len() as int }), 0, 1) && {a:int} <= 9 * {i}
cand: {a:int} == wsum(self_.0@.take(if 2 * {i} <= self_.0@.len() { 2 * {i} } else { self_.0@.len() as int }), 3, 1) && {a:int} <= 36 * {i}
cand: {a:int} == wsum(self_.0@.take({i} as int), 3, 1) % 10
cand: {a:int} == (if {i} % 2 == 0 { 3int } else { 1int })
step: lemma_wsum_pair(self_.0@, {i} as int);
=== fn ean8_EAN8_checksum_encoding(self_) -> r
req inv: ean8_inv(*self_)
ens C02 cke: r@ =~= eanC(check10(self_.0@, 3, 1))
=== fn ean8_EAN8_char_encoding(self_, side, d) -> r
req dom: side < 3 && d < 10
ens C02 pat: r@ =~= eanset(side as int, d)
=== fn ean8_EAN8_number_system_digits(self_) -> r
req inv: ean8_inv(*self_)
ens C02 number_system_digits: r@ =~= self_.0@.subrange(0, 2)
=== fn ean8_EAN8_left_digits(self_) -> r
req inv: ean8_inv(*self_)
ens C02 left_digits: r@ =~= self_.0@.subrange(2, 4)
=== fn ean8_EAN8_right_digits(self_) -> r
req inv: ean8_inv(*self_)
ens C02 right_digits: r@ =~= self_.0@.subrange(4, 7)
=== fn ean8_EAN8_number_system_encoding(self_) -> r
req inv: ean8_inv(*self_)
ens C02 number_system_encoding: r@ =~= eanrow(self_.0@.subrange(0, 2), seq![0int,0], 2)
cand: flat({a:Vec<[u8; 7]>}@) =~= eanrow(self_.0@.subrange(0, 2), seq![0int,0], {i} as int)
cand: {a:Vec<u8>}@ =~= eanrow(self_.0@.subrange(0, 2), seq![0int,0], {i} as int)
cand: {a:Vec<u8>}@ =~= {a0} + eanrow(self_.0@.subrange(0, 2), seq![0int,0], {i} as int)
=== fn ean8_EAN8_left_payload(self_) -> r
req inv: ean8_inv(*self_)
ens C02 left_payload: r@ =~= eanrow(self_.0@.subrange(2, 4), seq![0int,0], 2)
cand: flat({a:Vec<[u8; 7]>}@) =~= eanrow(self_.0@.subrange(2, 4), seq![0int,0], {i} as int)
cand: {a:Vec<u8>}@ =~= eanrow(self_.0@.subrange(2, 4), seq![0int,0], {i} as int)
cand: {a:Vec<u8>}@ =~= {a0} + eanrow(self_.0@.subrange(2, 4), seq![0int,0], {i} as int)
=== fn ean8_EAN8_right_payload(self_) -> r
req inv: ean8_inv(*self_)
ens C02 right_payload: r@ =~= eanrow(self_.0@.subrange(4, 7), seq![2int,2,2], 3)
cand: flat({a:Vec<[u8; 7]>}@) =~= eanrow(self_.0@.subrange(4, 7), seq![2int,2,2], {i} as int)
cand: {a:Vec<u8>}@ =~= eanrow(self_.0@.subrange(4, 7), seq![2int,2,2], {i} as int)
cand: {a:Vec<u8>}@ =~= {a0} + eanrow(self_.0@.subrange(4, 7), seq![2int,2,2], {i} as int)
=== fn ean8_EAN8_encode(self_) -> r
req inv: ean8_inv(*self_)
pre: broadcast use lemma_flat_small;
pre: proof { assert(ean13_LEFT_GUARD@ =~= seq![1u8,0,1]); assert(ean13_MIDDLE_GUARD@ =~= seq![0u8,1,0,1,0]); assert(ean13_RIGHT_GUARD@ =~= seq![1u8,0,1]); }
pre: proof { let f = ean8_full(self_.0@); assert(f.subrange(0, 2) =~= self_.0@.subrange(0, 2)); assert(f.subrange(2, 4) =~= self_.0@.subrange(2, 4)); assert(f.subrange(4, 7) =~= self_.0@.subrange(4, 7)); }
pre: proof { lemma_ean8_four(self_.0@); }
cand: flat({a:Vec<[u8; 7]>}@) =~= eanrow(self_.0@.subrange(0, 4), seq![0int,0,0,0], {i} as int)
cand: {a:Vec<u8>}@ =~= eanrow(self_.0@.subrange(0, 4), seq![0int,0,0,0], {i} as int)
cand: {a:Vec<u8>}@ =~= {a0} + eanrow(self_.0@.subrange(0, 4), seq![0int,0,0,0], {i} as int)
cand: {a:Vec<u8>}@ =~= {a0} + eanrow(self_.0@.subrange(4, 7), seq![2int,2,2], {i} as int)
ens C02 symbol: r@ =~= ean8_symbol(ean8_full(self_.0@))

=== thm C02 symbol
fn thm_C02(data: &str)
{
    match ean8_EAN8_new(data) {
        Ok(b) => {
            let r = ean8_EAN8_encode(&b);
            let ghost d = digs(data@).take(7);
            assert(r@ =~= ean8_symbol(ean8_full(d)));
            assert(data@.len() == 8 ==> ean8_full(d) =~= digs(data@));
        }
        Err(_) => {}
    }
}
