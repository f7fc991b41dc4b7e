=== use gs1
=== spec
pub open spec fn supp_data(s: ean_supp_EANSUPP) -> Seq<u8> { match s { ean_supp_EANSUPP::EAN2(d) => d@, ean_supp_EANSUPP::EAN5(d) => d@ } }
pub open spec fn supp_inv(s: ean_supp_EANSUPP) -> bool {
    &&& digits(supp_data(s))
    &&& match s { ean_supp_EANSUPP::EAN2(d) => d@.len() == 2, ean_supp_EANSUPP::EAN5(d) => d@.len() == 5 }
}
/// GS1: sets of the two-digit add-on by value modulo 4
pub open spec fn par2(v: int) -> Seq<int> { if v == 0 { seq![0int,0] } else if v == 1 { seq![0int,1] } else if v == 2 { seq![1int,0] } else { seq![1int,1] } }
/// GS1: sets of the five-digit add-on by check value
pub open spec fn par5(v: int) -> Seq<int> {
    if v == 0 { seq![1int,1,0,0,0] } else if v == 1 { seq![1int,0,1,0,0] } else if v == 2 { seq![1int,0,0,1,0] } else if v == 3 { seq![1int,0,0,0,1] }
    else if v == 4 { seq![0int,1,1,0,0] } else if v == 5 { seq![0int,0,1,1,0] } else if v == 6 { seq![0int,0,0,1,1] } else if v == 7 { seq![0int,1,0,1,0] }
    else if v == 8 { seq![0int,1,0,0,1] } else { seq![0int,0,1,0,1] }
}
pub open spec fn supp_check(d: Seq<u8>) -> int { (3 * (d[0] + d[2] + d[4]) + 9 * (d[1] + d[3])) % 10 }
pub open spec fn supp_par(d: Seq<u8>) -> Seq<int> { if d.len() == 2 { par2((d[0] * 10 + d[1]) % 4) } else { par5(supp_check(d)) } }
/// the digits with 01 between neighbours
pub open spec fn supp_row(ds: Seq<u8>, par: Seq<int>, k: int) -> Seq<u8> decreases k {
    if k <= 0 { Seq::<u8>::empty() } else if k == 1 { eanset(par[0], ds[0]) } else { supp_row(ds, par, k - 1) + seq![0u8, 1] + eanset(par[k - 1], ds[k - 1]) }
}
pub open spec fn supp_symbol(d: Seq<u8>) -> Seq<u8> { seq![1u8,0,1,1] + supp_row(d, supp_par(d), d.len() as int) }

=== parse ean_supp_EANSUPP isdig 2 5

=== fn ean_supp_EANSUPP_new(data) -> r
pre: proof { if alldig(data@) { lemma_utf8_ascii(data@); } lemma_utf8_len(data@); }
ens C13 len: (utf8_len(data@) < 2 || utf8_len(data@) > 5 || (alldig(data@) && 3 <= data@.len() <= 4)) ==> r == Err::<ean_supp_EANSUPP, _>(error_Error::Length)
ens C13 char: 2 <= utf8_len(data@) <= 5 && !alldig(data@) ==> r == Err::<ean_supp_EANSUPP, _>(error_Error::Character)
ens C13 ok: alldig(data@) && (data@.len() == 2 || data@.len() == 5) ==> r is Ok
ens C13 only: r is Ok ==> alldig(data@) && (data@.len() == 2 || data@.len() == 5)
ens C04 stored: r is Ok && alldig(data@) && (data@.len() == 2 || data@.len() == 5) ==> supp_data(r->Ok_0) =~= digs(data@) && supp_inv(r->Ok_0)
cand: forall|k: int| 0 <= k < {i} ==> {a:Vec<u8>}@[k] == dv(data@[k])
after /^let t = (\w+).len\(\);/: assert($1@ =~= digs(data@));

=== fn ean_supp_EANSUPP_raw_data(self_) -> r
ens C04 raw: r@ == supp_data(*self_)
=== fn ean_supp_EANSUPP_char_encoding(self_, side, d) -> r
req dom: side < 3 && d < 10
ens C04 pat: r@ =~= eanset(side as int, d)
=== fn ean_supp_EANSUPP_checksum_digit(self_) -> r
req inv: supp_inv(*self_) && self_ is EAN5
pre: proof { reveal_with_fuel(wsum, 6); lemma_wsum(supp_data(*self_), 3, 9); }
ens C04 check: r == supp_check(supp_data(*self_)) && r < 10
cand: {a:int} == wsum(supp_data(*self_).take({i} as int), 1, 0) && {a:int} <= 9 * (({i} + 1) / 2)
cand: {a:int} == wsum(supp_data(*self_).take({i} as int), 0, 1) && {a:int} <= 9 * ({i} / 2)
cand: {a:int} == wsum(supp_data(*self_).take({i} as int), 3, 9) && {a:int} <= 27 * (({i} + 1) / 2) + 81 * ({i} / 2)
cand: {a:int} == wsum(supp_data(*self_).take({i} as int), 3, 9) % 10
=== fn ean_supp_EANSUPP_parity(self_) -> r
req inv: supp_inv(*self_)
ens C04 parity: forall|k: int| 0 <= k < supp_data(*self_).len() ==> r@[k] as int == supp_par(supp_data(*self_))[k] && r@[k] < 2
=== fn ean_supp_EANSUPP_payload(self_) -> r
req inv: supp_inv(*self_)
ens C04 payload: r@ =~= supp_row(supp_data(*self_), supp_par(supp_data(*self_)), supp_data(*self_).len() as int)
cand: forall|k: int| 0 <= k < {i} ==> {a:Vec<[u8; 7]>}@[k]@ =~= eanset(supp_par(supp_data(*self_))[k], supp_data(*self_)[k])
cand: {a:Vec<u8>}@ =~= supp_row(supp_data(*self_), supp_par(supp_data(*self_)), {i} as int)
cand: {a:Vec<u8>}@ =~= {a0} + supp_row(supp_data(*self_), supp_par(supp_data(*self_)), {i} as int)
cand: {a:bool} == ({i} == 0)
cand: {a:bool} == ({i} > 0)
=== fn ean_supp_EANSUPP_encode(self_) -> r
req inv: supp_inv(*self_)
pre: broadcast use lemma_flat_small;
pre: proof { assert(ean_supp_LEFT_GUARD@ =~= seq![1u8,0,1,1]); }
ens C04 symbol: r@ =~= supp_symbol(supp_data(*self_))

=== thm C04 symbol
fn thm_C04(data: &str)
    requires alldig(data@), data@.len() == 2 || data@.len() == 5
{
    match ean_supp_EANSUPP_new(data) {
        Ok(b) => {
            let r = ean_supp_EANSUPP_encode(&b);
            assert(r@ =~= supp_symbol(digs(data@)));
        }
        Err(_) => {}
    }
}
