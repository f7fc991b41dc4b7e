=== spec
/// wide elements of each digit
pub open spec fn tf_w(d: u8) -> Seq<bool> {
    if d == 0 { seq![false,false,true,true,false] } else if d == 1 { seq![true,false,false,false,true] } else if d == 2 { seq![false,true,false,false,true] }
    else if d == 3 { seq![true,true,false,false,false] } else if d == 4 { seq![false,false,true,false,true] } else if d == 5 { seq![true,false,true,false,false] }
    else if d == 6 { seq![false,true,true,false,false] } else if d == 7 { seq![false,false,false,true,true] } else if d == 8 { seq![true,false,false,true,false] }
    else { seq![false,true,false,true,false] }
}
pub open spec fn tf_el(wide: bool, v: u8) -> Seq<u8> { if wide { seq![v, v, v] } else { seq![v] } }
pub open spec fn tf_run(v: u8, k: int) -> Seq<u8> { Seq::new(k as nat, |j: int| v) }
pub proof fn lemma_tf_run() ensures forall|v: u8| #[trigger] tf_run(v, 1) =~= seq![v], forall|v: u8| #[trigger] tf_run(v, 3) =~= seq![v, v, v] {}
/// first j of: k-th bar of digit b, k-th space of digit s
pub open spec fn itf_half(b: u8, s: u8, k: int, j: int) -> Seq<u8> {
    if j <= 0 { Seq::<u8>::empty() } else if j == 1 { tf_el(tf_w(b)[k], 1) } else { tf_el(tf_w(b)[k], 1) + tf_el(tf_w(s)[k], 0) }
}
/// the first k bars of b interleaved with the first k spaces of s
pub open spec fn itf_part(b: u8, s: u8, k: int) -> Seq<u8> decreases k {
    if k <= 0 { Seq::<u8>::empty() } else { itf_part(b, s, k - 1) + itf_half(b, s, k - 1, 2) }
}
pub open spec fn itf_pair(b: u8, s: u8) -> Seq<u8> { itf_part(b, s, 5) }
pub open spec fn itf_row(d: Seq<u8>, k: int) -> Seq<u8> decreases k {
    if k <= 0 { Seq::<u8>::empty() } else { itf_row(d, k - 1) + itf_pair(d[2 * k - 2], d[2 * k - 1]) }
}
pub open spec fn itf_symbol(d: Seq<u8>) -> Seq<u8> { seq![1u8,0,1,0] + itf_row(d, d.len() as int / 2) + seq![1u8,1,0,1] }
/// odd data is completed with its modulo-10 check digit
pub open spec fn itf_full(d: Seq<u8>) -> Seq<u8> { if d.len() % 2 == 1 { d.push(check10(d, 3, 1)) } else { d } }
pub open spec fn stf_part(d: u8, k: int) -> Seq<u8> decreases k {
    if k <= 0 { Seq::<u8>::empty() } else { stf_part(d, k - 1) + (tf_el(tf_w(d)[k - 1], 1) + seq![0u8]) }
}
pub open spec fn stf_row(d: Seq<u8>, k: int) -> Seq<u8> decreases k {
    if k <= 0 { Seq::<u8>::empty() } else { stf_row(d, k - 1) + stf_part(d[k - 1], 5) }
}
pub open spec fn stf_symbol(d: Seq<u8>) -> Seq<u8> { seq![1u8,1,0,1,1,0,1,0] + stf_row(d, d.len() as int) + seq![1u8,1,0,1,0,1,1,0] }
pub open spec fn tf_data(t: tf_TF) -> Seq<u8> { match t { tf_TF::Standard(d) => d@, tf_TF::Interleaved(d) => d@ } }
pub open spec fn tf_inv(t: tf_TF) -> bool { digits(tf_data(t)) && 1 <= tf_data(t).len() <= 257 && (t is Interleaved ==> tf_data(t).len() % 2 == 0) }

=== parse tf_TF isdig 1 256

=== fn tf_TF_interleaved(data) -> r
ens C13 err: r is Err ==> r->Err_0 == (if utf8_len(data@) < 1 || utf8_len(data@) > 256 { error_Error::Length } else { error_Error::Character })
ens C13 ok: r is Ok <==> 1 <= utf8_len(data@) <= 256 && alldig(data@)
ens C09 data: r is Ok ==> r->Ok_0 is Interleaved && tf_data(r->Ok_0) =~= itf_full(digs(data@)) && tf_inv(r->Ok_0)
pre: proof { lemma_utf8_len(data@); if data@.len() == 0 { assert(utf8_len(data@) == 0); } }
cand: forall|k: int| 0 <= k < {i} ==> {a:Vec<u8>}@[k] == dv(data@[k])
after /helpers_modulo_10_checksum\((\w+)\./: assert($1@ =~= digs(data@));
=== fn tf_TF_standard(data) -> r
ens C13 err: r is Err ==> r->Err_0 == (if utf8_len(data@) < 1 || utf8_len(data@) > 256 { error_Error::Length } else { error_Error::Character })
ens C13 ok: r is Ok <==> 1 <= utf8_len(data@) <= 256 && alldig(data@)
ens C10 data: r is Ok ==> r->Ok_0 is Standard && tf_data(r->Ok_0) =~= digs(data@) && tf_inv(r->Ok_0)
pre: proof { lemma_utf8_len(data@); if data@.len() == 0 { assert(utf8_len(data@) == 0); } }
cand: forall|k: int| 0 <= k < {i} ==> {a:Vec<u8>}@[k] == dv(data@[k])
=== fn tf_TF_raw_data(self_) -> r
ens C09 raw: r@ == tf_data(*self_)
=== fn tf_TF_interleave(self_, bars, spaces) -> r
req dom: bars < 10 && spaces < 10
pre: proof { assert forall|d: int| 0 <= d < 10 implies (#[trigger] tf_WIDTHS@[d]).v().len() == 5 && (forall|k: int| 0 <= k < 5 ==> (#[trigger] tf_WIDTHS@[d].v()[k] == 'W') == tf_w(d as u8)[k]) by {} }
ens C09 pair: r@ =~= itf_pair(bars, spaces)
cand: {a:Vec<u8>}@ =~= itf_part(bars, spaces, {i} as int)
cand: {a:Vec<u8>}@ =~= {a0} + itf_part(bars, spaces, {i} as int)
cand: {a:Vec<u8>}@ =~= {a0} + itf_half(bars, spaces, {o.i} as int, {i} as int)
cand: {a:Vec<u8>}@ =~= {a0} + tf_run(1, {i} as int)
cand: {a:Vec<u8>}@ =~= {a0} + tf_run(0, {i} as int)
pre: proof { lemma_tf_run(); }
=== fn tf_TF_char_encoding(self_, d) -> r
req dom: d < 10
ens C10 pat: r@ =~= stf_part(d, 5)
cand: flat({a:Vec<Vec<u8>>}@) =~= stf_part(d, {i} as int)
cand: {a:Vec<u8>}@ =~= stf_part(d, {i} as int)
cand: {a:Vec<u8>}@ =~= {a0} + stf_part(d, {i} as int)
cand: {a:Vec<u8>}@ =~= {a0} + tf_run(1, {i} as int)
pre: proof { lemma_tf_run(); }
=== fn tf_TF_char_widths(self_, d) -> r
req dom: d < 10
ens C10 widths: r@.len() == 5 && forall|k: int| 0 <= k < 5 ==> (#[trigger] r@[k] == 'W') == tf_w(d)[k]
=== fn tf_TF_stf_payload(self_) -> r
req inv: tf_inv(*self_)
ens C10 row: r@ =~= stf_row(tf_data(*self_), tf_data(*self_).len() as int)
cand: {a:Vec<u8>}@ =~= stf_row(tf_data(*self_), {i} as int)
cand: {a:Vec<u8>}@ =~= {a0} + stf_row(tf_data(*self_), {i} as int)
=== fn tf_TF_itf_payload(self_) -> r
req inv: tf_inv(*self_) && self_ is Interleaved
ens C09 row: r@ =~= itf_row(tf_data(*self_), tf_data(*self_).len() as int / 2)
cand: flat({a:Vec<Vec<u8>>}@) =~= itf_row(tf_data(*self_), {i} as int)
cand: {a:Vec<u8>}@ =~= itf_row(tf_data(*self_), {i} as int)
cand: {a:Vec<u8>}@ =~= {a0} + itf_row(tf_data(*self_), {i} as int)
cand: {a:usize} % 2 == 0 && {a:usize} <= tf_data(*self_).len()
cand: {a2:Vec<u8>}@ =~= itf_row(tf_data(*self_), {a:usize} as int / 2)
=== fn tf_TF_encode(self_) -> r
req inv: tf_inv(*self_)
pre: broadcast use lemma_flat_small;
pre: proof { assert(tf_ITF_START@ =~= seq![1u8,0,1,0]); assert(tf_ITF_STOP@ =~= seq![1u8,1,0,1]); }
pre: proof { assert(tf_STF_START@ =~= seq![1u8,1,0,1,1,0,1,0]); assert(tf_STF_STOP@ =~= seq![1u8,1,0,1,0,1,1,0]); }
ens C09 symbol: self_ is Interleaved ==> r@ =~= itf_symbol(tf_data(*self_))
ens C10 symbol: self_ is Standard ==> r@ =~= stf_symbol(tf_data(*self_))
=== thm C09 symbol
fn thm_C09(data: &str)
{
    match tf_TF_interleaved(data) {
        Ok(b) => { let r = tf_TF_encode(&b); assert(r@ =~= itf_symbol(itf_full(digs(data@)))); }
        Err(_) => {}
    }
}
=== thm C10 symbol
fn thm_C10(data: &str)
{
    match tf_TF_standard(data) {
        Ok(b) => { let r = tf_TF_encode(&b); assert(r@ =~= stf_symbol(digs(data@))); }
        Err(_) => {}
    }
}
