=== use ean13 ean8 upca ean_supp inj
=== spec
/// the three number sets share no pattern
pub proof fn lemma_eanset(k: int, d: u8, m: int, e: u8)
    requires 0 <= k <= 2, 0 <= m <= 2, d < 10, e < 10, eanset(k, d) == eanset(m, e)
    ensures k == m, d == e
{
    let a = eanset(k, d); let b = eanset(m, e);
    assert(a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3] && a[4] == b[4] && a[5] == b[5] && a[6] == b[6]);
}
pub proof fn lemma_eanset_bits(k: int, d: u8) ensures eanset(k, d).len() == 7, bits(eanset(k, d)), k == 2 ==> eanset(k, d)[0] == 1, k == 0 || k == 1 ==> eanset(k, d).last() == 1 {
    lemma_eanA(d);
}
pub proof fn lemma_eanA(d: u8) ensures eanA(d).len() == 7, bits(eanA(d)), eanA(d)[0] == 0, eanA(d)[6] == 1 {}
pub open spec fn sets(p: Seq<int>, n: int) -> bool { p.len() >= n && forall|k: int| 0 <= k < n ==> 0 <= #[trigger] p[k] <= 2 }
pub proof fn lemma_eanrow(ds: Seq<u8>, par: Seq<int>, k: int) requires 0 <= k ensures eanrow(ds, par, k).len() == 7 * k, bits(eanrow(ds, par, k)) decreases k {
    if k > 0 { lemma_eanrow(ds, par, k - 1); lemma_eanset_bits(par[k - 1], ds[k - 1]); lemma_bits_cat(eanrow(ds, par, k - 1), eanset(par[k - 1], ds[k - 1])); }
}
/// digits and sets are determined by the modules
pub proof fn lemma_eanrow_inj(ds: Seq<u8>, par: Seq<int>, es: Seq<u8>, qar: Seq<int>, k: int)
    requires 0 <= k <= ds.len(), k <= es.len(), digits(ds), digits(es), sets(par, k), sets(qar, k), eanrow(ds, par, k) == eanrow(es, qar, k)
    ensures forall|j: int| 0 <= j < k ==> ds[j] == es[j] && par[j] == qar[j] decreases k
{
    if k > 0 {
        lemma_eanrow(ds, par, k - 1); lemma_eanrow(es, qar, k - 1);
        lemma_cat_eq(eanrow(ds, par, k - 1), eanset(par[k - 1], ds[k - 1]), eanrow(es, qar, k - 1), eanset(qar[k - 1], es[k - 1]));
        assert(ds[k - 1] < 10 && es[k - 1] < 10);
        lemma_eanset(par[k - 1], ds[k - 1], qar[k - 1], es[k - 1]);
        lemma_eanrow_inj(ds, par, es, qar, k - 1);
    }
}
pub proof fn lemma_par13(d: u8, e: u8) requires d < 10, e < 10, forall|j: int| 0 <= j < 5 ==> par13(d)[j] == par13(e)[j] ensures d == e {
    assert(par13(d)[0] == par13(e)[0] && par13(d)[1] == par13(e)[1] && par13(d)[2] == par13(e)[2] && par13(d)[3] == par13(e)[3] && par13(d)[4] == par13(e)[4]);
}
pub open spec fn g3() -> Seq<u8> { seq![1u8,0,1] }
pub open spec fn g5() -> Seq<u8> { seq![0u8,1,0,1,0] }
pub proof fn lemma_ean13_shape(d: Seq<u8>) requires d.len() == 13 ensures bits(ean13_symbol(d)), ean13_symbol(d).len() == 95, ean13_symbol(d)[0] == 1, ean13_symbol(d).last() == 1 {
    lemma_eanA(d[1]); lemma_eanset_bits(2, d[12]); lemma_eanrow(d.subrange(2, 7), par13(d[0]), 5); lemma_eanrow(d.subrange(7, 12), seq![2int,2,2,2,2], 5);
    let a = g3() + eanA(d[1]); let b = a + eanrow(d.subrange(2, 7), par13(d[0]), 5); let c = b + g5(); let e = c + eanrow(d.subrange(7, 12), seq![2int,2,2,2,2], 5); let f = e + eanC(d[12]);
    assert(bits(g3())); assert(bits(g5()));
    lemma_bits_cat(g3(), eanA(d[1])); lemma_bits_cat(a, eanrow(d.subrange(2, 7), par13(d[0]), 5)); lemma_bits_cat(b, g5()); lemma_bits_cat(c, eanrow(d.subrange(7, 12), seq![2int,2,2,2,2], 5)); lemma_bits_cat(e, eanC(d[12])); lemma_bits_cat(f, g3());
    assert(ean13_symbol(d) == f + g3());
}
pub proof fn lemma_ean13_unique(d: Seq<u8>, x: Seq<u8>) requires d.len() == 13, x.len() == 13, digits(d), digits(x), ean13_symbol(d) == ean13_symbol(x) ensures d =~= x {
    lemma_eanA(d[1]); lemma_eanA(x[1]); lemma_eanset_bits(2, d[12]); lemma_eanset_bits(2, x[12]);
    let p = d.subrange(2, 7); let q = x.subrange(2, 7); let r = d.subrange(7, 12); let s = x.subrange(7, 12); let c = seq![2int,2,2,2,2];
    lemma_eanrow(p, par13(d[0]), 5); lemma_eanrow(q, par13(x[0]), 5); lemma_eanrow(r, c, 5); lemma_eanrow(s, c, 5);
    let a = g3() + eanA(d[1]); let b = a + eanrow(p, par13(d[0]), 5); let e = b + g5(); let f = e + eanrow(r, c, 5); let g = f + eanC(d[12]);
    let a2 = g3() + eanA(x[1]); let b2 = a2 + eanrow(q, par13(x[0]), 5); let e2 = b2 + g5(); let f2 = e2 + eanrow(s, c, 5); let g2 = f2 + eanC(x[12]);
    lemma_cat_eq(g, g3(), g2, g3()); lemma_cat_eq(f, eanC(d[12]), f2, eanC(x[12])); lemma_cat_eq(e, eanrow(r, c, 5), e2, eanrow(s, c, 5)); lemma_cat_eq(b, g5(), b2, g5());
    lemma_cat_eq(a, eanrow(p, par13(d[0]), 5), a2, eanrow(q, par13(x[0]), 5)); lemma_cat_eq(g3(), eanA(d[1]), g3(), eanA(x[1]));
    assert(d[0] < 10 && x[0] < 10 && d[1] < 10 && x[1] < 10 && d[12] < 10 && x[12] < 10);
    assert(digits(p)) by { assert forall|k: int| 0 <= k < 5 implies #[trigger] p[k] < 10 by { assert(d[k + 2] < 10); } }
    assert(digits(q)) by { assert forall|k: int| 0 <= k < 5 implies #[trigger] q[k] < 10 by { assert(x[k + 2] < 10); } }
    assert(digits(r)) by { assert forall|k: int| 0 <= k < 5 implies #[trigger] r[k] < 10 by { assert(d[k + 7] < 10); } }
    assert(digits(s)) by { assert forall|k: int| 0 <= k < 5 implies #[trigger] s[k] < 10 by { assert(x[k + 7] < 10); } }
    lemma_eanset(0, d[1], 0, x[1]); lemma_eanset(2, d[12], 2, x[12]);
    lemma_eanrow_inj(p, par13(d[0]), q, par13(x[0]), 5); lemma_eanrow_inj(r, c, s, c, 5); lemma_par13(d[0], x[0]);
    assert forall|k: int| 0 <= k < 13 implies d[k] == x[k] by { if 2 <= k < 7 { assert(p[k - 2] == q[k - 2]); } else if 7 <= k < 12 { assert(r[k - 7] == s[k - 7]); } }
}
pub proof fn lemma_ean8_shape(d: Seq<u8>) requires d.len() == 8 ensures bits(ean8_symbol(d)), ean8_symbol(d).len() == 67, ean8_symbol(d)[0] == 1, ean8_symbol(d).last() == 1 {
    let p = eanrow(d.subrange(0, 2), seq![0int,0], 2); let q = eanrow(d.subrange(2, 4), seq![0int,0], 2); let r = eanrow(d.subrange(4, 7), seq![2int,2,2], 3);
    lemma_eanset_bits(2, d[7]); lemma_eanrow(d.subrange(0, 2), seq![0int,0], 2); lemma_eanrow(d.subrange(2, 4), seq![0int,0], 2); lemma_eanrow(d.subrange(4, 7), seq![2int,2,2], 3);
    assert(bits(g3())); assert(bits(g5()));
    lemma_bits_cat(g3(), p); lemma_bits_cat(g3() + p, q); lemma_bits_cat(g3() + p + q, g5()); lemma_bits_cat(g3() + p + q + g5(), r); lemma_bits_cat(g3() + p + q + g5() + r, eanC(d[7])); lemma_bits_cat(g3() + p + q + g5() + r + eanC(d[7]), g3());
    assert(ean8_symbol(d) == g3() + p + q + g5() + r + eanC(d[7]) + g3());
}
pub proof fn lemma_ean8_unique(d: Seq<u8>, x: Seq<u8>) requires d.len() == 8, x.len() == 8, digits(d), digits(x), ean8_symbol(d) == ean8_symbol(x) ensures d =~= x {
    let a = seq![0int,0]; let c = seq![2int,2,2];
    let (p1, q1, r1) = (d.subrange(0, 2), d.subrange(2, 4), d.subrange(4, 7)); let (p2, q2, r2) = (x.subrange(0, 2), x.subrange(2, 4), x.subrange(4, 7));
    let (p, q, r) = (eanrow(p1, a, 2), eanrow(q1, a, 2), eanrow(r1, c, 3)); let (s, t, u) = (eanrow(p2, a, 2), eanrow(q2, a, 2), eanrow(r2, c, 3));
    lemma_eanset_bits(2, d[7]); lemma_eanset_bits(2, x[7]);
    lemma_eanrow(p1, a, 2); lemma_eanrow(q1, a, 2); lemma_eanrow(r1, c, 3); lemma_eanrow(p2, a, 2); lemma_eanrow(q2, a, 2); lemma_eanrow(r2, c, 3);
    lemma_cat_eq(g3() + p + q + g5() + r + eanC(d[7]), g3(), g3() + s + t + g5() + u + eanC(x[7]), g3());
    lemma_cat_eq(g3() + p + q + g5() + r, eanC(d[7]), g3() + s + t + g5() + u, eanC(x[7]));
    lemma_cat_eq(g3() + p + q + g5(), r, g3() + s + t + g5(), u);
    lemma_cat_eq(g3() + p + q, g5(), g3() + s + t, g5());
    lemma_cat_eq(g3() + p, q, g3() + s, t);
    lemma_cat_eq(g3(), p, g3(), s);
    assert forall|k: int| 0 <= k < 2 implies #[trigger] p1[k] < 10 && p2[k] < 10 by { assert(d[k] < 10 && x[k] < 10); }
    assert forall|k: int| 0 <= k < 2 implies #[trigger] q1[k] < 10 && q2[k] < 10 by { assert(d[k + 2] < 10 && x[k + 2] < 10); }
    assert forall|k: int| 0 <= k < 3 implies #[trigger] r1[k] < 10 && r2[k] < 10 by { assert(d[k + 4] < 10 && x[k + 4] < 10); }
    assert(digits(p1) && digits(q1) && digits(r1));
    assert(digits(p2)) by { assert forall|k: int| 0 <= k < 2 implies #[trigger] p2[k] < 10 by { assert(p1[k] < 10); } }
    assert(digits(q2)) by { assert forall|k: int| 0 <= k < 2 implies #[trigger] q2[k] < 10 by { assert(q1[k] < 10); } }
    assert(digits(r2)) by { assert forall|k: int| 0 <= k < 3 implies #[trigger] r2[k] < 10 by { assert(r1[k] < 10); } }
    lemma_eanrow_inj(p1, a, p2, a, 2); lemma_eanrow_inj(q1, a, q2, a, 2); lemma_eanrow_inj(r1, c, r2, c, 3);
    assert(d[7] < 10 && x[7] < 10); lemma_eanset(2, d[7], 2, x[7]);
    assert forall|k: int| 0 <= k < 8 implies d[k] == x[k] by { if k < 2 { assert(p1[k] == p2[k]); } else if k < 4 { assert(q1[k - 2] == q2[k - 2]); } else if k < 7 { assert(r1[k - 4] == r2[k - 4]); } }
}
pub proof fn lemma_upca_shape(d: Seq<u8>) requires d.len() == 12 ensures bits(upca_symbol(d)), upca_symbol(d).len() == 95, upca_symbol(d)[0] == 1, upca_symbol(d).last() == 1 {
    let p = eanrow(d.subrange(0, 6), seq![0int,0,0,0,0,0], 6); let r = eanrow(d.subrange(6, 11), seq![2int,2,2,2,2], 5);
    lemma_eanset_bits(2, d[11]); lemma_eanrow(d.subrange(0, 6), seq![0int,0,0,0,0,0], 6); lemma_eanrow(d.subrange(6, 11), seq![2int,2,2,2,2], 5);
    assert(bits(g3())); assert(bits(g5()));
    lemma_bits_cat(g3(), p); lemma_bits_cat(g3() + p, g5()); lemma_bits_cat(g3() + p + g5(), r); lemma_bits_cat(g3() + p + g5() + r, eanC(d[11])); lemma_bits_cat(g3() + p + g5() + r + eanC(d[11]), g3());
    assert(upca_symbol(d) == g3() + p + g5() + r + eanC(d[11]) + g3());
}
pub proof fn lemma_upca_unique(d: Seq<u8>, x: Seq<u8>) requires d.len() == 12, x.len() == 12, digits(d), digits(x), upca_symbol(d) == upca_symbol(x) ensures d =~= x {
    let a = seq![0int,0,0,0,0,0]; let c = seq![2int,2,2,2,2];
    let (p1, r1) = (d.subrange(0, 6), d.subrange(6, 11)); let (p2, r2) = (x.subrange(0, 6), x.subrange(6, 11));
    let (p, r) = (eanrow(p1, a, 6), eanrow(r1, c, 5)); let (s, u) = (eanrow(p2, a, 6), eanrow(r2, c, 5));
    lemma_eanset_bits(2, d[11]); lemma_eanset_bits(2, x[11]);
    lemma_eanrow(p1, a, 6); lemma_eanrow(r1, c, 5); lemma_eanrow(p2, a, 6); lemma_eanrow(r2, c, 5);
    lemma_cat_eq(g3() + p + g5() + r + eanC(d[11]), g3(), g3() + s + g5() + u + eanC(x[11]), g3());
    lemma_cat_eq(g3() + p + g5() + r, eanC(d[11]), g3() + s + g5() + u, eanC(x[11]));
    lemma_cat_eq(g3() + p + g5(), r, g3() + s + g5(), u);
    lemma_cat_eq(g3() + p, g5(), g3() + s, g5());
    lemma_cat_eq(g3(), p, g3(), s);
    assert(digits(p1)) by { assert forall|k: int| 0 <= k < 6 implies #[trigger] p1[k] < 10 by { assert(d[k] < 10); } }
    assert(digits(p2)) by { assert forall|k: int| 0 <= k < 6 implies #[trigger] p2[k] < 10 by { assert(x[k] < 10); } }
    assert(digits(r1)) by { assert forall|k: int| 0 <= k < 5 implies #[trigger] r1[k] < 10 by { assert(d[k + 6] < 10); } }
    assert(digits(r2)) by { assert forall|k: int| 0 <= k < 5 implies #[trigger] r2[k] < 10 by { assert(x[k + 6] < 10); } }
    lemma_eanrow_inj(p1, a, p2, a, 6); lemma_eanrow_inj(r1, c, r2, c, 5);
    assert(d[11] < 10 && x[11] < 10); lemma_eanset(2, d[11], 2, x[11]);
    assert forall|k: int| 0 <= k < 12 implies d[k] == x[k] by { if k < 6 { assert(p1[k] == p2[k]); } else if k < 11 { assert(r1[k - 6] == r2[k - 6]); } }
}
pub proof fn lemma_supp_row(ds: Seq<u8>, par: Seq<int>, k: int) requires 0 <= k ensures supp_row(ds, par, k).len() == (if k == 0 { 0 } else { 9 * k - 2 }), bits(supp_row(ds, par, k)) decreases k {
    if k > 0 {
        lemma_eanset_bits(par[k - 1], ds[k - 1]);
        if k > 1 { lemma_supp_row(ds, par, k - 1); assert(bits(seq![0u8, 1])); lemma_bits_cat(supp_row(ds, par, k - 1), seq![0u8, 1]); lemma_bits_cat(supp_row(ds, par, k - 1) + seq![0u8, 1], eanset(par[k - 1], ds[k - 1])); }
    }
}
pub proof fn lemma_supp_row_inj(ds: Seq<u8>, par: Seq<int>, es: Seq<u8>, qar: Seq<int>, k: int)
    requires 0 <= k <= ds.len(), k <= es.len(), digits(ds), digits(es), sets(par, k), sets(qar, k), supp_row(ds, par, k) == supp_row(es, qar, k)
    ensures forall|j: int| 0 <= j < k ==> ds[j] == es[j] decreases k
{
    if k > 0 {
        assert(ds[k - 1] < 10 && es[k - 1] < 10);
        if k > 1 {
            lemma_supp_row(ds, par, k - 1); lemma_supp_row(es, qar, k - 1);
            lemma_cat_eq(supp_row(ds, par, k - 1) + seq![0u8, 1], eanset(par[k - 1], ds[k - 1]), supp_row(es, qar, k - 1) + seq![0u8, 1], eanset(qar[k - 1], es[k - 1]));
            lemma_cat_eq(supp_row(ds, par, k - 1), seq![0u8, 1], supp_row(es, qar, k - 1), seq![0u8, 1]);
            lemma_supp_row_inj(ds, par, es, qar, k - 1);
        }
        lemma_eanset(par[k - 1], ds[k - 1], qar[k - 1], es[k - 1]);
    }
}
pub open spec fn supp_dom(d: Seq<u8>) -> bool { digits(d) && (d.len() == 2 || d.len() == 5) }
pub proof fn lemma_supp_par(d: Seq<u8>) requires supp_dom(d) ensures sets(supp_par(d), d.len() as int), supp_par(d)[d.len() - 1] != 2 {}
pub proof fn lemma_supp_shape(d: Seq<u8>) requires supp_dom(d) ensures bits(supp_symbol(d)), supp_symbol(d).len() == 9 * d.len() + 2, supp_symbol(d)[0] == 1, supp_symbol(d).last() == 1 {
    let n = d.len() as int;
    lemma_supp_row(d, supp_par(d), n); lemma_supp_par(d); lemma_eanset_bits(supp_par(d)[n - 1], d[n - 1]);
    assert(supp_row(d, supp_par(d), n).last() == eanset(supp_par(d)[n - 1], d[n - 1]).last());
    assert(bits(seq![1u8,0,1,1])); lemma_bits_cat(seq![1u8,0,1,1], supp_row(d, supp_par(d), n));
}
pub proof fn lemma_supp_unique(d: Seq<u8>, x: Seq<u8>) requires supp_dom(d), supp_dom(x), supp_symbol(d) == supp_symbol(x) ensures d =~= x {
    let n = d.len() as int;
    lemma_supp_shape(d); lemma_supp_shape(x);
    lemma_cat_eq(seq![1u8,0,1,1], supp_row(d, supp_par(d), n), seq![1u8,0,1,1], supp_row(x, supp_par(x), n));
    lemma_supp_par(d); lemma_supp_par(x);
    lemma_supp_row_inj(d, supp_par(d), x, supp_par(x), n);
}
pub proof fn lemma_check10(d: Seq<u8>, we: int, wo: int) requires 0 <= we, 0 <= wo ensures check10(d, we, wo) < 10 { lemma_wsum(d, we, wo); }
pub proof fn lemma_digs(s: Seq<char>) requires alldig(s) ensures digits(digs(s)) {
    assert forall|k: int| 0 <= k < s.len() implies #[trigger] digs(s)[k] < 10 by { assert(isdig(s[k])); }
}
/// equal digits, equal text
pub proof fn lemma_digs_eq(a: Seq<char>, b: Seq<char>, n: int) requires alldig(a), alldig(b), 0 <= n <= a.len(), n <= b.len(), digs(a).take(n) == digs(b).take(n) ensures a.take(n) =~= b.take(n) {
    assert forall|k: int| 0 <= k < n implies a[k] == b[k] by { assert(digs(a).take(n)[k] == digs(a)[k]); assert(digs(b).take(n)[k] == digs(b)[k]); assert(isdig(a[k])); assert(isdig(b[k])); assert(dv(a[k]) == dv(b[k])); assert(a[k] as u32 == b[k] as u32); }
}
=== thm C15 ean13
fn thm_C15_ean13(data: &str)
{
    match ean13_EAN13_new(data) {
        Ok(b) => { let r = ean13_EAN13_encode(&b); proof { lemma_ean13_shape(ean13_full(b.0@)); } assert(r@.len() > 0 && bits(r@) && r@[0] == 1 && r@.last() == 1); }
        Err(_) => {}
    }
}
=== thm C15 ean8
fn thm_C15_ean8(data: &str)
{
    match ean8_EAN8_new(data) {
        Ok(b) => { let r = ean8_EAN8_encode(&b); proof { lemma_ean8_shape(ean8_full(b.0@)); } assert(r@.len() > 0 && bits(r@) && r@[0] == 1 && r@.last() == 1); }
        Err(_) => {}
    }
}
=== thm C15 upca
fn thm_C15_upca(data: &str)
{
    match upca_UPCA_new(data) {
        Ok(b) => { let r = upca_UPCA_encode(&b); proof { lemma_upca_shape(upca_full(b.0@)); } assert(r@.len() > 0 && bits(r@) && r@[0] == 1 && r@.last() == 1); }
        Err(_) => {}
    }
}
=== thm C15 ean_supp
fn thm_C15_ean_supp(data: &str)
{
    match ean_supp_EANSUPP_new(data) {
        Ok(b) => { let r = ean_supp_EANSUPP_encode(&b); proof { lemma_supp_shape(supp_data(b)); } assert(r@.len() > 0 && bits(r@) && r@[0] == 1 && r@.last() == 1); }
        Err(_) => {}
    }
}
=== thm C16 ean13
fn thm_C16_ean13(d1: &str, d2: &str)
{
    match (ean13_EAN13_new(d1), ean13_EAN13_new(d2)) {
        (Ok(b1), Ok(b2)) => {
            let r1 = ean13_EAN13_encode(&b1); let r2 = ean13_EAN13_encode(&b2);
            proof {
                let x = ean13_full(b1.0@); let y = ean13_full(b2.0@);
                lemma_check10(b1.0@, 1, 3); lemma_check10(b2.0@, 1, 3);
                assert(digits(x) && digits(y));
                if r1@ == r2@ { lemma_ean13_unique(x, y); assert(x.take(12) =~= b1.0@); assert(y.take(12) =~= b2.0@); lemma_digs_eq(d1@, d2@, 12); }
            }
            assert(r1@ == r2@ ==> d1@.take(12) == d2@.take(12));
        }
        _ => {}
    }
}
=== thm C16 ean8
fn thm_C16_ean8(d1: &str, d2: &str)
{
    match (ean8_EAN8_new(d1), ean8_EAN8_new(d2)) {
        (Ok(b1), Ok(b2)) => {
            let r1 = ean8_EAN8_encode(&b1); let r2 = ean8_EAN8_encode(&b2);
            proof {
                let x = ean8_full(b1.0@); let y = ean8_full(b2.0@);
                lemma_check10(b1.0@, 3, 1); lemma_check10(b2.0@, 3, 1);
                assert(digits(x) && digits(y));
                if r1@ == r2@ { lemma_ean8_unique(x, y); assert(x.take(7) =~= b1.0@); assert(y.take(7) =~= b2.0@); lemma_digs_eq(d1@, d2@, 7); }
            }
            assert(r1@ == r2@ ==> d1@.take(7) == d2@.take(7));
        }
        _ => {}
    }
}
=== thm C16 upca
fn thm_C16_upca(d1: &str, d2: &str)
{
    match (upca_UPCA_new(d1), upca_UPCA_new(d2)) {
        (Ok(b1), Ok(b2)) => {
            let r1 = upca_UPCA_encode(&b1); let r2 = upca_UPCA_encode(&b2);
            proof {
                let x = upca_full(b1.0@); let y = upca_full(b2.0@);
                lemma_check10(b1.0@, 3, 1); lemma_check10(b2.0@, 3, 1);
                assert(digits(x) && digits(y));
                if r1@ == r2@ { lemma_upca_unique(x, y); assert(x.take(11) =~= b1.0@); assert(y.take(11) =~= b2.0@); lemma_digs_eq(d1@, d2@, 11); }
            }
            assert(r1@ == r2@ ==> d1@.take(11) == d2@.take(11));
        }
        _ => {}
    }
}
=== thm C16 ean_supp
fn thm_C16_ean_supp(d1: &str, d2: &str)
{
    match (ean_supp_EANSUPP_new(d1), ean_supp_EANSUPP_new(d2)) {
        (Ok(b1), Ok(b2)) => {
            let r1 = ean_supp_EANSUPP_encode(&b1); let r2 = ean_supp_EANSUPP_encode(&b2);
            proof {
                if r1@ == r2@ { lemma_supp_unique(supp_data(b1), supp_data(b2)); let n = d1@.len() as int; assert(digs(d1@).take(n) =~= digs(d2@).take(n)); lemma_digs_eq(d1@, d2@, n); assert(d1@.take(n) =~= d1@); assert(d2@.take(n) =~= d2@); }
            }
            assert(r1@ == r2@ ==> d1@ == d2@);
        }
        _ => {}
    }
}
=== thm C14 ean13
fn thm_C14_ean13(d1: &str, d2: &str)
    requires d2@ == d1@.take(12), d1@.len() == 13
{
    match ean13_EAN13_new(d1) {
        Ok(b1) => {
            proof { assert forall|k: int| 0 <= k < 12 implies isdig(#[trigger] d2@[k]) by { assert(isdig(d1@[k])); } assert(digs(d2@).take(12) =~= digs(d1@).take(12)); }
            let m2 = ean13_EAN13_new(d2);
            assert(m2 is Ok);
            if let Ok(b2) = m2 { let r1 = ean13_EAN13_encode(&b1); let r2 = ean13_EAN13_encode(&b2); assert(r1@ == r2@); }
            assert(digs(d1@) =~= ean13_full(digs(d2@).take(12)));
        }
        Err(e) => { assert(alldig(d1@) && dv(d1@[12]) == check10(digs(d2@), 1, 3) ==> false) by { if alldig(d1@) { assert(digs(d2@) =~= digs(d1@).take(12)); } } }
    }
}
=== thm C14 ean8
fn thm_C14_ean8(d1: &str, d2: &str)
    requires d2@ == d1@.take(7), d1@.len() == 8
{
    match ean8_EAN8_new(d1) {
        Ok(b1) => {
            proof { assert forall|k: int| 0 <= k < 7 implies isdig(#[trigger] d2@[k]) by { assert(isdig(d1@[k])); } assert(digs(d2@).take(7) =~= digs(d1@).take(7)); }
            let m2 = ean8_EAN8_new(d2);
            assert(m2 is Ok);
            if let Ok(b2) = m2 { let r1 = ean8_EAN8_encode(&b1); let r2 = ean8_EAN8_encode(&b2); assert(r1@ == r2@); }
            assert(digs(d1@) =~= ean8_full(digs(d2@).take(7)));
        }
        Err(e) => { assert(alldig(d1@) && dv(d1@[7]) == check10(digs(d2@), 3, 1) ==> false) by { if alldig(d1@) { assert(digs(d2@) =~= digs(d1@).take(7)); } } }
    }
}
=== thm C14 upca
fn thm_C14_upca(d1: &str, d2: &str)
    requires d2@ == d1@.take(11), d1@.len() == 12
{
    match upca_UPCA_new(d1) {
        Ok(b1) => {
            proof { assert forall|k: int| 0 <= k < 11 implies isdig(#[trigger] d2@[k]) by { assert(isdig(d1@[k])); } assert(digs(d2@).take(11) =~= digs(d1@).take(11)); }
            let m2 = upca_UPCA_new(d2);
            assert(m2 is Ok);
            if let Ok(b2) = m2 { let r1 = upca_UPCA_encode(&b1); let r2 = upca_UPCA_encode(&b2); assert(r1@ == r2@); }
            assert(digs(d1@) =~= upca_full(digs(d2@).take(11)));
        }
        Err(e) => { assert(alldig(d1@) && dv(d1@[11]) == check10(digs(d2@), 3, 1) ==> false) by { if alldig(d1@) { assert(digs(d2@) =~= digs(d1@).take(11)); } } }
    }
}
