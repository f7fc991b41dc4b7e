=== use tf inj
=== spec
/// one bar and one space
pub open spec fn w2(b: bool, s: bool) -> Seq<u8> { tf_el(b, 1) + tf_el(s, 0) }
pub proof fn lemma_w2(b: bool, s: bool, c: bool, t: bool, r: Seq<u8>, q: Seq<u8>) requires barfirst(r), barfirst(q), w2(b, s) + r == w2(c, t) + q ensures b == c, s == t, r =~= q {
    let x = w2(b, s) + r; let y = w2(c, t) + q;
    assert(x[1] == (if b { 1u8 } else { 0u8 })); assert(y[1] == (if c { 1u8 } else { 0u8 }));
    assert(b == c);
    let n: int = if b { 4 } else { 2 };
    assert(x.len() >= n && y.len() >= n);
    assert(s ==> x.len() > n && x[n] == 0); assert(!s && x.len() > n ==> x[n] == r[0]);
    assert(t ==> y.len() > n && y[n] == 0); assert(!t && y.len() > n ==> y[n] == q[0]);
    assert(s == t);
    lemma_cat_eq(w2(b, s), r, w2(c, t), q);
}
pub open spec fn pair5(b: u8, s: u8) -> Seq<u8> {
    let x = tf_w(b); let y = tf_w(s);
    w2(x[0], y[0]) + (w2(x[1], y[1]) + (w2(x[2], y[2]) + (w2(x[3], y[3]) + w2(x[4], y[4]))))
}
pub proof fn lemma_assoc5(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>, e: Seq<u8>, r: Seq<u8>)
    ensures Seq::<u8>::empty() + a + b + c + d + e =~= a + (b + (c + (d + e))), (a + (b + (c + (d + e)))) + r =~= a + (b + (c + (d + (e + r))))
{}
pub proof fn lemma_bits5(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>, e: Seq<u8>) requires bits(a), bits(b), bits(c), bits(d), bits(e) ensures bits(a + (b + (c + (d + e)))) {
    lemma_bits_cat(d, e); lemma_bits_cat(c, d + e); lemma_bits_cat(b, c + (d + e)); lemma_bits_cat(a, b + (c + (d + e)));
}
pub proof fn lemma_pair5(b: u8, s: u8) ensures itf_pair(b, s) == pair5(b, s), bits(itf_pair(b, s)), itf_pair(b, s).len() > 0, itf_pair(b, s)[0] == 1 {
    hide(tf_w); hide(tf_el); reveal_with_fuel(itf_part, 6);
    let x = tf_w(b); let y = tf_w(s);
    let (h0, h1, h2, h3, h4) = (w2(x[0], y[0]), w2(x[1], y[1]), w2(x[2], y[2]), w2(x[3], y[3]), w2(x[4], y[4]));
    lemma_assoc5(h0, h1, h2, h3, h4, Seq::<u8>::empty());
    lemma_w2_bits(x[0], y[0]); lemma_w2_bits(x[1], y[1]); lemma_w2_bits(x[2], y[2]); lemma_w2_bits(x[3], y[3]); lemma_w2_bits(x[4], y[4]);
    lemma_bits5(h0, h1, h2, h3, h4);
}
pub proof fn lemma_w2_bits(b: bool, s: bool) ensures bits(w2(b, s)), w2(b, s).len() >= 2, w2(b, s)[0] == 1, w2(b, s).last() == 0 {}
pub proof fn lemma_tf_w(d: u8, e: u8) requires d < 10, e < 10, tf_w(d)[0] == tf_w(e)[0], tf_w(d)[1] == tf_w(e)[1], tf_w(d)[2] == tf_w(e)[2], tf_w(d)[3] == tf_w(e)[3], tf_w(d)[4] == tf_w(e)[4] ensures d == e {}
pub proof fn lemma_pair_inj(b: u8, s: u8, c: u8, t: u8, r: Seq<u8>, q: Seq<u8>) requires b < 10, s < 10, c < 10, t < 10, barfirst(r), barfirst(q), itf_pair(b, s) + r == itf_pair(c, t) + q ensures b == c, s == t, r =~= q {
    hide(tf_w); hide(w2); hide(itf_pair);
    lemma_pair5(b, s); lemma_pair5(c, t);
    let x = tf_w(b); let y = tf_w(s); let u = tf_w(c); let v = tf_w(t);
    let r4 = w2(x[4], y[4]) + r; let r3 = w2(x[3], y[3]) + r4; let r2 = w2(x[2], y[2]) + r3; let r1 = w2(x[1], y[1]) + r2;
    let q4 = w2(u[4], v[4]) + q; let q3 = w2(u[3], v[3]) + q4; let q2 = w2(u[2], v[2]) + q3; let q1 = w2(u[1], v[1]) + q2;
    lemma_assoc5(w2(x[0], y[0]), w2(x[1], y[1]), w2(x[2], y[2]), w2(x[3], y[3]), w2(x[4], y[4]), r); lemma_assoc5(w2(u[0], v[0]), w2(u[1], v[1]), w2(u[2], v[2]), w2(u[3], v[3]), w2(u[4], v[4]), q);
    lemma_w2_bits(x[1], y[1]); lemma_w2_bits(x[2], y[2]); lemma_w2_bits(x[3], y[3]); lemma_w2_bits(x[4], y[4]);
    lemma_w2_bits(u[1], v[1]); lemma_w2_bits(u[2], v[2]); lemma_w2_bits(u[3], v[3]); lemma_w2_bits(u[4], v[4]);
    lemma_w2(x[0], y[0], u[0], v[0], r1, q1); lemma_w2(x[1], y[1], u[1], v[1], r2, q2); lemma_w2(x[2], y[2], u[2], v[2], r3, q3); lemma_w2(x[3], y[3], u[3], v[3], r4, q4); lemma_w2(x[4], y[4], u[4], v[4], r, q);
    lemma_tf_w(b, c); lemma_tf_w(s, t);
}
pub proof fn lemma_itf_row_cons(d: Seq<u8>, k: int) requires 1 <= k, 2 * k <= d.len() ensures itf_row(d, k) =~= itf_pair(d[0], d[1]) + itf_row(d.skip(2), k - 1) decreases k {
    if k > 1 {
        lemma_itf_row_cons(d, k - 1);
        assert(d.skip(2)[2 * (k - 1) - 2] == d[2 * k - 2]); assert(d.skip(2)[2 * (k - 1) - 1] == d[2 * k - 1]);
    } else { reveal_with_fuel(itf_row, 2); }
}
pub proof fn lemma_itf_row(d: Seq<u8>, k: int) requires 0 <= k, 2 * k <= d.len() ensures bits(itf_row(d, k)), barfirst(itf_row(d, k)), k > 0 ==> itf_row(d, k).len() > 0 decreases k {
    if k > 0 {
        lemma_itf_row(d, k - 1); lemma_pair5(d[2 * k - 2], d[2 * k - 1]); lemma_bits_cat(itf_row(d, k - 1), itf_pair(d[2 * k - 2], d[2 * k - 1]));
        lemma_itf_row_cons(d, k); lemma_pair5(d[0], d[1]);
    }
}
pub proof fn lemma_itf_row_inj(d: Seq<u8>, e: Seq<u8>) requires digits(d), digits(e), d.len() % 2 == 0, e.len() % 2 == 0, itf_row(d, d.len() as int / 2) == itf_row(e, e.len() as int / 2) ensures d =~= e decreases d.len() {
    let k = d.len() as int / 2; let j = e.len() as int / 2;
    lemma_itf_row(d, k); lemma_itf_row(e, j);
    if d.len() > 0 && e.len() > 0 {
        lemma_itf_row_cons(d, k); lemma_itf_row_cons(e, j);
        let x = d.skip(2); let y = e.skip(2);
        lemma_itf_row(x, k - 1); lemma_itf_row(y, j - 1);
        assert(d[0] < 10 && d[1] < 10 && e[0] < 10 && e[1] < 10);
        lemma_pair_inj(d[0], d[1], e[0], e[1], itf_row(x, k - 1), itf_row(y, j - 1));
        assert forall|i: int| 0 <= i < x.len() implies #[trigger] x[i] < 10 by { assert(d[i + 2] < 10); }
        assert forall|i: int| 0 <= i < y.len() implies #[trigger] y[i] < 10 by { assert(e[i + 2] < 10); }
        lemma_itf_row_inj(x, y);
        assert forall|i: int| 0 <= i < d.len() implies d[i] == e[i] by { if i >= 2 { assert(x[i - 2] == y[i - 2]); } }
    }
}
pub proof fn lemma_itf_shape(d: Seq<u8>) ensures bits(itf_symbol(d)), itf_symbol(d).len() >= 8, itf_symbol(d)[0] == 1, itf_symbol(d).last() == 1 {
    let a = seq![1u8,0,1,0]; let r = itf_row(d, d.len() as int / 2); let z = seq![1u8,1,0,1];
    lemma_itf_row(d, d.len() as int / 2); assert(bits(a)); assert(bits(z)); lemma_bits_cat(a, r); lemma_bits_cat(a + r, z);
}
pub proof fn lemma_itf_unique(d: Seq<u8>, e: Seq<u8>) requires digits(d), digits(e), d.len() % 2 == 0, e.len() % 2 == 0, itf_symbol(d) == itf_symbol(e) ensures d =~= e {
    let a = seq![1u8,0,1,0]; let z = seq![1u8,1,0,1]; let r = itf_row(d, d.len() as int / 2); let q = itf_row(e, e.len() as int / 2);
    lemma_cat_eq(a + r, z, a + q, z); lemma_cat_eq(a, r, a, q); lemma_itf_row_inj(d, e);
}
// ---- Standard 2-of-5
pub open spec fn stf_code() -> spec_fn(int) -> Seq<u8> { |v: int| stf_part(v as u8, 5) }
pub open spec fn stf_at(b: Seq<u8>, p: int) -> int { if b[p + 1] == 1 { p + 4 } else { p + 2 } }
/// reads one digit back, bar by bar
pub open spec fn stf_wides(b: Seq<u8>) -> Seq<bool> {
    let p1 = stf_at(b, 0); let p2 = stf_at(b, p1); let p3 = stf_at(b, p2); let p4 = stf_at(b, p3);
    seq![b[1] == 1, b[p1 + 1] == 1, b[p2 + 1] == 1, b[p3 + 1] == 1, b[p4 + 1] == 1]
}
pub open spec fn stf_digit(w: Seq<bool>) -> int {
    if w == tf_w(0) { 0 } else if w == tf_w(1) { 1 } else if w == tf_w(2) { 2 } else if w == tf_w(3) { 3 } else if w == tf_w(4) { 4 } else if w == tf_w(5) { 5 } else if w == tf_w(6) { 6 } else if w == tf_w(7) { 7 } else if w == tf_w(8) { 8 } else { 9 }
}
pub open spec fn stf_head(b: Seq<u8>) -> int { stf_digit(stf_wides(b)) }
pub open spec fn stf_heads() -> spec_fn(Seq<u8>) -> int { |b: Seq<u8>| stf_head(b) }
pub open spec fn w1(b: bool) -> Seq<u8> { tf_el(b, 1) + seq![0u8] }
pub proof fn lemma_w1(b: bool) ensures bits(w1(b)), w1(b).len() >= 2, w1(b)[0] == 1 {}
pub proof fn lemma_stf_part(d: u8) ensures stf_part(d, 5) == w1(tf_w(d)[0]) + (w1(tf_w(d)[1]) + (w1(tf_w(d)[2]) + (w1(tf_w(d)[3]) + w1(tf_w(d)[4])))), bits(stf_part(d, 5)), stf_part(d, 5).len() >= 10, stf_part(d, 5)[0] == 1 {
    hide(tf_w); hide(tf_el); reveal_with_fuel(stf_part, 6);
    let x = tf_w(d);
    lemma_assoc5(w1(x[0]), w1(x[1]), w1(x[2]), w1(x[3]), w1(x[4]), Seq::<u8>::empty());
    lemma_w1(x[0]); lemma_w1(x[1]); lemma_w1(x[2]); lemma_w1(x[3]); lemma_w1(x[4]);
    lemma_bits5(w1(x[0]), w1(x[1]), w1(x[2]), w1(x[3]), w1(x[4]));
}
pub proof fn lemma_stf_at(p: Seq<u8>, w: bool, r: Seq<u8>) ensures (p + (w1(w) + r))[p.len() as int + 1] == (if w { 1u8 } else { 0u8 }), stf_at(p + (w1(w) + r), p.len() as int) == p.len() + w1(w).len(), p + (w1(w) + r) =~= (p + w1(w)) + r {}
pub proof fn lemma_stf_digit(d: u8, w: Seq<bool>) requires d < 10, w == tf_w(d) ensures stf_digit(w) == d {
    assert forall|a: u8| a < 10 && a != d implies tf_w(a) != w by { if tf_w(a) == w { lemma_tf_w(a, d); } }
}
pub proof fn lemma_stf_head(v: int, r: Seq<u8>) requires 0 <= v < 10 ensures stf_head(stf_part(v as u8, 5) + r) == v {
    hide(tf_w); hide(w1); hide(stf_part); hide(stf_at); hide(stf_digit);
    let d = v as u8; let x = tf_w(d); let b = stf_part(d, 5) + r;
    lemma_stf_part(d);
    let e = Seq::<u8>::empty();
    lemma_assoc5(w1(x[0]), w1(x[1]), w1(x[2]), w1(x[3]), w1(x[4]), r);
    let r4 = w1(x[4]) + r; let r3 = w1(x[3]) + r4; let r2 = w1(x[2]) + r3; let r1 = w1(x[1]) + r2;
    assert(b == w1(x[0]) + r1);
    assert(e + b =~= b);
    lemma_stf_at(e, x[0], r1); let p1 = e + w1(x[0]);
    lemma_stf_at(p1, x[1], r2); let p2 = p1 + w1(x[1]);
    lemma_stf_at(p2, x[2], r3); let p3 = p2 + w1(x[2]);
    lemma_stf_at(p3, x[3], r4); let p4 = p3 + w1(x[3]);
    lemma_stf_at(p4, x[4], r);
    let w = stf_wides(b);
    lemma_tf_len(d);
    assert(w =~= x);
    lemma_stf_digit(d, w);
}
pub proof fn lemma_tf_len(d: u8) ensures tf_w(d).len() == 5 {}
pub open spec fn ints(d: Seq<u8>) -> Seq<int> { Seq::new(d.len(), |k: int| d[k] as int) }
pub proof fn lemma_stf_readable() ensures readable(stf_code(), stf_heads(), 10), forall|v: int| 0 <= v < 10 ==> bits(#[trigger] stf_code()(v)) {
    assert forall|v: int, r: Seq<u8>| 0 <= v < 10 && barfirst(r) implies stf_heads()(#[trigger] (stf_code()(v) + r)) == v by { lemma_stf_head(v, r); }
    assert forall|v: int| 0 <= v < 10 implies (#[trigger] stf_code()(v)).len() > 0 && stf_code()(v)[0] == 1 && bits(stf_code()(v)) by { lemma_stf_part(v as u8); }
}
pub proof fn lemma_stf_grow(d: Seq<u8>, k: int) requires digits(d), 0 <= k <= d.len() ensures stf_row(d, k) =~= grow(stf_code(), ints(d).take(k)), below(ints(d).take(k), 10) decreases k {
    assert forall|i: int| 0 <= i < k implies 0 <= #[trigger] ints(d).take(k)[i] < 10 by { assert(d[i] < 10); }
    if k > 0 {
        lemma_stf_grow(d, k - 1);
        assert(ints(d).take(k).drop_last() =~= ints(d).take(k - 1));
        assert(ints(d).take(k).last() == d[k - 1] as int);
        assert(stf_code()(d[k - 1] as int) == stf_part(d[k - 1], 5));
    }
}
pub proof fn lemma_stf_shape(d: Seq<u8>) requires digits(d) ensures bits(stf_symbol(d)), stf_symbol(d).len() >= 16, stf_symbol(d)[0] == 1, stf_symbol(d)[stf_symbol(d).len() - 2] == 1, stf_symbol(d).last() == 0 {
    let a = seq![1u8,1,0,1,1,0,1,0]; let z = seq![1u8,1,0,1,0,1,1,0]; let n = d.len() as int; let r = stf_row(d, n);
    lemma_stf_grow(d, n); lemma_stf_readable(); lemma_grow_bits(stf_code(), ints(d).take(n), 10);
    assert(bits(a)); assert(bits(z)); lemma_bits_cat(a, r); lemma_bits_cat(a + r, z);
}
pub proof fn lemma_stf_unique(d: Seq<u8>, e: Seq<u8>) requires digits(d), digits(e), stf_symbol(d) == stf_symbol(e) ensures d =~= e {
    let a = seq![1u8,1,0,1,1,0,1,0]; let z = seq![1u8,1,0,1,0,1,1,0]; let n = d.len() as int; let m = e.len() as int; let r = stf_row(d, n); let q = stf_row(e, m);
    lemma_cat_eq(a + r, z, a + q, z); lemma_cat_eq(a, r, a, q);
    lemma_stf_grow(d, n); lemma_stf_grow(e, m); lemma_stf_readable();
    lemma_grow_inj(stf_code(), stf_heads(), 10, ints(d).take(n), ints(e).take(m));
    assert(ints(d).take(n).len() == n && ints(e).take(m).len() == m);
    assert forall|k: int| 0 <= k < n implies d[k] == e[k] by { assert(ints(d).take(n)[k] == ints(e).take(m)[k]); }
}
pub proof fn lemma_digs_all(a: Seq<char>, b: Seq<char>) requires alldig(a), alldig(b), digs(a) == digs(b) ensures a =~= b {
    assert(a.len() == digs(a).len() && b.len() == digs(b).len());
    assert forall|k: int| 0 <= k < a.len() implies a[k] == b[k] by { assert(digs(a)[k] == digs(b)[k]); assert(isdig(a[k])); assert(isdig(b[k])); assert(dv(a[k]) == digs(a)[k]); assert(dv(b[k]) == digs(b)[k]); assert(a[k] as u32 == b[k] as u32); }
}
=== thm C15 itf
fn thm_C15_itf(data: &str)
{
    match tf_TF_interleaved(data) {
        Ok(b) => { let r = tf_TF_encode(&b); proof { lemma_itf_shape(tf_data(b)); } assert(r@.len() > 0 && bits(r@) && r@[0] == 1 && r@.last() == 1); }
        Err(_) => {}
    }
}
=== thm C15 stf
fn thm_C15_stf(data: &str)
{
    match tf_TF_standard(data) {
        Ok(b) => { let r = tf_TF_encode(&b); proof { lemma_stf_shape(tf_data(b)); } assert(r@.len() > 1 && bits(r@) && r@[0] == 1 && r@[r@.len() - 2] == 1 && r@.last() == 0); }
        Err(_) => {}
    }
}
=== thm C16 itf
fn thm_C16_itf(d1: &str, d2: &str)
{
    match (tf_TF_interleaved(d1), tf_TF_interleaved(d2)) {
        (Ok(b1), Ok(b2)) => {
            let r1 = tf_TF_encode(&b1); let r2 = tf_TF_encode(&b2);
            proof { if r1@ == r2@ { lemma_itf_unique(tf_data(b1), tf_data(b2)); } }
            // the same digits once odd data is completed
            assert(r1@ == r2@ ==> itf_full(digs(d1@)) == itf_full(digs(d2@)));
            proof { if r1@ == r2@ && d1@.len() == d2@.len() { let x = itf_full(digs(d1@)); let y = itf_full(digs(d2@)); assert(x.take(d1@.len() as int) =~= digs(d1@)); assert(y.take(d1@.len() as int) =~= digs(d2@)); lemma_digs_all(d1@, d2@); } }
            assert(r1@ == r2@ && d1@.len() == d2@.len() ==> d1@ == d2@);
        }
        _ => {}
    }
}
=== thm C16 stf
fn thm_C16_stf(d1: &str, d2: &str)
{
    match (tf_TF_standard(d1), tf_TF_standard(d2)) {
        (Ok(b1), Ok(b2)) => {
            let r1 = tf_TF_encode(&b1); let r2 = tf_TF_encode(&b2);
            proof { if r1@ == r2@ { lemma_stf_unique(tf_data(b1), tf_data(b2)); lemma_digs_all(d1@, d2@); } }
            assert(r1@ == r2@ ==> d1@ == d2@);
        }
        _ => {}
    }
}
