=== use code128 inj_c128
=== spec
pub proof fn lemma_c128_grow(v: Seq<int>, k: int) requires 0 <= k <= v.len(), below(v, 106) ensures c128_row(v, k) =~= grow(c128_words(), v.take(k)), below(v.take(k), 106), c128_row(v, k).len() == 11 * k decreases k {
    assert forall|i: int| 0 <= i < k implies 0 <= #[trigger] v.take(k)[i] < 106 by { assert(0 <= v[i] < 106); }
    if k > 0 {
        lemma_c128_grow(v, k - 1);
        assert(v.take(k).drop_last() =~= v.take(k - 1)); assert(v.take(k).last() == v[k - 1]);
        assert(0 <= v[k - 1] < 106); c128_read(v[k - 1], Seq::<u8>::empty());
        assert(c128_words()(v[k - 1]) == c128_pat(v[k - 1]));
    }
}
pub proof fn lemma_c128_bits(v: Seq<int>) requires below(v, 106) ensures bits(c128_row(v, v.len() as int)), v.len() > 0 ==> c128_row(v, v.len() as int).len() > 0 && c128_row(v, v.len() as int)[0] == 1 {
    let n = v.len() as int;
    lemma_c128_grow(v, n); c128_readable(); lemma_grow_bits(c128_words(), v.take(n), 106); lemma_grow_bar(c128_words(), v.take(n), 106);
}
pub open spec fn c128_stop() -> Seq<u8> { seq![1u8,1,0,0,0,1,1,1,0,1,0] }
pub proof fn lemma_c128_shape(v: Seq<int>) requires below(v, 106), v.len() > 0 ensures bits(c128_symbol(v)), c128_symbol(v).len() == 11 * v.len() + 24, c128_symbol(v)[0] == 1, c128_symbol(v).last() == 1 {
    let n = v.len() as int; let r = c128_row(v, n); let c = c128_sum(v, n) % 103; let p = c128_pat(c);
    lemma_c128_bits(v); lemma_c128_grow(v, n); c128_read(c, Seq::<u8>::empty()); assert(bits(p)); assert(bits(c128_stop())); assert(bits(seq![1u8,1]));
    lemma_bits_cat(r, p); lemma_bits_cat(r + p, c128_stop()); lemma_bits_cat(r + p + c128_stop(), seq![1u8,1]);
    assert(c128_symbol(v) == r + p + c128_stop() + seq![1u8,1]);
}
pub proof fn lemma_c128_unique(v: Seq<int>, w: Seq<int>) requires below(v, 106), below(w, 106), v.len() > 0, w.len() > 0, c128_symbol(v) == c128_symbol(w) ensures v =~= w {
    lemma_c128_shape(v); lemma_c128_shape(w);
    let n = v.len() as int; let c = c128_pat(c128_sum(v, n) % 103); let m = w.len() as int; let d = c128_pat(c128_sum(w, m) % 103); let r = c128_row(v, n); let q = c128_row(w, m);
    assert(n == m);
    lemma_cat_eq(r + c + c128_stop(), seq![1u8,1], q + d + c128_stop(), seq![1u8,1]); lemma_cat_eq(r + c, c128_stop(), q + d, c128_stop());
    lemma_c128_grow(v, n); lemma_c128_grow(w, m); lemma_cat_eq(r, c, q, d); c128_readable();
    lemma_grow_inj(c128_words(), c128_heads(), 106, v.take(n), w.take(m));
    assert(v.take(n) =~= v); assert(w.take(m) =~= w);
}
pub open spec fn c128_next(set: int, c: char) -> int { if c128_switch(c) >= 0 { c128_switch(c) } else { set } }
/// the symbol values, the set being known, determine the text
pub proof fn lemma_c128_items(s: Seq<char>, t: Seq<char>, set: int) requires 0 <= set <= 2, c128_items(s, set) is Some, c128_items(s, set) == c128_items(t, set) ensures s =~= t decreases s.len() {
    if s.len() > 0 && t.len() > 0 {
        let a = c128_items(s, set)->Some_0; let b = c128_items(t, set)->Some_0;
        if set == 2 && isdig(s[0]) {
            let x = c128_items(s.skip(2), 2)->Some_0;
            assert(a == seq![10 * dv(s[0]) + dv(s[1])] + x);
            assert(a[0] == 10 * dv(s[0]) + dv(s[1]));
            if set == 2 && isdig(t[0]) {
                let y = c128_items(t.skip(2), 2)->Some_0;
                assert(b == seq![10 * dv(t[0]) + dv(t[1])] + y);
                assert(b[0] == 10 * dv(t[0]) + dv(t[1]));
                assert(a.skip(1) =~= x); assert(b.skip(1) =~= y);
                lemma_c128_items(s.skip(2), t.skip(2), 2);
                assert(dv(s[0]) == dv(t[0]) && dv(s[1]) == dv(t[1])); assert(s[0] as u32 == t[0] as u32); assert(s[1] as u32 == t[1] as u32);
                assert forall|k: int| 0 <= k < s.len() implies s[k] == t[k] by { if k >= 2 { assert(s.skip(2)[k - 2] == t.skip(2)[k - 2]); } }
                assert(s.len() == s.skip(2).len() + 2 && t.len() == t.skip(2).len() + 2);
            } else {
                let y = c128_items(t.skip(1), c128_next(set, t[0]))->Some_0;
                assert(b == seq![c128_val(set, t[0])] + y); assert(b[0] == c128_val(set, t[0])); assert(b[0] >= 100); assert(a[0] <= 99);
            }
        } else {
            let x = c128_items(s.skip(1), c128_next(set, s[0]))->Some_0;
            assert(a == seq![c128_val(set, s[0])] + x); assert(a[0] == c128_val(set, s[0]));
            if set == 2 && isdig(t[0]) {
                let y = c128_items(t.skip(2), 2)->Some_0;
                assert(b == seq![10 * dv(t[0]) + dv(t[1])] + y); assert(b[0] == 10 * dv(t[0]) + dv(t[1])); assert(a[0] >= 100); assert(b[0] <= 99);
            } else {
                let y = c128_items(t.skip(1), c128_next(set, t[0]))->Some_0;
                assert(b == seq![c128_val(set, t[0])] + y); assert(b[0] == c128_val(set, t[0]));
                lemma_c128_char(set, s[0], t[0]);
                assert(a.skip(1) =~= x); assert(b.skip(1) =~= y);
                lemma_c128_items(s.skip(1), t.skip(1), c128_next(set, s[0]));
                assert forall|k: int| 0 <= k < s.len() implies s[k] == t[k] by { if k >= 1 { assert(s.skip(1)[k - 1] == t.skip(1)[k - 1]); } }
                assert(s.len() == s.skip(1).len() + 1 && t.len() == t.skip(1).len() + 1);
            }
        }
    } else if s.len() > 0 { lemma_c128_nonempty(s, set); } else if t.len() > 0 { lemma_c128_nonempty(t, set); }
}
pub proof fn lemma_c128_nonempty(s: Seq<char>, set: int) requires s.len() > 0, c128_items(s, set) is Some ensures c128_items(s, set)->Some_0.len() > 0 {}
pub proof fn lemma_c128_char(set: int, c: char, d: char) requires 0 <= set <= 2, c128_val(set, c) >= 0, c128_val(set, c) == c128_val(set, d) ensures c == d {
    assert(c as u32 == d as u32);
}
pub proof fn lemma_c128_full(s: Seq<char>, t: Seq<char>) requires c128_full(s) is Some, c128_full(s) == c128_full(t) ensures s =~= t {
    let x = c128_items(s.skip(1), c128_switch(s[0])); let y = c128_items(t.skip(1), c128_switch(t[0]));
    let a = c128_full(s)->Some_0; let b = c128_full(t)->Some_0;
    assert(a == seq![103 + c128_switch(s[0])] + x->Some_0); assert(b == seq![103 + c128_switch(t[0])] + y->Some_0);
    assert(a[0] == 103 + c128_switch(s[0])); assert(b[0] == 103 + c128_switch(t[0]));
    assert(a.skip(1) =~= x->Some_0); assert(b.skip(1) =~= y->Some_0);
    lemma_c128_items(s.skip(1), t.skip(1), c128_switch(s[0]));
    assert forall|k: int| 0 <= k < s.len() implies s[k] == t[k] by { if k >= 1 { assert(s.skip(1)[k - 1] == t.skip(1)[k - 1]); } }
    assert(s.len() == s.skip(1).len() + 1 && t.len() == t.skip(1).len() + 1);
}
pub proof fn lemma_c128_below(b: code128_Code128) requires c128_inv(b) ensures below(c128_vals(b.0@), 106), c128_vals(b.0@).len() > 0 {
    assert forall|k: int| 0 <= k < b.0@.len() implies 0 <= #[trigger] c128_vals(b.0@)[k] < 106 by { assert(b.0@[k].index <= 105); }
}
=== thm C15 code128
fn thm_C15_code128(data: &str)
{
    match code128_Code128_new(data) {
        Ok(b) => { let r = code128_Code128_encode(&b); proof { lemma_c128_below(b); lemma_c128_shape(c128_vals(b.0@)); } assert(r@.len() > 0 && bits(r@) && r@[0] == 1 && r@.last() == 1); }
        Err(_) => {}
    }
}
=== thm C16 code128
fn thm_C16_code128(d1: &str, d2: &str)
{
    match (code128_Code128_new(d1), code128_Code128_new(d2)) {
        (Ok(b1), Ok(b2)) => {
            let r1 = code128_Code128_encode(&b1); let r2 = code128_Code128_encode(&b2);
            proof { if r1@ == r2@ { lemma_c128_below(b1); lemma_c128_below(b2); lemma_c128_unique(c128_vals(b1.0@), c128_vals(b2.0@)); lemma_c128_full(d1@, d2@); } }
            assert(r1@ == r2@ ==> d1@ == d2@);
        }
        _ => {}
    }
}
