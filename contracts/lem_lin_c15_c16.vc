=== use code39 code93 code11 codabar inj_c39 inj_c93 inj_c11 inj_cbar
=== spec
// ---- Code 39
pub open spec fn c39_vs(s: Seq<char>) -> Seq<int> { Seq::new(s.len(), |k: int| c39_val(s[k])) }
pub proof fn lemma_c39_grow(s: Seq<char>) requires c39_all(s) ensures c39_row(s) == grow(c39_words(), c39_vs(s)), below(c39_vs(s), 43) decreases s.len() {
    assert forall|k: int| 0 <= k < s.len() implies 0 <= #[trigger] c39_vs(s)[k] < 43 by { c39_inj(s[k]); }
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|k: int| 0 <= k < t.len() implies c39_ok(#[trigger] t[k]) by { assert(c39_ok(s[k])); }
        lemma_c39_grow(t);
        assert(c39_vs(s).drop_last() =~= c39_vs(t));
        assert(c39_vs(s).last() == c39_val(s.last()));
        assert(c39_words()(c39_val(s.last())) == c39_pat(c39_val(s.last())) + seq![0u8]);
        assert(c39_row(s) =~= grow(c39_words(), c39_vs(t)) + c39_words()(c39_val(s.last())));
    }
}
pub proof fn lemma_c39_text(s: Seq<char>, check: bool) requires c39_all(s) ensures c39_all(c39_text(s, check)) {
    if check { lemma_c39_sum(s); c39_tab(c39_sum(s) % 43); }
}
pub proof fn lemma_c39_shape(s: Seq<char>, check: bool) requires c39_all(s), s.len() >= 1
    ensures bits(c39_symbol(s, check)), c39_symbol(s, check).len() >= 24, c39_symbol(s, check)[0] == 1, c39_symbol(s, check).last() == 1
{
    let t = c39_text(s, check);
    lemma_c39_text(s, check); lemma_c39_grow(t); c39_readable();
    lemma_grow_bits(c39_words(), c39_vs(t), 43);
    assert(bits(c39_guard())); assert(bits(seq![0u8]));
    lemma_bits_cat(seq![0u8], c39_row(t));
    lemma_bits_cat(c39_guard(), seq![0u8] + c39_row(t));
    lemma_bits_cat(c39_guard() + (seq![0u8] + c39_row(t)), c39_guard());
}
pub proof fn lemma_c39_unique(s: Seq<char>, u: Seq<char>, check: bool) requires c39_all(s), c39_all(u), c39_symbol(s, check) == c39_symbol(u, check) ensures s =~= u {
    let t = c39_text(s, check); let v = c39_text(u, check); let g = c39_guard();
    lemma_cat_eq(g + (seq![0u8] + c39_row(t)), g, g + (seq![0u8] + c39_row(v)), g);
    lemma_cat_eq(g, seq![0u8] + c39_row(t), g, seq![0u8] + c39_row(v));
    lemma_cat_eq(seq![0u8], c39_row(t), seq![0u8], c39_row(v));
    lemma_c39_text(s, check); lemma_c39_text(u, check); lemma_c39_grow(t); lemma_c39_grow(v); c39_readable();
    lemma_grow_inj(c39_words(), c39_heads(), 43, c39_vs(t), c39_vs(v));
    assert(c39_vs(t).len() == t.len()); assert(c39_vs(v).len() == v.len());
    assert forall|k: int| 0 <= k < t.len() implies t[k] == v[k] by { assert(c39_vs(t)[k] == c39_vs(v)[k]); assert(c39_ok(t[k])); assert(c39_ok(v[k])); c39_inj(t[k]); c39_inj(v[k]); }
    assert forall|k: int| 0 <= k < s.len() implies s[k] == u[k] by { assert(s[k] == t[k]); assert(u[k] == v[k]); }
}
// ---- Code 93
pub proof fn lemma_c93_grow(s: Seq<char>) requires c93_all(s) ensures c93_row(s) == grow(c93_words(), c93_vals(s)), below(c93_vals(s), 47) decreases s.len() {
    assert forall|k: int| 0 <= k < s.len() implies 0 <= #[trigger] c93_vals(s)[k] < 47 by { c93_inj(s[k]); }
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|k: int| 0 <= k < t.len() implies c93_ok(#[trigger] t[k]) by { assert(c93_ok(s[k])); }
        lemma_c93_grow(t);
        assert(c93_vals(s).drop_last() =~= c93_vals(t));
        assert(c93_vals(s).last() == c93_val(s.last()));
        assert(c93_words()(c93_val(s.last())) == c93_pat(c93_val(s.last())));
    }
}
pub proof fn lemma_c93_text(s: Seq<char>) requires c93_all(s) ensures c93_all(c93_text(s)) { lemma_c93_push(s); }
pub proof fn lemma_c93_shape(s: Seq<char>) requires c93_all(s)
    ensures bits(c93_symbol(s)), c93_symbol(s).len() >= 19, c93_symbol(s)[0] == 1, c93_symbol(s).last() == 1
{
    let t = c93_text(s);
    lemma_c93_text(s); lemma_c93_grow(t); c93_readable();
    lemma_grow_bits(c93_words(), c93_vals(t), 47);
    assert(bits(c93_guard())); assert(bits(seq![1u8]));
    lemma_bits_cat(c93_guard(), c93_row(t));
    lemma_bits_cat(c93_guard() + c93_row(t), c93_guard());
    lemma_bits_cat(c93_guard() + c93_row(t) + c93_guard(), seq![1u8]);
}
pub proof fn lemma_c93_unique(s: Seq<char>, u: Seq<char>) requires c93_all(s), c93_all(u), c93_symbol(s) == c93_symbol(u) ensures s =~= u {
    let t = c93_text(s); let v = c93_text(u); let g = c93_guard();
    lemma_cat_eq(g + c93_row(t) + g, seq![1u8], g + c93_row(v) + g, seq![1u8]);
    lemma_cat_eq(g + c93_row(t), g, g + c93_row(v), g);
    lemma_cat_eq(g, c93_row(t), g, c93_row(v));
    lemma_c93_text(s); lemma_c93_text(u); lemma_c93_grow(t); lemma_c93_grow(v); c93_readable();
    lemma_grow_inj(c93_words(), c93_heads(), 47, c93_vals(t), c93_vals(v));
    assert(c93_vals(t).len() == t.len()); assert(c93_vals(v).len() == v.len());
    assert forall|k: int| 0 <= k < t.len() implies t[k] == v[k] by { assert(c93_vals(t)[k] == c93_vals(v)[k]); assert(c93_ok(t[k])); assert(c93_ok(v[k])); c93_inj(t[k]); c93_inj(v[k]); }
    assert forall|k: int| 0 <= k < s.len() implies s[k] == u[k] by { assert(s[k] == t[k]); assert(u[k] == v[k]); }
}
// ---- Code 11
pub proof fn lemma_c11_grow(s: Seq<char>) requires c11_all(s) ensures c11_row(s) == grow(c11_words(), c11_vals(s)), below(c11_vals(s), 11) decreases s.len() {
    assert forall|k: int| 0 <= k < s.len() implies 0 <= #[trigger] c11_vals(s)[k] < 11 by { c11_inj(s[k]); }
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|k: int| 0 <= k < t.len() implies c11_ok(#[trigger] t[k]) by { assert(c11_ok(s[k])); }
        lemma_c11_grow(t);
        assert(c11_vals(s).drop_last() =~= c11_vals(t));
        assert(c11_vals(s).last() == c11_val(s.last()));
        assert(c11_words()(c11_val(s.last())) == c11_pat(c11_val(s.last())) + seq![0u8]);
        assert(c11_row(s) =~= grow(c11_words(), c11_vals(t)) + c11_words()(c11_val(s.last())));
    }
}
pub proof fn lemma_c11_text(s: Seq<char>) requires c11_all(s) ensures c11_all(c11_text(s)) { lemma_c11_push(s); }
pub proof fn lemma_c11_shape(s: Seq<char>) requires c11_all(s)
    ensures bits(c11_symbol(s)), c11_symbol(s).len() >= 15, c11_symbol(s)[0] == 1, c11_symbol(s).last() == 1
{
    let t = c11_text(s);
    lemma_c11_text(s); lemma_c11_grow(t); c11_readable();
    lemma_grow_bits(c11_words(), c11_vals(t), 11);
    assert(bits(c11_guard())); assert(bits(seq![0u8]));
    lemma_bits_cat(c11_guard(), seq![0u8]);
    lemma_bits_cat(c11_guard() + seq![0u8], c11_row(t));
    lemma_bits_cat(c11_guard() + seq![0u8] + c11_row(t), c11_guard());
}
pub proof fn lemma_c11_unique(s: Seq<char>, u: Seq<char>) requires c11_all(s), c11_all(u), c11_symbol(s) == c11_symbol(u) ensures s =~= u {
    let t = c11_text(s); let v = c11_text(u); let g = c11_guard();
    lemma_cat_eq(g + seq![0u8] + c11_row(t), g, g + seq![0u8] + c11_row(v), g);
    lemma_cat_eq(g + seq![0u8], c11_row(t), g + seq![0u8], c11_row(v));
    lemma_c11_text(s); lemma_c11_text(u); lemma_c11_grow(t); lemma_c11_grow(v); c11_readable();
    lemma_grow_inj(c11_words(), c11_heads(), 11, c11_vals(t), c11_vals(v));
    assert(c11_vals(t).len() == t.len()); assert(c11_vals(v).len() == v.len());
    assert(s.len() == u.len());
    assert forall|k: int| 0 <= k < t.len() implies t[k] == v[k] by { assert(c11_vals(t)[k] == c11_vals(v)[k]); assert(c11_ok(t[k])); assert(c11_ok(v[k])); c11_inj(t[k]); c11_inj(v[k]); }
    assert forall|k: int| 0 <= k < s.len() implies s[k] == u[k] by { assert(s[k] == t[k]); assert(u[k] == v[k]); }
}
// ---- Codabar
pub open spec fn cbar_vs(s: Seq<char>) -> Seq<int> { Seq::new(s.len(), |k: int| cbar_val(s[k])) }
pub proof fn lemma_cbar_grow(s: Seq<char>) requires cbar_all(s) ensures cbar_row(s) == grow(cbar_words(), cbar_vs(s)), below(cbar_vs(s), 20) decreases s.len() {
    assert forall|k: int| 0 <= k < s.len() implies 0 <= #[trigger] cbar_vs(s)[k] < 20 by { cbar_inj(s[k]); }
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|k: int| 0 <= k < t.len() implies cbar_ok(#[trigger] t[k]) by { assert(cbar_ok(s[k])); }
        lemma_cbar_grow(t);
        assert(cbar_vs(s).drop_last() =~= cbar_vs(t));
        assert(cbar_vs(s).last() == cbar_val(s.last()));
        assert(cbar_words()(cbar_val(s.last())) == cbar_pat(cbar_val(s.last())) + seq![0u8]);
        assert(cbar_row(s) =~= grow(cbar_words(), cbar_vs(t)) + cbar_words()(cbar_val(s.last())));
    }
}
/// the symbol is the row without its last space
pub proof fn lemma_cbar_shape(s: Seq<char>) requires cbar_all(s), s.len() >= 1
    ensures bits(cbar_symbol(s)), cbar_symbol(s).len() >= 1, cbar_symbol(s)[0] == 1, cbar_symbol(s).last() == 1, cbar_row(s) == cbar_symbol(s) + seq![0u8]
{
    lemma_cbar_grow(s); cbar_readable();
    lemma_grow_bits(cbar_words(), cbar_vs(s), 20); lemma_grow_bar(cbar_words(), cbar_vs(s), 20);
    assert(cbar_row(s) =~= cbar_symbol(s) + seq![0u8]);
    let v = cbar_val(s.last()); assert(cbar_ok(s[s.len() - 1])); cbar_inj(s.last());
    assert(cbar_pat(v).len() >= 1 && cbar_pat(v).last() == 1);
    assert(cbar_symbol(s).last() == 1);
    assert forall|k: int| 0 <= k < cbar_symbol(s).len() implies #[trigger] cbar_symbol(s)[k] <= 1 by { assert(cbar_row(s)[k] <= 1); }
    assert(cbar_symbol(s)[0] == cbar_row(s)[0]);
}
pub proof fn lemma_cbar_unique(s: Seq<char>, u: Seq<char>) requires cbar_all(s), cbar_all(u), s.len() >= 1, u.len() >= 1, cbar_symbol(s) == cbar_symbol(u) ensures s =~= u {
    lemma_cbar_shape(s); lemma_cbar_shape(u); lemma_cbar_grow(s); lemma_cbar_grow(u); cbar_readable();
    lemma_grow_inj(cbar_words(), cbar_heads(), 20, cbar_vs(s), cbar_vs(u));
    assert(cbar_vs(s).len() == s.len()); assert(cbar_vs(u).len() == u.len());
    assert forall|k: int| 0 <= k < s.len() implies s[k] == u[k] by { assert(cbar_vs(s)[k] == cbar_vs(u)[k]); assert(cbar_ok(s[k])); assert(cbar_ok(u[k])); cbar_inj(s[k]); cbar_inj(u[k]); }
}
=== thm C15 code39
fn thm_C15_code39(data: &str, check: bool)
{
    let m = if check { code39_Code39_with_checksum(data) } else { code39_Code39_new(data) };
    match m {
        Ok(b) => { let r = code39_Code39_encode(&b); proof { lemma_c39_shape(data@, check); } assert(r@.len() > 0 && bits(r@) && r@[0] == 1 && r@.last() == 1); }
        Err(_) => {}
    }
}
=== thm C16 code39
fn thm_C16_code39(d1: &str, d2: &str, check: bool)
{
    let m1 = if check { code39_Code39_with_checksum(d1) } else { code39_Code39_new(d1) };
    let m2 = if check { code39_Code39_with_checksum(d2) } else { code39_Code39_new(d2) };
    match (m1, m2) {
        (Ok(b1), Ok(b2)) => {
            let r1 = code39_Code39_encode(&b1); let r2 = code39_Code39_encode(&b2);
            proof { if r1@ == r2@ { lemma_c39_unique(d1@, d2@, check); } }
            assert(r1@ == r2@ ==> d1@ == d2@);
        }
        _ => {}
    }
}
=== thm C15 code93
fn thm_C15_code93(data: &str)
{
    match code93_Code93_new(data) {
        Ok(b) => { let r = code93_Code93_encode(&b); proof { lemma_c93_shape(data@); } assert(r@.len() > 0 && bits(r@) && r@[0] == 1 && r@.last() == 1); }
        Err(_) => {}
    }
}
=== thm C16 code93
fn thm_C16_code93(d1: &str, d2: &str)
{
    match (code93_Code93_new(d1), code93_Code93_new(d2)) {
        (Ok(b1), Ok(b2)) => {
            let r1 = code93_Code93_encode(&b1); let r2 = code93_Code93_encode(&b2);
            proof { if r1@ == r2@ { lemma_c93_unique(d1@, d2@); } }
            assert(r1@ == r2@ ==> d1@ == d2@);
        }
        _ => {}
    }
}
=== thm C15 code11
fn thm_C15_code11(data: &str)
{
    match code11_Code11_new(data) {
        Ok(b) => { let r = code11_Code11_encode(&b); proof { lemma_c11_shape(data@); } assert(r@.len() > 0 && bits(r@) && r@[0] == 1 && r@.last() == 1); }
        Err(_) => {}
    }
}
=== thm C16 code11
fn thm_C16_code11(d1: &str, d2: &str)
{
    match (code11_Code11_new(d1), code11_Code11_new(d2)) {
        (Ok(b1), Ok(b2)) => {
            let r1 = code11_Code11_encode(&b1); let r2 = code11_Code11_encode(&b2);
            proof { if r1@ == r2@ { lemma_c11_unique(d1@, d2@); } }
            assert(r1@ == r2@ ==> d1@ == d2@);
        }
        _ => {}
    }
}
=== thm C15 codabar
fn thm_C15_codabar(data: &str)
{
    match codabar_Codabar_new(data) {
        Ok(b) => { let r = codabar_Codabar_encode(&b); proof { lemma_cbar_shape(data@); } assert(r@.len() > 0 && bits(r@) && r@[0] == 1 && r@.last() == 1); }
        Err(_) => {}
    }
}
=== thm C16 codabar
fn thm_C16_codabar(d1: &str, d2: &str)
{
    match (codabar_Codabar_new(d1), codabar_Codabar_new(d2)) {
        (Ok(b1), Ok(b2)) => {
            let r1 = codabar_Codabar_encode(&b1); let r2 = codabar_Codabar_encode(&b2);
            proof { if r1@ == r2@ { lemma_cbar_unique(d1@, d2@); } }
            assert(r1@ == r2@ ==> d1@ == d2@);
        }
        _ => {}
    }
}
