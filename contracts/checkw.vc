=== spec
/// weight of the m-th character counted from the right (m = 1, 2, ...), cycling through 1..=w
pub open spec fn rw(m: int, w: int) -> int { if m % w == 0 { w } else { m % w } }
/// weighted sum of the first i values of v (weights are counted from the right end of v)
pub open spec fn rw_sum(v: Seq<int>, w: int, i: int) -> int decreases i {
    if i <= 0 { 0 } else { rw_sum(v, w, i - 1) + rw(v.len() - (i - 1), w) * v[i - 1] }
}
/// weighted sum of the last j values of v
pub open spec fn rw_back(v: Seq<int>, w: int, j: int) -> int decreases j {
    if j <= 0 { 0 } else { rw_back(v, w, j - 1) + rw(j, w) * v[v.len() - j] }
}
pub proof fn lemma_rw(m: int, w: int) requires w >= 1, m >= 1 ensures 1 <= rw(m, w) <= w, rw(m, w) == (m - 1) % w + 1 {
    vstd::arithmetic::div_mod::lemma_mod_bound(m, w);
    vstd::arithmetic::div_mod::lemma_mod_bound(m - 1, w);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(m - 1, w);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(m, w);
    let q = (m - 1) / w; let r = (m - 1) % w;
    if r + 1 < w {
        assert(m == q * w + (r + 1)) by (nonlinear_arith) requires m - 1 == w * q + r;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(m, w, q, r + 1);
    } else {
        assert(m == (q + 1) * w + 0) by (nonlinear_arith) requires m - 1 == w * q + r, r + 1 == w;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(m, w, q + 1, 0);
    }
}
pub open spec fn rw_vals(v: Seq<int>, b: int) -> bool { forall|k: int| 0 <= k < v.len() ==> 0 <= #[trigger] v[k] <= b }
pub proof fn lemma_rw_mul(m: int, w: int, x: int, b: int) requires 1 <= w, m >= 1, 0 <= x <= b ensures 0 <= rw(m, w) * x <= w * b {
    lemma_rw(m, w);
    let a = rw(m, w);
    assert(0 <= a * x <= w * b) by (nonlinear_arith) requires 1 <= a <= w, 0 <= x <= b;
}
pub proof fn lemma_rw_sum(v: Seq<int>, w: int, i: int, b: int) requires w >= 1, 0 <= i <= v.len(), rw_vals(v, b) ensures 0 <= rw_sum(v, w, i) <= w * b * i decreases i {
    if i > 0 {
        lemma_rw_sum(v, w, i - 1, b); lemma_rw_mul(v.len() - (i - 1), w, v[i - 1], b);
        assert(w * b * i == w * b * (i - 1) + w * b) by (nonlinear_arith);
    } else { assert(w * b * i == 0) by (nonlinear_arith) requires i == 0; }
}
pub proof fn lemma_rw_back(v: Seq<int>, w: int, j: int, b: int) requires w >= 1, 0 <= j <= v.len(), rw_vals(v, b) ensures 0 <= rw_back(v, w, j) <= w * b * j decreases j {
    if j > 0 {
        lemma_rw_back(v, w, j - 1, b); lemma_rw_mul(j, w, v[v.len() - j], b);
        assert(w * b * j == w * b * (j - 1) + w * b) by (nonlinear_arith);
    } else { assert(w * b * j == 0) by (nonlinear_arith) requires j == 0; }
}
pub proof fn lemma_rw_both(v: Seq<int>, w: int, i: int) requires 0 <= i <= v.len() ensures rw_sum(v, w, i) + rw_back(v, w, v.len() - i) == rw_sum(v, w, v.len() as int) decreases v.len() - i {
    if i < v.len() { lemma_rw_both(v, w, i + 1); }
}
pub proof fn lemma_rw_step(v: Seq<int>, w: int, i: int, b: int) requires 1 <= w <= 20, 0 <= b <= 46, 0 <= i < v.len(), rw_vals(v, b)
    ensures rw_sum(v, w, i + 1) == rw_sum(v, w, i) + rw(v.len() - i, w) * v[i], 0 <= rw(v.len() - i, w) * v[i] <= 920, 0 <= rw_sum(v, w, i) <= 920 * i
{
    lemma_rw_sum(v, w, i, b); lemma_rw_mul(v.len() - i, w, v[i], b);
    assert(w * b <= 920) by (nonlinear_arith) requires 1 <= w <= 20, 0 <= b <= 46;
    assert(w * b * i <= 920 * i) by (nonlinear_arith) requires w * b <= 920, i >= 0;
}
pub proof fn lemma_rw_bstep(v: Seq<int>, w: int, j: int, b: int) requires 1 <= w <= 20, 0 <= b <= 46, 0 <= j < v.len(), rw_vals(v, b)
    ensures rw_back(v, w, j + 1) == rw_back(v, w, j) + rw(j + 1, w) * v[v.len() - 1 - j], 0 <= rw(j + 1, w) * v[v.len() - 1 - j] <= 920, 0 <= rw_back(v, w, j) <= 920 * j
{
    lemma_rw_back(v, w, j, b); lemma_rw_mul(j + 1, w, v[v.len() - 1 - j], b);
    assert(w * b <= 920) by (nonlinear_arith) requires 1 <= w <= 20, 0 <= b <= 46;
    assert(w * b * j <= 920 * j) by (nonlinear_arith) requires w * b <= 920, j >= 0;
}
pub proof fn lemma_rw_mod(v: Seq<int>, w: int, i: int, b: int, m: int) requires 1 <= w <= 20, 0 <= b <= 46, 0 <= i < v.len(), rw_vals(v, b), m == 11 || m == 47
    ensures rw_sum(v, w, i + 1) % m == (rw_sum(v, w, i) % m + rw(v.len() - i, w) * v[i]) % m, rw_back(v, w, i + 1) % m == (rw_back(v, w, i) % m + rw(i + 1, w) * v[v.len() - 1 - i]) % m
{
    lemma_rw_step(v, w, i, b); lemma_rw_bstep(v, w, i, b);
    let x = rw(v.len() - i, w) * v[i]; let y = rw(i + 1, w) * v[v.len() - 1 - i];
    if m == 11 {
        assert((rw_sum(v, w, i) % 11 + x) % 11 == (rw_sum(v, w, i) + x) % 11);
        assert((rw_back(v, w, i) % 11 + y) % 11 == (rw_back(v, w, i) + y) % 11);
    } else {
        assert((rw_sum(v, w, i) % 47 + x) % 47 == (rw_sum(v, w, i) + x) % 47);
        assert((rw_back(v, w, i) % 47 + y) % 47 == (rw_back(v, w, i) + y) % 47);
    }
}
/// a value times its weight, the weight written as a remainder plus one and multiplied out
pub proof fn lemma_rw_poly(x: int, m: int, w: int) requires 1 <= w <= 20, m >= 1, 0 <= x <= 46 ensures rw(m, w) * x == x * ((m - 1) % w) + x, 0 <= x * ((m - 1) % w) <= 874 {
    lemma_rw(m, w);
    vstd::arithmetic::div_mod::lemma_mod_bound(m - 1, w);
    let r = (m - 1) % w;
    assert((r + 1) * x == x * r + x && 0 <= x * r <= 874) by (nonlinear_arith) requires 0 <= r <= 19, 0 <= x <= 46;
}
/// the weight of the next character
pub proof fn lemma_rw_next(m: int, w: int) requires w >= 1, m >= 1 ensures rw(m + 1, w) == (if rw(m, w) == w { 1int } else { rw(m, w) + 1 }), rw(1, w) == 1 {
    lemma_rw(m, w); lemma_rw(m + 1, w);
    let q = (m - 1) / w; let r = (m - 1) % w;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(m - 1, w);
    if r + 1 < w {
        assert(m == q * w + (r + 1)) by (nonlinear_arith) requires m - 1 == w * q + r;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(m, w, q, r + 1);
    } else {
        assert(m == (q + 1) * w + 0) by (nonlinear_arith) requires m - 1 == w * q + r, r + 1 == w;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(m, w, q + 1, 0);
    }
    lemma_rw(1, w);
    vstd::arithmetic::div_mod::lemma_small_mod(0, w as nat);
}
/// the weight computed from the previous one by `% w + 1`, from 0 or from the weight before
pub proof fn lemma_rw_cyc(m: int, w: int) requires w >= 1, m >= 0 ensures (if m == 0 { 0int } else { rw(m, w) }) % w + 1 == rw(m + 1, w) {
    lemma_rw(m + 1, w);
    if m == 0 { vstd::arithmetic::div_mod::lemma_small_mod(0, w as nat); }
    else {
        lemma_rw(m, w);
        let r = m % w;
        vstd::arithmetic::div_mod::lemma_mod_bound(m, w);
        if r == 0 { vstd::arithmetic::div_mod::lemma_mod_self_0(w); } else { vstd::arithmetic::div_mod::lemma_small_mod(r as nat, w as nat); }
    }
}
