=== spec
pub open spec fn bits(b: Seq<u8>) -> bool { forall|k: int| 0 <= k < b.len() ==> #[trigger] b[k] <= 1 }
/// what may stand after a code word: nothing, or something that begins with a bar
pub open spec fn barfirst(r: Seq<u8>) -> bool { r.len() == 0 || r[0] == 1 }
/// the code words of a sequence of values, one after the other
pub open spec fn grow(code: spec_fn(int) -> Seq<u8>, v: Seq<int>) -> Seq<u8> decreases v.len() {
    if v.len() == 0 { Seq::<u8>::empty() } else { grow(code, v.drop_last()) + code(v.last()) }
}
pub open spec fn below(v: Seq<int>, n: int) -> bool { forall|k: int| 0 <= k < v.len() ==> 0 <= #[trigger] v[k] < n }
/// the first code word can be read off whatever follows it
pub open spec fn readable(code: spec_fn(int) -> Seq<u8>, head: spec_fn(Seq<u8>) -> int, n: int) -> bool {
    (forall|v: int| 0 <= v < n ==> (#[trigger] code(v)).len() > 0 && code(v)[0] == 1)
    && forall|v: int, r: Seq<u8>| 0 <= v < n && barfirst(r) ==> head(#[trigger] (code(v) + r)) == v
}
pub proof fn lemma_grow_cons(code: spec_fn(int) -> Seq<u8>, v: Seq<int>) requires v.len() > 0 ensures grow(code, v) =~= code(v[0]) + grow(code, v.skip(1)) decreases v.len() {
    if v.len() > 1 {
        lemma_grow_cons(code, v.drop_last());
        assert(v.drop_last().skip(1) =~= v.skip(1).drop_last());
        assert(v.skip(1).last() == v.last());
        assert(v.drop_last()[0] == v[0]);
        assert(grow(code, v) =~= (code(v[0]) + grow(code, v.skip(1).drop_last())) + code(v.last()));
        assert(grow(code, v.skip(1)) == grow(code, v.skip(1).drop_last()) + code(v.last()));
    } else {
        assert(v.drop_last() =~= Seq::<int>::empty()); assert(v.skip(1) =~= Seq::<int>::empty());
        assert(grow(code, v.drop_last()) =~= Seq::<u8>::empty());
        assert(grow(code, v.skip(1)) =~= Seq::<u8>::empty());
    }
}
pub proof fn lemma_grow_bar(code: spec_fn(int) -> Seq<u8>, v: Seq<int>, n: int) requires below(v, n), forall|x: int| 0 <= x < n ==> (#[trigger] code(x)).len() > 0 && code(x)[0] == 1
    ensures barfirst(grow(code, v)), v.len() > 0 ==> grow(code, v).len() > 0
{
    if v.len() > 0 { lemma_grow_cons(code, v); assert(0 <= v[0] < n); assert(code(v[0]).len() > 0); }
}
/// a sequence of values is determined by its code words
pub proof fn lemma_grow_inj(code: spec_fn(int) -> Seq<u8>, head: spec_fn(Seq<u8>) -> int, n: int, a: Seq<int>, b: Seq<int>)
    requires readable(code, head, n), below(a, n), below(b, n), grow(code, a) == grow(code, b)
    ensures a =~= b decreases a.len()
{
    lemma_grow_bar(code, a, n); lemma_grow_bar(code, b, n);
    if a.len() > 0 && b.len() > 0 {
        lemma_grow_cons(code, a); lemma_grow_cons(code, b);
        let x = a.skip(1); let y = b.skip(1);
        assert forall|k: int| 0 <= k < x.len() implies 0 <= #[trigger] x[k] < n by { assert(0 <= a[k + 1] < n); }
        assert forall|k: int| 0 <= k < y.len() implies 0 <= #[trigger] y[k] < n by { assert(0 <= b[k + 1] < n); }
        lemma_grow_bar(code, x, n); lemma_grow_bar(code, y, n);
        assert(0 <= a[0] < n); assert(0 <= b[0] < n);
        assert(head(code(a[0]) + grow(code, x)) == a[0]);
        assert(head(code(b[0]) + grow(code, y)) == b[0]);
        assert(a[0] == b[0]);
        let c = code(a[0]).len() as int;
        assert((code(a[0]) + grow(code, x)).skip(c) =~= grow(code, x));
        assert((code(b[0]) + grow(code, y)).skip(c) =~= grow(code, y));
        lemma_grow_inj(code, head, n, x, y);
        assert forall|k: int| 0 <= k < a.len() implies a[k] == b[k] by { if k > 0 { assert(a[k] == x[k - 1]); assert(b[k] == y[k - 1]); } }
    }
}
pub proof fn lemma_grow_bits(code: spec_fn(int) -> Seq<u8>, v: Seq<int>, n: int) requires below(v, n), forall|x: int| 0 <= x < n ==> bits(#[trigger] code(x)) ensures bits(grow(code, v)) decreases v.len() {
    if v.len() > 0 {
        let w = v.drop_last();
        assert forall|k: int| 0 <= k < w.len() implies 0 <= #[trigger] w[k] < n by { assert(0 <= v[k] < n); }
        lemma_grow_bits(code, w, n); assert(0 <= v[v.len() - 1] < n); lemma_bits_cat(grow(code, w), code(v.last()));
    }
}
pub proof fn lemma_bits_cat(a: Seq<u8>, b: Seq<u8>) requires bits(a), bits(b) ensures bits(a + b) {
    assert forall|k: int| 0 <= k < (a + b).len() implies #[trigger] (a + b)[k] <= 1 by { if k < a.len() { assert(a[k] <= 1); } else { assert(b[k - a.len()] <= 1); } }
}
/// equal with equally long last parts (or first parts): the parts are equal
pub proof fn lemma_cat_eq(a: Seq<u8>, b: Seq<u8>, x: Seq<u8>, y: Seq<u8>) requires a + b == x + y, a.len() == x.len() || b.len() == y.len() ensures a =~= x, b =~= y {
    assert(a.len() + b.len() == (a + b).len()); assert(x.len() + y.len() == (x + y).len());
    assert(a.len() == x.len());
    assert((a + b).take(a.len() as int) =~= a); assert((x + y).take(a.len() as int) =~= x);
    assert((a + b).skip(a.len() as int) =~= b); assert((x + y).skip(a.len() as int) =~= y);
}
