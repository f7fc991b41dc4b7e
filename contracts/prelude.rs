// Runtime of the lowered text: every external_body function below is trusted (listed in the evidence).
global size_of usize == 8;

pub open spec fn ulen(c: char) -> nat {
    if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 }
}
pub open spec fn utf8_len(s: Seq<char>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { utf8_len(s.drop_last()) + ulen(s.last()) }
}
pub broadcast proof fn lemma_utf8_len(s: Seq<char>)
    ensures s.len() <= #[trigger] utf8_len(s) <= 4 * s.len()
    decreases s.len()
{
    if s.len() > 0 { lemma_utf8_len(s.drop_last()); }
}
pub proof fn lemma_utf8_ascii(s: Seq<char>)
    requires forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k] as u32) < 0x80
    ensures utf8_len(s) == s.len()
    decreases s.len()
{
    if s.len() > 0 {
        assert forall|k: int| 0 <= k < s.drop_last().len() implies (#[trigger] s.drop_last()[k] as u32) < 0x80 by { assert(s[k] as u32 >= 0); }
        lemma_utf8_ascii(s.drop_last());
    }
}

#[verifier::external_body]
pub fn vp_panic() -> !
    requires false
{ panic!() }
/// an arbitrary choice (vacuity checks only)
#[verifier::external_body]
pub fn vp_any() -> bool { unimplemented!() }
#[verifier::external_body]
pub fn str_len(s: &str) -> (r: usize)
    ensures r == utf8_len(s@), r <= 0x7fff_ffff_ffff_ffff
{ s.len() }
#[verifier::external_body]
pub fn str_eq(a: &str, b: &str) -> (r: bool)
    ensures r == (a@ =~= b@)
{ a == b }
/// `==` of byte slices (verified, not trusted)
pub fn slice_eq(a: &[u8], b: &[u8]) -> (r: bool)
    ensures r == (a@ =~= b@)
{
    if a.len() != b.len() { return false; }
    let mut i: usize = 0;
    while i < a.len()
        invariant i <= a.len(), a.len() == b.len(), forall|k: int| 0 <= k < i ==> a@[k] == b@[k]
        decreases a.len() - i
    {
        if a[i] != b[i] { return false; }
        i = i + 1;
    }
    true
}
#[verifier::external_body]
pub fn str_chars(s: &str) -> (r: Vec<char>)
    ensures r@ == s@
{ s.chars().collect() }
pub uninterp spec fn utf8_bytes(s: Seq<char>) -> Seq<u8>;
#[verifier::external_body]
pub fn str_bytes(s: &str) -> (r: Vec<u8>)
    ensures r@ == utf8_bytes(s@), r@.len() == utf8_len(s@),
        (forall|k: int| 0 <= k < s@.len() ==> (#[trigger] s@[k] as u32) < 0x80) ==> r@ =~= Seq::new(s@.len(), |k: int| s@[k] as u8)
{ s.as_bytes().to_vec() }
#[verifier::external_body]
pub fn str_to_string(s: &str) -> (r: String)
    ensures r@ == s@
{ s.to_string() }
/// `to_vec` of plain values (verified, not trusted)
pub fn slice_to_vec<T: Copy>(s: &[T]) -> (r: Vec<T>)
    ensures r@ == s@
{
    let mut v: Vec<T> = Vec::new();
    assert(v@ + s@ =~= s@);
    vec_extend(&mut v, s);
    v
}
/// `vec![x; n]` of plain values (verified, not trusted)
pub fn vec_from_elem<T: Copy>(x: T, n: usize) -> (r: Vec<T>)
    ensures r@ == Seq::new(n as nat, |k: int| x)
{
    let mut v: Vec<T> = Vec::new();
    let mut i: usize = 0;
    while i < n
        invariant i <= n, v@.len() == i, forall|k: int| 0 <= k < i ==> v@[k] == x
        decreases n - i
    {
        v.push(x);
        i = i + 1;
    }
    assert(v@ =~= Seq::new(n as nat, |k: int| x));
    v
}
#[verifier::external_body]
pub fn vec_from_string(x: String, n: usize) -> (r: Vec<String>)
    ensures r@.len() == n, forall|k: int| 0 <= k < n ==> (#[trigger] r@[k])@ == x@
{ vec![x; n] }
#[verifier::external_body]
pub fn char_from_digit(n: u32, radix: u32) -> (r: Option<char>)
    requires radix <= 36
    ensures radix == 10 ==> r == (if n < 10 { Some(((48 + n) as u8) as char) } else { None::<char> })
{ char::from_digit(n, radix) }
#[verifier::external_body]
pub fn char_to_digit(c: char, radix: u32) -> (r: Option<u32>)
    requires 2 <= radix <= 36
    ensures radix == 10 ==> r == (if '0' <= c && c <= '9' { Some((c as u32 - 48) as u32) } else { None::<u32> })
{ c.to_digit(radix) }
#[verifier::external_body]
pub fn char_len_utf8(c: char) -> (r: usize)
    ensures r == ulen(c)
{ c.len_utf8() }
#[verifier::external_body]
pub fn string_pop(s: &mut String) -> (r: Option<char>)
    ensures
        old(s)@.len() == 0 ==> r is None && final(s)@ == old(s)@,
        old(s)@.len() > 0 ==> r == Some(old(s)@.last()) && final(s)@ == old(s)@.drop_last()
{ s.pop() }

pub proof fn lemma_extend_step<T>(v0: Seq<T>, s: Seq<T>, i: int)
    requires 0 <= i < s.len()
    ensures (v0 + s.take(i)).push(s[i]) == v0 + s.take(i + 1)
{
    assert((v0 + s.take(i)).push(s[i]) =~= v0 + s.take(i + 1));
}
/// `extend` with a slice of plain values (verified, not trusted)
pub fn vec_extend<T: Copy>(v: &mut Vec<T>, s: &[T])
    ensures final(v)@ == old(v)@ + s@
{
    let ghost v0 = v@;
    let mut i: usize = 0;
    assert(v0 + s@.take(0) =~= v0);
    while i < s.len()
        invariant i <= s.len(), v@ == v0 + s@.take(i as int)
        decreases s.len() - i
    {
        proof { lemma_extend_step(v0, s@, i as int); }
        v.push(s[i]);
        i = i + 1;
    }
    assert(s@.take(s.len() as int) =~= s@);
}

/// `copy_from_slice` of plain values (verified, not trusted); its panic is the precondition
pub fn vec_copy<T: Copy>(v: &mut Vec<T>, s: &[T])
    requires old(v)@.len() == s@.len()
    ensures final(v)@ == s@
{ *v = slice_to_vec(s); }
pub fn array_copy<T: Copy, const N: usize>(a: &mut [T; N], s: &[T])
    requires N == s@.len()
    ensures final(a)@ == s@
{
    let mut i: usize = 0;
    while i < N
        invariant i <= N, s@.len() == N, forall|k: int| 0 <= k < i ==> a@[k] == s@[k]
        decreases N - i
    {
        a[i] = s[i];
        i = i + 1;
    }
    assert(a@ =~= s@);
}

pub fn slice_to_array<const N: usize>(s: &[u8]) -> (r: Option<[u8; N]>)
    ensures (s@.len() == N) == (r is Some), r is Some ==> r->Some_0@ == s@
{
    if s.len() != N { return None; }
    let mut a: [u8; N] = [0u8; N];
    array_copy(&mut a, s);
    Some(a)
}
pub fn vec_fill<T: Copy>(v: &mut Vec<T>, x: T)
    ensures final(v)@ == Seq::new(old(v)@.len(), |k: int| x)
{ let n = v.len(); *v = vec_from_elem(x, n); }
pub fn array_fill<T: Copy, const N: usize>(a: &mut [T; N], x: T)
    ensures final(a)@ == Seq::new(N as nat, |k: int| x)
{
    let mut i: usize = 0;
    while i < N
        invariant i <= N, forall|k: int| 0 <= k < i ==> a@[k] == x
        decreases N - i
    {
        a[i] = x;
        i = i + 1;
    }
    assert(a@ =~= Seq::new(N as nat, |k: int| x));
}

/// decimal digits of a number, as printed
pub open spec fn dec(n: nat) -> Seq<char> decreases n {
    if n < 10 { seq![((48 + n) as u8) as char] } else { dec(n / 10) + seq![((48 + n % 10) as u8) as char] }
}
#[verifier::external_body]
pub fn fmt_dec(s: &mut String, n: u64)
    ensures final(s)@ == old(s)@ + dec(n as nat)
{ s.push_str(&n.to_string()) }
pub open spec fn hexdig(n: u8) -> char { if n < 10 { ((48 + n) as u8) as char } else { ((87 + n) as u8) as char } }
#[verifier::external_body]
pub fn fmt_hex02(s: &mut String, n: u8)
    ensures final(s)@ == old(s)@ + seq![hexdig(n / 16), hexdig((n % 16) as u8)]
{ s.push_str(&format!("{:02x}", n)) }

/// a `&'static [u8]` held in a constant table
#[derive(Clone, Copy)]
pub struct SliceLit { pub n: usize, pub d: [u8; 16] }
impl SliceLit {
    pub open spec fn v(&self) -> Seq<u8> { self.d@.subrange(0, self.n as int) }
    #[verifier::external_body]
    pub fn sl(&self) -> (r: &'static [u8]) ensures r@ == self.v() { unimplemented!() }
}
/// a `&'static str` held in a constant table
#[derive(Clone, Copy)]
pub enum StrLit { L0, L1(char), L2(char, char), L3(char, char, char), L4(char, char, char, char), L5(char, char, char, char, char), L6(char, char, char, char, char, char), L7(char, char, char, char, char, char, char), L8(char, char, char, char, char, char, char, char) }
impl StrLit {
    pub open spec fn v(&self) -> Seq<char> {
        match *self {
            StrLit::L0 => Seq::<char>::empty(),
            StrLit::L1(a) => seq![a],
            StrLit::L2(a, b) => seq![a, b],
            StrLit::L3(a, b, c) => seq![a, b, c],
            StrLit::L4(a, b, c, d) => seq![a, b, c, d],
            StrLit::L5(a, b, c, d, e) => seq![a, b, c, d, e],
            StrLit::L6(a, b, c, d, e, f) => seq![a, b, c, d, e, f],
            StrLit::L7(a, b, c, d, e, f, g) => seq![a, b, c, d, e, f, g],
            StrLit::L8(a, b, c, d, e, f, g, h) => seq![a, b, c, d, e, f, g, h],
        }
    }
    #[verifier::external_body]
    pub fn s(&self) -> (r: &'static str) ensures r@ == self.v() { unimplemented!() }
}

// ---- vocabulary shared by all contracts (no trust: definitions and proved lemmas only)
pub open spec fn flat<A: View<V = Seq<u8>>>(s: Seq<A>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::<u8>::empty() } else { flat(s.drop_last()) + s.last()@ }
}
/// what an optional element yields when iterated
pub open spec fn opt_seq<T>(o: Option<T>) -> Seq<T> { match o { Some(x) => seq![x], None => Seq::<T>::empty() } }
/// value of a decimal digit character
pub open spec fn dv(c: char) -> u8 { (c as u32 - 48) as u8 }
pub open spec fn isdig(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn alldig(s: Seq<char>) -> bool { forall|k: int| 0 <= k < s.len() ==> isdig(#[trigger] s[k]) }
pub open spec fn digs(s: Seq<char>) -> Seq<u8> { Seq::new(s.len(), |k: int| dv(s[k])) }
pub open spec fn digits(d: Seq<u8>) -> bool { forall|k: int| 0 <= k < d.len() ==> #[trigger] d[k] < 10 }
/// modulo-10 weighted sum: odd positions (from 0) weigh wo, even positions we
pub open spec fn wsum(d: Seq<u8>, we: int, wo: int) -> int decreases d.len() {
    if d.len() == 0 { 0 } else { wsum(d.drop_last(), we, wo) + (if (d.len() - 1) % 2 == 1 { wo * d.last() } else { we * d.last() }) }
}
pub open spec fn check10(d: Seq<u8>, we: int, wo: int) -> u8 { ((10 - wsum(d, we, wo) % 10) % 10) as u8 }
pub proof fn lemma_wsum_pair(d: Seq<u8>, i: int)
    ensures
        0 <= i && 2 * i + 1 < d.len() ==> wsum(d.take(2 * i + 2), 1, 0) == wsum(d.take(2 * i), 1, 0) + d[2 * i] && wsum(d.take(2 * i + 2), 0, 1) == wsum(d.take(2 * i), 0, 1) + d[2 * i + 1],
        0 <= i && 2 * i < d.len() ==> wsum(d.take(2 * i + 1), 1, 0) == wsum(d.take(2 * i), 1, 0) + d[2 * i] && wsum(d.take(2 * i + 1), 0, 1) == wsum(d.take(2 * i), 0, 1)
{
    if 0 <= i && 2 * i < d.len() {
        assert(d.take(2 * i + 1).drop_last() =~= d.take(2 * i)); assert(d.take(2 * i + 1).last() == d[2 * i]); assert((d.take(2 * i + 1).len() - 1) % 2 == 0);
        if 2 * i + 1 < d.len() { assert(d.take(2 * i + 2).drop_last() =~= d.take(2 * i + 1)); assert(d.take(2 * i + 2).last() == d[2 * i + 1]); assert((2 * i + 1) % 2 == 1); assert((d.take(2 * i + 2).len() - 1) % 2 == 1); assert(wsum(d.take(2 * i + 2), 1, 0) == wsum(d.take(2 * i + 1), 1, 0) + 0 * d[2 * i + 1]); assert(wsum(d.take(2 * i + 2), 0, 1) == wsum(d.take(2 * i + 1), 0, 1) + d[2 * i + 1]); }
    }
}
pub proof fn lemma_wsum(d: Seq<u8>, we: int, wo: int)
    ensures wsum(d, we, wo) == we * wsum(d, 1, 0) + wo * wsum(d, 0, 1), wsum(d, 1, 0) >= 0, wsum(d, 0, 1) >= 0,
        wsum(d, 1, 0) <= 255 * d.len(), wsum(d, 0, 1) <= 255 * d.len()
    decreases d.len()
{
    if d.len() > 0 {
        lemma_wsum(d.drop_last(), we, wo);
        let x = d.last() as int;
        let a = wsum(d.drop_last(), 1, 0); let b = wsum(d.drop_last(), 0, 1);
        if (d.len() - 1) % 2 == 1 {
            assert(we * a + wo * b + wo * x == we * (a + x * 0) + wo * (b + x * 1)) by (nonlinear_arith);
        } else {
            assert(we * a + wo * b + we * x == we * (a + x * 1) + wo * (b + x * 0)) by (nonlinear_arith);
        }
    }
}
pub broadcast proof fn lemma_flat_push<A: View<V = Seq<u8>>>(s: Seq<A>, x: A)
    ensures #[trigger] flat(s.push(x)) == flat(s) + x@
{ assert(s.push(x).drop_last() =~= s); }
pub broadcast proof fn lemma_take_step<A>(s: Seq<A>, n: int)
    requires 0 < n <= s.len()
    ensures #[trigger] s.take(n).drop_last() == s.take(n - 1), s.take(n).last() == s[n - 1]
{ assert(s.take(n).drop_last() =~= s.take(n - 1)); }
pub broadcast proof fn lemma_flat_small<A: View<V = Seq<u8>>>(s: Seq<A>)
    ensures
        #![trigger flat(s)]
        s.len() == 0 ==> flat(s) == Seq::<u8>::empty(),
        s.len() == 1 ==> flat(s) == s[0]@,
        s.len() == 2 ==> flat(s) == s[0]@ + s[1]@,
        s.len() == 3 ==> flat(s) == s[0]@ + s[1]@ + s[2]@,
        s.len() == 4 ==> flat(s) == s[0]@ + s[1]@ + s[2]@ + s[3]@,
        s.len() == 5 ==> flat(s) == s[0]@ + s[1]@ + s[2]@ + s[3]@ + s[4]@,
        s.len() == 6 ==> flat(s) == s[0]@ + s[1]@ + s[2]@ + s[3]@ + s[4]@ + s[5]@,
        s.len() == 7 ==> flat(s) == s[0]@ + s[1]@ + s[2]@ + s[3]@ + s[4]@ + s[5]@ + s[6]@,
        s.len() == 8 ==> flat(s) == s[0]@ + s[1]@ + s[2]@ + s[3]@ + s[4]@ + s[5]@ + s[6]@ + s[7]@,
    decreases s.len()
{
    if 0 < s.len() <= 8 {
        lemma_flat_small(s.drop_last());
        if s.len() == 1 { assert(Seq::<u8>::empty() + s[0]@ =~= s[0]@); }
    }
}
/// p holds below n; established by the verifier's interpreter (assert by compute), used for constant tables
pub open spec fn all_below(n: int, p: spec_fn(int) -> bool) -> bool decreases n { if n <= 0 { true } else { p(n - 1) && all_below(n - 1, p) } }
pub proof fn lemma_all_below(n: int, p: spec_fn(int) -> bool) requires all_below(n, p) ensures forall|k: int| 0 <= k < n ==> #[trigger] p(k) decreases n { if n > 0 { lemma_all_below(n - 1, p); } }
