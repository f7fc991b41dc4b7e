=== use tab_c128
=== spec
/// set: 0 = A, 1 = B, 2 = C, -1 = none yet
pub open spec fn c128_set(s: code128_CharacterSet) -> int {
    match s { code128_CharacterSet::A => 0, code128_CharacterSet::B => 1, code128_CharacterSet::C => 2, code128_CharacterSet::None => -1 }
}
/// the set a character-set character names
pub open spec fn c128_switch(c: char) -> int { if c == '\u{C0}' { 0 } else if c == '\u{181}' { 1 } else if c == '\u{106}' { 2 } else { -1 } }
/// value of a single character in a set, -1 when it has none
pub open spec fn c128_val(set: int, c: char) -> int {
    let n = c as u32 as int;
    if c == '\u{179}' { if 0 <= set <= 2 { 102 } else { -1 } }
    else if set == 0 {
        if n < 32 { n + 64 } else if n < 96 { n - 32 }
        else if c == '\u{17B}' { 96 } else if c == '\u{17A}' { 97 } else if c == '\u{17D}' { 98 }
        else if c == '\u{106}' { 99 } else if c == '\u{181}' { 100 } else if c == '\u{17C}' { 101 } else { -1 }
    } else if set == 1 {
        if 32 <= n < 127 { n - 32 } else if c == '\u{F7}' { 95 }
        else if c == '\u{17B}' { 96 } else if c == '\u{17A}' { 97 } else if c == '\u{17D}' { 98 }
        else if c == '\u{106}' { 99 } else if c == '\u{17C}' { 100 } else if c == '\u{C0}' { 101 } else { -1 }
    } else if set == 2 {
        if c == '\u{181}' { 100 } else if c == '\u{C0}' { 101 } else { -1 }
    } else { -1 }
}
/// values of the items of s when set is in force, None when s is not valid
pub open spec fn c128_items(s: Seq<char>, set: int) -> Option<Seq<int>> decreases s.len() {
    if s.len() == 0 { Some(Seq::<int>::empty()) }
    else if set == 2 && isdig(s[0]) {
        if s.len() >= 2 && isdig(s[1]) { c128_cons(10 * dv(s[0]) + dv(s[1]), c128_items(s.skip(2), 2)) } else { None }
    } else if c128_val(set, s[0]) >= 0 {
        c128_cons(c128_val(set, s[0]), c128_items(s.skip(1), if c128_switch(s[0]) >= 0 { c128_switch(s[0]) } else { set }))
    } else { None }
}
pub open spec fn c128_cons(v: int, r: Option<Seq<int>>) -> Option<Seq<int>> { match r { Some(t) => Some(seq![v] + t), None => None } }
pub open spec fn c128_cat(u: Seq<int>, r: Option<Seq<int>>) -> Option<Seq<int>> { match r { Some(t) => Some(u + t), None => None } }
/// the symbol values a whole data string stands for: start symbol, then the items
pub open spec fn c128_full(s: Seq<char>) -> Option<Seq<int>> {
    if s.len() > 0 && c128_switch(s[0]) >= 0 { c128_cons(103 + c128_switch(s[0]), c128_items(s.skip(1), c128_switch(s[0]))) } else { None }
}
/// check sum over the first k values (the start value has weight 1)
pub open spec fn c128_sum(v: Seq<int>, k: int) -> int decreases k {
    if k <= 0 { 0 } else { c128_sum(v, k - 1) + v[k - 1] * (if k - 1 >= 1 { k - 1 } else { 1 }) }
}
pub open spec fn c128_row(v: Seq<int>, k: int) -> Seq<u8> decreases k {
    if k <= 0 { Seq::<u8>::empty() } else { c128_row(v, k - 1) + c128_pat(v[k - 1]) }
}
pub open spec fn c128_symbol(v: Seq<int>) -> Seq<u8> {
    c128_row(v, v.len() as int) + c128_pat(c128_sum(v, v.len() as int) % 103) + seq![1u8,1,0,0,0,1,1,1,0,1,0] + seq![1u8,1]
}
pub open spec fn c128_vals(u: Seq<code128_Unit>) -> Seq<int> { Seq::new(u.len(), |k: int| u[k].index as int) }
pub open spec fn c128_units(u: Seq<code128_Unit>) -> bool { forall|k: int| 0 <= k < u.len() ==> (#[trigger] u[k]).index <= 105 }
pub open spec fn c128_inv(b: code128_Code128) -> bool { b.0@.len() >= 1 && c128_units(b.0@) }
pub open spec fn c128_strval(set: int, s: Seq<char>) -> int {
    if s.len() == 1 { c128_val(set, s[0]) }
    else if s.len() == 2 && set == 2 && isdig(s[0]) && isdig(s[1]) { 10 * dv(s[0]) + dv(s[1]) }
    else if s.len() == 7 && s[0] == 'S' && s[1] == 'T' && s[2] == 'A' && s[3] == 'R' && s[4] == 'T' && s[5] == '-' && c128_switch(s[6]) >= 0 { 103 + c128_switch(s[6]) }
    else { -1 }
}
pub proof fn lemma_c128_inj(set: int, a: Seq<char>, b: Seq<char>) requires 0 <= set <= 2, c128_strval(set, a) == c128_strval(set, b), c128_strval(set, a) >= 0 ensures a =~= b, c128_strval(set, a) <= 105 {}
pub proof fn lemma_c128_mod(t: int, s: int, x: int, m: int) requires t == s % 103 ensures (t + x * (m % 103)) % 103 == (s + x * m) % 103 {
    vstd::arithmetic::div_mod::lemma_mul_mod_noop_right(x, m, 103);
    vstd::arithmetic::div_mod::lemma_add_mod_noop(s, x * m, 103);
    vstd::arithmetic::div_mod::lemma_add_mod_noop(t, x * (m % 103), 103);
}

=== fn code128_Unit_index(self_) -> r
ens C11 index: r == self_.index
=== fn code128_CharacterSet_from_char(c) -> r
ens C12 ok: c128_switch(c) >= 0 ==> r is Ok && c128_set(r->Ok_0) == c128_switch(c)
ens C12 err: c128_switch(c) < 0 ==> r == Err::<code128_CharacterSet, _>(error_Error::Character)
=== fn code128_CharacterSet_unit(self_, n) -> r
ens C12 ok: c128_set(self_) >= 0 ==> r is Ok && r->Ok_0.index == n
ens C12 err: c128_set(self_) < 0 ==> r == Err::<code128_Unit, _>(error_Error::Character)
=== fn code128_CharacterSet_index(self_) -> r
ens C12 ok: c128_set(self_) >= 0 ==> r is Ok && r->Ok_0 == c128_set(self_)
ens C12 err: c128_set(self_) < 0 ==> r == Err::<usize, _>(error_Error::Character)
=== fn code128_CharacterSet_lookup(self_, s) -> r
pre: let ghost set = c128_set(self_);
tab 106 code128_CHARS@[k]: c128_strval(0, code128_CHARS@[k].0@[0].v()) == k
tab 106 code128_CHARS@[k]: c128_strval(1, code128_CHARS@[k].0@[1].v()) == k
tab 106 code128_CHARS@[k]: c128_strval(2, code128_CHARS@[k].0@[2].v()) == k
pre: proof { if set >= 0 && c128_strval(set, s@) >= 0 { lemma_c128_inj(set, s@, s@); lemma_c128_inj(set, s@, code128_CHARS@[c128_strval(set, s@)].0@[set].v()); } }
ens C12 ok: c128_set(self_) >= 0 && c128_strval(c128_set(self_), s@) >= 0 ==> r is Ok && r->Ok_0.index == c128_strval(c128_set(self_), s@) && r->Ok_0.index <= 105
ens C12 err: c128_set(self_) < 0 || c128_strval(c128_set(self_), s@) < 0 ==> r == Err::<code128_Unit, _>(error_Error::Character)
=== fn code128_Code128_new(data) -> r
ens C12 len: utf8_len(data@) < 2 ==> r == Err::<code128_Code128, _>(error_Error::Length)
ens C12 bad: utf8_len(data@) >= 2 && c128_full(data@) is None ==> r == Err::<code128_Code128, _>(error_Error::Character)
ens C12 ok: utf8_len(data@) >= 2 && c128_full(data@) is Some ==> r is Ok
ens C12 vals: r is Ok ==> c128_inv(r->Ok_0) && c128_full(data@) == Some(c128_vals(r->Ok_0.0@))
=== fn code128_Code128_parse(chars) -> r
ens C12 bad: c128_full(chars@) is None && chars@.len() > 0 ==> r == Err::<Vec<code128_Unit>, _>(error_Error::Character)
ens C12 ok: c128_full(chars@) is Some ==> r is Ok
ens C12 vals: chars@.len() > 0 && r is Ok ==> r->Ok_0@.len() >= 1 && c128_units(r->Ok_0@) && c128_full(chars@) == Some(c128_vals(r->Ok_0@))
pre: proof { reveal_strlit("START-"); assert(chars@.skip(0) =~= chars@);
    assert forall|i: int| 0 <= i < chars@.len() implies (#[trigger] chars@.skip(i))[0] == chars@[i] && chars@.skip(i).len() == chars@.len() - i && chars@.skip(i).skip(1) =~= chars@.skip(i + 1) by {}
    assert forall|i: int| 0 <= i < chars@.len() - 1 implies (#[trigger] chars@.skip(i))[1] == chars@[i + 1] && chars@.skip(i).skip(2) =~= chars@.skip(i + 2) by {} }
pre: proof { assert forall|u: Seq<int>, v: int, r: Option<Seq<int>>| c128_cat(u, c128_cons(v, r)) == #[trigger] c128_cat(u.push(v), r) by { if r is Some { assert(u + (seq![v] + r->Some_0) =~= u.push(v) + r->Some_0); } } }
pre: proof { assert forall|v: int, r: Option<Seq<int>>| #[trigger] c128_cons(v, r) == c128_cat(seq![v], r) by {} assert forall|u: Seq<int>| #[trigger] c128_cat(u, Some(Seq::<int>::empty())) == Some(u) by { assert(u + Seq::<int>::empty() =~= u); } }
pre: proof { assert forall|us: Seq<code128_Unit>, x: code128_Unit| c128_vals(#[trigger] us.push(x)) == c128_vals(us).push(x.index as int) by { assert(c128_vals(us.push(x)) =~= c128_vals(us).push(x.index as int)); } }
cand: {i} == 0 <==> {a:Vec<code128_Unit>}@.len() == 0
cand: {i} == 0 <==> c128_set({a:code128_CharacterSet}) == -1
cand: {i} == 0 ==> {a:Option<char>} is None
cand: {i} > 0 ==> c128_switch(chars@[0]) >= 0
cand: c128_units({a:Vec<code128_Unit>}@)
cand: {a:Option<char>} is Some ==> {i} > 0 && c128_set({a2:code128_CharacterSet}) == 2 && isdig({a:Option<char>}->Some_0) && {a:Option<char>}->Some_0 == chars@[{i} - 1]
cand: {i} > 0 && {a:Option<char>} is None ==> c128_full(chars@) == c128_cat(c128_vals({a2:Vec<code128_Unit>}@), c128_items(chars@.skip({i} as int), c128_set({a3:code128_CharacterSet})))
cand: {i} > 0 && {a:Option<char>} is Some ==> c128_full(chars@) == c128_cat(c128_vals({a2:Vec<code128_Unit>}@), c128_items(chars@.skip({i} - 1), 2))
=== fn code128_Code128_checksum_value(self_) -> r
req inv: c128_inv(*self_)
ens C11 check: r as int == c128_sum(c128_vals(self_.0@), self_.0@.len() as int) % 103
pre: let ghost v = c128_vals(self_.0@);
pre: proof { assert forall|x: int, y: int| 0 <= x <= 105 && 0 <= y <= 102 implies 0 <= #[trigger] (x * y) <= 10710 by { assert(0 <= x * y <= 10710) by (nonlinear_arith) requires 0 <= x <= 105, 0 <= y <= 102; } }
pre: proof { assert forall|i: int| 0 <= i < v.len() implies (#[trigger] c128_sum(v, i + 1)) % 103 == (c128_sum(v, i) % 103 + v[i] * ((if i >= 1 { i } else { 1 }) % 103)) % 103 by { lemma_c128_mod(c128_sum(v, i) % 103, c128_sum(v, i), v[i], if i >= 1 { i } else { 1 }); } }
pre: proof { reveal_with_fuel(c128_sum, 3); assert(v.len() > 0 ==> c128_sum(v, 1) == v[0]); }
cand: {a:usize} as int == c128_sum(v, {i} as int) % 103
cand: v.len() > 0 ==> {a:usize} as int == c128_sum(v, {i} + 1) % 103
cand: v.len() > 0 ==> {a:usize} as int == (if {i} == 0 { c128_sum(v, 1) } else { c128_sum(v, {i} + 1) % 103 })
=== fn code128_Code128_checksum_encoding(self_) -> r
req inv: c128_inv(*self_)
ens C11 check: r@ =~= c128_pat(c128_sum(c128_vals(self_.0@), self_.0@.len() as int) % 103)
=== fn code128_Code128_unit_encoding(self_, c) -> r
req dom: c.index <= 105
ens C11 pat: r@ =~= c128_pat(c.index as int)
tab 106 code128_CHARS@[k]: code128_CHARS@[k].1@ =~= c128_pat(k)
=== fn code128_Code128_payload(self_) -> r
req inv: c128_inv(*self_)
ens C11 row: r@ =~= c128_row(c128_vals(self_.0@), self_.0@.len() as int)
cand: flat({a:Vec<[u8; 11]>}@) =~= c128_row(c128_vals(self_.0@), {i} as int)
cand: {a:Vec<u8>}@ =~= c128_row(c128_vals(self_.0@), {i} as int)
cand: {a:Vec<u8>}@ =~= {a0} + c128_row(c128_vals(self_.0@), {i} as int)
=== fn code128_Code128_encode(self_) -> r
req inv: c128_inv(*self_)
pre: broadcast use lemma_flat_small;
pre: proof { assert(code128_STOP@ =~= seq![1u8,1,0,0,0,1,1,1,0,1,0]); assert(code128_TERM@ =~= seq![1u8,1]); }
ens C11 symbol: r@ =~= c128_symbol(c128_vals(self_.0@))
=== thm C11 symbol
fn thm_C11(data: &str)
{
    match code128_Code128_new(data) {
        Ok(b) => { let r = code128_Code128_encode(&b); assert(r@ =~= c128_symbol(c128_full(data@)->Some_0)); }
        Err(_) => {}
    }
}
