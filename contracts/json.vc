=== spec
pub open spec fn json_bit(b: u8) -> char { if b == 0 { '0' } else { '1' } }
/// the first k modules separated by commas
pub open spec fn json_bits(b: Seq<u8>, k: int) -> Seq<char> decreases k {
    if k <= 0 { Seq::<char>::empty() } else if k == 1 { seq![json_bit(b[0])] } else { json_bits(b, k - 1) + seq![',', json_bit(b[k - 1])] }
}
/// the first k modules each followed by a comma
pub open spec fn json_commas(b: Seq<u8>, k: int) -> Seq<char> decreases k {
    if k <= 0 { Seq::<char>::empty() } else { json_commas(b, k - 1) + seq![json_bit(b[k - 1]), ','] }
}
pub proof fn lemma_json_commas(b: Seq<u8>, k: int) requires k >= 1 ensures json_commas(b, k) =~= json_bits(b, k).push(',') decreases k {
    if k > 1 { lemma_json_commas(b, k - 1); } else { assert(json_commas(b, 0) =~= Seq::<char>::empty()); }
}
pub open spec fn json_text(h: nat, x: nat, b: Seq<u8>) -> Seq<char> {
    "{\"height\":"@ + dec(h) + ",\"xdim\":"@ + dec(x) + ",\"encoding\":["@ + json_bits(b, b.len() as int) + "]}"@
}

=== fn json_JSON_generate(self_, barcode) -> r
ens C18 text: r is Ok && r->Ok_0@ =~= json_text(self_.height as nat, self_.xdim as nat, barcode@)
pre: proof { if barcode@.len() >= 1 { lemma_json_commas(barcode@, barcode@.len() as int); assert(json_bits(barcode@, barcode@.len() as int).push(',').drop_last() =~= json_bits(barcode@, barcode@.len() as int)); } }
pre: proof { reveal_strlit("{\"height\":"); reveal_strlit(",\"xdim\":"); reveal_strlit(",\"encoding\":["); reveal_strlit("]}"); }
cand: forall|k: int| 0 <= k < {i} ==> (#[trigger] {a:Vec<&str>}@[k])@ == seq![json_bit(barcode@[k])]
cand: forall|k: int| 0 <= k < {i} ==> (#[trigger] {a:Vec<String>}@[k])@ == seq![json_bit(barcode@[k])]
alt a: {a:String}@ =~= json_commas(barcode@, {i} as int)
alt b: {a:String}@ =~= json_bits(barcode@, {i} as int)
