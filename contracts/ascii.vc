=== spec
pub open spec fn bars01(b: Seq<u8>) -> bool { forall|k: int| 0 <= k < b.len() ==> #[trigger] b[k] <= 1 }
pub open spec fn ascii_cells(b: u8, xdim: nat) -> Seq<char> { Seq::new(xdim, |j: int| if b == 1 { '#' } else { ' ' }) }
/// the first k modules of one line
pub open spec fn ascii_row(b: Seq<u8>, xdim: nat, k: int) -> Seq<char> decreases k {
    if k <= 0 { Seq::<char>::empty() } else { ascii_row(b, xdim, k - 1) + ascii_cells(b[k - 1], xdim) }
}
/// k lines separated by single newlines
pub open spec fn ascii_text(row: Seq<char>, k: int) -> Seq<char> decreases k {
    if k <= 0 { Seq::<char>::empty() } else if k == 1 { row } else { ascii_text(row, k - 1) + seq!['\n'] + row }
}
/// k lines each ended by a newline
pub open spec fn ascii_nl(row: Seq<char>, k: int) -> Seq<char> decreases k {
    if k <= 0 { Seq::<char>::empty() } else { ascii_nl(row, k - 1) + row + seq!['\n'] }
}
pub proof fn lemma_ascii_nl(row: Seq<char>, k: int) requires k >= 1 ensures ascii_text(row, k) =~= ascii_nl(row, k - 1) + row decreases k {
    if k > 1 { lemma_ascii_nl(row, k - 1); } else { assert(ascii_nl(row, 0) =~= Seq::<char>::empty()); }
}

=== fn ascii_ASCII_generate_row(self_, barcode) -> r
req dom: bars01(barcode@)
ens C17 row: r@ =~= ascii_row(barcode@, self_.xdim as nat, barcode@.len() as int)
pre: proof { assert(ascii_CHARS@ =~= seq![' ', '#']); }
cand: {a:String}@ =~= ascii_row(barcode@, self_.xdim as nat, {i} as int)
cand: {a:String}@ =~= {a0} + ascii_row(barcode@, self_.xdim as nat, {i} as int)
cand: {a:String}@ =~= {a0} + ascii_cells(barcode@[{o.i} as int], {i} as nat)
=== fn ascii_ASCII_generate(self_, barcode) -> r
req dom: bars01(barcode@)
ens C17 text: r is Ok && r->Ok_0@ =~= ascii_text(ascii_row(barcode@, self_.xdim as nat, barcode@.len() as int), self_.height as int)
pre: let ghost row = ascii_row(barcode@, self_.xdim as nat, barcode@.len() as int);
pre: proof { if self_.height >= 1 { lemma_ascii_nl(row, self_.height as int); } }
alt a: {i} < self_.height ==> {a:String}@ =~= ascii_nl(row, {i} as int)
alt a: {i} == self_.height ==> {a:String}@ =~= ascii_text(row, self_.height as int)
alt b: {a:String}@ =~= ascii_text(row, {i} as int)
alt c: {a:String}@ =~= ascii_nl(row, {i} as int)
cand: forall|k: int| 0 <= k < {i} ==> {a:Vec<&str>}@[k]@ =~= row
cand: forall|k: int| 0 <= k < {i} ==> {a:Vec<String>}@[k]@ =~= row
