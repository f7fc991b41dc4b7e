=== spec
=== fn helpers_join_slices(slices) -> r
ens C15 join: r@ =~= flat(slices@)

=== fn helpers_modulo_10_checksum(data, even_start) -> r
req len: data@.len() <= 1_000_000
req digits: forall|k: int| 0 <= k < data@.len() ==> #[trigger] data@[k] < 10
ens C14 check: r == check10(data@, if even_start { 1 } else { 3 }, if even_start { 3 } else { 1 })
ens C15 digit: r < 10
pre: broadcast use lemma_take_step;
pre: proof { lemma_wsum(data@, if even_start { 1 } else { 3 }, if even_start { 3 } else { 1 }); assert(data@.take(data@.len() as int) =~= data@); }
cand: {a:int} == wsum(data@.take({i} as int), 0, 1)
cand: {a:int} == wsum(data@.take({i} as int), 1, 0)
cand: {a:int} == wsum(data@.take({i} as int), if even_start { 1 } else { 3 }, if even_start { 3 } else { 1 })
cand: {a:int} == wsum(data@, if even_start { 1 } else { 3 }, if even_start { 3 } else { 1 }) - wsum(data@.take(data@.len() - {i}), if even_start { 1 } else { 3 }, if even_start { 3 } else { 1 })
cand: {a:int} == wsum(data@, 0, 1) - wsum(data@.take(data@.len() - {i}), 0, 1)
cand: {a:int} == wsum(data@, 1, 0) - wsum(data@.take(data@.len() - {i}), 1, 0)
cand: {a:int} == wsum(data@.take(if 2 * {i} <= data@.len() { 2 * {i} } else { data@.len() as int }), 1, 0)
cand: {a:int} == wsum(data@.take(if 2 * {i} <= data@.len() { 2 * {i} } else { data@.len() as int }), 0, 1)
step: lemma_wsum_pair(data@, {i} as int);
cand: {a:int} <= 255 * {i}
cand: {a:int} <= 765 * {i}
cand: {a:int} == (if ({i} % 2 == 0) == even_start { 1int } else { 3int })
cand: {a:int} == wsum(data@.take({i} as int), if even_start { 1 } else { 3 }, if even_start { 3 } else { 1 }) % 10
