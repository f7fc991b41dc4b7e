=== spec
/// alpha / 255 rounded to hundredths (never a tie), as d.dd
pub open spec fn svg_opacity(a: u8) -> Seq<char> {
    let h = (200 * a + 255) / 510;
    seq![((48 + h / 100) as u8) as char, '.', ((48 + (h / 10) % 10) as u8) as char, ((48 + h % 10) as u8) as char]
}
pub open spec fn svg_hex(c: svg_Color) -> Seq<char> {
    seq![hexdig(c.rgba@[0] / 16), hexdig(c.rgba@[0] % 16), hexdig(c.rgba@[1] / 16), hexdig(c.rgba@[1] % 16), hexdig(c.rgba@[2] / 16), hexdig(c.rgba@[2] % 16)]
}
pub open spec fn svg_opq(c: svg_Color) -> Seq<char> {
    if svg_opacity(c.rgba@[3]) =~= "1.00"@ { Seq::<char>::empty() } else { " fill-opacity=\""@ + svg_opacity(c.rgba@[3]) + "\" "@ }
}
pub open spec fn svg_rect(c: svg_Color, x: nat, w: nat, h: nat) -> Seq<char> {
    "<rect x=\""@ + dec(x) + "\" y=\"0\" width=\""@ + dec(w) + "\" height=\""@ + dec(h) + "\" fill=\"#"@ + svg_hex(c) + "\""@ + svg_opq(c) + "/>"@
}
/// one foreground rectangle per bar among the first k modules, at position times xdim
pub open spec fn svg_bars(c: svg_Color, b: Seq<u8>, x: nat, h: nat, k: int) -> Seq<char> decreases k {
    if k <= 0 { Seq::<char>::empty() } else { svg_bars(c, b, x, h, k - 1) + (if b[k - 1] == 1 { svg_rect(c, ((k - 1) * x) as nat, x, h) } else { Seq::<char>::empty() }) }
}
pub open spec fn svg_ns(x: Option<String>) -> Seq<char> { match x { Some(s) => "xmlns=\""@ + s@ + "\" "@, None => Seq::<char>::empty() } }
pub open spec fn svg_text(s: svg_SVG, b: Seq<u8>) -> Seq<char> {
    "<svg version=\"1.1\" "@ + svg_ns(s.xmlns) + "viewBox=\"0 0 "@ + dec((b.len() * s.xdim) as nat) + " "@ + dec(s.height as nat) + "\">"@
    + svg_rect(s.background, 0, (b.len() * s.xdim) as nat, s.height as nat) + svg_bars(s.foreground, b, s.xdim as nat, s.height as nat, b.len() as int) + "</svg>"@
}

=== trusted svg_Color_to_opacity(self_) -> r
ens C19 opacity: r@ =~= svg_opacity(self_.rgba@[3])
=== fn svg_Color_new(rgba) -> r
ens C19 rgba: r.rgba == rgba
=== fn svg_Color_black() -> r
ens C19 rgba: r.rgba@ =~= seq![0u8, 0, 0, 255]
=== fn svg_Color_white() -> r
ens C19 rgba: r.rgba@ =~= seq![255u8, 255, 255, 255]
=== fn svg_Color_to_hex(self_) -> r
ens C19 hex: r@ =~= svg_hex(self_)
cand: {a:String}@ =~= svg_hex(self_).take(2 * {i} as int)
cand: {a:String}@ =~= {a0} + svg_hex(self_).take(2 * {i} as int)
=== fn svg_SVG_new(height) -> r
ens C19 new: r.height == height && r.xdim == 1 && r.xmlns is None && r.foreground.rgba@ =~= seq![0u8, 0, 0, 255] && r.background.rgba@ =~= seq![255u8, 255, 255, 255]
=== fn svg_SVG_xmlns(self_, xmlns_uri) -> r
ens C19 set: r.xmlns == Some(xmlns_uri) && r.height == self_.height && r.xdim == self_.xdim && r.foreground == self_.foreground && r.background == self_.background
=== fn svg_SVG_xdim(self_, xdim) -> r
ens C19 set: r.xdim == xdim && r.height == self_.height && r.xmlns == self_.xmlns && r.foreground == self_.foreground && r.background == self_.background
=== fn svg_SVG_foreground(self_, color) -> r
ens C19 set: r.foreground == color && r.height == self_.height && r.xmlns == self_.xmlns && r.xdim == self_.xdim && r.background == self_.background
=== fn svg_SVG_background(self_, color) -> r
ens C19 set: r.background == color && r.height == self_.height && r.xmlns == self_.xmlns && r.xdim == self_.xdim && r.foreground == self_.foreground
=== fn svg_SVG_rect(self_, style, offset, width) -> r
pre: proof { reveal_strlit("1.00"); reveal_strlit("1"); reveal_strlit(""); }
ens C19 rect: r@ =~= svg_rect(if style == 1 { self_.foreground } else { self_.background }, offset as nat, width as nat, self_.height as nat)
=== fn svg_SVG_generate(self_, barcode) -> r
req bits: forall|k: int| 0 <= k < barcode@.len() ==> #[trigger] barcode@[k] <= 1
req fits: barcode@.len() * self_.xdim <= 0xffff_ffff && barcode@.len() <= 0xffff_ffff
ens C19 text: r is Ok && r->Ok_0@ =~= svg_text(*self_, barcode@)
pre: proof { reveal_strlit(""); assert forall|i: int, x: int| 0 <= i <= barcode@.len() && x == self_.xdim implies 0 <= #[trigger] (i * x) <= barcode@.len() * self_.xdim by { assert(0 <= i * x <= barcode@.len() * x) by (nonlinear_arith) requires 0 <= i <= barcode@.len(), x >= 0; } }
cand: {a:String}@ =~= svg_bars(self_.foreground, barcode@, self_.xdim as nat, self_.height as nat, {i} as int)
cand: {a:String}@ =~= {a0} + svg_bars(self_.foreground, barcode@, self_.xdim as nat, self_.height as nat, {i} as int)
cand: {a:u32} as int == {i} * self_.xdim
cand: {a:u32} as int == ({n} - {i}) * self_.xdim
step: assert({i} < {n} ==> ({i} + 1) * self_.xdim == {i} * self_.xdim + self_.xdim) by (nonlinear_arith);
step: assert(({n} - {i} - 1) * self_.xdim == ({n} - {i}) * self_.xdim - self_.xdim) by (nonlinear_arith);
