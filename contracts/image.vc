=== spec
// ---- model of the image crate: every external_body function of this block is an assumed contract
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Rgba(pub [u8; 4]);
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum ImgFormat { Gif, Png, WebP, Jpeg, Bmp, Tiff, Ico, Tga, Pnm, Qoi }
/// w columns, h rows, px[y][x]
pub ghost struct Pic { pub w: int, pub h: int, pub px: Seq<Seq<Rgba>> }
impl Pic {
    pub open spec fn wf(self) -> bool { self.w >= 0 && self.h >= 0 && self.px.len() == self.h && (forall|y: int| 0 <= y < self.h ==> (#[trigger] self.px[y]).len() == self.w) }
    pub open spec fn at(self, x: int, y: int) -> Rgba { self.px[y][x] }
}
#[verifier::external_body]
pub struct ImgBuf { d: Vec<Rgba> }
impl ImgBuf { pub uninterp spec fn pic(&self) -> Pic; }
#[verifier::external_body]
pub struct DynImg { d: Vec<Rgba> }
impl DynImg { pub uninterp spec fn pic(&self) -> Pic; }
#[verifier::external_body]
pub struct ImgError { d: u8 }
/// the bytes are a file of that format which decodes to the picture
pub uninterp spec fn img_file(f: ImgFormat, p: Pic, bytes: Seq<u8>) -> bool;
/// the encoder of that format accepts the picture
pub uninterp spec fn img_can(f: ImgFormat, p: Pic) -> bool;

pub open spec fn pic_flat(w: int, h: int, c: Rgba) -> Pic { Pic { w, h, px: Seq::new(h as nat, |y: int| Seq::new(w as nat, |x: int| c)) } }
pub open spec fn rot90(p: Pic) -> Pic { Pic { w: p.h, h: p.w, px: Seq::new(p.w as nat, |y: int| Seq::new(p.h as nat, |x: int| p.px[p.h - 1 - x][y])) } }
pub open spec fn rot180(p: Pic) -> Pic { Pic { w: p.w, h: p.h, px: Seq::new(p.h as nat, |y: int| Seq::new(p.w as nat, |x: int| p.px[p.h - 1 - y][p.w - 1 - x])) } }
pub open spec fn rot270(p: Pic) -> Pic { Pic { w: p.h, h: p.w, px: Seq::new(p.w as nat, |y: int| Seq::new(p.h as nat, |x: int| p.px[x][p.w - 1 - y])) } }
pub open spec fn pic_fliph(p: Pic) -> Pic { Pic { w: p.w, h: p.h, px: Seq::new(p.h as nat, |y: int| Seq::new(p.w as nat, |x: int| p.px[y][p.w - 1 - x])) } }
pub open spec fn pic_flipv(p: Pic) -> Pic { Pic { w: p.w, h: p.h, px: Seq::new(p.h as nat, |y: int| Seq::new(p.w as nat, |x: int| p.px[p.h - 1 - y][x])) } }

#[verifier::external_body]
pub fn img_new(w: u32, h: u32) -> (r: ImgBuf)
    requires 4 * w * h <= 0x7fff_ffff_ffff_ffff
    ensures r.pic() == pic_flat(w as int, h as int, Rgba([0, 0, 0, 0])), r.pic().wf()
{ unimplemented!() }
#[verifier::external_body]
pub fn img_from_pixel(w: u32, h: u32, c: Rgba) -> (r: ImgBuf)
    requires 4 * w * h <= 0x7fff_ffff_ffff_ffff
    ensures r.pic() == pic_flat(w as int, h as int, c), r.pic().wf()
{ unimplemented!() }
#[verifier::external_body]
pub fn img_put_pixel(b: &mut ImgBuf, x: u32, y: u32, c: Rgba)
    requires x < old(b).pic().w, y < old(b).pic().h
    ensures final(b).pic().w == old(b).pic().w, final(b).pic().h == old(b).pic().h, final(b).pic().px == old(b).pic().px.update(y as int, old(b).pic().px[y as int].update(x as int, c)), old(b).pic().wf() ==> final(b).pic().wf()
{ unimplemented!() }
#[verifier::external_body]
pub fn img_get_pixel(b: &ImgBuf, x: u32, y: u32) -> (r: Rgba)
    requires x < b.pic().w, y < b.pic().h
    ensures r == b.pic().px[y as int][x as int]
{ unimplemented!() }
#[verifier::external_body]
pub fn img_width(b: &ImgBuf) -> (r: u32) ensures r == b.pic().w { unimplemented!() }
#[verifier::external_body]
pub fn img_height(b: &ImgBuf) -> (r: u32) ensures r == b.pic().h { unimplemented!() }
#[verifier::external_body]
pub fn img_clone(b: &ImgBuf) -> (r: ImgBuf) ensures r.pic() == b.pic() { unimplemented!() }
#[verifier::external_body]
pub fn img_rotate90(b: &ImgBuf) -> (r: ImgBuf) requires b.pic().wf() ensures r.pic() == rot90(b.pic()), r.pic().wf() { unimplemented!() }
#[verifier::external_body]
pub fn img_rotate180(b: &ImgBuf) -> (r: ImgBuf) requires b.pic().wf() ensures r.pic() == rot180(b.pic()), r.pic().wf() { unimplemented!() }
#[verifier::external_body]
pub fn img_rotate270(b: &ImgBuf) -> (r: ImgBuf) requires b.pic().wf() ensures r.pic() == rot270(b.pic()), r.pic().wf() { unimplemented!() }
#[verifier::external_body]
pub fn img_flip_horizontal(b: &ImgBuf) -> (r: ImgBuf) requires b.pic().wf() ensures r.pic() == pic_fliph(b.pic()), r.pic().wf() { unimplemented!() }
#[verifier::external_body]
pub fn img_flip_vertical(b: &ImgBuf) -> (r: ImgBuf) requires b.pic().wf() ensures r.pic() == pic_flipv(b.pic()), r.pic().wf() { unimplemented!() }
#[verifier::external_body]
pub fn dyn_rgba8(b: ImgBuf) -> (r: DynImg) ensures r.pic() == b.pic() { unimplemented!() }
#[verifier::external_body]
pub fn dyn_clone(b: &DynImg) -> (r: DynImg) ensures r.pic() == b.pic() { unimplemented!() }
#[verifier::external_body]
pub fn dyn_to_rgba8(b: &DynImg) -> (r: ImgBuf) ensures r.pic() == b.pic() { unimplemented!() }
#[verifier::external_body]
pub fn dyn_width(b: &DynImg) -> (r: u32) ensures r == b.pic().w { unimplemented!() }
#[verifier::external_body]
pub fn dyn_height(b: &DynImg) -> (r: u32) ensures r == b.pic().h { unimplemented!() }
#[verifier::external_body]
pub fn dyn_rotate90(b: &DynImg) -> (r: DynImg) requires b.pic().wf() ensures r.pic() == rot90(b.pic()), r.pic().wf() { unimplemented!() }
#[verifier::external_body]
pub fn dyn_rotate180(b: &DynImg) -> (r: DynImg) requires b.pic().wf() ensures r.pic() == rot180(b.pic()), r.pic().wf() { unimplemented!() }
#[verifier::external_body]
pub fn dyn_rotate270(b: &DynImg) -> (r: DynImg) requires b.pic().wf() ensures r.pic() == rot270(b.pic()), r.pic().wf() { unimplemented!() }
#[verifier::external_body]
pub fn dyn_fliph(b: &DynImg) -> (r: DynImg) requires b.pic().wf() ensures r.pic() == pic_fliph(b.pic()), r.pic().wf() { unimplemented!() }
#[verifier::external_body]
pub fn dyn_flipv(b: &DynImg) -> (r: DynImg) requires b.pic().wf() ensures r.pic() == pic_flipv(b.pic()), r.pic().wf() { unimplemented!() }
/// the encoder appends one file to an empty vector, and whether it does depends on the picture and the format alone
#[verifier::external_body]
pub fn dyn_write_to(b: &DynImg, out: &mut Vec<u8>, f: ImgFormat) -> (r: Result<(), ImgError>)
    requires old(out)@.len() == 0
    ensures r is Ok <==> img_can(f, b.pic()), r is Ok ==> img_file(f, b.pic(), final(out)@)
{ unimplemented!() }
// ---- end of the model

pub open spec fn img_h(s: image_Image) -> u32 { match s { image_Image::GIF { height, .. } => height, image_Image::PNG { height, .. } => height, image_Image::WEBP { height, .. } => height, image_Image::ImageBuffer { height, .. } => height } }
pub open spec fn img_x(s: image_Image) -> u32 { match s { image_Image::GIF { xdim, .. } => xdim, image_Image::PNG { xdim, .. } => xdim, image_Image::WEBP { xdim, .. } => xdim, image_Image::ImageBuffer { xdim, .. } => xdim } }
pub open spec fn img_r(s: image_Image) -> image_Rotation { match s { image_Image::GIF { rotation, .. } => rotation, image_Image::PNG { rotation, .. } => rotation, image_Image::WEBP { rotation, .. } => rotation, image_Image::ImageBuffer { rotation, .. } => rotation } }
pub open spec fn img_fg(s: image_Image) -> image_Color { match s { image_Image::GIF { foreground, .. } => foreground, image_Image::PNG { foreground, .. } => foreground, image_Image::WEBP { foreground, .. } => foreground, image_Image::ImageBuffer { foreground, .. } => foreground } }
pub open spec fn img_bg(s: image_Image) -> image_Color { match s { image_Image::GIF { background, .. } => background, image_Image::PNG { background, .. } => background, image_Image::WEBP { background, .. } => background, image_Image::ImageBuffer { background, .. } => background } }
pub open spec fn img_fmt(s: image_Image) -> ImgFormat { match s { image_Image::GIF { .. } => ImgFormat::Gif, image_Image::PNG { .. } => ImgFormat::Png, _ => ImgFormat::WebP } }

/// colour of column c: foreground over a bar, background otherwise
pub open spec fn img_col(s: image_Image, b: Seq<u8>, c: int) -> Rgba { if b[c / img_x(s) as int] == 1 { Rgba(img_fg(s).rgba) } else { Rgba(img_bg(s).rgba) } }
/// the picture before rotation
pub open spec fn img_base(s: image_Image, b: Seq<u8>) -> Pic {
    Pic { w: b.len() * img_x(s), h: img_h(s) as int, px: Seq::new(img_h(s) as nat, |y: int| Seq::new((b.len() * img_x(s)) as nat, |c: int| img_col(s, b, c))) }
}
pub open spec fn img_turn(r: image_Rotation, p: Pic) -> Pic {
    match r { image_Rotation::Zero => p, image_Rotation::Ninety => rot90(p), image_Rotation::OneEighty => rot180(p), image_Rotation::TwoSeventy => rot270(p) }
}
pub open spec fn img_pic(s: image_Image, b: Seq<u8>) -> Pic { img_turn(img_r(s), img_base(s, b)) }
pub open spec fn img_fits(s: image_Image, b: Seq<u8>) -> bool {
    &&& b.len() <= 0xffff_ffff && b.len() * img_x(s) <= 0xffff_ffff && 4 * (b.len() * img_x(s)) * img_h(s) <= 0x7fff_ffff_ffff_ffff
    &&& forall|k: int| 0 <= k < b.len() ==> #[trigger] b[k] <= 1
}
pub open spec fn img_defaults(r: image_Image, height: u32) -> bool {
    img_h(r) == height && img_x(r) == 1 && img_r(r) == image_Rotation::Zero && img_fg(r).rgba@ =~= seq![0u8, 0, 0, 255] && img_bg(r).rgba@ =~= seq![255u8, 255, 255, 255]
}
/// row by row: the rows above y and the first c columns of row y are finished
pub open spec fn img_rows(q: Pic, s: image_Image, b: Seq<u8>, y: int, c: int) -> bool {
    forall|u: int, v: int| #![trigger q.px[v][u]] 0 <= u < b.len() * img_x(s) && 0 <= v < img_h(s) && (v < y || v == y && u < c) ==> q.px[v][u] == img_col(s, b, u)
}
/// column by column: the columns before c and the first y rows of column c are finished
pub open spec fn img_cols(q: Pic, s: image_Image, b: Seq<u8>, c: int, y: int) -> bool {
    forall|u: int, v: int| #![trigger q.px[v][u]] 0 <= u < b.len() * img_x(s) && 0 <= v < img_h(s) && (u < c || u == c && v < y) ==> q.px[v][u] == img_col(s, b, u)
}
/// module by module, row by row inside: modules before i, then rows above y of module i, then p columns of row y of module i
pub open spec fn img_mods(q: Pic, s: image_Image, b: Seq<u8>, i: int, y: int, p: int) -> bool {
    forall|u: int, v: int| #![trigger q.px[v][u]] 0 <= u < b.len() * img_x(s) && 0 <= v < img_h(s) && (u < i * img_x(s) || u < i * img_x(s) + img_x(s) && v < y || u < i * img_x(s) + p && v == y) ==> q.px[v][u] == img_col(s, b, u)
}
/// the same three orders over a picture that starts in the background colour
pub open spec fn img_blank(s: image_Image) -> Rgba { Rgba(img_bg(s).rgba) }
pub open spec fn img_brows(q: Pic, s: image_Image, b: Seq<u8>, y: int, c: int) -> bool {
    forall|u: int, v: int| #![trigger q.px[v][u]] 0 <= u < b.len() * img_x(s) && 0 <= v < img_h(s) ==> q.px[v][u] == if v < y || v == y && u < c { img_col(s, b, u) } else { img_blank(s) }
}
pub open spec fn img_bcols(q: Pic, s: image_Image, b: Seq<u8>, c: int, y: int) -> bool {
    forall|u: int, v: int| #![trigger q.px[v][u]] 0 <= u < b.len() * img_x(s) && 0 <= v < img_h(s) ==> q.px[v][u] == if u < c || u == c && v < y { img_col(s, b, u) } else { img_blank(s) }
}
pub open spec fn img_bmods(q: Pic, s: image_Image, b: Seq<u8>, i: int, y: int, p: int) -> bool {
    forall|u: int, v: int| #![trigger q.px[v][u]] 0 <= u < b.len() * img_x(s) && 0 <= v < img_h(s) ==> q.px[v][u] == if u < i * img_x(s) || u < i * img_x(s) + img_x(s) && v < y || u < i * img_x(s) + p && v == y { img_col(s, b, u) } else { img_blank(s) }
}
pub open spec fn img_size(q: Pic, s: image_Image, b: Seq<u8>) -> bool { q.wf() && q.w == b.len() * img_x(s) && q.h == img_h(s) }
pub proof fn lemma_img_mul(n: int, x: int)
    requires n >= 0, x >= 0
    ensures forall|i: int| #![trigger i * x] 0 <= i <= n ==> 0 <= i * x <= n * x, forall|i: int| #![trigger i * x] 0 <= i < n ==> i * x + x <= n * x, forall|i: int| #![trigger (i + 1) * x] (i + 1) * x == i * x + x,
        forall|c: int, i: int| #![trigger c / x, i * x] i * x <= c < i * x + x && i >= 0 ==> c / x == i,
        forall|c: int| #![trigger c / x] 0 <= c < n * x ==> 0 <= c / x < n
{
    assert forall|i: int| #![trigger i * x] 0 <= i <= n implies 0 <= i * x <= n * x by { assert(0 <= i * x <= n * x) by (nonlinear_arith) requires 0 <= i <= n, x >= 0; }
    assert forall|i: int| #![trigger i * x] 0 <= i < n implies i * x + x <= n * x by { assert(i * x + x <= n * x) by (nonlinear_arith) requires 0 <= i < n, x >= 0; }
    assert forall|i: int| #![trigger (i + 1) * x] (i + 1) * x == i * x + x by { assert((i + 1) * x == i * x + x) by (nonlinear_arith); }
    assert forall|c: int, i: int| #![trigger c / x, i * x] i * x <= c < i * x + x && i >= 0 implies c / x == i by { assert(c / x == i) by (nonlinear_arith) requires i * x <= c < i * x + x, i >= 0; }
    assert forall|c: int| #![trigger c / x] 0 <= c < n * x implies 0 <= c / x < n by { assert(0 <= c / x < n) by (nonlinear_arith) requires 0 <= c < n * x, x >= 0, n >= 0; }
}
pub open spec fn img_done(q: Pic, s: image_Image, b: Seq<u8>) -> bool { img_rows(q, s, b, img_h(s) as int, 0) || img_cols(q, s, b, b.len() * img_x(s), 0) || img_mods(q, s, b, b.len() as int, 0, 0) || img_brows(q, s, b, img_h(s) as int, 0) || img_bcols(q, s, b, b.len() * img_x(s), 0) || img_bmods(q, s, b, b.len() as int, 0, 0) }
pub proof fn lemma_img_done(q: Pic, s: image_Image, b: Seq<u8>)
    requires img_size(q, s, b), img_done(q, s, b)
    ensures q == img_base(s, b)
{
    let o = img_base(s, b);
    assert forall|v: int| 0 <= v < img_h(s) implies #[trigger] q.px[v] =~= o.px[v] by {
        assert forall|u: int| 0 <= u < b.len() * img_x(s) implies #[trigger] q.px[v][u] == o.px[v][u] by { assert(o.px[v][u] == img_col(s, b, u)); }
    }
    assert(q.px =~= o.px);
}
=== fn image_Color_new(rgba) -> r
ens C20 rgba: r.rgba == rgba
=== fn image_Color_black() -> r
ens C20 rgba: r.rgba@ =~= seq![0u8, 0, 0, 255]
=== fn image_Color_white() -> r
ens C20 rgba: r.rgba@ =~= seq![255u8, 255, 255, 255]
=== fn image_Color_to_rgba(self_) -> r
ens C20 rgba: r == Rgba(self_.rgba)
=== fn image_Image_gif(height) -> r
ens C21 kind: r is GIF
ens C20 defaults: img_defaults(r, height)
=== fn image_Image_png(height) -> r
ens C21 kind: r is PNG
ens C20 defaults: img_defaults(r, height)
=== fn image_Image_webp(height) -> r
ens C21 kind: r is WEBP
ens C20 defaults: img_defaults(r, height)
=== fn image_Image_image_buffer(height) -> r
ens C21 kind: r is ImageBuffer
ens C20 defaults: img_defaults(r, height)
=== fn image_Image_place_pixels(self_, barcode) -> r
req fits: img_fits(*self_, barcode@)
ens C20 picture: r.pic() =~~= img_pic(*self_, barcode@)
ens C20 wf: r.pic().wf()
pre: proof { lemma_img_mul(barcode@.len() as int, img_x(*self_) as int); assert(4 * ((barcode@.len() * img_x(*self_)) as u32) * img_h(*self_) == 4 * (barcode@.len() * img_x(*self_)) * img_h(*self_)) by (nonlinear_arith) requires barcode@.len() * img_x(*self_) <= 0xffff_ffff; }
pre: proof { assert forall|q: Pic| #[trigger] img_size(q, *self_, barcode@) && img_done(q, *self_, barcode@) implies q == img_base(*self_, barcode@) by { lemma_img_done(q, *self_, barcode@); } }
cand: img_size({a:ImgBuf}.pic(), *self_, barcode@)
alt rows: img_rows({a:ImgBuf}.pic(), *self_, barcode@, {i} as int, 0)
alt rows: img_rows({a:ImgBuf}.pic(), *self_, barcode@, {o.i} as int, {i} as int)
alt rows: img_rows({a:ImgBuf}.pic(), *self_, barcode@, {o.i} as int, {i} * img_x(*self_))
alt rows: img_rows({a:ImgBuf}.pic(), *self_, barcode@, {o.i} as int, {o2.i} * img_x(*self_) + {i})
alt cols: img_cols({a:ImgBuf}.pic(), *self_, barcode@, {i} as int, 0)
alt cols: img_cols({a:ImgBuf}.pic(), *self_, barcode@, {o.i} as int, {i} as int)
alt cols: img_cols({a:ImgBuf}.pic(), *self_, barcode@, {i} * img_x(*self_), 0)
alt cols: img_cols({a:ImgBuf}.pic(), *self_, barcode@, {o.i} * img_x(*self_) + {i}, 0)
alt cols: img_cols({a:ImgBuf}.pic(), *self_, barcode@, {o.i} * img_x(*self_) + {o2.i}, {i} as int)
alt mods: img_mods({a:ImgBuf}.pic(), *self_, barcode@, {i} as int, 0, 0)
alt mods: img_mods({a:ImgBuf}.pic(), *self_, barcode@, {o.i} as int, {i} as int, 0)
alt mods: img_mods({a:ImgBuf}.pic(), *self_, barcode@, {o.i} as int, {o2.i} as int, {i} as int)
alt brows: img_brows({a:ImgBuf}.pic(), *self_, barcode@, {i} as int, 0)
alt brows: img_brows({a:ImgBuf}.pic(), *self_, barcode@, {o.i} as int, {i} * img_x(*self_))
alt brows: img_brows({a:ImgBuf}.pic(), *self_, barcode@, {o.i} as int, {o2.i} * img_x(*self_) + {i})
alt bcols: img_bcols({a:ImgBuf}.pic(), *self_, barcode@, {i} * img_x(*self_), 0)
alt bcols: img_bcols({a:ImgBuf}.pic(), *self_, barcode@, {o.i} * img_x(*self_) + {i}, 0)
alt bcols: img_bcols({a:ImgBuf}.pic(), *self_, barcode@, {o.i} * img_x(*self_) + {o2.i}, {i} as int)
alt bmods: img_bmods({a:ImgBuf}.pic(), *self_, barcode@, {i} as int, 0, 0)
alt bmods: img_bmods({a:ImgBuf}.pic(), *self_, barcode@, {o.i} as int, {i} as int, 0)
alt bmods: img_bmods({a:ImgBuf}.pic(), *self_, barcode@, {o.i} as int, {o2.i} as int, {i} as int)
=== fn image_Image_generate_buffer(self_, barcode) -> r
req fits: img_fits(self_, barcode@)
ens C20 buffer: r is Ok && r->Ok_0.pic() =~~= img_pic(self_, barcode@)
=== fn image_Image_generate(self_, barcode) -> r
req fits: img_fits(*self_, barcode@)
ens C21 refuse: *self_ is ImageBuffer ==> r == Err::<Vec<u8>, _>(error_Error::Generate)
ens C21 errors: r is Err ==> r->Err_0 == error_Error::Generate
ens C21 succeeds: !(*self_ is ImageBuffer) ==> (r is Ok <==> img_can(img_fmt(*self_), img_pic(*self_, barcode@)))
ens C21 file: r is Ok ==> img_file(img_fmt(*self_), img_pic(*self_, barcode@), r->Ok_0@)
