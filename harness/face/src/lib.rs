//! Non-generic entry points to the crate under test (so that its generic functions are compiled
//! here, where the guided search instruments them).  `k` is the number of a symbology in oracle.rs.
use barcoders::error::Result;
pub fn encode(k: usize, s: &str, built: &dyn Fn()) -> Result<Vec<u8>> {
    use barcoders::sym::{codabar::*, code11::*, code128::*, code39::*, code93::*, ean13::*, ean8::*, ean_supp::*, tf::*, upca::*};
    macro_rules! go { ($e:expr) => {{ let x = $e?; built(); Ok(x.encode()) }} }
    match k {
        0 => go!(EAN13::new(s)),
        1 => go!(Bookland::new(s)),
        2 => go!(JAN::new(s)),
        3 => go!(EAN8::new(s)),
        4 => go!(UPCA::new(s)),
        5 => go!(EANSUPP::new(s)),
        6 => go!(Code39::new(s)),
        7 => go!(Code39::with_checksum(s)),
        8 => go!(Code93::new(s)),
        9 => go!(Code11::new(s)),
        10 => go!(USD8::new(s)),
        11 => go!(Codabar::new(s)),
        12 => go!(TF::interleaved(s)),
        13 => go!(TF::standard(s)),
        14 => go!(Code128::new(s)),
        _ => unreachable!(),
    }
}
pub fn ascii(h: usize, x: usize, b: &[u8]) -> Result<String> { barcoders::generators::ascii::ASCII { height: h, xdim: x }.generate(b) }
pub fn json(h: usize, x: usize, b: &[u8]) -> Result<String> { barcoders::generators::json::JSON { height: h, xdim: x }.generate(b) }
pub fn svg(h: u32, x: u32, f: [u8; 4], g: [u8; 4], n: Option<String>, b: &[u8]) -> Result<String> {
    use barcoders::generators::svg::*;
    SVG { height: h, xdim: x, foreground: Color { rgba: f }, background: Color { rgba: g }, xmlns: n }.generate(b)
}
pub fn svg_built(h: u32, x: u32, f: [u8; 4], g: [u8; 4], n: Option<String>, b: &[u8]) -> Result<String> {
    use barcoders::generators::svg::*;
    let s = SVG::new(h).xdim(x).foreground(Color::new(f)).background(Color::new(g));
    match n { Some(u) => s.xmlns(u), None => s }.generate(b)
}
#[cfg(feature = "img")]
pub mod img {
    use barcoders::error::Result;
    use barcoders::generators::image::Image;
    pub fn buffer(i: &Image, b: &[u8]) -> Result<::image::RgbaImage> { i.generate_buffer(b) }
    pub fn file(i: &Image, b: &[u8]) -> Result<Vec<u8>> { i.generate(b) }
}
