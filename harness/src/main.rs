//! Searches for an input on which the real crate breaks a property (the counterexample step of the
//! checks in /verif) and replays such inputs.  The oracle is oracle.rs / outputs below.
mod oracle;
mod gen;
#[cfg(feature = "guided")]
mod guided;
#[cfg(feature = "xlat")]
mod lowered;
use oracle::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ memory limit per case
struct Lim;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static ARMED: Cell<i64> = const { Cell::new(0) };
    static WID: Cell<usize> = const { Cell::new(usize::MAX) };
    static STAGE: Cell<&'static str> = const { Cell::new("") };
}
unsafe impl GlobalAlloc for Lim {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { note(l.size() as i64); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { note(-(l.size() as i64)); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { note(n as i64 - l.size() as i64); System.realloc(p, l, n) }
}
#[global_allocator]
static G: Lim = Lim;
fn note(n: i64) {
    let _ = ARMED.try_with(|a| {
        let lim = a.get();
        if lim > 0 {
            let v = LIVE.with(|l| { l.set(l.get() + n); l.get() });
            if v > lim {
                a.set(0);
                let w = WID.with(|w| w.get());
                let c = SLOTS.get(w).and_then(|s| s.lock().ok().and_then(|g| g.as_ref().map(|x| x.1.clone())));
                report(&c, "memory grows without bound (does not terminate)");
            }
        }
    });
}

// ------------------------------------------------------------------ cases
#[derive(Clone, Debug, PartialEq)]
pub enum Case {
    Sym(Sym, String),
    Pair(Sym, String, String),
    Huge(Sym, usize, char),
    Ascii(usize, usize, Vec<u8>),
    Json(usize, usize, Vec<u8>),
    Svg(u32, u32, [u8; 4], [u8; 4], Option<String>, Vec<u8>),
    Img(u8, u8, u32, u32, [u8; 4], [u8; 4], Vec<u8>),
}
fn hex(b: &[u8]) -> String { if b.is_empty() { "-".into() } else { b.iter().map(|x| format!("{:02x}", x)).collect() } }
fn unhex(s: &str) -> Vec<u8> { if s == "-" { vec![] } else { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() } }
fn a4(s: &str) -> [u8; 4] { let v = unhex(s); [v[0], v[1], v[2], v[3]] }
impl Case {
    fn ser(&self) -> String {
        match self {
            Case::Sym(s, d) => format!("sym {} {}", s.name(), hex(d.as_bytes())),
            Case::Pair(s, a, b) => format!("pair {} {} {}", s.name(), hex(a.as_bytes()), hex(b.as_bytes())),
            Case::Huge(s, n, c) => format!("huge {} {} {}", s.name(), n, *c as u32),
            Case::Ascii(h, x, b) => format!("ascii {} {} {}", h, x, hex(b)),
            Case::Json(h, x, b) => format!("json {} {} {}", h, x, hex(b)),
            Case::Svg(h, x, f, g, n, b) => format!("svg {} {} {} {} {} {}", h, x, hex(f), hex(g), match n { None => "none".into(), Some(s) => format!("={}", hex(s.as_bytes())) }, hex(b)),
            Case::Img(k, r, h, x, f, g, b) => format!("img {} {} {} {} {} {} {}", k, r, h, x, hex(f), hex(g), hex(b)),
        }
    }
    fn de(s: &str) -> Option<Case> {
        let w: Vec<&str> = s.split_whitespace().collect();
        let st = |x: &str| String::from_utf8(unhex(x)).unwrap();
        Some(match *w.first()? {
            "sym" => Case::Sym(Sym::by_name(w[1])?, st(w[2])),
            "pair" => Case::Pair(Sym::by_name(w[1])?, st(w[2]), st(w[3])),
            "huge" => Case::Huge(Sym::by_name(w[1])?, w[2].parse().ok()?, char::from_u32(w[3].parse().ok()?)?),
            "ascii" => Case::Ascii(w[1].parse().ok()?, w[2].parse().ok()?, unhex(w[3])),
            "json" => Case::Json(w[1].parse().ok()?, w[2].parse().ok()?, unhex(w[3])),
            "svg" => Case::Svg(w[1].parse().ok()?, w[2].parse().ok()?, a4(w[3]), a4(w[4]), if w[5] == "none" { None } else { Some(st(&w[5][1..])) }, unhex(w[6])),
            "img" => Case::Img(w[1].parse().ok()?, w[2].parse().ok()?, w[3].parse().ok()?, w[4].parse().ok()?, a4(w[5]), a4(w[6]), unhex(w[7])),
            _ => return None,
        })
    }
    fn show(&self) -> String {
        let cut = |s: String| if s.len() > 1500 { format!("{}... ({} bytes)", s.chars().take(1500).collect::<String>(), s.len()) } else { s };
        match self {
            Case::Sym(s, d) => cut(format!("{}({:?}) [{} bytes]", s.name(), d, d.len())),
            Case::Pair(s, a, b) => cut(format!("{}({:?}) and {}({:?})", s.name(), a, s.name(), b)),
            Case::Huge(s, n, c) => format!("{}({:?} repeated {} times)", s.name(), c, n),
            o => cut(format!("{:?}", o)),
        }
    }
}

// ------------------------------------------------------------------ the real code
#[derive(Clone, Debug, PartialEq)]
pub enum Out { Ok(Vec<u8>), Err(E), Other(String), Panic(String) }
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    STAGE.with(|s| s.set("constructor"));
    #[cfg(feature = "guided")]
    cov::start();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    #[cfg(feature = "guided")]
    cov::stop();
    match r {
        Ok(r) => Ok(r),
        Err(p) => Err(p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_else(|| "panic".into())),
    }
}
pub fn real(sym: Sym, s: &str) -> Out {
    use barcoders::error::Error;
    match guarded(|| face::encode(sym as usize, s, &|| STAGE.with(|s| s.set("encode")))) {
        Ok(Ok(b)) => Out::Ok(b),
        Ok(Err(Error::Character)) => Out::Err(E::Character), Ok(Err(Error::Length)) => Out::Err(E::Length), Ok(Err(Error::Checksum)) => Out::Err(E::Checksum),
        Ok(Err(e)) => Out::Other(format!("{:?}", e)),
        Err(p) => Out::Panic(format!("panic in {}: {}", STAGE.with(|s| s.get()), p)),
    }
}
fn bs(b: &[u8]) -> String {
    let s: String = b.iter().map(|x| if *x < 10 { (b'0' + x) as char } else { '?' }).collect();
    if s.len() > 700 { format!("{}... ({} modules)", &s[..700], s.len()) } else { s }
}
fn diff(exp: &[u8], got: &[u8]) -> String {
    let i = exp.iter().zip(got).position(|(a, b)| a != b).unwrap_or(exp.len().min(got.len()));
    format!("expected {}\n     got {}\nfirst difference at module {} (lengths {} and {})", bs(exp), bs(got), i, exp.len(), got.len())
}
pub fn prop_syms(prop: &str) -> Vec<Sym> {
    use Sym::*;
    match prop {
        "C01" => vec![Ean13, Bookland, Jan], "C02" => vec![Ean8], "C03" => vec![UpcA], "C04" => vec![Supp], "C05" => vec![C39, C39c], "C06" => vec![C93], "C07" => vec![C11, Usd8], "C08" => vec![Cbar], "C09" => vec![Itf], "C10" => vec![Stf], "C11" | "C12" => vec![C128],
        "C13" => vec![Ean13, Ean8, UpcA, Supp, C39, C39c, C93, C11, Cbar, Itf, Stf],
        "C14" => vec![Ean13, Ean8, UpcA],
        "C15" | "C16" => vec![Ean13, Ean8, UpcA, Supp, C39, C39c, C93, C11, Cbar, Itf, Stf, C128],
        _ => vec![],
    }
}
/// what a data string represents: the data with the library's own check digit where it appends one
fn canon(sym: Sym, s: &str) -> String {
    match sym.base() {
        Sym::Ean13 => s[..12].into(), Sym::Ean8 => s[..7].into(), Sym::UpcA => s[..11].into(),
        Sym::Itf if s.len() % 2 == 1 => { let d: Vec<u8> = s.bytes().map(|b| b - b'0').collect(); format!("{}{}", s, check10(&d, 3)) }
        _ => s.into(),
    }
}
/// None when the property holds on this case
pub fn check(t: &Tables, prop: &str, c: &Case) -> Option<String> {
    #[cfg(feature = "xlat")]
    { let _ = (t, prop); translation(c) }
    #[cfg(not(feature = "xlat"))]
    against_oracle(t, prop, c)
}
/// None when the translated text does what the real code does
#[cfg(feature = "xlat")]
fn translation(c: &Case) -> Option<String> {
    match c {
        Case::Sym(sym, s) => {
            let low = match guarded(|| lowered::sym(*sym, s)) { Ok(None) => return None, Ok(Some(o)) => o, Err(p) => Out::Panic(p) };
            let r = real(*sym, s);
            if r == low || matches!((&r, &low), (Out::Panic(_), Out::Panic(_))) { None } else { Some(format!("real code {}\ntranslation {}", short(&r), short(&low))) }
        }
        Case::Ascii(..) | Case::Json(..) | Case::Svg(..) => {
            if let Case::Svg(_, x, _, _, _, b) = c { if b.len() as u64 * *x as u64 > u32::MAX as u64 { return None; } }
            let low = match guarded(|| lowered::text(c)) { Ok(None) => return None, Ok(Some(o)) => o, Err(p) => format!("panic {}", p) };
            let r = guarded(|| match c {
                Case::Ascii(h, x, b) => face::ascii(*h, *x, b),
                Case::Json(h, x, b) => face::json(*h, *x, b),
                Case::Svg(h, x, f, g, n, b) => face::svg(*h, *x, *f, *g, n.clone(), b),
                _ => unreachable!(),
            });
            match r { Ok(Ok(s)) if s == low => None, Ok(Err(_)) if low == "Err" => None, Err(_) if low.starts_with("panic ") => None, _ => Some("text generator and translation differ".into()) }
        }
        _ => None,
    }
}
#[cfg_attr(feature = "xlat", allow(dead_code))]
/// None when the property holds on this case
fn against_oracle(t: &Tables, prop: &str, c: &Case) -> Option<String> {
    match c {
        Case::Sym(sym, s) => {
            let r = real(*sym, s);
            match prop {
                "C13" => {
                    let (lo, hi, a) = rule(*sym)?;
                    let exp = if s.len() < lo || s.len() > hi || (sym.base() == Sym::Supp && s.len() != 2 && s.len() != 5 && s.chars().all(|c| a.contains(c))) { Some(E::Length) } else if !s.chars().all(|c| a.contains(c)) { Some(E::Character) } else { None };
                    match (exp, &r) {
                        (Some(e), Out::Err(g)) if e == *g => None,
                        (Some(e), _) => Some(format!("must be refused with Err({:?}), got {:?}", e, short(&r))),
                        (None, Out::Ok(_)) => None,
                        (None, Out::Err(E::Checksum)) if matches!(sym.base(), Sym::Ean13 | Sym::Ean8 | Sym::UpcA) && s.len() == hi => None,
                        (None, Out::Panic(p)) if p.starts_with("panic in encode") => None,
                        (None, _) => Some(format!("must be accepted, got {:?}", short(&r))),
                    }
                }
                "C12" => {
                    match (values128(t, s), &r) {
                        (Err(e), Out::Err(g)) if e == *g => None,
                        (Err(e), _) => Some(format!("must be refused with Err({:?}), got {:?}", e, short(&r))),
                        (Ok(v), Out::Ok(b)) => {
                            let e = encode(t, *sym, s);
                            let n = v.len() * 11;
                            if b.len() < n || b[..n] != e[..n] { Some(format!("symbol values must be {:?}\n{}", &v[..v.len().min(100)], diff(&e, b))) } else if b.len() != e.len() { Some(format!("{} symbol values expected: {:?}\n{}", v.len(), &v[..v.len().min(100)], diff(&e, b))) } else { None }
                        }
                        (Ok(_), Out::Panic(p)) if p.starts_with("panic in encode") => Some(p.clone()),
                        (Ok(_), _) => Some(format!("must be accepted, got {:?}", short(&r))),
                    }
                }
                "C14" => {
                    let (_, hi, a) = rule(*sym)?;
                    if s.len() != hi || !s.chars().all(|c| a.contains(c)) { return None; }
                    match (accept(t, *sym, s), &r) {
                        (Ok(()), Out::Ok(b)) => match real(*sym, &s[..hi - 1]) { Out::Ok(b2) if b2 == *b => None, x => Some(format!("barcode differs from the one without check digit\n{:?}\n{:?}", short(&r), short(&x))) },
                        (Ok(()), _) => Some(format!("check digit is correct, but got {:?}", short(&r))),
                        (Err(_), Out::Err(E::Checksum)) => None,
                        (Err(_), _) => Some(format!("wrong check digit must be refused with Err(Checksum), got {:?}", short(&r))),
                    }
                }
                "C15" => match &r {
                    Out::Panic(p) => Some(p.clone()),
                    Out::Ok(b) => {
                        if b.is_empty() { Some("barcode is empty".into()) }
                        else if b.iter().any(|x| *x > 1) { Some(format!("barcode holds a value other than 0 and 1: {:?}", b)) }
                        else if b[0] != 1 || b[b.len() - 1] != if *sym == Sym::Stf { 0 } else { 1 } { Some(format!("barcode does not begin and end with a bar: {}", bs(b))) }
                        else { None }
                    }
                    _ => None,
                },
                _ => {
                    if accept(t, *sym, s).is_err() { return None; }
                    match &r {
                        Out::Ok(b) => {
                            let e = encode(t, *sym, s);
                            if e != *b { return Some(diff(&e, b)); }
                            if *sym == Sym::C39 || *sym == Sym::C39c {
                                use barcoders::sym::code39::*;
                                let f = guarded(|| { let mut c = if *sym == Sym::C39 { Code39::new(s) } else { Code39::with_checksum(s) }.unwrap(); c.checksum = !c.checksum; c.encode() });
                                let e = encode(t, if *sym == Sym::C39 { Sym::C39c } else { Sym::C39 }, s);
                                return match f { Ok(b) if b == e => None, Ok(b) => Some(format!("with the public field `checksum` flipped:\n{}", diff(&e, &b))), Err(p) => Some(p) };
                            }
                            None
                        }
                        Out::Panic(p) => Some(p.clone()),
                        _ => None,
                    }
                }
            }
        }
        Case::Pair(sym, a, b) => {
            if accept(t, *sym, a).is_err() || accept(t, *sym, b).is_err() || canon(*sym, a) == canon(*sym, b) { return None; }
            match (real(*sym, a), real(*sym, b)) { (Out::Ok(x), Out::Ok(y)) if x == y => Some(format!("different data, same barcode {}", bs(&x))), _ => None }
        }
        Case::Huge(sym, n, c) => {
            let s: String = std::iter::repeat(*c).take(*n).collect();
            let (lo, hi, _) = rule(*sym)?;
            assert!(*n < lo || *n > hi);
            let r = real(*sym, &s);
            if r == Out::Err(E::Length) { None } else { Some(format!("must be refused with Err(Length), got {:?}", short(&r))) }
        }
        Case::Ascii(h, x, b) => {
            let row: String = b.iter().flat_map(|m| std::iter::repeat(if *m == 1 { '#' } else { ' ' }).take(*x)).collect();
            let exp = vec![row; *h].join("\n");
            cmp_text(&exp, guarded(|| face::ascii(*h, *x, b)))
        }
        Case::Json(h, x, b) => {
            let l: Vec<&str> = b.iter().map(|m| if *m == 0 { "0" } else { "1" }).collect();
            let exp = format!("{{\"height\":{},\"xdim\":{},\"encoding\":[{}]}}", h, x, l.join(","));
            cmp_text(&exp, guarded(|| face::json(*h, *x, b)))
        }
        Case::Svg(h, x, f, g, n, b) => {
            let w = b.len() as u64 * *x as u64;
            if w > u32::MAX as u64 { return None; }
            let rect = |at: u64, w: u64, c: &[u8; 4]| {
                let pc = (c[3] as u64 * 200 + 255) / 510; // alpha / 255 in hundredths, rounded to nearest
                let op = if pc == 100 { String::new() } else { format!(" fill-opacity=\"{}.{:02}\" ", pc / 100, pc % 100) };
                format!("<rect x=\"{}\" y=\"0\" width=\"{}\" height=\"{}\" fill=\"#{:02x}{:02x}{:02x}\"{}/>", at, w, h, c[0], c[1], c[2], op)
            };
            let mut exp = format!("<svg version=\"1.1\" {}viewBox=\"0 0 {} {}\">{}", match n { Some(u) => format!("xmlns=\"{}\" ", u), None => String::new() }, w, h, rect(0, w, g));
            for (i, m) in b.iter().enumerate() { if *m == 1 { exp += &rect(i as u64 * *x as u64, *x as u64, f); } }
            exp += "</svg>";
            let a = guarded(|| face::svg(*h, *x, *f, *g, n.clone(), b));
            cmp_text(&exp, a).or_else(|| {
                let a = guarded(|| face::svg_built(*h, *x, *f, *g, n.clone(), b));
                cmp_text(&exp, a).map(|m| format!("through the builder methods: {}", m))
            })
        }
        #[cfg(feature = "img")]
        Case::Img(..) => img::check(prop, c),
        #[cfg(not(feature = "img"))]
        Case::Img(..) => None,
    }
}
fn short(o: &Out) -> String { match o { Out::Ok(b) => format!("Ok({})", bs(b)), Out::Err(e) => format!("Err({:?})", e), Out::Other(s) => format!("Err({})", s), Out::Panic(p) => p.clone() } }
fn cmp_text(exp: &str, got: Result<barcoders::error::Result<String>, String>) -> Option<String> {
    match got {
        Ok(Ok(s)) if s == exp => None,
        Ok(Ok(s)) => {
            let i = s.bytes().zip(exp.bytes()).position(|(a, b)| a != b).unwrap_or(s.len().min(exp.len()));
            let w = |t: &str| String::from_utf8_lossy(&t.as_bytes()[i.saturating_sub(60)..t.len().min(i + 60)]).into_owned();
            Some(format!("output differs at byte {} (expected {} bytes, got {})\nexpected ...{:?}...\n     got ...{:?}...", i, exp.len(), s.len(), w(exp), w(&s)))
        }
        Ok(Err(e)) => Some(format!("Err({:?})", e)),
        Err(p) => Some(format!("panic: {}", p)),
    }
}

#[cfg(feature = "img")]
mod img {
    use super::*;
    use barcoders::generators::image::{Color, Image, Rotation};
    use barcoders::error::Error;
    use ::image::{ImageBuffer, ImageFormat, Rgba, RgbaImage};
    pub fn picture(r: u8, h: u32, x: u32, f: [u8; 4], g: [u8; 4], b: &[u8]) -> RgbaImage {
        let w = b.len() as u32 * x;
        let px = |col: u32| Rgba(if b[(col / x) as usize] == 0 { g } else { f });
        match r {
            1 => ImageBuffer::from_fn(h, w, |_, y| px(y)),
            2 => ImageBuffer::from_fn(w, h, |cx, _| px(w - 1 - cx)),
            3 => ImageBuffer::from_fn(h, w, |_, y| px(w - 1 - y)),
            _ => ImageBuffer::from_fn(w, h, |cx, _| px(cx)),
        }
    }
    fn value(k: u8, r: u8, h: u32, x: u32, f: [u8; 4], g: [u8; 4]) -> Image {
        let (height, xdim, foreground, background) = (h, x, Color::new(f), Color::new(g));
        let rotation = match r { 1 => Rotation::Ninety, 2 => Rotation::OneEighty, 3 => Rotation::TwoSeventy, _ => Rotation::Zero };
        match k {
            0 => Image::GIF { height, xdim, rotation, foreground, background },
            1 => Image::PNG { height, xdim, rotation, foreground, background },
            2 => Image::WEBP { height, xdim, rotation, foreground, background },
            _ => Image::ImageBuffer { height, xdim, rotation, foreground, background },
        }
    }
    pub fn check(prop: &str, c: &Case) -> Option<String> {
        let Case::Img(k, r, h, x, f, g, b) = c else { return None };
        if b.len() as u64 * *x as u64 > u32::MAX as u64 { return None; }
        let exp = picture(*r, *h, *x, *f, *g, b);
        if prop == "C20" {
            return match guarded(|| face::img::buffer(&value(*k, *r, *h, *x, *f, *g), b)) {
                Ok(Ok(i)) => cmp(&exp, &i, false),
                Ok(Err(e)) => Some(format!("Err({:?})", e)),
                Err(p) => Some(format!("panic: {}", p)),
            };
        }
        let fmt = match k { 0 => ImageFormat::Gif, 1 => ImageFormat::Png, 2 => ImageFormat::WebP, _ => ImageFormat::Tiff };
        let got = match guarded(|| face::img::file(&value(*k, *r, *h, *x, *f, *g), b)) { Ok(x) => x, Err(p) => return Some(format!("panic: {}", p)) };
        if *k == 3 { return if got == Err(Error::Generate) { None } else { Some(format!("generate on an image buffer must be Err(Generate), got {} bytes", got.map(|v| v.len()).unwrap_or(0))) }; }
        if exp.width() == 0 || exp.height() == 0 { return match got { Ok(_) | Err(Error::Generate) => None, Err(e) => Some(format!("Err({:?})", e)) }; }
        match got {
            Ok(bytes) => {
                if ::image::guess_format(&bytes).ok() != Some(fmt) { return Some(format!("the file is not of format {:?}", fmt)); }
                match ::image::load_from_memory_with_format(&bytes, fmt) { Ok(i) => cmp(&exp, &i.to_rgba8(), *k == 0), Err(e) => {
                    // a limit of the image crate (16384-pixel WebP) unless the file differs from its own encoding of the right picture
                    let mut v = vec![];
                    let _ = ::image::DynamicImage::ImageRgba8(exp).write_to(&mut std::io::Cursor::new(&mut v), fmt);
                    if v == bytes { None } else { Some(format!("the file does not decode: {}", e)) }
                } }
            }
            Err(Error::Generate) => {
                // legitimate only when the encoder itself refuses this picture
                let mut v = vec![];
                match ::image::DynamicImage::ImageRgba8(exp).write_to(&mut std::io::Cursor::new(&mut v), fmt) { Ok(()) => Some("Err(Generate), but the encoder accepts this picture".into()), Err(_) => None }
            }
            Err(e) => Some(format!("Err({:?})", e)),
        }
    }
    fn cmp(exp: &RgbaImage, got: &RgbaImage, gif: bool) -> Option<String> {
        if exp.dimensions() != got.dimensions() { return Some(format!("picture is {:?}, expected {:?}", got.dimensions(), exp.dimensions())); }
        for (p, q) in exp.enumerate_pixels().zip(got.enumerate_pixels()) {
            let (e, g) = (p.2 .0, q.2 .0);
            let same = if gif { if e[3] == 0 { g[3] == 0 } else { g == [e[0], e[1], e[2], 255] } } else { e == g };
            if !same { return Some(format!("pixel ({}, {}) is {:?}, expected {:?}{}", p.0, p.1, g, e, if gif { " (alpha reduced to one bit)" } else { "" })); }
        }
        None
    }
}

// ------------------------------------------------------------------ running
const NSLOT: usize = 64;
#[allow(clippy::declare_interior_mutable_const)]
const EMPTY: Mutex<Option<(Instant, Case)>> = Mutex::new(None);
static SLOTS: [Mutex<Option<(Instant, Case)>>; NSLOT] = [EMPTY; NSLOT];
static FOUND: AtomicBool = AtomicBool::new(false);
static EVALS: AtomicU64 = AtomicU64::new(0);
static NONTRIV: AtomicU64 = AtomicU64::new(0);
static MEM: i64 = 3 << 30;

fn report(c: &Option<Case>, msg: &str) -> ! {
    if FOUND.swap(true, Ordering::SeqCst) { loop { std::thread::sleep(Duration::from_secs(1)); } }
    if let Some(c) = c { println!("CE {}\nSHOW {}", c.ser(), c.show().replace('\n', "\nSHOW ")); }
    println!("MSG {}", msg.replace('\n', "\nMSG "));
    println!("EVALS {} {}", EVALS.load(Ordering::Relaxed), NONTRIV.load(Ordering::Relaxed));
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(3)
}
pub struct Worker<'a> { pub id: usize, pub n: usize, pub k: u64, pub prop: &'a str, pub t: &'a Tables, pub end: Instant, pub evals: u64, pub nontriv: u64, pub trace: bool, pub samples: Vec<String> }
impl Worker<'_> {
    /// one case; false when the time is over
    pub fn one(&mut self, c: Case) -> bool {
        if self.trace { eprintln!("{}", c.ser()); }
        if self.id < NSLOT { *SLOTS[self.id].lock().unwrap() = Some((Instant::now(), c.clone())); }
        let big = matches!(c, Case::Huge(..));
        ARMED.with(|a| a.set(if big { 0 } else { MEM }));
        let before = LIVE.with(|l| { l.set(0); 0 });
        let r = check(self.t, self.prop, &c);
        ARMED.with(|a| a.set(0));
        let _ = before;
        if self.id < NSLOT { SLOTS[self.id].lock().unwrap().take(); }
        if let Some(m) = r { let (c, m) = shrink(self.t, self.prop, c, m); report(&Some(c), &m); }
        self.evals += 1;
        if nontrivial(self.t, self.prop, &c) { self.nontriv += 1; }
        if self.id == 0 && self.samples.len() < 4 && self.evals % 97 == 3 { self.samples.push(c.show().chars().take(200).collect()); }
        if self.evals % 64 == 0 { EVALS.fetch_add(64, Ordering::Relaxed); if Instant::now() > self.end { return false; } }
        true
    }
    /// systematic case number k belongs to one worker
    pub fn sys(&mut self, c: impl FnOnce() -> Case) -> bool {
        self.k += 1;
        if self.k % self.n as u64 != self.id as u64 { return true; }
        self.one(c())
    }
}
/// data cases count as non-trivial when the oracle accepts the data (for C12/C13/C15 also refusals), output cases when they have at least one bar
fn nontrivial(t: &Tables, prop: &str, c: &Case) -> bool {
    match c { Case::Sym(s, d) => matches!(prop, "C12" | "C13" | "C15") || accept(t, *s, d).is_ok(), Case::Pair(..) | Case::Huge(..) => true, Case::Ascii(_, _, b) | Case::Json(_, _, b) | Case::Svg(_, _, _, _, _, b) | Case::Img(_, _, _, _, _, _, b) => b.iter().any(|x| *x == 1) }
}
fn shrink(t: &Tables, prop: &str, c: Case, m: String) -> (Case, String) {
    let (mut c, mut m) = (c, m);
    let end = Instant::now() + Duration::from_secs(3);
    loop {
        let mut nx: Vec<Case> = vec![];
        match &c {
            Case::Sym(s, d) if d.len() <= 3000 => {
                let ch: Vec<char> = d.chars().collect();
                for k in [ch.len() / 2, ch.len() / 4, 2, 1] { if k > 0 && k < ch.len() { for i in (0..=ch.len() - k).step_by(k.max(1)) { nx.push(Case::Sym(*s, ch[..i].iter().chain(&ch[i + k..]).collect())); } } }
                for i in 0..ch.len() { if ch[i] != '0' { let mut x = ch.clone(); x[i] = '0'; nx.push(Case::Sym(*s, x.into_iter().collect())); } }
            }
            Case::Ascii(h, x, b) => { for (h, x) in [(1, *x), (*h, 1), (h / 2, *x), (*h, x / 2)] { nx.push(Case::Ascii(h, x, b.clone())); } for b in bar_cuts(b) { nx.push(Case::Ascii(*h, *x, b)); } }
            Case::Json(h, x, b) => { for b in bar_cuts(b) { nx.push(Case::Json(*h, *x, b)); } }
            Case::Svg(h, x, f, g, n, b) => { for b in bar_cuts(b) { nx.push(Case::Svg(*h, *x, *f, *g, n.clone(), b)); } nx.push(Case::Svg(*h, *x, *f, *g, None, b.clone())); nx.push(Case::Svg(1, *x, *f, *g, n.clone(), b.clone())); nx.push(Case::Svg(*h, 1, *f, *g, n.clone(), b.clone())); nx.push(Case::Svg(*h, *x, [0, 0, 0, 255], *g, n.clone(), b.clone())); nx.push(Case::Svg(*h, *x, *f, [255; 4], n.clone(), b.clone())); }
            Case::Img(k, r, h, x, f, g, b) => { for b in bar_cuts(b) { nx.push(Case::Img(*k, *r, *h, *x, *f, *g, b)); } nx.push(Case::Img(*k, 0, *h, *x, *f, *g, b.clone())); nx.push(Case::Img(*k, *r, 1, *x, *f, *g, b.clone())); nx.push(Case::Img(*k, *r, *h, 1, *f, *g, b.clone())); nx.push(Case::Img(*k, *r, *h, *x, [0, 0, 0, 255], [255; 4], b.clone())); }
            _ => {}
        }
        let mut hit = false;
        for x in nx {
            if Instant::now() > end { return (c, m); }
            if x == c { continue; }
            ARMED.with(|a| a.set(0));
            if let Some(m2) = check(t, prop, &x) { c = x; m = m2; hit = true; break; }
        }
        if !hit { return (c, m); }
    }
}
fn bar_cuts(b: &[u8]) -> Vec<Vec<u8>> {
    let mut o = vec![];
    for k in [b.len() / 2, b.len() / 4, 1] { if k > 0 && b.len() >= k { for i in (0..=b.len() - k).step_by(k) { let mut x = b[..i].to_vec(); x.extend_from_slice(&b[i + k..]); o.push(x); } } }
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).map(|i| a[i + 1].clone());
    std::panic::set_hook(Box::new(|_| {}));
    let mut t = Tables::new();
    // known findings that the current tree still shows: --known cbarB,cbarC,cbar+,c128del
    for k in opt("--known").unwrap_or_default().split(',') {
        match k {
            "cbarB" => t.cb[pos(ACB, 'B')] = bits("1010010011"),
            "cbarC" => t.cb[pos(ACB, 'C')] = bits("1001001011"),
            "cbar+" => t.cb[pos(ACB, '+')] = bits("101100110011"),
            "c128del" => t.del = '\u{f7}',
            _ => {}
        }
    }
    if a.iter().any(|x| x == "--probe") {
        // which of the recorded findings does this tree show?
        let p = |s: Sym, d: &str| match real(s, d) { Out::Ok(b) => b, _ => vec![] };
        for (k, d, dev) in [("cbarB", "B", "1010010011"), ("cbarC", "C", "1001001011"), ("cbar+", "+", "101100110011")] { if p(Sym::Cbar, d) == bits(dev) { println!("KNOWN {}", k); } }
        if real(Sym::C128, "Ɓ\u{7f}") == Out::Err(E::Character) { println!("KNOWN c128del"); }
        return;
    }
    let prop = opt("--prop").unwrap();
    if let Some(f) = opt("--replay") {
        let txt = std::fs::read_to_string(&f).unwrap();
        let mut bad = false;
        for l in txt.lines() {
            let l = l.strip_prefix("CE ").unwrap_or(l);
            if let Some(c) = Case::de(l) {
                match check(&t, &prop, &c) { Some(m) => { println!("CE {}\nSHOW {}\nMSG {}", c.ser(), c.show(), m.replace('\n', "\nMSG ")); bad = true; } None => println!("OK {}", c.show()) }
            }
        }
        std::process::exit(if bad { 3 } else { 0 });
    }
    let secs: f64 = opt("--secs").unwrap().parse().unwrap();
    let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    #[cfg(feature = "guided")]
    let n = 1usize;
    #[cfg(not(feature = "guided"))]
    let n: usize = opt("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let deep = a.iter().any(|x| x == "--deep");
    let trace = a.iter().any(|x| x == "--trace");
    let dict = gen::Dict::load(opt("--dict").as_deref());
    let start = Instant::now();
    let end = start + Duration::from_secs_f64(secs);
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        for s in SLOTS.iter() {
            if let Ok(g) = s.lock() {
                if let Some((at, c)) = g.as_ref() {
                    if at.elapsed() > Duration::from_secs(if matches!(c, Case::Huge(..)) { 600 } else { 20 }) { let c = c.clone(); drop(g); report(&Some(c), "no result after 20 s (does not terminate)"); }
                }
            }
        }
    });
    let mut res = vec![];
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..n).map(|id| {
            let (t, prop, dict) = (&t, &prop[..], &dict);
            std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, move || {
                WID.with(|w| w.set(id));
                let mut w = Worker { id, n, k: 0, prop, t, end, evals: 0, nontriv: 0, trace, samples: vec![] };
                #[cfg(feature = "guided")]
                let complete = { let _ = deep; guided::run(&mut w, dict, seed); false };
                #[cfg(not(feature = "guided"))]
                let complete = gen::run(&mut w, dict, seed, deep);
                (w.evals, w.nontriv, complete, w.samples)
            }).unwrap()
        }).collect();
        for h in hs { res.push(h.join().unwrap()); }
    });
    if FOUND.load(Ordering::SeqCst) { std::thread::sleep(Duration::from_secs(30)); }
    println!("DONE {} {} {}", res.iter().map(|r| r.0).sum::<u64>(), res.iter().map(|r| r.1).sum::<u64>(), res.iter().all(|r| r.2));
    for r in &res { for s in &r.3 { println!("SAMPLE {}", s.replace('\n', "\\n")); } }
}
