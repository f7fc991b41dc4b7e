//! The symbologies as the standards describe them, written from the standards and not from /repo.
//! Element widths (bar, space, bar, ...) are the source of every pattern.

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Sym { Ean13, Bookland, Jan, Ean8, UpcA, Supp, C39, C39c, C93, C11, Usd8, Cbar, Itf, Stf, C128 }
pub const SYMS: [Sym; 15] = [Sym::Ean13, Sym::Bookland, Sym::Jan, Sym::Ean8, Sym::UpcA, Sym::Supp, Sym::C39, Sym::C39c, Sym::C93, Sym::C11, Sym::Usd8, Sym::Cbar, Sym::Itf, Sym::Stf, Sym::C128];
impl Sym {
    pub fn name(self) -> &'static str {
        use Sym::*;
        match self { Ean13 => "EAN13::new", Bookland => "Bookland::new", Jan => "JAN::new", Ean8 => "EAN8::new", UpcA => "UPCA::new", Supp => "EANSUPP::new", C39 => "Code39::new", C39c => "Code39::with_checksum", C93 => "Code93::new", C11 => "Code11::new", Usd8 => "USD8::new", Cbar => "Codabar::new", Itf => "TF::interleaved", Stf => "TF::standard", C128 => "Code128::new" }
    }
    pub fn by_name(s: &str) -> Option<Sym> { SYMS.iter().copied().find(|x| x.name() == s) }
    /// aliases behave like the symbology they name
    pub fn base(self) -> Sym { match self { Sym::Bookland | Sym::Jan => Sym::Ean13, Sym::Usd8 => Sym::C11, x => x } }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum E { Character, Length, Checksum }

pub const A39: &str = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%";
pub const A93: &str = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%()[]";
pub const A11: &str = "0123456789-";
pub const ACB: &str = "0123456789-$:/.+ABCD";
pub const A10: &str = "0123456789";
const W39: &str = "1112212111 2112111121 1122111121 2122111111 1112211121 2112211111 1122211111 1112112121 2112112111 1122112111 2111121121 1121121121 2121121111 1111221121 2111221111 1121221111 1111122121 2111122111 1121122111 1111222111 2111111221 1121111221 2121111211 1111211221 2111211211 1121211211 1111112221 2111112211 1121112211 1111212211 2211111121 1221111121 2221111111 1211211121 2211211111 1221211111 1211112121 2211112111 1221112111 1212121111 1212111211 1211121211 1112121211";
const W39G: &str = "1211212111";
const W93: &str = "131112 111213 111312 111411 121113 121212 121311 111114 131211 141111 211113 211212 211311 221112 221211 231111 112113 112212 112311 122112 132111 111123 111222 111321 121122 131121 212112 212211 211122 211221 221121 222111 112122 112221 122121 123111 121131 311112 311211 321111 112131 113121 211131 121221 312111 311121 122211";
const W93G: &str = "111141";
const W11: &str = "111121 211121 121121 221111 112121 212111 122111 111221 211211 211111 112111";
const W11G: &str = "112211";
const WCB: &str = "11111221 11112211 11121121 22111111 11211211 21111211 12111121 12112111 12211111 21121111 11122111 11221111 21112121 21211121 21212111 11212121 11221211 12121121 11121221 11122211";
const WTF: [&str; 10] = ["NNWWN", "WNNNW", "NWNNW", "WWNNN", "NNWNW", "WNWNN", "NWWNN", "NNNWW", "WNNWN", "NWNWN"];
const W128: &str = "212222 222122 222221 121223 121322 131222 122213 122312 132212 221213 221312 231212 112232 122132 122231 113222 123122 123221 223211 221132 221231 213212 223112 312131 311222 321122 321221 312212 322112 322211 212123 212321 232121 111323 131123 131321 112313 132113 132311 211313 231113 231311 112133 112331 132131 113123 113321 133121 313121 211331 231131 213113 213311 213131 311123 311321 331121 312113 312311 332111 314111 221411 431111 111224 111422 121124 121421 141122 141221 112214 112412 122114 122411 142112 142211 241211 221114 413111 241112 134111 111242 121142 121241 114212 124112 124211 411212 421112 421211 212141 214121 412121 111143 111341 131141 114113 114311 411113 411311 113141 114131 311141 411131 211412 211214 211232";
/// left-hand odd (set A) widths, space first
const WEAN: [&str; 10] = ["3211", "2221", "2122", "1411", "1132", "1231", "1114", "1312", "1213", "3112"];
const PAR13: [&str; 10] = ["AAAAAA", "AABABB", "AABBAB", "AABBBA", "ABAABB", "ABBAAB", "ABBBAA", "ABABAB", "ABABBA", "ABBABA"];
const PAR5: [&str; 10] = ["BBAAA", "BABAA", "BAABA", "BAAAB", "ABBAA", "AABBA", "AAABB", "ABABA", "ABAAB", "AABAB"];
const PAR2: [&str; 4] = ["AA", "AB", "BA", "BB"];

pub fn bits(s: &str) -> Vec<u8> { s.bytes().map(|b| b - b'0').collect() }
fn mods(w: &str, n: usize, first: u8) -> Vec<u8> {
    let mut o = vec![];
    for (i, c) in w.bytes().take(n).enumerate() { for _ in 0..c - b'0' { o.push(first ^ (i as u8 & 1)); } }
    o
}
pub struct Tables { c39: Vec<Vec<u8>>, c93: Vec<Vec<u8>>, c11: Vec<Vec<u8>>, pub cb: Vec<Vec<u8>>, c128: Vec<Vec<u8>>, ean: [Vec<Vec<u8>>; 3], g39: Vec<u8>, g93: Vec<u8>, g11: Vec<u8>, pub del: char }
impl Tables {
    pub fn new() -> Tables {
        let sp = |s: &str, n| s.split(' ').map(|w| mods(w, n, 1)).collect::<Vec<_>>();
        let a: Vec<Vec<u8>> = WEAN.iter().map(|w| mods(w, 4, 0)).collect();
        let c: Vec<Vec<u8>> = a.iter().map(|p| p.iter().map(|b| 1 - b).collect()).collect();
        let b: Vec<Vec<u8>> = c.iter().map(|p| p.iter().rev().copied().collect()).collect();
        Tables { c39: sp(W39, 9), c93: sp(W93, 6), c11: sp(W11, 5), cb: sp(WCB, 7), c128: sp(W128, 6), ean: [a, b, c], g39: mods(W39G, 9, 1), g93: mods(W93G, 6, 1), g11: mods(W11G, 5, 1), del: '\u{7f}' }
    }
}
pub fn pos(a: &str, c: char) -> usize { a.chars().position(|x| x == c).unwrap() }
/// modulo-10 check digit with weight w for the 1st, 3rd, ... and 4 - w for the 2nd, 4th, ...
pub fn check10(d: &[u8], w: u64) -> u8 {
    let s: u64 = d.iter().enumerate().map(|(i, &x)| x as u64 * if i % 2 == 0 { w } else { 4 - w }).sum();
    ((10 - s % 10) % 10) as u8
}
fn dig(s: &str) -> Vec<u8> { s.bytes().map(|b| b - b'0').collect() }
fn gen_parse(s: &str, lo: usize, hi: usize, a: &str) -> Result<(), E> {
    if s.len() < lo || s.len() > hi { return Err(E::Length); }
    if s.chars().all(|c| a.contains(c)) { Ok(()) } else { Err(E::Character) }
}
/// length and character rule alone (C13); None for Code 128
pub fn rule(sym: Sym) -> Option<(usize, usize, &'static str)> {
    Some(match sym.base() { Sym::Ean13 => (12, 13, A10), Sym::Ean8 => (7, 8, A10), Sym::UpcA => (11, 12, A10), Sym::Supp => (2, 5, A10), Sym::C39 | Sym::C39c => (1, 256, A39), Sym::C93 => (1, 256, A93), Sym::C11 => (1, 256, A11), Sym::Cbar => (1, 256, ACB), Sym::Itf | Sym::Stf => (1, 256, A10), _ => return None })
}
pub fn accept(t: &Tables, sym: Sym, s: &str) -> Result<(), E> {
    let sym = sym.base();
    if let Some((lo, hi, a)) = rule(sym) {
        gen_parse(s, lo, hi, a)?;
        let (full, w) = match sym { Sym::Ean13 => (13, 1), Sym::Ean8 => (8, 3), Sym::UpcA => (12, 3), Sym::Supp => { return if s.len() == 2 || s.len() == 5 { Ok(()) } else { Err(E::Length) } } _ => return Ok(()) };
        let d = dig(s);
        if d.len() == full && check10(&d[..full - 1], w) != d[full - 1] { return Err(E::Checksum); }
        Ok(())
    } else { values128(t, s).map(|_| ()) }
}
fn wsum(v: &[usize], cyc: usize, m: usize) -> usize { v.iter().rev().enumerate().map(|(i, x)| x * (i % cyc + 1)).sum::<usize>() % m }
/// the symbol for accepted data
pub fn encode(t: &Tables, sym: Sym, s: &str) -> Vec<u8> {
    let mut o = vec![];
    let x = |o: &mut Vec<u8>, p: &[u8]| o.extend_from_slice(p);
    match sym.base() {
        Sym::Ean13 => {
            let mut d = dig(&s[..12]); d.push(check10(&d, 1));
            x(&mut o, &[1, 0, 1]);
            for i in 1..7 { let set = if PAR13[d[0] as usize].as_bytes()[i - 1] == b'A' { 0 } else { 1 }; x(&mut o, &t.ean[set][d[i] as usize]); }
            x(&mut o, &[0, 1, 0, 1, 0]);
            for i in 7..13 { x(&mut o, &t.ean[2][d[i] as usize]); }
            x(&mut o, &[1, 0, 1]);
        }
        Sym::Ean8 | Sym::UpcA => {
            let h = if sym == Sym::Ean8 { 4 } else { 6 };
            let mut d = dig(&s[..2 * h - 1]); d.push(check10(&d, 3));
            x(&mut o, &[1, 0, 1]);
            for i in 0..h { x(&mut o, &t.ean[0][d[i] as usize]); }
            x(&mut o, &[0, 1, 0, 1, 0]);
            for i in h..2 * h { x(&mut o, &t.ean[2][d[i] as usize]); }
            x(&mut o, &[1, 0, 1]);
        }
        Sym::Supp => {
            let d = dig(s);
            let p = if d.len() == 2 { PAR2[(d[0] as usize * 10 + d[1] as usize) % 4] } else { PAR5[(d.iter().enumerate().map(|(i, &v)| v as usize * if i % 2 == 0 { 3 } else { 9 }).sum::<usize>()) % 10] };
            x(&mut o, &[1, 0, 1, 1]);
            for i in 0..d.len() { if i > 0 { x(&mut o, &[0, 1]); } x(&mut o, &t.ean[(p.as_bytes()[i] - b'A') as usize][d[i] as usize]); }
        }
        Sym::C39 | Sym::C39c => {
            let v: Vec<usize> = s.chars().map(|c| pos(A39, c)).collect();
            x(&mut o, &t.g39);
            for &i in &v { o.push(0); x(&mut o, &t.c39[i]); }
            if sym == Sym::C39c { o.push(0); x(&mut o, &t.c39[v.iter().sum::<usize>() % 43]); }
            o.push(0); x(&mut o, &t.g39);
        }
        Sym::C93 => {
            let mut v: Vec<usize> = s.chars().map(|c| pos(A93, c)).collect();
            v.push(wsum(&v, 20, 47)); v.push(wsum(&v, 15, 47));
            x(&mut o, &t.g93);
            for &i in &v { x(&mut o, &t.c93[i]); }
            x(&mut o, &t.g93); o.push(1);
        }
        Sym::C11 => {
            let mut v: Vec<usize> = s.chars().map(|c| pos(A11, c)).collect();
            let n = v.len();
            v.push(wsum(&v, 10, 11)); if n > 10 { v.push(wsum(&v, 9, 11)); }
            x(&mut o, &t.g11);
            for &i in &v { o.push(0); x(&mut o, &t.c11[i]); }
            o.push(0); x(&mut o, &t.g11);
        }
        Sym::Cbar => for (i, c) in s.chars().enumerate() { if i > 0 { o.push(0); } x(&mut o, &t.cb[pos(ACB, c)]); },
        Sym::Itf => {
            let mut d = dig(s); if d.len() % 2 == 1 { d.push(check10(&d, 3)); }
            x(&mut o, &[1, 0, 1, 0]);
            for p in d.chunks(2) { for i in 0..5 { for k in 0..2 { for _ in 0..if WTF[p[k] as usize].as_bytes()[i] == b'W' { 3 } else { 1 } { o.push(1 - k as u8); } } } }
            x(&mut o, &[1, 1, 0, 1]);
        }
        Sym::Stf => {
            x(&mut o, &bits("11011010"));
            for d in dig(s) { for b in WTF[d as usize].bytes() { x(&mut o, if b == b'W' { &[1, 1, 1, 0] } else { &[1, 0] }); } }
            x(&mut o, &bits("11010110"));
        }
        Sym::C128 => {
            let v = values128(t, s).unwrap();
            let ck = v.iter().enumerate().map(|(i, &x)| x as u64 * i.max(1) as u64).sum::<u64>() % 103;
            for &i in &v { x(&mut o, &t.c128[i]); }
            x(&mut o, &t.c128[ck as usize]); x(&mut o, &bits("1100011101011"));
        }
        _ => unreachable!(),
    }
    o
}
pub fn value128(t: &Tables, set: usize, c: char) -> Option<usize> {
    let n = c as usize;
    match (set, c) {
        (_, '\u{179}') => return Some(102),
        (0, 'Ć') | (1, 'Ć') => return Some(99),
        (0, 'Ɓ') | (2, 'Ɓ') => return Some(100),
        (1, 'À') | (2, 'À') => return Some(101),
        (0, '\u{17C}') => return Some(101),
        (1, '\u{17C}') => return Some(100),
        (0, '\u{17B}') | (1, '\u{17B}') => return Some(96),
        (0, '\u{17A}') | (1, '\u{17A}') => return Some(97),
        (0, '\u{17D}') | (1, '\u{17D}') => return Some(98),
        _ => {}
    }
    match set {
        0 if n < 32 => Some(n + 64),
        0 if n < 96 => Some(n - 32),
        1 if c == t.del => Some(95),
        1 if (32..127).contains(&n) => Some(n - 32),
        _ => None,
    }
}
fn set128(c: char) -> Option<usize> { match c { 'À' => Some(0), 'Ɓ' => Some(1), 'Ć' => Some(2), _ => None } }
pub fn values128(t: &Tables, s: &str) -> Result<Vec<usize>, E> {
    if s.len() < 2 { return Err(E::Length); }
    let c: Vec<char> = s.chars().collect();
    let mut set = set128(c[0]).ok_or(E::Character)?;
    let mut v = vec![103 + set];
    let mut i = 1;
    while i < c.len() {
        if set == 2 && c[i].is_ascii_digit() {
            match c.get(i + 1) { Some(d) if d.is_ascii_digit() => { v.push((c[i] as usize - 48) * 10 + *d as usize - 48); i += 2; continue; } _ => return Err(E::Character) }
        }
        v.push(value128(t, set, c[i]).ok_or(E::Character)?);
        if let Some(n) = set128(c[i]) { set = n; }
        i += 1;
    }
    Ok(v)
}
