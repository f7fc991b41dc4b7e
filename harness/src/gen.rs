//! Case generation: systematic families first, then random cases until the time is over.
use crate::oracle::*;
use crate::{prop_syms, real, Case, Out, Worker};
use std::collections::HashMap;
use std::time::Instant;

pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Rng { let mut r = Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03); for _ in 0..8 { r.next(); } r }
    pub fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) }
    pub fn below(&mut self, n: usize) -> usize { ((self.next() >> 33) as usize) % n.max(1) }
    pub fn chance(&mut self, n: usize) -> bool { self.below(n) == 0 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
}
/// string, character and number literals found in the source under test
#[derive(Default)]
pub struct Dict { pub words: Vec<String>, pub chars: Vec<char>, pub nums: Vec<u64> }
impl Dict {
    pub fn load(f: Option<&str>) -> Dict {
        let mut d = Dict::default();
        if let Some(s) = f.and_then(|f| std::fs::read_to_string(f).ok()) {
            for l in s.lines() {
                if let Some(x) = l.strip_prefix("W ") { d.words.push(x.into()); }
                if let Some(x) = l.strip_prefix("C ") { d.chars.extend(x.parse().ok().and_then(char::from_u32)); }
                if let Some(x) = l.strip_prefix("N ") { d.nums.extend(x.parse::<u64>().ok()); }
            }
        }
        for n in d.nums.clone() { d.words.push(n.to_string()); }
        d.words.sort(); d.words.dedup();
        d
    }
}
pub const FOREIGN: &[char] = &['٠', '０', '９', '𝟎', 'é', 'ß', 'K', 'ı', 'À', 'Ɓ', 'Ć', '\u{179}', '\u{17a}', '\u{17b}', '\u{17c}', '\u{17d}', '\u{7f}', '\u{80}', '\u{f7}', '\u{ff}', '\u{100}', '\u{130}', '\u{131}', '\u{139}', '\u{13a}', '\u{141}', '\u{1030}', '\u{2030}', '\u{10030}', '\u{10ffff}', '\u{feff}', '\u{2160}', '²', '½', 'a', 'z'];
pub fn alpha(sym: Sym) -> Vec<char> { rule(sym).map(|r| r.2).unwrap_or(A10).chars().collect() }
fn lens(sym: Sym) -> Vec<usize> { match sym.base() { Sym::Supp => vec![2, 5], s => { let (a, b, _) = rule(s).unwrap(); (a..=b).collect() } } }
pub fn with_check(sym: Sym, s: &str) -> String {
    let d: Vec<u8> = s.bytes().map(|b| b.wrapping_sub(b'0')).collect();
    format!("{}{}", s, check10(&d, if sym.base() == Sym::Ean13 { 1 } else { 3 }))
}
fn is_ean(sym: Sym) -> Option<usize> { match sym.base() { Sym::Ean13 => Some(12), Sym::Ean8 => Some(7), Sym::UpcA => Some(11), _ => None } }

macro_rules! go { ($e:expr) => { if !$e { return false; } } }

/// true when everything systematic was done before the time was over
pub fn run(w: &mut Worker, d: &Dict, seed: u64, deep: bool) -> bool {
    let syms = prop_syms(w.prop);
    let mut r = Rng::new(seed * 1000 + w.id as u64);
    let mut complete = true;
    if w.prop == "C16" {
        for s in &syms { if !pairs(w, *s, d, seed) { complete = false; break; } }
        while Instant::now() < w.end { let s = *r.pick(&syms); neighbours(w, s, d, &mut r); }
        return complete;
    }
    if !syms.is_empty() {
        for s in &syms { if !systematic(w, *s, d, seed) { complete = false; break; } }
        if complete && deep && w.prop == "C13" && w.id == 0 { for s in &syms { for n in [1usize, 2, 5, 7, 8, 11, 12, 13, 256] { let (lo, hi, _) = rule(*s).unwrap(); if n >= lo && n <= hi && (n == lo) { w.end += std::time::Duration::from_secs(120); w.one(Case::Huge(*s, (1usize << 32) + n, '0')); } } } }
        if complete && deep && w.prop == "C02" { exhaustive8(w); }
        loop { let s = *r.pick(&syms); let c = random(w, s, d, &mut r); if !w.one(Case::Sym(s, c)) { break; } }
        return complete;
    }
    let okay = outputs(w, d, &mut Rng::new(seed));
    loop { let c = rnd_out(w.prop, d, &mut r); if !w.one(c) { break; } }
    okay
}
fn exhaustive8(w: &mut Worker) { for i in 0..10_000_000u32 { if !w.sys(|| Case::Sym(Sym::Ean8, format!("{:07}", i))) { return; } } }

// ------------------------------------------------------------------ data
fn systematic(w: &mut Worker, sym: Sym, d: &Dict, seed: u64) -> bool {
    if sym == Sym::C128 { return sys128(w, d, seed); }
    let a = alpha(sym);
    let ls = lens(sym);
    let mut r = Rng::new(seed + 77);
    let rs = |r: &mut Rng, n: usize| -> String { (0..n).map(|_| *r.pick(&a)).collect() };
    // literals of the source as data
    for x in &d.words { go!(w.sys(|| Case::Sym(sym, x.clone()))); if is_ean(sym) == Some(x.len()) { go!(w.sys(|| Case::Sym(sym, with_check(sym, x)))); } }
    if ls.len() > 20 {
        for x in &a { go!(w.sys(|| Case::Sym(sym, x.to_string()))); for y in &a { go!(w.sys(|| Case::Sym(sym, [*x, *y].iter().collect()))); } }
        if a.len() <= 20 { for x in &a { for y in &a { for z in &a { go!(w.sys(|| Case::Sym(sym, [*x, *y, *z].iter().collect()))); } } } }
        for n in 1..=256usize {
            for c in [a[0], a[1 % a.len()], a[a.len() - 1], a[9]] { go!(w.sys(|| Case::Sym(sym, c.to_string().repeat(n)))); }
            go!(w.sys(|| Case::Sym(sym, (0..n).map(|i| a[i % a.len()]).collect())));
            for _ in 0..4 { let s = rs(&mut r, n); go!(w.sys(|| Case::Sym(sym, s))); }
        }
        for n in [3usize, 5, 10, 11, 12, 15, 16, 20, 21, 31, 40, 255, 256] {
            let b: Vec<char> = rs(&mut r, n).chars().collect();
            for i in 0..n { for c in &a { go!(w.sys(|| { let mut x = b.clone(); x[i] = *c; Case::Sym(sym, x.into_iter().collect()) })); } }
        }
    } else if sym.base() == Sym::Supp {
        for i in 0..100 { go!(w.sys(|| Case::Sym(sym, format!("{:02}", i)))); }
        for i in 0..100000 { go!(w.sys(|| Case::Sym(sym, format!("{:05}", i)))); }
    } else if let Some(n) = is_ean(sym) {
        let mut bases: Vec<Vec<char>> = (0..10).map(|k| vec![a[k]; n]).collect();
        for _ in 0..10 { bases.push(rs(&mut r, n).chars().collect()); }
        for b in &bases { for i in 0..n { for c in &a { go!(w.sys(|| { let mut x = b.clone(); x[i] = *c; Case::Sym(sym, x.into_iter().collect()) })); } } }
        for b in bases.iter().skip(8).take(6) { for i in 0..n { for j in 0..i { for v in 0..100 { go!(w.sys(|| { let mut x = b.clone(); x[i] = a[v / 10]; x[j] = a[v % 10]; Case::Sym(sym, x.into_iter().collect()) })); } } } }
        // all ten check digits
        for b in &bases { for i in 0..n { for c in &a { for k in &a { go!(w.sys(|| { let mut x = b.clone(); x[i] = *c; x.push(*k); Case::Sym(sym, x.into_iter().collect()) })); } } } }
    }
    if matches!(w.prop, "C13" | "C15") {
        let (lo, hi, _) = rule(sym).unwrap();
        // every length, valid characters; and lengths near powers of two
        let mut ns: Vec<usize> = (0..=520).collect();
        for k in [1000usize, 1024, 4096, 32768, 65535, 65536, 65536 + lo, 65536 + hi, 65537, 131072 + lo, 200_000, 1 << 20, (1 << 20) + lo, 1 << 24, (1 << 24) + hi] { ns.push(k); }
        for n in d.nums.iter().filter(|n| **n < 1 << 22) { for k in n.saturating_sub(1)..=n + 1 { ns.push(k as usize); } }
        for &n in &ns { go!(w.sys(|| Case::Sym(sym, (0..n).map(|i| a[(i * 7 + 3) % a.len()]).collect()))); }
        // every single foreign character at every position of every allowed length class
        let all: Vec<char> = (0u32..0x250).filter_map(char::from_u32).chain(FOREIGN.iter().copied()).chain(d.chars.iter().copied()).collect();
        for n in [lo, hi, (lo + hi) / 2, 2, 3, 4, 5] {
            if n < lo || n > hi { continue; }
            for &c in &all { for i in [0, 1, n / 2, n - 1] { if i < n { go!(w.sys(|| { let mut x: Vec<char> = (0..n).map(|k| a[(k * 3 + 1) % a.len()]).collect(); x[i] = c; let mut s: String = x.iter().collect(); if !a.contains(&c) && c.len_utf8() > 1 { while s.len() > n && x.len() > 1 { let last = if i == x.len() - 1 { 0 } else { x.len() - 1 }; x.remove(last); s = x.iter().collect(); if x.len() <= i { break; } } } Case::Sym(sym, s) })); } } }
            if n > 13 { let mut q = Rng::new(seed + n as u64); for i in 0..n { let c = *q.pick(&all); go!(w.sys(|| { let mut x: Vec<char> = (0..n).map(|k| a[k % a.len()]).collect(); x[i] = c; Case::Sym(sym, x.into_iter().collect()) })); } }
        }
        for c in (0u32..0x110000).step_by(1).filter_map(char::from_u32) { if c as u32 > 0x3000 && (c as u32) % 97 != 0 && w.prop != "C13" { continue; } if lo == 1 { go!(w.sys(|| Case::Sym(sym, c.to_string()))); } else if (c as u32) < 0x3000 { go!(w.sys(|| { let mut s = c.to_string(); while s.len() < lo { s.push('1'); } Case::Sym(sym, s) })); } }
    }
    true
}
fn item128(r: &mut Rng, set: usize, valid: bool) -> (String, usize) {
    if !valid && r.chance(8) { return (match r.below(4) { 0 => r.pick(FOREIGN).to_string(), 1 => char::from_u32(r.below(0x200) as u32).unwrap().to_string(), 2 => ((b'0' + r.below(10) as u8) as char).to_string(), _ => r.pick(&['À', 'Ɓ', 'Ć']).to_string() }, set); }
    if r.chance(6) {
        let (s, n) = match (set, r.below(2)) { (0, 0) => ('Ɓ', 1), (0, _) => ('Ć', 2), (1, 0) => ('À', 0), (1, _) => ('Ć', 2), (_, 0) => ('À', 0), _ => ('Ɓ', 1) };
        return (s.to_string(), n);
    }
    if r.chance(8) { return (if set == 2 { "\u{179}".into() } else { r.pick(&['\u{179}', '\u{17a}', '\u{17b}', '\u{17c}', '\u{17d}']).to_string() }, set); }
    (match set { 0 => char::from_u32(r.below(96) as u32).unwrap().to_string(), 1 => char::from_u32(32 + r.below(95) as u32).unwrap().to_string(), _ => format!("{:02}", r.below(100)) }, set)
}
fn rnd128(r: &mut Rng, valid: bool, n: usize) -> String {
    let mut set = r.below(3);
    let mut s = ['À', 'Ɓ', 'Ć'][set].to_string();
    for _ in 0..n { let (x, k) = item128(r, set, valid); s += &x; set = k; }
    s
}
fn sys128(w: &mut Worker, d: &Dict, seed: u64) -> bool {
    let st = ['À', 'Ɓ', 'Ć'];
    let mut all: Vec<String> = (0u32..0x200).filter_map(char::from_u32).chain(FOREIGN.iter().copied()).chain(d.chars.iter().copied()).map(|c| c.to_string()).collect();
    all.extend((0..100).map(|i| format!("{:02}", i)));
    for x in &d.words { go!(w.sys(|| Case::Sym(Sym::C128, x.clone()))); for c in st { go!(w.sys(|| Case::Sym(Sym::C128, format!("{}{}", c, x)))); } }
    go!(w.sys(|| Case::Sym(Sym::C128, String::new())));
    for x in &all { go!(w.sys(|| Case::Sym(Sym::C128, x.clone()))); }
    for c in st { for x in &all { go!(w.sys(|| Case::Sym(Sym::C128, format!("{}{}", c, x)))); } }
    for c in st { for x in &all { for e in st { go!(w.sys(|| Case::Sym(Sym::C128, format!("{}{}{}", c, x, e)))); go!(w.sys(|| Case::Sym(Sym::C128, format!("{}{}{}", c, e, x)))); } go!(w.sys(|| Case::Sym(Sym::C128, format!("{}12{}", c, x)))); go!(w.sys(|| Case::Sym(Sym::C128, format!("{}1{}2", c, x)))); go!(w.sys(|| Case::Sym(Sym::C128, format!("{}{}34", c, x)))); } }
    // all strings of up to 5 items over a small alphabet of classes
    let cl = ["À", "Ɓ", "Ć", "1", "a", "A", "\u{179}", "\u{17c}", "\u{1}"];
    for n in 1..=5u32 { for k in 0..(cl.len() as u32).pow(n) { go!(w.sys(|| { let mut x = k; let mut s = String::new(); for _ in 0..n { s += cl[(x as usize) % cl.len()]; x /= cl.len() as u32; } Case::Sym(Sym::C128, s) })); } }
    // long data for the check symbol
    let mut r = Rng::new(seed + 5);
    for n in (1..400).chain([500, 1000, 2000, 5000, 20000]) { for _ in 0..3 { let s = rnd128(&mut r, true, n); go!(w.sys(|| Case::Sym(Sym::C128, s))); } }
    for n in long_lens(d) { let s = rnd128(&mut r, true, n); go!(w.sys(|| Case::Sym(Sym::C128, s))); }
    for n in [65534usize, 65535, 65536, 65537, 66000, 200_000] { for (c, x) in [('À', "_"), ('Ɓ', "~"), ('Ć', "99")] { go!(w.sys(|| Case::Sym(Sym::C128, format!("{}{}", c, x.repeat(n))))); } }
    true
}
/// random data, mostly accepted
pub fn random(w: &Worker, sym: Sym, d: &Dict, r: &mut Rng) -> String {
    let wild = matches!(w.prop, "C12" | "C13" | "C15");
    if wild && r.chance(12) { // arbitrary text
        let n = if r.chance(3) { r.below(300) } else { r.below(16) };
        return (0..n).map(|_| match r.below(4) { 0 => *r.pick(FOREIGN), 1 => char::from_u32(r.below(0x250) as u32).unwrap(), 2 => (b'0' + r.below(10) as u8) as char, _ => (32 + r.below(95) as u8) as char }).collect();
    }
    if sym == Sym::C128 {
        let n = match r.below(20) { 0 => r.below(400), 1 => 100 + r.below(10), 2..=5 => r.below(40), _ => r.below(12) };
        let v = !wild || r.chance(2);
        let mut s = rnd128(r, v, n);
        if !d.words.is_empty() && r.chance(6) { let x = r.pick(&d.words).clone(); let mut c: Vec<char> = s.chars().collect(); let k = 1 + r.below(c.len()); let k = k.min(c.len()); c.splice(k..k, x.chars()); s = c.into_iter().collect(); }
        return s;
    }
    let a = alpha(sym);
    let ls = lens(sym);
    let n = if ls.len() > 20 { match r.below(8) { 0 => 1 + r.below(256), 1 => *r.pick(&[1, 2, 9, 10, 11, 12, 14, 15, 16, 19, 20, 21, 22, 30, 40, 41, 63, 64, 65, 127, 128, 129, 200, 254, 255, 256]), 2 => 20 + r.below(60), _ => 1 + r.below(24) } } else { *r.pick(&ls) };
    let mut c: Vec<char> = match r.below(6) {
        0 => { let x = *r.pick(&a); vec![x; n] }
        1 => { let (x, y) = (*r.pick(&a), *r.pick(&a)); (0..n).map(|_| if r.chance(3) { x } else { y }).collect() }
        2 => { let mut o = vec![]; while o.len() < n { let x = *r.pick(&a); for _ in 0..1 + r.below(6) { o.push(x); } } o.truncate(n); o }
        _ => (0..n).map(|_| *r.pick(&a)).collect(),
    };
    if !d.words.is_empty() && r.chance(5) {
        let x: Vec<char> = r.pick(&d.words).chars().collect();
        if x.len() <= n && !x.is_empty() { let k = match r.below(3) { 0 => 0, 1 => n - x.len(), _ => r.below(n - x.len() + 1) }; for (i, y) in x.iter().enumerate() { if a.contains(y) || wild { c[k + i] = *y; } } }
    }
    let mut s: String = c.into_iter().collect();
    if let Some(m) = is_ean(sym) {
        if s.len() > m { s.truncate(m); let k = with_check(sym, &s); s = if r.chance(2) && w.prop != "C01" && w.prop != "C02" && w.prop != "C03" { format!("{}{}", s, r.below(10)) } else { k }; }
        else if w.prop == "C14" { s = if r.chance(2) { with_check(sym, &s) } else { format!("{}{}", s, r.below(10)) }; }
    }
    if wild && r.chance(3) {
        let mut x: Vec<char> = s.chars().collect();
        for _ in 0..1 + r.below(2) {
            let k = r.below(x.len() + 1);
            match r.below(4) { 0 if k < x.len() => { x.remove(k); } 1 => x.insert(k, *r.pick(&a)), 2 if k < x.len() => x[k] = *r.pick(FOREIGN), _ if k < x.len() => x[k] = char::from_u32(r.below(128) as u32).unwrap(), _ => {} }
        }
        s = x.into_iter().collect();
    }
    s
}
// ------------------------------------------------------------------ C16
fn put(w: &mut Worker, m: &mut HashMap<Vec<u8>, String>, sym: Sym, s: String) -> bool {
    if let Out::Ok(b) = real(sym, &s) {
        w.nontriv += 1;
        if let Some(o) = m.get(&b) { if *o != s { let o = o.clone(); return w.one(Case::Pair(sym, o, s)); } } else { m.insert(b, s); }
    }
    w.evals += 1;
    w.evals % 64 != 0 || Instant::now() < w.end
}
fn pairs(w: &mut Worker, sym: Sym, d: &Dict, _seed: u64) -> bool {
    // short strings: all of them in one map, in one worker per symbology
    let k = prop_syms("C16").iter().position(|x| *x == sym).unwrap();
    if k % w.n != w.id { return true; }
    let mut m = HashMap::new();
    let a = alpha(sym);
    for x in &d.words { go!(put(w, &mut m, sym, x.clone())); }
    if sym == Sym::C128 {
        for st in ['À', 'Ɓ', 'Ć'] {
            let one: Vec<String> = (0u32..0x180).filter_map(char::from_u32).map(|c| c.to_string()).chain((0..100).map(|i| format!("{:02}", i))).collect();
            for x in &one { go!(put(w, &mut m, sym, format!("{}{}", st, x))); }
            for x in &one { for y in &one { if x.len() + y.len() <= 4 { go!(put(w, &mut m, sym, format!("{}{}{}", st, x, y))); } } }
        }
    } else if sym == Sym::Supp {
        for i in 0..100 { go!(put(w, &mut m, sym, format!("{:02}", i))); }
        for i in 0..100000 { go!(put(w, &mut m, sym, format!("{:05}", i))); }
    } else if is_ean(sym).is_none() {
        for x in &a { go!(put(w, &mut m, sym, x.to_string())); for y in &a { go!(put(w, &mut m, sym, [*x, *y].iter().collect())); for z in &a { go!(put(w, &mut m, sym, [*x, *y, *z].iter().collect())); } } }
    } else {
        let n = is_ean(sym).unwrap();
        for lowd in 0..20000usize { go!(put(w, &mut m, sym, format!("{:0w$}", lowd, w = n))); go!(put(w, &mut m, sym, format!("{:05}{:0w$}", lowd * 5 % 99999, lowd % 10, w = n - 5))); }
    }
    true
}
fn neighbours(w: &mut Worker, sym: Sym, d: &Dict, r: &mut Rng) -> bool {
    let base = random(w, sym, d, r);
    let mut m = HashMap::new();
    let c: Vec<char> = base.chars().collect();
    go!(put(w, &mut m, sym, base.clone()));
    let a: Vec<char> = if sym == Sym::C128 { (0..127u8).map(|b| b as char).chain(['À', 'Ɓ', 'Ć', '\u{179}', '\u{17a}', '\u{17b}', '\u{17c}', '\u{17d}']).collect() } else { alpha(sym) };
    let full = c.len() <= 16;
    let poss: Vec<usize> = if full { (0..c.len()).collect() } else { (0..4).map(|_| r.below(c.len())).collect() };
    for &i in &poss { for x in &a { let mut y = c.clone(); y[i] = *x; go!(put(w, &mut m, sym, y.into_iter().collect())); } }
    for &i in &poss { for &j in &poss { if i < j { for _ in 0..4 { let mut y = c.clone(); y[i] = *r.pick(&a); y[j] = *r.pick(&a); go!(put(w, &mut m, sym, y.into_iter().collect())); } let mut y = c.clone(); y.swap(i, j); go!(put(w, &mut m, sym, y.into_iter().collect())); } } }
    // insertions, deletions, prefixes, repeats
    for &i in &poss { let mut y = c.clone(); y.remove(i); go!(put(w, &mut m, sym, y.into_iter().collect())); let mut y = c.clone(); y.insert(i, c[i]); go!(put(w, &mut m, sym, y.into_iter().collect())); for _ in 0..3 { let mut y = c.clone(); y.insert(i, *r.pick(&a)); go!(put(w, &mut m, sym, y.into_iter().collect())); } go!(put(w, &mut m, sym, c[..i].iter().collect())); go!(put(w, &mut m, sym, c[i..].iter().collect())); }
    for x in &a { let mut y = c.clone(); y.push(*x); go!(put(w, &mut m, sym, y.into_iter().collect())); let mut y = c.clone(); y.insert(0, *x); go!(put(w, &mut m, sym, y.into_iter().collect())); }
    let y: String = c.iter().rev().collect(); go!(put(w, &mut m, sym, y));
    true
}
// ------------------------------------------------------------------ outputs
fn rnd_bars(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = match r.below(6) { 0 => r.below(3), 1 if r.chance(40) => r.below(max * 8), 1 => r.below(max + 1), _ => r.below(max.min(40) + 1) };
    match r.below(5) { 0 => vec![1; n], 1 => vec![0; n], _ => (0..n).map(|_| r.below(2) as u8).collect() }
}
fn rnd_color(r: &mut Rng) -> [u8; 4] {
    let b = |r: &mut Rng| *r.pick(&[0u8, 1, 9, 10, 15, 16, 17, 99, 127, 128, 153, 159, 160, 250, 253, 254, 255]);
    match r.below(4) { 0 => [0, 0, 0, 255], 1 => [255, 255, 255, 255], 2 => [b(r), b(r), b(r), b(r)], _ => { let x = r.next(); [x as u8, (x >> 8) as u8, (x >> 16) as u8, if x >> 40 & 1 == 1 { (x >> 24) as u8 } else { 255 }] } }
}
fn dim(r: &mut Rng, d: &Dict, max: u64) -> u64 {
    let v = match r.below(8) { 0 => 0, 1 => 1, 2 | 3 => r.next() % 5, 4 => *r.pick(&[2u64, 3, 9, 10, 11, 80, 99, 100, 127, 128, 255, 256, 257, 1000, 4096, 32767, 65535, 65536, 65537]), 5 if !d.nums.is_empty() => { let n = *r.pick(&d.nums); n.saturating_add(r.next() % 3).saturating_sub(1) } _ => r.next() % 40 };
    if v > max { v % (max + 1) } else { v }
}
pub fn rnd_out(prop: &str, d: &Dict, r: &mut Rng) -> Case {
    match prop {
        "C17" => {
            let b = rnd_bars(r, 300);
            let x = dim(r, d, 200_000 / b.len().max(1) as u64);
            let h = dim(r, d, 400_000 / (b.len() as u64 * x).max(1));
            Case::Ascii(h as usize, x as usize, b)
        }
        "C18" => {
            let mut b = rnd_bars(r, 600);
            if r.chance(6) { for x in b.iter_mut() { if r.chance(4) { *x = r.next() as u8; } } }
            let big = |r: &mut Rng| match r.below(4) { 0 => r.next() as usize, 1 => usize::MAX - r.below(3), 2 => 10usize.pow(r.below(20) as u32).wrapping_sub(r.below(2)), _ => r.below(2000) };
            let (h, x) = (big(r), big(r));
            Case::Json(h, x, b)
        }
        "C19" => {
            let b = rnd_bars(r, 600);
            let mx = u32::MAX as u64 / b.len().max(1) as u64;
            let x = if r.chance(4) { mx - r.next() % 3.min(mx + 1) } else { dim(r, d, mx) } as u32;
            let h = if r.chance(4) { u32::MAX - r.below(3) as u32 } else { dim(r, d, u32::MAX as u64) as u32 };
            let ns = match r.below(4) { 0 => None, 1 => Some(String::new()), 2 => Some("http://www.w3.org/2000/svg".into()), _ => Some((0..r.below(20)).map(|_| *r.pick(&['a', ':', '/', 'é', '"', '<', '&', ' ', '{', '}', '\n'])).collect()) };
            let (f, g) = (rnd_color(r), rnd_color(r));
            Case::Svg(h, x, f, g, ns, b)
        }
        _ => {
            let b = rnd_bars(r, 120);
            let x = dim(r, d, 70_000 / b.len().max(1) as u64);
            let hm = if r.chance(60) { 66000 } else { 20_000 / (b.len() as u64 * x).max(1) };
            let h = dim(r, d, hm);
            let h = h.min(2_000_000 / (b.len() as u64 * x).max(1));
            let (f, g) = (rnd_color(r), rnd_color(r));
            Case::Img(r.below(4) as u8, r.below(4) as u8, h as u32, x as u32, f, g, b)
        }
    }
}
/// lengths around the powers of two, the round numbers and the numbers in the source
fn long_lens(d: &Dict) -> Vec<usize> {
    let mut v: Vec<usize> = (9..=17).map(|k| 1usize << k).chain([1000, 10_000, 100_000]).chain(d.nums.iter().filter(|n| **n < 1 << 18).map(|n| *n as usize)).flat_map(|n| [n.saturating_sub(1), n, n + 1]).filter(|n| *n > 256).collect();
    v.sort(); v.dedup(); v
}
fn outputs(w: &mut Worker, d: &Dict, r: &mut Rng) -> bool {
    let prop = w.prop;
    // all barcodes of up to 7 modules with small dimensions
    for n in 0..=7usize { for v in 0..1u32 << n { for h in 0..4u32 { for x in 0..4u32 {
        let b: Vec<u8> = (0..n).map(|i| (v >> i & 1) as u8).collect();
        match prop {
            "C17" => go!(w.sys(|| Case::Ascii(h as usize, x as usize, b))),
            "C18" => go!(w.sys(|| Case::Json(h as usize, x as usize, b))),
            "C19" => go!(w.sys(|| Case::Svg(h, x, [0, 0, 0, 255], [255; 4], None, b))),
            _ => if n <= 5 { for rot in 0..4 { for k in 0..4 { let b = b.clone(); go!(w.sys(|| Case::Img(k, rot, h, x, [1, 2, 3, 255], [250, 251, 252, 255], b))); } } },
        }
    } } } }
    let bars = vec![1u8, 0, 1, 1, 0];
    for k in 0..=255u8 {
        for p in 0..4usize {
            let mut c = [17u8, 34, 51, 255]; c[p] = k;
            match prop {
                "C19" => { go!(w.sys(|| Case::Svg(7, 3, c, [255; 4], None, bars.clone()))); go!(w.sys(|| Case::Svg(7, 3, [0, 0, 0, 255], c, None, bars.clone()))); }
                "C20" | "C21" => for kind in 0..4 { go!(w.sys(|| Case::Img(kind, 0, 2, 2, c, [255; 4], bars.clone()))); go!(w.sys(|| Case::Img(kind, 0, 2, 2, [0, 0, 0, 255], c, bars.clone()))); },
                _ => {}
            }
        }
    }
    // every length
    for n in 0..=700usize {
        let b: Vec<u8> = (0..n).map(|_| r.below(2) as u8).collect();
        match prop {
            "C17" => go!(w.sys(|| Case::Ascii(3, 2, b))),
            "C18" => go!(w.sys(|| Case::Json(10, 1, b))),
            "C19" => go!(w.sys(|| Case::Svg(80, 2, [0, 0, 0, 255], [255; 4], Some("http://www.w3.org/2000/svg".into()), b))),
            _ => for rot in 0..4 { let b = b.clone(); go!(w.sys(|| Case::Img((n % 4) as u8, rot, 3, 1 + (n % 3) as u32, [0, 0, 0, 255], [255; 4], b))); },
        }
    }
    for n in long_lens(d) {
        for last in [false, true] {
            let b: Vec<u8> = (0..n).map(|i| if last { (i + 1 == n || i % 251 == 250) as u8 } else { r.below(2) as u8 }).collect();
            match prop {
                "C17" => go!(w.sys(|| Case::Ascii(2, 1, b))),
                "C18" => go!(w.sys(|| Case::Json(10, 1, b))),
                "C19" => go!(w.sys(|| Case::Svg(80, 1 + n as u32 % 3, [0, 0, 0, 255], [255; 4], None, b))),
                _ => for k in 0..4u8 { let b = b.clone(); go!(w.sys(|| Case::Img(k, (n % 4) as u8, 2, 1, [0, 0, 0, 255], [255; 4], b))); },
            }
        }
    }
    for n in d.nums.iter().filter(|n| **n < 1 << 17).flat_map(|n| [n.saturating_sub(1), *n, n + 1]).chain(0..300) {
        let n = n as u32;
        match prop {
            "C17" => { go!(w.sys(|| Case::Ascii(n as usize, 1, vec![1, 0, 1]))); go!(w.sys(|| Case::Ascii(2, n as usize, vec![1, 0, 1]))); }
            "C18" => { go!(w.sys(|| Case::Json(n as usize, n as usize + 1, vec![1, 0, 1]))); }
            "C19" => { go!(w.sys(|| Case::Svg(n, 2, [0, 0, 0, 255], [255; 4], None, vec![1, 0, 1]))); go!(w.sys(|| Case::Svg(2, n, [0, 0, 0, 255], [255; 4], None, vec![1, 0, 1]))); }
            _ => for rot in 0..4 { for k in 0..4 { if n < 3000 { go!(w.sys(|| Case::Img(k, rot, n, 2, [0, 0, 0, 255], [255; 4], vec![1, 0, 1]))); go!(w.sys(|| Case::Img(k, rot, 2, n, [0, 0, 0, 255], [255; 4], vec![1, 0, 1]))); } } },
        }
    }
    true
}
