//! Search guided by the instrumentation of the real code: cases that reach new edges, new operand
//! distances in comparisons or new switch distances are kept and mutated (one thread per process).
use crate::gen::*;
use crate::oracle::*;
use crate::{prop_syms, real, Case, Out, Worker};
use std::collections::HashMap;

const NEAR: &[usize] = &[1, 2, 3, 5, 8, 13, 21];
fn seq_mut<T: Clone>(v: &mut Vec<T>, other: Option<&[T]>, one: &mut dyn FnMut(&mut Rng) -> T, r: &mut Rng, keep: bool, max: usize) {
    for _ in 0..1 + if r.chance(3) { r.below(4) } else { 0 } {
        let n = v.len();
        let k = r.below(n + 1);
        match r.below(if keep { 5 } else { 12 }) {
            0 | 1 if n > 0 => { let k = k.min(n - 1); v[k] = one(r); }
            2 if n > 1 => { let (i, j) = (r.below(n), r.below(n)); v.swap(i, j); }
            3 if n > 0 => { let x = one(r); let l = 1 + r.below(n - k.min(n - 1)); for y in v.iter_mut().skip(k.min(n - 1)).take(l) { *y = x.clone(); } }
            4 => if let Some(o) = other { let l = o.len().min(n); if l > 0 { let i = r.below(l); let m = 1 + r.below(l - i); for q in i..i + m { v[q] = o[q].clone(); } } },
            5 | 6 => { let x = one(r); v.insert(k, x); }
            7 if n > 0 => { v.remove(k.min(n - 1)); }
            8 if n > 0 => { let l = (*r.pick(NEAR)).min(n); let i = r.below(n - l + 1); let c: Vec<T> = v[i..i + l].to_vec(); v.splice(k..k, c); }
            9 if n > 0 => { let l = (*r.pick(NEAR)).min(n); let i = r.below(n - l + 1); v.drain(i..i + l); }
            10 if n > 0 => { let c = v.clone(); v.extend(c); }
            _ => if let Some(o) = other { if !o.is_empty() { let i = r.below(o.len()); let m = 1 + r.below(o.len() - i); v.splice(k..k, o[i..i + m].iter().cloned()); } },
        }
    }
    if v.len() > max { v.truncate(max); }
}
fn num(x: u64, d: &Dict, r: &mut Rng, max: u64) -> u64 {
    let y = match r.below(7) { 0 => x.wrapping_add(1), 1 => x.wrapping_sub(1), 2 => x ^ 1 << r.below(64), 3 => x.wrapping_mul(2), 4 => x / 2, 5 if !d.nums.is_empty() => *r.pick(&d.nums), _ => r.next() >> r.below(64) };
    if y > max { y % (max + 1) } else { y }
}
fn mutate(w: &Worker, c: &Case, o: &Case, d: &Dict, r: &mut Rng) -> Case {
    match c {
        Case::Sym(sym, s) => {
            if r.chance(8) { return Case::Sym(*sym, random(w, *sym, d, r)); }
            let wild = matches!(w.prop, "C12" | "C13" | "C15");
            let other: Option<Vec<char>> = match o { Case::Sym(_, t) => Some(t.chars().collect()), _ => None };
            let mut v: Vec<char> = s.chars().collect();
            let a: Vec<char> = if *sym == Sym::C128 { (0..127u8).map(|b| b as char).chain("0123456789ÀƁĆ\u{179}\u{17a}\u{17b}\u{17c}\u{17d}0123456789ÀƁĆ\u{179}".chars()).collect() } else { alpha(*sym) };
            let fixed = matches!(sym.base(), Sym::Ean13 | Sym::Ean8 | Sym::UpcA | Sym::Supp);
            let mut one = |r: &mut Rng| if wild && r.chance(24) { *r.pick(FOREIGN) } else { *r.pick(&a) };
            let v0 = v.len();
            let keep = fixed && !(wild && r.chance(6));
            let cap = v0.max(match r.below(40) { 0 => if *sym == Sym::C128 { 3000 } else { 300 }, 1..=4 => 100, _ => 26 });
            seq_mut(&mut v, other.as_deref(), &mut one, r, keep, cap);
            if !d.words.is_empty() && r.chance(12) { let x: Vec<char> = r.pick(&d.words).chars().collect(); if keep { if x.len() <= v.len() { let k = r.below(v.len() - x.len() + 1); v.splice(k..k + x.len(), x); } } else { let k = r.below(v.len() + 1); v.splice(k..k, x); } }
            let mut s: String = v.into_iter().collect();
            if let Some(n) = match sym.base() { Sym::Ean13 => Some(12), Sym::Ean8 => Some(7), Sym::UpcA => Some(11), _ => None } {
                if s.is_ascii() && s.bytes().all(|b| b.is_ascii_digit()) {
                    if s.len() == n && r.chance(4) { s.push('0'); }
                    if s.len() == n + 1 && !r.chance(4) { s.truncate(n); s = with_check(*sym, &s); }
                    if s.len() == n + 1 && r.chance(8) { s.truncate(n); }
                }
            }
            Case::Sym(*sym, s)
        }
        Case::Ascii(h, x, b) => {
            let (mut h, mut x, mut b) = (*h as u64, *x as u64, b.clone());
            match r.below(4) { 0 => h = num(h, d, r, 100_000), 1 => x = num(x, d, r, 100_000), _ => bars(&mut b, o, r, 400) }
            let cap = if r.chance(20) { 400_000 } else { 3000 };
            if b.len() as u64 * x * h > cap { h = h.min(3); if b.len() as u64 * x * h > cap { x %= 400; } }
            Case::Ascii(h as usize, x as usize, b)
        }
        Case::Json(h, x, b) => {
            let (mut h, mut x, mut b) = (*h as u64, *x as u64, b.clone());
            match r.below(4) { 0 => h = num(h, d, r, u64::MAX - 1), 1 => x = num(x, d, r, u64::MAX - 1), _ => bars(&mut b, o, r, 700) }
            Case::Json(h as usize, x as usize, b)
        }
        Case::Svg(h, x, f, g, n, b) => {
            let (mut h, mut x, mut f, mut g, mut n, mut b) = (*h as u64, *x as u64, *f, *g, n.clone(), b.clone());
            match r.below(7) {
                0 => h = num(h, d, r, u32::MAX as u64), 1 => x = num(x, d, r, u32::MAX as u64),
                2 => colour(&mut f, o, r), 3 => colour(&mut g, o, r),
                4 => n = match (n, r.below(4)) { (_, 0) => None, (None, _) => Some(if d.words.is_empty() { String::new() } else { r.pick(&d.words).clone() }), (Some(s), _) => { let mut v: Vec<char> = s.chars().collect(); seq_mut(&mut v, None, &mut |r| (32 + r.below(95) as u8) as char, r, false, 200); Some(v.into_iter().collect()) } },
                _ => bars(&mut b, o, r, 700),
            }
            x %= u32::MAX as u64 / b.len().max(1) as u64 + 1;
            Case::Svg(h as u32, x as u32, f, g, n, b)
        }
        Case::Img(k, t, h, x, f, g, b) => {
            let (mut k, mut t, mut h, mut x, mut f, mut g, mut b) = (*k, *t, *h as u64, *x as u64, *f, *g, b.clone());
            match r.below(8) {
                0 => h = num(h, d, r, 2000), 1 => x = num(x, d, r, 2000),
                2 => colour(&mut f, o, r), 3 => colour(&mut g, o, r),
                4 => k = r.below(4) as u8, 5 => t = r.below(4) as u8,
                _ => bars(&mut b, o, r, 120),
            }
            let cap = if r.chance(20) { 200_000 } else { 3000 };
            if b.len() as u64 * x * h > cap { h = h.min(4); if b.len() as u64 * x * h > cap { x %= 400; } }
            Case::Img(k, t, h as u32, x as u32, f, g, b)
        }
        o => o.clone(),
    }
}
fn bars(b: &mut Vec<u8>, o: &Case, r: &mut Rng, max: usize) {
    let other = match o { Case::Ascii(_, _, b) | Case::Json(_, _, b) | Case::Svg(_, _, _, _, _, b) | Case::Img(_, _, _, _, _, _, b) => Some(&b[..]), _ => None };
    seq_mut(b, other, &mut |r| r.below(2) as u8, r, false, max);
}
fn colour(c: &mut [u8; 4], o: &Case, r: &mut Rng) {
    match (r.below(4), o) {
        (0, Case::Svg(_, _, f, g, _, _)) | (0, Case::Img(_, _, _, _, f, g, _)) => *c = if r.chance(2) { *f } else { *g },
        (1, _) => { let k = r.below(4); c[k] = c[k].wrapping_add(if r.chance(2) { 1 } else { 255 }); }
        (2, _) => { let k = r.below(4); c[k] = *r.pick(&[0u8, 1, 15, 16, 127, 128, 254, 255]); }
        _ => { let k = r.below(4); c[k] = r.next() as u8; }
    }
}
fn size(c: &Case) -> usize {
    match c { Case::Sym(_, s) => s.len(), Case::Ascii(h, x, b) => b.len() * x * h, Case::Json(_, _, b) | Case::Svg(_, _, _, _, _, b) => b.len(), Case::Img(_, _, h, x, _, _, b) => b.len() * *h as usize * *x as usize, _ => 0 }
}
pub fn run(w: &mut Worker, d: &Dict, seed: u64) {
    let syms = prop_syms(w.prop);
    let mut r = Rng::new(seed * 7919 + 11);
    let mut pool: Vec<Case> = vec![];
    let mut seen: HashMap<Vec<u8>, String> = HashMap::new();
    let mut n = 0u64;
    loop {
        n += 1;
        let c = if n < if syms.is_empty() { 150 } else { 1500 } || pool.is_empty() || r.chance(if syms.is_empty() { 60 } else { 12 }) {
            if syms.is_empty() { rnd_out(w.prop, d, &mut r) } else { let s = *r.pick(&syms); Case::Sym(s, random(w, s, d, &mut r)) }
        } else {
            // recent additions first
            let k = if r.chance(2) { let q = r.below(40.min(pool.len())); pool.len() - 1 - q } else { r.below(pool.len()) };
            let q = r.below(pool.len());
            let k = if !r.chance(3) && size(&pool[q]) < size(&pool[k]) { q } else { k };
            let o = r.below(pool.len());
            mutate(w, &pool[k], &pool[o], d, &mut r)
        };
        cov::fresh();
        let go = match (&c, w.prop) {
            (Case::Sym(sym, s), "C16") => {
                w.evals += 1;
                match real(*sym, s) {
                    Out::Ok(b) => {
                        w.nontriv += 1;
                        let key = [&[*sym as u8][..], &b].concat();
                        let mut go = true;
                        if let Some(o) = seen.get(&key) { if o != s { let o = o.clone(); go = w.one(Case::Pair(*sym, o, s.clone())); } } else if s.len() < 60 && seen.len() < 1_500_000 { seen.insert(key, s.clone()); }
                        go
                    }
                    _ => true,
                }
            }
            _ => w.one(c.clone()),
        };
        if cov::fresh() > 0 { if pool.len() >= 60_000 { let k = r.below(pool.len() / 2); pool.swap_remove(k); } pool.push(c); }
        if !go || (n % 64 == 0 && std::time::Instant::now() > w.end) { break; }
    }
    println!("GUIDED {} kept, {} features", pool.len(), cov::total());
}
