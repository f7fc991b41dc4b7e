"""The lowered text as an ordinary Rust module: executed next to the real crate by the harness, so
that the translation the proofs are about is itself tested on every run."""
import re
from lower import render, FnLower
import verify

def runtime(prelude):
    """the executable bodies of the trusted runtime models"""
    o = []
    for m in re.finditer(r'(?ms)^#\[verifier::external_body\]\npub fn (\w+)((?:(?!external_body).)*?)^\{ (.*?) \}$', prelude):
        name, head, body = m.groups()
        head = re.split(r'(?m)^\s*(?:requires|ensures)\b', head)[0]
        head = re.sub(r'-> \((\w+): (.*)\)\s*$', r'-> \2', head.rstrip())
        if 'unimplemented' in body: continue
        o.append('pub fn %s%s { %s }' % (name, head, body))
    return '\n'.join(o)
FIXED = '''
#[derive(Clone, Copy)]
pub struct SliceLit { pub n: usize, pub d: [u8; 16] }
impl SliceLit { pub fn sl(&self) -> &'static [u8] { MEMO8.with(|m| *m.borrow_mut().entry(self.d[..self.n].to_vec()).or_insert_with(|| Box::leak(self.d[..self.n].to_vec().into_boxed_slice()))) } }
thread_local! { static MEMO8: std::cell::RefCell<std::collections::HashMap<Vec<u8>, &'static [u8]>> = Default::default(); }
thread_local! { static MEMO: std::cell::RefCell<std::collections::HashMap<Vec<char>, &'static str>> = Default::default(); }
fn keep(v: Vec<char>) -> &'static str {
    MEMO.with(|m| *m.borrow_mut().entry(v.clone()).or_insert_with(|| Box::leak(v.into_iter().collect::<String>().into_boxed_str())))
}
'''
def strlit(prelude):
    m = re.search(r'(?m)^pub enum StrLit \{.*\}$', prelude)
    arms = re.findall(r'(StrLit::L\d(?:\([^)]*\))?) => (?:Seq::<char>::empty\(\)|seq!\[(.*?)\]),', prelude)
    return '#[derive(Clone, Copy)]\n' + m.group(0) + '\nimpl StrLit { pub fn s(&self) -> &\'static str { keep(match *self { ' + ' '.join('%s => vec![%s],' % (a, b) for a, b in arms) + ' }) } }\n'
VST = '''
pub fn vec_copy<T: Copy>(v: &mut Vec<T>, s: &[T]) { v.copy_from_slice(s); }
pub fn array_copy<T: Copy, const N: usize>(a: &mut [T; N], s: &[T]) { a.copy_from_slice(s); }
pub fn slice_to_array<const N: usize>(s: &[u8]) -> Option<[u8; N]> { <[u8; N]>::try_from(s).ok() }
pub fn vec_fill<T: Copy>(v: &mut Vec<T>, x: T) { v.fill(x); }
pub fn array_fill<T: Copy, const N: usize>(a: &mut [T; N], x: T) { a.fill(x); }
pub fn slice_eq(a: &[u8], b: &[u8]) -> bool { a == b }
pub fn slice_to_vec<T: Copy>(s: &[T]) -> Vec<T> { s.to_vec() }
pub fn vec_from_elem<T: Copy>(x: T, n: usize) -> Vec<T> { vec![x; n] }
pub fn vec_extend<T: Copy>(v: &mut Vec<T>, s: &[T]) { v.extend_from_slice(s); }
pub fn slice_subrange<T>(s: &[T], a: usize, b: usize) -> &[T] { &s[a..b] }
pub trait VecSet<T> { fn set(&mut self, i: usize, x: T); }
impl<T> VecSet<T> for Vec<T> { fn set(&mut self, i: usize, x: T) { self[i] = x; } }
impl<T, const N: usize> VecSet<T> for [T; N] { fn set(&mut self, i: usize, x: T) { self[i] = x; } }
/// as the trusted contract says: alpha / 255 to two decimals
pub fn svg_opacity_model(a: u8) -> String { let pc = (a as u64 * 200 + 255) / 510; format!("{}.{:02}", pc / 100, pc % 100) }
'''
ENTRY = {
 'ean13': ('Ean13 | Sym::Bookland | Sym::Jan', 'ean13_EAN13_new', 'ean13_EAN13_encode'), 'ean8': ('Ean8', 'ean8_EAN8_new', 'ean8_EAN8_encode'), 'upca': ('UpcA', 'upca_UPCA_new', 'upca_UPCA_encode'),
 'ean_supp': ('Supp', 'ean_supp_EANSUPP_new', 'ean_supp_EANSUPP_encode'), 'code39': ('C39', 'code39_Code39_new', 'code39_Code39_encode'), 'code39c': ('C39c', 'code39_Code39_with_checksum', 'code39_Code39_encode'),
 'code93': ('C93', 'code93_Code93_new', 'code93_Code93_encode'), 'code11': ('C11 | Sym::Usd8', 'code11_Code11_new', 'code11_Code11_encode'), 'codabar': ('Cbar', 'codabar_Codabar_new', 'codabar_Codabar_encode'),
 'itf': ('Itf', 'tf_TF_interleaved', 'tf_TF_encode'), 'stf': ('Stf', 'tf_TF_standard', 'tf_TF_encode'), 'code128': ('C128', 'code128_Code128_new', 'code128_Code128_encode'),
}
ALL = ['helpers', 'ean13', 'ean8', 'upca', 'ean_supp', 'code39', 'code93', 'code11', 'codabar', 'tf', 'code128', 'ascii', 'json', 'svg']
def module(C, crate, units, dropped=None):
    """(text of the module, entry points it has)"""
    U = {'name': 'xlat', 'uses': [], 'spec': '', 'fns': {}, 'thms': [], 'parse': {}, 'cand': [], 'roots': []}
    for u in units: U['fns'].update(C.units[u]['fns']); U['parse'].update(C.units[u]['parse'])
    C.units['xlat'] = U
    R = verify.UnitRun(C, crate, 'xlat')
    R.dropped = dict(dropped or {})
    R.prepare()
    del C.units['xlat']
    o = ['#![allow(warnings)]', 'use super::*;', FIXED, strlit(C.prelude), runtime(C.prelude), VST]
    for c in crate.used_consts.values(): o.append(c)
    done = set()
    if 'error::Error' in crate.adts: crate.use_adt('error::Error')
    while set(crate.used_adts) - done:
        for p in list(crate.used_adts):
            if p not in done: done.add(p); o.append(re.sub(r', Structural\b|Structural, ', '', crate.adt_text(p)))
    have = {}
    for k, L in R.L.items():
        F = U['fns'][k]
        if k in R.unsup: continue
        if F.trusted:
            if k == 'svg_Color_to_opacity': o.append('pub fn %s -> %s { svg_opacity_model(%s.rgba[3]) }' % (L.sig, L.ret_txt, F.params[0])); have[k] = L
            continue
        t = []
        render(L.out, 1, lambda l: ([], [], [], []), t)
        t = [x for x in t if not re.match(r'^\s*(decreases|invariant)\b', x) and not re.match(r'^\s*(proof|assert)\b', x)]
        o += ['pub fn %s -> %s {' % (L.sig, L.ret_txt)] + t + ['}']
        have[k] = L
    # only what is completely there
    calls = {k: set(c[2] for c in L.calls) for k, L in have.items()}
    ok = set(have)
    while True:
        bad = [k for k in ok if calls[k] - ok]
        if not bad: break
        ok -= set(bad)
    keep = []
    skip = False
    text = '\n'.join(o)
    for k in set(have) - ok: text = re.sub(r'(?ms)^pub fn %s\(.*?^\}$' % re.escape(k), '', text)
    arms, entries = [], []
    for sym, new, enc in ENTRY.values():
        if new in ok and enc in ok:
            entries += [new, enc]
            arms.append('Sym::%s => Some(match %s(s) { Ok(x) => Out::Ok(%s(&x)), Err(error_Error::Character) => Out::Err(E::Character), Err(error_Error::Length) => Out::Err(E::Length), Err(error_Error::Checksum) => Out::Err(E::Checksum), Err(e) => Out::Other(String::new()) }),' % (sym, new, enc))
    text += '\npub fn sym(y: Sym, s: &str) -> Option<Out> { match y { %s _ => None } }\n' % ' '.join(arms)
    gens = []
    g = lambda k: k in ok
    def gen(k, pat, val):
        if g(k): entries.append(k); gens.append('Case::%s => Some(match %s { Ok(t) => t, Err(_) => "Err".to_string() }),' % (pat, val))
    gen('ascii_ASCII_generate', 'Ascii(h, x, b)', 'ascii_ASCII_generate(&ascii_ASCII { height: *h, xdim: *x }, &b[..])')
    gen('json_JSON_generate', 'Json(h, x, b)', 'json_JSON_generate(&json_JSON { height: *h, xdim: *x }, &b[..])')
    gen('svg_SVG_generate', 'Svg(h, x, f, g, n, b)', 'svg_SVG_generate(&svg_SVG { height: *h, xdim: *x, foreground: svg_Color { rgba: *f }, background: svg_Color { rgba: *g }, xmlns: n.clone() }, &b[..])')
    text += 'pub fn text(c: &Case) -> Option<String> { match c { %s _ => None } }\n' % ' '.join(gens)
    return text, entries, sorted(ok)
if __name__ == '__main__':
    import sys, json
    from lower import Crate
    C = verify.Contracts()
    t, e, ok = module(C, Crate(json.load(open(sys.argv[1])), set()), ALL)
    open(sys.argv[2], 'w').write(t); print(len(e), len(ok))
