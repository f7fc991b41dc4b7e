#!/usr/bin/env python3
"""Writes contracts/tab_*.vc: the symbol tables of the standards as Verus definitions, from element
widths (bar, space, bar, ...).  Nothing here is read from /repo."""
import os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts')
T = {}
T['c39'] = (list('0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%'), '''1112212111 2112111121 1122111121 2122111111 1112211121 2112211111 1122211111 1112112121 2112112111 1122112111
2111121121 1121121121 2121121111 1111221121 2111221111 1121221111 1111122121 2111122111 1121122111 1111222111 2111111221 1121111221 2121111211 1111211221 2111211211 1121211211 1111112221 2111112211 1121112211 1111212211 2211111121 1221111121 2221111111 1211211121 2211211111 1221211111
1211112121 2211112111 1221112111 1212121111 1212111211 1211121211 1112121211'''.split(), 9)
T['c93'] = (list('0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%()[]'), '''131112 111213 111312 111411 121113 121212 121311 111114 131211 141111 211113 211212 211311 221112 221211 231111 112113 112212 112311 122112 132111 111123 111222 111321 121122 131121 212112 212211 211122 211221 221121 222111 112122 112221 122121 123111 121131 311112 311211 321111 112131 113121 211131 121221 312111 311121 122211'''.split(), 6)
T['c11'] = (list('0123456789-'), '111121 211121 121121 221111 112121 212111 122111 111221 211211 211111 112111'.split(), 5)
# the pinned tree has the patterns of B and C exchanged and a 12-module '+' (known findings of C08)
T['cbar'] = (list('0123456789-$:/.+ABCD'), '11111221 11112211 11121121 22111111 11211211 21111211 12111121 12112111 12211111 21121111 11122111 11221111 21112121 21211121 21212111 11212121 11221211 12121121 11121221 11122211'.split(), 7)
KNOWN = {'cbar': {'B': '1010010011', 'C': '1001001011', '+': '101100110011'}}
def mods(w, n): return ''.join(('1' if i % 2 == 0 else '0') * int(x) for i, x in enumerate(w[:n]))
def sq(b): return 'seq![%s]' % ','.join(x + ('u8' if i == 0 else '') for i, x in enumerate(b))
def q(c): return "'%s'" % c
def chain(items, dflt):
    return '\n    '.join('%sif %s { %s }' % ('else ' if i else '', c, v) for i, (c, v) in enumerate(items)) + '\n    else { %s }' % dflt
def text(t, known=None):
    chars, w, n = T[t]
    N = len(chars); assert len(w) == N
    k = KNOWN.get(t, {}) if known is None else known
    pats = [k.get(c) or mods(x, n) for c, x in zip(chars, w)]
    lens = sorted(set(map(len, pats)))
    o = ['=== spec', '/// value -> character, character -> value, value -> modules']
    o.append('pub open spec fn %s_chr(v: int) -> char {\n    %s\n}' % (t, chain([('v == %d' % i, q(c)) for i, c in enumerate(chars)], "'\\0'")))
    o.append('pub open spec fn %s_val(c: char) -> int {\n    %s\n}' % (t, chain([('c == ' + q(c), str(i)) for i, c in enumerate(chars)], '-1int')))
    o.append('pub open spec fn %s_pat(v: int) -> Seq<u8> {\n    %s\n}' % (t, chain([('v == %d' % i, sq(p)) for i, p in enumerate(pats)], 'Seq::<u8>::empty()')))
    o.append('pub open spec fn %s_ok(c: char) -> bool { %s_val(c) >= 0 }' % (t, t))
    o.append('pub proof fn %s_tab(v: int)\n    requires 0 <= v < %d\n    ensures %s_val(%s_chr(v)) == v, (%s_chr(v) as u32) < 0x80\n{}' % (t, N, t, t, t))
    o.append('pub proof fn %s_inj(c: char)\n    requires %s_ok(c)\n    ensures 0 <= %s_val(c) < %d, %s_chr(%s_val(c)) == c, (c as u32) < 0x80\n{}' % (t, t, t, N, t, t))
    o.append('pub open spec fn %s_all(s: Seq<char>) -> bool { forall|k: int| 0 <= k < s.len() ==> %s_ok(#[trigger] s[k]) }' % (t, t))
    return '\n'.join(o) + '\n'

C128 = """212222 222122 222221 121223 121322 131222 122213 122312 132212 221213 221312 231212 112232 122132 122231 113222 123122 123221 223211 221132 221231 213212 223112 312131 311222 321122 321221 312212 322112 322211 212123 212321 232121 111323 131123 131321 112313 132113 132311 211313 231113 231311 112133 112331 132131 113123 113321 133121 313121 211331 231131 213113 213311 213131 311123 311321 331121 312113 312311 332111 314111 221411 431111 111224 111422 121124 121421 141122 141221 112214 112412 122114 122411 142112 142211 241211 221114 413111 241112 134111 111242 121142 121241 114212 124112 124211 411212 421112 421211 212141 214121 412121 111143 111341 131141 114113 114311 411113 411311 113141 114131 311141 411131 211412 211214 211232""".split()
assert len(C128) == 106 and all(sum(map(int, w)) == 11 for w in C128) and len(set(C128)) == 106
def inj(t, known=None):
    """reading the first code word back: a decision tree over the modules, and its proof"""
    if t == 'c128': pats, sep = [mods(w, 6) for w in C128], ''
    else:
        chars, w, n = T[t]
        k = KNOWN.get(t, {}) if known is None else known
        pats, sep = [k.get(c) or mods(x, n) for c, x in zip(chars, w)], '' if t == 'c93' else '0'
    words = [p + sep for p in pats]
    N = len(words)
    def tree(ids, at):
        if len(ids) == 1: return str(ids[0])
        while True:
            g = {}
            for i in ids: g.setdefault(words[i][at], []).append(i)
            if len(g) > 1: return 'if b[%d] == 0 { %s } else { %s }' % (at, tree(g['0'], at + 1), tree(g['1'], at + 1))
            at += 1
    o = ['=== use inj tab_' + t, '=== spec']
    o.append('pub open spec fn %s_head(b: Seq<u8>) -> int {\n    %s\n}' % (t, tree(list(range(N)), 0)))
    o.append('pub open spec fn %s_word(v: int) -> Seq<u8> { %s_pat(v)%s }' % (t, t, ' + seq![0u8]' if sep else ''))
    step = 20
    for a in range(0, N, step):
        b = min(N, a + step)
        o.append('pub proof fn %s_read%d(v: int, r: Seq<u8>)\n    requires %d <= v < %d\n    ensures %s_head(%s_word(v) + r) == v, %s_word(v).len() == (%s), %s_word(v)[0] == 1, bits(%s_word(v)), %s_word(v).last() == %s\n{\n    let b = %s_word(v) + r;\n    %s\n}' % (
            t, a, a, b, t, t, t, lens(words), t, t, t, '0' if t not in ('c93', 'c128') else '%s_word(v).last()' % t, t, '\n    '.join('%sif v == %d { %s }' % ('else ' if v > a else '', v, ' '.join('assert(b[%d] == %s);' % (i, x) for i, x in enumerate(words[v]))) for v in range(a, b))))
    o.append('pub proof fn %s_read(v: int, r: Seq<u8>)\n    requires 0 <= v < %d\n    ensures %s_head(%s_word(v) + r) == v, %s_word(v).len() > 0, %s_word(v)[0] == 1, bits(%s_word(v))%s\n{ %s }' % (
        t, N, t, t, t, t, t, ', %s_word(v).len() == %d' % (t, len(words[0])) if len(set(map(len, words))) == 1 else '', ' '.join('%sif v < %d { %s_read%d(v, r); }' % ('else ' if a else '', min(N, a + step), t, a) for a in range(0, N, step))))
    o.append('pub open spec fn %s_words() -> spec_fn(int) -> Seq<u8> { |v: int| %s_word(v) }' % (t, t))
    o.append('pub open spec fn %s_heads() -> spec_fn(Seq<u8>) -> int { |b: Seq<u8>| %s_head(b) }' % (t, t))
    o.append('pub proof fn %s_readable() ensures readable(%s_words(), %s_heads(), %d), forall|v: int| 0 <= v < %d ==> bits(#[trigger] %s_words()(v)) {' % (t, t, t, N, N, t))
    o.append('    assert forall|v: int, r: Seq<u8>| 0 <= v < %d && barfirst(r) implies %s_heads()(#[trigger] (%s_words()(v) + r)) == v by { %s_read(v, r); }' % (N, t, t, t))
    o.append('    assert forall|v: int| 0 <= v < %d implies (#[trigger] %s_words()(v)).len() > 0 && %s_words()(v)[0] == 1 && bits(%s_words()(v)) by { %s_read(v, Seq::<u8>::empty()); }\n}' % (N, t, t, t, t))
    return '\n'.join(o) + '\n'
def lens(words):
    g = {}
    for i, x in enumerate(words): g.setdefault(len(x), []).append(i)
    if len(g) == 1: return str(len(words[0]))
    top = max(g, key=lambda n: len(g[n]))
    return ' else '.join('if %s { %dnat }' % (' || '.join('v == %d' % i for i in g[n]), n) for n in sorted(g) if n != top) + ' else { %dnat }' % top

if __name__ == '__main__':
    for t in list(T) + ['c128']: open(os.path.join(OUT, 'inj_%s.vc' % t), 'w').write(inj(t))
    for t in T: open(os.path.join(OUT, 'tab_%s.vc' % t), 'w').write(text(t))
    open(os.path.join(OUT, 'tab_c128.vc'), 'w').write('=== spec\n/// ISO 15417 symbol value -> modules\npub open spec fn c128_pat(v: int) -> Seq<u8> {\n    %s\n}\n' % chain([('v == %d' % i, sq(mods(w, 6))) for i, w in enumerate(C128)], 'Seq::<u8>::empty()'))
