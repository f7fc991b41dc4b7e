#!/usr/bin/env python3
"""Mechanical lowering of rustc's typed HIR (hirdump JSON) of the barcoders crate to Verus text.

Nothing here knows what barcoders means: it unfolds iterator adapters, closures, `?`, `for`,
format! and trait dispatch into the first-order subset Verus accepts, one HIR node at a time, and
raises Unsupported on anything it does not know.  Contracts and loop invariants are added by
verify.py; they never change the executable text.
"""
import copy, json, re

class Unsupported(Exception): pass
class NoSpec(Exception): pass

def prim(n): return {'k': 'prim', 'n': n}
U8, U32, U64, USZ, BOOL, CHAR, STR = [prim(x) for x in ('u8', 'u32', 'u64', 'usize', 'bool', 'char', 'str')]
UNIT = {'k': 'tup', 'a': []}
STRING = {'k': 'adt', 'p': 'std::string::String', 'local': False, 'a': []}
def ref(t, m=False): return {'k': 'ref', 'mut': m, 't': t}
def vec(t): return {'k': 'adt', 'p': 'std::vec::Vec', 'local': False, 'a': [t]}
def opt(t): return {'k': 'adt', 'p': 'std::option::Option', 'local': False, 'a': [t]}
def tup(ts): return {'k': 'tup', 'a': ts}
def is_adt(t, p): return t is not None and t['k'] == 'adt' and t['p'] == p
IMG = {'image::Rgba': 'Rgba', 'image::ImageFormat': 'ImgFormat', 'image::ImageBuffer': 'ImgBuf', 'image::DynamicImage': 'DynImg', 'image::ImageError': 'ImgError'}   # modelled in contracts/image.vc
RGBA = {'k': 'adt', 'p': 'image::Rgba', 'local': False, 'a': [{'k': 'prim', 'n': 'u8'}]}
RGBA_A = {'k': 'array', 't': {'k': 'prim', 'n': 'u8'}, 'n': 4}
def is_vec(t): return is_adt(t, 'std::vec::Vec')
def is_string(t): return is_adt(t, 'std::string::String')
def is_opt(t): return is_adt(t, 'std::option::Option')
def is_res(t): return is_adt(t, 'std::result::Result')
def is_int(t): return t is not None and t['k'] == 'prim' and re.fullmatch(r'[ui](8|16|32|64|128|size)', t['n']) is not None
def is_str(t): return t is not None and t['k'] == 'prim' and t['n'] == 'str'
def is_ref(t): return t is not None and t['k'] == 'ref'
def has_ref(t):
    if isinstance(t, dict): return t.get('k') == 'ref' or any(has_ref(v) for v in t.values())
    if isinstance(t, list): return any(has_ref(v) for v in t)
    return False

def vec_of_str(t):
    if not is_vec(t): return False
    x = t['a'][0]
    return is_ref(x) and not x['mut'] and x['t'].get('n') == 'str'
def mangle(p):
    p = re.sub(r'^<(.*) as (.*)>::(\w+)$', lambda m: m.group(1) + '::' + m.group(3), p)
    for pre in ('sym::', 'generators::'):
        if p.startswith(pre): p = p[len(pre):]; break
    return re.sub(r'\W+', '_', p)

# ---------------------------------------------------------------- values
class Val: pass
class V(Val):
    """runtime expression text of type ty; lv: it is a place; imm: repeatable and never changes"""
    def __init__(s, txt, ty, lv=False, imm=False, cst=False): s.txt, s.ty, s.lv, s.imm, s.cst = txt, ty, lv, imm, cst
class RefV(Val):
    def __init__(s, v, mut=False): s.v, s.mut = v, mut
class SlV(Val):
    """place of slice type; kind vec|array|ref"""
    def __init__(s, txt, elem, kind, n=None, cst=False): s.txt, s.elem, s.kind, s.n, s.cst = txt, elem, kind, n, cst
class StrV(Val):
    """place of type str; txt is an expression of type &str"""
    def __init__(s, txt, lit=None): s.txt, s.lit = txt, lit
class TupV(Val):
    def __init__(s, vs): s.vs = vs
class ClosV(Val):
    def __init__(s, e, env, fr): s.e, s.env, s.fr = e, env, fr
class FnV(Val):
    def __init__(s, callee, res): s.callee, s.res = callee, res
class It(Val):
    def __init__(s, n=None, get=None, drive=None, srcs=(), inf=False, once=None, ub=None):
        # ub: at most so many elements, some of them constants: not a loop but a sequence of steps
        s.n, s.get, s.drive, s.srcs, s.inf, s.once, s.ub = n, get, drive, list(srcs), inf, once, ub
class ItS(It):
    """an iterator held in a mutable variable: elements pos..n of an indexed iterator are still to come"""
    def __init__(s, base, pos, n): s.base, s.pos, s.end = base, pos, n; s.drive = None; s.ub = None; s.inf = False; s.srcs = base.srcs; s.once = None
class ResOV(Val):
    """Result whose error is not looked at, as an option"""
    def __init__(s, o): s.o = o
class OptV(Val):
    """Option<T> known as an Option<usize> variable and what the payload is at that index"""
    def __init__(s, txt, pay, ety): s.txt, s.pay, s.ety = txt, pay, ety
class FmtV(Val):
    def __init__(s, pieces, args): s.pieces, s.args = pieces, args
class CurV(Val):
    """std::io::Cursor over the Vec<u8> place v"""
    def __init__(s, v): s.v = v
class PixV(Val):
    """the pixel (x, y) of the image buffer b, as a place"""
    def __init__(s, b, x, y): s.b, s.x, s.y = b, x, y
class RangeV(Val):
    def __init__(s, kind, lo, hi): s.kind, s.lo, s.hi = kind, lo, hi
class Loop:
    def __init__(s): s.id = None; s.i = s.n = None; s.cond = None; s.body = []; s.inv = []; s.muts = {}; s.srcs = []; s.dec = None; s.has_break = False; s.ctx = []; s.kind = ''; s.pre_name = ''; s.auto = True
NEVER = V('unreached()', {'k': 'never'})

class Crate:
    def __init__(self, hir, contracted):
        self.tys = hir['tys']
        self.fns = {f['path']: f for f in hir['fns'] if 'ins' in f}
        self.consts = {f['path']: f for f in hir['fns'] if 'ins' not in f}
        self.adts = {a['path']: a for a in hir['adts']}
        self.contracted = contracted          # mangled names that have a contract (callee is opaque)
        self.methods = {}                      # (self ADT path, method name) -> path
        for p, f in self.fns.items():
            if f.get('impl'):
                st = self.tys[f['impl']['self']]
                if st['k'] == 'adt': self.methods[(st['p'], f['name'])] = p
        self.lowered = {}
        self.failed = {}
        self.used_consts = {}
        self.used_adts = {}
        self.used_std = set()

    # -------- types
    def tt(self, t, life=None, cst=False):
        k = t['k']
        if k == 'prim': return t['n']
        if k == 'ref':
            if cst and t['t']['k'] == 'slice': return 'SliceLit'
            if cst and is_str(t['t']): return 'StrLit'
            return '&' + ((life + ' ') if life else '') + ('mut ' if t['mut'] else '') + self.tt(t['t'], life, cst)
        if k == 'slice': return '[' + self.tt(t['t'], life, cst) + ']'
        if k == 'array': return '[%s; %s]' % (self.tt(t['t'], life, cst), t['n'])
        if k == 'tup': return '(' + ', '.join(self.tt(x, life, cst) for x in t['a']) + (',' if len(t['a']) == 1 else '') + ')'
        if k == 'adt':
            if t['local']:
                self.use_adt(t['p'])
                return mangle(t['p'])
            if t['p'] in IMG: return IMG[t['p']]
            m = {'std::vec::Vec': 'Vec', 'std::string::String': 'String', 'std::option::Option': 'Option', 'std::result::Result': 'Result', 'std::ops::Range': 'core::ops::Range',
                 'std::ops::RangeInclusive': 'core::ops::RangeInclusive'}.get(t['p'])
            if m is None: raise Unsupported('type ' + t['p'])
            a = [x for x in t['a'] if not is_adt(x, 'std::alloc::Global')]
            return m + ('<' + ', '.join(self.tt(x, life, cst) for x in a) + '>' if a else '')
        if k == 'never': return '!'
        raise Unsupported('type ' + json.dumps(t)[:80])
    def use_adt(self, p):
        if p in self.used_adts: return
        if p not in self.adts: raise Unsupported('adt ' + p)
        self.used_adts[p] = True
        a = self.adts[p]
        for v in a['variants']:
            for _, ti in v['fields']: self.tt(self.tys[ti])
    def is_copy(self, t):
        k = t['k']
        if k == 'prim': return t['n'] != 'str'
        if k == 'ref': return not t['mut']
        if k == 'array': return self.is_copy(t['t'])
        if k == 'tup': return all(self.is_copy(x) for x in t['a'])
        if k == 'adt':
            if t['local']: return self.adts[t['p']]['copy']
            if t['p'] in ('image::Rgba', 'image::ImageFormat'): return True
            return is_opt(t) and self.is_copy(t['a'][0])
        return False
    def adt_text(self, p):
        a = self.adts[p]
        m = mangle(p)
        der = '#[derive(Clone, Copy, PartialEq, Eq, Structural)]\n' if a['copy'] else ''
        def fld(v, pub):
            if not v['fields']: return ''
            if v['fields'][0][0].isdigit(): return '(' + ', '.join(pub + self.tt(self.tys[t]) for _, t in v['fields']) + ')'
            return ' { ' + ', '.join('%s%s: %s' % (pub, n, self.tt(self.tys[t])) for n, t in v['fields']) + ' }'
        if a['enum']:
            return der + 'pub enum %s { %s }\n' % (m, ', '.join(v['name'] + fld(v, '') for v in a['variants']))
        v = a['variants'][0]
        f = fld(v, 'pub ')
        return der + 'pub struct %s%s%s\n' % (m, f, '' if f.startswith(' {') else ';')
    # -------- constants
    def const_lit(self, e):
        k = e['k']
        if k == 'lit':
            l = e['lit']
            if 'int' in l: return l['int'] + (self.tys[e['t']]['n'] if is_int(self.tys[e['t']]) else '')
            if 'char' in l: return chr_lit(l['char'])
            if 'bool' in l: return 'true' if l['bool'] else 'false'
            if 'str' in l: return str_const(l['str'])
        if k == 'array': return '[' + ', '.join(self.const_lit(x) for x in e['v']) + ']'
        if k == 'tup': return '(' + ', '.join(self.const_lit(x) for x in e['v']) + ')'
        if k == 'addr':
            x = e['e']
            while x['k'] == 'block' and not x['b']['stmts']: x = x['b']['expr']
            if x['k'] == 'array':
                v = [self.const_lit(y) for y in x['v']]
                return slice_const(v)
        if k == 'repeat':
            t = self.tys[e['t']]
            return '[%s; %s]' % (self.const_lit(e['e']), t['n'])
        if k == 'block' and not e['b']['stmts'] and e['b']['expr']: return self.const_lit(e['b']['expr'])
        if k == 'droptemps': return self.const_lit(e['e'])
        if k == 'path' and 'def' in e['res']:
            r = e['res']
            if r['def'] in self.consts: self.use_const(r['def']); return mangle(r['def'])
            if 'Ctor' in r['dk'] and r['def'] in self.variant_map(): return self.variant_map()[r['def']]
        if k == 'un' and e['op'] == '-': return '-' + self.const_lit(e['e'])
        if k == 'bin' and e['op'] in '+-*/%': return '(%s %s %s)' % (self.const_lit(e['l']), e['op'], self.const_lit(e['r']))
        if k == 'struct' or k == 'call': pass
        raise Unsupported('constant expression ' + k)
    def variant_map(self):
        if not hasattr(self, '_vm'):
            self._vm = {}
            for p, a in self.adts.items():
                if a['enum']:
                    for v in a['variants']: self._vm[p + '::' + v['name']] = mangle(p) + '::' + v['name']
        return self._vm
    def use_const(self, p):
        if p in self.used_consts: return
        c = self.consts[p]
        self.used_consts[p] = None
        t = self.tys[c['t']]
        self.used_consts[p] = 'pub const %s: %s = %s;\n' % (mangle(p), self.tt(t, None, True), self.const_lit(c['body']))
    def const_is_cst(self, p): return has_ref(self.tys[self.consts[p]['t']])

    # -------- functions
    def fn_key(self, path, selfty=None):
        """mangled name of a function, monomorphised over Self for trait default methods"""
        f = self.fns[path]
        if f.get('trait') and selfty is not None: return mangle(selfty['p']) + '_' + f['name']
        return mangle(path)
    def lower_fn(self, path, selfty=None, pnames=None):
        key = self.fn_key(path, selfty)
        if key in self.lowered: return self.lowered[key]
        L = FnLower(self, path, selfty, key)
        self.lowered[key] = L
        L.run(pnames)
        return L

def chr_lit(c):
    if c < 128 and chr(c).isprintable() and chr(c) not in "'\\": return "'%s'" % chr(c)
    return "'\\u{%x}'" % c
def str_lit(s):
    o = ''
    for c in s:
        if c == '"': o += '\\"'
        elif c == '\\': o += '\\\\'
        elif ord(c) < 128 and c.isprintable(): o += c
        else: o += '\\u{%x}' % ord(c)
    return '"' + o + '"'
MAXSTR, MAXSL = 8, 16
def str_const(s):
    if len(s) > MAXSTR: raise Unsupported('long string in a constant')
    return 'StrLit::L%d%s' % (len(s), '(%s)' % ', '.join(chr_lit(ord(c)) for c in s) if s else '')
def slice_const(v):
    if len(v) > MAXSL: raise Unsupported('long slice in a constant')
    return 'SliceLit { n: %dusize, d: [%s] }' % (len(v), ', '.join(v + ['0u8'] * (MAXSL - len(v))))

IDENT = re.compile(r'^[A-Za-z_]\w*$')
def simple(t): return IDENT.match(t) is not None or re.match(r'^\d+\w*$', t) is not None

def walk(e, f):
    if isinstance(e, dict):
        if 'k' in e and f(e) is False: return
        for v in e.values(): walk(v, f)
    elif isinstance(e, list):
        for v in e: walk(v, f)

class Frame:
    """one (possibly inlined) function body or closure body"""
    def __init__(self, kind, subst=None, selfty=None): self.kind, self.subst, self.selfty = kind, subst or {}, selfty

class FnLower:
    def __init__(self, crate, path, selfty, key):
        self.c, self.path, self.selfty, self.key = crate, path, selfty, key
        self.f = crate.fns[path]
        self.out = []
        self.n = 0
        self.names = set()
        self.spec = False
        self.loops = []          # stack
        self.endless = set()
        self.all_loops = []
        self.calls = []
        self.fr = Frame('fn', None, selfty)
        self.decl = {}           # runtime var -> type
        self.srcref = {}         # text of an iterated slice -> (slice expression, its length)
        self.arrlits = {}        # array of literals -> its elements
        self.litdef = {}         # variable that is one of a few literals -> [(condition, literal)]
        self.inlined = []
        self.loopstack_for = []
        self.strlits = []
        self.unsup = None

    # ------- infrastructure
    def ty(self, i): return self.st(self.c.tys[i])
    def st(self, t):
        if t['k'] == 'param':
            if t['n'] == 'Self' and self.fr.selfty is not None: return self.fr.selfty
            if t['n'] in self.fr.subst: return self.fr.subst[t['n']]
        return t
    def emit(self, s):
        if self.spec: raise NoSpec()
        self.out.append(s)
    def name(self, base):
        base = re.sub(r'\W', '_', base)
        if base in ('self', 'r', 'spec', 'proof', 'exec', 'ghost', 'int', 'nat', 'forall', 'exists', 'match'): base += '_'
        n, k = base, 2
        while n in self.names: n = '%s_%d' % (base, k); k += 1
        self.names.add(n)
        return n
    def tmp(self, txt, ty, base='t', mut=False, annot=False):
        if self.spec: raise NoSpec()
        n = self.name(base)
        a = ''
        if annot: a = ': ' + self.c.tt(ty)
        self.emit('let %s%s%s = %s;' % ('mut ' if mut else '', n, a, txt))
        self.decl[n] = ty
        m = re.match(r'^(\w+)\[(\w+)\]$', txt)
        if m and m.group(1) in self.arrlits and is_int(ty) and len(self.arrlits[m.group(1)]) <= 4: self.litdef[n] = [('%s == %d' % (m.group(2), k), v.txt) for k, v in enumerate(self.arrlits[m.group(1)])]
        for l in self.loops: l.locals.add(n)
        return n
    def block(self, f):
        """run f emitting into a fresh list; returns (lines, result)"""
        sv, self.out = self.out, []
        try:
            r = f()
            return self.out, r
        finally: self.out = sv
    def mutated(self, txt):
        m = re.match(r'^[(*]*([A-Za-z_]\w*)', txt)
        if m:
            for l in self.loops:
                if m.group(1) not in l.locals: l.muts[m.group(1)] = True

    # ------- value helpers
    def tyof(self, v):
        if isinstance(v, V): return v.ty
        if isinstance(v, RefV): return ref(self.tyof(v.v), v.mut)
        if isinstance(v, SlV): return {'k': 'slice', 't': v.elem}
        if isinstance(v, StrV): return STR
        if isinstance(v, TupV): return tup([self.tyof(x) for x in v.vs])
        if isinstance(v, OptV): return opt(v.ety)
        if isinstance(v, PixV): return RGBA
        raise Unsupported('type of ' + type(v).__name__)
    def deref(self, v):
        if isinstance(v, RefV): return v.v
        if isinstance(v, V) and is_ref(v.ty):
            t = v.ty['t']
            if v.cst and t['k'] == 'slice': return SlV(v.txt + '.v()' if self.spec else self.tmp(v.txt + '.sl()', v.ty, 's'), t['t'], 'seq' if self.spec else 'ref')
            if v.cst and is_str(t): return StrV(v.txt + '.v()' if self.spec else self.tmp(v.txt + '.s()', v.ty, 's'))
            if t['k'] == 'slice': return SlV(v.txt, t['t'], 'ref')
            if is_str(t): return StrV(v.txt)
            if is_ref(t) or True: return V('(*%s)' % v.txt, t, True, v.imm)
        raise Unsupported('deref of ' + type(v).__name__)
    def derefov(self, v):
        t = self.tyof(v)
        if is_vec(t): return SlV(v.txt, t['a'][0], 'vec')
        if is_string(t): return StrV(v.txt + '@' if self.spec else self.recv(v.txt) + '.as_str()')
        raise Unsupported('overloaded deref')
    def unsize(self, v):
        # reference to array -> reference to slice
        inner = self.deref(v)
        t = self.tyof(inner)
        if t['k'] == 'array' and isinstance(inner, V): return RefV(SlV(inner.txt, t['t'], 'array', t['n'], inner.cst))
        raise Unsupported('unsize')
    def as_slice(self, v):
        """slice place from any slice-like place or reference"""
        for _ in range(6):
            if isinstance(v, SlV): return v
            if isinstance(v, RefV): v = v.v; continue
            if isinstance(v, V):
                if is_ref(v.ty): v = self.deref(v); continue
                if is_vec(v.ty): return SlV(v.txt, v.ty['a'][0], 'vec')
                if v.ty['k'] == 'array': return SlV(v.txt, v.ty['t'], 'array', v.ty['n'], v.cst)
            break
        raise Unsupported('slice of ' + type(v).__name__)
    def as_str(self, v):
        for _ in range(6):
            if isinstance(v, StrV): return v
            if isinstance(v, RefV): v = v.v; continue
            if isinstance(v, V):
                if is_ref(v.ty): v = self.deref(v); continue
                if is_string(v.ty): return self.derefov(v)
            break
        raise Unsupported('str of ' + type(v).__name__)
    def strip(self, v):
        for _ in range(8):
            if isinstance(v, RefV): v = v.v
            elif isinstance(v, V) and is_ref(v.ty): v = self.deref(v)
            else: return v
        raise Unsupported('strip')
    def recv(self, txt):
        m = re.match(r'^\(\*([A-Za-z_]\w*)\)$', txt)
        return m.group(1) if m else txt
    def sl_ref(self, s):
        if s.kind == 'ref': return s.txt
        if s.kind == 'seq': raise NoSpec()
        return self.recv(s.txt) + '.as_slice()'
    def sl_len(self, s):
        if s.n is not None: return '%dusize' % s.n if not self.spec else str(s.n)
        if s.kind == 'seq': return s.txt + '.len()'
        if self.spec: return self.recv(s.txt) + '@.len()'
        return self.recv(s.txt) + '.len()'
    def sl_spec(self, s): return s.txt if s.kind == 'seq' else self.recv(s.txt) + '@'
    def sl_at(self, s, i, imm=True):
        if self.spec: return V('%s[%s]' % (self.sl_spec(s), self.as_int(i)), s.elem, True, imm, s.cst)
        return V('%s[%s]' % (self.recv(s.txt), i), s.elem, True, imm, s.cst)
    def as_int(self, i): return i if re.match(r'^\d+$', i) else '(%s) as int' % i if not IDENT.match(i) else i + ' as int'
    def own(self, v):
        """expression text with v's value"""
        if isinstance(v, V):
            if v.cst and is_ref(v.ty):
                d = self.deref(v)
                return d.txt
            return v.txt
        if isinstance(v, RefV):
            w = v.v
            if isinstance(w, V):
                if v.mut:
                    self.mutated(w.txt)
                    m = re.match(r'^\(\*([A-Za-z_]\w*)\)$', w.txt)
                    if m: return m.group(1)
                    return '&mut ' + w.txt
                m = re.match(r'^\(\*([A-Za-z_]\w*)\)$', w.txt)
                if m and not (m.group(1) in self.decl and is_ref(self.decl[m.group(1)]) and self.decl[m.group(1)]['mut']): return m.group(1)
                if w.cst and has_ref(w.ty): raise Unsupported('reference into a constant table')
                if self.spec: return w.txt
                return '&' + w.txt
            if isinstance(w, SlV): return self.sl_ref(w)
            if isinstance(w, StrV): return w.txt
            if isinstance(w, RefV): return '&' + self.own(w)
            if isinstance(w, TupV): return '&' + self.own(w)
        if isinstance(v, TupV): return '(' + ', '.join(self.own(x) for x in v.vs) + (',' if len(v.vs) == 1 else '') + ')'
        if isinstance(v, OptV):
            def f():
                return self.own(v.pay('k_'))
            ls, x = self.block(f)
            return 'match %s { Some(k_) => { %s Some(%s) }, None => None }' % (v.txt, ' '.join(ls), x)
        if isinstance(v, RangeV):
            if v.kind == 'Range': return 'core::ops::Range { start: %s, end: %s }' % (self.own(v.lo), self.own(v.hi))
        if isinstance(v, FmtV): return self.own(self.fmt_string(v))
        if isinstance(v, PixV): return self.own(self.pix(v))
        raise Unsupported('value of ' + type(v).__name__)
    def mat(self, v, base='t', mut=False):
        """bind v to a fresh variable"""
        t = self.tyof(v)
        n = self.tmp(self.own(v), t, base, mut)
        return V(n, t, True, not mut)
    def stable(self, v):
        """make sure the text of v can be used later"""
        if isinstance(v, V) and not v.imm and not is_unit(v.ty) and v.ty['k'] != 'never':
            if self.spec: return v
            return self.mat(v)
        if isinstance(v, TupV): return TupV([self.stable(x) for x in v.vs])
        return v
    def spec_eq(self, a, b):
        return '%s == %s' % (a, b)

    # ------- expressions
    def ev(self, e):
        v = self.ev0(e)
        adj = e.get('adj') or []
        i = 0
        while i < len(adj):
            k = adj[i][0]
            if k == 'never': pass
            elif k == 'deref': v = self.deref(v)
            elif k == 'derefov':
                v = self.derefov(v)
            elif k == 'borrow': v = RefV(self.place(v))
            elif k == 'borrowmut': v = RefV(self.place(v), True)
            elif k == 'unsize': v = self.unsize(v)
            else: raise Unsupported('adjustment ' + k)
            i += 1
        return v
    def place(self, v):
        if isinstance(v, V) and not v.lv and not self.spec and not (v.imm and re.match(r"^[\w:]+$|^'[^']*'$", v.txt)): return self.mat(v)
        return v
    def ev0(self, e):
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m is None: raise Unsupported('expression %s at %s' % (k, e.get('sp')))
        return m(e)
    def mutates(self, e):
        r = []
        def f(x):
            if x['k'] in ('assign', 'assignop', 'loop', 'ret', 'break', 'continue'): r.append(1)
            if any(a[0] == 'borrowmut' for a in x.get('adj') or []): r.append(1)
            if x['k'] == 'addr' and x.get('mut'): r.append(1)
        walk(e, f)
        return bool(r)
    def ev_list(self, es):
        vs = []
        for i, e in enumerate(es):
            v = self.ev(e)
            if isinstance(v, V) and not v.imm and any(self.mutates(x) for x in es[i + 1:]) and not self.spec and not is_ref(v.ty):
                v = self.mat(v)
            vs.append(v)
        return vs
    def e_lit(self, e):
        l, t = e['lit'], self.ty(e['t'])
        if 'int' in l:
            return V(l['int'] + ('' if self.spec or not is_int(t) else t['n']), t, False, True)
        if 'char' in l: return V(chr_lit(l['char']), CHAR, False, True)
        if 'bool' in l: return V('true' if l['bool'] else 'false', BOOL, False, True)
        if 'str' in l:
            self.strlits.append(l['str'])
            return RefV(StrV(str_lit(l['str']) + ('@' if self.spec else ''), l['str']))
        if 'bytes' in l: raise Unsupported('byte string')
        raise Unsupported('literal')
    def e_path(self, e):
        if 'trylocal' in e: return self.env[e['trylocal']]
        r = e['res']
        if 'local' in r:
            if r['local'] not in self.env: raise Unsupported('unbound local')
            return self.env[r['local']]
        d = r.get('def')
        if d in self.c.consts:
            self.c.use_const(d)
            t = self.c.tys[self.c.consts[d]['t']]
            return V(mangle(d), t, True, True, self.c.const_is_cst(d))
        dk = r.get('dk', '')
        if dk.startswith('Ctor(Variant, Const)') or dk.startswith('Ctor(Struct, Const)'):
            return V(self.ctor(r), self.ty(e['t']), False, True)
        if dk in ('Fn', 'AssocFn') or dk.startswith('Ctor') or dk == 'SelfCtor':
            return FnV(e.get('callee'), r)
        std = {'std::u8::MAX': ('u8::MAX', U8), 'core::num::<impl usize>::MAX': ('usize::MAX', USZ), 'core::num::<impl u32>::MAX': ('u32::MAX', U32), 'core::num::<impl u8>::MAX': ('u8::MAX', U8)}
        if d in std: return V(std[d][0], std[d][1], False, True)
        raise Unsupported('path %s' % d)
    def ctor(self, r):
        d = r['def']
        if d in ('std::prelude::v1::None', 'std::option::Option::None'): return 'None'
        if d.endswith('::Some'): return 'Some'
        if d.endswith('::Ok') and not r['is_local']: return 'Ok'
        if d.endswith('::Err') and not r['is_local']: return 'Err'
        if d.startswith('image::ImageFormat::') or (r.get('ctor_of') or '').startswith('image::ImageFormat::'):
            x = (r.get('ctor_of') or d).rsplit('::', 1)[1]
            if x in ('Gif', 'Png', 'WebP', 'Jpeg', 'Bmp', 'Tiff', 'Ico', 'Tga', 'Pnm', 'Qoi'): return 'ImgFormat::' + x
        if d == 'image::Rgba' or r.get('ctor_of') == 'image::Rgba': return 'Rgba'
        if (r.get('ctor_of') or d).endswith('DynamicImage::ImageRgba8'): return 'dyn_rgba8'
        if r['is_local']:
            vm = self.c.variant_map()
            p = d if d in vm else r.get('ctor_of')
            if p in vm:
                self.c.use_adt(p.rsplit('::', 1)[0])
                return vm[p]
            if p in self.c.adts:
                self.c.use_adt(p); return mangle(p)
            if d in self.c.adts: self.c.use_adt(d); return mangle(d)
        raise Unsupported('constructor ' + d)
    def e_tup(self, e):
        if not e['v']: return V('()', UNIT, False, True)
        return TupV(self.ev_list(e['v']))
    def e_array(self, e):
        vs = self.ev_list(e['v'])
        t = self.ty(e['t'])
        if self.spec: raise NoSpec()
        if vs and any(isinstance(v, TupV) for v in vs): pass
        # an array of references stays an array of references
        n = self.tmp('[' + ', '.join(self.own(v) for v in vs) + ']', self.arr_ty(t, vs), 'arr', annot=not vs)
        if vs and all(isinstance(v, V) and re.match(r"^(\d+\w*|'(\\.|[^'\\])'|true|false)$", v.txt) for v in vs): self.arrlits[n] = vs
        return V(n, self.arr_ty(t, vs), True, True)
    def arr_ty(self, t, vs):
        return t
    def e_repeat(self, e):
        t = self.ty(e['t'])
        return V('[%s; %s]' % (self.own(self.ev(e['e'])), t['n']), t, False, False)
    def e_droptemps(self, e): return self.ev(e['e'])
    def e_cast(self, e):
        v = self.ev(e['e']); t = self.ty(e['t']); s = self.tyof(v)
        if t == s: return v
        if is_int(t) and (is_int(s) or s == CHAR): return V('(%s as %s)' % (self.own(v), t['n']), t, False, v.imm)
        if t == CHAR and s == U8: return V('(%s as char)' % self.own(v), t, False, v.imm)
        if is_int(t) and s['k'] == 'adt' and s['local'] and self.c.adts[s['p']]['enum'] and all(not x['fields'] for x in self.c.adts[s['p']]['variants']):
            a = self.c.adts[s['p']]
            if not self.c.is_copy(s) or self.spec: raise Unsupported('cast')
            arms = ', '.join('%s::%s => %s%s' % (mangle(s['p']), x['name'], d, t['n']) for x, d in zip(a['variants'], a['disc']) if int(d) < 128)
            if len(a['disc']) != arms.count('=>'): raise Unsupported('cast')
            return V(self.tmp('match %s { %s }' % (self.own(v), arms), t, 'dv'), t, True, True)
        if is_int(t) and s == BOOL: return V('(if %s { 1%s } else { 0%s })' % (self.own(v), t['n'], t['n']), t, False, v.imm)
        raise Unsupported('cast')
    def e_un(self, e):
        op = e['op']
        if op == '*':
            v = self.ev(e['e'])
            if e['ov']: return self.derefov(self.deref(v) if is_ref(self.tyof(v)) else v)
            return self.deref(v)
        v = self.ev(e['e'])
        if op == '!':
            if self.tyof(v) != BOOL: raise Unsupported('bitwise not')
            return V('!(%s)' % self.own(v), BOOL, False, isinstance(v, V) and v.imm)
        if op == '-': return V('-(%s)' % self.own(v), self.tyof(v), False, v.imm)
        raise Unsupported('unary ' + op)
    def cmp_text(self, op, a, b):
        a, b = self.strip(a), self.strip(b)
        ta, tb = self.tyof(a), self.tyof(b)
        if is_str(ta) or is_string(ta):
            x, y = self.as_str(a), self.as_str(b)
            if op not in ('==', '!='): raise Unsupported('string order')
            if self.spec: r = '(%s =~= %s)' % (self.str_spec(x), self.str_spec(y))
            else: r = 'str_eq(%s, %s)' % (x.txt, y.txt); self.c.used_std.add('str_eq')
            return r if op == '==' else '!' + r
        if ta['k'] in ('slice', 'array') or is_vec(ta):
            x, y = self.as_slice(a), self.as_slice(b)
            if x.elem != U8 or op not in ('==', '!='): raise Unsupported('slice comparison')
            if self.spec: r = '(%s =~= %s)' % (self.sl_spec(x), self.sl_spec(y))
            else: r = 'slice_eq(%s, %s)' % (self.sl_ref(x), self.sl_ref(y))
            return r if op == '==' else '!' + r
        if isinstance(a, TupV) or isinstance(b, TupV) or ta['k'] == 'tup':
            if op not in ('==', '!='): raise Unsupported('tuple order')
            n = len(ta['a'])
            r = '(' + ' && '.join(self.cmp_text('==', self.proj(a, i), self.proj(b, i)) for i in range(n)) + ')'
            return r if op == '==' else '!' + r
        if is_opt(ta):
            if not isinstance(a, V) or not isinstance(b, V): raise Unsupported('option comparison')
            if op not in ('==', '!='): raise Unsupported('option order')
            if self.spec: return '(%s %s %s)' % (a.txt, op, b.txt)
            et = ta['a'][0]
            if b.txt == 'None' or a.txt == 'None':
                r = '%s.is_none()' % (a.txt if b.txt == 'None' else b.txt)
            else:
                x, y = self.place(a), self.place(b)
                p, q = V('x_', et, True, True), V('y_', et, True, True)
                r = '(match (%s, %s) { (Some(x_), Some(y_)) => %s, (None, None) => true, _ => false })' % (x.txt, y.txt, self.cmp_text('==', p, q))
            return r if op == '==' else '!' + r
        if ta['k'] == 'prim' or (ta['k'] == 'adt' and ta['local'] and self.c.is_copy(ta)):
            return '(%s %s %s)' % (self.own(a), op, self.own(b))
        raise Unsupported('comparison of ' + json.dumps(ta)[:60])
    def str_spec(self, s): return s.txt if s.txt.endswith('@') or s.txt.endswith('.v()') or not self.spec else s.txt + '@'
    def e_bin(self, e):
        op = e['op']
        if op in ('&&', '||'):
            a = self.ev(e['l'])
            if self.spec:
                return V('(%s %s %s)' % (self.own(a), op, self.own(self.ev(e['r']))), BOOL, False, True)
            at = self.own(a)
            ls, b = self.block(lambda: self.own(self.ev(e['r'])))
            if not ls: return V('(%s %s %s)' % (at, op, b), BOOL, False, False)
            if op == '&&': self.emit_lines_let(n := self.name('b'), BOOL, 'if %s {' % at, ls, b, '} else { false };')
            else: self.emit_lines_let(n := self.name('b'), BOOL, 'if %s { true } else {' % at, ls, b, '};')
            return V(n, BOOL, True, True)
        l, r = self.ev_list([e['l'], e['r']])
        if op in ('==', '!=', '<', '<=', '>', '>='):
            return V(self.cmp_text(op, l, r), BOOL, False, False)
        l = self.strip(l) if not (is_string(self.tyof_s(l))) else l
        if is_string(self.tyof_s(l)) and op == '+':
            s = self.tmp(self.own(l), STRING, 's', True)
            self.emit('%s.push_str(%s);' % (s, self.as_str(r).txt))
            return V(s, STRING, True, False)
        r = self.strip(r)
        t = self.ty(e['t'])
        if t['k'] == 'other' or t['k'] == 'param': t = self.tyof(l)
        if op == '*' and is_int(t) and not self.spec:
            for a, b in ((l, r), (r, l)):
                d = self.litdef.get(self.own(b))
                if d and re.match(r'^[\w ()]+$', self.own(a)):
                    # one factor is one of a few literals: say what the product is for each of them
                    self.emit('proof { %s }' % ' '.join('assert(%s ==> %s * %s == %s * %s);' % (k, self.own(a), self.own(b), self.own(a), c) for k, c in d)); break
        if op in '+-*/%' and is_int(t): return V('(%s %s %s)' % (self.own(l), op, self.own(r)), t, False, l.imm and r.imm)
        if op in ('&', '|', '^') and t == BOOL:
            if op == '^': return V('(%s != %s)' % (self.own(l), self.own(r)), BOOL)
            return V('(%s %s %s)' % (self.own(l), op + op, self.own(r)), BOOL)
        if op in ('&', '|', '^', '<<', '>>') and is_int(t): return V(self.bits(op, self.own(l), self.own(r), t), t)
        raise Unsupported('operator ' + op)
    def bits(self, op, a, b, t):
        """on an unsigned type, a shift right by a literal and a mask of low bits are a division and a remainder"""
        m = re.match(r'^(\d+)(?:[ui]\d+|usize|isize)?$', b)
        if m and t['k'] == 'prim' and t['n'][0] == 'u':
            k = int(m.group(1)); w = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64}.get(t['n'], 0)
            if op == '>>' and k < w - 1: return '(%s / %d%s)' % (a, 2 ** k, t['n'])
            if op == '&' and k > 0 and (k & (k + 1)) == 0 and k + 1 < 2 ** w: return '(%s %% %d%s)' % (a, k + 1, t['n'])
        return '(%s %s %s)' % (a, op, b)
    def tyof_s(self, v):
        try: return self.tyof(v)
        except Unsupported: return {'k': 'other'}
    def emit_lines_let(self, n, ty, head, ls, tail, end):
        if self.spec: raise NoSpec()
        self.out.append('let %s = %s' % (n, head))
        self.out.append(ls + [tail])
        self.out.append(end)
        self.decl[n] = ty
        for l in self.loops: l.locals.add(n)
    def e_field(self, e):
        v = self.ev(e['e'])
        return self.proj_name(v, e['name'], e)
    def proj_name(self, v, name, e=None):
        v = self.strip(v)
        if isinstance(v, TupV): return v.vs[int(name)]
        if isinstance(v, PixV): v = self.pix(v)
        if isinstance(v, V):
            t = v.ty
            if t['k'] == 'tup': return V('%s.%s' % (self.recv(v.txt), name), t['a'][int(name)], True, v.imm, v.cst)
            if t['k'] == 'adt' and t['local']:
                for n, ti in self.c.adts[t['p']]['variants'][0]['fields']:
                    if n == name: return V('%s.%s' % (self.recv(v.txt), name), self.c.tys[ti], True, v.imm)
            if is_adt(t, 'image::Rgba'): return V('%s.0' % self.recv(v.txt), RGBA_A, True, v.imm)
            if is_adt(t, 'std::ops::Range'): return V('%s.%s' % (self.recv(v.txt), name), t['a'][0], True, v.imm)
        if isinstance(v, RangeV): return v.lo if name == 'start' else v.hi
        raise Unsupported('field ' + name)
    def proj(self, v, i): return self.proj_name(v, str(i))
    def e_index(self, e):
        b = self.ev(e['e'])
        x = self.ev(e['i'])
        if isinstance(x, RangeV) or (isinstance(x, V) and is_adt(x.ty, 'std::ops::RangeFull')):
            return self.subslice(b, x)
        b = self.strip(b)
        if isinstance(b, V) and is_adt(b.ty, 'image::ImageBuffer'):
            x = self.strip(x)
            return PixV(b, self.own(self.stable(self.strip(self.proj(x, 0)))), self.own(self.stable(self.strip(self.proj(x, 1)))))
        if isinstance(b, V) and is_adt(b.ty, 'image::Rgba'): b = self.proj_name(b, '0')
        s = self.as_slice(b)
        i = self.own(self.strip(x))
        if not self.spec and not simple(i) and not (isinstance(x, V) and x.imm and re.match(r'^\w+$', i)):
            i = self.tmp(i, USZ, 'ix')
        elif not self.spec and isinstance(x, V) and not x.imm:
            i = self.tmp(i, USZ, 'ix')
        imm = not isinstance(b, V) or b.imm
        return self.sl_at(s, i, imm)
    def subslice(self, b, x):
        b = self.strip(b)
        t = self.tyof(b)
        full = isinstance(x, V)
        if is_str(t) or is_string(t):
            if full: return self.as_str(b)
            raise Unsupported('string slicing')
        s = self.as_slice(b)
        if full: return s
        if self.spec: raise NoSpec()
        lo = self.own(x.lo) if x.lo is not None else '0usize'
        n = self.sl_len(s)
        hi = n if x.hi is None else self.own(x.hi)
        if x.kind in ('RangeInclusive', 'RangeToInclusive'): hi = '(%s + 1)' % hi
        r = self.tmp('slice_subrange(%s, %s, %s)' % (self.sl_ref(s), lo, hi), ref({'k': 'slice', 't': s.elem}), 'sub')
        return SlV(r, s.elem, 'ref')
    def e_struct(self, e):
        r = e['res']
        d = r.get('def', '')
        fs = [f[0] for f in e['fields']]
        if d == 'std::ops::RangeFull' or (is_adt(self.ty(e['t']), 'std::ops::RangeFull')):
            return V('(..)', self.ty(e['t']), False, True)
        t = self.ty(e['t'])
        if t['k'] == 'adt' and t['p'].startswith('std::ops::Range'):
            vs = dict(zip(fs, self.ev_list([f[1] for f in e['fields']])))
            return RangeV(t['p'].split('::')[-1], vs.get('start'), vs.get('end'))
        if e['base'] is not None:
            b = self.strip(self.ev(e['base']))
            vs = self.ev_list([f[1] for f in e['fields']])
            parts = dict(zip(fs, [self.own(v) for v in vs]))
            a = self.c.adts[t['p']]['variants'][0]
            for n, ti in a['fields']:
                if n not in parts:
                    parts[n] = '%s.%s' % (self.recv(b.txt), n)
            self.c.use_adt(t['p'])
            return V('%s { %s }' % (mangle(t['p']), ', '.join('%s: %s' % (n, parts[n]) for n, _ in a['fields'])), t, False, False)
        if self.spec: raise NoSpec()
        vs = self.ev_list([f[1] for f in e['fields']])
        c = self.ctor(r) if r.get('dk') != 'SelfTy' else (self.c.use_adt(d), mangle(d))[1]
        n = self.tmp('%s { %s }' % (c, ', '.join('%s: %s' % (a, self.own(v)) for a, v in zip(fs, vs))), t, 'st')
        return V(n, t, True, True)
    def e_addr(self, e):
        x = e['e']
        if x['k'] == 'array' and not e['mut'] and x['v'] and all(y['k'] == 'lit' for y in x['v']) and not self.spec:
            # a constant: lives as long as the program
            t = self.ty(x['t'])
            vs = [self.ev(y) for y in x['v']]
            n = self.tmp('&[' + ', '.join(self.own(y) for y in vs) + ']', ref(t), 'arr')
            if all(isinstance(y, V) and not is_ref(y.ty) for y in vs): self.arrlits[n] = self.arrlits['(*%s)' % n] = vs
            return V(n, ref(t), True, True)
        v = self.ev(e['e'])
        if isinstance(v, (ClosV, FnV, It, RangeV, CurV)): return v
        if isinstance(v, V) and e['mut'] and v.lv: return RefV(v, True)
        return RefV(self.place(v), e['mut'])
    def e_closure(self, e): return ClosV(e, dict(self.env), self.fr)
    def e_format(self, e):
        return FmtV(e['pieces'], [self.ev(a) if a is not None else None for a in e['args']])
    def pix(self, v): return V(self.tmp('img_get_pixel(&%s, %s, %s)' % (self.recv(v.b.txt), v.x, v.y), RGBA, 'px'), RGBA, True, True)
    def e_assign(self, e):
        r = self.ev(e['r'])
        if isinstance(r, PixV): r = self.pix(r)
        if isinstance(r, V) and r.ty == RGBA: r = self.stable(r)
        l = self.ev(e['l'])
        if isinstance(l, PixV):
            self.emit('img_put_pixel(%s, %s, %s, %s);' % (self.own(RefV(l.b, True)), l.x, l.y, self.own(r)))
            return V('()', UNIT, False, True)
        if not isinstance(l, V): raise Unsupported('assignment target')
        self.emit('%s = %s;' % (l.txt, self.own(r)))
        self.mutated(l.txt)
        return V('()', UNIT, False, True)
    def e_assignop(self, e):
        r = self.ev(e['r'])
        l = self.ev(e['l'])
        op = e['op'].rstrip('=')
        while isinstance(l, RefV): l = l.v
        if not isinstance(l, V): raise Unsupported('assignment target')
        if is_string(l.ty) and op == '+':
            self.emit('%s.push_str(%s);' % (self.recv(l.txt), self.as_str(r).txt))
        elif is_int(l.ty) and op in ('+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>'):
            self.emit('%s = %s;' % (l.txt, self.bits(op, l.txt, self.own(self.strip(r)), l.ty)))
        elif l.ty == BOOL and op in '&|':
            x = self.own(self.strip(r)); self.emit('%s = %s %s %s;' % (l.txt, l.txt, op + op, x))
        else: raise Unsupported('assign operator')
        self.mutated(l.txt)
        return V('()', UNIT, False, True)

    # ------- control
    def value_block(self, f):
        """lines and the value; the value's text is the tail"""
        ls, v = self.block(f)
        return ls, v
    def branch_tail(self, ls, v, want):
        """lines of a branch with its tail value"""
        if v is NEVER or (isinstance(v, V) and v.ty['k'] == 'never'): return ls
        if want == 'unit': return ls
        sv, self.out = self.out, []
        x = self.own(v)
        extra, self.out = self.out, sv
        return ls + extra + [x]
    def merge(self, e, heads, branches, end='}'):
        """branches: list of (lines, Val).  Emits the whole construct and returns its value"""
        t = self.ty(e['t']) if e['t'] >= 0 else {'k': 'other'}
        live = [v for _, v in branches if not (isinstance(v, V) and v.ty['k'] == 'never')]
        if not live:
            for h, (ls, v) in zip(heads, branches): self.out += [h, ls]
            self.out.append(end)
            return NEVER
        if is_unit(t) or all(isinstance(v, V) and is_unit(v.ty) for v in live):
            for h, (ls, v) in zip(heads, branches): self.out += [h, ls]
            self.out.append(end)
            return V('()', UNIT, False, True)
        for v in live:
            if isinstance(v, (ClosV, FnV, It)): raise Unsupported('branch value ' + type(v).__name__)
        n = self.name('t')
        vt = self.tyof(live[0])
        if all(isinstance(v, RefV) and v.mut for v in live): raise Unsupported('branch on &mut')
        tails = [self.branch_tail(ls, v, 'val') for ls, v in branches]
        self.out.append('let %s = %s' % (n, heads[0]))
        self.out.append(tails[0])
        for h, ls in list(zip(heads, tails))[1:]: self.out += [h, ls]
        self.out.append(end + ';')
        self.decl[n] = vt
        for l in self.loops: l.locals.add(n)
        if t['k'] not in ('other', 'param', 'never') and not (isinstance(live[0], (SlV, StrV))): vt = t if self.known(t) else vt
        self.decl[n] = vt
        ts = [v.txt for v in live if isinstance(v, V)]
        if is_int(vt) and len(ts) == len(live) <= 4 and all(re.match(r'^\d+(u8|u16|u32|u64|usize)?$', x) for x in ts): self.litdef[n] = [('%s == %s' % (n, x), x) for x in ts]
        return V(n, vt, True, True)
    def known(self, t):
        try: self.c.tt(t); return True
        except Unsupported: return False
    def e_if(self, e):
        # chains of `let` conditions
        c = e['c']
        while c['k'] == 'droptemps': c = c['e']
        if c['k'] == 'let': return self.if_let(e, c)
        if c['k'] == 'bin' and c['op'] == '&&' and has_let(c):
            inner = dict(e, c=c['r'])
            th = {'k': 'block', 'b': {'stmts': [], 'expr': inner, 'unsafe': False}, 't': e['t'], 'at': e['t']}
            return self.e_if(dict(e, c=c['l'], th=th))
        cv = self.ev(c)
        if self.spec:
            if e['el'] is None: raise NoSpec()
            return V('(if %s { %s } else { %s })' % (self.own(cv), self.own(self.ev(e['th'])), self.own(self.ev(e['el']))), self.ty(e['t']), False, True)
        ct = self.own(cv)
        sv = dict(self.env)
        a = self.block(lambda: self.ev(e['th'])); self.env = dict(sv)
        if e['el'] is None:
            ls = a[0]
            self.out += ['if %s {' % ct, ls, '}']
            return V('()', UNIT, False, True)
        b = self.block(lambda: self.ev(e['el'])); self.env = dict(sv)
        return self.merge(e, ['if %s {' % ct, '} else {'], [a, b])
    def if_let(self, e, c):
        arms = [{'pat': c['pat'], 'guard': None, 'body': e['th']},
                {'pat': {'k': 'wild', 't': c['pat']['t'], 'pd': 0}, 'guard': None, 'body': e['el'] or {'k': 'tup', 'v': [], 't': e['t'], 'at': e['t']}}]
        return self.do_match(e, self.ev(c['init']), arms)
    def e_block(self, e):
        if e.get('label'): raise Unsupported('labelled block')
        return self.ev_block(e['b'])
    def ev_block(self, b):
        if b.get('unsafe'): raise Unsupported('unsafe block')
        sv = dict(self.env)
        div = False
        for i, s in enumerate(b['stmts']):
            if s['k'] == 'let' and s['els'] is not None:
                rest = {'k': 'block', 'b': dict(b, stmts=b['stmts'][i + 1:]), 't': b['expr']['t'] if b['expr'] is not None else -1}
                arms = [{'pat': s['pat'], 'guard': None, 'body': rest}, {'pat': {'k': 'wild', 't': s['pat']['t'], 'pd': 0}, 'guard': None, 'body': {'k': 'block', 'b': s['els'], 't': -1}}]
                v = self.do_match({'k': 'match', 't': rest['t']}, self.ev(s['init']), arms)
                self.env = sv
                return v
            if s['k'] == 'let': r = self.let(s, b, i)
            elif s['k'] in ('expr', 'semi'):
                v = self.ev(s['e'])
                if isinstance(v, V) and v.ty['k'] == 'never': div = True
                elif isinstance(v, V) and not v.lv and not simple(v.txt) and not is_unit(v.ty) and v.txt != '()': self.emit('let _ = %s;' % v.txt)
                r = None
            else: raise Unsupported('item in a function')
        v = self.ev(b['expr']) if b['expr'] is not None else (NEVER if div else V('()', UNIT, False, True))
        if div: v = NEVER
        self.env = sv
        return v
    def let(self, s, b, i):
        if s['init'] is None:
            p = s['pat']
            if p['k'] != 'bind': raise Unsupported('let without initialiser')
            t = self.ty(p['t'])
            n = self.name(p['name'])
            self.emit('let mut %s: %s;' % (n, self.c.tt(t))); self.decl[n] = t
            for l in self.loops: l.locals.add(n)
            self.env[p['id']] = V(n, t, True, False)
            return
        if s['els'] is not None:
            raise Unsupported('let else')
        v = self.ev(s['init'])
        self.bind(s['pat'], v, True)
    def bind(self, p, v, letstmt=False):
        """irrefutable binding"""
        for _ in range(p.get('pd', 0)): v = self.deref(v)
        k = p['k']
        if k == 'wild': return
        if k == 'ref': return self.bind(p['pat'], self.deref(v))
        if k == 'bind':
            if p['sub'] is not None:
                v = self.stable(v)
                self.bind(dict(p, sub=None), v)
                return self.bind_tested(p['sub'], v)
            if p['byref'] in ('ref', 'mut'):
                self.env[p['id']] = RefV(self.place(v), p['byref'] == 'mut'); return
            if isinstance(v, (ClosV, FnV, It, FmtV, RangeV, OptV, CurV, ResOV)):
                if p['mut'] and isinstance(v, RangeV): v = self.range_iter(v)
                if p['mut'] and isinstance(v, (CurV, ClosV)): self.env[p['id']] = v; return
                if p['mut'] and isinstance(v, It):
                    self.env[p['id']] = self.it_state(v, p['name']); return
                if p['mut']: raise Unsupported('mutable ' + type(v).__name__)
                self.env[p['id']] = v; return
            if self.spec: self.env[p['id']] = v; return
            if p['mut']:
                t = self.tyof(v)
                n = self.name(p['name'])
                pt = self.ty(p['t'])
                if self.known(pt): t = pt
                a = ': ' + self.c.tt(t) if self.known(t) and (not has_ref(t) or vec_of_str(t)) else ''
                self.emit('let mut %s%s = %s;' % (n, a, self.own(v)))
                self.decl[n] = t
                for l in self.loops: l.locals.add(n)
                self.env[p['id']] = V(n, t, True, False); return
            if isinstance(v, RefV): self.env[p['id']] = v; return
            if isinstance(v, V) and v.ty['k'] == 'never': self.env[p['id']] = v; return
            if isinstance(v, V) and v.imm and (IDENT.match(v.txt) or (is_ref(v.ty))): self.env[p['id']] = v; return
            if isinstance(v, V) and v.imm and simple(v.txt): self.env[p['id']] = v; return
            if isinstance(v, TupV): self.env[p['id']] = TupV([self.stable(x) for x in v.vs]); return
            if isinstance(v, (SlV, StrV)): raise Unsupported('unsized binding')
            t = self.tyof(v)
            n = self.name(p['name'])
            self.emit('let %s = %s;' % (n, self.own(v)))
            self.decl[n] = t
            for l in self.loops: l.locals.add(n)
            self.env[p['id']] = V(n, t, True, True, isinstance(v, V) and v.cst and has_ref(t)); return
        if k == 'tuple':
            if isinstance(v, V) and not v.lv and not self.spec: v = self.mat(v)
            n = len(v.vs) if isinstance(v, TupV) else len(self.tyof(v)['a'])
            for i, q in expand_dd(p['pats'], p['dd'], n): self.bind(q, self.proj(v, i))
            return
        if k in ('tupstruct', 'struct'):
            d = p['res'].get('ctor_of') or p['res'].get('def')
            if d in self.c.adts and not self.c.adts[d]['enum']:
                if isinstance(v, V) and not v.lv: v = self.mat(v)
                if k == 'tupstruct':
                    for i, q in expand_dd(p['pats'], p['dd'], len(self.c.adts[d]['variants'][0]['fields'])): self.bind(q, self.proj(v, i))
                else:
                    for n, q in p['fields']: self.bind(q, self.proj_name(v, n))
                return
        if k == 'struct' and (isinstance(v, RangeV) or is_adt(self.tyof(v), 'std::ops::Range')):
            if isinstance(v, V) and not v.lv: v = self.mat(v)
            for n, q in p['fields']: self.bind(q, self.proj_name(v, n))
            return
        if k == 'slice' and p['mid'] is None:
            s = self.as_slice(v)
            if s.n == len(p['before']):
                for i, q in enumerate(p['before']): self.bind(q, self.sl_at(s, str(i)))
                return
        raise Unsupported('irrefutable pattern ' + k)

    # match -------------------------------------------------------
    def e_match(self, e):
        if e['src'] == 'try': return self.e_try(e)
        if e['src'] == 'for': return self.e_for(e)
        return self.do_match(e, self.ev(e['s']), e['arms'])
    def e_try(self, e):
        v = self.ev(e['s']['args'][0])
        t = self.tyof(v)
        if self.fr.kind != 'fn': raise Unsupported('? in an inlined body')
        if is_res(t):
            v = self.place(v)
            n = self.name('q')
            self.emit('let %s = match %s { Ok(v_) => v_, Err(e_) => return Err(e_) };' % (n, v.txt))
        elif isinstance(v, OptV):
            i = self.tmp('match %s { Some(v_) => v_, None => return None }' % v.txt, USZ, 'q')
            return v.pay(i)
        elif is_opt(t):
            v = self.place(v)
            n = self.name('q')
            self.emit('let %s = match %s { Some(v_) => v_, None => return None };' % (n, v.txt))
        else: raise Unsupported('?')
        self.decl[n] = t['a'][0]
        for l in self.loops: l.locals.add(n)
        return V(n, t['a'][0], True, True)
    def do_match(self, e, v, arms):
        sv = dict(self.env)
        if isinstance(v, OptV): return self.match_optv(e, v, arms)
        # peel references
        w = v
        while isinstance(w, RefV) or (isinstance(w, V) and is_ref(w.ty)): w = self.deref(w)
        if isinstance(w, StrV): return self.match_chain(e, v, arms)
        if isinstance(w, SlV) or (isinstance(w, V) and w.ty['k'] == 'array'): return self.match_chain(e, v, arms)
        if self.spec: return self.match_chain_spec(e, v, arms)
        def anyp(p, ks):
            r = []
            walk(p, lambda x: r.append(1) if x['k'] in ks else None)
            return bool(r)
        if isinstance(w, TupV):
            # materialise a tuple of stable values
            w = TupV([self.stable(x) if not isinstance(x, RefV) else x for x in w.vs])
        elif isinstance(w, V):
            if not w.lv:
                same = w is v
                w = self.mat(w)
                if same: v = w
        else: raise Unsupported('match on ' + type(w).__name__)
        if isinstance(w, V) and w.ty['k'] in ('char', 'uint', 'int', 'bool', 'prim') and any(a['guard'] is not None and anyp(a['pat'], ('or',)) for a in arms): return self.match_chain(e, w, arms)
        if any(a['guard'] is not None for a in arms):
            # guards that need statements: the guard becomes an `if` whose other branch matches the remaining arms
            bad = None
            for gi, a in enumerate(arms):
                if a['guard'] is None: continue
                st = (len(self.all_loops), len(self.calls), dict(self.env), list(self.names), self.n)
                try: self.block(lambda: self.match_native(e, v, w, [a]))
                except Unsupported as x:
                    if str(x).startswith('guard '): bad = gi
                del self.all_loops[st[0]:]; del self.calls[st[1]:]; self.env = st[2]
                if bad is not None: break
            if bad is not None:
                rest = arms[bad + 1:]
                body = {'k': 'if', 'c': arms[bad]['guard'], 'th': arms[bad]['body'], 'el': {'k': 'rematch', 'm': e, 'val': v, 'arms': rest, 't': e['t'], 'at': e['t']}, 't': e['t'], 'at': e['t']}
                arms = arms[:bad] + [dict(arms[bad], guard=None, body=body)] + rest
        return self.match_native(e, v, w, arms)
    def e_rematch(self, e): return self.do_match(e['m'], e['val'], e['arms'])
    def match_native(self, e, v, w, arms):
        sv = dict(self.env)
        byref = w is not v
        heads, branches = [], []
        st = self.match_scrut(w)
        for a in arms:
            self.env = dict(sv)
            post = []
            ptxt = self.pat(a['pat'], v, post, [w])
            def doarm():
                for q, val in post: self.bind(q, val)
                return self.ev(a['body'])
            g = ''
            if a['guard'] is not None:
                # guard must be evaluable without statements, with the bindings available as places
                def bindall():
                    for q, val in post: self.bind(q, val)
                ls, _ = self.block(bindall)
                if ls: raise Unsupported('guard over a destructured binding')
                ls, gt = self.block(lambda: self.own(self.ev(a['guard'])))
                if ls: raise Unsupported('guard with statements %s' % ls)
                g = ' if ' + gt
                br = self.block(lambda: self.ev(a['body']))
            else: br = self.block(doarm)
            heads.append('%s%s => {' % (ptxt, g))
            branches.append(br)
        self.env = sv
        h2 = ['match %s { %s' % (st, heads[0])] + ['} %s' % h for h in heads[1:]]
        return self.merge(e, h2, branches, '} }')
    def match_scrut(self, w):
        if isinstance(w, TupV): return '(' + ', '.join(self.match_scrut(x) for x in w.vs) + ')'
        if isinstance(w, RefV): return self.match_scrut(w.v)
        if isinstance(w, V):
            if is_ref(w.ty): return self.match_scrut(self.deref(w))
            if not self.c.is_copy(w.ty) and w.ty['k'] == 'adt':
                m = re.match(r'^\(\*([A-Za-z_]\w*)\)$', w.txt)
                return m.group(1) if m else '&' + w.txt
            return w.txt
        raise Unsupported('scrutinee')
    def pat(self, p, v, post, root):
        """Rust pattern text for p against v; bindings that need more than a plain binder go to post"""
        for _ in range(p.get('pd', 0)): v = self.deref(v)
        k = p['k']
        if k == 'wild': return '_'
        if k == 'bind':
            if p['sub'] is not None: raise Unsupported('@ pattern')
            if p['byref'] in ('ref', 'mut'):
                self.env[p['id']] = RefV(v, p['byref'] == 'mut') if not isinstance(v, Binder) else v.as_ref(self)
                return v.txt0() if isinstance(v, Binder) else '_'
            if isinstance(v, Binder):
                self.env[p['id']] = v.as_val(self)
                return v.txt0()
            if p['mut']: post.append((p, v)); return '_'
            self.env[p['id']] = v if not isinstance(v, V) or v.imm or not self.c.is_copy(v.ty) else v
            if isinstance(v, V) and not v.imm: post.append((p, v))
            return '_'
        if k == 'ref':
            return self.pat(p['pat'], v.deref(self) if isinstance(v, Binder) else self.deref(v), post, root)
        if k == 'or':
            outs = []
            for i, q in enumerate(p['pats']):
                sv = dict(self.env); po = []
                outs.append((self.pat(q, v, po, root), self.env, po)); self.env = sv
            # or-patterns must bind the same names: unify binder names by position
            e0 = outs[0][1]
            if any(o[2] for o in outs): raise Unsupported('or pattern binding')
            txts = [outs[0][0]]
            names0 = {n: val for n, val in self.ornames(p['pats'][0], e0).items()}
            for q, o in zip(p['pats'][1:], outs[1:]):
                t = o[0]
                for nm, val in self.ornames(q, o[1]).items():
                    if nm not in names0: raise Unsupported('or pattern names')
                    a, b = root_ident(val), root_ident(names0[nm])
                    t = re.sub(r'\b%s\b' % a, b, t)
                txts.append(t)
            self.env = dict(e0)
            return ' | '.join(txts)
        if k == 'expr':
            x = p['e']
            if x['k'] == 'lit':
                l = x['lit']
                if 'int' in l: return ('-' if x['neg'] else '') + l['int']
                if 'char' in l: return chr_lit(l['char'])
                if 'bool' in l: return 'true' if l['bool'] else 'false'
                raise Unsupported('literal pattern')
            r = x['res']
            if 'Ctor' in r.get('dk', ''): return self.ctor(r)
            if r.get('def') in self.c.consts and is_int(self.c.tys[self.c.consts[r['def']]['t']]):
                return self.c.const_lit(self.c.consts[r['def']]['body'])
            raise Unsupported('constant pattern')
        if k == 'range':
            def lim(x):
                if x is None: return ''
                if x['k'] != 'lit': raise Unsupported('range pattern')
                return x['lit']['int'] if 'int' in x['lit'] else chr_lit(x['lit']['char'])
            return '%s%s%s' % (lim(p['lo']), '..=' if p['incl'] else '..', lim(p['hi']))
        if k == 'tuple':
            inner = v
            if isinstance(v, Binder): raise Unsupported('nested tuple binder')
            if isinstance(v, TupV):
                items = expand_dd(p['pats'], p['dd'], len(v.vs))
                d = dict(items)
                return '(' + ', '.join(self.pat(d[i], v.vs[i], post, root) if i in d else '_' for i in range(len(v.vs))) + ')'
            t = self.tyof(v)
            d = dict(expand_dd(p['pats'], p['dd'], len(t['a'])))
            return '(' + ', '.join(self.pat(d[i], self.proj(v, i), post, root) if i in d else '_' for i in range(len(t['a']))) + ')'
        if k in ('tupstruct', 'struct'):
            r = p['res']
            tv = self.tyof(v) if not isinstance(v, Binder) else v.ty
            path = r.get('ctor_of') or r.get('def')
            std = not r['is_local']
            if std:
                c = self.ctor(r)
                if c == 'Rgba': subt = [RGBA_A]
                elif c.startswith('ImgFormat'): return c
                else: subt = [tv['a'][0] if c in ('Some', 'Ok') else tv['a'][1]] if c != 'None' else []
                if c == 'None': return 'None'
                flds = [str(i) for i in range(len(subt))]
                tys = subt
            else:
                vm = self.c.variant_map()
                if path in vm: a = self.c.adts[path.rsplit('::', 1)[0]]; vr = [x for x in a['variants'] if x['name'] == path.rsplit('::', 1)[1]][0]; c = vm[path]; self.c.use_adt(path.rsplit('::', 1)[0])
                elif r['def'] in vm: path = r['def']; a = self.c.adts[path.rsplit('::', 1)[0]]; vr = [x for x in a['variants'] if x['name'] == path.rsplit('::', 1)[1]][0]; c = vm[path]
                else: a = self.c.adts[path]; vr = a['variants'][0]; c = mangle(path)
                flds = [x[0] for x in vr['fields']]; tys = [self.c.tys[x[1]] for x in vr['fields']]
            if k == 'tupstruct': d = {str(i): q for i, q in expand_dd(p['pats'], p['dd'], len(flds))}
            else: d = {n: q for n, q in p['fields']}
            copy = self.scrut_copy(root)
            outs = []
            for n, t in zip(flds, tys):
                if n not in d: outs.append((n, '_')); continue
                q = d[n]
                if q['k'] == 'wild': outs.append((n, '_')); continue
                outs.append((n, self.subpat(q, t, post, root, copy)))
            if not flds: return c
            if flds[0].isdigit(): return '%s(%s)' % (c, ', '.join(x for _, x in outs))
            return '%s { %s }' % (c, ', '.join(['%s: %s' % (n, x) for n, x in outs if x != '_'] + (['..'] if any(x == '_' for _, x in outs) else [])))
        raise Unsupported('pattern ' + k)
    def scrut_copy(self, root):
        w = root[0]
        if isinstance(w, V): return self.c.is_copy(w.ty)
        return True
    def subpat(self, q, t, post, root, copy):
        """pattern below an enum constructor: bind a fresh variable and continue on it"""
        q2 = q
        if q['k'] in ('expr', 'range') : return self.pat(q, V('?', t), post, root)
        if q['k'] == 'or' and not binds(q): return self.pat(q, V('?', t), post, root)
        if q['k'] in ('tupstruct', 'struct') and q.get('pd', 0) == 0 and refutable(q):
            return self.pat(q, Binder('?', t, copy), post, root)
        nm = q['name'] if q['k'] == 'bind' else 'p'
        n = self.name(nm)
        self.decl[n] = t if copy else ref(t)
        for l in self.loops: l.locals.add(n)
        # the binder is a reference when the scrutinee was matched by reference
        val = V(n, t, True, True) if copy else V('(*%s)' % n, t, True, True)
        if q['k'] == 'bind':
            if q['sub'] is not None: raise Unsupported('@ pattern')
            if q['byref'] in ('ref', 'mut'): self.env[q['id']] = RefV(val, False) if copy else (RefV(val) if not is_unsz(t) else RefV(val))
            elif q['mut']: post.append((q, val))
            else:
                for _ in range(q.get('pd', 0)): val = self.deref(val)
                self.env[q['id']] = val
            return n
        if refutable(q): raise Unsupported('nested refutable pattern')
        post.append((q, val))
        return n
    def ornames(self, p, env):
        r = {}
        walk(p, lambda x: r.__setitem__(x['name'], env[x['id']]) if x['k'] == 'bind' and x['id'] in env else None)
        return r
    def test(self, p, v):
        """boolean text: does v match p (no emission for spec)"""
        for _ in range(p.get('pd', 0)): v = self.deref(v)
        k = p['k']
        if k in ('wild', 'bind') and not p.get('sub'): return 'true'
        if k == 'bind': return self.test(p['sub'], v)
        if k == 'ref': return self.test(p['pat'], self.deref(v))
        if k == 'or': return '(' + ' || '.join(self.test(q, v) for q in p['pats']) + ')'
        if k == 'tuple':
            n = len(v.vs) if isinstance(v, TupV) else len(self.tyof(v)['a'])
            ts = [self.test(q, self.proj(v, i)) for i, q in expand_dd(p['pats'], p['dd'], n)]
            ts = [t for t in ts if t != 'true']
            return '(' + ' && '.join(ts) + ')' if ts else 'true'
        if k == 'expr':
            x = p['e']
            if x['k'] == 'lit':
                l = x['lit']
                if 'str' in l:
                    self.strlits.append(l['str'])
                    return self.cmp_text('==', v, StrV(str_lit(l['str']) + ('@' if self.spec else '')))
                if 'int' in l: return self.cmp_text('==', v, V(('-' if x['neg'] else '') + l['int'], self.tyof(self.strip(v)), False, True))
                if 'char' in l: return self.cmp_text('==', v, V(chr_lit(l['char']), CHAR, False, True))
                if 'bool' in l: return self.own(v) if l['bool'] else '!' + self.own(v)
            r = x['res']
            if 'Ctor' in r.get('dk', '') and r['is_local']: return self.cmp_text('==', v, V(self.ctor(r), self.tyof(self.strip(v)), False, True))
            if r.get('def') in self.c.consts: return self.cmp_text('==', v, self.e_path({'res': r, 't': -1}))
        if k == 'range':
            ts = []
            def lim(x): return x['lit']['int'] if 'int' in x['lit'] else chr_lit(x['lit']['char'])
            x = self.own(self.strip(v))
            if p['lo'] is not None: ts.append('%s <= %s' % (lim(p['lo']), x))
            if p['hi'] is not None: ts.append('%s %s %s' % (x, '<=' if p['incl'] else '<', lim(p['hi'])))
            return '(' + ' && '.join(ts) + ')'
        if k == 'slice':
            s = self.as_slice(v)
            n = len(p['before']) + len(p['after'])
            ln = self.sl_len(s)
            ts = ['%s %s %d' % (ln, '==' if p['mid'] is None else '>=', n)]
            for i, q in enumerate(p['before']):
                t = self.test(q, self.sl_at(s, str(i)))
                if t != 'true': ts.append(t)
            for i, q in enumerate(p['after']):
                t = self.test(q, self.sl_at(s, self.from_end(ln, len(p['after']) - i)))
                if t != 'true': ts.append(t)
            return '(' + ' && '.join(ts) + ')'
        raise Unsupported('pattern test ' + k)
    def from_end(self, n, k): return str(int(n) - k) if re.match(r'^\d+$', n) else '%s - %d' % (n, k)
    def bind_tested(self, p, v):
        """bind the variables of p, which is known to match"""
        for _ in range(p.get('pd', 0)): v = self.deref(v)
        k = p['k']
        if k in ('expr', 'range', 'wild'): return
        if k == 'or':
            if binds(p): raise Unsupported('or binding')
            return
        if k == 'slice':
            s = self.as_slice(v)
            for i, q in enumerate(p['before']): self.bind_tested(q, self.sl_at(s, str(i)))
            for i, q in enumerate(p['after']): self.bind_tested(q, self.sl_at(s, self.from_end(self.sl_len(s), len(p['after']) - i)))
            if p['mid'] is not None and p['mid']['k'] != 'wild':
                n = self.tmp('slice_subrange(%s, %d, %s)' % (self.sl_ref(s), len(p['before']), self.sl_len(s) if not p['after'] else self.from_end(self.sl_len(s), len(p['after']))), ref({'k': 'slice', 't': s.elem}), 'sub')
                self.bind_tested(p['mid'], SlV(n, s.elem, 'ref'))
            return
        if k == 'tuple':
            n = len(v.vs) if isinstance(v, TupV) else len(self.tyof(v)['a'])
            for i, q in expand_dd(p['pats'], p['dd'], n): self.bind_tested(q, self.proj(v, i))
            return
        if k == 'ref': return self.bind_tested(p['pat'], self.deref(v))
        if k == 'bind' and p['byref'] == 'no' and isinstance(v, (SlV, StrV)): raise Unsupported('unsized')
        self.bind(dict(p, pd=0), v)
    def match_chain(self, e, v, arms):
        heads, branches = [], []
        sv = dict(self.env)
        closed = False
        for i, a in enumerate(arms):
            self.env = dict(sv)
            ls, c = self.block(lambda: self.test(a['pat'], v))
            if ls: raise Unsupported('pattern test with statements')
            if a['guard'] is not None:
                if c != 'true' or True:
                    self.bind_tested(a['pat'], v)
                    ls, g = self.block(lambda: self.own(self.ev(a['guard'])))
                    if ls and i:
                        self.env = dict(sv)
                        heads.append('} else {'); branches.append(self.block(lambda: self.match_chain(e, v, arms[i:])))
                        break
                    if ls:
                        n = self.name('guard'); self.decl[n] = BOOL
                        for l in self.loops: l.locals.add(n)
                        self.out += ['let mut %s: bool = false;' % n, 'if %s {' % c, ls + ['%s = %s;' % (n, g)], '}']
                        c = n
                    else: c = g if c == 'true' else '(%s && %s)' % (c, g)
            def arm():
                self.bind_tested(a['pat'], v)
                return self.ev(a['body'])
            br = self.block(arm)
            if c == 'true' or i == len(arms) - 1:
                heads.append('} else {' if i else '{'); branches.append(br); break
            heads.append(('} else if %s {' if i else 'if %s {') % c)
            branches.append(br)
        self.env = sv
        return self.merge(e, heads, branches)
    def match_chain_spec(self, e, v, arms):
        out = ''
        sv = dict(self.env)
        for i, a in enumerate(arms):
            self.env = dict(sv)
            c = self.test(a['pat'], v)
            self.bind_tested(a['pat'], v)
            if a['guard'] is not None: c = '(%s && %s)' % (c, self.own(self.ev(a['guard'])))
            b = self.own(self.ev(a['body']))
            if c == 'true' or i == len(arms) - 1: out += '{ %s }' % b; break
            out += 'if %s { %s } else ' % (c, b)
        self.env = sv
        return V('(' + out + ')', self.ty(e['t']), False, True)
    def match_optv(self, e, v, arms):
        """match on an option known as the index of its payload: a match on the payload in each branch"""
        if self.spec: raise NoSpec()
        sv = dict(self.env)
        some, none = [], []
        for a in arms:
            p = a['pat']
            isn = (p['k'] == 'expr' and p['e'].get('res', {}).get('def', '').endswith('None')) or (p['k'] == 'struct' and p['res']['def'].endswith('None'))
            if p['k'] == 'wild' or (p['k'] == 'bind' and not p['sub']):
                if p['k'] == 'bind': raise Unsupported('option rebinding')
                some.append(a); none.append(a)
            elif isn: none.append(a)
            elif p['k'] == 'tupstruct': some.append(dict(a, pat=p['pats'][0] if p['pats'] else {'k': 'wild'}))
            else: raise Unsupported('option pattern')
        k = self.name('k')
        def side(ar, val):
            def f(val=val):
                if val is not None: val = val()
                a = ar[0]
                if a['guard'] is None and not (val is not None and refutable(a['pat'])):
                    if val is not None and a['pat']['k'] != 'wild': self.bind(a['pat'], val)
                    return self.ev(a['body'])
                if val is None: ar2 = [dict(x, pat={'k': 'wild'}) for x in ar]
                else: ar2 = ar
                return self.match_chain(e, val if val is not None else TupV([]), ar2)
            return f
        self.decl[k] = USZ
        for l in self.loops: l.locals.add(k)
        a = self.block(side(some, lambda: v.pay(k))); self.env = dict(sv)
        b = self.block(side(none, None)); self.env = dict(sv)
        return self.merge(e, ['match %s { Some(%s) => {' % (v.txt, k), '} None => {'], [a, b], '} }')

    # loops --------------------------------------------------------
    def e_for(self, e, rv=None):
        # e['s'] is into_iter(x); arm body is loop{match next ..}
        src = self.ev(e['s']['args'][0])
        it = self.to_iter(src)
        lp = e['arms'][0]['body']
        m = lp['b']['stmts'][0]['e'] if lp['b']['stmts'] else lp['b']['expr']
        some = m['arms'][1]
        pat = some['pat']['fields'][0][1]
        body = some['body']
        if rv is not None:
            body = tail_form(body, 'loop')
            if body is None: raise Unsupported('early return in a loop of an inlined body')
        sv = dict(self.env)
        ctl = []
        walk(some['body'], lambda x: ctl.append(1) if x['k'] in ('break', 'continue') and x.get('target') == lp['id'] else None)
        def step(v):
            self.env = dict(sv)
            if refutable(pat): raise Unsupported('refutable for pattern')
            self.bind(pat, v)
            r = self.ev(body)
            self.env = dict(sv)
        if rv is not None and ctl: raise Unsupported('break or continue next to an early return')
        L = self.drive(it, step, target=lp['id'] if ctl else None, flag=rv, kind='for')
        if isinstance(L, Loop): self.exit_inv(L, it, pat, some['body'], sv, rv)
        self.env = sv
        return V('()', UNIT, False, True)
    def exit_inv(self, L, it, pat, body, env, rv):
        """the body starts with `if C { return / break }`: C is false for the elements already passed"""
        b = body
        while b['k'] == 'droptemps': b = b['e']
        if b['k'] != 'block': return
        st = b['b']['stmts']
        lets, c = [], None
        for x in st + ([{'k': 'expr', 'e': b['b']['expr']}] if b['b']['expr'] is not None else []):
            if x['k'] == 'let' and x['init'] is not None and x['els'] is None: lets.append(x); continue
            c = x.get('e'); break
        while c is not None and c['k'] == 'droptemps': c = c['e']
        if c is None or c['k'] not in ('if', 'match'): return
        def leaves(y):
            if y is None: return False
            while y['k'] == 'droptemps': y = y['e']
            if y['k'] in ('ret', 'break'): return True
            if y['k'] == 'block':
                z = y['b']['expr'] or (y['b']['stmts'][-1].get('e') if y['b']['stmts'] else None)
                return z is not None and leaves(z)
            return False
        if c['k'] != 'if' or not leaves(c['th']) or has_let(c['c']): return
        if L.n is None or L.i is None: return
        def at(k):
            sv, sp = self.env, self.spec
            self.env, self.spec = dict(env), True
            try:
                self.bind(pat, it.get(k))
                for x in lets: self.bind(x['pat'], self.ev(x['init']))
                return self.own(self.ev(c['c']))
            finally: self.env, self.spec = sv, sp
        try: k = self.name('kk'); body, here = at(k), at(L.i)
        except (NoSpec, Unsupported, KeyError, TypeError, AttributeError, IndexError): return
        L.inv.append('forall|%s: int| 0 <= %s < %s ==> !(%s)' % (k, k, L.i, body))
        if rv is not None: L.inv.append('%s is Some ==> %s < %s && %s' % (rv, L.i, L.n, here))
        for n, t in list(self.decl.items()):
            if n in L.muts and n != L.i:
                if is_opt(t) and n != rv: L.inv.append('%s is Some ==> %s < %s && %s' % (n, L.i, L.n, here))
                elif t == BOOL:
                    L.inv.append('%s ==> %s < %s && %s' % (n, L.i, L.n, here))
                    L.inv.append('!%s ==> %s < %s && %s' % (n, L.i, L.n, here))
        if rv is not None: L.inv.append('%s is None ==> %s <= %s' % (rv, L.i, L.n))
    def e_loop(self, e, rv=None):
        b = e['b']
        if e['src'] == 'While':
            x = b['expr']
            while x['k'] == 'droptemps': x = x['e']
            c, body, neg = x['c'], x['th'], False
        elif e['src'] == 'Loop' and b['stmts'] and b['stmts'][0]['k'] in ('semi', 'expr'):
            # loop { if C { break; } .. } is while !C { .. }
            y = b['stmts'][0]['e']
            while y['k'] == 'droptemps': y = y['e']
            if y['k'] != 'if' or y['el'] is not None: raise Unsupported('loop')
            z = y['th']
            while z['k'] in ('droptemps', 'block'):
                if z['k'] == 'droptemps': z = z['e']; continue
                ss = z['b']['stmts'] + ([{'k': 'expr', 'e': z['b']['expr']}] if z['b']['expr'] is not None else [])
                if len(ss) != 1 or ss[0]['k'] == 'let': raise Unsupported('loop')
                z = ss[0]['e']
            if z['k'] != 'break' or z['e'] is not None: raise Unsupported('loop')
            c, neg = y['c'], True
            body = {'k': 'block', 'b': dict(b, stmts=b['stmts'][1:]), 't': e['t'], 'at': e['t']}
        else: raise Unsupported('loop')
        while c['k'] == 'droptemps': c = c['e']
        if has_let(c): return self.while_let(e, c, body, rv)
        if rv is not None:
            body = tail_form(body, 'loop')
            if body is None: raise Unsupported('early return in a loop of an inlined body')
        L = self.new_loop('while')
        L.target = e['id']
        L.auto = False
        sv = dict(self.env)
        self.loops.append(L)
        try:
            ls, ct = self.block(lambda: self.own(self.ev(c)))
            if ls:
                L.cond = 'true'
                L.body, _ = self.block(lambda: self.ev(body))
                L.body = ls + ['if %s { break; }' % (ct if neg else '!(%s)' % ct)] + L.body
                L.has_break = True
            else:
                if neg: ct = '!(%s)' % ct
                L.cond = ct
                L.body, _ = self.block(lambda: self.ev(body))
                if rv: L.cond = '(%s) && %s.is_none()' % (ct, rv)
        finally: self.loops.pop()
        self.env = sv
        if not ls: self.while_index(L, ct)
        self.out.append(L)
        return V('()', UNIT, False, True)
    def while_let(self, e, c, body, rv):
        """while let PAT = X { .. }"""
        if c['k'] != 'let' or rv is not None: raise Unsupported('while let')
        x = c['init']
        while x['k'] == 'droptemps': x = x['e']
        p = c['pat']
        it = None
        if x['k'] == 'mcall' and x['name'] == 'next' and not x['args']:
            y = x['recv']
            while y['k'] in ('droptemps', 'addr'): y = y['e']
            if y['k'] == 'path' and 'local' in y['res']:
                it = self.env.get(y['res']['local']); var = y['res']['local']
        if isinstance(it, ItS) and p['k'] == 'tupstruct' and (p['res'].get('ctor_of') or p['res'].get('def', '')).endswith('::Some') and not refutable(p['pats'][0]):
            touched = []
            walk(body, lambda z: touched.append(1) if z['k'] == 'path' and z['res'].get('local') == var or z['k'] == 'continue' else None)
            L = self.new_loop('while')
            L.target = e['id']; L.auto = False
            L.i, L.n = it.pos, it.end
            L.srcs = it.srcs
            sv = dict(self.env)
            self.loops.append(L)
            def b():
                step = lambda: (self.emit('%s = %s + 1;' % (it.pos, it.pos)), self.mutated(it.pos))
                k = it.pos
                if touched: k = self.tmp(it.pos, USZ, 'k'); step()
                self.bind(p['pats'][0], self.steady(it.base.get(k)))
                self.ev(body)
                if not touched: step()
            try: L.body, _ = self.block(b)
            finally: self.loops.pop()
            L.cond = '%s < %s' % (it.pos, it.end)
            L.inv.append('%s <= %s' % (it.pos, it.end))
            L.dec = '%s - %s' % (it.end, it.pos)
            self.env = sv
            self.out.append(L)
            return V('()', UNIT, False, True)
        L = self.new_loop('while')
        L.target = e['id']; L.auto = False
        sv = dict(self.env)
        brk = {'k': 'break', 'target': e['id'], 'e': None, 't': body.get('t', -1), 'at': body.get('t', -1)}
        m = {'k': 'if', 'c': c, 'th': body, 'el': brk, 't': e['t'], 'at': e['t']}
        self.loops.append(L)
        try:
            L.cond = 'true'
            L.body, _ = self.block(lambda: self.ev(m))
            L.has_break = True
        finally: self.loops.pop()
        self.env = sv
        self.out.append(L)
        return V('()', UNIT, False, True)
    def while_index(self, L, ct):
        """a while loop that counts a variable up: while X < N { ..; X += k }"""
        m = re.match(r'^\(*\s*([A-Za-z_]\w*) (<|!=) (.+?)\)*$', ct)
        if not m: 
            m = re.match(r'^!\(\(*([A-Za-z_]\w*) (>=|==) (.+?)\)*$', ct)
            if not m: return
        x, n = m.group(1), m.group(3)
        if n.count('(') > n.count(')'): n += ')' * (n.count('(') - n.count(')'))
        if n.count('(') < n.count(')'): return
        if x not in L.muts or x not in self.decl or not is_int(self.decl[x]): return
        L.i, L.n = x, n
        last = [l for l in L.body if not (isinstance(l, list) and not l)]
        if last and isinstance(last[-1], str) and re.match(r'^%s = \(?%s \+ ' % (x, x), last[-1]) and not L.has_break:
            L.dec = '%s - %s' % (n, x)
    def new_loop(self, kind):
        if self.spec: raise NoSpec()
        L = Loop()
        L.kind = kind
        L.locals = set()
        L.id = len(self.all_loops)
        L.target = None
        L.depth = len(self.loops)
        self.all_loops.append(L)
        return L
    def e_break(self, e):
        if e['e'] is not None: raise Unsupported('break with value')
        for L in reversed(self.loops):
            if L.target == e['target']:
                if L is not self.loops[-1]: raise Unsupported('break of an outer loop')
                L.has_break = True
                self.emit('break;')
                return NEVER
        raise Unsupported('break')
    def e_continue(self, e):
        for L in reversed(self.loops):
            if L.target == e['target']:
                if L is not self.loops[-1]: raise Unsupported('continue of an outer loop')
                if L.i and L.auto: self.emit('%s = %s + 1;' % (L.i, L.i))
                self.emit('continue;')
                return NEVER
        raise Unsupported('continue')
    def e_setret(self, e):
        rv, _ = self.fr.ret[-1]
        v = self.own(self.ev(e['e'])) if e['e'] is not None else '()'
        self.emit('%s = Some(%s);' % (rv, v)); self.mutated(rv)
        return V('()', UNIT, False, True)
    def e_trybind(self, e):
        """match on the operand of ?; the failure is the value of the enclosing body"""
        v = self.ev(e['s'])
        t = self.tyof(v)
        sv = dict(self.env)
        et = self.ty(e['t']) if isinstance(e['t'], int) and e['t'] >= 0 else self.fr.out
        if self.spec: raise NoSpec()
        if e.get('loop'):
            rv, rt = self.fr.ret[-1]
            def fail(x):
                self.emit('%s = Some(%s);' % (rv, x)); self.mutated(rv)
                return V('()', UNIT, False, True)
        else: fail = lambda x: V(x, self.fr.out)
        if isinstance(v, OptV):
            k = self.name('k'); self.decl[k] = USZ
            for l in self.loops: l.locals.add(k)
            def some():
                self.env[e['id']] = self.stable(v.pay(k))
                return self.ev(e['rest'])
            a = self.block(some); self.env = dict(sv)
            b = self.block(lambda: fail('None')); self.env = dict(sv)
            return self.merge(e, ['match %s { Some(%s) => {' % (v.txt, k), '} None => {'], [a, b], '} }')
        if not (is_res(t) or is_opt(t)): raise Unsupported('?')
        v = self.place(v)
        q = self.name('q'); self.decl[q] = t['a'][0]
        for l in self.loops: l.locals.add(q)
        def ok():
            self.env[e['id']] = V(q, t['a'][0], True, True)
            return self.ev(e['rest'])
        a = self.block(ok); self.env = dict(sv)
        b = self.block(lambda: fail('Err(e_)' if is_res(t) else 'None')); self.env = dict(sv)
        return self.merge(e, ['match %s { %s(%s) => {' % (v.txt, 'Ok' if is_res(t) else 'Some', q), '} %s => {' % ('Err(e_)' if is_res(t) else 'None')], [a, b], '} }')
    def e_loopret(self, e):
        """a loop that may return from the inlined body, then the rest of it"""
        if self.spec: raise NoSpec()
        rt = self.fr.out
        if not self.known(rt): raise Unsupported('early return of a generic type')
        rv = self.tmp('None', opt(rt), 'early', True)
        self.out[-1] = 'let mut %s: Option<%s> = None;' % (rv, self.c.tt(rt)) if not has_ref(rt) else 'let mut %s = None;' % rv
        x = e['loop']
        self.fr.ret = getattr(self.fr, 'ret', []) + [(rv, rt)]
        try:
            if x['k'] == 'match': self.e_for(x, rv)
            else: self.e_loop(x, rv)
        finally: self.fr.ret = self.fr.ret[:-1]
        r = self.name('r'); self.decl[r] = rt
        for l in self.loops: l.locals.add(r)
        sv = dict(self.env)
        def got():
            if not e['inloop']: return V(r, rt, True, True)
            o = self.fr.ret[-1][0]
            self.emit('%s = Some(%s);' % (o, r)); self.mutated(o)
            return V('()', UNIT, False, True)
        a = self.block(got); self.env = dict(sv)
        b = self.block(lambda: self.ev(e['rest'])); self.env = dict(sv)
        return self.merge(e, ['match %s { Some(%s) => {' % (rv, r), '} None => {'], [a, b], '} }')
    def e_ret(self, e):
        if self.fr.kind != 'fn': raise Unsupported('return in an inlined body')
        v = self.ev(e['e']) if e['e'] is not None else None
        self.emit('return %s;' % self.own(v) if v is not None and not (isinstance(v, V) and is_unit(v.ty)) else 'return;')
        return NEVER
    def drive(self, it, step, target=None, flag=None, kind='', post=None):
        """run step(val) for every element"""
        if it.drive is not None:
            if target is not None and flag is None:
                return it.drive(step, target, flag, kind)
            return it.drive(step, target, flag, kind)
        it = self.settle(it)
        if it.inf or it.n in self.endless: raise Unsupported('infinite iterator')
        n = it.n
        if not simple(n): n = self.tmp(n, USZ, 'n')
        if it.ub is not None and it.ub <= 6 and target is None and flag is None and not self.spec:
            for k in range(it.ub):
                ls, _ = self.block(lambda: step(self.steady(it.get(str(k)))))
                if re.match(r'^\d+(usize)?$', n):
                    if k < int(n.replace('usize', '')): self.out += ls
                else: self.out += ['if %d < %s {' % (k, n), ls, '}']
            return None
        L = self.new_loop(kind)
        L.target = target
        i = self.name('i')
        self.names.add(i)
        L.i, L.n = i, n
        L.srcs = it.srcs
        self.decl[i] = USZ
        for l in self.loops: l.locals.add(i)
        self.emit('let mut %s: usize = 0;' % i)
        L.cond = '%s < %s' % (i, n) + (' && %s.is_none()' % flag if flag else '')
        self.loops.append(L)
        def b():
            v = it.get(i)
            step(self.steady(v))
            if flag: self.emit('if %s.is_none() { %s = %s + 1; }' % (flag, i, i))
            else: self.emit('%s = %s + 1;' % (i, i))
        try:
            L.body, _ = self.block(b)
        finally: self.loops.pop()
        if not flag: L.dec = '%s - %s' % (n, i)
        else: L.dec = '%s - %s + (if %s.is_none() { 1int } else { 0int })' % (n, i, flag)
        c = self.copy_loop(L, it.n) if not flag else None
        if c:
            self.out.remove('let mut %s: usize = 0;' % i)
            self.all_loops.pop()
            self.emit(c)
            return None
        self.out.append(L)
        return L
    def copy_loop(self, L, n):
        """a loop that only appends all of a slice of plain values to a vector is one call of `vec_extend`"""
        if self.spec or len(L.srcs or []) != 1: return None
        S, et = L.srcs[0]
        X = S[:-1]
        b = [l for l in L.body] if all(isinstance(l, str) for l in L.body) else None
        if b is None or et['k'] != 'prim' or is_str(et) or S not in self.srcref or self.srcref[S][1] != n: return None
        m = re.match(r'^let (\w+) = %s\[%s\];\n(\w+)\.push\(\1\);\n%s = %s \+ 1;$' % (re.escape(X), L.i, L.i, L.i), '\n'.join(b)) \
            or re.match(r'^()(\w+)\.push\(%s\[%s\]\);\n%s = %s \+ 1;$' % (re.escape(X), L.i, L.i, L.i), '\n'.join(b))
        if not m: return None
        v = m.group(2)
        t = self.decl.get(v)
        if t is None: return None
        if is_ref(t): t, a = t['t'], '&mut *' + v
        else: a = '&mut ' + v
        if not is_vec(t) or t['a'][0] != et: return None
        return 'vec_extend(%s, %s);' % (a, self.srcref[S][0])

    # iterators ----------------------------------------------------
    def to_iter(self, v):
        if isinstance(v, It): return self.settle(v)
        if isinstance(v, RangeV): return self.range_iter(v)
        if isinstance(v, RefV) and isinstance(v.v, ItS): raise Unsupported('borrowed iterator')
        if isinstance(v, RefV) and isinstance(v.v, It): return v.v
        t = self.tyof(v)
        if is_ref(t): return self.slice_iter(self.as_slice(v), True)
        if is_vec(t) or t['k'] == 'array':
            if isinstance(v, V) and not v.lv: v = self.mat(v)
            s = self.as_slice(v)
            return self.slice_iter(s, False)
        if is_opt(t) and isinstance(v, V) and self.c.is_copy(t) and not has_ref(t):
            if not v.lv: v = self.mat(v)
            pt = t['a'][0]
            n = self.tmp('if %s.is_some() { 1 } else { 0 }' % self.recv(v.txt), USZ, 'n')
            if not self.c.is_copy(t): raise Unsupported('option iterator')
            wrap = RefV if getattr(v, 'asref', False) else lambda x: x
            return It(n, lambda i: wrap(V(self.tmp('%s.unwrap()' % v.txt, pt, 'o'), pt, True, True)), srcs=[('opt_seq(%s)' % v.txt, pt)], ub=1)
        if isinstance(v, OptV) or is_opt(t) and isinstance(v, V):
            if self.spec: raise NoSpec()
            def dr(step, tg, fl, kd):
                if tg is not None or fl is not None: raise Unsupported('search over an option')
                self.opt_case(v, step)
            return It(drive=dr)
        raise Unsupported('into_iter')
    def slice_iter(self, s, byref):
        def get(i):
            p = self.sl_at(s, i)
            if byref: return RefV(p)
            if self.c.is_copy(s.elem) or self.spec: return p
            raise Unsupported('by-value iteration over owned elements')
        lits = self.arrlits.get(s.txt) if s.kind == 'array' and not self.spec else None
        if lits:
            g0 = get
            def get(i):
                m = re.match(r'^(\d+)(usize)?$', i)
                if not m or int(m.group(1)) >= len(lits): return g0(i)
                x = lits[int(m.group(1))]
                return RefV(x) if byref else x
        if not self.spec: self.srcref[self.recv(s.txt) + '@'] = (self.sl_ref(s), self.sl_len(s))
        return It(self.sl_len(s), get, srcs=[(self.recv(s.txt) + '@', s.elem)], ub=len(lits) if lits else None)
    def steady(self, v):
        """a scalar element gets a name: its text may end up in an invariant"""
        if self.spec: return v
        if isinstance(v, TupV): return TupV([self.steady(x) for x in v.vs])
        if isinstance(v, RefV) and not v.mut: return RefV(self.steady(v.v))
        if isinstance(v, V) and v.lv and not v.cst and v.ty['k'] == 'prim' and not is_str(v.ty) and '[' in v.txt: return self.mat(v, 'x')
        return v
    def range_iter(self, r):
        if r.lo is None: raise Unsupported('range iterator')
        t = self.tyof(r.lo)
        lo = self.own(r.lo)
        if t == CHAR:
            m = [re.match(r"^'([ -~])'$", self.own(x)) if x is not None else None for x in (r.lo, r.hi)]
            if not all(m) or r.kind not in ('Range', 'RangeInclusive'): raise Unsupported('range of characters')
            a, b = [ord(x.group(1)) for x in m]
            k = max(0, b - a + (r.kind == 'RangeInclusive'))
            return It('%dusize' % k, lambda i: V('((%du8 + (%s as u8)) as char)' % (a, i), CHAR, False, True))
        if r.hi is None: raise Unsupported('open range')
        hi = self.own(r.hi)
        if r.kind == 'RangeInclusive': hi = '(%s + 1)' % hi
        elif r.kind != 'Range': raise Unsupported('range iterator')
        zero = re.match(r'^0\w*$', lo)
        if not self.spec and not simple(lo): lo = self.tmp(lo, t, 'lo')
        if not self.spec and not simple(hi): hi = self.tmp(hi, t, 'hi')
        cst = re.match(r'^\d+', lo) and re.match(r'^\d+', hi)
        cast = '' if t == USZ else ' as usize'
        n = ('%s%s' % (hi if not cst else re.match(r'\d+', hi).group(0) + 'usize', '' if cst else cast)) if zero else '(if %s < %s { (%s - %s)%s } else { 0usize })' % (lo, hi, hi, lo, cast)
        def get(i):
            x = i if t == USZ else '(%s as %s)' % (i, t['n'])
            if zero: return V(x, t, False, True)
            return V('(%s + %s)' % (lo, x), t, False, True)
        return It(n, get)
    def it_state(self, it, name):
        if self.spec: raise NoSpec()
        if isinstance(it, ItS): return it
        self.need_idx(it)
        if it.inf: raise Unsupported('iterator as a mutable variable')
        n = it.n
        if not simple(n) or n not in self.names: n = self.tmp(n, USZ, 'n')
        pos = self.tmp('0usize', USZ, name, True, True)
        return ItS(it, pos, n)
    def settle(self, it):
        """the remaining elements as an ordinary iterator; the variable is used up"""
        if not isinstance(it, ItS): return it
        if self.spec: raise NoSpec()
        k = self.tmp(it.pos, USZ, 'from')
        n = self.tmp('%s - %s' % (it.end, k), USZ, 'n')
        self.emit('%s = %s;' % (it.pos, it.end)); self.mutated(it.pos)
        return It(n, lambda i: it.base.get(self.tmp('%s + %s' % (k, i), USZ, 'si')), srcs=it.srcs)
    def its_method(self, n, it, byref, args, e):
        """methods of an iterator held in a variable"""
        ety = self.ty(e['t'])
        if n in ('next', 'peek'):
            k = self.name('g'); self.decl[k] = opt(USZ)
            for l in self.loops: l.locals.add(k)
            self.emit('let %s: Option<usize> = if %s < %s { Some(%s) } else { None };' % (k, it.pos, it.end, it.pos))
            if n == 'next':
                self.emit('if %s < %s { %s = %s + 1; }' % (it.pos, it.end, it.pos, it.pos)); self.mutated(it.pos)
            f = it.base.get
            return OptV(k, f if n == 'next' else lambda i: RefV(f(i)), ety['a'][0] if is_opt(ety) else None)
        if n == 'peekable' or n == 'fuse': return it
        if n == 'len': return V('(%s - %s)' % (it.end, it.pos), USZ)
        if n == 'by_ref' or byref or n in ('any', 'all', 'find', 'position', 'nth', 'find_map', 'try_fold', 'take_while'): raise Unsupported('borrowed iterator')
        return None
    def chars_iter(self, s):
        if self.spec:
            q = self.str_spec(s)
            return It(q + '.len()', lambda i: V('%s[%s]' % (q, self.as_int(i)), CHAR, True, True))
        n = self.tmp('str_chars(%s)' % s.txt, vec(CHAR), 'cs')
        self.c.used_std.add('str_chars')
        it = self.slice_iter(SlV(n, CHAR, 'vec'), False)
        return it
    def bytes_iter(self, s):
        n = self.tmp('str_bytes(%s)' % s.txt, vec(U8), 'bs')
        return self.slice_iter(SlV(n, U8, 'vec'), False)
    def apply(self, f, args):
        """call a closure or function value on Vals"""
        while isinstance(f, RefV): f = f.v
        if isinstance(f, ClosV):
            sv, fr = self.env, self.fr
            self.env = dict(f.env)
            self.fr = Frame('closure', f.fr.subst, f.fr.selfty)
            try:
                b = f.e['body']
                if has_ret(b):
                    self.fr.out = self.ty(b['t'])
                    b = tail_form(b)
                    if b is None: raise Unsupported('closure that returns early')
                for p, a in zip(f.e['params'], args):
                    self.bind(p, a)
                return self.ev(b)
            finally: self.env, self.fr = sv, fr
        if isinstance(f, FnV):
            return self.call_path(f, args, None)
        raise Unsupported('call of ' + type(f).__name__)
    def it_map(self, it, f):
        if it.drive is None: return It(it.n, lambda i: self.apply(f, [self.steady(it.get(i))]), srcs=it.srcs, inf=it.inf, ub=it.ub)
        return It(drive=lambda step, tg, fl, kd: it.drive(lambda v: step(self.apply(f, [v])), tg, fl, kd), srcs=it.srcs)
    def minn(self, a, b):
        if a == b: return a
        ma, mb = re.match(r'^(\d+)(usize)?$', a), re.match(r'^(\d+)(usize)?$', b)
        if ma and mb: return a if int(ma.group(1)) <= int(mb.group(1)) else b
        if self.spec: return '(if %s <= %s { %s } else { %s })' % (a, b, a, b)
        if not simple(a): a = self.tmp(a, USZ, 'n')
        if not simple(b): b = self.tmp(b, USZ, 'n')
        return self.tmp('if %s <= %s { %s } else { %s }' % (a, b, a, b), USZ, 'n')
    def need_idx(self, it):
        if it.drive is not None: raise Unsupported('adapter over a non-indexed iterator')
        return it
    def adapter(self, name, it, args, e):
        if name in ('iter', 'into_iter', 'by_ref', 'fuse'): return it
        if name == 'map': return self.it_map(it, args[0])
        if name in ('cloned', 'copied'):
            def g(v):
                if isinstance(v, RefV): w = v.v
                else: w = self.deref(v)
                if isinstance(w, V) and not self.c.is_copy(w.ty): return self.clone(w)
                return w
            if it.drive is None: return It(it.n, lambda i: g(it.get(i)), srcs=it.srcs, inf=it.inf, ub=it.ub)
            return It(drive=lambda step, tg, fl, kd: it.drive(lambda v: step(g(v)), tg, fl, kd), srcs=it.srcs)
        if name == 'enumerate':
            if it.drive is None: return It(it.n, lambda i: TupV([V(i + 'usize' if i.isdigit() else i, USZ, True, True), it.get(i)]), srcs=it.srcs, ub=it.ub)
            def dr(step, tg, fl, kd):
                c = self.tmp('0usize', USZ, 'cnt', True, True)
                def st(v):
                    k = self.tmp(c, USZ, 'k')
                    self.emit('%s = %s + 1;' % (c, c)); self.mutated(c)
                    step(TupV([V(k, USZ, True, True), v]))
                it.drive(st, tg, fl, kd)
            return It(drive=dr, srcs=it.srcs)
        if name == 'rev':
            self.need_idx(it)
            if it.inf: raise Unsupported('rev')
            n = it.n
            if not simple(n): n = n if self.spec else self.tmp(n, USZ, 'n')
            def get(i):
                if self.spec: return it.get('(%s - 1 - %s)' % (n, i))
                return it.get(self.tmp('%s - 1 - %s' % (n, i), USZ, 'ri'))
            return It(n, get, srcs=it.srcs)
        if name == 'zip':
            o = self.to_iter(args[0])
            self.need_idx(it); self.need_idx(o)
            if it.inf: n = o.n
            elif o.inf: n = it.n
            else: n = self.minn(it.n, o.n)
            return It(n, lambda i: TupV([it.get(i), o.get(i)]), srcs=it.srcs + o.srcs, inf=it.inf and o.inf, ub=o.ub if it.ub is None else it.ub if o.ub is None else min(it.ub, o.ub))
        if name == 'take':
            self.need_idx(it)
            k = self.own(self.strip(args[0]))
            return It(k if it.inf else self.minn(it.n, k), it.get, srcs=it.srcs)
        if name == 'skip':
            self.need_idx(it)
            k = self.own(self.strip(args[0]))
            if not simple(k): k = self.tmp(k, USZ, 'k')
            n = it.n
            if not simple(n): n = self.tmp(n, USZ, 'n')
            n2 = self.tmp('if %s <= %s { %s - %s } else { 0 }' % (k, n, n, k), USZ, 'n')
            return It(n2, lambda i: it.get(self.tmp('%s + %s' % (i, k), USZ, 'si')), srcs=it.srcs)
        if name == 'step_by':
            self.need_idx(it)
            k = self.own(self.strip(args[0]))
            if not simple(k): k = self.tmp(k, USZ, 'k')
            n = it.n
            if not simple(n): n = self.tmp(n, USZ, 'n')
            n2 = self.tmp('if %s == 0 { 0 } else { (%s - 1) / %s + 1 }' % (n, n, k), USZ, 'n')
            return It(n2, lambda i: it.get(self.tmp('%s * %s' % (i, k), USZ, 'si')), srcs=it.srcs)
        if name == 'filter':
            def dr(step, tg, fl, kd):
                def st(v):
                    v = self.stable(v)
                    c = self.own(self.apply(args[0], [RefV(v)]))
                    ls, _ = self.block(lambda: step(v))
                    self.out += ['if %s {' % c, ls, '}']
                self.drive(it, st, tg, fl, kd)
            return It(drive=dr, srcs=it.srcs)
        if name == 'filter_map':
            def dr(step, tg, fl, kd):
                def st(v):
                    o = self.apply(args[0], [v])
                    self.opt_case(o, lambda x: step(x))
                self.drive(it, st, tg, fl, kd)
            return It(drive=dr, srcs=it.srcs)
        if name in ('flat_map', 'flatten'):
            def dr(step, tg, fl, kd):
                if fl: raise Unsupported('search over flat_map')
                def st(v):
                    x = self.apply(args[0], [v]) if name == 'flat_map' else v
                    inner = self.to_iter(x)
                    self.drive(inner, step, None, None, kd)
                if it.drive is not None: it.drive(st, tg, fl, kd)
                else: self.drive(it, st, tg, fl, kd)
            return It(drive=dr, srcs=it.srcs)
        if name == 'chain':
            o = self.to_iter(args[0])
            def dr(step, tg, fl, kd):
                if tg is not None: raise Unsupported('chain in a loop with control flow')
                self.drive(it, step, tg, fl, kd)
                self.drive(o, step, tg, fl, kd)
            return It(drive=dr, srcs=it.srcs + o.srcs)
        return None
    def opt_case(self, o, f):
        """run f(payload) if the option is Some"""
        if isinstance(o, OptV):
            k = self.name('k'); self.decl[k] = USZ
            for l in self.loops: l.locals.add(k)
            ls, _ = self.block(lambda: f(o.pay(k)))
            self.out += ['match %s { Some(%s) => {' % (o.txt, k), ls, '} None => {} }']
            return
        t = self.tyof(o)
        if not is_opt(t): raise Unsupported('option')
        k = self.name('p'); self.decl[k] = t['a'][0]
        for l in self.loops: l.locals.add(k)
        ls, _ = self.block(lambda: f(V(k, t['a'][0], True, True)))
        self.out += ['match %s { Some(%s) => {' % (self.own(o), k), ls, '} None => {} }']
    def pred_spec(self, it, f, byref):
        """spec text of the predicate at index k, or None"""
        if it.drive is not None: return None
        def one(k):
            sv, self.spec = self.spec, True
            try:
                v = it.get(k)
                if byref: v = RefV(v)
                return self.own(self.apply(f, [v]))
            finally: self.spec = sv
        try: return one
        except (NoSpec, Unsupported): return None
    def search(self, it, f, byref, neg=False):
        """index of the first element satisfying f (or not satisfying, neg) as an Option<usize> variable"""
        if self.spec: raise NoSpec()
        fl = self.tmp('None', opt(USZ), 'found', True, False)
        self.out[-1] = 'let mut %s: Option<usize> = None;' % fl
        sp = self.pred_spec(it, f, byref)
        holder = {}
        if it.drive is not None:
            raise Unsupported('search over a non-indexed iterator')
        def step(v):
            if byref: v = RefV(self.stable(v) if isinstance(v, V) and not v.lv else v)
            c = self.own(self.apply(f, [v]))
            if neg: c = '!(%s)' % c
            self.emit('if %s { %s = Some(%s); }' % (c, fl, self.loops[-1].i))
        L = self.drive(it, step, None, fl, 'search')
        L.flag = fl
        if sp is not None:
            try:
                k = self.name('kk')
                ng = '' if neg else '!'
                body = sp(k); at = sp(L.i)
                ng2 = '!' if neg else ''
                L.inv.append('forall|%s: int| 0 <= %s < %s ==> %s(%s)' % (k, k, L.i, ng, body))
                L.inv.append('%s is Some ==> (%s->Some_0 == %s && %s < %s && %s(%s))' % (fl, fl, L.i, L.i, L.n, ng2, at))
            except (NoSpec, Unsupported): pass
        L.inv.append('%s is None ==> %s <= %s' % (fl, L.i, L.n))
        return fl, L
    def quant_spec(self, name, it, f):
        k = self.name('kk')
        self.need_idx(it)
        v = it.get(k)
        b = self.own(self.apply(f, [v]))
        n = it.n
        if name == 'any': return V('(exists|%s: int| 0 <= %s < %s && #[trigger] (%s))' % (k, k, n, b), BOOL, False, True) if False else V('(exists|%s: int| 0 <= %s < %s && %s)' % (k, k, n, b), BOOL, False, True)
        return V('(forall|%s: int| 0 <= %s < %s ==> %s)' % (k, k, n, b), BOOL, False, True)
    def terminal(self, name, it, args, e):
        if name in ('any', 'all') and self.spec: return self.quant_spec(name, it, args[0])
        if name == 'any':
            fl, L = self.search(it, args[0], False)
            return V(fl + '.is_some()', BOOL, False, False)
        if name == 'all':
            fl, L = self.search(it, args[0], False, True)
            return V(fl + '.is_none()', BOOL, False, False)
        if name == 'find':
            fl, L = self.search(it, args[0], True)
            return OptV(fl, lambda k: it.get(k), self.ty(e['t'])['a'][0] if is_opt(self.ty(e['t'])) else None)
        if name == 'position':
            fl, L = self.search(it, args[0], False)
            return V(fl, opt(USZ), True, True)
        if self.spec: raise NoSpec()
        if name in ('collect', 'unzip', 'count', 'sum', 'product', 'fold', 'for_each', 'last', 'max', 'min'):
            t = self.ty(e['t'])
            if name == 'collect':
                if is_vec(t):
                    a = self.tmp('Vec::new()', t, 'acc', True, self.known(t) and (not has_ref(t) or vec_of_str(t)))
                    def st(v): self.push(a, v)
                    self.drive(it, st, kind='collect')
                    return V(a, t, True, True)
                if is_string(t):
                    a = self.tmp('String::new()', t, 'acc', True, True)
                    def st(v): self.push_str(a, v)
                    self.drive(it, st, kind='collect')
                    return V(a, t, True, True)
                if (is_opt(t) or is_res(t)) and (is_vec(t['a'][0]) or is_string(t['a'][0])):
                    self.need_idx(it)
                    vt = t['a'][0]
                    a = self.tmp('String::new()' if is_string(vt) else 'Vec::new()', vt, 'acc', True, self.known(vt) and not has_ref(vt))
                    if is_res(t): fl = self.tmp('None', opt(t['a'][1]), 'fail', True); self.out[-1] = 'let mut %s: Option<%s> = None;' % (fl, self.c.tt(t['a'][1]))
                    else: fl = self.tmp('None', opt(USZ), 'fail', True); self.out[-1] = 'let mut %s: Option<usize> = None;' % fl
                    put = (lambda x: self.push_str(a, x)) if is_string(vt) else (lambda x: self.push(a, x))
                    def st(v):
                        if isinstance(v, OptV):
                            k = self.name('k'); self.decl[k] = USZ
                            for l in self.loops: l.locals.add(k)
                            ls, _ = self.block(lambda: put(v.pay(k)))
                            self.out += ['match %s { Some(%s) => {' % (v.txt, k), ls, '} None => { %s = Some(%s); } }' % (fl, self.loops[-1].i)]
                        else:
                            v = self.place(v)
                            w = self.tyof(v)
                            if not (is_opt(w) if is_opt(t) else is_res(w)): raise Unsupported('collect')
                            k = self.name('p'); self.decl[k] = w['a'][0]
                            for l in self.loops: l.locals.add(k)
                            ls, _ = self.block(lambda: put(V(k, w['a'][0], True, True)))
                            if is_opt(t): self.out += ['match %s { Some(%s) => {' % (v.txt, k), ls, '} None => { %s = Some(%s); } }' % (fl, self.loops[-1].i)]
                            else: self.out += ['match %s { Ok(%s) => {' % (v.txt, k), ls, '} Err(e_) => { %s = Some(e_); } }' % fl]
                        self.mutated(fl)
                    L = self.drive(it, st, None, fl, kind='collect')
                    L.inv.append('%s is None' % fl)
                    L.inv.append('%s is None ==> %s <= %s' % (fl, L.i, L.n))
                    if is_opt(t): return V('(if %s.is_some() { None } else { Some(%s) })' % (fl, a), t, False, False)
                    return V('(match %s { Some(e_) => Err(e_), None => Ok(%s) })' % (fl, a), t, False, False)
                raise Unsupported('collect into ' + json.dumps(t)[:60])
            if name == 'unzip':
                t1, t2 = t['a']
                cst = self.c
                a = self.tmp('Vec::new()', t1, 'acc', True)
                b = self.tmp('Vec::new()', t2, 'acc', True)
                def st(v):
                    if isinstance(v, V) and not simple(v.txt): v = V(self.tmp(v.txt, v.ty, 'pr'), v.ty, True, True, v.cst)
                    self.push(a, self.proj(v, 0)); self.push(b, self.proj(v, 1))
                self.drive(it, st, kind='unzip')
                return TupV([V(a, t1, True, True), V(b, t2, True, True)])
            if name == 'for_each':
                self.drive(it, lambda v: self.apply(args[0], [v]), kind='for')
                return V('()', UNIT, False, True)
            if name == 'count':
                a = self.tmp('0', USZ, 'acc', True, True)
                def st(v): self.emit('%s = %s + 1;' % (a, a)); self.mutated(a)
                self.drive(it, st, kind='count')
                return V(a, USZ, True, True)
            if name in ('sum', 'product'):
                a = self.tmp('0' if name == 'sum' else '1', t, 'acc', True, True)
                op = '+' if name == 'sum' else '*'
                def st(v):
                    x = self.own(self.strip(v))
                    self.emit('%s = %s %s %s;' % (a, a, op, x)); self.mutated(a)
                self.drive(it, st, kind='sum')
                return V(a, t, True, True)
            if name == 'fold':
                init = args[0]
                t = self.ty(e['t']) if self.known(self.ty(e['t'])) else self.tyof(init)
                while isinstance(init, RefV): init = init.v
                if isinstance(init, TupV) or t['k'] == 'tup' and t['a']:
                    if not isinstance(init, TupV): init = TupV([self.proj(self.mat(init), i) for i in range(len(t['a']))])
                    ts = t['a'] if self.known(t) and t['k'] == 'tup' else [self.tyof(x) for x in init.vs]
                    accs = [self.tmp(self.own(x), tt, 'acc', True, True) for x, tt in zip(init.vs, ts)]
                    def st(v):
                        r = self.apply(args[1], [TupV([V(a, tt, True, not self.c.is_copy(tt)) for a, tt in zip(accs, ts)]), v])
                        while isinstance(r, RefV): r = r.v
                        if not isinstance(r, TupV): r = self.mat(r)
                        xs = []
                        for i, (a, tt) in enumerate(zip(accs, ts)):
                            x = self.own(self.proj(r, i))
                            xs.append(x if x == a or len(accs) == 1 else self.tmp(x, tt, 'nx'))
                        for a, x in zip(accs, xs):
                            if x != a: self.emit('%s = %s;' % (a, x)); self.mutated(a)
                    self.drive(it, st, kind='fold')
                    return TupV([V(a, tt, True, True) for a, tt in zip(accs, ts)])
                a = self.tmp(self.own(init), t, 'acc', True, self.known(t) and (not has_ref(t) or vec_of_str(t)))
                def st(v):
                    cur = V(a, t, True, False)
                    if not self.c.is_copy(t): cur = V(a, t, True, True)
                    r = self.apply(args[1], [cur, v])
                    x = self.own(r)
                    if x != a: self.emit('%s = %s;' % (a, x))
                    self.mutated(a)
                self.drive(it, st, kind='fold')
                return V(a, t, True, True)
            raise Unsupported('iterator ' + name)
        if name == 'nth':
            self.need_idx(it)
            k = self.own(args[0])
            return self.opt_index(k, it.n, it.get, self.ty(e['t'])['a'][0])
        if name == 'next': raise Unsupported('next')
        raise Unsupported('iterator method ' + name)
    def opt_index(self, k, n, get, ety):
        if not simple(k): k = self.tmp(k, USZ, 'ix')
        o = self.name('g')
        self.emit('let %s: Option<usize> = if %s < %s { Some(%s) } else { None };' % (o, k, n, k))
        for l in self.loops: l.locals.add(o)
        self.decl[o] = opt(USZ)
        return OptV(o, get, ety)
    def unref(self, t):
        while is_ref(t): t = t['t']
        return t
    def push(self, a, v):
        self.emit('%s.push(%s);' % (self.recv(a), self.own(v)))
        self.mutated(a)
    def push_str(self, a, v):
        t = self.tyof(self.strip(v))
        if t == CHAR: self.emit('%s.push(%s);' % (self.recv(a), self.own(self.strip(v))))
        else: self.emit('%s.push_str(%s);' % (self.recv(a), self.as_str(v).txt))
        self.mutated(a)
    def clone(self, v):
        v = self.strip(v)
        t = self.tyof(v)
        if isinstance(v, (SlV, StrV)): raise Unsupported('clone of unsized')
        if isinstance(v, (TupV,)): return v
        if self.c.is_copy(t): return v
        if is_vec(t) and self.c.is_copy(t['a'][0]):
            return V(self.tmp('slice_to_vec(%s.as_slice())' % self.recv(v.txt), t, 'cl'), t, True, True)
        if is_string(t): return V(self.tmp('str_to_string(%s.as_str())' % self.recv(v.txt), t, 'cl'), t, True, True)
        raise Unsupported('clone')

    # calls --------------------------------------------------------
    def e_call(self, e):
        c = e.get('callee')
        f = e['f']
        if f['k'] == 'format' and c is not None and not c['is_local']:
            # the callee node of format!/panic! expansions shares the span of the template
            r = {'dk': 'Fn', 'def': c['p'], 'is_local': False}
        elif f['k'] == 'path' and 'def' in f['res']: r = f['res']
        else: r = None
        if r is not None:
            if c is None or 'Ctor' in r.get('dk', '') or r.get('dk') == 'SelfCtor':
                vs = self.ev_list(e['args'])
                return self.construct(r, vs, self.ty(e['t']))
            n, p = c['name'], c['p']
            if p == 'core::panicking::panic_fmt' or p.startswith('core::panicking::') or p.startswith('std::rt::begin_panic'):
                self.emit('assert(false); // panic'); self.emit('vp_panic();')
                return NEVER
            if n == 'box_assume_init_into_vec_unsafe':
                a = e['args'][0]
                arr = a['args'][1]
                return self.vec_lit(arr, self.ty(e['t']))
            if p == 'std::vec::from_elem' or n == 'from_elem':
                vs = self.ev_list(e['args'])
                t = self.ty(e['t'])
                if is_string(self.tyof(vs[0])): return V(self.tmp('vec_from_string(%s, %s)' % (self.own(vs[0]), self.own(vs[1])), t, 'v'), t, True, True)
                if not is_int(self.tyof(vs[0])): raise Unsupported('vec![x; n]')
                return V(self.tmp('vec_from_elem(%s, %s)' % (self.own(vs[0]), self.own(vs[1])), t, 'v'), t, True, True)
            if n == 'must_use' and 'hint' in p: return self.ev(e['args'][0])
            if p in ('std::fmt::format', 'alloc::fmt::format'):
                return self.fmt_string(self.ev(e['args'][0]))
            if n == 'with_capacity' and not c['is_local']:
                def leaves(x):
                    while x['k'] == 'droptemps': x = x['e']
                    if x['k'] == 'bin' and x['op'] in ('+', '*') and not x.get('ov'): leaves(x['l']); leaves(x['r'])
                    elif x['k'] not in ('lit', 'path'):
                        v = self.ev(x)
                        if isinstance(v, V): self.mat(v)
                leaves(e['args'][0])
                return V('%s::new()' % ('String' if is_string(self.ty(e['t'])) else 'Vec'), self.ty(e['t']), False, False)
            return self.call_path(FnV(c, r), self.ev_list(e['args']), e)
        fv = self.ev(f)
        return self.apply(fv, self.ev_list(e['args']))
    def construct(self, r, vs, t):
        c = self.ctor(r)
        if c == 'Some' and len(vs) == 1 and isinstance(vs[0], (It, ClosV)): raise Unsupported('Some(iterator)')
        if t['k'] in ('other', 'param', 'fndef') or not self.known(t):
            if r['is_local']:
                p = r.get('ctor_of') or r['def']
                p = p.rsplit('::', 1)[0] if p in self.c.variant_map() else p
                t = {'k': 'adt', 'p': p, 'local': True, 'a': []}
            elif c == 'Some': t = opt(self.tyof(vs[0]))
            else: raise Unsupported('constructor type')
        txt = '%s(%s)' % (c, ', '.join(self.own(v) for v in vs))
        if self.spec: return V(txt, t, False, True)
        return V(txt, t, False, all(not isinstance(v, V) or v.imm for v in vs))
    def vec_lit(self, arr, t):
        while arr['k'] in ('droptemps', ): arr = arr['e']
        if arr['k'] != 'array': raise Unsupported('vec! literal')
        vs = self.ev_list(arr['v'])
        a = self.tmp('Vec::new()', t, 'v', True, self.known(t) and (not has_ref(t) or vec_of_str(t)))
        for v in vs: self.push(a, v)
        return V(a, t, True, True)
    def call_path(self, fv, args, e):
        c, r = fv.callee, fv.res
        if c is None or 'Ctor' in r.get('dk', '') or r.get('dk') == 'SelfCtor':
            return self.construct(r, args, {'k': 'other'} if e is None else self.ty(e['t']))
        if c['is_local']: return self.call_local(c, args, e)
        return self.call_std(c, args, e)
    def resolve(self, c, args):
        """(path, selfty) of a local callee"""
        p = c['p']
        if c['trait'] is not None and p in self.c.fns or (c['trait'] is not None):
            # trait method: Self is the first generic argument
            ga = c['ga']
            st = self.st(ga[0]) if ga else self.fr.selfty
            if st is not None and st['k'] == 'adt' and (st['p'], c['name']) in self.c.methods: return self.c.methods[(st['p'], c['name'])], None
            if p in self.c.fns: return p, st
            raise Unsupported('trait method ' + p)
        if p not in self.c.fns: raise Unsupported('callee ' + p)
        return p, None
    def call_local(self, c, args, e):
        path, st = self.resolve(c, args)
        key = self.c.fn_key(path, st)
        f = self.c.fns[path]
        if key not in self.c.contracted:
            return self.inline(path, st, args, key)
        if self.spec: raise NoSpec()
        out = self.c.tys[f['out']]
        sv = self.fr
        self.fr = Frame('x', {}, st)
        out = self.subst_self(out, st)
        ins = [self.subst_self(self.c.tys[i], st) for i in f['ins']]
        self.fr = sv
        self.calls.append((path, st, key))
        ats = []
        for a, t in zip(args, ins): ats.append(self.coerce(a, t))
        txt = '%s(%s)' % (key, ', '.join(ats))
        if is_unit(out): self.emit(txt + ';'); return V('()', UNIT, False, True)
        if out['k'] == 'never': self.emit(txt + ';'); return NEVER
        n = self.tmp(txt, out, 'c_' + f['name'])
        return V(n, out, True, True)
    def subst_self(self, t, st):
        if isinstance(t, dict):
            if t.get('k') == 'param':
                if t['n'] == 'Self' and st is not None: return st
                return t
            return {k: self.subst_self(v, st) for k, v in t.items()}
        if isinstance(t, list): return [self.subst_self(x, st) for x in t]
        return t
    def coerce(self, v, t):
        """argument text for parameter type t"""
        if t['k'] == 'param' or (is_ref(t) and t['t']['k'] == 'param'):
            # AsRef<str> / AsRef<[u8]>
            w = self.strip(v)
            tw = self.tyof(w)
            if is_str(tw) or is_string(tw): return self.as_str(w).txt
            return self.sl_ref(self.as_slice(w))
        return self.own(v)
    def inline(self, path, st, args, key):
        f = self.c.fns[path]
        if key in self.inlined: raise Unsupported('recursive ' + key)
        if has_ret(f['body']): 
            b = tail_form(f['body'])
            if b is None: raise Unsupported('inlining %s, which returns early' % key)
        else: b = f['body']
        self.inlined.append(key)
        sv, fr = self.env, self.fr
        self.env = {}
        sub = {}
        for ti, a in zip(f['ins'], args):
            t = self.c.tys[ti]
            if t['k'] == 'param': sub[t['n']] = self.tyof_s(a)
        self.fr = Frame('inline', sub, st)
        self.fr.out = self.st(self.c.tys[f['out']])
        try:
            for p, a in zip(f['params'], args):
                # locals of an inlined body live in their own environment
                self.bind(p, a)
            v = self.ev(b)
            if isinstance(v, V) and v.ty['k'] == 'param': raise Unsupported('generic result')
            return v
        finally:
            self.env, self.fr = sv, fr
            self.inlined.pop()

    def call_std(self, c, args, e):
        n, p = c['name'], c['p']
        t = self.ty(e['t']) if e is not None else None
        if p in ('std::string::String::new', 'std::vec::Vec::<T>::new'):
            return V('%s::new()' % ('String' if 'String' in p else 'Vec'), t if t is not None else STRING, False, False)
        if n == 'with_capacity':
            self.mat(args[0]) if isinstance(args[0], V) and not args[0].imm else None
            return V('%s::new()' % ('String' if is_string(t) else 'Vec'), t, False, False)
        if p == 'std::char::from_digit':
            x = self.tmp('char_from_digit(%s, %s)' % (self.own(args[0]), self.own(args[1])), opt(CHAR), 'fd')
            return V(x, opt(CHAR), True, True)
        if p in ('std::cmp::max', 'std::cmp::min', 'core::cmp::max', 'core::cmp::min'):
            a, b = [self.own(self.strip(x)) for x in args]
            ty = self.tyof(self.strip(args[0]))
            if not is_int(ty): raise Unsupported('max')
            if not simple(a): a = self.tmp(a, ty)
            if not simple(b): b = self.tmp(b, ty)
            return V('(if %s %s %s { %s } else { %s })' % (a, '>' if n == 'max' else '<=', b, a, b), ty, False, False)
        if n == 'try_from' and c['trait'] == 'std::convert::TryFrom' and is_res(t): return self.try_from(t['a'][0], self.strip(args[0]))
        if n in ('from', 'into') and c['trait'] in ('std::convert::From', 'std::convert::Into'):
            v = args[0]
            ga = [self.st(x) for x in c['ga']]
            dst, src = (ga[0], ga[1]) if n == 'from' else (ga[1], ga[0])
            if is_int(dst) and is_int(self.tyof(v)): return V('(%s as %s)' % (self.own(v), dst['n']), dst, False, v.imm)
            if is_int(dst) and self.tyof(v) == CHAR: return V('(%s as %s)' % (self.own(v), dst['n']), dst, False, v.imm)
            if is_int(dst) and self.tyof(v) == BOOL: return V('(if %s { 1 } else { 0 })' % self.own(v), dst)
            if dst == CHAR and self.tyof(v) == U8: return V('(%s as char)' % self.own(v), CHAR)
            if is_string(dst):
                s = self.strip(v)
                if self.tyof(s) == CHAR: return self.fmt_string(FmtV([{'arg': 0, 'trait': 'Display', 'spec': None}], [s]))
                if is_string(self.tyof(s)): return s
                return V(self.tmp('str_to_string(%s)' % self.as_str(v).txt, STRING, 's'), STRING, True, True)
            if is_adt(dst, 'image::Rgba') and self.tyof(v) == RGBA_A: return V('Rgba(%s)' % self.own(v), dst, False, False)
            if is_adt(dst, 'image::DynamicImage') and is_adt(self.tyof(v), 'image::ImageBuffer'): return V('dyn_rgba8(%s)' % self.own(v), dst)
            if self.tyof(v) == dst: return v
            if is_vec(dst): return V(self.tmp('slice_to_vec(%s)' % self.sl_ref(self.as_slice(v)), dst, 'cl'), dst, True, True)
        if p in ('std::iter::repeat', 'std::iter::repeat_n', 'std::iter::once'):
            x = args[0]
            x = self.stable(x)
            if n == 'repeat': return It('0', lambda i: x, inf=True)
            if n == 'once': return It('1usize', lambda i: x, ub=1)
            return It(self.own(args[1]), lambda i: x)
        if n == 'into_iter': return self.to_iter(args[0])
        if n == 'new' and p.startswith('std::ops::RangeInclusive'):
            return RangeV('RangeInclusive', args[0], args[1])
        if n == 'default' and t is not None:
            if is_string(t): return V('String::new()', t)
            if is_vec(t): return V('Vec::new()', t)
        im = self.call_img(c, n, p, args, t)
        if im is not None: return im
        if n in ('swap', 'replace', 'take') and p.startswith('std::mem'): raise Unsupported(p)
        if c['trait'] is not None or len(args) > 0:
            # UFCS form of a method
            return self.method(c, n, args[0], args[1:], e)
        raise Unsupported('call ' + p)

    def call_img(self, c, n, p, args, t):
        """associated functions of the image crate and std::io::Cursor"""
        if p.startswith('std::io::Cursor') and n == 'new':
            v = args[0]
            v = v.v if isinstance(v, RefV) else V(self.tmp(self.own(v), self.tyof(v), 'cur', True), self.tyof(v), True, False)
            if not (isinstance(v, V) and is_vec(v.ty)): raise Unsupported('cursor')
            return CurV(v)
        if not p.startswith('image::'): return None
        if self.spec: raise NoSpec()
        a = args
        if n in ('new', 'from_pixel', 'from_fn') and 'ImageBuffer' in p:
            w, h = [self.own(self.stable(self.strip(x))) for x in a[:2]]
            if n == 'new': return V(self.tmp('img_new(%s, %s)' % (w, h), t, 'ib'), t, True, True)
            if n == 'from_pixel': return V(self.tmp('img_from_pixel(%s, %s, %s)' % (w, h, self.own(self.strip(a[2]))), t, 'ib'), t, True, True)
            b = V(self.tmp('img_new(%s, %s)' % (w, h), t, 'ib', True), t, True, False)
            rows, cols = [RangeV('Range', V('0u32', U32, False, True), V(x, U32, True, True)) for x in (h, w)]
            def row(y):
                y = self.stable(y)
                def cell(x):
                    x = self.stable(x)
                    v = self.stable(self.strip(self.apply(a[2], [x, y])))
                    self.emit('img_put_pixel(&mut %s, %s, %s, %s);' % (b.txt, self.own(x), self.own(y), self.own(v))); self.mutated(b.txt)
                self.drive(self.range_iter(cols), cell, kind='from_fn')
            self.drive(self.range_iter(rows), row, kind='from_fn')
            return b
        if n in ('rotate90', 'rotate180', 'rotate270', 'flip_horizontal', 'flip_vertical') and len(a) == 1:
            v = self.strip(a[0])
            if isinstance(v, V) and is_adt(v.ty, 'image::ImageBuffer'):
                return V(self.tmp('img_%s(&%s)' % (n, self.recv(v.txt)), v.ty, 'rot'), v.ty, True, True)
        return None
    def method_img(self, n, w, args, t):
        k = w.ty['p'].split('::')[1]
        r = self.recv(w.txt)
        xs = lambda: [self.own(self.stable(self.strip(x))) for x in args]
        if self.spec: raise NoSpec()
        if not w.lv: w = self.mat(w); r = w.txt
        if k == 'ImageBuffer':
            if n == 'put_pixel':
                self.emit('img_put_pixel(%s, %s);' % (self.own(RefV(w, True)), ', '.join(xs())))
                return V('()', UNIT, False, True)
            if n in ('enumerate_pixels_mut', 'enumerate_pixels', 'pixels_mut', 'pixels'):
                dims = [V(self.tmp('img_%s(&%s)' % (m, r), U32, m), U32, True, True) for m in ('width', 'height')]
                def dr(step, tg, fl, kd):
                    if fl: raise Unsupported('search over pixels')
                    zero = V('0u32', U32, False, True)
                    def row(y):
                        y = self.stable(y)
                        def cell(x):
                            x = self.stable(x)
                            px = RefV(PixV(w, self.own(x), self.own(y)), n.endswith('mut'))
                            step(TupV([x, y, px]) if n.startswith('enum') else px)
                        self.drive(self.range_iter(RangeV('Range', zero, dims[0])), cell, None, None, kd)
                    self.drive(self.range_iter(RangeV('Range', zero, dims[1])), row, tg, None, kd)
                return It(drive=dr)
            if n in ('get_pixel', 'get_pixel_mut'): return RefV(PixV(w, *xs()), n.endswith('mut'))
            if n in ('width', 'height'): return V(self.tmp('img_%s(&%s)' % (n, r), U32, n), U32, True, True)
            if n == 'dimensions': return TupV([V(self.tmp('img_%s(&%s)' % (m, r), U32, m), U32, True, True) for m in ('width', 'height')])
            if n == 'clone': return V(self.tmp('img_clone(&%s)' % r, w.ty, 'ib'), w.ty, True, True)
            if n == 'into' and is_adt(t, 'image::DynamicImage'): return V('dyn_rgba8(%s)' % w.txt, t)
        if k == 'DynamicImage':
            if n in ('rotate90', 'rotate180', 'rotate270', 'fliph', 'flipv', 'to_rgba8', 'clone'): return V(self.tmp('dyn_%s(&%s)' % (n, r), t, 'di'), t, True, True)
            if n == 'into_rgba8': return V(self.tmp('dyn_to_rgba8(&%s)' % r, t, 'di'), t, True, True)
            if n in ('width', 'height'): return V(self.tmp('dyn_%s(&%s)' % (n, r), U32, n), U32, True, True)
            if n == 'write_to':
                c = args[0]
                while isinstance(c, RefV): c = c.v
                if not isinstance(c, CurV): raise Unsupported('write_to')
                x = self.tmp('dyn_write_to(&%s, %s, %s)' % (r, self.own(RefV(c.v, True)), self.own(self.strip(args[1]))), t, 'wr')
                return V(x, t, True, True)
        if k == 'Rgba':
            if n == 'clone': return V(w.txt, w.ty, True, w.imm)
            if n == 'channels': return RefV(self.proj_name(w, '0'))
        if k == 'ImageFormat' and n == 'clone': return V(w.txt, w.ty, True, w.imm)
        raise Unsupported('image method ' + n)
    def e_mcall(self, e):
        c = e['callee']
        if c is None: raise Unsupported('method ' + e['name'])
        r = self.ev(e['recv'])
        if c['is_local']:
            args = [r] + self.ev_list(e['args'])
            return self.call_local(c, args, e)
        if isinstance(r, V) and not r.imm and any(self.mutates(x) for x in e['args']) and not r.lv: r = self.mat(r)
        args = self.ev_list(e['args'])
        return self.method(c, e['name'], r, args, e)
    def method(self, c, n, r, args, e):
        p = c['p']
        t = self.ty(e['t']) if e is not None else None
        r0 = r
        while isinstance(r0, RefV): r0 = r0.v
        if isinstance(r0, CurV):
            if n == 'into_inner' and IDENT.match(r0.v.txt): return r0.v
            if n in ('get_ref', 'get_mut'): return RefV(r0.v, n == 'get_mut')
            raise Unsupported('cursor method ' + n)
        if isinstance(r0, PixV): r0 = r = self.pix(r0)
        if isinstance(r0, V):
            while isinstance(r0, V) and is_ref(r0.ty): r0 = self.deref(r0)
            if isinstance(r0, V) and r0.ty['k'] == 'adt' and r0.ty['p'] in IMG: return self.method_img(n, r0, args, t)
        if isinstance(r0, ResOV): return self.reso_method(n, r0, args, e)
        if isinstance(r0, ItS) and isinstance(r, RefV):
            a = self.its_method(n, r0, n not in ('next', 'peek', 'len'), args, e)
            if a is not None: return a
        # closures passed by reference
        args = [a.v if isinstance(a, RefV) and isinstance(a.v, (ClosV, FnV)) else a for a in args]
        if n in ('iter', 'as_slice', 'as_ref', 'as_str', 'borrow', 'as_bytes', 'chars', 'bytes', 'into_iter', 'iter_mut', 'to_owned', 'to_string', 'clone', 'to_vec', 'len', 'is_empty'):
            rr = r
            while isinstance(rr, RefV) and isinstance(rr.v, It): rr = rr.v
            w = rr if isinstance(rr, (It, RangeV, ClosV, FnV, OptV, FmtV)) else self.strip(rr)
            if n == 'into_iter': return self.to_iter(rr)
            if n == 'clone' and isinstance(w, (It, RangeV)): return w
            if n == 'iter' and isinstance(w, (SlV, V)): return self.slice_iter(self.as_slice(w), True)
            if n == 'as_slice': return RefV(self.as_slice(w))
            if n == 'as_ref':
                tw = self.tyof(w)
                if is_str(tw) or is_string(tw):
                    return RefV(self.as_str(w))
                if tw['k'] in ('slice', 'array') or is_vec(tw): return RefV(self.as_slice(w))
                if isinstance(w, OptV): return w
                if is_opt(tw) and self.c.is_copy(tw):
                    if isinstance(w, V): w = copy.copy(w); w.asref = True
                    return w
                if is_opt(tw) and isinstance(w, V) and w.lv: return V(self.tmp('%s.as_ref()' % self.recv(w.txt), opt(ref(tw['a'][0])), 'ar'), opt(ref(tw['a'][0])), True, True)
                raise Unsupported('as_ref')
            if n == 'as_str': return RefV(self.as_str(w))
            if n == 'chars': return self.chars_iter(self.as_str(w))
            if n in ('bytes', 'as_bytes'):
                s = self.as_str(w)
                if self.spec: raise NoSpec()
                if n == 'bytes': return self.bytes_iter(s)
                b = self.tmp('str_bytes(%s)' % s.txt, vec(U8), 'bs')
                return RefV(SlV(b, U8, 'vec'))
            if n == 'to_vec':
                s = self.as_slice(w)
                if not self.c.is_copy(s.elem): raise Unsupported('to_vec')
                x = self.tmp('slice_to_vec(%s)' % self.sl_ref(s), vec(s.elem), 'cl')
                return V(x, vec(s.elem), True, True)
            if n == 'len':
                if isinstance(w, It): return V(self.need_idx(w).n, USZ)
                tw = self.tyof(w)
                if is_str(tw) or is_string(tw):
                    if self.spec: return V('utf8_len(%s)' % self.str_spec(self.as_str(w)), USZ, False, True)
                    return V(self.tmp('str_len(%s)' % self.as_str(w).txt, USZ, 'n'), USZ, True, True)
                return V(self.sl_len(self.as_slice(w)), USZ, False, False)
            if n == 'is_empty':
                tw = self.tyof(w)
                if is_str(tw) or is_string(tw):
                    return V('(str_len(%s) == 0)' % self.as_str(w).txt, BOOL)
                return V('(%s == 0)' % self.sl_len(self.as_slice(w)), BOOL)
            if n == 'clone':
                if isinstance(w, OptV): return w
                return self.clone(w)
            if n in ('to_owned', 'to_string'):
                tw = self.tyof(w)
                if is_str(tw) or is_string(tw):
                    return V(self.tmp('str_to_string(%s)' % self.as_str(w).txt, STRING, 's'), STRING, True, True)
                if n == 'to_string': return self.fmt_string(FmtV([{'arg': 0, 'trait': 'Display', 'spec': None}], [w]))
                if n == 'to_owned' and tw['k'] == 'slice': return V(self.tmp('slice_to_vec(%s)' % self.sl_ref(self.as_slice(w)), vec(w.elem), 'cl'), vec(w.elem), True, True)
        # iterators
        rr = r
        while isinstance(rr, RefV) and isinstance(rr.v, (It, RangeV)): rr = rr.v
        if isinstance(rr, RangeV):
            if n == 'contains':
                x = self.own(self.strip(args[0]))
                lo, hi = self.own(rr.lo) if rr.lo is not None else None, self.own(rr.hi) if rr.hi is not None else None
                ts = ([('%s <= %s' % (lo, x))] if lo is not None else []) + ([('%s %s %s' % (x, '<=' if 'Inclusive' in rr.kind else '<', hi))] if hi is not None else [])
                return V('(' + ' && '.join(ts) + ')', BOOL)
            rr = self.range_iter(rr)
        if isinstance(rr, ItS):
            a = self.its_method(n, rr, False, args, e)
            if a is not None: return a
            rr = self.settle(rr)
        if isinstance(rr, It):
            if n == 'peekable': return rr
            if n == 'cycle':
                self.need_idx(rr)
                m = self.tmp(rr.n, USZ, 'n') if not simple(rr.n) else rr.n
                n2 = self.tmp('if %s == 0 { 0usize } else { usize::MAX }' % m, USZ, 'cyc')
                self.endless.add(n2)
                return It(n2, lambda i: rr.get(self.tmp('%s %% %s' % (i, m), USZ, 'ci')), srcs=rr.srcs)
            if n == 'next' or n == 'peek': return self.its_method('next', self.it_state(rr, 'pos'), False, args, e)
            a = self.adapter(n, rr, args, e)
            if a is not None: return a
            return self.terminal(n, rr, args, e)
        if isinstance(r, OptV) or (isinstance(r, RefV) and isinstance(r.v, OptV)):
            return self.optv_method(n, r if isinstance(r, OptV) else r.v, args, e)
        w = self.strip(r)
        tw = self.tyof(w)
        if n == 'try_into' and is_res(self.ty(e['t'])) and self.ty(e['t'])['a'][0]['k'] == 'array' and not self.spec: return self.try_from(self.ty(e['t'])['a'][0], w)
        if n in ('copy_from_slice', 'clone_from_slice', 'fill'):
            k, et, pl = (w.kind, w.elem, w.txt) if isinstance(w, SlV) else ('vec', tw['a'][0], w.txt) if is_vec(tw) and isinstance(w, V) and w.lv else (tw['k'], tw['t'], w.txt) if tw['k'] == 'array' and isinstance(w, V) and w.lv else (None, None, None)
            d = self.decl.get(self.recv(pl)) if pl else None
            if k in ('vec', 'array') and d is not None and self.c.is_copy(et) and not self.spec:
                if is_ref(d): d, m = d['t'], '&mut *' + self.recv(pl)
                else: m = '&mut ' + pl
                if (is_vec(d) if k == 'vec' else d['k'] == 'array'):
                    if n == 'fill': self.emit('%s_fill(%s, %s);' % (k, m, self.own(self.strip(args[0]))))
                    else: self.emit('%s_copy(%s, %s);' % (k, m, self.sl_ref(self.as_slice(args[0]))))
                    self.mutated(pl)
                    return V('()', UNIT, False, True)
        if is_vec(tw):
            if n == 'push':
                self.push(w.txt, args[0]); return V('()', UNIT, False, True)
            if n in ('extend', 'extend_from_slice', 'append'):
                it = self.to_iter(args[0].v if n == 'append' and isinstance(args[0], RefV) else args[0])
                def st(v):
                    v = self.strip(v) if is_ref(self.tyof(v)) and not is_ref(tw['a'][0]) else v
                    self.push(w.txt, v)
                self.drive(it, st, kind='extend')
                if n == 'append':
                    o = args[0]
                    while isinstance(o, RefV): o = o.v
                    if isinstance(o, V) and o.lv and not o.imm: self.emit('%s.clear();' % self.recv(o.txt)); self.mutated(o.txt)
                return V('()', UNIT, False, True)
            if n == 'resize':
                k, x = self.own(args[0]), self.stable(args[1])
                if not simple(k): k = self.tmp(k, USZ, 'k')
                l0 = self.tmp('%s.len()' % self.recv(w.txt), USZ, 'n')
                self.emit('if %s < %s { %s.truncate(%s); }' % (k, l0, self.recv(w.txt), k)); self.mutated(w.txt)
                m = self.tmp('if %s < %s { %s - %s } else { 0 }' % (l0, k, k, l0), USZ, 'n')
                self.drive(It(m, lambda i: x), lambda v: self.push(w.txt, v), kind='extend')
                return V('()', UNIT, False, True)
            if n == 'pop' :
                o = self.tmp('%s.pop()' % self.recv(w.txt), opt(tw['a'][0]), 'pp'); self.mutated(w.txt)
                return V(o, opt(tw['a'][0]), True, True)
            if n in ('clear', 'truncate', 'insert', 'remove'):
                self.mutated(w.txt)
                txt = '%s.%s(%s)' % (self.recv(w.txt), n, ', '.join(self.own(a) for a in args))
                if n == 'remove': return V(self.tmp(txt, tw['a'][0], 'rm'), tw['a'][0], True, True)
                self.emit(txt + ';'); return V('()', UNIT, False, True)
            if n in ('reserve', 'shrink_to_fit'): return V('()', UNIT, False, True)
        if is_string(tw):
            if n == 'push': self.emit('%s.push(%s);' % (self.recv(w.txt), self.own(args[0]))); self.mutated(w.txt); return V('()', UNIT, False, True)
            if n == 'push_str': self.emit('%s.push_str(%s);' % (self.recv(w.txt), self.as_str(args[0]).txt)); self.mutated(w.txt); return V('()', UNIT, False, True)
            if n == 'pop':
                o = self.tmp('string_pop(%s)' % self.own(RefV(w, True)), opt(CHAR), 'pp'); self.mutated(w.txt); return V(o, opt(CHAR), True, True)
            if n == 'truncate' : raise Unsupported('String::truncate')
            if n == 'extend':
                it = self.to_iter(args[0])
                self.drive(it, lambda v: self.push_str(w.txt, v), kind='extend')
                return V('()', UNIT, False, True)
            if n == 'reserve': return V('()', UNIT, False, True)
            if n == 'write_fmt':
                f = args[0]
                while isinstance(f, RefV): f = f.v
                self.fmt_string(f, w.txt); self.mutated(w.txt)
                return ResOV(V('Some(())', opt(UNIT), False, True))
            if n in ('write_str', 'write_char'):
                self.push_str(w.txt, args[0])
                return ResOV(V('Some(())', opt(UNIT), False, True))
        if is_str(tw) or is_string(tw):
            if n == 'repeat':
                k = self.own(args[0])
                if not simple(k): k = self.tmp(k, USZ, 'k')
                s = self.as_str(w)
                a = self.tmp('String::new()', STRING, 's', True, True)
                self.drive(It(k, lambda i: V(i, USZ, True, True)), lambda v: self.push_str(a, RefV(s)), kind='join')
                return V(a, STRING, True, True)
            raise Unsupported('str method ' + n)
        if tw['k'] in ('slice', 'array') or is_vec(tw):
            s = self.as_slice(w)
            if n in ('chunks', 'windows', 'chunks_exact'):
                k = self.own(args[0])
                if not simple(k): k = self.tmp(k, USZ, 'k')
                ln = self.tmp(self.sl_len(s), USZ, 'n')
                if n == 'chunks':
                    cnt = self.tmp('if %s == 0 { 0 } else { (%s - 1) / %s + 1 }' % (ln, ln, k), USZ, 'n')
                    def get(i):
                        lo = self.tmp('%s * %s' % (i, k), USZ, 'lo')
                        hi = self.tmp('if %s - %s < %s { %s } else { %s + %s }' % (ln, lo, k, ln, lo, k), USZ, 'hi')
                        x = self.tmp('slice_subrange(%s, %s, %s)' % (self.sl_ref(s), lo, hi), ref({'k': 'slice', 't': s.elem}), 'ch')
                        return RefV(SlV(x, s.elem, 'ref'))
                elif n == 'chunks_exact':
                    cnt = self.tmp('%s / %s' % (ln, k), USZ, 'n')
                    def get(i):
                        lo = self.tmp('%s * %s' % (i, k), USZ, 'lo')
                        x = self.tmp('slice_subrange(%s, %s, %s + %s)' % (self.sl_ref(s), lo, lo, k), ref({'k': 'slice', 't': s.elem}), 'ch')
                        return RefV(SlV(x, s.elem, 'ref'))
                else:
                    cnt = self.tmp('if %s < %s { 0 } else { %s - %s + 1 }' % (ln, k, ln, k), USZ, 'n')
                    def get(i):
                        x = self.tmp('slice_subrange(%s, %s, %s + %s)' % (self.sl_ref(s), i, i, k), ref({'k': 'slice', 't': s.elem}), 'ch')
                        return RefV(SlV(x, s.elem, 'ref'))
                return It(cnt, get, srcs=[(self.sl_spec(s), s.elem)])
            if n == 'get':
                return self.opt_index(self.own(args[0]), self.sl_len(s), lambda k: RefV(self.sl_at(s, k)), ref(s.elem))
            if n == 'first': return self.opt_index('0usize', self.sl_len(s), lambda k: RefV(self.sl_at(s, k)), ref(s.elem))
            if n == 'last':
                ln = self.tmp(self.sl_len(s), USZ, 'n')
                o = self.name('g'); self.decl[o] = opt(USZ)
                self.emit('let %s: Option<usize> = if %s > 0 { Some((%s - 1) as usize) } else { None };' % (o, ln, ln))
                return OptV(o, lambda k: RefV(self.sl_at(s, k)), ref(s.elem))
            if n in ('split_first', 'split_last'):
                ln = self.tmp(self.sl_len(s), USZ, 'n')
                o = self.name('g'); self.decl[o] = opt(USZ)
                for l in self.loops: l.locals.add(o)
                fst = n == 'split_first'
                self.emit('let %s: Option<usize> = if %s > 0 { Some(%s) } else { None };' % (o, ln, '0' if fst else '(%s - 1) as usize' % ln))
                def pay(k):
                    x = self.tmp('slice_subrange(%s, %s)' % (self.sl_ref(s), '1, ' + ln if fst else '0, ' + k), ref({'k': 'slice', 't': s.elem}), 'sub')
                    return TupV([RefV(self.sl_at(s, k)), RefV(SlV(x, s.elem, 'ref'))])
                return OptV(o, pay, self.ty(e['t'])['a'][0])
            if n in ('concat', 'join') and (is_string(s.elem) or is_string(self.unref(s.elem)) or is_str(self.unref(s.elem))):
                it = self.slice_iter(s, True)
                a = self.tmp('String::new()', STRING, 's', True, True)
                def st(v, i=[None]):
                    if n == 'join':
                        self.out.append('if %s > 0 {' % self.loops[-1].i); ls, _ = self.block(lambda: self.push_str(a, args[0])); self.out += [ls, '}']
                    self.push_str(a, v)
                self.drive(it, st, kind='join')
                return V(a, STRING, True, True)
            if n in ('concat', 'join'):
                it = self.slice_iter(s, True)
                et = s.elem['t'] if is_ref(s.elem) else s.elem
                et = et['t'] if et['k'] in ('slice', 'array') else et['a'][0]
                a = self.tmp('Vec::new()', vec(et), 'acc', True, True)
                def st(v):
                    if n == 'join':
                        def sep():
                            o = self.strip(args[0])
                            if is_int(self.tyof(o)): self.push(a, o)
                            else: self.drive(self.slice_iter(self.as_slice(o), True), lambda x: self.push(a, self.strip(x)), kind='extend')
                        self.out.append('if %s > 0 {' % self.loops[-1].i); ls, _ = self.block(sep); self.out += [ls, '}']
                    self.drive(self.slice_iter(self.as_slice(v), True), lambda x: self.push(a, self.strip(x)), kind='extend')
                self.drive(it, st, kind='collect')
                return V(a, vec(et), True, True)
            if n == 'contains':
                x = self.strip(args[0])
                fl, L = self.search_eq(s, x)
                return V(fl + '.is_some()', BOOL)
            if n == 'split_at':
                k = self.own(args[0])
                if not simple(k): k = self.tmp(k, USZ, 'k')
                st_ = ref({'k': 'slice', 't': s.elem})
                a = self.tmp('slice_subrange(%s, 0, %s)' % (self.sl_ref(s), k), st_, 'sa')
                b = self.tmp('slice_subrange(%s, %s, %s)' % (self.sl_ref(s), k, self.sl_len(s)), st_, 'sb')
                return TupV([RefV(SlV(a, s.elem, 'ref')), RefV(SlV(b, s.elem, 'ref'))])
        if is_opt(tw) or is_res(tw): return self.opt_method(n, w, tw, args, e)
        if tw == CHAR:
            x = self.own(w)
            if n == 'is_ascii_digit': return V("('0' <= %s && %s <= '9')" % (x, x), BOOL, False, w.imm)
            if n == 'is_ascii_uppercase': return V("('A' <= %s && %s <= 'Z')" % (x, x), BOOL, False, w.imm)
            if n == 'is_ascii_lowercase': return V("('a' <= %s && %s <= 'z')" % (x, x), BOOL, False, w.imm)
            if n == 'is_digit':
                if re.match(r'^10\w*$', self.own(args[0])): return V("('0' <= %s && %s <= '9')" % (x, x), BOOL, False, w.imm)
            if n == 'to_digit':
                if self.spec: raise NoSpec()
                return V(self.tmp('char_to_digit(%s, %s)' % (x, self.own(args[0])), opt(U32), 'td'), opt(U32), True, True)
            if n == 'len_utf8': return V(self.tmp('char_len_utf8(%s)' % x, USZ, 'cl'), USZ, True, True)
        if is_int(tw):
            x = self.own(w)
            ty = tw['n']
            if n in ('saturating_sub',):
                y = self.own(self.strip(args[0]))
                if not simple(x): x = self.tmp(x, tw)
                if not simple(y): y = self.tmp(y, tw)
                return V('(if %s >= %s { %s - %s } else { 0 })' % (x, y, x, y), tw)
            if n in ('wrapping_add', 'wrapping_sub', 'wrapping_mul', 'checked_add', 'checked_sub', 'checked_mul', 'saturating_add'):
                return V(self.tmp('%s.%s(%s)' % (x if simple(x) else self.tmp(x, tw), n, self.own(self.strip(args[0]))), self.ty(e['t']), 'w'), self.ty(e['t']), True, True)
            if n in ('max', 'min'):
                y = self.own(self.strip(args[0]))
                if not simple(x): x = self.tmp(x, tw)
                if not simple(y): y = self.tmp(y, tw)
                return V('(if %s %s %s { %s } else { %s })' % (x, '>' if n == 'max' else '<=', y, x, y), tw)
            if n in ('is_ascii_digit',) and ty == 'u8': return V('(48 <= %s && %s <= 57)' % (x, x), BOOL)
            if n == 'rem_euclid': return V('(%s %% %s)' % (x, self.own(args[0])), tw)
            if n == 'abs_diff' and ty[0] == 'u':
                y = self.own(self.strip(args[0]))
                if not simple(x): x = self.tmp(x, tw)
                if not simple(y): y = self.tmp(y, tw)
                return V('(if %s >= %s { %s - %s } else { %s - %s })' % (x, y, x, y, y, x), tw)
            if n == 'pow' and re.match(r'^\d+(u32)?$', self.own(args[0])) and ty[0] == 'u':
                if not simple(x): x = self.tmp(x, tw)
                k = int(re.match(r'\d+', self.own(args[0])).group(0))
                if k > 4: raise Unsupported('pow')
                return V('(' + ' * '.join(['1%s' % ty] + [x] * k) + ')', tw)
            if n in ('try_into',) and is_res(t): return self.try_from(t['a'][0], V(x, tw))
            if n in ('pow', 'abs_diff'): raise Unsupported(n)
        if n in ('eq', 'ne') and len(args) == 1: return V(self.cmp_text('==' if n == 'eq' else '!=', r, args[0]), BOOL)
        if n == 'into' and len(args) == 0: return self.call_std(c, [r], e)
        if tw == BOOL and n in ('then', 'then_some'):
            et = self.ty(e['t'])
            c = self.own(w)
            if n == 'then_some': args = [self.stable(args[0])]
            a = self.block(lambda: V('Some(%s)' % self.own(self.apply(args[0], []) if n == 'then' else args[0]), et))
            return self.merge(e, ['if %s {' % c, '} else {'], [a, ([], V('None', et))])
        raise Unsupported('method %s' % p)
    def try_from(self, dst, v):
        if dst['k'] == 'array' and self.c.is_copy(dst['t']) and isinstance(dst['n'], int):
            s = self.as_slice(v)
            if s.elem == dst['t'] == U8: return ResOV(V(self.tmp('slice_to_array::<%d>(%s)' % (dst['n'], self.sl_ref(s)), opt(dst), 'ta'), opt(dst), True, True))
        x = self.own(v); src = self.tyof(v)
        if not (is_int(dst) and is_int(src) and src['n'][0] == 'u' and dst['n'][0] == 'u'): raise Unsupported('try_from')
        if not simple(x): x = self.tmp(x, src)
        w = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64}
        if w[dst['n']] >= w[src['n']]: r = 'Some(%s as %s)' % (x, dst['n'])
        else: r = 'if %s <= %s::MAX as %s { Some(%s as %s) } else { None }' % (x, dst['n'], src['n'], x, dst['n'])
        return ResOV(V(self.tmp(r, opt(dst), 'tf'), opt(dst), True, True))
    def reso_method(self, n, r, args, e):
        if n in ('unwrap', 'expect', 'unwrap_or', 'unwrap_or_default'):
            if r.o.ty == opt(UNIT): return V('()', UNIT, False, True)
            return self.opt_method(n, r.o, r.o.ty, args, e)
        if n == 'ok': return r.o
        if n in ('is_ok', 'is_err'): return V('%s.%s()' % (self.mat(r.o).txt, 'is_some' if n == 'is_ok' else 'is_none'), BOOL)
        if n == 'unwrap_or_else' and isinstance(args[0], ClosV) and args[0].e['params'][0]['k'] == 'wild':
            a = self.block(lambda: V('p_', r.o.ty['a'][0], True, True)); b = self.block(lambda: self.ev_clos(args[0]))
            return self.merge(e, ['match %s { Some(p_) => {' % r.o.txt, '} None => {'], [a, b], '} }')
        if n == 'map_err' and isinstance(args[0], ClosV) and args[0].e['params'][0]['k'] == 'wild':
            et = self.ty(e['t'])
            a = ([], V('Ok(p_)', et)); b = self.block(lambda: V('Err(%s)' % self.own(self.ev_clos(args[0])), et))
            return self.merge(e, ['match %s { Some(p_) => {' % r.o.txt, '} None => {'], [a, b], '} }')
        raise Unsupported('result method ' + n)
    def ev_clos(self, f): return self.apply(f, [V('()', UNIT, False, True)])
    def search_eq(self, s, x):
        fl = self.tmp('None', opt(USZ), 'found', True)
        self.out[-1] = 'let mut %s: Option<usize> = None;' % fl
        it = self.slice_iter(s, True)
        def step(v): self.emit('if %s { %s = Some(%s); }' % (self.cmp_text('==', v, x), fl, self.loops[-1].i))
        L = self.drive(it, step, None, fl, 'search')
        k = self.name('kk')
        self.spec = True
        try:
            L.inv.append('forall|%s: int| 0 <= %s < %s ==> !%s' % (k, k, L.i, self.cmp_text('==', self.sl_at(s, k), x)))
            L.inv.append('%s is Some ==> (%s->Some_0 == %s && %s < %s && %s)' % (fl, fl, L.i, L.i, L.n, self.cmp_text('==', self.sl_at(s, L.i), x)))
        finally: self.spec = False
        return fl, L
    def optv_method(self, n, o, args, e):
        if self.spec: raise NoSpec()
        if n in ('unwrap', 'expect'):
            k = self.tmp('%s.unwrap()' % o.txt, USZ, 'k')
            return o.pay(k)
        if n == 'is_some': return V(o.txt + '.is_some()', BOOL)
        if n == 'is_none': return V(o.txt + '.is_none()', BOOL)
        if n in ('copied', 'cloned'):
            def pay(k):
                v = o.pay(k)
                return v.v if isinstance(v, RefV) else self.deref(v)
            return OptV(o.txt, pay, o.ety['t'] if o.ety and is_ref(o.ety) else o.ety)
        if n == 'map':
            return OptV(o.txt, lambda k: self.apply(args[0], [o.pay(k)]), self.ty(e['t'])['a'][0])
        if n in ('ok_or',):
            k = self.name('k')
            ls, x = self.block(lambda: self.own(o.pay(k)))
            t = self.ty(e['t'])
            return V(self.tmp('match %s { Some(%s) => { %s Ok(%s) }, None => Err(%s) }' % (o.txt, k, ' '.join(map(str, ls)), x, self.own(args[0])), t, 'ok'), t, True, True)
        if n in ('unwrap_or', 'map_or', 'unwrap_or_else', 'map_or_else', 'and_then', 'is_some_and', 'ok_or_else', 'unwrap_or_default'):
            et = self.ty(e['t'])
            k = self.name('k'); self.decl[k] = USZ
            for l in self.loops: l.locals.add(k)
            a, b = self.opt_arms(n, lambda: o.pay(k), args, et)
            return self.merge(e, ['match %s { Some(%s) => {' % (o.txt, k), '} None => {'], [a, b], '} }')
        raise Unsupported('option method ' + n)
    def opt_arms(self, n, pay, args, et):
        W = lambda c, f: V('%s(%s)' % (c, self.own(f)), et)
        if n == 'unwrap_or': return self.block(lambda: pay()), self.block(lambda: args[0])
        if n == 'unwrap_or_else': return self.block(lambda: pay()), self.block(lambda: self.apply(args[0], []))
        if n == 'map_or': return self.block(lambda: self.apply(args[1], [pay()])), self.block(lambda: args[0])
        if n == 'map_or_else': return self.block(lambda: self.apply(args[1], [pay()])), self.block(lambda: self.apply(args[0], []))
        if n == 'and_then': return self.block(lambda: self.apply(args[0], [pay()])), self.block(lambda: V('None', et))
        if n == 'is_some_and': return self.block(lambda: self.apply(args[0], [pay()])), self.block(lambda: V('false', BOOL))
        if n == 'ok_or_else': return self.block(lambda: W('Ok', pay())), self.block(lambda: W('Err', self.apply(args[0], [])))
        raise Unsupported('option method ' + n)
    def opt_method(self, n, w, tw, args, e):
        if self.spec: raise NoSpec()
        w = self.place(w)
        res = is_res(tw)
        copy = self.c.is_copy(tw)
        if n in ('unwrap', 'expect'):
            return V(self.tmp('%s.unwrap()' % w.txt, tw['a'][0], 'u'), tw['a'][0], True, True)
        if n in ('is_some', 'is_none', 'is_ok', 'is_err'): return V('%s.%s()' % (self.recv(w.txt), n), BOOL)
        if n in ('copied', 'cloned') and not res:
            it = tw['a'][0]['t']
            return V(self.tmp('match %s { Some(x_) => Some(*x_), None => None }' % w.txt, opt(it), 'o'), opt(it), True, True)
        et = self.ty(e['t'])
        p = self.name('p'); self.decl[p] = tw['a'][0]
        for l in self.loops: l.locals.add(p)
        pv = lambda: V(p, tw['a'][0], True, True)
        if res:
            if n == 'map':
                a = self.block(lambda: V('Ok(%s)' % self.own(self.apply(args[0], [pv()])), et)); b = ([], V('Err(e_)', et))
            elif n == 'and_then':
                a = self.block(lambda: self.apply(args[0], [pv()])); b = ([], V('Err(e_)', et))
            elif n == 'ok': a = ([], V('Some(%s)' % p, et)); b = ([], V('None', et))
            elif n == 'map_err':
                a = ([], V('Ok(%s)' % p, et)); b = self.block(lambda: V('Err(%s)' % self.own(self.apply(args[0], [V('e_', tw['a'][1], True, True)])), et))
            elif n == 'unwrap_or': a = ([], pv()); b = self.block(lambda: args[0])
            else: raise Unsupported('result method ' + n)
            return self.merge(e, ['match %s { Ok(%s) => {' % (w.txt, p), '} Err(e_) => {'], [a, b], '} }')
        if n == 'map':
            a = self.block(lambda: V('Some(%s)' % self.own(self.apply(args[0], [pv()])), et)); b = ([], V('None', et))
        elif n == 'ok_or': a = ([], V('Ok(%s)' % p, et)); b = self.block(lambda: V('Err(%s)' % self.own(args[0]), et))
        elif n == 'filter':
            a = self.block(lambda: V('if %s { Some(%s) } else { None }' % (self.own(self.apply(args[0], [RefV(pv())])), p), et)); b = ([], V('None', et))
        elif n == 'or': a = ([], V('Some(%s)' % p, et)); b = self.block(lambda: args[0])
        elif n == 'take':
            r = self.tmp(w.txt, tw, 'tk'); self.emit('%s = None;' % w.txt); self.mutated(w.txt); return V(r, tw, True, True)
        elif n == 'unwrap_or_default' and is_int(tw['a'][0]): a = ([], pv()); b = ([], V('0', tw['a'][0]))
        elif n == 'unwrap_or_default' and (is_string(tw['a'][0]) or is_vec(tw['a'][0])): a = ([], pv()); b = ([], V('String::new()' if is_string(tw['a'][0]) else 'Vec::new()', tw['a'][0]))
        elif n == 'as_deref' and (is_string(tw['a'][0]) or is_vec(tw['a'][0])):
            return V(self.tmp('match &%s { Some(x_) => Some(x_.%s()), None => None }' % (w.txt, 'as_str' if is_string(tw['a'][0]) else 'as_slice'), et, 'ad'), et, True, True)
        else: a, b = self.opt_arms(n, pv, args, et)
        return self.merge(e, ['match %s { Some(%s) => {' % (w.txt, p), '} None => {'], [a, b], '} }')

    # formatting ---------------------------------------------------
    def fmt_string(self, f, into=None):
        if self.spec: raise NoSpec()
        if not isinstance(f, FmtV): raise Unsupported('format')
        s = self.tmp('String::new()', STRING, 's', True, True) if into is None else into
        if into is not None and not IDENT.match(into): raise Unsupported('write! into a place')
        for p in f.pieces:
            if 'lit' in p:
                if p['lit']:
                    self.strlits.append(p['lit']); self.emit('%s.push_str(%s);' % (s, str_lit(p['lit'])))
                continue
            a = f.args[p['arg']]
            if a is None: raise Unsupported('format argument')
            sp = p.get('spec')
            w = a if isinstance(a, FmtV) else self.strip(a)
            if isinstance(w, FmtV): 
                self.emit('%s.push_str(%s.as_str());' % (s, self.own(self.fmt_string(w)))); continue
            t = self.tyof(w)
            plain = sp is None or (sp['width'] is None and sp['precision'] is None and sp['flags'] == 'None|None|None|false|false')
            if p['trait'] == 'Display' and plain:
                if is_int(t) and t['n'][0] == 'u' and t['n'] != 'u128': self.emit('fmt_dec(&mut %s, %s as u64);' % (s, self.own(w)))
                elif t == CHAR: self.emit('%s.push(%s);' % (s, self.own(w)))
                elif is_str(t) or is_string(t): self.emit('%s.push_str(%s);' % (s, self.as_str(w).txt))
                else: raise Unsupported('format of ' + json.dumps(t)[:50])
            elif p['trait'] == 'LowerHex' and t == U8 and sp['precision'] is None and sp['width'] == {'lit': 2} and sp['flags'] == 'None|None|None|true|false':
                self.emit('fmt_hex02(&mut %s, %s);' % (s, self.own(w)))
            else: raise Unsupported('format specification')
        return V(s, STRING, True, True)

    # ------- whole function
    def run(self, pnames=None):
        f = self.f
        self.env = {}
        sig = []
        ins = [self.subst_self(self.c.tys[i], self.selfty) for i in f['ins']]
        out = self.subst_self(self.c.tys[f['out']], self.selfty)
        gen = {}
        for pr in f['preds']:
            m = re.search(r'<(\w+) as std::convert::AsRef<(.*?)>>', pr)
            if m: gen[m.group(1)] = ref(STR) if m.group(2) == 'str' else ref({'k': 'slice', 't': U8})
        def gs(t):
            if is_ref(t) and t['t']['k'] == 'param' and t['t']['n'] in gen: return gen[t['t']['n']]
            if t['k'] == 'param' and t['n'] in gen: return gen[t['n']]
            return t
        life = "'a" if has_ref(out) else None
        self.pinfo = []
        try:
            binds_later = []
            for i, (p, t) in enumerate(zip(f['params'], ins)):
                t = gs(t)
                nm = (pnames[i] if pnames and i < len(pnames) else (p['name'] if p['k'] == 'bind' else 'arg%d' % i))
                if nm == 'self': nm = 'self_'
                nm = nm if nm not in self.names else self.name(nm)
                self.names.add(nm)
                self.decl[nm] = t
                mutp = p['k'] == 'bind' and p['mut'] and not is_ref(t)
                sig.append('%s: %s' % (nm, self.c.tt(t, life)))
                self.pinfo.append((nm, t))
                val = V(nm, t, True, True)
                if mutp:
                    binds_later.append((p, val))
                elif p['k'] == 'bind': self.env[p['id']] = val
                else: binds_later.append((p, val))
            self.sig = '%s%s(%s)' % (self.key, "<'a>" if life else '', ', '.join(sig))
            self.out_ty = out
            self.ret_txt = self.c.tt(gs(out), life)
            for p, v in binds_later: self.bind(p, v)
            v = self.ev(f['body'])
            if not (isinstance(v, V) and (v.ty['k'] == 'never' or (is_unit(v.ty) and v.txt == '()'))):
                self.out.append(self.own_tail(v))
        except NoSpec: self.unsup = 'internal: spec mode escape'
        except Unsupported as x: self.unsup = str(x)
        except (KeyError, IndexError, TypeError, AttributeError) as x:
            self.unsup = 'internal: %s %s' % (type(x).__name__, x)
    def own_tail(self, v):
        return self.own(v)

class Binder(Val):
    def __init__(s, n, ty, copy): s.n, s.ty, s.copy = n, ty, copy
    def txt0(s): return '_'
    def as_val(s, L): raise Unsupported('nested binder')
    def as_ref(s, L): raise Unsupported('nested binder')
    def deref(s, L): raise Unsupported('nested binder')

def is_unsz(t): return t['k'] == 'slice' or is_str(t)
def is_unit(t): return t['k'] == 'tup' and not t['a']
def expand_dd(pats, dd, n):
    if dd is None: return list(enumerate(pats))
    k = len(pats)
    return [(i, pats[i]) for i in range(dd)] + [(n - (k - i), pats[i]) for i in range(dd, k)]
def binds(p):
    r = []
    walk(p, lambda x: r.append(1) if x['k'] == 'bind' else None)
    return bool(r)
def refutable(p):
    k = p['k']
    if k in ('wild',): return False
    if k == 'bind': return bool(p['sub']) and refutable(p['sub'])
    if k == 'ref': return refutable(p['pat'])
    if k == 'tuple': return any(refutable(q) for q in p['pats'])
    if k in ('tupstruct', 'struct'):
        if p['res'].get('dk', '').startswith('Ctor(Variant') or p['res'].get('dk') == 'Variant': return True
        qs = p['pats'] if k == 'tupstruct' else [q for _, q in p['fields']]
        return any(refutable(q) for q in qs)
    if k == 'slice': return p['mid'] is not None or True
    return True
def has_let(e):
    r = []
    walk(e, lambda x: r.append(1) if x['k'] == 'let' and 'init' in x and 'els' not in x else None)
    return bool(r)
def root_ident(v):
    if isinstance(v, RefV): return root_ident(v.v)
    m = re.match(r'^[(*&]*([A-Za-z_]\w*)', v.txt)
    return m.group(1)
def has_ret(e):
    r = []
    def f(x):
        if x['k'] == 'closure': return False
        if x['k'] == 'ret' or (x['k'] == 'match' and x.get('src') == 'try'): r.append(1); return False
    walk(e, f)
    return bool(r)
def has_ret_stmt(e): return has_ret(e)
def strict_try(e):
    """a `?` that is evaluated first and unconditionally inside e (path of simple expressions), or None"""
    k = e['k']
    if k == 'match' and e.get('src') == 'try': 
        inner = strict_try(e['s']['args'][0]) if has_ret(e['s']) else None
        return inner or e
    if k in ('droptemps', 'cast', 'field', 'addr', 'un'): return strict_try(e['e']) if isinstance(e.get('e'), dict) else None
    if k == 'call': kids = ([e['f']] if isinstance(e.get('f'), dict) else []) + e['args']
    elif k == 'mcall': kids = [e['recv']] + e['args']
    elif k in ('tup', 'array'): kids = e['v']
    elif k == 'index': kids = [e['e'], e['i']]
    elif k == 'bin' and e['op'] not in ('&&', '||'): kids = [e['l'], e['r']]
    elif k == 'match' and e.get('src') == 'normal': kids = [e['s']]
    elif k == 'if': kids = [e['c']]
    else: return None
    for i, x in enumerate(kids):
        if isinstance(x, dict) and has_ret(x):
            t = strict_try(x)
            # what is evaluated before must commute with the hoisted operand
            # (a local variable, borrowed mutably as receiver, is not touched before the call)
            if t is not None and not all(pure(y) or k == 'mcall' and j == 0 and y['k'] == 'path' and 'local' in y['res'] for j, y in enumerate(kids[:i])): return None
            if t is not None and any(y['k'] != 'lit' for y in kids[:i]) and assigns(t): return None
            return t
    return None
def pure(e):
    r = []
    def f(x):
        if x['k'] not in ('lit', 'path', 'field', 'addr', 'cast', 'un', 'tup', 'droptemps') or x['k'] == 'addr' and x['mut'] or any(a[0] == 'borrowmut' for a in x.get('adj') or []) \
                or x.get('ov') or x['k'] == 'path' and x['res'].get('dk', '').startswith('Ctor'): r.append(1)
        return False if x['k'] == 'path' else None
    walk_e(e, f)
    return not r
def assigns(e):
    r = []
    walk(e, lambda x: r.append(1) if x['k'] in ('assign', 'assignop') or x['k'] == 'addr' and x['mut'] or any(a[0] == 'borrowmut' for a in x.get('adj') or []) else None)
    return bool(r)
def walk_e(e, f):
    # expression nodes only
    if f(e) is False: return
    for c in ('e', 'l', 'r', 'i', 'recv'):
        if isinstance(e.get(c), dict): walk_e(e[c], f)
    for c in ('v', 'args'):
        if isinstance(e.get(c), list):
            for x in e[c]: walk_e(x, f)
def replace_node(e, old, new):
    if e is old: return new
    if isinstance(e, dict): return {k: replace_node(v, old, new) if isinstance(v, (dict, list)) else v for k, v in e.items()}
    if isinstance(e, list): return [replace_node(x, old, new) if isinstance(x, (dict, list)) else x for x in e]
    return e
FRESH = [1 << 40]
def tail_form(e, mode='value'):
    """rewrite a body with early returns so that every return is a tail value; None if not possible.
    mode 'loop': e is the body of a loop; a return becomes an assignment to the flag of the loop"""
    T, AT = e.get('t'), e.get('at', e.get('t'))
    def unit(): return {'k': 'tup', 'v': [], 't': -1, 'at': -1}
    def mk_block(stmts, expr, like): return {'k': 'block', 'b': {'stmts': stmts, 'expr': expr, 'unsafe': False}, 't': T, 'at': AT, 'sp': like.get('sp')}
    def ret(e): 
        if mode == 'loop': return {'k': 'setret', 'e': e['e'], 't': T, 'at': AT}
        return go(e['e']) if e['e'] is not None else unit()
    def diverges(e):
        k = e['k']
        if k in ('ret', 'continue', 'break'): return True
        if k == 'droptemps': return diverges(e['e'])
        if k == 'block':
            b = e['b']
            if b['expr'] is not None: return diverges(b['expr'])
            return bool(b['stmts']) and b['stmts'][-1]['k'] in ('semi', 'expr') and diverges(b['stmts'][-1]['e'])
        if k == 'if': return e['el'] is not None and diverges(e['th']) and diverges(e['el'])
        if k == 'match': return e['src'] == 'normal' and all(diverges(a['body']) for a in e['arms'])
        return False
    def go(e):
        """value expression equivalent to e in tail position"""
        if e is None: return None
        if not has_ret(e): return e
        k = e['k']
        if k == 'ret': return ret(e)
        if k == 'droptemps': return go(e['e'])
        if k == 'block': return None if e.get('label') else go_stmts(e['b']['stmts'], e['b']['expr'], e)
        if k == 'if' and not has_ret(e['c']):
            a = go(e['th']); b = go(e['el']) if e['el'] is not None else unit()
            return None if a is None or b is None else dict(e, th=a, el=b, t=T, at=AT)
        if k == 'match' and e['src'] == 'normal' and not has_ret(e['s']):
            arms = []
            for a in e['arms']:
                x = go(a['body'])
                if x is None or a['guard'] is not None and has_ret(a['guard']): return None
                arms.append(dict(a, body=x))
            return dict(e, arms=arms, t=T, at=AT)
        if k == 'match' and e['src'] == 'try' and mode == 'value' and not has_ret(e['s']):
            # E? as the value of the body: the Ok payload
            i = FRESH[0] = FRESH[0] + 1
            return {'k': 'trybind', 's': e['s']['args'][0], 'id': i, 'rest': local(i, e), 't': T, 'at': AT}
        if loop_of(e) is not None: return go_stmts([{'k': 'semi', 'e': e}], None, e)
        return hoist(e, lambda x: go(x), e)
    def local(i, e): return {'k': 'path', 'res': {'k': 'Local', 'local': i}, 't': e['t'], 'at': e.get('at', e['t']), 'adj': e.get('adj') or [], 'trylocal': i}
    def hoist(e, k, like):
        t = strict_try(e)
        if t is None: return None
        i = FRESH[0] = FRESH[0] + 1
        rest = k(replace_node(e, t, local(i, t)))
        return None if rest is None else {'k': 'trybind', 's': t['s']['args'][0], 'id': i, 'rest': rest, 't': T, 'at': AT, 'loop': mode == 'loop'}
    def loop_of(e):
        while e['k'] == 'droptemps': e = e['e']
        if e['k'] == 'match' and e.get('src') == 'for': return e
        if e['k'] == 'loop': return e
        return None
    def go_stmts(stmts, expr, like):
        for i, s in enumerate(stmts):
            x = s.get('e') if s['k'] in ('expr', 'semi') else s.get('init')
            els = s.get('els') if s['k'] == 'let' else None
            if x is None or not (has_ret(x) or els is not None and has_ret(els)): continue
            while x['k'] == 'droptemps': x = x['e']
            after = stmts[i + 1:]
            def rest(pre=[]): return go_stmts(pre + after, expr, like)
            def done(r): return None if r is None else mk_block(stmts[:i], r, like)
            if s['k'] == 'let':
                if els is not None and not has_ret(x):
                    a, b = rest(), go({'k': 'block', 'b': els, 't': -1, 'at': -1})
                    return None if a is None or b is None else done({'k': 'match', 'src': 'normal', 's': x, 'arms': [{'pat': s['pat'], 'guard': None, 'body': a}, {'pat': {'k': 'wild', 't': s['pat']['t'], 'pd': 0}, 'guard': None, 'body': b}], 't': T, 'at': AT})
                if els is not None: return None
                if x['k'] == 'match' and x['src'] == 'normal' and not has_ret(x['s']):
                    arms = []
                    for a in x['arms']:
                        r = go(a['body']) if diverges(a['body']) else rest([dict(s, init=a['body'])])
                        if r is None or a['guard'] is not None and has_ret(a['guard']): return None
                        arms.append(dict(a, body=r))
                    return done(dict(x, arms=arms, t=T, at=AT))
                if x['k'] == 'if' and x['el'] is not None and not has_ret(x['c']):
                    br = [go(y) if diverges(y) else rest([dict(s, init=y)]) for y in (x['th'], x['el'])]
                    return None if None in br else done(dict(x, th=br[0], el=br[1], t=T, at=AT))
                if x['k'] == 'block' and not x.get('label') and x['b']['expr'] is not None:
                    return done(rest(x['b']['stmts'] + [dict(s, init=x['b']['expr'])]))
                return done(hoist(x, lambda y: rest([dict(s, init=y)]), like))
            if x['k'] == 'ret': return done(ret(x))
            if x['k'] == 'if' and not has_ret(x['c']):
                a = go(x['th']) if diverges(x['th']) else rest([{'k': 'semi', 'e': x['th']}])
                if x['el'] is None: b = rest()
                else: b = go(x['el']) if diverges(x['el']) else rest([{'k': 'semi', 'e': x['el']}])
                return None if a is None or b is None else done(dict(x, th=a, el=b, t=T, at=AT))
            if x['k'] == 'match' and x['src'] == 'normal' and not has_ret(x['s']):
                arms = []
                for a in x['arms']:
                    r = go(a['body']) if diverges(a['body']) else rest([{'k': 'semi', 'e': a['body']}])
                    if r is None or a['guard'] is not None and has_ret(a['guard']): return None
                    arms.append(dict(a, body=r))
                return done(dict(x, arms=arms, t=T, at=AT))
            if x['k'] == 'block' and not x.get('label'):
                return done(rest(x['b']['stmts'] + ([{'k': 'semi', 'e': x['b']['expr']}] if x['b']['expr'] is not None else [])))
            if loop_of(x) is not None:
                r = rest()
                return None if r is None else done({'k': 'loopret', 'loop': x, 'rest': r, 't': T, 'at': AT, 'inloop': mode == 'loop'})
            return done(hoist(x, lambda y: rest([{'k': 'semi', 'e': y}]), like))
        if expr is None: return mk_block(stmts, None, like)
        t = go(expr)
        return None if t is None else mk_block(stmts, t, like)
    return go(e)

# ---------------------------------------------------------------- rendering
def render(lines, ind, invf, out):
    for l in lines:
        if isinstance(l, list): render(l, ind + 1, invf, out)
        elif isinstance(l, Loop):
            pre, inv, hints_in, hints_out = invf(l)
            for p in pre: out.append('    ' * ind + p)
            out.append('    ' * ind + 'while ' + l.cond)
            if inv:
                out.append('    ' * (ind + 1) + ('invariant_except_break' if False else 'invariant'))
                for tag, t in inv: out.append('    ' * (ind + 2) + t + ', // ' + tag)
            if l.dec and not l.has_break or l.dec: out.append('    ' * (ind + 1) + 'decreases ' + l.dec)
            out.append('    ' * ind + '{')
            for h in hints_in: out.append('    ' * (ind + 1) + h)
            render(l.body, ind + 1, invf, out)
            out.append('    ' * ind + '}')
            for h in hints_out: out.append('    ' * ind + h)
        else: out.append('    ' * ind + l)
