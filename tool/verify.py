#!/usr/bin/env python3
"""Turns the lowered functions of one unit plus its contract file into a Verus file, selects loop
invariants from candidates by asking Verus, and reports which obligations were discharged."""
import hashlib, itertools, json, os, re, signal, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lower import *

HERE = os.path.dirname(os.path.abspath(__file__))
CDIR = os.path.join(os.path.dirname(HERE), 'contracts')

class Clause:
    def __init__(s, kind, owner, tag, text): s.kind, s.owner, s.tag, s.text = kind, owner, tag, text
class FnC:
    def __init__(s, key, params, ret, unit): s.key, s.params, s.ret, s.unit = key, params, ret, unit; s.req = []; s.ens = []; s.pre = []; s.cand = []; s.attr = []; s.trusted = False; s.end = []; s.after = []; s.alt = {}; s.step = []
class Thm:
    def __init__(s, owner, name, text): s.owner, s.name, s.text = owner, name, text

class Contracts:
    def __init__(self):
        self.units = {}
        self.fns = {}
        for f in sorted(os.listdir(CDIR)):
            if f.endswith('.vc'): self.load(f[:-3], open(os.path.join(CDIR, f)).read())
        self.prelude = open(os.path.join(CDIR, 'prelude.rs')).read()
        self.base = json.load(open(os.path.join(CDIR, 'baseline.json'))) if os.path.exists(os.path.join(CDIR, 'baseline.json')) else {}
    def adapt(self, hir):
        """private fields that were renamed (recognised by their place) get their new name in the contracts"""
        adts = {a['path']: a for a in hir['adts']}
        for p, fs in self.base.get('@fields', {}).items():
            a = adts.get(p)
            if a is None or a['enum'] or len(a['variants'][0]['fields']) != len(fs): continue
            now = [n for n, _ in a['variants'][0]['fields']]
            d = {x: y for x, y in zip(fs, now) if x != y}
            if not d or any(y in fs for y in d.values()): continue
            m = mangle(p)
            def f(t):
                for x, y in d.items(): t = re.sub((r'\b(self_|Ok_0|b\d?|c)' if x.isdigit() else r'()') + r'\.%s\b(?!\()' % x, r'\1.' + y, t)
                return t
            for u, U in self.units.items():
                txt = [U['spec']] + list(U['fns']) + [c.text for F in U['fns'].values() for c in F.req + F.ens] + [t.text for t in U['thms']]
                if not any(re.search(r'\b%s(_|\b)' % m, t) for t in txt): continue
                U['spec'] = f(U['spec']); U['cand'] = [f(t) for t in U['cand']]
                for t in U['thms']: t.text = f(t.text)
                for F in U['fns'].values():
                    for c in F.req + F.ens: c.text = f(c.text)
                    for k in ('pre', 'cand', 'end', 'step'): setattr(F, k, [f(t) for t in getattr(F, k)])
                    F.after = [(x, f(t)) for x, t in F.after]
                    F.alt = {k: [f(t) for t in v] for k, v in F.alt.items()}
        return self
    def load(self, unit, text):
        U = self.units[unit] = {'name': unit, 'uses': [], 'spec': '', 'fns': {}, 'thms': [], 'parse': {}, 'cand': [], 'roots': []}
        for blk in re.split(r'(?m)^=== ', text)[1:]:
            head, _, body = blk.partition('\n')
            w = head.split()
            if w[0] == 'use': U['uses'] += w[1:]
            elif w[0] == 'spec': U['spec'] += body
            elif w[0] == 'pool': U['cand'] += [x[len('cand:'):].strip() for x in self.items(body)]
            elif w[0] == 'thm': U['thms'].append(Thm(w[1], '%s.%s' % (w[1], w[2]), body))
            elif w[0] in ('fn', 'trusted'):
                m = re.match(r'\w+ (\w+)\((.*?)\) -> (\w+)', head)
                F = FnC(m.group(1), [x.strip() for x in m.group(2).split(',') if x.strip()], m.group(3), unit)
                F.trusted = w[0] == 'trusted'
                for it in self.items(body): self.item(F, it)
                U['fns'][F.key] = F; self.fns[F.key] = F
            elif w[0] == 'parse':
                key, ok, lo, hi = w[1:5]
                owner = 'C13'
                F = FnC(key + '_valid_chars', [], 'r', unit)
                F.ens.append(Clause('ens', owner, 'alphabet', 'forall|c: char| #![trigger r@.contains(c)] #![trigger %s(c)] r@.contains(c) <==> %s(c)' % (ok, ok)))
                for it in self.items(body): self.item(F, it)
                if ok == 'isdig' or len(w) <= 5 and not F.end:
                    F.cand.append("forall|k: int| 0 <= k < {i} ==> {a:Vec<char>}@[k] == ((48 + k) as u8) as char")
                    F.end.append('proof { assert forall|c: char| isdig(c) implies #[trigger] $r@.contains(c) by { assert($r@[c as u32 - 48] == c); } }')
                G = FnC(key + '_valid_len', [], 'r', unit)
                G.ens.append(Clause('ens', owner, 'range', 'r.start == %s && r.end == %s' % (lo, hi)))
                P = FnC(key + '_parse', ['data'], 'r', unit)
                bad = 'exists|k: int| 0 <= k < data@.len() && !%s(#[trigger] data@[k])' % ok
                P.ens += [Clause('ens', owner, 'length', '(utf8_len(data@) < %s || utf8_len(data@) > %s) ==> r == Err::<&str, _>(error_Error::Length)' % (lo, hi)),
                          Clause('ens', owner, 'character', '%s <= utf8_len(data@) <= %s && (%s) ==> r == Err::<&str, _>(error_Error::Character)' % (lo, hi, bad)),
                          Clause('ens', owner, 'accept', '%s <= utf8_len(data@) <= %s && !(%s) ==> r is Ok' % (lo, hi, bad)),
                          Clause('ens', owner, 'same', 'r is Ok ==> r->Ok_0@ == data@')]
                P.cand += ['forall|k: int| 0 <= k < {i} ==> %s(#[trigger] data@[k])' % ok, '{v:Option<usize>} is Some ==> {i} < data@.len() && !%s(data@[{i} as int])' % ok]
                for x in (F, G, P): U['fns'][x.key] = x; self.fns[x.key] = x
                U['parse'][P.key] = key
            else: raise Exception('contract file %s: %s' % (unit, head))
    def items(self, body):
        out = []
        for l in body.split('\n'):
            if not l.strip() or l.startswith('//'): continue
            if l.startswith('    ') and out: out[-1] += '\n' + l
            else: out.append(l)
        return out
    def item(self, F, it):
        m = re.match(r'(req|ens) ?([\w. ]*?): (.*)$', it, re.S)
        if m:
            w = m.group(2).split()
            if m.group(1) == 'req': F.req.append(Clause('req', 'C15', w[0] if w else 'pre', m.group(3)))
            else: F.ens.append(Clause('ens', w[0], w[1], m.group(3)))
            return
        for k in ('pre', 'cand', 'attr', 'end', 'step'):
            if it.startswith(k + ':'): getattr(F, k).append(it[len(k) + 1:].strip()); return
        m = re.match(r'tab (\d+) (\S+): (.*)$', it, re.S)
        if m:
            n, tr, px = m.groups()
            F.pre.append('proof { let p = |k: int| %s; assert(all_below(%s, |k: int| %s)) by (compute); assert(all_below(%s, p)); lemma_all_below(%s, p); assert forall|k: int| 0 <= k < %s implies %s by { assert(p(k)); } }' % (px, n, px, n, n, n, px.replace(tr, '(#[trigger] %s)' % tr, 1)))
            return
        m = re.match(r'alt (\w+): (.*)$', it, re.S)
        if m: F.alt.setdefault(m.group(1), []).append(m.group(2)); return
        m = re.match(r'after /(.*?)/: (.*)$', it, re.S)
        if m: F.after.append((m.group(1), m.group(2))); return
        raise Exception('contract item: ' + it)

# ---------------------------------------------------------------- candidates
def norm_ty(t): return t.replace(' ', '')

def flat_text(lines):
    return '\n'.join(flat_text(l) if isinstance(l, list) else flat_text(l.body) if isinstance(l, Loop) else l for l in lines)
class Cands:
    """candidate invariants for every loop of a lowered function"""
    def __init__(self, crate, L, texts, steps=()):
        self.c, self.L, self.texts, self.steps = crate, L, texts, steps
        self.loops = {}
        self.inner = {}             # candidates of inner loops that do not mention the outer loop
        self.scope = [dict((n, t) for n, t in L.pinfo)]
        self.stack = []
        self.walk(L.out)
    def tyname(self, t):
        try: return norm_ty(self.c.tt(t, None, False))
        except Unsupported: return '?'
    def walk(self, lines):
        self.scope.append({})
        pend = None
        for l in lines:
            if isinstance(l, list): self.walk(l)
            elif isinstance(l, Loop):
                self.loop(l)
                self.stack.append(l); self.walk(l.body); self.stack.pop()
            else:
                m = re.match(r'^let (?:mut )?([A-Za-z_]\w*)', l)
                if m:
                    if l.rstrip().endswith(';'): self.scope[-1][m.group(1)] = self.L.decl.get(m.group(1))
                    else: pend = m.group(1)
                elif pend and l.startswith('}') and l.rstrip().endswith(';'):
                    self.scope[-1][pend] = self.L.decl.get(pend); pend = None
        self.scope.pop()
    def loop(self, l):
        vis = {}
        for s in self.scope: vis.update(s)
        muts = {m: self.L.decl.get(m) for m in l.muts if m in vis}
        dr = lambda t: t['t'] if is_ref(t) and t['mut'] else t
        muts = {m: dr(t) for m, t in muts.items()}
        vecs = {m: t for m, t in muts.items() if t is not None and (is_vec(t) or is_string(t))}
        pre = ['let ghost %s_L%d = %s%s;' % (m, l.id, m, '@' if m in vecs else '') for m in muts if muts[m] is not None and not (is_ref(muts[m]))]
        srcs = [(re.sub(r'([\w)])\[(\w+)\]', r'\1@[\2 as int]', S), se) for S, se in l.srcs]
        auto = []
        if l.i: auto.append('%s <= %s' % (l.i, l.n))
        auto += l.inv
        # an early result that is always the same value
        for m in muts:
            vs = set(re.findall(r'(?m)\b%s = Some\(((?:[^()\n]|\([^()\n]*\))*)\);' % m, flat_text(l.body)))
            if len(vs) != 1: continue
            x = vs.pop()
            if re.match(r'^(true|false|\d+\w*)$', x): auto.append('%s is Some ==> %s->Some_0 == %s' % (m, m, x))
            elif re.match(r'^Err\(\w+::\w+\)$', x): auto.append('%s is Some ==> (%s->Some_0 is Err && %s->Some_0->Err_0 == %s)' % (m, m, m, x[4:-1]))
        hin, hout = [], []
        for m, t in vecs.items():
            m0 = '%s_L%d' % (m, l.id)
            if l.i:
                auto.append('%s@.len() == %s.len() + %s' % (m, m0, l.i))
                et = CHAR if is_string(t) else t['a'][0]
                for S, se in srcs:
                    x = se
                    while is_ref(x): x = x['t']
                    if x == et: auto.append('%s@ =~= %s + %s.take(%s as int)' % (m, m0, S, l.i))
                    elif (x['k'] in ('array', 'slice') and x['t'] == et) or (is_vec(x) and x['a'][0] == et): auto.append('%s@ =~= %s + flat(%s.take(%s as int))' % (m, m0, S, l.i))
        for S, se in srcs:
            if l.i:
                hin.append('assert(%s < %s.len() ==> %s.take(%s + 1).drop_last() =~= %s.take(%s as int));' % (l.i, S, S, l.i, S, l.i))
                hout.append('assert(%s.take(%s.len() as int) =~= %s);' % (S, S, S))
        for t in self.steps:
            if not self.stack or '{o.i}' in t: hin += self.inst(t, l, vis, muts)
        inner = set()
        for t in self.texts:
            x = self.inst(t, l, vis, muts)
            if self.stack and re.search(r'\{(i|n|S|S:[^{}]+)\}', t) and not re.search(r'\{(o2?\.[in]|[ab]0)\}', t): inner |= set(x) - set(auto)
            auto += x
        seen, u = set(), []
        for a in auto:
            if a not in seen: seen.add(a); u.append(a)
        self.loops[l.id] = (pre, u, hin, hout)
        self.inner[l.id] = set(i for i, a in enumerate(u) if a in inner)
    def inst(self, text, l, vis, muts):
        holes = []
        for h in re.findall(r'\{[^{}]*\}', text):
            if re.match(r'^\{(i|n|S|S:[^{}]+|o2?\.i|o\.n|[av]\d?:[^{}]+|a0|b0)\}$', h) and h not in holes: holes.append(h)
        opts = []
        for h in holes:
            b = h[1:-1]
            if b == 'i': o = [l.i] if l.i else []
            elif b == 'n': o = [l.n] if l.i else []
            elif b == 'S': o = [re.sub(r'([\w)])\[(\w+)\]', r'\1@[\2 as int]', s) for s, _ in l.srcs]
            elif b.startswith('S:'):
                o = []
                for sx, se in l.srcs:
                    while is_ref(se): se = se['t']
                    if self.tyname(se) == norm_ty(b[2:]): o.append(re.sub(r'([\w)])\[(\w+)\]', r'\1@[\2 as int]', sx))
            elif b in ('o.i', 'o2.i'): o = [x.i for x in self.stack if x.i]
            elif b == 'o.n': o = [x.n for x in self.stack if x.i]
            elif b in ('a0', 'b0'): o = ['@@' + b]
            else:
                k, _, t = b.partition(':')
                src = muts if k[0] == 'a' else vis
                o = [n for n, tt in src.items() if tt is not None and (is_int(tt) if t == 'int' else self.tyname(tt) == norm_ty(t))]
            opts.append(o)
        out = []
        for combo in itertools.islice(itertools.product(*opts), 200):
            d = dict(zip(holes, combo))
            if '{o2.i}' in d and d['{o2.i}'] == d.get('{o.i}'): continue
            x = text
            for h, v in d.items():
                if v.startswith('@@'):
                    a = [d[k] for k in d if k.startswith('{a:' if v == '@@a0' else '{a2:')]
                    if not a: x = None; break
                    v = '%s_L%d' % (a[0], l.id)
                x = x.replace(h, v)
            if x is not None: out.append(x)
        return out

# ---------------------------------------------------------------- unit
def all_loops(lines):
    o = []
    for l in lines:
        if isinstance(l, list): o += all_loops(l)
        elif isinstance(l, Loop): o.append(l); o += all_loops(l.body)
    return o
class UnitRun:
    def __init__(self, C, crate, unit, log=None):
        self.C, self.crate, self.U = C, crate, C.units[unit]
        self.name = unit
        self.threads = 8
        self.focus = None
        self.rlimit = 40
        self.dl = None
        self.dropped = {}           # contract key -> reason (callee gets inlined)
        self.events = []
        self.lines = []
    def find_paths(self):
        """mangled key -> (path, selfty) for the functions of the crate"""
        m = {}
        for p, f in self.crate.fns.items():
            if f.get('trait'): continue
            m[mangle(p)] = (p, None)
        for k, base in self.U['parse'].items():
            for a in self.crate.adts:
                if mangle(a) == base and 'sym::Parse::parse' in self.crate.fns and k not in m:
                    m[k] = ('sym::Parse::parse', {'k': 'adt', 'p': a, 'local': True, 'a': []})
        return m
    def prepare(self):
        self.paths = self.find_paths()
        C = self.C
        self.missing = [k for k in self.U['fns'] if k not in self.paths and not self.U['fns'][k].trusted]
        self.crate.contracted = set(k for k in C.fns if k not in self.dropped)
        self.crate.lowered = {}; self.crate.used_consts = {}; self.crate.used_adts = {}
        self.L = {}
        self.unsup = {}
        for k, F in self.U['fns'].items():
            if k in self.dropped or k not in self.paths: continue
            p, st = self.paths[k]
            f = self.crate.fns[p]
            if len(f['ins']) != len(F.params):
                self.dropped[k] = 'signature changed'; return self.prepare()
            if F.trusted:
                self.L[k] = FnLower(self.crate, p, st, k); self.L[k].run(F.params); self.L[k].unsup = None
                continue
            L = self.crate.lower_fn(p, st, F.params)
            if L.unsup: self.unsup[k] = L.unsup
            self.L[k] = L
    def ext_calls(self):
        s = []
        for k, L in self.L.items():
            for _, _, key in L.calls:
                if key not in self.U['fns'] and key not in s: s.append(key)
        return s
    def thm_ext(self):
        return [k for k in self.C.fns if k not in self.U['fns'] and any(re.search(r'\b%s\b' % k, t.text) for t in self.U['thms'])]
    def fhash(self, L, F):
        o = []
        render(L.out, 0, lambda l: ([], [], [], []), o)
        s = json.dumps([L.sig, o, F.cand, F.alt, F.step, F.pre, F.after, F.end, [c.text for c in F.req + F.ens], self.U['cand'], self.U['spec'], self.C.prelude])
        return hashlib.sha256(s.encode()).hexdigest()[:24]
    def skeleton(self, L):
        """shape of the lowered text: statements and control flow, without the expressions"""
        o = []
        render(L.out, 0, lambda l: ([], [], [], []), o)
        sk = []
        for x in o:
            t = re.sub(r"'[^']*'|\"(?:[^\"\\\\]|\\\\.)*\"", '_', x.strip())
            m = re.match(r'^(let mut|let|if|while|match|return|else|\}|\{|\w+\.push|\w+\.push_str|\w+ =)', t)
            c = re.findall(r'\b(\w+)\(', t)
            sk.append((m.group(1) if m else '') + '|' + ','.join(y for y in c if y in self.C.fns))
        return sk
    def emit(self, s, tag=None):
        for x in s.split('\n'):
            self.lines.append(x); self.tags.append(tag)
    def build(self, sel, canary=False):
        """render the Verus file; sel: {(fn, loop id): set of dropped candidates}"""
        C, U = self.C, self.U
        self.lines, self.tags = [], []
        e = self.emit
        e('use vstd::prelude::*;\nuse vstd::slice::*;\nverus! {')
        # while invariants are being settled only the functions in focus are checked; the last run checks everything
        focus = self.focus
        lem = r'#[verifier::spinoff_prover] pub \1proof fn' if focus is None else r'#[verifier::external_body] pub \1proof fn'
        lemre = r'(?m)^(?:#\[verifier::external_body\]\s*)?pub (broadcast )?proof fn' if focus is not None else r'(?m)^pub (broadcast )?proof fn'
        e(re.sub(lemre, lem, C.prelude))
        spec_units = []
        def addu(n):
            if n in spec_units: return
            for m in C.units[n]['uses']: addu(m)
            spec_units.append(n)
        addu(self.name)
        for u in spec_units: e(re.sub(lemre, lem, C.units[u]['spec']), ('spec', u))
        ext = []
        for k in self.ext_calls() + [x for x in self.thm_ext()]:
            if k not in ext: ext.append(k)
        exttxt = []
        for k in ext:
            F = C.fns[k]
            p = self.paths.get(k)
            L = FnLower(self.crate, p[0], p[1], k); L.run(F.params)
            exttxt.append(self.header(L, F, 'external') + ['{ unimplemented!() }'])
        for c in self.crate.used_consts.values(): e(c)
        words = set(w for u in spec_units for w in re.findall(r'\b[a-z]\w*_[A-Z]\w*\b', C.units[u]['spec']))
        for a in self.crate.adts:
            if mangle(a) in words: self.crate.use_adt(a)
        done = set()
        while True:
            todo = [p for p in self.crate.used_adts if p not in done]
            if not todo: break
            for p in todo: e(self.crate.adt_text(p)); done.add(p)
        if 'error::Error' in self.crate.adts and 'error::Error' not in done:
            self.crate.use_adt('error::Error'); e(self.crate.adt_text('error::Error'))
        for t in exttxt: e('\n'.join(t), ('ext',))
        self.ranges = {}
        for k, L in self.L.items():
            F = U['fns'][k]
            a = len(self.lines) + 1
            if F.trusted or k in self.unsup:
                e('\n'.join(self.header(L, F, 'external') + ['{ unimplemented!() }']), ('fn', k, 'stub'))
                self.ranges[k] = (a, len(self.lines)); continue
            for x in F.attr: e('#[verifier::%s]' % x)
            e('#[verifier::spinoff_prover]' if focus is None or k in focus else '#[verifier::external_body]')
            e('#[verifier::loop_isolation(false)]')
            if any(not l.dec for l in all_loops(L.out)): e('#[verifier::exec_allows_no_decreases_clause]')
            for x in self.header(L, F, None): 
                m = re.search(r' // (req|ens) (\d+)$', x)
                e(x, ('fn', k, m.group(1), int(m.group(2))) if m else ('fn', k, 'sig'))
            e('{', ('fn', k, 'body'))
            e('    broadcast use lemma_flat_push;', ('fn', k, 'body'))
            plain = []
            render(L.out, 0, lambda l: ([], [], [], []), plain)
            plain = '\n'.join(plain)
            for s in sorted(set(L.strlits)):
                if str_lit(s) in plain: e('    proof { reveal_strlit(%s); }' % str_lit(s), ('fn', k, 'body'))
            hd = sel.get((k, 'hint'), set())
            for i, x in enumerate(F.pre):
                if i not in hd: e('    ' + x, ('fn', k, 'hint', i))
            if canary: e('    if vp_any() { proof { assert(false); } }', ('fn', k, 'canary', 'entry'))
            cd = self.cands[k]
            o = []
            def invf(l):
                pre, cs, hin, hout = cd.loops[l.id]
                dr = sel.get((k, l.id), set())
                return pre, [('C%d/%d' % (l.id, i), c) for i, c in enumerate(cs) if i not in dr], (['if vp_any() { proof { assert(false); } } // canary L%d' % l.id] if canary else []) + ['proof { %s }' % h for h in hin], ['proof { %s }' % h for h in hout]
            body = list(L.out)
            tail = None
            if F.end and body and isinstance(body[-1], str) and not body[-1].startswith(('}', 'return')):
                if isinstance(F.end[0], str) and F.end[0]:
                    tail = body.pop()
            render(body, 1, invf, o)
            nh = len(F.pre) + len(F.end)
            if canary and o and isinstance(L.out[-1], str) and not L.out[-1].startswith(('}', 'return', 'vp_panic')): o.insert(len(o) - (0 if tail is not None else 1), '    if vp_any() { proof { assert(false); } } // canary end')
            for x in o:
                m = re.search(r' // canary (\w+)$', x)
                if m: e(x, ('fn', k, 'canary', m.group(1))); continue
                m = re.search(r' // C(\d+)/(\d+)$', x)
                e(x, ('fn', k, 'inv', int(m.group(1)), int(m.group(2))) if m else ('fn', k, 'body'))
                if m: continue
                for rx, tx in F.after:
                    m = re.search(rx, x.strip())
                    if m:
                        nh += 1
                        if nh not in hd: e('    proof { ' + re.sub(r'\$(\d)', lambda g: m.group(int(g.group(1))), tx) + ' }', ('fn', k, 'hint', nh))
            if tail is not None:
                for i, x in enumerate(F.end):
                    if len(F.pre) + i not in hd: e('    ' + x.replace('$r', tail), ('fn', k, 'hint', len(F.pre) + i))
                e('    ' + tail, ('fn', k, 'body'))
            e('}', ('fn', k, 'body'))
            self.ranges[k] = (a, len(self.lines))
        for t in U['thms'] if focus is None else []:
            a = len(self.lines) + 1
            e(t.text, ('thm', t.name))
            self.ranges['thm ' + t.name] = (a, len(self.lines))
        e('fn main() {}\n} // verus!')
        return '\n'.join(self.lines)
    def header(self, L, F, ext):
        o = []
        if ext: o.append('#[verifier::external_body]')
        o.append('pub fn %s -> (%s: %s)' % (L.sig, F.ret, L.ret_txt))
        if F.req:
            o.append('    requires')
            for i, c in enumerate(F.req): o.append('        ' + c.text.replace('\n', ' ') + ', // req %d' % i)
        if F.ens:
            o.append('    ensures')
            for i, c in enumerate(F.ens): o.append('        ' + c.text.replace('\n', ' ') + ', // ens %d' % i)
        return o
    def verus(self, text, path, extra=()):
        if os.environ.get('VFN'): extra = tuple(extra) + ('--verify-root', '--verify-function', os.environ['VFN'])
        # every function in a solver of its own: one obligation cannot disturb another
        open(path, 'w').write(re.sub(r'(?m)^(?=(?:pub )?(?:broadcast )?(?:proof )?fn )', '#[verifier::spinoff_prover] ', text))
        t = time.time()
        cmd = ['verus', path, '--error-format=json', '--multiple-errors', '50', '--rlimit', str(self.rlimit), '--num-threads', str(self.threads), '--time', '--output-json'] + list(extra)
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
        while True:
            try: p.stdout_, p.stderr_ = p.communicate(timeout=1); break
            except subprocess.TimeoutExpired: pass
            # the deadline may be moved forward while the solver runs
            if time.time() - t < (400 if self.dl is None else max(20, min(400, self.dl() + 60 - t))): continue
            os.killpg(p.pid, signal.SIGKILL); p.communicate()
            return {'ok': False, 'timeout': True, 'diags': [], 'verified': 0, 'errors': 1, 'time': time.time() - t, 'smt': 0}
        diags = []
        for l in p.stderr_.split('\n'):
            if l.startswith('{'):
                try: d = json.loads(l)
                except ValueError: continue
                if d.get('level') == 'error': diags.append(d)
        r = {'ok': p.returncode == 0, 'diags': diags, 'time': time.time() - t, 'stderr': p.stderr_, 'timeout': False, 'verified': 0, 'errors': 0, 'smt': 0}
        try:
            j = json.loads(p.stdout_)
            r['verified'] = j['verification-results'].get('verified', 0); r['errors'] = j['verification-results'].get('errors', 0)
            r['smt'] = (j.get('times-ms', {}).get('smt', {}) or {}).get('smt-run', 0)
            r['vir_ok'] = not j['verification-results'].get('encountered-vir-error', False)
        except (ValueError, KeyError): pass
        return r
    def diag_tags(self, d):
        ls = []
        for s in d.get('spans', []):
            for n in range(s['line_start'], s['line_end'] + 1):
                if 0 < n <= len(self.tags) and self.tags[n - 1] is not None: ls.append((s.get('is_primary'), s.get('label'), self.tags[n - 1], n))
        return ls
    def run(self, work, cache=None, maxit=14, deadline=None):
        """returns a result dict"""
        t0 = time.time()
        self.dl = deadline
        self.prepare()
        self.cands = {}
        sel = {}
        self.hash = {}
        self.altn = {}
        narrow = set()              # functions whose inner loops do without the candidates that ignore the outer loop
        for k, L in self.L.items():
            F = self.U['fns'][k]
            if F.trusted or k in self.unsup: continue
            self.hash[k] = self.fhash(L, F)
            keep = (cache or {}).get(self.hash[k])
            self.altn[k] = keep.get('alt', 0) if keep else 0
            self.reset(k, sel, not keep)
            if not keep: narrow.add(k)
            if keep:
                for lid, v in self.cands[k].loops.items():
                    kp = set(keep.get(str(lid), []))
                    sel[(k, lid)] = set(i for i in range(len(v[1])) if i not in kp)
                sel[(k, 'hint')] = set(keep.get('hint', []))
        it = 0
        smt = 0
        path = os.path.join(work, self.name + '.rs')
        only = ()
        round_ = 0
        self.rlimit = 12
        # functions without settled invariants come first, by themselves
        todo = set(k for k in narrow)
        self.focus = todo if todo and len(todo) < len(self.hash) else None
        while True:
            it += 1; round_ += 1
            text = self.build(sel)
            r = self.verus(text, path, only)
            smt += r['smt']
            drop = []
            fails = []
            for d in r['diags']:
                tg = self.diag_tags(d)
                msg = d['message']
                if msg.startswith('aborting due to'): continue
                inv = [t for _, _, t, _ in tg if t[0] == 'fn' and t[2] == 'inv']
                if inv and ('invariant not satisfied' in msg or 'code' in d and d.get('code') or not self.verif_msg(msg)):
                    # with a type error only the primary span counts
                    drop += [(t[1], t[3], t[4]) for t in inv]
                    continue
                hint = [t for p, _, t, _ in tg if p and t[0] == 'fn' and t[2] == 'hint']
                if hint and os.environ.get('VDBG'): print('drop hint', msg, tg)
                if hint: drop += [(t[1], 'hint', t[3]) for t in hint]
                else: fails.append((msg, tg, d))
            if os.environ.get('VDBG'): print('iter', it, 'time %.1f' % r['time'], 'smt', r['smt'], 'drop', [(k, l, i, self.cands[k].loops[l][1][i] if l != 'hint' else '') for k, l, i in drop], 'fails', [x[0] for x in fails])
            late = deadline is not None and time.time() > deadline()
            # the solver ran out of its budget
            if any('rlimit' in f[0] for f in fails) and self.rlimit < 40 and not late and not drop:
                self.rlimit = 40
                continue
            done = lambda: set(k for k, _, _ in drop) | set(t[1] for f in fails for _, _, t, _ in f[1] if t[0] == 'fn' and t[2] != 'req')
            if drop and round_ < maxit and not late:
                for k, lid, i in drop: sel.setdefault((k, lid), set()).add(i)
                self.focus = done()
                continue
            # a function that failed with one alternative set of invariants gets the next one
            bad = set()
            for msg, tg, d in fails:
                bad |= set(t[1] for _, _, t, _ in tg if t[0] == 'fn' and not (t[2] == 'req' and 'precondition' in msg))
            nxt = [k for k in bad if k in self.altn and self.altn[k] + 1 < len(self.U['fns'][k].alt)]
            wide = [k for k in bad if k in narrow and k not in nxt and any(self.cands[k].inner.values())]
            if (wide or nxt) and not late:
                for k in nxt: self.altn[k] += 1
                for k in wide: self.altn[k] = 0; narrow.discard(k)
                for k in nxt + wide: self.reset(k, sel, k in narrow)
                round_ = 0
                self.focus = set(nxt) | set(wide)
                continue
            if self.focus is not None and not late:
                self.focus = None; round_ = 0
                continue
            if drop: fails += [('loop invariants not settled in the time given', [(True, None, ('fn', k, 'inv'), 0)], {}) for k in sorted(set(k for k, _, _ in drop))]
            break
        self.sel = sel
        self.result = r
        # map failures
        failed = {}
        for msg, tg, d in fails:
            fn = owner = None
            det = []
            for prim, lab, t, n in tg:
                if t[0] == 'fn':
                    F = self.U['fns'].get(t[1])
                    if t[2] == 'ens' and 'postcondition' in msg: fn = t[1]; owner = F.ens[t[3]].owner; det = ['%s/ens.%s' % (t[1], F.ens[t[3]].tag), F.ens[t[3]].text]
                    if prim and fn is None: fn = t[1]
                elif t[0] == 'thm' and fn is None: fn = 'thm ' + t[1]; owner = [x.owner for x in self.U['thms'] if x.name == t[1]][0]; det = ['theorem ' + t[1]]
            if fn is None and tg: fn = tg[0][2][1] if len(tg[0][2]) > 1 else None
            failed.setdefault(fn, []).append({'msg': msg, 'owner': owner, 'det': det, 'text': (d.get('rendered') or '')[:1500], 'static': not self.verif_msg(msg)})
        if r['timeout']: failed.setdefault(None, []).append({'msg': 'verifier time limit', 'owner': None, 'det': [], 'text': '', 'static': False})
        if not r['ok'] and not failed: failed.setdefault(None, []).append({'msg': 'verifier gave no verdict: ' + r['stderr'][-800:], 'owner': None, 'det': [], 'text': '', 'static': True})
        return {'unit': self.name, 'failed': failed, 'unsup': dict(self.unsup), 'missing': self.missing, 'dropped': dict(self.dropped), 'verified': r['verified'], 'iters': it,
                'time': time.time() - t0, 'smt_ms': smt, 'keep': {self.hash[k]: {str(lid): [i for i in range(len(v[1])) if i not in sel.get((k, lid), set())] for lid, v in self.cands[k].loops.items()} | {'hint': sorted(sel.get((k, 'hint'), set())), 'alt': self.altn[k]} for k in self.cands}}
    def vacuity(self, work):
        """assert(false) at the start and the end of every function and in every loop must not verify: (how many, those that do)"""
        self.focus = None
        path = os.path.join(work, self.name + '_canary.rs')
        text = self.build(self.sel, canary=True)
        r = self.verus(text, path)
        hit = set()
        for d in r['diags']:
            for p, _, t, n in self.diag_tags(d):
                if t[0] == 'fn' and t[2] == 'canary' and 'assertion failed' in d['message']: hit.add(n)
                elif t[0] == 'fn' and ('rlimit' in d['message'] or 'Resource' in d['message']): hit |= set(i + 1 for i, x in enumerate(self.tags) if x and x[0] == 'fn' and x[1] == t[1] and x[2] == 'canary')
        al = [(i + 1, t) for i, t in enumerate(self.tags) if t and t[0] == 'fn' and t[2] == 'canary']
        if r['timeout']: return 0, []
        return len(al), ['%s %s' % (t[1], t[3]) for n, t in al if n not in hit]
    def reset(self, k, sel, narrow=False):
        for x in [x for x in sel if x[0] == k]: del sel[x]
        self.mkcands(k)
        if narrow:
            for lid, ix in self.cands[k].inner.items(): sel[(k, lid)] = set(ix)
    def mkcands(self, k):
        F = self.U['fns'][k]
        alts = list(F.alt.values())
        # the loops of a function that is gone or gets inlined turn up in its callers
        gone = [c for g in list(self.dropped) + self.missing if g in self.U['fns'] for c in self.U['fns'][g].cand]
        self.cands[k] = Cands(self.crate, self.L[k], F.cand + [c for c in gone if c not in F.cand] + (alts[self.altn[k]] if alts else []) + self.U['cand'], F.step)
    def verif_msg(self, msg):
        return any(x in msg for x in ('not satisfied', 'assertion failed', 'possible arithmetic', 'possible division', 'recommendation', 'rlimit', 'Resource limit', 'could not prove', 'precondition', 'postcondition', 'decreases', 'possible', 'termination', 'unreachable', 'loop must'))

if __name__ == '__main__':
    hir = json.load(open(sys.argv[1]))
    C = Contracts().adapt(hir)
    work = '/tmp/t/vwork'; os.makedirs(work, exist_ok=True)
    for u in (sys.argv[2:] or C.units):
        R = UnitRun(C, Crate(hir, set()), u)
        r = R.run(work)
        print(u, 'verified', r['verified'], 'iters', r['iters'], 'time %.1f' % r['time'], 'unsup', r['unsup'], 'missing', r['missing'], 'dropped', r['dropped'])
        if os.environ.get('CANARY'): print(R.vacuity(work))
        for fn, fs in r['failed'].items():
            for f in fs: print('  FAIL', fn, f['msg'], f['owner'], f['det']); print('     ', f['text'])
