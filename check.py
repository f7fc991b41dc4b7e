#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]   decides one property of /repo's current source.
check.py --baseline                            rewrites contracts/cache.json and contracts/baseline.json

1. tool/hirdump dumps the type-checked HIR of /repo/src; tool/lower.py turns every function into Verus text.
2. tool/verify.py adds the contracts of /verif/contracts and asks Verus to discharge every obligation.
3. harness/ executes the real crate, replays trusted contracts and looks for a failing input.
Exit 0: held.  Exit 1 with a VIOLATION line: broken.  See DESIGN.md for the exact verdict rules."""
import concurrent.futures as cf, copy, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tool'))
sys.dont_write_bytecode = True
import verify, gen_tables, xlat
from lower import Crate
REPO = '/repo'
sys.setrecursionlimit(20000)

SYM = ['ean13', 'ean8', 'upca', 'ean_supp', 'code39', 'code93', 'code11', 'codabar', 'tf', 'code128']
UNITS = {'C01': ['ean13'], 'C02': ['ean8'], 'C03': ['upca'], 'C04': ['ean_supp'], 'C05': ['code39'], 'C06': ['code93'], 'C07': ['code11'], 'C08': ['codabar'], 'C09': ['tf'], 'C10': ['tf'],
         'C11': ['code128'], 'C12': ['code128'], 'C13': SYM[:9], 'C14': ['ean13', 'ean8', 'upca'], 'C15': SYM, 'C16': SYM, 'C17': ['ascii'], 'C18': ['json'], 'C19': ['svg'], 'C20': ['image'], 'C21': ['image']}
SHARED = ['helpers']
ENTRY = re.compile(r'_(new|encode|generate|generate_buffer|with_checksum|interleaved|standard)$|^svg_SVG_|^svg_Color_(new|black|white)$|^image_(Image|Color)_(gif|png|webp|image_buffer|new|black|white)$')
WHOLE = ('C15',)             # every obligation of the units belongs to the property
SEARCH = {'quick': (4.0, 150.0), 'thorough': (60.0, 300.0)}

def log(*a): print('[check %6.1f]' % (time.time() - T0), *a, flush=True)
T0 = time.time()

def sh(cmd, **kw): return subprocess.run(cmd, capture_output=True, text=True, **kw)

# ---------------------------------------------------------------- building
def env(**kw):
    e = dict(os.environ)
    for k in ('CARGO_TARGET_DIR', 'RUSTFLAGS', 'RUSTC_WRAPPER'): e.pop(k, None)
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
    e.setdefault('HOME', '/root')
    e['CARGO_NET_OFFLINE'] = 'true'
    e.update(kw)
    return e
os.environ['PATH'] = env()['PATH']

def dump(work, image):
    """HIR of /repo as JSON; with image, cargo compiles the image crate and hirdump stands in for rustc on barcoders"""
    sr = sh(['rustup', 'run', 'nightly', 'rustc', '--print', 'sysroot'], env=env()).stdout.strip()
    exe = os.path.join(work, 'hirdump')
    p = sh(['rustup', 'run', 'nightly', 'rustc', '-C', 'opt-level=0', os.path.join(HERE, 'tool', 'hirdump.rs'), '-o', exe], env=env())
    if p.returncode: raise Exception('hirdump does not build: ' + p.stderr[-2000:])
    out = os.path.join(work, 'hir.json')
    if image:
        wrap = os.path.join(work, 'wrap.sh')
        with open(wrap, 'w') as o: o.write('#!/bin/sh\nfor a in "$@"; do if [ "$p" = "--crate-name" ] && [ "$a" = "barcoders" ]; then exec env LD_LIBRARY_PATH="$HIR_LIB" "$HIR_EXE" "$@"; fi; p="$a"; done\nexec "$@"\n')
        os.chmod(wrap, 0o755)
        src = os.path.join(work, 'hirharness')
        shutil.copytree(os.path.join(HERE, 'harness'), src, ignore=shutil.ignore_patterns('target'))
        p = sh(['cargo', 'check', '--offline', '--quiet', '--features', 'img'], cwd=src, env=env(CARGO_TARGET_DIR=os.path.join(work, 'hirtarget'), RUSTUP_TOOLCHAIN='nightly', RUSTC_WRAPPER=wrap, HIR_LIB=sr + '/lib', HIR_EXE=exe, HIRDUMP_OUT=out))
    else:
        cmd = [exe, 'rustc', 'src/lib.rs', '--crate-name', 'barcoders', '--crate-type', 'lib', '--edition', '2021', '--emit', 'metadata', '-o', os.path.join(work, 'x.rmeta'), '--sysroot', sr]
        for f in ['std', 'ascii', 'json', 'svg']: cmd += ['--cfg', 'feature="%s"' % f]
        p = sh(cmd, cwd=REPO, env=env(LD_LIBRARY_PATH=sr + '/lib', HIRDUMP_OUT=out))
    if not os.path.exists(out): raise Exception('no HIR: ' + p.stderr[-2000:])
    return json.load(open(out))

def build_harness(work, image):
    src = os.path.join(work, 'harness')
    shutil.copytree(os.path.join(HERE, 'harness'), src, ignore=shutil.ignore_patterns('target'))
    cmd = ['cargo', 'build', '--release', '--offline', '--quiet'] + (['--features', 'img'] if image else [])
    p = sh(cmd, cwd=src, env=env(CARGO_TARGET_DIR=os.path.join(work, 'target'), RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu'))
    exe = os.path.join(work, 'target', 'release', 'harness')
    if p.returncode or not os.path.exists(exe): raise Exception('harness does not build: ' + p.stderr[-3000:])
    return exe

def literals(path):
    """literals of the non-test source: material for the input search"""
    words, chars, nums = set(), set(), set()
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in fs:
            if not f.endswith('.rs'): continue
            s = open(os.path.join(d, f), encoding='utf-8', errors='replace').read().split('#[cfg(test)]')[0]
            s = re.sub(r'(?m)^\s*//.*$', '', s)
            for m in re.finditer(r"'(\\u\{[0-9a-fA-F_]+\}|\\.|[^'\\\n])'|b?\"((?:\\.|[^\"\\])*)\"|\b(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)(?:[iu](?:8|16|32|64|128|size))?\b", s):
                c, w, n = m.groups()
                un = lambda x: re.sub(r'\\u\{([0-9a-fA-F_]+)\}', lambda g: chr(int(g.group(1).replace('_', ''), 16)), x).replace('\\n', '\n').replace('\\t', '\t').replace('\\r', '\r').replace('\\0', '\0').replace('\\"', '"').replace("\\'", "'").replace('\\\\', '\\')
                try:
                    if c: x = un(c); chars.add(ord(x))
                    elif w is not None:
                        x = un(w)
                        if '\n' not in x and len(x) <= 300: words.add(x)
                    elif n: nums.add(int(n.replace('_', ''), 0) if not re.match(r'^0\d', n) else int(n.replace('_', '')))
                except (ValueError, TypeError): pass
    with open(path, 'w', encoding='utf-8', errors='replace') as o:
        for x in sorted(words): o.write('W %s\n' % x)
        for x in sorted(chars): o.write('C %d\n' % x)
        for x in sorted(nums): o.write('N %d\n' % x)

class Search:
    """runs of the harness"""
    def stop(s):
        s.stopped = True
        if s.proc is not None and s.proc.poll() is None: s.proc.kill()
    def __init__(s, exe, prop, known, work, seed):
        s.exe, s.prop, s.known, s.seed, s.work = exe, prop, known, seed, work
        s.dict = os.path.join(work, 'dict'); literals(s.dict)
        s.ce = None; s.evals = s.nontriv = 0; s.samples = []; s.complete = False; s.note = ''; s.secs = 0
        s.guided = s.gnontriv = 0; s.proc = None; s.stopped = False
    def parse(s, out):
        ce = show = None; msg = []
        for l in out.split('\n'):
            if l.startswith('CE ') and ce is None: ce = l[3:]
            elif l.startswith('SHOW '): show = (show + '\n' if show else '') + l[5:]
            elif l.startswith('MSG '): msg.append(l[4:])
            elif l.startswith('EVALS '): s.evals += int(l.split()[1]); s.nontriv += int(l.split()[2])
            elif l.startswith('DONE '): w = l.split(); s.evals += int(w[1]); s.nontriv += int(w[2]); s.complete = s.complete or w[3] == 'true'
            elif l.startswith('SAMPLE '): s.samples.append(l[7:])
        if ce: s.ce = {'case': ce, 'input': show, 'observed': '\n'.join(msg)}
    def run(s, secs, deep=False, threads=8):
        if s.ce: return
        t = time.time()
        cmd = [s.exe, '--prop', s.prop, '--secs', str(secs), '--seed', str(s.seed), '--threads', str(threads), '--known', ','.join(s.known) or 'none', '--dict', s.dict] + (['--deep'] if deep else [])
        p = s.proc = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        try: p.stdout_text = p.communicate(timeout=secs + 260)[0]
        except subprocess.TimeoutExpired as x:
            p.kill(); p.communicate()
            s.note = 'search did not end in time'; s.secs += time.time() - t
            return
        if s.stopped: s.secs += time.time() - t; return
        s.parse(p.stdout_text)
        s.secs += time.time() - t
        if p.returncode not in (0, 3):
            # the process died (stack overflow, abort): find the input with a single traced thread
            try: q = subprocess.run(cmd + ['--threads', '1', '--trace'] if False else [c if c != str(threads) else '1' for c in cmd] + ['--trace'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=secs * 8 + 120)
            except subprocess.TimeoutExpired: s.note = 'harness died (%s), not reproduced' % p.returncode; return
            s.parse(q.stdout)
            if not s.ce and q.returncode not in (0, 3):
                last = [l for l in q.stderr.split('\n') if re.match(r'^(sym|pair|huge|ascii|json|svg|img) ', l)]
                if last: s.ce = {'case': last[-1], 'input': last[-1], 'observed': 'the process dies (status %d: stack overflow or abort)' % q.returncode}
            if not s.ce: s.note = 'harness died (%s), not reproduced' % p.returncode

COV = '-Copt-level=1 -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-compares'
def build_guided(work, image):
    """the harness with the crate under test (and the crate that instantiates its generics) instrumented; None when that does not build"""
    wrap = os.path.join(work, 'cov.sh')
    with open(wrap, 'w') as o: o.write('#!/bin/sh\nfor a in "$@"; do if [ "$p" = "--crate-name" ] && { [ "$a" = "barcoders" ] || [ "$a" = "face" ]; }; then exec "$@" %s; fi; p="$a"; done\nexec "$@"\n' % COV)
    os.chmod(wrap, 0o755)
    src = os.path.join(work, 'gharness')
    shutil.copytree(os.path.join(HERE, 'harness'), src, ignore=shutil.ignore_patterns('target'))
    p = sh(['cargo', 'build', '--release', '--offline', '--quiet', '--features', 'guided,img' if image else 'guided'], cwd=src, env=env(CARGO_TARGET_DIR=os.path.join(work, 'gtarget'), RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', RUSTC_WRAPPER=wrap))
    exe = os.path.join(work, 'gtarget', 'release', 'harness')
    return exe if p.returncode == 0 and os.path.exists(exe) else None

def hunt(S, secs, work, image):
    """the deep search: half of the cores on the systematic and random search, half on the guided one; the first failing input ends both"""
    t = time.time()
    exe = build_guided(work, image)
    if exe is None: log('the instrumented harness does not build'); S.run(secs, deep=True); return
    outs = [os.path.join(work, 'guided.%d' % k) for k in range(4)]
    ps = [subprocess.Popen([exe, '--prop', S.prop, '--secs', str(secs), '--seed', str(S.seed * 100 + k), '--known', ','.join(S.known) or 'none', '--dict', S.dict], stdout=open(o, 'w'), stderr=subprocess.DEVNULL) for k, o in enumerate(outs)]
    T = threading.Thread(target=lambda: S.run(secs, deep=True, threads=4)); T.start()
    while True:
        T.join(0.5)
        run = [p for p in ps if p.poll() is None]
        if not run and not T.is_alive(): break
        if S.ce or any(p.returncode == 3 for p in ps) or time.time() > t + secs + 60: break
    for p in ps:
        if p.poll() is None: p.kill()
        p.wait()
    for k, o in enumerate(outs):
        G = Search.__new__(Search); G.ce = None; G.evals = G.nontriv = 0; G.samples = []; G.complete = True
        G.parse(open(o, errors='replace').read())
        S.guided += G.evals; S.gnontriv += G.nontriv
        if G.ce and not S.ce: S.ce = G.ce
    if S.ce: S.stop()
    T.join()

class Translation:
    """the lowered text compiled as ordinary Rust and executed next to the real crate"""
    def __init__(s): s.n = 0; s.entries = []; s.fns = 0; s.bad = None; s.note = 'not run'
    def run(s, work, hir, C, prop, secs, dic):
        try:
            C = copy.copy(C); C.units = dict(C.units)
            text, s.entries, ok = xlat.module(C, Crate(hir, set()), xlat.ALL)
            s.fns = len(ok)
            src = os.path.join(work, 'xharness')
            shutil.copytree(os.path.join(HERE, 'harness'), src, ignore=shutil.ignore_patterns('target'))
            with open(os.path.join(src, 'src', 'lowered.rs'), 'w') as o: o.write(text)
            tgt = os.path.join(work, 'xtarget')
            p = sh(['cargo', 'build', '--release', '--offline', '--quiet', '--features', 'xlat'], cwd=src, env=env(CARGO_TARGET_DIR=tgt, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu'))
            exe = os.path.join(tgt, 'release', 'harness')
            if p.returncode or not os.path.exists(exe): s.note = 'the translated text does not build as ordinary Rust: ' + p.stderr[-600:]; return
            p = sh([exe, '--prop', 'C15' if prop == 'C16' else prop, '--secs', str(secs), '--threads', '3', '--known', 'none', '--dict', dic], timeout=secs + 200)
            m = re.search(r'(?m)^DONE (\d+)', p.stdout)
            if m: s.n = int(m.group(1)); s.note = 'agrees with the real code'
            elif p.stdout.startswith('CE '): s.bad = p.stdout[:1500]; s.note = 'differs from the real code: ' + s.bad
            else: s.note = 'no result (status %d)' % p.returncode
        except Exception as x: s.note = 'failed: %r' % (x,)

# ---------------------------------------------------------------- proving
def contracts(known):
    C = verify.Contracts()
    k = {c[4:]: gen_tables.KNOWN['cbar'][c[4:]] for c in known if c.startswith('cbar')}
    C.load('tab_cbar', gen_tables.text('cbar', k))
    try: C.load('inj_cbar', gen_tables.inj('cbar', k))
    except IndexError: pass         # two characters share a pattern: the lemmas stay as they are and fail
    if 'c128del' not in known: C.units['code128']['spec'] = C.units['code128']['spec'].replace("c == '\\u{F7}'", "c == '\\u{7F}'")
    return C

def unit_names(prop, C): return [u for u in SHARED + UNITS[prop] if u in C.units] + [u for u in C.units if u.startswith('lem_') and (prop.lower() in u.split('_')[1:])]

class Proof:
    def __init__(s, prop, hir, C, work, cache, base, threads, deadline):
        s.prop, s.hir, s.C, s.work, s.cache, s.base, s.threads, s.deadline = prop, hir, C, work, cache, base, threads, deadline
        s.res = {}
        s.tier = 'quick'
    def unit(s, u, only_first=False):
        dropped = {}
        rounds = []
        same = True
        for rd in range(4):
            R = verify.UnitRun(s.C, Crate(s.hir, set()), u)
            R.threads = s.threads
            R.dropped = dict(dropped)
            w = os.path.join(s.work, u); os.makedirs(w, exist_ok=True)
            r = R.run(w, cache=s.cache.get(u), deadline=s.deadline)
            r['calls'] = {k: sorted(set(c[2] for c in L.calls)) for k, L in R.L.items()}
            r['fns'] = sorted(R.L)
            r['trusted'] = [k for k, F in R.U['fns'].items() if F.trusted]
            r['skel'] = {k: R.skeleton(L) for k, L in R.L.items()}
            r['text'] = os.path.join(w, u + '.rs')
            r['changed'] = changed = [k for k in r['skel'] if s.base.get(k) != r['skel'][k]] + [k for k in r['missing']]
            if rd == 0:
                r['same'] = not changed and not r['unsup'] and not r['missing'] and not r['dropped']
                first = r
            rounds.append(r)
            bad = [k for k in list(r['failed']) + list(r['unsup']) if k in R.U['fns'] and not ENTRY.search(k) and not R.U['fns'][k].trusted]
            glob = [k for k in r['failed'] if k not in R.U['fns']]
            if not r['failed'] and not r['unsup']:
                if s.tier == 'thorough' and R.L: r['canary'] = R.vacuity(w)
                break
            if time.time() > s.deadline() - 20 or only_first: break
            if glob and not bad:
                # text Verus rejects as a whole: blame what was lowered differently from the baseline
                bad = [k for k in changed if k in R.L and not ENTRY.search(k)]
            if not bad: break
            for k in bad: dropped[k] = 'its contract is not met; inlined into its callers'
        # the verdict comes from the last round, unless it is worse than the first
        best = rounds[-1] if not rounds[-1]['failed'] and not rounds[-1]['unsup'] else first
        best = dict(best)
        best['same'] = first['same']; best['rounds'] = len(rounds); best['first_failed'] = first['failed']; best['first_changed'] = first['changed']
        best['time'] = sum(r['time'] for r in rounds); best['smt_ms'] = sum(r['smt_ms'] for r in rounds)
        s.res[u] = best
        return best
    def verdict(s):
        """obligations of the property: (owned failures, failures it depends on, reasons it is out of reach)"""
        own, dep, out = [], [], []
        calls, where = {}, {}
        for u, r in s.res.items():
            for k in r['fns']: where[k] = u; calls.setdefault(k, r['calls'].get(k, []))
        owners = lambda F: set(c.owner for c in F.ens)
        roots = [k for k, F in s.C.fns.items() if k in where and (s.prop in owners(F) or s.prop in WHOLE)]
        if s.prop == 'C16': roots = [k for k in where if ENTRY.search(k)]
        rel, todo = set(), list(roots)
        while todo:
            k = todo.pop()
            if k in rel: continue
            rel.add(k); todo += [c for c in calls.get(k, []) if c in where]
        for u, r in s.res.items():
            for k in r['missing']:
                F = s.C.fns[k]
                if ENTRY.search(k) and (s.prop in owners(F) or s.prop in WHOLE): out.append((u, k, 'entry point not found'))
            for k, why in r['unsup'].items():
                if k in rel: out.append((u, k, 'not translated: %s' % (why,)))
            for fn, fs in r['failed'].items():
                for f in fs:
                    thm = isinstance(fn, str) and fn.startswith('thm ')
                    if fn is None or (not thm and fn not in s.C.fns): out.append((u, fn, f['msg'])); continue
                    if f['static']: out.append((u, fn, 'Verus rejects the text: ' + f['msg'])); continue
                    if thm: (own if f['owner'] == s.prop else dep).append((u, fn, f)); continue
                    if fn not in rel: continue
                    if s.prop in WHOLE: mine = f['owner'] is None
                    elif f['owner'] is not None: mine = f['owner'] == s.prop or u in SHARED
                    else: mine = s.prop in owners(s.C.fns[fn]) or u in SHARED
                    (own if mine else dep).append((u, fn, f))
        s.rel = rel
        return own, dep, out

def known_findings():
    o = []
    for l in open(os.path.join(HERE, 'known-findings.txt')):
        m = re.match(r'^KNOWN-FINDING: property=(C\d\d) id=(\S+) (.*)$', l.strip())
        if m: o.append(m.groups())
    return o

def obl_count(r): return r['verified'] + sum(len(v) for v in r['failed'].values())

def main():
    prop = sys.argv[1]
    tier = sys.argv[sys.argv.index('--tier') + 1] if '--tier' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    if tier not in SEARCH: tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    image = prop in ('C20', 'C21')
    work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    ev_dir = os.path.join(HERE, 'evidence'); os.makedirs(ev_dir, exist_ok=True)
    try: return decide(prop, tier, seed, image, work, ev_dir)
    finally: shutil.rmtree(work, ignore_errors=True)

def decide(prop, tier, seed, image, work, ev_dir):
    quick, deep = SEARCH[tier]
    limit = T0 + (600 if tier == 'quick' else 2400)
    with cf.ThreadPoolExecutor(3) as ex:
        fh, fd = ex.submit(build_harness, work, image), ex.submit(dump, work, image)
        try: exe = fh.result()
        except Exception as x: log(str(x)); exe = None
        try: hir = fd.result()
        except Exception as x: log(str(x)); hir = None
    if exe is None:
        # the public interface the harness uses does not compile: nothing can be said
        print('the crate or the harness does not build; no verdict', flush=True); return 2
    probe = [l.split()[1] for l in sh([exe, '--probe'], timeout=60).stdout.split('\n') if l.startswith('KNOWN ')]
    recorded = known_findings()
    known = [k for k in probe if any(k == r[1] for r in recorded)]
    S = Search(exe, prop, known, work, seed)
    log('built; recorded findings present:', ','.join(known) or 'none')
    P = None
    X = Translation()
    units = []
    if hir is not None:
        C = contracts(known).adapt(hir)
        units = unit_names(prop, C)
        cache = json.load(open(os.path.join(HERE, 'contracts', 'cache.json'))) if os.path.exists(os.path.join(HERE, 'contracts', 'cache.json')) else {}
        base = json.load(open(os.path.join(HERE, 'contracts', 'baseline.json'))) if os.path.exists(os.path.join(HERE, 'contracts', 'baseline.json')) else {}
        par = min(3, max(1, len(units)))
        P = Proof(prop, hir, C, work, cache, base, max(2, 8 // par), lambda: dl[0])
        dl = [limit - 230]
        P.tier = tier
        def first_search():
            S.run(quick, threads=4)
            # a failing input is at hand: the verifier only gets the time to name the obligation
            if S.ce: dl[0] = min(dl[0], time.time() + 30 - 60)
        errs = {}
        def one(u):
            try: return P.unit(u)
            except Exception as x:
                import traceback; errs[u] = traceback.format_exc()
        st = threading.Thread(target=first_search); st.start()
        xt = threading.Thread(target=lambda: X.run(work, hir, C, prop, 1.5 if tier == 'quick' else 30, S.dict))
        if not image: xt.start()
        with cf.ThreadPoolExecutor(par) as ex: list(ex.map(one, sorted(units, key=lambda u: -len(C.units[u]['fns']))))
        st.join()
        if not image: xt.join()
        own, dep, out = P.verdict()
        if X.bad: out.append((None, None, 'the translation is wrong about the real code: ' + X.bad))
        for u, t in errs.items(): out.append((u, None, 'translator error: ' + t[-600:]))
        for u in units:
            if u in P.res: r = P.res[u]; log('unit %-9s %3d functions, %3d obligations verified, %d failed, %d not translated, %.1f s' % (u, len(r['fns']), r['verified'], sum(len(v) for v in r['failed'].values()), len(r['unsup']), r['time']))
    else:
        S.run(quick); own, dep, out = [], [], [(None, None, 'no HIR')]
    proved = not own and not dep and not out and P is not None and all(u in P.res and P.res[u]['verified'] > 0 for u in units)
    if not S.ce and not proved:
        for x in own + dep: log('not discharged:', x[1], x[2]['msg'], x[2]['det'][:1])
        for x in out: log('out of reach:', x[1], str(x[2])[:300])
        log('searching for a failing input')
        hunt(S, min(float(os.environ.get('VERIF_DEV_SECS', deep)), max(20, T0 + (780 if tier == 'quick' else 3000) - time.time() - 60)), work, image)
    elif tier == 'thorough' and not S.ce:
        hunt(S, quick, work, image)
    same = P is not None and all(P.res[u]['same'] for u in units if u in P.res) and len(P.res) == len(units)
    replay = os.path.join(ev_dir, 'replay-%s.txt' % prop)
    status = 'proved'
    code = 0
    def obl():
        for u, fn, f in own + dep: yield 'obligation not discharged: unit %s, function %s, %s %s\n%s' % (u, fn, f['msg'], ' '.join(map(str, f['det'])), f['text'])
        for u, fn, why in out: yield 'not decided by the verifier: unit %s, function %s: %s' % (u, fn, why)
    if S.ce:
        code, status = 1, 'violated'
        with open(replay, 'w') as o:
            o.write('property %s broken on the real code\nCE %s\ninput: %s\nobserved:\n%s\nreplay: build /verif/harness (cargo build --release --offline%s) and run: harness --prop %s --replay %s --known %s\n\n' % (prop, S.ce['case'], S.ce['input'], S.ce['observed'], ' --features img' if image else '', prop, replay, ','.join(known) or 'none'))
            o.write('\n'.join(obl()) or 'every obligation was discharged: the trusted base is wrong on this input\n')
        print('failing input: %s\n%s' % (S.ce['input'], S.ce['observed']))
        print('VIOLATION property=%s replay=%s' % (prop, replay), flush=True)
    elif own and same:
        code, status = 1, 'obligation failed, no failing input found'
        with open(replay, 'w') as o:
            o.write('property %s: obligation not discharged, no failing input found in %d executions\n\n' % (prop, S.evals + S.guided)); o.write('\n'.join(obl()))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay), flush=True)
    elif not proved:
        status = 'bounded: not every obligation was discharged; held on all %d executions' % (S.evals + S.guided)
    for p, k, txt in recorded:
        if p == prop and k in known: print('KNOWN-FINDING: property=%s %s' % (prop, txt))
    evidence(prop, tier, seed, ev_dir, P, units, S, X, status, known, recorded, own, dep, out, code)
    log(status)
    return code

def evidence(prop, tier, seed, ev_dir, P, units, S, X, status, known, recorded, own, dep, out, code):
    ok = status == 'proved'
    fns, unit_ev = [], {}
    trusted, obligations, discharged, smt = [], 0, 0, 0
    if P is not None:
        for u in units:
            r = P.res.get(u)
            if r is None: continue
            obligations += obl_count(r); discharged += r['verified']; smt += r['smt_ms']
            fns += [k for k in r['fns'] if k not in r['unsup'] and k not in r['trusted']]
            trusted += ['%s: contract of a /repo function assumed by the verifier, executed exhaustively or by sampling by the harness' % k for k in r['trusted']]
            unit_ev[u] = {'functions': len(r['fns']), 'verified': r['verified'], 'failed': {str(k): [f['msg'] + ' ' + ' '.join(map(str, f['det'][:1])) for f in v] for k, v in r['failed'].items()}, 'not_translated': {k: str(v)[:200] for k, v in r['unsup'].items()},
                           'contracts_not_found_in_source': r['missing'], 'inlined': r['dropped'], 'verus_runs': r['iters'], 'solver_ms': r['smt_ms'], 'wall_s': round(r['time'], 1)}
    pre = open(os.path.join(HERE, 'contracts', 'prelude.rs')).read()
    if P is not None: pre += ''.join(P.C.units[u]['spec'] for u in units)
    ext = re.findall(r'#\[verifier::external_body\]\s*(?:pub )?(?:broadcast )?(?:proof )?fn (\w+)', pre)
    tb = ['Verus 0.2026.09.13 and its Z3', 'rustc nightly front end (HIR and types)', 'tool/hirdump.rs and tool/lower.py: mechanical translation of the HIR to Verus text',
          'runtime models in contracts/prelude.rs (external_body, std behaviour): ' + ', '.join(ext), 'vstd specifications of Vec, slices, Option, Result and chars'] + trusted
    exp = 'contracts discharged by Verus for all inputs' if ok else status
    cov = {'obligations': obligations, 'discharged': discharged, 'checker_cmd': 'verus <unit>.rs --rlimit 40 (text generated from /repo on this run by tool/verify.py)', 'trusted_base': tb,
           'functions_under_contract': sorted(fns), 'units': unit_ev, 'solver_ms': smt, 'back_end': 'Verus / Z3', 'status': status, 'explanation': exp,
           'obligations_of_this_property_not_discharged': ['%s: %s' % (x[1], x[2]['msg']) for x in own], 'obligations_it_depends_on_not_discharged': ['%s: %s' % (x[1], x[2]['msg']) for x in dep], 'out_of_reach': ['%s: %s' % (x[1], str(x[2])[:200]) for x in out],
           'evaluations': S.evals, 'distinct_nontrivial': S.nontriv, 'rule': 'executions of the real crate against an independent oracle, systematic families then random cases; non-trivial: data the oracle accepts (for C12, C13, C15 also refusals), outputs with at least one bar. These executions are the counterexample search and a test of the trusted base, not the deciding step.',
           'samples': S.samples[:6], 'systematic_families_complete': S.complete, 'search_seconds': round(S.secs, 1), 'recorded_findings_present': known}
    if S.guided: cov['guided_search'] = {'executions': S.guided, 'nontrivial': S.gnontriv, 'what': 'cases kept and mutated when they reach new edges, operand distances or switch distances of the instrumented real code'}
    if S.note: cov['search_note'] = S.note
    cov['translation_test'] = {'what': 'the translated text of this run, compiled as ordinary Rust and executed next to the real crate on the same inputs (trusted runtime models included)', 'functions': X.fns, 'entry_points': X.entries, 'executions_compared': X.n, 'result': X.note} if prop not in ('C20', 'C21') else {'result': 'not done for the image generator'}
    if P is not None and any('canary' in r for r in P.res.values()): cov['vacuity'] = {u: {'assert_false_inserted': r['canary'][0], 'assert_false_proved': r['canary'][1]} for u, r in P.res.items() if 'canary' in r}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other' if status.startswith('bounded') else 'proof', 'coverage': cov,
          'assumptions': ['values of the symbology types are built by the constructors (public enum variants and fields built by hand are out of scope)', 'usize is 64 bits wide; allocation succeeds', 'AsRef<str>/AsRef<[u8]> of the caller returns the same text every time'] +
          (['the barcode given to a generator holds only 0 and 1 and, for SVG and images, modules times xdim fits 32 bits'] if prop in ('C17', 'C19', 'C20', 'C21') else []),
          'wall_s': round(time.time() - T0, 1), 'violations': 1 if code else 0}
    json.dump(ev, open(os.path.join(ev_dir, prop + '.json'), 'w'), indent=1)
def baseline():
    work = tempfile.mkdtemp(prefix='verif-base-')
    image = os.path.exists(os.path.join(HERE, 'contracts', 'image.vc'))
    hir = dump(work, image)
    C = contracts(['cbarB', 'cbarC', 'cbar+', 'c128del'])
    path = os.path.join(HERE, 'contracts', 'cache.json')
    cache = json.load(open(path)) if os.path.exists(path) else {}
    only = sys.argv[2:] or [u for u in C.units if C.units[u]['fns'] or C.units[u]['thms']]
    bpath = os.path.join(HERE, 'contracts', 'baseline.json')
    skel = json.load(open(bpath)) if os.path.exists(bpath) else {}
    bad = False
    for u in only:
        R = verify.UnitRun(C, Crate(hir, set()), u)
        w = os.path.join(work, u); os.makedirs(w)
        r = R.run(w, cache=cache.get(u))
        print(u, r['verified'], 'failed', {k: [f['msg'] for f in v] for k, v in r['failed'].items()}, 'unsup', r['unsup'], 'missing', r['missing'], '%.1f s' % r['time'], flush=True)
        if r['failed'] or r['unsup'] or r['missing']: bad = True; continue
        cache[u] = r['keep']
        for k, L in R.L.items(): skel[k] = R.skeleton(L)
    skel['@fields'] = {a['path']: [n for n, _ in a['variants'][0]['fields']] for a in hir['adts'] if not a['enum']}
    json.dump(cache, open(path, 'w'), indent=0, sort_keys=True)
    json.dump(skel, open(bpath, 'w'), indent=0, sort_keys=True)
    shutil.rmtree(work)
    return 1 if bad else 0

if __name__ == '__main__': sys.exit(baseline() if sys.argv[1] == '--baseline' else main())
