#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
N = {
 'C14': 'acceptance, refusal and the stored digits are postconditions of the three constructors; "same barcode" is a theorem over constructor and encoder contracts',
 'C15': 'absence of panics, overflow, out-of-range access and non-termination is an obligation of every function under contract; 0/1 and bar-at-the-ends are theorems over the encoders\' contracts',
 'C16': 'injectivity is proved as lemmas over the specification functions the encoders are proved to equal',
 'C20': 'place_pixels, generate_buffer and the constructors are under contract; ImageBuffer operations of the image crate (new, put_pixel, rotate, to_rgba8) are assumed contracts',
 'C21': 'which picture is handed to which encoder is a postcondition of generate; the encoders of the image crate are an assumed contract, and the files are decoded by the harness (bounded)',
}
base = 'Every obligation generated from the current source is discharged by Verus for all inputs. Trusted: Verus/Z3, the rustc front end, the mechanical HIR-to-Verus translation (tool/lower.py), the std models in contracts/prelude.rs. '
checks = []
NA = []
for d in props:
    p = d['id']
    if p in SKIP if (SKIP := json.load(open(os.path.join(H, 'tool', 'skip.json')))) else False:
        NA.append({'property': p, 'reason': SKIP[p]}); continue
    checks.append({'property': p, 'quick_cmd': 'python3 check.py %s --tier quick' % p, 'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
                   'technique': 'contract-based deductive verification of the translated source with Verus (SMT), failing inputs replayed on the real crate', 'level': 'proof',
                   'level_note': base + N.get(p, 'The property is the postcondition of the constructors and encoders/generators.')})
m = {'version': 1, 'setup_cmd': 'python3 tool/gen_tables.py', 'checks': checks, 'not_applicable': NA,
     'notes': 'No hooks in /repo are needed: the verified text is extracted from the unmodified source on every run.'}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
