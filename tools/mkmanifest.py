"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}


def c(pid, technique, note, level='exploration'):
    T[pid] = (technique, level, note)


DIFF = 'sanitized execution of generated histories, online/offline oracle (independent big-integer reference)'
c('C01', DIFF, 'Every operand pair of small primes, boundary and random operands of 208 primes up to 1024 bits, all aliasings, judged value by value. Trusts Python integers.')
c('C02', DIFF, 'All elements of small primes; structured and random elements of primes with p-1 divisible by powers of two from 2 to 2^1000; hang detection by alarm. Trusts Python integers.')
c('C03', DIFF, 'Histories interleaving many moduli; boundary integers, words and bits. Trusts Python integers.')
c('C04', DIFF, 'All ordered pairs of points of tiny curves of all four forms, special-position pairs on named and generated curves up to 1024 bits, random projective representations and aliasing. Trusts the textbook affine formulas.')
c('C05', DIFF, 'All scalars on tiny curves, extreme bit patterns and random scalars on all curves through every route.')
c('C06', DIFF, 'Every listed name is loaded repeatedly and compared with published parameters held in the check; order, cofactor and generator are verified. Parameters were cross-checked with OpenSSL and SafeCurves data.')
c('C07', DIFF, 'Curves of all forms from three spellings, on- and off-curve generators, neighbours differing in one respect, re-used objects. Montgomery B = 0 is outside.')
c('C08', DIFF, 'Every point of tiny curves and boundary points of all curves, four encodings and both readers, under ASan with exact-size buffers.')
c('C09', DIFF, 'Structured mutation of encodings of every form judged by an exact acceptor, under ASan+UBSan with exact-size buffers.')
exec(open(os.path.join(V, 'tools', 'manifest_more.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'manifest_more.py')) else None

props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in T:
        t, lv, note = T[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': t, 'level': lv, 'level_note': note})
    else:
        na.append({'property': i, 'reason': 'check still being built'})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo are needed: the checks compile /repo/src, python, ecgo and examples from the working tree with their own build rules and observe through the public API, allocator interposition and compiler instrumentation.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks;', [x['property'] for x in na])
