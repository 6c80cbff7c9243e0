#!/usr/bin/env python3
"""Generates lib/primes.json once (committed); not run by the checks."""
import json, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from ecref import is_prime
rnd = random.Random(77)
out = {}
def prev(n):
    n = n - 1 if n % 2 == 0 else n
    while not is_prime(n): n -= 2
    return n
def nxt(n):
    n |= 1
    while not is_prime(n): n += 2
    return n
P = {}
for p in [3, 5, 7, 11, 13, 17, 31, 127, 251, 257, 65521, 65537]: P['small%d' % p] = p
for k in [31, 32, 33, 63]: P['below2^%d' % k] = prev(1 << k); P['above2^%d' % k] = nxt(1 << k)
for L in range(1, 17):
    b = 64 * L
    P['below2^%d' % b] = prev(1 << b)
    if L < 16: P['above2^%d' % b] = nxt((1 << b) + 1)
    P['mid%d' % b] = nxt((1 << (b - 1)) + rnd.getrandbits(b - 2))
    P['rnd%d' % (b - 13)] = nxt((1 << (b - 14)) | rnd.getrandbits(b - 14))
    if L > 1:
        P['sparse%d' % b] = nxt((1 << (b - 1)) + 1)
        # top limb = 1, the rest all ones (just below 2^(b-63)); and a top limb all ones with low limbs small
        P['topone%d' % b] = prev(1 << (b - 63))
        P['topff%d' % b] = nxt(((1 << 64) - 1 << (b - 64)) + 1) if L < 16 else prev(((1 << 64) - 1 << (b - 64)) + (1 << 40))
        # low limb near 2^64 with the upper limbs sparse
        P['lowff%d' % b] = nxt((1 << (b - 2)) + (1 << 64) - (1 << 20))
for k in [61, 89, 107, 127, 521, 607]: P['mersenne%d' % k] = (1 << k) - 1
two = {}
for s in [3, 4, 5, 8, 16, 30, 31, 32, 33, 40, 48, 62, 63, 64, 65, 80, 96, 127, 128, 160, 192, 250, 256, 320, 400, 512, 700, 1000]:
    k = 1
    while not is_prime((k << s) + 1): k += 2
    two['adic%d' % s] = (k << s) + 1
    if s <= 400:
        k = (1 << 40) + 1
        while not is_prime((k << s) + 1): k += 2
        two['adicb%d' % s] = (k << s) + 1
P.update(two)
P['P224'] = 2**224 - 2**96 + 1
P['P256'] = 2**256 - 2**224 + 2**192 + 2**96 - 1
P['P384'] = 2**384 - 2**128 - 2**96 + 2**32 - 1
P['25519'] = 2**255 - 19
P['448'] = 2**448 - 2**224 - 1
P['k1'] = 2**256 - 2**32 - 977
for k, v in P.items(): assert is_prime(v) and v.bit_length() <= 1024, (k, v.bit_length())
json.dump({k: hex(v) for k, v in P.items()}, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib', 'primes.json'), 'w'), indent=0)
print(len(P))
