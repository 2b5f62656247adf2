#!/usr/bin/env python3
"""Finds two different byte strings with the same 64-bit FNV-1a sum (used as
constants in harness/dict*.go). Lattice reduction gives small differences d_i
with sum d_i * p^(n-i) = 0 mod 2^64."""
from fractions import Fraction
import random, sys
P = 0x100000001b3
M = 1 << 64
def fnv(b, h=0xcbf29ce484222325):
    for x in b:
        h = ((h ^ x) * P) % M
    return h
def lll(B, delta=Fraction(3, 4)):
    n = len(B)
    def dot(a, b): return sum(x*y for x, y in zip(a, b))
    def gs():
        Q, mu = [], [[Fraction(0)]*n for _ in range(n)]
        for i in range(n):
            v = [Fraction(x) for x in B[i]]
            for j in range(i):
                mu[i][j] = dot(B[i], Q[j]) / dot(Q[j], Q[j])
                v = [a - mu[i][j]*b for a, b in zip(v, Q[j])]
            Q.append(v)
        return Q, mu
    Q, mu = gs(); k = 1
    while k < n:
        for j in range(k-1, -1, -1):
            q = round(mu[k][j])
            if q:
                B[k] = [a - q*b for a, b in zip(B[k], B[j])]
                Q, mu = gs()
        if dot(Q[k], Q[k]) >= (delta - mu[k][k-1]**2) * dot(Q[k-1], Q[k-1]):
            k += 1
        else:
            B[k], B[k-1] = B[k-1], B[k]
            Q, mu = gs(); k = max(k-1, 1)
    return B
n = 12
W = 1 << 20
c = [pow(P, n-i, M) for i in range(n)]
B = [[1 if i == j else 0 for j in range(n)] + [W*c[i]] for i in range(n)] + [[0]*n + [W*M]]
R = lll(B)
d = next(r[:n] for r in R if r[n] == 0 and any(r) and max(map(abs, r[:n])) < 100)
random.seed(1)
pre = b"a-long-key-shared-prefix-"
while True:
    h = g = fnv(pre); a, b = [], []
    for i in range(n):
        off = (g & 255) - (h & 255) + d[i]
        cs = [x for x in range(256) if 0 <= x + off <= 255]
        if not cs: break
        x = random.choice(cs)
        a.append((h & 255) ^ x); b.append((g & 255) ^ (x + off))
        h = ((h & ~255) + x) * P % M; g = ((g & ~255) + x + off) * P % M
    else:
        if h == g: break
k1, k2 = pre + bytes(a), pre + bytes(b)
assert k1 != k2 and fnv(k1) == fnv(k2)
print(k1.hex(), k2.hex(), hex(fnv(k1)))
