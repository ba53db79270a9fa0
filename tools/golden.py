#!/usr/bin/env python3
"""Extracts the Joe-Kuo (2003) table from src/SobolData.h into data/joe-kuo-2003.npz, and validates it independently:
polynomials primitive over GF(2) and pairwise distinct, initial numbers odd and < 2^j, and Property A for all leading
dimensions up to 1111 (which these numbers are published to have)."""
import re, sys, os
import numpy as np
src = open(sys.argv[1]).read()
def arr(name):
    i = src.index(name); i = src.index("=", i); j = src.index("};", i)
    return src[i + 1:j + 1]
nums = lambda t: [int(x) for x in re.findall(r"\d+", re.sub(r"/\*.*?\*/", "", t, flags=re.S))]
poly = nums(arr("sobol_a["))
t = re.sub(r"/\*.*?\*/", "", arr("sobol_minit["), flags=re.S)
rows = [nums(x) for x in re.findall(r"\{([^{}]*)\}", t)]
minit = np.zeros((13, 1110), np.int64)
for j, r in enumerate(rows):
    minit[j, :len(r)] = r
print(len(poly), [len(r) for r in rows])
poly = np.array(poly)
def factors(n):
    f = set(); p = 2
    while p * p <= n:
        while n % p == 0: f.add(p); n //= p
        p += 1
    if n > 1: f.add(n)
    return f
def mulmod(a, b, p, d):
    r = 0
    while b:
        if b & 1: r ^= a
        b >>= 1; a <<= 1
        if a >> d & 1: a ^= p
    return r
def powmod(e, p, d):
    r, b = 1, 2 if d > 1 else (2 ^ p)
    while e:
        if e & 1: r = mulmod(r, b, p, d)
        b = mulmod(b, b, p, d); e >>= 1
    return r
assert len(set(poly.tolist())) == 1110
for i, p in enumerate(poly.tolist()):
    d = p.bit_length() - 1
    n = 2 ** d - 1
    assert p & 1 and powmod(n, p, d) == 1 and all(powmod(n // q, p, d) != 1 for q in factors(n)), (i, p)
    for j in range(d):
        m = int(minit[j, i]); assert m % 2 == 1 and m < 2 ** (j + 1), (i, j, m)
    assert (minit[d:, i] == 0).all(), i
print("polynomials primitive, initial numbers odd and in range")
# Property A: leading binary digits of the first D direction numbers of the first D dimensions are nonsingular mod 2, for all D
D = 1111
rowsbits = []
for d in range(D):
    if d == 0: m = [1] * D
    else:
        p = int(poly[d - 1]); deg = p.bit_length() - 1
        m = [int(minit[j, d - 1]) for j in range(deg)]
        for j in range(deg, D):
            v = m[j - deg] ^ (m[j - deg] << deg)
            for k in range(1, deg):
                if (p >> (deg - k)) & 1: v ^= m[j - k] << k
            m.append(v)
    # leading bit of v_j = m_j / 2^(j+1) is bit j of m_j
    rowsbits.append([m[j] >> j & 1 for j in range(D)])
A = np.array(rowsbits, dtype=np.uint8)
ok = D
for k in range(D):
    if not A[k, k]: ok = k; break
    piv = A[k + 1:, k].astype(bool)
    A[k + 1:][piv] ^= A[k]
print("Property A holds for leading dimensions up to", ok)
np.savez_compressed(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "joe-kuo-2003.npz"), poly=poly.astype(np.int32), minit=minit.astype(np.int32))
