"""Value numbers: lane vectors over GF(p), constants, hashing.

A value number is a vector of L field elements.  Arithmetic is interpreted in
the field, everything else is hashed; two expressions get the same value number
when they are equal under the algebra of the field and congruence (Gulwani and
Necula's random-interpretation value numbering).
"""
import hashlib
import os
from fractions import Fraction
import numpy as np

P = (1 << 31) - 1
PP = np.uint64(P)
L = int(os.environ.get("VERIF_LANES", "192"))          # lanes
UNB = 8          # lanes never biased: they give a value its identity
M1 = np.uint64(0x9E3779B97F4A7C15)
M2 = np.uint64(0xBF58476D1CE4E5B9)
S32 = np.uint64(32)
S29 = np.uint64(29)
LANES = np.arange(L, dtype=np.uint64)
ALL = np.ones(L, dtype=bool)
NONE_ = np.zeros(L, dtype=bool)
ZERO = np.zeros(L, dtype=np.uint64)

_seed_cache = {}


def _digest(s):
    return int.from_bytes(hashlib.blake2b(s.encode('utf8', 'surrogatepass'), digest_size=8).digest(), 'little')


def seed(tag):
    v = _seed_cache.get(tag)
    if v is None:
        v = np.uint64(_digest(tag))
        _seed_cache[tag] = v
    return v


def mix(h):
    h = h ^ (h >> S32)
    h = h * M2
    h = h ^ (h >> S29)
    h = h * M1
    return h ^ (h >> S32)


def hash_raw(tag, arrs):
    with np.errstate(over='ignore'):
        h = np.full(L, seed(tag), dtype=np.uint64)
        for a in arrs:
            h = mix((h + M1) ^ (a * M2))
        return h


def hash_fp(tag, arrs):
    return mix(hash_raw(tag, arrs)) % PP


def lane_hash(tag, arrs):
    """Hash salted with the lane number: for pseudo-random choices per lane."""
    return mix(hash_raw(tag, list(arrs) + [LANES]))


def inv(a):
    e = P - 2
    r = np.ones(L, dtype=np.uint64)
    b = a.copy()
    while e:
        if e & 1:
            r = (r * b) % PP
        b = (b * b) % PP
        e >>= 1
    return r


def pow_fp(a, n):
    r = np.ones(L, dtype=np.uint64)
    b = a.copy()
    while n:
        if n & 1:
            r = (r * b) % PP
        b = (b * b) % PP
        n >>= 1
    return r


def num_fp(x):
    """Field image of a Python number."""
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return x % P
    if isinstance(x, Fraction):
        return (x.numerator * pow(x.denominator, P - 2, P)) % P
    if x != x:
        return _digest('nan') % P
    if x in (float('inf'), float('-inf')):
        k = _digest('inf') % P
        return k if x > 0 else P - k
    return num_fp(Fraction(repr(x)))


def str_fp(s):
    return _digest('s:' + s) % P


NONE_FP = _digest('None') % P
UNDEF_FP = _digest('undef') % P
NAN_FP = _digest('nan') % P
INF_FP = _digest('infinite') % P    # an infinity of unknown sign


def const_fp(x):
    if x is None:
        return NONE_FP
    if isinstance(x, (bool, int, float, Fraction)):
        return num_fp(x)
    if isinstance(x, str):
        return str_fp(x)
    return _digest(type(x).__name__ + repr(x)) % P


def full(k):
    return np.full(L, k, dtype=np.uint64)


def sym_fp(name):
    return hash_fp('sym:' + name, [LANES + np.uint64(1)])
