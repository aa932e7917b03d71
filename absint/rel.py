"""Comparison and hashing of collections, element by element; what the elements answer is uninterpreted but consistent."""
from engine import *
from env import *
import seq


def flat(s, v):
    """contents behind references"""
    if type(v) is tuple and v:
        if v[0] in ('r', 'cref'): return flat(s, s.load(v))
        if v[0] == 'a': return ('a', v[1], tuple(flat(s, x) for x in v[2]))
        if v[0] == 'seq': return [flat(s, x) for x in seq.elems(v)]
    return v


def same_kind(a, b):
    """a list and an array compare as lists"""
    if type(a) is list and type(b) is tuple and b[0] == 'a': return a, list(b[2])
    if type(b) is list and type(a) is tuple and a[0] == 'a': return list(a[2]), b
    return a, b


def eq(c, a, b):
    a, b = same_kind(a, b)
    if type(a) is list:
        return len(a) == len(b) and all(eq(c, x, y) for x, y in zip(a, b))
    if type(a) is tuple and a[0] == 'a':
        return a[1] == b[1] and all(eq(c, x, y) for x, y in zip(a[2], b[2]))
    if type(a) is int and type(b) is int: return a == b
    return bool(c.I.force_bool(c.s, ('b', eq_atom(a, b), True)))


def cmp(c, a, b):
    """-1, 0, 1"""
    a, b = same_kind(a, b)
    if type(a) is tuple and a[0] == 'a':
        if a[1] != b[1]: return -1 if a[1] < b[1] else 1
        a, b = list(a[2]), list(b[2])
    if type(a) is list:
        for x, y in zip(a, b):
            r = cmp(c, x, y)
            if r: return r
        return (len(a) > len(b)) - (len(a) < len(b))
    if type(a) is int and type(b) is int: return (a > b) - (a < b)
    if a == b: return 0
    if eq(c, a, b): return 0
    x, y = sorted((a, b), key=repr)
    lt = c.I.force_bool(c.s, ('b', ('lt', x, y), True))
    return -1 if bool(lt) == (a == x) else 1


def two(c): return flat(c.s, c.a[0]), flat(c.s, c.a[1])
def h_eq(c): return int(eq(c, *two(c)))
def h_ne(c): return int(not eq(c, *two(c)))
def h_cmp(c): return ('a', cmp(c, *two(c)) + 1, ())
def h_pcmp(c): return some(h_cmp(c))


def log(c, r, l):
    p = ('r', r[1], r[2] + (0,))
    v = c.s.load(p)
    for x in l: v = ('t', 'hash', (v, x))
    c.s.store(p, v)
    return UNIT


def atoms(v):
    if type(v) is list: return [len(v)] + [y for x in v for y in atoms(x)]
    if type(v) is tuple and v[0] == 'a': return [y for x in v[2] for y in atoms(x)]
    return [v]


def h_hash(c): return log(c, c.a[1], atoms(flat(c.s, c.a[0])))
def h_write(c): return log(c, c.a[0], [flat(c.s, c.a[1])])


B = '<std::collections::BTreeMap<K, V, A> as std::cmp::'
S = 'core::slice::cmp::<impl std::cmp::'
H = {
    B + 'PartialEq>::eq': h_eq, B + 'PartialEq>::ne': h_ne, B + 'Ord>::cmp': h_cmp, B + 'PartialOrd>::partial_cmp': h_pcmp,
    '<std::collections::BTreeMap<K, V, A> as std::hash::Hash>::hash': h_hash,
    S + 'PartialEq<[U]> for [T]>::eq': h_eq, S + 'PartialEq<[U]> for [T]>::ne': h_ne, S + 'Ord for [T]>::cmp': h_cmp, S + 'PartialOrd for [T]>::partial_cmp': h_pcmp,
    'core::hash::impls::<impl std::hash::Hash for [T]>::hash': h_hash,
    '<harness::env::Hs as std::hash::Hasher>::write': h_write, '<harness::env::Hs as std::hash::Hasher>::write_usize': h_write, '<harness::env::Hs as std::hash::Hasher>::write_u8': h_write,
}
for T in ('V', 'C'):
    H['<harness::env::%s as std::cmp::Ord>::cmp' % T] = h_cmp
    H['<harness::env::%s as std::cmp::PartialOrd>::partial_cmp' % T] = h_pcmp
    H['<harness::env::%s as std::hash::Hash>::hash' % T] = h_hash
