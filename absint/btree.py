"""BTreeMap as the sequence of its entries, sorted by concrete integer keys."""
from engine import *
from env import *
import seq, iters
from seq import elems, mk


def key(c, v):
    while type(v) is tuple and v[0] in ('r', 'cref'): v = c.s.load(v) if v[0] == 'r' else v[1]
    if type(v) is not int: raise Undecided('map key %r' % (v,))
    return v


def ents(s, r): return [(x[2][0], x[2][1]) for x in elems(s.load(r))]
def pack(l): return mk([('a', 0, x) for x in l])


def from_list(I, s, l):
    d = {}
    for x in l:
        k, v = x[2]
        if type(k) is not int: raise Undecided('map key %r' % (k,))
        d[k] = v
    return pack(sorted(d.items()))


def find(l, k):
    for i, x in enumerate(l):
        if x[0] == k: return i
    return None


def put(c, r, k, v):
    l = ents(c.s, r); i = find(l, k)
    if i is None:
        c.s.store(r, pack(sorted(l + [(k, v)], key=lambda x: x[0])))
        return None
    c.s.store(r, pack(l[:i] + [(k, v)] + l[i + 1:]))
    return l[i][1]


def h_insert(c):
    l = ents(c.s, c.a[0]); k = key(c, c.a[1]); i = find(l, k)
    o = put(c, c.a[0], k, c.a[2])
    return NONE if i is None else some(o)


def h_remove(entry):
    def f(c):
        l = ents(c.s, c.a[0]); i = find(l, key(c, c.a[1]))
        if i is None: return NONE
        c.s.store(c.a[0], pack(l[:i] + l[i + 1:]))
        return some(('a', 0, l[i]) if entry else l[i][1])
    return f


def sub(r, i, f):
    x = seq.elem_ref(r, i)
    return ('r', x[1], x[2] + (f,))


def h_get(c):
    i = find(ents(c.s, c.a[0]), key(c, c.a[1]))
    return NONE if i is None else some(sub(c.a[0], i, 1))


def h_get_kv(c):
    i = find(ents(c.s, c.a[0]), key(c, c.a[1]))
    return NONE if i is None else some(('a', 0, (sub(c.a[0], i, 0), sub(c.a[0], i, 1))))


def h_contains(c): return int(find(ents(c.s, c.a[0]), key(c, c.a[1])) is not None)


def h_index(c):
    i = find(ents(c.s, c.a[0]), key(c, c.a[1]))
    if i is None: raise PanicPath('no entry found for key')
    return sub(c.a[0], i, 1)


def h_iter(mode):
    def f(c):
        r = c.a[0]
        if r[0] != 'r': raise Undecided('iterator over %r' % (r,))
        return ('bit', r, 0, len(ents(c.s, r)), mode)
    return f


def item(v, i):
    k, x = sub(v[1], i, 0), sub(v[1], i, 1)
    return some(('a', 0, (k, x)) if v[4] == 'kv' else k if v[4] == 'k' else x)


def bit(c):
    v = c.s.load(c.a[0])
    if v[0] != 'bit': raise Undecided('iterator %r' % (v,))
    return v


def h_next(c):
    v = bit(c)
    if v[2] >= v[3]: return NONE
    c.s.store(c.a[0], ('bit', v[1], v[2] + 1, v[3], v[4]))
    return item(v, v[2])


def h_back(c):
    v = bit(c)
    if v[2] >= v[3]: return NONE
    c.s.store(c.a[0], ('bit', v[1], v[2], v[3] - 1, v[4]))
    return item(v, v[3] - 1)


def h_itlen(c):
    v = bit(c)
    return v[3] - v[2]


def h_end(last, pop=False):
    def f(c):
        l = ents(c.s, c.a[0])
        if not l: return NONE
        i = len(l) - 1 if last else 0
        if not pop: return some(('a', 0, (sub(c.a[0], i, 0), sub(c.a[0], i, 1))))
        c.s.store(c.a[0], pack(l[:i] + l[i + 1:]))
        return some(('a', 0, l[i]))
    return f


def h_into(which):
    return lambda c: ('into', mk([x[2][which] for x in elems(c.a[0])]))


def h_array(c):
    v = c.a[0]
    return from_list(c.I, c.s, list(v[2]) if v[0] == 'a' else elems(v))


def h_eq(c):
    a, b = deep(c.s, c.a[0]), deep(c.s, c.a[1])
    if a == b: return 1
    if [x[1][2][0] for x in a[1]] != [x[1][2][0] for x in b[1]]: return 0
    raise Undecided('equality of maps')


def h_ne(c): return 1 - h_eq(c)


# entry API: Vacant = 0, Occupied = 1; both hold ('ent', map reference, key)
def h_entry(c):
    k = key(c, c.a[1])
    return ('a', 0 if find(ents(c.s, c.a[0]), k) is None else 1, (('ent', c.a[0], k),))


def ent(c):
    v = c.a[0]
    if v[0] == 'r': v = c.s.load(v)
    if v[0] != 'ent': raise Undecided('map entry %r' % (v,))
    return v


def h_vac_insert(c):
    _, r, k = ent(c); put(c, r, k, c.a[1])
    return sub(r, find(ents(c.s, r), k), 1)


def h_occ_insert(c):
    _, r, k = ent(c)
    return put(c, r, k, c.a[1])


def h_occ_ref(c):
    _, r, k = ent(c)
    return sub(r, find(ents(c.s, r), k), 1)


def h_occ_remove(c):
    _, r, k = ent(c); l = ents(c.s, r); i = find(l, k)
    c.s.store(r, pack(l[:i] + l[i + 1:]))
    return l[i][1]


def h_into_key(c): return ent(c)[2]


def step_drop(I):
    def step(s):
        f = s.frames[-1]; d = f.depth
        r, kt, vt, i = [s.mem[(d, j)] for j in (1, 2, 3, 4)]
        l = elems(s.load(r))
        if i >= 2 * len(l): return I.do_return(s)
        s.mem[(d, 4)] = i + 1
        t = vt if i % 2 else kt
        if t is not None and I.p.types[t].get('needs_drop') and I.drop_value(s, t, sub(r, i // 2, i % 2)) is RESCHED: s.mem[(d, 4)] = i
        return None
    return step


def needs(I, ts): return any(t is not None and I.p.types[t].get('needs_drop') for t in ts)


def drop_map(I, s, td, ty, key, path):
    v = s.read(key, path)
    if v[0] in ('bit', 'ent'): return None
    kt, vt = td['args'][0], td['args'][1]
    if v[0] == 'into':
        l = elems(v[1])
        if l and (l[0][0] != 'a' or len(l[0][2]) != 2) and needs(I, (kt, vt)): raise Undecided('drop of ' + td['name'])
        if not l or not needs(I, (kt, vt)): return None
        tmp = s.heap(mk(l))
        return (('py', 'mapdrop', step_drop(I)), [('r', tmp, ()), kt, vt, 0], lambda I, s, v: s.mem.pop(tmp, None) and None)
    if not elems(v) or not needs(I, (kt, vt)): return None
    return (('py', 'mapdrop', step_drop(I)), [('r', key, path), kt, vt, 0], None)


def h_clear(c):
    I, s = c.I, c.s
    r = c.a[0]; v = s.load(r)
    kt, vt = c.fn.args[0], c.fn.args[1]
    s.store(r, mk([]))
    if not elems(v) or not needs(I, (kt, vt)): return UNIT
    tmp = s.heap(v); t = c.t

    def done(I, s, v):
        s.mem.pop(tmp, None)
        f = s.frames[-1]; I.assign(s, f, t[4], UNIT); f.bb, f.i = t[5], 0
    I.push2(s, (('py', 'mapdrop', step_drop(I)), [('r', tmp, ()), kt, vt, 0], done))
    return NORET


def h_retain(c):
    """BTreeMap::retain"""
    I, s = c.I, c.s
    r = c.a[0]; fty = [a for a in c.fn.args if type(a) is int][-1]
    kt, vt = c.fn.args[0], c.fn.args[1]
    t = c.t

    def done(I, s, v):
        f = s.frames[-1]; I.assign(s, f, t[4], UNIT); f.bb, f.i = t[5], 0

    def step(s):
        # 1 map, 2 closure, 3 position, 4 phase, 5 result
        d = s.frames[-1].depth; m = s.mem
        l = elems(s.load(m[(d, 1)]))
        if m[(d, 4)] == 0:
            if m[(d, 3)] >= len(l): return I.do_return(s)
            m[(d, 4)] = 1

            def got(I, s, v): s.mem[(d, 5)] = v
            x = m[(d, 1)]
            I.call_callable(s, fty, ('r', (d, 2), ()), [sub(x, m[(d, 3)], 0), sub(x, m[(d, 3)], 1)], got)
            return None
        i = m[(d, 3)]
        if m[(d, 4)] == 1:
            if I.force_bool(s, m[(d, 5)]): m[(d, 3)] = i + 1; m[(d, 4)] = 0; return None
            m[(d, 4)] = 2
            if needs(I, (kt, vt)):
                m[(d, 6)] = mk([l[i]])
                I.push2(s, (('py', 'mapdrop', step_drop(I)), [('r', (d, 6), ()), kt, vt, 0], None))
            return None
        m[(d, 4)] = 0
        s.store(m[(d, 1)], mk(l[:i] + l[i + 1:]))
        return None
    I.push2(s, (('py', 'mapretain:%s' % fty, step), [r, c.a[1], 0, 0, UNINIT, UNINIT], done))
    return NORET


B = 'std::collections::BTreeMap::<K, V, A>::'
BM = 'std::collections::btree_map::'
H = {
    'drop:std::collections::BTreeMap': drop_map, 'drop:std::collections::btree_map::IntoIter': drop_map, 'drop:std::collections::btree_map::IntoKeys': drop_map, 'drop:std::collections::btree_map::IntoValues': drop_map,
    'std::collections::BTreeMap::<K, V>::new': lambda c: mk([]), '<std::collections::BTreeMap<K, V> as std::default::Default>::default': lambda c: mk([]),
    B + 'insert': h_insert, B + 'remove': h_remove(False), B + 'remove_entry': h_remove(True), B + 'get': h_get, B + 'get_mut': h_get, B + 'get_key_value': h_get_kv, B + 'contains_key': h_contains,
    B + 'len': seq.h_len, B + 'is_empty': seq.h_is_empty, B + 'clear': h_clear, B + 'retain': h_retain,
    B + 'iter': h_iter('kv'), B + 'iter_mut': h_iter('kv'), B + 'keys': h_iter('k'), B + 'values': h_iter('v'), B + 'values_mut': h_iter('v'),
    B + 'into_keys': h_into(0), B + 'into_values': h_into(1), B + 'entry': h_entry,
    B + 'first_key_value': h_end(False), B + 'last_key_value': h_end(True), B + 'pop_first': h_end(False, True), B + 'pop_last': h_end(True, True),
    '<std::collections::BTreeMap<K, V, A> as std::iter::IntoIterator>::into_iter': lambda c: ('into', c.a[0]),
    "<&'a std::collections::BTreeMap<K, V, A> as std::iter::IntoIterator>::into_iter": h_iter('kv'), "<&'a mut std::collections::BTreeMap<K, V, A> as std::iter::IntoIterator>::into_iter": h_iter('kv'),
    '<std::collections::BTreeMap<K, V, A> as std::clone::Clone>::clone': lambda c: c.s.load(c.a[0]),
    '<std::collections::BTreeMap<K, V> as std::convert::From<[(K, V); N]>>::from': h_array,
    '<std::collections::BTreeMap<K, V> as std::iter::FromIterator<(K, V)>>::from_iter': iters.h_from_iter,
    '<std::collections::BTreeMap<K, V, A> as std::cmp::PartialEq>::eq': h_eq, '<std::collections::BTreeMap<K, V, A> as std::cmp::PartialEq>::ne': h_ne,
    '<std::collections::BTreeMap<K, V, A> as std::ops::Index<&Q>>::index': h_index,
    BM + "VacantEntry::<'a, K, V, A>::insert": h_vac_insert, BM + "OccupiedEntry::<'a, K, V, A>::insert": h_occ_insert, BM + "OccupiedEntry::<'a, K, V, A>::get": h_occ_ref, BM + "OccupiedEntry::<'a, K, V, A>::get_mut": h_occ_ref,
    BM + "OccupiedEntry::<'a, K, V, A>::into_mut": h_occ_ref, BM + "OccupiedEntry::<'a, K, V, A>::remove": h_occ_remove, BM + "VacantEntry::<'a, K, V, A>::into_key": h_into_key,
    BM + "VacantEntry::<'a, K, V, A>::key": lambda c: ('cref', ent(c)[2]), BM + "OccupiedEntry::<'a, K, V, A>::key": lambda c: ('cref', ent(c)[2]),
}
for t in ("Iter<'a, K, V>", "IterMut<'a, K, V>", "Iter<'_, K, V>", "Keys<'a, K, V>", "Values<'a, K, V>", "ValuesMut<'a, K, V>", "Keys<'_, K, V>", "Values<'_, K, V>"):
    H['<%s%s as std::iter::Iterator>::next' % (BM, t)] = h_next
    H['<%s%s as std::iter::DoubleEndedIterator>::next_back' % (BM, t)] = h_back
    H['<%s%s as std::iter::ExactSizeIterator>::len' % (BM, t)] = h_itlen
for t in ('IntoIter<K, V, A>', 'IntoKeys<K, V, A>', 'IntoValues<K, V, A>'):
    H['<%s%s as std::iter::Iterator>::next' % (BM, t)] = seq.h_into_next
    H['<%s%s as std::iter::DoubleEndedIterator>::next_back' % (BM, t)] = iters.h_into_back
    H['<%s%s as std::iter::ExactSizeIterator>::len' % (BM, t)] = iters.h_it_len
