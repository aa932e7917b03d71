"""Vectors as sequences ('seq', parts); parts: ('e', value)."""
from engine import *
from env import *


def elems(v):
    if type(v) is tuple and v[0] == 'a': return list(v[2])   # an array
    if type(v) is not tuple or v[0] != 'seq' or any(p[0] != 'e' for p in v[1]): raise Undecided('vector %r' % (v,))
    return [p[1] for p in v[1]]


def mk(l): return ('seq', tuple(('e', x) for x in l))


def vec(c, i=0): return elems(c.s.load(c.a[i]))


def elem_ref(r, i):
    """reference to element i of the sequence (or subslice) behind r"""
    if r[0] != 'r': raise Undecided('element of %r' % (r,))
    p = r[2]
    if p and type(p[-1]) is tuple: return ('r', r[1], p[:-1] + (p[-1][1] + i,))
    return ('r', r[1], p + (i,))


def h_new(c): return mk([])
def h_len(c): return len(vec(c))
def h_is_empty(c): return int(not vec(c))


def h_push(c):
    c.s.store(c.a[0], mk(vec(c) + [c.a[1]]))
    return UNIT


def h_pop(c):
    l = vec(c)
    if not l: return NONE
    c.s.store(c.a[0], mk(l[:-1]))
    return some(l[-1])


def h_insert(c):
    l = vec(c); i = c.a[1]
    if i > len(l): raise PanicPath('Vec::insert out of bounds')
    c.s.store(c.a[0], mk(l[:i] + [c.a[2]] + l[i:]))
    return UNIT


def h_remove(c):
    l = vec(c); i = c.a[1]
    if i >= len(l): raise PanicPath('Vec::remove out of bounds')
    c.s.store(c.a[0], mk(l[:i] + l[i + 1:]))
    return l[i]


def h_swap_remove(c):
    l = vec(c); i = c.a[1]
    if i >= len(l): raise PanicPath('Vec::swap_remove out of bounds')
    x = l[i]; y = l.pop()
    if i < len(l): l[i] = y
    c.s.store(c.a[0], mk(l))
    return x


def drop_vec(I, s, td, ty, key, path):
    v = s.read(key, path)
    if not elems(v): return None
    et = td['args'][0]
    if not I.p.types[et].get('needs_drop'): return None
    return (('py', 'seqdrop', step_drop(I)), [('r', key, path), et, 0], None)


def step_drop(I):
    def step(s):
        f = s.frames[-1]; d = f.depth
        r, et, i = s.mem[(d, 1)], s.mem[(d, 2)], s.mem[(d, 3)]
        l = elems(s.load(r))
        if i >= len(l): return I.do_return(s)
        s.mem[(d, 3)] = i + 1
        if I.drop_value(s, et, ('r', r[1], r[2] + (i,))) is RESCHED:
            s.mem[(d, 3)] = i
        return None
    return step


def h_clear(c):
    """drop all elements, then become empty"""
    I, s = c.I, c.s
    l = vec(c)
    r = c.a[0]
    et = c.fn.args[0]
    tmp = s.heap(mk(l))
    s.store(r, mk([]))
    t = c.t

    def done(I, s, v):
        s.mem.pop(tmp, None)
        f = s.frames[-1]; I.assign(s, f, t[4], UNIT); f.bb, f.i = t[5], 0
    if not l or not I.p.types[et].get('needs_drop'):
        s.mem.pop(tmp)
        return UNIT
    I.push2(s, (('py', 'seqdrop', step_drop(I)), [('r', tmp, ()), et, 0], done))
    return NORET


def callee_of(I, body_fn, traits=('std::ops::FnMut::call_mut', 'std::ops::FnOnce::call_once', 'std::ops::Fn::call'), ftype=None):
    """the instance that calls a closure of type ftype: found among the dumped functions"""
    for f in I.p.fns.values():
        if f.closure and f.kind == 'item' and f.blocks:
            pass
    return None


def closure_fn(I, ty):
    """(fn, by_ref) implementing the callable type ty"""
    r = I.p.callable(ty)
    if r is None: raise Undecided('no body for callable %s' % I.p.types[ty]['name'])
    return r


def call_closure(I, s, fty, fref, args, on_ret):
    """call the callable behind reference fref (type fty)"""
    I.call_callable(s, fty, fref, args, on_ret)


def h_retain(c):
    """Vec::retain / retain_mut"""
    I, s = c.I, c.s
    r, f = c.a[0], c.a[1]
    fty = [a for a in c.fn.args if type(a) is int][-1]
    et = c.fn.args[0]
    l = vec(c)
    s.store(r, mk([]))
    t = c.t

    def done(I, s, v):
        fr = s.frames[-1]; I.assign(s, fr, t[4], UNIT); fr.bb, fr.i = t[5], 0
    I.push2(s, (('py', 'retain:%s:%s' % (fty, et), step_retain(I, fty, et)), [r, f, mk(l), UNINIT, 0, UNINIT], done))
    return NORET


def step_retain(I, fty, et):
    # locals: 1 target vec ref, 2 closure, 3 remaining, 4 current element, 5 phase, 6 result
    def step(s):
        f = s.frames[-1]; d = f.depth
        ph = s.mem[(d, 5)]
        if ph == 0:
            rest = elems(s.mem[(d, 3)])
            if not rest:
                # drop the closure (captures only references) and return
                return I.do_return(s)
            s.mem[(d, 4)] = rest[0]; s.mem[(d, 3)] = mk(rest[1:]); s.mem[(d, 5)] = 1

            def got(I, s, v): s.mem[(d, 6)] = v
            I.call_callable(s, fty, ('r', (d, 2), ()), [('r', (d, 4), ())], got)
            return None
        if ph == 1:
            b = I.force_bool(s, s.mem[(d, 6)])
            if b:
                r = s.mem[(d, 1)]
                s.store(r, mk(elems(s.load(r)) + [s.mem[(d, 4)]]))
                s.mem[(d, 4)] = UNINIT; s.mem[(d, 5)] = 0
                return None
            s.mem[(d, 5)] = 2
            if I.drop_value(s, et, ('r', (d, 4), ())) is RESCHED: s.mem[(d, 5)] = 1
            return None
        s.mem[(d, 4)] = UNINIT; s.mem[(d, 5)] = 0
        return None
    return step


# slices and iterators: ('it', ref-to-seq, next, end)
def h_identity(c): return c.a[0]


def h_iter(c):
    r = c.a[0]
    return ('it', r, 0, len(elems(c.s.load(r))))


def h_into_iter(c):
    v = c.a[0]
    if v[0] == 'r': return h_iter(c)
    return ('into', mk(elems(v)))


def h_into_next(c):
    v = c.s.load(c.a[0])
    if v[0] != 'into': raise Undecided('iterator %r' % (v,))
    l = elems(v[1])
    if not l: return NONE
    c.s.store(c.a[0], ('into', mk(l[1:])))
    return some(l[0])


def drop_into(I, s, td, ty, key, path):
    v = s.read(key, path)
    if v[0] != 'into': raise Undecided('drop of %r' % (v,))
    l = elems(v[1])
    et = td['args'][0]
    if not l or not I.p.types[et].get('needs_drop'): return None
    tmp = s.heap(mk(l))
    return (('py', 'seqdrop', step_drop(I)), [('r', tmp, ()), et, 0], lambda I, s, v: s.mem.pop(tmp, None) and None)


def sub(c, v, n, what='slice index out of bounds'):
    """(lo, hi) denoted by a range value of the type of argument 1"""
    td = c.I.p.types[c.t[8][1]]; nm = td.get('def', '').rsplit('::', 1)[-1]
    f = v[2]
    if any(type(x) is not int for x in f): raise Undecided('range %r' % (v,))
    if nm == 'Range': lo, hi = f[0], f[1]
    elif nm == 'RangeTo': lo, hi = 0, f[0]
    elif nm == 'RangeFrom': lo, hi = f[0], n
    elif nm == 'RangeFull': lo, hi = 0, n
    elif nm == 'RangeInclusive': lo, hi = f[0], f[1] + 1
    elif nm == 'RangeToInclusive': lo, hi = 0, f[0] + 1
    else: raise Undecided('range type ' + nm)
    if lo > hi or hi > n: return None
    return lo, hi


def subref(r, lo, hi):
    p = r[2]
    if p and type(p[-1]) is tuple: return ('r', r[1], p[:-1] + (('S', p[-1][1] + lo, p[-1][1] + hi),))
    return ('r', r[1], p + (('S', lo, hi),))


def h_index(c):
    l = vec(c); i = c.a[1]
    if type(i) is int:
        if i >= len(l): raise PanicPath('index out of bounds')
        return elem_ref(c.a[0], i)
    if type(i) is tuple and i[0] == 'a' and c.t is not None:
        x = sub(c, i, len(l))
        if x is None: raise PanicPath('slice index out of bounds')
        return subref(c.a[0], *x)
    raise Undecided('index %r' % (i,))


def h_get(c):
    l = vec(c); i = c.a[1]
    if type(i) is int: return some(elem_ref(c.a[0], i)) if i < len(l) else NONE
    if type(i) is tuple and i[0] == 'a' and c.t is not None:
        x = sub(c, i, len(l))
        return NONE if x is None else some(subref(c.a[0], *x))
    raise Undecided('index %r' % (i,))


def h_first(c): return some(elem_ref(c.a[0], 0)) if vec(c) else NONE


def h_last(c):
    l = vec(c)
    return some(elem_ref(c.a[0], len(l) - 1)) if l else NONE


def h_append(c):
    o = vec(c, 1)
    c.s.store(c.a[0], mk(vec(c) + o)); c.s.store(c.a[1], mk([]))
    return UNIT


def idx(x):
    if type(x) is not int: raise Undecided('index %r' % (x,))
    return x


def h_swap(c):
    l = vec(c); a, b = idx(c.a[1]), idx(c.a[2])
    if a >= len(l) or b >= len(l): raise PanicPath('swap out of bounds')
    l[a], l[b] = l[b], l[a]
    c.s.store(c.a[0], mk(l))
    return UNIT


def h_reverse(c):
    c.s.store(c.a[0], mk(vec(c)[::-1]))
    return UNIT


def h_rotate(left):
    def h(c):
        l = vec(c); k = idx(c.a[1])
        if k > len(l): raise PanicPath('rotate out of bounds')
        if not left: k = len(l) - k
        c.s.store(c.a[0], mk(l[k:] + l[:k]))
        return UNIT
    return h


def h_split_off(c):
    l = vec(c); k = idx(c.a[1])
    if k > len(l): raise PanicPath('split_off out of bounds')
    c.s.store(c.a[0], mk(l[:k]))
    return mk(l[k:])


def h_split_at(c):
    l = vec(c); k = idx(c.a[1])
    if k > len(l): raise PanicPath('split_at out of bounds')
    return ('a', 0, (subref(c.a[0], 0, k), subref(c.a[0], k, len(l))))


def h_truncate(c):
    l = vec(c); k = idx(c.a[1])
    if k >= len(l): return UNIT
    I, s = c.I, c.s
    s.store(c.a[0], mk(l[:k]))
    return drop_list(c, l[k:], UNIT)


def drop_list(c, l, ret):
    """drop the given elements of the vector type of this call, then return ret"""
    I, s = c.I, c.s
    et = c.fn.args[0]
    if not l or not I.p.types[et].get('needs_drop'): return ret
    tmp = s.heap(mk(l)); t = c.t

    def done(I, s, v):
        s.mem.pop(tmp, None)
        f = s.frames[-1]; I.assign(s, f, t[4], ret); f.bb, f.i = t[5], 0
    I.push2(s, (('py', 'seqdrop', step_drop(I)), [('r', tmp, ()), et, 0], done))
    return NORET


def h_drain(c):
    """removes the range at once; the Drain owns the removed elements"""
    l = vec(c)
    x = sub(c, c.a[1], len(l))
    if x is None: raise PanicPath('drain range out of bounds')
    c.s.store(c.a[0], mk(l[:x[0]] + l[x[1]:]))
    return ('into', mk(l[x[0]:x[1]]))


def h_into_vec(c):
    # vec![a, b]: a Box<MaybeUninit<[T; N]>> whose array was written
    try: return mk(list(c.a[0][1][2][1][2][0][2]))
    except (IndexError, TypeError): raise Undecided('vec! of %r' % (c.a[0],))


def h_to_vec(c):
    I, s = c.I, c.s
    et = c.fn.args[0]
    td = I.p.types[et]
    if td.get('needs_drop'): raise Undecided('clone of a slice of ' + td['name'])
    return mk(vec(c))


def h_push_front(c):
    c.s.store(c.a[0], mk([c.a[1]] + vec(c)))
    return UNIT


def h_pop_front(c):
    l = vec(c)
    if not l: return NONE
    c.s.store(c.a[0], mk(l[1:]))
    return some(l[0])


def h_remove_opt(c):
    l = vec(c); i = idx(c.a[1])
    if i >= len(l): return NONE
    c.s.store(c.a[0], mk(l[:i] + l[i + 1:]))
    return some(l[i])


def h_contains(c):
    x = deep(c.s, c.a[1])
    for y in vec(c):
        y = deep(c.s, y)
        if type(x) is int and type(y) is int:
            if x == y: return 1
        elif x == y: return 1
        else: raise Undecided('contains')
    return 0


def h_extend_slice(c):
    if c.I.p.types[c.fn.args[0]].get('needs_drop'): raise Undecided('extend_from_slice')
    c.s.store(c.a[0], mk(vec(c) + vec(c, 1)))
    return UNIT


def h_mem_take(c):
    v = c.s.load(c.a[0])
    td = c.I.p.types[c.fn.args[0]]
    if td['k'] == 'int' or td['k'] == 'bool': d = 0
    elif td.get('def') in ('std::vec::Vec', 'std::collections::VecDeque'): d = mk([])
    elif td.get('def', '').endswith('BTreeMap'): d = mk([])
    elif td.get('def') == 'std::option::Option': d = NONE
    else: return DECLINE
    c.s.store(c.a[0], d)
    return v


V = 'std::vec::Vec::<T, A>::'
S = 'std::slice::<impl [T]>::'
D = 'std::collections::VecDeque::<T, A>::'
H = {
    'drop:std::vec::Vec': drop_vec, 'drop:std::collections::VecDeque': drop_vec, 'drop:std::vec::IntoIter': drop_into, 'drop:std::vec::Drain': drop_into, 'drop:std::collections::vec_deque::IntoIter': drop_into, 'drop:std::collections::vec_deque::Drain': drop_into,
    'std::mem::take': h_mem_take,
    "std::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter": h_iter, "std::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter": h_iter,
    "<&'a [T] as std::iter::IntoIterator>::into_iter": h_iter, "<&'a mut [T] as std::iter::IntoIterator>::into_iter": h_iter,
    'std::slice::index::<impl std::ops::Index<I> for [T]>::index': h_index, 'std::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut': h_index,
    D + 'push_front': h_push_front, D + 'push_back': h_push, D + 'pop_front': h_pop_front, D + 'pop_back': h_pop, D + 'front': h_first, D + 'back': h_last, D + 'front_mut': h_first, D + 'back_mut': h_last, D + 'remove': h_remove_opt,
    'std::collections::VecDeque::<T>::new': h_new, 'std::collections::VecDeque::<T>::with_capacity': h_new, '<std::collections::VecDeque<T> as std::default::Default>::default': h_new, '<std::vec::Vec<T> as std::default::Default>::default': h_new,
    'std::vec::Vec::<T>::new': h_new, 'std::vec::Vec::<T>::with_capacity': h_new,
    '<std::vec::Vec<T, A> as std::ops::Deref>::deref': h_identity, '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut': h_identity,
    '<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref': h_identity, '<std::vec::Vec<T, A> as std::convert::AsMut<[T]>>::as_mut': h_identity,
    V + 'push': h_push, V + 'pop': h_pop, V + 'swap_remove': h_swap_remove, V + 'retain': h_retain, V + 'retain_mut': h_retain, V + 'split_off': h_split_off, V + 'as_slice': h_identity, V + 'as_mut_slice': h_identity, V + 'into_boxed_slice': lambda c: ('box', c.a[0]),
    V + 'remove': h_remove, V + 'extend_from_slice': h_extend_slice, V + 'capacity': lambda c: len(vec(c)),
    S + 'iter': h_iter, S + 'iter_mut': h_iter, S + 'first': h_first, S + 'last': h_last, S + 'first_mut': h_first, S + 'last_mut': h_last, S + 'get': h_get, S + 'get_mut': h_get, S + 'get_unchecked': h_index, S + 'get_unchecked_mut': h_index, S + 'to_vec': h_to_vec, 'std::slice::<impl [T]>::into_vec': lambda c: c.a[0][1], 'std::boxed::Box::<T>::new_uninit': lambda c: ('box', UNINIT), 'std::boxed::box_assume_init_into_vec_unsafe': h_into_vec,
    S + 'swap': h_swap, S + 'reverse': h_reverse, S + 'rotate_left': h_rotate(True), S + 'rotate_right': h_rotate(False), S + 'split_at': h_split_at, S + 'split_at_mut': h_split_at, S + 'contains': h_contains,
    '<std::vec::Vec<T, A> as std::clone::Clone>::clone': h_to_vec,
    '<std::vec::Vec<T, A> as std::ops::Index<I>>::index': h_index, '<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut': h_index,
    '<std::collections::VecDeque<T, A> as std::ops::Index<usize>>::index': h_index, '<std::collections::VecDeque<T, A> as std::ops::IndexMut<usize>>::index_mut': h_index,
}
for X in (V, D, S):
    H.update({X + 'len': h_len, X + 'is_empty': h_is_empty})
for X in (V, D):
    H.update({X + 'clear': h_clear, X + 'insert': h_insert, X + 'truncate': h_truncate, X + 'append': h_append, X + 'drain': h_drain, X + 'iter': h_iter, X + 'iter_mut': h_iter, X + 'get': h_get, X + 'get_mut': h_get, X + 'swap': h_swap,
              X + 'reserve': h_noop, X + 'reserve_exact': h_noop, X + 'shrink_to_fit': h_noop, X + 'contains': h_contains})
for X in ('std::vec::Vec<T, A>', 'std::collections::VecDeque<T, A>'):
    H.update({"<&'a %s as std::iter::IntoIterator>::into_iter" % X: h_iter, "<&'a mut %s as std::iter::IntoIterator>::into_iter" % X: h_iter, '<%s as std::iter::IntoIterator>::into_iter' % X: h_into_iter})
import iters
for k, v in iters.H.items(): H.setdefault(k, v)
