"""Iterators: consumers of arbitrary iterator types are modelled through the type's `next`; adapters are interpreted from their MIR."""
from engine import *
from env import *
import seq
from seq import elems, mk


def call_next(I, s, ity, ref, on_ret, back=False):
    x = I.p.iters.get(ity, {}).get('next_back' if back else 'next')
    if x is None: raise Undecided('no iterator instance for ' + I.p.types[ity]['name'])
    fn = I.p.fns[x]
    h = I.find(fn)
    if h is not None:
        cc = Call(I, s, fn, [ref], None); cc.on_ret = on_ret
        v = h(cc)
        if v is NORET and cc.took: return
        if v is not NORET and v is not DECLINE and v is not RESCHED:
            on_ret(I, s, v)
            return
        if v is not DECLINE: raise Undecided('iterator handler ' + fn.def_)
    if not fn.blocks: raise Undecided('unmodelled function ' + fn.def_)
    I.push(s, fn, [ref], None, None, False, on_ret)


def self_iter(c):
    """(type, by_value) of the receiver"""
    t = c.t[8][0] if c.t is not None else None
    if t is None: t = c.fn.selfty
    if t is None: raise Undecided('receiver type of ' + c.fn.def_)
    return t


# consumer kernels: step(I, s, L, item) -> True when finished; L is a tiny accessor of the pseudo frame's locals
class L:
    def __init__(l, s): l.s = s; l.d = s.frames[-1].depth
    def __getitem__(l, i): return l.s.mem[(l.d, i)]
    def __setitem__(l, i, v): l.s.mem[(l.d, i)] = v
    def ref(l, i): return ('r', (l.d, i), ())


REF, OWN, ACC, CLO, PH, IT, CNT, RES = 1, 2, 3, 4, 5, 6, 7, 8


def consume(name, item, finish, back=False, needs_clo=True, acc0=None, byref=False):
    """item(I, s, l, fty, meta) handles one item found in l[IT]: returns None to go on, ('ret', v) to stop, 'call' if it pushed a call whose result will be
    handled by item2 (phase 2)."""
    def handler(c):
        I, s = c.I, c.s
        ity = self_iter(c)
        td = I.p.types[ity]
        own = c.a[0]; ref = None
        if c.t is None: raise Undecided('indirect call of ' + c.fn.def_)
        if byref or (td['k'] == 'ref' and I.p.iters.get(ity, {}).get('next') is None): ity = td['elem']; ref = own
        meta = (name, ity, c.t[6] if c.t is not None else None, tuple(c.t[8]) if c.t is not None else ())
        fty = c.t[8][-1] if needs_clo and c.t is not None else None
        clo = c.a[-1] if needs_clo else UNINIT
        acc = acc0(c) if acc0 else UNINIT
        t = c.t

        def done(I, s, v):
            fr = s.frames[-1]; I.assign(s, fr, t[4], v); fr.bb, fr.i = t[5], 0

        def step(s):
            l = L(s)
            ph = l[PH]
            r = ('r', (l.d, OWN), ()) if l[REF] is UNINIT else l[REF]
            if ph == 0:
                def got(I, s, v): L(s)[IT] = v; L(s)[PH] = 1
                call_next(I, s, ity, r, got, back)
                return None
            if ph == 1:
                v = l[IT]
                if type(v) is not tuple or v[0] != 'a': raise Undecided('iterator item %r' % (v,))
                if v[1] == 0:
                    l[0] = finish(I, s, l, meta); l[PH] = 3
                    return None
                l[IT] = v[2][0]; l[PH] = 0
                x = item(I, s, l, fty, meta)
                if x == 'drop': l[PH] = 5
                elif x is not None and x != 'call': l[0] = x[1]; l[PH] = 3
                return None
            if ph == 2:
                l[PH] = 0
                x = item.after(I, s, l, fty, meta)
                if x == 'drop': l[PH] = 5
                elif x is not None and x != 'call': l[0] = x[1]; l[PH] = 3
                return None
            if ph == 5:  # the item in IT was not used
                it = I.p.iters.get(ity, {}).get('item')
                l[PH] = 0
                if it is not None and I.drop_value(s, it, l.ref(IT)) is RESCHED: l[PH] = 5
                return None
            if ph == 4 and l[CLO] is not UNINIT and fty is not None:
                if I.drop_value(s, fty, l.ref(CLO)) is not RESCHED: l[PH] = 6
                return None
            if ph == 3:
                if l[REF] is UNINIT and I.p.types[ity].get('needs_drop'):
                    l[PH] = 4
                    if I.drop_value(s, ity, ('r', (l.d, OWN), ())) is RESCHED: l[PH] = 3
                    return None
                l[PH] = 4
                return None
            return I.do_return(s)
        I.push2(s, (('py', 'iter:%s:%s:%s' % (name, ity, fty), step), [ref if ref is not None else UNINIT, own if ref is None else UNINIT, acc, clo, 0, UNINIT, 0, UNINIT], done))
        return NORET
    return handler


class Item:
    """wraps the two halves of an item handler (before and after the callback)"""
    def __init__(i, f, after=None): i.f, i.after = f, after
    def __call__(i, *a): return i.f(*a)


def to_call(args):
    def f(I, s, l, fty, meta):
        l[PH] = 2
        d = l.d

        def got(I, s, v): s.mem[(d, RES)] = v
        I.call_callable(s, fty, ('r', (d, CLO), ()), args(l), got)
        return 'call'
    return f


def fb(I, s, v): return bool(I.force_bool(s, v))


def i_count(I, s, l, fty, meta): l[CNT] = l[CNT] + 1; return 'drop'
def i_push(I, s, l, fty, meta): l[ACC] = mk(elems(l[ACC]) + [l[IT]])
def i_last(I, s, l, fty, meta):
    old, l[ACC] = l[ACC], some(l[IT])
    if old[1] == 1: l[IT] = old[2][0]; return 'drop'


def i_nth(I, s, l, fty, meta):
    if l[CNT] == l[ACC]: return ('ret', some(l[IT]))
    l[CNT] = l[CNT] + 1
    return 'drop'


def a_any(I, s, l, fty, meta):
    if fb(I, s, l[RES]): return ('ret', 1)
def a_all(I, s, l, fty, meta):
    if not fb(I, s, l[RES]): return ('ret', 0)
def a_find(I, s, l, fty, meta):
    if fb(I, s, l[RES]): return ('ret', some(l[IT]))
    return 'drop'
def a_find_map(I, s, l, fty, meta):
    v = l[RES]
    if type(v) is not tuple or v[0] != 'a': raise Undecided('find_map result %r' % (v,))
    if v[1] == 1: return ('ret', v)
def a_position(I, s, l, fty, meta):
    if fb(I, s, l[RES]): return ('ret', some(l[CNT]))
    l[CNT] = l[CNT] + 1
def a_rposition(I, s, l, fty, meta):
    l[CNT] = l[CNT] + 1
    if fb(I, s, l[RES]):
        # number of remaining items in front
        l[ACC] = l[CNT]
        return ('ret', ('rpos', l[CNT]))
def a_fold(I, s, l, fty, meta): l[ACC] = l[RES]
def a_none(I, s, l, fty, meta): return None


def h_collect(c):
    """collecting into an Option or a Result is interpreted from its MIR"""
    if c.t is not None and c.I.p.types[c.t[6]].get('def') in ('std::option::Option', 'std::result::Result') and c.fn.blocks: return DECLINE
    return COLLECT(c)


def collect_into(I, s, td, l):
    """build the collection described by td from a list of values"""
    n = td.get('def', '')
    if n in ('std::vec::Vec', 'std::collections::VecDeque', 'std::collections::vec_deque::VecDeque'): return mk(l)
    if n.endswith('BTreeMap'):
        import btree
        return btree.from_list(I, s, l)
    if n == 'std::boxed::Box': return ('box', mk(l))
    raise Undecided('collect into ' + td['name'])


def f_collect(I, s, l, meta): return collect_into(I, s, I.p.types[meta[2]], elems(l[ACC]))
def empty(c): return mk([])


def h_rposition(c):
    """rposition: scans from the back; the index is counted from the front"""
    I, s = c.I, c.s
    base = c.a[0]
    v = s.load(base)
    if v[0] != 'it': raise Undecided('rposition on %r' % (v,))
    lo, hi = v[2], v[3]
    t = c.t; fty = c.t[8][-1]

    def done(I, s, v):
        fr = s.frames[-1]; I.assign(s, fr, t[4], v); fr.bb, fr.i = t[5], 0

    def step(s):
        l = L(s)
        if l[PH] == 0:
            if l[CNT] <= lo: l[0] = NONE; return I.do_return(s)
            l[CNT] = l[CNT] - 1
            l[PH] = 1
            d = l.d

            def got(I, s, v): s.mem[(d, RES)] = v
            I.call_callable(s, fty, ('r', (d, CLO), ()), [seq.elem_ref(s.load(l[REF])[1], l[CNT])], got)
            return None
        l[PH] = 0
        if fb(I, s, l[RES]): l[0] = some(l[CNT] - lo); return I.do_return(s)
        return None
    I.push2(s, (('py', 'iter:rposition:%s' % fty, step), [base, UNINIT, UNINIT, c.a[-1], 0, UNINIT, hi, UNINIT], done))
    return NORET


def mm(sign):
    def item(I, s, l, fty, meta):
        v = deep(s, l[IT])
        if type(v) is not int: raise Undecided('max/min of %r' % (v,))
        if l[ACC] is UNINIT or (sign > 0 and v >= deep(s, l[ACC])) or (sign < 0 and v < deep(s, l[ACC])): l[ACC] = l[IT]
    return item


COLLECT = consume('collect', i_push, f_collect, needs_clo=False, acc0=empty)
ARG = lambda l: [l[IT]]
ARGREF = lambda l: [l.ref(IT)]
H = {
    'iter:collect': h_collect,
    'iter:count': consume('count', i_count, lambda I, s, l, m: l[CNT], needs_clo=False),
    'iter:last': consume('last', i_last, lambda I, s, l, m: l[ACC], needs_clo=False, acc0=lambda c: NONE),
    'iter:nth': consume('nth', i_nth, lambda I, s, l, m: NONE, needs_clo=False, acc0=lambda c: c.a[1], byref=True),
    'iter:max': consume('max', mm(1), lambda I, s, l, m: NONE if l[ACC] is UNINIT else some(l[ACC]), needs_clo=False),
    'iter:min': consume('min', mm(-1), lambda I, s, l, m: NONE if l[ACC] is UNINIT else some(l[ACC]), needs_clo=False),
    'iter:any': consume('any', Item(to_call(ARG), a_any), lambda I, s, l, m: 0, byref=True),
    'iter:all': consume('all', Item(to_call(ARG), a_all), lambda I, s, l, m: 1, byref=True),
    'iter:find': consume('find', Item(to_call(ARGREF), a_find), lambda I, s, l, m: NONE, byref=True),
    'iter:rfind': consume('rfind', Item(to_call(ARGREF), a_find), lambda I, s, l, m: NONE, back=True, byref=True),
    'iter:find_map': consume('find_map', Item(to_call(ARG), a_find_map), lambda I, s, l, m: NONE, byref=True),
    'iter:position': consume('position', Item(to_call(ARG), a_position), lambda I, s, l, m: NONE, byref=True),
    'iter:rposition': h_rposition,
    'iter:for_each': consume('for_each', Item(to_call(ARG), a_none), lambda I, s, l, m: UNIT),
    'iter:fold': consume('fold', Item(to_call(lambda l: [l[ACC], l[IT]]), a_fold), lambda I, s, l, m: l[ACC], acc0=lambda c: c.a[1]),
    'iter:rfold': consume('rfold', Item(to_call(lambda l: [l[ACC], l[IT]]), a_fold), lambda I, s, l, m: l[ACC], acc0=lambda c: c.a[1], back=True),
    'iter:size_hint': lambda c: h_size_hint(c),
}


# ---- leaf iterators
def bounds(v):
    if v[0] == 'a' and len(v[2]) == 3:       # rebuilt field by field
        p, e = v[2][:2]
        while type(p) is tuple and p[0] == 'a' and len(p[2]) == 1: p = p[2][0]
        if type(p) is tuple and p[0] == 'r' and p[2] and type(p[2][-1]) is int:
            b = ('r', p[1], p[2][:-1])
            n = ptr_index(e, b)
            if n is not None: return ('it', b, p[2][-1], n)
    if v[0] != 'it': raise Undecided('iterator %r' % (v,))
    return v


def h_it_next(c):
    v = bounds(c.s.load(c.a[0]))
    if v[2] >= v[3]: return NONE
    c.s.store(c.a[0], ('it', v[1], v[2] + 1, v[3]))
    return some(seq.elem_ref(v[1], v[2]))


def h_it_back(c):
    v = bounds(c.s.load(c.a[0]))
    if v[2] >= v[3]: return NONE
    c.s.store(c.a[0], ('it', v[1], v[2], v[3] - 1))
    return some(seq.elem_ref(v[1], v[3] - 1))


def h_it_len(c):
    v = c.s.load(c.a[0])
    if v[0] == 'it': return v[3] - v[2]
    if v[0] == 'into': return len(elems(v[1]))
    raise Undecided('len of %r' % (v,))


def leaf_len(c):
    v = c.s.load(c.a[0])
    if type(v) is not tuple: return None
    if v[0] == 'it': return v[3] - v[2]
    if v[0] == 'into': return len(elems(v[1]))
    r = rng(c)
    tys = [c.fn.locals[1]] if c.fn.locals else [x for x in c.fn.args if type(x) is int][:1]
    if r is not None and tys and 'ops::Range<' in (c.I.p.types.get(tys[0]) or {}).get('name', ''): return max(0, r[1] - r[0])
    return None


def known_len(v):
    if type(v) is tuple and v[0] == 'it': return v[3] - v[2]
    if type(v) is tuple and v[0] == 'into': return len(elems(v[1]))
    return None


def h_size_hint(c):
    n = leaf_len(c)
    if n is not None: return ('a', 0, (n, some(n)))
    return DECLINE if c.fn.blocks else ('a', 0, (0, NONE))


def h_exact_len(c):
    n = leaf_len(c)
    return DECLINE if n is None else n


def h_into_back(c):
    v = c.s.load(c.a[0])
    if v[0] != 'into': raise Undecided('iterator %r' % (v,))
    l = elems(v[1])
    if not l: return NONE
    c.s.store(c.a[0], ('into', mk(l[:-1])))
    return some(l[-1])


def rng(c):
    v = c.s.load(c.a[0])
    if v[0] == 'a' and len(v[2]) == 2 and type(v[2][0]) is int and type(v[2][1]) is int: return v[2]
    return None


def h_range_next(c):
    r = rng(c)
    if r is None: return DECLINE
    if r[0] >= r[1]: return NONE
    c.s.store(c.a[0], ('a', 0, (r[0] + 1, r[1])))
    return some(r[0])


def h_range_back(c):
    r = rng(c)
    if r is None: return DECLINE
    if r[0] >= r[1]: return NONE
    c.s.store(c.a[0], ('a', 0, (r[0], r[1] - 1)))
    return some(r[1] - 1)


for t in ("slice::Iter<'a, T>", "slice::IterMut<'a, T>", "collections::vec_deque::Iter<'a, T>", "collections::vec_deque::IterMut<'a, T>"):
    H["<std::%s as std::iter::Iterator>::next" % t] = h_it_next
    H["<std::%s as std::iter::DoubleEndedIterator>::next_back" % t] = h_it_back
    H["<std::%s as std::iter::ExactSizeIterator>::len" % t] = h_it_len
for t in ("vec::IntoIter<T, A>", "vec::Drain<'_, T, A>", "collections::vec_deque::IntoIter<T, A>", "collections::vec_deque::Drain<'_, T, A>"):
    H["<std::%s as std::iter::Iterator>::next" % t] = seq.h_into_next
    H["<std::%s as std::iter::DoubleEndedIterator>::next_back" % t] = h_into_back
    H["<std::%s as std::iter::ExactSizeIterator>::len" % t] = h_it_len
H['std::iter::ExactSizeIterator::len'] = h_exact_len
H['std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next'] = h_range_next
H['std::iter::range::<impl std::iter::DoubleEndedIterator for std::ops::Range<A>>::next_back'] = h_range_back


# ---- extend / from_iter
def extend_with(c, into_arg):
    """Vec::extend: collect the iterator, then append"""
    I, s = c.I, c.s
    ty = c.t[8][into_arg]
    t = c.t
    x = I.p.intos.get(ty)
    if not x: raise Undecided('no IntoIterator instance for ' + I.p.types[ty]['name'])
    return x


def h_extend(c):
    I, s = c.I, c.s
    x = extend_with(c, 1)
    ity = x['iter']; fn = I.p.fns[x['into_iter']]
    t = c.t
    target = c.a[0]

    def done(I, s, v):
        fr = s.frames[-1]; I.assign(s, fr, t[4], UNIT); fr.bb, fr.i = t[5], 0

    def step(s):
        l = L(s)
        ph = l[PH]
        if ph == 5:
            def got(I, s, v): L(s)[OWN] = v; L(s)[PH] = 0
            call_fn(I, s, fn, [l[ACC]], got)
            return None
        if ph == 0:
            def got2(I, s, v): L(s)[IT] = v; L(s)[PH] = 1
            call_next(I, s, ity, l.ref(OWN), got2)
            return None
        if ph == 1:
            v = l[IT]
            if v[1] == 0: l[PH] = 3; return None
            x = v[2][0]
            if type(x) is tuple and x[0] in ('r', 'cref') and copied: x = s.load(x)
            s.store(l[REF], mk(elems(s.load(l[REF])) + [x]))
            l[PH] = 0
            return None
        if ph == 3:
            l[PH] = 4
            if I.p.types[ity].get('needs_drop'): I.drop_value(s, ity, l.ref(OWN))
            return None
        l[0] = UNIT
        return I.do_return(s)
    copied = 'Extend<&' in c.fn.def_
    I.push2(s, (('py', 'iter:extend:%s' % ity, step), [target, UNINIT, c.a[1], UNINIT, 5, UNINIT, 0, UNINIT], done))
    return NORET


def call_fn(I, s, fn, vals, on_ret):
    h = I.find(fn)
    if h is not None:
        v = h(Call(I, s, fn, vals, None))
        if v is not NORET and v is not DECLINE and v is not RESCHED:
            on_ret(I, s, v)
            return
        if v is not DECLINE: raise Undecided('handler ' + fn.def_)
    if not fn.blocks: raise Undecided('unmodelled function ' + fn.def_)
    I.push(s, fn, vals, None, None, False, on_ret)


def h_from_iter(c):
    I, s = c.I, c.s
    x = extend_with(c, 0)
    ity = x['iter']; fn = I.p.fns[x['into_iter']]
    t = c.t

    def done(I, s, v):
        fr = s.frames[-1]; I.assign(s, fr, t[4], collect_into(I, s, I.p.types[t[6]], elems(v))); fr.bb, fr.i = t[5], 0

    def step(s):
        l = L(s)
        ph = l[PH]
        if ph == 5:
            def got(I, s, v): L(s)[OWN] = v; L(s)[PH] = 0
            call_fn(I, s, fn, [l[CLO]], got)
            return None
        if ph == 0:
            def got2(I, s, v): L(s)[IT] = v; L(s)[PH] = 1
            call_next(I, s, ity, l.ref(OWN), got2)
            return None
        if ph == 1:
            v = l[IT]
            if v[1] == 0: l[PH] = 3; return None
            l[ACC] = mk(elems(l[ACC]) + [v[2][0]]); l[PH] = 0
            return None
        if ph == 3:
            l[PH] = 4
            if I.p.types[ity].get('needs_drop'): I.drop_value(s, ity, l.ref(OWN))
            return None
        l[0] = l[ACC]
        return I.do_return(s)
    I.push2(s, (('py', 'iter:from_iter:%s' % ity, step), [UNINIT, UNINIT, mk([]), c.a[0], 5, UNINIT, 0, UNINIT], done))
    return NORET


for v in ('std::vec::Vec<T, A>', 'std::collections::VecDeque<T, A>'):
    H['<%s as std::iter::Extend<T>>::extend' % v] = h_extend
    H["<%s as std::iter::Extend<&'a T>>::extend" % v] = h_extend
H['<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter'] = h_from_iter
H['<std::collections::VecDeque<T> as std::iter::FromIterator<T>>::from_iter'] = h_from_iter


# ---- binary search and sorting through a comparison callback
def ordering(v):
    if type(v) is tuple and v[0] == 'a': return v[1] - 1
    if type(v) is int: return v if v <= 1 else -1
    raise Undecided('ordering %r' % (v,))


def h_binary_search_by(c):
    """every element is compared; the results must be monotone, otherwise the sequence was not sorted"""
    I, s = c.I, c.s
    t = c.t; fty = c.t[8][-1]

    def done(I, s, v):
        fr = s.frames[-1]; I.assign(s, fr, t[4], v); fr.bb, fr.i = t[5], 0

    def step(s):
        l = L(s)
        n = len(elems(s.load(l[REF])))
        if l[PH] == 1:
            l[ACC] = l[ACC] + (ordering(l[RES]),); l[PH] = 0
        if l[CNT] >= n:
            r = l[ACC]
            if list(r) != sorted(r): raise Violation('C28', 'unsorted', 'binary search in a sequence that is not sorted (comparison results %s)' % (list(r),))
            if 0 in r: l[0] = ('a', 0, (r.index(0),))
            else: l[0] = ('a', 1, (sum(1 for x in r if x < 0),))
            return I.do_return(s)
        i = l[CNT]; l[CNT] = i + 1; l[PH] = 1
        d = l.d

        def got(I, s, v): s.mem[(d, RES)] = v
        I.call_callable(s, fty, ('r', (d, CLO), ()), [seq.elem_ref(l[REF], i)], got)
        return None
    I.push2(s, (('py', 'bsearch:%s' % fty, step), [c.a[0], UNINIT, (), c.a[1], 0, UNINIT, 0, UNINIT], done))
    return NORET


def h_sort_by(c):
    """insertion sort through the comparison callback; the unstable sorts leave equal elements in any order"""
    I, s = c.I, c.s
    t = c.t; fty = c.t[8][-1]
    unstable = 'unstable' in c.fn.def_

    def done(I, s, v):
        fr = s.frames[-1]; I.assign(s, fr, t[4], UNIT); fr.bb, fr.i = t[5], 0

    def step(s):
        # ACC = sorted prefix length, CNT = position of the element that moves down
        l = L(s)
        x = elems(s.load(l[REF]))
        if l[PH] == 1:
            l[PH] = 0
            o = ordering(l[RES])
            if o > 0 or o == 0 and unstable and s.choose(2):
                i = l[CNT]
                x[i - 1], x[i] = x[i], x[i - 1]
                s.store(l[REF], mk(x)); l[CNT] = i - 1
            else: l[CNT] = 0
        if l[CNT] == 0:
            l[ACC] = l[ACC] + 1; l[CNT] = l[ACC]
            if l[ACC] >= len(x): l[0] = UNIT; return I.do_return(s)
        l[PH] = 1
        d = l.d

        def got(I, s, v): s.mem[(d, RES)] = v
        I.call_callable(s, fty, ('r', (d, CLO), ()), [seq.elem_ref(l[REF], l[CNT] - 1), seq.elem_ref(l[REF], l[CNT])], got)
        return None
    I.push2(s, (('py', 'sort%s:%s' % (unstable and '_unstable' or '', fty), step), [c.a[0], UNINIT, 0, c.a[1], 0, UNINIT, 0, UNINIT], done))
    return NORET


def a_try_fold(I, s, l, fty, meta):
    v = l[RES]
    n = I.p.types[meta[2]].get('def', '')
    if type(v) is not tuple or v[0] != 'a' or n not in TRY: raise Undecided('try_fold result %r of %s' % (v, n))
    if v[1] != TRY[n]: return ('ret', v)
    l[ACC] = v[2][0]


def f_try_fold(I, s, l, meta):
    n = I.p.types[meta[2]].get('def', '')
    if n not in TRY: raise Undecided('try_fold into ' + n)
    return ('a', TRY[n], (l[ACC],))


TRY = {'std::option::Option': 1, 'std::result::Result': 0, 'std::ops::ControlFlow': 0, 'std::ops::try_trait::NeverShortCircuit': 0}
TRY_FOLD = consume('try_fold', Item(to_call(lambda l: [l[ACC], l[IT]]), a_try_fold), f_try_fold, acc0=lambda c: c.a[1], byref=True)
H['<std::vec::IntoIter<T, A> as std::iter::Iterator>::try_fold'] = TRY_FOLD
H['std::slice::<impl [T]>::binary_search_by'] = h_binary_search_by
for n in ('sort_unstable_by', 'sort_by'): H['std::slice::<impl [T]>::' + n] = h_sort_by
