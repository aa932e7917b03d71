"""SignalVec combinators (C23-C31): abstract interpretation over all histories of diffs, with vectors of at most N
uninterpreted elements; the ghost state replays every diff of every input and of the output."""
import os
from engine import *
from env import *
import env, stdlib, seq, conc, iters
from seq import elems, mk

N = int(os.environ.get('ABSINT_N', '3'))
BURST = int(os.environ.get('ABSINT_BURST', '2'))
DIFFS = ('Replace', 'InsertAt', 'UpdateAt', 'RemoveAt', 'Move', 'Push', 'Pop', 'Clear')


class VMon(Mon):
    def __init__(m, spec): Mon.__init__(m, spec); m.woken = frozenset(); m.alive = (); m.src = ()
    def copy(m):
        n = Mon.copy(m); n.__class__ = VMon
        n.woken, n.alive, n.src = m.woken, m.alive, m.src
        return n
    def canon(m): return Mon.canon(m) + (tuple(sorted(m.woken)), m.alive, m.src)


def adt_variants(p, t): return [v['name'] for v in p.types[t]['variants']]


def diff_type(p, t):
    """the VecDiff / MapDiff inside Poll<Option<..>>"""
    for i in range(6):
        d = p.types[t]
        if d['k'] == 'adt' and last(d['def']) in ('VecDiff', 'MapDiff'): return t
        if not d.get('args'): break
        t = d['args'][0]
    raise Undecided('diff type')


def mkdiff(p, t, name, *fields):
    vs = p.types[t]['variants']
    for i, v in enumerate(vs):
        if v['name'] == name:
            names = [f[0] for f in v['fields']]
            f = dict(zip(DFIELDS[name], fields))
            return ('a', i, tuple(f[n] for n in names))
    raise Undecided('diff ' + name)


DFIELDS = {'Replace': ('values',), 'InsertAt': ('index', 'value'), 'UpdateAt': ('index', 'value'), 'RemoveAt': ('index',), 'Move': ('old_index', 'new_index'), 'Push': ('value',), 'Pop': (), 'Clear': ()}


def parse(p, t, v):
    """(name, {field: value})"""
    vv = p.types[t]['variants'][v[1]]
    return vv['name'], {f[0]: v[2][i] for i, f in enumerate(vv['fields'])}


class BadDiff(Exception): pass


def replay(l, name, f):
    """apply a diff to a list of values; BadDiff if it is not valid for it"""
    l = list(l); n = len(l)
    if name == 'Replace': return list(elems(f['values']))
    if name == 'Push': return l + [f['value']]
    if name == 'Clear': return []
    if name == 'Pop':
        if not l: raise BadDiff('Pop of an empty list')
        return l[:-1]
    if name == 'Move':
        a, b = f['old_index'], f['new_index']
        if type(a) is not int or type(b) is not int: raise Undecided('symbolic index')
        if not (0 <= a < n and 0 <= b < n): raise BadDiff('Move from %d to %d in a list of %d elements' % (a, b, n))
        x = l.pop(a); l.insert(b, x)
        return l
    i = f['index']
    if type(i) is not int: raise Undecided('symbolic index')
    if name == 'InsertAt':
        if not 0 <= i <= n: raise BadDiff('InsertAt %d in a list of %d elements' % (i, n))
        l.insert(i, f['value']); return l
    if not 0 <= i < n: raise BadDiff('%s %d in a list of %d elements' % (name, i, n))
    if name == 'UpdateAt': l[i] = f['value']
    else: del l[i]
    return l


def all_diffs(n, room):
    """every kind of diff that is valid for a list of n elements, adding at most room elements"""
    o = []
    for k in range(0, n + room + 1): o.append(('Replace', k))
    if room > 0:
        o.append(('Push',))
        for i in range(n + 1): o.append(('InsertAt', i))
    for i in range(n): o.append(('UpdateAt', i))
    for i in range(n): o.append(('RemoveAt', i))
    for i in range(n):
        for j in range(n): o.append(('Move', i, j))
    if n > 0: o.append(('Pop',))
    o.append(('Clear',))
    return o


def next_diff(c, id, r, dty):
    p = c.I.p
    t = diff_type(p, dty)
    if last(p.types[t]['def']) == 'MapDiff':
        import mapspec
        return mapspec.next_diff(c, id, r, t)
    et = p.types[t]['args'][0]
    cur = list(r.x or ())
    room = c.s.mon.spec.room(c, id, r, cur)
    opts = all_diffs(len(cur), room)
    if hasattr(c.s.mon.spec, 'allow'): opts = [o for o in opts if c.s.mon.spec.allow(c, id, r, o, len(cur))]
    o = opts[c.s.choose(len(opts))]
    new = lambda: make(c, et, 'e%s' % (r.name if type(r.name) is int else '_'))
    if o[0] == 'Replace':
        l = [new() for i in range(o[1])]; d = mkdiff(p, t, 'Replace', mk(l))
    elif o[0] == 'Push': d = mkdiff(p, t, 'Push', new())
    elif o[0] in ('InsertAt', 'UpdateAt'): d = mkdiff(p, t, o[0], o[1], new())
    elif o[0] == 'RemoveAt': d = mkdiff(p, t, 'RemoveAt', o[1])
    elif o[0] == 'Move': d = mkdiff(p, t, 'Move', o[1], o[2])
    else: d = mkdiff(p, t, o[0])
    r.x = tuple(replay(cur, *parse(p, t, d)))
    return d


def show(l): return '[%s]' % ', '.join(short(x) for x in l)


class VSpec(Spec):
    """ghost replay of inputs and output; subclasses give the expected output contents"""
    prop = 'C23'; kind = 'vec'; first = False; burst = BURST

    def __init__(p, prop, kind='vec', outer=0, nmax=None):
        Spec.__init__(p); p.prop, p.kind, p.outer = prop, kind, outer
        p.nmax = nmax; p.first = kind == 'signal'
        p.L = {}       # input id -> current contents
        p.last = {}    # input id -> last value of a signal input
        p.cbr = {}     # element -> callback result
        p.out = ()     # replayed output (or last delivered value)
        p.extra = {}
        p.order = ()   # total preorder of elements: tuple of classes
        p.n = {}       # input id -> number of changes it gave in this poll
        p.top = {}     # name -> id of the top level inputs

    def copy(p):
        n = Spec.copy(p)
        n.L, n.last, n.cbr, n.extra, n.top, n.n = dict(p.L), dict(p.last), dict(p.cbr), dict(p.extra), dict(p.top), dict(p.n)
        return n

    def canon(p): return (tuple(p.L.items()), tuple(p.last.items()), tuple(p.cbr.items()), p.out, tuple(p.extra.items()), p.order, tuple(p.top.items()), tuple(p.n.items()))

    def src(p, name=0):
        """contents of the top level vector input"""
        return p.L.get(p.top.get(name), ())

    def live_elems(p):
        s = []
        for i in p.top.values(): s += list(p.L.get(i, ()))
        return s

    def gc(p):
        keep = set(map(repr, p.live_elems() + list(p.held())))
        for k in list(p.cbr):
            if repr(k) not in keep: del p.cbr[k]
        ids = set(p.top.values())
        for v in list(p.live_elems()) + list(p.cbr.values()) + list(p.held()):
            if type(v) is tuple and v and v[0] == 'in': ids.add(v[1])
        for k in list(p.L):
            if k not in ids: del p.L[k]
        for k in list(p.last):
            if k not in ids: del p.last[k]
        # deterministic order for the canonical form
        o = {repr(x): i for i, x in enumerate(p.live_elems() + list(p.held()))}
        p.cbr = dict(sorted(p.cbr.items(), key=lambda kv: o.get(repr(kv[0]), 999)))
        seen = list(p.top.values()) + [v[1] for v in p.live_elems() + list(p.cbr.values()) if type(v) is tuple and v and v[0] == 'in']
        oi = {}
        for i, x in enumerate(seen): oi.setdefault(x, i)
        p.L = dict(sorted(p.L.items(), key=lambda kv: oi.get(kv[0], 999)))
        p.last = dict(sorted(p.last.items(), key=lambda kv: oi.get(kv[0], 999)))
        keepo = keep
        p.order = tuple(x for x in (tuple(e for e in cl if repr(e) in keepo) for cl in p.order) if x)

    def held(p):
        """elements that are not in any input any more but still matter"""
        return ()

    def room(p, c, id, r, cur):
        return (p.nmax or N) - len(cur)

    # events
    def begin(p, c): p.n = {}; p.gc()

    def options(p, c, id, r, opts):
        # at most BURST changes of one input per poll of the combinator (further changes come in the next poll)
        if p.n.get(id, 0) >= p.burst: opts = opts.replace('S', '')
        return opts

    def poll(p, c, id, r, res, v):
        if type(r.name) is int and r.name not in p.top: p.top[r.name] = id
        if res == 'S':
            p.n[id] = p.n.get(id, 0) + 1
            if r.kind in ('vec', 'map'): p.L[id] = r.x
            else: p.last[id] = v
        p.on_poll(c, id, r, res, v)

    def on_poll(p, c, id, r, res, v): pass

    def cb(p, c, n, args, ret):
        e = args[0]
        if not any(e == x for x in p.live_elems()): p.fail('the callback is called with %s, which is not an element of the source %s' % (short(e), show(p.live_elems())))
        if e in p.cbr: p.fail('the callback is called twice for element %s' % short(e))
        p.cbr[e] = ret

    def end(p, c, res, v):
        if res == 'S': p.deliver(c, v)
        else:
            p.settled(c, res)
        p.gc()

    def deliver(p, c, v):
        t = c.I.p
        ty = diff_type(t, c.fn.args[0])
        name, f = parse(t, ty, v)
        try: p.out = tuple(replay(p.out, name, f))
        except BadDiff as e: p.fail('the emitted diff is not valid: %s' % e, 'invalid')

    def settled(p, c, res):
        w = p.expected(c)
        if w is None: return
        if not p.same_list(c, w, p.out):
            p.fail('after replaying every diff the output is %s, expected %s (source %s)' % (show(p.out), show(w), show(p.live_elems())), 'contents')

    def same_list(p, c, a, b):
        return len(a) == len(b) and all(p.same(c, x, y) for x, y in zip(a, b))

    def same(p, c, a, b):
        if a == b: return True
        return False

    def result(p, c, e):
        if e not in p.cbr: p.fail('the callback was never called for element %s' % short(e))
        return p.cbr[e]

    # policy
    def may_drop(p, c, id, r):
        """inputs that belong to elements may be dropped when the element is gone"""
        if id in p.top.values(): return False
        vals = p.live_elems() + [p.cbr[e] for e in p.live_elems() if e in p.cbr]
        return not any(type(v) is tuple and v and v[0] == 'in' and v[1] == id for v in vals)


class VIdent(VSpec):
    def expected(p, c): return p.src()


class VMap(VSpec):
    def expected(p, c): return [p.result(c, e) for e in p.src()]


class VMapSignal(VSpec):
    def expected(p, c):
        r = []
        for e in p.src():
            i = p.result(c, e)
            if i[1] not in p.last: p.fail('the signal of element %s was never polled' % short(e))
            r.append(p.last[i[1]])
        return r


class VFilter(VSpec):
    def expected(p, c): return [e for e in p.src() if c.I.force_bool(c.s, p.result(c, e))]


class VFilterMap(VSpec):
    def expected(p, c):
        r = []
        for e in p.src():
            v = p.result(c, e)
            if v[1] == 1: r.append(v[2][0])
        return r


class VFilterSignal(VSpec):
    def expected(p, c):
        r = []
        for e in p.src():
            i = p.result(c, e)
            if i[1] not in p.last: p.fail('the signal of element %s was never polled' % short(e))
            if c.I.force_bool(c.s, p.last[i[1]]): r.append(e)
        return r


class VChain(VSpec):
    def expected(p, c): return tuple(p.src(0)) + tuple(p.src(1))
    def room(p, c, id, r, cur): return (p.nmax or N) - len(p.live_elems())


class VFlatten(VSpec):
    burst = 1
    def expected(p, c):
        r = []
        for e in p.src(): r += list(p.L.get(e[1], ()))
        return r
    def room(p, c, id, r, cur):
        if id in p.top.values() or r.name == 0: return 2 - len(cur)
        return min((p.nmax or N) - sum(len(p.L.get(e[1], ())) for e in p.src()), 2 - len(cur))


class VEnumerate(VSpec):
    """the driver hands over the replayed output element by element"""
    kind = 'vec'
    def deliver(p, c, v): pass
    def settled(p, c, res):
        if len(p.out) != len(p.src()): p.fail('the output has %d elements, expected %d' % (len(p.out), len(p.src())), 'contents')
        for i, e in enumerate(p.src()):
            if p.out[i] != e: p.fail('element %d of the output is %s, expected %s' % (i, short(p.out[i]), short(e)), 'contents')
    def begin(p, c): VSpec.begin(p, c)
    def item(p, i, v): p.out = p.out[:i] + (v,)


class VSort(VSpec):
    def expected(p, c):
        l = []
        for e in p.src():
            i = len(l)
            while i > 0 and p.cmp(c, l[i - 1], e) > 0: i -= 1
            l.insert(i, e)
        return l
    def cmp(p, c, a, b): return order_cmp(c, p, a, b)


def order_cmp(c, p, a, b):
    """consistent total preorder on uninterpreted elements: -1, 0 or 1"""
    for x in (a, b):
        if not any(x in cl for cl in p.order):
            n = len(p.order)
            if not p.order: p.order = ((x,),); continue
            if p.strict: k = 2 * c.s.choose(n + 1)
            else: k = c.s.choose(2 * n + 1)
            if k % 2: p.order = p.order[:k // 2] + (p.order[k // 2] + (x,),) + p.order[k // 2 + 1:]
            else: p.order = p.order[:k // 2] + ((x,),) + p.order[k // 2:]
    pos = {}
    for i, cl in enumerate(p.order):
        for e in cl: pos[repr(e)] = i
    i, j = pos[repr(a)], pos[repr(b)]
    return (i > j) - (i < j)


VSpec.strict = False


class VDelay(VSpec):
    """removed elements stay until their future completes"""
    def held(p): return p.extra.get('rem', ())
    def room(p, c, id, r, cur): return (p.nmax or N) - len(cur) - len(p.held())
    def allow(p, c, id, r, o, n):
        # Replace and Clear turn every element into a removed one first
        if o[0] == 'Replace': return o[1] + n + len(p.held()) <= (p.nmax or N)
        return True
    def on_poll(p, c, id, r, res, v):
        if id in p.top.values():
            if res == 'S':
                old = p.extra.get('src', ())
                new = p.L[id]
                t = c.I.p; ty = diff_type(t, c.dty)
                gone = tuple(e for e in old if e not in new)
                if parse(t, ty, v)[0] != 'UpdateAt': p.extra['rem'] = p.held() + gone
                p.extra['src'] = new
                done = p.extra.get('done', ())
                p.extra['rem'] = tuple(e for e in p.extra.get('rem', ()) if p.cbr.get(e) is None or p.cbr[e][1] not in done)
        elif res == 'S':
            p.extra['done'] = p.extra.get('done', ()) + (id,)
            p.extra['rem'] = tuple(e for e in p.held() if p.cbr[e][1] != id)
    def begin(p, c):
        p.extra['done'] = tuple(i for i in p.extra.get('done', ()) if any(v[1] == i for v in p.cbr.values()))
        VSpec.begin(p, c)
    def settled(p, c, res):
        rem = p.held()
        live = [e for e in p.out if e not in rem]
        if tuple(live) != tuple(p.src()): p.fail('without the elements that wait for removal (%s) the output is %s, expected %s' % (show(rem), show(live), show(p.src())), 'contents')
        for e in rem:
            if sum(1 for x in p.out if x == e) != 1: p.fail('element %s, whose future has not completed, is not in the output %s exactly once' % (short(e), show(p.out)), 'contents')
        if res == 'N' and rem: p.fail('the end is delivered while removed elements wait for their futures', 'contents')
    def may_drop(p, c, id, r):
        if id in p.top.values(): return False
        keep = list(p.src()) + list(p.held())
        return not any(e in p.cbr and p.cbr[e][1] == id for e in keep)
    def lazy(p, c, id, r):
        # the future of an element that is still in the source needs no wakeup
        return any(e in p.cbr and p.cbr[e][1] == id for e in p.src())
    def may_end(p, c, id, r): return p.lazy(c, id, r)


class VValue(VSpec):
    """signals of a whole vector: at a quiescent point the last delivered value must be f(contents)"""
    dedupe = False
    def __init__(p, prop, f, dedupe=False): VSpec.__init__(p, prop, kind='signal'); p.f = f; p.dedupe = dedupe
    def value(p, c): return p.f(p, c)
    def deliver(p, c, v):
        w = p.value(c)
        v = deepval(c.s, v)
        if not p.eqv(c, v, w): p.fail('the value %s is delivered, expected %s for contents %s' % (short(v), short(w), show(p.src())))
        if p.dedupe and p.out and p.out[0] == v: p.fail('the value %s is delivered twice in a row' % short(v), 'repeat')
        p.out = (v,); p.extra['cur'] = tuple(p.src())
    def settled(p, c, res):
        if not p.out:
            if res == 'N' or p.first: return
        w = p.value(c)
        if not p.eqv(c, p.out[0], w): p.fail('the change to contents %s is not delivered: the last value is %s, expected %s' % (show(p.src()), short(p.out[0]), short(w)), 'stale')
    def eqv(p, c, v, w):
        if type(v) is tuple and v and v[0] == 'sum' and type(w) is tuple: return sorted(map(repr, v[1:])) == sorted(map(repr, w[1:]))
        return v == w
    def cb(p, c, n, args, ret):
        l = args[0]
        l = tuple(elems(l)) if type(l) is tuple and l[0] == 'seq' else None
        if l is None: raise Undecided('callback argument %r' % (args[0],))
        if l != tuple(p.src()): p.fail('the callback is called with %s instead of the contents %s' % (show(l), show(p.src())))
        p.extra['f'] = (l, ret)


def deepval(s, v): return deep(s, v)


def v_map(p, c):
    f = p.extra.get('f')
    if f is None or f[0] != tuple(p.src()): return ('nocall',)
    return f[1]


class VSwitch(VSpec):
    """the inner vector of the latest outer value"""
    def cur(p): return p.extra.get('cur')
    def held(p): return [p.cur()] if p.cur() else []
    def live_elems(p): return []
    def cb(p, c, n, args, ret):
        lv = p.last.get(p.top.get(0))
        if args[0] != lv: p.fail('the callback is called with %s instead of %s' % (short(args[0]), short(lv)))
        p.extra['cur'] = ret
    def expected(p, c): return p.L.get(p.cur()[1], ()) if p.cur() else ()
    def may_drop(p, c, id, r): return id not in p.top.values() and not (p.cur() and p.cur()[1] == id)
    def room(p, c, id, r, cur): return (p.nmax or N) - len(cur)


class VLatest(VSpec):
    """a signal of lists: the output mirrors the latest list"""
    def expected(p, c):
        v = p.last.get(p.top.get(0))
        return tuple(elems(v)) if v is not None else ()


class VItems(VSpec):
    """a stream: every item is pushed"""
    def on_poll(p, c, id, r, res, v):
        if res == 'S': p.extra['all'] = p.extra.get('all', ()) + (v,)
    def room(p, *a): return 0
    def expected(p, c): return p.extra.get('all', ())
    def begin(p, c):
        VSpec.begin(p, c)
        # forget delivered items (they can only be confirmed once)
        if p.extra.get('all', ()) == p.out: p.extra['all'] = (); p.out = ()


class VConst(VSpec):
    def expected(p, c): return tuple(elems(p.d['x']))


class VDiffs(VSpec):
    """a stream of the diffs themselves, unchanged and in order"""
    def __init__(p, prop): VSpec.__init__(p, prop, kind='stream')
    def on_poll(p, c, id, r, res, v):
        if p.extra.get('q') is not None: p.fail('the input is polled again although its previous diff was not delivered')
        if res == 'S': p.extra['q'] = v
    def end(p, c, res, v):
        q = p.extra.pop('q', None)
        if res == 'S' and v != q: p.fail('delivered %s instead of %s' % (short(v), short(q)))
        if res != 'S' and q is not None: p.fail('the diff %s is lost' % short(q))
        p.gc()


class VForEach(VSpec):
    """every diff is given to the callback, one after the other: a callback's future completes before the next diff is handled"""
    def __init__(p, prop): VSpec.__init__(p, prop, kind='future')
    def on_poll(p, c, id, r, res, v):
        if id in p.top.values():
            if p.extra.get('q') is not None: p.fail('the input is polled again although its previous diff was not handled')
            if p.extra.get('busy') is not None: p.fail('the input is polled while the previous callback is unfinished')
            if res == 'S': p.extra['q'] = v
        elif res == 'S': p.extra.pop('busy', None)
    def cb(p, c, n, args, ret):
        q = p.extra.pop('q', None)
        if args[0] != q: p.fail('the callback is called with %s instead of %s' % (short(args[0]), short(q)))
        p.extra['busy'] = ret
    def end(p, c, res, v):
        if p.extra.get('q') is not None: p.fail('a diff is lost')
        if res == 'S' and p.extra.get('busy') is not None: p.fail('resolved while a callback is unfinished')
        p.gc()
    def held(p): return [p.extra['busy']] if p.extra.get('busy') else []
    def lazy(p, c, id, r): return id in p.top.values() and p.extra.get('busy') is not None
    def may_drop(p, c, id, r): return id not in p.top.values() and p.extra.get('busy') is None


def h_must_item(c):
    m = c.s.mon
    if hasattr(m.spec, 'item'): m.spec.item(c.a[0], deep(c.s, c.a[1]))
    return UNIT


def h_must_items(c):
    c.s.mon.spec.out = c.s.mon.spec.out[:c.a[0]]
    return UNIT


def h_cmp(c):
    a, b = deep(c.s, c.a[0]), deep(c.s, c.a[1])
    return ('a', order_cmp(c, c.s.mon.spec, a, b) + 1, ())


def h_partial_cmp(c): return some(h_cmp(c))


def sum_finish(I, s, l, meta): return ('sum',) + tuple(deep(s, x) for x in elems(l[iters.ACC]))


def h_applied(c):
    sp = c.s.mon.spec
    d, l = sp.d['diff'], sp.d['x']
    p = c.I.p; t = sp.d['dt']
    name, f = parse(p, t, d)
    w = replay(elems(l), name, f)
    got = elems(c.a[0])
    c.I.events += 1
    if list(w) != list(got): raise Violation(sp.prop, 'contents', 'applying %s to %s gives %s, expected %s' % (name, show(elems(l)), show(got), show(w)))
    return UNIT


def make_seq(c, td, label):
    k = c.s.choose(N + 1)
    return mk([make(c, td['args'][0], label) for i in range(k)])


def h_input_v(c):
    n = c.a[0]; p = c.I.p
    td = p.types[c.dty]
    sp = c.s.mon.spec
    if td['k'] == 'adt' and last(td['def']) == 'VecDiff':
        l = elems(sp.d['x'])
        opts = all_diffs(len(l), 2)
        o = opts[c.s.choose(len(opts))]
        et = td['args'][0]; new = lambda: make(c, et, 'n')
        if o[0] == 'Replace': d = mkdiff(p, c.dty, 'Replace', mk([new() for i in range(o[1])]))
        elif o[0] == 'Push': d = mkdiff(p, c.dty, 'Push', new())
        elif o[0] in ('InsertAt', 'UpdateAt'): d = mkdiff(p, c.dty, o[0], o[1], new())
        elif o[0] == 'RemoveAt': d = mkdiff(p, c.dty, 'RemoveAt', o[1])
        elif o[0] == 'Move': d = mkdiff(p, c.dty, 'Move', o[1], o[2])
        else: d = mkdiff(p, c.dty, o[0])
        sp.d['diff'] = d; sp.d['dt'] = c.dty
        c.s.note('diff %s applied to %s' % (o, show(l)))
        return d
    v = make(c, c.dty, n)
    if type(n) is int and n >= 100: sp.d['x'] = v
    if type(v) is tuple and v[0] == 'in' and type(n) is int: sp.top[n] = v[1]
    return v


EXTRA = {
    'harness::env::input': h_input_v, 'harness::vecs::must_item': h_must_item, 'harness::vecs::must_items': h_must_items, 'harness::vecs::cmp': h_cmp, 'harness::vecs::applied': h_applied,
    '<harness::env::V as std::cmp::Ord>::cmp': h_cmp, '<harness::env::V as std::cmp::PartialOrd>::partial_cmp': h_partial_cmp,
    "<harness::env::V as std::iter::Sum<&'a harness::env::V>>::sum": iters.consume('sum', iters.i_push, sum_finish, needs_clo=False, acc0=iters.empty),
    'harness::env::cb': h_cb, 'harness::env::cbr': h_cb, 'harness::env::cbm': h_cb, 'harness::env::cb2': h_cb, 'harness::env::cb0': h_cb,
}

CASES = {
    'case_vec_map': ('C23', lambda: VMap('C23')), 'case_vec_map_signal': ('C23', lambda: VMapSignal('C23')),
    'case_vec_debug': ('C23', lambda: VIdent('C23')), 'case_vec_mut_ref': ('C23', lambda: VIdent('C23')), 'case_vec_box': ('C23', lambda: VIdent('C23')), 'case_vec_boxed': ('C23', lambda: VIdent('C23')), 'case_vec_boxed_local': ('C23', lambda: VIdent('C23')), 'case_vec_pin': ('C23', lambda: VIdent('C23')), 'case_vec_poll_unpin': ('C23', lambda: VIdent('C23')),
    'case_vec_filter': ('C24', lambda: VFilter('C24')), 'case_vec_filter_map': ('C24', lambda: VFilterMap('C24')), 'case_vec_filter_signal': ('C24', lambda: VFilterSignal('C24')),
    'case_vec_chain': ('C25', lambda: VChain('C25')),
    'case_vec_flatten': ('C26', lambda: VFlatten('C26')),
    'case_vec_enumerate': ('C27', lambda: VEnumerate('C27')),
    'case_vec_sort': ('C28', lambda: VSort('C28')),
    'case_vec_delay': ('C29', lambda: VDelay('C29')),
    'case_vec_len': ('C30', lambda: VValue('C30', lambda p, c: len(p.src()))), 'case_vec_is_empty': ('C30', lambda: VValue('C30', lambda p, c: int(not p.src()), True)),
    'case_vec_sum': ('C30', lambda: VValue('C30', lambda p, c: ('sum',) + tuple(p.src()))), 'case_vec_to_signal_map': ('C30', lambda: VValue('C30', v_map)),
    'case_vec_to_signal_cloned': ('C30', lambda: VValue('C30', lambda p, c: mk(p.src()))),
    'case_vec_switch': ('C31', lambda: VSwitch('C31')), 'case_vec_to_signal_vec': ('C31', lambda: VLatest('C31')), 'case_vec_always': ('C31', lambda: VConst('C31')), 'case_vec_from_stream': ('C31', lambda: VItems('C31')),
    'case_vec_to_stream': ('C31', lambda: VDiffs('C31')), 'case_vec_for_each': ('C31', lambda: VForEach('C31')),
    'case_vec_apply': ('C33', lambda: VConst('C33')),
}


def set_bounds(n, burst):
    global N, BURST
    N = n; BURST = burst; VSpec.burst = burst


def run_case(prog, name, spec, max_states=3000000, deadline=None):
    T = dict(HANDLERS); T.update(stdlib.STD); T.update(seq.H); T.update(conc.H); T.update(EXTRA)
    I = Interp(prog, T, max_states=max_states); I.deadline = deadline
    s = State(); s.mon = VMon(spec)
    s.mem['CX'] = ('t', 'cx')
    I.push(s, prog.fns[prog.cases[name]], [], None, None)
    I.run(s)
    return I
