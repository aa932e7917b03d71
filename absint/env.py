"""Abstract environment: opaque inputs with a protocol monitor, uninterpreted callbacks, driver boundary."""
from engine import *

KINDS = {'In': 'signal', 'Fu': 'future', 'St': 'stream', 'Ve': 'vec', 'Ma': 'map'}


class Rec:
    __slots__ = ('kind', 'name', 'done', 'last', 'ever', 'x', 'addr')

    def __init__(r, kind, name): r.kind, r.name, r.done, r.last, r.ever, r.x, r.addr = kind, name, False, '-', False, None, None

    def copy(r):
        n = Rec(r.kind, r.name); n.done, n.last, n.ever, n.x, n.addr = r.done, r.last, r.ever, r.x, r.addr
        return n

    def canon(r): return (r.kind, r.name, r.done, r.last, r.ever, r.x, r.addr)


def place(key, path):
    """where an input lives; the contents of a box stay where they are when the box itself is moved"""
    return 'box' if '*' in path else (key, path)


def pinned(c, r, key, path, what):
    a = place(key, path)
    if r.addr is None: r.addr = a
    elif r.addr != a:
        # recorded, but the other monitors go on
        c.I.violate(c.s, Violation('C41', 'moved', 'input %s (%s) was moved after it had been polled: it is %s at %s, but was polled at %s' % (r.name, r.kind, what, a, r.addr)))
        r.addr = a


STREAK = 40      # more deliveries in a row without any input change than any list within the bounds can need


class Mon:
    def __init__(m, spec):
        m.inputs = {}; m.spec = spec; m.npoll = 0; m.over = False; m.started = False; m.out = 0; m.dead = False; m.predrop = None; m.streak = 0; m.got = False

    def copy(m):
        n = Mon(m.spec.copy())
        n.inputs = {k: r.copy() for k, r in m.inputs.items()}
        n.npoll, n.over, n.started, n.out, n.dead, n.predrop, n.streak, n.got = m.npoll, m.over, m.started, m.out, m.dead, m.predrop, m.streak, m.got
        return n

    def canon(m):
        return (tuple((k,) + r.canon() for k, r in m.inputs.items()), m.spec.canon(), min(m.npoll, 2), m.over, m.started, m.dead, m.out, m.predrop)

    def tell(m, c, ev, *a):
        """pass an event to the specification; a failure is recorded and the protocol monitor goes on"""
        if m.dead: return
        try: getattr(m.spec, ev)(c, *a)
        except Violation as e:
            c.I.violate(c.s, e); m.dead = True

    def live(m): return [(k, r) for k, r in m.inputs.items() if not r.done]


class Spec:
    """reference behaviour of one combinator, as an acceptor of its boundary events"""
    prop = 'C12'; kind = 'signal'; first = True
    fields = ()

    def __init__(p, **kw):
        p.d = dict(kw)

    def copy(p):
        n = object.__new__(type(p)); n.d = dict(p.d); n.__dict__.update({k: v for k, v in p.__dict__.items() if k != 'd'})
        return n

    def canon(p): return tuple(p.d.items())
    def get(p, k, default=None): return p.d.get(k, default)
    def set(p, k, v):
        if v is None: p.d.pop(k, None)
        else: p.d[k] = v
    def fail(p, msg, rule='value'): raise Violation(p.prop, rule, msg)

    # events
    def poll(p, c, id, r, res, v): pass
    def cb(p, c, n, args, ret): pass
    def end(p, c, res, v): pass
    # policy
    def lazy(p, c, id, r): return False       # may be left unpolled by a call that returns Pending
    def may_end(p, c, id, r): return False    # may still be live when the end is delivered
    def may_drop(p, c, id, r): return False   # may be dropped while live


def deep(s, v):
    """value of an argument with references followed"""
    if type(v) is tuple and v:
        if v[0] in ('r', 'cref'): return deep(s, s.load(v))
        if v[0] == 'a': return ('a', v[1], tuple(deep(s, x) for x in v[2]))
    return v


def short(v):
    if type(v) is tuple and v:
        if v[0] == 't': return '%s%s' % (v[1], ''.join('#%s' % (x,) if type(x) is int else '(%s)' % short(x) for x in v[2:]))
        if v[0] == 'in': return 'input#%s' % (v[1][2],)
        if v[0] == 'a': return '%d{%s}' % (v[1], ','.join(short(x) for x in v[2]))
        if v[0] == 'b': return ('' if v[2] else '!') + '(%s)' % short(v[1])
        if v[0] == 'eq': return '%s==%s' % (short(v[1]), short(v[2]))
        return str(v[0]) + ':' + ','.join(short(x) for x in v[1:])
    return str(v)


def last(defname): return defname.rsplit('::', 1)[-1]


def make(c, t, label, depth=0):
    """an arbitrary value of type t (chooses among enum variants)"""
    p = c.I.p; s = c.s
    d = p.types[t]; k = d['k']
    if k == 'bool': return ('b', s.new(label), True)
    if k == 'tuple': return ('a', 0, tuple(make(c, x, label) for x in d['elems']))
    if k == 'adt':
        n = last(d['def'])
        if d['def'].startswith('harness::env::') or d['def'].startswith('env::'):
            if n in KINDS: return new_input(c, t, label)
            return s.new(label)
        if s.dom is not None:
            r = s.dom.make(c, t, label)
            if r is not None: return r
        if d['def'] == 'std::vec::Vec':
            import vecspec
            return vecspec.make_seq(c, d, label)
        if d['adt'] == 'enum':
            i = s.choose(len(d['variants']))
            return ('a', i, tuple(make(c, f[1], label) for f in d['variants'][i]['fields']))
        if d['adt'] == 'struct':
            return ('a', 0, tuple(make(c, f[1], label) for f in d['variants'][0]['fields']))
    if s.dom is not None:
        r = s.dom.make(c, t, label)
        if r is not None: return r
    return s.new(label)


def new_input(c, t, name):
    d = c.I.p.types[t]
    kind = KINDS[last(d['def'])]
    id = c.s.new('in')
    c.s.mon.inputs[id] = Rec(kind, name)
    return ('in', id, t)


def visited(c):
    """prune a state that was already explored (only when the handler runs for the first time)"""
    if c.s.script == ():
        k = c.s.canon()
        if k in c.I.visited: raise Infeasible()
        c.I.visited.add(k)
        c.I.events += 1


def the_input(c, ref):
    v = ref
    if v[0] == 'a': v = v[2][0]
    ref = v
    v = c.s.load(v)
    if v[0] != 'in': raise Undecided('poll of %s' % (v,))
    return v, ref


def h_poll(c):
    v, ref = the_input(c, c.a[0])
    id = v[1]; m = c.s.mon; r = m.inputs.get(id)
    if r is None: raise Violation('C42', 'use-after-drop', 'a dropped input is polled')
    if ref[0] == 'r': pinned(c, r, ref[1], ref[2], 'polled')
    if r.done: raise Violation('C09', 'repoll', 'input %s (%s) is polled again after it had finished' % (r.name, r.kind))
    visited(c)
    item = c.I.p.types[v[2]]['args'][0]
    if r.kind == 'future': opts = 'PS'
    elif r.kind in ('signal',) and not r.ever: opts = 'S'
    else: opts = 'PNS'
    if c.s.dom is not None: opts = c.s.dom.poll_options(c, id, r, opts)
    if hasattr(m.spec, 'options'): opts = m.spec.options(c, id, r, opts)
    res = opts[c.s.choose(len(opts))]
    val = None
    if res == 'S':
        if r.kind in ('vec', 'map'):
            import vecspec
            val = vecspec.next_diff(c, id, r, c.dty)
        else: val = make(c, item, 'y%s' % (r.name if type(r.name) is int else '_'))
    r.ever = True; r.last = res
    if res != 'P': m.got = True
    if res == 'N' or (res == 'S' and r.kind == 'future'): r.done = True
    c.s.note('poll %s(%s) -> %s%s' % (r.kind, r.name, {'P': 'Pending', 'N': 'Ready(None)', 'S': 'Ready'}[res], ' ' + short(val) if val is not None else ''))
    m.tell(c, 'poll', id, r, res, val)
    if res == 'P': return PENDING
    if r.kind == 'future': return ready(val)
    if res == 'N': return ready(NONE)
    return ready(some(val))


def h_drop_input(I, s, td, ty, key, path):
    v = s.read(key, path)
    if type(v) is not tuple or v[0] != 'in':
        if s.dom is not None and s.dom.drop_elem_input(s, v): return
        raise Undecided('drop of %r' % (v,))
    m = s.mon
    r = m.inputs.get(v[1])
    if r is None: raise Violation('C42', 'double-drop', 'an input is dropped twice')
    if r.addr is not None and m.started and not m.over: pinned(Call(I, s, None, [], None), r, key, path, 'dropped')
    if not r.done and not m.over and m.started and not m.dead:
        c = Call(I, s, None, [], None)
        if not m.spec.may_drop(c, v[1], r):
            raise Violation('C10', 'dropped-live', 'a live input %s (%s) is dropped before it ended' % (r.name, r.kind))
    if not m.started and not m.over and m.predrop is None: m.predrop = '%s (%s)' % (r.name, r.kind)
    del m.inputs[v[1]]
    s.note('drop input %s' % (r.name,))


def cbv(c, args, n):
    ret = make(c, c.dty, 'cb%d_' % n)
    vals = [deep(c.s, a) for a in args]
    c.s.note('callback %d(%s) -> %s' % (n, ','.join(short(v) for v in vals), short(ret)))
    c.s.mon.tell(c, 'cb', n, vals, ret)
    return ret


def h_cb(c):
    return cbv(c, c.a[1:], c.a[0])


def h_input(c):
    n = c.a[0]
    return make(c, c.dty, n) if c.I.p.types[c.dty]['k'] != 'bool' else ('b', c.s.new(n), True)


def h_begin(c):
    m = c.s.mon
    if not m.started and m.predrop is not None:
        c.I.violate(c.s, Violation('C10', 'dropped-unpolled', 'input %s is dropped before it was ever polled' % m.predrop))
    m.started = True
    visited(c)
    c.s.gen += 1
    m.npoll = min(m.npoll + 1, 3)
    for r in m.inputs.values(): r.last = '-'
    c.s.note('---- poll of the combinator')
    if hasattr(m.spec, 'begin'): m.tell(c, 'begin')
    return UNIT


def h_end(c):
    m = c.s.mon; sp = m.spec
    v = c.a[0]
    if type(v) is not tuple or v[0] != 'a': raise Undecided('result %r' % (v,))
    if v[1] == 1: res, val = 'P', None
    else:
        val = v[2][0]
        if sp.kind == 'future': res = 'S'
        else:
            if type(val) is tuple and val[0] == 'a':
                if val[1] == 0: res, val = 'N', None
                else: res, val = 'S', val[2][0]
            else: raise Undecided('result %r' % (v,))
    c.s.note('returned %s' % ({'P': 'Pending', 'N': 'Ready(None)', 'S': 'Ready'}[res] + (' ' + short(val) if val is not None else '')))
    m.tell(c, 'end', res, val)
    if m.dead:
        if res == 'P' and not any(r.last == 'P' for id, r in m.live()):
            raise Violation('C08', 'no-waker', 'returned Pending but no live input holds the waker')
        raise Infeasible()
    if res == 'P':
        reg = False
        for id, r in m.live():
            if r.last == 'P': reg = True
            elif sp.lazy(c, id, r): pass
            elif r.last == 'S':
                raise Violation('C08', 'not-drained', 'returned Pending although the last poll of input %s returned a value, so it is not registered for wakeup' % (r.name,))
            elif r.last == '-':
                raise Violation('C08', 'not-polled', 'returned Pending without having polled live input %s' % (r.name,))
        if not m.live():
            raise Violation('C10', 'no-end', 'returned Pending although every input has finished: the end is never delivered and nobody will wake the task')
        if not reg:
            if all(sp.lazy(c, id, r) for id, r in m.live()):  # both: nothing is waited for, and nobody will wake the task
                c.I.violate(c.s, Violation('C10', 'no-end', 'returned Pending although nothing is waited for any more: the end is never delivered'))
            raise Violation('C08', 'no-waker', 'returned Pending but no live input holds the waker')
        if m.out == 0 and sp.first and sp.kind != 'future' and all(x.kind != 'x' for x in m.inputs.values()):
            raise Violation('C11', 'first', 'the first poll returned Pending instead of a value')
    elif res == 'N':
        for id, r in m.live():
            if not sp.may_end(c, id, r):
                raise Violation('C10', 'early-end', 'returned Ready(None) while input %s is still live' % (r.name,))
        if m.out == 0 and sp.first and sp.kind == 'signal':
            raise Violation('C11', 'first-none', 'the first poll returned Ready(None)')
    elif sp.kind == 'future':
        for id, r in m.live():
            if not sp.may_end(c, id, r):
                raise Violation('C10', 'early-end', 'future resolved while input %s is still live' % (r.name,))
    if res == 'S':
        m.out = 1
        m.streak = 0 if m.got else m.streak + 1
        if m.streak > STREAK: raise Violation(sp.prop, 'endless', 'delivers %d times in a row although no input changes' % m.streak)
    else: m.streak = 0
    m.got = False
    fin = res == 'N' or (res == 'S' and sp.kind == 'future')
    if fin: m.over = True
    return int(fin)


def eq_atom(a, b):
    return ('eq',) + tuple(sorted((a, b), key=repr))


def h_eq(c):
    a, b = deep(c.s, c.a[0]), deep(c.s, c.a[1])
    return ('b', eq_atom(a, b), True)


def h_ne(c):
    a, b = deep(c.s, c.a[0]), deep(c.s, c.a[1])
    return ('b', eq_atom(a, b), False)


def h_clone(c): return c.s.load(c.a[0])


def h_noop(c): return UNIT


HANDLERS = {
    'harness::env::input': h_input, 'harness::env::cx': lambda c: ('r', 'CX', ()),
    'harness::env::cb': h_cb, 'harness::env::cbr': h_cb, 'harness::env::cbm': h_cb, 'harness::env::cb2': h_cb, 'harness::env::cb0': h_cb,
    'harness::env::begin_poll': h_begin, 'harness::env::end_poll': h_end,
    'harness::env::nondet': lambda c: c.s.choose(2),
}
for T, tr in (('In<T>', 'futures_signals::signal::Signal>::poll_change'), ('Fu<T>', 'std::future::Future>::poll'), ('Fu<T>', 'futures_core::Future>::poll'), ('St<T>', 'futures_core::Stream>::poll_next'), ('St<T>', 'futures_util::Stream>::poll_next'),
              ('Ve<T>', 'futures_signals::signal_vec::SignalVec>::poll_vec_change'), ('Ma<T>', 'futures_signals::signal_map::SignalMap>::poll_map_change')):
    HANDLERS['<harness::env::%s as %s' % (T, tr)] = h_poll
for T in ('V', 'C', 'W'):
    HANDLERS['<harness::env::%s as std::clone::Clone>::clone' % T] = h_clone
    HANDLERS['<harness::env::%s as std::cmp::PartialEq>::eq' % T] = h_eq
    HANDLERS['<harness::env::%s as std::cmp::PartialEq>::ne' % T] = h_ne
for T in ('In', 'Fu', 'St', 'Ve', 'Ma'): HANDLERS['drop:harness::env::' + T] = h_drop_input
