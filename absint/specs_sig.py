"""Reference acceptors for the Signal combinators (C08-C18)."""
from env import *


def B(c, v): return c.I.force_bool(c.s, v)
def EQ(c, a, b): return bool(B(c, ('b', eq_atom(a, b), True)))


class Ident(Spec):
    """every value of the input is delivered exactly once, unchanged up to `wrap`"""
    prop = 'C12'
    def __init__(p, prop='C12', kind='signal', wrap=None):
        Spec.__init__(p); p.prop, p.kind, p.wrap = prop, kind, wrap
    def poll(p, c, id, r, res, v):
        if p.get('q') is not None: p.fail('the input is polled again although its previous value %s was not delivered' % short(p.get('q')))
        if res == 'S': p.set('q', v)
    def end(p, c, res, v):
        q = p.get('q')
        if res == 'S':
            if q is None: p.fail('a value is returned although the input yielded none')
            w = p.wrap(q) if p.wrap else q
            if v != w: p.same(c, w, v)
        elif q is not None: p.fail('value %s of the input is lost' % short(q))
        p.set('q', None)
    def same(p, c, w, v):
        if type(w) is tuple and type(v) is tuple and w[0] == 'b' and v[0] == 'b' and B(c, w) == B(c, v): return
        if (type(w) is int or w[0] == 'b') and (type(v) is int or v[0] == 'b') and B(c, w) == B(c, v): return
        p.fail('returned %s instead of %s' % (short(v), short(w)))


class Not(Ident):
    prop = 'C17'
    def __init__(p): Ident.__init__(p, 'C17')
    def same(p, c, w, v):
        if B(c, w) == B(c, v): return
        p.fail('returned %s instead of the negation' % short(v))
    def end(p, c, res, v):
        q = p.get('q')
        if res == 'S' and q is not None:
            p.same(c, ('b', q[1], not q[2]) if type(q) is tuple else 1 - q, v); p.set('q', None)
        else: Ident.end(p, c, res, v)


class Map(Ident):
    """the callback is called exactly once per value and its result returned (or the value, for inspect)"""
    def __init__(p, keep=False): Ident.__init__(p); p.keep = keep
    def cb(p, c, n, args, ret):
        q = p.get('q')
        if q is None or p.get('called'): p.fail('the callback is called without a new value')
        if args[0] != q: p.fail('the callback is called with %s instead of %s' % (short(args[0]), short(q)))
        p.set('called', True)
        if not p.keep: p.set('q', ret)
    def end(p, c, res, v):
        if res == 'S' and not p.get('called'): p.fail('a value is returned without calling the callback')
        p.set('called', None)
        Ident.end(p, c, res, v)


class Dedupe(Spec):
    def __init__(p, prop='C13', f=False): Spec.__init__(p); p.prop, p.f = prop, f
    def settle(p, c):
        """the pending value, if any, had to be equal to the previous one"""
        q, old = p.get('q'), p.get('old')
        if q is None: return
        if old is None: p.fail('the first value %s is dropped' % short(q))
        if not EQ(c, q, old): p.fail('value %s is dropped although it differs from the last delivered value %s' % (short(q), short(old)))
        p.set('q', None)
    def poll(p, c, id, r, res, v):
        p.settle(c)
        if res == 'S': p.set('q', v)
    def cb(p, c, n, args, ret):
        q, old = p.get('q'), p.get('old')
        if q is None or p.get('out') is not None: p.fail('the callback is called without a new value')
        if args[0] != q: p.fail('the callback is called with %s instead of %s' % (short(args[0]), short(q)))
        if old is not None and EQ(c, q, old): p.fail('the callback is called for a value equal to the previous one')
        p.set('out', ret)
    def end(p, c, res, v):
        q, old = p.get('q'), p.get('old')
        if res == 'S':
            if q is None: p.fail('a value is returned although the input yielded none')
            if old is not None and EQ(c, q, old): p.fail('a value equal to the previous one is delivered')
            w = p.get('out') if p.f else q
            if w != v: p.fail('returned %s instead of %s' % (short(v), short(w)))
            p.set('old', q); p.set('q', None); p.set('out', None)
        else: p.settle(c)


class EqSpec(Spec):
    def __init__(p, neq=False): Spec.__init__(p); p.prop = 'C13'; p.neq = neq
    def poll(p, c, id, r, res, v):
        if p.get('out') is not None: p.fail('a changed result is not delivered before polling again')
        if res == 'S':
            x = p.const(c)
            b = int(EQ(c, v, x) != p.neq)
            if p.get('last') != b: p.set('out', b)
    def const(p, c): return p.get('x')
    def end(p, c, res, v):
        out = p.get('out')
        if res == 'S':
            if out is None: p.fail('an unchanged result is delivered again')
            if B(c, v) != out: p.fail('the wrong boolean is delivered')
            p.set('last', out); p.set('out', None)
        elif out is not None: p.fail('a changed result is lost')


class StopIf(Spec):
    prop = 'C14'
    def poll(p, c, id, r, res, v):
        if p.get('stopped'): p.fail('the input is polled after stopping')
        if p.get('q') is not None: p.fail('a value is skipped')
        if res == 'S': p.set('q', v)
    def cb(p, c, n, args, ret):
        if p.get('t') is not None: p.fail('the test is called twice for a value')
        if args[0] != p.get('q'): p.fail('the test is called with %s instead of %s' % (short(args[0]), short(p.get('q'))))
        p.set('t', ret)
    def end(p, c, res, v):
        q = p.get('q')
        if p.get('stopped') and res != 'N': p.fail('does not end after the test returned true')
        if res == 'S':
            if q is None or v != q: p.fail('returned %s instead of %s' % (short(v), short(q)))
            if p.get('t') is None: p.fail('the test is not called')
            if B(c, p.get('t')): p.set('stopped', True)
            p.set('q', None); p.set('t', None)
        elif q is not None: p.fail('value %s is lost' % short(q))
    def may_end(p, c, id, r): return p.get('stopped')
    def may_drop(p, c, id, r): return p.get('stopped') or (p.get('t') is not None and B(c, p.get('t')))


class First(Spec):
    prop = 'C14'
    def poll(p, c, id, r, res, v):
        if p.get('out') or p.get('q') is not None: p.fail('the input is polled after the first value')
        if res == 'S': p.set('q', v)
    def end(p, c, res, v):
        q = p.get('q')
        if p.get('out'):
            if res != 'N': p.fail('does not end after the first value')
        elif res == 'S':
            if v != q: p.fail('returned %s instead of %s' % (short(v), short(q)))
            p.set('out', True); p.set('q', None)
        elif q is not None: p.fail('the first value is lost')
    def may_end(p, c, id, r): return p.get('out')
    def may_drop(p, c, id, r): return p.get('out') or p.get('q') is not None


class WaitFor(Spec):
    prop = 'C14'; kind = 'future'
    def poll(p, c, id, r, res, v):
        if p.get('hit') is not None: p.fail('the input is polled after the awaited value arrived')
        if res == 'S' and EQ(c, v, p.get('x')): p.set('hit', v)
        if res == 'N': p.set('hit', 'N')
    def end(p, c, res, v):
        h = p.get('hit')
        if res == 'S':
            if h is None: p.fail('resolved with %s before the awaited value' % short(v))
            if h == 'N':
                if v != NONE: p.fail('resolved with a value after the input ended')
            elif v != some(h): p.fail('resolved with %s instead of %s' % (short(v), short(h)))
        elif h is not None: p.fail('does not resolve although the awaited value arrived')
    def may_end(p, c, id, r): return p.get('hit') is not None


class ToFuture(Spec):
    prop = 'C14'; kind = 'future'
    def poll(p, c, id, r, res, v):
        if res == 'S': p.set('v', v)
        if res == 'N': p.set('fin', True)
    def end(p, c, res, v):
        if res == 'S':
            if not p.get('fin'): p.fail('resolved before the input ended')
            if v != p.get('v'): p.fail('resolved with %s instead of the last value %s' % (short(v), short(p.get('v'))))
        elif p.get('fin'): p.fail('does not resolve although the input ended')


class Sample(Spec):
    prop = 'C14'; kind = 'stream'; first = False
    def poll(p, c, id, r, res, v):
        if r.kind == 'signal':
            if res == 'S': p.set('cur', v)
        else:
            if p.get('w') is not None: p.fail('a stream item is skipped')
            if res == 'S': p.set('w', v)
    def end(p, c, res, v):
        w = p.get('w')
        if res == 'S':
            if w is None: p.fail('an item is produced although the stream yielded none')
            if v != ('a', 0, (p.get('cur'), w)): p.fail('returned %s instead of (%s, %s)' % (short(v), short(p.get('cur')), short(w)))
            for id, r in c.s.mon.live():
                if r.kind == 'signal' and r.last != 'P': p.fail('the sampled value is not the current value of the signal')
            p.set('w', None)
        elif w is not None: p.fail('a stream item is lost')
    def lazy(p, c, id, r): return r.kind == 'signal'
    def may_end(p, c, id, r): return r.kind == 'signal' and any(x.kind == 'stream' and x.done for x in c.s.mon.inputs.values())


class FilterMap(Spec):
    prop = 'C18'
    def poll(p, c, id, r, res, v):
        if p.get('q') is not None: p.fail('the callback is not called for %s' % short(p.get('q')))
        if p.get('out') is not None: p.fail('result %s is not delivered' % short(p.get('out')))
        if res == 'S': p.set('q', v)
    def cb(p, c, n, args, ret):
        if args[0] != p.get('q'): p.fail('the callback is called with %s instead of %s' % (short(args[0]), short(p.get('q'))))
        p.set('q', None)
        if ret[1] == 1 or not p.get('any'): p.set('out', ret)
        p.set('any', True)
    def end(p, c, res, v):
        if p.get('q') is not None: p.fail('the callback is not called')
        out = p.get('out')
        if res == 'S':
            if out is None: p.fail('%s is delivered although the value was filtered out' % short(v))
            if v != out: p.fail('returned %s instead of %s' % (short(v), short(out)))
            p.set('out', None)
        elif out is not None: p.fail('result %s is lost' % short(out))


class Flatten(Spec):
    prop = 'C15'
    def __init__(p, cb=False): Spec.__init__(p); p.usecb = cb
    def poll(p, c, id, r, res, v):
        if r.name == 0:
            if res == 'S':
                if p.get('q') is not None: p.fail('a value of the outer signal is skipped without calling the callback')
                if p.usecb: p.set('q', v)
                else: p.set('cur', v[1])
                p.set('out', None)
        else:
            if id != p.get('cur'): p.fail('an outdated inner signal is polled')
            if p.get('out') is not None: p.fail('value %s of the inner signal is skipped' % short(p.get('out')))
            if res == 'S': p.set('out', v)
    def cb(p, c, n, args, ret):
        if args[0] != p.get('q') or p.get('q') is None: p.fail('the callback is called with %s instead of %s' % (short(args[0]), short(p.get('q'))))
        p.set('q', None); p.set('cur', ret[1])
    def end(p, c, res, v):
        if p.get('q') is not None: p.fail('the callback is not called')
        out = p.get('out')
        if res == 'S':
            if out is None: p.fail('a value is delivered although the inner signal yielded none')
            if v != out: p.fail('returned %s instead of %s' % (short(v), short(out)))
            p.set('out', None)
        elif out is not None: p.fail('value %s of the inner signal is lost' % short(out))
    def may_drop(p, c, id, r): return r.name != 0 and id != p.get('cur')


class MapFuture(Spec):
    prop = 'C16'
    def poll(p, c, id, r, res, v):
        if r.name == 0:
            if res == 'S':
                if p.get('q') is not None: p.fail('the callback is not called for %s' % short(p.get('q')))
                p.set('q', v)
        else:
            if id != p.get('cur'): p.fail('an outdated future is polled')
            if res == 'S': p.set('out', v)
    def cb(p, c, n, args, ret):
        if args[0] != p.get('q') or p.get('q') is None: p.fail('the callback is called with %s instead of %s' % (short(args[0]), short(p.get('q'))))
        p.set('q', None); p.set('cur', ret[1]); p.set('out', None)
    def end(p, c, res, v):
        if p.get('q') is not None: p.fail('the callback is not called')
        out = p.get('out')
        if res == 'S':
            if out is not None:
                if v != some(out): p.fail('returned %s instead of Some(%s)' % (short(v), short(out)))
            elif v != NONE or p.get('any'): p.fail('%s is delivered although no future completed' % short(v))
            p.set('out', None); p.set('any', True)
        elif out is not None: p.fail('the result %s of the future is lost' % short(out))
    def may_drop(p, c, id, r): return r.name != 0 and id != p.get('cur')


class Throttle(Spec):
    prop = 'C16'
    def timer(p, c): return [r for k, r in c.s.mon.live() if r.kind == 'future']
    def poll(p, c, id, r, res, v):
        if r.kind == 'signal':
            if p.timer(c): p.fail('the signal is polled while the throttle timer is running')
            if p.get('q') is not None: p.fail('a value is skipped')
            if res == 'S': p.set('q', v)
    def cb(p, c, n, args, ret):
        if p.get('q') is None or p.get('t'): p.fail('the timer callback is called without a new value')
        p.set('t', True)
    def end(p, c, res, v):
        q = p.get('q')
        if res == 'S':
            if v != q: p.fail('returned %s instead of %s' % (short(v), short(q)))
            if not p.get('t'): p.fail('a value is delivered without starting the timer')
            for r in p.timer(c):
                if r.last != 'P': p.fail('the new timer is not polled')
            p.set('q', None); p.set('t', None)
        elif q is not None: p.fail('value %s is lost' % short(q))
    def lazy(p, c, id, r): return r.kind == 'signal' and any(x.last == 'P' for x in p.timer(c))


class FromFuture(Spec):
    prop = 'C16'
    def poll(p, c, id, r, res, v):
        if res == 'S': p.set('out', v)
    def end(p, c, res, v):
        out = p.get('out')
        if res == 'S':
            if out is not None:
                if v != some(out): p.fail('returned %s instead of Some(%s)' % (short(v), short(out)))
            elif v != NONE or p.get('any'): p.fail('%s is delivered without a result' % short(v))
            p.set('out', None); p.set('any', True)
        elif out is not None: p.fail('the result %s is lost' % short(out))


class MapRef(Spec):
    prop = 'C17'
    def __init__(p, n, shape=lambda l: l, f=None): Spec.__init__(p); p.n, p.shape, p.f = n, shape, f
    def poll(p, c, id, r, res, v):
        if p.get('ret') is not None: p.fail('an input is polled after the result was computed')
        if res == 'S': p.set('v%s' % r.name, v); p.set('ch', True)
    def expected(p): return [p.get('v%d' % i) for i in range(p.n)]
    def cb(p, c, n, args, ret):
        if p.get('ret') is not None: p.fail('the callback is called twice in one poll')
        if not p.get('ch'): p.fail('the callback is called although no input changed')
        e = p.shape(p.expected())
        if args != e: p.fail('the callback is called with (%s) instead of the latest values (%s)' % (','.join(map(short, args)), ','.join(map(short, e))))
        p.set('ret', ret)
    def end(p, c, res, v):
        if res == 'S':
            if not p.get('ch'): p.fail('a value is delivered although no input changed')
            if p.f:
                if B(c, v) != int(p.f([B(c, x) for x in p.expected()])): p.fail('the wrong boolean is delivered')
            elif v != p.get('ret'): p.fail('returned %s instead of the result of the callback' % short(v))
        elif p.get('ch'): p.fail('a change of an input is lost')
        p.set('ch', None); p.set('ret', None)


class AlwaysLike(Spec):
    """yields one fixed value, then ends"""
    def __init__(p, wrap): Spec.__init__(p); p.wrap = wrap
    def end(p, c, res, v):
        w = p.wrap(p.get('x'))
        if p.get('n'):
            if res != 'N': p.fail('does not end after the single value')
        else:
            if res != 'S' or v != w: p.fail('the first poll returned %s instead of %s' % (short(v), short(w)))
            p.set('n', True)


class ForEach(Spec):
    prop = 'C12'; kind = 'future'
    def poll(p, c, id, r, res, v):
        if r.name == 0:
            if p.get('q') is not None: p.fail('the callback is not called for %s' % short(p.get('q')))
            if any(x.kind == 'future' for k, x in c.s.mon.live()): p.fail('the next value is taken while the previous future is running')
            if res == 'S': p.set('q', v)
    def cb(p, c, n, args, ret):
        if args[0] != p.get('q'): p.fail('the callback is called with %s instead of %s' % (short(args[0]), short(p.get('q'))))
        p.set('q', None)
    def end(p, c, res, v):
        if p.get('q') is not None: p.fail('the callback is not called')
    def lazy(p, c, id, r): return r.name == 0 and any(x.kind == 'future' and x.last == 'P' for k, x in c.s.mon.live())


# case -> (property, spec factory)
CASES = {
    'case_sig_map': ('C12', lambda: Map()),
    'case_sig_inspect': ('C12', lambda: Map(keep=True)),
    'case_sig_ok': ('C12', lambda: Ident(wrap=lambda v: ('a', 0, (v,)))),
    'case_sig_err': ('C12', lambda: AlwaysLike(lambda x: ('a', 1, (x,)))),
    'case_sig_some': ('C12', lambda: Ident(wrap=some)),
    'case_sig_none': ('C12', lambda: AlwaysLike(lambda x: NONE)),
    'case_sig_always': ('C12', lambda: AlwaysLike(lambda x: x)),
    'case_sig_to_stream': ('C12', lambda: Ident(kind='stream')),
    'case_sig_debug': ('C12', lambda: Ident()), 'case_sig_mut_ref': ('C12', lambda: Ident()), 'case_sig_box': ('C12', lambda: Ident()), 'case_sig_boxed': ('C12', lambda: Ident()), 'case_sig_boxed_local': ('C12', lambda: Ident()), 'case_sig_pin': ('C12', lambda: Ident()), 'case_sig_poll_unpin': ('C12', lambda: Ident()),
    'case_sig_for_each': ('C12', lambda: ForEach()),
    'case_sig_dedupe_map': ('C13', lambda: Dedupe('C13', True)),
    'case_sig_dedupe': ('C13', lambda: Dedupe()),
    'case_sig_dedupe_cloned': ('C13', lambda: Dedupe()),
    'case_sig_eq': ('C13', lambda: EqSpec()),
    'case_sig_neq': ('C13', lambda: EqSpec(True)),
    'case_sig_stop_if': ('C14', lambda: StopIf()),
    'case_sig_first': ('C14', lambda: First()),
    'case_sig_wait_for': ('C14', lambda: WaitFor()),
    'case_sig_to_future': ('C14', lambda: ToFuture()),
    'case_sig_sample': ('C14', lambda: Sample()),
    'case_sig_flatten': ('C15', lambda: Flatten()),
    'case_sig_switch': ('C15', lambda: Flatten(True)),
    'case_sig_map_future': ('C16', lambda: MapFuture()),
    'case_sig_throttle': ('C16', lambda: Throttle()),
    'case_sig_from_future': ('C16', lambda: FromFuture()),
    'case_sig_from_stream': ('C16', lambda: FromFuture()),
    'case_sig_map_ref1': ('C17', lambda: MapRef(1)),
    'case_sig_map_ref2': ('C17', lambda: MapRef(2)),
    'case_sig_map_ref3': ('C17', lambda: MapRef(3, lambda l: [('a', 0, tuple(l[:2])), l[2]])),
    'case_sig_map_mut2': ('C17', lambda: MapRef(2)),
    'case_sig_and': ('C17', lambda: MapRef(2, f=lambda l: l[0] and l[1])),
    'case_sig_or': ('C17', lambda: MapRef(2, f=lambda l: l[0] or l[1])),
    'case_sig_not': ('C17', lambda: Not()),
    'case_sig_filter_map': ('C18', lambda: FilterMap()),
}
