"""Containers under every history of operations: abstract interpretation to the fixpoint (at most N elements)."""
import time
from engine import *
from env import *
import stdlib, seq, conc, iters, chan, btree, rel, env

N = 3


def h_pick(c):
    n = c.a[0]
    if type(n) is not int: raise Undecided('pick of %r' % (n,))
    if n <= 0: raise Infeasible()
    k = c.s.choose(n)
    c.s.note('choice %d of %d [%s]' % (k, n, c.s.frames[-1].fn.def_.rsplit('::', 1)[-1]))
    return k


def h_checkpoint(c):
    c.I.seen(c.s)
    c.s.note('---- next operation')
    return UNIT


def h_assume(c):
    if not c.I.force_bool(c.s, c.a[0]): raise Infeasible()
    return UNIT


def h_also(c):
    c.s.mon.also = c.a[0]
    return UNIT


def h_unwake(c):
    c.s.mon.woken = c.s.mon.woken - {c.a[0]}
    return UNIT


def deepl(s, v):
    if type(v) is tuple and v:
        if v[0] in ('r', 'cref'): return deepl(s, s.load(v))
        if v[0] == 'a': return ('a', v[1], tuple(deepl(s, x) for x in v[2]))
        if v[0] == 'seq': return ('seq', tuple(deepl(s, x) for x in seq.elems(v)))
    return v


def h_must_eql(c):
    a, b = deepl(c.s, c.a[2]), deepl(c.s, c.a[3])
    c.I.events += 1
    return conc.need(c, a == b, 'requirement %d is violated: got %s, expected %s' % (c.a[1], show(a), show(b)))


def show(v):
    if type(v) is tuple and v and v[0] == 'seq': return '[' + ', '.join(short(x) for x in v[1]) + ']'
    return short(v)


def h_input_h(c):
    p = c.I.p; td = p.types[c.dty]
    if td['k'] == 'adt' and td['def'].rsplit('::', 1)[-1] == 'Vec':
        k = c.s.choose(N + 1)
        return seq.mk([env.make(c, td['args'][0], 'v') for i in range(k)])
    if td.get('def') == 'harness::env::D': return conc.h_input_c(c)
    return env.make(c, c.dty, 'v')


H = {'harness::env::pick': h_pick, 'harness::env::checkpoint': h_checkpoint, 'harness::env::assume': h_assume, 'harness::env::nmax': lambda c: N, 'harness::env::unwake': h_unwake, 'harness::env::also': h_also, 'harness::env::chans': lambda c: len([1 for v in c.s.mem.values() if type(v) is tuple and v and v[0] == 'chan']),
     'harness::env::must_eql': h_must_eql, 'harness::env::must_eq': h_must_eql, 'harness::env::input': h_input_h}


def set_bounds(n):
    global N
    N = n


def table():
    T = dict(HANDLERS)
    for m in (stdlib.STD, seq.H, iters.H, btree.H, conc.H, chan.H, rel.H, H): T.update(m)
    return T


def run_case(prog, name, max_states=3000000, deadline=None):
    I = Interp(prog, table(), max_states=max_states, max_steps=100000); I.deadline = deadline
    s = State(); s.mon = conc.CMon()
    I.push(s, prog.fns[prog.cases[name]], [], None, None)
    I.run(s)
    return I
