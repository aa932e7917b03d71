"""Analysis A: poll-protocol typestate and value-flow of the signal combinators."""
import sys, time, re
from engine import *
from env import *
import stdlib, specs_sig


def h_input_x(c):
    v = h_input(c)
    if type(c.a[0]) is int and c.a[0] >= 100: c.s.mon.spec.set('x', v)
    return v


def interp(prog, extra=None, **kw):
    H = dict(HANDLERS); H.update(stdlib.STD)
    H['harness::env::input'] = h_input_x
    if extra: H.update(extra)
    return Interp(prog, H, **kw)


def run_case(prog, name, spec):
    I = interp(prog)
    s = State(); s.mon = Mon(spec)
    s.mem['CX'] = ('t', 'cx')
    I.push(s, prog.fns[prog.cases[name]], [], None, None)
    t = time.time(); I.run(s); I.wall = time.time() - t
    return I
