"""SignalMap adapters (C32): every history of map diffs over concrete small keys and uninterpreted values."""
import vecspec
from vecspec import *
import btree

MF = {'Replace': ('entries',), 'Insert': ('key', 'value'), 'Update': ('key', 'value'), 'Remove': ('key',), 'Clear': ()}
vecspec.DFIELDS.update({k: v for k, v in MF.items() if k not in ('Replace', 'Clear')})


def KEYS(): return vecspec.N + 1


def mk_map(p, t, name, **f):
    for i, v in enumerate(p.types[t]['variants']):
        if v['name'] == name: return ('a', i, tuple(f[x[0]] for x in v['fields']))
    raise Undecided('diff ' + name)


def pairs(v):
    r = []
    for x in elems(v):
        if x[0] != 'a' or type(x[2][0]) is not int: raise Undecided('map entry %r' % (x,))
        r.append((x[2][0], x[2][1]))
    return r


def replay_map(l, name, f):
    """l: sorted tuple of (key, value)"""
    d = dict(l)
    if name == 'Clear': return ()
    if name == 'Replace':
        e = pairs(f['entries'])
        if len(dict(e)) != len(e): raise BadDiff('Replace with a duplicate key')
        return tuple(sorted(e))
    k = f['key']
    if type(k) is not int: raise Undecided('map key %r' % (k,))
    if name == 'Insert':
        if k in d: raise BadDiff('Insert of key %d, which is present' % k)
        d[k] = f['value']
    elif name == 'Update':
        if k not in d: raise BadDiff('Update of key %d, which is absent' % k)
        d[k] = f['value']
    else:
        if k not in d: raise BadDiff('Remove of key %d, which is absent' % k)
        del d[k]
    return tuple(sorted(d.items(), key=lambda x: x[0]))


def subsets(n, k):
    if n == 0: return [()]
    r = []
    for x in subsets(n - 1, k):
        r.append(x)
        if len(x) < k: r.append(x + (n - 1,))
    return r


def next_diff(c, id, r, t):
    p = c.I.p
    vt = p.types[t]['args'][1]
    cur = dict(r.x or ())
    n = vecspec.N
    opts = [('Replace', s) for s in subsets(KEYS(), n)]
    opts += [('Insert', k) for k in range(KEYS()) if k not in cur and len(cur) < n]
    opts += [('Update', k) for k in cur] + [('Remove', k) for k in cur] + [('Clear', None)]
    o = opts[c.s.choose(len(opts))]
    new = lambda: make(c, vt, 'e')
    if o[0] == 'Replace': d = mk_map(p, t, 'Replace', entries=mk([('a', 0, (k, new())) for k in o[1]]))
    elif o[0] == 'Clear': d = mk_map(p, t, 'Clear')
    elif o[0] == 'Remove': d = mk_map(p, t, 'Remove', key=o[1])
    else: d = mk_map(p, t, o[0], key=o[1], value=new())
    r.x = replay_map(tuple(r.x or ()), *parse(p, t, d))
    return d


def showm(l): return '{%s}' % ', '.join('%s: %s' % (k, short(v)) for k, v in l)


class MSpec(VSpec):
    def __init__(p, kind='map'): VSpec.__init__(p, 'C32', kind=kind)
    def live_elems(p): return [v for k, v in p.src()]
    def deliver(p, c, v):
        name, f = parse(c.I.p, diff_type(c.I.p, c.fn.args[0]), v)
        try: p.out = replay_map(p.out, name, f)
        except BadDiff as e: p.fail('the emitted diff is not valid: %s' % e, 'invalid')
    def settled(p, c, res):
        w = tuple(p.expected(c))
        if w != tuple(p.out): p.fail('after replaying every diff the output is %s, expected %s (source %s)' % (showm(p.out), showm(w), showm(p.src())), 'contents')


class MIdent(MSpec):
    def expected(p, c): return p.src()


class MMap(MSpec):
    def expected(p, c): return [(k, p.result(c, v)) for k, v in p.src()]


class MMapSignal(MSpec):
    def expected(p, c):
        r = []
        for k, v in p.src():
            i = p.result(c, v)
            if i[1] not in p.last: p.fail('the signal of key %d was never polled' % k)
            r.append((k, p.last[i[1]]))
        return r


class MKey(MSpec):
    """key_cloned(1): the value of the key, delivered when a diff concerns the key"""
    def __init__(p): MSpec.__init__(p, 'signal')
    def held(p): return [x for x in p.out if x is not NONE] + list(p.extra.get('hold', ()))
    def on_poll(p, c, id, r, res, v):
        if res != 'S': return
        name, f = parse(c.I.p, diff_type(c.I.p, c.dty), v)
        if name in ('Replace', 'Clear') or f['key'] == 1: p.extra['due'] = True
    def value(p): return dict(p.src()).get(1)
    def deliver(p, c, v):
        w = p.value(); w = NONE if w is None else some(w)
        if v != w: p.fail('%s is delivered, but the key has %s' % (short(v), short(w)), 'contents')
        if p.out and not p.extra.get('due'): p.fail('a value is delivered although nothing affected the key', 'unaffected')
        p.out = (v,); p.extra.pop('due', None)
    def settled(p, c, res):
        if not p.out: p.fail('nothing is delivered by the first poll', 'first')
        w = p.value(); w = NONE if w is None else some(w)
        if p.out[0] != w: p.fail('the change of the key to %s is not delivered' % short(w), 'stale')


class MForEach(VForEach):
    def __init__(p): VForEach.__init__(p, 'C32')
    def live_elems(p): return [v for k, v in p.src()]


class MConst(MSpec):
    def expected(p, c): return p.d['x']


def h_input_m(c):
    p = c.I.p; td = p.types[c.dty]
    if td['k'] == 'adt' and last(td['def']) == 'Vec':
        o = subsets(KEYS(), vecspec.N); o = o[c.s.choose(len(o))]
        l = [(k, make(c, p.types[td['args'][0]]['elems'][1], 'e')) for k in o]
        c.s.mon.spec.d['x'] = tuple(l)
        return mk([('a', 0, x) for x in l])
    return h_input_v(c)


CASES = {
    'case_map_value': MMap, 'case_map_value_signal': MMapSignal, 'case_map_key': MKey, 'case_map_for_each': MForEach, 'case_map_always': MConst,
    'case_map_mut_ref': MIdent, 'case_map_box': MIdent, 'case_map_boxed': MIdent, 'case_map_boxed_local': MIdent, 'case_map_pin': MIdent, 'case_map_poll_unpin': MIdent,
}


def run_case(prog, name, max_states=3000000, deadline=None):
    T = dict(HANDLERS)
    for m in (stdlib.STD, seq.H, btree.H, conc.H, EXTRA): T.update(m)
    T['harness::env::input'] = h_input_m
    I = Interp(prog, T, max_states=max_states); I.deadline = deadline
    s = State(); s.mon = VMon(CASES[name]())
    s.mem['CX'] = ('t', 'cx')
    I.push(s, prog.fns[prog.cases[name]], [], None, None)
    I.run(s)
    return I
