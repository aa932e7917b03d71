"""Abstract interpreter over the monomorphised MIR dumped by mirdump.

Disjunctive abstract interpretation: an abstract state is (frames, abstract memory, path facts, monitor state);
nothing of the library is ever executed.  Opaque inputs / values / callbacks are uninterpreted terms, every
environment choice is explored, and the reachable abstract states are saturated (fixpoint) at `begin_poll`
and at every environment event after canonical renaming of heap cells and fresh terms.
"""
import json, sys, re, time

UNINIT = ('uninit',)
UNIT = ('a', 0, ())


class Undecided(Exception):
    """The abstraction cannot represent this path."""
    def __init__(self, why): self.why = why


class PanicPath(Exception):
    def __init__(self, why): self.why = why


class Infeasible(Exception):
    """This path contradicts an assumption of the environment."""


class Violation(Exception):
    def __init__(self, prop, rule, msg): self.prop, self.rule, self.msg = prop, rule, msg


class Need(Exception):
    """An unscripted choice among n alternatives."""
    def __init__(self, n): self.n = n


class ForkStates(Exception):
    """Replace the state by the given ones."""
    def __init__(self, states): self.states = states


# ------------------------------------------------------------------ program

class Fn:
    __slots__ = ('id', 'name', 'def_', 'krate', 'args', 'kind', 'intrinsic', 'closure', 'locals', 'argc', 'spread', 'blocks', 'file', 'line', 'handler', 'hfind', 'py', 'selfty')


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = {int(k): v for k, v in d['types'].items()}
        self.cases = {c['name']: c['inst'] for c in d['cases']}
        self.consts = {}
        for k, v in d['consts'].items(): self.consts[int(k)] = self.const(v['v'], v['ty'])
        self.fns = {}
        for f in d['fns']:
            o = Fn()
            o.id, o.name, o.def_, o.krate, o.args, o.kind = f['id'], f['name'], f['def'], f['krate'], f['args'], f['kind']
            o.intrinsic = f.get('intrinsic'); o.closure = f['closure']
            o.locals = f.get('locals'); o.argc = f.get('argc', 0); o.spread = f.get('spread')
            o.file = f.get('file'); o.line = f.get('line')
            o.blocks = f.get('blocks'); o.selfty = f.get('selfty'); o.handler = None; o.hfind = False; o.py = None
            self.fns[o.id] = o
        self.iters = {int(k): v for k, v in d.get('iters', {}).items()}
        self.intos = {int(k): v for k, v in d.get('intos', {}).items()}
        self.raw = d
        self.virt = {int(k): v for k, v in d.get('virt', {}).items()}
        self.dyns = {int(k): v for k, v in d.get('dyns', {}).items()}
        self.glue = {}
        for o in self.fns.values():
            if o.def_ in ('std::ptr::drop_glue', 'std::ptr::drop_in_place') and o.kind == 'shim' and o.args: self.glue[o.args[0]] = o.id
        self.compiled = set()
        # with these a lock can be seen to be held, so releasing it is a shared-memory event as well
        self.try_locks = any(re.match(r'std::sync::(Mutex|RwLock)::<.*>::try_(lock|read|write)$', o.def_) for o in self.fns.values())

    def callable(self, ty):
        """(instance, kind) that calls a value of the callable type ty; kind: once (by value) or mut (by reference)"""
        if not hasattr(self, 'callables'):
            self.callables = {}
            for f in self.fns.values():
                if not f.blocks: continue
                done = f.id in self.compiled
                for b in f.blocks:
                    if done:
                        t = b[1]
                        if t[0] != 'call' or t[2] not in RUST_CALL or t[1] is None: continue
                        cd, cal, at = t[2], t[1], t[8][0]
                    else:
                        tj = b['term']
                        if tj.get('callee_def') not in RUST_CALL or tj.get('callee') is None: continue
                        cd, cal, at = tj['callee_def'], tj['callee'], self.op_ty(f, tj['t']['Call']['args'][0])
                    if at is None: continue
                    if cd.endswith('call_once'): self.callables.setdefault((at, 'once'), cal)
                    else:
                        self.callables.setdefault((self.types[at]['elem'], 'mut'), cal)
        for k in ('mut', 'once'):
            if (ty, k) in self.callables: return self.fns[self.callables[(ty, k)]], k
        d = self.types[ty]
        if d['k'] == 'closure' and d.get('call') is not None: return self.fns[d['call']], ('mut' if d['by_ref'] else 'once')
        return None

    # --- types
    def ty(self, t): return self.types[t]
    def is_ptrlike(self, t): return self.types[t]['k'] in ('ref', 'ptr')

    def const(self, v, ty):
        if 'zst' in v: 
            t = self.types.get(ty)
            if t and t['k'] == 'fndef': return ('fn', ty)
            return UNIT
        if 'int' in v: return int(v['int'])
        if 'agg' in v:
            t = self.types.get(ty)
            fts = []
            if t and t['k'] == 'adt': fts = [x[1] for x in t['variants'][v['agg']]['fields']]
            elif t and t['k'] == 'tuple': fts = t['elems']
            r = []
            for i, f in enumerate(v['fields']): r.append(self.const(f, fts[i] if i < len(fts) else None))
            return ('a', v['agg'], tuple(r))
        if 'array' in v: return ('a', 0, tuple(self.const(f, None) for f in v['array']))
        if 'fnptr' in v: return ('fp', v['fnptr'])
        if 'str' in v: return ('str', v['str'])
        if 'refto' in v:
            i = self.const(v['refto'], None)
            if v.get('slice'): return ('sliceconst', i)
            return ('cref', i)
        return ('t', 'const', ty)

    # --- lazy compilation of a body
    def compile(self, f):
        if f.id in self.compiled: return
        self.compiled.add(f.id)
        bl = []
        for b in f.blocks:
            st = []
            for s in b['stmts']:
                c = self.cstmt(f, s)
                if c is not None: st.append(c)
            bl.append((st, self.cterm(f, b['term']), b['term'].get('line', 0)))
        f.blocks = bl

    def cplace(self, p):
        pr = []
        for e in p['projection']:
            if e == 'Deref': pr.append('D')
            elif isinstance(e, dict):
                k = next(iter(e))
                if k == 'Field': pr.append(e['Field'][0])
                elif k == 'Downcast': pr.append(('v', e['Downcast']))
                elif k == 'Index': pr.append(('I', e['Index']))
                elif k == 'ConstantIndex': pr.append(('C', e[k]['offset'], e[k]['from_end']))
                elif k == 'Subslice': pr.append(('S', e[k]['from'], e[k]['to'], e[k]['from_end']))
                elif k == 'OpaqueCast': pass
                else: pr.append(('?', k))
            else: pr.append(('?', e))
        return (p['local'], tuple(pr))

    def place_ty(self, f, p):
        t = f.locals[p['local']]
        for e in p['projection']:
            ty = self.types[t]
            if e == 'Deref':
                if ty['k'] in ('ref', 'ptr'): t = ty['elem']
                elif ty.get('box'): t = ty['args'][0]
                else: return None
            elif isinstance(e, dict):
                k = next(iter(e))
                if k == 'Field': t = e['Field'][1]
                elif k == 'Downcast': pass
                elif k in ('Index', 'ConstantIndex'):
                    if 'elem' not in ty: return None
                    t = ty['elem']
        return t

    def cop(self, o):
        k = next(iter(o))
        if k in ('Copy', 'Move'): return (k[0], self.cplace(o[k]))
        if k == 'Constant':
            c = o[k]['const_']
            return ('K', self.consts.get(c['id'], ('t', 'const', c['id'])))
        if 'RuntimeChecks' in o: return ('K', int('OverflowChecks' in str(o)))  # std's own checks of unsafe preconditions are off, overflow checks on
        return ('K', ('t', 'const', str(o)))

    def op_ty(self, f, o):
        k = next(iter(o))
        if k in ('Copy', 'Move'): return self.place_ty(f, o[k])
        if k == 'Constant': return o[k]['const_']['ty']
        return None

    def cstmt(self, f, s):
        k = s['s']
        if isinstance(k, str): return None
        n = next(iter(k))
        if n == 'Assign':
            pl, rv = k['Assign']
            a, b = self.cplace(pl), self.crv(f, rv, s, self.place_ty(f, pl))
            r = repr((a, b))
            fl = 2 if "('I', " in r or "('C', " in r else (1 if b[0] in ('discr', 'bin', 'cbin', 'un', 'cast', 'len') else 0)
            return ('=', a, b, fl)
        if n == 'StorageDead': return ('dead', k[n])
        if n == 'SetDiscriminant': return ('setd', self.cplace(k[n]['place']), k[n]['variant_index'])
        if n == 'Intrinsic':
            x = k[n].get('CopyNonOverlapping') if isinstance(k[n], dict) else None
            if x is not None: return ('copy', self.cop(x['src']), self.cop(x['dst']), self.cop(x['count']))
            return None
        return None

    def crv(self, f, rv, s, dty):
        if isinstance(rv, str): return ('?', rv)
        n = next(iter(rv)); x = rv[n]
        if n == 'Use': return ('use', self.cop(x[0] if isinstance(x, list) else x))
        if n == 'Ref': return ('ref', self.cplace(x[2]))
        if n == 'AddressOf': return ('ref', self.cplace(x[1]))
        if n == 'CopyForDeref': return ('use', ('C', self.cplace(x)))
        if n == 'Aggregate':
            kind, ops = x
            ops = tuple(self.cop(o) for o in ops)
            if isinstance(kind, str): return ('agg', 0, ops, dty)
            kn = next(iter(kind))
            if kn == 'Adt': return ('agg', kind['Adt'][1], ops, s.get('cty', dty))
            if kn == 'RawPtr': return ('rawptr', ops)
            return ('agg', 0, ops, s.get('cty', dty))
        if n == 'Discriminant':
            return ('discr', self.cplace(x), self.place_ty(f, x))
        if n == 'Cast':
            kd = x[0]
            if isinstance(kd, dict): kd = json.dumps(kd)
            return ('cast', kd, self.cop(x[1]), x[2], s.get('sty', self.op_ty(f, x[1])), s.get('reify'))
        if n in ('BinaryOp', 'CheckedBinaryOp'):
            return ('bin' if n == 'BinaryOp' else 'cbin', x[0], self.cop(x[1]), self.cop(x[2]), self.op_ty(f, x[1]))
        if n == 'UnaryOp': return ('un', x[0], self.cop(x[1]), self.op_ty(f, x[1]))
        if n == 'Len': return ('len', self.cplace(x))
        if n == 'Repeat': return ('repeat', self.cop(x[0]), x[1])
        if n == 'NullaryOp': return ('null', json.dumps(x))
        return ('?', n)

    def cterm(self, f, tj):
        t = tj['t']
        if isinstance(t, str):
            return (t.lower(),)
        n = next(iter(t)); x = t[n]
        if n == 'Goto': return ('goto', x['target'])
        if n == 'SwitchInt':
            return ('switch', self.cop(x['discr']), tuple((int(a), b) for a, b in x['targets']['branches']), x['targets']['otherwise'], self.op_ty(f, x['discr']))
        if n == 'Call':
            return ('call', tj.get('callee'), tj.get('callee_def'), tuple(self.cop(a) for a in x['args']), self.cplace(x['destination']), x['target'], self.place_ty(f, x['destination']),
                    self.cop(x['func']) if tj.get('callee') is None else None, tuple(self.op_ty(f, a) for a in x['args']))
        if n == 'Drop': return ('drop', self.cplace(x['place']), tj.get('dropty'), tj.get('glue'), x['target'])
        if n == 'Assert': return ('assert', self.cop(x['cond']), x['expected'], x['target'], json.dumps(x['msg'])[:200])
        return ('?', n)


# ------------------------------------------------------------------ liveness

def _ops(x, out):
    """operands and places mentioned by a compiled operand, rvalue or terminator -> (local, projections)"""
    if type(x) is tuple:
        if len(x) == 2 and type(x[0]) is int and type(x[1]) is tuple:
            out.append(x)
            for e in x[1]:
                if type(e) is tuple and e[0] == 'I': out.append((e[1], ()))
            return
        if x and x[0] == 'K': return
        for y in x: _ops(y, out)


def _uses(st):
    """(locals read, local written as a whole or None) of a compiled statement or terminator"""
    k = st[0]; u = []; d = None
    if k == '=':
        _ops(st[2][1:2] if st[2][0] in ('use', 'ref', 'discr', 'len', 'repeat') else st[2][1:4], u)
        if st[1][1]: u.append(st[1]); _ops((st[1],), u)
        else: d = st[1][0]
    elif k == 'dead': d = st[1]
    elif k == 'setd': _ops((st[1],), u)
    elif k == 'copy': _ops(st[1:], u)
    elif k == 'switch': _ops((st[1],), u)
    elif k == 'call':
        _ops((st[3], st[7]), u)
        if st[4][1]: _ops((st[4],), u)
        else: d = st[4][0]
    elif k == 'drop': _ops((st[1],), u)
    elif k == 'assert': _ops((st[1],), u)
    elif k == 'return': u.append((0, ()))
    return [x[0] for x in u], d


def _moved(st):
    """locals moved out of as a whole by a statement or terminator"""
    r = []
    def go(x):
        if type(x) is tuple:
            if len(x) == 2 and x[0] == 'M' and not x[1][1]: r.append(x[1][0]); return
            if x and x[0] == 'K': return
            for y in x: go(y)
    if st[0] == '=': go(st[2][1:])
    elif st[0] == 'copy': go(st[1:])
    elif st[0] == 'call': go(st[3])
    return r


def _init(cur, st):
    """forward effect of a statement or terminator on the set of possibly initialised locals"""
    for l in _moved(st): cur.discard(l)
    k = st[0]
    if k in ('=', 'setd'): cur.add(st[1][0])
    elif k == 'dead': cur.discard(st[1])
    elif k == 'call': cur.add(st[4][0])
    elif k == 'drop' and not st[1][1]: cur.discard(st[1][0])


def _targets(t):
    k = t[0]
    if k == 'goto': return (t[1],)
    if k == 'switch': return tuple(b for a, b in t[2]) + (t[3],)
    if k == 'call': return (t[5],)
    if k == 'drop': return (t[4],)
    if k == 'assert': return (t[3],)
    return ()


LIVE = {}


def live(fn, bb, i):
    """locals of fn that can still be read at statement i of block bb: borrowed ones, and those read before they are written"""
    key = (fn.id, bb, i)
    r = LIVE.get(key)
    if r is not None: return r
    base = LIVE.get(fn.id)
    if base is None:
        borrowed = set()
        for st, te, _ in fn.blocks:
            for x in st:
                if x[0] == '=' and x[2][0] == 'ref' and not (x[2][1][1] and x[2][1][1][0] == 'D'): borrowed.add(x[2][1][0])
        inn = [frozenset()] * len(fn.blocks)
        ch = True
        while ch:
            ch = False
            for b in range(len(fn.blocks) - 1, -1, -1):
                st, te, _ = fn.blocks[b]
                cur = set()
                for t in _targets(te):
                    if t is not None: cur |= inn[t]
                for x in [te] + st[::-1]:
                    u, d = _uses(x)
                    cur.discard(d); cur.update(u)
                if cur != inn[b]: inn[b] = frozenset(cur); ch = True
        ini = [None] * len(fn.blocks)
        ini[0] = frozenset(range(1, fn.argc + 1))
        todo = [0]
        while todo:
            b = todo.pop()
            cur = set(ini[b])
            for x in fn.blocks[b][0] + [fn.blocks[b][1]]: _init(cur, x)
            for t in _targets(fn.blocks[b][1]):
                if t is None: continue
                n = frozenset(cur) | (ini[t] or frozenset())
                if ini[t] is None or n != ini[t]: ini[t] = n; todo.append(t)
        base = LIVE[fn.id] = (frozenset(borrowed), inn, ini)
    st, te, _ = fn.blocks[bb]
    cur = set()
    for t in _targets(te):
        if t is not None: cur |= base[1][t]
    for x in [te] + st[i:][::-1]:
        u, d = _uses(x)
        cur.discard(d); cur.update(u)
    mi = set(base[2][bb] or ())
    for x in st[:i]: _init(mi, x)
    r = LIVE[key] = frozenset(cur) | (base[0] & mi)
    return r


def has_box(v):
    if type(v) is not tuple: return False
    if v and v[0] == 'box': return True
    for x in v:
        if type(x) is tuple and has_box(x): return True
    return False


# ------------------------------------------------------------------ state

class Frame:
    __slots__ = ('fn', 'bb', 'i', 'ret', 'retbb', 'depth', 'on_ret')

    def __init__(s, fn, depth, ret, retbb, on_ret=None):
        s.fn, s.bb, s.i, s.ret, s.retbb, s.depth, s.on_ret = fn, 0, 0, ret, retbb, depth, on_ret

    def copy(s):
        f = Frame(s.fn, s.depth, s.ret, s.retbb, s.on_ret)
        f.bb, f.i = s.bb, s.i
        return f


class State:
    __slots__ = ('frames', 'mem', 'pc', 'mon', 'fresh', 'script', 'spos', 'trace', 'steps', 'dom', 'imprecise', 'threads', 'cur', 'granted', 'blocked', 'held', 'gen')

    def __init__(s):
        s.frames = []; s.mem = {}; s.pc = {}; s.mon = None; s.fresh = 0
        s.script = (); s.spos = 0; s.trace = None; s.gen = 0; s.steps = 0; s.dom = None; s.imprecise = None
        s.threads = None; s.cur = 0; s.granted = False; s.blocked = {}; s.held = ()

    def copy(s):
        n = State()
        n.frames = [f.copy() for f in s.frames]
        n.mem = dict(s.mem); n.pc = dict(s.pc); n.fresh = s.fresh
        n.mon = s.mon.copy() if s.mon is not None else None
        n.dom = s.dom.copy() if s.dom is not None else None
        n.script = s.script; n.spos = s.spos; n.trace = s.trace; n.gen = s.gen; n.steps = s.steps; n.imprecise = s.imprecise
        n.cur, n.granted, n.held = s.cur, s.granted, s.held
        if s.threads is None: n.threads = None; n.blocked = {}
        else: n.threads = {t: [f.copy() for f in fs] for t, fs in s.threads.items()}; n.blocked = dict(s.blocked)
        return n

    # --- nondeterminism
    def choose(s, n):
        if n == 1: return 0
        if n == 0: raise Infeasible()
        if s.spos < len(s.script):
            r = s.script[s.spos]; s.spos += 1
            return r
        raise Need(n)

    def note(s, m): s.trace = (s.trace, m)

    def steps_taken(s):
        out, t = [], s.trace
        while t is not None: t, m = t; out.append(m)
        return tuple(out[::-1])

    def new(s, label='v'):
        s.fresh += 1
        return ('t', label, s.fresh)

    def heap(s, v):
        s.fresh += 1
        k = ('h', s.fresh)
        s.mem[k] = v
        return k

    # --- memory
    def read(s, key, path=()):
        try: v = s.mem[key]
        except KeyError:
            if key[0] == 'h': raise Violation('C42', 'use-after-free', 'freed memory is read')
            raise Undecided('read of dead or unknown memory %r' % (key,))
        i = 0; n = len(path)
        while i < n:
            p = path[i]
            tag = v[0] if type(v) is tuple else None
            if type(p) is tuple:
                if tag not in ('seq', 'a'): raise Undecided('slice of %r' % (v,))
                if p[2] > len(v[-1]): raise PanicPath('slice end out of bounds')
                v = v[:-1] + (v[-1][p[1]:p[2]],)
            elif tag == 'a':
                if type(p) is int:
                    if p >= len(v[2]): raise Undecided('field %d of %r' % (p, v))
                    v = v[2][p]
                else: raise Undecided('projection %r of aggregate' % (p,))
            elif tag == 'box':
                if p == '*': v = v[1]
                elif p == 0:
                    # Box.0 / Unique.0 / NonNull.0: a pointer to the contents
                    v = ('r', key, path[:i] + ('*',))
                    j = i + 1
                    while j < n and path[j] == 0: j += 1
                    if j < n: raise Undecided('box projection')
                    return v
                elif p == 1: v = UNIT
                else: raise Undecided('box projection %r' % (p,))
            elif tag == 'seq' and type(p) is int and all(x[0] == 'e' for x in v[1][:p + 1]):
                if p >= len(v[1]): raise PanicPath('index out of bounds')
                v = v[1][p][1]
            elif tag in ('r', 'vt', 'arc', 'weak', 'fp', 'dangling') and p == 0:
                pass
            elif tag == 'arc' or tag == 'weak':
                v = UNIT
            elif tag == 'it' and type(p) is int:
                v = UNIT if p == 2 else elem_ptr(v[1], v[2 + p])       # slice::Iter { ptr, end_or_len, _marker }
            elif s.dom is not None:
                v = s.dom.read_elem(s, v, p)
            else:
                raise Undecided('projection %r of %r' % (p, v))
            i += 1
        return v

    def write(s, key, path, val):
        if not path:
            s.mem[key] = val
            return
        old = s.mem.get(key, UNINIT)
        s.mem[key] = s._upd(old, path, 0, val)

    def _upd(s, v, path, i, val):
        if i == len(path): return val
        p = path[i]
        tag = v[0] if type(v) is tuple else None
        if type(p) is tuple and tag in ('seq', 'a'):
            x = s._upd(v[:-1] + (v[-1][p[1]:p[2]],), path, i + 1, val)
            if len(x[-1]) != p[2] - p[1]: raise Undecided('slice write changes the length')
            return v[:-1] + (v[-1][:p[1]] + x[-1] + v[-1][p[2]:],)
        if tag == 'a':
            if type(p) is int:
                f = v[2]
                if p >= len(f): f = f + (UNINIT,) * (p + 1 - len(f))
                return ('a', v[1], f[:p] + (s._upd(f[p], path, i + 1, val),) + f[p + 1:])
            raise Undecided('write projection %r of aggregate' % (p,))
        if tag == 'seq' and type(p) is int and all(x[0] == 'e' for x in v[1][:p + 1]):
            q = v[1]
            return ('seq', q[:p] + (('e', s._upd(q[p][1], path, i + 1, val)),) + q[p + 1:])
        if tag == 'box':
            if p == '*': return ('box', s._upd(v[1], path, i + 1, val))
            raise Undecided('write into box pointer')
        if tag == 'uninit' and type(p) is int:
            return ('a', 0, (UNINIT,) * p + (s._upd(UNINIT, path, i + 1, val),))
        if tag == 'it' and p in (0, 1):
            while type(val) is tuple and val[0] == 'a' and len(val[2]) == 1: val = val[2][0]
            j = ptr_index(val, v[1])
            if j is None: raise Undecided('iterator pointer %r' % (val,))
            return v[:2 + p] + (j,) + v[3 + p:]
        if s.dom is not None:
            return s.dom.write_elem(s, v, p, lambda o: s._upd(o, path, i + 1, val))
        raise Undecided('write projection %r of %r' % (p, v))

    def load(s, ref):
        """contents of a reference value"""
        t = ref[0] if type(ref) is tuple else None
        if t == 'r': return s.read(ref[1], ref[2])
        if t == 'cref': return ref[1]
        raise Undecided('deref of %r' % (ref,))

    def store(s, ref, v):
        if ref[0] != 'r': raise Undecided('store through %r' % (ref,))
        s.write(ref[1], ref[2], v)

    # --- canonical form
    def canon(s, upto=None):
        c = Canon(s)
        out = []
        fr = s.frames
        if s.threads is not None:
            fr = []
            for t in sorted(list(s.threads) + [s.cur]):
                fr = fr + (s.frames if t == s.cur else s.threads[t])
            out.append((tuple(sorted(list(s.threads) + [s.cur])), len(fr)))
        for f in fr:
            out.append((f.depth, f.fn.id, f.bb, f.i))
        for f in fr:
            loc = []
            lv = live(f.fn, f.bb, f.i) if f.fn.py is None else None
            for l in range(len(f.fn.locals)):
                v = s.mem.get((f.depth, l))
                if v is not None and v is not UNINIT and (lv is None or l in lv or has_box(v)): loc.append((l, c.val(v)))
            out.append(tuple(loc))
        if s.blocked: out.append(c.val(tuple(sorted(s.blocked.items(), key=lambda x: x[0]))))
        if s.mon is not None: out.append(c.val(s.mon.canon()))
        if s.dom is not None: out.append(c.val(s.dom.canon(s)))
        # heap reachable
        while c.todo:
            k = c.todo.pop(0)
            out.append((c.keys[k], c.val(s.mem[k]) if k in s.mem else None, s.mem.get(('rc', k))))
        pcs = []
        for a, b in s.pc.items():
            r = c.known(a)
            if r is not None: pcs.append((repr(r), b))
        pcs.sort()
        out.append(tuple(pcs))
        out.append(s.imprecise is not None)
        return tuple(out)


def elem_ptr(r, i):
    """pointer to element i of the slice behind r"""
    if type(r) is not tuple or r[0] != 'r': raise Undecided('element of %r' % (r,))
    p = r[2]
    if p and type(p[-1]) is tuple: return ('r', r[1], p[:-1] + (p[-1][1] + i,))
    return ('r', r[1], p + (i,))


def ptr_index(q, r):
    """index of the element pointer q in the slice behind r"""
    if type(q) is not tuple or q[0] != 'r' or not q[2] or type(q[2][-1]) is not int: return None
    b = elem_ptr(r, 0)
    if q[1] != b[1] or q[2][:-1] != b[2][:-1]: return None
    return q[2][-1] - b[2][-1]


class Canon:
    def __init__(c, s): c.s, c.terms, c.keys, c.todo = s, {}, {}, []

    def val(c, v):
        if type(v) is not tuple: return v
        if not v: return v
        t = v[0]
        if t == 't':
            if len(v) == 3 and type(v[2]) is int:
                r = c.terms.get(v)
                if r is None: r = c.terms[v] = ('t', v[1], -len(c.terms) - 1)
                return r
            return ('t', v[1]) + tuple(c.val(x) for x in v[2:])
        if t == 'h' and len(v) == 2:
            r = c.keys.get(v)
            if r is None:
                r = c.keys[v] = ('H', len(c.keys))
                c.todo.append(v)
            return r
        return tuple([c.val(x) if type(x) is tuple else x for x in v])

    def known(c, v):
        """canonical form of an atom, or None if it mentions a term that is unreachable"""
        if type(v) is not tuple: return v
        if v and v[0] == 't' and len(v) == 3 and type(v[2]) is int: return c.terms.get(v)
        if v and v[0] == 'h' and len(v) == 2: return c.keys.get(v)
        r = []
        for x in v:
            y = c.known(x) if type(x) is tuple else x
            if y is None and type(x) is tuple: return None
            r.append(y)
        return tuple(r)


# ------------------------------------------------------------------ interpreter

STDLIB = ('core', 'alloc', 'std')


class Interp:
    def __init__(self, prog, handlers, max_states=60000, max_steps=4000, max_depth=90):
        import more
        self.p = prog; self.handlers = handlers = dict(handlers)
        for k, v in more.H.items(): handlers.setdefault(k, v)
        self.exact = {}; self.prefix = []
        for k, v in handlers.items():
            if k.endswith('*'): self.prefix.append((k[:-1], v))
            else: self.exact[k] = v
        self.max_states, self.max_steps, self.max_depth = max_states, max_steps, max_depth; self.deadline = None
        self.visited = set(); self.nstates = 0; self.undecided = {}; self.violations = {}; self.panics = {}
        self.fns_seen = set(); self.paths = 0; self.events = 0; self.completed = 0; self.calls_seen = set()
        self.dom = None; self.at_end = None; self.lock_edges = {}; self.stop = None

    # ---- threads
    def switch(self, s, t):
        s.threads[s.cur] = s.frames
        s.frames = s.threads.pop(t)
        s.cur = t

    def seen(self, s):
        if s.script == ():
            k = s.canon()
            if k in self.visited: raise Infeasible()
            self.visited.add(k)
            self.events += 1
            if s.threads is None: s.gen += 1

    def runnable(self, s, cur=True):
        return sorted(t for t in ([s.cur] if cur else []) + [t for t in s.threads if t] if t not in s.blocked)

    def sched(self, s):
        """start of a shared-memory event: True if another thread was scheduled instead"""
        if s.threads is None: return False
        if s.granted:
            s.granted = False
            return False
        self.seen(s)
        run = self.runnable(s)
        t = run[s.choose(len(run))]
        if t == s.cur: return False
        self.switch(s, t); s.granted = True
        s.note('  -- thread %d runs' % t)
        return True

    def block(self, s, lock, mode):
        if s.threads is None: raise Violation('C07', 'self-deadlock', 'a thread waits for a lock that it holds itself')
        s.blocked[s.cur] = (lock, mode)
        run = self.runnable(s)
        if not run: raise Violation('C07', 'deadlock', 'every thread waits for a lock: ' + ', '.join('thread %d in %s' % (t, self.where_f(s.frames if t == s.cur else s.threads[t])) for t in sorted(s.blocked)))
        t = run[s.choose(len(run))]
        self.switch(s, t); s.granted = True
        s.note('  -- blocked; thread %d runs' % t)
        return RESCHED

    def thread_end(self, s):
        s.granted = False
        others = [t for t in s.threads if t]
        if not others:
            s.frames = s.threads.pop(0); s.cur = 0; s.threads = None
            f = s.frames[-1]; t = f.fn.blocks[f.bb][1]
            self.assign(s, f, t[4], UNIT)
            f.bb, f.i = t[5], 0
            s.note('---- threads joined')
            return None
        run = self.runnable(s, False)
        if not run: raise Violation('C07', 'deadlock', 'the remaining threads wait for locks: ' + ', '.join('thread %d in %s' % (t, self.where_f(s.threads[t])) for t in sorted(s.blocked)))
        self.seen(s)
        t = run[s.choose(len(run))]
        s.frames = s.threads.pop(t); s.cur = t; s.granted = True
        s.note('  -- thread %d runs' % t)
        return None

    def find(self, f):
        if f.hfind: return f.handler
        f.hfind = True
        d = f.def_
        h = self.exact.get(d) or self.exact.get(f.name)
        if h is None and ('core::' in d or 'alloc::' in d): h = self.exact.get(d.replace('core::', 'std::').replace('alloc::', 'std::'))
        if h is None and ('std::iter::Iterator' in d or 'std::iter::DoubleEndedIterator' in d) and (d.startswith('std::iter::') or ' as std::iter::' in d or '<impl std::iter::' in d):
            h = self.exact.get('iter:' + d.rsplit('::', 1)[-1])
        if h is None:
            for p, v in self.prefix:
                if f.def_.startswith(p): h = v; break
        if h is None and f.intrinsic:
            h = self.exact.get('intrinsic:' + f.intrinsic)
        f.handler = h
        return h

    # ---- running
    def run(self, st):
        # breadth first over the checkpoints (shallow histories first), depth first between them
        work, later = [st], {}
        self.t0 = time.time(); self.stop = None
        while True:
            if not work:
                if not later: return
                work = later.pop(min(later))
            s = work.pop()
            self.nstates += 1
            if self.stop is not None and self.nstates & 127 == 0 and time.time() > self.stop: return  # violations were found: do not spend the whole budget on more
            if self.nstates > self.max_states or (self.nstates & 127 == 0 and self.deadline and time.time() > self.deadline):
                self.undecided['exploration budget exhausted'] = self.undecided.get('exploration budget exhausted', 0) + 1
                return
            s0 = s.gen
            try:
                r = self.run_path(s)
                if r:
                    if r[0].gen == s0: work.extend(r)
                    else: later.setdefault(r[0].gen, []).extend(r)
            except Undecided as e:
                self.und(s, e.why)
            except PanicPath as e:
                self.panic(s, e.why)
            except Violation as e:
                self.violate(s, e)
            except Infeasible:
                pass

    def und(self, s, why):
        self.paths += 1
        k = why + ' @ ' + self.where(s)
        self.undecided[k] = self.undecided.get(k, 0) + 1

    def panic(self, s, why):
        self.paths += 1
        if s.imprecise is not None:
            return self.und(s, 'panic on imprecise path (%s): %s' % (s.imprecise, why))
        k = (why, self.where(s))
        if k not in self.panics: self.panics[k] = s.steps_taken()
        if getattr(s.mon, 'also', 0): self.violations.setdefault(('C%02d' % s.mon.also, 'also-panic'), ('a panic is reachable: ' + why, s.steps_taken(), self.where(s)))

    def violate(self, s, e):
        self.paths += 1
        if s.imprecise is not None:
            return self.und(s, '%s on imprecise path (%s): %s' % (e.rule, s.imprecise, e.msg))
        k = (e.prop, e.rule)
        if self.stop is None: t = time.time(); self.stop = t + max(30, t - self.t0)
        if k not in self.violations: self.violations[k] = (e.msg, s.steps_taken(), self.where(s))

    def where(self, s): return self.where_f(s.frames)

    def where_f(self, frames):
        for f in reversed(frames):
            if f.fn.krate == 'futures_signals':
                ln = f.fn.blocks[f.bb][2] if f.fn.id in self.p.compiled else f.fn.line
                return '%s:%s (%s)' % ((f.fn.file or '?').replace('/repo/', ''), ln, f.fn.def_)
        return frames[0].fn.name if frames else '?'

    def stack(self, s):
        return [f.fn.def_ for f in s.frames]

    def run_path(self, s):
        s.steps = 0
        while True:
            if not s.frames:
                if s.cur == 0: break
                r = self.with_choices(s, self.thread_end)
            else:
                r = self.step(s)
            if r is not None: return r
            s.steps += 1
            if s.steps > self.max_steps: raise Undecided('step budget')
        if self.at_end is not None: self.at_end(self, s)
        self.paths += 1; self.completed += 1
        return None

    def step(self, s):
        f = s.frames[-1]
        if f.fn.py is not None: return self.with_choices(s, f.fn.py)
        blk = f.fn.blocks[f.bb]
        stmts = blk[0]
        n = len(stmts)
        while f.i < n:
            st = stmts[f.i]
            if st[0] == '=' and st[3] and not self.fast(s, f, st):
                r = self.with_choices(s, self.stmt_choice)
                if r is not None: return r
                continue
            self.stmt(s, f, st)
            f.i += 1
        return self.term(s, f, blk[1])

    def stmt_choice(self, s):
        f = s.frames[-1]
        self.stmt(s, f, f.fn.blocks[f.bb][0][f.i])
        f.i += 1
        return None

    def fast(self, s, f, st):
        """can this statement be evaluated without any choice?"""
        if st[3] == 2: return False
        rv = st[2]; k = rv[0]
        try:
            if k == 'discr':
                key, path = self.resolve(s, f, rv[1])
                v = s.read(key, path)
                return type(v) is int or v[0] == 'a'
            if k in ('bin', 'cbin'):
                return type(self.operand(s, f, rv[2])) is int and type(self.operand(s, f, rv[3])) is int
            if k in ('un', 'cast'):
                return type(self.operand(s, f, rv[2])) is int
        except Undecided: return True
        return False

    # ---- places
    def resolve(self, s, f, pl):
        key = (f.depth, pl[0]); path = ()
        for e in pl[1]:
            if e == 'D':
                v = s.read(key, path)
                t = v[0] if type(v) is tuple else None
                if t == 'r': key, path = v[1], v[2]
                elif t == 'box': path = path + ('*',)
                elif t == 'cref':
                    k = ('const', v[1]); s.mem[k] = v[1]; key, path = k, ()
                elif t in ('str', 'sliceconst'):
                    k = ('const', v); s.mem[k] = v; key, path = k, ()
                elif t == 'a' and len(v[2]) == 2 and type(v[2][0]) is tuple and v[2][0][0] == 'box':   # Box<T, A> as aggregate
                    path = path + (0, '*')
                elif s.dom is not None:
                    key, path = s.dom.deref(s, v)
                else: raise Undecided('deref of %r' % (v,))
            elif type(e) is int:
                if f.fn.krate in STDLIB:
                    # fields of a collection that is modelled as a sequence are not visible
                    v = s.mem.get(key) if not path else s.read(key, path) if key in s.mem else None
                    if type(v) is tuple and v and v[0] == 'seq': raise Undecided('field of a collection in %s' % f.fn.def_)
                path = path + (e,)
            else:
                k = e[0]
                if k == 'v': continue
                if k == 'I':
                    i = s.read((f.depth, e[1]))
                    key, path = self.index(s, key, path, i)
                elif k == 'C':
                    key, path = self.index(s, key, path, self.seq_len(s, key, path) - e[1] if e[2] else e[1])
                elif k == 'S':
                    lo, hi = e[1], self.seq_len(s, key, path) - e[2] if e[3] else e[2]
                    if path and type(path[-1]) is tuple: path = path[:-1] + (('S', path[-1][1] + lo, path[-1][1] + hi),)
                    else: path = path + (('S', lo, hi),)
                else: raise Undecided('projection %r' % (e,))
        return key, path

    def seq_len(self, s, key, path):
        if path and type(path[-1]) is tuple: return path[-1][2] - path[-1][1]
        v = s.read(key, path)
        if type(v) is tuple and v[0] == 'a': return len(v[2])
        if type(v) is tuple and v[0] == 'seq': return len(v[1])
        raise Undecided('length of %r' % (v,))

    def index(self, s, key, path, i):
        if type(i) is int:
            if path and type(path[-1]) is tuple:
                if i >= path[-1][2] - path[-1][1]: raise PanicPath('index out of bounds')
                return key, path[:-1] + (path[-1][1] + i,)
            v = s.read(key, path)
            if v[0] in ('a', 'seq'): return key, path + (i,)
        else: v = i
        if s.dom is not None: return s.dom.index(s, key, path, i)
        raise Undecided('index of %r' % (v,))

    def operand(self, s, f, o):
        k = o[0]
        if k == 'K': return o[1]
        pl = o[1]
        if not pl[1]:
            try: return s.mem[(f.depth, pl[0])]
            except KeyError: raise Undecided('uninitialised local _%d in %s' % (pl[0], f.fn.def_))
        key, path = self.resolve(s, f, pl)
        return s.read(key, path)

    def assign(self, s, f, pl, v):
        if not pl[1]:
            s.mem[(f.depth, pl[0])] = v
        else:
            key, path = self.resolve(s, f, pl)
            s.write(key, path, v)

    # ---- statements
    def stmt(self, s, f, st):
        k = st[0]
        if k == '=':
            self.assign(s, f, st[1], self.rvalue(s, f, st[2]))
        elif k == 'dead':
            s.mem.pop((f.depth, st[1]), None)
        elif k == 'copy':
            a, b, n = [self.operand(s, f, o) for o in st[1:4]]
            if type(n) is not int: raise Undecided('copy of %r elements' % (n,))
            if n == 1: s.store(b, s.load(a))
            elif n:
                if not all(type(x) is tuple and x[0] == 'r' and x[2] and type(x[2][-1]) is int and self.in_list(s, x) for x in (a, b)): raise Undecided('copy of %d elements' % n)
                l = [s.load(elem_ptr(('r', a[1], a[2][:-1]), a[2][-1] + i)) for i in range(n)]
                for i, x in enumerate(l): s.store(elem_ptr(('r', b[1], b[2][:-1]), b[2][-1] + i), x)
        elif k == 'setd':
            key, path = self.resolve(s, f, st[1])
            v = s.read(key, path)
            if v[0] == 'a': s.write(key, path, ('a', st[2], v[2]))
            elif v is UNINIT: s.write(key, path, ('a', st[2], ()))
            else: raise Undecided('set discriminant')

    def rvalue(self, s, f, rv):
        k = rv[0]
        if k == 'use': return self.operand(s, f, rv[1])
        if k == 'ref':
            key, path = self.resolve(s, f, rv[1])
            return ('r', key, path)
        if k == 'agg':
            t = rv[3]
            ty = self.p.types.get(t) if t is not None else None
            vals = tuple([self.operand(s, f, o) for o in rv[2]])
            return ('a', rv[1], vals)
        if k == 'discr':
            key, path = self.resolve(s, f, rv[1])
            if key not in s.mem and key[0] == f.depth: return UNINIT     # left over by drop elaboration; must not be used
            v = s.read(key, path)
            if v is UNINIT: return UNINIT
            return self.discr(s, v, rv[2], (key, path))
        if k == 'cast': return self.cast(s, f, rv)
        if k == 'bin':
            return self.binop(s, rv[1], self.operand(s, f, rv[2]), self.operand(s, f, rv[3]), rv[4])
        if k == 'cbin':
            a, b = self.operand(s, f, rv[2]), self.operand(s, f, rv[3])
            return self.checked(s, rv[1], a, b, rv[4])
        if k == 'un': return self.unop(s, rv[1], self.operand(s, f, rv[2]), rv[3])
        if k == 'rawptr':
            a = self.operand(s, f, rv[1][0]); b = self.operand(s, f, rv[1][1])
            if b == UNIT: return a
            if type(b) is int and type(a) is tuple and a[0] == 'r' and a[2] and type(a[2][-1]) is int and self.in_list(s, a):
                return ('r', a[1], a[2][:-1] + (('S', a[2][-1], a[2][-1] + b),))
            if s.dom is not None: return s.dom.rawptr(s, a, b)
        if k == 'len' and s.dom is not None:
            key, path = self.resolve(s, f, rv[1])
            return s.dom.length(s, s.read(key, path))
        if k == 'len':
            key, path = self.resolve(s, f, rv[1])
            v = s.read(key, path)
            if v[0] == 'a': return len(v[2])
            if v[0] == 'seq': return len(v[1])
        if k == 'repeat':
            return ('t', 'repeat', self.operand(s, f, rv[1]), str(rv[2]))
        if k == 'null': return 0
        raise Undecided('rvalue %r' % (rv[:2],))

    def in_list(self, s, r):
        """is r a pointer to an element of a list?"""
        try: v = s.read(r[1], r[2][:-1])
        except (Undecided, PanicPath): return False
        return type(v) is tuple and (v[0] == 'seq' or v[0] == 'a')

    def discr(self, s, v, t, where):
        if type(v) is tuple and v[0] == 'a':
            ty = self.p.types.get(t)
            if ty and ty['k'] == 'adt' and ty['adt'] == 'enum':
                d = ty['variants'][v[1]]['discr']
                d = int(d)
                return d
            return v[1]
        if type(v) is int: return v
        if s.dom is not None:
            r = s.dom.discr(s, v, t, where)
            if r is not None: return r
        raise Undecided('discriminant of %r' % (v,))

    def cast(self, s, f, rv):
        kd, v, dt, st_, reify = rv[1], self.operand(s, f, rv[2]), rv[3], rv[4], rv[5]
        if reify is not None and 'Reify' in kd or 'ClosureFnPointer' in kd:
            return ('fp', reify)
        tag = v[0] if type(v) is tuple else None
        if 'Unsize' in kd and s.dom is not None:
            return s.dom.unsize(s, v, st_, dt)
        if tag == 'a' and 'Unsize' in kd and self.p.types[dt]['k'] == 'adt' and len(v[2]) == 1: return v
        if tag == 'r' and kd == 'PtrToPtr' and st_ is not None:
            # a pointer to an UnsafeCell becomes a pointer to its contents
            a = self.p.types.get(st_); b = self.p.types.get(dt)
            a = self.p.types.get(a.get('elem')) if a else None
            if a and b and a['k'] in ('slice', 'array') and a.get('elem') is not None and b.get('elem') == a['elem']: return elem_ptr(v, 0)
            if a and a['k'] == 'adt' and a['def'] == 'std::cell::UnsafeCell' and b and b.get('elem') == a['args'][0]: return ('r', v[1], v[2] + (0,))
        if tag in ('r', 'box', 'arc', 'weak', 'fp', 'cref', 'sliceconst', 'str', 'dangling'): return v
        if tag == 'a' and len(v[2]) == 1 and kd == 'Transmute':
            d = self.p.types[dt]
            if d['k'] in ('ptr', 'ref', 'int'):
                while d['k'] == 'int' and type(v) is tuple and v[0] == 'a' and len(v[2]) == 1: v = (v, v[2][0])[1]
                return v[2][0] if tag == 'a' and type(v) is tuple and v[0] == 'a' else v
        if type(v) is int:
            d = self.p.types.get(dt)
            if d and d['k'] == 'int':
                m = 1 << d['bits']
                v = v % m
                if d['signed'] and v >= m // 2: v -= m
            elif d and d['k'] == 'adt' and kd == 'Transmute':
                return self.transmute_int(s, v, d)
            return v
        if tag in ('n', 'b'): return v
        if kd == 'Transmute': return v
        if 'PtrToPtr' in kd: return v
        if s.dom is not None: return s.dom.cast(s, kd, v, dt, st_)
        raise Undecided('cast %s of %r' % (kd, v))

    def transmute_int(self, s, v, d):
        # newtype wrappers and fieldless enums
        if d.get('def') == 'std::option::Option' and (self.p.types.get(d['args'][0]) or {}).get('k') == 'adt':   # Option<NonZero<..>>
            return some(self.newtype(v, d['args'][0])) if v else NONE
        if d['adt'] == 'enum':
            for i, x in enumerate(d['variants']):
                if x['discr'] is not None and int(x['discr']) == v and not x['fields']: return ('a', i, ())
        if d['adt'] == 'struct' and len(d['variants'][0]['fields']) >= 1: return ('a', 0, (v,))
        return v

    def signed64(self, x): return x - (1 << 64) if x >= 1 << 63 else x

    def newtype(self, v, t):
        d = self.p.types.get(t) or {}
        if d.get('k') == 'adt' and d.get('adt') == 'struct' and d['variants'][0]['fields']: return ('a', 0, (self.newtype(v, d['variants'][0]['fields'][0][1]),))
        return v

    def binop(self, s, op, a, b, t):
        if type(a) is int and type(b) is int: return self.cbinop(op, a, b, t)
        if a is UNINIT or b is UNINIT: return UNINIT
        if op in ('Eq', 'Ne') and (a, b) != (None, None):
            if type(a) is tuple and type(b) is tuple and a[0] == 'r' and b[0] == 'r':
                e = a[1:3] == b[1:3]
                return int(e == (op == 'Eq'))
            if type(a) is tuple and a[0] == 'r' and b == 0 or type(b) is tuple and b[0] == 'r' and a == 0:
                return int(op == 'Ne')
        if op == 'Offset' and type(a) is tuple and a[0] == 'r' and type(b) is int and a[2] and type(a[2][-1]) is int:
            if self.in_list(s, a): return ('r', a[1], a[2][:-1] + (a[2][-1] + self.signed64(b),))
        if op in ('Lt', 'Le', 'Gt', 'Ge') and type(a) is tuple and type(b) is tuple and a[0] == 'r' and b[0] == 'r' and a[2] and b[2] and a[1] == b[1] and a[2][:-1] == b[2][:-1] and type(a[2][-1]) is type(b[2][-1]) is int:
            return self.cbinop(op, a[2][-1], b[2][-1], None)
        if op in ('Lt', 'Le', 'Gt', 'Ge') and type(a) is tuple and type(b) is tuple and a[0] == 'r' and b[0] == 'r' and a[2] == b[2] == ():
            if a == b: return int(op in ('Le', 'Ge'))
            x, y = (a, b) if a[1] <= b[1] else (b, a)          # an unknown but fixed address order
            less = self.force_bool(s, ('b', ('addr', x[1], y[1]), True))
            if (x, y) != (a, b): less = 1 - less
            return int(less == (op in ('Lt', 'Le')))
        if op == 'BitAnd' and type(a) is tuple and a[0] == 'r' and type(b) is int: return 0   # alignment check
        if type(a) is tuple and a[0] == 'b' or type(b) is tuple and b[0] == 'b':
            return self.bool_bin(s, op, a, b)
        if s.dom is not None: return s.dom.binop(s, op, a, b, t)
        raise Undecided('%s on %r, %r' % (op, a, b))

    def bool_bin(self, s, op, a, b):
        a = self.force_bool(s, a); b = self.force_bool(s, b)
        return self.cbinop(op, a, b, None)

    def wrap(self, r, t):
        d = self.p.types.get(t)
        if d and d['k'] == 'int':
            m = 1 << d['bits']
            r %= m
            if d['signed'] and r >= m // 2: r -= m
        return r

    def cbinop(self, op, a, b, t):
        if t is not None and (a > 127 or b > 127) and op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Cmp') and self.p.types.get(t, {}).get('signed'): a = self.wrap(a, t); b = self.wrap(b, t)
        if op in ('Eq',): return int(a == b)
        if op == 'Ne': return int(a != b)
        if op == 'Lt': return int(a < b)
        if op == 'Le': return int(a <= b)
        if op == 'Gt': return int(a > b)
        if op == 'Ge': return int(a >= b)
        if op == 'Cmp': return ('a', 0 if a < b else (1 if a == b else 2), ())
        if op in ('Add', 'AddUnchecked'): r = a + b
        elif op in ('Sub', 'SubUnchecked'): r = a - b
        elif op in ('Mul', 'MulUnchecked'): r = a * b
        elif op == 'Div': r = a // b if (a < 0) == (b < 0) else -(-a // b)
        elif op == 'Rem': r = a % b if (a < 0) == (b < 0) else -(-a % b) if a < 0 else a % -b
        elif op == 'BitAnd': r = a & b
        elif op == 'BitOr': r = a | b
        elif op == 'BitXor': r = a ^ b
        elif op in ('Shl', 'ShlUnchecked'): r = a << b
        elif op in ('Shr', 'ShrUnchecked'): r = a >> b
        else: raise Undecided('binop ' + op)
        return self.wrap(r, t) if t is not None else r

    def checked(self, s, op, a, b, t):
        if type(a) is int and type(b) is int:
            r = {'Add': a + b, 'Sub': a - b, 'Mul': a * b}.get(op)
            if r is None: raise Undecided('checked ' + op)
            w = self.wrap(r, t)
            return ('a', 0, (w, int(w != r)))
        if s.dom is not None: return s.dom.checked(s, op, a, b, t)
        raise Undecided('checked %s on %r, %r' % (op, a, b))

    def unop(self, s, op, v, t):
        if op == 'Not':
            if type(v) is int:
                d = self.p.types.get(t)
                if d and d['k'] == 'bool': return 1 - v
                return self.wrap(~v, t)
            if v[0] == 'b': return ('b', v[1], not v[2])
        if op == 'Neg' and type(v) is int: return self.wrap(-v, t)
        if op == 'PtrMetadata':
            if s.dom is not None: return s.dom.ptrmeta(s, v)
            if type(v) is tuple and v[0] == 'r':
                try: x = s.read(v[1], v[2])
                except Undecided: return UNIT
                if type(x) is tuple and x[0] == 'seq': return len(x[1])
                d = self.p.types.get(t)
                if d and d['k'] in ('ref', 'ptr') and self.p.types[d['elem']]['k'] == 'slice' and type(x) is tuple and x[0] == 'a': return len(x[2])
            return UNIT
        raise Undecided('unop %s %r' % (op, v))

    # ---- symbolic booleans
    def truth(self, s, atom):
        """known truth of an atom or None"""
        r = s.pc.get(atom)
        if r is None and s.dom is not None: r = s.dom.truth(s, atom)
        return r

    def force_bool(self, s, v):
        if type(v) is int: return v
        if type(v) is tuple and v[0] == 'b':
            t = self.truth(s, v[1])
            if t is None:
                t = s.choose(2) == 0
                self.assume(s, v[1], t)
            return int(t == v[2])
        if s.dom is not None: return s.dom.force_bool(s, v)
        raise Undecided('not a bool: %r' % (v,))

    def assume(self, s, atom, t):
        if s.dom is not None and s.dom.assume(s, atom, t): return
        s.pc[atom] = t

    # ---- terminators
    def term(self, s, f, t):
        k = t[0]
        if k == 'goto':
            f.bb, f.i = t[1], 0
            return None
        if k == 'switch':
            v = self.operand(s, f, t[1])
            if type(v) is not int:
                return self.with_choices(s, lambda s2: self.do_switch(s2, t))
            return self.do_switch(s, t)
        if k == 'return': return self.do_return(s)
        if k == 'call': return self.do_call(s, f, t)
        if k == 'drop': return self.do_drop(s, f, t)
        if k == 'assert':
            return self.with_choices(s, lambda s2: self.do_assert(s2, t))
        if k == 'unreachable': raise PanicPath('unreachable reached')
        if k in ('resume', 'abort'): raise PanicPath('unwinding')
        raise Undecided('terminator %r' % (t,))

    def do_switch(self, s, t):
        f = s.frames[-1]
        v = self.operand(s, f, t[1])
        if type(v) is not int:
            if type(v) is tuple and v[0] == 'b': v = self.force_bool(s, v)
            elif s.dom is not None: v = s.dom.switch(s, v, t[2])
            else: raise Undecided('switch on %r' % (v,))
        d = self.p.types.get(t[4])
        for a, b in t[2]:
            if v is not None and (a == v or (v < 0 and d and d['k'] == 'int' and a == v % (1 << d['bits']))):
                f.bb, f.i = b, 0
                return None
        f.bb, f.i = t[3], 0
        return None

    def do_assert(self, s, t):
        f = s.frames[-1]
        c = self.operand(s, f, t[1])
        c = self.force_bool(s, c)
        if bool(c) != bool(t[2]): raise PanicPath('assertion failed: ' + t[4])
        f.bb, f.i = t[3], 0
        return None

    def with_choices(self, s, fn):
        """run fn(s) exploring every choice it makes; fn must be idempotent from a snapshot"""
        snap = s.copy()
        try:
            s.spos = 0
            r = fn(s)
            s.script = (); s.spos = 0
            return r
        except Need as e:
            out = []
            for c in range(e.n):
                n = snap.copy()
                n.script = snap.script + (c,); n.spos = 0
                out.append(n)
            return out
        except ForkStates as e:
            for x in e.states: x.script = (); x.spos = 0
            return e.states

    def do_return(self, s):
        f = s.frames.pop()
        v = s.mem.get((f.depth, 0), UNIT)
        for l in range(len(f.fn.locals)): s.mem.pop((f.depth, l), None)
        if f.on_ret is not None:
            return self.with_choices(s, lambda s2: f.on_ret(self, s2, v))
        if not s.frames: return None
        if f.ret is not None:
            if f.ret[0] == 'abs': s.write(f.ret[1], f.ret[2], v)
            else: self.assign(s, s.frames[-1], f.ret, v)
        g = s.frames[-1]
        if f.retbb is not None:
            g.bb, g.i = f.retbb, 0
        return None

    def do_call(self, s, f, t):
        _, callee, cdef, args, dest, target, dty, func, atys = t
        if callee is None:
            fv = self.operand(s, f, func)
            if type(fv) is tuple and fv[0] == 'fp': callee = fv[1]
            else:
                raise Undecided('indirect call %r %s' % (fv, cdef))
        fn = self.p.fns[callee]
        if fn.kind == 'virtual': # decided by the only type that is ever turned into this trait object
            l = self.p.virt.get(callee, ())
            if len(l) != 1: raise Undecided('virtual call of %s with %d candidates' % (fn.def_, len(l)))
            fn = self.p.fns[l[0]]
        h = self.find(fn)
        if h is None and fn.args and fn.def_ in ('std::ptr::drop_glue', 'std::ptr::drop_in_place'):
            td = self.p.types.get(fn.args[0])
            if td is not None and self.drop_handler(td) is not None: h = h_drop_in_place
        if h is not None:
            self.calls_seen.add(fn.def_)
            return self.with_choices(s, lambda s2: self.do_handler(s2, h, fn, t))
        if not fn.blocks:
            # enum / tuple struct constructors have no body
            ty = self.p.types.get(dty)
            last = fn.def_.rsplit('::', 1)[-1]
            if ty and ty['k'] == 'adt':
                for i, v in enumerate(ty['variants']):
                    if v['name'] == last and len(v['fields']) == len(args):
                        self.assign(s, f, dest, ('a', i, tuple([self.operand(s, f, a) for a in args])))
                        f.bb, f.i = target, 0
                        return None
            if 'panic' in fn.def_ or 'unwrap_failed' in fn.def_ or 'expect_failed' in fn.def_:
                raise PanicPath(fn.def_)
            raise Undecided('unmodelled function ' + fn.def_ + (' [virtual]' if fn.kind == 'virtual' else ''))
        vals = [self.operand(s, f, a) for a in args]
        rust_call = cdef in RUST_CALL
        if t[1] is None and len(vals) != fn.argc or fn.def_ == 'std::ops::FnOnce::call_once' and t[1] is None:   # a closure reified to a function pointer: no captures
            if fn.closure: vals = [('a', 0, ())] + vals
            else: vals = [('a', 0, ()), ('a', 0, tuple(vals))]
        self.push(s, fn, vals, dest, target, rust_call)
        return None

    def push(self, s, fn, vals, dest, target, rust_call=False, on_ret=None):
        if len(s.frames) > self.max_depth: raise Undecided('recursion depth in ' + fn.def_)
        if not fn.blocks: raise Undecided('no body: ' + fn.def_)
        self.p.compile(fn)
        self.fns_seen.add(fn.id)
        if rust_call and fn.closure and fn.kind == 'item' and fn.spread is None:
            tup = vals[-1]
            vals = vals[:-1] + list(tup[2])
        d = s.cur * 1000 + len(s.frames)
        g = Frame(fn, d, dest, target, on_ret)
        s.frames.append(g)
        for l in range(len(fn.locals)): s.mem.pop((d, l), None)
        for i, v in enumerate(vals): s.mem[(d, i + 1)] = v
        return g

    def do_handler(self, s, h, fn, t):
        f = s.frames[-1]
        vals = [self.operand(s, f, a) for a in t[3]]
        c = Call(self, s, fn, vals, t)
        r = h(c)
        if r is NORET or r is RESCHED: return None
        if r is DECLINE:
            if not fn.blocks: raise Undecided('unmodelled function ' + fn.def_)
            self.push(s, fn, vals, t[4], t[5], t[2] in RUST_CALL)
            return None
        if t[5] is None: raise PanicPath('diverging call ' + fn.def_)
        self.assign(s, f, t[4], r)
        f.bb, f.i = t[5], 0
        return None

    def do_drop(self, s, f, t):
        _, pl, ty, glue, target = t
        if glue is None:
            f.bb, f.i = target, 0
            return None
        td = self.p.types.get(ty)
        if td is not None and td['k'] == 'dyn':
            l = self.p.dyns.get(ty, ())
            if len(l) != 1: raise Undecided('drop of %s with %d candidates' % (td['name'], len(l)))
            return self.do_drop(s, f, (t[0], pl, l[0], self.p.glue.get(l[0]), target))
        if td is not None and self.drop_handler(td) is not None:
            return self.with_choices(s, lambda s2: self.do_drop2(s2, t))
        key, path = self.resolve(s, f, pl)
        f.bb, f.i = target, 0
        self.push(s, self.p.fns[glue], [('r', key, path)], None, None)
        return None

    def do_drop2(self, s, t):
        _, pl, ty, glue, target = t
        f = s.frames[-1]
        key, path = self.resolve(s, f, pl)
        td = self.p.types[ty]
        r = self.drop_handler(td)(self, s, td, ty, key, path)
        if r is RESCHED: return None
        f.bb, f.i = target, 0
        if r is not None:
            self.push2(s, r)
        return None

    def drop_value(self, s, ty, ref):
        """push the drop of the value of type ty behind ref; the caller's frame must already point behind the drop.
        Returns RESCHED (nothing done), or None."""
        td = self.p.types[ty]
        if not td.get('needs_drop'): return None
        if td['k'] == 'dyn':
            l = self.p.dyns.get(ty, ())
            if len(l) != 1: raise Undecided('drop of %s with %d candidates' % (td['name'], len(l)))
            return self.drop_value(s, l[0], ref)
        h = self.drop_handler(td)
        if h is not None:
            r = h(self, s, td, ty, ref[1], ref[2])
            if r is RESCHED: return r
            if r is not None: self.push2(s, r)
            return None
        g = self.p.glue.get(ty)
        if g is None: raise Undecided('no drop glue for ' + td['name'])
        self.push(s, self.p.fns[g], [ref], None, None)
        return None

    def drop_handler(self, td):
        if td['k'] == 'adt':
            h = self.exact.get('drop:' + td['def'])
            return h
        return None

    def push2(self, s, x, dest=None, target=None):
        fn, vals, on_ret = x
        if type(fn) is tuple: return self.pyframe(s, fn[1], fn[2], vals, dest, target, on_ret)
        return self.push(s, fn, vals, dest, target, False, on_ret)

    def call_callable(self, s, ty, ref, args, on_ret):
        """call the callable of type ty behind ref; on_ret(I, s, value)"""
        while self.p.types[ty]['k'] == 'ref':
            ty = self.p.types[ty]['elem']; ref = s.load(ref)
        if self.p.types[ty]['k'] == 'fndef' and self.p.types[ty].get('call') is not None:
            fn = self.p.fns[self.p.types[ty]['call']]
            h = self.find(fn)
            if h is not None:
                x = h(Call(self, s, fn, list(args), None))
                if x is not RESCHED and x is not NORET and x is not DECLINE: return on_ret(self, s, x)
                if x is not DECLINE: raise Undecided('callable handler ' + fn.def_)
            if not fn.blocks:
                tdn = fn.def_.rsplit('::', 1)[-1]
                raise Undecided('unmodelled callable ' + fn.def_)
            self.push(s, fn, list(args), None, None, False, on_ret)
            return
        r = self.p.callable(ty)
        if r is None: raise Undecided('no instance that calls %s' % self.p.types[ty]['name'])
        fn, k = r
        vals = [ref if k == 'mut' else s.load(ref), ('a', 0, tuple(args))]
        h = self.find(fn)
        if h is not None or not fn.blocks:
            c = Call(self, s, fn, vals, None)
            if h is None: raise Undecided('unmodelled callable ' + fn.def_)
            x = h(c)
            if x is RESCHED or x is NORET or x is DECLINE: raise Undecided('callable handler ' + fn.def_)
            on_ret(self, s, x)
            return
        self.push(s, fn, vals, None, None, True, on_ret)

    def pyframe(self, s, name, fn, vals, dest=None, target=None, on_ret=None):
        """push a pseudo function whose step is the python function fn(s); its state lives in its locals"""
        pf = PYF.get(name)
        if pf is None:
            pf = Fn(); pf.id = 'py:' + name; pf.name = pf.def_ = name; pf.krate = 'std'; pf.args = []; pf.kind = 'py'; pf.intrinsic = None; pf.closure = False
            pf.locals = [None] * 10; pf.argc = 0; pf.spread = None; pf.blocks = [([], None, 0)]; pf.file = None; pf.line = 0; pf.handler = None; pf.hfind = True
            PYF[name] = pf
        pf.py = fn
        d = s.cur * 1000 + len(s.frames)
        g = Frame(pf, d, dest, target, on_ret)
        s.frames.append(g)
        for l in range(10): s.mem.pop((d, l), None)
        for i, v in enumerate(vals): s.mem[(d, i + 1)] = v
        return g


PYF = {}
RUST_CALL = ('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call')


RESCHED = object()  # another thread was scheduled; the event is re-executed later
DECLINE = object()  # interpret the body instead
NORET = object()   # the handler arranged control flow itself (pushed frames or moved the pc)


class Call:
    """context handed to a handler"""
    __slots__ = ('I', 's', 'fn', 'a', 't', 'on_ret', 'took')

    def __init__(c, I, s, fn, a, t): c.I, c.s, c.fn, c.a, c.t, c.on_ret, c.took = I, s, fn, a, t, None, False

    @property
    def dty(c): return c.t[6]
    def targ(c, i=0): return [x for x in c.fn.args if type(x) is int][i]
    def call_fn(c, fn, vals, on_ret, rust_call=False):
        """push fn; when it returns, on_ret(I, s, value) must finish the pending call"""
        c.I.push(c.s, fn, vals, None, None, rust_call, on_ret)
        return NORET
    def finish(c, s, v):
        f = s.frames[-1]
        c.I.assign(s, f, c.t[4], v)
        f.bb, f.i = c.t[5], 0


def some(v): return ('a', 1, (v,))
NONE = ('a', 0, ())
def ready(v): return ('a', 0, (v,))
PENDING = ('a', 1, ())


def h_drop_in_place(c):
    r = c.a[0]
    ty = c.fn.args[0]; td = c.I.p.types[ty]
    x = c.I.drop_handler(td)(c.I, c.s, td, ty, r[1], r[2])
    if x is RESCHED: return x
    if x is not None:
        fn, vals, on_ret = x
        f = c.s.frames[-1]
        c.I.assign(c.s, f, c.t[4], UNIT); f.bb, f.i = c.t[5], 0
        c.I.push2(c.s, x)
        return NORET
    return UNIT
