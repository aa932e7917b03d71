"""Concurrency: interleaving abstract interpretation of shared-memory events (sequentially consistent order),
heap ownership (Arc / Weak / raw boxes), locks, wakers, channels; judged by the requirements in harness/src/conc.rs."""
from engine import *
from env import *
import stdlib, re


class CMon:
    """what the environment observed"""
    def __init__(m): m.woken = frozenset(); m.alive = (); m.out = 0; m.dead = False; m.over = False; m.started = False; m.inputs = {}; m.src = (); m.also = 0
    def copy(m):
        n = CMon(); n.woken, n.alive, n.inputs, n.src, n.also = m.woken, m.alive, {k: r.copy() for k, r in m.inputs.items()}, m.src, m.also
        return n
    def canon(m): return (tuple(sorted(m.woken)), m.alive, m.src, m.also, tuple((k,) + r.canon() for k, r in m.inputs.items()))
    def tell(m, *a): pass


def rd(s, r):
    """value behind possibly nested references"""
    return s.load(r)


# ---------------------------------------------------------------- Arc / Weak
def arc_new_cell(s, v, strong=1, weak=0):
    k = s.heap(v)
    s.mem[('rc', k)] = (strong, weak)
    return k


def arc_of(c, i=0):
    v = c.a[i]
    if type(v) is tuple and v[0] in ('r', 'cref'): v = c.s.load(v)
    if type(v) is not tuple or v[0] not in ('arc', 'weak'): raise Undecided('not an Arc: %r' % (v,))
    return v


def h_arc_new(c): return ('arc', arc_new_cell(c.s, c.a[0]))


def h_arc_clone(c):
    v = arc_of(c)
    st, w = c.s.mem[('rc', v[1])]
    c.s.mem[('rc', v[1])] = (st + 1, w)
    return v


def h_arc_deref(c):
    v = arc_of(c)
    return ('r', v[1], ())


def h_downgrade(c):
    v = arc_of(c)
    st, w = c.s.mem[('rc', v[1])]
    c.s.mem[('rc', v[1])] = (st, w + 1)
    return ('weak', v[1])


def h_weak_new(c): return ('weak', None)


def h_weak_clone(c):
    v = arc_of(c)
    if v[1] is not None:
        st, w = c.s.mem[('rc', v[1])]
        c.s.mem[('rc', v[1])] = (st, w + 1)
    return v


def h_upgrade(c):
    v = arc_of(c)
    if v[1] is None: return NONE
    if c.I.sched(c.s): return RESCHED
    st, w = c.s.mem[('rc', v[1])]
    if st == 0: return NONE
    c.s.mem[('rc', v[1])] = (st + 1, w)
    return some(('arc', v[1]))


def h_ptr_eq(c): return int(arc_of(c, 0)[1] == arc_of(c, 1)[1])


def h_as_ptr(c):
    v = arc_of(c)
    if v[1] is None: return 8
    return ('r', v[1], ())


def h_strong_count(c):
    v = arc_of(c)
    if c.I.sched(c.s): return RESCHED
    return c.s.mem[('rc', v[1])][0] if v[1] is not None else 0


def h_weak_count(c):
    v = arc_of(c)
    if c.I.sched(c.s): return RESCHED
    return c.s.mem[('rc', v[1])][1] if v[1] is not None else 0


def h_arc_get_mut(c):
    v = arc_of(c)
    if c.I.sched(c.s): return RESCHED
    return some(('r', v[1], ())) if c.s.mem[('rc', v[1])] == (1, 0) else NONE


def h_arc_try_unwrap(c):
    v = arc_of(c)
    if c.I.sched(c.s): return RESCHED
    into = c.fn.def_.endswith('into_inner')
    st, w = c.s.mem[('rc', v[1])]
    if st != 1:
        if into:
            c.s.mem[('rc', v[1])] = (st - 1, w)
            return NONE
        return ('a', 1, (v,))
    x = c.s.mem.pop(v[1])
    free(c.s, v[1], w)
    return some(x) if into else ('a', 0, (x,))


def free(s, k, w):
    if w == 0: s.mem.pop(('rc', k), None)
    else: s.mem[('rc', k)] = (0, w)


def drop_arc(I, s, td, ty, key, path):
    v = s.read(key, path)
    if v[0] != 'arc': raise Undecided('drop of Arc %r' % (v,))
    if I.sched(s): return RESCHED
    k = v[1]
    rc = s.mem.get(('rc', k))
    if rc is None or rc[0] == 0: raise Violation('C42', 'double-drop', 'an Arc is released twice')
    s.mem[('rc', k)] = (rc[0] - 1, rc[1])
    if rc[0] > 1: return None
    inner = td['args'][0]
    it = I.p.types[inner]

    def done(I, s, _):
        s.mem.pop(k, None)
        free(s, k, s.mem[('rc', k)][1])
        return None
    if not it.get('needs_drop'):
        done(I, s, None)
        return None
    return drop_push(I, s, inner, ('r', k, ()), done)


def drop_push(I, s, ty, ref, on_ret):
    """(fn, vals, on_ret) that drops ref"""
    g = I.p.glue.get(ty)
    if g is None: raise Undecided('no drop glue for ' + I.p.types[ty]['name'])
    td = I.p.types[ty]
    if I.drop_handler(td) is not None: 
        # a handled type directly inside: use a pseudo frame
        def step(s):
            f = s.frames[-1]
            if s.mem.get((f.depth, 2)) is None:
                s.mem[(f.depth, 2)] = 1
                r = s.mem[(f.depth, 1)]
                x = I.drop_handler(td)(I, s, td, ty, r[1], r[2])
                if x is RESCHED:
                    f2 = f
                    s.mem.pop((f.depth, 2))
                    return None
                if x is not None: I.push2(s, x)
                return None
            return I.do_return(s)
        return (('py', 'drop:' + td['name'], step), [ref], on_ret)
    return (I.p.fns[g], [ref], on_ret)


def drop_weak(I, s, td, ty, key, path):
    v = s.read(key, path)
    if v[0] != 'weak': raise Undecided('drop of Weak %r' % (v,))
    if v[1] is None: return None
    st, w = s.mem[('rc', v[1])]
    if st == 0 and w == 1 and v[1] not in s.mem: s.mem.pop(('rc', v[1]))
    else: s.mem[('rc', v[1])] = (st, w - 1)


# ---------------------------------------------------------------- atomics
BITS = {'usize': 64, 'u64': 64, 'u32': 32, 'u16': 16, 'u8': 8, 'isize': -64, 'i64': -64, 'i32': -32, 'i16': -16, 'i8': -8}
ORD = ('Relaxed', 'Release', 'Acquire', 'AcqRel', 'SeqCst')


def ordering(c, i):
    v = c.a[i]
    return ORD[v[1]] if type(v) is tuple and v[0] == 'a' else 'SeqCst'


def shared(c): return c.s.threads is not None and len(c.s.threads) > 1


def publish(c, v, o):
    if type(v) is tuple and v[0] == 'r' and o not in ('Release', 'AcqRel', 'SeqCst') and shared(c):
        raise Violation('C42', 'publish-order', 'a pointer is published with ordering %s: the reader may see uninitialised contents' % o)


def consume(c, v, o):
    if type(v) is tuple and v[0] == 'r' and o not in ('Acquire', 'AcqRel', 'SeqCst') and shared(c):
        raise Violation('C42', 'consume-order', 'a pointer is received with ordering %s and then used' % o)


def h_atomic(c):
    m = re.match(r'std::sync::atomic::Atomic::<(.*)>::(\w+)$', c.fn.def_)
    if not m: return DECLINE
    ty, op = m.group(1), m.group(2)
    I, s = c.I, c.s
    if op in ('new', 'into_inner'): return c.a[0]
    if op == 'get_mut': return c.a[0]
    if op == 'as_ptr': return c.a[0]
    r = c.a[0]
    if op in ('load', 'store', 'swap', 'fetch_add', 'fetch_sub', 'fetch_and', 'fetch_or', 'fetch_xor', 'fetch_nand', 'fetch_not', 'fetch_max', 'fetch_min', 'compare_exchange', 'compare_exchange_weak', 'compare_and_swap'):
        if I.sched(s): return RESCHED
        old = s.load(r)
        nm = 'atomic %s %s' % (ty, op)
        if op == 'load':
            consume(c, old, ordering(c, 1))
            s.note('%s -> %s [%s]' % (nm, short(old), I.where(s)))
            return old
        if op == 'store': publish(c, c.a[1], ordering(c, 2)); s.store(r, c.a[1]); s.note('%s %s [%s]' % (nm, short(c.a[1]), I.where(s))); return UNIT
        if op == 'swap':
            publish(c, c.a[1], ordering(c, 2)); consume(c, old, ordering(c, 2))
            s.store(r, c.a[1]); s.note('%s %s -> %s [%s]' % (nm, short(c.a[1]), short(old), I.where(s)))
            return old
        if op.startswith('compare'):
            eq = old == c.a[1]
            if eq:
                publish(c, c.a[2], ordering(c, 3)); consume(c, old, ordering(c, 3)); s.store(r, c.a[2])
            s.note('%s %s to %s -> %s [%s]' % (nm, short(c.a[1]), short(c.a[2]), 'ok' if eq else 'failed, is ' + short(old), I.where(s)))
            if op == 'compare_and_swap': return old
            return ('a', 0 if eq else 1, (old,))
        if type(old) is not int or op != 'fetch_not' and type(c.a[1]) is not int: raise Undecided('%s on %r' % (op, old))
        b = c.a[1] if op != 'fetch_not' else 1
        if ty == 'bool':
            new = {'fetch_and': old & b, 'fetch_or': old | b, 'fetch_xor': old ^ b, 'fetch_nand': 1 - (old & b), 'fetch_not': 1 - old}.get(op)
        else:
            new = {'fetch_add': old + b, 'fetch_sub': old - b, 'fetch_and': old & b, 'fetch_or': old | b, 'fetch_xor': old ^ b, 'fetch_max': max(old, b), 'fetch_min': min(old, b)}.get(op)
            if new is not None:
                n = BITS.get(ty, 64); mod = 1 << abs(n); new %= mod
                if n < 0 and new >= mod // 2: new -= mod
        if new is None: raise Undecided('atomic ' + op)
        s.store(r, new)
        s.note('%s %s: %s -> %s [%s]' % (nm, b, old, new, I.where(s)))
        return old
    return DECLINE


def h_atomic_raw(c):
    """the intrinsics, where the body of an atomic operation was inlined into another standard function"""
    op = c.fn.def_.rsplit('::', 1)[1]
    I, s = c.I, c.s
    r = c.a[0]
    if type(r) is not tuple or r[0] != 'r': raise Undecided('%s on %r' % (op, r))
    path = r[2]
    while True:
        try: old = s.read(r[1], path); break
        except Undecided:
            if not path or path[-1] != 0: raise
            path = path[:-1]
    while type(old) is tuple and old[0] == 'a' and len(old[2]) == 1: path = path + (0,); old = old[2][0]
    if type(old) is not int: raise Undecided('%s on %r' % (op, old))
    if I.sched(s): return RESCHED
    r = ('r', r[1], path)
    if op == 'atomic_load': s.note('%s -> %s [%s]' % (op, short(old), I.where(s))); return old
    if op == 'atomic_store': s.store(r, c.a[1]); s.note('%s %s [%s]' % (op, short(c.a[1]), I.where(s))); return UNIT
    if op == 'atomic_xchg': s.store(r, c.a[1]); s.note('%s %s -> %s [%s]' % (op, short(c.a[1]), short(old), I.where(s))); return old
    if type(c.a[1]) is not int: raise Undecided('%s of %r' % (op, c.a[1]))
    eq = old == c.a[1]
    if eq: s.store(r, c.a[2])
    s.note('%s %s to %s -> %s [%s]' % (op, short(c.a[1]), short(c.a[2]), 'ok' if eq else 'failed, is ' + short(old), I.where(s)))
    return ('a', 0, (old, int(eq)))


def h_fence(c): return UNIT


# ---------------------------------------------------------------- locks: ('a',0,(('lk',writer,readers), value))
def h_lock_new(c): return ('a', 0, (('lk', None, ()), c.a[0]))


def the_lock(c):
    r = c.a[0]
    v = c.s.load(r)
    if type(v) is not tuple or v[0] != 'a' or type(v[2][0]) is not tuple or v[2][0][0] != 'lk': raise Undecided('not a lock: %r' % (v,))
    return r[1], r[2], v[2][0]


def acquire(c, mode, attempt=False):
    """mode 'w' or 'r'"""
    I, s = c.I, c.s
    key, path, lk = the_lock(c)
    if I.sched(s): return RESCHED
    lk = s.read(key, path + (0,))
    w, rs = lk[1], lk[2]
    me = s.cur
    cls = (c.fn.args[0] if c.fn.args else None, path)
    if not attempt:
        for h in s.held:
            if h[0] == me and h[3] != cls: I.lock_edges.setdefault((h[3], cls), ([x[3] for x in s.held if x[0] == me], I.where(s)))
        if mode == 'r' and me in rs and 'RwLock' in c.fn.def_:
            raise Violation('C07', 'self-deadlock', 'a thread reads a lock which it is already reading: it waits for ever if another thread is waiting to write')
    if w is not None or (mode == 'w' and rs) or (mode == 'r' and any(b == ((key, path), 'w') for b in s.blocked.values())):
        if attempt: return ('a', 1, (('a', 1, ()),))
        if w == me or (mode == 'w' and me in rs):
            raise Violation('C07', 'self-deadlock', 'a thread waits for a lock that it already holds')
        if s.threads is None: raise Violation('C07', 'self-deadlock', 'waits for a lock that is never released')
        return I.block(s, (key, path), mode)
    s.held = s.held + ((me, key, path, cls),)
    s.write(key, path + (0,), ('lk', me, rs) if mode == 'w' else ('lk', None, tuple(sorted(rs + (me,)))))
    s.note('lock %s [%s]' % ({'w': 'write', 'r': 'read'}[mode], I.where(s)))
    return ('a', 0, (('guard', mode, key, path),))


def release(s, g):
    lk = s.read(g[2], g[3] + (0,))
    if g[1] == 'w': n = ('lk', None, lk[2])
    else:
        rs = list(lk[2])
        if s.cur in rs: rs.remove(s.cur)
        elif rs: rs.pop()
        n = ('lk', lk[1], tuple(rs))
    s.write(g[2], g[3] + (0,), n)
    mine = [h for h in s.held if (h[1], h[2]) == (g[2], g[3])]
    one = next((h for h in mine if h[0] == s.cur), mine[0] if mine else None)
    if one is not None:
        i = s.held.index(one); s.held = s.held[:i] + s.held[i + 1:]
    for t, b in list(s.blocked.items()):
        if b[0] == (g[2], g[3]): del s.blocked[t]


def h_lock(c): return acquire(c, 'w')
def h_read(c): return acquire(c, 'r')
def h_trylock(c): return acquire(c, 'w', True)
def h_tryread(c): return acquire(c, 'r', True)


def drop_guard(I, s, td, ty, key, path):
    v = s.read(key, path)
    if v[0] != 'guard': raise Undecided('drop of guard %r' % (v,))
    if I.p.try_locks and I.sched(s): return RESCHED
    release(s, v)
    s.note('unlock [%s]' % I.where(s))


def h_guard_deref(c):
    g = c.s.load(c.a[0])
    if g[0] != 'guard': raise Undecided('deref of guard %r' % (g,))
    return ('r', g[2], g[3] + (1,))


def drop_lock(I, s, td, ty, key, path):
    it = td['args'][0]
    if not I.p.types[it].get('needs_drop'): return None
    return drop_push(I, s, it, ('r', key, path + (1,)), None)


def h_cb_pure(c):
    n = c.a[0]
    vals = tuple(deep(c.s, a) for a in c.a[1:])
    d = c.I.p.types[c.dty]
    c.s.note('callback %d(%s)' % (n, ','.join(short(v) for v in vals)))
    if d['k'] == 'bool': return ('b', ('cb', n) + vals, True)
    return ('t', 'cb%d' % n) + vals


def h_lock_get_mut(c):
    key, path, lk = the_lock(c)
    return ('a', 0, (('r', key, path + (1,)),))


def h_lock_into_inner(c):
    return ('a', 0, (c.a[0][2][1],))


# ---------------------------------------------------------------- wakers
def h_cxn(c):
    n = c.a[0]
    s = c.s
    s.mem[('cx', n)] = ('ctx', ('r', ('wk', n), ()))
    s.mem[('wk', n)] = ('waker', n)
    return ('r', ('cx', n), ())


def h_from_waker(c): return ('ctx', c.a[0])
def h_cx_waker(c):
    v = c.s.load(c.a[0])
    if v[0] != 'ctx': raise Undecided('context %r' % (v,))
    return v[1]


def h_mk_waker(c):
    """futures_util::task::waker(Arc<W>): calls W's ArcWake::wake_by_ref"""
    return ('awaker', c.a[0], c.fn.args[0])


def h_waker_clone(c):
    v = c.s.load(c.a[0])
    if v[0] == 'awaker':
        st, w = c.s.mem[('rc', v[1][1])]
        c.s.mem[('rc', v[1][1])] = (st + 1, w)
    return v


def arc_wake_fn(I, ty):
    n = I.p.types[ty]['name']
    for f in I.p.fns.values():
        if f.def_.endswith('ArcWake>::wake_by_ref') and f.def_.startswith('<' + I.p.types[ty].get('def', '?')) and f.blocks: return f
    raise Undecided('no ArcWake implementation for ' + n)


def do_wake(c, v, consume_):
    I, s = c.I, c.s
    if v[0] == 'waker':
        s.mon.woken = s.mon.woken | {v[1]}
        s.note('wake task %s [%s]' % (v[1], I.where(s)))
        return UNIT
    if v[0] == 'awaker':
        fn = arc_wake_fn(I, v[2])
        arc = v[1]; ty = v[2]
        t = c.t
        # keep the arc alive in a temporary cell while the callback runs
        tmp = s.heap(arc)

        def done(I, s, _):
            s.mem.pop(tmp, None)
            f = s.frames[-1]
            I.assign(s, f, t[4], UNIT)
            f.bb, f.i = t[5], 0
            if consume_: 
                release_arc(I, s, arc, ty)
            return None
        I.push(s, fn, [('r', tmp, ())], None, None, False, done)
        return NORET
    raise Undecided('wake of %r' % (v,))


def release_arc(I, s, arc, ty):
    k = arc[1]
    st, w = s.mem[('rc', k)]
    s.mem[('rc', k)] = (st - 1, w)
    if st > 1: return

    def done(I, s, _):
        s.mem.pop(k, None); free(s, k, s.mem[('rc', k)][1])
    if not I.p.types[ty].get('needs_drop'): done(I, s, None)
    else: I.push2(s, drop_push(I, s, ty, ('r', k, ()), done))


def h_wake(c): return do_wake(c, c.a[0], True)
def h_wake_by_ref(c): return do_wake(c, c.s.load(c.a[0]), False)


def h_will_wake(c):
    a, b = c.s.load(c.a[0]), c.s.load(c.a[1])
    return int(a[:2] == b[:2])


def h_noop_waker(c):
    c.s.mem[('wk', -1)] = ('waker', -1)
    return ('r', ('wk', -1), ())


def drop_waker(I, s, td, ty, key, path):
    v = s.read(key, path)
    if v[0] == 'awaker':
        k = v[1][1]
        st, w = s.mem[('rc', k)]
        if st > 1:
            s.mem[('rc', k)] = (st - 1, w)
            return None
        s.mem[('rc', k)] = (0, w)

        def done(I, s, _):
            s.mem.pop(k, None); free(s, k, s.mem[('rc', k)][1])
            return None
        if not I.p.types[v[2]].get('needs_drop'): done(I, s, None); return None
        return drop_push(I, s, v[2], ('r', k, ()), done)
    return None


# ---------------------------------------------------------------- raw boxes
def h_into_raw(c):
    v = c.a[0]
    if v[0] == 'a': v = v[2][0]
    if v[0] != 'box': raise Undecided('into_raw of %r' % (v,))
    k = c.s.heap(v[1])
    c.s.mem[('raw', k)] = 1
    return ('r', k, ())


def h_from_raw(c):
    r = c.a[0]
    if r[0] != 'r' or r[2] != (): raise Undecided('from_raw of %r' % (r,))
    if ('raw', r[1]) not in c.s.mem: raise Violation('C42', 'double-free', 'a box is taken back twice')
    del c.s.mem[('raw', r[1])]
    return ('box', c.s.mem.pop(r[1]))


def h_is_null(c): return int(c.a[0] == 0)


# ---------------------------------------------------------------- tracked values, requirements
def h_drop_d(I, s, td, ty, key, path):
    v = s.read(key, path)
    if v not in s.mon.alive: raise Violation('C42', 'double-drop', 'a value is dropped twice')
    s.mon.alive = tuple(x for x in s.mon.alive if x != v)


def h_input_c(c):
    n = c.a[0]
    v = make(c, c.dty, n)
    if c.I.p.types[c.dty].get('def') == 'harness::env::D': c.s.mon.alive = c.s.mon.alive + (v,)
    return v


def h_clone_d(c):
    v = c.s.load(c.a[0])
    n = c.s.new(v[1])
    c.s.mon.alive = c.s.mon.alive + (n,)
    return n


def need(c, ok, what):
    if not ok:
        v = Violation('C%02d' % c.a[0], 'req-%d' % c.a[1], what)
        if getattr(c.s.mon, 'also', 0): c.I.violate(c.s, Violation('C%02d' % c.s.mon.also, 'also-%d' % c.a[1], what))  # also charged to another property
        if not getattr(c.I, 'keep_going', False): raise v
        c.I.violate(c.s, v)  # the requirements that follow may belong to other properties
    return UNIT


def h_must(c):
    b = c.I.force_bool(c.s, c.a[2])
    return need(c, b, 'requirement %d is violated' % c.a[1])


def h_must_eq(c):
    a, b = deep(c.s, c.a[2]), deep(c.s, c.a[3])
    return need(c, a == b, 'requirement %d is violated: got %s, expected %s' % (c.a[1], short(a), short(b)))


def h_must_in(c):
    a, b, d = deep(c.s, c.a[2]), deep(c.s, c.a[3]), deep(c.s, c.a[4])
    return need(c, a in (b, d), 'requirement %d is violated: got %s, expected %s or %s' % (c.a[1], short(a), short(b), short(d)))


def h_same(c):
    import hist
    return int(hist.deepl(c.s, c.a[0]) == hist.deepl(c.s, c.a[1]))


def h_woken(c): return int(c.a[0] in c.s.mon.woken)
def h_cells(c): return len([k for k in c.s.mem if k[0] == 'rc'])


def h_bump(c):
    d = dict(c.s.mon.src); d[c.a[0]] = d.get(c.a[0], 0) + 1
    c.s.mon.src = tuple(sorted(d.items()))
    return UNIT


def h_ghost(c): return dict(c.s.mon.src).get(c.a[0], 0)


def h_pause(c):
    if c.I.sched(c.s): return RESCHED
    return UNIT


# formatting: the output is not modelled, the values that are printed are not visited
FMT_OK = ('a', 0, (UNIT,))
def h_formatter(c): return ('r', c.s.heap(('op', 'formatter', ())), ())
def h_fmt_self(c): return c.a[0]
def h_fmt_new(c): return ('op', 'formatter', ())
def h_fmt_ok(c): return FMT_OK


def h_par(c):
    I, s = c.I, c.s
    I.p.compile(c.fn)
    subs = [b[1][1] for b in c.fn.blocks if b[1][0] == 'call' and b[1][1] is not None]
    if len(subs) != len(c.a): raise Undecided('par')
    main = s.frames
    s.threads = {0: main}
    ths = {}
    for i, (fid, v) in enumerate(zip(subs, c.a)):
        s.cur = i + 1; s.frames = []
        I.push(s, I.p.fns[fid], [v, UNIT], None, None, True)
        ths[i + 1] = s.frames
    s.note('---- threads start')
    t = 1 + s.choose(len(c.a))
    s.cur = t; s.frames = ths.pop(t); s.threads.update(ths); s.granted = True
    s.note('  -- thread %d runs' % t)
    return NORET


def at_end(I, s):
    if s.mon.alive: raise Violation('C42', 'leak', 'a value is never dropped')
    left = [k for k in s.mem if k[0] in ('rc', 'raw')]
    if left: raise Violation('C42', 'leak', 'shared state is never freed')


def rng(c):
    return DECLINE


H = {
    'harness::env::pause': h_pause, 'harness::env::formatter': h_formatter,
    'harness::env::bump': h_bump, 'harness::env::ghost': h_ghost,
    'harness::env::cxn': h_cxn, 'harness::env::woken': h_woken, 'harness::env::cells': h_cells, 'harness::env::must': h_must, 'harness::env::must_eq': h_must_eq, 'harness::env::same': h_same, 'harness::env::must_in': h_must_in,
    'harness::env::par2': h_par, 'harness::env::par3': h_par, 'harness::env::input': h_input_c,
    '<harness::env::D as std::clone::Clone>::clone': h_clone_d, 'drop:harness::env::D': h_drop_d,
    'std::sync::Arc::<T>::new': h_arc_new, '<std::sync::Arc<T, A> as std::clone::Clone>::clone': h_arc_clone, '<std::sync::Arc<T, A> as std::ops::Deref>::deref': h_arc_deref,
    '<std::sync::Arc<T, A> as std::convert::AsRef<T>>::as_ref': h_arc_deref, '<std::sync::Arc<T, A> as std::borrow::Borrow<T>>::borrow': h_arc_deref,
    'std::sync::Arc::<T, A>::downgrade': h_downgrade, 'std::sync::Weak::<T, A>::upgrade': h_upgrade, 'std::sync::Weak::<T>::new': h_weak_new, '<std::sync::Weak<T, A> as std::clone::Clone>::clone': h_weak_clone,
    'std::sync::Arc::<T, A>::ptr_eq': h_ptr_eq, 'std::sync::Weak::<T, A>::ptr_eq': h_ptr_eq, 'std::sync::Arc::<T, A>::as_ptr': h_as_ptr, 'std::sync::Weak::<T, A>::as_ptr': h_as_ptr,
    'std::sync::Arc::<T, A>::strong_count': h_strong_count, 'std::sync::Weak::<T, A>::strong_count': h_strong_count, 'std::sync::Arc::<T, A>::weak_count': h_weak_count,
    'std::sync::Arc::<T, A>::get_mut': h_arc_get_mut, 'std::sync::Arc::<T, A>::try_unwrap': h_arc_try_unwrap, 'std::sync::Arc::<T, A>::into_inner': h_arc_try_unwrap,
    'drop:std::sync::Mutex': drop_lock, 'drop:std::sync::RwLock': drop_lock,
    'harness::env::cb': h_cb_pure, 'harness::env::cbr': h_cb_pure, 'harness::env::cb2': h_cb_pure,
    'drop:std::sync::Arc': drop_arc, 'drop:std::sync::Weak': drop_weak,
    'std::sync::atomic::Atomic::<*': h_atomic, 'std::sync::atomic::fence': h_fence,
    **{'std::intrinsics::atomic_' + x: h_atomic_raw for x in ('load', 'store', 'xchg', 'cxchg', 'cxchgweak')},
    'std::sync::Mutex::<T>::new': h_lock_new, 'std::sync::RwLock::<T>::new': h_lock_new,
    'std::sync::Mutex::<T>::lock': h_lock, 'std::sync::RwLock::<T>::write': h_lock, 'std::sync::RwLock::<T>::read': h_read,
    'std::sync::Mutex::<T>::try_lock': h_trylock, 'std::sync::RwLock::<T>::try_write': h_trylock, 'std::sync::RwLock::<T>::try_read': h_tryread,
    'std::sync::Mutex::<T>::get_mut': h_lock_get_mut, 'std::sync::RwLock::<T>::get_mut': h_lock_get_mut, 'std::sync::Mutex::<T>::into_inner': h_lock_into_inner, 'std::sync::RwLock::<T>::into_inner': h_lock_into_inner,
    'futures_util::task::waker': h_mk_waker, 'futures_task::waker::waker': h_mk_waker,
    'std::task::Context::<\'a>::from_waker': h_from_waker, 'std::task::Context::<\'a>::waker': h_cx_waker,
    '<std::task::Waker as std::clone::Clone>::clone': h_waker_clone, 'std::task::Waker::wake': h_wake, 'std::task::Waker::wake_by_ref': h_wake_by_ref, 'std::task::Waker::will_wake': h_will_wake, 'std::task::Waker::noop': h_noop_waker,
    'drop:std::task::Waker': drop_waker,
    'std::boxed::Box::<T>::into_raw': h_into_raw, 'std::boxed::Box::<T, A>::into_raw': h_into_raw, 'std::boxed::Box::<T>::leak': h_into_raw, 'std::boxed::Box::<T>::from_raw': h_from_raw, 'std::boxed::Box::<T, A>::from_raw': h_from_raw,
    'std::ptr::mut_ptr::<impl *mut T>::is_null': h_is_null, 'std::ptr::const_ptr::<impl *const T>::is_null': h_is_null, 'std::ptr::null_mut': lambda c: 0, 'std::ptr::null': lambda c: 0,
    'std::mem::forget': lambda c: UNIT,
}
for B in ('DebugStruct', 'DebugTuple', 'DebugList', 'DebugSet', 'DebugMap'):
    for P in ("std::fmt::%s::<'_, '_>::" % B, "std::fmt::%s::<'a, 'b>::" % B, "std::fmt::builders::%s::<'a, 'b>::" % B):
        for m in ('field', 'entry', 'entries', 'key', 'value'): H[P + m] = h_fmt_self
        for m in ('finish', 'finish_non_exhaustive'): H[P + m] = h_fmt_ok
for P in ("std::fmt::Formatter::<'a>::", "std::fmt::Formatter::<'_>::"):
    for m in ('debug_struct', 'debug_tuple', 'debug_list', 'debug_set', 'debug_map'): H[P + m] = h_fmt_new
    for m in ('write_str', 'write_fmt'): H[P + m] = h_fmt_ok
for G in ('std::sync::MutexGuard', 'std::sync::RwLockReadGuard', 'std::sync::RwLockWriteGuard'):
    H['drop:' + G] = drop_guard
    for a in ("<'_, T>", "<'a, T>", "<T>"):
        H['<%s%s as std::ops::Deref>::deref' % (G, a)] = h_guard_deref
        H['<%s%s as std::ops::DerefMut>::deref_mut' % (G, a)] = h_guard_deref


def lock_order(S):
    """cycles between different classes of locks, in the edges (held, wanted) -> (all held, where) of all cases"""
    edges = {}
    for e in S:
        for k, v in e.items(): edges.setdefault(k, v)
    nxt = {}
    for a, b in edges: nxt.setdefault(a, set()).add(b)
    out = []

    def walk(path):
        for b in sorted(nxt.get(path[-1], ())):
            if b == path[0]:
                es = list(zip(path, path[1:] + [b]))
                # a lock that every participant holds keeps them from running at the same time
                gate = set.intersection(*[set(edges[e][0]) for e in es]) - set(path)
                if path[0] == min(path) and not gate: out.append([(e, edges[e][1]) for e in es])
            elif b not in path: walk(path + [b])
    for a in sorted(nxt): walk([a])
    return edges, out


def run_case(prog, name, extra=None, max_states=400000):
    import hist
    T = hist.table()
    if extra: T.update(extra)
    I = Interp(prog, T, max_states=max_states)
    I.at_end = at_end; I.keep_going = True
    s = State(); s.mon = CMon()
    I.push(s, prog.fns[prog.cases[name]], [], None, None)
    I.run(s)
    return I
