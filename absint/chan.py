"""futures_channel::mpsc (unbounded) as an atomic queue."""
from engine import *
from env import *
import conc

# heap cell: ('chan', queue, waker or 0, number of senders, receiver alive)


def cell(c, v, tag):
    while type(v) is tuple and v[0] in ('r', 'cref'): v = c.s.load(v)
    if type(v) is not tuple or v[0] != tag: raise Undecided('channel end %r' % (v,))
    return v[1]


def h_unbounded(c):
    k = c.s.heap(('chan', (), 0, 1, True))
    return ('a', 0, (('snd', k), ('rcv', k)))


def wake(c_or_I, s, w):
    if w == 0: return
    if w[0] != 'waker': raise Undecided('channel waker %r' % (w,))
    s.mon.woken = s.mon.woken | {w[1]}
    s.note('wake task %s [%s]' % (w[1], c_or_I.where(s)))


def h_send(c):
    k = cell(c, c.a[0], 'snd')
    if c.I.sched(c.s): return RESCHED
    _, q, w, n, alive = c.s.mem[k]
    v = c.a[1]
    if not alive: return ('a', 1, (('a', 0, (('a', 0, (('a', 1, ()),)), v)),))
    c.s.mem[k] = ('chan', q + (v,), 0, n, alive)
    c.s.note('send on a channel [%s]' % c.I.where(c.s))
    wake(c.I, c.s, w)
    return ('a', 0, (UNIT,))


def h_poll_next(c):
    k = cell(c, c.a[0][2][0] if c.a[0][0] == 'a' else c.a[0], 'rcv')
    if c.I.sched(c.s): return RESCHED
    _, q, w, n, alive = c.s.mem[k]
    if q:
        c.s.mem[k] = ('chan', q[1:], w, n, alive)
        return ready(some(q[0]))
    if n == 0 or not alive: return ready(NONE)
    cx = c.s.load(c.a[1])
    if cx[0] != 'ctx': raise Undecided('context %r' % (cx,))
    c.s.mem[k] = ('chan', q, c.s.load(cx[1]), n, alive)
    return PENDING


def h_snd_clone(c):
    k = cell(c, c.a[0], 'snd')
    _, q, w, n, alive = c.s.mem[k]
    c.s.mem[k] = ('chan', q, w, n + 1, alive)
    return ('snd', k)


def h_is_closed(c):
    k = cell(c, c.a[0], 'snd')
    if c.I.sched(c.s): return RESCHED
    return int(not c.s.mem[k][4])


def h_len(c):
    return len(c.s.mem[cell(c, c.a[0], 'snd')][1])


def free(s, k):
    x = s.mem[k]
    if x[3] == 0 and not x[4]: s.mem.pop(k)


def drop_snd(I, s, td, ty, key, path):
    v = s.read(key, path)
    if v[0] != 'snd': raise Undecided('drop of sender %r' % (v,))
    if I.sched(s): return RESCHED
    _, q, w, n, alive = s.mem[v[1]]
    s.mem[v[1]] = ('chan', q, w if n > 1 else 0, n - 1, alive)
    if n == 1 and alive: wake(I, s, w)
    free(s, v[1])


def drop_rcv(I, s, td, ty, key, path):
    v = s.read(key, path)
    if v[0] != 'rcv': raise Undecided('drop of receiver %r' % (v,))
    if I.sched(s): return RESCHED
    k = v[1]
    _, q, w, n, alive = s.mem[k]
    s.mem[k] = ('chan', (), 0, n, False)
    free(s, k)
    et = td['args'][0]
    if not q or not I.p.types[et].get('needs_drop'): return None
    cells = [s.heap(x) for x in q]

    def nxt(i):
        def done(I, s, _):
            s.mem.pop(cells[i], None)
            if i + 1 < len(cells): I.push2(s, conc.drop_push(I, s, et, ('r', cells[i + 1], ()), nxt(i + 1)))
            return None
        return done
    return conc.drop_push(I, s, et, ('r', cells[0], ()), nxt(0))


M = 'futures_channel::mpsc::'
H = {M + 'unbounded': h_unbounded, M + 'UnboundedSender::<T>::unbounded_send': h_send, M + 'UnboundedSender::<T>::is_closed': h_is_closed, M + 'UnboundedSender::<T>::len': h_len,
     M + 'UnboundedSender::<T>::is_empty': lambda c: int(h_len(c) == 0),
     '<' + M + 'UnboundedSender<T> as std::clone::Clone>::clone': h_snd_clone,
     'drop:' + M + 'UnboundedSender': drop_snd, 'drop:' + M + 'UnboundedReceiver': drop_rcv}
for t in ('futures_core::Stream', 'futures_util::Stream', 'futures_core::stream::Stream'): H['<' + M + 'UnboundedReceiver<T> as %s>::poll_next' % t] = h_poll_next
