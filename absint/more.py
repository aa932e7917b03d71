"""Further models of standard-library functions that changed code may use; part of every analysis."""
from engine import *
from env import *
import seq, iters, rel, btree
from seq import elems, mk


def ity(c): return c.I.p.types.get(c.t[8][0] if c.t is not None and c.t[8] else None) or {}


def num(f):
    """an integer function of concrete operands"""
    def h(c):
        t = ity(c)
        a = [deep(c.s, x) for x in c.a]
        if any(type(x) is not int for x in a) or t.get('k') != 'int': return DECLINE if c.fn.blocks else und(c, a)
        b = t['bits']
        lo, hi = (-(1 << b - 1), (1 << b - 1) - 1) if t['signed'] else (0, (1 << b) - 1)
        return f(a, lo, hi, b)
    return h


def und(c, a): raise Undecided('%s of %r' % (c.fn.def_, a))
def sat(r, lo, hi): return max(lo, min(hi, r))
def wrp(r, lo, hi, b):
    r %= 1 << b
    return r - (1 << b) if r > hi else r
def ovf(r, lo, hi, b): return ('a', 0, (wrp(r, lo, hi, b), int(not lo <= r <= hi)))


def h_zip_new(c): return ('a', 0, (c.a[0], c.a[1], 0, 0))


def h_zip(back):
    def h(c):
        I, s = c.I, c.s
        if c.t is None and c.on_ret is None: raise Undecided('indirect call of ' + c.fn.def_)
        A, B = [x for x in c.fn.args if type(x) is int][:2]
        rt = (A, B)
        r = c.a[0]
        ra, rb = ('r', r[1], r[2] + (0,)), ('r', r[1], r[2] + (1,))
        t = c.t
        if back:
            la, lb = [iters.known_len(s.load(x)) for x in (ra, rb)]
            if la is None or la != lb: raise Undecided('next_back of a zip')

        def done(I, s, v):
            fr = s.frames[-1]; I.assign(s, fr, t[4], v); fr.bb, fr.i = t[5], 0
        if t is None: done = c.on_ret; c.took = True

        def step(s):
            l = iters.L(s)
            if l[4] == 0:
                def got(I, s, v): iters.L(s)[2] = v; iters.L(s)[4] = 1
                iters.call_next(I, s, A, ra, got, back)
                return None
            if l[4] == 1:
                if l[2][1] == 0: l[0] = NONE; return I.do_return(s)
                def got(I, s, v): iters.L(s)[3] = v; iters.L(s)[4] = 2
                iters.call_next(I, s, B, rb, got, back)
                return None
            if l[4] == 2:
                if l[3][1] == 0:
                    l[4] = 3
                    it = I.p.iters.get(A, {}).get('item')
                    if it is not None and I.p.types[it].get('needs_drop') and I.drop_value(s, it, ('r', (l.d, 2), (0,))) is RESCHED: l[4] = 2
                    return None
                l[0] = some(('a', 0, (l[2][2][0], l[3][2][0])))
                return I.do_return(s)
            l[0] = NONE
            return I.do_return(s)
        I.push2(s, (('py', 'zip:%s:%s:%s' % (A, B, back), step), [r, UNINIT, UNINIT, 0], done))
        return NORET
    return h


def h_push_mut(c):
    l = seq.vec(c)
    c.s.store(c.a[0], mk(l + [c.a[1]]))
    return seq.elem_ref(c.a[0], len(l))


def plain(c, ty):
    if c.I.p.types[ty].get('needs_drop'): raise Undecided('%s of %s' % (c.fn.def_, c.I.p.types[ty]['name']))


def h_fill(c):
    plain(c, c.fn.args[0])
    c.s.store(c.a[0], mk([c.a[1]] * len(seq.vec(c))))
    return UNIT


def h_copy_from(c):
    plain(c, c.fn.args[0])
    o = seq.vec(c, 1)
    if len(o) != len(seq.vec(c)): raise PanicPath('copy_from_slice: lengths differ')
    c.s.store(c.a[0], mk(o))
    return UNIT


def h_resize(c):
    l = seq.vec(c); n = seq.idx(c.a[1])
    plain(c, c.fn.args[0])
    c.s.store(c.a[0], mk(l[:n] + [c.a[2]] * (n - len(l))))
    return UNIT


def h_split_end(first):
    def h(c):
        l = seq.vec(c); n = len(l)
        if not n: return NONE
        if first: return some(('a', 0, (seq.elem_ref(c.a[0], 0), seq.subref(c.a[0], 1, n))))
        return some(('a', 0, (seq.elem_ref(c.a[0], n - 1), seq.subref(c.a[0], 0, n - 1))))
    return h


def h_split_at_opt(c):
    l = seq.vec(c); k = seq.idx(c.a[1])
    if k > len(l): return NONE
    return some(('a', 0, (seq.subref(c.a[0], 0, k), seq.subref(c.a[0], k, len(l)))))


def h_starts(end):
    def h(c):
        a, b = [list(x[2]) if type(x) is tuple else x for x in rel.two(c)]
        if len(b) > len(a): return 0
        return int(rel.eq(c, a[len(a) - len(b):] if end else a[:len(b)], b))
    return h


def h_seq_id(c): return mk(elems(c.a[0]))
def h_vec_elem(c):
    plain(c, c.fn.args[0])
    return mk([c.a[0]] * seq.idx(c.a[1]))


def h_repeat(c):
    plain(c, c.fn.args[0])
    return mk(seq.vec(c) * seq.idx(c.a[1]))


def h_first_chunk(c): raise Undecided(c.fn.def_)


def h_array_into(c):
    v = c.a[0]
    if type(v) is tuple and v[0] == 'r': return seq.h_iter(c)
    return ('into', mk(elems(v)))


def h_deque_swap_remove(front):
    def h(c):
        l = seq.vec(c); i = seq.idx(c.a[1])
        if i >= len(l): return NONE
        j = 0 if front else len(l) - 1
        l[i], l[j] = l[j], l[i]
        x = l.pop(j)
        c.s.store(c.a[0], mk(l))
        return some(x)
    return h


def h_pop_if(c):
    """Vec::pop_if"""
    I, s = c.I, c.s
    l = seq.vec(c)
    if not l: return NONE
    fty = c.t[8][-1]; t = c.t

    def got(I, s, v):
        fr = s.frames[-1]
        out = NONE
        if iters.fb(I, s, v):
            l = elems(s.load(c.a[0])); s.store(c.a[0], mk(l[:-1])); out = some(l[-1])
        I.assign(s, fr, t[4], out); fr.bb, fr.i = t[5], 0
    tmp = s.heap(c.a[1])
    I.call_callable(s, fty, ('r', tmp, ()), [seq.elem_ref(c.a[0], len(l) - 1)], got)
    return NORET


def h_discriminant(c):
    v = deep(c.s, c.a[0])
    if type(v) is tuple and v[0] == 'a': return v[1]
    raise Undecided('discriminant of %r' % (v,))


SL = 'std::slice::<impl [T]>::'
VE = 'std::vec::Vec::<T, A>::'
DE = 'std::collections::VecDeque::<T, A>::'
def h_offset_from(c):
    a, b = c.a
    if type(a) is tuple and type(b) is tuple and a[0] == b[0] == 'r' and a[1] == b[1] and a[2] and b[2] and a[2][:-1] == b[2][:-1] and type(a[2][-1]) is type(b[2][-1]) is int: return a[2][-1] - b[2][-1]
    und(c, (a, b))


def h_from_iter(c):
    """Vec::from_iter and friends, whichever specialisation was chosen"""
    return iters.COLLECT(c)


def h_ent_insert(c):
    v = btree.ent(c)
    btree.put(c, v[1], v[2], c.a[1])
    return v


def h_dedup(c):
    l = seq.vec(c)
    plain(c, [x for x in c.fn.args if type(x) is int][0])
    out = []
    for x in l:
        if not out or not rel.eq(c, rel.flat(c.s, out[-1]), rel.flat(c.s, x)): out.append(x)
    c.s.store(c.a[0], mk(out))
    return UNIT


def h_rotate(left):
    def h(c):
        l = seq.vec(c); n = seq.idx(c.a[1])
        if n > len(l): raise PanicPath('rotate out of bounds')
        if not left: n = len(l) - n
        c.s.store(c.a[0], mk(l[n:] + l[:n]))
        return UNIT
    return h


H = {
    'std::collections::btree_map::VacantEntry::<\'a, K, V, A>::insert_entry': h_ent_insert,
    DE + 'retain': seq.h_retain, DE + 'retain_mut': seq.h_retain, VE + 'dedup': h_dedup, DE + 'rotate_left': h_rotate(True), DE + 'rotate_right': h_rotate(False), SL + 'rotate_left': h_rotate(True), SL + 'rotate_right': h_rotate(False),
    '<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend_one_unchecked': seq.h_push,
    'std::intrinsics::ptr_offset_from_unsigned': h_offset_from, 'std::intrinsics::ptr_offset_from': h_offset_from,
    'std::vec::in_place_collect::from_iter_in_place': h_from_iter,
    'std::iter::Zip::<A, B>::new': h_zip_new, '<std::iter::Zip<A, B> as std::iter::Iterator>::next': h_zip(False), '<std::iter::Zip<A, B> as std::iter::DoubleEndedIterator>::next_back': h_zip(True),
    VE + 'push_mut': h_push_mut, VE + 'resize': h_resize, VE + 'into_boxed_slice': lambda c: ('box', mk(elems(c.a[0]))), VE + 'leak': lambda c: und(c, 0),
    SL + 'fill': h_fill, SL + 'copy_from_slice': h_copy_from, SL + 'clone_from_slice': h_copy_from, SL + 'split_first': h_split_end(True), SL + 'split_last': h_split_end(False),
    SL + 'split_first_mut': h_split_end(True), SL + 'split_last_mut': h_split_end(False), SL + 'split_at_checked': h_split_at_opt, SL + 'split_at_mut_checked': h_split_at_opt,
    SL + 'starts_with': h_starts(False), SL + 'ends_with': h_starts(True), SL + 'repeat': h_repeat, SL + 'as_ptr_range': h_first_chunk,
    'std::vec::from_elem': h_vec_elem,
    DE + 'swap_remove_front': h_deque_swap_remove(True), DE + 'swap_remove_back': h_deque_swap_remove(False),
    '<std::collections::VecDeque<T, A> as std::convert::From<std::vec::Vec<T, A>>>::from': h_seq_id,
    '<std::vec::Vec<T, A> as std::convert::From<std::collections::VecDeque<T, A>>>::from': h_seq_id,
    '<std::vec::Vec<T> as std::convert::From<[T; N]>>::from': h_seq_id, '<std::collections::VecDeque<T> as std::convert::From<[T; N]>>::from': h_seq_id,
    'std::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter': h_array_into,
    "std::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter": seq.h_iter, "std::array::<impl std::iter::IntoIterator for &'a mut [T; N]>::into_iter": seq.h_iter,
    '<std::array::IntoIter<T, N> as std::iter::Iterator>::next': seq.h_into_next, '<std::array::IntoIter<T, N> as std::iter::DoubleEndedIterator>::next_back': iters.h_into_back,
    '<std::array::IntoIter<T, N> as std::iter::ExactSizeIterator>::len': iters.h_it_len, 'drop:std::array::IntoIter': seq.drop_into,
    'std::vec::Vec::<T, A>::pop_if': h_pop_if,
    'intrinsic:saturating_add': num(lambda a, lo, hi, b: sat(a[0] + a[1], lo, hi)), 'intrinsic:saturating_sub': num(lambda a, lo, hi, b: sat(a[0] - a[1], lo, hi)),
    'intrinsic:wrapping_add': num(lambda a, lo, hi, b: wrp(a[0] + a[1], lo, hi, b)), 'intrinsic:wrapping_sub': num(lambda a, lo, hi, b: wrp(a[0] - a[1], lo, hi, b)), 'intrinsic:wrapping_mul': num(lambda a, lo, hi, b: wrp(a[0] * a[1], lo, hi, b)),
    'intrinsic:add_with_overflow': num(lambda a, lo, hi, b: ovf(a[0] + a[1], lo, hi, b)), 'intrinsic:sub_with_overflow': num(lambda a, lo, hi, b: ovf(a[0] - a[1], lo, hi, b)), 'intrinsic:mul_with_overflow': num(lambda a, lo, hi, b: ovf(a[0] * a[1], lo, hi, b)),
    'intrinsic:unchecked_add': num(lambda a, lo, hi, b: a[0] + a[1]), 'intrinsic:unchecked_sub': num(lambda a, lo, hi, b: a[0] - a[1]), 'intrinsic:unchecked_mul': num(lambda a, lo, hi, b: a[0] * a[1]),
    'intrinsic:exact_div': num(lambda a, lo, hi, b: a[0] // a[1]), 'intrinsic:unchecked_div': num(lambda a, lo, hi, b: a[0] // a[1]), 'intrinsic:unchecked_rem': num(lambda a, lo, hi, b: a[0] % a[1]),
    'intrinsic:ctpop': num(lambda a, lo, hi, b: bin(a[0] % (1 << b)).count('1')), 'intrinsic:cttz': num(lambda a, lo, hi, b: b if not a[0] else (a[0] & -a[0]).bit_length() - 1),
    'intrinsic:ctlz': num(lambda a, lo, hi, b: b - (a[0] % (1 << b)).bit_length()), 'intrinsic:likely': lambda c: c.a[0], 'intrinsic:unlikely': lambda c: c.a[0], 'intrinsic:cold_path': h_noop,
    'intrinsic:black_box': lambda c: c.a[0], 'intrinsic:forget': h_noop, 'intrinsic:is_val_statically_known': lambda c: 0,
    'intrinsic:three_way_compare': num(lambda a, lo, hi, b: ('a', (a[0] > a[1]) - (a[0] < a[1]) + 1, ())),
    'intrinsic:raw_eq': rel.h_eq, 'std::vec::partial_eq::*': lambda c: rel.h_eq(c) if c.fn.def_.endswith('::eq') else rel.h_ne(c),
    'std::array::equality::*': lambda c: rel.h_eq(c) if c.fn.def_.endswith('::eq') else rel.h_ne(c),
    '<std::vec::Vec<T, A> as std::hash::Hash>::hash': rel.h_hash,
}
for k, v in seq.H.items(): H.setdefault(k, v)
for k, v in iters.H.items(): H.setdefault(k, v)
for k, v in rel.H.items():
    if 'harness' not in k: H.setdefault(k, v)
