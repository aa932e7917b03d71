"""Models of the standard-library leaves that the analysed code reaches."""
from engine import *
from env import *


def h_box_new(c): return ('box', c.a[0])
def h_box_pin(c): return ('a', 0, (('box', c.a[0]),))


def h_load(c): return c.s.load(c.a[0])


def h_store(c):
    c.s.store(c.a[0], c.a[1])
    return UNIT


def h_replace(c):
    o = c.s.load(c.a[0]); c.s.store(c.a[0], c.a[1])
    return o


def h_swap(c):
    a, b = c.s.load(c.a[0]), c.s.load(c.a[1])
    c.s.store(c.a[0], b); c.s.store(c.a[1], a)
    return UNIT


def h_cell_get(c): return ('r', c.a[0][1], c.a[0][2] + (0,))


def h_panic(c): raise PanicPath(c.fn.def_)


STD = {
    'std::boxed::Box::<T>::new': h_box_new, 'std::boxed::Box::<T>::pin': h_box_pin,
    '<std::boxed::Box<T, A> as std::ops::Drop>::drop': h_noop,
    'std::cell::UnsafeCell::<T>::get': h_cell_get,
    'std::mem::replace': h_replace, 'std::mem::swap': h_swap,
    'std::ptr::read': h_load, 'std::ptr::write': h_store,
    'intrinsic:read_via_copy': h_load, 'intrinsic:write_via_move': h_store, 'intrinsic:typed_swap_nonoverlapping': h_swap,
    'intrinsic:caller_location': lambda c: ('cref', ('t', 'location')),
    'log::max_level': lambda c: ('a', c.s.choose(6), ()), 'log::__private_api::log': h_noop, 'log::__private_api::loc': lambda c: ('cref', ('t', 'location')),
    'intrinsic:assume': h_noop, 'intrinsic:assert_inhabited': h_noop, 'intrinsic:ub_checks': lambda c: 0, 'intrinsic:needs_drop': lambda c: int(bool(c.I.p.types[c.targ()].get('needs_drop'))),
    'intrinsic:size_of_val': lambda c: 8, 'intrinsic:size_of': lambda c: 8, 'intrinsic:align_of': lambda c: 8, 'intrinsic:align_of_val': lambda c: 8,
    'std::rt::panic_fmt': h_panic, 'core::panicking*': h_panic, 'std::rt::begin_panic': h_panic, 'std::option::unwrap_failed': h_panic, 'std::option::expect_failed': h_panic, 'std::result::unwrap_failed': h_panic,
}
PRECOND = 'precondition_check'
