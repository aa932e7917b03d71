//! Containers under every history of operations: the harness keeps its own copy of the contents and replays
//! what the subscribers receive.
use crate::env::*;
use futures_signals::signal_vec::{MutableVec, MutableSignalVec, SignalVec, VecDiff};
use std::ops::Bound;
use std::pin::Pin;
use std::task::Poll;

/// The documented effect of a diff. `p` is the property charged with an invalid diff.
pub fn apply<T>(p: u64, l: &mut Vec<T>, d: VecDiff<T>) {
    match d {
        VecDiff::Replace { values } => *l = values,
        VecDiff::InsertAt { index, value } => { must(p, 90, index <= l.len()); l.insert(index, value) }
        VecDiff::UpdateAt { index, value } => { must(p, 91, index < l.len()); l[index] = value }
        VecDiff::RemoveAt { index } => { must(p, 92, index < l.len()); l.remove(index); }
        VecDiff::Move { old_index, new_index } => { must(p, 93, old_index < l.len() && new_index < l.len()); let v = l.remove(old_index); l.insert(new_index, v) }
        VecDiff::Push { value } => l.push(value),
        VecDiff::Pop {} => { must(p, 94, l.len() > 0); l.pop(); }
        VecDiff::Clear {} => l.clear(),
    }
}

/// A subscriber that replays the diffs, polled the way an executor does.
pub struct HV<S: SignalVec> { pub s: S, pub n: u64, pub list: Vec<S::Item>, pub pending: bool, pub ended: bool, pub lag: usize }
impl<S: SignalVec + Unpin> HV<S> {
    pub fn new(s: S, n: u64) -> Self { HV { s, n, list: Vec::new(), pending: false, ended: false, lag: 0 } }
    pub fn poll1(&mut self, p: u64) -> bool {
        unwake(self.n);
        match Pin::new(&mut self.s).poll_vec_change(cxn(self.n)) {
            Poll::Pending => { self.pending = true; false }
            Poll::Ready(None) => { self.ended = true; false }
            Poll::Ready(Some(d)) => { apply(p, &mut self.list, d); true }
        }
    }
    pub fn settle(&mut self, p: u64) {
        self.lag = 0;
        if self.ended || (self.pending && !woken(self.n)) { return }
        while self.poll1(p) {}
    }
}

fn start<T>(l: Vec<T>) -> MutableVec<T> {
    if l.is_empty() { return MutableVec::new() }
    if pick(2) == 0 { MutableVec::from(l) } else { MutableVec::new_with_values(l) }
}

macro_rules! hist_vec { ($name:ident, $T:ty, $push:ident, $insert:ident, $set:ident, $replace:ident, $signal:ident, $ops:expr) => {
    pub fn $name() {
        let init: Vec<$T> = input(100);
        let mut ghost: Vec<$T> = init.clone();
        let m: MutableVec<$T> = start(init);
        let mut a = HV::new(m.$signal(), 1);
        let mut b: Option<HV<MutableSignalVec<$T>>> = None;
        // dropped subscribers since the last change that everybody is told of
        let mut stale = 0;
        loop {
            also(if stale > 0 { 46 } else { 0 });
            checkpoint();
            let n = ghost.len();
            match pick($ops) {
                0 => { let v: $T = input(0); m.lock_mut().$push(v.clone()); ghost.push(v); stale = 0; must(46, 1, chans() == 1 + b.is_some() as u64) }
                1 => { let v: $T = input(0); let i = pick(n + 1); m.lock_mut().$insert(i, v.clone()); ghost.insert(i, v) }
                2 => { assume(n > 0); let v: $T = input(0); let i = pick(n); m.lock_mut().$set(i, v.clone()); ghost[i] = v }
                3 => { let l: Vec<$T> = input(0); m.lock_mut().$replace(l.clone()); ghost = l }
                4 => { let x = m.lock_mut().pop(); let y = ghost.pop(); must_eq(20, 3, &x, &y) }
                5 => { assume(n > 0); let i = pick(n); let x = m.lock_mut().remove(i); let y = ghost.remove(i); must_eq(20, 4, &x, &y) }
                6 => { assume(n > 0); let i = pick(n); let j = pick(n); m.lock_mut().move_from_to(i, j); let x = ghost.remove(i); ghost.insert(j, x) }
                7 => { assume(n > 0); let i = pick(n); let j = pick(n); m.lock_mut().swap(i, j); ghost.swap(i, j) }
                8 => { m.lock_mut().clear(); ghost.clear() }
                9 => {
                    let mut keep: Vec<bool> = Vec::new();
                    m.lock_mut().retain(|_| { let k = pick(2) == 1; keep.push(k); k });
                    must(20, 5, keep.len() == n);
                    let mut i = n;
                    while i > 0 { i -= 1; if !keep[i] { ghost.remove(i); } }
                }
                10 => {
                    let i = pick(n + 1); let j = i + pick(n - i + 1);
                    let mut x: Vec<$T> = Vec::new();
                    {
                        let mut l = m.lock_mut();
                        let mut d = match pick(5) {
                            0 => l.drain(i..j),
                            1 => { assume(i == 0); l.drain(..j) }
                            2 => { assume(j == n); l.drain(i..) }
                            3 => { assume(j > i); l.drain(i..=(j - 1)) }
                            _ => { assume(i > 0); l.drain((Bound::Excluded(i - 1), Bound::Excluded(j))) }
                        };
                        if pick(2) == 0 { while let Some(v) = d.next() { x.push(v) } must(20, 6, x.len() == j - i) }
                    }
                    let mut k = j;
                    while k > i { k -= 1; let v = ghost.remove(k); if x.len() > 0 { must_eq(20, 7, &x[k - i], &v) } }
                }
                11 => { let k = pick(n + 2); m.lock_mut().truncate(k); while ghost.len() > k { ghost.pop(); } }
                12 => { m.lock_mut().reverse(); let mut i = 0; while i + 1 < n - i { ghost.swap(i, n - 1 - i); i += 1 } }
                13 => {
                    // subscribing: the new subscriber starts from the current contents
                    assume(b.is_none());
                    let mut s = HV::new(m.$signal(), 2);
                    if pick(2) == 0 {
                        must(21, 5, s.poll1(21) != (n == 0));
                        must_eql(21, 6, &s.list[..], &ghost[..]);
                        s.settle(21);
                        must_eql(21, 1, &s.list[..], &ghost[..]);
                    }
                    b = Some(s);
                }
                14 => { assume(b.is_some() && stale < 1); stale += 1; b = None; }
                15 => { assume(stale < 1); stale += 1; a = HV::new(m.$signal(), 1); }
                16 => { drop(m); a.settle(20); must(21, 3, a.ended); if let Some(s) = &mut b { s.settle(20); must(21, 4, s.ended); must_eql(20, 8, &s.list[..], &ghost[..]) } return }
                x => hist_extra(x, &m, &mut ghost),
            }
            assume(ghost.len() <= nmax());
            must_eql(20, 1, &m.lock_ref()[..], &ghost[..]);
            a.settle(20);
            must_eql(20, 2, &a.list[..], &ghost[..]);
            if let Some(s) = &mut b {
                s.lag += 1;
                if s.lag > 1 || pick(2) == 0 { s.settle(20); must_eql(20, 2, &s.list[..], &ghost[..]) }
            }
        }
    }
} }
trait Extra<T> { fn extra(x: usize, m: &MutableVec<T>, ghost: &mut Vec<T>); }
impl Extra<C> for C { fn extra(_: usize, _: &MutableVec<C>, _: &mut Vec<C>) {} }
impl Extra<V> for V { fn extra(x: usize, m: &MutableVec<V>, ghost: &mut Vec<V>) {
    match x {
        17 => { let l: Vec<V> = input(0); m.lock_mut().extend(l.clone()); let mut i = 0; while i < l.len() { ghost.push(l[i].clone()); i += 1 } }
        _ => {
            // C33: applying a diff to a mutable vector
            let n = ghost.len();
            let d = match pick(8) {
                0 => VecDiff::Replace { values: input(0) },
                1 => VecDiff::InsertAt { index: pick(n + 1), value: input(0) },
                2 => { assume(n > 0); VecDiff::UpdateAt { index: pick(n), value: input(0) } }
                3 => { assume(n > 0); VecDiff::RemoveAt { index: pick(n) } }
                4 => { assume(n > 0); VecDiff::Move { old_index: pick(n), new_index: pick(n) } }
                5 => VecDiff::Push { value: input(0) },
                6 => { assume(n > 0); VecDiff::Pop {} }
                _ => VecDiff::Clear {},
            };
            apply(33, ghost, copy(&d));
            futures_signals::signal_vec::MutableVecLockMut::apply_vec_diff(&mut m.lock_mut(), d);
            assume(ghost.len() <= nmax());
            must_eql(33, 2, &m.lock_ref()[..], &ghost[..]);
        }
    }
} }
fn hist_extra<T: Extra<T>>(x: usize, m: &MutableVec<T>, ghost: &mut Vec<T>) { T::extra(x, m, ghost) }
pub fn copy(d: &VecDiff<V>) -> VecDiff<V> {
    match d {
        VecDiff::Replace { values } => VecDiff::Replace { values: values.clone() },
        VecDiff::InsertAt { index, value } => VecDiff::InsertAt { index: *index, value: value.clone() },
        VecDiff::UpdateAt { index, value } => VecDiff::UpdateAt { index: *index, value: value.clone() },
        VecDiff::RemoveAt { index } => VecDiff::RemoveAt { index: *index },
        VecDiff::Move { old_index, new_index } => VecDiff::Move { old_index: *old_index, new_index: *new_index },
        VecDiff::Push { value } => VecDiff::Push { value: value.clone() },
        VecDiff::Pop {} => VecDiff::Pop {},
        VecDiff::Clear {} => VecDiff::Clear {},
    }
}
hist_vec!(case_hist_vec_copy, C, push, insert, set, replace, signal_vec, 17);
hist_vec!(case_hist_vec_clone, V, push_cloned, insert_cloned, set_cloned, replace_cloned, signal_vec_cloned, 19);
