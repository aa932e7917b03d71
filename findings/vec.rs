// Demonstrations of the SignalVec defects found in the original tree (copy into /repo/tests of a scratch copy to run).
use futures_signals::signal::{self, Mutable, Signal, SignalExt};
use futures_signals::signal_vec::{self, MutableVec, SignalVec, SignalVecExt, VecDiff};
use std::pin::Pin;
use std::sync::Arc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::task::{Context, Poll, Wake, Waker};

struct W(AtomicUsize);
impl Wake for W { fn wake(self: Arc<Self>) { self.0.fetch_add(1, Ordering::SeqCst); } }

/// what an executor does; returns whether the SignalVec ended
fn settle<S: SignalVec + Unpin>(s: &mut S, list: &mut Vec<S::Item>, wk: &Arc<W>) -> bool {
    let w = Waker::from(wk.clone());
    loop {
        let before = wk.0.load(Ordering::SeqCst);
        match Pin::new(&mut *s).poll_vec_change(&mut Context::from_waker(&w)) {
            Poll::Ready(Some(d)) => d.apply_to_vec(list),
            Poll::Ready(None) => return true,
            Poll::Pending => if wk.0.load(Ordering::SeqCst) == before { return false },
        }
    }
}
/// an input which returns the given polls and then Pending
struct Src<A>(Vec<Poll<Option<VecDiff<A>>>>);
impl<A> Unpin for Src<A> {}
impl<A> SignalVec for Src<A> { type Item = A;
    fn poll_vec_change(mut self: Pin<&mut Self>, _: &mut Context) -> Poll<Option<VecDiff<A>>> { if self.0.is_empty() { Poll::Pending } else { self.0.remove(0) } } }

#[test] fn filter_move() {      // C24
    let v = MutableVec::new_with_values(vec![1, 2, 3]);
    let mut s = v.signal_vec().filter(|x| *x != 2);
    let (mut l, w) = (vec![], Arc::new(W(AtomicUsize::new(0))));
    settle(&mut s, &mut l, &w);
    v.lock_mut().move_from_to(2, 0);
    settle(&mut s, &mut l, &w);
    assert_eq!(l, vec![3, 1]);
}
#[test] fn filter_signal_move() {      // C24
    let v = MutableVec::new_with_values(vec![1, 2, 3]);
    let mut s = Box::pin(v.signal_vec().filter_signal_cloned(|x| signal::always(*x != 2)));
    let (mut l, w) = (vec![], Arc::new(W(AtomicUsize::new(0))));
    settle(&mut s, &mut l, &w);
    v.lock_mut().move_from_to(2, 0);
    settle(&mut s, &mut l, &w);
    assert_eq!(l, vec![3, 1]);
}
#[test] fn chain_no_output() {      // C25, C08
    let left = MutableVec::new_with_values(vec![1]);
    // the first change of the right input has no output
    let right = Src(vec![Poll::Pending, Poll::Ready(Some(VecDiff::Replace { values: vec![] })), Poll::Ready(Some(VecDiff::Push { value: 2 }))]);
    let mut s = left.signal_vec().chain(right);
    let (mut l, w) = (vec![], Arc::new(W(AtomicUsize::new(0))));
    settle(&mut s, &mut l, &w);
    assert_eq!(l, vec![1, 2]);
}
#[test] fn is_empty_end() {      // C10
    let v = Src(vec![Poll::Ready(Some(VecDiff::Replace { values: vec![1] })), Poll::Pending, Poll::Ready(Some(VecDiff::Push { value: 2 })), Poll::Ready(None)]);
    let mut s = v.is_empty();
    let wk = Arc::new(W(AtomicUsize::new(0))); let w = Waker::from(wk);
    let cx = &mut Context::from_waker(&w);
    assert_eq!(Pin::new(&mut s).poll_change(cx), Poll::Ready(Some(false)));
    // the input has ended now and will never wake anybody
    assert_eq!(Pin::new(&mut s).poll_change(cx), Poll::Ready(None));
}
#[test] fn switch_end() {      // C31
    let m = Mutable::new(true);
    let v = MutableVec::new_with_values(vec![1, 2]);
    let v2 = v.clone();
    let mut s = Box::pin(m.signal().switch_signal_vec(move |b| if b { Src(vec![Poll::Ready(Some(VecDiff::Replace { values: vec![1, 2] }))]) } else { Src(vec![Poll::Ready(None)]) }));
    let (mut l, w) = (vec![], Arc::new(W(AtomicUsize::new(0))));
    settle(&mut s, &mut l, &w);
    assert_eq!(l, vec![1, 2]);
    m.set(false); drop(m); drop(v2); drop(v);
    assert!(settle(&mut s, &mut l, &w));
    assert_eq!(l, vec![]);
}
#[test] fn flatten_outer_changes() {      // C26
    let a = MutableVec::new_with_values(vec![1, 2]);
    let b = MutableVec::new_with_values(vec![3]);
    let o = MutableVec::new_with_values(vec![a.clone(), b.clone()]);
    let mut s = o.signal_vec_cloned().map(|x| x.signal_vec()).flatten();
    let (mut l, w) = (vec![], Arc::new(W(AtomicUsize::new(0))));
    settle(&mut s, &mut l, &w);
    assert_eq!(l, vec![1, 2, 3]);
    o.lock_mut().move_from_to(0, 1);
    settle(&mut s, &mut l, &w);
    assert_eq!(l, vec![3, 1, 2]);
    o.lock_mut().remove(1);
    settle(&mut s, &mut l, &w);
    assert_eq!(l, vec![3]);
    o.lock_mut().set_cloned(0, a.clone());
    settle(&mut s, &mut l, &w);
    assert_eq!(l, vec![1, 2]);
    o.lock_mut().pop();
    settle(&mut s, &mut l, &w);
    assert_eq!(l, vec![]);
}
#[allow(dead_code)] fn unused() { let _ = signal_vec::always::<u32>; let _ = |s: Src<u32>| s.is_empty().map(|x| x); }
