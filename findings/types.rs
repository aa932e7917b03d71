// Witnesses of two type-level defects: each of these programs is accepted by
// the original tree (c255454) and rejected by the compiler after the fixes.
// The checks C40 and C41 decide the same facts (see types/).
use futures_signals::map_ref;
use futures_signals::signal::{channel, Signal};
use std::marker::PhantomPinned;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

struct Pinned(Vec<usize>, PhantomPinned);
impl Signal for Pinned {
    type Item = usize;
    fn poll_change(self: Pin<&mut Self>, _: &mut Context) -> Poll<Option<usize>> {
        // a real !Unpin signal relies on this address being the same for ever
        Poll::Ready(Some(&*self as *const Self as usize))
    }
}

// C41: the input is polled at two addresses, with no unsafe code
#[test]
fn map_ref_moves_pinned() {
    let input = Pinned(vec![], PhantomPinned);
    let mut a = Box::new(map_ref! { let x = input => *x });
    let cx = &mut Context::from_waker(std::task::Waker::noop());
    let first = a.poll_change_unpin_(cx);
    let mut b = *a; // moved
    assert_eq!(first, b.poll_change_unpin_(cx));
}
trait P { fn poll_change_unpin_(&mut self, cx: &mut Context) -> Poll<Option<usize>>; }
impl<S: Signal<Item = usize> + Unpin> P for S {
    fn poll_change_unpin_(&mut self, cx: &mut Context) -> Poll<Option<usize>> { Pin::new(self).poll_change(cx) }
}

// C40: an Rc crosses to another thread
#[test]
fn channel_sends_rc() {
    let rc = Rc::new(5);
    let (tx, rx) = channel(rc.clone());
    std::thread::spawn(move || { for _ in 0..1000 { let _ = tx.send(Rc::new(1)); } drop(rx); }).join().unwrap();
    drop(rc);
}
