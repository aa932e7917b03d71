// Demonstration of the SignalMap defect found in the original tree (copy into /repo/tests of a scratch copy to run).
use futures_signals::signal::Signal;
use futures_signals::signal_map::{MapDiff, SignalMap, SignalMapExt};
use std::pin::Pin;
use std::task::{Context, Poll, Wake, Waker};

struct W;
impl Wake for W { fn wake(self: std::sync::Arc<Self>) {} }
/// an input which returns the given diffs, then ends, and must not be polled after that
struct Src(Vec<MapDiff<u8, u8>>, bool);
impl SignalMap for Src { type Key = u8; type Value = u8;
    fn poll_map_change(mut self: Pin<&mut Self>, _: &mut Context) -> Poll<Option<MapDiff<u8, u8>>> {
        assert!(!self.1, "polled after the end");
        if self.0.is_empty() { self.1 = true; Poll::Ready(None) } else { Poll::Ready(Some(self.0.remove(0))) }
    } }

#[test] fn key_cloned_end() {      // C09
    let mut s = Src(vec![MapDiff::Insert { key: 1, value: 7 }], false).key_cloned(1);
    let w = Waker::from(std::sync::Arc::new(W));
    let cx = &mut Context::from_waker(&w);
    assert_eq!(Pin::new(&mut s).poll_change(cx), Poll::Ready(Some(Some(7))));
    assert_eq!(Pin::new(&mut s).poll_change(cx), Poll::Ready(None));
}
