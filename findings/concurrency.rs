// Demonstrations of the concurrency defects found in the original tree (copy into /repo/tests of a scratch copy to run).
use futures_signals::signal::{self, Mutable, Signal, SignalExt, Broadcaster};
use futures_signals::cancelable_future;
use std::pin::Pin;
use std::future::Future;
use std::sync::{Arc, Mutex, Barrier};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

struct Hook { wakes: AtomicUsize, on_clone: Mutex<Option<Box<dyn FnOnce() + Send>>> }
fn vt() -> &'static RawWakerVTable {
    unsafe fn clone(p: *const ()) -> RawWaker {
        let a = Arc::from_raw(p as *const Hook);
        let b = a.clone(); std::mem::forget(a);
        let h = b.on_clone.lock().unwrap().take();
        if let Some(h) = h { h() }
        RawWaker::new(Arc::into_raw(b) as *const (), vt())
    }
    unsafe fn wake(p: *const ()) { let a = Arc::from_raw(p as *const Hook); a.wakes.fetch_add(1, Ordering::SeqCst); }
    unsafe fn wake_ref(p: *const ()) { (*(p as *const Hook)).wakes.fetch_add(1, Ordering::SeqCst); }
    unsafe fn drop_(p: *const ()) { drop(Arc::from_raw(p as *const Hook)) }
    static VT: RawWakerVTable = RawWakerVTable::new(clone, wake, wake_ref, drop_);
    &VT
}
fn hooked(f: impl FnOnce() + Send + 'static) -> (Arc<Hook>, Waker) {
    let h = Arc::new(Hook { wakes: AtomicUsize::new(0), on_clone: Mutex::new(Some(Box::new(f))) });
    let w = unsafe { Waker::from_raw(RawWaker::new(Arc::into_raw(h.clone()) as *const (), vt())) };
    (h, w)
}
fn poll<S: Signal + Unpin>(s: &mut S, w: &Waker) -> Poll<Option<S::Item>> { Pin::new(s).poll_change(&mut Context::from_waker(w)) }
/// what an executor does: Ready, or Pending and woken, is polled again
fn settle<S: Signal + Unpin>(s: &mut S, h: &Hook, w: &Waker) -> (Option<S::Item>, bool) {
    let mut last = None;
    loop {
        let before = h.wakes.load(Ordering::SeqCst);
        match poll(s, w) {
            Poll::Ready(Some(v)) => last = Some(v),
            Poll::Ready(None) => return (last, true),
            Poll::Pending => if h.wakes.load(Ordering::SeqCst) == before { return (last, false) },
        }
    }
}

#[test] fn channel_lost_wakeup() {
    let (tx, mut rx) = signal::channel(0);
    let (h, w) = hooked(move || { tx.send(1).unwrap(); std::mem::forget(tx) });
    let w0 = futures_util::task::noop_waker();
    assert_eq!(poll(&mut rx, &w0), Poll::Ready(Some(0)));
    assert_eq!(settle(&mut rx, &h, &w).0, Some(1));
}
#[test] fn mutable_lost_wakeup() {
    let m = Mutable::new(0);
    let mut s = m.signal();
    let w0 = futures_util::task::noop_waker();
    assert_eq!(poll(&mut s, &w0), Poll::Ready(Some(0)));
    let m2 = m.clone();
    let (h, w) = hooked(move || m2.set(1));
    assert_eq!(settle(&mut s, &h, &w).0, Some(1));
}
#[test] fn broadcaster_lost_wakeup() {
    let m = Mutable::new(0);
    let b = Broadcaster::new(m.signal());
    let mut s = b.signal();
    let w0 = futures_util::task::noop_waker();
    assert_eq!(poll(&mut s, &w0), Poll::Ready(Some(0)));
    let m2 = m.clone();
    let (h, w) = hooked(move || m2.set(1));
    assert_eq!(settle(&mut s, &h, &w).0, Some(1));
}
#[test] fn cancel_lost() {
    struct Never; impl Future for Never { type Output = u32; fn poll(self: Pin<&mut Self>, _: &mut Context) -> Poll<u32> { Poll::Pending } }
    let (handle, f) = cancelable_future(Never, || 5);
    let mut f = Box::pin(f);
    let (h, w) = hooked(move || drop(handle));
    let mut out = None;
    loop {
        let before = h.wakes.load(Ordering::SeqCst);
        match f.as_mut().poll(&mut Context::from_waker(&w)) {
            Poll::Ready(v) => { out = Some(v); break }
            Poll::Pending => if h.wakes.load(Ordering::SeqCst) == before { break },
        }
    }
    assert_eq!(out, Some(5));
}
fn within(f: impl FnOnce() + Send + 'static) {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || { f(); tx.send(()).unwrap() });
    rx.recv_timeout(std::time::Duration::from_secs(20)).expect("dead lock");
}
#[test] fn swap_self() { within(|| { let a = Mutable::new(1); let b = a.clone(); a.swap(&b); assert_eq!(a.get(), 1) }) }
#[test] fn swap_swap() {
    within(|| {
        let (a, b) = (Mutable::new(1), Mutable::new(2));
        let (a2, b2) = (a.clone(), b.clone());
        let t = std::thread::spawn(move || for _ in 0..200000 { b2.swap(&a2) });
        for _ in 0..200000 { a.swap(&b) }
        t.join().unwrap();
    })
}
#[test] fn sender_underflow() {
    for _ in 0..200000 {
        let (tx, rx) = signal::channel(0);
        let tx2 = tx.clone();
        let bar = Arc::new(Barrier::new(2)); let b2 = bar.clone();
        let t = std::thread::spawn(move || { b2.wait(); drop(tx) });
        bar.wait();
        tx2.close();
        t.join().unwrap();
        assert!(tx2.send(1).is_err(), "closed channel accepts values");
        drop(rx);
    }
}
#[test] fn broadcaster_stale() {
    for _ in 0..100000 {
        let m = Mutable::new(0);
        let b = Broadcaster::new(m.signal());
        let mut s1 = b.signal(); let mut s2 = b.signal();
        let w0 = futures_util::task::noop_waker();
        let bar = Arc::new(Barrier::new(2)); let b2 = bar.clone();
        let t = std::thread::spawn(move || { let w0 = futures_util::task::noop_waker(); b2.wait(); poll(&mut s1, &w0) });
        bar.wait();
        let r = poll(&mut s2, &w0);
        assert_eq!(t.join().unwrap(), Poll::Ready(Some(0)));
        assert_eq!(r, Poll::Ready(Some(0)), "first poll of a subscriber yields nothing");
    }
}
