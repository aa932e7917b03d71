use std::cmp::Ordering;
use std::future::Future;
use std::marker::PhantomData;
use std::pin::Pin;
use std::task::{Context, Poll};
use futures_core::Stream;
use futures_signals::signal::Signal;
use futures_signals::signal_vec::{SignalVec, VecDiff};
use futures_signals::signal_map::{SignalMap, MapDiff};

/// Uninterpreted: every body in this file is replaced by the abstract environment.
macro_rules! opaque { () => { loop {} } }

/// An opaque non-Copy value.
pub struct V(u64);
impl Clone for V { #[inline(never)] fn clone(&self) -> V { opaque!() } }
impl PartialEq for V { #[inline(never)] fn eq(&self, o: &V) -> bool { opaque!() } #[inline(never)] fn ne(&self, o: &V) -> bool { opaque!() } }
impl Eq for V {}
impl std::fmt::Debug for V { #[inline(never)] fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { opaque!() } }
impl PartialOrd for V { fn partial_cmp(&self, o: &V) -> Option<Ordering> { opaque!() } }
impl Ord for V { fn cmp(&self, o: &V) -> Ordering { opaque!() } }
impl<'a> std::iter::Sum<&'a V> for V { #[inline(never)] fn sum<I: Iterator<Item = &'a V>>(i: I) -> V { opaque!() } }
impl Default for V { fn default() -> V { opaque!() } }

/// An opaque Copy value.
#[derive(Copy)]
pub struct C(u64);
impl Clone for C { #[inline(never)] fn clone(&self) -> C { opaque!() } }
impl PartialEq for C { #[inline(never)] fn eq(&self, o: &C) -> bool { opaque!() } #[inline(never)] fn ne(&self, o: &C) -> bool { opaque!() } }
impl Eq for C {}
impl PartialOrd for C { fn partial_cmp(&self, o: &C) -> Option<Ordering> { opaque!() } }
impl Ord for C { fn cmp(&self, o: &C) -> Ordering { opaque!() } }

/// An opaque result value of callbacks.
pub struct W(u64);
impl Clone for W { #[inline(never)] fn clone(&self) -> W { opaque!() } }

/// Opaque inputs. `In<T>` is a Signal of T, `Fu<T>` a Future, `St<T>` a Stream, `Ve<T>` a SignalVec, `Ma<T>` a SignalMap.
pub struct In<T>(u64, PhantomData<T>, std::marker::PhantomPinned);
pub struct Fu<T>(u64, PhantomData<T>, std::marker::PhantomPinned);
pub struct St<T>(u64, PhantomData<T>, std::marker::PhantomPinned);
pub struct Ve<T>(u64, PhantomData<T>, std::marker::PhantomPinned);
pub struct Ma<T>(u64, PhantomData<T>, std::marker::PhantomPinned);

impl<T> Signal for In<T> { type Item = T; #[inline(never)] fn poll_change(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<T>> { opaque!() } }
impl<T> Future for Fu<T> { type Output = T; #[inline(never)] fn poll(self: Pin<&mut Self>, cx: &mut Context) -> Poll<T> { opaque!() } }
impl<T> Stream for St<T> { type Item = T; #[inline(never)] fn poll_next(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<T>> { opaque!() } }
impl<T> SignalVec for Ve<T> { type Item = T; #[inline(never)] fn poll_vec_change(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<VecDiff<T>>> { opaque!() } }
impl<T> SignalMap for Ma<T> { type Key = u8; type Value = T; #[inline(never)] fn poll_map_change(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<MapDiff<u8, T>>> { opaque!() } }
impl<T> Drop for In<T> { #[inline(never)] fn drop(&mut self) { opaque!() } }
impl<T> Drop for Fu<T> { #[inline(never)] fn drop(&mut self) { opaque!() } }
impl<T> Drop for St<T> { #[inline(never)] fn drop(&mut self) { opaque!() } }
impl<T> Drop for Ve<T> { #[inline(never)] fn drop(&mut self) { opaque!() } }
impl<T> Drop for Ma<T> { #[inline(never)] fn drop(&mut self) { opaque!() } }

/// The inputs are not Unpin; `Mv` is for the places which are documented to need Unpin inputs.
pub struct Mv<S>(pub S);
impl<S> Unpin for Mv<S> {}
impl<S: Signal> Signal for Mv<S> { type Item = S::Item; fn poll_change(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<S::Item>> { unsafe { Pin::new_unchecked(&mut self.get_unchecked_mut().0) }.poll_change(cx) } }
impl<S: SignalVec> SignalVec for Mv<S> { type Item = S::Item; fn poll_vec_change(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<VecDiff<S::Item>>> { unsafe { Pin::new_unchecked(&mut self.get_unchecked_mut().0) }.poll_vec_change(cx) } }
impl<S: SignalMap> SignalMap for Mv<S> { type Key = S::Key; type Value = S::Value; fn poll_map_change(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<MapDiff<S::Key, S::Value>>> { unsafe { Pin::new_unchecked(&mut self.get_unchecked_mut().0) }.poll_map_change(cx) } }

/// Sources of opaque things.
#[inline(never)] pub fn input<T>(name: u64) -> T { opaque!() }
#[inline(never)] pub fn cx<'a, 'b>() -> &'a mut Context<'b> { opaque!() }
/// Uninterpreted callback number `n`.
#[inline(never)] pub fn cb<A, B>(n: u64, a: A) -> B { opaque!() }
#[inline(never)] pub fn cbr<A: ?Sized, B>(n: u64, a: &A) -> B { opaque!() }
#[inline(never)] pub fn cbm<A, B>(n: u64, a: &mut A) -> B { opaque!() }
#[inline(never)] pub fn cb2<A, A2, B>(n: u64, a: &A, b: &A2) -> B { opaque!() }
#[inline(never)] pub fn cb0<B>(n: u64) -> B { opaque!() }
/// Boundary events of the driver.
#[inline(never)] pub fn begin_poll<S>(s: &mut S) { opaque!() }
#[inline(never)] pub fn end_poll<R>(r: R) -> bool { opaque!() }
#[inline(never)] pub fn mark<T>(n: u64, t: T) { opaque!() }
#[inline(never)] pub fn nondet() -> bool { opaque!() }

pub fn drive_signal<S: Signal>(s: S) {
    let mut s = s;
    loop {
        begin_poll(&mut s);
        let r = unsafe { Pin::new_unchecked(&mut s) }.poll_change(cx());
        if end_poll(r) { break }
    }
}
pub fn drive_future<S: Future>(s: S) {
    let mut s = s;
    loop {
        begin_poll(&mut s);
        let r = unsafe { Pin::new_unchecked(&mut s) }.poll(cx());
        if end_poll(r) { break }
    }
}
pub fn drive_stream<S: Stream>(s: S) {
    let mut s = s;
    loop {
        begin_poll(&mut s);
        let r = unsafe { Pin::new_unchecked(&mut s) }.poll_next(cx());
        if end_poll(r) { break }
    }
}
pub fn drive_vec<S: SignalVec>(s: S) {
    let mut s = s;
    loop {
        begin_poll(&mut s);
        let r = unsafe { Pin::new_unchecked(&mut s) }.poll_vec_change(cx());
        if end_poll(r) { break }
    }
}
pub fn drive_map<S: SignalMap>(s: S) {
    let mut s = s;
    loop {
        begin_poll(&mut s);
        let r = unsafe { Pin::new_unchecked(&mut s) }.poll_map_change(cx());
        if end_poll(r) { break }
    }
}

// ---------------------------------------------------------------- concurrency scenarios
/// An opaque value whose drops are tracked.
pub struct D(u64);
impl Drop for D { #[inline(never)] fn drop(&mut self) { opaque!() } }
impl Clone for D { #[inline(never)] fn clone(&self) -> D { opaque!() } }

/// Context number `n` with its own waker; `woken(n)`: has that waker been woken?
#[inline(never)] pub fn cxn<'a, 'b>(n: u64) -> &'a mut Context<'b> { opaque!() }
#[inline(never)] pub fn woken(n: u64) -> bool { opaque!() }
/// Requirements, tagged with the number of the property they belong to.
#[inline(never)] pub fn must(prop: u64, code: u64, b: bool) { opaque!() }
#[inline(never)] pub fn must_eq<T>(prop: u64, code: u64, a: &T, b: &T) { opaque!() }
/// Number of allocated shared cells (Arc allocations that still have a strong or weak reference).
#[inline(never)] pub fn cells() -> u64 { opaque!() }
/// Interleave the closures (the analyser explores every interleaving of their shared-memory events).
#[inline(never)] pub fn par2<F: FnOnce(), G: FnOnce()>(f: F, g: G) { f(); g(); }
#[inline(never)] pub fn par3<F: FnOnce(), G: FnOnce(), H: FnOnce()>(f: F, g: G, h: H) { f(); g(); h(); }

/// A subscriber as an executor sees it: `n` is the number of its next waker.
pub struct Sub<S: Signal> { pub s: S, pub n: u64, pub pending: bool, pub ended: bool, pub last: Option<S::Item>, pub count: u64 }
impl<S: Signal + Unpin> Sub<S> {
    pub fn new(s: S, base: u64) -> Self { Sub { s, n: base, pending: false, ended: false, last: None, count: 0 } }
    pub fn poll(&mut self) {
        if self.ended { return }
        self.n += 1;
        match Pin::new(&mut self.s).poll_change(cxn(self.n)) {
            Poll::Pending => { self.pending = true; }
            Poll::Ready(None) => { self.pending = false; self.ended = true; }
            Poll::Ready(Some(v)) => { self.pending = false; self.last = Some(v); self.count += 1; }
        }
    }
    /// what an executor does: poll again unless the last poll was Pending and its waker has not been woken
    pub fn settle(&mut self) {
        while !self.ended && !(self.pending && !woken(self.n)) { self.poll() }
    }
}
#[inline(never)] pub fn must_in<T>(prop: u64, code: u64, a: &T, b: &T, c: &T) { opaque!() }

/// A formatter which accepts everything.
#[inline(never)] pub fn formatter<'a, 'b>() -> &'a mut std::fmt::Formatter<'b> { opaque!() }
/// A point at which another thread may run.
#[inline(never)] pub fn pause() { opaque!() }

/// Ghost counters of the scenario (no shared-memory event).
#[inline(never)] pub fn bump(n: u64) { opaque!() }
#[inline(never)] pub fn ghost(n: u64) -> u64 { opaque!() }

/// Run two subscribers until neither has anything to do.
pub fn settle2<S: Signal + Unpin, T: Signal + Unpin>(a: &mut Sub<S>, b: &mut Sub<T>) {
    while a.due() || b.due() { if a.due() { a.poll() } if b.due() { b.poll() } }
}
impl<S: Signal> Sub<S> { pub fn due(&self) -> bool { !self.ended && !(self.pending && !woken(self.n)) } }

/// A future as an executor sees it.
pub struct FSub<F: Future> { pub f: Option<F>, pub n: u64, pub pending: bool, pub out: Option<F::Output> }
impl<F: Future> FSub<F> {
    pub fn new(f: F, base: u64) -> Self { FSub { f: Some(f), n: base, pending: false, out: None } }
    pub fn poll(&mut self) {
        if self.out.is_some() { return }
        self.n += 1;
        match unsafe { Pin::new_unchecked(self.f.as_mut().unwrap()) }.poll(cxn(self.n)) {
            Poll::Pending => self.pending = true,
            Poll::Ready(v) => { self.pending = false; self.out = Some(v) }
        }
    }
    pub fn settle(&mut self) {
        while self.out.is_none() && !(self.pending && !woken(self.n)) { self.poll() }
    }
}
/// Replays the diffs of a SignalVec.
pub struct VSub<S: SignalVec> { pub s: S, pub n: u64, pub pending: bool, pub ended: bool, pub list: Vec<S::Item>, pub diffs: u64 }
impl<S: SignalVec + Unpin> VSub<S> {
    pub fn new(s: S, base: u64) -> Self { VSub { s, n: base, pending: false, ended: false, list: Vec::new(), diffs: 0 } }
    pub fn poll(&mut self) {
        if self.ended { return }
        self.n += 1;
        match Pin::new(&mut self.s).poll_vec_change(cxn(self.n)) {
            Poll::Pending => self.pending = true,
            Poll::Ready(None) => { self.pending = false; self.ended = true }
            Poll::Ready(Some(d)) => {
                self.pending = false; self.diffs += 1;
                let l = &mut self.list;
                match d {
                    VecDiff::Replace { values } => *l = values,
                    VecDiff::InsertAt { index, value } => l.insert(index, value),
                    VecDiff::UpdateAt { index, value } => l[index] = value,
                    VecDiff::RemoveAt { index } => { l.remove(index); }
                    VecDiff::Move { old_index, new_index } => { let v = l.remove(old_index); l.insert(new_index, v) }
                    VecDiff::Push { value } => l.push(value),
                    VecDiff::Pop {} => { l.pop().unwrap(); }
                    VecDiff::Clear {} => l.clear(),
                }
            }
        }
    }
    pub fn settle(&mut self) {
        while !self.ended && !(self.pending && !woken(self.n)) { self.poll() }
    }
}

/// Tells the dumper which trait functions to resolve for iterators.
pub fn handles() {
    let mut r = 0..1;
    std::iter::Iterator::next(&mut r);
    std::iter::DoubleEndedIterator::next_back(&mut r);
    std::iter::IntoIterator::into_iter(r);
}

// ---------------------------------------------------------------- histories of container operations
/// Any number below n.
#[inline(never)] pub fn pick(n: usize) -> usize { opaque!() }
/// The loop head of a history: states that are equal to an earlier one are not explored again.
#[inline(never)] pub fn checkpoint() { opaque!() }
/// Paths that violate the condition are outside the explored histories.
#[inline(never)] pub fn assume(b: bool) { opaque!() }
/// Bound for the number of elements.
#[inline(never)] pub fn nmax() -> usize { opaque!() }
/// violations from here on are also charged to property `p` (0: to none)
#[inline(never)] pub fn also(p: u64) { opaque!() }
#[inline(never)] pub fn unwake(n: u64) { opaque!() }
#[inline(never)] pub fn must_eql<T>(prop: u64, code: u64, a: &[T], b: &[T]) { opaque!() }
/// Number of channels that still exist.
#[inline(never)] pub fn chans() -> u64 { opaque!() }
/// Is it literally the same value (not: does it compare equal)?
#[inline(never)] pub fn same<T>(a: &T, b: &T) -> bool { opaque!() }

/// Remembers what was hashed.
pub struct Hs(pub u64);
impl Hs { pub fn new() -> Self { Hs(0) } }
impl std::hash::Hasher for Hs { fn finish(&self) -> u64 { self.0 } fn write(&mut self, b: &[u8]) { opaque!() } fn write_usize(&mut self, _: usize) { opaque!() } fn write_u8(&mut self, _: u8) { opaque!() } }
impl std::hash::Hash for V { fn hash<H: std::hash::Hasher>(&self, _: &mut H) { opaque!() } }
