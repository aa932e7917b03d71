#![allow(warnings)]
//! Markers and inputs of the type-level witnesses (see absint/typecheck.py).  Only type checked, never executed.
use std::cell::Cell;
use std::future::Future;
use std::marker::{PhantomData, PhantomPinned};
use std::pin::Pin;
use std::sync::MutexGuard;
use std::task::{Context, Poll};
use futures_core::Stream;
use futures_signals::signal::{self, Signal, SignalExt, Mutable, ReadOnlyMutable, Broadcaster};
use futures_signals::signal_vec::{self, SignalVec, SignalVecExt, VecDiff, MutableVec};
use futures_signals::signal_map::{self, SignalMap, SignalMapExt, MapDiff, MutableBTreeMap};
use futures_signals::{map_ref, map_mut, cancelable_future};

macro_rules! marker { ($n:ident, $t:ty) => {
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Default, Hash)]
    pub struct $n(PhantomData<$t>);
    impl<'a> std::iter::Sum<&'a $n> for $n { fn sum<I: Iterator<Item = &'a $n>>(i: I) -> $n { loop {} } }
} }
marker!(SS, u8);                        // Send + Sync
marker!(SN, Cell<u8>);                  // Send only
marker!(NS, MutexGuard<'static, u8>);   // Sync only
marker!(NN, *const u8);                 // neither
marker!(UP, PhantomPinned);             // must not be moved once pinned

pub struct Sig<M, I>(M, PhantomData<fn() -> I>);
pub struct Ve<M, I>(M, PhantomData<fn() -> I>);
pub struct Ma<M, I>(M, PhantomData<fn() -> I>);
pub struct St<M, I>(M, PhantomData<fn() -> I>);
pub struct Fu<M, I>(M, PhantomData<fn() -> I>);
impl<M, I> Signal for Sig<M, I> { type Item = I; fn poll_change(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<I>> { loop {} } }
impl<M, I> SignalVec for Ve<M, I> { type Item = I; fn poll_vec_change(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<VecDiff<I>>> { loop {} } }
impl<M, I> SignalMap for Ma<M, I> { type Key = u8; type Value = I; fn poll_map_change(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<MapDiff<u8, I>>> { loop {} } }
impl<M, I> Stream for St<M, I> { type Item = I; fn poll_next(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<I>> { loop {} } }
impl<M, I> Future for Fu<M, I> { type Output = I; fn poll(self: Pin<&mut Self>, cx: &mut Context) -> Poll<I> { loop {} } }
pub fn mk<T>() -> T { loop {} }
pub fn touch<T>(_: &T) {}
pub fn sig<M, I>() -> Sig<M, I> { loop {} }
pub fn ve<M, I>() -> Ve<M, I> { loop {} }
pub fn ma<M, I>() -> Ma<M, I> { loop {} }
pub fn st<M, I>() -> St<M, I> { loop {} }
pub fn fu<M, I>() -> Fu<M, I> { loop {} }

pub fn yes_send<T: Send>(_: &T) {}
pub fn yes_sync<T: Sync>(_: &T) {}
pub fn yes_unpin<T: Unpin>(_: &T) {}
// `no_x(&v)` is ambiguous (a compile error) exactly if the type of v implements x
macro_rules! no { ($f:ident, $t:ident, $b:ident) => {
    pub trait $t<A> {}
    impl<T> $t<()> for T {}
    impl<T: $b> $t<u8> for T {}
    pub fn $f<T: $t<A>, A>(_: &T) {}
} }
no!(no_send, NoSend, Send);
no!(no_sync, NoSync, Sync);
no!(no_unpin, NoUnpin, Unpin);
pub fn is_signal<S: Signal>(s: S) -> S { s }
pub fn is_signal_vec<S: SignalVec>(s: S) -> S { s }
pub fn is_signal_map<S: SignalMap>(s: S) -> S { s }
pub fn is_future<S: Future>(s: S) -> S { s }
pub fn is_stream<S: Stream>(s: S) -> S { s }

