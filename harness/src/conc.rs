//! Scenarios for the concurrency analyses (C01-C07, C21, C42, C46).  Never executed.
use crate::env::*;
use futures_signals::signal::{self, Mutable, ReadOnlyMutable, Signal, SignalExt, Broadcaster};
use futures_signals::signal::{channel, Sender, Receiver};
use futures_signals::{cancelable_future, CancelableFutureHandle};
use futures_signals::signal_vec::{MutableVec, SignalVecExt};
use futures_signals::internal;
use discard::{Discard, DiscardOnDrop};
use std::pin::Pin;
use std::task::{Poll, Context};
use std::future::Future;

// ------------------------------------------------------------------ channel
fn chan(settled: bool) -> (Sender<V>, Sub<Receiver<V>>) {
    let (tx, rx) = channel(input::<V>(0));
    let mut sub = Sub::new(rx, 10);
    if settled { sub.settle() }
    (tx, sub)
}
macro_rules! chan_cases { ($($name:ident, $settled:expr, $polls:expr, |$tx:ident, $v:ident| $op:block, $ended:expr;)*) => { $(
    pub fn $name() {
        let ($tx, mut sub) = chan($settled);
        let $v = input::<V>(1);
        let expect = $v.clone();
        let mut keep = None;
        par2(|| { keep = $op; }, || { for _ in 0..$polls { sub.poll(); } });
        sub.settle();
        must_eq(3, 1, &sub.last, &Some(expect));
        must(3, 2, sub.ended == $ended);
        drop(keep);
        if !$ended { sub.settle(); must(4, 3, sub.ended); }
    } )* } }
chan_cases! {
    case_conc_chan_send, true, 1, |tx, v| { must(4, 4, tx.send(v).is_ok()); Some(tx) }, false;
    case_conc_chan_send_fresh, false, 1, |tx, v| { must(4, 4, tx.send(v).is_ok()); Some(tx) }, false;
    case_conc_chan_send2, true, 2, |tx, v| { must(4, 4, tx.send(input::<V>(2)).is_ok()); must(4, 4, tx.send(v).is_ok()); Some(tx) }, false;
    case_conc_chan_send_drop, true, 2, |tx, v| { must(4, 4, tx.send(v).is_ok()); drop(tx); None::<Sender<V>> }, true;
    case_conc_chan_send_drop_fresh, false, 2, |tx, v| { must(4, 4, tx.send(v).is_ok()); drop(tx); None::<Sender<V>> }, true;
    case_conc_chan_send_close, true, 2, |tx, v| { must(4, 4, tx.send(v).is_ok()); tx.close(); must(4, 5, tx.send(input::<V>(3)).is_err()); Some(tx) }, true;
}
pub fn case_conc_chan_drop() {
    let (tx, mut sub) = chan(true);
    par2(|| drop(tx), || sub.poll());
    sub.settle();
    must(4, 6, sub.ended);
}
pub fn case_conc_chan_close() {
    let (tx, mut sub) = chan(true);
    par2(|| tx.close(), || sub.poll());
    sub.settle();
    must(4, 7, sub.ended);
    must(4, 8, tx.send(input::<V>(1)).is_err());
}
pub fn case_conc_chan_drop_drop() {
    let (tx, mut sub) = chan(true);
    let tx2 = tx.clone();
    par2(|| drop(tx), || drop(tx2));
    sub.settle();
    must(4, 9, sub.ended);
}
pub fn case_conc_chan_clone_close() {
    let (tx, mut sub) = chan(true);
    let tx2 = tx.clone();
    let mut tx3 = None;
    par2(|| { tx3 = Some(tx.clone()) }, || tx2.close());
    sub.settle();
    must(4, 10, sub.ended);
    must(4, 11, tx.send(input::<V>(1)).is_err());
    drop(tx); drop(tx2);
    must(4, 12, tx3.unwrap().send(input::<V>(1)).is_err());
}
pub fn case_conc_chan_drop_close() {
    let (tx, mut sub) = chan(true);
    let tx2 = tx.clone();
    par2(|| drop(tx), || tx2.close());
    sub.settle();
    must(4, 13, sub.ended);
    must(4, 14, tx2.send(input::<V>(1)).is_err());
    let tx3 = tx2.clone();
    must(4, 15, tx3.send(input::<V>(1)).is_err());
    drop(tx2);
    must(4, 16, tx3.send(input::<V>(1)).is_err());
}
pub fn case_conc_chan_clone_drop() {
    let (tx, mut sub) = chan(true);
    let tx2 = tx.clone();
    let mut tx3 = None;
    par2(|| { tx3 = Some(tx.clone()); }, || drop(tx2));
    sub.settle();
    must(4, 17, !sub.ended);
    drop(tx);
    sub.settle();
    must(4, 18, !sub.ended);
    let v = input::<V>(1);
    must(4, 19, tx3.as_ref().unwrap().send(v.clone()).is_ok());
    sub.settle();
    must_eq(3, 20, &sub.last, &Some(v));
    drop(tx3);
    sub.settle();
    must(4, 21, sub.ended);
}
pub fn case_conc_chan_two_senders() {
    let (tx, mut sub) = chan(true);
    let tx2 = tx.clone();
    let (a, b) = (input::<V>(1), input::<V>(2));
    let (a2, b2) = (a.clone(), b.clone());
    par3(|| { must(4, 4, tx.send(a).is_ok()); }, || { must(4, 4, tx2.send(b).is_ok()); }, || sub.poll());
    sub.settle();
    must_in(3, 22, &sub.last, &Some(a2), &Some(b2));
    must(3, 23, sub.count <= 3);
}
/// values are dropped exactly once or handed back
pub fn case_conc_chan_drops() {
    let (tx, rx) = channel(input::<D>(0));
    let mut sub = Sub::new(rx, 10);
    let mut r = None;
    par2(|| { let _ = tx.send(input::<D>(1)); let _ = tx.send(input::<D>(2)); drop(tx) }, || { sub.poll(); sub.poll(); r = Some(sub) });
}
pub fn case_conc_chan_drops_rx() {
    let (tx, rx) = channel(input::<D>(0));
    let mut sub = Sub::new(rx, 10);
    sub.settle();
    let v = input::<D>(1);
    let mut r = None;
    par2(|| { r = Some(tx.send(v)); }, || drop(sub));
    must(4, 24, tx.send(input::<D>(2)).is_err());
}
pub fn case_conc_chan_err_value() {
    let (tx, rx) = channel(input::<V>(0));
    drop(rx);
    let v = input::<V>(1);
    let w = v.clone();
    match tx.send(v) { Ok(()) => must(4, 25, false), Err(x) => must_eq(4, 26, &x, &w) }
    tx.close();
    let tx2 = tx.clone();
    let v = input::<V>(1);
    let w = v.clone();
    match tx2.send(v) { Ok(()) => must(4, 27, false), Err(x) => must_eq(4, 28, &x, &w) }
}
pub fn case_conc_chan_close_value() {
    let (tx, rx) = channel(input::<V>(0));
    tx.close();
    let v = input::<V>(1);
    let w = v.clone();
    match tx.send(v) { Ok(()) => must(4, 29, false), Err(x) => must_eq(4, 30, &x, &w) }
    let mut sub = Sub::new(rx, 10);
    sub.settle();
    must(4, 31, sub.ended);
    must(3, 32, sub.count == 1);
}
/// sequential history: each value at most once, latest wins
pub fn case_conc_chan_seq() {
    let (tx, mut sub) = chan(false);
    let (a, b) = (input::<V>(1), input::<V>(2));
    let b2 = b.clone();
    let _ = tx.send(a);
    let _ = tx.send(b);
    sub.poll();
    must_eq(3, 33, &sub.last, &Some(b2));
    sub.poll();
    must(3, 34, sub.pending);
    must(3, 35, sub.count == 1);
    sub.poll();
    must(3, 36, sub.pending);
    let _ = tx.send(input::<V>(3));
    must(3, 37, woken(sub.n));
    drop(tx);
    sub.settle();
    must(3, 38, sub.count == 2 && sub.ended);
}

// ------------------------------------------------------------------ Mutable
fn msub<T: Clone>(init: T, settled: bool) -> (Mutable<T>, Sub<signal::MutableSignalCloned<T>>) {
    let m = Mutable::new(init);
    let mut sub = Sub::new(m.signal_cloned(), 10);
    if settled { sub.settle() }
    (m, sub)
}
macro_rules! mut_cases { ($($name:ident, $settled:expr, $polls:expr, $max:expr, |$m:ident, $v:ident| $op:block, $ended:expr;)*) => { $(
    pub fn $name() {
        let ($m, mut sub) = msub(input::<V>(0), $settled);
        let $v = input::<V>(1);
        let expect = $v.clone();
        let mut keep = None;
        par2(|| { keep = $op; }, || { for _ in 0..$polls { sub.poll(); } });
        sub.settle();
        must_eq(1, 1, &sub.last, &Some(expect));
        must(2, 2, sub.ended == $ended);
        must(1, 3, sub.count <= $max);
        drop(keep);
        if !$ended { sub.settle(); must(2, 4, sub.ended); must(1, 3, sub.count <= $max); }
    } )* } }
mut_cases! {
    case_conc_mut_set, true, 1, 2, |m, v| { m.set(v); Some(m) }, false;
    case_conc_mut_set_fresh, false, 2, 2, |m, v| { m.set(v); Some(m) }, false;
    case_conc_mut_set2, true, 2, 3, |m, v| { m.set(input::<V>(2)); m.set(v); Some(m) }, false;
    case_conc_mut_replace, true, 1, 2, |m, v| { let _ = m.replace(v); Some(m) }, false;
    case_conc_mut_replace_with, true, 1, 2, |m, v| { let _ = m.replace_with(|_| v); Some(m) }, false;
    case_conc_mut_set_if, true, 1, 2, |m, v| { m.set_if(v, |_, _| true); Some(m) }, false;
    case_conc_mut_lock_mut, true, 1, 2, |m, v| { *m.lock_mut() = v; Some(m) }, false;
    case_conc_mut_swap, true, 1, 2, |m, v| { let o = Mutable::new(v); m.swap(&o); Some(m) }, false;
    case_conc_mut_swap2, true, 1, 2, |m, v| { let o = Mutable::new(v); o.swap(&m); Some(m) }, false;
    case_conc_mut_set_drop, true, 2, 2, |m, v| { m.set(v); drop(m); None::<Mutable<V>> }, true;
    case_conc_mut_set_drop_fresh, false, 2, 2, |m, v| { m.set(v); drop(m); None::<Mutable<V>> }, true;
    case_conc_mut_lock_drop, true, 2, 2, |m, v| { *m.lock_mut() = v; drop(m); None::<Mutable<V>> }, true;
    case_conc_mut_set_clone, true, 2, 2, |m, v| { let n = m.clone(); drop(m); n.set(v); Some(n) }, false;
    case_conc_mut_set_ro, true, 2, 2, |m, v| { let n = m.read_only(); m.set(v); drop(m); let _ = n; None::<Mutable<V>> }, true;
}
/// the same through the other two signal types
pub fn case_conc_mut_copy() {
    let m = Mutable::new(input::<C>(0));
    let mut sub = Sub::new(m.signal(), 10);
    sub.settle();
    let v = input::<C>(1);
    par2(|| { m.set(v); drop(m) }, || { sub.poll(); sub.poll(); });
    sub.settle();
    must_eq(1, 1, &sub.last, &Some(v));
    must(2, 2, sub.ended);
    must(1, 3, sub.count <= 2);
}
pub fn case_conc_mut_ref() {
    let m = Mutable::new(input::<V>(0));
    let mut sub = Sub::new(m.signal_ref(|x: &V| cbr::<V, W>(1, x)), 10);
    sub.settle();
    let v = input::<V>(1);
    let w = v.clone();
    par2(|| { m.set(v); drop(m) }, || { sub.poll(); sub.poll(); });
    sub.settle();
    must_eq(1, 1, &sub.last, &Some(cbr::<V, W>(1, &w)));
    must(2, 2, sub.ended);
    must(1, 3, sub.count <= 2);
}
pub fn case_conc_mut_ro_signal() {
    let m = Mutable::new(input::<V>(0));
    let r = m.read_only();
    let mut sub = Sub::new(r.signal_cloned(), 10);
    sub.settle();
    let v = input::<V>(1);
    let w = v.clone();
    par2(|| { m.set(v); drop(m) }, || { sub.poll(); sub.poll(); });
    sub.settle();
    must_eq(1, 1, &sub.last, &Some(w));
    must(2, 2, sub.ended);
}
/// a pending subscriber is woken by every kind of change, and not woken when nothing changed
macro_rules! wake_cases { ($($name:ident, |$m:ident, $v:ident| $op:block, $woken:expr;)*) => { $(
    pub fn $name() {
        let ($m, mut sub) = msub(input::<V>(0), true);
        let mut late = Sub::new($m.signal_cloned(), 20);
        late.settle();
        let $v = input::<V>(1);
        let expect = $v.clone();
        let old = $m.get_cloned();
        $op;
        let now = $m.get_cloned();
        if $woken {
            must_eq(1, 5, &now, &expect);
            must(1, 6, woken(sub.n) && woken(late.n));
            sub.poll(); late.poll();
            must_eq(1, 7, &sub.last, &Some(now));
            must_eq(1, 7, &sub.last, &late.last);
            must(1, 8, sub.count == 2 && late.count == 2);
        } else {
            must_eq(1, 9, &now, &old);
            sub.poll(); late.poll();
            must(1, 10, sub.count == 1 && late.count == 1);
        }
        sub.settle();
        must(1, 11, sub.pending && !sub.ended);
    } )* } }
wake_cases! {
    case_conc_mutseq_set, |m, v| { m.set(v) }, true;
    case_conc_mutseq_set_if_no, |m, v| { m.set_if(v, |_, _| false) }, false;
    case_conc_mutseq_set_if_yes, |m, v| { m.set_if(v, |a, b| cb2::<V, V, bool>(9, a, b) || true) }, true;
    case_conc_mutseq_replace, |m, v| { let o = m.get_cloned(); let r = m.replace(v); must_eq(1, 12, &r, &o) }, true;
    case_conc_mutseq_replace_with, |m, v| { let o = m.get_cloned(); let r = m.replace_with(|_| v); must_eq(1, 12, &r, &o) }, true;
    case_conc_mutseq_replace_with_inner, |m, v| { let w = v.clone(); let r = m.replace_with(move |x| { *x = w; v }); must_eq(1, 12, &r, &m.get_cloned()) }, true;
    case_conc_mutseq_lock_write, |m, v| { let mut l = m.lock_mut(); *l = v; }, true;
    case_conc_mutseq_lock_read, |m, v| { let l = m.lock_mut(); let _ = (*l).clone(); }, false;
    case_conc_mutseq_lock_ref, |m, v| { let l = m.lock_ref(); let _ = (*l).clone(); }, false;
}
pub fn case_conc_mutseq_set_neq() {
    let (m, mut sub) = msub(input::<V>(0), true);
    let v = input::<V>(1);
    let w = v.clone();
    let differs = m.get_cloned() != w;
    m.set_neq(v);
    must(1, 13, woken(sub.n) == differs);
    sub.settle();
    if differs { must_eq(1, 14, &sub.last, &Some(w)); must(1, 15, sub.count == 2) } else { must(1, 15, sub.count == 1) }
}
pub fn case_conc_mutseq_swap() {
    let (a, mut sa) = msub(input::<V>(0), true);
    let b = Mutable::new(input::<V>(1));
    let mut sb = Sub::new(b.signal_cloned(), 20);
    sb.settle();
    a.swap(&b);
    must(1, 16, woken(sa.n) && woken(sb.n));
    let (x, y) = (a.get_cloned(), b.get_cloned());
    must_eq(1, 17, &sb.last, &Some(x.clone()));
    must_eq(1, 17, &sa.last, &Some(y.clone()));
    sa.settle(); sb.settle();
    must_eq(1, 18, &sa.last, &Some(x));
    must_eq(1, 18, &sb.last, &Some(y));
}
/// the most recently supplied waker is the one that is woken
pub fn case_conc_mutseq_rewake() {
    let (m, mut sub) = msub(input::<V>(0), true);
    sub.poll(); sub.poll();
    m.set(input::<V>(1));
    must(1, 19, woken(sub.n));
    sub.settle();
    sub.poll();
    drop(m);
    must(2, 20, woken(sub.n));
    sub.settle();
    must(2, 21, sub.ended && sub.count == 2);
}
pub fn case_conc_mut_drop() {
    let (m, mut sub) = msub(input::<V>(0), true);
    par2(|| drop(m), || sub.poll());
    sub.settle();
    must(2, 22, sub.ended && sub.count == 1);
}
pub fn case_conc_mut_drop_drop() {
    let (m, mut sub) = msub(input::<V>(0), true);
    let m2 = m.clone();
    par2(|| drop(m), || drop(m2));
    must(2, 23, woken(sub.n));
    sub.settle();
    must(2, 24, sub.ended && sub.count == 1);
}
pub fn case_conc_mut_clone_drop() {
    let (m, mut sub) = msub(input::<V>(0), true);
    let m2 = m.clone();
    let mut m3 = None;
    par2(|| { m3 = Some(m.clone()); drop(m) }, || drop(m2));
    sub.settle();
    must(2, 25, !sub.ended);
    let v = input::<V>(1);
    m3.as_ref().unwrap().set(v.clone());
    must(1, 26, woken(sub.n));
    sub.settle();
    must_eq(1, 27, &sub.last, &Some(v));
    drop(m3);
    sub.settle();
    must(2, 28, sub.ended);
}
pub fn case_conc_mut_read_only() {
    let (m, mut sub) = msub(input::<V>(0), true);
    let r = m.read_only();
    let r2 = r.clone();
    drop(r);
    sub.settle();
    must(2, 29, !sub.ended);
    let v = m.get_cloned();
    par2(|| drop(m), || sub.poll());
    sub.settle();
    must(2, 30, sub.ended);
    let mut late = Sub::new(r2.signal_cloned(), 20);
    late.settle();
    must(2, 31, late.ended && late.count == 1);
    must_eq(2, 32, &late.last, &Some(v.clone()));
    must_eq(2, 33, &r2.get_cloned(), &v);
}
/// a signal created while a change happens sees the newest value
pub fn case_conc_mut_new_signal() {
    let m = Mutable::new(input::<V>(0));
    let m2 = m.clone();
    let v = input::<V>(1);
    let w = v.clone();
    let mut sub = None;
    par2(|| m.set(v), || { let mut s = Sub::new(m2.signal_cloned(), 10); s.poll(); s.poll(); sub = Some(s) });
    let mut sub = sub.unwrap();
    sub.settle();
    must_eq(1, 34, &sub.last, &Some(w));
    must(1, 35, sub.count <= 2);
    drop(m); drop(m2);
    sub.settle();
    must(2, 36, sub.ended);
}
pub fn case_conc_mut_new_signal_drop() {
    let m = Mutable::new(input::<V>(0));
    let r = m.read_only();
    let v = input::<V>(1);
    let w = v.clone();
    let mut sub = None;
    par2(|| { m.set(v); drop(m) }, || { let mut s = Sub::new(r.signal_cloned(), 10); s.poll(); s.poll(); sub = Some(s) });
    let mut sub = sub.unwrap();
    sub.settle();
    must_eq(1, 37, &sub.last, &Some(w));
    must(2, 38, sub.ended);
}
/// concurrent changes: the signal ends up with the value that is stored
pub fn case_conc_mut_set_set() {
    let (m, mut sub) = msub(input::<V>(0), true);
    let m2 = m.clone();
    let (a, b) = (input::<V>(1), input::<V>(2));
    par3(|| m.set(a), || m2.set(b), || sub.poll());
    sub.settle();
    must_eq(1, 39, &sub.last, &Some(m.get_cloned()));
    must(1, 40, sub.count <= 3);
}
pub fn case_conc_mut_set_lock() {
    let (m, mut sub) = msub(input::<V>(0), true);
    let m2 = m.clone();
    let (a, b) = (input::<V>(1), input::<V>(2));
    par3(|| { *m.lock_mut() = a; }, || { let _ = m2.replace(b); }, || sub.poll());
    sub.settle();
    must_eq(1, 41, &sub.last, &Some(m.get_cloned()));
}
pub fn case_conc_mut_two_subs() {
    let (m, mut sub) = msub(input::<V>(0), true);
    let mut other = Sub::new(m.signal_cloned(), 20);
    other.settle();
    let v = input::<V>(1);
    let w = v.clone();
    par3(|| m.set(v), || sub.poll(), || other.poll());
    sub.settle(); other.settle();
    must_eq(1, 42, &sub.last, &Some(w.clone()));
    must_eq(1, 42, &other.last, &Some(w));
}
/// dropping a signal while a change is delivered disturbs nobody
pub fn case_conc_mut_sub_drop() {
    let (m, mut sub) = msub(input::<V>(0), true);
    let mut other = Sub::new(m.signal_cloned(), 20);
    other.settle();
    let v = input::<V>(1);
    let w = v.clone();
    par2(|| m.set(v), || drop(sub));
    must(46, 43, woken(other.n));
    other.settle();
    must_eq(46, 44, &other.last, &Some(w));
    m.set(input::<V>(2));
    must(46, 45, cells() == 2);
    drop(other);
    m.set(input::<V>(3));
    must(46, 46, cells() == 1);
}
/// bookkeeping of dropped subscribers
pub fn case_conc_mut_prune() {
    let m = Mutable::new(input::<V>(0));
    let r = m.read_only();
    let a = m.signal_cloned();
    let b = m.signal_cloned();
    let c = r.signal_cloned();
    must(46, 47, cells() == 4);
    drop(b);
    m.set(input::<V>(1));
    must(46, 48, cells() == 3);
    drop(a);
    { let mut l = m.lock_mut(); *l = input::<V>(2); }
    must(46, 49, cells() == 2);
    drop(c);
    let _ = m.replace(input::<V>(3));
    must(46, 50, cells() == 1);
    let d = m.signal_cloned();
    drop(m);
    drop(d);
    must(46, 51, cells() == 1);
    let e = r.signal_cloned();
    drop(e);
    must(46, 52, cells() == 1);
    drop(r);
    must(46, 53, cells() == 0);
}
pub fn case_conc_mut_swap_swap() {
    let (a, b) = (Mutable::new(input::<V>(0)), Mutable::new(input::<V>(1)));
    let (a2, b2) = (a.clone(), b.clone());
    par2(|| a.swap(&b), || b2.swap(&a2));
}
pub fn case_conc_mut_swap_self() {
    let a = Mutable::new(input::<V>(0));
    let v = a.get_cloned();
    a.swap(&a);
    must_eq(1, 54, &a.get_cloned(), &v);
    let b = a.clone();
    a.swap(&b);
    must_eq(1, 55, &a.get_cloned(), &v);
}
/// no operation of one Mutable locks itself out
pub fn case_conc_mut_lock_order() {
    let m = Mutable::new(input::<V>(0));
    let m2 = m.clone();
    let mut s = Sub::new(m.signal_cloned(), 10);
    s.settle();
    par3(|| { let _ = m.get_cloned(); m.set_neq(input::<V>(1)); let _s = m.signal_cloned(); },
         || { { let l = m2.lock_ref(); let _ = (*l).clone(); } let _ = m2.replace_with(|x| x.clone()); },
         || { s.poll(); });
}
/// somebody reads (and keeps the lock for a while) during the operation
macro_rules! guard_cases { ($($name:ident, |$m:ident, $v:ident| $op:block, $changed:expr, $ended:expr;)*) => { $(
    pub fn $name() {
        let ($m, mut sub) = msub(input::<V>(0), true);
        let r = $m.read_only();
        let $v = input::<V>(1);
        let expect = if $changed { $v.clone() } else { $m.get_cloned() };
        let mut keep = None;
        par2(|| { keep = $op; }, || { let l = r.lock_ref(); pause(); let _ = (*l).clone(); drop(l) });
        if $ended { must(2, 57, woken(sub.n)) } else { must(1, 56, woken(sub.n) == $changed) }
        sub.settle();
        must_eq(1, 58, &sub.last, &Some(expect));
        must(2, 59, sub.ended == $ended);
        drop(keep);
        sub.settle();
        must(2, 60, sub.ended);
    } )* } }
guard_cases! {
    case_conc_mut_guard_set, |m, v| { m.set(v); Some(m) }, true, false;
    case_conc_mut_guard_replace, |m, v| { let _ = m.replace(v); Some(m) }, true, false;
    case_conc_mut_guard_replace_with, |m, v| { let _ = m.replace_with(|_| v); Some(m) }, true, false;
    case_conc_mut_guard_swap, |m, v| { m.swap(&Mutable::new(v)); Some(m) }, true, false;
    case_conc_mut_guard_swap2, |m, v| { Mutable::new(v).swap(&m); Some(m) }, true, false;
    case_conc_mut_guard_set_if, |m, v| { m.set_if(v, |_, _| true); Some(m) }, true, false;
    case_conc_mut_guard_lock, |m, v| { *m.lock_mut() = v; Some(m) }, true, false;
    case_conc_mut_guard_drop, |m, v| { let _ = v; drop(m); None::<Mutable<V>> }, false, true;
    case_conc_mut_guard_clone, |m, v| { let _ = v; let n = m.clone(); drop(m); Some(n) }, false, false;
    case_conc_mut_guard_set_drop, |m, v| { m.set(v); drop(m); None::<Mutable<V>> }, true, true;
}
/// a new subscription while somebody keeps the read lock
pub fn case_conc_mut_guard_signal() {
    let (m, mut sub) = msub(input::<V>(0), true);
    let r = m.read_only();
    let mut new = None;
    par2(|| { new = Some(Sub::new(m.signal_cloned(), 20)) }, || { let l = r.lock_ref(); pause(); drop(l) });
    let mut new = new.unwrap();
    new.settle();
    let v = input::<V>(1);
    m.set(v.clone());
    must(1, 61, woken(new.n) && woken(sub.n));
    new.settle(); sub.settle();
    must_eq(1, 62, &new.last, &Some(v.clone()));
    must_eq(1, 62, &sub.last, &Some(v));
}
/// printing takes the lock as well
pub fn case_conc_mut_fmt() {
    let m = Mutable::new(input::<V>(0));
    let m2 = m.clone();
    par2(|| { let _ = std::fmt::Debug::fmt(&m, formatter()); let _ = std::fmt::Debug::fmt(&m.read_only(), formatter()); }, || m2.set(input::<V>(1)));
}
pub fn case_conc_bc_fmt() {
    let m = Mutable::new(input::<V>(0));
    let (b, mut s1, _s2) = bsub(&m, true);
    m.set(input::<V>(1));
    par2(|| { let _ = std::fmt::Debug::fmt(&b, formatter()); }, || s1.poll());
}
/// tracked values
pub fn case_conc_mut_drops() {
    let m = Mutable::new(input::<D>(0));
    let m2 = m.clone();
    let mut sub = Sub::new(m.signal_cloned(), 10);
    let mut out = None;
    par2(|| { m.set(input::<D>(1)); out = Some(m.replace(input::<D>(2))); m.set_if(input::<D>(3), |_, _| nondet()); drop(m) }, || { sub.poll(); sub.poll(); drop(sub) });
    let _ = m2.replace_with(|_| input::<D>(4));
    { let mut l = m2.lock_mut(); *l = input::<D>(5); }
    let o = Mutable::new(input::<D>(6));
    m2.swap(&o);
}

// ------------------------------------------------------------------ Broadcaster
type MS = signal::MutableSignalCloned<V>;
fn bsub(m: &Mutable<V>, settled: bool) -> (Broadcaster<MS>, Sub<signal::BroadcasterSignalCloned<MS>>, Sub<signal::BroadcasterSignalCloned<MS>>) {
    let b = Broadcaster::new(m.signal_cloned());
    let mut s1 = Sub::new(b.signal_cloned(), 10);
    let mut s2 = Sub::new(b.signal_cloned(), 40);
    if settled { settle2(&mut s1, &mut s2) }
    (b, s1, s2)
}
pub fn case_conc_bc_set() {
    let m = Mutable::new(input::<V>(0));
    let (_b, mut s1, mut s2) = bsub(&m, true);
    let v = input::<V>(1);
    let w = v.clone();
    par2(|| { m.set(v) }, || { s1.poll() });
    settle2(&mut s1, &mut s2);
    must_eq(5, 1, &s1.last, &Some(w.clone()));
    must_eq(5, 2, &s2.last, &Some(w));
    must(5, 3, s1.count <= 2 && s2.count <= 2 && !s1.ended && !s2.ended);
    drop(m);
    settle2(&mut s1, &mut s2);
    must(5, 4, s1.ended && s2.ended);
}
pub fn case_conc_bc_two_polls() {
    let m = Mutable::new(input::<V>(0));
    let (_b, mut s1, mut s2) = bsub(&m, true);
    let v = input::<V>(1);
    let w = v.clone();
    m.set(v);
    must(5, 5, woken(s1.n) && woken(s2.n));
    par2(|| { s1.poll() }, || { s2.poll() });
    settle2(&mut s1, &mut s2);
    must_eq(5, 6, &s1.last, &Some(w.clone()));
    must_eq(5, 7, &s2.last, &Some(w));
    must(5, 8, s1.count == 2 && s2.count == 2);
}
pub fn case_conc_bc_fresh() {
    let m = Mutable::new(input::<V>(0));
    let (_b, mut s1, mut s2) = bsub(&m, false);
    let v = m.get_cloned();
    par2(|| { s1.poll() }, || { s2.poll() });
    must_eq(5, 9, &s1.last, &Some(v.clone()));
    must_eq(5, 9, &s2.last, &Some(v));
    settle2(&mut s1, &mut s2);
    must(5, 10, s1.count == 1 && s2.count == 1);
}
pub fn case_conc_bc_drop() {
    let m = Mutable::new(input::<V>(0));
    let (_b, mut s1, mut s2) = bsub(&m, true);
    let v = input::<V>(1);
    let w = v.clone();
    par2(|| { m.set(v); drop(m) }, || { s1.poll(); s1.poll(); });
    settle2(&mut s1, &mut s2);
    must_eq(5, 11, &s1.last, &Some(w.clone()));
    must_eq(5, 12, &s2.last, &Some(w));
    must(5, 13, s1.ended && s2.ended);
}
pub fn case_conc_bc_three() {
    let m = Mutable::new(input::<V>(0));
    let (_b, mut s1, mut s2) = bsub(&m, true);
    let v = input::<V>(1);
    let w = v.clone();
    par3(|| { m.set(v) }, || { s1.poll() }, || { s2.poll() });
    settle2(&mut s1, &mut s2);
    must_eq(5, 14, &s1.last, &Some(w.clone()));
    must_eq(5, 15, &s2.last, &Some(w));
}
pub fn case_conc_bc_late() {
    let m = Mutable::new(input::<V>(0));
    let (b, mut s1, mut s2) = bsub(&m, true);
    let v = input::<V>(1);
    let w = v.clone();
    drop(s2);
    m.set(v);
    let mut s3 = None;
    par2(|| { s1.poll() }, || { let mut s = Sub::new(b.signal_cloned(), 70); s.poll(); s3 = Some(s) });
    let mut s3 = s3.unwrap();
    settle2(&mut s1, &mut s3);
    must_eq(5, 16, &s1.last, &Some(w.clone()));
    must_eq(5, 17, &s3.last, &Some(w));
    must(5, 18, s3.count == 1);
    // after the end a late subscriber still gets the last value, then the end
    drop(m);
    settle2(&mut s1, &mut s3);
    must(5, 19, s1.ended && s3.ended);
    let mut s4 = Sub::new(b.signal_cloned(), 90);
    s4.settle();
    must_eq(5, 20, &s4.last, &s1.last);
    must(5, 21, s4.ended && s4.count == 1);
}
pub fn case_conc_bc_sub_drop() {
    let m = Mutable::new(input::<V>(0));
    let (b, s1, mut s2) = bsub(&m, true);
    let v = input::<V>(1);
    let w = v.clone();
    par2(|| { m.set(v) }, || { drop(s1) });
    must(46, 22, woken(s2.n));
    s2.settle();
    must_eq(5, 23, &s2.last, &Some(w));
    m.set(input::<V>(2));
    let n = cells();
    s2.settle();
    let s5 = b.signal_cloned();
    must(46, 24, cells() == n + 1);
    drop(s5);
    m.set(input::<V>(3));
    must(46, 25, cells() == n);
    s2.settle();
    drop(b); drop(s2);
    m.set(input::<V>(4));
    must(46, 26, cells() == 1);
}
pub fn case_conc_bc_copy_ref() {
    let m = Mutable::new(input::<C>(0));
    let b = m.signal().broadcast();
    let b2 = b.clone();
    let mut s1 = Sub::new(b.signal(), 10);
    let mut s2 = Sub::new(b2.signal_ref(|x: &C| cbr::<C, W>(1, x)), 40);
    drop(b); drop(b2);
    settle2(&mut s1, &mut s2);
    let v = input::<C>(1);
    par2(|| { m.set(v); drop(m) }, || { s2.poll(); s2.poll(); });
    settle2(&mut s1, &mut s2);
    must_eq(5, 27, &s1.last, &Some(v));
    must_eq(5, 28, &s2.last, &Some(cbr::<C, W>(1, &v)));
    must(5, 29, s1.ended && s2.ended && s1.count <= 2 && s2.count <= 2);
}
/// repeated wakeups: every change is announced to whoever returned Pending
pub fn case_conc_bc_seq() {
    let m = Mutable::new(input::<V>(0));
    let (_b, mut s1, mut s2) = bsub(&m, true);
    let (v1, v2) = (input::<V>(1), input::<V>(2));
    m.set(v1.clone());
    must(5, 30, woken(s1.n) && woken(s2.n));
    s1.settle();
    must_eq(5, 31, &s1.last, &Some(v1.clone()));
    m.set(v2.clone());
    must(5, 32, woken(s1.n) && woken(s2.n));
    s2.settle();
    must_eq(5, 33, &s2.last, &Some(v2.clone()));
    must(5, 34, s2.count == 2);
    s1.settle();
    must_eq(5, 35, &s1.last, &Some(v2));
    must(5, 36, s1.count == 3);
    s1.poll(); s2.poll();
    must(5, 37, s1.pending && s2.pending);
}
pub fn case_conc_bc_drops() {
    let m = Mutable::new(input::<D>(0));
    let b = Broadcaster::new(m.signal_cloned());
    let mut s1 = Sub::new(b.signal_cloned(), 10);
    s1.settle();
    par2(|| { m.set(input::<D>(1)); drop(m) }, || { s1.poll(); drop(b); drop(s1) });
}

// ------------------------------------------------------------------ cancelable_future
/// wrapped future: ready at poll number `ready` (0: never); ghost 1 counts polls, ghost 2 drops
pub struct Pf { ready: u64, n: u64, d: D }
impl Drop for Pf { fn drop(&mut self) { bump(2) } }
impl Future for Pf {
    type Output = V;
    fn poll(self: Pin<&mut Self>, cx: &mut Context) -> Poll<V> {
        let this = unsafe { self.get_unchecked_mut() };
        bump(1);
        this.n += 1;
        if this.n == this.ready { Poll::Ready(input::<V>(7)) } else { let _ = cx; Poll::Pending }
    }
}
fn cancel(ready: u64) -> (DiscardOnDrop<CancelableFutureHandle>, FSub<futures_signals::CancelableFuture<Pf, impl FnOnce() -> V>>) {
    let d = input::<D>(3);
    let (h, f) = cancelable_future(Pf { ready, n: 0, d: input::<D>(0) }, move || { let _d = d; bump(3); input::<V>(8) });
    (h, FSub::new(f, 10))
}
fn cancelled<F: Future<Output = V>>(f: &mut FSub<F>) {
    let polls = ghost(1);
    if f.pending { must(6, 1, woken(f.n)); }
    f.settle();
    must(6, 2, f.out.is_some());
    must(6, 3, ghost(1) == polls);
    must(6, 4, ghost(3) == 1);
    must(6, 5, ghost(2) == 1);
}
pub fn case_conc_cancel_fresh() {
    let (h, mut f) = cancel(0);
    par2(|| drop(h), || f.poll());
    cancelled(&mut f);
}
pub fn case_conc_cancel_pending() {
    let (h, mut f) = cancel(0);
    f.poll();
    par2(|| DiscardOnDrop::leak(h).discard(), || f.poll());
    cancelled(&mut f);
}
pub fn case_conc_cancel_before() {
    let (h, mut f) = cancel(1);
    drop(h);
    f.poll();
    must(6, 6, ghost(1) == 0 && ghost(3) == 1 && ghost(2) == 1 && f.out.is_some());
}
pub fn case_conc_cancel_wake() {
    let (h, mut f) = cancel(0);
    f.poll(); f.poll();
    drop(h);
    must(6, 7, woken(f.n));
    cancelled(&mut f);
}
pub fn case_conc_cancel_race_ready() {
    let (h, mut f) = cancel(2);
    f.poll();
    par2(|| drop(h), || f.poll());
    if f.out.is_some() { must(6, 8, ghost(3) <= 1 && (ghost(3) == 1) == (ghost(1) == 1)) } else { must(6, 9, false) }
}
pub fn case_conc_cancel_never() {
    let (h, mut f) = cancel(2);
    f.poll();
    must(6, 10, f.pending && f.out.is_none());
    f.poll();
    must(6, 11, f.out.is_some() && ghost(1) == 2 && ghost(3) == 0);
    drop(h);
    must(6, 12, ghost(3) == 0);
}
pub fn case_conc_cancel_leak() {
    let (h, mut f) = cancel(3);
    let h = DiscardOnDrop::leak(h);
    f.poll();
    drop(h);
    must(6, 13, !woken(f.n));
    f.poll(); f.poll();
    must(6, 14, f.out.is_some() && ghost(1) == 3 && ghost(3) == 0);
}
pub fn case_conc_cancel_drop() {
    let (h, mut f) = cancel(0);
    f.poll();
    par2(|| drop(h), || drop(f));
    must(6, 15, ghost(3) == 0 && ghost(2) == 1);
}

// ------------------------------------------------------------------ every operation of Mutable is one step
/// `old`: what an operation saw, `r`: what the replace on the other thread returned
macro_rules! cell_cases { ($($name:ident, |$m:ident| $op:block;)*) => { $(
    pub fn $name() {
        let v0 = input::<V>(0);
        let b = input::<V>(2);
        let m = Mutable::new(v0.clone());
        let ($m, m2) = (m.clone(), m.clone());
        let mut sub = Sub::new(m.signal_cloned(), 10);
        sub.settle();
        let (mut x, mut r) = (None, None);
        par2(|| { x = Some($op); }, || { r = Some(m2.replace(b.clone())); });
        // the first thread stored `a` and saw `old`
        let (old, a) = x.unwrap();
        let r = r.unwrap();
        let end = m.get_cloned();
        must(47, 40, (same(&old, &v0) && same(&r, &a) && same(&end, &b)) || (same(&r, &v0) && same(&old, &b) && same(&end, &a)));
        sub.settle();
        must_eq(47, 41, &sub.last, &Some(end));
    } )* } }
cell_cases! {
    case_conc_cell_replace, |m| { let a = input::<V>(1); (m.replace(a.clone()), a) };
    case_conc_cell_replace_with, |m| { let a = input::<V>(1); let mut seen = None; let r = m.replace_with(|o| { seen = Some(o.clone()); a.clone() }); must_eq(47, 42, &seen, &Some(r.clone())); (r, a) };
    case_conc_cell_set_if, |m| { let a = input::<V>(1); let mut seen = None; m.set_if(a.clone(), |o, n| { must_eq(47, 43, n, &a); seen = Some(o.clone()); true }); (seen.unwrap(), a) };
    case_conc_cell_lock, |m| { let a = input::<V>(1); let mut l = m.lock_mut(); let o = l.clone(); *l = a.clone(); must_eq(47, 44, &*l, &a); (o, a) };
    case_conc_cell_swap, |m| { let a = input::<V>(1); let other = Mutable::new(a.clone()); if pick(2) == 0 { m.swap(&other) } else { other.swap(&m) } (other.get_cloned(), a) };
}
/// a set_neq with an equal value announces nothing, whichever thread comes first
pub fn case_conc_cell_set_neq() {
    let v0 = input::<V>(0);
    let v = input::<V>(1);
    let m = Mutable::new(v0.clone());
    let m2 = m.clone();
    let mut sub = Sub::new(m.signal_cloned(), 10);
    sub.settle();
    let v2 = v.clone();
    assume(v == v2);
    let told = v != v0;
    par2(|| m.set_neq(v), || { m2.set_neq(v2); sub.settle() });
    sub.settle();
    must(47, 45, sub.count == if told { 2 } else { 1 });
}
