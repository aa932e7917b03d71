//! Mutable under every history of operations: the harness keeps its own copy of the value and of who must be told.
use crate::env::*;
use futures_signals::signal::{Mutable, Signal};
use std::pin::Pin;
use std::task::Poll;

/// A subscriber that is polled the way an executor does.
pub struct HS<S: Signal> { pub s: S, pub n: u64, pub last: Option<S::Item>, pub polls: usize, pub pending: bool, pub ended: bool }
impl<S: Signal + Unpin> HS<S> {
    pub fn new(s: S, n: u64) -> Self { let mut r = HS { s, n, last: None, polls: 0, pending: false, ended: false }; while r.poll1() {} r }
    pub fn poll1(&mut self) -> bool {
        unwake(self.n);
        match Pin::new(&mut self.s).poll_change(cxn(self.n)) {
            Poll::Pending => { self.pending = true; false }
            Poll::Ready(None) => { self.ended = true; false }
            Poll::Ready(Some(v)) => { self.pending = false; self.last = Some(v); self.polls += 1; true }
        }
    }
    /// `told`: whether a change must have been announced
    pub fn judge(&mut self, told: bool, now: &S::Item) {
        must(47, 20, self.pending && woken(self.n) == told);
        self.polls = 0;
        while self.poll1() {}
        must(47, 21, self.polls == told as usize);
        self.polls = 0;
        if let Some(v) = &self.last { must_eq(47, 22, v, now) }
    }
}

macro_rules! hist_mut { ($name:ident, $T:ty, $get:ident, $signal:ident) => {
    pub fn $name() {
        let v: $T = input(0);
        let mut ghost = v.clone();
        let m = match pick(2) { 0 => Mutable::new(v), _ => Mutable::from(v) };
        let m2 = m.clone();
        let ro = m.read_only();
        let w: $T = input(1);
        let mut ghost2 = w.clone();
        let other = Mutable::new(w);
        let mut a = HS::new(m2.$signal(), 1);
        let mut b = HS::new(ro.signal_ref(|x: &$T| x.clone()), 2);
        let mut c = HS::new(other.$signal(), 3);
        must_eq(47, 1, &a.last, &Some(ghost.clone()));
        must_eq(47, 1, &b.last, &Some(ghost.clone()));
        let mut unpruned = false; // a dropped subscriber is remembered until the next change
        loop {
            checkpoint();
            let h = if pick(2) == 0 { &m } else { &m2 };
            let mut told = true;
            let mut told2 = false;
            match pick(13) {
                0 => { let v: $T = input(0); h.set(v.clone()); ghost = v }
                1 => { let v: $T = input(0); let x = h.replace(v.clone()); must_eq(47, 2, &x, &ghost); ghost = v }
                2 => {
                    let v: $T = input(0); let w: $T = input(0);
                    let seen = &mut None;
                    let inner = pick(2) == 0;
                    let (v2, w2) = (v.clone(), w.clone());
                    let x = h.replace_with(|old| { *seen = Some(old.clone()); if inner { *old = w2 } v2 });
                    must_eq(47, 3, seen, &Some(ghost.clone()));
                    must_eq(47, 4, &x, if inner { &w } else { &ghost });
                    ghost = v
                }
                3 => {
                    let v: $T = input(0);
                    told = pick(2) == 0;
                    let seen = &mut None;
                    h.set_if(v.clone(), |old, new| { *seen = Some((old.clone(), new.clone())); told });
                    must_eq(47, 5, seen, &Some((ghost.clone(), v.clone())));
                    if told { ghost = v }
                }
                4 => { let v: $T = input(0); told = ghost != v; h.set_neq(v.clone()); if told { ghost = v } }
                5 => { if pick(2) == 0 { h.swap(&other) } else { other.swap(h) } std::mem::swap(&mut ghost, &mut ghost2); told2 = true }
                6 => { m.swap(&m2); told = false }
                7 => { let v: $T = input(0); { let mut l = h.lock_mut(); must_eq(47, 6, &*l, &ghost); *l = v.clone(); must_eq(47, 7, &*l, &v); } ghost = v }
                8 => { { let l = h.lock_mut(); must_eq(47, 8, &*l, &ghost); } told = false }
                9 => { { let mut l = h.lock_mut(); let _ = &mut *l; } }
                10 => { must_eq(47, 9, &h.$get(), &ghost); must_eq(47, 9, &ro.$get(), &ghost); must_eq(47, 10, &*h.lock_ref(), &ghost); must_eq(47, 10, &*ro.lock_ref(), &ghost); told = false }
                11 => { let x = h.clone(); let r = ro.clone(); must_eq(47, 9, &x.$get(), &ghost); must_eq(47, 9, &r.$get(), &ghost); told = false }
                _ => { assume(!unpruned); unpruned = true; let s = HS::new(h.$signal(), 4); must_eq(47, 11, &s.last, &Some(ghost.clone())); told = false }
            }
            must_eq(47, 12, &ro.$get(), &ghost);
            must_eq(47, 13, &other.$get(), &ghost2);
            if told { unpruned = false }
            a.judge(told, &ghost);
            b.judge(told, &ghost);
            c.judge(told2, &ghost2);
        }
    }
} }
hist_mut!(case_hist_mut_copy, C, get, signal);
hist_mut!(case_hist_mut_clone, V, get_cloned, signal_cloned);
