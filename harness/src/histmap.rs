//! MutableBTreeMap under every history of operations; keys are concrete small integers, values are opaque.
use crate::env::*;
use crate::hist::HV;
use futures_signals::signal_map::{MutableBTreeMap, MutableSignalMap, SignalMap, MapDiff};
use futures_signals::signal_vec::SignalVec;
use std::collections::BTreeMap;
use std::pin::Pin;
use std::task::Poll;

pub type L<T> = Vec<(u8, T)>;
pub fn find<T>(l: &L<T>, k: u8) -> Option<usize> {
    let mut i = 0;
    while i < l.len() { if l[i].0 == k { return Some(i) } i += 1 }
    None
}
pub fn put<T>(l: &mut L<T>, k: u8, v: T) {
    let mut i = 0;
    while i < l.len() && l[i].0 < k { i += 1 }
    if i < l.len() && l[i].0 == k { l[i].1 = v } else { l.insert(i, (k, v)) }
}
/// The documented effect of a diff; a diff that does not fit the contents is a violation of `p`.
pub fn apply<T>(p: u64, l: &mut L<T>, d: MapDiff<u8, T>) {
    match d {
        MapDiff::Replace { entries } => {
            let mut i = 0;
            while i + 1 < entries.len() { must(p, 80, entries[i].0 < entries[i + 1].0); i += 1 }
            *l = entries
        }
        MapDiff::Insert { key, value } => { must(p, 81, find(l, key).is_none()); put(l, key, value) }
        MapDiff::Update { key, value } => { must(p, 82, find(l, key).is_some()); put(l, key, value) }
        MapDiff::Remove { key } => { let i = find(l, key); must(p, 83, i.is_some()); l.remove(i.unwrap()); }
        MapDiff::Clear {} => l.clear(),
    }
}
pub struct HM<S: SignalMap<Key = u8>> { pub s: S, pub n: u64, pub list: L<S::Value>, pub pending: bool, pub ended: bool, pub lag: usize }
impl<S: SignalMap<Key = u8> + Unpin> HM<S> {
    pub fn new(s: S, n: u64) -> Self { HM { s, n, list: Vec::new(), pending: false, ended: false, lag: 0 } }
    pub fn poll1(&mut self, p: u64) -> bool {
        unwake(self.n);
        match Pin::new(&mut self.s).poll_map_change(cxn(self.n)) {
            Poll::Pending => { self.pending = true; false }
            Poll::Ready(None) => { self.ended = true; false }
            Poll::Ready(Some(d)) => { apply(p, &mut self.list, d); true }
        }
    }
    pub fn settle(&mut self, p: u64) {
        self.lag = 0;
        if self.ended || (self.pending && !woken(self.n)) { return }
        while self.poll1(p) {}
    }
}
pub fn any_map<T>() -> L<T> {
    let mut l = Vec::new();
    let mut k = 0;
    while k <= nmax() { if l.len() < nmax() && pick(2) == 1 { l.push((k as u8, input(0))) } k += 1 }
    l
}
pub fn build<T: Clone>(l: &L<T>) -> BTreeMap<u8, T> {
    let mut m = BTreeMap::new();
    let mut i = 0;
    while i < l.len() { m.insert(l[i].0, l[i].1.clone()); i += 1 }
    m
}
pub fn contents<T: Clone>(m: &MutableBTreeMap<u8, T>) -> L<T> {
    let mut r = Vec::new();
    for (k, v) in m.lock_ref().iter() { r.push((*k, v.clone())) }
    r
}
pub fn keys<T>(l: &L<T>) -> Vec<u8> {
    let mut r = Vec::new();
    let mut i = 0;
    while i < l.len() { r.push(l[i].0); i += 1 }
    r
}

macro_rules! hist_map { ($name:ident, $T:ty, $insert:ident, $replace:ident, $signal:ident, $entries:ident, $views:expr) => {
    pub fn $name() {
        let mut ghost: L<$T> = any_map();
        let m: MutableBTreeMap<u8, $T> = if ghost.is_empty() { MutableBTreeMap::new() } else { MutableBTreeMap::with_values(build(&ghost)) };
        let mut a = None;
        let mut b: Option<HM<MutableSignalMap<u8, $T>>> = None;
        let mut ks = None;
        let mut es = None;
        if $views { ks = Some(HV::new(m.signal_vec_keys(), 3)); es = Some(HV::new(m.$entries(), 4)) }
        else { a = Some(HM::new(m.$signal(), 1)) }
        let mut stale = 0;
        loop {
            also(if stale > 0 { 46 } else { 0 });
            checkpoint();
            match pick(if $views { 5 } else { 8 }) {
                0 => {
                    let k = pick(nmax() + 1) as u8; let v: $T = input(0);
                    let i = find(&ghost, k);
                    assume(i.is_some() || ghost.len() < nmax());
                    let x = m.lock_mut().$insert(k, v.clone());
                    let y = match i { Some(i) => Some(ghost[i].1.clone()), None => None };
                    must_eq(22, 1, &x, &y);
                    put(&mut ghost, k, v);
                    // everybody was told, so the dropped subscribers are forgotten
                    if !$views { must(46, 30, chans() == 1 + b.is_some() as u64); stale = 0 }
                }
                1 => {
                    let k = pick(nmax() + 1) as u8;
                    let x = m.lock_mut().remove(&k);
                    let y = match find(&ghost, k) { Some(i) => Some(ghost.remove(i).1), None => None };
                    must_eq(22, 2, &x, &y);
                }
                2 => { ghost = any_map(); m.lock_mut().$replace(build(&ghost)) }
                3 => { m.lock_mut().clear(); ghost.clear() }
                4 => {
                    drop(m);
                    if let Some(s) = &mut a { s.settle(22); must(21, 31, s.ended); must_eql(22, 3, &s.list[..], &ghost[..]) }
                    if let Some(s) = &mut b { s.settle(22); must(21, 32, s.ended); must_eql(22, 4, &s.list[..], &ghost[..]) }
                    if let Some(s) = &mut ks { s.settle(32); must(32, 33, s.ended); must_eql(32, 5, &s.list[..], &keys(&ghost)[..]) }
                    if let Some(s) = &mut es { s.settle(32); must(32, 34, s.ended); must_eql(32, 6, &s.list[..], &ghost[..]) }
                    return
                }
                5 => {
                    assume(b.is_none());
                    let mut s = HM::new(m.$signal(), 2);
                    if pick(2) == 0 {
                        must(21, 35, s.poll1(21) != ghost.is_empty());
                        must_eql(21, 36, &s.list[..], &ghost[..]);
                        s.settle(21);
                        must_eql(21, 37, &s.list[..], &ghost[..]);
                    }
                    b = Some(s)
                }
                6 => { assume(b.is_some() && stale < 1); stale += 1; b = None }
                _ => { assume(stale < 1); stale += 1; a = Some(HM::new(m.$signal(), 1)) }
            }
            must_eql(22, 7, &contents(&m)[..], &ghost[..]);
            if let Some(s) = &mut a { s.settle(22); must_eql(22, 8, &s.list[..], &ghost[..]) }
            if let Some(s) = &mut b { s.lag += 1; if s.lag > 1 || pick(2) == 0 { s.settle(22); must_eql(22, 9, &s.list[..], &ghost[..]) } }
            if let Some(s) = &mut ks { s.lag += 1; if s.lag > 1 || pick(2) == 0 { s.settle(32); must_eql(32, 10, &s.list[..], &keys(&ghost)[..]) } }
            if let Some(s) = &mut es { s.lag += 1; if s.lag > 1 || pick(2) == 0 { s.settle(32); must_eql(32, 11, &s.list[..], &ghost[..]) } }
        }
    }
} }
hist_map!(case_hist_map_copy, C, insert, replace, signal_map, signal_vec_entries, false);
hist_map!(case_hist_map_clone, V, insert_cloned, replace_cloned, signal_map_cloned, entries_cloned, false);
hist_map!(case_hist_map_views_copy, C, insert, replace, signal_map, signal_vec_entries, true);
hist_map!(case_hist_map_views_clone, V, insert_cloned, replace_cloned, signal_map_cloned, entries_cloned, true);
