//! The lock guards of the containers read like the contents: the same operation is applied to the guard and to a copy.
use crate::env::*;
use crate::hist::HV;
use crate::histmap::L;
use futures_signals::signal_vec::{MutableVec, MutableVecLockRef, MutableVecLockMut};
use futures_signals::signal_map::{MutableBTreeMap, MutableBTreeMapLockRef, MutableBTreeMapLockMut};
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::hash::Hash;

macro_rules! view_vec { ($name:ident, $lock:ident, $G:ident) => {
    pub fn $name() {
        let l: Vec<V> = input(0);
        let k: Vec<V> = input(1);
        let (a, b) = (MutableVec::new_with_values(l.clone()), MutableVec::from(k.clone()));
        let n = l.len();
        let (g, h) = (a.$lock(), b.$lock());
        match pick(13) {
            0 => must(48, 1, (g == h) == (l[..] == k[..])),
            1 => must(48, 2, (g != h) == (l[..] != k[..])),
            2 => must(48, 3, (g == &k[..]) == (l[..] == k[..])),
            3 => must(48, 4, (g != &k[..]) == (l[..] != k[..])),
            4 => must(48, 5, same(&g.partial_cmp(&h), &l[..].partial_cmp(&k[..]))),
            5 => must(48, 6, same(&g.cmp(&h), &l[..].cmp(&k[..]))),
            6 => {
                let (mut x, mut y) = (Hs::new(), Hs::new());
                g.hash(&mut x);
                l[..].hash(&mut y);
                must(48, 7, same(&x, &y));
            }
            7 => must_eql(48, 8, g.as_slice(), &l),
            8 => { let x: &[V] = g.borrow(); must_eql(48, 9, x, &l) }
            9 => { let x: &[V] = g.as_ref(); must_eql(48, 10, x, &l); let y: &$G<V> = g.as_ref(); must_eql(48, 11, y, &l) }
            10 => { assume(n > 0); let i = pick(n); must_eq(48, 12, &g[i], &l[i]); must_eql(48, 13, &g[i..], &l[i..]); must_eql(48, 14, &g[..=i], &l[..=i]) }
            11 => { must(48, 15, g.len() == n); must(48, 16, g.is_empty() == (n == 0)); must(48, 17, same(&g.first(), &l.first())); must(48, 18, same(&g.last(), &l.last())) }
            _ => { let mut i = 0; for x in g.iter() { must_eq(48, 19, x, &l[i]); i += 1 } must(48, 20, i == n) }
        }
    }
} }
view_vec!(case_view_vec_ref, lock_ref, MutableVecLockRef);
view_vec!(case_view_vec_mut, lock_mut, MutableVecLockMut);

/// changing the capacity changes nothing else, and nobody is told
pub fn case_view_vec_cap() {
    let l: Vec<V> = input(0);
    let v = if pick(2) == 0 { MutableVec::from(l.clone()) } else { MutableVec::with_capacity(l.len()) };
    let l = if v.lock_ref().is_empty() { vec![] } else { l };
    let mut a = HV::new(v.signal_vec_cloned(), 1);
    a.settle(48);
    let n = v.lock_ref().len();
    {
        let mut g = v.lock_mut();
        must(48, 61, g.capacity() >= n);
        match pick(3) { 0 => g.reserve(2), 1 => g.reserve_exact(2), _ => g.shrink_to_fit() }
        must_eql(48, 62, &g, &l);
    }
    must_eql(48, 63, &v.lock_ref(), &l);
    must(48, 64, v.lock_ref().capacity() >= n);
    must(48, 65, !woken(1));
    must(48, 66, !a.poll1(48));
    must_eql(48, 67, &a.list, &l);
}

fn map_of(l: &Vec<V>, first: u8) -> BTreeMap<u8, V> {
    let mut m = BTreeMap::new();
    let mut i = 0;
    while i < l.len() { m.insert(first + i as u8, l[i].clone()); i += 1 }
    m
}
macro_rules! view_map { ($name:ident, $lock:ident, $G:ident) => {
    pub fn $name() {
        let l: Vec<V> = input(0);
        let k: Vec<V> = input(1);
        let m = map_of(&l, 1);
        let p = map_of(&k, 1 + pick(2) as u8);
        let (a, b) = (MutableBTreeMap::with_values(m.clone()), MutableBTreeMap::from(p.clone()));
        let n = l.len();
        let (g, h) = (a.$lock(), b.$lock());
        match pick(11) {
            0 => must(48, 31, (g == h) == (m == p)),
            1 => must(48, 32, (g != h) == (m != p)),
            2 => must(48, 33, (g == p) == (m == p)),
            3 => must(48, 34, (g != p) == (m != p)),
            4 => must(48, 35, same(&g.partial_cmp(&h), &m.partial_cmp(&p))),
            5 => must(48, 36, same(&g.partial_cmp(&p), &m.partial_cmp(&p))),
            6 => must(48, 37, same(&g.cmp(&h), &m.cmp(&p))),
            7 => {
                let (mut x, mut y) = (Hs::new(), Hs::new());
                g.hash(&mut x);
                m.hash(&mut y);
                must(48, 38, same(&x, &y));
            }
            8 => { assume(n > 0); let i = pick(n); let key = 1 + i as u8; must_eq(48, 39, &g[&key], &l[i]) }
            9 => { must(48, 40, g.len() == n); must(48, 41, g.is_empty() == (n == 0)); let i = pick(4) as u8; must(48, 42, g.contains_key(&i) == m.contains_key(&i)); must(48, 43, same(&g.get(&i), &m.get(&i))) }
            _ => { let mut i = 0; for (key, x) in g.iter() { must(48, 44, *key == 1 + i as u8); must_eq(48, 45, x, &l[i]); i += 1 } must(48, 46, i == n) }
        }
    }
} }
view_map!(case_view_map_ref, lock_ref, MutableBTreeMapLockRef);
view_map!(case_view_map_mut, lock_mut, MutableBTreeMapLockMut);
/// How the containers come into being and are shared.
pub fn case_view_new() {
    let l: Vec<V> = input(0);
    match pick(9) {
        0 => must(48, 60, MutableVec::<V>::new().lock_ref().is_empty()),
        1 => must(48, 61, MutableVec::<V>::default().lock_ref().is_empty()),
        2 => must(48, 62, MutableVec::<V>::with_capacity(5).lock_ref().is_empty()),
        3 => must_eql(48, 63, &MutableVec::from(l.clone()).lock_ref(), &l),
        4 => must_eql(48, 64, &MutableVec::new_with_values(l.clone()).lock_ref(), &l),
        5 => { let a = MutableVec::new_with_values(l.clone()); let b = a.clone(); let v = input::<V>(1); a.lock_mut().push_cloned(v.clone()); let mut e = l.clone(); e.push(v); must_eql(48, 65, &b.lock_ref(), &e); }
        6 => must(48, 66, MutableBTreeMap::<u8, V>::new().lock_ref().is_empty()),
        7 => must(48, 67, MutableBTreeMap::<u8, V>::default().lock_ref().is_empty()),
        _ => { let m = map_of(&l, 1); let a = MutableBTreeMap::from(m.clone()); let b = a.clone(); let v = input::<V>(1); a.lock_mut().insert_cloned(9, v.clone()); let mut e = m; e.insert(9, v); must(48, 68, same(&*b.lock_ref(), &e)); }
    }
}
