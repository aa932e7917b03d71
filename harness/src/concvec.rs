//! Concurrent use of the mutable containers (C20, C21, C22, C46, C07).  Never executed.
use crate::env::*;
use crate::hist::HV;
use futures_signals::signal_vec::{MutableVec, MutableSignalVec};

fn vec1() -> MutableVec<V> { MutableVec::new_with_values(vec![input::<V>(0)]) }
fn sub(m: &MutableVec<V>, n: u64) -> HV<MutableSignalVec<V>> { HV::new(m.signal_vec_cloned(), n) }
fn check(p: u64, code: u64, m: &MutableVec<V>, a: &HV<MutableSignalVec<V>>) { must_eql(p, code, &a.list[..], &m.lock_ref()[..]) }

// subscribing while another thread changes the vector
macro_rules! subs { ($($name:ident, |$m:ident| $op:block;)*) => { $( pub fn $name() {
    let m = vec1();
    let $m = m.clone();
    let mut a = None;
    par2(|| { $op }, || { let mut s = sub(&m, 1); s.settle(21); a = Some(s) });
    let mut a = a.unwrap();
    a.settle(21);
    check(21, 11, &m, &a);
} )* } }
subs! {
    case_conc_vec_sub_push, |m| { m.lock_mut().push_cloned(input(1)); m.lock_mut().push_cloned(input(2)) };
    case_conc_vec_sub_insert, |m| { m.lock_mut().insert_cloned(0, input(1)); m.lock_mut().pop(); };
    case_conc_vec_sub_set, |m| { m.lock_mut().set_cloned(0, input(1)); m.lock_mut().remove(0); };
    case_conc_vec_sub_replace, |m| { m.lock_mut().replace_cloned(vec![input(1), input(2)]); m.lock_mut().swap(0, 1) };
    case_conc_vec_sub_clear, |m| { m.lock_mut().clear(); m.lock_mut().push_cloned(input(1)) };
    case_conc_vec_sub_retain, |m| { m.lock_mut().retain(|_| false); m.lock_mut().extend(vec![input(1), input(2)]) };
}
pub fn case_conc_vec_sub_guard() {
    // everything done under one guard is seen at once
    let m = vec1();
    let m2 = m.clone();
    let mut a = None;
    par2(|| { let mut l = m2.lock_mut(); l.push_cloned(input(1)); l.push_cloned(input(2)) }, || {
        let mut s = sub(&m, 1);
        s.poll1(21);
        must(21, 12, s.list.len() == 1 || s.list.len() == 3);
        a = Some(s)
    });
    let mut a = a.unwrap();
    a.settle(21);
    check(21, 13, &m, &a);
}
pub fn case_conc_vec_sub_sub() {
    let m = vec1();
    let m2 = m.clone();
    let (mut a, mut b) = (None, None);
    par2(|| { a = Some(sub(&m2, 1)) }, || { b = Some(sub(&m, 2)) });
    m.lock_mut().push_cloned(input(1));
    let (mut a, mut b) = (a.unwrap(), b.unwrap());
    a.settle(21); b.settle(21);
    check(21, 14, &m, &a); check(21, 14, &m, &b);
}

// a settled subscriber, polled while the vector changes: every change arrives, and the task is woken for it
macro_rules! polls { ($($name:ident, |$m:ident| $op:block;)*) => { $( pub fn $name() {
    let m = vec1();
    let $m = m.clone();
    let mut a = sub(&m, 1);
    if pick(2) == 0 { a.settle(21) }
    par2(|| { $op }, || { a.settle(20); a.settle(20) });
    a.settle(20);
    check(20, 15, &m, &a);
    drop(m); drop($m);
    a.settle(20);
    must(21, 16, a.ended);
} )* } }
polls! {
    case_conc_vec_w_push, |m| { m.lock_mut().push_cloned(input(1)); m.lock_mut().push_cloned(input(2)) };
    case_conc_vec_w_ops, |m| { m.lock_mut().insert_cloned(0, input(1)); m.lock_mut().remove(1); };
    case_conc_vec_w_move, |m| { let mut l = m.lock_mut(); l.push_cloned(input(1)); l.move_from_to(0, 1); };
}
pub fn case_conc_vec_w_drop() {
    let m = vec1();
    let mut a = sub(&m, 1);
    let v: V = input(1);
    let w = v.clone();
    if pick(2) == 0 { a.settle(21) }
    par2(|| { m.lock_mut().push_cloned(v); drop(m) }, || { a.settle(21) });
    a.settle(21);
    must(21, 17, a.ended);
    must(21, 18, a.list.len() == 2);
    must_eq(20, 19, &a.list[1], &w);
}
pub fn case_conc_vec_w_drop2() {
    let m = vec1();
    let m2 = m.clone();
    let mut a = sub(&m, 1);
    a.settle(21);
    par2(|| drop(m), || drop(m2));
    a.settle(21);
    must(21, 20, a.ended);
}
// two writers: every subscriber sees one order, the one that the contents have
macro_rules! writers { ($($name:ident, |$m:ident, $n:ident| $x:block, $y:block;)*) => { $( pub fn $name() {
    let m = vec1();
    let ($m, $n) = (m.clone(), m.clone());
    let mut a = sub(&m, 1);
    a.settle(20);
    let mut b = sub(&m, 2);
    par2(|| { $x }, || { $y });
    a.settle(20); b.settle(20);
    check(20, 21, &m, &a);
    check(20, 22, &m, &b);
} )* } }
writers! {
    case_conc_vec_w_two_push, |m, n| { m.lock_mut().push_cloned(input(1)); m.lock_mut().push_cloned(input(2)) }, { n.lock_mut().push_cloned(input(3)) };
    case_conc_vec_w_two_insert, |m, n| { m.lock_mut().insert_cloned(0, input(1)) }, { n.lock_mut().insert_cloned(0, input(3)); n.lock_mut().set_cloned(0, input(4)) };
    case_conc_vec_w_two_replace, |m, n| { m.lock_mut().replace_cloned(vec![input(1)]) }, { n.lock_mut().push_cloned(input(3)); n.lock_mut().clear() };
    case_conc_vec_w_two_pop, |m, n| { m.lock_mut().pop(); }, { n.lock_mut().pop(); n.lock_mut().push_cloned(input(3)) };
    case_conc_vec_w_read, |m, n| { m.lock_mut().push_cloned(input(1)); }, { let l = n.lock_ref(); must(20, 23, l.len() == 1 || l.len() == 2); };
}
// dropped subscribers are forgotten by the next change that everybody is told of
pub fn case_conc_vec_prune() {
    let m = vec1();
    let m2 = m.clone();
    let a = sub(&m, 1);
    let mut b = sub(&m, 2);
    par2(|| { m2.lock_mut().push_cloned(input(1)) }, || drop(a));
    m.lock_mut().push_cloned(input(2));
    must(46, 24, chans() == 1);
    b.settle(46);
    check(46, 25, &m, &b);
}

// ------------------------------------------------------------------ MutableBTreeMap
use crate::histmap::{HM, L, contents, build};
use futures_signals::signal_map::{MutableBTreeMap, MutableSignalMap};
fn map1() -> MutableBTreeMap<u8, V> { let l: L<V> = vec![(1, input(0))]; MutableBTreeMap::with_values(build(&l)) }
fn msub(m: &MutableBTreeMap<u8, V>, n: u64) -> HM<MutableSignalMap<u8, V>> { HM::new(m.signal_map_cloned(), n) }
fn mcheck(p: u64, code: u64, m: &MutableBTreeMap<u8, V>, a: &HM<MutableSignalMap<u8, V>>) { must_eql(p, code, &a.list[..], &contents(m)[..]) }
fn two() -> std::collections::BTreeMap<u8, V> { let l: L<V> = vec![(0, input(3)), (2, input(4))]; build(&l) }

macro_rules! msubs { ($($name:ident, |$m:ident| $op:block;)*) => { $( pub fn $name() {
    let m = map1();
    let $m = m.clone();
    let mut a = None;
    par2(|| { $op }, || { let mut s = msub(&m, 1); s.settle(21); a = Some(s) });
    let mut a = a.unwrap();
    a.settle(21);
    mcheck(21, 51, &m, &a);
} )* } }
msubs! {
    case_conc_map_sub_insert, |m| { m.lock_mut().insert_cloned(0, input(1)); m.lock_mut().insert_cloned(1, input(2)); };
    case_conc_map_sub_remove, |m| { m.lock_mut().remove(&1); m.lock_mut().insert_cloned(2, input(1)); };
    case_conc_map_sub_replace, |m| { m.lock_mut().replace_cloned(two()); m.lock_mut().remove(&2); };
    case_conc_map_sub_clear, |m| { m.lock_mut().clear(); m.lock_mut().insert_cloned(1, input(1)); };
}
pub fn case_conc_map_sub_guard() {
    let m = map1();
    let m2 = m.clone();
    let mut a = None;
    par2(|| { let mut l = m2.lock_mut(); l.insert_cloned(0, input(1)); l.insert_cloned(2, input(2)); }, || {
        let mut s = msub(&m, 1);
        s.poll1(21);
        must(21, 52, s.list.len() == 1 || s.list.len() == 3);
        a = Some(s)
    });
    let mut a = a.unwrap();
    a.settle(21);
    mcheck(21, 53, &m, &a);
}
pub fn case_conc_map_sub_keys() {
    let m = map1();
    let m2 = m.clone();
    let mut a = None;
    par2(|| { m2.lock_mut().insert_cloned(0, input(1)); m2.lock_mut().remove(&1); }, || { let mut s = HV::new(m.signal_vec_keys(), 1); s.settle(21); a = Some(s) });
    let mut a = a.unwrap();
    a.settle(21);
    must_eql(21, 54, &a.list[..], &crate::histmap::keys(&contents(&m))[..]);
}
macro_rules! mwriters { ($($name:ident, |$m:ident, $n:ident| $x:block, $y:block;)*) => { $( pub fn $name() {
    let m = map1();
    let ($m, $n) = (m.clone(), m.clone());
    let mut a = msub(&m, 1);
    a.settle(22);
    let mut b = msub(&m, 2);
    par2(|| { $x }, || { $y });
    a.settle(22); b.settle(22);
    mcheck(22, 61, &m, &a);
    mcheck(22, 62, &m, &b);
} )* } }
mwriters! {
    case_conc_map_w_insert, |m, n| { m.lock_mut().insert_cloned(0, input(1)); m.lock_mut().remove(&0); }, { n.lock_mut().insert_cloned(0, input(3)); };
    case_conc_map_w_replace, |m, n| { m.lock_mut().replace_cloned(two()) }, { n.lock_mut().remove(&1); n.lock_mut().insert_cloned(0, input(1)); };
    case_conc_map_w_clear, |m, n| { m.lock_mut().clear() }, { n.lock_mut().insert_cloned(1, input(1)); n.lock_mut().insert_cloned(2, input(1)); };
    case_conc_map_w_read, |m, n| { m.lock_mut().insert_cloned(0, input(1)); }, { let l = n.lock_ref(); must(22, 63, l.len() == 1 || l.len() == 2); };
}
pub fn case_conc_map_w_poll() {
    let m = map1();
    let m2 = m.clone();
    let mut a = msub(&m, 1);
    if pick(2) == 0 { a.settle(21) }
    par2(|| { m2.lock_mut().insert_cloned(0, input(1)); m2.lock_mut().remove(&1); }, || { a.settle(22); a.settle(22) });
    a.settle(22);
    mcheck(22, 64, &m, &a);
    drop(m); drop(m2);
    a.settle(22);
    must(21, 65, a.ended);
}
pub fn case_conc_map_w_drop() {
    let m = map1();
    let mut a = msub(&m, 1);
    if pick(2) == 0 { a.settle(21) }
    par2(|| { m.lock_mut().insert_cloned(2, input(1)); drop(m) }, || { a.settle(21) });
    a.settle(21);
    must(21, 66, a.ended);
    must(21, 67, a.list.len() == 2);
}
pub fn case_conc_map_prune() {
    let m = map1();
    let m2 = m.clone();
    let a = msub(&m, 1);
    let mut b = msub(&m, 2);
    par2(|| { m2.lock_mut().insert_cloned(0, input(1)); }, || drop(a));
    m.lock_mut().insert_cloned(0, input(2));
    must(46, 68, chans() == 1);
    b.settle(46);
    mcheck(46, 69, &m, &b);
}

pub fn case_conc_vec_fmt() {
    let v = MutableVec::<V>::new();
    let (v2, sub) = (v.clone(), v.signal_vec_cloned());
    par2(|| { let _ = std::fmt::Debug::fmt(&v, formatter()); }, || v2.lock_mut().push_cloned(input::<V>(1)));
    drop(sub);
}
pub fn case_conc_map_fmt() {
    let v = MutableBTreeMap::<u8, V>::new();
    let (v2, sub) = (v.clone(), v.signal_map_cloned());
    par2(|| { let _ = std::fmt::Debug::fmt(&v, formatter()); }, || { v2.lock_mut().insert_cloned(1, input::<V>(1)); });
    drop(sub);
}

// ------------------------------------------------------------------ the same through the other ways to subscribe
fn vecc() -> MutableVec<C> { MutableVec::new_with_values(vec![input::<C>(0)]) }
fn mapc() -> MutableBTreeMap<u8, C> { let l: L<C> = vec![(1, input(0))]; MutableBTreeMap::with_values(build(&l)) }
macro_rules! subc { ($($name:ident, |$m:ident| $op:block;)*) => { $( pub fn $name() {
    let m = vecc();
    let $m = m.clone();
    let mut a = None;
    par2(|| { $op }, || { let mut s = HV::new(m.signal_vec(), 1); s.settle(21); a = Some(s) });
    let mut a = a.unwrap();
    a.settle(21);
    must_eql(21, 81, &a.list[..], &m.lock_ref()[..]);
} )* } }
subc! {
    case_conc_vec_subc_push, |m| { m.lock_mut().push(input(1)); m.lock_mut().insert(0, input(2)); };
    case_conc_vec_subc_set, |m| { m.lock_mut().set(0, input(1)); m.lock_mut().remove(0); };
    case_conc_vec_subc_replace, |m| { m.lock_mut().replace(vec![input(1), input(2)]); m.lock_mut().swap(0, 1) };
}
macro_rules! msubc { ($($name:ident, $sub:ident, |$m:ident| $op:block;)*) => { $( pub fn $name() {
    let m = mapc();
    let $m = m.clone();
    let mut a = None;
    par2(|| { $op }, || { let mut s = $sub(&m); s.settle(21); a = Some(s) });
    let mut a = a.unwrap();
    a.settle(21);
    $sub!(m, a);
} )* } }
fn by_map(m: &MutableBTreeMap<u8, C>) -> HM<MutableSignalMap<u8, C>> { HM::new(m.signal_map(), 1) }
fn by_keys(m: &MutableBTreeMap<u8, C>) -> HV<futures_signals::signal_map::MutableBTreeMapKeys<u8, C>> { HV::new(m.signal_vec_keys(), 1) }
fn by_entries(m: &MutableBTreeMap<u8, C>) -> HV<futures_signals::signal_map::MutableBTreeMapEntries<u8, C>> { HV::new(m.signal_vec_entries(), 1) }
fn by_entries_cloned(m: &MutableBTreeMap<u8, C>) -> HV<futures_signals::signal_map::MutableBTreeMapEntries<u8, C>> { HV::new(m.entries_cloned(), 1) }
macro_rules! by_map { ($m:ident, $a:ident) => { must_eql(21, 82, &$a.list[..], &contents(&$m)[..]) } }
macro_rules! by_entries { ($m:ident, $a:ident) => { must_eql(21, 83, &$a.list[..], &contents(&$m)[..]) } }
macro_rules! by_entries_cloned { ($m:ident, $a:ident) => { must_eql(21, 84, &$a.list[..], &contents(&$m)[..]) } }
macro_rules! by_keys { ($m:ident, $a:ident) => { must_eql(21, 85, &$a.list[..], &crate::histmap::keys(&contents(&$m))[..]) } }
msubc! {
    case_conc_map_subc_insert, by_map, |m| { m.lock_mut().insert(0, input(1)); m.lock_mut().insert(1, input(2)); };
    case_conc_map_subc_replace, by_map, |m| { m.lock_mut().replace(build(&vec![(0, input::<C>(3)), (2, input(4))])); m.lock_mut().remove(&2); };
    case_conc_map_keys_insert, by_keys, |m| { m.lock_mut().insert(0, input(1)); m.lock_mut().remove(&1); };
    case_conc_map_entries_insert, by_entries, |m| { m.lock_mut().insert(0, input(1)); m.lock_mut().insert(1, input(2)); };
    case_conc_map_entriesc_insert, by_entries_cloned, |m| { m.lock_mut().insert(0, input(1)); m.lock_mut().insert(1, input(2)); };
}
