use crate::env::*;
use futures_signals::signal_vec::{self, SignalVec, SignalVecExt, VecDiff};
use futures_signals::signal::{self, SignalExt, Mutable, ReadOnlyMutable};
use std::pin::Pin;

fn v() -> Ve<V> { input::<Ve<V>>(0) }

// ---- C23
pub fn case_vec_map() { drive_vec(v().map(|x| cb::<V, W>(0, x))) }
pub fn case_vec_map_signal() { drive_vec(v().map_signal(|x| cb::<V, In<W>>(0, x))) }
pub fn case_vec_mut_ref() { drive_vec(&mut Mv(v())) }
pub fn case_vec_box() { drive_vec(Box::new(Mv(v()))) }
pub fn case_vec_pin() { drive_vec(Box::pin(v())) }
pub fn case_vec_boxed() { drive_vec(input::<Ve<V>>(0).boxed()) }
pub fn case_vec_boxed_local() { drive_vec(input::<Ve<V>>(0).boxed_local()) }
pub fn case_vec_poll_unpin() {
    let mut s = Mv(v());
    loop { begin_poll(&mut s); if end_poll(s.poll_vec_change_unpin(cx())) { break } }
}
// ---- C24
pub fn case_vec_filter() { drive_vec(v().filter(|x| cbr::<V, bool>(0, x))) }
pub fn case_vec_filter_map() { drive_vec(v().filter_map(|x| cb::<V, Option<W>>(0, x))) }
pub fn case_vec_filter_signal() { drive_vec(v().filter_signal_cloned(|x| cbr::<V, In<bool>>(0, x))) }
// ---- C25
pub fn case_vec_chain() { drive_vec(input::<Ve<V>>(0).chain(input::<Ve<V>>(1))) }
// ---- C26
pub fn case_vec_flatten() { drive_vec(input::<Ve<Ve<V>>>(0).flatten()) }
// ---- C27
pub fn case_vec_enumerate() { drive_enum(v().enumerate()) }
fn drive_enum<S: SignalVec<Item = (ReadOnlyMutable<Option<usize>>, V)>>(s: S) {
    let mut s = s;
    let mut list: Vec<(ReadOnlyMutable<Option<usize>>, V)> = Vec::new();
    let mut old: Vec<(ReadOnlyMutable<Option<usize>>, V)> = Vec::new();
    loop {
        begin_poll(&mut s);
        let r = unsafe { Pin::new_unchecked(&mut s) }.poll_vec_change(cx());
        let r = match r {
            std::task::Poll::Ready(Some(d)) => {
                apply_enum(&mut list, &mut old, d);
                std::task::Poll::Ready(Some(()))
            },
            std::task::Poll::Ready(None) => std::task::Poll::Ready(None),
            std::task::Poll::Pending => std::task::Poll::Pending,
        };
        must_indexes(&list, &old);
        old.clear();
        if end_poll(r) { break }
    }
}
fn apply_enum<T>(l: &mut Vec<T>, old: &mut Vec<T>, d: VecDiff<T>) {
    match d {
        VecDiff::Replace { values } => { old.append(l); *l = values },
        VecDiff::InsertAt { index, value } => l.insert(index, value),
        VecDiff::UpdateAt { index, value } => { l[index] = value } // the position keeps its index
        VecDiff::RemoveAt { index } => { old.push(l.remove(index)); }
        VecDiff::Move { old_index, new_index } => { let v = l.remove(old_index); l.insert(new_index, v) }
        VecDiff::Push { value } => l.push(value),
        VecDiff::Pop {} => { old.push(l.pop().unwrap()); }
        VecDiff::Clear {} => old.append(l),
    }
}
#[inline(never)]
fn must_indexes(l: &Vec<(ReadOnlyMutable<Option<usize>>, V)>, old: &Vec<(ReadOnlyMutable<Option<usize>>, V)>) {
    let mut i = 0;
    while i < l.len() { must_item(i, &l[i].1); must(27, 1, l[i].0.get() == Some(i)); i += 1 }
    must_items(l.len());
    let mut i = 0;
    while i < old.len() { must(27, 2, old[i].0.get() == None); i += 1 }
}
/// The i-th element of the replayed output is v / the replayed output has n elements.
#[inline(never)] pub fn must_item(i: usize, v: &V) { loop {} }
#[inline(never)] pub fn must_items(n: usize) { loop {} }
// ---- C28
pub fn case_vec_sort() { drive_vec(v().sort_by_cloned(|a, b| cmp(a, b))) }
// ---- C29
pub fn case_vec_delay() { drive_vec(v().delay_remove(|x| cbr::<V, Fu<()>>(0, x))) }
// ---- C30
pub fn case_vec_len() { drive_signal(v().len()) }
pub fn case_vec_is_empty() { drive_signal(v().is_empty()) }
pub fn case_vec_sum() { drive_signal(v().sum()) }
pub fn case_vec_to_signal_map() { drive_signal(v().to_signal_map(|l| cbr::<[V], W>(0, l))) }
pub fn case_vec_to_signal_cloned() { drive_signal(v().to_signal_cloned()) }
// ---- C31
pub fn case_vec_switch() { drive_vec(input::<In<V>>(0).switch_signal_vec(|x| cb::<V, Ve<V>>(0, x))) }
pub fn case_vec_to_signal_vec() { drive_vec(input::<In<Vec<V>>>(0).to_signal_vec()) }
pub fn case_vec_always() { drive_vec(signal_vec::always(input::<Vec<V>>(100))) }
pub fn case_vec_from_stream() { drive_vec(signal_vec::from_stream(input::<St<V>>(0))) }
pub fn case_vec_to_stream() { drive_stream_vec(v().to_stream()) }
pub fn case_vec_for_each() { drive_future(v().for_each(|d| cb::<VecDiff<V>, Fu<()>>(0, d))) }
// ---- C33
pub fn case_vec_apply() { let mut l = input::<Vec<V>>(100); let d = input::<VecDiff<V>>(101); d.apply_to_vec(&mut l); applied(l) }
#[inline(never)] pub fn applied<T>(l: T) { loop {} }
#[inline(never)] pub fn cmp(a: &V, b: &V) -> std::cmp::Ordering { loop {} }
fn drive_stream_vec<S: futures_core::Stream>(s: S) { drive_stream(s) }
