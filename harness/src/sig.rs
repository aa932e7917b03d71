use crate::env::*;
use futures_signals::signal::{self, SignalExt};
use futures_signals::{map_ref, map_mut};

// ---- value mapping
pub fn case_sig_map() { drive_signal(input::<In<V>>(0).map(|v| cb::<V, W>(0, v))) }
pub fn case_sig_inspect() { drive_signal(input::<In<V>>(0).inspect(|v| cbr::<V, ()>(0, v))) }
pub fn case_sig_dedupe_map() { drive_signal(input::<In<V>>(0).dedupe_map(|v| cbm::<V, W>(0, v))) }
pub fn case_sig_dedupe() { drive_signal(input::<In<C>>(0).dedupe()) }
pub fn case_sig_dedupe_cloned() { drive_signal(input::<In<V>>(0).dedupe_cloned()) }
pub fn case_sig_eq() { drive_signal(input::<In<V>>(0).eq(input::<V>(100))) }
pub fn case_sig_neq() { drive_signal(input::<In<V>>(0).neq(input::<V>(100))) }
pub fn case_sig_ok() { drive_signal(signal::result::<In<V>, W>(Ok(input::<In<V>>(0)))) }
pub fn case_sig_err() { drive_signal(signal::result::<In<V>, W>(Err(input::<W>(100)))) }
pub fn case_sig_some() { drive_signal(signal::option(Some(input::<In<V>>(0)))) }
pub fn case_sig_none() { drive_signal(signal::option(None::<In<V>>)) }
pub fn case_sig_always() { drive_signal(signal::always(input::<V>(100))) }
pub fn case_sig_to_stream() { drive_stream(input::<In<V>>(0).to_stream()) }
pub fn case_sig_mut_ref() { drive_signal(&mut Mv(input::<In<V>>(0))) }
pub fn case_sig_box() { drive_signal(Box::new(Mv(input::<In<V>>(0)))) }
pub fn case_sig_pin() { drive_signal(Box::pin(input::<In<V>>(0))) }
pub fn case_sig_boxed() { drive_signal(input::<In<V>>(0).boxed()) }
pub fn case_sig_boxed_local() { drive_signal(input::<In<V>>(0).boxed_local()) }
pub fn case_sig_not() { drive_signal(signal::not(input::<In<bool>>(0))) }
pub fn case_sig_poll_unpin() {
    let mut s = Mv(input::<In<V>>(0));
    loop { begin_poll(&mut s); if end_poll(s.poll_change_unpin(cx())) { break } }
}

// ---- stopping
pub fn case_sig_stop_if() { drive_signal(input::<In<V>>(0).stop_if(|v| cbr::<V, bool>(0, v))) }
pub fn case_sig_first() { drive_signal(input::<In<V>>(0).first()) }
pub fn case_sig_wait_for() { drive_future(input::<In<V>>(0).wait_for(input::<V>(100))) }
pub fn case_sig_to_future() { drive_future(input::<In<V>>(0).to_future()) }
pub fn case_sig_sample() { drive_stream(input::<In<V>>(0).sample_stream_cloned(input::<St<W>>(1))) }

// ---- filter
pub fn case_sig_filter_map() { drive_signal(input::<In<V>>(0).filter_map(|v| cb::<V, Option<W>>(0, v))) }

// ---- flatten / switch
pub fn case_sig_flatten() { drive_signal(input::<In<In<V>>>(0).flatten()) }
pub fn case_sig_switch() { drive_signal(input::<In<V>>(0).switch(|v| cb::<V, In<W>>(0, v))) }

// ---- futures and streams
pub fn case_sig_map_future() { drive_signal(input::<In<V>>(0).map_future(|v| cb::<V, Fu<W>>(0, v))) }
pub fn case_sig_throttle() { drive_signal(input::<In<V>>(0).throttle(|| cb0::<Fu<()>>(0))) }
pub fn case_sig_from_future() { drive_signal(signal::from_future(input::<Fu<V>>(0))) }
pub fn case_sig_from_stream() { drive_signal(signal::from_stream(input::<St<V>>(0))) }
pub fn case_sig_for_each() { drive_future(input::<In<V>>(0).for_each(|v| cb::<V, Fu<()>>(0, v))) }

// ---- combining
pub fn case_sig_map_ref2() {
    let (a, b) = (input::<In<V>>(0), input::<In<V>>(1));
    drive_signal(map_ref! { let a = a, let b = b => move { cb2::<V, V, W>(0, a, b) } })
}
pub fn case_sig_map_ref3() {
    let (a, b, c) = (input::<In<V>>(0), input::<In<V>>(1), input::<In<V>>(2));
    drive_signal(map_ref! { a, b, c => { cb2::<(&V, &V), V, W>(0, &(a, b), c) } })
}
pub fn case_sig_map_ref1() { let a = input::<In<V>>(0); drive_signal(map_ref! { let a = a => cbr::<V, W>(0, a) }) }
pub fn case_sig_map_mut2() {
    let (a, b) = (input::<In<V>>(0), input::<In<V>>(1));
    drive_signal(map_mut! { let a = a, let b = b => move { cb2::<V, V, W>(0, a, b) } })
}
pub fn case_sig_and() { drive_signal(signal::and(input::<In<bool>>(0), input::<In<bool>>(1))) }
pub fn case_sig_or() { drive_signal(signal::or(input::<In<bool>>(0), input::<In<bool>>(1))) }
