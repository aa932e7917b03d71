//! SignalMap adapters (C32).  Never executed.
use crate::env::*;
use futures_signals::signal_map::{self, SignalMap, SignalMapExt, MapDiff};

fn m() -> Ma<V> { input::<Ma<V>>(0) }

pub fn case_map_value() { drive_map(m().map_value(|x| cb::<V, W>(0, x))) }
pub fn case_map_value_signal() { drive_map(m().map_value_signal(|x| cb::<V, In<W>>(0, x))) }
pub fn case_map_key() { drive_signal(m().key_cloned(1)) }
pub fn case_map_for_each() { drive_future(m().for_each(|d| cb::<MapDiff<u8, V>, Fu<()>>(0, d))) }
pub fn case_map_always() { drive_map(signal_map::always(input::<Vec<(u8, V)>>(100))) }
pub fn case_map_mut_ref() { drive_map(&mut Mv(m())) }
pub fn case_map_box() { drive_map(Box::new(Mv(m()))) }
pub fn case_map_pin() { drive_map(Box::pin(m())) }
pub fn case_map_boxed() { drive_map(m().boxed()) }
pub fn case_map_boxed_local() { drive_map(m().boxed_local()) }
pub fn case_map_poll_unpin() {
    let mut s = Mv(m());
    loop { begin_poll(&mut s); if end_poll(s.poll_map_change_unpin(cx())) { break } }
}
