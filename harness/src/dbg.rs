//! The combinators of the feature `debug`.
use crate::env::*;
use futures_signals::signal::SignalExt;
use futures_signals::signal_vec::SignalVecExt;

pub fn case_sig_debug() { drive_signal(input::<In<V>>(0).debug()) }
pub fn case_vec_debug() { drive_vec(input::<Ve<V>>(0).debug()) }
