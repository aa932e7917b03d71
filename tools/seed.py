#!/usr/bin/env python3
"""Make and confirm planted bugs (development tool).
usage: seed.py new FILE.py     -- FILE defines SEEDS = [dict(id, property, file, edits=[(old,new)...] | edits={file:[...]}, demo, needs, breaks)]
       seed.py confirm ID...   -- re-confirm existing seeds (patch applies, builds, tests pass, demo discriminates)
       seed.py detect ID... [-a]  -- run the check of the seed's property (or all with -a) against the seeded copy
"""
import sys, os, subprocess, json, shutil, runpy, re
V = '/verif'; W = '/tmp/seedwork'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never', RUSTFLAGS='-A mismatched_lifetime_syntaxes')

DEMO_SH = r'''#!/bin/bash
# run with cwd = the repository; exit 0 iff the property's demonstration succeeds
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
T=$(mktemp -d /tmp/fs-demo-XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTFLAGS="--cap-lints=allow" CARGO_TARGET_DIR=$T/target CARGO_PROFILE_DEV_DEBUG=0
mkdir -p $T/src && cp $D/demo.rs $T/src/main.rs && cp $R/Cargo.lock $T/Cargo.lock
cat > $T/Cargo.toml <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
futures-signals = { path = "$R" }
futures-core = "0.3.0"
futures-util = "0.3.0"
futures-channel = "0.3.0"
futures-executor = "0.3.0"
discard = "1.0.3"
X
cd $T && cargo build --offline -q && timeout 100 $T/target/debug/demo
'''

PRELUDE = r'''
#![allow(dead_code, unused_imports, unused_macros)]
use futures_signals::signal::*;
use futures_signals::signal_vec::*;
use futures_signals::signal_map::*;
use futures_signals::{map_ref, map_mut, signal, signal_vec, signal_map};
use std::pin::Pin;
use std::future::Future;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, AtomicBool, Ordering}};
use std::task::{Context, Poll, Wake, Waker};
use std::collections::VecDeque;
use std::cell::{RefCell, Cell};
use std::rc::Rc;

pub struct Count(pub AtomicUsize);
impl Wake for Count { fn wake(self: Arc<Self>) { self.0.fetch_add(1, Ordering::SeqCst); } }
pub fn counter() -> (Arc<Count>, Waker) { let c = Arc::new(Count(AtomicUsize::new(0))); (c.clone(), Waker::from(c)) }
pub fn wakes(c: &Arc<Count>) -> usize { c.0.load(Ordering::SeqCst) }
pub fn noop() -> Waker { counter().1 }

/// scripted input; `Fin` after the script is an error to poll again after None
pub enum S<T> { P, V(T), E }
pub struct Script<T> { pub q: VecDeque<S<T>>, pub ended: bool, pub polls: Rc<Cell<usize>> }
impl<T> Unpin for Script<T> {}
pub fn script<T>(v: Vec<S<T>>) -> Script<T> { Script { q: v.into(), ended: false, polls: Rc::new(Cell::new(0)) } }
impl<T> Script<T> { fn next(&mut self) -> Poll<Option<T>> {
    assert!(!self.ended, "polled after end");
    self.polls.set(self.polls.get() + 1);
    match self.q.pop_front() { None | Some(S::P) => Poll::Pending, Some(S::V(x)) => Poll::Ready(Some(x)), Some(S::E) => { self.ended = true; Poll::Ready(None) } }
} }
impl<T> Signal for Script<T> { type Item = T; fn poll_change(mut self: Pin<&mut Self>, _: &mut Context) -> Poll<Option<T>> { self.next() } }
impl<T> futures_core::Stream for Script<T> { type Item = T; fn poll_next(mut self: Pin<&mut Self>, _: &mut Context) -> Poll<Option<T>> { self.next() } }
pub struct VScript<T>(pub Script<VecDiff<T>>);
impl<T> SignalVec for VScript<T> { type Item = T; fn poll_vec_change(mut self: Pin<&mut Self>, _: &mut Context) -> Poll<Option<VecDiff<T>>> { self.0.next() } }
pub fn vscript<T>(v: Vec<S<VecDiff<T>>>) -> VScript<T> { VScript(script(v)) }
pub struct MScript<K, T>(pub Script<MapDiff<K, T>>);
impl<K, T> SignalMap for MScript<K, T> { type Key = K; type Value = T; fn poll_map_change(mut self: Pin<&mut Self>, _: &mut Context) -> Poll<Option<MapDiff<K, T>>> { self.0.next() } }
pub fn mscript<K, T>(v: Vec<S<MapDiff<K, T>>>) -> MScript<K, T> { MScript(script(v)) }
pub struct FScript<T> { pub n: usize, pub v: Option<T> }
impl<T> Unpin for FScript<T> {}
impl<T> Future for FScript<T> { type Output = T; fn poll(mut self: Pin<&mut Self>, _: &mut Context) -> Poll<T> { if self.n == 0 { Poll::Ready(self.v.take().expect("future polled after completion")) } else { self.n -= 1; Poll::Pending } } }

pub fn poll_s<A: Signal>(s: Pin<&mut A>, w: &Waker) -> Poll<Option<A::Item>> { s.poll_change(&mut Context::from_waker(w)) }
pub fn poll_v<A: SignalVec>(s: Pin<&mut A>, w: &Waker) -> Poll<Option<VecDiff<A::Item>>> { s.poll_vec_change(&mut Context::from_waker(w)) }
pub fn poll_m<A: SignalMap>(s: Pin<&mut A>, w: &Waker) -> Poll<Option<MapDiff<A::Key, A::Value>>> { s.poll_map_change(&mut Context::from_waker(w)) }
pub fn poll_f<A: Future>(s: Pin<&mut A>, w: &Waker) -> Poll<A::Output> { s.poll(&mut Context::from_waker(w)) }
/// drain ready diffs into `out`; true if ended
pub fn replay<A: SignalVec>(mut s: Pin<&mut A>, out: &mut Vec<A::Item>, max: usize) -> bool {
    let w = noop();
    for _ in 0..max { match poll_v(s.as_mut(), &w) { Poll::Pending => return false, Poll::Ready(None) => return true, Poll::Ready(Some(d)) => d.apply_to_vec(out) } }
    panic!("no quiescence")
}

// ---- wakers that run a hook when cloned (a deterministic interleaving point)
pub struct Hook { pub wakes: AtomicUsize, pub on_clone: Mutex<Option<Box<dyn FnOnce() + Send>>> }
fn vt() -> &'static std::task::RawWakerVTable {
    use std::task::*;
    unsafe fn clone(p: *const ()) -> RawWaker {
        let a = Arc::from_raw(p as *const Hook);
        let b = a.clone(); std::mem::forget(a);
        let h = b.on_clone.lock().unwrap().take();
        if let Some(h) = h { h() }
        RawWaker::new(Arc::into_raw(b) as *const (), vt())
    }
    unsafe fn wake(p: *const ()) { let a = Arc::from_raw(p as *const Hook); a.wakes.fetch_add(1, Ordering::SeqCst); }
    unsafe fn wake_ref(p: *const ()) { (*(p as *const Hook)).wakes.fetch_add(1, Ordering::SeqCst); }
    unsafe fn drop_(p: *const ()) { drop(Arc::from_raw(p as *const Hook)) }
    static VT: RawWakerVTable = RawWakerVTable::new(clone, wake, wake_ref, drop_);
    &VT
}
pub fn hooked(f: impl FnOnce() + Send + 'static) -> (Arc<Hook>, Waker) {
    let h = Arc::new(Hook { wakes: AtomicUsize::new(0), on_clone: Mutex::new(Some(Box::new(f))) });
    let w = unsafe { Waker::from_raw(std::task::RawWaker::new(Arc::into_raw(h.clone()) as *const (), vt())) };
    (h, w)
}
/// what an executor does: poll again while Ready, or while woken during a Pending poll; (last value, ended)
pub fn settle<A: Signal + Unpin>(s: &mut A, h: &Hook, w: &Waker) -> (Option<A::Item>, bool) {
    let mut last = None;
    loop {
        let before = h.wakes.load(Ordering::SeqCst);
        match poll_s(Pin::new(&mut *s), w) {
            Poll::Ready(Some(v)) => last = Some(v),
            Poll::Ready(None) => return (last, true),
            Poll::Pending => if h.wakes.load(Ordering::SeqCst) == before { return (last, false) },
        }
    }
}
/// a waker that runs `f` every time it is woken
pub struct OnWake<F>(pub F);
impl<F: Fn() + Send + Sync + 'static> Wake for OnWake<F> { fn wake(self: Arc<Self>) { (self.0)() } }
pub fn on_wake(f: impl Fn() + Send + Sync + 'static) -> Waker { Waker::from(Arc::new(OnWake(f))) }
/// true if `f` finishes within 20 seconds
pub fn finishes(f: impl FnOnce() + Send + 'static) -> bool {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || { f(); let _ = tx.send(()); });
    rx.recv_timeout(std::time::Duration::from_secs(20)).is_ok()
}
'''

def sh(cmd, cwd=None, env=None, timeout=600):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

def copy(name='repo'):
    d = os.path.join(W, name)
    if not os.path.exists(d):
        os.makedirs(W, exist_ok=True)
        sh('cp -a /repo %s' % d)
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', cwd=d)
    return d

def tests(d):
    for _ in range(4):
        rc, o = sh('timeout -k 5 150 cargo test --workspace --no-fail-fast --offline -- --test-threads 8', cwd=d, env=ENV)
        # this one depends on timing, and is not in the list of stable tests
        if [l for l in o.splitlines() if l.startswith('test ') and 'FAILED' in l] != ['test signal::throttle::test_throttle_timing ... FAILED']: break
    return rc, o

def demo(d, sid):
    env = dict(os.environ)
    try: return sh('bash %s/seeded/%s/demo.sh' % (V, sid), cwd=d, env=env, timeout=290)
    except subprocess.TimeoutExpired: return 124, 'timeout'

def confirm(sid):
    d = copy()
    sd = '%s/seeded/%s' % (V, sid)
    rc0, o0 = demo(d, sid)
    if rc0 != 0: return 'demo fails on the unchanged tree: ' + o0[-1500:]
    rc, o = sh('git apply %s/patch.diff' % sd, cwd=d)
    if rc: return 'patch does not apply: ' + o
    rc, o = tests(d)
    if rc: 
        return 'tests fail or build fails (%d): ' % rc + '\n'.join(l for l in o.splitlines() if 'FAILED' in l or 'error' in l or 'panicked' in l)[-1500:]
    rc1, o1 = demo(d, sid)
    if rc1 == 0: return 'demo passes with the patch'
    if 'could not compile' in o1 and json.load(open('%s/seeded/%s/meta.json' % (V, sid)))['property'] not in ('C40', 'C41', 'C43'): return 'demo does not compile with the patch: ' + o1[-1500:]
    return 'OK (with patch rc %d: %s)' % (rc1, o1.strip()[-200:].replace('\n', ' | '))

def new(fn):
    ns = runpy.run_path(fn)
    for x in ns['SEEDS']:
        sid = x['id']; sd = '%s/seeded/%s' % (V, sid)
        if os.path.exists(sd) and not x.get('redo'): continue
        d = copy()
        edits = x['edits'] if isinstance(x['edits'], dict) else {x['file']: x['edits']}
        bad = None
        for f, es in edits.items():
            s = open(d + '/' + f).read()
            for e in es:
                old, nw = e[0], e[1]
                n = e[2] if len(e) > 2 else None
                if n is None and s.count(old) != 1: bad = '%s: pattern occurs %d times: %r' % (f, s.count(old), old[:80]); break
                if n is None: s = s.replace(old, nw)
                else:
                    parts = s.split(old)
                    if len(parts) <= n + 1: bad = 'only %d occurrences' % (len(parts) - 1); break
                    s = old.join(parts[:n + 1]) + nw + old.join(parts[n + 1:])
            open(d + '/' + f, 'w').write(s)
        if bad: print(sid, 'BAD', bad); continue
        os.makedirs(sd, exist_ok=True)
        rc, o = sh('git diff', cwd=d)
        open(sd + '/patch.diff', 'w').write(o)
        open(sd + '/demo.sh', 'w').write(x.get('demo_sh') or (DEMO_SH.replace('path = "$R" }', 'path = "$R", default-features = false }') if x.get('nodefault') else DEMO_SH.replace('path = "$R" }', 'path = "$R", features = ["serde"] }').replace('discard = ', 'serde = "1.0"\nserde_json = "1.0"\ndiscard = ') if x.get('serde') else DEMO_SH)); os.chmod(sd + '/demo.sh', 0o755)
        open(sd + '/demo.rs', 'w').write(PRELUDE + x.get('demo', 'fn main() {}'))
        json.dump({'property': x['property'], 'needs': x['needs'], 'what_it_breaks': x['breaks']}, open(sd + '/meta.json', 'w'), indent=1)
        r = confirm(sid)
        print(sid, r, flush=True)
        if not r.startswith('OK'): shutil.rmtree(sd)

def detect(ids, allp):
    man = json.load(open(V + '/MANIFEST.json'))
    for sid in ids:
        sd = '%s/seeded/%s' % (V, sid)
        meta = json.load(open(sd + '/meta.json'))
        d = copy('repo-d')
        rc, o = sh('git apply %s/patch.diff' % sd, cwd=d)
        if rc: print(sid, 'patch does not apply'); continue
        ps = [c['property'] for c in man['checks']] if allp else [meta['property']]
        res = []
        for p in ps:
            rc, o = sh('tools/check.sh ' + p, cwd=V, env=dict(os.environ, VREPO=d, VTARGET=W + '/target-d'), timeout=900)
            if rc != 0 or not allp: res.append('%s:%d%s' % (p, rc, '' if rc != 1 else ' ' + ' / '.join(l.strip() for l in o.splitlines() if l.startswith('  '))[:160]))
        print(sid, '->', '; '.join(res), flush=True)

if __name__ == '__main__':
    c = sys.argv[1]
    if c == 'new': new(sys.argv[2])
    elif c == 'confirm':
        for i in (sys.argv[2:] or sorted(os.listdir(V + '/seeded'))): print(i, confirm(i), flush=True)
    elif c == 'detect':
        a = [x for x in sys.argv[2:] if x != '-a']
        detect(a or sorted(os.listdir(V + '/seeded')), '-a' in sys.argv)
