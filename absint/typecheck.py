"""Type-level analysis: auto traits (Send / Sync / Unpin) of the public types, decided by the type checker.

Every obligation is one generated function which the compiler must accept: a positive one calls `yes_send(&v)`,
a negative one calls `no_send(&v)`, whose trait selection is ambiguous (rejected) exactly if the type is Send.
The type of v is inferred from the public API, over inputs and values with known auto traits."""
import os, sys, json, subprocess, tempfile, shutil

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VREPO') or '/repo'  # VREPO: development only
MARK = ('SS', 'SN', 'NS', 'NN')

# expectations per marker, for Send and for Sync: + must be, - must not be, ? either
OWN = ('++--', '+-+-')             # owned by value: same as the component
SHARED = ('+?--', '+?--')          # owned behind a reference count and a lock
STRICT = ('+---', '+---')          # behind a reference count and a lock that lends shared references
MOVED = ('++--', '++--')           # behind a reference count; only ever moved in and out
SOME = ('+?--', '+??-')            # may or may not be stored in a way that gives shared access
GUARD = ('----', '+-?-')           # lock guards

# (name, expression, axes); axes: M first input, G second input, C captured by the callback, F inner input, I value
CB = '{ let c = mk::<{C}>(); move |%s| { touch(&c); %s } }'


def cb(args, body): return '{ let c = mk::<{C}>(); move |%s| { touch(&c); %s } }' % (args, body)


S, VE, MA = 'sig::<{M}, {I}>()', 've::<{M}, {I}>()', 'ma::<{M}, {I}>()'
ROWS = []


def row(name, kind, expr, **axes): ROWS.append((name, kind, expr, axes))


o = OWN
def rows():
    # signal combinators
    row('SignalExt::map', 'is_signal', S + '.map(' + cb('x', '0') + ')', M=o, C=o)
    row('SignalExt::inspect', 'is_signal', S + '.inspect(' + cb('x', '') + ')', M=o, C=o)
    row('SignalExt::eq', 'is_signal', S + '.eq(mk::<{I}>())', M=o, I=o)
    row('SignalExt::neq', 'is_signal', S + '.neq(mk::<{I}>())', M=o, I=o)
    row('SignalExt::dedupe_map', 'is_signal', S + '.dedupe_map(' + cb('x: &mut {I}', '0') + ')', M=o, C=o, I=o)
    row('SignalExt::dedupe', 'is_signal', S + '.dedupe()', M=o, I=o)
    row('SignalExt::dedupe_cloned', 'is_signal', S + '.dedupe_cloned()', M=o, I=o)
    row('SignalExt::map_future', 'is_signal', S + '.map_future(' + cb('x', 'fu::<{F}, u8>()') + ')', M=o, C=o, F=o)
    row('SignalExt::filter_map', 'is_signal', S + '.filter_map(' + cb('x', 'Some(0)') + ')', M=o, C=o)
    row('SignalExt::throttle', 'is_signal', S + '.throttle(' + cb('', 'fu::<{F}, ()>()') + ')', M=o, C=o, F=o)
    row('SignalExt::flatten', 'is_signal', 'sig::<{M}, Sig<{F}, u8>>().flatten()', M=o, F=o)
    row('SignalExt::switch', 'is_signal', S + '.switch(' + cb('x', 'sig::<{F}, u8>()') + ')', M=o, C=o, F=o)
    row('SignalExt::switch_signal_vec', 'is_signal_vec', S + '.switch_signal_vec(' + cb('x', 've::<{F}, u8>()') + ')', M=o, C=o, F=o)
    row('SignalExt::sample_stream_cloned', 'is_stream', S + '.sample_stream_cloned(st::<{G}, u8>())', M=o, G=o, I=o)
    row('SignalExt::for_each', 'is_future', S + '.for_each(' + cb('x', 'fu::<{F}, ()>()') + ')', M=o, C=o, F=o)
    row('SignalExt::to_signal_vec', 'is_signal_vec', 'sig::<{M}, Vec<u8>>().to_signal_vec()', M=o)
    row('SignalExt::wait_for', 'is_future', S + '.wait_for(mk::<{I}>())', M=o, I=o)
    row('SignalExt::first', 'is_signal', S + '.first()', M=o)
    row('SignalExt::stop_if', 'is_signal', S + '.stop_if(' + cb('x', 'true') + ')', M=o, C=o)
    row('SignalExt::to_stream', 'is_stream', S + '.to_stream()', M=o)
    row('SignalExt::to_future', 'is_future', S + '.to_future()', M=o, I=o)
    row('signal::always', 'is_signal', 'signal::always(mk::<{I}>())', I=o)
    row('signal::from_future', 'is_signal', 'signal::from_future(fu::<{M}, u8>())', M=o)
    row('signal::from_stream', 'is_signal', 'signal::from_stream(st::<{M}, u8>())', M=o)
    row('signal::option', 'is_signal', 'signal::option(Some(' + S + '))', M=o)
    row('signal::result', 'is_signal', 'signal::result::<_, {I}>(Ok(sig::<{M}, u8>()))', M=o, I=o)
    row('signal::not', 'is_signal', 'signal::not(sig::<{M}, bool>())', M=o)
    row('signal::and', 'is_signal', 'signal::and(sig::<{M}, bool>(), sig::<{G}, bool>())', M=o, G=o)
    row('signal::or', 'is_signal', 'signal::or(sig::<{M}, bool>(), sig::<{G}, bool>())', M=o, G=o)
    row('map_ref!', 'is_signal', '{ let (a, b) = (' + S + ', sig::<{G}, u8>()); let c = mk::<{C}>(); map_ref! { let a = a, let b = b => { touch(&c); 0 } } }', M=o, G=o, C=o, I=o)
    row('map_ref! short form', 'is_signal', '{ let (a, b) = (' + S + ', sig::<{G}, u8>()); map_ref! { a, b => 0 } }', M=o, G=o, I=o)
    row('map_mut!', 'is_signal', '{ let (a, b) = (' + S + ', sig::<{G}, u8>()); let c = mk::<{C}>(); map_mut! { let a = a, let b = b => { touch(&c); 0 } } }', M=o, G=o, C=o, I=o)
    # vector combinators
    row('SignalVecExt::map', 'is_signal_vec', VE + '.map(' + cb('x', '0') + ')', M=o, C=o)
    row('SignalVecExt::map_signal', 'is_signal_vec', VE + '.map_signal(' + cb('x', 'sig::<{F}, u8>()') + ')', M=o, C=o, F=o)
    row('SignalVecExt::chain', 'is_signal_vec', VE + '.chain(ve::<{G}, {I}>())', M=o, G=o)
    row('SignalVecExt::to_signal_map', 'is_signal', VE + '.to_signal_map(' + cb('x', '0') + ')', M=o, C=o, I=o)
    row('SignalVecExt::to_signal_cloned', 'is_signal', VE + '.to_signal_cloned()', M=o, I=o)
    row('SignalVecExt::filter', 'is_signal_vec', VE + '.filter(' + cb('x', 'true') + ')', M=o, C=o)
    row('SignalVecExt::filter_signal_cloned', 'is_signal_vec', VE + '.filter_signal_cloned(' + cb('x', 'sig::<{F}, bool>()') + ')', M=o, C=o, F=o, I=o)
    row('SignalVecExt::filter_map', 'is_signal_vec', VE + '.filter_map(' + cb('x', 'Some(0)') + ')', M=o, C=o)
    row('SignalVecExt::sum', 'is_signal', VE + '.sum()', M=o, I=o)
    row('SignalVecExt::flatten', 'is_signal_vec', 've::<{M}, Ve<{F}, u8>>().flatten()', M=o, F=o)
    row('SignalVecExt::sort_by_cloned', 'is_signal_vec', VE + '.sort_by_cloned(' + cb('x, y', 'x.cmp(y)') + ')', M=o, C=o, I=o)
    row('SignalVecExt::to_stream', 'is_stream', VE + '.to_stream()', M=o)
    row('SignalVecExt::for_each', 'is_future', VE + '.for_each(' + cb('x', 'fu::<{F}, ()>()') + ')', M=o, C=o, F=o)
    row('SignalVecExt::len', 'is_signal', VE + '.len()', M=o)
    row('SignalVecExt::is_empty', 'is_signal', VE + '.is_empty()', M=o)
    row('SignalVecExt::enumerate', 'is_signal_vec', VE + '.enumerate()', M=o)
    row('SignalVecExt::delay_remove', 'is_signal_vec', VE + '.delay_remove(' + cb('x', 'fu::<{F}, ()>()') + ')', M=o, C=o, F=o)
    row('signal_vec::always', 'is_signal_vec', 'signal_vec::always(mk::<Vec<{I}>>())', I=o)
    row('signal_vec::from_stream', 'is_signal_vec', 'signal_vec::from_stream(st::<{M}, u8>())', M=o)
    # map combinators
    row('SignalMapExt::map_value', 'is_signal_map', MA + '.map_value(' + cb('x', '0') + ')', M=o, C=o)
    row('SignalMapExt::map_value_signal', 'is_signal_map', MA + '.map_value_signal(' + cb('x', 'sig::<{F}, u8>()') + ')', M=o, C=o, F=o)
    row('SignalMapExt::key_cloned', 'is_signal', MA + '.key_cloned(1)', M=o)
    row('SignalMapExt::for_each', 'is_future', MA + '.for_each(' + cb('x', 'fu::<{F}, ()>()') + ')', M=o, C=o, F=o)
    row('signal_map::always', 'is_signal_map', 'signal_map::always(mk::<Vec<(u8, {I})>>())', I=o)
    # futures
    row('cancelable_future', 'is_future', 'cancelable_future(fu::<{M}, u8>(), ' + cb('', '0') + ').1', M=o, C=o)
    row('CancelableFutureHandle', None, 'cancelable_future(fu::<{M}, u8>(), ' + cb('', '0') + ').0', M=('++++', '++++'), C=('++++', '++++'))
    # channels
    row('Sender', None, 'signal::channel(mk::<{I}>()).0', I=MOVED)
    row('Receiver', 'is_signal', 'signal::channel(mk::<{I}>()).1', I=MOVED)
    # Mutable
    row('Mutable', None, 'Mutable::new(mk::<{I}>())', I=STRICT)
    row('ReadOnlyMutable', None, 'Mutable::new(mk::<{I}>()).read_only()', I=STRICT)
    row('MutableSignal', 'is_signal', 'Mutable::new(mk::<{I}>()).signal()', I=SHARED)
    row('MutableSignalCloned', 'is_signal', 'Mutable::new(mk::<{I}>()).signal_cloned()', I=SHARED)
    row('MutableSignalRef', 'is_signal', 'Mutable::new(mk::<{I}>()).signal_ref(' + cb('x', '0') + ')', I=SHARED, C=o)
    row('MutableLockRef', None, 'mk::<&\'static Mutable<{I}>>().lock_ref()', I=GUARD)
    row('MutableLockMut', None, 'mk::<&\'static Mutable<{I}>>().lock_mut()', I=GUARD)
    # Broadcaster
    row('Broadcaster', None, 'Broadcaster::new(' + S + ')', M=SHARED, I=SHARED)
    row('SignalExt::broadcast', None, S + '.broadcast()', M=SHARED, I=SHARED)
    row('BroadcasterSignal', 'is_signal', 'Broadcaster::new(' + S + ').signal()', M=SHARED, I=SHARED)
    row('BroadcasterSignalCloned', 'is_signal', 'Broadcaster::new(' + S + ').signal_cloned()', M=SHARED, I=SHARED)
    row('BroadcasterSignalRef', 'is_signal', 'Broadcaster::new(' + S + ').signal_ref(' + cb('x', '0') + ')', M=SHARED, I=SHARED, C=o)
    # MutableVec
    row('MutableVec', None, 'MutableVec::new_with_values(mk::<Vec<{I}>>())', I=STRICT)
    row('MutableSignalVec', 'is_signal_vec', 'mk::<&\'static MutableVec<{I}>>().signal_vec()', I=SOME)
    row('MutableSignalVec (cloned)', 'is_signal_vec', 'mk::<&\'static MutableVec<{I}>>().signal_vec_cloned()', I=SOME)
    row('MutableVecLockRef', None, 'mk::<&\'static MutableVec<{I}>>().lock_ref()', I=GUARD)
    row('MutableVecLockMut', None, 'mk::<&\'static MutableVec<{I}>>().lock_mut()', I=GUARD)
    # MutableBTreeMap
    row('MutableBTreeMap', None, 'mk::<MutableBTreeMap<{G}, {I}>>()', I=STRICT, G=STRICT)
    row('MutableSignalMap', 'is_signal_map', 'mk::<&\'static MutableBTreeMap<{G}, {I}>>().signal_map()', I=SOME, G=SOME)
    row('MutableSignalMap (cloned)', 'is_signal_map', 'mk::<&\'static MutableBTreeMap<{G}, {I}>>().signal_map_cloned()', I=SOME, G=SOME)
    row('MutableBTreeMapKeys', 'is_signal_vec', 'mk::<&\'static MutableBTreeMap<{G}, {I}>>().signal_vec_keys()', I=SOME, G=SOME)
    row('MutableBTreeMapEntries', 'is_signal_vec', 'mk::<&\'static MutableBTreeMap<{G}, {I}>>().entries_cloned()', I=SOME, G=SOME)
    row('MutableBTreeMapLockRef', None, 'mk::<&\'static MutableBTreeMap<{G}, {I}>>().lock_ref()', I=GUARD, G=GUARD)
    row('MutableBTreeMapLockMut', None, 'mk::<&\'static MutableBTreeMap<{G}, {I}>>().lock_mut()', I=GUARD, G=GUARD)


rows()

# inner inputs which are kept in boxes (so the combinator itself may be moved)
BOXED = {('SignalVecExt::map_signal', 'F'), ('SignalVecExt::flatten', 'F'), ('SignalVecExt::filter_signal_cloned', 'F'), ('SignalVecExt::delay_remove', 'F'),
         ('SignalMapExt::map_value_signal', 'F'), ('CancelableFutureHandle', 'M')}


def fill(expr, axes, **kw):
    for a in 'MGCFI': expr = expr.replace('{%s}' % a, kw.get(a, 'SS'))
    return expr


def send_sync():
    out = []
    for name, kind, expr, axes in ROWS:
        for a, (send, sync) in axes.items():
            for m, x, y in zip(MARK, send, sync):
                e = fill(expr, axes, **{a: m})
                for tr, w in (('send', x), ('sync', y)):
                    if w == '?': continue
                    what = {'M': 'the input', 'G': 'the second input' if 'BTree' not in expr else 'the key', 'C': 'the captured value', 'F': 'the inner input', 'I': 'the value'}[a]
                    out.append((name, kind, e, ('yes_' if w == '+' else 'no_') + tr, '%s: must %sbe %s when %s is %s' % (name, '' if w == '+' else 'not ', tr.capitalize(), what,
                                {'SS': 'Send and Sync', 'SN': 'Send but not Sync', 'NS': 'Sync but not Send', 'NN': 'neither Send nor Sync'}[m])))
    for kind, c in (('is_signal', 'sig'), ('is_signal_vec', 've'), ('is_signal_map', 'ma')):
        for m in MARK:
            e = '%s::<%s, u8>()' % (c, m)
            if m in ('SS', 'SN'): out.append(('boxed', kind, e + '.boxed()', 'yes_send', '%s boxed: must be Send' % kind[3:]))
            else: out.append(('boxed', kind, e + '.boxed()', 'reject', '%s boxed: must be rejected when the input is not Send (%s)' % (kind[3:], m)))
            out.append(('boxed_local', kind, e + '.boxed_local()', 'no_send', '%s boxed_local: must not be Send' % kind[3:]))
    return out


def unpin():
    out = []
    for name, kind, expr, axes in ROWS:
        if kind is None: continue
        out.append((name, kind, fill(expr, axes), 'yes_unpin', name + ': must be movable after pinning (Unpin) when its inputs are'))
        if name.startswith('Broadcaster'): continue
        for a in axes:
            if a in 'MGF' and (name, a) not in BOXED and 'BTree' not in expr:
                out.append((name, kind, fill(expr, axes, **{a: 'UP'}), 'no_unpin', name + ': must not be movable after pinning (not Unpin) when an input it owns is not'))
    for kind, e, meth in (('is_signal', 'sig::<UP, u8>()', 'poll_change_unpin'), ('is_signal_vec', 've::<UP, u8>()', 'poll_vec_change_unpin'), ('is_signal_map', 'ma::<UP, u8>()', 'poll_map_change_unpin')):
        out.append(('&mut', kind, '&mut ' + e, 'reject', '%s for &mut S: must be rejected when S is not Unpin' % kind[3:]))
        out.append(('Box', kind, 'Box::new(%s)' % e, 'reject', '%s for Box<S>: must be rejected when S is not Unpin' % kind[3:]))
        out.append(('Pin', kind, 'Box::pin(%s)' % e, 'yes_unpin', '%s for Pin<Box<S>>: must be available, and movable, when S is not Unpin' % kind[3:]))
        out.append((meth, None, '{ let mut s = %s; s.%s(mk::<&mut Context>()) }' % (e, meth), 'reject', meth + ': must be rejected when the input is not Unpin'))
    return out


def api():
    """the core API exists and its values implement the traits (whatever features are on)"""
    return [(name, kind, fill(expr, axes), 'touch', name + ': must be available') for name, kind, expr, axes in ROWS]


def generate(obl):
    """source text and the obligation of every line"""
    src = open(os.path.join(V, 'types', 'prelude.rs')).read()
    line = src.count('\n') + 1
    at = {}; out = []
    for i, (name, kind, e, f, text) in enumerate(obl):
        t = 'fn w%d() { let v = %s; %s(&v); }' % (i, '%s(%s)' % (kind, e) if kind else e, 'touch' if f == 'reject' else f)
        assert '\n' not in t
        at[line + i] = i; out.append(t)
    return src + '\n'.join(out) + '\n', at


class Build(Exception): pass


def check(obl, repo, features=None, target=None):
    """indices of the obligations which the compiler rejects, with its messages"""
    src, at = generate(obl)
    d = tempfile.mkdtemp(prefix='types-')
    try:
        os.mkdir(os.path.join(d, 'src'))
        open(os.path.join(d, 'src', 'lib.rs'), 'w').write(src)
        f = '' if features is None else ', default-features = false, features = %s' % json.dumps(features)
        open(os.path.join(d, 'Cargo.toml'), 'w').write('[package]\nname = "witness"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\nfutures-signals = { path = "%s"%s }\nfutures-core = "0.3.0"\n' % (repo, f))
        shutil.copy(os.path.join(V, 'harness', 'Cargo.lock'), os.path.join(d, 'Cargo.lock'))
        env = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTFLAGS='-A mismatched_lifetime_syntaxes', CARGO_TERM_COLOR='never', RUSTUP_TOOLCHAIN='stable')
        p = subprocess.run(['cargo', 'check', '--offline', '--message-format=json', '--target-dir', target or os.path.join(V, 'target', 'types')], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        bad = {}; built = False
        for l in p.stdout.splitlines():
            try: m = json.loads(l)
            except ValueError: continue
            if m.get('reason') == 'build-finished': built = m['success']
            if m.get('reason') != 'compiler-message' or m['message']['level'] != 'error': continue
            msg = m['message']
            if m['target']['name'] != 'witness':
                raise Build('%s does not build%s: %s' % (m['target']['name'], '' if features is None else ' with features %s' % features, msg['rendered'][:1500]))
            spans = [s for s in msg['spans'] if s['is_primary']]
            if not spans:
                if msg['message'].startswith('aborting') or 'previous error' in msg['message']: continue
                raise Build(msg['rendered'][:1500])
            for s in spans:
                # an error inside a macro or a called function is reported where it is used
                while s.get('expansion') and s['line_start'] not in at: s = s['expansion']['span']
                if not s['file_name'].endswith('src/lib.rs') or s['line_start'] not in at: raise Build(msg['rendered'][:1500])
                bad.setdefault(at[s['line_start']], (msg.get('code') or {}).get('code', '') + ' ' + msg['message'])
        if not bad and not built: raise Build(p.stderr[-2000:])
        return bad
    finally:
        shutil.rmtree(d)


OK_CODES = {'yes_send': ('E0277',), 'yes_sync': ('E0277',), 'yes_unpin': ('E0277',), 'no_send': ('E0283',), 'no_sync': ('E0283',), 'no_unpin': ('E0283',), 'touch': None}


def decide(prop, obl, repo=REPO, **kw):
    """violations, undecided, number of obligations"""
    bad = check(obl, repo, **kw)
    viol, und = [], []
    for i, (name, kind, e, f, text) in enumerate(obl):
        msg = bad.get(i)
        if f == 'reject':
            if msg is None: viol.append({'key': '%s/%s/%s' % (prop, name, text), 'msg': '%s [%s] accepted by the compiler: let v = %s' % (text, prop, e), 'detail': [e]})
            elif not msg.startswith(('E0277', 'E0599')): und.append('%s: rejected for another reason: %s' % (text, msg))
            continue
        if msg is None: continue
        codes = OK_CODES[f]
        if codes is not None and not msg.startswith(codes): und.append('%s: the witness does not type check: %s' % (text, msg))
        elif f == 'touch' and msg.split(' ')[0] == '': und.append('%s: %s' % (text, msg))
        else: viol.append({'key': '%s/%s/%s' % (prop, name, text), 'msg': '%s [%s] witness: let v = %s; %s(&v) -- %s' % (text, prop, e, f, msg), 'detail': [e, msg]})
    return viol, und, len(obl)


# ---------------------------------------------------------------- features
CONFIGS = [[], ['debug'], ['serde'], ['debug', 'serde']]
FEATURE_ROWS = {'debug': [('SignalExt::debug', 'is_signal', 'sig::<SS, SS>().debug()'), ('SignalVecExt::debug', 'is_signal_vec', 've::<SS, SS>().debug()')],
                'serde': [('Serialize for ' + n, None, 'mk::<%s>().serialize(mk::<S>())' % t) for n, t in (('Mutable', 'Mutable<u8>'), ('MutableVec', 'MutableVec<u8>'), ('MutableBTreeMap', 'MutableBTreeMap<u8, u8>'))]}


def feature_api(feats):
    out = api()
    for f in feats:
        for name, kind, e in FEATURE_ROWS[f]:
            if 'serialize' not in e: out.append((name, kind, e, 'touch', '%s: must be available with feature %s' % (name, f)))
    return out


def features(repo=REPO):
    """C43: every subset of the features builds, offers the core API, and compiles the core functions to the same MIR"""
    viol, und, n, notes = [], [], 0, []
    for fs in CONFIGS:
        obl = feature_api(fs)
        try: v, u, k = decide('C43', obl, repo, features=fs)
        except Build as e:
            n += 1
            viol.append({'key': 'C43/build/' + '+'.join(fs), 'msg': 'the crate does not build with features %s: %s' % (fs, str(e).split('\n')[0]), 'detail': str(e).split('\n')})
            continue
        for x in v: x['msg'] = 'with features %s: %s' % (fs, x['msg']); x['key'] += '/' + '+'.join(fs)
        viol += v; und += u; n += k
    if viol: return viol, und, n, notes, []
    full = mir(repo, CONFIGS[-1]); differ = []
    for fs in CONFIGS[:-1]:
        m = mir(repo, fs)
        d = sorted(k for k in m if not k.startswith('const ') and full.get(k) != m[k])
        n += len(m)
        notes.append('features %s: %d functions and constants, %d compiled differently than with all features%s' % (fs, len(m), len(d), ' (' + '; '.join(x[:80] for x in d[:5]) + ')' if d else ''))
        if d: differ.append(fs)
    return viol, und, n, notes, differ


def mir(repo, feats):
    import re
    with tempfile.TemporaryDirectory(prefix='mir-') as d:
        # the sources are compiled in place; the cheapest way to always get the text is a fresh fingerprint
        env = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTFLAGS='--cap-lints=allow', CARGO_TERM_COLOR='never')
        p = subprocess.run(['cargo', '+nightly', 'rustc', '--offline', '--lib', '--no-default-features', '--features', ','.join(feats), '--target-dir', os.path.join(V, 'target', 'mir'), '--',
                            '-Zunpretty=mir', '-Ztrim-diagnostic-paths=no', '-Zmir-opt-level=0'], cwd=repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode != 0: raise Build(p.stderr[-1500:])
        r = {}; cur = None
        for l in p.stdout.split('\n'):
            l = re.sub(r'\balloc\d+', 'alloc', re.sub(r'__gensym_\w+', '__gensym', l))
            if l and l[0] not in ' }\n/':
                cur = None if l.startswith('alloc') else l
                if cur is not None: r.setdefault(cur, []).append('')
            elif cur is not None and l.strip(): r[cur][-1] += l + '\n'
        return {k: sorted(v) for k, v in r.items()}


if __name__ == '__main__':
    for n, o_ in (('C40', send_sync()), ('C41', unpin()), ('C43', api())):
        v, u, k = decide(n, o_, *(sys.argv[1:2] or [REPO]))
        print(n, k, 'violations', len(v), 'undecided', len(u))
        for x in v[:40]: print('  V', x['msg'][:260])
        for x in u[:20]: print('  U', x[:300])
    if len(sys.argv) < 2:
        r = features()
        print('features', r[2], [x['msg'][:300] for x in r[0]], r[1][:3], r[3], r[4])
