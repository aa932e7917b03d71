"""Which analysis decides which property."""
import os, time, multiprocessing
import poll, specs_sig, conc, vecspec, mapspec, hist, typecheck
from engine import Program

PROTO = ('C08', 'C09', 'C10', 'C11')
ALL = PROTO + ('C41', 'C42', 'C44')  # judged in every combinator analysis
A_RULE = ('abstract interpretation of constructor + poll to the fixpoint of abstract states; an obligation is one (combinator, monitored boundary event) pair: '
          'child poll, callback call, returned poll result; monitors: wakeup registration, no re-poll after end, end condition, first poll, value flow acceptor')
A_ASSUME = ['input signals follow the Signal contract (their first poll yields a value)', 'a combinator is not polled again after it ended',
            'Clone of a value yields an equal value; PartialEq::ne is the negation of eq', 'callbacks do not panic',
            'std / pin-project / futures leaf functions behave as modelled in absint/stdlib.py; unwinding paths are not analysed']
D_RULE = ('interleaving abstract interpretation: every order of the shared-memory events (atomic operations, lock acquisitions, reference-count upgrades and releases) of two or three abstract threads '
          'that use the public API is explored up to equivalence of abstract states; requirements (delivered values, wakeups, ends, lock availability, ownership) are judged on every path; '
          'an obligation is one scheduling point in one abstract state')
D_ASSUME = ['memory is sequentially consistent, except that raw pointers must be published with Release and received with Acquire ordering',
            'locks are not poisoned; wakers and clone functions of values do not call back into the library; a reader may be blocked by a waiting writer',
            'compare_exchange_weak does not fail spuriously', 'histories are those of the scenarios in harness/src/conc.rs (values are symbolic, schedules exhaustive)',
            'std, futures-channel and futures-task functions behave as modelled in absint/conc.py and absint/seq.py']


V_RULE = ('list analyses: the input SignalVecs deliver every valid sequence of diffs over uninterpreted elements (every kind, every index), explored to the fixpoint of abstract states with lists of bounded length; '
          'the diffs emitted by the combinator are replayed by the monitor, each must be valid, and whenever the combinator has nothing more to deliver the replayed list must equal the specified function of the inputs')
V_ASSUME = ['lists hold at most the number of elements given in coverage.analysed at any time (histories are unbounded); input diffs are valid for the list they change',
            'std collection, slice and iterator functions behave as modelled in absint/seq.py and absint/iters.py']


M_RULE = 'map analyses: the same for SignalMaps: every valid sequence of map diffs over concrete small keys and uninterpreted values; emitted diffs are replayed and must mirror the specified map'


def blank(expl, rule, assume):
    return dict(obligations=0, undecided=[], violations=[], analysed={}, samples=[], explanation=expl, rule=rule, assumptions=list(assume))


def summary(I):
    return dict(events=I.events, states=I.nstates, fns=len(I.fns_seen), paths=I.paths, completed=I.completed, undecided=dict(I.undecided),
                edges=getattr(I, 'lock_edges', {}), violations={k: (v[0], list(v[1])[-60:], v[2]) for k, v in I.violations.items()}, panics={k: list(v)[-60:] for k, v in I.panics.items()},
                libfns=sorted({I.p.fns[i].def_ for i in I.fns_seen if i in I.p.fns and I.p.fns[i].krate == 'futures_signals'}))


def collect(r, S, name, want, own, cfg=None):
    """merge the outcome of one interpreted case"""
    r['obligations'] += max(S['events'], S['completed'])
    key = name if cfg is None else '%s (lists of at most %d elements, %d changes per input and poll)' % (name, cfg[0], cfg[1])
    r['analysed'][key] = {'functions': S['fns'], 'abstract_states': S['states'], 'events': S['events'], 'paths': S['paths']}
    for k, n in S['undecided'].items(): r['undecided'].append('%s: %s (%d paths)' % (name, k, n))
    for (prop, rule), (msg, tr, where) in sorted(S['violations'].items()):
        if want(prop, own):
            if '%s/%s/%s' % (name, prop, rule) in [v['key'] for v in r['violations']]: continue
            r['violations'].append({'key': '%s/%s/%s' % (name, prop, rule), 'msg': '%s: %s [%s %s] at %s' % (name, msg, prop, rule, where), 'detail': tr})
    for (why, where), tr in S['panics'].items():
        if want('C44', own):
            r['violations'].append({'key': '%s/panic/%s' % (name, why), 'msg': '%s: a panic is reachable: %s at %s' % (name, why, where), 'detail': tr})
    if len(r['samples']) < 8: r['samples'].append('%s: %d abstract states, %d complete paths, functions %s' % (name, S['states'], S['completed'], S['libfns'][:8]))


PROG = None


def job(x):
    kind, name, cfg = x
    if kind == 'sig': return summary(poll.run_case(PROG, name, specs_sig.CASES[name][1]()))
    if kind == 'conc': return summary(conc.run_case(PROG, name))
    if kind == 'vec':
        vecspec.set_bounds(cfg[0], cfg[1])
        return summary(vecspec.run_case(PROG, name, vecspec.CASES[name][1](), deadline=time.time() + cfg[2]))


    if kind == 'map':
        vecspec.set_bounds(cfg[0], cfg[1])
        return summary(mapspec.run_case(PROG, name, deadline=time.time() + cfg[2]))
    if kind == 'hist':
        hist.set_bounds(cfg[0])
        return summary(hist.run_case(PROG, name, deadline=time.time() + cfg[2]))


def run_jobs(jobs):
    """[(kind, case, bounds)] -> [(job, summary)]; jobs are independent"""
    n = min(len(jobs), int(os.environ.get('ABSINT_JOBS', '8')))
    if n <= 1: return [(j, job(j)) for j in jobs]
    with multiprocessing.get_context('fork').Pool(n, maxtasksperchild=1) as p:
        return list(zip(jobs, p.imap(job, jobs, 1)))


def run_cases(r, dump, jobs, want, own):
    global PROG
    if not jobs: return
    cases = list(dict.fromkeys(j[1] for j in jobs))
    PROG = dump(cases)
    for n in cases:
        if n not in PROG.cases: r['undecided'].append(n + ': not found'); r['obligations'] += 1
    edges = []
    for j, S in run_jobs([j for j in jobs if j[1] in PROG.cases]):
        collect(r, S, j[1], want, own(j[1]), j[2])
        edges.append(S['edges'])
    return edges


def lock_order(r, edges):
    """C07: no cycle in the order in which different locks are taken"""
    def name(c):
        t = PROG.types.get(c[0], {})
        n = t.get('def') or t.get('name') or str(c[0])
        a = ', '.join((PROG.types.get(x, {}).get('name') or '_') if type(x) is int else '_' for x in t.get('args', ()))
        return '%s<%s>' % (n.replace('futures_signals::', ''), a[:60])
    E, cycles = conc.lock_order(edges)
    r['obligations'] += len(E)
    r['analysed']['lock order'] = {'edges': sorted({'%s -> %s' % (name(a), name(b)) for a, b in E})}
    for cyc in cycles:
        names = sorted({name(e[0]) for e, w in cyc})
        key = 'lock-order/' + '|'.join(names)
        if key in [v['key'] for v in r['violations']]: continue
        r['violations'].append({'key': key, 'msg': 'the locks %s are taken in a circle: %s' % (', '.join(names), '; '.join('%s while holding %s at %s' % (name(e[1]), name(e[0]), w) for e, w in cyc)),
                                'detail': ['%s -> %s at %s' % (name(e[0]), name(e[1]), w) for e, w in cyc]})


# Bounds (elements per list, changes per input and poll, seconds) of the list analyses. Big cases first.
SMALL = [(2, 1, 200)]
QUICK = {'case_vec_sort': [(3, 2, 200)], 'case_vec_chain': [(4, 2, 200), (5, 1, 200)], 'case_vec_filter_signal': [(3, 1, 420), (1, 2, 100)], 'case_vec_map_signal': [(3, 1, 100), (2, 2, 100)], 'case_vec_flatten': [(4, 1, 400)], 'case_vec_delay': [(3, 1, 200), (2, 2, 100)]}
THOROUGH = {'case_vec_filter_signal': [(3, 1, 700), (2, 2, 700)], 'case_vec_map_signal': [(3, 2, 700), (4, 1, 700)], 'case_vec_flatten': [(3, 1, 700), (2, 1, 500)], 'case_vec_delay': [(3, 2, 700), (4, 1, 700)],
            'case_vec_sort': [(3, 2, 500), (4, 1, 800)]}


def vec_jobs(cases, tier):
    out = []
    for n in cases:
        if tier == 'small': b = SMALL
        elif tier == 'quick': b = QUICK.get(n, [(4, 2, 200)])
        else: b = THOROUGH.get(n, [(4, 2, 700)])
        out += [('vec', n, x) for x in b]
    out.sort(key=lambda j: -j[2][2])
    return out


# operation histories: case -> (properties it judges, quick bounds, thorough bounds); the first property also owns panics
# wrappers that must not change anything (C19)
FORWARD = ('mut_ref', 'box', 'boxed', 'boxed_local', 'pin', 'poll_unpin', 'debug', 'inspect', 'for_each', 'to_stream')
HIST = {**{'case_view_' + n: (('C48',), [(2, 1, 200)], [(4, 1, 600)]) for n in ('vec_ref', 'vec_mut', 'vec_cap', 'map_ref', 'map_mut', 'new')},
        **{'case_hist_mut_' + n: (('C47',), [(2, 1, 300)], [(4, 1, 800)]) for n in ('copy', 'clone')},
        'case_hist_vec_copy': (('C20', 'C21', 'C46'), [(3, 1, 300)], [(5, 1, 800)]),
        'case_hist_vec_clone': (('C20', 'C21', 'C33', 'C46'), [(3, 1, 300)], [(5, 1, 800)]),
        'case_hist_map_copy': (('C22', 'C21', 'C46'), [(2, 1, 300)], [(3, 1, 800)]), 'case_hist_map_clone': (('C22', 'C21', 'C46'), [(2, 1, 300)], [(3, 1, 800)]),
        **{'case_serde_' + n: (('C45',), [(3, 1, 200)], [(6, 1, 600)]) for n in ('ser_mutable', 'ser_vec', 'ser_map', 'de_mutable', 'de_vec', 'de_map')},
        'case_hist_map_views_copy': (('C32',), [(2, 1, 300)], [(3, 1, 800)]), 'case_hist_map_views_clone': (('C32',), [(2, 1, 300)], [(3, 1, 800)])}
H_RULE = ('history analysis: a harness drives the public API of the container with every operation, every in-range argument and uninterpreted values, in every order (fixpoint of abstract states), '
          'keeps its own copy of the contents, replays what the subscribers receive, and requires equality after every operation; lists hold at most the given number of elements, histories are unbounded')
H_ASSUME = ['operations are called with arguments for which they are documented not to panic', 'callbacks passed to the container return any value and do not panic']


def hist_jobs(pid, tier):
    return [('hist', n, b) for n, (ps, q, t) in HIST.items() if pid in ps for b in (t if tier != 'quick' else q if pid == ps[0] else [(2, 1, 200)])]


# concurrency scenarios: property -> case name prefixes
def conc_cases():
    import re
    h = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness/src')
    src = ''.join(open(os.path.join(h, f)).read() for f in ('conc.rs', 'concvec.rs'))
    return list(dict.fromkeys(re.findall(r'\b(case_conc_\w+)', src)))


CONC = {'C01': ('mut',), 'C02': ('mut',), 'C03': ('chan',), 'C04': ('chan',), 'C05': ('bc',), 'C06': ('cancel',), 'C07': ('',), 'C20': ('vec_w',), 'C22': ('map_w',), 'C21': ('vec', 'map'), 'C47': ('cell',), 'C46': ('mut', 'bc', 'vec', 'map')}


T_RULE = ('type checking: every obligation is a generated function over the public API whose acceptance or rejection by the compiler decides one fact about one type '
          '(positive: a bound; negative: an ambiguous trait selection; rejected: an expression that must not compile)')


def types(r, obl, pid):
    v, u, n = typecheck.decide(pid, obl)
    r['violations'] += v; r['undecided'] += u; r['obligations'] += n
    r['analysed']['type-level witnesses'] = {'obligations': n, 'types': len({o[0] for o in obl})}
    r['samples'] += ['%s (let v = %s; %s(&v))' % (o[4], o[2], o[3]) for o in obl[:3]]
    r['rule'] = T_RULE if not r['rule'] else T_RULE + '; ' + r['rule']


def features(r, tier, dump):
    v, u, n, notes, differ = typecheck.features()
    r['violations'] += v; r['undecided'] += u; r['obligations'] += n
    r['analysed']['feature subsets'] = {'built': [','.join(f) for f in typecheck.CONFIGS], 'mir': notes}
    r['samples'] += notes
    if not differ: return
    # some function is compiled differently: analyse the behaviour of that configuration
    r['rule'] += '; ' + A_RULE
    jobs = [('sig', n, None) for n in specs_sig.CASES] + vec_jobs(list(vecspec.CASES), 'small') + [('map', n, (2, 1, 200)) for n in mapspec.CASES]
    for fs in differ:
        os.environ['VFEATURES'] = ','.join(fs) or '-'
        try: x = blank('', '', []); run_cases(x, dump, jobs, lambda p, own: True, lambda n: 'C43')
        finally: del os.environ['VFEATURES']
        if x['violations']:
            base = blank('', '', []); run_cases(base, dump, jobs, lambda p, own: True, lambda n: 'C43')
            bk = {v['key'] for v in base['violations']}
            r['violations'] += [dict(v, key='features ' + '+'.join(fs) + '/' + v['key'], msg='only with features %s: %s' % (fs, v['msg'])) for v in x['violations'] if v['key'] not in bk]
        r['obligations'] += x['obligations']
        r['undecided'] += x['undecided']; r['analysed'].update({'features %s: %s' % (fs, k): v for k, v in x['analysed'].items()})


def run(pid, tier, dump):
    if pid == 'C40':
        r = blank('Static analysis (type checking of generated witnesses against the current tree, nothing executed).', '', ['the auto traits of std and futures-channel types are sound'])
        types(r, typecheck.send_sync(), pid)
        return r
    if pid == 'C43':
        r = blank('Static analysis (the type checker and the compiler\'s MIR of every feature subset, nothing executed).', T_RULE + '; MIR of every core function must be the same in every feature subset, otherwise that subset is analysed like the default one',
                  ['the features are the two of Cargo.toml: debug and serde'])
        features(r, tier, dump)
        return r
    if pid in CONC:
        r = blank('Static analysis (interleaving abstract interpretation of monomorphised MIR, nothing executed).', D_RULE, D_ASSUME)
        cases = [n for n in conc_cases() if any(n.startswith('case_conc_' + p) for p in CONC[pid])]
        if tier == 'quick': cases = [n for n in cases if '_deep' not in n]
        if pid == 'C46': cases = [n for n in cases if 'prune' in n or 'sub_drop' in n or 'late' in n or tier != 'quick']
        hj = hist_jobs(pid, tier)
        if pid == 'C07': hj = [('hist', n, b) for n, (ps, q, t) in HIST.items() for b in ([(2, 1, 200)] if tier == 'quick' else t)]
        if hj: r['rule'] += '; ' + H_RULE; r['assumptions'] += H_ASSUME
        edges = run_cases(r, dump, hj + [('conc', n, None) for n in cases], lambda p, own: p == pid or (p in ('C44', 'C07') and pid not in ('C07', 'C46')), lambda n: pid)
        if pid == 'C07':
            lock_order(r, edges)
            r['rule'] += '; lock order: the graph of (lock held, lock wanted) over all scenarios has no cycle between different locks, except under a common lock'
        return r
    r = blank('Static analysis (abstract interpretation of monomorphised MIR, nothing executed).', A_RULE, A_ASSUME)
    owner = lambda n: 'C32' if n in mapspec.CASES else (specs_sig.CASES.get(n) or vecspec.CASES.get(n) or ('C44',))[0]
    mine = lambda n, p: p == pid or pid in ALL or pid == 'C19' and n.split('_', 2)[2] in FORWARD
    sigs = [n for n, (p, mk) in specs_sig.CASES.items() if mine(n, p)]
    vecs = [n for n, (p, mk) in vecspec.CASES.items() if mine(n, p)]
    maps = [('map', n, b) for n in mapspec.CASES if mine(n, 'C32')
            for b in ([(2, 1, 200)] if pid in ALL and tier == 'quick' else [(2, 2, 200), (3, 1, 200)] if tier == 'quick' else [(3, 2, 500), (4, 1, 500)])]
    if maps: r['rule'] += '; ' + M_RULE
    if maps: r['assumptions'] += V_ASSUME
    if vecs: r['rule'] += '; ' + V_RULE; r['assumptions'] += V_ASSUME
    if pid == 'C41': types(r, typecheck.unpin(), pid)
    hj = hist_jobs(pid, tier)
    if pid in ('C42', 'C44'):  # also judged in every history and interleaving
        hj = [('hist', n, b) for n, (ps, q, t) in HIST.items() for b in ([(2, 1, 200)] if tier == 'quick' else t)]
        r['rule'] += '; ' + D_RULE; r['assumptions'] += D_ASSUME
    if hj: r['rule'] = H_RULE if not vecs and not sigs and not maps else r['rule'] + '; ' + H_RULE; r['assumptions'] = (r['assumptions'] if vecs or sigs or maps else []) + H_ASSUME
    owner0 = owner
    owner = lambda n: HIST[n][0][0] if n in HIST else owner0(n)
    jobs = hj + maps + vec_jobs(vecs, 'small' if pid in ALL and tier == 'quick' else tier) + [('sig', n, None) for n in sigs]
    if pid in ('C42', 'C44'): jobs += [('conc', n, None) for n in conc_cases() if tier != 'quick' or '_deep' not in n]
    run_cases(r, dump, jobs, lambda p, own: pid == 'C19' or p == pid or (pid == own and (p in PROTO or p in ('C07', 'C44'))), owner)
    return r
