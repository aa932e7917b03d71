#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's current tree. exit 0 held / 1 VIOLATION / 2 no answer."""
import sys, os, json, time, subprocess, tempfile
sys.setrecursionlimit(20000)
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'absint'))
import registry


class NoAnswer(Exception): pass


def dump(cases):
    d = tempfile.mkdtemp(prefix='absint-')
    out = os.path.join(d, 'd.json')
    p = subprocess.run([os.path.join(V, 'tools', 'dump.sh'), out, ','.join(cases)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    try:
        if p.returncode != 0: raise NoAnswer('the analysed instantiation does not build:\n' + p.stdout[-3000:])
        from engine import Program
        return Program(out)
    finally:
        for f in os.listdir(d): os.unlink(os.path.join(d, f))
        os.rmdir(d)


def known(pid):
    r = {}
    fn = os.path.join(V, 'known_findings.json')
    if os.path.exists(fn):
        for k in json.load(open(fn))['findings']:
            if k['property'] == pid: r[k['key']] = k
    return r


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2: tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    ev = os.path.join(V, 'evidence'); os.makedirs(ev, exist_ok=True)
    try:
        res = registry.run(pid, tier, dump)
    except (NoAnswer, registry.typecheck.Build) as e:
        print('NO ANSWER property=%s: %s' % (pid, e)); sys.exit(2)
    kn = known(pid)
    viol, found = [], []
    for v in res['violations']:
        (found if v['key'] in kn else viol).append(v)
    wall = time.time() - t0
    cov = {'explanation': res['explanation'], 'obligations': res['obligations'], 'decided': res['obligations'] - len(res['undecided']),
           'undecided': res['undecided'][:40], 'analysed': res['analysed'], 'samples': res['samples'][:20], 'rule': res['rule']}
    cov.update(res.get('extra', {}))
    json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov, 'wall_s': round(wall, 2),
               'violations': len(viol), 'assumptions': res['assumptions']}, open(os.path.join(ev, pid + '.json'), 'w'), indent=1)
    for v in found: print('KNOWN-FINDING: property=%s %s' % (pid, v['msg']))
    if res['undecided']:
        print('%d obligation(s) undecided (not reported as violations), e.g. %s' % (len(res['undecided']), res['undecided'][0]))
    if viol:
        rp = os.path.join(ev, pid + '.violation.txt')
        with open(rp, 'w') as f:
            for v in viol: f.write('%s\n  key: %s\n  %s\n\n' % (v['msg'], v['key'], '\n  '.join(v['detail'])))
        for v in viol: print('  ' + v['msg'])
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        sys.exit(1)
    if res['obligations'] == 0 or len(res['undecided']) >= res['obligations']:
        print('NO ANSWER property=%s: nothing could be decided: %s' % (pid, res['undecided'][:3])); sys.exit(2)
    print('OK property=%s: %d obligations decided in %.1fs' % (pid, cov['decided'], wall))


if __name__ == '__main__':
    try: main()
    except Exception:
        import traceback
        traceback.print_exc(file=sys.stdout); print('NO ANSWER property=%s: the analyser failed' % sys.argv[1]); sys.exit(2)
