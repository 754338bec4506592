#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide one property by seeded simulation
   check.py --setup                     build the simulator once
   check.py --selftest [N]              determinism self test over all scenarios
   check.py --replay FILE               replay a plan (prints the outcome)
Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Anything else: error of the check."""
import sys, os, json, hashlib, subprocess, time, shutil, glob, tempfile, struct, fcntl

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('REPO', '/repo')
WORKERS = 8

from props import PROPS, STUBS, REAL  # noqa


def tree_hash():
    h = hashlib.sha256()
    roots = [(REPO, 'src'), (REPO, 'include'), (HERE, 'sim')]
    for base, sub in roots:
        top = os.path.join(base, sub)
        for d, dirs, files in sorted(os.walk(top)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                if not os.path.isfile(p):
                    continue
                h.update(os.path.relpath(p, base).encode() + b'\0')
                with open(p, 'rb') as fh:
                    h.update(fh.read())
    return h.hexdigest()[:24]


def build():
    """compile the library from REPO's working tree; cached by content, so a changed tree is always rebuilt"""
    top = os.path.join(HERE, 'build')
    os.makedirs(top, exist_ok=True)
    key = tree_hash()
    out = os.path.join(top, key)
    with open(os.path.join(top, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(out, 'ok')):
            old = sorted((d for d in glob.glob(os.path.join(top, '*')) if os.path.isdir(d)), key=os.path.getmtime)
            for d in old[:-2]:
                shutil.rmtree(d, ignore_errors=True)
            shutil.rmtree(out, ignore_errors=True)
            env = dict(os.environ, REPO=REPO)
            r = subprocess.run([os.path.join(HERE, 'sim', 'build.sh'), out], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                print(r.stdout[-4000:])
                print('ERROR: the simulator does not build')
                sys.exit(2)
            shutil.rmtree(os.path.join(out, 'o'), ignore_errors=True)
            shutil.rmtree(os.path.join(out, 'h'), ignore_errors=True)
            open(os.path.join(out, 'ok'), 'w').close()
        os.utime(out)
    return os.path.join(out, 'simrun')


def replay(sim, path):
    try:
        r = subprocess.run([sim, 'replay', path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=200)
    except subprocess.TimeoutExpired:
        return None
    if r.returncode != 0:
        return None
    try:
        return json.loads(r.stdout.strip().splitlines()[-1])
    except Exception:
        return None


def known_findings(prop):
    """lines of known_findings.txt: finding: property=<id> class=<class> replay=<path under known/> <what fails>"""
    res = []
    p = os.path.join(HERE, 'known_findings.txt')
    if not os.path.exists(p):
        return res
    for line in open(p):
        if not line.startswith('finding:'):
            continue
        w = line.split(None, 4)
        kv = dict(x.split('=', 1) for x in w[1:4])
        if kv['property'] == prop:
            res.append((kv['class'], os.path.join(HERE, kv['replay']), w[4].strip() if len(w) > 4 else ''))
    return res


def fault_name(k):
    return k[6:] if k.startswith('fault.') else k


def run(prop, tier, seed):
    t0 = time.time()
    spec = PROPS[prop]
    sim = build()
    known = []
    for cls, path, what in known_findings(prop):
        r = replay(sim, path)
        if r and r['status'] == 1 and r['cls'] == cls:
            print('KNOWN-FINDING: property=%s %s' % (prop, what))
            known.append({'class': cls, 'what': what})
    counts = spec['quick'] if tier == 'quick' else spec['thorough']
    cap = 150 if tier == 'quick' else 660
    listing = ','.join('%s:%d' % (s, n) for s, n in counts)
    out = tempfile.mkdtemp(prefix='bxcheck.')
    try:
        procs = [subprocess.Popen([sim, 'batch', listing, str(seed), '1' if tier == 'thorough' else '0', str(w), str(WORKERS), out, str(cap)],
                                  stdout=subprocess.DEVNULL, stderr=subprocess.PIPE) for w in range(WORKERS)]
        bad = []
        for w, p in enumerate(procs):
            _, err = p.communicate()
            if p.returncode != 0:
                bad.append('worker %d: exit %d %s' % (w, p.returncode, err.decode(errors='replace')[-400:]))
        tot = {k: 0 for k in ('total', 'steps', 'events', 'sim_ns', 'nviol', 'nerr', 'cut')}
        runs, counters, samples = {}, {}, []
        states, hashes = set(), set()
        for w in range(WORKERS):
            f = '%s/w%d.json' % (out, w)
            if not os.path.exists(f):
                continue
            d = json.load(open(f))
            for k in tot:
                tot[k] += d[k]
            for k, v in d['runs'].items():
                runs[k] = runs.get(k, 0) + v
            for k, v in d['counters'].items():
                counters[k] = counters.get(k, 0) + v
            samples += d['samples']
            for ext, dst in (('states', states), ('hashes', hashes)):
                b = open('%s/w%d.%s' % (out, w, ext), 'rb').read()
                dst.update(struct.unpack('<%dQ' % (len(b) // 8), b))
        wall_search = time.time() - t0
        # ---------------------------------------------------------------- violations
        viols = sorted(glob.glob(out + '/viol.*'))
        errs = sorted(glob.glob(out + '/err.*'))
        reported, unstable, seen = [], [], set()
        for v in viols:
            cls = [l[12:].strip() for l in open(v, errors='replace') if l.startswith('# violation ')][0]
            if cls in seen:
                continue
            if reported and time.time() - t0 > 330:
                break
            a, b = replay(sim, v), replay(sim, v)
            if not a or not b or a['status'] != 1 or b['status'] != 1 or a['hash'] != b['hash'] or a['cls'] != b['cls']:
                unstable.append((v, cls, a, b))
                continue
            cls = a['cls']
            if cls in seen:
                continue
            seen.add(cls)
            os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
            dst = os.path.join(HERE, 'replays', '%s-%s.plan' % (prop, hashlib.sha1((cls + open(v, errors='replace').read()).encode()).hexdigest()[:10]))
            m = None
            if len(reported) < 3 and time.time() - t0 < 330:
                try:
                    m = subprocess.run([sim, 'min', v, dst], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
                except subprocess.TimeoutExpired:
                    m = None
            ok = False
            if m is not None and m.returncode == 0:
                c, d = replay(sim, dst), replay(sim, dst)
                ok = bool(c and d and c['status'] == 1 and c['cls'] == cls and c['hash'] == d['hash'])
            if not ok:
                shutil.copy(v, dst)
            reported.append((cls, dst, a['msg']))
        if not reported:
            # the violation was seen, but the changed code depends on something outside the simulation: it is reported when a replay shows a violation at all
            for v, cls, a, b in unstable:
                rs = [a, b] + [replay(sim, v) for _ in range(6) if time.time() - t0 < 500]
                bad_ones = [r for r in rs if r and r['status'] == 1]
                if bad_ones:
                    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
                    dst = os.path.join(HERE, 'replays', '%s-unstable.plan' % prop)
                    shutil.copy(v, dst)
                    reported.append((bad_ones[0]['cls'], dst, '(%d of %d replays violate the property, not all alike) ' % (len(bad_ones), len(rs)) + bad_ones[0]['msg']))
                    break
        distinct = len(hashes)
        faults = {fault_name(k): v for k, v in sorted(counters.items()) if k.startswith('fault.')}
        probes = {k: v for k, v in sorted(counters.items()) if not k.startswith('fault.')}
        wall = time.time() - t0
        ev = {
            'property': prop, 'tier': tier, 'seed': seed, 'level': spec.get('level', 'exploration'),
            'coverage': {
                'evaluations': tot['total'],
                'distinct_nontrivial': distinct,
                'rule': spec['rule'] + '  Each evaluation is one simulated run decided by one 64-bit seed; distinct_nontrivial counts different event-log hashes '
                        '(operations, outcomes, injected faults, task switches and process ends enter the hash) - every generated run contains operations and checks, an empty run cannot occur.',
                'samples': samples[:3],
                'runs_per_scenario': runs,
                'runs_per_hour': int(tot['total'] / max(wall_search, 0.01) * 3600),
                'seeds_per_hour': int(tot['total'] / max(wall_search, 0.01) * 3600),
                'simulated_time_ns': tot['sim_ns'],
                'simulated_steps': tot['steps'],
                'simulated_time_note': 'logical time = memory accesses and system calls of the library executed under the simulator; simulated clock advanced by simulated_time_ns',
                'faults_injected': faults,
                'probes_hit': probes,
                'distinct_states': len(states),
                'distinct_states_measure': spec['states'],
                'components_real': REAL + spec.get('real', []),
                'components_stubbed': STUBS,
                'cut_by_time': tot['cut'],
            },
            'assumptions': spec['assumptions'],
            'wall_s': round(wall, 2),
            'violations': len(reported),
        }
        if known:
            ev['coverage']['known_findings'] = known
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        print('%s %s: %d runs, %d distinct, %d states, %d steps, faults %s, %.1f s' % (prop, tier, tot['total'], distinct, len(states), tot['steps'], json.dumps(faults), wall))
        if reported:
            for cls, dst, msg in reported:
                print('  %s: %s' % (cls, msg[:1500]))
                print('VIOLATION property=%s replay=%s' % (prop, dst))
            return 1
        if unstable:
            for v, cls, a, b in unstable:
                keep = os.path.join(HERE, 'replays', '%s-unstable.plan' % prop)
                os.makedirs(os.path.dirname(keep), exist_ok=True)
                shutil.copy(v, keep)
                print('ERROR: not reproducible: %s %s %s (%s)' % (cls, a, b, keep))
            return 3
        if errs or bad:
            for e in errs:
                print('ERROR in a run:\n' + open(e, errors='replace').read()[-1500:])
            for b in bad:
                print('ERROR ' + b)
            return 2
        return 0
    finally:
        shutil.rmtree(out, ignore_errors=True)


def selftest(n):
    """every scenario, n seeds, in two processes each: the event logs must be identical"""
    sim = build()
    rc = 0
    names = subprocess.run([sim, 'list'], stdout=subprocess.PIPE, text=True).stdout.split()
    for s in names:
        outs = []
        procs = [subprocess.Popen([sim, 'selftest', s, str(seed), str(n)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True) for seed in (1, 2, 1, 2, 1, 2)]
        outs = [p.communicate()[0] for p in procs]
        same = outs[0] == outs[2] == outs[4] and outs[1] == outs[3] == outs[5] and outs[0] != outs[1]
        print('%s: %s' % (s, 'deterministic' if same else 'NOT DETERMINISTIC'))
        if not same:
            rc = 2
    return rc


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == '--setup':
        build()
        return 0
    if a[0] == '--selftest':
        return selftest(int(a[1]) if len(a) > 1 else 100)
    if a[0] == '--replay':
        print(json.dumps(replay(build(), a[1]), indent=1))
        return 0
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    return run(a[0], tier, seed)


if __name__ == '__main__':
    sys.path.insert(0, HERE)
    sys.exit(main())
