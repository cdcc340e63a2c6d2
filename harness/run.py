import ast
import importlib
import json
import os
import sys
import time
import traceback

from harness import core

sys.path.insert(0, core.REPO)
# pkg_resources, for the package loader of SharedDataMiddleware
for _p in ('/opt/venv/lib/python3.12/site-packages',):
    if os.path.isdir(_p):
        sys.path.append(_p)


def load(pid):
    import hypothesis  # noqa: imported before the cache is switched off
    # never trust a stale .pyc of the tree under test
    sys.pycache_prefix = '/nonexistent/pycache'
    import verktyg
    got = os.path.dirname(os.path.abspath(verktyg.__file__))
    want = os.path.join(core.REPO, 'verktyg')
    if os.path.realpath(got) != os.path.realpath(want):
        raise SystemExit(2)
    return importlib.import_module('harness.props.' + pid.lower())


def known_findings(pid):
    """List of (sub, case repr prefix / message marker, text)."""
    path = os.path.join(core.VERIF, 'known_findings.json')
    try:
        with open(path) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [e for e in data.get('known', []) if e['property'] == pid]


def write_replay(pid, tier, seed, v):
    d = os.path.join(core.VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.replay' % (pid, v['sub']))
    with open(path, 'w', encoding='utf-8', errors='surrogatepass') as f:
        f.write('# property %s, sub-check %s, tier %s, seed %s\n' % (
            pid, v['sub'], tier, seed))
        f.write('# replay with: ./check %s --replay %s\n' % (pid, path))
        for line in v['message'].splitlines():
            f.write('# %s\n' % line)
        f.write(ascii({
            'property': pid, 'sub': v['sub'], 'case': v['case'],
            'history': v['history'],
        }))
        f.write('\n')
    return path


def replay(pid, path):
    mod = load(pid)
    with open(path, encoding='utf-8') as f:
        text = ''.join(l for l in f if not l.startswith('#'))
    data = ast.literal_eval(text)
    sub = [s for s in mod.SUBS if s.name == data['sub']][0]
    for case in data['history'] or []:
        try:
            core.run_case(sub, case)
        except core.Skip:
            pass
        except core.Violation:
            break
    try:
        core.run_case(sub, data['case'])
    except core.Violation as e:
        print(e)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    print('replay passes')
    return 0


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    i = 1
    while i < len(argv):
        a = argv[i]
        if a == '--replay':
            return replay(pid, argv[i + 1])
        elif a == '--sub':
            only = argv[i + 1]
            i += 1
        elif a in ('quick', 'thorough'):
            tier = a
        else:
            raise SystemExit('bad argument %r' % a)
        i += 1
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    procs = int(os.environ.get('VERIF_PROCS', '0')) or (os.cpu_count() or 4)
    t0 = time.monotonic()
    mod = load(pid)
    subs = [s for s in mod.SUBS if only is None or s.name == only]

    budget = 150.0 if tier == 'quick' else 780.0
    jobs, order = [], []
    for k, s in enumerate(subs):
        total = max(1, int((s.quick if tier == 'quick' else s.thorough)
                           * scale))
        # split into shards so that all the cores are used
        size = max(300, -(-total // procs)) if tier == 'quick' else 2500
        shards = max(1, -(-total // size))
        each = -(-total // shards)
        for j in range(shards):
            jobs.append((
                s, seed * 1000003 + k * 1009 + j, each, t0 + budget,
                2 if j == 0 else 0))
            order.append((j // procs, -each))
    # a round of each sub check, the long ones first
    jobs = [j for _, j in sorted(zip(order, jobs), key=lambda x: x[0])]
    core.JOBS[:] = jobs
    results = core.run_shards(jobs, procs)

    per = {}
    errors = []
    violations = []
    for r in results:
        p = per.setdefault(r['sub'], {
            'evaluations': 0, 'nontrivial': set(), 'labels': {},
            'samples': [], 'skipped': 0, 'outside': 0})
        for key in ('evaluations', 'skipped', 'outside'):
            p[key] += r[key]
        p['nontrivial'] |= r['nontrivial']
        p['samples'].extend(r['samples'])
        for l, n in r['labels'].items():
            p['labels'][l] = p['labels'].get(l, 0) + n
        if r['error']:
            errors.append((r['sub'], r['error']))
        if r['violation']:
            violations.append(r['violation'])

    known = known_findings(pid)
    hit = []
    unknown = []
    for v in violations:
        for e in known:
            if e['sub'] == v['sub'] and e['case'] == repr(v['case']):
                hit.append(e)
                break
        else:
            unknown.append(v)

    samples = []
    for name, p in sorted(per.items()):
        for s in p['samples'][:3]:
            samples.append({'check': name, 'case': s})
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(p['evaluations'] for p in per.values()),
            'distinct_nontrivial': sum(
                len(p['nontrivial']) for p in per.values()),
            'rule': mod.RULE,
            'samples': samples,
            'sub_checks': {
                name: {
                    'evaluations': p['evaluations'],
                    'distinct_nontrivial': len(p['nontrivial']),
                    'not_run_for_lack_of_time': p['skipped'],
                    'outside_domain': p['outside'],
                    'labels': dict(sorted(p['labels'].items())),
                } for name, p in sorted(per.items())
            },
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.monotonic() - t0, 3),
        'violations': len(unknown),
    }
    if only is None:
        os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok=True)
        path = os.path.join(core.VERIF, 'evidence', pid + '.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(evidence, f, indent=1, sort_keys=True)
            f.write('\n')
        os.replace(path + '.tmp', path)

    for name, p in sorted(per.items()):
        print('%-28s %6d cases  %6d distinct non-trivial  %s' % (
            name, p['evaluations'], len(p['nontrivial']),
            '' if not p['skipped'] else '(%d not run)' % p['skipped']))
        if os.environ.get('VERIF_LABELS'):
            for l, n in sorted(p['labels'].items()):
                print('      %-30s %d' % (l, n))
    print('%s %s seed=%d %.1fs' % (
        pid, tier, seed, time.monotonic() - t0))

    for e in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, e['text']))
    if unknown:
        seen = set()
        for v in unknown:
            if v['sub'] in seen:
                continue
            seen.add(v['sub'])
            path = write_replay(pid, tier, seed, v)
            print('  %s: %s' % (v['sub'], v['message'][:2000]))
            print('  case: %.2000r' % (v['case'],))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if errors:
        for name, e in errors[:3]:
            print('HARNESS ERROR in %s\n%s' % (name, e), file=sys.stderr)
        return 2
    return 0


if __name__ == '__main__':
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
