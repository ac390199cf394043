#!/usr/bin/env python3
"""check.py <property> [--thorough]: decide one property of the current tree; see DESIGN.md."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(60000)

from pva import frame                      # noqa: E402
from checks import registry                # noqa: E402


def known(pid):
    """[(key substring, text)] of the recorded findings of this property (fixed entries suppress nothing)"""
    out = []
    try:
        with open(os.path.join(HERE, 'known_findings.txt'), encoding='utf-8') as fh:
            for line in fh:
                if line.startswith('known: property=%s ' % pid):
                    key, _, text = line.split(' ', 2)[2].strip().partition(' :: ')
                    out.append((key, text))
    except FileNotFoundError:
        pass
    return out


def main():
    pid = sys.argv[1]
    thorough = '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough'
    frame.THOROUGH = thorough
    t0 = time.time()
    spec = registry.PROPS[pid]
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    load_error = None
    if spec.get('roles', True):
        frame.ROLES.update(frame.roles_mod.find())
    try:
        frame.preload(spec.get('mods', ('procmon_parser', 'ref.events', 'ref.pml', 'ref.probe', 'ref.csv', 'ref.pmc')), K=spec.get('K', {}).get(thorough, 3))
    except Exception as e:
        load_error = '%s: %s' % (type(e).__name__, frame.cut(e, 300))
    jobs = spec['jobs'](thorough)
    results = [] if load_error else frame.run_jobs(jobs, budget=2400 if thorough else 600,
                                                   timeout=600 if thorough else 100)
    rows = [(r['name'],) + row for r in results for row in r['rows']]
    count = {}
    for _, _, st, _, _, _ in rows:
        count[st] = count.get(st, 0) + 1
    finds = known(pid)
    bad, noted = [], {}
    for name, ob, st, detail, where, _ in rows:
        if st == 'violated':
            for key, text in finds:
                if key in '%s | %s' % (name, ob):
                    noted[key] = text
                    break
            else:
                bad.append((name, ob, detail, where))
    funcs = sorted({f for r in results for f in r['stats'].get('functions', ())})
    own = [f for f in funcs if 'procmon_parser' in f]
    disc = count.get('proved', 0) + count.get('unrefuted', 0)
    cov = {
        'explanation': spec['explain'],
        'programs': len(jobs),
        'disagreements_checked': len(rows),
        'proved_identical_normal_form': count.get('proved', 0),
        'agree_on_all_sampled_valuations': count.get('unrefuted', 0),
        'undecided': count.get('undecided', 0),
        'violated': count.get('violated', 0),
        'sampled_valuations': sum(r[5] for r in rows),
        'functions_analysed': [f.split('procmon_parser/', 1)[-1] for f in own],
        'calls_analysed': sum(r['stats'].get('calls', 0) for r in results),
        'branches_analysed': sum(r['stats'].get('branches', 0) for r in results),
        'string_readers': ['%s.%s: %s (%s, %d contexts)' % (k[0], k[1], v[0], v[1], v[3])
                           for k, v in sorted(frame.ROLES.items())],
        'undecided_obligations': [' | '.join((n, o, d)) for n, o, s, d, _, _ in rows if s == 'undecided'][:40],
        'samples': [' | '.join((n, o, s)) for n, o, s, _, _, _ in rows[::max(1, len(rows) // 12)]][:14],
        'rule': spec.get('rule', 'value graphs of code and model are the same function of the file bytes'),
    }
    ev = {'property': pid, 'tier': 'thorough' if thorough else 'quick', 'seed': frame.SEED,
          'level': spec.get('level', 'translation_validation'), 'coverage': cov,
          'assumptions': spec.get('assumptions', registry.ASSUMPTIONS), 'wall_s': round(time.time() - t0, 2),
          'violations': len(bad)}
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w', encoding='utf-8') as fh:
        json.dump(ev, fh, indent=1)
    print('%s: %d obligations in %d contexts: %s (%.1f s)' % (
        pid, len(rows), len(jobs), ', '.join('%d %s' % (v, k) for k, v in sorted(count.items())), time.time() - t0))
    for key, text in noted.items():
        print('KNOWN-FINDING: property=%s %s' % (pid, text))
    if bad:
        path = os.path.join(HERE, 'evidence', 'replay', pid + '.txt')
        with open(path, 'w', encoding='utf-8') as fh:
            for name, ob, detail, where in bad:
                fh.write('context:    %s\nobligation: %s\nwhere:      %s\n%s\n\n' % (name, ob, where, detail))
        for name, ob, detail, where in bad[:5]:
            print('  %s | %s\n    at %s\n    %s' % (name, ob, where, frame.cut(detail, 500)))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if load_error:
        print('cannot analyse the package: ' + load_error)
        return 2
    if not disc and not noted:
        print('no obligation could be decided: the analysed entry points are gone or out of reach')
        for n, o, s, d, w, _ in rows[:5]:
            print('  %s | %s | %s | %s' % (n, o, d, w))
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
