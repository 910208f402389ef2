#!/usr/bin/env python3
"""run.py PROPERTY: decide one property from the source in /repo.  Exit 0: held; 1: violated; 2: analysis broken."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(6000)

from sa.project import Project, AnalysisBroken            # noqa: E402
from sa import spec as SP, pool, rules                    # noqa: E402
from sa.links import linked                               # noqa: E402


def known_findings(pid):
    out = []
    with open(os.path.join(HERE, 'known_findings.txt')) as f:
        for line in f:
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid):
                key, _, what = line[len('finding: property=%s ' % pid):].partition(' :: ')
                out.append((key.strip(), what.strip()))
    return out


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    project = Project()
    specs = SP.load_specs(project)
    api = SP.api_of(specs)
    words = SP.known_words(project, specs)
    mine = [s for s in specs if pid in s.props or linked(pid, s.cls_name, s.name)]
    myrules = rules.for_property(pid)
    seconds = 60 if tier == 'quick' else 180

    def one(item):
        kind, x = item
        t = time.time()
        if kind == 'spec':
            try:
                v = SP.compare(SP.Comparer(project, api), x, words)
            except AnalysisBroken as e:
                private = x.name.startswith('_') and not x.name.startswith('__')
                return [('unknown' if private else 'broken', 'spec:%s' % x.name, '', str(e), 0)]
            return [(v.status, 'spec:%s' % v.target, v.where, v.detail, time.time() - t)]
        try:
            return [(s, 'rule:%s:%s' % (x.__name__, k), w, d, 0) for s, k, w, d in x(project)]
        except AnalysisBroken as e:
            return [('broken', 'rule:%s' % x.__name__, '', str(e), 0)]

    items = [('spec', s) for s in mine] + [('rule', r) for r in myrules]
    results, broken = [], []
    for (kind, x), r in zip(items, pool.run(one, items, seconds=seconds)):
        name = x.__name__ if kind == 'rule' else '%s.%s' % (x.cls_name, x.name)
        if r[0] == 'ok':
            results.extend(r[1])
        elif r[0] == 'timeout':
            results.append(('unknown', '%s:%s' % (kind, name), '', r[1], seconds))
        else:
            results.append(('unknown', '%s:%s' % (kind, name), '', 'analysis error: ' + r[1][-300:], 0))
    broken += ['%s: %s' % (r[1], r[3]) for r in results if r[0] == 'broken']
    count = {}
    for r in results:
        count[r[0]] = count.get(r[0], 0) + 1
    known = known_findings(pid)
    bad = []
    for r in results:
        if r[0] != 'violated':
            continue
        hit = [w for k, w in known if k == r[1]]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (pid, hit[0]))
        else:
            bad.append(r)
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    rep = os.path.join(HERE, 'evidence', 'replay', '%s.txt' % pid)
    with open(rep, 'w') as f:
        for r in bad:
            f.write('%s\n  at %s\n  %s\n\n' % (r[1], r[2], r[3]))
    funcs = sorted({r[2] for r in results if r[2]})
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'Static: each obligation compares the normal form (gated value graph over all paths, exceptions, '
                           'stored fields and effects) of a function of /repo with the normal form of its specification '
                           'function, or evaluates a dedicated dataflow / table rule; nothing is executed.  "violated" '
                           'needs a difference that is certainly a different behaviour; anything else is inconclusive.',
            'obligations': len(results), 'discharged': count.get('ok', 0), 'inconclusive': count.get('unknown', 0),
            'violated': count.get('violated', 0), 'rules': len(myrules), 'specification_functions': len(mine),
            'modules_parsed': len([m for m in project.modules if not m.startswith('spec_')]),
            'functions_analysed': funcs,
            'inconclusive_list': ['%s: %s' % (r[1], r[3][:200]) for r in results if r[0] == 'unknown'],
            'samples': ['%s at %s: %s (%s)' % (r[1], r[2], r[0], r[3][:120]) for r in results[:12]],
        },
        'assumptions': ['numpy, pandas, scipy and the standard library behave as documented',
                        'attributes are not changed from outside by reflection; inputs have the documented types'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(bad),
    }
    with open(os.path.join(HERE, 'evidence', '%s.json' % pid), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print('%s: %d obligations, %s, %.1f s' % (pid, len(results), count, time.time() - t0))
    for r in results:
        if r[0] == 'unknown':
            print('inconclusive: %s %s' % (r[1], r[3][:200]))
    if bad:
        for r in bad:
            print('violated: %s at %s: %s' % (r[1], r[2], r[3][:1500]))
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    for b in broken:
        print('inconclusive: not found: %s' % b)
    if not count.get('ok'):
        print('BROKEN: no obligation was discharged')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
