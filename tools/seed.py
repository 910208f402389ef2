"""Development tool: build and confirm planted changes.  usage: seed.py FILE.py [ID...]
FILE.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]"""
import json, os, subprocess, sys, tempfile, xml.etree.ElementTree as ET
SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
REPO = '/repo'
PY = '/opt/venv/bin/python'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def stable_ok():
    out = tempfile.mktemp(suffix='.json')
    sh('bash /opt/vp/test.sh %s' % out)
    r = json.load(open(out))
    os.unlink(out)
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    passed = set(r.get('passed') or [k for k, v in r.get('tests', {}).items() if v == 'passed'])
    bad = [b for b in base if b not in passed]
    return bad


def demo(d):
    return sh('bash %s/demo.sh' % d, cwd=REPO, timeout=300)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    assert not sh('git -C /repo status --short').stdout.strip(), 'repo not clean'
    for s in ns['SEEDS']:
        if only and s['id'] not in only:
            continue
        d = os.path.join(SEEDED, s['id'])
        os.makedirs(d, exist_ok=True)
        try:
            for f, old, new in s['edits']:
                p = os.path.join(REPO, f)
                t = open(p).read()
                assert t.count(old) == 1, (s['id'], f, t.count(old), old)
                open(p, 'w').write(t.replace(old, new))
            diff = sh('git -C /repo diff').stdout
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            open(os.path.join(d, 'demo.py'), 'w').write(
                'import os, sys, warnings\nsys.path.insert(0, os.getcwd())\nwarnings.simplefilter("ignore")\n'
                'os.environ.setdefault("MPLBACKEND", "Agg")\n' + s['demo'].lstrip('\n'))
            open(os.path.join(d, 'demo.sh'), 'w').write(
                '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                      open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            w = demo(d)
            bad = stable_ok() if w.returncode else ['(skipped)']
            chk = sh('python3 run.py %s' % s['property'], cwd=os.path.dirname(SEEDED))
        finally:
            sh('git -C /repo checkout -- .')
        c = demo(d)
        ok = w.returncode != 0 and c.returncode == 0 and not bad
        print('%-8s %-4s %s demo(patched)=%d demo(clean)=%d tests=%s check=%d %s' % (
            s['id'], s['property'], 'OK ' if ok else 'BAD', w.returncode, c.returncode, bad[:3] or 'ok', chk.returncode,
            'caught' if 'VIOLATION property=%s' % s['property'] in chk.stdout else 'MISSED'), flush=True)
        if w.returncode and 'Assert' not in w.stderr:
            print('   patched stderr:', w.stderr.strip()[-300:])
        if c.returncode:
            print('   clean stderr:', c.stderr.strip()[-500:])
        if not ok and '--keep' not in sys.argv:
            pass


main()
