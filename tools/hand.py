"""Behaviour-preserving edits made by hand: every check must stay quiet on every one of them.

    python3 -m tools.hand [NAME...] [-v] [--test]

tools/refactorings/*.py: EDITS = [(name, file, old text, new text)]; each edit is applied alone to a copy of /repo.
"""
import glob
import importlib.util
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.setrecursionlimit(6000)


def load():
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, 'refactorings', '*.py'))):
        sp = importlib.util.spec_from_file_location('edits_' + os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        for name, path, *pairs in m.EDITS:
            out.append((name, path, list(zip(pairs[::2], pairs[1::2]))))
    return out


def one(job):
    name, path, pairs = job
    from sa.project import Project
    import sa.project as PP
    from sa.spec import load_specs, api_of, known_words, compare, Comparer
    d = '/tmp/hk_' + name if '--keep' in sys.argv else tempfile.mkdtemp(prefix='/tmp/hr_')
    if '--keep' in sys.argv and os.path.isdir(d):
        shutil.rmtree(d)
    try:
        for x in ('plaschem', 'pygmo_fwork'):
            shutil.copytree(os.path.join('/repo', x), os.path.join(d, x))
        p = os.path.join(d, path)
        src = open(p).read()
        for old, new in pairs:
            old, new = old.strip('\n'), new.strip('\n')
            if src.count(old) == 0:
                # blank lines and comment lines in between do not matter
                rx = r'\n(?:[ \t]*(?:#[^\n]*)?\n)*'.join(re.escape(x) for x in old.split('\n') if x.strip())
                found = re.findall(rx, src)
                old = found[0] if len(found) == 1 else old
            if src.count(old) != 1:
                return 'stale', '%d occurrences of %r' % (src.count(old), old[:60])
            src = src.replace(old, new)
        open(p, 'w').write(src)
        try:
            compile(src, path, 'exec')
        except SyntaxError as e:
            return 'syntax', str(e)
        if '--test' in sys.argv:
            for x in os.listdir('/repo'):
                if x not in ('plaschem', 'pygmo_fwork', '.git'):
                    q = os.path.join('/repo', x)
                    (shutil.copytree if os.path.isdir(q) else shutil.copy)(q, os.path.join(d, x))
            r = subprocess.run([sys.executable, '-m', 'pytest', '-q', '-x', '--deselect', 'none', 'tests'], cwd=d,
                               capture_output=True, text=True)
        PP.REPO = d
        P = Project(d)
        S = load_specs(P)
        api = api_of(S)
        words = known_words(P, S)
        mod = path[:-3].replace('/', '.')
        res = []
        for s in S:
            v = compare(Comparer(P, api), s, words)
            if v.status != 'ok':
                res.append('%s %s %s' % (v.status, v.target, v.detail[:int(os.environ.get('W', 300))]))
        st = 'violated' if any(r.startswith('violated') for r in res) else 'unknown' if res else 'ok'
        return st, '\n      '.join(res)
    finally:
        if '--keep' not in sys.argv:
            shutil.rmtree(d)


def main():
    from sa import pool
    names = [a for a in sys.argv[1:] if not a.startswith('-')]
    jobs = [j for j in load() if not names or any(n in j[0] for n in names)]
    count = {}
    for j, r in zip(jobs, pool.run(one, jobs, seconds=200)):
        st, det = r[1] if r[0] == 'ok' else (r[0], str(r[1])[-600:])
        count[st] = count.get(st, 0) + 1
        if st != 'ok':
            print(st, j[0], '\n      ' + det)
    print(count)


if __name__ == '__main__':
    main()
