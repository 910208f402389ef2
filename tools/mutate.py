"""Measure the comparison: mutants of every function against its own original (development tool, not used by a check).
usage: mutate.py MODULE-SUBSTRING [FUNC-SUBSTRING] [-v] [-n MAX]"""
import ast, copy, os, random, sys, time, collections
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.project import Project, Module, Func
from sa.spec import *
from sa.spec import compare_funcs, words_of


def mutants(fn):
    """(description, mutated function node)"""
    nodes = list(ast.walk(fn))
    names = sorted({n.id for n in nodes if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)} |
                   {a.arg for a in fn.args.args})
    local = sorted({n.id for n in nodes if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} |
                   {a.arg for a in fn.args.args if a.arg not in ('self', 'cls')})

    def variant(i, change):
        new = copy.deepcopy(fn)
        n = list(ast.walk(new))[i]
        r = change(n, new)
        if r is False:
            return None
        ast.fix_missing_locations(new)
        return new
    skip = set()
    for n in nodes:
        if isinstance(n, ast.Raise) or isinstance(n, ast.Assert) and False:
            for z in ast.walk(n):
                skip.add(id(z))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.add(id(n.value))
            skip.add(id(n))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('print', 'warn'):
            for z in ast.walk(n):
                skip.add(id(z))
    rnd = random.Random(1)
    for i, n in enumerate(nodes):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare):
            flip = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq,
                    ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
            t = flip.get(type(n.ops[0]))
            if t:
                def ch(m, new, t=t):
                    m.ops[0] = t()
                yield 'cmp@%d' % n.lineno, variant(i, ch)
        if isinstance(n, (ast.BinOp, ast.AugAssign)):
            t = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}.get(type(n.op))
            if t and not (isinstance(n, ast.BinOp) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                def ch(m, new, t=t):
                    m.op = t()
                yield 'op@%d' % n.lineno, variant(i, ch)
        if isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None:
            def ch(m, new):
                m.value = (not m.value) if isinstance(m.value, bool) else m.value + 1
            yield 'const@%d %r' % (n.lineno, n.value), variant(i, ch)
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            def ch(m, new):
                m.value = m.value + 'x'
            yield 'str@%d %r' % (n.lineno, n.value[:20]), variant(i, ch)
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            def ch(m, new):
                m.test = ast.UnaryOp(ast.Not(), m.test)
            yield 'neg@%d' % n.lineno, variant(i, ch)
            if isinstance(n, ast.If):
                for v in (True, False):
                    def ch(m, new, v=v):
                        m.test = ast.Constant(v)
                    yield 'if%s@%d' % (v, n.lineno), variant(i, ch)
        if isinstance(n, ast.BoolOp):
            def ch(m, new):
                m.op = ast.Or() if isinstance(m.op, ast.And) else ast.And()
            yield 'bool@%d' % n.lineno, variant(i, ch)
        if isinstance(n, ast.Call):
            for k in range(len(n.keywords)):
                def ch(m, new, k=k):
                    del m.keywords[k]
                yield 'dropkw@%d %s' % (n.lineno, n.keywords[k].arg), variant(i, ch)
            if len(n.args) >= 2:
                def ch(m, new):
                    m.args[0], m.args[1] = m.args[1], m.args[0]
                yield 'swapargs@%d' % n.lineno, variant(i, ch)
            if len(n.args) == 1 and not n.keywords and isinstance(n.func, ast.Name) and n.func.id in (
                    'list', 'dict', 'set', 'sorted', 'float', 'int', 'str', 'tuple', 'deepcopy', 'copy', 'OrderedDict'):
                def ch(m, new):
                    for p in ast.walk(new):
                        for f, v in ast.iter_fields(p):
                            if v is m:
                                setattr(p, f, m.args[0])
                            elif isinstance(v, list) and m in v:
                                v[v.index(m)] = m.args[0]
                yield 'unwrap@%d %s' % (n.lineno, n.func.id), variant(i, ch)
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy',) and not n.args:
                def ch(m, new):
                    for p in ast.walk(new):
                        for f, v in ast.iter_fields(p):
                            if v is m:
                                setattr(p, f, m.func.value)
                            elif isinstance(v, list) and m in v:
                                v[v.index(m)] = m.func.value
                yield 'nocopy@%d' % n.lineno, variant(i, ch)
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Continue, ast.Break, ast.Assert)) or \
                isinstance(n, ast.Return) and n.value is not None:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                # deleting is only realistic for re-assignments
                if sum(1 for z in nodes if isinstance(z, ast.Name) and isinstance(z.ctx, ast.Store) and
                       z.id == n.targets[0].id) < 2:
                    continue
            def ch(m, new):
                for p in ast.walk(new):
                    for f, v in ast.iter_fields(p):
                        if isinstance(v, list) and any(z is m for z in v):
                            v[[z is m for z in v].index(True)] = ast.Pass()
            yield 'del@%d %s' % (n.lineno, ast.unparse(n)[:30]), variant(i, ch)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in local and len(local) > 1:
            o = rnd.choice([x for x in local if x != n.id])

            def ch(m, new, o=o):
                m.id = o
            yield 'name@%d %s->%s' % (n.lineno, n.id, o), variant(i, ch)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    verbose = '-v' in sys.argv
    p = Project()
    for c in p.classes.values():
        pass
    words = set()
    for m in p.modules.values():
        words |= words_of(m, p)
    api = set()
    for c in p.classes.values():
        for n in c.methods:
            if not n.startswith('_'):
                api.add((c.name, n))
    tot = collections.Counter()
    bykind = collections.defaultdict(collections.Counter)
    for m in list(p.modules.values()):
        if args and args[0] not in m.name:
            continue
        funcs = list(m.functions.values()) + [f for c in m.classes.values() for f in c.methods.values()]
        for f in funcs:
            if len(args) > 1 and args[1] not in f.qualname:
                continue
            t0 = time.time()
            cnt = collections.Counter()
            C = Comparer(p, api)
            asp = 'returns raises fields effects'.split()
            s, d = compare_funcs(C, f, f.cls, f, f.cls, asp, words, '*')
            if s != 'ok':
                print('SELF', f.qualname, s, d)
            orig = f.node
            for desc, node in mutants(orig):
                if node is None:
                    continue
                g = Func(node, f.module, f.cls)
                g.kind, g.is_property = f.kind, f.is_property
                try:
                    s, d = compare_funcs(C, f, f.cls, g, f.cls, asp, words, '*')
                except Exception as e:
                    s, d = 'CRASH', repr(e)
                cnt[s] += 1
                bykind[desc.split('@')[0]][s] += 1
                if verbose and s != 'violated' or s == 'CRASH':
                    print('   ', s, desc, d[:300])
            tot.update(cnt)
            print('%-60s %s %.1fs' % (f.qualname, dict(cnt), time.time() - t0), flush=True)
    print(dict(tot))
    for k, v in sorted(bykind.items()):
        print('  %-10s %s' % (k, dict(v)))


main()
