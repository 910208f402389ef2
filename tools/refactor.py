"""Development tool: rewrite the whole repository with one behaviour-preserving rewriting and compare all specifications.
usage: refactor.py KIND [KIND...] [--keep] [--test]      (kinds: see KINDS; 'all')"""
import ast, collections, copy, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(10000)

KINDS = {}


def kind(f):
    KINDS[f.__name__] = f
    return f


def functions(tree):
    """(function node, class node or None) for all functions not nested in functions"""
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            yield n, None
        if isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, ast.FunctionDef):
                    yield m, n


def blocks(fn):
    """all statement lists of a function"""
    for n in ast.walk(fn):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, f, b


def params(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + \
        ([a.kwarg.arg] if a.kwarg else [])


def locals_of(fn):
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn:
            pass
    g = {x for n in ast.walk(fn) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
    return out - g


def simple(e):
    return isinstance(e, (ast.Name, ast.Constant)) or isinstance(e, ast.Attribute) and simple(e.value)


def has_nested(fn):
    return any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and n is not fn for n in ast.walk(fn))


def has_super(fn):
    return any(isinstance(n, ast.Name) and n.id in ('super', '__class__', 'locals') for n in ast.walk(fn))


class Fresh(object):
    n = 0

    def __call__(self, base):
        Fresh.n += 1
        return '%s_%d' % (base, Fresh.n)


fresh = Fresh()


def name(i, store=False):
    return ast.Name(i, ast.Store() if store else ast.Load())


@kind
def rename(tree):
    """all locals renamed"""
    for fn, c in functions(tree):
        if has_nested(fn) and any(isinstance(n, ast.FunctionDef) and n is not fn for n in ast.walk(fn)):
            continue
        ls = locals_of(fn) - set(params(fn))
        mp = {x: 'zz_%s' % x[::-1] for x in ls if not x.startswith('__')}
        lam = {a.arg for n in ast.walk(fn) if isinstance(n, ast.Lambda) for a in n.args.args}
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and n.id in mp and n.id not in lam:
                n.id = mp[n.id]
            if isinstance(n, ast.ExceptHandler) and n.name in mp:
                n.name = mp[n.name]


@kind
def temp(tree):
    """every assigned / returned / tested expression goes through a temporary"""
    for fn, c in functions(tree):
        for n, f, b in list(blocks(fn)):
            out = []
            for s in b:
                if isinstance(s, ast.Return) and s.value is not None and not simple(s.value):
                    t = fresh('res')
                    out += [ast.Assign([name(t, True)], s.value), ast.Return(name(t))]
                elif isinstance(s, ast.Assign) and not simple(s.value) and len(s.targets) == 1 and \
                        not isinstance(s.targets[0], ast.Name):
                    t = fresh('val')
                    out += [ast.Assign([name(t, True)], s.value), ast.Assign(s.targets, name(t))]
                elif isinstance(s, ast.If) and not simple(s.test):
                    if f == 'orelse' and isinstance(n, ast.If) and len(b) == 1:
                        t = fresh('cond')
                        out += [ast.Assign([name(t, True)], s.test), ast.If(name(t), s.body, s.orelse)]
                    else:
                        t = fresh('cond')
                        out += [ast.Assign([name(t, True)], s.test), ast.If(name(t), s.body, s.orelse)]
                elif isinstance(s, ast.For) and not simple(s.iter):
                    t = fresh('seq')
                    out += [ast.Assign([name(t, True)], s.iter), ast.For(s.target, name(t), s.body, s.orelse)]
                else:
                    out.append(s)
            b[:] = out


@kind
def argtemp(tree):
    """the arguments of the outermost call of a statement go through temporaries"""
    for fn, c in functions(tree):
        for n, f, b in list(blocks(fn)):
            out = []
            for s in b:
                v = getattr(s, 'value', None)
                if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and isinstance(v, ast.Call) and \
                        (isinstance(v.func, ast.Name) and v.func.id != 'super' or isinstance(v.func, ast.Attribute)
                         and simple(v.func)) and not any(isinstance(a, ast.Starred) for a in v.args) and \
                        not any(isinstance(a, (ast.GeneratorExp)) for a in v.args):
                    for i, a in enumerate(v.args):
                        if not simple(a):
                            t = fresh('arg')
                            out.append(ast.Assign([name(t, True)], a))
                            v.args[i] = name(t)
                    for k in v.keywords:
                        if k.arg is not None and not simple(k.value):
                            t = fresh('kw')
                            out.append(ast.Assign([name(t, True)], k.value))
                            k.value = name(t)
                out.append(s)
            b[:] = out


def count_names(x, i):
    return sum(1 for n in ast.walk(x) if isinstance(n, ast.Name) and n.id == i)


@kind
def inline(tree):
    """a local assigned once and used once, in the next statement, is inlined (into its first evaluated position only)"""
    for fn, c in functions(tree):
        for n, f, b in list(blocks(fn)):
            i = 0
            while i + 1 < len(b):
                s, t = b[i], b[i + 1]
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and \
                        isinstance(t, (ast.Assign, ast.Return, ast.Expr)) and t.value is not None:
                    v = s.targets[0].id
                    tot = count_names(fn, v)
                    if tot == 2 and count_names(t.value, v) == 1:
                        bad = [m for m in ast.walk(t.value) if isinstance(m, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp,
                                                                             ast.GeneratorExp, ast.IfExp, ast.BoolOp))]
                        if not any(count_names(m, v) for m in bad):
                            class R(ast.NodeTransformer):
                                def visit_Name(self, m):
                                    return s.value if m.id == v and isinstance(m.ctx, ast.Load) else m
                            t.value = R().visit(t.value)
                            del b[i]
                            continue
                i += 1


def negate(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        flip = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot,
                ast.IsNot: ast.Is}
        o = flip.get(type(t.ops[0]))
        if o:
            return ast.Compare(t.left, [o()], t.comparators)
    return ast.UnaryOp(ast.Not(), t)


@kind
def invert(tree):
    """if / else and conditional expressions with the negated test"""
    for fn, c in functions(tree):
        for n in list(ast.walk(fn)):
            if isinstance(n, ast.If) and n.orelse:
                n.test = negate(n.test)
                n.body, n.orelse = n.orelse, n.body
            elif isinstance(n, ast.IfExp):
                n.test = negate(n.test)
                n.body, n.orelse = n.orelse, n.body


def ends(b):
    return bool(b) and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


@kind
def elseify(tree):
    """`if c: ...return` followed by the rest -> else branch"""
    for fn, c in functions(tree):
        for n, f, b in sorted(list(blocks(fn)), key=lambda z: 0):
            for i, s in enumerate(b):
                if isinstance(s, ast.If) and not s.orelse and ends(s.body) and i + 1 < len(b):
                    s.orelse = b[i + 1:]
                    del b[i + 1:]
                    break


@kind
def deelse(tree):
    """`if c: ...return else: rest` -> rest after the if"""
    for fn, c in functions(tree):
        for n, f, b in list(blocks(fn))[::-1]:
            out = []
            for s in b:
                if isinstance(s, ast.If) and s.orelse and ends(s.body):
                    rest = s.orelse
                    s.orelse = []
                    out += [s] + rest
                else:
                    out.append(s)
            b[:] = out


@kind
def guardcontinue(tree):
    """for x in xs: if c: body  ->  if not c: continue; body"""
    for fn, c in functions(tree):
        for n in list(ast.walk(fn)):
            if isinstance(n, ast.For) and isinstance(n.body[-1], ast.If) and not n.body[-1].orelse:
                s = n.body.pop()
                n.body += [ast.If(negate(s.test), [ast.Continue()], [])] + s.body


@kind
def comp2loop(tree):
    """x = [e for v in xs if c] -> loop with append (also return [...]; dict comprehensions)"""
    for fn, c in functions(tree):
        if has_nested(fn):
            continue
        ps = set(params(fn))
        for n, f, b in list(blocks(fn)):
            out = []
            for s in b:
                v = getattr(s, 'value', None)
                if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, (ast.ListComp, ast.DictComp, ast.SetComp)) and \
                        (isinstance(s, ast.Return) or len(s.targets) == 1) and not any(
                            isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store) and
                            (m.id in ps or count_names(fn, m.id) > count_names(v, m.id))
                            for g in v.generators for m in ast.walk(g.target)):
                    t = fresh('acc')
                    if isinstance(v, ast.ListComp):
                        init = ast.List([], ast.Load())
                        body = [ast.Expr(ast.Call(ast.Attribute(name(t), 'append', ast.Load()), [v.elt], []))]
                    elif isinstance(v, ast.SetComp):
                        init = ast.Call(name('set'), [], [])
                        body = [ast.Expr(ast.Call(ast.Attribute(name(t), 'add', ast.Load()), [v.elt], []))]
                    else:
                        init = ast.Dict([], [])
                        body = [ast.Assign([ast.Subscript(name(t), v.key, ast.Store())], v.value)]
                    for g in reversed(v.generators):
                        for cnd in reversed(g.ifs):
                            body = [ast.If(cnd, body, [])]
                        body = [ast.For(g.target, g.iter, body, [])]
                    out += [ast.Assign([name(t, True)], init)] + body
                    s.value = name(t)
                out.append(s)
            b[:] = out


@kind
def loop2comp(tree):
    """acc = []; for v in xs: [if c:] acc.append(e) -> acc = [e for v in xs if c]"""
    for fn, c in functions(tree):
        for n, f, b in list(blocks(fn)):
            i = 0
            while i + 1 < len(b):
                s, t = b[i], b[i + 1]
                if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and isinstance(t, ast.For) and not t.orelse \
                        and (isinstance(s.value, (ast.List, ast.Dict)) and not (getattr(s.value, 'elts', None) or
                                                                              getattr(s.value, 'keys', None))):
                    v = s.targets[0].id
                    gens, body = [], [t]
                    while len(body) == 1 and isinstance(body[0], (ast.For, ast.If)) and not body[0].orelse:
                        x = body[0]
                        if isinstance(x, ast.For):
                            gens.append(ast.comprehension(x.target, x.iter, [], 0))
                        else:
                            gens[-1].ifs.append(x.test)
                        body = x.body
                    e = body[0]
                    if len(body) == 1:
                        if isinstance(e, ast.Expr) and isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Attribute) \
                                and e.value.func.attr == 'append' and isinstance(e.value.func.value, ast.Name) and \
                                e.value.func.value.id == v and isinstance(s.value, ast.List) and \
                                count_names(t, v) == 1:
                            s.value = ast.ListComp(e.value.args[0], gens)
                            del b[i + 1]
                        elif isinstance(e, ast.Assign) and isinstance(e.targets[0], ast.Subscript) and \
                                isinstance(e.targets[0].value, ast.Name) and e.targets[0].value.id == v and \
                                isinstance(s.value, ast.Dict) and count_names(t, v) == 1:
                            s.value = ast.DictComp(e.targets[0].slice, e.value, gens)
                            del b[i + 1]
                i += 1


@kind
def enumerate_loop(tree):
    """for x in xs -> for i, x in enumerate(xs)"""
    for fn, c in functions(tree):
        for n in ast.walk(fn):
            if isinstance(n, ast.For):
                n.target = ast.Tuple([name(fresh('i'), True), n.target], ast.Store())
                n.iter = ast.Call(name('enumerate'), [n.iter], [])


@kind
def whole_helper(tree):
    """the body of every method moves into a private helper called with the same arguments"""
    for n in tree.body:
        if isinstance(n, ast.ClassDef):
            new = []
            for m in n.body:
                if isinstance(m, ast.FunctionDef) and not m.name.startswith('__') and not has_super(m) and \
                        not m.args.vararg and not m.args.kwarg and not m.args.kwonlyargs and \
                        all(isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod') for d in m.decorator_list) \
                        and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(m)):
                    static = any(d.id == 'staticmethod' for d in m.decorator_list)
                    h = copy.deepcopy(m)
                    h.name = '_%s_impl' % m.name.lstrip('_')
                    h.args.defaults = []
                    ps = params(m)
                    doc = [m.body[0]] if isinstance(m.body[0], ast.Expr) and isinstance(m.body[0].value, ast.Constant) else []
                    recv = name(n.name) if static else name(ps[0])
                    m.body = doc + [ast.Return(ast.Call(ast.Attribute(recv, h.name, ast.Load()),
                                                        [name(x) for x in (ps if static else ps[1:])], []))]
                    new.append(h)
            n.body += new


def reads(x):
    return {n.id for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}


@kind
def expr_helper(tree):
    """the longest right-hand side of each method becomes a private method of its own"""
    for n in tree.body:
        if not isinstance(n, ast.ClassDef):
            continue
        new = []
        for m in list(n.body):
            if not isinstance(m, ast.FunctionDef) or has_super(m) or m.name.startswith('__') or has_nested(m):
                continue
            if any(not isinstance(d, ast.Name) or d.id not in ('staticmethod', 'classmethod') for d in m.decorator_list):
                continue
            static = any(d.id == 'staticmethod' for d in m.decorator_list)
            ps = params(m)
            cands = [s for _, _, b in blocks(m) for s in b if isinstance(s, (ast.Assign, ast.Return)) and s.value is not None
                     and not simple(s.value)]
            if not cands:
                continue
            s = max(cands, key=lambda z: len(ast.unparse(z.value)))
            if any(isinstance(x, (ast.Yield, ast.Await, ast.NamedExpr)) for x in ast.walk(s.value)):
                continue
            bound = {y.id for x in ast.walk(s.value) if isinstance(x, ast.comprehension) for y in ast.walk(x.target)
                     if isinstance(y, ast.Name)}
            ls = locals_of(m) | set(ps)
            args = sorted((reads(s.value) & ls) - bound - (set() if static else {ps[0]}))
            hn = '_%s_value' % m.name.lstrip('_')
            al = ([] if static else [ps[0]]) + args
            h = ast.FunctionDef(hn, ast.arguments([], [ast.arg(a) for a in al], None, [], [], None, []),
                                [ast.Return(s.value)], copy.deepcopy(m.decorator_list))
            recv = name(n.name) if static else name(ps[0])
            s.value = ast.Call(ast.Attribute(recv, hn, ast.Load()), [name(a) for a in args], [])
            new.append(h)
        n.body += new


@kind
def loop_helper(tree):
    """the body of the first for loop of each method becomes a private method (mutating its arguments)"""
    for n in tree.body:
        if not isinstance(n, ast.ClassDef):
            continue
        new = []
        for m in list(n.body):
            if not isinstance(m, ast.FunctionDef) or has_super(m) or m.name.startswith('__') or has_nested(m):
                continue
            if any(not isinstance(d, ast.Name) or d.id not in ('staticmethod', 'classmethod') for d in m.decorator_list):
                continue
            static = any(d.id == 'staticmethod' for d in m.decorator_list)
            ps = params(m)
            for s in ast.walk(m):
                if not isinstance(s, ast.For) or s.orelse:
                    continue
                inner = [x for b in s.body for x in ast.walk(b)]
                if any(isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Yield)) for x in inner):
                    continue
                stored = {x.id for x in inner if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | \
                    {x.target.id for x in inner if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
                outer = copy.deepcopy(m)
                if any(count_names(m, v) > sum(count_names(b, v) for b in s.body) for v in stored):
                    continue
                ls = locals_of(m) | set(ps)
                rd = set()
                for b in s.body:
                    rd |= reads(b)
                args = sorted((rd & ls) - stored - (set() if static else {ps[0]}))
                hn = '_%s_step' % m.name.lstrip('_')
                al = ([] if static else [ps[0]]) + args
                h = ast.FunctionDef(hn, ast.arguments([], [ast.arg(a) for a in al], None, [], [], None, []),
                                    s.body, copy.deepcopy(m.decorator_list))
                recv = name(n.name) if static else name(ps[0])
                s.body = [ast.Expr(ast.Call(ast.Attribute(recv, hn, ast.Load()), [name(a) for a in args], []))]
                new.append(h)
                break
        n.body += new


@kind
def format_style(tree):
    """'{}'.format(x) -> f-string, '%s' % x -> str.format"""
    class R(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) and \
                    isinstance(n.func.value.value, str) and not n.keywords and \
                    not any(isinstance(a, ast.Starred) for a in n.args):
                import string
                parts, i = [], 0
                try:
                    for lit, fld, spec, conv in string.Formatter().parse(n.func.value.value):
                        if lit:
                            parts.append(ast.Constant(lit))
                        if fld is not None:
                            if fld not in ('',) and not fld.isdigit() or spec and '{' in spec:
                                return n
                            k = int(fld) if fld else i
                            i += 1
                            parts.append(ast.FormattedValue(n.args[k], ord(conv) if conv else -1,
                                                            ast.JoinedStr([ast.Constant(spec)]) if spec else None))
                except Exception:
                    return n
                return ast.JoinedStr(parts)
            return n
    for fn, c in functions(tree):
        R().visit(fn)


@kind
def augment(tree):
    """x += e on a local scalar name -> x = x + e   (only when x starts as a number or string)"""
    for fn, c in functions(tree):
        init = {}
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                init.setdefault(n.targets[0].id, []).append(n.value)
        for nd, f, b in list(blocks(fn)):
            for i, s in enumerate(b):
                if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and \
                        all(isinstance(v, (ast.Constant, ast.JoinedStr)) for v in init.get(s.target.id, [None])):
                    b[i] = ast.Assign([name(s.target.id, True)], ast.BinOp(name(s.target.id), s.op, s.value))


@kind
def flip(tree):
    """a < b -> b > a, a == b -> b == a, De Morgan on conditions"""
    class R(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            f = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
            if len(n.ops) == 1 and type(n.ops[0]) in f:
                return ast.Compare(n.comparators[0], [f[type(n.ops[0])]()], [n.left])
            return n

        def visit_If(self, n):
            self.generic_visit(n)
            if isinstance(n.test, ast.BoolOp):
                o = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
                n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(o, [negate(v) for v in n.test.values]))
            return n
    for fn, c in functions(tree):
        R().visit(fn)


@kind
def ifexp2if(tree):
    """x = a if c else b -> if statement; return likewise"""
    for fn, c in functions(tree):
        for n, f, b in list(blocks(fn)):
            out = []
            for s in b:
                v = getattr(s, 'value', None)
                if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, ast.IfExp):
                    a, d = copy.deepcopy(s), copy.deepcopy(s)
                    a.value, d.value = v.body, v.orelse
                    out.append(ast.If(v.test, [a], [d]))
                else:
                    out.append(s)
            b[:] = out


@kind
def if2ifexp(tree):
    """if c: x = a else: x = b -> x = a if c else b; if c: return a; return b -> return a if c else b"""
    for fn, c in functions(tree):
        for n, f, b in list(blocks(fn)):
            i = 0
            while i < len(b):
                s = b[i]
                if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and \
                        isinstance(s.body[0], ast.Assign) and isinstance(s.orelse[0], ast.Assign) and \
                        ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]) and \
                        isinstance(s.body[0].targets[0], ast.Name):
                    b[i] = ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))
                elif isinstance(s, ast.If) and len(s.body) == 1 and not s.orelse and isinstance(s.body[0], ast.Return) and \
                        s.body[0].value is not None and i + 1 < len(b) and isinstance(b[i + 1], ast.Return) and \
                        b[i + 1].value is not None:
                    b[i] = ast.Return(ast.IfExp(s.test, s.body[0].value, b[i + 1].value))
                    del b[i + 1]
                i += 1


def effects_of(s):
    """(reads, writes, calls?) of a simple statement"""
    w = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    return reads(s), w


PURE = {'len', 'list', 'tuple', 'set', 'dict', 'sorted', 'sum', 'max', 'min', 'float', 'int', 'str', 'range', 'zip', 'isinstance',
        'abs', 'round', 'OrderedDict'}


def pure_assign(s):
    if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)):
        return False
    for n in ast.walk(s.value):
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name) and f.id in PURE:
                continue
            if isinstance(f, ast.Attribute) and (f.attr.startswith(('get_', 'is_')) or f.attr in (
                    'copy', 'array', 'zeros', 'ones', 'sum', 'mean', 'keys', 'values', 'items', 'join', 'format', 'strip')):
                continue
            return False
        if isinstance(n, (ast.Subscript,)) and False:
            return False
    return True


@kind
def reorder(tree):
    """adjacent independent assignments swapped"""
    for fn, c in functions(tree):
        for n, f, b in list(blocks(fn)):
            i = 0
            while i + 1 < len(b):
                s, t = b[i], b[i + 1]
                if pure_assign(s) and pure_assign(t):
                    r1, w1 = effects_of(s)
                    r2, w2 = effects_of(t)
                    if not (w1 & (r2 | w2) or w2 & r1):
                        b[i], b[i + 1] = t, s
                        i += 1
                i += 1


@kind
def noop(tree):
    """statements that do nothing"""
    for fn, c in functions(tree):
        i = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
        fn.body.insert(i, ast.Assign([name('_unused', True)], ast.Constant(None)))
        for n, f, b in list(blocks(fn)):
            if n is not fn:
                b.insert(0, ast.Pass())


@kind
def self_alias(tree):
    """reads of self.x (x never assigned in the method) used more than once go through a local"""
    for fn, c in functions(tree):
        ps = params(fn)
        if c is None or not ps or ps[0] != 'self' or has_nested(fn):
            continue
        if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and
               n.func.value.id == 'self' and not n.func.attr.startswith(('get_', 'is_')) for n in ast.walk(fn)):
            continue
        stored = {n.attr for n in ast.walk(fn) if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del))}
        cnt = collections.Counter()
        called = {n.func.attr for n in ast.walk(fn) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)}
        for n in ast.walk(fn):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' and \
                    isinstance(n.ctx, ast.Load):
                cnt[n.attr] += 1
        props = {m.name for m in c.body if isinstance(m, ast.FunctionDef)}
        i = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
        first = set()
        for a, k in cnt.items():
            if k < 2 or a in stored or a in called or a in props:
                continue
            # must certainly exist: only when read in the first statement
            if not any(isinstance(n, ast.Attribute) and n.attr == a for n in ast.walk(fn.body[i])) or \
                    isinstance(fn.body[i], (ast.If, ast.For, ast.While, ast.Try)):
                continue
            v = fresh('my_%s' % a)
            for n in ast.walk(fn):
                for fld, x in ast.iter_fields(n):
                    if isinstance(x, ast.Attribute) and x.attr == a and isinstance(x.value, ast.Name) and x.value.id == 'self':
                        setattr(n, fld, name(v))
                    elif isinstance(x, list):
                        for j, y in enumerate(x):
                            if isinstance(y, ast.Attribute) and y.attr == a and isinstance(y.value, ast.Name) and y.value.id == 'self':
                                x[j] = name(v)
            fn.body.insert(i, ast.Assign([name(v, True)], ast.Attribute(name('self'), a, ast.Load())))


@kind
def any2loop(tree):
    """if any(c for x in xs): body -> flag loop"""
    for fn, c in functions(tree):
        if has_nested(fn):
            continue
        for n, f, b in list(blocks(fn)):
            out = []
            for s in b:
                t = s.test if isinstance(s, ast.If) else None
                neg = isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not)
                q = t.operand if neg else t
                if q is not None and isinstance(q, ast.Call) and isinstance(q.func, ast.Name) and q.func.id in ('any', 'all') and \
                        len(q.args) == 1 and isinstance(q.args[0], (ast.GeneratorExp, ast.ListComp)) and \
                        len(q.args[0].generators) == 1 and not (f == 'orelse' and isinstance(n, ast.If) and len(b) == 1):
                    g = q.args[0].generators[0]
                    v = fresh('flag')
                    cond = q.args[0].elt if q.func.id == 'any' else negate(q.args[0].elt)
                    body = [ast.If(cond, [ast.Assign([name(v, True)], ast.Constant(q.func.id == 'any')), ast.Break()], [])]
                    for cnd in reversed(g.ifs):
                        body = [ast.If(cnd, body, [])]
                    out.append(ast.Assign([name(v, True)], ast.Constant(q.func.id != 'any')))
                    out.append(ast.For(g.target, g.iter, body, []))
                    s.test = ast.UnaryOp(ast.Not(), name(v)) if neg else name(v)
                out.append(s)
            b[:] = out


@kind
def forelse(tree):
    """for: if c: return a / else: raise b -> the else body after the loop"""
    for fn, c in functions(tree):
        for n, f, b in list(blocks(fn)):
            out = []
            for s in b:
                out.append(s)
                if isinstance(s, ast.For) and s.orelse and not any(isinstance(x, ast.Break) for x in ast.walk(s)):
                    out += s.orelse
                    s.orelse = []
            b[:] = out


@kind
def range_loop(tree):
    """for i, x in enumerate(xs) over a local list -> for i in range(len(xs)): x = xs[i]"""
    for fn, c in functions(tree):
        for n in ast.walk(fn):
            if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and \
                    n.iter.func.id == 'enumerate' and len(n.iter.args) == 1 and isinstance(n.target, ast.Tuple) and \
                    isinstance(n.iter.args[0], ast.Name):
                xs, (i, x) = n.iter.args[0], n.target.elts
                if not isinstance(i, ast.Name):
                    continue
                n.target = i
                n.iter = ast.Call(name('range'), [ast.Call(name('len'), [xs], [])], [])
                n.body.insert(0, ast.Assign([x], ast.Subscript(name(xs.id), name(i.id), ast.Load())))


@kind
def kwargs_style(tree):
    """keyword arguments in another order"""
    for fn, c in functions(tree):
        for n in ast.walk(fn):
            if isinstance(n, ast.Call) and len(n.keywords) > 1 and all(k.arg for k in n.keywords):
                n.keywords = n.keywords[::-1]


@kind
def chain_assign(tree):
    """nested if -> and"""
    for fn, c in functions(tree):
        for n in list(ast.walk(fn)):
            if isinstance(n, ast.If) and not n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.If) and \
                    not n.body[0].orelse:
                m = n.body[0]
                n.test = ast.BoolOp(ast.And(), [n.test, m.test])
                n.body = m.body


@kind
def split_and(tree):
    """if a and b: -> nested ifs"""
    for fn, c in functions(tree):
        for n in list(ast.walk(fn)):
            if isinstance(n, ast.If) and not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
                vs = n.test.values
                body = n.body
                for v in reversed(vs[1:]):
                    body = [ast.If(v, body, [])]
                n.test, n.body = vs[0], body


@kind
def split_or(tree):
    """if a or b: raise/return -> two ifs"""
    for fn, c in functions(tree):
        for n, f, b in list(blocks(fn)):
            out = []
            for s in b:
                if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.Or) and \
                        len(s.body) == 1 and ends(s.body):
                    for v in s.test.values:
                        out.append(ast.If(v, copy.deepcopy(s.body), []))
                else:
                    out.append(s)
            b[:] = out


@kind
def var_guard(tree):
    """single result variable instead of early returns: if c: return a; return b"""
    for fn, c in functions(tree):
        b = fn.body
        if len(b) >= 2 and isinstance(b[-1], ast.Return) and b[-1].value is not None and isinstance(b[-2], ast.If) and \
                not b[-2].orelse and isinstance(b[-2].body[-1], ast.Return) and b[-2].body[-1].value is not None and \
                sum(isinstance(x, ast.Return) for x in ast.walk(b[-2])) == 1:
            v = fresh('result')
            i = b[-2]
            i.body[-1] = ast.Assign([name(v, True)], i.body[-1].value)
            i.orelse = [ast.Assign([name(v, True)], b[-1].value)]
            b[-1] = ast.Return(name(v))


def build(kinds, src, dst):
    for top in ('plaschem', 'pygmo_fwork'):
        for d, _, fs in os.walk(os.path.join(src, top)):
            for f in fs:
                p = os.path.join(d, f)
                q = os.path.join(dst, os.path.relpath(p, src))
                os.makedirs(os.path.dirname(q), exist_ok=True)
                if not f.endswith('.py') or 'test' in f:
                    shutil.copy(p, q)
                    continue
                tree = ast.parse(open(p).read())
                for k in kinds:
                    KINDS[k](tree)
                    tree = ast.parse(ast.unparse(ast.fix_missing_locations(tree)))
                open(q, 'w').write(ast.unparse(tree))


def evaluate(root):
    from sa.project import Project
    from sa.spec import load_specs, api_of, known_words, Comparer, compare
    from sa import pool
    p = Project(root)
    specs = load_specs(p)
    api, words = api_of(specs), known_words(p, specs)

    def one(s):
        v = compare(Comparer(p, api), s, words)
        return v.status, v.target, v.where, v.detail
    cnt = collections.Counter()
    bad = []
    for s, r in zip(specs, pool.run(one, specs, seconds=60)):
        v = r[1] if r[0] == 'ok' else (r[0], '%s.%s' % (s.cls_name, s.name), '', r[1][-200:])
        cnt[v[0]] += 1
        if v[0] != 'ok':
            bad.append(v)
    return cnt, bad


def main():
    ks = [a for a in sys.argv[1:] if not a.startswith('-')]
    if ks == ['all']:
        ks = list(KINDS)
    width = int(os.environ.get('W', '300'))
    for k in ks:
        d = tempfile.mkdtemp(prefix='/tmp/rf_')
        try:
            build(k.split('+'), '/repo', d)
            cnt, bad = evaluate(d)
            print('%-16s %s' % (k, dict(cnt)), flush=True)
            for v in bad:
                if v[0] == 'violated' or '-v' in sys.argv:
                    print('    ', v[0], v[1], v[3][:width])
            if '--test' in sys.argv:
                w = tempfile.mkdtemp(prefix='/tmp/rft_')
                subprocess.run('cp -a /repo/. %s && cp -r %s/. %s' % (w, d, w), shell=True)
                r = subprocess.run('/opt/venv/bin/python -m pytest -q -x --co -q . >/dev/null 2>&1; '
                                   '/opt/venv/bin/python -m pytest -q . 2>&1 | tail -8', shell=True, cwd=w, capture_output=True,
                                   text=True)
                print(r.stdout[-600:])
                shutil.rmtree(w)
        finally:
            if '--keep' in sys.argv:
                print(d)
            else:
                shutil.rmtree(d)


if __name__ == '__main__':
    main()
