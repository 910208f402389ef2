"""Specification functions (never executed) and their comparison with the repository's functions on normal forms."""
import ast
import os
from .terms import Term, const, NONE, TRUE, FALSE, is_const, walk, subst, pp, kids
from .project import Project, Module, Class, Func, AnalysisBroken
from .interp import Interp, SELF, conj, first_wrap, STATE_CHANGE
from . import nf as NFM
from . import definite as DEF, edit as EDIT
from .nf import Normaliser, BDD, ITE, AND, OR, NOT, lift, paths, assume, contains_memo

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECDIR = os.path.join(HERE, 'spec')

NOT_UNDERSTOOD = {'last', 'maybe', 'unk', 'yield', 'maybeunbound', 'nondet',
                  'sent', 'starred', 'rest', 'localclass', 'closure', 'never', 'reraise', 'dstar',
                  'partial', 'default', 'while'}
UNDERSTOOD_GLOBALS = {'builtins.' + n for n in (
    'len', 'sum', 'min', 'max', 'abs', 'any', 'all', 'sorted', 'set', 'list', 'tuple', 'dict', 'str', 'int', 'float',
    'bool', 'range', 'enumerate', 'zip', 'isinstance', 'round', 'frozenset', 'type', 'next', 'reversed', 'hash',
    'KeyError', 'ValueError', 'TypeError', 'IndexError', 'AssertionError', 'AttributeError', 'NotImplementedError',
    'RuntimeError', 'open', 'hasattr', 'getattr', 'repr', 'print', 'callable', 'iter', 'map', 'filter', 'slice', 'id')} | {'numpy.' + n for n in (
        'exp', 'sqrt', 'log', 'sum', 'abs', 'zeros', 'ones', 'array', 'dot', 'float64', 'maximum', 'minimum', 'mean',
        'isclose', 'zeros_like', 'ones_like', 'linspace', 'interp', 'pi', 'append', 'concatenate', 'where', 'nan')} | {
    'scipy.constants.k', 'scipy.constants.e', 'scipy.constants.m_e', 'scipy.constants.N_A', 'scipy.constants.pi',
    'scipy.constants.epsilon_0', 'scipy.constants.physical_constants', 'math.pi', 'scipy.constants.elementary_charge',
    'scipy.constants.Boltzmann', 'scipy.constants.c', 'scipy.constants.h', 'scipy.constants.atomic_mass',
    'scipy.constants.electron_mass', 'collections.OrderedDict', 'pandas.Series', 'pandas.DataFrame'}


class SpecView(object):
    """the project as a specification function sees it: private helpers come from the specification class"""

    def __init__(self, project, overrides):
        self._p = project
        self._o = overrides

    def __getattr__(self, n):
        return getattr(self._p, n)

    def method(self, c, name, after=None):
        started = after is None
        for k in c.mro:
            if started:
                f = self._o.get((k.qualname, name)) or k.methods.get(name)
                if f is not None:
                    return f
            if k is after:
                started = True
        return None


class SpecTable(object):
    """a class-level or module-level constant with its documented value"""
    def __init__(self, owner, module, name, node, smod, props):
        self.owner, self.module, self.name, self.node, self.smod, self.props = owner, module, name, node, smod, props
        self.cls_name = owner
        self.aspects, self.opts = [], {}
        self.body = None


class SpecFunc(object):
    def __init__(self, func, cls_name, props, aspects, opts):
        self.func = func
        self.cls_name = cls_name
        self.name = func.name
        self.private = func.name.startswith('_') and not func.name.startswith('__')
        self.props = props
        self.aspects = aspects
        self.opts = opts


def load_specs(project):
    """parse /verif/spec/*.py into the project (as extra modules) and collect the @spec functions"""
    specs = []
    overrides = {}
    for fn in sorted(os.listdir(SPECDIR)):
        if not fn.endswith('.py'):
            continue
        name = 'spec_' + fn[:-3]
        m = Module(name, os.path.join(SPECDIR, fn), 'spec/' + fn)
        project.modules[name] = m
        for c in m.classes.values():
            real = [k for k in project.classes.values() if k.name == c.name]
            real = real[0] if len(real) == 1 else None
            c.mro = [c]
            for f in c.methods.values():
                d = deco(f.node)
                if real is not None:
                    f.cls = real
                if d is not None:
                    sf = SpecFunc(f, c.name, *d)
                    sf.scls = c.qualname
                    specs.append(sf)
                elif real is not None:
                    overrides[(real.qualname, f.name)] = f
            if real is not None:
                m.imports[c.name] = real.qualname      # the name means the real class
            for d in c.node.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, 'id', None) == 'tables':
                    for a, v in c.attrs.items():
                        if a in c.methods:
                            continue
                        own = {k.arg: k.value.value for k in d.keywords}
                        st = SpecTable(c.name, None, a, v, m, own.get(a, d.args[0].value).split())
                        st.body = class_block(c.node)
                        specs.append(st)
        for f in m.functions.values():
            d = deco(f.node)
            if d is not None:
                specs.append(SpecFunc(f, None, *d))
        for sf in specs:
            if sf.cls_name is None and isinstance(sf, SpecFunc) and sf.func.module is m:
                m.imports[sf.name] = sf.opts['function']
        m.classes = {k: c for k, c in m.classes.items() if k not in m.imports}
        m.functions = {k: f for k, f in m.functions.items() if k not in m.imports}
        if 'TABLES' in m.globals:
            mod, props = ast.literal_eval(m.globals['TABLES'])
            for a, v in m.globals.items():
                if a != 'TABLES':
                    specs.append(SpecTable(None, mod, a, v, m, props.split()))
    project.spec_view = SpecView(project, overrides)
    return specs


def compare_table(cmpr, st, words):
    p = cmpr.p
    if st.owner is not None:
        c = p.need_class(st.owner)
        owner, node = p.class_attr(c, st.name)
        smod, where = (owner.module if owner else None), c.module.relpath
    else:
        m = p.modules.get(st.module)
        if m is None:
            raise AnalysisBroken('module %s not found' % st.module)
        node, smod, where = m.globals.get(st.name), m, m.relpath
    if node is None:
        return Verdict(st, 'unknown', 'constant %s not found' % st.name, where)
    where = '%s:%d (%s)' % (where, node.lineno, st.name)
    N = Normaliser()
    I = Interp(p)
    if st.owner is not None:
        a = N.nf(block_term(p, st.body, st.name, st.smod))
        b = N.nf(block_term(p, class_block(owner.node), st.name, smod))
    else:
        a = N.nf(expr_term(p, st.node, st.smod))
        b = N.nf(expr_term(p, node, smod))
    if a is b:
        return Verdict(st, 'ok', '', where)
    D = DEF.Definite(lambda t: not foreign(t, words))
    if a.op == b.op == 'dict' and unordered(a) == unordered(b):
        return Verdict(st, 'unknown', 'the entries are listed in another order', where)
    if D(a, b):
        return Verdict(st, 'violated', 'the specification gives %s, the code gives %s' % (pp(a)[:500], pp(b)[:500]), where)
    return Verdict(st, 'unknown', 'shapes %s' % D.why, where)


def unordered(x):
    if x.op == 'dict':
        return frozenset((k, unordered(v)) for k, v in x.args[0])
    if x.op in ('list', 'tuple'):
        return frozenset(unordered(v) for v in x.args[0]), unordered(x.args[0][0]) if x.args[0] else None
    return x


def class_block(node):
    """the statements of a class body that compute its constants"""
    return [s for s in node.body if not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Pass)) and
            not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]


def block_term(p, body, name, module):
    """the value a name has at the end of a class body"""
    f = ast.FunctionDef(name='_table', args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                        body=body + [ast.Return(ast.Name(name, ast.Load()))], decorator_list=[],
                        lineno=body[0].lineno, col_offset=0)
    f = ast.fix_missing_locations(f)
    s = Interp(p).analyze(Func(f, module), None)
    return next(e.value for e in s.exits if e.kind == 'return')


def expr_term(p, node, module):
    """the value of a module-level expression"""
    f = ast.FunctionDef(name='_table', args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                        body=[ast.Return(node)], decorator_list=[], lineno=node.lineno, col_offset=0)
    ast.fix_missing_locations(f)
    s = Interp(p).analyze(Func(f, module), None)
    return s.exits[0].value


def deco(node):
    for d in node.decorator_list:
        if isinstance(d, ast.Call) and getattr(d.func, 'id', None) == 'spec':
            props = d.args[0].value.split()
            opts = {k.arg: ast.literal_eval(k.value) for k in d.keywords}
            aspects = opts.pop('aspects', 'returns raises signature fields effects').split()
            opts.setdefault('fields', '*')
            return props, aspects, opts
    return None


class Comparer(object):
    """compares one repository function with its specification function"""

    def __init__(self, project, api, hints=None):
        self.p = project
        PURE_OWN.clear()
        if not hasattr(project, 'own_pure'):
            project.own_pure = own_pure(project)
        PURE_OWN.update(project.own_pure)
        self.specs = getattr(api, 'specs', ())
        self.view = None          # how specification functions see the project, if not the usual way
        self.api = api            # set of (class name or module, function name): the public surface, kept opaque
        self.memo = {}

    def opaque0(self, f, recv):
        owner = f.cls.name if f.cls is not None else f.module.name
        if (owner, f.name) in self.api:
            return True
        if f.cls is not None:
            for k in f.cls.mro or ():
                if (k.name, f.name) in self.api:
                    return True
        return False

    def analyse(self, func, recv, level, fields=False, args=None, root=None):
        root = root or func

        def opaque(f, r):
            if f.node is root.node:
                return False
            return f.name not in level and self.opaque0(f, r)
        p = self.p
        if func.module.name.startswith('spec_') and hasattr(p, 'spec_view'):
            p = self.view or p.spec_view
        I = Interp(p, opaque=opaque)
        s = I.analyze(func, recv, args=args)
        return s, I

    def outcome(self, s, N, part, aspects, track=()):
        """gated outcome of a function summary; part: 'value', ('field', name), ('ref', term) or 'effects'"""
        if part == 'effects':
            return effect_list(s, N, aspects)
        leaves = []
        memo = {}
        for e in sorted(s.exits, key=lambda e: e.seq):
            c = N.cond(strip_copies(conj_merged(e.pc), False, memo))
            if part == 'value':
                if e.kind == 'raise':
                    v = Term('raises', exc_name(s.interp, e)) if 'raises' in aspects else Term('raises')
                elif 'returns' in aspects:
                    v = self.object_state(s.interp, e)
                    if e.loops and v is not None:
                        v = first_wrap(v, e.pc)
                    v = wrap('out', N.nf(self.escaped(s, e, v, memo)))
                else:
                    v = Term('out')
            else:
                if e.kind == 'raise' and s.func.name == '__init__':
                    v = Term('raises')
                else:
                    v = wrap('out', N.nf(strip_copies(self.field_value(s.interp, e.state, part), True, memo)))
            leaves.append((c, v))
        r = None
        for c, v in reversed(leaves):
            r = v if r is None else ITE(c, v, r)
        return r

    def escaped(self, s, e, v, memo):
        """a returned value without its copies; a copy of what a field changed here holds at this exit is another object
        than the one kept, and stays apart from it"""
        r = strip_copies(v, True, memo)
        fields = [self.field_value(s.interp, e.state, part) for part in self.touched(s)]
        if v is None or not any(copied(x) is not None for y in fields + [v] for x in walk(y)):
            return r
        if r.op not in ('out', 'keptcopy') and v not in fields and \
                any(strip_copies(y, False, memo) is r for y in fields):
            return Term('keptcopy', r)
        return r

    @staticmethod
    def field_value(I, st, part):
        kind, a = part
        if kind == 'ref':
            return I.snap(st.heap.get(a, a), st)
        v = st.fields.get((SELF, a))
        ref = Term('attr', SELF, a)
        if v is None:
            v = st.heap.get(ref, ref)
        return I.snap(v, st)

    @staticmethod
    def touched(s):
        """the fields of self and the outside references the function changes"""
        out = set()
        for e in s.exits:
            for (b, a) in e.state.fields:
                if b is SELF:
                    out.add(('field', a))
            for ref in e.state.heap:
                if ref.op == 'attr' and ref.args[0] is SELF:
                    out.add(('field', ref.args[1]))
                elif outside(ref):
                    out.add(('ref', ref))
        return out

    @staticmethod
    def object_state(I, e):
        """value of an exit; a new object is returned with the fields set on it"""
        v, o = e.value, e.raw
        if o is None or o.op != 'obj':
            return v
        fs = {}
        for (b, a), w in e.state.fields.items():
            if b is o:
                fs[a] = I.snap(w, e.state)
        for ref, w in e.state.heap.items():
            if ref.op == 'attr' and ref.args[0] is o and ref.args[1] not in fs:
                fs[ref.args[1]] = I.snap(w, e.state)
        if not fs:
            return v
        me = {o: Term('newobj')}
        return Term('objstate', v, tuple((a, subst(w, me)) for a, w in sorted(fs.items())))


def outside(ref):
    """is the reference reachable from self or a parameter by attributes and items only?"""
    n = 0
    while ref.op in ('attr', 'item', 'elem') and isinstance(ref.args[0], Term):
        ref = ref.args[0]
        n += 1
    return ref.op == 'param' or ref is SELF and n > 0


# ---- copies: only a copy that leaves the function (or is kept) matters; elsewhere it has the value of its source
PERSISTENT = {'attr', 'param', 'elem', 'item', 'self', 'global', 'classref', 'call'}
ESCAPING = {'list', 'tuple', 'dict', 'set', 'out', 'objstate', 'dictupd'}


def copied(t):
    """source of a copy expression, or None"""
    if t.op in ('copyof', 'dictcopy'):
        return t.args[0]
    if t.op == 'call':
        f, a, k = t.args
        if f.op == 'attr' and f.args[1] == 'copy' and not a and all(n == 'deep' for n, _ in k) and \
                f.args[0].op != 'global':
            return f.args[0]
        if f.op == 'global' and f.args[0] in ('copy.copy', 'numpy.copy') and len(a) == 1 and not k:
            return a[0]
    return None


def new_object(t):
    """a copy made here is not one of the objects that were there before"""
    return copied(t) is not None


def persistent(t):
    """may the object be reachable from outside the function?"""
    if t.op == 'call':
        f = t.args[0]
        if f.op == 'global':
            return not f.args[0].startswith(('numpy.', 'pandas.', 'builtins.', 'collections.', 'copy.'))
        return f.op == 'attr' and f.args[1].startswith('get_')
    return t.op in PERSISTENT


def strip_copies(t, esc, memo=None):
    memo = {} if memo is None else memo

    def go(x, e):
        r = memo.get((x.uid, e))
        if r is not None:
            return r
        src = copied(x)
        if x.op == 'init' and x.args[0].op != 'obj':
            r = go(x.args[0], e)
        elif x.op == 'cmp' and x.args[0] == 'is' and new_object(x.args[1]) != new_object(x.args[2]):
            r = FALSE
        elif src is not None:
            y = go(src, e)
            r = Term('copyof', y) if e and persistent(y) else y
        elif x.op == 'ite':
            r = Term('ite', go(x.args[0], False), go(x.args[1], e), go(x.args[2], e))
        elif x.op == 'comp':
            r = rebuild_args(x, (x.args[0], go(x.args[1], e), goa(x.args[2], False)))
        elif x.op == 'upd':
            r = rebuild_args(x, (go(x.args[0], False), x.args[1], goa(x.args[2], e)) + tuple(
                goa(z, False) for z in x.args[3:]))
        else:
            r = rebuild_args(x, tuple(goa(z, e and x.op in ESCAPING) for z in x.args))
        memo[(x.uid, e)] = r
        return r

    def goa(a, e):
        if isinstance(a, Term):
            return go(a, e)
        if isinstance(a, tuple):
            return tuple(goa(z, e) for z in a)
        return a
    return go(t, esc)


def rebuild_args(x, args):
    return x if all(p is q for p, q in zip(args, x.args)) else Term(x.op, *args)


def wrap(op, v):
    return NFM.lift(lambda x: Term(op, x), [v]) if len(NFM.atoms_of(v)) < 40 else Term(op, v)


PURE_METHODS = {'keys', 'values', 'items', 'format', 'join', 'strip', 'rstrip', 'lstrip', 'split', 'lower', 'upper', 'startswith',
                'endswith', 'index', 'count', 'copy', 'sum', 'mean', 'max', 'min', 'any', 'all', 'astype', 'tolist', 'issubset',
                'get', 'replace', 'match', 'search', 'sub', 'findall', 'group', 'groups', 'isoformat', 'is_special',
                'is_stateless', 'is_electron_process', 'is_ion_process', 'has_converged', 'isin', 'head', 'tail', 'sort_values',
                'isdigit', 'isalpha', 'difference', 'union', 'intersection', 'argsort', 'argmax', 'argmin', 'to_list', 'to_dict',
                'reindex', 'iterrows', 'itertuples', 'dropna', 'fillna', 'isna', 'isnull', 'notna', 'apply', 'groupby',
                'getElementsByTagName', 'hasAttribute', 'getAttribute', 'fromkeys', 'total_seconds', 'nonzero', 'squeeze',
                'is_dir', 'is_file', 'exists', 'isdir', 'isfile', 'basename', 'dirname', 'realpath', 'abspath', 'resolve',
                'strftime', 'encode', 'decode', 'partition', 'rpartition', 'title', 'zfill', 'items', 'predecessors',
                'successors', 'hexdigest', 'drop', 'joinpath', '__getitem__', '__contains__', 'cumsum', 'prod', 'std', 'var',
                'round', 'to_frame', 'set_index', 'reset_index', 'sort_index', 'merge', 'with_suffix', 'with_name', 'as_posix',
                'relative_to', 'swapaxes', 'transpose', 'reshape', 'flatten', 'ravel', 'dot', 'nunique', 'unique', 'duplicated',
                'drop_duplicates', 'abs', 'diff', 'shift', 'interpolate', 'where', 'mask', 'clip', 'map', 'removesuffix',
                'removeprefix', 'casefold', 'splitlines', 'capitalize', 'ljust', 'rjust', 'center', 'find', 'rfind', 'rindex',
                'isspace', 'islower', 'isupper', 'isalnum', 'isnumeric', 'translate', 'equals', 'item', 'idxmax', 'idxmin',
                'nlargest', 'nsmallest', 'rename', 'to_numpy', 'symmetric_difference', 'isdisjoint', 'total_seconds', 'span',
                'fullmatch', 'finditer', 'start', 'end', '__len__', '__repr__', '__str__', '__iter__', '__eq__', '__ne__', '__lt__', '__hash__'}
PURE_GLOBALS = ('numpy.', 'builtins.', 'math.', 'scipy.', 'collections.', 'itertools.', 'functools.', 're.', 'copy.', 'pandas.',
                'operator.', 'inspect.', 'pathlib.', 'os.path.', 'string.', 'hashlib.', 'pyvalem.')
IMPURE_GLOBALS = {'builtins.print', 'builtins.open', 'builtins.exec', 'builtins.eval', 'numpy.random', 'builtins.setattr',
                  'builtins.input', 'builtins.next', 'numpy.savetxt', 'numpy.save'}


PURE_OWN = set()


def own_pure(project):
    """method names every definition of which in the project only reads, works on local values and makes pure calls"""
    defs = {}
    for m in project.modules.values():
        for node in ast.walk(m.tree):
            if isinstance(node, ast.ClassDef):
                for f in node.body:
                    if isinstance(f, ast.FunctionDef):
                        defs.setdefault(f.name, []).append(f)

    def calm(f):
        body = [b for b in f.body if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant))]
        params = {x.arg for x in ast.walk(f.args) if isinstance(x, ast.arg)}
        local = set()
        nodes = [x for b in body for x in ast.walk(b)]
        for x in nodes:
            if isinstance(x, ast.Assign) and isinstance(x.value, (ast.List, ast.Dict, ast.Set, ast.ListComp)) or \
                    isinstance(x, ast.Assign) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name) and \
                    x.value.func.id in ('list', 'dict', 'set'):
                local |= {t.id for t in x.targets if isinstance(t, ast.Name)}
        for x in nodes:
            if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr, ast.Raise, ast.Assert, ast.Try, ast.With,
                              ast.Delete, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom)):
                return False
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                return False
            if isinstance(x, (ast.Attribute, ast.Subscript)) and not isinstance(x.ctx, ast.Load):
                return False
            if isinstance(x, ast.AugAssign) and (not isinstance(x.target, ast.Name) or x.target.id in params):
                return False
            if isinstance(x, ast.Call):
                g = x.func
                if isinstance(g, ast.Name) and g.id in ('len', 'sum', 'list', 'tuple', 'set', 'dict', 'str', 'float', 'int',
                                                        'bool', 'sorted', 'max', 'min', 'abs', 'any', 'all', 'zip',
                                                        'enumerate', 'range', 'reversed', 'isinstance', 'type'):
                    continue
                if isinstance(g, ast.Call) and isinstance(g.func, ast.Name) and g.func.id == 'type':
                    continue
                if isinstance(g, ast.Attribute) and (g.attr in PURE_METHODS or g.attr.startswith(('get_', 'is_', 'has_'))
                                                     or g.attr in calm_names):
                    continue
                if isinstance(g, ast.Attribute) and g.attr in ('add', 'append', 'extend', 'update') and \
                        isinstance(g.value, ast.Name) and g.value.id in local - params:
                    continue
                return False
        return True
    calm_names = {n for n in defs if not n.startswith('__')}
    while True:
        keep = {n for n in calm_names if all(calm(f) for f in defs[n])}
        if keep == calm_names:
            return keep
        calm_names = keep


def born(I, t):
    """t with every allocated object named by the expression that made it"""
    for _ in range(6):
        objs = {o: I.birth[o] for o in walk(t) if o.op == 'obj' and o in I.birth}
        if not objs:
            break
        t = subst(t, objs)
    return t


def is_pure(e):
    return is_pure_call(e.value)


def is_pure_call(v):
    f = v.args[0] if v is not None and v.op == 'call' else None
    if f is None:
        return True
    if f.op in ('attr', 'method'):
        n = f.args[1]
        if n in PURE_OWN:
            return True
        return n.startswith(('get_', 'is_', 'has_')) or n in PURE_METHODS
    if f.op == 'global':
        g = f.args[0]
        if g == 'builtins.next' and v.args[1] and v.args[1][0].op == 'comp':
            return True
        if any(g.startswith(i) for i in IMPURE_GLOBALS):
            return False
        return g.startswith(PURE_GLOBALS)
    return False


def effect_list(s, N, aspects, only=None):
    """guarded sequence of the calls that are made for their effect"""
    seq = []
    for e in s.events:
        if e.kind == 'call' and not is_pure(e):
            if only is not None and e.name not in only:
                continue
            v = N.nf(strip_copies(e.value, False))
            if e.found:
                v = Term('finding', v, tuple((a, N.nf(strip_copies(x, False))) for a, x in e.found))
        elif e.kind == 'yield' and only is None:
            v = N.nf(Term('effect', 'yield', strip_copies(born(s.interp, e.value), True)))
        elif e.kind == 'setattr' and (e.base is not SELF or isinstance(e.name, Term)) and e.base.op != 'entered' and only is None:
            b = born(s.interp, e.base)
            if e.base.op == 'obj' and (b.op != 'call' or is_pure_call(b)):
                continue
            v = N.nf(Term('effect', 'setattr', strip_copies(b, False),
                          strip_copies(e.name, False) if isinstance(e.name, Term) else str(e.name),
                          strip_copies(born(s.interp, e.value), True)))
        else:
            continue
        seq.append((e, v))
    last = max([e.seq for e, _ in seq] or [0])
    for x in s.exits:
        if x.seq < last:
            seq.append((x, None))
    # leaving a loop comes after what its iterations do: which iteration leaves is not told apart
    ends = {}
    for e, v in seq:
        if e.loops:
            ends[e.loops[0][0]] = max(e.seq, ends.get(e.loops[0][0], 0))
    out = []
    for e, v in sorted(seq, key=lambda p: (ends[p[0].loops[0][0]], 1, p[0].seq) if p[1] is None and p[0].loops
                       else (p[0].seq, 0, 0)):
        c = N.cond(strip_copies(conj_merged(e.pc), False))
        if v is not None and c.op == 'ite':
            v = under(v, c, N)
        if v is not None and e.loops:
            v = Term('foreach', tuple(N.nf(strip_copies(x[1], False)) for x in e.loops), v)
        if c is not FALSE:
            out.append((c, v))
    return out


def under(v, c, N):
    """the value v where the condition c holds: the choices inside are settled as far as c settles them"""
    memo = {}

    def go(x):
        if not isinstance(x, Term):
            return tuple(go(z) for z in x) if isinstance(x, tuple) else x
        if x.op in ('mask', 'const', 'global') or x in (TRUE, FALSE):
            return x
        r = memo.get(x)
        if r is None:
            if x.op == 'ite':
                r = leaves(NFM.constrain(x, c))
            else:
                args = tuple(go(z) for z in x.args)
                r = x if all(p is q for p, q in zip(args, x.args)) else Term(x.op, *args)
            memo[x] = r
        return r
    def leaves(x):
        if x.op != 'ite':
            return go(x)
        r = memo.get(('leaves', x))
        if r is None:
            hi, lo = leaves(x.args[1]), leaves(x.args[2])
            r = hi if hi is lo else x if hi is x.args[1] and lo is x.args[2] else Term('ite', x.args[0], hi, lo)
            memo['leaves', x] = r
        return r

    if v.op == 'ite':
        v = NFM.constrain(v, c)
    if len(NFM.atoms_of(c)) > 12:
        return v
    w = go(v)
    return v if w is v else N.renorm(w)


def effect_tree(seq):
    """the effects as one gated value: seq(item, rest) under the item's condition, end once the function is left"""
    r = Term('end')
    for c, v in reversed(seq):
        if v is None:
            r = ITE(c, Term('end'), r)
            continue
        nxt = NFM.lift(lambda x, y: Term('seq', x, y), [v, r]) if len(NFM.atoms_of(v, NFM.atoms_of(r))) < 12 \
            else Term('seq', v, r)
        r = ITE(c, nxt, r)
    return r


def effect_pair(l1, l2):
    """gated values of two effect lists; what both begin or end with is left out (exits are kept)"""
    if l1 == l2:
        return Term('end'), Term('end')
    n = 0
    while n < min(len(l1), len(l2)) and l1[n] == l2[n]:
        n += 1
    pre = [p for p in l1[:n] if p[1] is None]
    if len(l1) == len(l2) and all(p[0] is q[0] and (p[1] is None) == (q[1] is None) for p, q in zip(l1, l2)):
        # the same effects under the same conditions, some with other contents
        ps = [(p, q) for p, q in zip(l1, l2) if p[1] is not q[1]]
        return effect_tree([p for p, _ in ps]), effect_tree([q for _, q in ps])
    a, b = l1[n:], l2[n:]
    k = 0
    while k < min(len(a), len(b)) and a[-1 - k] == b[-1 - k]:
        k += 1
    if k:
        xa, xb = a[:len(a) - k], b[:len(b) - k]
        if [p for p in xa if p[1] is None] == [p for p in xb if p[1] is None]:
            a, b = xa, xb
    return effect_tree(pre + a), effect_tree(pre + b)


def conj_merged(pc):
    """conjunction of a path condition, negated any(...) over one core merged into a single quantified term"""
    from .nf import merge_anys
    pos, neg = [], []
    for c, p in pc:
        if c.op == 'inloop':
            continue
        if c.op == 'not':
            c, p = c.args[0], not p
        (pos if p else neg).append(c)
    from .interp import mk_bool, mk_not
    xs = list(pos) + [mk_not(x) for x in merge_anys(neg)]
    return Term('and', tuple(xs)) if xs else TRUE


def exc_name(I, e):
    v = e.raw
    if v is None:
        return '?'
    if v.op == 'obj':
        c = I.types.get(v)
        if c is not None:
            return c.qualname
    if v.op == 'call' and v.args[0].op == 'global':
        return v.args[0].args[0]
    if v.op in ('global', 'classref', 'new'):
        return v.args[0]
    return '?'


# ---------------------------------------------------------------------------------------------------- differences
def vocabulary(t, acc=None):
    acc = set() if acc is None else acc
    for x in walk(t):
        if x.op == 'attr':
            acc.add(('attr', x.args[1]))
        elif x.op == 'method':
            acc.add(('attr', x.args[1]))
        elif x.op in ('global', 'classref'):
            acc.add(('global', x.args[0]))
        elif x.op == 'new':
            acc.add(('global', x.args[0]) if not isinstance(x.args[0], Term) else ('op', 'new'))
        elif x.op == 'param':
            acc.add(('param', x.args[0]))
        else:
            acc.add(('op', x.op))
    return acc


def foreign1(x, vocab):
    if x.op in NOT_UNDERSTOOD:
        return [x.op]
    if x.op in ('attr', 'method'):
        if ('attr', x.args[1]) not in vocab and x.args[1] not in UNDERSTOOD_ATTRS:
            return ['.' + x.args[1]]
    elif x.op == 'global':
        g = x.args[0]
        if g not in UNDERSTOOD_GLOBALS and ('global', g) not in vocab:
            return [g]
    elif x.op == 'classref':
        if ('global', x.args[0]) not in vocab:
            return [x.args[0]]
    return []


def foreign(t, vocab):
    """constructs of t the analysis does not fully understand"""
    out = []
    for x in walk(t):
        out.extend(foreign1(x, vocab))
    return sorted(set(out))


UNDERSTOOD_ATTRS = {'keys', 'values', 'items', 'append', 'index', 'copy', 'strip', 'split', 'lower', 'upper', 'startswith',
                    'endswith', 'sum', 'mean', 'max', 'min', 'any', 'all'}


class Theory(object):
    """consistency of a conjunction of literals (sound, incomplete: only refutes)"""

    def __init__(self, N):
        self.N = N

    def consistent(self, asg):
        d = dict(asg)
        eqs, nones = {}, {}
        for a, v in asg:
            if a.op == 'cmp' and a.args[0] == '==' and a.args[2].op in ('const', 'num', 'classref', 'global') and v:
                s = a.args[1]
                if s in eqs and eqs[s] is not a.args[2]:
                    return False
                eqs[s] = a.args[2]
            if a.op == 'cmp' and a.args[0] == 'is' and a.args[2] is NONE:
                nones[a.args[1]] = v
        for s, v in nones.items():
            if v:
                if s in eqs and eqs[s] is not NONE:
                    return False
                if d.get(s) is True:
                    return False
                for a, w in asg:
                    if w and a.op == 'call' and a.args[0].op == 'global' and \
                            a.args[0].args[0] == 'builtins.isinstance' and a.args[1] and a.args[1][0] is s:
                        return False
        for s, c in eqs.items():
            if c.op == 'const' and s in d and d[s] != bool(c.args[0]):
                return False
            for a, w in asg:
                if a.op == 'cmp' and a.args[0] in ('<', '<=') and a.args[1] is s and NFM.num(a.args[2]) is not None \
                        and NFM.num(c) is not None:
                    x, y = NFM.num(c), NFM.num(a.args[2])
                    if (x < y if a.args[0] == '<' else x <= y) != w:
                        return False
        # bounds on one subject
        lo, hi = {}, {}
        for a, w in asg:
            if a.op == 'cmp' and a.args[0] in ('<', '<='):
                q = a.args[2].args[0] if a.args[2].op == 'num' else NFM.num(a.args[2])
                if q is None:
                    continue
                s = a.args[1]
                if w:
                    b = (q, a.args[0] == '<')
                    if s not in hi or (b[0], not b[1]) < (hi[s][0], not hi[s][1]):
                        hi[s] = b
                else:
                    b = (q, a.args[0] == '<=')
                    if s not in lo or (b[0], b[1]) > (lo[s][0], lo[s][1]):
                        lo[s] = b
        for s in lo:
            if s in hi:
                (l, ls), (h, hs) = lo[s], hi[s]
                if l > h or l == h and (ls or hs):
                    return False
        # counts of what there is none of
        for a, w in asg:
            if a.op == 'cmp' and a.args[0] in ('==', '<=') and w == (a.args[0] == '==') and NFM.is_len(a.args[1]) and \
                    (NFM.num(a.args[2]) or 0) > 0:
                t = self.N.truthy(a.args[1])
                for b, v in asg:
                    if t.op == 'ite':
                        t = assume(t, b, v)
                    elif t is b:
                        t = TRUE if v else FALSE
                if t is FALSE:
                    return False
        # quantifiers over one core
        anys = [(a, v) for a, v in asg if a.op == 'any']
        for a, v in anys:
            if not v:
                continue
            f = a.args[0]
            for b, w in anys:
                if not w and b.args[1] is a.args[1] and b.args[2] == a.args[2]:
                    f = AND(f, NOT(b.args[0]))
            if f is FALSE:
                return False
            if d.get(a.args[1]) is False:
                return False
        # what holds of one first element
        at = {}
        for a, v in asg:
            if a.op == 'first' and len(a.args[1]) == 1 and isinstance(a.args[1][0], tuple):
                g = a.args[1]
                c = a.args[0] if a.args[0].op in ('ite', 'true', 'false') or a.args[0] in (TRUE, FALSE) else BDD(a.args[0])
                c = c if v else NOT(c)
                at[g] = AND(at.get(g, g[0][1]), c)
                if at[g] is FALSE:
                    return False
        return True


def context_simplify(x, asg, N):
    """x under the equalities of a path"""
    mp = {}
    for a, v in asg:
        if v and a.op == 'cmp' and a.args[0] == 'is' and a.args[2] is NONE:
            mp[a.args[1]] = NONE
        if v and a.op == 'cmp' and a.args[0] == '==' and a.args[2].op in ('const', 'num'):
            mp[a.args[1]] = a.args[2]
    if mp:
        x = N.renorm(subst(x, mp))
    for a, v in asg:
        x = assume(x, a, v)
    return x


def differences(a, b, N, limit=4000):
    """[(assignment, leaf a, leaf b)] where two diagrams differ on a consistent path"""
    if a is b:
        return []
    th = Theory(N)
    out = []
    seen = set()
    count = [0]

    def go(x, y, asg):
        if x is y or len(out) >= 6 or count[0] > limit:
            return
        vs = [t for t in (NFM.top(x), NFM.top(y)) if t is not None]
        if not vs:
            count[0] += 1
            if not th.consistent(asg):
                return
            x2, y2 = context_simplify(x, asg, N), context_simplify(y, asg, N)
            if x2 is y2:
                return
            if x2.op == 'ite' or y2.op == 'ite':
                go2(x2, y2, asg)
                return
            out.append((asg, x2, y2))
            return
        v = min(vs, key=lambda t: t.uid)
        for val in (True, False):
            asg2 = asg + ((v, val),)
            if th.consistent(asg2):
                go(NFM.cof(x, v, val), NFM.cof(y, v, val), asg2)

    def go2(x, y, asg):
        d = dict(asg)
        vs = [t for t in (NFM.top(x), NFM.top(y)) if t is not None]
        if not vs:
            if x is not y:
                out.append((asg, x, y))
            return
        v = min(vs, key=lambda t: t.uid)
        if v in d:
            go2(NFM.cof(x, v, d[v]), NFM.cof(y, v, d[v]), asg)
            return
        for val in (True, False):
            asg2 = asg + ((v, val),)
            if th.consistent(asg2):
                x2, y2 = NFM.cof(x, v, val), NFM.cof(y, v, val)
                if x2 is not y2:
                    go2(x2, y2, asg2)
    go(a, b, ())
    if count[0] > limit:
        return None
    return out


class Verdict(object):
    def __init__(self, spec, status, detail='', where='', extra=None):
        self.spec, self.status, self.detail, self.where = spec, status, detail, where
        self.extra = extra or {}

    @property
    def target(self):
        return '%s.%s' % (self.spec.cls_name, self.spec.name) if self.spec.cls_name else self.spec.name


def show_asg(asg):
    return ' and '.join(('' if v else 'not ') + pp(a)[:160] for a, v in asg) or 'always'


def known_words(project, specs=None):
    """names the specification files use: their meaning is known to the analysis"""
    words = set()
    for name, m in project.modules.items():
        if not name.startswith('spec_'):
            continue
        words |= words_of(m, project)
    # orders given to other objects: what a specified method of that name does is known
    words |= {('attr', s.name) for s in specs or () if not isinstance(s, SpecTable) and STATE_CHANGE.match(s.name)}
    return words


def words_of(m, project):
    words = set()
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Attribute):
            words.add(('attr', n.attr))
            d = project.dotted(n, m)
            if d:
                words.add(('global', d))
        elif isinstance(n, ast.Name):
            d = project.resolve_name(n.id, m)
            if d:
                words.add(('global', d))
    return words


def raises_in(x):
    return {y.args[0] for y in leaves_of(x) if y.op == 'raises' and y.args}


def leaves_of(x):
    st, seen = [x], set()
    while st:
        y = st.pop()
        if y.uid in seen:
            continue
        seen.add(y.uid)
        if y.op == 'ite':
            st.extend(y.args[1:])
        else:
            yield y


def compare(cmpr, sf, words):
    """Verdict of one specification function against the repository's current code"""
    p = cmpr.p
    if isinstance(sf, SpecTable):
        return compare_table(cmpr, sf, words)
    if sf.cls_name is not None:
        cn = sf.opts.get('cls', sf.cls_name)
        C = p.need_class(cn)
        meth = sf.opts.get('method', sf.name)
        f = p.need_method(C, meth)
    else:
        C = None
        f = p.func(sf.opts['function'])
        if f is None:
            raise AnalysisBroken('function %s not found' % sf.opts['function'])
    if 'signature' in sf.aspects:
        bad = signature_diff(sf.func, f, cmpr)
        if bad:
            return Verdict(sf, 'unknown' if sf.private else 'violated', bad, f.where)
    status, detail = compare_funcs(cmpr, sf.func, C, f, C, sf.aspects, words, sf.opts.get('fields'),
                                   sf.opts.get('effects'))
    if status == 'violated' and sf.private and C is not None and compensated(cmpr, sf, f, C, words):
        status, detail = 'unknown', 'the public methods that use it behave as specified: ' + detail
    return Verdict(sf, status, detail, f.where)


def compensated(cmpr, sf, f, C, words):
    """do all the public functions that run the private function f still behave as specified?"""
    api = {x for x in cmpr.api if x[1] != sf.name}
    view = SpecView(cmpr.p, dict(cmpr.p.spec_view._o))
    view._o[(sf.func.cls.qualname, sf.name)] = sf.func
    used = 0
    for g in cmpr.specs:
        if isinstance(g, SpecTable) or g.private or g.cls_name != sf.cls_name:
            continue
        c = Comparer(cmpr.p, api)
        c.view = view
        h = cmpr.p.need_method(C, g.opts.get('method', g.name))
        if h is None:
            continue
        s, I = c.analyse(h, C, (), root=h)
        called = any(e.kind == 'call' and e.name == sf.name for e in s.events)
        if f.qualname not in I.inlined and not called:
            continue
        if called:
            return False
        used += 1
        s1, _ = c.analyse(g.func, C, (), root=g.func)
        N = Normaliser()
        parts = ['value'] + sorted(c.touched(s1) | c.touched(s), key=str)
        if any(c.outcome(s1, N, x, g.aspects) is not c.outcome(s, N, x, g.aspects) for x in parts):
            return False
        if effect_list(s1, N, g.aspects) != effect_list(s, N, g.aspects):
            return False
    return used > 0


def compare_funcs(cmpr, f1, c1, f2, c2, aspects, words, fields=None, effects=None, cmpr2=None):
    """(status, detail) of the code function f2 against the specification function f1"""
    cmpr2 = cmpr2 or cmpr
    last = None
    results = {}
    inline = frozenset()
    for level in range(4):
        N = Normaliser()
        s1, I1 = cmpr.analyse(f1, c1, inline, root=f1)
        s2, I2 = cmpr2.analyse(f2, c2, inline, root=f2)
        parts = []
        if 'returns' in aspects or 'raises' in aspects:
            parts.append('value')
        if 'fields' in aspects:
            if fields == '*':
                t = cmpr.touched(s1) | {x for x in cmpr2.touched(s2) if x[0] == 'ref' or ('attr', x[1]) in words}
                parts += sorted(t, key=str)
            else:
                parts += [('field', a) for a in (fields or '').split()]
        if 'effects' in aspects:
            parts.append('effects')
        pending = [x for x in parts if results.get(x, (None,))[0] != 'ok']
        settled = [x for x in parts if x not in pending]
        for part in pending + settled:
            if part in settled and any(r[0] != 'ok' for r in results.values()):
                continue       # looked at again only where the other parts agree after calls are followed
            o1 = cmpr.outcome(s1, N, part, aspects)
            o2 = cmpr2.outcome(s2, N, part, aspects)
            if part == 'effects':
                o1, o2 = effect_pair(o1, o2)
            if o2 is None:
                o2 = Term('noexit')
            if o1 is None:
                o1 = Term('noexit')
            try:
                diffs = differences(o1, o2, N)
            except RecursionError:
                diffs = None
            if diffs is not None and not diffs:
                results[part] = ('ok', 'level %d' % level)
            elif part not in results or part in settled or results[part][0] == 'violated':
                results[part] = judge(part, o1, o2, diffs, words, N)
        for part in list(results):
            if part not in parts and results[part][0] != 'ok':
                results[part] = ('ok', '')
        if all(r[0] == 'ok' for r in results.values()):
            return 'ok', 'level %d' % level
        more = uneven_calls(s1, s2) - inline
        if not more:
            break
        inline |= more
    for want in ('violated', 'unknown'):
        for part, r in results.items():
            if r[0] == want:
                name = part if isinstance(part, str) else (part[1] if isinstance(part[1], str) else pp(part[1]))
                return want, '[%s] %s' % (name, r[1])
    return 'ok', ''


def uneven_calls(s1, s2):
    """the repository functions that one of the two calls more often than the other"""
    n = {}
    for s, d in ((s1, 1), (s2, -1)):
        for e in s.events:
            if e.kind == 'call' and e.raw and isinstance(e.raw[0], Func):
                n[e.name] = n.get(e.name, 0) + d
    return {k for k, v in n.items() if v}


def doubtful(asg, only1, only2):
    """why a case told apart by tests that only one side makes may not exist"""
    val = dict((a, v) for a, v in asg)
    # the code tests a value it has read for None, the specification never does: it may never be None
    if any(val.get(a) is True and none_test(a) for a in only2) and not any(none_test(a) for a in only1):
        return 'None value'
    # two attempts, one doing all the other does: which of them fails is one question
    exc = [a for a in val if a.op == 'exc' and a.args[0].op == 'trybody']
    if any(val[a] is not val[b] and a.args[1] == b.args[1] and isinstance(a.args[0].args[0], tuple) and
           isinstance(b.args[0].args[0], tuple) and set(a.args[0].args[0]) <= set(b.args[0].args[0])
           for a in exc for b in exc):
        return 'one attempt within another'
    # a value that counts as false without being 0
    if any(v is False and x in val and val[x] is False and (x in only1) != (a in only1)
           for a, v in asg for x in zero_test(a)):
        return 'zero or nothing'
    # membership in a collection as it is inside a loop
    for p, q in ((only1, only2), (only2, only1)):
        if any(inside(a) for a in p) and not any(inside(a) for a in q):
            return 'state inside a loop'
        # bodies that may fail, arranged differently
        if any(a.op == 'exc' and any(b.op == 'exc' and b.args[1] == a.args[1] and val.get(b) != val.get(a) for b in q)
               for a in p):
            return 'one of two attempts'
        # a failure of an operation whose result decides the case as well
        for a in p:
            if a.op == 'exc' and val.get(a) is True and not any(b.op == 'exc' for b in q) and \
                    a.args[0].op == 'trybody' and any(b in a.args[0].args[0] for b in val):
                return 'failing test'
    return None


def none_test(a):
    return a.op == 'cmp' and a.args[0] == 'is' and a.args[2] is NONE and a.args[1].op in ('item', 'call', 'first', 'elem')


def zero_test(a):
    if a.op == 'cmp' and a.args[0] == '==':
        for x, z in ((a.args[1], a.args[2]), (a.args[2], a.args[1])):
            if z is const(0):
                yield x


def inside(a):
    return a.op == 'cmp' and a.args[0] == 'in' and any(x.op == 'cur' for x in walk(a))


def doubtful_pair(p, q):
    a1, a2 = NFM.atoms_of(p), NFM.atoms_of(q)
    only1, only2 = [a for a in a1 if a not in a2], [a for a in a2 if a not in a1]
    if any(none_test(a) for a in only2) and not any(none_test(a) for a in only1):
        return True
    for s, t, z in ((only1, only2, q), (only2, only1, p)):
        if any(inside(a) for a in s) and not any(inside(a) for a in t):
            return True
        if s and all(a.op == 'exc' for a in s) and is_const(z):
            return True
    return False


LOOKUPS = {'KeyError', 'IndexError', 'AttributeError', 'StopIteration', 'LookupError'}
PRESENCE = {'in', '<', '<=', '>', '>=', 'is'}


def lookup_style(o1, o2):
    """one side asks beforehand what the other finds out from the failing lookup"""
    def tries(o):
        return {x for x in walk(o) if x.op == 'exc' and x.args[1] and set(x.args[1]) <= LOOKUPS}
    t1, t2 = tries(o1), tries(o2)
    if len(t2) > len(t1):
        return True
    if len(t1) > len(t2):
        def tests(o):
            return {x for x in walk(o) if x.op == 'cmp' and x.args[0] in PRESENCE or
                    x.op == 'call' and x.args[0].op == 'global' and x.args[0].args[0] == 'builtins.hasattr'}
        return bool(tests(o2) - tests(o1))
    return False


LOOPVARS = {'elem', 'idx', 'bound'}


def at_boundary(asg, x, y):
    """the two values agree where the case's comparisons force both sides of one to be equal (max / min told either way)"""
    facts = {}
    for a, v in asg:
        if a.op == 'cmp' and a.args[0] in ('<', '<=', '=='):
            p = NFM.padd(NFM.poly_of(a.args[1]), NFM.poly_of(a.args[2]), NFM.Fraction(-1))
            if not p:
                continue
            lead = p[sorted(p, key=NFM.mono_key)[0]]
            k = NFM.to_term({m: c / lead for m, c in p.items()})
            up = lead > 0
            if a.args[0] == '==':
                w = {'<=', '>='} if v else set()
            elif v:
                w = {'<='} if up else {'>='}
            else:
                w = {'>='} if up else {'<='}
            facts.setdefault(k, set()).update(w)
    zero = [k for k, w in facts.items() if len(w) == 2]
    if not zero:
        return False
    if x.op == 'out' and y.op == 'out' and len(x.args) == len(y.args) == 1:
        x, y = x.args[0], y.args[0]
    d = NFM.padd(NFM.poly_of(x), NFM.poly_of(y), NFM.Fraction(-1))
    if not d:
        return True
    lead = d[sorted(d, key=NFM.mono_key)[0]]
    return NFM.to_term({m: c / lead for m, c in d.items()}) in zero


def judge(part, o1, o2, diffs, words, N):
    if diffs is None:
        return 'unknown', 'too many cases to compare'
    if lookup_style(o1, o2):
        return 'unknown', 'failing lookup'
    ats1, ats2 = set(NFM.atoms_of(o1)), set(NFM.atoms_of(o2))
    fmemo = {}

    def und(t):
        r = fmemo.get(t.uid)
        if r is None:
            r = fmemo[t.uid] = not foreign(t, words)
        return r
    reasons = []
    D = DEF.Definite(und)
    D.single = len(ats1 - ats2) == len(ats2 - ats1) == 1
    D.tried = {t for t in walk(o1) if t.op == 'trybody'} & {t for t in walk(o2) if t.op == 'trybody'}
    for asg, x, y in diffs:
        if at_boundary(asg, x, y):
            reasons.append('boundary case')
            continue
        if impossible(asg):
            continue
        if os.environ.get('SA_DBG'):
            print('DIFF', part, [(v, pp(a)[:300], a in ats1, a in ats2) for a, v in asg], '\n  ', pp(x)[:400], '\n  ', pp(y)[:400])
        fw = set()
        only1, only2 = [], []
        for a, _ in asg:
            if a not in ats1 or a not in ats2:
                fw |= set(foreign(a, words))
                (only2 if a in ats2 else only1).append(a)
        why = doubtful(asg, only1, only2)
        if why:
            reasons.append(why)
            continue
        if fw:
            # whatever the tests that are not understood decide: all outcomes differ
            r1, r2 = o1, o2
            for a, v in asg:
                if a in ats1 and a in ats2:
                    r1, r2 = assume(r1, a, v), assume(r2, a, v)
            l1, l2 = list(leaves_of(r1)), list(leaves_of(r2))
            if len(l1) * len(l2) > 100 or not all(p is not q and D(p, q) for p in l1 for q in l2):
                reasons.append(','.join(sorted(fw)))
                continue
            return ('violated', 'when %s: the specification gives %s, the code gives %s' % (
                show_asg([(a, v) for a, v in asg if a in ats1 and a in ats2]), pp(x)[:600], pp(y)[:600]))
        if not (x is y) and not D(x, y):
            reasons.append('shapes %s' % D.why)
            continue
        if not D.atoms(only1, only2):
            reasons.append('guards %s / %s' % ([pp(a)[:80] for a in only1], [pp(a)[:80] for a in only2]))
            continue
        return ('violated', 'when %s: the specification gives %s, the code gives %s' % (
            show_asg(asg), pp(x)[:600], pp(y)[:600]))
    if set(reasons) == {'boundary case'}:
        return 'unknown', 'the cases differ only where two bounds coincide'
    P = EDIT.PointEdit(N)
    shared = set(NFM.subterms(o1)) & set(NFM.subterms(o2))
    pmemo = {}

    def und_apart(t):
        # what both outcomes contain is the same whatever it is
        r = pmemo.get(t.uid)
        if r is None:
            r = pmemo[t.uid] = und(t) or not foreign_apart(t, shared, words)
        return r
    E = DEF.Definite(und_apart)
    E.tried = D.tried

    def decided(pairs):
        if len(pairs) > 1 and (sorted(p.uid for p, _ in pairs) == sorted(q.uid for _, q in pairs) or
                               any({p.op, q.op} & {'mu', 'cur'} for p, q in pairs)):
            return False               # the same parts in another order; what loops carry, numbered differently
        return pairs and all(p is not o1 and not (LOOPVARS & {p.op, q.op}) and (D(p, q) or E(p, q)) and
                             not doubtful_pair(p, q) for p, q in pairs)
    small = sorted(P.pairs(o1, o2), key=lambda p: (p[0].uid, p[1].uid))
    if not decided(small):
        one = P.anywhere(o1, o2)
        small = [one] if one is not None else small
    if decided(small):
        return ('violated', 'the specification has %s where the code has %s' % (
            '; '.join(pp(p)[:300] for p, _ in small), '; '.join(pp(q)[:300] for _, q in small)))
    if os.environ.get('SA_DBG2'):
        reasons = ['PAIR %s // %s' % (pp(p)[:150], pp(q)[:150]) for p, q in small]
    return 'unknown', 'not understood: ' + '; '.join(sorted(set(reasons)))[:400]


def impossible(asg):
    """two tests that are the same one once the choices inside them are settled by the others, with different answers"""
    if not any(y.op == 'ite' for a, _ in asg for y in walk(a)):
        return False
    d = {a: v for a, v in asg}
    memo = {}

    def go(x):
        if not isinstance(x, Term):
            return tuple(go(z) for z in x) if isinstance(x, tuple) else x
        r = memo.get(x)
        if r is None:
            if x.op == 'ite' and x.args[0] in d:
                r = go(x.args[1] if d[x.args[0]] else x.args[2])
            else:
                args = tuple(go(z) for z in x.args)
                r = x if all(p is q for p, q in zip(args, x.args)) else Term(x.op, *args)
            memo[x] = r
        return r
    said = {}
    for a, v in asg:
        b = go(a)
        if said.setdefault(b, v) != v:
            return True
    return False


def foreign_apart(t, shared, words):
    """constructs of t that are not understood, outside the parts in shared"""
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.uid in seen or x.uid in shared and x is not t:
            continue
        seen.add(x.uid)
        if foreign1(x, words):
            return True
        st.extend(kids(x))
    return False


def foreign_diff(t, other, words):
    """constructs of t that are not understood and not shared with the other term"""
    shared = NFM.subterms(other)
    out = []
    st, seen = [t], set()
    from .terms import kids
    while st:
        x = st.pop()
        if x.uid in seen or x.uid in shared:
            continue
        seen.add(x.uid)
        out.extend(foreign1(x, words))
        st.extend(kids(x))
    return sorted(set(out))


def signature_diff(sf, f, cmpr):
    sp, cp = sf.params(), f.params()
    s_all, c_all = sp[0] + sp[2], cp[0] + cp[2]
    sd, cd = sf.defaults(), f.defaults()
    if f.kind != 'function' and sf.kind != 'function':
        pass
    for n in s_all:
        if n in ('self', 'cls'):
            continue
        if n not in c_all:
            if cp[3] is not None:
                continue
            return 'parameter %r is missing from the signature' % n
        if n in sd:
            if n not in cd:
                return 'parameter %r lost its default' % n
            a, b = ast.dump(sd[n]), ast.dump(cd[n])
            if a != b and isinstance(sd[n], ast.Constant) and isinstance(cd[n], ast.Constant):
                return 'default of %r is %s instead of %s' % (n, ast.unparse(cd[n]), ast.unparse(sd[n]))
    for n in c_all:
        if n not in s_all and n not in ('self', 'cls') and n not in cd and n in cp[0]:
            return 'new mandatory parameter %r' % n
    return None


class Api(set):
    specs = ()


def api_of(specs):
    """the public surface: specified public functions stay opaque at level 0"""
    out = Api()
    out.specs = specs
    for s in specs:
        if isinstance(s, SpecTable):
            continue
        if s.cls_name:
            out.add((s.opts.get('cls', s.cls_name), s.name))
        else:
            out.add((s.opts['function'].rpartition('.')[0], s.name))
    return out
