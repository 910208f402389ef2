"""Abstract interpreter: turns a function's syntax tree into value-graph terms, guarded exits and guarded effects.

Every statement is visited once per analysis context (loops: twice, the first time only to find what they change); no
program input is enumerated and nothing is executed.  Branches merge into gated values (ite), loops into comprehension /
reduction terms, helper calls are inlined, everything unknown stays an opaque term.
"""
import ast
import re
import copy
from .terms import Term, const, NONE, TRUE, FALSE, is_const, kids, walk, subst, pp
from .project import Func, Class

BUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)
SELF = Term('self')

MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'add', 'discard', 'update',
            'difference_update', 'intersection_update', 'symmetric_difference_update', 'setdefault', 'popitem',
            'appendChild', 'removeChild', 'setAttribute', 'set', 'fill', 'put', 'move_to_end', 'popleft', 'appendleft',
            'itemset', 'resize', '__setitem__', '__delitem__'}
INPLACE_KW = {'drop', 'fillna', 'sort_values', 'sort_index', 'set_index', 'reset_index', 'rename', 'drop_duplicates',
              'dropna', 'replace', 'mask', 'where', 'clip', 'interpolate'}
ARG0_MUTATORS = {'numpy.fill_diagonal', 'numpy.copyto', 'numpy.put', 'numpy.place', 'numpy.putmask',
                 'random.shuffle', 'numpy.random.shuffle', 'heapq.heappush', 'heapq.heapify', 'heapq.heappop',
                 'bisect.insort', 'numpy.add.at', 'numpy.subtract.at'}
FRESH_CALLS = {'builtins.list', 'builtins.dict', 'builtins.set', 'builtins.sorted', 'builtins.bytearray',
               'collections.OrderedDict', 'collections.defaultdict', 'collections.Counter', 'collections.deque',
               'copy.copy', 'copy.deepcopy', 'numpy.array', 'numpy.zeros', 'numpy.ones', 'numpy.empty', 'numpy.full',
               'numpy.zeros_like', 'numpy.ones_like', 'numpy.empty_like', 'numpy.full_like', 'numpy.copy',
               'numpy.arange', 'numpy.linspace', 'pandas.Series', 'pandas.DataFrame', 'numpy.eye', 'numpy.diag'}
FRESH_METHODS = {'copy', 'astype', 'deepcopy', 'to_dict'}
VIEWS = {'at', 'loc', 'iat', 'iloc', 'values', 'flat', 'T'}
IMMUTABLE_CALLS = {'builtins.len', 'builtins.str', 'builtins.int', 'builtins.float', 'builtins.bool', 'builtins.sum',
                   'builtins.max', 'builtins.min', 'builtins.any', 'builtins.all', 'builtins.tuple', 'builtins.abs',
                   'builtins.frozenset', 'builtins.isinstance', 'builtins.hasattr', 'builtins.round', 'builtins.repr'}

BUILTIN_EXC = {
    'KeyError': ['KeyError', 'LookupError', 'Exception', 'BaseException'],
    'IndexError': ['IndexError', 'LookupError', 'Exception', 'BaseException'],
    'FileNotFoundError': ['FileNotFoundError', 'OSError', 'Exception', 'BaseException'],
    'FileExistsError': ['FileExistsError', 'OSError', 'Exception', 'BaseException'],
    'NotImplementedError': ['NotImplementedError', 'RuntimeError', 'Exception', 'BaseException'],
    'KeyboardInterrupt': ['KeyboardInterrupt', 'BaseException'],
    'SystemExit': ['SystemExit', 'BaseException'],
    'BaseException': ['BaseException'],
    'Exception': ['Exception', 'BaseException'],
    'IOError': ['OSError', 'IOError', 'Exception', 'BaseException'],
    'ZeroDivisionError': ['ZeroDivisionError', 'ArithmeticError', 'Exception', 'BaseException'],
}


def mk_not(t):
    if t.op == 'not':
        return t.args[0]
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    return Term('not', t)


def mk_cmp(op, a, b):
    if a.op == 'const' and b.op == 'const':
        try:
            x, y = a.args[0], b.args[0]
            r = {'==': lambda: x == y, '!=': lambda: x != y, '<': lambda: x < y, '>': lambda: x > y,
                 '<=': lambda: x <= y, '>=': lambda: x >= y, 'is': lambda: x is y or (x == y and type(x) is type(y)),
                 'is not': lambda: not (x is y or (x == y and type(x) is type(y))),
                 'in': lambda: x in y, 'not in': lambda: x not in y}[op]()
            return const(bool(r))
        except Exception:
            pass
    if op in ('is', 'is not') and (is_const(b, None) or is_const(a, None)):
        o = a if is_const(b, None) else b
        if o.op in ('obj', 'new', 'tuple', 'list', 'dict', 'set', 'comp', 'fmt', 'bin', 'closure', 'method', 'cmp',
                    'global') or (o.op == 'const' and o.args[0] is not None):
            return const(op == 'is not')
    if op == '!=':
        return mk_not(mk_cmp('==', a, b))
    if op == 'not in':
        return mk_not(mk_cmp('in', a, b))
    if op == 'is not':
        return mk_not(mk_cmp('is', a, b))
    if op == '>':
        op, a, b = '<', b, a
    elif op == '>=':
        op, a, b = '<=', b, a
    if op in ('==', 'is'):
        if a.op == 'const' and b.op != 'const' or (a.op == 'const') == (b.op == 'const') and b.uid < a.uid:
            a, b = b, a
    return Term('cmp', op, a, b)


def mk_bool(op, xs):
    out = []
    for x in xs:
        if x.op == op:
            for y in x.args[0]:
                if y not in out:
                    out.append(y)
            continue
        if op == 'and' and x is TRUE or op == 'or' and x is FALSE:
            continue
        if op == 'and' and x is FALSE:
            return FALSE if not out else Term('and', tuple(out + [x]))
        if op == 'or' and x is TRUE:
            return TRUE if not out else Term('or', tuple(out + [x]))
        if x not in out:
            out.append(x)
    if not out:
        return TRUE if op == 'and' else FALSE
    if len(out) == 1:
        return out[0]
    return Term(op, tuple(out))


def mk_ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return mk_ite(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return mk_not(c)
    return Term('ite', c, a, b)


def mk_item(base, idx):
    if base.op in ('tuple', 'list') and is_const(idx) and isinstance(idx.args[0], int) \
            and not isinstance(idx.args[0], bool):
        i = idx.args[0]
        xs = base.args[0]
        if -len(xs) <= i < len(xs) and not any(x.op == 'star' for x in xs):
            return xs[i]
    if base.op == 'dict' and is_const(idx):
        for k, v in base.args[0]:
            if k is idx:
                return v
    if idx.op == 'idx' and idx.args[0] is base:
        return Term('elem', base, idx.args[1])
    return Term('item', base, idx)


def truth(t):
    """canonical form of a term used as a condition"""
    if t.op == 'call':
        f, a, k = t.args
        if f.op == 'global' and f.args[0] == 'builtins.bool' and len(a) == 1:
            return truth(a[0])
        if f.op == 'global' and f.args[0] == 'builtins.len' and len(a) == 1:
            return Term('nonempty', a[0])
    if t.op == 'cmp':
        op, a, b = t.args
        for x, y, sw in ((a, b, False), (b, a, True)):
            if x.op == 'call' and x.args[0].op == 'global' and x.args[0].args[0] == 'builtins.len' and is_const(y) \
                    and isinstance(y.args[0], (int, float)) and not isinstance(y.args[0], bool):
                v = y.args[0]
                ln = Term('nonempty', x.args[1][0])
                if op == '==' and v == 0:
                    return mk_not(ln)
                if sw and (op == '<' and v == 0 or op == '<=' and v == 1):
                    return ln
                if not sw and (op == '<' and v == 1 or op == '<=' and v == 0):
                    return mk_not(ln)
    if t.op == 'not':
        return mk_not(truth(t.args[0]))
    if t.op in ('and', 'or'):
        return mk_bool(t.op, [truth(x) for x in t.args[0]])
    if t.op == 'const' and not isinstance(t.args[0], bool):
        try:
            return const(bool(t.args[0]))
        except Exception:
            return t
    if t.op in ('list', 'tuple', 'set') and not any(x.op == 'star' for x in t.args[0]):
        return const(bool(t.args[0]))
    return t


def conj(pc):
    return mk_bool('and', [c if p else mk_not(c) for c, p in pc])


class State(object):
    __slots__ = ('env', 'heap', 'fields', 'pc')

    def __init__(self, env=None, heap=None, fields=None, pc=()):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.fields = fields if fields is not None else {}
        self.pc = pc

    def copy(self):
        return State(dict(self.env), dict(self.heap), dict(self.fields), self.pc)


class Event(object):
    """an effect or an opaque call, with its path condition and loop / try context"""
    __slots__ = ('kind', 'base', 'name', 'args', 'kwargs', 'value', 'pc', 'loops', 'trys', 'node', 'func', 'seq',
                 'state', 'raw', 'stack', 'found')

    def __init__(self, kind, **kw):
        self.kind = kind
        for s in self.__slots__[1:]:
            setattr(self, s, kw.get(s))

    @property
    def where(self):
        f = self.func
        return '%s:%d (%s)' % (f.module.relpath, getattr(self.node, 'lineno', 0),
                               (f.cls.name + '.' if f.cls else '') + f.name)

    def __repr__(self):
        return '<%s %s %s%s @%s>' % (self.kind, pp(self.base) if self.base is not None else '', self.name or '',
                                     '' if self.value is None else ' = ' + pp(self.value), self.where)


class Exit(object):
    __slots__ = ('kind', 'value', 'state', 'pc', 'node', 'func', 'seq', 'raw', 'loops', 'trys', 'implicit')

    def __init__(self, kind, value, state, pc, node, func, seq, raw=None, loops=(), trys=()):
        self.kind, self.value, self.state, self.pc, self.node, self.func, self.seq = \
            kind, value, state, pc, node, func, seq
        self.raw = raw
        self.loops = loops
        self.trys = trys
        self.implicit = False

    @property
    def where(self):
        f = self.func
        return '%s:%d (%s)' % (f.module.relpath, getattr(self.node, 'lineno', 0),
                               (f.cls.name + '.' if f.cls else '') + f.name)

    def __repr__(self):
        return '<%s %s if %s @%s>' % (self.kind, pp(self.value) if self.value is not None else '',
                                      ' & '.join(('' if p else '!') + pp(c) for c, p in self.pc), self.where)


class Frame(object):
    def __init__(self, func, recv_cls, self_term, depth):
        self.func = func
        self.recv_cls = recv_cls
        self.self_term = self_term
        self.depth = depth
        self.exits = []
        self.loopstk = []     # dicts with breaks/continues
        self.tryraises = []   # stack of lists collecting raise exits inside try bodies
        self.globals = set()


class Summary(object):
    def __init__(self, func, exits, events, interp):
        self.func, self.exits, self.events, self.interp = func, exits, events, interp

    @property
    def returns(self):
        return [e for e in self.exits if e.kind == 'return']

    @property
    def raises(self):
        return [e for e in self.exits if e.kind == 'raise']

    def ret(self):
        """merged return value, content-resolved"""
        rs = self.returns
        if not rs:
            return None
        return merge_tree([(e.pc, e.value) for e in rs])

    def calls(self, name=None, base=None):
        return [e for e in self.events if e.kind == 'call' and (name is None or e.name == name)
                and (base is None or e.base is base)]


def merge_tree(items):
    """items: [(pc, value)], mutually exclusive, in program order -> gated value"""
    if len(items) == 1:
        return items[0][1]
    # common prefix removal
    pcs = [p for p, _ in items]
    n = 0
    while all(len(p) > n for p in pcs) and all(p[n] == pcs[0][n] for p in pcs):
        n += 1
    if n:
        return merge_tree([(p[n:], v) for p, v in items])
    first = next((p for p in pcs if p), None)
    if first is None:
        return items[0][1]
    c = first[0][0]
    pos = [(p[1:], v) for p, v in items if p and p[0] == (c, True)]
    neg = [(p[1:], v) for p, v in items if p and p[0] == (c, False)]
    if len(pos) + len(neg) == len(items):
        if not pos:
            return merge_tree(neg)
        if not neg:
            return merge_tree(pos)
        return mk_ite(c, merge_tree(pos), merge_tree(neg))
    # fallback: chain
    (p, v), rest = items[0], items[1:]
    cc = conj(p)
    rest2 = []
    for q, w in rest:
        if len(p) == 1 and q and q[0] == (p[0][0], not p[0][1]):
            q = q[1:]
        rest2.append((q, w))
    return mk_ite(cc, v, merge_tree(rest2))


STATE_CHANGE = re.compile(r'(disable|enable|reset|run|load_\w+|set_adhoc_\w+|set_protected_\w+)$')


def held_root(fterm):
    """the field or parameter through which a method of another object is reached, or None"""
    if fterm.op != 'attr':
        return None
    t = fterm.args[0]
    while t.op == 'attr':
        if t.args[0] is SELF:
            return t
        t = t.args[0]
    if t.op == 'call' and t is fterm.args[0] and t.args[0].op == 'attr' and t.args[0].args[1] == 'copy':
        return t        # a copy made here of an object of another kind
    return t if t.op == 'param' else None


class Interp(object):
    def __init__(self, project, opaque=None, hints=None, assume=None, max_depth=10, fold_class_consts=(),
                 no_fold=('diffusion_model', 'requires_charge'), inline_new=False, attr_types=None, pure=None,
                 isa=None):
        self.p = project
        self.opaque = opaque or (lambda f, recv: False)
        self.types = dict(hints or {})          # Term -> Class
        self.attr_types = dict(attr_types or {})  # attribute name -> Class
        self.assume = assume or (lambda c: None)
        self.max_depth = max_depth
        self.no_fold = set(no_fold)
        self.events = []
        self.nobj = 0
        self.nloop = 0
        self.ntry = 0
        self.frames = []
        self.loopctx = ()
        self.tryctx = ()
        self.seq = 0
        self.closures = {}
        self.inlined = set()
        self.unknown = []
        self.discover = 0
        self.evaluated = []
        self.birth = {}
        self.prov = {}
        self.inline_new = inline_new

    # ------------------------------------------------------------------ entry
    def analyze(self, func, recv=None, args=None, fields=None, self_term=SELF):
        """func: Func; recv: Class used to resolve self.*; args: dict param -> Term (others become ('param', name))"""
        args = dict(args or {})
        st = State()
        if fields:
            st.fields.update(fields)
        pos, va, kwo, kw = func.params()
        names = list(pos) + list(kwo)
        if func.kind in ('method', 'class') and pos:
            first = pos[0]
            st.env[first] = args.pop(first, self_term)
            names = [n for n in names if n != first]
        for n in names:
            st.env[n] = args[n] if n in args else Term('param', n)
        if va:
            st.env[va] = args.get(va, Term('param', '*' + va))
        if kw:
            st.env[kw] = args.get(kw, Term('param', '**' + kw))
        fr = Frame(func, recv or func.cls, self_term, 0)
        self.frames.append(fr)
        try:
            end = self.block(func.node.body, st)
            if end is not None:
                self.exit('return', NONE, end, func.node)
        finally:
            self.frames.pop()
        return Summary(func, fr.exits, self.events, self)

    # ------------------------------------------------------------------ helpers
    @property
    def fr(self):
        return self.frames[-1]

    def fresh(self, content, st, typ=None):
        self.nobj += 1
        o = Term('obj', self.nobj)
        st.heap[o] = content
        self.birth[o] = content
        if typ is not None:
            self.types[o] = typ
        return o

    def snap(self, t, st):
        """resolve references to their current contents (deep)"""
        if not isinstance(t, Term):
            return t
        heap = st.heap
        if not heap and not self.closures:
            return t
        memo = {}
        busy = set()

        def go(x):
            r = memo.get(x.uid)
            if r is not None:
                return r
            if x.op == 'closure' and x in self.closures and x.uid not in busy:
                busy.add(x.uid)
                r = self.lam(x, st)
                busy.discard(x.uid)
            elif x in heap and x.uid not in busy:
                busy.add(x.uid)
                r = go(heap[x])
                busy.discard(x.uid)
            elif x.op in ('init', 'mu', 'trybody'):
                r = x
            else:
                args = tuple(goa(a) for a in x.args)
                r = x if all(p is q for p, q in zip(args, x.args)) else self.rebuild1(x.op, args)
            memo[x.uid] = r
            return r

        def goa(a):
            if isinstance(a, Term):
                return go(a)
            if isinstance(a, tuple):
                r = tuple(goa(z) for z in a)
                return a if all(p is q for p, q in zip(r, a)) else r
            return a
        return go(t)

    # ---- values computed before the first change of a reference keep its old contents
    def freeze(self, st, key):
        if key.op == 'obj':
            return
        memo_r, memo_v = {}, {}
        new = Term('init', key)
        from .nf import contains_memo

        def val(x):
            if x is key:
                return new
            if x.op in ('init', 'mu', 'trybody', 'closure') or not contains_memo(x, key):
                return x
            r = memo_v.get(x.uid)
            if r is None:
                r = memo_v[x.uid] = rebuilt(x, val)
            return r

        def rebuilt(x, f):
            def goa(a):
                if isinstance(a, Term):
                    return f(a)
                if isinstance(a, tuple):
                    q = tuple(goa(z) for z in a)
                    return a if all(p is s for p, s in zip(q, a)) else q
                return a
            args = tuple(goa(a) for a in x.args)
            return x if all(p is q for p, q in zip(args, x.args)) else Term(x.op, *args)

        def ref(x):
            if x is key or x.op in ('init', 'mu', 'trybody', 'closure') or not contains_memo(x, key):
                return x
            r = memo_r.get(x.uid)
            if r is None:
                if x.op in ('list', 'tuple', 'dict', 'set', 'attr', 'item', 'viewof', 'upd', 'maybe'):
                    r = rebuilt(x, ref)
                elif x.op == 'ite':
                    r = Term('ite', val(x.args[0]), ref(x.args[1]), ref(x.args[2]))
                else:
                    r = rebuilt(x, val)
                memo_r[x.uid] = r
            return r
        for d in (st.env, st.heap, st.fields):
            for k, v in list(d.items()):
                if isinstance(v, Term) and k is not key:
                    d[k] = ref(v)
        return val

    def frozen_for(self, st, e):
        """st with the values frozen the way they are in the later state e"""
        new = [k for k in e.heap if k.op != 'obj' and k not in st.heap]
        if not new:
            return st
        st = st.copy()
        for k in new:
            self.freeze(st, k)
        return st

    def lam(self, cl, st):
        """canonical form of a function value: its body over numbered bound variables"""
        f, env, rc, selft = self.closures[cl]
        pos, va, kwo, kw = f.params()
        if f.kind in ('method', 'class'):
            pos = pos[1:]
        if va or kw or kwo or any(fr.func.node is f.node for fr in self.frames) or len(self.frames) > 12:
            return cl
        depth = sum(1 for fr in self.frames if getattr(fr, 'lam', False))
        b = {n: Term('bound', depth, i) for i, n in enumerate(pos)}
        self.discover += 1
        saved = self.fr.exits[:], [list(x) for x in self.fr.tryraises]
        st2 = st.copy()
        self.fr.lam = True
        try:
            v = self.run_inline(f, selft, rc, b, st2, f.node, base_env=dict(env))
            r = self.snap(v, st2)
        finally:
            self.fr.lam = False
            self.discover -= 1
            self.fr.exits[:] = saved[0]
            for x, y in zip(self.fr.tryraises, saved[1]):
                x[:] = y
        return Term('lam', len(pos), r)

    @staticmethod
    def rebuild1(op, args):
        if op == 'item':
            return mk_item(*args)
        return Term(op, *args)

    def funcval(self, v):
        """a repo function handed over as a value (a sort key, a callback): its body, unless it is part of the api"""
        if v.op == 'method':
            recv, name = v.args
            if recv.op == 'classref':
                c = self.p.classes[recv.args[0]]
                f = self.p.method(c, name)
                if f.kind == 'method':
                    return v
            else:
                c = self.type_of(recv) if recv.op not in ('super', 'selfclass') else None
                f = self.p.method(c, name) if c is not None else None
        elif v.op == 'global':
            recv, c, f = None, None, self.p.func(v.args[0])
        else:
            return v
        if f is None or self.opaque(f, recv):
            return v
        t = Term('closure', f.name, f.node.lineno, f.node.col_offset, f.module.name)
        self.closures.setdefault(t, (f, {}, c, recv))
        return t

    def content(self, ref, st):
        if ref in st.heap:
            return st.heap[ref]
        return ref

    def event(self, kind, st, node, **kw):
        self.seq += 1
        e = Event(kind, pc=st.pc, loops=self.loopctx, trys=self.tryctx, node=node, func=self.fr.func, seq=self.seq,
                  stack=tuple(f.func for f in self.frames), **kw)
        if not self.discover:
            self.events.append(e)
        return e

    def exit(self, kind, value, st, node):
        self.seq += 1
        e = Exit(kind, self.snap(value, st) if value is not None else None, st, st.pc, node, self.fr.func, self.seq,
                 raw=value, loops=self.loopctx, trys=self.tryctx)
        fr = self.fr
        if kind == 'raise' and fr.tryraises:
            fr.tryraises[-1].append(e)
        else:
            fr.exits.append(e)
        return e

    # ------------------------------------------------------------------ merging
    def merge(self, c, a, b):
        """join of two states reached under c / not c (pc restored by caller)"""
        if a is None:
            return b
        if b is None:
            return a
        out = State(pc=a.pc)
        a, b = self.frozen_for(a, b), self.frozen_for(b, a)
        keys = {k for h in (a.heap, b.heap) for k in h if k.op != 'obj'}
        if keys:
            c = initial(c, keys)
        for attr in ('env', 'heap', 'fields'):
            da, db, do = getattr(a, attr), getattr(b, attr), getattr(out, attr)
            for k in list(da) + [k for k in db if k not in da]:
                va, vb = da.get(k), db.get(k)
                if va is vb:
                    do[k] = va
                elif va is None or vb is None:
                    if attr == 'env':
                        do[k] = Term('maybeunbound', va if va is not None else vb)
                    elif attr == 'heap':
                        if k.op == 'obj':
                            do[k] = va if va is not None else vb
                        else:
                            i = Term('init', k)
                            do[k] = mk_ite(c, va if va is not None else i, vb if vb is not None else i)
                    else:
                        i = Term('attr', k[0], k[1])
                        do[k] = mk_ite(c, va if va is not None else i, vb if vb is not None else i)
                else:
                    do[k] = mk_ite(c, va, vb)
        return out

    def merge_many(self, states, base_pc):
        """states: State list with pc extending base_pc, mutually exclusive"""
        states = [s for s in states if s is not None]
        if not states:
            return None
        if len(states) == 1:
            s = states[0]
            return s
        items = [(s.pc[len(base_pc):] if s.pc[:len(base_pc)] == base_pc else s.pc, s) for s in states]

        def tree(items):
            if len(items) == 1:
                return items[0][1]
            pcs = [p for p, _ in items]
            n = 0
            while all(len(p) > n for p in pcs) and all(p[n] == pcs[0][n] for p in pcs):
                n += 1
            items = [(p[n:], v) for p, v in items]
            first = next((p for p, _ in items if p), None)
            if first is None:
                r = items[0][1]
                for _, s in items[1:]:
                    r = self.merge(Term('nondet', s.env and 1 or 0), r, s)
                return r
            c = first[0][0]
            pos = [(p[1:], v) for p, v in items if p and p[0] == (c, True)]
            neg = [(p[1:], v) for p, v in items if p and p[0] == (c, False)]
            rest = [(p, v) for p, v in items if not p or p[0][0] is not c]
            if not rest and pos and neg:
                return self.merge(c, tree(pos), tree(neg))
            if not rest:
                return tree(pos or neg)
            i = min(range(len(items)), key=lambda j: len(items[j][0]))
            (p, v), more = items[i], items[:i] + items[i + 1:]
            return self.merge(conj(p), v, tree(more))
        s = tree(items)
        out = s.copy()
        out.pc = base_pc
        return out

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.unknown.append(('stmt', type(s).__name__, s))
            return st
        return m(s, st)

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return st
        v = self.ev(s.value, st)
        if v.op == 'never':
            return None
        return self.poll(st)

    def poll(self, st):
        return None if st.pc and st.pc[-1][0] is FALSE and st.pc[-1][1] else st

    def s_Pass(self, s, st):
        return st

    def s_Import(self, s, st):
        return st
    s_ImportFrom = s_Import

    def s_Global(self, s, st):
        self.fr.globals.update(s.names)
        return st

    def s_Nonlocal(self, s, st):
        return st

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        if v.op == 'never' or self.poll(st) is None:
            return None
        self.exit('return', v, st, s)
        return None

    def s_Raise(self, s, st):
        v = self.ev(s.exc, st) if s.exc is not None else Term('reraise')
        if s.cause is not None:
            self.ev(s.cause, st)
        self.event('raise', st, s, value=self.snap(v, st))
        self.exit('raise', v, st, s)
        return None

    def s_Assert(self, s, st):
        c = truth(self.snap(self.ev(s.test, st), st))
        st2 = st.copy()
        a, b = self.split(c, st)
        if b is not None:
            self.event('raise', b, s, value=Term('global', 'builtins.AssertionError'))
            self.exit('raise', Term('global', 'builtins.AssertionError'), b, s)
        return a

    def decide(self, c, st):
        """True/False/None under assumptions and the path condition"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c.op == 'not':
            r = self.decide(c.args[0], st)
            return None if r is None else not r
        r = self.assume(c)
        if r is not None:
            return r
        for k, p in st.pc:
            if k is c:
                return p
        if c.op == 'and':
            rs = [self.decide(x, st) for x in c.args[0]]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
        if c.op == 'or':
            rs = [self.decide(x, st) for x in c.args[0]]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
        return None

    def split(self, c, st):
        """two states: c true / c false (None when infeasible)"""
        r = self.decide(c, st)
        if r is True:
            return st, None
        if r is False:
            return None, st
        a, b = st.copy(), st.copy()
        a.pc = self.addpc(st.pc, c, True)
        b.pc = self.addpc(st.pc, c, False)
        return a, b

    @staticmethod
    def addpc(pc, c, pol):
        if c.op == 'not':
            return Interp.addpc(pc, c.args[0], not pol)
        if c.op == 'and' and pol:
            for x in c.args[0]:
                pc = Interp.addpc(pc, x, True)
            return pc
        if c.op == 'or' and not pol:
            for x in c.args[0]:
                pc = Interp.addpc(pc, x, False)
            return pc
        if (c, pol) in pc:
            return pc
        return pc + ((c, pol),)

    def s_If(self, s, st):
        c = truth(self.snap(self.ev(s.test, st), st))
        if self.poll(st) is None:
            return None
        pc0 = st.pc
        a, b = self.split(c, st)
        if a is not None and b is not None:
            c2 = c
        na, nb = len(a.pc) if a is not None else 0, len(b.pc) if b is not None else 0
        ra = self.block(s.body, a) if a is not None else None
        rb = self.block(s.orelse, b) if b is not None else None
        if a is None or b is None:
            return ra if b is None else rb
        if ra is None:
            return rb
        if rb is None:
            return ra
        out = self.merge(c2, ra, rb)
        # facts acquired inside a branch (inner early exits): c implies fa, not c implies fb
        fa, fb = ra.pc[na:], rb.pc[nb:]
        pc = pc0
        for x in fa:
            if x in fb:
                pc = self.addpc(pc, *x)
        fa, fb = [x for x in fa if x not in pc], [x for x in fb if x not in pc]
        if fa:
            pc = self.addpc(pc, mk_bool('and', [c, mk_not(conj(fa))]), False)
        if fb:
            pc = self.addpc(pc, mk_bool('and', [mk_not(c), mk_not(conj(fb))]), False)
        out.pc = pc
        return out

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        if v.op == 'never' or self.poll(st) is None:
            return None
        for t in s.targets:
            self.assign(t, v, st, s)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st, s)
        return st

    def s_AugAssign(self, s, st):
        op = type(s.op).__name__
        t = s.target
        rhs = self.ev(s.value, st)
        if isinstance(t, ast.Name):
            ref = self.ev(t, st)
            new = self.binop(op, self.snap(ref, st), self.snap(rhs, st))
            if ref.op == 'obj':
                if op == 'Add' and self.content(ref, st).op in ('list',) or \
                        (self.content(ref, st).op == 'upd' and self.content(ref, st).args[1] in ('append', 'extend')):
                    self.mutate(ref, 'extend', (rhs,), (), st, s)
                else:
                    self.event('mutate', st, s, base=ref, name='augassign', args=(const(op), self.snap(rhs, st)),
                               raw=ref)
                    st.heap[ref] = new
            else:
                if ref.op in ('attr', 'item', 'call', 'param', 'elem') and op in ('Add', 'Sub', 'Mult', 'Div', 'BitAnd',
                                                                               'BitOr', 'BitXor'):
                    self.event('maymutate', st, s, base=ref, name='augassign', args=(const(op), self.snap(rhs, st)),
                               raw=ref)
                st.env[t.id] = new
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st)
            old = self.attr(base, t.attr, st, t)
            new = self.binop(op, self.snap(old, st), self.snap(rhs, st))
            self.event('setattr', st, s, base=base, name=t.attr, value=new, raw=new, args=('aug', old))
            st.fields[(base, t.attr)] = new
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            idx = self.snap(self.ev(t.slice, st), st)
            old = self.subscript(base, idx, st)
            new = self.binop(op, self.snap(old, st), self.snap(rhs, st))
            self.setitem(base, idx, new, st, s)
        return st

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value, st)
                idx = self.snap(self.ev(t.slice, st), st)
                self.mutate(base, 'delitem', (idx,), (), st, s)
            elif isinstance(t, ast.Attribute):
                base = self.ev(t.value, st)
                self.event('delattr', st, s, base=base, name=t.attr)
        return st

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            if t.id in self.fr.globals:
                self.event('setglobal', st, node, base=Term('global', self.fr.func.module.name + '.' + t.id), value=v)
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, st, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, Term('starred', v), st, node)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st)
            self.event('setattr', st, node, base=base, name=t.attr, value=self.snap(v, st), raw=v)
            if base.op != 'self' and base.op != 'obj' or (base.op == 'obj' and base not in self.types):
                self.mutate(base, 'setattr', (const(t.attr), v), (), st, node, quiet=True)
            st.fields[(base, t.attr)] = v
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            idx = self.snap(self.ev(t.slice, st), st)
            self.setitem(base, idx, v, st, node)

    def unpack(self, t, v, st, node):
        c = self.content(v, st)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        if c.op in ('tuple', 'list') and not star and len(c.args[0]) == len(t.elts):
            for e, x in zip(t.elts, c.args[0]):
                self.assign(e, x, st, node)
            return
        if c.op == 'ite' and not star:
            parts = []
            for i in range(len(t.elts)):
                parts.append(self.proj(c, i, st))
            for e, x in zip(t.elts, parts):
                self.assign(e, x, st, node)
            return
        for i, e in enumerate(t.elts):
            if isinstance(e, ast.Starred):
                self.assign(e.value, Term('rest', v, i), st, node)
            else:
                self.assign(e, mk_item(v, const(i)), st, node)

    def proj(self, c, i, st):
        c = self.content(c, st)
        if c.op == 'ite':
            return mk_ite(c.args[0], self.proj(c.args[1], i, st), self.proj(c.args[2], i, st))
        return mk_item(c, const(i))

    def owner_of_view(self, base, st):
        """x.at / x.loc / x.values -> (x, accessor)"""
        if base.op == 'attr' and base.args[1] in VIEWS:
            return base.args[0], '.' + base.args[1]
        return base, ''

    def setitem(self, base, idx, v, st, node):
        o, acc = base, ''
        if base.op == 'attr' and base.args[1] in VIEWS and (base.args[0], base.args[1]) not in st.fields:
            o, acc = base.args[0], '.' + base.args[1]
        # find the reference object whose content o is (views are resolved to contents on reads)
        ref = self.ref_for(o, st)
        sv = self.snap(v, st)
        self.event('setitem', st, node, base=ref, name=acc, args=(idx,), value=sv, raw=v)
        self.weakly(ref, st, lambda r: self.setitem1(r, acc, idx, v, sv, st))

    def weakly(self, ref, st, change):
        """apply a change to a reference; one that is chosen by a condition changes each candidate under its condition"""
        if ref.op != 'ite':
            return change(ref)
        for c, r in self.choices(ref):
            if r.op in ('const', 'num', 'fmt', 'raises'):
                continue
            before = st.heap.get(r)
            if before is None:
                before = Term('init', r)
            change(r)
            if r in st.heap:
                st.heap[r] = mk_ite(c, st.heap[r], before)

    def choices(self, x, c=()):
        if x.op == 'ite':
            return self.choices(x.args[1], c + (x.args[0],)) + self.choices(x.args[2], c + (mk_not(x.args[0]),))
        return [(mk_bool('and', list(c)), x)]

    def setitem1(self, ref, acc, idx, v, sv, st):
        if ref in self.prov and ref not in st.heap:
            self.written(ref, Term('upd', self.snap(ref, st), 'setitem' + acc,
                                   (idx, v if v.op == 'obj' and v is not ref else sv)), st)
            return
        old = self.content(ref, st)
        if old is ref and ref.op != 'obj':
            old = Term('init', ref)
            val = self.freeze(st, ref)
            idx, sv = val(idx), val(sv)
        if old.op == 'dict' and is_const(idx):
            items = [(k, x) for k, x in old.args[0] if k is not idx]
            if all(k.op == 'const' for k, _ in items):
                st.heap[ref] = Term('dict', tuple(items) + ((idx, v),))
                return
        if old.op == 'list' and is_const(idx) and isinstance(idx.args[0], int) and \
                -len(old.args[0]) <= idx.args[0] < len(old.args[0]):
            xs = list(old.args[0])
            xs[idx.args[0]] = v
            st.heap[ref] = Term('list', tuple(xs))
            return
        st.heap[ref] = Term('upd', old, 'setitem' + acc, (idx, v if v.op == 'obj' and v is not ref else sv))

    def ref_for(self, o, st):
        if o.op == 'viewof':
            return o.args[0]
        # the elements of a sorted collection are the elements of the collection
        if o.op == 'attr' and isinstance(o.args[0], Term) and o.args[0].op == 'elem':
            core = o.args[0].args[0]
            while core.op == 'upd' and core.args[1] in ('sort', 'reverse'):
                core = core.args[0]
            if core.op == 'init':
                core = core.args[0]
            if core is not o.args[0].args[0]:
                return Term('attr', Term('elem', core, o.args[0].args[1]), o.args[1])
        return o

    def mutate(self, ref, name, args, kwargs, st, node, quiet=False):
        ref = self.ref_for(ref, st)
        sargs = tuple(self.snap(a, st) for a in args)
        if not quiet:
            self.event('mutate', st, node, base=ref, name=name, args=sargs, kwargs=kwargs, raw=args)
        self.weakly(ref, st, lambda r: self.mutate1(r, name, args, sargs, kwargs, st))

    def written(self, ref, new, st):
        """an item of a local container was changed in place: the container holds the changed item"""
        o, idx, acc = self.prov[ref]
        for k, v in list(st.env.items()):
            if v is ref:
                st.env[k] = new
        self.prov[new] = (o, idx, acc)
        self.setitem1(o, acc, idx, new, new, st)

    def mutate1(self, ref, name, args, sargs, kwargs, st):
        if ref in self.prov and ref not in st.heap:
            if name == 'append' and ref.op == 'list' and len(args) == 1:
                new = Term('list', ref.args[0] + (args[0],))
            else:
                new = Term('upd', self.snap(ref, st), name, tuple(sargs) + tuple(('kw', k, v) for k, v in kwargs))
            self.written(ref, new, st)
            return
        old = self.content(ref, st)
        if old is ref and ref.op != 'obj':
            old = Term('init', ref)
            val = self.freeze(st, ref)
            sargs = tuple(val(a) if isinstance(a, Term) else a for a in sargs)
        if name == 'append' and old.op == 'list' and len(args) == 1:
            st.heap[ref] = Term('list', old.args[0] + (args[0],))
            return
        if name == 'extend' and old.op == 'list' and len(args) == 1:
            c = self.content(args[0], st)
            if c.op in ('list', 'tuple'):
                st.heap[ref] = Term('list', old.args[0] + c.args[0])
                return
        st.heap[ref] = Term('upd', old, name, tuple(sargs) + tuple(('kw', k, v) for k, v in kwargs))

    # ---- control flow
    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        its = self.snap(it, st)
        items = self.literal_items(it, its, st)
        if items is not None:
            return self.unrolled(s, st, items)
        return self.loop(s, st, its, s.target)

    s_AsyncFor = s_For

    def literal_items(self, it, its, st, n=8):
        """the elements of an iteration over a literal (also enumerated, zipped, reversed, a constant range), or None"""
        if its.op in ('tuple', 'list'):
            src = self.content(it, st)
            xs = src.args[0] if src.op in ('tuple', 'list') and len(src.args[0]) == len(its.args[0]) else its.args[0]
            return list(xs) if len(xs) <= n and not any(x.op == 'star' for x in xs) else None
        if its.op == 'call' and its.args[0].op == 'global' and its.args[1]:
            f, a, kw = its.args
            name = f.args[0]
            if name == 'builtins.range' and not kw and all(x.op == 'const' and type(x.args[0]) is int for x in a):
                r = range(*[x.args[0] for x in a]) if len(a) < 3 or a[2].args[0] else ()
                return [const(i) for i in r] if len(r) <= 4 else None
            if name in ('builtins.enumerate', 'builtins.zip', 'builtins.reversed', 'builtins.list', 'builtins.tuple',
                        'builtins.iter'):
                args = a if name == 'builtins.zip' else a[:1]
                xs = [self.literal_items(x, self.snap(x, st), st, n) for x in args]
                if any(x is None for x in xs):
                    return None
                if name == 'builtins.zip':
                    return [Term('tuple', z) for z in zip(*xs)]
                if name == 'builtins.reversed':
                    return xs[0][::-1]
                if name == 'builtins.enumerate':
                    start = a[1] if len(a) > 1 else dict(kw).get('start', const(0))
                    if start.op != 'const' or type(start.args[0]) is not int:
                        return None
                    return [Term('tuple', (const(start.args[0] + i), x)) for i, x in enumerate(xs[0])]
                return xs[0] if not kw else None
        return None

    def unrolled(self, s, st, items):
        breaks, pc0 = [], st.pc
        for x in items:
            lp = {'breaks': [], 'continues': []}
            base = st.pc
            self.fr.loopstk.append(lp)
            try:
                self.assign(s.target, x, st, s)
                out = self.block(s.body, st)
            finally:
                self.fr.loopstk.pop()
            breaks.extend(lp['breaks'])
            ends = [y for y in [out] + lp['continues'] if y is not None]
            if lp['continues'] and ends:
                st = self.merge_many(ends, base)
            else:
                st = out
            if st is None:
                break
        if st is not None and s.orelse:
            st = self.block(s.orelse, st)
        if not breaks:
            return st
        return self.merge_many(breaks + ([st] if st is not None else []), pc0)

    def s_While(self, s, st):
        return self.loop(s, st, None, None)

    def iter_elem(self, it, k):
        if it.op == 'call':
            f, a, kw = it.args
            if f.op == 'global':
                n = f.args[0]
                if n == 'builtins.enumerate' and a:
                    start = a[1] if len(a) > 1 else dict(kw).get('start')
                    i = self.iter_index(a[0], k)
                    if start is not None and not is_const(start, 0):
                        i = self.binop('Add', i, start)
                    return Term('tuple', (i, self.iter_elem(a[0], k)))
                if n == 'builtins.zip' and a:
                    d = labelled(a)
                    if d is not None:
                        key = Term('elem', Term('attr', d, 'index'), k)
                        return Term('tuple', tuple(mk_item(d, key) if i else key for i in range(len(a))))
                    return Term('tuple', tuple(self.iter_elem(x, k) for x in a))
                if n == 'builtins.range' and len(a) == 1:
                    ln = a[0]
                    if ln.op == 'call' and ln.args[0].op == 'global' and ln.args[0].args[0] == 'builtins.len':
                        return self.iter_index(ln.args[1][0], k)
                    return Term('idx', it, k)
                if n in ('builtins.list', 'builtins.tuple', 'builtins.iter') and len(a) == 1:
                    return self.iter_elem(a[0], k)
            if f.op == 'attr' and not a and not kw:
                d, m = f.args
                if m in ('items', 'iteritems'):
                    key = Term('elem', Term('attr', d, 'index') if is_series(d) else d, k)
                    return Term('tuple', (key, mk_item(d, key)))
                if m == 'values':
                    return mk_item(d, Term('elem', d, k))
                if m == 'keys':
                    return Term('elem', d, k)
        return Term('elem', it, k)

    def iter_index(self, x, k):
        return Term('idx', x, k)

    def iter_core(self, it):
        """the collection an iteration ranges over, for canonical generator terms"""
        if it.op == 'call':
            f, a, kw = it.args
            if f.op == 'global':
                n = f.args[0]
                if n in ('builtins.enumerate', 'builtins.list', 'builtins.tuple', 'builtins.iter') and a:
                    return self.iter_core(a[0])
                if n == 'builtins.zip' and a:
                    d = labelled(a)
                    if d is not None:
                        return Term('attr', d, 'index')
                    return Term('zip', tuple(self.iter_core(x) for x in a))
                if n == 'builtins.range' and len(a) == 1:
                    ln = a[0]
                    if ln.op == 'call' and ln.args[0].op == 'global' and ln.args[0].args[0] == 'builtins.len':
                        return ln.args[1][0]
            if f.op == 'attr' and not a and not kw and f.args[1] in ('items', 'iteritems', 'values', 'keys'):
                return Term('attr', f.args[0], 'index') if is_series(f.args[0]) else f.args[0]
        return it

    def loopk(self, it):
        return sum(1 for l in self.loopctx if l[1] is it)

    def reread(self, alias, st):
        """names of items of local containers, after the containers may have changed"""
        for key, (o, idx, acc) in alias:
            r = self.subscript(Term('attr', o, acc[1:]) if acc else o, idx, st)
            st.env[key] = r
            if r.op not in ('const', 'num', 'obj') and r not in st.heap:
                self.prov[r] = (o, idx, acc)

    def loop(self, s, st, it, target):
        self.nloop += 1
        lid = self.nloop
        pc0 = st.pc
        # --- pass 1: discover what the body changes
        core = self.iter_core(it) if it is not None else Term('while', lid)
        k = self.loopk(core)
        test = [TRUE]

        def one_pass(st1):
            ctx0 = self.loopctx
            self.loopctx = ctx0 + ((lid, core),)
            lp = {'breaks': [], 'continues': []}
            self.fr.loopstk.append(lp)
            try:
                if it is not None:
                    self.assign(target, self.iter_elem(it, k), st1, s)
                    st1.pc = st1.pc + ((Term('inloop', lid, core), True),)
                    out = self.block(s.body, st1)
                else:
                    c = test[0] = truth(self.snap(self.ev(s.test, st1), st1))
                    st1.pc = self.addpc(st1.pc + ((Term('inloop', lid, core), True),), c, True)
                    out = self.block(s.body, st1)
            finally:
                self.fr.loopstk.pop()
                self.loopctx = ctx0
            return out, lp

        self.discover += 1
        nobj0, ncl0 = self.nobj, None
        saved_exits = list(self.fr.exits)
        saved_tr = [list(x) for x in self.fr.tryraises]
        try:
            out1, lp1 = one_pass(st.copy())
        finally:
            self.discover -= 1
        self.fr.exits[:] = saved_exits
        for x, y in zip(self.fr.tryraises, saved_tr):
            x[:] = y
        ends1 = [x for x in [out1] + lp1['continues'] + lp1['breaks'] if x is not None]
        for e in self._exits_after(saved_exits, []):
            ends1.append(e)
        changed = {'env': [], 'heap': [], 'fields': []}
        for e in ends1:
            st0 = self.frozen_for(st, e)
            for attr in changed:
                d0, d1 = getattr(st0, attr), getattr(e, attr)
                for key in d1:
                    if attr == 'heap' and key.op == 'obj' and key not in d0:
                        continue   # allocated inside the body
                    if d1[key] is not d0.get(key) and key not in changed[attr]:
                        changed[attr].append(key)
        # --- pass 2
        st2 = st.copy()
        mus = {}
        named = {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load)}
        alias = [(k1, self.prov[st.env[k1]]) for k1 in changed['env']
                 if k1 in st.env and k1 not in named and st.env[k1] in self.prov and st.env[k1] not in st.heap]
        for attr in changed:
            for key in changed[attr]:
                if attr == 'env' and any(key == k1 for k1, _ in alias):
                    continue
                d = getattr(st2, attr)
                m = Term('mu', lid, (attr, key if attr != 'fields' else key))
                old = d.get(key)
                if attr == 'env' and old is None and self._is_target(target, key):
                    continue
                if attr == 'env' and old is None:
                    continue
                if attr == 'heap' and old is None:
                    old = Term('init', key)
                    self.freeze(st2, key)
                if attr == 'fields' and old is None:
                    old = Term('attr', key[0], key[1])
                mus[(attr, key)] = (m, old)
                if old.op == 'call' and old.args[0].op == 'global' and old.args[0].args[0] == 'collections.Counter' \
                        or old in COUNTERS or old.op == 'acc' and old.args[0].op == 'call':
                    COUNTERS.add(m)
                d[key] = m
        self.reread(alias, st2)
        n_exits = len(self.fr.exits)
        n_tr = len(self.fr.tryraises[-1]) if self.fr.tryraises else 0
        n_ev = len(self.events)
        out2, lp2 = one_pass(st2)
        inner = [x for x in [out2] + lp2['continues'] if x is not None]
        end = self.merge_many(inner, st2.pc if False else pc0) if inner else None
        breaks = lp2['breaks']
        gen = (core, TRUE)
        # state after the loop
        after = st.copy()
        body_end = end
        npc = len(pc0)
        bconds = []
        for b in breaks:
            tail = b.pc[npc:]
            bconds.append(mk_bool('and', [c if p else mk_not(c) for c, p in tail[1:]]))
        system = {}
        for (attr, key), (m, old) in mus.items():
            fin = getattr(body_end, attr).get(key) if body_end is not None else None
            if body_end is not None and fin is None:
                fin = m
            system[m] = (attr, key, old, fin, [getattr(b, attr).get(key, m) for b in breaks])
        closed = self.close_loop(lid, core, test[0], system, bconds, st, body_end, breaks)
        for (attr, key), (m, old) in mus.items():
            d = getattr(after, attr)
            fin, bfin = system[m][3:]
            if attr == 'heap' and key not in d:
                self.freeze(after, key)
            d[key] = self.reduce_loop(lid, core, m, old, fin, bfin, closed)
        cur = Closer({m: Term('cur', x) for m, x in closed.items()})
        if closed or it is None:
            wh = Term('while', cur(test[0])) if it is None else None
            for e in self.events[n_ev:]:
                cur.event(e, lid, wh)
            for e in self.fr.exits[n_exits:]:
                cur.event(e, lid, wh)
            if self.fr.tryraises:
                for e in self.fr.tryraises[-1][n_tr:]:
                    cur.event(e, lid, wh)
            for b in inner + breaks + ([body_end] if body_end is not None else []):
                cur.state(b)
        # variables first bound in the body keep their last-iteration value
        for key in changed['env']:
            if ('env', key) in mus or any(key == k1 for k1, _ in alias):
                continue
            v = body_end.env.get(key) if body_end is not None else (breaks[0].env.get(key) if breaks else None)
            if v is not None:
                after.env[key] = Term('last', cur(core) if it is not None else wh,
                                      cur(self.snap(v, body_end if body_end is not None else breaks[0])))
        self.reread(alias, after)
        # objects allocated in the body stay reachable
        for e in ([body_end] if body_end is not None else []) + inner + breaks:
            for key, v in e.heap.items():
                if key.op == 'obj' and key not in after.heap:
                    after.heap[key] = v
        # exits inside the loop: fold the per-iteration conditions into any(...)
        neg = []
        if it is None:
            core = wh
        groups = [self.fr.exits[n_exits:]]
        if self.fr.tryraises:
            groups.append(self.fr.tryraises[-1][n_tr:])
        leaving = []
        for group in groups:
            for e in group:
                tail = e.pc[npc:]
                if tail and tail[0][0].op == 'inloop' and tail[0][0].args[0] == lid:
                    leaving.append((e, mk_bool('and', [c if p else mk_not(c) for c, p in tail[1:]])))
        leaving.sort(key=lambda p: p[0].seq)
        # the iteration ends at the first element that leaves it in any way
        ways = [c for _, c in leaving] + bconds
        several = len(set(ways)) > 1 and k == 0 and len(ways) <= 12 and it is not None
        for i, (e, c) in enumerate(leaving):
            a = self.any_term(core, mk_bool('or', ways) if several else c, k)
            e.pc = pc0 + (((a, True),) if a is not TRUE else ())
            if several:
                f = Term('first', c, ((core, a.args[0]),)) if a.op == 'any' else Term('first', c, ((core, TRUE),))
                e.pc += ((f, True),)
                neg.append(mk_bool('and', [a, f]) if i < len(ways) - 1 else a)
            else:
                neg.append(a)
        for b in breaks:
            tail = b.pc[npc:]
            conds = [c if p else mk_not(c) for c, p in tail[1:]]
            b.pc = pc0 + ((self.any_term(core, mk_bool('and', conds), k), True),)
        after.pc = pc0
        for c in neg:
            after.pc = self.addpc(after.pc, c, False)
        # search loops: `for x in it: if c: v = ...; break` [else: v = other]
        if breaks and not s.orelse and len(breaks) == 1 and it is not None:
            b = breaks[0]
            c = b.pc[-1][0]
            for key in changed['env']:
                bv = b.env.get(key)
                if bv is None or self._is_target(target, key):
                    continue
                if ('env', key) in mus:
                    m, old = mus[('env', key)]
                    nv = body_end.env.get(key) if body_end is not None else m
                    if nv is m and bv is not m:
                        after.env[key] = mk_ite(c, self.snap(bv, b), old)
        if s.orelse:
            if breaks:
                nb = after.copy()
                c = mk_bool('or', [b.pc[-1][0] for b in breaks])
                a, bb = self.split(c, nb)
                res = self.block(s.orelse, bb) if bb is not None else None
                brk = a if a is not None else None
                if brk is not None:
                    for key in changed['env']:
                        bv = [b.env.get(key) for b in breaks]
                        if len(bv) == 1 and bv[0] is not None:
                            brk.env[key] = self.snap(bv[0], breaks[0])
                if res is None:
                    return brk
                if brk is None:
                    return res
                o = self.merge(c, brk, res)
                o.pc = after.pc
                return o
            return self.block(s.orelse, after)
        if it is None and not breaks and is_const(getattr(s, 'test', None) and self.constof(s.test), True):
            return None
        return after

    @staticmethod
    def constof(n):
        return const(n.value) if isinstance(n, ast.Constant) else Term('nonconst')

    def _exits_after(self, saved, _):
        return []

    def _is_target(self, target, name):
        if target is None:
            return False
        return any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(target))

    def strip_pc(self, v, st):
        return v

    def any_term(self, core, cond, k):
        if cond is TRUE:
            return Term('nonempty', core)
        return Term('any', cond, core, k)

    def reduce_loop(self, lid, core, m, old, fin, bfin, closed):
        """value of a loop variable after the loop: a recognised reduction, or the closed system of the loop"""
        if fin is None:
            fin = m
        if fin is m and all(b is m for b in bfin):
            return old
        if not bfin and core.op != 'while':
            r = self.reduction(core, m, old, fin)
            if r is not None and not any(x.op == 'mu' and x.args[0] == lid and isinstance(x.args[1], tuple)
                                         for x in walk(r)):
                return r
        return closed[m]

    def close_loop(self, lid, core, test, system, bconds, st, body_end, breaks):
        """{mu: closed term}: the loop as a system of equations over the variables its value depends on"""
        if not system:
            return {}
        body = {}
        for m, (attr, key, old, fin, bfin) in system.items():
            f = self.snap(fin, body_end) if fin is not None else m
            body[m] = (self.snap(old, st), f, tuple(self.snap(x, b) for x, b in zip(bfin, breaks)))
        wh = Term('while', TRUE) if core.op == 'while' else core
        free = {}

        def deps(x):
            r = free.get(x.uid)
            if r is None:
                r = free[x.uid] = [y for y in walk(x) if y.op == 'mu' and y in body]
            return r
        height = 1 + max([y.args[0] for m in body for x in (body[m][1],) + body[m][2] + (test,) + tuple(bconds)
                          for y in walk(x) if y.op == 'loopsys'] or [0])
        out = {}
        for m0 in body:
            order = [m0]
            for m in order:
                xs = (body[m][1],) + body[m][2]
                if m is m0:
                    xs = xs + (test,) + tuple(bconds)
                for x in xs:
                    for y in deps(x):
                        if y not in order:
                            order.append(y)
            mp = {m: Term('mu', height, i) for i, m in enumerate(order)}
            memo = Closer(mp)
            out[m0] = Term('loopsys', height, wh, memo(test), tuple((body[m][0], memo(body[m][1])) for m in order),
                           tuple((memo(c), tuple(memo(body[m][2][j]) for m in order)) for j, c in enumerate(bconds)))
        return out

    def reduction(self, core, m, old, fin, conds=()):
        """old (+)= over core:  append / extend / add / += / setitem"""
        if fin is m:
            return None
        if fin.op == 'ite' and not conds:
            acc = accumulate(m, fin)
            if acc is not None:
                r = old
                for gens, key, w in acc:
                    r = Term('acc', r, ((core, TRUE),) + gens, key, w)
                return r
        if fin.op == 'ite':
            c, a, b = fin.args
            if b is m:
                return self.reduction(core, m, old, a, conds + (c,))
            if a is m:
                return self.reduction(core, m, old, b, conds + (mk_not(c),))
            return Term('reduce', core, m, old, fin) if not conds else None
        cond = mk_bool('and', list(conds))
        acc = accumulate(m, fin)
        if acc is not None:
            chain = []
            for gens, key, w in acc:
                chain.append((((core, cond),) + gens, key, w))
            r = old
            for gens, key, w in chain:
                r = Term('acc', r, gens, key, w)
            return r
        if fin.op == 'upd' and fin.args[0] is m and not any(m in set(walk(a)) for a in fin.args[2]
                                                             if isinstance(a, Term)):
            kind, args = fin.args[1], fin.args[2]
            if kind == 'append' and len(args) == 1:
                c = Term('comp', 'list', args[0], ((core, cond),))
                if old.op == 'list' and not old.args[0]:
                    return c
                return Term('bin', 'Add', old, c)
            if kind == 'add' and len(args) == 1:
                c = Term('comp', 'set', args[0], ((core, cond),))
                if is_empty_set(old):
                    return c
                return Term('bin', 'BitOr', old, c)
            if kind in ('extend', 'update') and len(args) == 1 and args[0].op == 'comp':
                i = args[0]
                if i.args[0] in ('list', 'gen', 'set') and (kind == 'extend' or is_empty_set(old)):
                    c = Term('comp', 'list' if kind == 'extend' else 'set', i.args[1], ((core, cond),) + i.args[2])
                    if (old.op == 'list' and not old.args[0]) or is_empty_set(old):
                        return c
                    return Term('bin', 'Add', old, c)
            if kind == 'extend' and len(args) == 1:
                c = Term('comp', 'list', Term('elem', args[0], 0), ((core, cond), (args[0], TRUE)))
                if old.op == 'list' and not old.args[0]:
                    return c
                return Term('bin', 'Add', old, c)
            if kind == 'setitem' and len(args) == 2:
                c = Term('comp', 'dict', Term('tuple', (args[0], args[1])), ((core, cond),))
                if old.op == 'dict' and not old.args[0]:
                    return c
                return Term('dictupd', old, c)
            return Term('loopupd', old, kind, args, ((core, cond),))
        if fin.op == 'bin' and fin.args[0] in ('Add', 'Sub') and fin.args[1] is m and \
                m not in set(walk(fin.args[2])):
            x = fin.args[2]
            c = Term('call', Term('global', 'builtins.sum'), (Term('comp', 'list', x, ((core, cond),)),), ())
            if fin.args[0] == 'Sub':
                return Term('bin', 'Sub', old, c)
            if is_const(old, 0, 0.0):
                return c
            return Term('bin', 'Add', old, c)
        if fin.op == 'bin' and fin.args[0] == 'Add' and fin.args[2] is m and m not in set(walk(fin.args[1])):
            c = Term('call', Term('global', 'builtins.sum'), (Term('comp', 'list', fin.args[1], ((core, cond),)),), ())
            if is_const(old, 0, 0.0):
                return c
            return Term('bin', 'Add', old, c)
        if is_const(fin, True) and is_const(old, False):
            return Term('any', cond, core, 0) if cond is not TRUE else Term('nonempty', core)
        if is_const(fin, False) and is_const(old, True):
            return mk_not(Term('any', cond, core, 0)) if cond is not TRUE else mk_not(Term('nonempty', core))
        if fin.op == 'bin' and fin.args[0] == 'BitOr' and fin.args[1] is m and m not in set(walk(fin.args[2])):
            c = Term('comp', 'set', Term('elem', fin.args[2], 0), ((core, cond), (fin.args[2], TRUE)))
            if is_empty_set(old):
                return c
            return Term('bin', 'BitOr', old, c)
        # nested loops: inner reduction over m
        if fin.op == 'comp':
            return None
        if fin.op == 'bin' and fin.args[0] == 'Add' and fin.args[1] is m:
            return None
        return None

    def s_Break(self, s, st):
        if self.fr.loopstk:
            self.fr.loopstk[-1]['breaks'].append(st)
        return None

    def s_Continue(self, s, st):
        if self.fr.loopstk:
            self.fr.loopstk[-1]['continues'].append(st)
        return None

    def s_With(self, s, st):
        suppress = None
        for i in s.items:
            v = self.ev(i.context_expr, st)
            sv = self.snap(v, st)
            if sv.op == 'call' and sv.args[0].op == 'global' and sv.args[0].args[0] == 'contextlib.suppress':
                suppress = sv.args[1]
            self.event('with', st, s, base=v, value=sv)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, Term('entered', v), st, s)
        if suppress is not None:
            h = ast.ExceptHandler(type=None, name=None, body=[ast.Pass()])
            t = ast.Try(body=s.body, handlers=[h], orelse=[], finalbody=[])
            ast.copy_location(t, s)
            ast.copy_location(h, s)
            ast.copy_location(h.body[0], s)
            return self.s_Try(t, st)
        return self.block(s.body, st)

    s_AsyncWith = s_With

    def exc_names(self, h, module):
        if h.type is None:
            return ['BaseException']
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return [(self.p.dotted(t, module) or getattr(t, 'id', None) or ast.unparse(t)) for t in ts]

    def exc_ancestors(self, v):
        """names an exception value is an instance of; None when unknown"""
        if v is None or v.op == 'reraise':
            return None
        n = None
        if v.op == 'obj':
            c = self.types.get(v)
            if c is not None:
                n = c.qualname
        if v.op in ('new',):
            n = v.args[0]
        elif v.op == 'call' and v.args[0].op == 'global':
            n = v.args[0].args[0]
        elif v.op == 'global':
            n = v.args[0]
        elif v.op == 'classref':
            n = v.args[0]
        if n is None:
            return None
        c = self.p.classes.get(n)
        if c is not None:
            out = []
            for k in c.mro:
                out.append(k.qualname)
                out.append(k.name)
                for b in k.node.bases:
                    bn = getattr(b, 'id', None)
                    if bn:
                        out.extend(BUILTIN_EXC.get(bn, [bn, 'Exception', 'BaseException']))
            return out
        short = n.split('.')[-1]
        return BUILTIN_EXC.get(short, [short, 'Exception', 'BaseException']) + [n]

    @staticmethod
    def try_accumulate(s):
        """try: d[k] += v  except KeyError: d[k] = v   ->   d[k] = d.get(k, 0) + v"""
        if len(s.handlers) != 1 or s.orelse or s.finalbody:
            return None
        h = s.handlers[0]
        body, hbody = settle(s.body), settle(h.body)
        if len(body) == 1 and len(hbody) == 1 and isinstance(h.type, ast.Name) and h.type.id in ('KeyError', 'LookupError'):
            b, a = body[0], hbody[0]
            if isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.value, ast.BinOp) and \
                    isinstance(b.value.op, ast.Add):
                t = ast.dump(b.targets[0]).replace('Store()', 'Load()')
                for old, v in ((b.value.left, b.value.right), (b.value.right, b.value.left)):
                    if ast.dump(old) == t:
                        b = ast.copy_location(ast.AugAssign(target=b.targets[0], op=ast.Add(), value=v), b)
                        break
            if isinstance(b, ast.AugAssign) and isinstance(b.op, ast.Add) and isinstance(b.target, ast.Subscript) and \
                    isinstance(a, ast.Assign) and len(a.targets) == 1:
                if ast.dump(a.targets[0]) == ast.dump(b.target) and ast.dump(a.value) == ast.dump(b.value):
                    get = ast.Call(func=ast.Attribute(value=b.target.value, attr='get', ctx=ast.Load()),
                                   args=[b.target.slice, ast.Constant(0)], keywords=[])
                    n = ast.Assign(targets=[b.target], value=ast.BinOp(left=get, op=ast.Add(), right=b.value))
                    ast.copy_location(n, b)
                    return ast.fix_missing_locations(n)
        return None

    def last_store(self, body):
        """names and own attributes that only the last statement of a try body binds, from an already computed value"""
        last = body[-1]
        if not isinstance(last, ast.Assign) or len(last.targets) != 1:
            return (), ()
        t = last.targets[0]
        ts = t.elts if isinstance(t, ast.Tuple) else [t]
        names = {x.id for x in ts if isinstance(x, ast.Name)}
        attrs = {x.attr for x in ts if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and
                 x.value.id == 'self'}
        if len(ts) > 1 and (attrs or len(names) < len(ts)):
            return (), ()
        for b in body[:-1] + [last.value]:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
                    names.discard(x.id)
                elif isinstance(x, ast.Attribute) and not isinstance(x.ctx, ast.Load):
                    attrs.discard(x.attr)
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and \
                        isinstance(x.func.value, ast.Name) and x.func.value.id == 'self':
                    # a method may store it as well
                    for c in self.p.classes.values():
                        f = c.methods.get(x.func.attr)
                        if f is not None:
                            attrs -= {y.attr for y in ast.walk(f.node) if isinstance(y, ast.Attribute) and
                                      not isinstance(y.ctx, ast.Load)}
        return names, attrs

    def s_Try(self, s, st):
        acc = self.try_accumulate(s)
        if acc is not None:
            return self.stmt(acc, st)
        self.ntry += 1
        tid = self.ntry
        before = st.copy()
        names = [self.exc_names(h, self.fr.func.module) for h in s.handlers]
        fr = self.fr
        fr.tryraises.append([])
        ctx0 = self.tryctx
        self.tryctx = ctx0 + ((tid, tuple(tuple(n) for n in names)),)
        n_exits = len(fr.exits)
        body_in = st.copy()
        mark, mark2 = len(self.events), len(self.evaluated)
        out = self.block(s.body, body_in)
        self.tryctx = ctx0
        raised = fr.tryraises.pop()
        body_returns, left = [e for e in fr.exits[n_exits:] if e.kind == 'return'], []
        ret_states = [e.state for e in body_returns]
        tid = self._body_key(s, body_in, mark, mark2)
        norm = out
        in_else = []
        if norm is not None and s.orelse:
            m_exits, m_events = len(fr.exits), len(self.events)
            norm = self.block(s.orelse, norm)
            in_else = fr.exits[m_exits:] + self.events[m_events:]
        ends = []
        if norm is not None:
            ends.append((None, norm))
        # implicit exceptions: any prefix of the body may have run
        touched = {'heap': {}, 'fields': {}, 'env': {}}
        names_last, attrs_last = self.last_store(s.body)

        def stored_last(kind, key):
            # what the last statement of the body stores is stored only once nothing can fail any more
            if kind == 'env':
                return key in names_last
            return kind == 'fields' and isinstance(key, tuple) and key[0] is SELF and key[1] in attrs_last

        for o in ([out] if out is not None else []) + [e.state for e in raised] + ret_states:
            before0 = self.frozen_for(before, o)
            for attr in touched:
                for key, v in getattr(o, attr).items():
                    if getattr(before0, attr).get(key) is not v and not stored_last(attr, key):
                        touched[attr].setdefault(key, v)
        explicit, excs = {}, {}
        for e in raised:
            anc = self.exc_ancestors(e.raw)
            hit = None
            if anc is not None:
                for i, ns in enumerate(names):
                    if any(n in anc or n.split('.')[-1] in anc for n in ns):
                        hit = i
                        break
            elif s.handlers:
                hit = next((i for i, ns in enumerate(names)
                            if any(n.split('.')[-1] in ('BaseException', 'Exception') for n in ns)), None)
            if hit is None:
                if fr.tryraises:
                    fr.tryraises[-1].append(e)
                else:
                    fr.exits.append(e)
            else:
                explicit.setdefault(hit, []).append(e)
        only_raise = self._only_explicit(s.body)
        for i, h in enumerate(s.handlers):
            hs = before.copy()
            for attr in touched:
                d = getattr(hs, attr)
                for key, v in touched[attr].items():
                    o = d.get(key)
                    if attr == 'heap' and key.op == 'obj' and o is None:
                        d[key] = v
                    elif o is None and attr == 'env':
                        d[key] = Term('maybeunbound', v)
                    else:
                        if o is None and attr == 'heap':
                            self.freeze(hs, key)
                        if o is None:
                            o = Term('init', key) if attr == 'heap' else Term('attr', key[0], key[1])
                        d[key] = Term('maybe', tid, o, v)
            pats = []
            for e in explicit.get(i, []):
                pats.append(conj(e.pc[len(before.pc):]))
            if only_raise and explicit.get(i):
                c = mk_bool('or', pats)
            else:
                x = Term('exc', tid, tuple(sorted(names[i])))
                for e in in_else:                # the else part runs only after a body that did not fail
                    e.pc = self.addpc(e.pc, x, False)
                    if isinstance(e, Exit):
                        e.state.pc = self.addpc(e.state.pc, x, False)
                c = mk_bool('or', pats + [x])
                excs[c] = x
            hs.pc = self.addpc(before.pc, c, True)
            if only_raise and len(explicit.get(i, [])) == 1:
                hs = explicit[i][0].state.copy()
                hs.pc = explicit[i][0].pc
            if h.name:
                hs.env[h.name] = Term('excval', tid, tuple(sorted(names[i])))
            if c in excs:
                for e in body_returns:           # the body was left by return: this handler did not run
                    e.pc = self.addpc(e.pc, excs[c], False)
                    e.state.pc = self.addpc(e.state.pc, excs[c], False)
            r = self.block(h.body, hs)
            if r is not None:
                ends.append((c, r))
            elif c in excs:
                left.append(c)
        if not ends:
            res = None
        else:
            res = ends[0][1]
            if len(ends) > 1:
                pc = before.pc
                for c, r in ends[1:]:
                    res = self.merge(c if c is not None else Term('exc', tid, ()), r, res)
                res.pc = pc
            for c in left:
                res.pc = self.addpc(res.pc, c, False)
        if s.finalbody:
            if res is None:
                fs = before.copy()
                self.block(s.finalbody, fs)
                return None
            res = self.block(s.finalbody, res)
        return res

    s_TryStar = s_Try

    def _body_key(self, s, st, mark, mark2):
        """what is tried, as a term: the calls and subscripts evaluated in the body, in order"""
        if self.discover:
            return Term('trybody', self.ntry)
        vals = []
        for e in self.events[mark:]:
            v = e.value if e.kind in ('call', 'new') else None
            if v is None and e.kind == 'mutate':
                v = Term('mut', e.name, tuple(a for a in e.args if isinstance(a, Term)))
            if v is not None and v not in vals:
                vals.append(v)
        for v in self.evaluated[mark2:]:
            if v not in vals:
                vals.append(v)
        return Term('trybody', tuple(vals))

    @staticmethod
    def _only_explicit(body):
        for n in body:
            for x in ast.walk(n):
                if isinstance(x, (ast.Call, ast.Subscript, ast.BinOp)) and not isinstance(n, ast.Raise):
                    return False
        return True

    def s_FunctionDef(self, s, st):
        f = Func(s, self.fr.func.module, None, outer=self.fr.func)
        t = Term('closure', s.name, s.lineno, s.col_offset, self.fr.func.module.name)
        self.closures[t] = (f, st.env, self.fr.recv_cls, self.fr.self_term)
        for d in s.decorator_list:
            self.ev(d, st)
        st.env[s.name] = t
        return st

    def s_ClassDef(self, s, st):
        st.env[s.name] = Term('localclass', s.name)
        return st

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.unknown.append(('expr', type(e).__name__, e))
            return Term('unk', type(e).__name__, getattr(e, 'lineno', 0), getattr(e, 'col_offset', 0))
        return m(e, st)

    def evs(self, e, st):
        return self.snap(self.ev(e, st), st)

    def e_Constant(self, e, st):
        return const(e.value)

    def e_Name(self, e, st):
        if e.id in st.env:
            v = st.env[e.id]
            return v
        if e.id in self.fr.func_env if hasattr(self.fr, 'func_env') else False:
            return self.fr.func_env[e.id]
        return self.global_name(e.id)

    def global_name(self, name, module=None):
        module = module or self.fr.func.module
        d = self.p.resolve_name(name, module)
        if d is not None:
            if d in self.p.classes:
                return Term('classref', d)
            mod, _, attr = d.rpartition('.')
            m = self.p.modules.get(mod)
            if m is not None and attr in m.globals and isinstance(m.globals[attr], ast.Constant):
                return const(m.globals[attr].value)
            return Term('global', d)
        if name in BUILTINS:
            return Term('global', 'builtins.' + name)
        return Term('global', '?.' + name)

    def e_Attribute(self, e, st):
        base = self.ev(e.value, st)
        return self.attr(base, e.attr, st, e)

    def type_of(self, t):
        if t in self.types:
            return self.types[t]
        if t.op == 'self':
            return self.fr.recv_cls if self.fr.self_term is t else self.types.get(t)
        if t.op == 'new':
            return self.p.classes.get(t.args[0])
        if t.op == 'attr' and t.args[1] in self.attr_types:
            return self.attr_types[t.args[1]]
        if t.op == 'ite':
            a, b = self.type_of(t.args[1]), self.type_of(t.args[2])
            return a if a is b else None
        return None

    def attr(self, base, name, st, node):
        if (base, name) in st.fields:
            return st.fields[(base, name)]
        if base.op == 'global':
            d = self.p.canon(base.args[0] + '.' + name)
            if d in self.p.classes:
                return Term('classref', d)
            mod, _, attr = d.rpartition('.')
            m = self.p.modules.get(mod)
            if m is not None and attr in m.globals and isinstance(m.globals[attr], ast.Constant):
                return const(m.globals[attr].value)
            return Term('global', d)
        if name == '__class__':
            c = self.type_of(base)
            return Term('selfclass', base) if base.op == 'self' else (Term('classref', c.qualname) if c else
                                                                      Term('attr', base, name))
        if base.op == 'super':
            return Term('method', base, name)
        c = self.type_of(base)
        if base.op == 'selfclass':
            c = self.type_of(base.args[0])
            if c is not None and self.p.method(c, name) is not None:
                f = self.p.method(c, name)
                return Term('method', base.args[0] if f.kind != 'method' else base, name)
            base = base.args[0]
        if c is not None:
            f = self.p.method(c, name)
            if f is not None:
                if f.is_property:
                    return self.call_func(f, base, {}, st, node, c)
                return Term('method', base, name)
            owner, expr = self.p.class_attr(c, name)
            if expr is not None and name not in self.no_fold and not self.instance_assigned(c, name):
                v = self.fold_const(expr, owner.module)
                if v is not None:
                    return v
                return Term('classattr', owner.qualname, name)
        if base.op == 'classref':
            k = self.p.classes.get(base.args[0])
            if k is not None:
                f = self.p.method(k, name)
                if f is not None:
                    return Term('method', base, name)
                owner, expr = self.p.class_attr(k, name)
                if expr is not None:
                    v = self.fold_const(expr, owner.module) if name not in self.no_fold else None
                    return v if v is not None else Term('classattr', owner.qualname, name)
        if base in st.heap and base.op != 'self':
            if name in VIEWS:
                return Term('attr', base, name)
            cont = st.heap[base]
            if base in self.types:
                return Term('attr', base, name)
            return Term('attr', self.snap(base, st), name)
        return Term('attr', base, name)

    _ia = {}

    def instance_assigned(self, c, name):
        """is self.<name> assigned anywhere in the class family?"""
        fam = set(c.mro) | set(self.p.subclasses(c))
        key = (id(self.p), c.qualname, name)
        r = self._ia.get(key)
        if r is None:
            r = False
            for k in fam:
                for f in k.methods.values():
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, (ast.Store, ast.Del)):
                            r = True
            # overridden at class level by a relative
            if sum(1 for k in fam if name in k.attrs) > 1:
                r = True
            self._ia[key] = r
        return r

    def fold_const(self, expr, module):
        if isinstance(expr, ast.Constant):
            return const(expr.value)
        if isinstance(expr, ast.UnaryOp) and isinstance(expr.op, ast.USub) and isinstance(expr.operand, ast.Constant):
            return const(-expr.operand.value)
        if isinstance(expr, (ast.Tuple,)) and all(isinstance(x, ast.Constant) for x in expr.elts):
            return Term('tuple', tuple(const(x.value) for x in expr.elts))
        if isinstance(expr, (ast.Set, ast.List)) and all(isinstance(x, ast.Constant) for x in expr.elts):
            return Term('set' if isinstance(expr, ast.Set) else 'list', tuple(const(x.value) for x in expr.elts))
        if isinstance(expr, ast.Call) and isinstance(expr.func, ast.Name) and expr.func.id == 'set' and not expr.args:
            return Term('set', ())
        if isinstance(expr, ast.Dict) and all(isinstance(k, ast.Constant) for k in expr.keys):
            vs = [self.fold_const(v, module) for v in expr.values]
            if all(v is not None for v in vs):
                return Term('dict', tuple((const(k.value), v) for k, v in zip(expr.keys, vs)))
        if isinstance(expr, ast.BinOp):
            a, b = self.fold_const(expr.left, module), self.fold_const(expr.right, module)
            if a is not None and b is not None:
                return self.binop(type(expr.op).__name__, a, b)
            return None
        if isinstance(expr, ast.Attribute):
            d = self.p.dotted(expr, module)
            if d and d.startswith(('scipy.constants', 'math.', 'numpy.')):
                return Term('global', d)
        return None

    def e_Subscript(self, e, st):
        base = self.ev(e.value, st)
        idx = self.evs(e.slice, st)
        r = self.subscript(base, idx, st)
        if (base.op == 'obj' or base in self.prov or base in st.heap and base.op == 'attr' and r.op == 'item') and r.op not in ('const', 'num', 'obj') and base is not r:
            self.prov[r] = (base, idx, '')
        elif base.op == 'attr' and base.args[1] in VIEWS and r.op not in ('const', 'num', 'obj') and \
                isinstance(base.args[0], Term) and (base.args[0].op == 'obj' or base.args[0] in self.prov):
            # through an accessor of a local container
            self.prov[r] = (base.args[0], idx, '.' + base.args[1])
        if self.tryctx and r.op == 'item':
            self.evaluated.append(r)
        return r

    def subscript(self, base, idx, st):
        c = self.content(base, st)
        if c.op in ('list', 'tuple', 'dict'):
            r = mk_item(c, idx)
            if r.op != 'item':
                return r
        if c.op == 'upd' and c.args[1] == 'setitem' and c.args[2][0] is idx:
            return c.args[2][1]
        if base.op == 'attr' and base.args[1] in VIEWS:
            b = self.snap(base, st)
            return mk_item(b, idx)
        if base.op == 'obj':
            if c.op in ('list', 'dict', 'tuple') and not is_const(idx):
                return Term('item', base, idx)
            return mk_item(self.snap(base, st), idx)
        if base in st.heap:
            return mk_item(self.snap(base, st), idx)
        return mk_item(base, idx)

    def e_Slice(self, e, st):
        f = lambda x: self.evs(x, st) if x is not None else NONE
        return Term('slice', f(e.lower), f(e.upper), f(e.step))

    def e_Tuple(self, e, st):
        return Term('tuple', tuple(self.seqelt(x, st) for x in e.elts))

    def seqelt(self, x, st):
        if isinstance(x, ast.Starred):
            return Term('star', self.ev(x.value, st))
        return self.ev(x, st)

    def e_List(self, e, st):
        return self.fresh(Term('list', tuple(self.seqelt(x, st) for x in e.elts)), st)

    def e_Set(self, e, st):
        return self.fresh(Term('set', tuple(self.seqelt(x, st) for x in e.elts)), st)

    def e_Dict(self, e, st):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                items.append((Term('dstar'), self.ev(v, st)))
            else:
                items.append((self.evs(k, st), self.ev(v, st)))
        return self.fresh(Term('dict', tuple(items)), st)

    def binop(self, op, a, b):
        if a.op == 'const' and b.op == 'const':
            x, y = a.args[0], b.args[0]
            try:
                if op == 'Add' and isinstance(x, (int, float, str)) and not isinstance(x, bool):
                    return const(x + y)
                if isinstance(x, (int, float)) and isinstance(y, (int, float)) and \
                        not isinstance(x, bool) and not isinstance(y, bool):
                    r = {'Sub': lambda: x - y, 'Mult': lambda: x * y, 'Div': lambda: x / y,
                         'Pow': lambda: x ** y}.get(op)
                    if r is not None:
                        v = r()
                        if isinstance(v, (int, float)) and abs(v) < 1e300:
                            return const(v)
            except Exception:
                pass
        if op == 'Mod' and a.op == 'const' and isinstance(a.args[0], str):
            if b.op == 'ite':
                return mk_ite(b.args[0], self.binop(op, a, b.args[1]), self.binop(op, a, b.args[2]))
            xs = b.args[0] if b.op == 'tuple' else (b,)
            return self.fmt_percent(a.args[0], xs)
        if op == 'Add' and a.op == 'list' and b.op == 'list':
            return Term('list', a.args[0] + b.args[0])
        if op == 'Add' and a.op == 'tuple' and b.op == 'tuple':
            return Term('tuple', a.args[0] + b.args[0])
        return Term('bin', op, a, b)

    @staticmethod
    def fmt_percent(s, xs):
        parts, cur, i, k = [], '', 0, 0
        while i < len(s):
            if s[i] == '%' and i + 1 < len(s):
                if s[i + 1] == '%':
                    cur += '%'
                    i += 2
                    continue
                j = i + 1
                while j < len(s) and s[j] not in 'sdrfeEgGixo':
                    j += 1
                spec = s[i + 1:j + 1]
                if cur:
                    parts.append(const(cur))
                    cur = ''
                v = xs[k] if k < len(xs) else Term('unk', 'fmt', 0, 0)
                parts.append(v if spec == 's' else Term('fmtspec', v, '%' + spec))
                k += 1
                i = j + 1
                continue
            cur += s[i]
            i += 1
        if cur:
            parts.append(const(cur))
        return Term('fmt', tuple(parts))

    def e_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        op = type(e.op).__name__
        if op == 'Add':
            ca, cb = self.content(a, st), self.content(b, st)
            if ca.op == 'list' and cb.op == 'list':
                return self.fresh(Term('list', ca.args[0] + cb.args[0]), st)
        return self.binop(op, self.snap(a, st), self.snap(b, st))

    def e_UnaryOp(self, e, st):
        v = self.evs(e.operand, st)
        op = type(e.op).__name__
        if op == 'Not':
            return mk_not(truth(v))
        if op == 'USub' and v.op == 'const' and isinstance(v.args[0], (int, float)):
            return const(-v.args[0])
        return Term('un', op, v)

    def e_BoolOp(self, e, st):
        op = 'and' if isinstance(e.op, ast.And) else 'or'
        vals = []
        cur = st
        pc0 = st.pc
        for i, x in enumerate(e.values):
            v = self.evs(x, st)
            t = truth(v)
            vals.append(v)
            d = self.decide(t, st)
            if op == 'and' and d is False:
                break
            if op == 'or' and d is True:
                break
            if i < len(e.values) - 1:
                st.pc = self.addpc(st.pc, t, op == 'and')
        st.pc = pc0
        ts = [truth(v) for v in vals]
        if all(self.is_bool(v) for v in vals):
            return mk_bool(op, ts)
        out = []
        for v, t in zip(vals, ts):
            d = self.decide(t, st)
            if op == 'and' and d is True or op == 'or' and d is False:
                if v is vals[-1]:
                    out.append(v)
                continue
            out.append(v)
        if len(out) == 1:
            return out[0]
        r = out[-1]
        for v in reversed(out[:-1]):
            r = mk_ite(truth(v), r, v) if op == 'and' else mk_ite(truth(v), v, r)
        if r.op == 'ite' and all(self.is_bool(v) or v.op != 'const' for v in out):
            return mk_bool(op, out)
        return r

    @staticmethod
    def is_bool(v):
        return v.op in ('cmp', 'not', 'and', 'or', 'any', 'nonempty') or \
            v.op == 'const' and isinstance(v.args[0], bool) or \
            v.op == 'call' and v.args[0].op == 'global' and v.args[0].args[0] in (
                'builtins.isinstance', 'builtins.any', 'builtins.all', 'builtins.hasattr', 'builtins.bool',
                'os.path.isfile', 'os.path.isdir', 'os.path.exists', 'builtins.callable')

    def e_Compare(self, e, st):
        left = self.evs(e.left, st)
        parts = []
        for o, r in zip(e.ops, e.comparators):
            right = self.evs(r, st)
            op = {'Eq': '==', 'NotEq': '!=', 'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>=', 'Is': 'is',
                  'IsNot': 'is not', 'In': 'in', 'NotIn': 'not in'}[type(o).__name__]
            parts.append(mk_cmp(op, left, right))
            left = right
        return parts[0] if len(parts) == 1 else mk_bool('and', parts)

    def e_IfExp(self, e, st):
        c = truth(self.evs(e.test, st))
        d = self.decide(c, st)
        if d is True:
            return self.ev(e.body, st)
        if d is False:
            return self.ev(e.orelse, st)
        a, b = self.branch(c, lambda q: self.ev(e.body, q), lambda q: self.ev(e.orelse, q), st)
        if 'never' in (a.op, b.op):
            return b if a.op == 'never' else a
        return mk_ite(c, a, b)

    def branch(self, c, f, g, st):
        """values of f under c and of g under not c; what they change is joined into st, facts they establish are kept"""
        pc0 = st.pc
        p, q = st.copy(), st.copy()
        p.pc, q.pc = self.addpc(pc0, c, True), self.addpc(pc0, c, False)
        np, nq = len(p.pc), len(q.pc)
        a, b = f(p), g(q)
        alive = [self.poll(z) is not None and v.op != 'never' for z, v in ((p, a), (q, b))]
        for x, y in ((p, q), (q, p)):
            if not alive[0 if x is p else 1]:
                st.env, st.heap, st.fields, st.pc = y.env, y.heap, y.fields, y.pc
                return (Term('never'), b) if x is p else (a, Term('never'))
        if any(getattr(z, k) != getattr(st, k) for z in (p, q) for k in ('env', 'heap', 'fields')):
            m = self.merge(c, p, q)
            st.env, st.heap, st.fields = m.env, m.heap, m.fields
        fp, fq = p.pc[np:], q.pc[nq:]
        pc = pc0
        if fp:
            pc = self.addpc(pc, mk_bool('and', [c, mk_not(conj(fp))]), False)
        if fq:
            pc = self.addpc(pc, mk_bool('and', [mk_not(c), mk_not(conj(fq))]), False)
        st.pc = pc
        return a, b

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.evs(v.value, st)
                if v.format_spec is not None:
                    sp = self.ev(v.format_spec, st)
                    x = Term('fmtspec', x, sp)
                if v.conversion not in (-1, 115):
                    x = Term('fmtconv', x, v.conversion)
                parts.append(x)
        return mk_fmt(parts)

    def e_FormattedValue(self, e, st):
        return self.evs(e.value, st)

    def e_Starred(self, e, st):
        return Term('star', self.ev(e.value, st))

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        st.env[e.target.id] = v
        return v

    def e_Lambda(self, e, st):
        f = Func(e, self.fr.func.module, None, outer=self.fr.func)
        t = Term('closure', '<lambda>', e.lineno, e.col_offset, self.fr.func.module.name)
        self.closures[t] = (f, st.env, self.fr.recv_cls, self.fr.self_term)
        return t

    def e_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value is not None else NONE
        self.event('yield', st, e, value=self.snap(v, st))
        return Term('sent')

    e_YieldFrom = e_Yield

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    def comp(self, kind, elt_fn, gens, st):
        inner = State(dict(st.env), st.heap, st.fields, st.pc)
        ctx0 = self.loopctx
        gl = []
        try:
            for g in gens:
                it = self.snap(self.ev(g.iter, inner), inner)
                core = self.iter_core(it)
                k = self.loopk(core)
                self.nloop += 1
                lid = self.nloop
                self.assign(g.target, self.iter_elem(it, k), inner, g.iter)
                self.loopctx = self.loopctx + ((lid, core),)
                inner.pc = inner.pc + ((Term('inloop', lid, core), True),)
                conds = []
                for c in g.ifs:
                    t = truth(self.evs(c, inner))
                    conds.append(t)
                    inner.pc = self.addpc(inner.pc, t, True)
                gl.append((core, mk_bool('and', conds)))
            v = elt_fn(inner)
        finally:
            self.loopctx = ctx0
        return Term('comp', kind, v, tuple(gl))

    def e_ListComp(self, e, st):
        return self.fresh(self.comp('list', lambda s: self.evs(e.elt, s), e.generators, st), st)

    def e_SetComp(self, e, st):
        return self.fresh(self.comp('set', lambda s: self.evs(e.elt, s), e.generators, st), st)

    def e_GeneratorExp(self, e, st):
        return self.comp('gen', lambda s: self.evs(e.elt, s), e.generators, st)

    def e_DictComp(self, e, st):
        return self.fresh(self.comp('dict', lambda s: Term('tuple', (self.evs(e.key, s), self.evs(e.value, s))),
                                    e.generators, st), st)

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in st.env:
            owner = self.fr.func.cls
            if e.args and len(e.args) == 2:
                c = self.ev(e.args[0], st)
                if c.op == 'classref':
                    owner = self.p.classes.get(c.args[0], owner)
            return Term('super', self.fr.self_term, owner.qualname if owner else '?')
        # evaluate callee
        if isinstance(e.func, ast.Attribute):
            base = self.ev(e.func.value, st)
            name = e.func.attr
            if base.op == 'never':
                return base
            fterm = self.attr(base, name, st, e.func)
        else:
            base, name = None, None
            fterm = self.ev(e.func, st)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                c = self.content(v, st)
                if c.op in ('tuple', 'list') and not any(x.op == 'star' for x in c.args[0]):
                    args.extend(c.args[0])
                else:
                    args.append(Term('star', v))
            else:
                args.append(self.funcval(self.ev(a, st)))
        kwargs = []
        for k in e.keywords:
            v = self.funcval(self.ev(k.value, st))
            if k.arg is None:
                c = self.content(v, st)
                if c.op == 'dict' and all(is_const(kk) for kk, _ in c.args[0]):
                    kwargs.extend((kk.args[0], vv) for kk, vv in c.args[0])
                else:
                    kwargs.append(('**', v))
            else:
                kwargs.append((k.arg, v))
        if any(a.op == 'never' for a in args):
            return Term('never')
        return self.call(fterm, base, name, args, kwargs, st, e)

    def call(self, fterm, base, name, args, kwargs, st, node):
        p = self.p
        # functools.partial / getattr with constant names
        if fterm.op == 'global':
            g = fterm.args[0]
            if g == 'builtins.getattr' and len(args) >= 2 and is_const(self.snap(args[1], st)) and \
                    isinstance(args[1].args[0], str):
                return self.attr(args[0], args[1].args[0], st, node)
            if g == 'builtins.setattr' and len(args) == 3:
                nm = self.snap(args[1], st)
                self.event('setattr', st, node, base=args[0], name=nm.args[0] if is_const(nm) else nm,
                           value=self.snap(args[2], st), raw=args[2])
                if is_const(nm):
                    st.fields[(args[0], nm.args[0])] = args[2]
                return NONE
            if g == 'builtins.type' and len(args) == 1 and args[0].op == 'self':
                return Term('selfclass', args[0])
            if g == 'functools.partial' and args:
                return Term('partial', args[0], tuple(args[1:]), tuple(kwargs))
            if g == 'builtins.len' and len(args) == 1:
                c = self.snap(args[0], st)
                if c.op in ('tuple', 'list') and not any(x.op == 'star' for x in c.args[0]):
                    return const(len(c.args[0]))
            if g in ('builtins.list', 'builtins.tuple') and len(args) == 1 and not kwargs:
                c = self.snap(args[0], st)
                if c.op == 'comp' and c.args[0] in ('gen', 'list'):
                    r = Term('comp', 'list', c.args[1], c.args[2])
                    return self.fresh(r, st) if g == 'builtins.list' else Term('call', fterm, (r,), ())
                if c.op in ('tuple', 'list'):
                    r = Term('list' if g == 'builtins.list' else 'tuple', c.args[0])
                    return self.fresh(r, st) if g == 'builtins.list' else r
            if g in ('builtins.list', 'builtins.dict', 'builtins.set', 'collections.OrderedDict') and not args \
                    and (not kwargs or g == 'builtins.dict'):
                k = {'builtins.list': 'list', 'builtins.set': 'set'}.get(g, 'dict')
                if k == 'dict':
                    if any(x == '**' for x, _ in kwargs):
                        pass
                    else:
                        return self.fresh(Term('dict', tuple((const(a), b) for a, b in kwargs)), st)
                else:
                    return self.fresh(Term(k, ()), st)
            if g == 'builtins.set' and len(args) == 1:
                c = self.snap(args[0], st)
                if c.op == 'comp' and c.args[0] in ('gen', 'list', 'set'):
                    return self.fresh(Term('comp', 'set', c.args[1], c.args[2]), st)
                if c.op in ('list', 'tuple') and not c.args[0]:
                    return self.fresh(Term('set', ()), st)
            if g == 'builtins.dict' and len(args) == 1 and not kwargs:
                c = self.snap(args[0], st)
                if c.op == 'comp' and c.args[0] in ('gen', 'list') and c.args[1].op == 'tuple' and \
                        len(c.args[1].args[0]) == 2:
                    return self.fresh(Term('comp', 'dict', c.args[1], c.args[2]), st)
            if g in ('builtins.any', 'builtins.all') and len(args) == 1:
                c = self.snap(args[0], st)
                if c.op == 'comp' and c.args[0] in ('gen', 'list', 'set'):
                    return self.mk_any(g, c)
                if c.op in ('list', 'tuple', 'set') and not any(x.op == 'star' for x in c.args[0]):
                    return mk_bool('or' if g.endswith('any') else 'and', [truth(x) for x in c.args[0]])
            if g == 'builtins.map' and len(args) == 2:
                it = self.snap(args[1], st)
                core = self.iter_core(it)
                k = self.loopk(core)
                ctx0 = self.loopctx
                self.nloop += 1
                self.loopctx = ctx0 + ((self.nloop, core),)
                r = self.snap(self.call(args[0], None, None, [self.iter_elem(it, k)], [], st, node), st)
                self.loopctx = ctx0
                return Term('comp', 'gen', r, ((core, TRUE),))
            if g == 'builtins.filter' and len(args) == 2:
                it = self.snap(args[1], st)
                core = self.iter_core(it)
                k = self.loopk(core)
                el = self.iter_elem(it, k)
                c = truth(self.snap(self.call(args[0], None, None, [el], [], st, node), st)) \
                    if not is_const(args[0], None) else truth(el)
                return Term('comp', 'gen', el, ((core, c),))
            if g in ARG0_MUTATORS and args:
                self.mutate(args[0], g, tuple(args[1:]), tuple(kwargs), st, node)
                return NONE
        # local functions
        if fterm.op == 'closure' and fterm in self.closures:
            return self.call_closure(fterm, args, kwargs, st, node)
        if fterm.op == 'partial':
            return self.call(fterm.args[0], None, None, list(fterm.args[1]) + list(args),
                             list(fterm.args[2]) + list(kwargs), st, node)
        # repo functions
        if fterm.op == 'global':
            f = p.func(fterm.args[0])
            if f is not None:
                return self.repo_call(f, None, None, fterm, args, kwargs, st, node)
        if fterm.op == 'method':
            recv, mname = fterm.args
            if recv.op == 'super':
                c = self.type_of(recv.args[0]) or self.fr.recv_cls
                owner = p.classes.get(recv.args[1])
                f = p.method(c, mname, after=owner) if c and owner else None
                if f is not None:
                    return self.repo_call(f, recv.args[0], c, fterm, args, kwargs, st, node)
                return self.opaque_call(Term('attr', recv, mname), recv, mname, args, kwargs, st, node)
            if recv.op == 'classref':
                k = p.classes[recv.args[0]]
                f = p.method(k, mname)
                if f.kind == 'method' and args:
                    return self.repo_call(f, args[0], self.type_of(args[0]) or k, fterm, args[1:], kwargs, st, node)
                return self.repo_call(f, recv if f.kind == 'class' else None, k, fterm, args, kwargs, st, node)
            if recv.op == 'selfclass':
                c = self.type_of(recv.args[0])
                f = p.method(c, mname)
                if args:
                    return self.repo_call(f, args[0], c, fterm, args[1:], kwargs, st, node)
            c = self.type_of(recv)
            f = p.method(c, mname) if c is not None else None
            if f is not None:
                return self.repo_call(f, recv, c, fterm, args, kwargs, st, node)
        # constructors
        if fterm.op in ('classref', 'selfclass'):
            c = p.classes.get(fterm.args[0]) if fterm.op == 'classref' else self.type_of(fterm.args[0])
            init = p.method(c, '__init__') if c is not None else None
            if init is not None:
                b = self.bind(init, args, kwargs, st, True)
            else:
                b = None
            if b is None:
                kws = tuple((str(i), self.snap(a, st)) for i, a in enumerate(args)) + \
                    tuple((k, self.snap(v, st)) for k, v in kwargs)
            else:
                kws = tuple(sorted((k, self.snap(v, st)) for k, v in b.items()))
            q = c.qualname if c is not None else '?'
            t = Term('new', fterm if fterm.op == 'selfclass' else q, kws)
            self.event('new', st, node, base=fterm, name=q, kwargs=kws, value=t, raw=(b, args, kwargs))
            o = self.fresh(t, st, c)
            if self.inline_new and init is not None and b is not None and not self.opaque(init, c) and \
                    self.fr.depth < self.max_depth:
                self.run_inline(init, o, c, b, st, node)
            return o
        # string formatting
        if fterm.op == 'attr' and base is not None:
            b = self.snap(base, st)
            if fterm.args[1] == 'format' and is_const(b) and isinstance(b.args[0], str):
                return self.fmt(b.args[0], [self.snap(a, st) for a in args],
                                {k: self.snap(v, st) for k, v in kwargs})
            if fterm.args[1] == 'join' and is_const(b) and len(args) == 1:
                x = self.snap(args[0], st)
                if x.op == 'comp':
                    x = Term('comp', 'list', x.args[1], x.args[2]) if x.args[0] == 'gen' else x
                return Term('join', b, x)
            if fterm.args[1] in ('get',) and len(args) in (1, 2):
                c = self.content(base, st)
                k = self.snap(args[0], st)
                if c.op == 'dict' and is_const(k) and all(is_const(kk) for kk, _ in c.args[0]):
                    for kk, vv in c.args[0]:
                        if kk is k:
                            return vv
                    return args[1] if len(args) == 2 else NONE
                dflt = self.snap(args[1], st) if len(args) == 2 else NONE
                bs = self.snap(base, st)
                # d.get(k, x)  ==  d[k] if k in d else x
                return mk_ite(mk_cmp('in', k, bs), mk_item(bs, k), dflt)
            if fterm.args[1] == 'issubset' and len(args) == 1:
                return mk_cmp('<=', b, self.snap(args[0], st))
            if fterm.args[1] == 'issuperset' and len(args) == 1:
                return mk_cmp('<=', self.snap(args[0], st), b)
            if fterm.args[1] in ('difference', 'union', 'intersection') and len(args) == 1:
                return Term('bin', {'difference': 'Sub', 'union': 'BitOr', 'intersection': 'BitAnd'}[fterm.args[1]],
                            b, self.snap(args[0], st))
        # mutators on references
        if fterm.op == 'attr' and base is not None and name in MUTATORS:
            if name == 'set' and base.op == 'global':
                pass
            else:
                kw = tuple((k, self.snap(v, st)) for k, v in kwargs)
                old = self.snap(base, st)
                ref = base
                self.mutate(ref, name, tuple(args), kw, st, node)
                if name in ('pop', 'setdefault', 'popitem', 'popleft'):
                    return Term('call', Term('attr', old, name), tuple(self.snap(a, st) for a in args), kw)
                return NONE
        if fterm.op == 'attr' and base is not None and name in INPLACE_KW and \
                any(k == 'inplace' and is_const(v, True) for k, v in kwargs):
            self.mutate(base, name, tuple(args), tuple((k, self.snap(v, st)) for k, v in kwargs), st, node)
            return NONE
        return self.opaque_call(fterm, base, name, args, kwargs, st, node)

    def mk_any(self, g, c):
        elt, gens = truth(c.args[1]), c.args[2]
        if g.endswith('any'):
            cond = elt
            for core, cc in reversed(gens):
                x = mk_bool('and', [cc, cond])
                cond = Term('any', x, core, 0) if x is not TRUE else Term('nonempty', core)
            return cond
        cond = mk_not(elt)
        for core, cc in reversed(gens):
            x = mk_bool('and', [cc, cond])
            cond = Term('any', x, core, 0) if x is not TRUE else Term('nonempty', core)
        return mk_not(cond)

    def fmt(self, s, args, kw):
        import string
        parts, auto = [], 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(s):
                if lit:
                    parts.append(const(lit))
                if field is None:
                    continue
                if field == '':
                    v = args[auto] if auto < len(args) else Term('unk', 'fmt', 0, 0)
                    if v.op == 'star':
                        v = Term('item', v.args[0], const(auto))
                    auto += 1
                elif field.isdigit():
                    v = args[int(field)] if int(field) < len(args) else Term('unk', 'fmt', 0, 0)
                elif field in kw:
                    v = kw[field]
                else:
                    v = Term('unk', 'fmt:' + field, 0, 0)
                if spec:
                    v = Term('fmtspec', v, const(spec))
                if conv and conv != 's':
                    v = Term('fmtconv', v, ord(conv))
                parts.append(v)
        except ValueError:
            return Term('unk', 'fmt', 0, 0)
        return mk_fmt(parts)

    def only_signature(self, name):
        """the methods of the project called so, when no library type has one of that name and all take the same"""
        cache = self.p.__dict__.setdefault('_only_sig', {})
        if name not in cache:
            fs = []
            if name and not name.startswith('__') and not any(hasattr(t, name) for t in (
                    dict, list, set, str, tuple, int, float, object)):
                for c in self.p.classes.values():
                    f = c.methods.get(name)
                    if f is not None:
                        fs.append(f)
            same = len({(tuple(f.params()[0][f.kind in ('method', 'class'):]), repr(f.params()[1:]),
                         tuple(sorted((k, ast.dump(v)) for k, v in f.defaults().items()))) for f in fs
                        if f.params()[1] is None and f.params()[3] is None}) if fs else 0
            ok = same == 1 and all(f.kind in ('method', 'class', 'static') and f.params()[1] is None and
                                   f.params()[3] is None for f in fs)
            cache[name] = fs[0] if ok else None
        return cache[name]

    def opaque_call(self, fterm, base, name, args, kwargs, st, node):
        if fterm.op == 'attr' and base is not None and args and not any(a.op == 'star' for a in args):
            f = self.only_signature(fterm.args[1])
            pos = f.params()[0] if f is not None else ()
            if f is not None and f.kind in ('method', 'class'):
                pos = pos[1:]
            if len(args) <= len(pos) and not any(k in pos[:len(args)] for k, _ in kwargs):
                kwargs = list(zip(pos, args)) + list(kwargs)
                args = []
        if fterm.op == 'attr' and base is not None and not args and not any(k == '**' for k, _ in kwargs):
            f = self.only_signature(fterm.args[1])
            if f is not None:
                kwargs = list(kwargs) + [(k, const(v.value)) for k, v in f.defaults().items()
                                         if isinstance(v, ast.Constant) and k not in dict(kwargs)]
        sargs = tuple(self.snap(a, st) for a in args)
        skw = tuple(sorted(((k, self.snap(v, st)) for k, v in kwargs), key=lambda x: x[0]))
        f = fterm
        if fterm.op == 'attr' and base is not None:
            f = Term('attr', self.snap(fterm.args[0], st), fterm.args[1]) \
                if fterm.args[0] not in self.types else fterm
        elif fterm.op not in ('global', 'method'):
            f = self.snap(fterm, st)
        t = Term('call', f, sargs, skw)
        root = held_root(fterm) if base is not None else None
        if root is not None:
            # what another object answers after it was told to change is not what it answered before
            era = Term('era', root)
            if STATE_CHANGE.match(fterm.args[1]):
                st.heap[era] = Term('upd', self.content(era, st), fterm.args[1], ())
            elif era in st.heap:
                t = Term('since', t, self.content(era, st))
        self.event('call', st, node, base=base if base is not None else f,
                   name=name if name is not None else (f.args[0].split('.')[-1] if f.op == 'global' else None),
                   args=sargs, kwargs=skw, value=t, raw=(fterm, tuple(args), tuple(kwargs)))
        fresh = f.op == 'global' and f.args[0] in FRESH_CALLS or \
            f.op == 'attr' and f.args[1] in FRESH_METHODS
        if fresh:
            return self.fresh(t, st)
        if t in st.heap:
            return self.fresh(t, st)
        return t

    def bind(self, f, args, kwargs, st, drop_self):
        """argument binding -> dict param -> Term (defaults filled in), None when it cannot be resolved"""
        pos, va, kwo, kw = f.params()
        if drop_self and f.kind in ('method', 'class') and pos:
            pos = pos[1:]
        out = {}
        extra = []
        for i, a in enumerate(args):
            if a.op == 'star':
                if va and i >= len(pos):
                    extra.append(a)
                    continue
                return None
            if i < len(pos):
                out[pos[i]] = a
            elif va:
                extra.append(a)
            else:
                return None
        rest = []
        for k, v in kwargs:
            if k == '**':
                if kw:
                    rest.append((Term('dstar'), v))
                    continue
                return None
            if k in pos or k in kwo:
                out[k] = v
            elif kw:
                rest.append((const(k), v))
            else:
                return None
        dfl = f.defaults()
        for n in list(pos) + list(kwo):
            if n not in out:
                if n in dfl:
                    out[n] = self.default_value(dfl[n], f)
                else:
                    return None
        if va:
            out['*' + va] = Term('tuple', tuple(extra))
        if kw:
            out['**' + kw] = Term('dict', tuple(rest))
        return out

    def default_value(self, node, f):
        if isinstance(node, ast.Constant):
            return const(node.value)
        if isinstance(node, (ast.Tuple, ast.List)) and all(isinstance(x, ast.Constant) for x in node.elts):
            return Term('tuple', tuple(const(x.value) for x in node.elts))
        if isinstance(node, ast.UnaryOp) and isinstance(node.operand, ast.Constant) and \
                isinstance(node.op, ast.USub):
            return const(-node.operand.value)
        if isinstance(node, ast.Name):
            return self.global_name(node.id, f.module)
        return Term('default', f.qualname, ast.dump(node))

    def repo_call(self, f, recv, cls, fterm, args, kwargs, st, node):
        b = self.bind(f, args, kwargs, st, f.kind in ('method', 'class'))
        recursive = any(fr.func.node is f.node for fr in self.frames)
        if b is None or recursive or is_generator(f.node) or self.opaque(f, recv) or self.fr.depth >= self.max_depth:
            if b is None:
                kws = tuple((str(i), self.snap(a, st)) for i, a in enumerate(args)) + \
                    tuple(sorted(((k, self.snap(v, st)) for k, v in kwargs), key=lambda x: x[0]))
                raw = {}
            else:
                kws = tuple(sorted(((k, self.snap(v, st)) for k, v in b.items()), key=lambda x: x[0]))
                raw = b
            if fterm.op == 'method':
                ft = fterm
                if ft.args[0].op == 'super':
                    ft = Term('method', recv, f.qualname)
                elif ft.args[0].op not in ('self', 'classref') and ft.args[0] not in self.types:
                    ft = Term('method', self.snap(ft.args[0], st), ft.args[1])
            else:
                ft = fterm
            t = Term('call', ft, (), kws)
            self.event('call', st, node, base=recv if recv is not None else ft, name=f.name, args=(), kwargs=kws,
                       value=t, raw=(f, raw, cls), found=self.finds(f, st) if recv is SELF else None)
            if t in st.heap:
                return self.fresh(t, st)
            return t
        return self.run_inline(f, recv, cls, b, st, node)

    def finds(self, f, st):
        """the fields changed so far that a method of the same object will read, as it finds them"""
        out = []
        for a in sorted(self.p.fields_read(f)):
            v = st.fields.get((SELF, a))
            if v is None:
                v = st.heap.get(Term('attr', SELF, a))
            if v is not None:
                out.append((a, self.snap(v, st)))
        return tuple(out)

    def call_func(self, f, recv, b, st, node, cls):
        if self.opaque(f, recv) or self.fr.depth >= self.max_depth or is_generator(f.node) or \
                any(fr.func.node is f.node for fr in self.frames):
            return Term('call', Term('method', recv, f.name), (), ())
        return self.run_inline(f, recv, cls, b, st, node)

    def call_closure(self, cl, args, kwargs, st, node):
        f, env, rc, selft = self.closures[cl]
        b = self.bind(f, args, kwargs, st, f.kind in ('method', 'class'))
        if b is None or any(fr.func.node is f.node for fr in self.frames) or self.fr.depth >= self.max_depth:
            return self.opaque_call(cl, None, f.name, args, kwargs, st, node)
        base_env = dict(env)
        return self.run_inline(f, selft, rc, b, st, node, base_env=base_env, closure_env=env)

    def run_inline(self, f, recv, cls, b, st, node, base_env=None, closure_env=None):
        self.inlined.add(f.qualname)
        env = dict(base_env or {})
        pos, va, kwo, kw = f.params()
        if f.kind in ('method', 'class') and pos:
            env[pos[0]] = recv if recv is not None else Term('unk', 'self', 0, 0)
        for k, v in b.items():
            env[k.lstrip('*')] = v
        inner = State(env, dict(st.heap), dict(st.fields), st.pc)
        fr = Frame(f, cls if cls is not None else (f.cls or self.fr.recv_cls),
                   recv if f.kind == 'method' and recv is not None else self.fr.self_term, self.fr.depth + 1)
        if base_env is not None:
            fr.recv_cls = cls
            fr.self_term = recv
        self.frames.append(fr)
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body, inner)
                fr.exits.append(Exit('return', self.snap(v, inner), inner, inner.pc, f.node, f, self.seq, raw=v))
            else:
                end = self.block(f.node.body, inner)
                if end is not None:
                    self.exit('return', NONE, end, f.node)
        finally:
            self.frames.pop()
        caller = self.fr
        for e in fr.exits:
            if e.kind == 'raise':
                if caller.tryraises:
                    caller.tryraises[-1].append(e)
                else:
                    caller.exits.append(e)
        rets = [e for e in fr.exits if e.kind == 'return']
        if not rets:
            st.pc = st.pc + ((FALSE, True),)
            return Term('never')
        base_pc = st.pc
        n = len(base_pc)
        states = []
        for e in rets:
            s = e.state.copy()
            s.pc = e.pc
            v = e.raw
            if len(e.loops) > len(self.loopctx) and v.op != 'obj':
                v = first_wrap(v, e.pc[n:])
            s.env = {'$ret': v}
            states.append(s)
        m = self.merge_many(states, base_pc) if len(states) > 1 else states[0]
        for k in m.heap:
            if k.op != 'obj' and k not in st.heap:
                self.freeze(st, k)
        st.heap.clear()
        st.heap.update(m.heap)
        st.fields.clear()
        st.fields.update(m.fields)
        # facts that hold on every normal return
        common = [x for x in rets[0].pc[n:] if all(x in e.pc[n:] for e in rets)]
        pc = base_pc
        for c, pol in common:
            if c.op != 'inloop':
                pc = self.addpc(pc, c, pol)
        st.pc = pc
        v = m.env['$ret']
        if closure_env is not None:
            pass
        return v


def initial(t, keys):
    """a condition evaluated before the references were changed"""
    memo = {}

    def go(x):
        if x in keys:
            return Term('init', x)
        if x.op in ('init', 'mu', 'trybody', 'closure'):
            return x
        r = memo.get(x.uid)
        if r is None:
            args = tuple(goa(a) for a in x.args)
            r = memo[x.uid] = x if all(p is q for p, q in zip(args, x.args)) else Term(x.op, *args)
        return r

    def goa(a):
        if isinstance(a, Term):
            return go(a)
        if isinstance(a, tuple):
            r = tuple(goa(z) for z in a)
            return a if all(p is q for p, q in zip(r, a)) else r
        return a
    return go(t)


def is_generator(node):
    """its body does not run when it is called"""
    r = GENERATORS.get(node)
    if r is None:
        r = GENERATORS[node] = not isinstance(node, ast.Lambda) and \
            any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(node))
    return r


GENERATORS = {}


def settle(stmts):
    """a block without statements that do nothing and with simple temporaries substituted"""
    out, env = [], {}

    class Put(ast.NodeTransformer):
        def visit_Name(self, n):
            return env[n.id] if isinstance(n.ctx, ast.Load) and n.id in env else n
    for x in stmts:
        if isinstance(x, ast.Pass) or isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
            continue
        if env:
            x = Put().visit(copy.deepcopy(x))
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
            env[x.targets[0].id] = x.value
            continue
        out.append(x)
    return out


def first_wrap(v, pc):
    """a value returned from inside a loop: taken at the first element that leaves the loop"""
    def depends(core):
        return any(x.op in ('elem', 'idx') and x.args[0] is core for x in walk(v))
    for c, p in reversed(pc):
        if p and c.op == 'any' and depends(c.args[1]):
            return Term('first', v, ((c.args[1], c.args[0]),))
        if p and c.op == 'nonempty' and depends(c.args[0]):
            return Term('first', v, ((c.args[0], TRUE),))
    return v


class Closer(object):
    """substitution with one memo, over terms, events and states"""

    def __init__(self, mapping):
        self.mp = mapping
        self.memo = {}
        self.done = set()

    def __call__(self, x):
        if not self.mp:
            return x
        if isinstance(x, Term):
            return self.go(x)
        if isinstance(x, tuple):
            return tuple(self(z) for z in x)
        return x

    def go(self, x):
        r = self.memo.get(x.uid)
        if r is None:
            r = self.mp.get(x)
            if r is None:
                args = tuple(self(a) if isinstance(a, (Term, tuple)) else a for a in x.args)
                r = x if all(p is q for p, q in zip(args, x.args)) else Term(x.op, *args)
            self.memo[x.uid] = r
        return r

    def state(self, st):
        if st is None or id(st) in self.done:
            return
        self.done.add(id(st))
        for d in (st.env, st.heap, st.fields):
            for k in d:
                d[k] = self(d[k])
        st.pc = self(st.pc)

    def event(self, e, lid, wh):
        e.pc = self(e.pc)
        e.value = self(e.value)
        e.raw = self(e.raw)
        e.loops = tuple((l, wh if wh is not None and l == lid else self(c)) for l, c in e.loops or ())
        self.state(e.state)
        if isinstance(e, Event):
            e.base = self(e.base)
            e.args = self(e.args)
            if e.kwargs:
                e.kwargs = self(e.kwargs) if isinstance(e.kwargs, tuple) else {k: self(v) for k, v in e.kwargs.items()}


def _zero(t):
    return t.op == 'const' and not isinstance(t.args[0], bool) and t.args[0] == 0


def accumulate(m, fin):
    """entries [(gens, key, weight)] when fin is m with weights added at keys, else None"""
    def free(*xs):
        return not any(y is m for x in xs for y in walk(x))

    def weight(val, key, base):
        # val == base[key] (+ w)
        cur = Term('item', base, key)
        cin = Term('cmp', 'in', key, base)
        if val.op == 'bin' and val.args[0] in ('Add', 'Sub'):
            a, b = val.args[1], val.args[2]
            if val.args[0] == 'Add' and b is cur:
                a, b = b, a
            if a is cur or a.op == 'ite' and a.args[0] is cin and a.args[1] is cur and _zero(a.args[2]) \
                    or a.op == 'item' and a.args[1] is key and init_of(a.args[0], key) is m:
                return b if val.args[0] == 'Add' else Term('un', 'USub', b)
        if val.op == 'ite' and val.args[0] is cin:
            w = weight(val.args[1], key, base)
            if w is not None and (w is val.args[2] or w.op == 'un' and val.args[2] is w):
                return w
        return None

    def init_of(x, key):
        """x is m with key initialised to zero when absent"""
        if x is m:
            return m
        if x.op == 'ite' and x.args[0] is Term('cmp', 'in', key, m) and x.args[1] is m and x.args[2].op == 'upd' and \
                x.args[2].args[0] is m and x.args[2].args[2][0] is key and _zero(x.args[2].args[2][1]):
            return m
        if x.op == 'upd' and x.args[1] == 'setdefault' and x.args[0] is m and x.args[2][0] is key and \
                _zero(x.args[2][1]):
            return m
        return None
    if fin.op == 'acc':
        base, gens, key, w = fin.args
        if not free(key, w, *[c for g in gens for c in g]):
            return None
        if base is m:
            return [(gens, key, w)]
        rest = accumulate(m, base)
        return None if rest is None else rest + [(gens, key, w)]
    if fin.op == 'upd' and fin.args[1] == 'setitem':
        base, key, val = fin.args[0], fin.args[2][0], fin.args[2][1]
        if init_of(base, key) is m:
            w = weight(val, key, base)
            if w is None and base is not m:
                w = weight(val, key, m)
            if w is not None and free(key, w):
                return [((), key, w)]
        if base.op in ('upd', 'acc') and base is not m:
            rest = accumulate(m, base)
            w = weight(val, key, base)
            if rest is not None and w is not None and free(key, w):
                return rest + [((), key, w)]
        return None
    if fin.op == 'upd' and fin.args[1] == 'update' and fin.args[0] is m and len(fin.args[2]) == 1 and \
            m.op == 'mu' and m in COUNTERS:
        x = fin.args[2][0]
        if free(x):
            k = Term('elem', x, 0)
            return [(((x, TRUE),), k, mk_item(x, k))]
    if fin.op == 'ite':
        c, a, b = fin.args
        if a.op == 'upd' and b.op == 'upd' and a.args[0] is m and b.args[0] is m and a.args[1] == b.args[1] == 'setitem' \
                and a.args[2][0] is b.args[2][0]:
            return accumulate(m, Term('upd', m, 'setitem', (a.args[2][0], mk_ite(c, a.args[2][1], b.args[2][1]))))
    return None


COUNTERS = set()
SERIES = re.compile(r'get_(species|reactions)(?!_(mask|id|and)\b|_and_)')


def is_series(d):
    """a pandas Series: labelled by its index, iterated by its values"""
    if d.op == 'call':
        f = d.args[0]
        return f.op in ('attr', 'method') and SERIES.match(str(f.args[1])) is not None or \
            f.op == 'global' and f.args[0] == 'pandas.Series'
    return d.op == 'attr' and d.args[1] in ('_species', '_reactions')


def labelled(a):
    """zip(X.index, X) or zip(X.index, X.values): X"""
    if len(a) == 2 and a[0].op == 'attr' and a[0].args[1] == 'index':
        d = a[0].args[0]
        if is_series(d) and (a[1] is d or a[1].op == 'attr' and a[1].args == (d, 'values')):
            return d
    return None


def own_nodes(fn):
    """nodes of a function body without nested function/class bodies"""
    stack = list(fn.body) if hasattr(fn, 'body') and isinstance(fn.body, list) else [fn.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def is_empty_set(t):
    return t.op == 'set' and not t.args[0] or \
        t.op == 'call' and t.args[0].op == 'global' and t.args[0].args[0] == 'builtins.set' and \
        (not t.args[1] or t.args[1][0].op in ('list', 'tuple') and not t.args[1][0].args[0])


def mk_fmt(parts):
    out = []
    for p in parts:
        if p.op == 'fmt':
            for q in p.args[0]:
                out.append(q)
        else:
            out.append(p)
    merged = []
    for p in out:
        if p.op == 'const' and isinstance(p.args[0], str) and merged and merged[-1].op == 'const' and \
                isinstance(merged[-1].args[0], str):
            merged[-1] = const(merged[-1].args[0] + p.args[0])
        elif p.op == 'const' and isinstance(p.args[0], str) and not p.args[0]:
            continue
        else:
            merged.append(p)
    if not merged:
        return const('')
    if len(merged) == 1 and merged[0].op == 'const' and isinstance(merged[0].args[0], str):
        return merged[0]
    return Term('fmt', tuple(merged))
