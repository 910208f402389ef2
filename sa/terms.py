"""Hash-consed value-graph terms.

A Term is an operator with arguments (Terms, constants, or nested tuples of them).  Two structurally equal terms are the
same Python object, so equality is identity and DAGs stay small.
"""


class Term(object):
    __slots__ = ('op', 'args', 'uid', 'ks', '__weakref__')
    _table = {}

    def __new__(cls, op, *args):
        key = (op,) + tuple(_key(a) for a in args)
        t = cls._table.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.args = args
            t.uid = len(cls._table)
            t.ks = None
            cls._table[key] = t
        return t

    def __init__(self, op, *args):
        pass

    def __repr__(self):
        return pp(self)

    def __hash__(self):
        return self.uid

    def __eq__(self, other):
        return self is other

    def __lt__(self, other):
        return self.uid < other.uid

    def __reduce__(self):
        return Term, (self.op,) + self.args


def _key(a):
    if isinstance(a, Term):
        return a.uid, '#T'
    if isinstance(a, tuple):
        return tuple(_key(x) for x in a)
    return type(a).__name__, (repr(a) if isinstance(a, (float, complex)) else a)


def const(v):
    return Term('const', v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_const(t, *vals):
    if not (isinstance(t, Term) and t.op == 'const'):
        return False
    if not vals:
        return True
    return any(type(t.args[0]) is type(v) and t.args[0] == v for v in vals)


def kids(t):
    """direct sub-terms"""
    out = t.ks
    if out is None:
        out = []
        st = list(t.args[::-1])
        while st:
            a = st.pop()
            if isinstance(a, Term):
                out.append(a)
            elif isinstance(a, tuple):
                st.extend(a[::-1])
        out = t.ks = tuple(out)
    return out


def walk(t):
    """all sub-terms (incl. itself), each once"""
    seen = set()
    stack = [t] if isinstance(t, Term) else list(_terms_in(t))
    while stack:
        x = stack.pop()
        if x.uid in seen:
            continue
        seen.add(x.uid)
        yield x
        stack.extend(kids(x))


def _terms_in(a):
    if isinstance(a, Term):
        yield a
    elif isinstance(a, (tuple, list)):
        for x in a:
            for y in _terms_in(x):
                yield y


def contains(t, sub):
    return any(x is sub for x in walk(t))


def rebuild(t, f, memo=None):
    """bottom-up rewrite: f(term with rewritten children) -> term"""
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, Term):
            r = memo.get(x.uid)
            if r is None:
                args = tuple(goa(a) for a in x.args)
                y = x if all(p is q for p, q in zip(args, x.args)) else Term(x.op, *args)
                r = f(y)
                memo[x.uid] = r
            return r
        return x

    def goa(a):
        if isinstance(a, Term):
            return go(a)
        if isinstance(a, tuple):
            r = tuple(goa(z) for z in a)
            return a if all(p is q for p, q in zip(r, a)) else r
        return a
    import sys
    if sys.getrecursionlimit() < 20000:
        sys.setrecursionlimit(20000)
    return go(t)


def subst(t, mapping):
    """replace terms (top-down: a mapped term is replaced whole)"""
    memo = {}

    def go(x):
        if x in mapping:
            return mapping[x]
        r = memo.get(x.uid)
        if r is None:
            args = tuple(goa(a) for a in x.args)
            r = x if all(p is q for p, q in zip(args, x.args)) else Term(x.op, *args)
            memo[x.uid] = r
        return r

    def goa(a):
        if isinstance(a, Term):
            return go(a)
        if isinstance(a, tuple):
            r = tuple(goa(z) for z in a)
            return a if all(p is q for p, q in zip(r, a)) else r
        return a
    return go(t)


_BIN = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'Pow': '**', 'Mod': '%', 'FloorDiv': '//', 'MatMult': '@',
        'BitAnd': '&', 'BitOr': '|', 'BitXor': '^'}


def pp(t, depth=0):
    if depth > 24:
        return '...'
    if isinstance(t, tuple):
        return '(' + ', '.join(pp(x, depth + 1) for x in t) + ')'
    if not isinstance(t, Term):
        return repr(t)
    d = depth + 1
    op, a = t.op, t.args
    if op == 'const':
        return repr(a[0])
    if op == 'param':
        return str(a[0])
    if op == 'self':
        return 'self'
    if op == 'global':
        return a[0]
    if op == 'attr':
        return '%s.%s' % (pp(a[0], d), a[1])
    if op == 'item':
        return '%s[%s]' % (pp(a[0], d), pp(a[1], d))
    if op == 'call':
        return '%s(%s)' % (pp(a[0], d), ', '.join([pp(x, d) for x in a[1]] + ['%s=%s' % (k, pp(v, d)) for k, v in a[2]]))
    if op == 'bin':
        return '(%s %s %s)' % (pp(a[1], d), _BIN.get(a[0], a[0]), pp(a[2], d))
    if op == 'cmp':
        return '(%s %s %s)' % (pp(a[1], d), a[0], pp(a[2], d))
    if op == 'not':
        return 'not %s' % pp(a[0], d)
    if op in ('and', 'or'):
        return '(' + (' %s ' % op).join(pp(x, d) for x in a[0]) + ')'
    if op == 'ite':
        return '(%s if %s else %s)' % (pp(a[1], d), pp(a[0], d), pp(a[2], d))
    if op in ('list', 'set', 'tuple'):
        o, c = {'list': '[]', 'set': '{}', 'tuple': '()'}[op]
        return o + ', '.join(pp(x, d) for x in a[0]) + c
    if op == 'dict':
        return '{' + ', '.join('%s: %s' % (pp(k, d), pp(v, d)) for k, v in a[0]) + '}'
    if op == 'comp':
        return '%s<%s for %s>' % (a[0], pp(a[1], d), '; '.join(
            '%s in %s if %s' % ('_', pp(g[0], d), pp(g[1], d)) for g in a[2]))
    if op == 'elem':
        return 'elem%s(%s)' % (a[1] or '', pp(a[0], d))
    return '%s<%s>' % (op, ', '.join(pp(x, d) for x in a))
