"""When are two different normal forms *certainly* different values?

Normal forms are sound for equality only (equal form => equal value).  Before a difference is reported, the two terms are
walked in parallel down to the smallest differing parts; the difference counts as definite only if every such part is of a
kind the analysis understands completely (another constant, another parameter / attribute / callee, another polynomial over
the same atoms, an added or missing factor, term, element, key, update or guard).  Anything else is inconclusive.
"""
from fractions import Fraction
from .terms import Term, is_const, kids, pp, walk, subst
from . import nf as NFM

ATOMIC = {'const', 'num', 'param', 'self', 'global', 'classref', 'bound'}
SIMPLE = {'attr', 'item', 'call', 'method', 'elem', 'idx', 'fmt', 'str', 'poly', 'sum', 'fn', 'cmp', 'list', 'tuple', 'dict',
          'set', 'comp', 'new', 'float', 'out', 'raises', 'ite', 'any', 'slice'}
LITERALS = {'list', 'tuple', 'dict', 'set'}
ACCESS = {'call', 'attr', 'item', 'elem', 'method', 'param', 'idx'}
STRUCT = {'any', 'cmp', 'item', 'elem', 'idx', 'new', 'out', 'raises', 'str', 'float', 'fn', 'un', 'bin', 'slice', 'kw',
          'first', 'uniq', 'copyof', 'deepcopyof', 'fmtspec', 'repeat', 'effect', 'accn', 'classattr', 'selfclass', 'iitem',
          'seq', 'lam', 'foreach', 'excval', 'exc', 'trybody', 'mut', 'entered', 'init', 'maybe', 'fmtconv', 'zip', 'star',
          'dictcopy', 'classobj', 'partial', 'pos', 'dictupd', 'copyof', 'cur', 'mutated', 'mask', 'finding', 'since', 'era'}
FRESH = {'list', 'tuple', 'dict', 'set', 'new', 'comp'}
JOINED = {'fmt', 'concat', 'str', 'join'}
LOOPY = {'loopupd', 'last', 'maybeunbound', 'while'}


class Definite(object):
    def __init__(self, und):
        self.und = und
        self.strict = 0
        self.memo = {}
        self.why = None
        self.budget = 20000
        self.tried = ()

    def __call__(self, x, y):
        self.why = None
        if vector_words(x) != vector_words(y):
            self.why = 'array operations written differently'
            return False
        if same_apart_from_copies(x, y):
            self.why = 'copied in another way'
            return False
        if index_moved(x, y):
            self.why = 'indexed before or after arithmetic'
            return False
        return self.go(x, y, 0)

    def no(self, x, y):
        if self.why is None:
            self.why = '%s: %s  /  %s: %s' % (x.op, pp(x)[:160], y.op, pp(y)[:160])
        return False

    def go(self, x, y, depth):
        if x is y:
            return False
        self.budget -= 1
        if depth > 60 or self.budget < 0:
            return self.no(x, y)
        key = (x.uid, y.uid, bool(self.strict))
        r = self.memo.get(key)
        if r is None:
            r = self.go1(x, y, depth)
            self.memo[key] = r
            if not r:
                self.no(x, y)
        return r

    def go1(self, x, y, depth):
        und = self.und
        if x.op == 'ite' or y.op == 'ite':
            return self.ite(x, y, depth)
        if x.op in ATOMIC and y.op in ATOMIC:
            return und(x) and und(y)
        # the largest of the absolute values against the absolute value of the largest
        for p, q in ((x, y), (y, x)):
            g = aggregate(p)
            if g is not None and q.op == 'fn' and q.args[0] == 'abs' and g[1].op == 'fn' and g[1].args[0] == 'abs':
                h = aggregate(q.args[1][0])
                if h is not None and h[1] is g[1].args[1][0]:
                    return und(p) and und(q)
            if p.op == 'str' and q.op == 'fmt' and len(q.args[0]) == 1 and isinstance(q.args[0][0], Term) and \
                    q.args[0][0].op == 'fmtspec' and q.args[0][0].args[0] is p.args[0]:
                return und(p)
            if p.op == 'fmt' and len(p.args[0]) > 1 and q.op in ('elem', 'attr', 'item'):
                return und(p) and und(q)
        g, h = aggregate(x), aggregate(y)
        if g is not None and h is not None and g[1] is h[1] and g[0] != h[0]:
            return und(g[1])
        if x.op == y.op:
            r = self.same(x, y, depth)
            if r is not None:
                return r
        # a copy of what a field holds afterwards against that very object
        if any(p.op == 'keptcopy' and p.args[0] is q for p, q in ((x, y), (y, x))):
            return True
        if any(q.op == 'upd' and plain_copy(p) is not None and plain_copy(p).args[0] is q for p, q in ((x, y), (y, x))):
            return False
        # joined with another set against not joined
        for p, q in ((x, y), (y, x)):
            if p.op in ('union', 'concat') and q in p.args[0] and not self.strict:
                return und(p) and und(q)
        if 'upd' in (x.op, y.op):
            return self.upds(x, y, depth)
        if {x.op, y.op} == {'seq', 'end'}:
            s = x if x.op == 'seq' else y
            return self.all_und(self.seq_items(s))
        if 'seq' in (x.op, y.op) or 'end' in (x.op, y.op):
            return False
        a, b = (x, y) if x.op in ATOMIC else (y, x)
        if a.op in ATOMIC and not self.strict:
            return und(x) and und(y) and b.op in SIMPLE
        if (NFM.is_num(x) and not NFM.is_number_call(x) or NFM.is_num(y) and not NFM.is_number_call(y) or x.op == 'poly' or y.op == 'poly') and not JOINED & {x.op, y.op}:
            return self.poly(x, y, depth)
        if self.strict:
            return False
        # a copy that leaves the function against the object itself
        for p, q in ((x, y), (y, x)):
            if p.op == 'copyof' and p.args[0] is q and q.op in ('attr', 'param', 'elem', 'item'):
                return True
            # restored after a failure against not restored
            if p.op == 'maybe' and p.args[0] in self.tried:
                z = q.args[0] if q.op == 'copyof' else q
                return z is p.args[1] or p.args[1].op == 'init' and p.args[1].args[0] is z
        # wrapped against unwrapped:  f(z) vs z
        for p, q in ((x, y), (y, x)):
            if q in kids(p) and p.op in ('call', 'attr', 'item', 'str', 'float', 'fn', 'fmt', 'list', 'tuple', 'set'):
                return und(p) and und(q)
            # a selection or set narrowed or widened by another one
            if p.op == 'bin' and p.args[0] in ('BitAnd', 'BitOr', 'BitXor', 'Sub') and q in kids(p):
                return und(p) and und(q)
            if p.op == 'call' and p.args[0].op == 'attr' and p.args[0].args[0] is q and \
                    p.args[0].args[1] in ('union', 'difference', 'intersection', 'symmetric_difference') and p.args[1]:
                return und(p) and und(q)
        if x.op in LITERALS and y.op in LITERALS:
            return und(x) and und(y)
        if {x.op, y.op} == {'out', 'raises'}:
            return True
        # a field set afresh against the field as it was; an operator against another way of joining
        for p, q in ((x, y), (y, x)):
            if p.op in FRESH and q.op == 'attr' or p.op == 'bin' and q.op in JOINED | {'bin'} or \
                    p.op in JOINED and q.op == 'poly' or p.op == 'concat' and q.op in ('list', 'tuple', 'str'):
                return und(p) and und(q)
            # something collected against nothing
            if q.op in ('list', 'tuple') and not q.args[0] and \
                    (p.op == 'comp' or p.op == 'call' and len(p.args[1]) == 1 and p.args[1][0].op == 'comp'):
                return und(p)
        if {x.op, y.op} <= ACCESS:
            return und(x) and und(y)
        return False

    def all_und(self, xs):
        return all(self.und(z) for z in xs)

    def pairwise(self, xs, ys, depth):
        """every differing pair is definite (and there is one)"""
        some = False
        for p, q in zip(xs, ys):
            if p is q or p == q:
                continue
            if isinstance(p, Term) and isinstance(q, Term):
                if not self.go(p, q, depth + 1):
                    return False
            elif isinstance(p, tuple) and isinstance(q, tuple):
                if len(p) != len(q):
                    if not self.all_und(terms_in(p)) or not self.all_und(terms_in(q)):
                        return False
                elif not self.pairwise(p, q, depth + 1):
                    return False
            elif isinstance(p, Term) or isinstance(q, Term):
                return False
            some = True
        return some

    def same(self, x, y, depth):
        und, op = self.und, x.op
        if op in ('poly', 'sum'):
            return self.poly(x, y, depth)
        if op == 'upd':
            return self.upds(x, y, depth)
        if op == 'seq':
            return self.seqs(x, y, depth)
        if op in ('list', 'tuple', 'concat'):
            xs, ys = x.args[0], y.args[0]
            if len(xs) == len(ys):
                return self.pairwise(xs, ys, depth)
            return self.all_und(xs + ys)
        if op in ('set', 'union'):
            xs, ys = x.args[0], y.args[0]
            return self.bag([z for z in xs if z not in ys], [z for z in ys if z not in xs], depth)
        if op == 'dict':
            dx, dy = dict(x.args[0]), dict(y.args[0])
            if set(dx) != set(dy):
                return self.all_und(z for z in list(dx) + list(dy) if z not in dx or z not in dy)
            if any(dx[k] is not dy[k] for k in dx):
                return self.pairwise([dx[k] for k in dx], [dy[k] for k in dx], depth)
            return False       # order of insertion only
        if op in ('fmt', 'join'):
            if op == 'fmt' and len(x.args[0]) != len(y.args[0]):
                return und(x) and und(y)
            return self.pairwise(x.args, y.args, depth)
        if op == 'call':
            (f, a, k), (g, b, l) = x.args, y.args
            if f is not g:
                if f.op in ('attr', 'method') and g.op in ('attr', 'method') and f.args[1] == g.args[1] and \
                        isinstance(f.args[0], Term) and isinstance(g.args[0], Term):
                    if (a, k) == (b, l):
                        return self.go(f.args[0], g.args[0], depth + 1)
                    if len(a) == len(b) and [n for n, _ in k] == [n for n, _ in l]:
                        return self.pairwise((f.args[0], a, k), (g.args[0], b, l), depth)
                return not self.strict and und(x) and und(y)
            if len(a) != len(b) or [n for n, _ in k] != [n for n, _ in l]:
                return und(x) and und(y)
            return self.pairwise((a, k), (b, l), depth)
        if op in ('attr', 'method'):
            if x.args[1] != y.args[1]:
                return not self.strict and und(x) and und(y)
            return self.go(x.args[0], y.args[0], depth + 1)
        if op == 'comp':
            if x.args[0] != y.args[0]:
                return und(x) and und(y)
            if len(x.args[2]) != len(y.args[2]):
                return False
            return self.comp(x.args[1], x.args[2], y.args[1], y.args[2], depth)
        if op == 'loopsys':
            return self.loops(x, y, depth)
        if op == 'mu':
            return x.args[0] == y.args[0]
        if op in LOOPY:
            if x.args[0] != y.args[0]:
                return False
            self.strict += 1
            try:
                return self.pairwise(x.args, y.args, depth) if len(x.args) == len(y.args) else False
            finally:
                self.strict -= 1
        if op == 'trybody':
            # a different read or call is tried; one more or one less may be a matter of style
            if not isinstance(x.args[0], tuple) or not isinstance(y.args[0], tuple):
                return False
            o1 = [z for z in x.args[0] if z not in y.args[0]]
            o2 = [z for z in y.args[0] if z not in x.args[0]]
            o1 = [z for z in o1 if not any(z is not w and z.uid in NFM.subterms(w) for w in o1)]
            o2 = [z for z in o2 if not any(z is not w and z.uid in NFM.subterms(w) for w in o2)]
            return len(o1) == len(o2) == 1 and self.go(o1[0], o2[0], depth + 1)
        if op == 'objstate':
            if x.args[0] is not y.args[0] and not self.go(x.args[0], y.args[0], depth + 1):
                return False
            dx, dy = dict(x.args[1]), dict(y.args[1])
            if not self.all_und([z for d, o in ((dx, dy), (dy, dx)) for a, z in d.items() if a not in o]):
                return False
            return all(dx[a] is dy[a] or self.go(dx[a], dy[a], depth + 1) for a in dx if a in dy)
        if op in STRUCT:
            if len(x.args) != len(y.args):
                return und(x) and und(y)
            if op == 'bin' and x.args[0] != y.args[0] and x.args[1:] == y.args[1:]:
                return True
            return self.pairwise(x.args, y.args, depth)
        return None

    def loops(self, x, y, depth):
        """two systems of the same shape over the same collection that differ in one slot, or in bodies only"""
        (h, core, test, vs, bs), (g, core2, test2, us, cs) = x.args, y.args
        if h != g or len(vs) != len(us) or len(bs) != len(cs):
            return False
        olds = [(p[0], q[0]) for p, q in zip(vs, us)]
        rest = [(core, core2), (test, test2)] + [(p[1], q[1]) for p, q in zip(vs, us)]
        for (c, p), (d, q) in zip(bs, cs):
            rest.append((c, d))
            rest.extend(zip(p, q))
        if core is not core2 and not (core.op == core2.op or NFM.num(core) is not None):
            # another collection: the bodies must be the same over it
            if any(subst(p, {core: core2}) is not q for p, q in rest[1:]):
                return False
        bad = [(p, q) for p, q in olds + rest if p is not q]
        if len(bad) > 1 and (any(p is not q for p, q in olds) or len(bad) > 2 and len(vs) > 3):
            return False
        return bool(bad) and all(self.go(p, q, depth + 1) for p, q in bad)

    # ---- chains of updates: the multisets of updates must differ definitely
    @staticmethod
    def chain(x):
        out = []
        while x.op == 'upd':
            out.append((x.args[1], x.args[2]))
            x = x.args[0]
        return x, out[::-1]

    def upds(self, x, y, depth):
        bx, ux = self.chain(x)
        by, uy = self.chain(y)
        if bx is not by:
            if (alloc(bx) or alloc(by)) and not (alloc(bx) and alloc(by)):
                return False           # filled slot by slot against made from an existing array
            if not self.go(bx, by, depth + 1):
                return False
        if len(ux) == len(uy):
            if [k for k, _ in ux] == [k for k, _ in uy]:
                pairs = [(p, q) for p, q in zip(ux, uy) if p != q]
                if sorted(map(repr_key, ux)) == sorted(map(repr_key, uy)):
                    return bx is not by        # the same updates, perhaps in another order
                if pairs and all(self.pairwise(p[1], q[1], depth) if len(p[1]) == len(q[1]) else False
                                 for p, q in pairs):
                    return True
        ox, oy = list(ux), list(uy)
        for u in ux:
            if u in oy:
                oy.remove(u)
                ox.remove(u)
        if not ox and not oy:
            return bx is not by
        if ox and oy:
            return False
        return all(self.all_und(terms_in(a)) for _, a in ox + oy)

    @staticmethod
    def seq_items(s):
        out = []
        while s.op == 'seq':
            out.append(s.args[0])
            s = s.args[1]
        return out

    def seqs(self, x, y, depth):
        xs, tx, ys, ty = [], x, [], y
        while tx.op == 'seq':
            xs.append(tx.args[0])
            tx = tx.args[1]
        while ty.op == 'seq':
            ys.append(ty.args[0])
            ty = ty.args[1]
        if tx is not ty:
            if xs == ys:
                return self.go(tx, ty, depth + 1)
            return False
        if sorted(z.uid for z in xs) == sorted(z.uid for z in ys):
            return False                        # order of independent effects
        if len(xs) == len(ys):
            return self.pairwise(xs, ys, depth)
        ox, oy = list(xs), list(ys)
        for z in xs:
            if z in oy:
                oy.remove(z)
                ox.remove(z)
        if ox and oy:
            return False
        return self.all_und(ox + oy)

    def comp(self, e1, g1, e2, g2, depth):
        """the cores must agree or differ definitely; elements and guards are compared over equal cores only"""
        cores1, cores2 = [c for c, _ in g1], [c for c, _ in g2]
        if cores1 != cores2:
            return all(a is b or self.go(a, b, depth + 1) for a, b in zip(cores1, cores2))
        if e1 is not e2 and not self.go(e1, e2, depth + 1):
            return False
        return all(a is b or self.go(a, b, depth + 1) for (_, a), (_, b) in zip(g1, g2))

    def bag(self, xs, ys, depth):
        if not xs or not ys:
            return self.all_und(xs + ys)
        if len(xs) == 1 and len(ys) == 1:
            return self.go(xs[0], ys[0], depth + 1)
        return all(self.und(z) and z.op in ATOMIC for z in xs + ys)

    def ite(self, x, y, depth):
        """two diagrams: atoms of one that the other lacks must be understood or definitely different, the leaves too"""
        a1, a2 = NFM.atoms_of(x), NFM.atoms_of(y)
        only1 = [a for a in a1 if a not in a2]
        only2 = [a for a in a2 if a not in a1]
        if not self.atoms(only1, only2, depth):
            return False
        l1, l2 = leaves(x), leaves(y)
        o1 = [z for z in l1 if z not in l2]
        o2 = [z for z in l2 if z not in l1]
        if not o1 and not o2:
            return True
        if not o1 or not o2:
            return self.all_und(o1 + o2)
        return all(any(self.go(z, w, depth + 1) for w in o2) for z in o1)

    single = False

    def atoms(self, only1, only2, depth=0):
        """decision atoms present on one side only"""
        if not only1 and not only2:
            return True
        if not only1 or not only2:
            return self.all_und(only1 + only2)
        if len(only1) * len(only2) > 36:
            return False
        if self.single and len(only1) == len(only2) == 1 and (one_way(only1[0], only2[0]) or one_way(only2[0], only1[0])):
            return self.all_und(only1 + only2)
        return all(any(self.atom(z, w, depth) for w in only2) for z in only1) and \
            all(any(self.atom(z, w, depth) for z in only1) for w in only2)

    def atom(self, z, w, depth):
        """same kind of test with a definite difference (bound, operand, element, operator)"""
        if z.op == w.op:
            if z.op == 'cmp' and z.args[0] != w.args[0]:
                return self.und(z) and self.und(w)
            return self.go(z, w, depth + 1)
        ok = ('param', 'attr', 'item', 'call', 'cmp')
        return not self.strict and z.op in ok and w.op in ok and self.und(z) and self.und(w)

    def poly(self, x, y, depth):
        p, q = NFM.poly_of(x), NFM.poly_of(y)
        if not NFM.padd(p, q, Fraction(-1)):
            return False
        bp, bq = bases(p), bases(q)
        if bp == bq:
            return True
        o1, o2 = sorted(bp - bq, key=lambda z: z.uid), sorted(bq - bp, key=lambda z: z.uid)
        if not o1 or not o2:
            return self.all_und(o1 + o2)       # an added / missing factor or term
        if len(o1) == 1 and len(o2) == 1:
            if o1[0].op == 'sum' and o2[0].op == 'sum':
                return self.pairwise(o1[0].args, o2[0].args, depth)
            if o1[0] is x and o2[0] is y:
                return False
            return self.go(o1[0], o2[0], depth + 1)
        if self.budget < 0:
            return False
        rest, left = list(o2), []
        for z in o1:
            c = [w for w in rest if w.op == z.op]
            if not c:
                left.append(z)
                continue
            zs = NFM.subterms(z)
            w = max(c, key=lambda t: len(zs & NFM.subterms(t)))
            if z is x and w is y:
                return False
            if not self.go(z, w, depth + 1):
                return False
            rest.remove(w)
        if not left and not rest:
            return True
        if not left or not rest:
            return self.all_und(left + rest)
        # plain reads of different things left over on both sides
        return not self.strict and all(z.op in ACCESS | ATOMIC and self.und(z) for z in left + rest)


def repr_key(u):
    return u[0], tuple(t.uid for t in terms_in(u[1]))


AGGREGATES = {'max', 'min', 'mean', 'sum', 'prod', 'nanmax', 'nanmin', 'nanmean', 'nansum', 'median', 'nanmedian', 'amax', 'amin'}
SAME_AGG = {'amax': 'max', 'amin': 'min'}


def one_way(z, w):
    """two collections are equal  against  some element of one of them is not in (not as in) the other"""
    if z.op != 'cmp' or z.args[0] != '==' or w.op != 'any':
        return False
    core = w.args[1]
    if not isinstance(core, Term) or core.op in ('union', 'zip', 'concat', 'bin'):
        return False
    a, b = z.args[1], z.args[2]
    for p, q in ((a, b), (b, a)):
        if p is core or core in kids(p) or p.op == 'comp' and any(c is core for c, _ in p.args[2]):
            return q in set(walk(w)) or any(k in set(walk(w)) for k in kids(q))
    return False


def aggregate(x):
    """(name, what) of a largest, smallest, mean or sum of something"""
    if x.op != 'call' or x.args[2]:
        return None
    f, a = x.args[0], x.args[1]
    if f.op == 'global' and len(a) == 1:
        m, _, n = f.args[0].rpartition('.')
        if m in ('numpy', 'builtins') and n in AGGREGATES:
            return SAME_AGG.get(n, n), a[0]
    if f.op == 'attr' and not a and f.args[1] in AGGREGATES:
        return f.args[1], f.args[0]
    return None


def terms_in(a):
    if isinstance(a, Term):
        yield a
    elif isinstance(a, (tuple, list)):
        for z in a:
            for t in terms_in(z):
                yield t


def leaves(x):
    out, seen, st = [], set(), [x]
    while st:
        y = st.pop()
        if y.uid in seen:
            continue
        seen.add(y.uid)
        if y.op == 'ite':
            st.extend(y.args[1:])
        elif y not in out:
            out.append(y)
    return out


def bases(p):
    out = set()
    for m in p:
        for b, e in m:
            out.add(b)
            if isinstance(e, Term):
                out.add(e)
    return out


VECTOR = {'numpy.' + n for n in ('dot', 'einsum', 'matmul', 'inner', 'tensordot', 'vdot', 'outer', 'where', 'select', 'choose',
                                 'multiply.reduce', 'add.reduce', 'put', 'place', 'copyto', 'putmask', 'compress', 'take',
                                 'nonzero', 'flatnonzero', 'tile', 'repeat', 'broadcast_to', 'hstack', 'vstack', 'stack',
                                 'column_stack', 'fill_diagonal', 'apply_along_axis', 'vectorize', 'fromiter', 'full',
                                 'full_like', 'piecewise', 'clip')}
_vec = {}


def vector_words(t):
    """names of the array operations in t that can be written in several equivalent ways"""
    r = _vec.get(t.uid)
    if r is None:
        r = _vec[t.uid] = frozenset(
            x.args[0] for x in walk(t) if x.op == 'global' and x.args[0] in VECTOR) | frozenset(
            '.dot' for x in walk(t) if x.op == 'attr' and x.args[1] == 'dot') | frozenset(
            '@' for x in walk(t) if x.op == 'bin' and x.args[0] == 'MatMult')
    return r


COPIERS = {'numpy.array', 'numpy.copy', 'builtins.list', 'builtins.dict', 'builtins.set', 'collections.OrderedDict'}


def same_apart_from_copies(x, y):
    """equal once every way of making a copy is written alike"""
    if not any(is_copy(z) for z in walk(x)) or not any(is_copy(z) for z in walk(y)):
        return False
    return rewrite(x, plain_copy) is rewrite(y, plain_copy)


def is_copy(z):
    return plain_copy(z) is not None


def plain_copy(z):
    if z.op == 'call' and not z.args[2]:
        f, a = z.args[0], z.args[1]
        if f.op == 'global' and f.args[0] in COPIERS and len(a) == 1:
            return Term('copyof', a[0])
        if f.op == 'attr' and f.args[1] == 'copy' and not a:
            return Term('copyof', f.args[0])
    if z.op in ('dictcopy', 'deepcopyof'):
        return Term('copyof', z.args[0])
    if z.op == 'copyof':
        return z
    return None


def rewrite(t, fn, memo=None):
    """t with fn applied bottom-up (fn returns None where it does not apply)"""
    memo = {} if memo is None else memo

    def go(x):
        r = memo.get(x.uid)
        if r is None:
            r = x
            if x.args and any(isinstance(a, (Term, tuple)) for a in x.args):
                r = Term(x.op, *[goa(a) for a in x.args])
            r = memo[x.uid] = fn(r) or r
        return r

    def goa(a):
        if isinstance(a, Term):
            return go(a)
        if isinstance(a, tuple):
            return tuple(goa(z) for z in a)
        return a
    return go(t)


def index_moved(x, y):
    """(a * b)[m] against a[m] * b[m]"""
    for p, q in ((x, y), (y, x)):
        for z in walk(p):
            if z.op == 'item' and z.args[0].op == 'poly' and not NFM.num(z.args[1]) and z.uid not in NFM.subterms(q):
                i = z.args[1]
                if not any(w.op == 'item' and w.args[1] is i for w in walk(q)):
                    continue

                def strip(w):
                    return w.args[0] if w.op == 'item' and w.args[1] is i else None
                n = NFM.Normaliser()
                if n.renf(rewrite(p, strip)) is n.renf(rewrite(q, strip)):
                    return True
    return False


def alloc(x):
    return x.op == 'call' and x.args[0].op == 'global' and x.args[0].args[0] in (
        'numpy.empty', 'numpy.zeros', 'numpy.ones', 'numpy.empty_like', 'numpy.zeros_like', 'numpy.full', 'numpy.ones_like')
