"""Two outcomes that are the same term except for a few small parts: a point edit.

The terms are aligned from the root down (loop bodies, try bodies, guards and decision diagrams included) to the smallest parts that
differ.  When at most three different pairs of parts remain, and substituting them turns one outcome into the other, the
outcomes differ exactly there, and the pairs decide (sa/definite.py).
"""
from .terms import Term, kids, subst, walk
from . import nf as NFM

LIMIT = 10


class PointEdit(object):
    def __init__(self, N):
        self.N = N
        self.memo = {}
        self.met = []
        self.budget = 40000

    def pairs(self, x, y):
        """the set of smallest differing pairs"""
        if x is y:
            return frozenset()
        key = (x.uid, y.uid)
        r = self.memo.get(key)
        if r is None:
            self.budget -= 1
            self.memo[key] = whole = frozenset([(x, y)])
            self.met.append((x, y))
            r = self.pairs1(x, y) if self.budget > 0 else None
            if r is None or len(r) > LIMIT:
                r = whole
            self.memo[key] = r
        return r

    def pairs1(self, x, y):
        if {x.op, y.op} == {'loopsys', 'loopupd'} or x.op == y.op == 'loopsys' and x.args[0] != y.args[0]:
            h = max(z.args[0] for z in (x, y) if z.op == 'loopsys')
            x, y = at_level(x, h), at_level(y, h)
            return None if x is None or y is None else self.pairs1(x, y)
        if x.op != y.op:
            # a test that one side does not make
            return self.guard(x, y, NFM.atoms_of(x)) if x.op == 'ite' and x.args[1] is not x.args[2] else \
                self.guard(y, x, NFM.atoms_of(y), True) if y.op == 'ite' else None
        if x.op == 'ite':
            return self.diagrams(x, y)
        if x.op == 'poly':
            p, q = NFM.poly_of(x), NFM.poly_of(y)
            b1, b2 = bases(p), bases(q)
            key = lambda t: t.uid
            o1, o2 = sorted(b1 - b2, key=key), sorted(b2 - b1, key=key)
            if not o1 or x in o1 or y in o2:
                return None
            m, out = self.match(o1, o2)
            if m is None or self.N.renorm(subst(x, m)) is not y:
                return None
            return out
        if x.op == 'loopsys' and x.args[1] is not y.args[1] and x.args[1].op != y.args[1].op:
            # another collection: nothing else may differ
            m = {x.args[1]: y.args[1]}
            return self.pairs(x.args[1], y.args[1]) if self.N.renorm(subst(x, m)) is y else None
        r = self.align(x.args, y.args)
        if x.op == 'bin' and x.args[0] == y.args[0] and x.args[0] in ('BitAnd', 'BitOr', 'BitXor', 'Add', 'Mult'):
            # the order of the operands depends on what they are
            r2 = self.align(x.args, (y.args[0], y.args[2], y.args[1]))
            if r is None or r2 is not None and cost(r2) < cost(r):
                r = r2
        return r

    def align(self, a, b):
        if len(a) != len(b):
            return None
        out = frozenset()
        for p, q in zip(a, b):
            if isinstance(p, Term) and isinstance(q, Term):
                out |= self.pairs(p, q)
            elif isinstance(p, tuple) and isinstance(q, tuple):
                r = self.align(p, q)
                if r is None:
                    return None
                out |= r
            elif p != q:
                return None
            if len(out) > LIMIT:
                return None
        return out

    def diagrams(self, x, y):
        """tests and leaves of one are matched with those of the other"""
        a1, a2 = NFM.atoms_of(x), NFM.atoms_of(y)
        o1, o2 = [a for a in a1 if a not in a2], [a for a in a2 if a not in a1]
        if len(o1) != len(o2):
            return self.guard(x, y, o1) if len(o1) == len(o2) + 1 else \
                self.guard(y, x, o2, True) if len(o2) == len(o1) + 1 else None
        m, out = self.match(o1, o2)
        if m is None:
            return None
        z = self.N.renorm(subst(x, m)) if m else x
        if z is y:
            return out
        l1, l2 = leaves(z), leaves(y)
        n, more = self.match([t for t in l1 if t not in l2], [t for t in l2 if t not in l1])
        if not n:
            return None
        if self.N.renorm(replace_leaves(z, n)) is not y:
            return None
        return out | more

    def guard(self, x, y, extra, swapped=False):
        """one test of x is not made in y, which goes one fixed way"""
        if len(extra) > 4:
            return None
        for a in extra:
            for v in (True, False):
                z = NFM.assume(x, a, v)
                r = frozenset() if z is y else None
                if r is None and len(extra) > 1 and z.op == 'ite' and y.op == 'ite':
                    r = self.diagrams(y, z) if swapped else self.diagrams(z, y)
                if r is not None:
                    p = (NFM.BDD(a), NFM.TRUE if v else NFM.FALSE)
                    return r | {p[::-1] if swapped else p}
        return None

    def anywhere(self, x, y, limit=40):
        """a pair of parts that makes y of x when one is put for the other everywhere"""
        cands = sorted(((size(p) + size(q), p, q) for p, q in {pq for r in self.memo.values() for pq in r}),
                       key=lambda c: (c[0], c[1].uid, c[2].uid))
        cands = [(p, q) for n, p, q in cands if n < 700 and p is not x][:limit]
        had = set(cands)
        more = sorted(((size(p) + size(q), p, q) for p, q in set(self.met) if p.op == q.op == 'bin' and (p, q) not in had),
                      key=lambda c: (c[0], c[1].uid, c[2].uid))
        cands += [(p, q) for n, p, q in more if n < 100][:limit]
        s1, s2 = NFM.subterms(x), NFM.subterms(y)
        for p, q in cands:
            if p.uid in s1 and q.uid not in s1 and q.uid in s2 and p.uid not in s2 and self.N.renorm(subst(x, {p: q})) is y:
                return p, q
        for a, b, s, o in ((x, y, s1, s2), (y, x, s2, s1)):
            tests = sorted({t.args[0] for t in walk(a) if t.op == 'ite' and t.args[0].uid not in o}, key=lambda t: (size(t), t.uid))
            for t in tests[:8]:
                for v in (NFM.TRUE, NFM.FALSE):
                    if self.N.renorm(subst(a, {t: v})) is b:
                        return (NFM.BDD(t), v) if a is x else (v, NFM.BDD(t))
        return None

    def match(self, xs, ys):
        if len(xs) != len(ys) or len(xs) > 8:
            return None, None
        m, out, rest = {}, frozenset(), list(ys)
        for z in xs:
            best = None
            for w in rest:
                if w.op != z.op and len(rest) > 1:
                    continue
                r = self.pairs(z, w)
                k = (z.op == w.op and (z, w) in r and z.op in ('cmp', 'any') and z.args[0] != w.args[0], len(r),
                     max(size(p) + size(q) for p, q in r))
                if best is None or k < best[0]:
                    best = (k, w, r)
            if best is None:
                return None, None
            m[z] = best[1]
            rest.remove(best[1])
            out |= best[2]
        return m, out


def at_level(x, h):
    """a loop as a system of the given nesting level"""
    if x.op == 'loopupd':
        old, kind, args, gens = x.args
        (core, cond), rest = gens[0], gens[1:]
        m = Term('mu', h, 0)
        if any(y.op in ('mu', 'loopsys') and y.args[0] == h for y in walk(x)):
            return None
        u = Term('loopupd', m, kind, args, rest) if rest else Term('upd', m, kind, args)
        return Term('loopsys', h, core, NFM.TRUE, ((old, NFM.ITE(cond, u, m)),), ())
    g = x.args[0]
    if g == h:
        return x
    return Term('loopsys', h, *subst(Term('loopsys', *x.args), {Term('mu', g, i): Term('mu', h, i)
                                                                for i in range(len(x.args[3]))}).args[1:])


def replace_leaves(x, n):
    memo = {}

    def go(t):
        if t.op != 'ite':
            return n.get(t, t)
        r = memo.get(t.uid)
        if r is None:
            r = memo[t.uid] = Term('ite', t.args[0], go(t.args[1]), go(t.args[2]))
        return r
    return go(x)


def cost(r):
    return sum(size(p) + size(q) for p, q in r)


def size(t, limit=400):
    seen, st = set(), [t]
    while st and len(seen) < limit:
        x = st.pop()
        if x.uid not in seen:
            seen.add(x.uid)
            st.extend(kids(x))
    return len(seen)


def leaves(x):
    from .definite import leaves as f
    return f(x)


def bases(p):
    from .definite import bases as f
    return f(p)
