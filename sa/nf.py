"""Normal forms of value-graph terms.

Gated values become reduced ordered decision diagrams over atomic conditions (multi-terminal BDDs built from hash-consed
Terms), arithmetic becomes polynomials with exact rational coefficients, reductions and comprehensions become quantified
terms with a guard diagram.  Two terms with the same normal form denote the same value.  Nothing is evaluated.
"""
from fractions import Fraction
from .terms import Term, const, NONE, TRUE, FALSE, is_const, kids, walk, subst, pp, contains

MAXLIFT = 5
NP = 'numpy.'
NP_METHODS = {'sum', 'prod', 'max', 'min', 'mean', 'all', 'any', 'cumsum', 'dot', 'clip', 'round', 'argmax', 'argmin',
              'argsort', 'std', 'var', 'transpose', 'ravel', 'flatten', 'reshape', 'copy'}
SETOPS = {'Sub', 'BitAnd', 'BitOr', 'BitXor'}


def mk(v, hi, lo):
    """decision node"""
    if hi is lo:
        return hi
    hi, lo = assume(hi, v, True), assume(lo, v, False)
    if hi is lo:
        return hi
    return Term('ite', v, hi, lo)


_assume_memo = {}


def assume(x, v, val):
    """x simplified under the fact that atom v is val (also inside nested terms)"""
    if x.op == 'mask' or not contains_memo(x, v):
        return x
    key = (x.uid, v.uid, val)
    r = _assume_memo.get(key)
    if r is not None:
        return r
    if x.op == 'ite' and x.args[0] is v:
        r = assume(x.args[1] if val else x.args[2], v, val)
    elif x.op == 'ite':
        hi, lo = assume(x.args[1], v, val), assume(x.args[2], v, val)
        r = hi if hi is lo else Term('ite', x.args[0], hi, lo)
    else:
        def go(a):
            if isinstance(a, Term):
                return assume(a, v, val)
            if isinstance(a, tuple):
                q = tuple(go(z) for z in a)
                return a if all(p is s for p, s in zip(q, a)) else q
            return a
        args = tuple(go(a) for a in x.args)
        r = x if all(p is q for p, q in zip(args, x.args)) else Term(x.op, *args)
    _assume_memo[key] = r
    return r


_sub_memo = {}


def subterms(x):
    r = _sub_memo.get(x.uid)
    if r is None:
        r = frozenset(t.uid for t in walk(x))
        _sub_memo[x.uid] = r
    return r


_cont_memo = {}


def contains_memo(x, v):
    """does v occur in x?  (sub-terms are older than the terms that contain them)"""
    vu = v.uid
    if x.uid <= vu:
        return x is v
    memo = _cont_memo.get(vu)
    if memo is None:
        memo = _cont_memo[vu] = {}
    r = memo.get(x.uid)
    if r is not None:
        return r
    stack = [(x, iter(kids(x)))]
    while stack:
        y, it = stack[-1]
        res = False
        for z in it:
            if z is v:
                res = True
                break
            if z.uid < vu:
                continue
            w = memo.get(z.uid)
            if w is None:
                stack.append((z, iter(kids(z))))
                res = None
                break
            if w:
                res = True
                break
        if res is None:
            continue
        stack.pop()
        memo[y.uid] = res
        if res:
            for q, _ in stack:
                memo[q.uid] = True
            stack = []
    return memo[x.uid]


def top(x):
    return x.args[0] if x.op == 'ite' else None


def cof(x, v, val):
    if x.op == 'ite' and x.args[0] is v:
        return x.args[1] if val else x.args[2]
    return x


def atoms_of(x, acc=None):
    """decision atoms of a diagram"""
    if acc is None:
        acc = []
    seen = set()
    st = [x]
    while st:
        y = st.pop()
        if y.op != 'ite' or y.uid in seen:
            continue
        seen.add(y.uid)
        if y.args[0] not in acc:
            acc.append(y.args[0])
        st.extend(y.args[1:])
    return acc


def lift(fn, xs, memo=None):
    if memo is None:
        memo = {}
    key = tuple(x.uid for x in xs)
    r = memo.get(key)
    if r is not None:
        return r
    v = None
    for x in xs:
        t = top(x)
        if t is not None and (v is None or t.uid < v.uid):
            v = t
    if v is None:
        r = fn(*xs)
    else:
        r = mk(v, lift(fn, [cof(x, v, True) for x in xs], memo), lift(fn, [cof(x, v, False) for x in xs], memo))
        r = reorder(r)
    memo[key] = r
    return r


_ordered = set()


def ordered(x):
    st, seen = [x], set()
    while st:
        y = st.pop()
        if y.op != 'ite' or y.uid in seen or y.uid in _ordered:
            continue
        seen.add(y.uid)
        for c in y.args[1:]:
            if c.op == 'ite' and c.args[0].uid <= y.args[0].uid:
                return False
            st.append(c)
    _ordered.update(seen)
    return True


def reorder(x):
    """restore the variable order when a leaf rewrite produced a diagram with smaller atoms"""
    if x.op != 'ite' or ordered(x):
        return x
    return ITE(BDD(x.args[0]), reorder(x.args[1]), reorder(x.args[2]))


def BDD(atom):
    return Term('ite', atom, TRUE, FALSE)


_ite_memo = {}


def ITE(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    key = (c.uid, a.uid, b.uid)
    r = _ite_memo.get(key)
    if r is None:
        v = min((t for t in (top(c), top(a), top(b)) if t is not None), key=lambda t: t.uid)
        r = mk(v, ITE(cof(c, v, True), cof(a, v, True), cof(b, v, True)),
               ITE(cof(c, v, False), cof(a, v, False), cof(b, v, False)))
        r = reorder(r)
        _ite_memo[key] = r
    return r


def AND(a, b):
    return ITE(a, b, FALSE)


def OR(a, b):
    return ITE(a, TRUE, b)


def NOT(a):
    return ITE(a, FALSE, TRUE)


def constrain(f, c):
    """Coudert-Madre generalized cofactor: canonical f on the care set c"""
    if c is TRUE or c is FALSE or f.op != 'ite':
        return f
    ts = [t for t in (top(f), top(c)) if t is not None]
    v = min(ts, key=lambda t: t.uid)
    c1, c0 = cof(c, v, True), cof(c, v, False)
    f1, f0 = cof(f, v, True), cof(f, v, False)
    if c1 is FALSE:
        return constrain(f0, c0)
    if c0 is FALSE:
        return constrain(f1, c1)
    return mk(v, constrain(f1, c1), constrain(f0, c0))


def paths(x, limit=3000):
    """(assignment tuple, leaf) of a diagram"""
    out = []

    def go(y, asg):
        if len(out) > limit:
            return
        if y.op != 'ite':
            out.append((asg, y))
            return
        go(y.args[1], asg + ((y.args[0], True),))
        go(y.args[2], asg + ((y.args[0], False),))
    go(x, ())
    return out


# ---------------------------------------------------------------------------------------------------- polynomials
def num(x):
    """exact rational of a numeric constant term, or None"""
    if is_const(x):
        v = x.args[0]
        if isinstance(v, bool):
            return None
        if isinstance(v, int):
            return Fraction(v)
        if isinstance(v, float):
            if v != v or v in (float('inf'), float('-inf')):
                return None
            q = Fraction(repr(v))
            if q.denominator > 10 ** 12:
                # 0.6666666666666666 stands for 2/3
                near = q.limit_denominator(999)
                if near and abs(near - q) <= abs(q) * Fraction(3, 10 ** 16):
                    return near
            return q
    return None


def from_num(q):
    if q.denominator == 1:
        return const(int(q))
    return Term('num', q)


def poly_of(x):
    """dict monomial -> Fraction; monomial = tuple of (base term, exponent Fraction|Term) sorted"""
    if x.op == 'poly':
        return dict((m, c) for c, m in x.args[0])
    if x.op == 'num':
        return {(): x.args[0]} if x.args[0] else {}
    q = num(x)
    if q is not None:
        return {(): q} if q else {}
    return {((x, Fraction(1)),): Fraction(1)}


def _ekey(e):
    return (0, float(e)) if isinstance(e, Fraction) else (1, e.uid)


def mono_mul(a, b):
    d = {}
    order = []
    for base, e in a + b:
        if base in d:
            d[base] = add_exp(d[base], e)
        else:
            d[base] = e
            order.append(base)
    return tuple(sorted(((k, v) for k, v in d.items() if not (isinstance(v, Fraction) and v == 0)),
                        key=lambda z: (z[0].uid, _ekey(z[1]))))


def add_exp(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a + b
    ta = from_num(a) if isinstance(a, Fraction) else a
    tb = from_num(b) if isinstance(b, Fraction) else b
    s = to_term(padd(poly_of(ta), poly_of(tb)))
    return term_exp(s)


def term_exp(s):
    if s.op == 'num':
        return s.args[0]
    q = num(s)
    return q if q is not None else s


def padd(a, b, k=Fraction(1)):
    d = dict(a)
    for m, c in b.items():
        d[m] = d.get(m, Fraction(0)) + k * c
        if d[m] == 0:
            del d[m]
    return d


def pmul(a, b):
    d = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mono_mul(m1, m2)
            d[m] = d.get(m, Fraction(0)) + c1 * c2
            if d[m] == 0:
                del d[m]
    return d


def exp_term(arg):
    return Term('call', Term('global', 'numpy.exp'), (arg,), ())


def frac_pow(q, e):
    """q**e when exactly representable"""
    if e.denominator == 1:
        n = e.numerator
        if n >= 0:
            return q ** n
        if q != 0:
            return Fraction(1) / (q ** (-n))
        return None
    if q > 0 and e.denominator == 2:
        import math
        a, b = math.isqrt(q.numerator), math.isqrt(q.denominator)
        if a * a == q.numerator and b * b == q.denominator:
            return frac_pow(Fraction(a, b), Fraction(e.numerator))
    return None


def ppow(a, e):
    """poly ** exponent (Fraction or Term)"""
    if isinstance(e, Fraction):
        if e == 0:
            return {(): Fraction(1)}
        if e == 1:
            return a
        if len(a) == 1:
            (m, c), = a.items()
            cp = frac_pow(c, e)
            if cp is not None:
                return {tuple(sorted(((b, scale_exp(x, e)) for b, x in m), key=lambda z: (z[0].uid, _ekey(z[1])))): cp}
            # keep the coefficient as an opaque base
            mm = tuple(sorted([(b, scale_exp(x, e)) for b, x in m] + [(from_num(c), e)],
                              key=lambda z: (z[0].uid, _ekey(z[1]))))
            return {mm: Fraction(1)}
        if e.denominator == 1 and 1 < e.numerator <= 4 and len(a) ** e.numerator <= 64:
            r = a
            for _ in range(e.numerator - 1):
                r = pmul(r, a)
            return r
        if not a:
            return {}
        # factor out the leading coefficient for integer powers
        lead = sorted(a.items(), key=lambda z: mono_key(z[0]))[0][1]
        cp = frac_pow(lead if (e.denominator == 1 or lead > 0) else Fraction(1), e)
        if cp is not None and (e.denominator == 1 or lead > 0):
            base = to_term({m: c / lead for m, c in a.items()})
            return {((base, e),): cp}
        return {((to_term(a), e),): Fraction(1)}
    if len(a) == 1:
        (m, c), = a.items()
        if c == 1:
            return {tuple(sorted(((b, scale_exp(x, e)) for b, x in m), key=lambda z: (z[0].uid, _ekey(z[1])))): c} \
                if m else {(): Fraction(1)}
    return {((to_term(a), e),): Fraction(1)}


def scale_exp(x, e):
    if isinstance(x, Fraction) and isinstance(e, Fraction):
        return x * e
    tx = from_num(x) if isinstance(x, Fraction) else x
    te = from_num(e) if isinstance(e, Fraction) else e
    return term_exp(to_term(pmul(poly_of(tx), poly_of(te))))


def mono_key(m):
    return tuple((b.uid, _ekey(e)) for b, e in m)


def to_term(p):
    if not p:
        return const(0)
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            return from_num(c)
        if c == 1 and len(m) == 1 and m[0][1] == Fraction(1) and isinstance(m[0][1], Fraction):
            return m[0][0]
    return Term('poly', tuple((c, m) for m, c in sorted(p.items(), key=lambda z: mono_key(z[0]))))


# Term keys need to distinguish Fractions
def is_seq(x):
    """syntactically a sequence/string: + is concatenation"""
    if x.op in ('list', 'tuple', 'fmt', 'join', 'concat', 'str'):
        return True
    if x.op == 'comp':
        return x.args[0] in ('list', 'gen', 'tuple')
    if x.op == 'const':
        return isinstance(x.args[0], str)
    if x.op == 'call' and x.args[0].op == 'global' and x.args[0].args[0] in (
            'builtins.list', 'builtins.tuple', 'builtins.sorted', 'builtins.str'):
        return True
    if x.op == 'call' and x.args[0].op in ('attr', 'method') and x.args[0].args[1] in SEQ_GETTERS:
        return True
    if x.op == 'attr' and x.args[1] in SEQ_ATTRS:
        return True
    return False


SEQ_GETTERS = {'get_reactants', 'get_products', 'get_species', 'get_reactions', 'split', 'strip', 'lower', 'upper',
               'get_name', 'get_stateless', 'get_state', 'get_latex', 'format', 'replace', 'rstrip', 'lstrip', 'tolist',
               'get_hpem_name'}
SEQ_ATTRS = {'_reactants', '_products', '_species', '_reactions', 'species', 'reactions'}


def is_setlike(x):
    if x.op == 'set' or x.op == 'union':
        return True
    if x.op == 'comp' and x.args[0] == 'set':
        return True
    if x.op == 'call' and x.args[0].op == 'global' and x.args[0].args[0] in ('builtins.set', 'builtins.frozenset'):
        return True
    if x.op == 'bin' and x.args[0] in ('BitAnd', 'BitOr', 'BitXor'):
        return True
    if x.op == 'bin' and x.args[0] == 'Sub':
        return is_setlike(x.args[1]) or is_setlike(x.args[2])
    if x.op == 'ite':
        return is_setlike(x.args[1]) or is_setlike(x.args[2])
    if x.op == 'attr' and x.args[1] in SET_ATTRS:
        return True
    return False


SET_ATTRS = {'_special_sp_ids', 'mandatory_attributes', 'special_species_names'}


# ---------------------------------------------------------------------------------------------------- normaliser
SIGNATURES = {
    'yaml.load': ('stream', 'Loader'), 'yaml.dump': ('data', 'stream'), 'numpy.sum': ('a', 'axis'),
    'numpy.max': ('a', 'axis'), 'numpy.min': ('a', 'axis'), 'numpy.mean': ('a', 'axis'), 'numpy.any': ('a', 'axis'),
    'numpy.all': ('a', 'axis'), 'numpy.array': ('object', 'dtype'), 'numpy.zeros': ('shape', 'dtype'),
    'numpy.ones': ('shape', 'dtype'), 'pandas.DataFrame': ('data', 'index', 'columns', 'dtype'),
    'pandas.Series': ('data', 'index', 'dtype'), 'numpy.linspace': ('start', 'stop', 'num'),
    'numpy.random.choice': ('a', 'size', 'replace', 'p'), 'numpy.amax': ('a', 'axis'), 'numpy.amin': ('a', 'axis'), 'numpy.swapaxes': ('a', 'axis1', 'axis2'),
}


def no_axis(x):
    """x without leading axes of length one, which broadcasting adds by itself"""
    while x.op == 'item' and x.args[1].op == 'tuple' and x.args[1].args[0] and x.args[1].args[0][0] is NONE and \
            all(is_full_slice(z) for z in x.args[1].args[0][1:]):
        x = x.args[0]
    if x.op == 'poly' and any(no_axis(b) is not b for m in x.args[0] for b, _ in m[1] if b.op == 'item'):
        r = {}
        for c, m in x.args[0]:
            one = {(): c}
            for b, e in m:
                one = pmul(one, {((no_axis(b), e),): Fraction(1)})
            r = padd(r, one)
        return to_term(r)
    return x


def is_full_slice(z):
    return z is NONE or z.op == 'slice' and all(w is NONE or w is None for w in z.args)


REDUCTIONS = {'numpy.sum': 'sum', 'numpy.max': 'max', 'numpy.min': 'min', 'numpy.mean': 'mean', 'numpy.amax': 'max',
              'numpy.amin': 'min', 'numpy.prod': 'prod', 'numpy.cumsum': 'cumsum', 'numpy.ravel': 'ravel'}


DUNDERS = {'__hash__': ('hash', 0), '__repr__': ('repr', 0), '__str__': ('str', 0), '__len__': ('len', 0), '__iter__': ('iter', 0),
           '__contains__': ('in', 1), '__getitem__': ('[]', 1)}
SAME_NAME = {
    'numpy.newaxis': NONE, 'numpy.pi': 'scipy.constants.pi', 'math.pi': 'scipy.constants.pi', 'math.inf': 'numpy.inf',
    'math.nan': 'numpy.nan', 'scipy.constants.elementary_charge': 'scipy.constants.e',
    'scipy.constants.Boltzmann': 'scipy.constants.k', 'scipy.constants.m_u': 'scipy.constants.atomic_mass',
    'scipy.constants.u': 'scipy.constants.atomic_mass', 'scipy.constants.electron_mass': 'scipy.constants.m_e',
    'scipy.constants.Avogadro': 'scipy.constants.N_A', 'numpy.Inf': 'numpy.inf', 'numpy.NaN': 'numpy.nan',
}


class Normaliser(object):
    def __init__(self, hook=None):
        self.memo = {}
        self.cmemo = {}
        self.hook = hook     # optional extra rewrite on leaf terms: term -> term | None

    def nf(self, t):
        r = self.memo.get(t.uid)
        if r is None:
            import sys
            if sys.getrecursionlimit() < 50000:
                sys.setrecursionlimit(50000)
            r = self._nf(t)
            self.memo[t.uid] = r
        return r

    def nft(self, a):
        if isinstance(a, Term):
            return self.nf(a)
        if isinstance(a, tuple):
            return tuple(self.nft(x) for x in a)
        return a

    def cond(self, t):
        """boolean diagram of a term used as a condition"""
        r = self.cmemo.get(t.uid)
        if r is None:
            r = self.cmemo[t.uid] = self._cond(t)
        return r

    def _cond(self, t):
        if t.op == 'not':
            return NOT(self.cond(t.args[0]))
        if t.op == 'and':
            r = TRUE
            for x in t.args[0]:
                r = AND(r, self.cond(x))
            return r
        if t.op == 'or':
            xs = merge_anys([x for x in t.args[0]])
            r = FALSE
            for x in xs:
                r = OR(r, self.cond(x))
            return r
        if t.op == 'nonempty':
            return self.cond(t.args[0])
        if t.op == 'any':
            return self.any(t.args[0], t.args[1], t.args[2])
        return self.truthy(self.nf(t))

    def truthy(self, x):
        """boolean diagram of a normalised value"""
        def leaf(y):
            if y is TRUE or y is FALSE:
                return y
            if y.op == 'const':
                try:
                    return TRUE if y.args[0] else FALSE
                except Exception:
                    return BDD(y)
            if y.op in ('list', 'tuple', 'set') and not any(z.op == 'star' for z in y.args[0]):
                return TRUE if y.args[0] else FALSE
            if y.op == 'dict' and not y.args[0]:
                return FALSE
            if y.op == 'sum' and y.args[0] is const(1):
                return self.gens_any(y.args[1])
            if y.op == 'comp':
                return self.gens_any(y.args[2])
            if y.op == 'fmt' and any(is_const(z) for z in y.args[0]):
                return TRUE
            if y.op == 'call' and y.args[0].op == 'global' and y.args[0].args[0] in (
                    'builtins.list', 'builtins.tuple', 'builtins.sorted', 'builtins.len') and len(y.args[1]) == 1:
                return self.truthy(y.args[1][0])
            if y.op == 'dyn_cond':
                return y.args[0]
            if y.op == 'poly' or is_number_call(y):
                return NOT(self.cmp_leaf('==', y, const(0)))
            return BDD(y)
        return lift(leaf, [x])

    def gens_any(self, gens):
        c = TRUE
        for core, cc in reversed(gens):
            c = self.mk_anyn(AND(cc, c), core, 0)
        return c

    def any(self, cond, core, k):
        return self.mk_anyn(self.cond(cond), self.nf(core), k)

    def mk_anyn(self, c, core, k=0):
        """any(c for elem in core), c and core normalised"""
        if c is FALSE:
            return FALSE
        if core.op == 'ite':
            return lift(lambda x: self.mk_anyn(c, x, k) if x.op != 'ite' else x, [core])
        # parts that do not depend on the element
        bound = Term('elem', core, k)
        free = [a for a in atoms_of(c) if not self.depends(a, core)]
        if free:
            v = free[0]
            return ITE(BDD(v), self.mk_anyn(assume(c, v, True), core, k), self.mk_anyn(assume(c, v, False), core, k))
        if core.op in ('list', 'tuple', 'set') and not any(z.op == 'star' for z in core.args[0]):
            r = FALSE
            for z in core.args[0]:
                r = OR(r, self.renorm(subst(c, {bound: z})))
            return r
        if core.op == 'dict' and not contains_idx(c, core):
            r = FALSE
            for z, v in core.args[0]:
                r = OR(r, self.renorm(subst(c, {bound: z})) if z.op != 'dstar' else
                       self.mk_anyn(self.renorm(subst(c, {bound: Term('elem', v, k)})), v, k))
            return r
        if core.op == 'comp' and core.args[0] in ('list', 'set', 'gen', 'tuple'):
            # any over a comprehension: substitute the element
            elt, gens = core.args[1], core.args[2]
            r = self.renorm(subst(c, {bound: elt})) if not contains_idx(c, core) else None
            if r is not None:
                for co, cc in reversed(gens):
                    r = self.mk_anyn(AND(cc, r), co, 0)
                return r
        if core.op == 'call' and core.args[0].op == 'global' and core.args[0].args[0] in (
                'builtins.sorted', 'builtins.list', 'builtins.tuple', 'builtins.reversed') and len(core.args[1]) >= 1 \
                and not contains_idx(c, core):
            inner = core.args[1][0]
            return self.mk_anyn(self.renorm(subst(c, {bound: Term('elem', inner, k)})), inner, k)
        if core.op in ('concat', 'union') and not contains_idx(c, core):
            r = FALSE
            for part in core.args[0]:
                r = OR(r, self.mk_anyn(self.renorm(subst(c, {bound: Term('elem', part, k)})), part, k))
            return r
        if c is TRUE:
            return self.truthy(core)
        # membership written as a search:  any(elem == y) -> y in core
        if c.op == 'ite' and c.args[1] is TRUE and c.args[2] is FALSE and c.args[0].op == 'cmp' and \
                c.args[0].args[0] == '==':
            a, b = c.args[0].args[1], c.args[0].args[2]
            for x, y in ((a, b), (b, a)):
                if x is bound and not self.depends(y, core):
                    return self.mk_in(y, core)
        return BDD(Term('any', c, core, k))

    @staticmethod
    def depends(a, core):
        for x in walk(a):
            if x.op in ('elem', 'idx') and x.args[0] is core:
                return True
        return False

    def renorm(self, x):
        return self.renf(x)

    def renf(self, x):
        """normalise a term whose parts are normalised (after substitution)"""
        return Renorm(self).go(x)

    # -- constructors on normalised arguments
    def build(self, op, args):
        m = getattr(self, 'b_' + op, None)
        if m is not None:
            return m(*args)
        if op in ('attr', 'item', 'un', 'fmtspec', 'fmtconv', 'star', 'elem', 'idx'):
            return self.generic_lift(op, args)
        return self.generic_lift(op, args)

    def b_mask(self, x):
        return masked(x)

    NOLIFT = {'trybody', 'mask', 'comp', 'any', 'sum', 'loop', 'loopsys', 'closure', 'mu', 'lam', 'first', 'acc'}

    def generic_lift(self, op, args):
        flat = []

        def collect(a):
            if isinstance(a, Term):
                flat.append(a)
            elif isinstance(a, tuple):
                for x in a:
                    collect(x)
        for a in args:
            collect(a)

        def put(vals):
            it = iter(vals)

            def go(a):
                if isinstance(a, Term):
                    return next(it)
                if isinstance(a, tuple):
                    return tuple(go(x) for x in a)
                return a
            return tuple(go(a) for a in args)
        if op in self.NOLIFT:
            return Term(op, *args)
        ats = []
        for x in flat:
            atoms_of(x, ats)
        if not ats or len(ats) > MAXLIFT:
            return self.leaf(op, args)
        return lift(lambda *v: self.leaf(op, put(v)), flat)

    def leaf(self, op, args):
        if op == 'upd':
            r = self.upd_leaf(*args)
            if r is not None:
                return r
        elif op == 'dict':
            return self.dict_leaf(args[0])
        t = Term(op, *args)
        if self.hook is not None:
            r = self.hook(t, self)
            if r is not None:
                return r
        return t

    def upd_leaf(self, old, name, args):
        """a local container changed in place, as the expression that gives the same contents"""
        pos = [a for a in args if isinstance(a, Term)]
        kws = [(a[1], a[2]) for a in args if not isinstance(a, Term)]
        if name == 'sort' and not pos and (is_listlike(old) or old.op in ('attr', 'item', 'upd', 'call') and
                                           {k for k, _ in kws} <= {'key', 'reverse'}):
            return self.b_call(Term('global', 'builtins.sorted'), (old,), tuple(kws))
        if name in ('append', 'extend') and is_listlike(old) and len(pos) == 1 and not kws:
            x = Term('list', (pos[0],)) if name == 'append' else pos[0]
            if is_listlike(x) or name == 'extend' and x.op in ('call', 'attr', 'item', 'elem', 'method'):
                return self.concat(old, x)
        if name == 'extend' and len(pos) == 1 and not kws and old.op == 'attr':
            return self.concat(old, self.b_call(Term('global', 'builtins.list'), (pos[0],), ()))
        if name in ('add', 'update', 'discard', 'difference_update') and is_set(old) and not kws:
            r = old
            for x in pos:
                x = Term('set', (x,)) if name in ('add', 'discard') else self.mk_set(x)
                r = self.set_op('Sub' if 'd' == name[0] else 'BitOr', r, x)
            return r
        if name == 'pop' and len(pos) == 1 and not kws:
            return Term('upd', old, 'delitem', tuple(args))
        if name == 'update' and (is_dict(old) or kws and not pos or pos and all(is_dict(x) for x in pos)):
            r = ((Term('dstar'), old),)
            for x in pos:
                r += ((Term('dstar'), x),)
            for k, v in kws:
                r += ((Term('dstar'), v) if k is None or k == '**' else (const(k), v),)
            return self.dict_leaf(r)
        if name == 'setitem' and is_dict(old) and len(pos) == 2 and not kws and is_const(pos[0]):
            return self.dict_leaf(((Term('dstar'), old), (pos[0], pos[1])))
        return None

    def dict_leaf(self, entries):
        out = []

        def add(k, v):
            if k.op == 'dstar':
                while v.op in ('copyof', 'dictcopy'):
                    v = v.args[0]
                if v.op == 'dict':
                    for p, q in v.args[0]:
                        add(p, q)
                    return
                out.append((k, v))
                return
            for i, (p, _) in enumerate(out):
                if p is k:
                    if all(z.op == 'const' for z, _ in out[i:]):
                        out[i] = (k, v)
                        return
            out.append((k, v))
        for k, v in entries:
            add(k, v)
        if len(out) == 1 and out[0][0].op == 'dstar' and entries and len(entries) > 1 and is_dict(out[0][1]):
            return out[0][1]
        return Term('dict', tuple(out))

    def _nf(self, t):
        op, a = t.op, t.args
        if op in ('const', 'param', 'self', 'global', 'classref', 'obj', 'mu', 'closure', 'new0', 'never', 'num'):
            if op == 'global' and a[0] in SAME_NAME:
                r = SAME_NAME[a[0]]
                return Term('global', r) if isinstance(r, str) else r
            if op == 'const' and isinstance(a[0], float):
                q = num(t)
                return from_num(q) if q is not None else t
            return t
        if op == 'ite':
            return ITE(self.cond(a[0]), self.nf(a[1]), self.nf(a[2]))
        if op in ('not', 'and', 'or', 'any', 'nonempty'):
            return self.cond(t)
        if op == 'comp':
            return self.b_comp(a[0], self.nf(a[1]), tuple((self.nf(c), self.cond(g)) for c, g in a[2]))
        if op == 'loopsys':
            h, core, test, vs, bs = a
            return self.b_loop(h, self.nf(core), self.cond(test), tuple((self.nf(o), self.nf(f)) for o, f in vs),
                               tuple((self.cond(c), tuple(self.nf(x) for x in xs)) for c, xs in bs))
        if op == 'acc':
            gens = tuple((self.nf(c), self.cond(g)) for c, g in a[1])
            return self.b_acc(self.nf(a[0]), gens, self.nf(a[2]), self.nf(a[3]))
        return self.build(op, tuple(self.nft(x) for x in a))

    def b_loop(self, h, core, test, vs, bs, again=True):
        """canonical system of a loop: unused and constant variables dropped, the others in an order that does not depend
        on their names"""
        mus = [Term('mu', h, i) for i in range(len(vs))]
        if not bs and test is TRUE and len(vs) <= 2:
            r = self.uniq_loop(core, vs, mus) or (self.union_loop(core, vs[0], mus[0]) if len(vs) == 1 else None)
            if r is not None:
                return r
        same = {}
        for i, (o, f) in enumerate(vs):
            if f is mus[i] and all(xs[i] is mus[i] for _, xs in bs):
                same[mus[i]] = o
        if mus[0] in same:
            return vs[0][0]
        index = {m: i for i, m in enumerate(mus)}
        parts = [(f,) + tuple(xs[i] for _, xs in bs) for i, (_, f) in enumerate(vs)]
        common = (test,) + tuple(c for c, _ in bs)
        inner = max([y.args[0] for ps in parts + [common] for x in ps for y in walk(x) if y.op == 'loopsys'] or [0])

        def used(xs, order):
            for x in xs:
                for y in sorted((y for y in walk(x) if y in index and y not in same), key=lambda y: y.uid):
                    if index[y] not in order:
                        order.append(index[y])
        order = [0]
        used(common, order)
        for i in order:
            used(parts[i], order)
        if len(order) > 2:
            col = {mus[i]: 1 for i in order}
            col[mus[0]] = 0
            for _ in range(2):
                sh = Shape(col)
                cc = {i: sh(common) for i in (0,)}
                col = {mus[i]: hash((i == 0, sh(vs[i][0]), sh(parts[i]), cc[0])) for i in order}
            # what they start from comes first: an edit of the body does not change the order
            sh = Shape({m: 1 for m in mus})
            rest = sorted(order[1:], key=lambda i: (hash(sh(vs[i][0])), col[mus[i]]))
            order = [0] + rest
        if order == list(range(len(vs))) and h == inner + 1 and not same:
            return Term('loopsys', h, core, test, vs, bs)
        if not again:
            return Term('loopsys', h, core, test, vs, bs)
        mp = dict(same)
        h2 = inner + 1
        for n, i in enumerate(order):
            mp[mus[i]] = Term('mu', h2, n)

        def ren(x):
            y = subst(x, mp)
            return x if y is x else self.renorm(y)
        return self.b_loop(h2, core, ren(test), tuple((vs[i][0], ren(vs[i][1])) for i in order),
                           tuple((ren(c), tuple(ren(xs[i]) for i in order)) for c, xs in bs), bool(same))

    TOTAL = {'builtins.' + n for n in ('type', 'isinstance', 'len', 'str', 'repr', 'list', 'tuple', 'set', 'dict', 'bool', 'id',
                                       'range', 'enumerate', 'zip', 'print', 'sorted', 'any', 'all', 'hasattr', 'callable')}

    def uniq_loop(self, core, vs, mus):
        """for x in core: if key not in seen: out.append(key)   with seen = out, or seen collecting the keys as well"""
        (o, f), seen = vs[0], mus[-1]
        if o.op != 'list' or o.args[0]:
            return None
        ins = [a for a in atoms_of(f) if a.op == 'cmp' and a.args[0] == 'in' and a.args[2] is seen]
        if len(ins) != 1:
            return None
        key = ins[0].args[1]
        if len(vs) == 2:
            o2, f2 = vs[1]
            if not (o2.op == 'set' and not o2.args[0] or o2.op == 'list' and not o2.args[0]):
                return None
        if assume(f, ins[0], True) is not mus[0]:
            return None
        f = assume(f, ins[0], False)
        guard = TRUE
        if f.op == 'ite':
            guard = NOT(self.leaf_cond(f, mus[0]))
            ls = [z for z in ite_leaves(f) if z is not mus[0]]
            if len(set(ls)) != 1:
                return None
            f = ls[0]
        if f is not Term('upd', mus[0], 'append', (key,)):
            return None
        if len(vs) == 2:
            full = AND(guard, NOT(BDD(ins[0])))
            add = [Term('upd', seen, n, (key,)) for n in ('add', 'append')]
            if not any(f2 is ITE(full, x, seen) or f2 is ITE(guard, x, seen) for x in add):
                return None
        if any(x in mus for t in (key, guard) for x in walk(t)):
            return None
        return self.mk_uniq(self.b_comp('list', key, ((core, guard),)))

    def union_loop(self, core, var, mu):
        """for x in core: out |= a | b  ->  {y for x in core for y in a} | {y for x in core for y in b}"""
        o, f = var
        if not is_set(o):
            return None
        r = o
        for z in sorted(set(ite_leaves(f)), key=lambda t: t.uid):
            if z is mu:
                continue
            if z.op != 'union' or mu not in z.args[0]:
                return None
            c = self.leaf_cond(f, z)
            if mu in set(walk(c)):
                return None
            for part in z.args[0]:
                if part is mu:
                    continue
                if mu in set(walk(part)):
                    return None
                if part.op == 'set':
                    for e in part.args[0]:
                        r = lift(lambda p, q: self.set_op('BitOr', p, q), [r, self.b_comp('set', e, ((core, c),))])
                    continue
                x = self.b_comp('set', Term('elem', part, 0), ((core, c), (part, TRUE)))
                r = lift(lambda p, q: self.set_op('BitOr', p, q), [r, x])
        return r

    def leaf_cond(self, f, leaf):
        """when the case distinction f gives leaf"""
        if f.op != 'ite':
            return TRUE if f is leaf else FALSE
        return ITE(BDD(f.args[0]), self.leaf_cond(f.args[1], leaf), self.leaf_cond(f.args[2], leaf))

    def b_trybody(self, vals):
        """what may fail in a try body: the set of reads and calls it evaluates, however they are arranged"""
        out, seen, stack = set(), set(), [v for v in vals] if isinstance(vals, tuple) else []
        if not isinstance(vals, tuple):
            return Term('trybody', vals)
        while stack:
            x = stack.pop()
            if x.uid in seen:
                continue
            seen.add(x.uid)
            stack.extend(kids(x))
            if x.op in ('item', 'float', 'int', 'first') or \
                    x.op == 'call' and not (x.args[0].op == 'global' and x.args[0].args[0] in self.TOTAL):
                if not any(y.op in ('mu', 'cur', 'loopsys', 'bound') for y in walk(x)):
                    out.add(x)
        return Term('trybody', tuple(sorted(out, key=lambda t: t.uid)))

    def b_acc(self, init, gens, key, w):
        entries = ()
        if init.op == 'accn':
            init, entries = init.args
        elif init.op == 'call' and init.args[0].op == 'global' and init.args[0].args[0] in (
                'collections.Counter', 'collections.defaultdict', 'collections.OrderedDict', 'builtins.dict') and \
                (not init.args[1] or init.args[0].args[0] == 'collections.defaultdict'):
            init = Term('dict', ())
        new = []
        # iterate comprehension cores away
        c = self.b_comp('list', Term('tuple', (key, w)), gens)
        if c.op == 'comp' and c.args[1].op == 'tuple':
            new.append((c.args[2], c.args[1].args[0][0], c.args[1].args[0][1]))
        else:
            new.append((gens, key, w))
        es = sorted(entries + tuple(new), key=lambda z: (z[1].uid, z[2].uid, [x.uid for g in z[0] for x in g]))
        return Term('accn', init, tuple(es))

    # -- comparisons
    def b_cmp(self, op, x, y):
        return lift(lambda p, q: self.cmp_leaf(op, p, q), [x, y]) if len(atoms_of(x, atoms_of(y))) <= MAXLIFT + 2 \
            else BDD(Term('cmp', op, x, y))

    def cmp_leaf(self, op, x, y):
        if x.op in ('const', 'num') and y.op in ('const', 'num'):
            v, w = cval(x), cval(y)
            try:
                r = {'==': lambda: v == w, '<': lambda: v < w, '<=': lambda: v <= w,
                     'is': lambda: v is w or (v == w and type(v) is type(w)),
                     'in': lambda: v in w}[op]()
                return TRUE if r else FALSE
            except Exception:
                pass
        if x is y and op in ('==', '<=', 'is'):
            return TRUE
        if op == 'is':
            if is_const(y, True) or is_const(x, True):
                pass
            for p, q in ((x, y), (y, x)):
                if is_const(q, None) and definitely_not_none(p):
                    return FALSE
            if y.uid < x.uid and not is_const(y, None):
                x, y = y, x
            return BDD(Term('cmp', 'is', x, y))
        if op == 'in':
            return self.mk_in(x, y)
        if op == '==':
            if x.op in ('tuple', 'list') and y.op == x.op and len(x.args[0]) == len(y.args[0]):
                r = TRUE
                for p, q in zip(x.args[0], y.args[0]):
                    r = AND(r, self.b_cmp('==', p, q))
                return r
            nx, ny = is_num(x), is_num(y)
            if (nx or ny) and not (x.op == 'const' and not nx) and not (y.op == 'const' and not ny):
                d = padd(poly_of(x), poly_of(y), Fraction(-1))
                if not d:
                    return TRUE
                if len(d) > 1 or () not in d:
                    # sign- and scale-normalise  d == 0
                    lead = sorted(d.items(), key=lambda z: mono_key(z[0]))[-1][1]
                    d = {m: c / lead for m, c in d.items()}
                    c0 = d.pop((), Fraction(0))
                    if len(d) == 1 and list(d.values())[0] == 1:
                        lhs = to_term(d)
                        return self.count_cmp('==', lhs, -c0)
                    d[()] = c0
                    if c0 == 0:
                        d.pop(())
                    return BDD(Term('cmp', '==', to_term(d), const(0)))
                return FALSE
            if is_const(x) and not is_const(y) or (is_const(x) == is_const(y) and y.uid < x.uid):
                x, y = y, x
            return BDD(Term('cmp', '==', x, y))
        if op in ('<', '<='):
            if op == '<=' and (is_setlike(x) or is_setlike(y)):
                # subset
                b = Term('elem', x, 0)
                return NOT(self.mk_anyn(NOT(self.mk_in(b, y)), x, 0))
            d = padd(poly_of(y), poly_of(x), Fraction(-1))   # 0 (op) d
            c0 = d.get((), Fraction(0))
            rest = {m: c for m, c in d.items() if m}
            if not rest:
                return TRUE if (c0 > 0 or (op == '<=' and c0 == 0)) else FALSE
            lead = abs(sorted(rest.items(), key=lambda z: mono_key(z[0]))[0][1])
            rest = {m: c / lead for m, c in rest.items()}
            c0 = c0 / lead
            first = sorted(rest.items(), key=lambda z: mono_key(z[0]))[0][1]
            # canonical: lead coefficient positive;  L >(=) b  or  L <(=) b
            if first > 0:
                # 0 < L + c0  <=> L > -c0   ;  as not (L <= -c0)
                L, b, strict = to_term(rest), -c0, op == '<'
                r = self.ineq(L, b, '<=' if strict else '<')
                return NOT(r)
            L = to_term({m: -c for m, c in rest.items()})
            return self.ineq(L, c0, op)     # 0 < -L + c0  <=> L < c0
        return BDD(Term('cmp', op, x, y))

    def ineq(self, L, b, op):
        """diagram of  L op b, op in < <= ;  lengths are non-negative integers"""
        if L.op == 'poly' and b == 0:
            sign = self.surplus(L)          # L is  len(xs) - len(set(xs))  or its negative
            if sign:
                if op == '<' and sign > 0 or op == '<=' and sign < 0:
                    return FALSE if op == '<' else TRUE
                eq = self.cmp_leaf('==', L, const(0))
                return eq if op == '<=' else NOT(eq)
        if is_len(L):
            if b.denominator == 1:
                n = int(b)
                if op == '<':
                    n, op = n - 1, '<='
                if n < 0:
                    return FALSE
                if n == 0:
                    return NOT(self.truthy(L))
                return BDD(Term('cmp', '<=', L, const(n)))
        return BDD(Term('cmp', op, L, from_num(b)))

    def surplus(self, L):
        p = poly_of(L)
        if len(p) != 2 or sum(p.values()) != 0 or any(len(m) != 1 or m[0][1] != 1 for m in p):
            return 0
        (m1, c1), (m2, c2) = p.items()
        for x, y, c in ((m1[0][0], m2[0][0], c1), (m2[0][0], m1[0][0], c2)):
            if not (y.op == 'call' and y.args[0] is Term('global', 'builtins.len') and len(y.args[1]) == 1):
                continue
            s = y.args[1][0]
            if s.op == 'comp' and s.args[0] == 'set' and self.sum_of(const(1), s.args[2]) is x:
                return 1 if c > 0 else -1
        return 0

    def count_cmp(self, op, L, b):
        if is_len(L):
            if b == 0:
                return NOT(self.truthy(L))
            if b < 0 or b.denominator != 1:
                return FALSE
        return BDD(Term('cmp', '==', L, from_num(b)))

    def mk_in(self, x, y):
        if y.op == 'ite' or x.op == 'ite':
            return lift(lambda p, q: self.mk_in(p, q), [x, y])
        if y.op in ('list', 'tuple', 'set') and not any(z.op == 'star' for z in y.args[0]):
            r = FALSE
            for z in y.args[0]:
                r = OR(r, self.b_cmp('==', x, z))
            return r
        if y.op == 'dict':
            r = FALSE
            for z, v in y.args[0]:
                r = OR(r, self.mk_in(x, v) if z.op == 'dstar' else self.b_cmp('==', x, z))
            return r
        if y.op == 'comp' and y.args[0] in ('list', 'set', 'gen', 'tuple', 'dict'):
            elt, gens = y.args[1], y.args[2]
            if y.args[0] == 'dict':
                elt = elt.args[0][0] if elt.op == 'tuple' else elt
            if len(gens) == 1:
                core, cc = gens[0]
                e = Term('elem', core, 0)
                if elt is e:
                    if x is e:
                        return cc
                    return AND(self.mk_in(x, core), self.renorm(subst(cc, {e: x}))) \
                        if not contains_idx(cc, core) else BDD(Term('cmp', 'in', x, y))
                if self.depends(x, core):
                    if x is elt:
                        pass
                    else:
                        # rename the bound element
                        e1 = Term('elem', core, 1)
                        elt2, cc2 = subst(elt, {e: e1}), subst(cc, {e: e1})
                        return self.mk_anyn(AND(cc2, self.b_cmp('==', elt2, x)), core, 1)
                    return BDD(Term('cmp', 'in', x, y))
                return self.mk_anyn(AND(cc, self.b_cmp('==', elt, x)), core, 0)
            return BDD(Term('cmp', 'in', x, y))
        if y.op == 'bin' and y.args[0] in SETOPS:
            a, b = self.mk_in(x, y.args[1]), self.mk_in(x, y.args[2])
            return {'Sub': lambda: AND(a, NOT(b)), 'BitAnd': lambda: AND(a, b), 'BitOr': lambda: OR(a, b),
                    'BitXor': lambda: ITE(a, NOT(b), b)}[y.args[0]]()
        if y.op == 'union' or y.op == 'concat':
            r = FALSE
            for z in y.args[0]:
                r = OR(r, self.mk_in(x, z))
            return r
        if y.op == 'poly' and len(y.args[0]) == 2 and is_setlike_poly(y):
            (c1, m1), (c2, m2) = y.args[0]
            pos = m1 if c1 > 0 else m2
            neg = m2 if c1 > 0 else m1
            return AND(self.mk_in(x, pos[0][0]), NOT(self.mk_in(x, neg[0][0])))
        if y.op == 'call' and y.args[0].op == 'global' and y.args[0].args[0] in (
                'builtins.list', 'builtins.tuple', 'builtins.set', 'builtins.frozenset', 'builtins.sorted',
                'builtins.iter', 'builtins.dict') and len(y.args[1]) == 1:
            return self.mk_in(x, y.args[1][0])
        if y.op == 'call' and y.args[0].op == 'attr' and y.args[0].args[1] in ('keys', 'copy', 'tolist') and \
                not y.args[1]:
            return self.mk_in(x, y.args[0].args[0])
        if x.op == 'elem' and x.args[0] is y:
            return TRUE
        return BDD(Term('cmp', 'in', x, y))

    # -- arithmetic
    def mask_test(self, which, x):
        """any / all over an elementwise comparison of an array made from a list"""
        arrays = [a for a in {z for v in atoms_of(x) for z in v.args[1:]} if is_array_of_list(a)]
        if len(arrays) != 1 or any(v.op != 'cmp' or v.args[0] not in ('<', '<=', '==') or arrays[0] not in v.args[1:]
                                   for v in atoms_of(x)):
            return None
        xs = arrays[0].args[1][0]
        e = Term('elem', xs, 0)
        b = self.regions(x, arrays[0], e)
        return self.mk_anyn(b, xs) if which == 'any' else NOT(self.mk_anyn(NOT(b), xs))

    def regions(self, x, arr, e):
        """x over the values of arr, told by what holds below, at and above each bound"""
        vs = atoms_of(x)
        bounds = [[num(z) for z in v.args[1:] if z is not arr][0] for v in vs]
        if any(b is None for b in bounds) or any(v.args[1] is not arr and v.args[0] != '==' for v in vs):
            return self.renorm(subst(x, {arr: e}))
        bs = sorted(set(bounds))
        points = [bs[0] - 1]
        for i, b in enumerate(bs):
            points += [b, (b + bs[i + 1]) / 2 if i + 1 < len(bs) else b + 1]

        def at(p):
            r = x
            for v, b in zip(vs, bounds):
                r = assume(r, v, p < b if v.args[0] == '<' else p <= b if v.args[0] == '<=' else p == b)
            return r
        val = [at(p) for p in points]
        if all(v is val[0] for v in val):
            return val[0]
        cs = [const(int(b) if b == int(b) else float(b)) for b in bs]
        simple = {}
        for i, c in enumerate(cs):
            for op in ('<', '<=', '=='):
                t = self.cmp_leaf(op, e, c)
                k = tuple({'<': j <= 2 * i, '<=': j <= 2 * i + 1, '==': j == 2 * i + 1}[op] for j in range(len(points)))
                simple.setdefault(k, t)
                simple.setdefault(tuple(not z for z in k), NOT(t))
        k = tuple(v is TRUE for v in val)
        if k in simple:
            return simple[k]
        r = val[-1]
        for i in range(len(cs) - 1, -1, -1):
            r = ITE(self.cmp_leaf('<', e, cs[i]), val[2 * i], ITE(self.cmp_leaf('==', e, cs[i]), val[2 * i + 1], r))
        return r

    def b_bin(self, op, x, y):
        if op in ('Add', 'BitOr', 'Mult', 'BitAnd') and is_mask(x) and is_mask(y):
            return OR(x, y) if op in ('Add', 'BitOr') else AND(x, y)
        if len(atoms_of(x, atoms_of(y))) > MAXLIFT + (3 if op in ('Add', 'Sub', 'Mult', 'Div') else 0):
            if op in ('Add', 'Sub', 'Mult') and not any(
                    is_seq(z) or is_setlike(z) or is_const(z, None) or z.op == 'const' and isinstance(z.args[0], str)
                    for w in (x, y) for z in ite_leaves(w)):
                return self.bin_leaf(op, x, y)
            return Term('bin', op, x, y)
        return lift(lambda p, q: self.bin_leaf(op, p, q), [x, y])

    def bin_leaf(self, op, x, y):
        if op in ('BitAnd', 'BitOr', 'BitXor') and x.op == y.op == 'const' and \
                isinstance(x.args[0], bool) and isinstance(y.args[0], bool):
            a, b = x is TRUE, y is TRUE
            return const({'BitAnd': a and b, 'BitOr': a or b, 'BitXor': a != b}[op])
        if op in ('BitAnd', 'BitOr', 'BitXor') or (op == 'Sub' and (is_setlike(x) or is_setlike(y))):
            return self.set_op(op, x, y)
        if op == 'Add' and (is_seq(x) or is_seq(y)):
            return self.concat(x, y)
        if op == 'Mult' and (is_seq(x) or is_seq(y)):
            return Term('repeat', x, y) if is_seq(x) else Term('repeat', y, x)
        if x.op == 'const' and isinstance(x.args[0], str) or y.op == 'const' and isinstance(y.args[0], str):
            return Term('bin', op, x, y)
        if is_const(x, None) or is_const(y, None):
            return Term('bin', op, x, y)
        x, y = no_axis(boolnum(x)), no_axis(boolnum(y))
        if op == 'Add':
            return to_term(padd(poly_of(x), poly_of(y)))
        if op == 'Sub':
            return to_term(padd(poly_of(x), poly_of(y), Fraction(-1)))
        if op == 'Mult':
            return to_term(pmul(poly_of(x), poly_of(y)))
        if op == 'Div':
            py = poly_of(y)
            if not py:
                return Term('bin', op, x, y)
            return to_term(pmul(poly_of(x), ppow(py, Fraction(-1))))
        if op == 'Pow':
            e = y.args[0] if y.op == 'num' else (num(y) if num(y) is not None else y)
            return to_term(ppow(poly_of(x), e))
        return Term('bin', op, x, y)

    def concat(self, x, y):
        parts = []
        for z in (x, y):
            if z.op == 'concat':
                parts.extend(z.args[0])
            elif z.op == 'fmt' or z.op == 'const' and isinstance(z.args[0], str):
                parts.append(z)
            else:
                parts.append(z)
        if all(z.op == 'fmt' or z.op == 'const' and isinstance(z.args[0], str) for z in parts):
            from .interp import mk_fmt
            return mk_fmt(parts)
        if any(z.op == 'fmt' or z.op == 'const' and isinstance(z.args[0], str) or z.op == 'join' for z in parts):
            from .interp import mk_fmt
            return mk_fmt(parts)
        if any(z.op == 'list' for z in parts):
            parts = [self.iterated(z) for z in parts]
        out = []
        for z in parts:
            if out and z.op in ('list', 'tuple') and out[-1].op == z.op:
                out[-1] = Term(z.op, out[-1].args[0] + z.args[0])
            elif z.op in ('list', 'tuple') and not z.args[0]:
                continue
            else:
                out.append(z)
        if len(out) == 1:
            return out[0]
        if not out:
            return x
        return Term('concat', tuple(out))

    def iterated(self, x):
        """what list(x) is made from, where only the items count"""
        if x.op == 'call' and x.args[0].op == 'global' and x.args[0].args[0] in ('builtins.list', 'builtins.tuple') and \
                len(x.args[1]) == 1 and not x.args[2]:
            return self.iterated(x.args[1][0])
        if x.op == 'comp' and x.args[0] == 'list' and len(x.args[2]) == 1 and x.args[2][0][1] is TRUE and \
                x.args[1] is Term('elem', x.args[2][0][0], 0) and x.args[2][0][0].op in ('call', 'attr', 'item', 'elem', 'method'):
            return x.args[2][0][0]
        return x

    def set_op(self, op, x, y):
        if op == 'Sub':
            if y.op == 'set' and not y.args[0]:
                return x
            return self.b_comp('set', Term('elem', x, 0), ((x, NOT(self.mk_in(Term('elem', x, 0), y))),))
        if op == 'BitAnd':
            if y.uid < x.uid and not (x.op == 'comp') or (y.op in ('const',)):
                x, y = y, x
            return self.b_comp('set', Term('elem', x, 0), ((x, self.mk_in(Term('elem', x, 0), y)),)) \
                if is_setlike(x) or is_setlike(y) else Term('bin', op, *sorted((x, y), key=lambda z: z.uid))
        if op == 'BitOr':
            if not (is_setlike(x) or is_setlike(y)):
                return Term('bin', op, *sorted((x, y), key=lambda z: z.uid))
            parts = []
            for z in (x, y):
                for w in (z.args[0] if z.op == 'union' else (z,)):
                    while w.op == 'copyof':
                        w = w.args[0]
                    if w not in parts and not (w.op == 'set' and not w.args[0]):
                        parts.append(w)
            lits = [w for w in parts if w.op == 'set']
            parts = [w for w in parts if w.op != 'set']
            if lits:
                elts = []
                for w in lits:
                    for e in w.args[0]:
                        if e not in elts:
                            elts.append(e)
                parts.append(Term('set', tuple(sorted(elts, key=lambda z: z.uid))))
            parts.sort(key=lambda z: z.uid)
            if not parts:
                return Term('set', ())
            if len(parts) == 1:
                return parts[0]
            return Term('union', tuple(parts))
        return Term('bin', op, *sorted((x, y), key=lambda z: z.uid))

    def b_un(self, op, x):
        def leaf(p):
            if op == 'USub':
                return to_term({m: -c for m, c in poly_of(boolnum(p)).items()})
            if op == 'UAdd':
                return p
            if op == 'Invert':
                if p.op == 'cmpv':
                    return p
            return Term('un', op, p)
        return lift(leaf, [x])

    def b_set(self, xs):
        out = []
        for x in xs:
            if x not in out:
                out.append(x)
        return Term('set', tuple(sorted(out, key=lambda z: z.uid)))

    def b_fmt(self, parts):
        from .interp import mk_fmt
        return self.generic_lift0('fmt', parts, lambda *v: mk_fmt([strip_str(z) for z in v]))

    def generic_lift0(self, op, xs, fn):
        ats = []
        for x in xs:
            atoms_of(x, ats)
        if not ats:
            return fn(*xs)
        if len(ats) > MAXLIFT:
            return Term(op, tuple(xs))
        return lift(fn, list(xs))

    # -- comprehensions
    def b_comp(self, kind, elt, gens):
        if kind == 'gen':
            kind = 'list'
        elt, gens = self.join_gens(elt, gens)
        if kind == 'list' and len(gens) == 1 and gens[0][0].op == 'concat' and not contains_idx(elt, gens[0][0]) and \
                not contains_idx(gens[0][1], gens[0][0]) and all(
                    z.op in ('list', 'comp', 'call', 'attr', 'item', 'elem', 'method') for z in gens[0][0].args[0]):
            # over one list after another
            core, cc = gens[0]
            r = None
            for z in core.args[0]:
                m = {Term('elem', core, 0): Term('elem', z, 0)}
                part = self.b_comp('list', self.renorm(subst(elt, m)), ((z, self.renorm(subst(cc, m))),))
                r = part if r is None else self.b_bin('Add', r, part)
            return r
        # flatten generators that range over comprehensions
        out = []
        mapping = {}
        for core, cc in gens:
            if mapping:
                core = self.renorm(subst(core, mapping))
                cc = self.renorm(subst(cc, mapping))
            core = self.strip_core(core, kind)
            k = 0
            if core.op == 'comp' and core.args[0] in ('list', 'set', 'tuple') and \
                    not any(contains_idx(z, core) for z in [elt, cc] + [c for _, c in gens] + [c for c, _ in gens]) \
                    and (core.args[0] != 'set' or kind == 'set'):
                inner_elt, inner_gens = core.args[1], core.args[2]
                mapping[Term('elem', core, k)] = inner_elt
                cc2 = self.renorm(subst(cc, {Term('elem', core, k): inner_elt}))
                ig = list(inner_gens)
                ig[-1] = (ig[-1][0], AND(ig[-1][1], cc2))
                out.extend(ig)
            else:
                out.append((core, cc))
        if mapping:
            elt = self.renorm(subst(elt, mapping))
        gens = tuple(out)
        # element-independent decisions move out
        bound = [c for c, _ in gens]
        full = TRUE
        for _, c in gens:
            full = AND(full, c)
        if kind in ('list', 'set', 'dict') and elt.op == 'ite':
            elt = constrain(elt, full)
        ats = atoms_of(elt)
        for _, c in gens:
            atoms_of(c, ats)
        free = [a for a in ats if not any(self.depends(a, b) for b in bound)]
        if free and len(free) <= MAXLIFT:
            v = min(free, key=lambda z: z.uid)
            hi = self.b_comp(kind, assume(elt, v, True), tuple((assume(c, v, True), assume(g, v, True))
                                                               for c, g in gens))
            lo = self.b_comp(kind, assume(elt, v, False), tuple((assume(c, v, False), assume(g, v, False))
                                                                for c, g in gens))
            return ITE(BDD(v), hi, lo)
        for i, (core, cc) in enumerate(gens):
            if core.op == 'ite' and len(atoms_of(core)) <= MAXLIFT:
                v = top(core)
                res = []
                for val in (True, False):
                    c2 = assume(core, v, val)
                    mp = {Term('elem', core, 0): Term('elem', c2, 0), Term('idx', core, 0): Term('idx', c2, 0)}
                    g2 = tuple((c2, self.renorm(subst(assume(g, v, val), mp))) if j == i else
                               (self.renorm(subst(assume(c, v, val), mp)), self.renorm(subst(assume(g, v, val), mp)))
                               for j, (c, g) in enumerate(gens))
                    res.append(self.b_comp(kind, self.renorm(subst(assume(elt, v, val), mp)), g2))
                return ITE(BDD(v), res[0], res[1])
        if any(c is FALSE for _, c in gens):
            return Term('set', ()) if kind == 'set' else (Term('dict', ()) if kind == 'dict' else Term('list', ()))
        # iterate over a literal
        if len(gens) == 1 and gens[0][0].op in ('list', 'tuple', 'set') and gens[0][1] is TRUE and \
                not any(z.op == 'star' for z in gens[0][0].args[0]):
            core = gens[0][0]
            vals = [self.renorm(subst(elt, {Term('elem', core, 0): z, Term('idx', core, 0): const(i)}))
                    for i, z in enumerate(core.args[0])]
            if kind == 'set':
                return self.b_set(vals)
            if kind == 'dict':
                return Term('dict', tuple((v.args[0][0], v.args[0][1]) for v in vals))
            return Term('list', tuple(vals))
        # over a concatenation: part by part
        for n, (core, _) in enumerate(gens[:1] if kind == 'list' else gens if kind == 'set' else ()):
            if core.op not in ('concat', 'union') or core.op == 'union' and kind != 'set' or \
                    any(contains_idx(z, core) for z in [elt] + [z for g in gens for z in g]):
                continue
            res = None
            for part in core.args[0]:
                mp = {Term('elem', core, 0): Term('elem', part, 0)}
                g2 = tuple((part if i == n else self.renorm(subst(c, mp)), self.renorm(subst(g, mp)))
                           for i, (c, g) in enumerate(gens))
                one = self.b_comp(kind, self.renorm(subst(elt, mp)), g2)
                if res is None:
                    res = one
                else:
                    res = lift(lambda p, q: self.set_op('BitOr', p, q) if kind == 'set' else self.concat(p, q),
                               [res, one])
            return res
        # identity comprehension
        if len(gens) == 1 and gens[0][1] is TRUE and elt is Term('elem', gens[0][0], 0):
            core = gens[0][0]
            if kind == 'set':
                if core.op == 'set' or core.op == 'union' or (core.op == 'comp' and core.args[0] == 'set'):
                    return core
                return Term('comp', 'set', elt, gens)
            if kind == 'list':
                if core.op == 'list' or (core.op == 'comp' and core.args[0] == 'list'):
                    return core
                return Term('call', Term('global', 'builtins.list'), (core,), ())
        # dict identity:  {k: d[k] for k in d}
        return Term('comp', kind, elt, gens)

    def strip_core(self, core, kind):
        while True:
            if core.op == 'call' and core.args[0].op == 'global' and len(core.args[1]) == 1 and not core.args[2]:
                n = core.args[0].args[0]
                if n in ('builtins.list', 'builtins.tuple', 'builtins.iter') or \
                        n in ('builtins.sorted', 'builtins.set', 'builtins.reversed') and kind == 'set':
                    core = core.args[1][0]
                    continue
            if core.op == 'call' and core.args[0].op == 'attr' and core.args[0].args[1] == 'keys' and not core.args[1]:
                core = core.args[0].args[0]
                continue
            return core

    # -- calls
    def b_first(self, elt, gens):
        elt, gens = self.join_gens(elt, gens)
        return self.b_first0(elt, gens)

    def b_first0(self, elt, gens):
        """elt at the first element of the generators; a case distinction is made at that element"""
        if elt.op == 'ite' and len(gens) == 1:
            core = gens[0][0]
            gs = gens

            def go(x):
                if x.op != 'ite':
                    return x if not self.depends(x, core) else Term('first', x, gs)
                c = x.args[0]
                return ITE(BDD(Term('first', c, gs)) if self.depends(c, core) else BDD(c), go(x.args[1]), go(x.args[2]))
            return go(elt)
        if len(gens) == 1 and not self.depends(elt, gens[0][0]):
            return elt
        core = gens[0][0]
        if core.op == 'concat' and not any(contains_idx(z, core) for z in [elt] + [z for g in gens for z in g]):
            r = None
            for part in core.args[0][::-1]:
                mp = {Term('elem', core, 0): Term('elem', part, 0)}
                g2 = tuple((part if i == 0 else self.renorm(subst(c, mp)), self.renorm(subst(g, mp)))
                           for i, (c, g) in enumerate(gens))
                one = self.b_first(self.renorm(subst(elt, mp)), g2)
                r = one if r is None else ITE(self.gens_any(g2), one, r)
            return r
        return Term('first', elt, gens)

    def b_attr(self, base, name):
        return self.generic_lift('attr', (masked(base), name))

    def b_call(self, f, args, kwargs):
        # a numeric factor comes out of a sum
        x = f.args[0] if f.op == 'attr' and f.args[1] in ('sum', 'mean', 'cumsum') and not args else \
            args[0] if f.op == 'global' and f.args[0] == 'builtins.sum' and len(args) == 1 else None
        if x is not None and x.op == 'ite' and len(atoms_of(x)) <= MAXLIFT and any(z.op == 'poly' for z in ite_leaves(x)):
            return lift(lambda z: self.b_call(Term('attr', z, f.args[1]) if f.op == 'attr' else f,
                                              (z,) if f.op != 'attr' else args, kwargs), [x])
        if x is not None and x.op == 'poly':
            lead = x.args[0][0][0]
            if lead != 1:
                y = to_term({m: c / lead for c, m in x.args[0]})
                r = self.b_call(Term('attr', y, f.args[1]) if f.op == 'attr' else f, (y,) if f.op != 'attr' else args,
                                kwargs)
                return self.b_bin('Mult', from_num(lead), r)
        if f.op == 'ite' and len(atoms_of(f)) <= MAXLIFT and any(
                z.op == 'attr' and (z.args[1] in ('sum', 'max', 'min') or z.args[1] in DUNDERS) for z in ite_leaves(f)):
            return lift(lambda g: self.b_call(g, args, kwargs) if g.op != 'ite' else g, [f])
        if f.op == 'attr' and f.args[1] == 'joinpath' and args and not kwargs and all(a.op != 'star' for a in args):
            r = f.args[0]
            for a in args:
                r = self.b_bin('Div', r, a)
            return r
        if f.op == 'global':
            n = f.args[0]
            if n == 'builtins.open':
                kw = dict(kwargs)
                if len(args) == 1 and 'mode' in kw:
                    return self.b_call(f, args + (kw.pop('mode'),), tuple(sorted(kw.items())))
                if len(args) == 2 and is_const(args[1], 'r'):
                    return self.b_call(f, args[:1], kwargs)
            if n in ('xml.etree.ElementTree.SubElement', 'xml.etree.ElementTree.Element') and kwargs:
                if any(v.op == 'ite' for _, v in kwargs) and len(kwargs) == 1 and len(atoms_of(kwargs[0][1])) <= MAXLIFT:
                    return lift(lambda v: self.b_call(f, args, ((kwargs[0][0], v),)) if v.op != 'ite' else v, [kwargs[0][1]])
                if any(k == 'attrib' and v.op == 'dict' and not v.args[0] for k, v in kwargs):
                    return self.b_call(f, args, tuple(x for x in kwargs if x[0] != 'attrib'))
            if n.startswith('os.path.') and not args and len(kwargs) == 1 and kwargs[0][0] in ('path', 'p', 's'):
                return self.b_call(f, (kwargs[0][1],), ())
            if n in SIGNATURES and not args and any(k == SIGNATURES[n][0] for k, _ in kwargs):
                kw = dict(kwargs)
                return self.b_call(f, (kw.pop(SIGNATURES[n][0]),), tuple(sorted(kw.items())))
            if n in SIGNATURES and 1 < len(args) <= len(SIGNATURES[n]) and all(a.op != 'star' for a in args):
                kw = dict(kwargs)
                kw.update(zip(SIGNATURES[n][1:], args[1:]))
                return self.b_call(f, args[:1], tuple(sorted(kw.items())))
            if n in REDUCTIONS and len(args) == 1 and args[0].op == 'ite' and len(atoms_of(args[0])) <= MAXLIFT:
                return lift(lambda x: self.b_call(f, (x,), kwargs) if x.op != 'ite' else x, [args[0]])
            if n in REDUCTIONS and len(args) == 1 and not is_listlike(args[0]) and args[0].op not in ('ite', 'comp', 'star'):
                return self.b_call(self.b_attr(args[0], REDUCTIONS[n]), (), kwargs)
            if n in ('builtins.any', 'builtins.all') and len(args) == 1 and not kwargs and args[0].op == 'mask':
                return self.b_call(Term('attr', args[0], n.rpartition('.')[2]), (), ())
            if n == 'numpy.where' and len(args) == 3 and not kwargs:
                c, a, b = args
                c = c.args[0] if c.op == 'mask' else c
                if masked(c).op == 'mask':
                    d = NOT(c)
                    c, a, b = (d, b, a) if d.uid < c.uid else (c, a, b)
                    return self.generic_lift('call', (f, (masked(c), a, b), ()))
            if n == 'builtins.list' and len(args) == 1 and not kwargs and args[0].op == 'call' and \
                    args[0].args[0].op == 'global' and args[0].args[0].args[0] == 'builtins.sorted':
                return args[0]
            if n in ('builtins.sum', 'builtins.any', 'builtins.all', 'builtins.list', 'builtins.len') or \
                    n.startswith(('numpy.', 'pandas.')):
                args = tuple(masked(x) for x in args)
                kwargs = tuple((k, masked(x)) for k, x in kwargs)
            if n in CONTAINERS and any(x.op == 'ite' for x in args) and not kwargs:
                if len(atoms_of(args[0], atoms_of(args[-1]))) <= MAXLIFT:
                    return lift(lambda *xs: self.b_call(f, tuple(xs), ()), list(args))
            if n.startswith('builtins.str.') and args:
                return self.b_call(self.b_attr(args[0], n.rpartition('.')[2]), tuple(args[1:]), kwargs)
            if n.endswith('.fromkeys') and n.startswith(('builtins.dict', 'collections.')) and len(args) in (1, 2) and \
                    not kwargs:
                x = self.strip_core(args[0], 'dict')
                return self.b_comp('dict', Term('tuple', (Term('elem', x, 0), args[1] if len(args) == 2 else NONE)),
                                   ((x, TRUE),))
            if n in ('builtins.tuple', 'builtins.list') and len(args) == 1 and args[0].op == 'comp' and \
                    args[0].args[0] == 'dict' and args[0].args[1].op == 'tuple':
                return self.mk_uniq(self.b_comp('list', args[0].args[1].args[0][0], args[0].args[2]))
            if n in ('numpy.any', 'numpy.all') and len(args) == 1 and not kwargs and is_list(args[0]):
                return self.array_any(n.rpartition('.')[2], args[0])
            if n in ('numpy.sum', 'numpy.max', 'numpy.min', 'numpy.mean') and len(args) == 1 and not kwargs and \
                    is_list(args[0]):
                return self.b_call(self.b_attr(self.b_call(Term('global', 'numpy.array'), args, ()),
                                               n.rpartition('.')[2]), (), ())
            if n == 'builtins.sum' and len(args) in (1, 2):
                s = self.mk_sum(args[0])
                if s is not None:
                    return s if len(args) == 1 else self.b_bin('Add', s, args[1])
            if n == 'builtins.len' and len(args) == 1:
                r = self.mk_len(args[0])
                if r is not None:
                    return r
            if n == 'builtins.set' and len(args) == 1 or n == 'builtins.frozenset' and len(args) == 1:
                x = args[0]
                if x.op != 'ite':
                    return self.mk_set(x)
            if n in ('builtins.set', 'builtins.frozenset') and not args:
                return Term('set', ())
            if n in ('builtins.max', 'builtins.min') and len(args) == 2 and not kwargs and \
                    not any(z.op == 'star' or is_listlike(z) for z in args):
                a, b = args
                if any(x.op == 'mu' for x in walk(b)) and not any(x.op == 'mu' for x in walk(a)) or \
                        a.op in ('const', 'num') and b.op not in ('const', 'num'):
                    a, b = b, a
                c = self.b_cmp('<', a, b) if n == 'builtins.max' else self.b_cmp('<', b, a)
                return ITE(c, b, a)
            if n == 'builtins.bool' and len(args) == 1:
                return self.truthy(args[0])
            if n in ('numpy.exp', 'math.exp', 'numpy.sqrt', 'math.sqrt', 'numpy.log', 'math.log', 'numpy.log10',
                     'math.log10', 'numpy.square', 'numpy.power', 'math.pow', 'numpy.abs', 'numpy.absolute',
                     'builtins.abs', 'math.fabs', 'numpy.multiply', 'numpy.add', 'numpy.subtract', 'numpy.divide',
                     'numpy.negative', 'builtins.pow', 'numpy.true_divide', 'numpy.float64', 'builtins.float') \
                    and not kwargs and args:
                return self.math(n.split('.')[-1], args)
            if n in ('collections.OrderedDict', 'builtins.dict') and len(args) == 1 and not kwargs:
                x = args[0]
                if x.op == 'list' and all(z.op == 'tuple' and len(z.args[0]) == 2 for z in x.args[0]):
                    return Term('dict', tuple((z.args[0][0], z.args[0][1]) for z in x.args[0]))
                if x.op == 'comp' and x.args[0] == 'list' and x.args[1].op == 'tuple' and len(x.args[1].args[0]) == 2:
                    return self.b_comp('dict', x.args[1], x.args[2])
                if x.op == 'dict' or x.op == 'comp' and x.args[0] == 'dict':
                    return x
                return Term('dictcopy', x)
            if n == 'builtins.list' and len(args) == 1 and (args[0].op == 'list' or
                                                           args[0].op == 'comp' and args[0].args[0] == 'list'):
                return args[0]
            if n in ('builtins.list', 'builtins.tuple', 'builtins.iter') and len(args) == 1 and \
                    args[0].op == 'call' and args[0].args[0].op == 'attr' and args[0].args[0].args[1] == 'keys':
                return self.b_call(f, (args[0].args[0].args[0],), ())
            if n == 'builtins.sorted' and args:
                x = args[0]
                if x.op == 'call' and x.args[0].op == 'global' and x.args[0].args[0] in (
                        'builtins.list', 'builtins.tuple', 'builtins.iter') and len(x.args[1]) == 1:
                    return self.b_call(f, (x.args[1][0],) + tuple(args[1:]), kwargs)
                kw = dict(kwargs)
                # sorted(set(xs), key=position in xs): order-preserving unique
                if 'key' in kw and len(kw) == 1:
                    xs = self.index_key(kw['key'])
                    if xs is not None and x.op == 'comp' and x.args[0] == 'set' and self.mk_set(xs) is x:
                        return Term('uniq', xs)
                    if xs is not None and self.mk_set(xs) is x:
                        return Term('uniq', xs)
            if n in ('copy.copy', 'copy.deepcopy', 'numpy.copy') and len(args) == 1 and not kwargs:
                return Term('copyof' if n != 'copy.deepcopy' else 'deepcopyof', args[0])
            if n == 'os.path.basename' and len(args) == 1 and not kwargs:
                return self.b_item(self.b_call(Term('global', 'os.path.split'), args, ()), const(1))
            if n == 'builtins.range' and len(args) == 3 and not kwargs and all(num(x) == -1 for x in args[1:]):
                return Term('call', Term('global', 'builtins.reversed'),
                            (self.b_call(f, (self.b_bin('Add', args[0], const(1)),), ()),), ())
            if n == 'builtins.str' and len(args) == 1 and not kwargs:
                return lift(lambda x: x if (x.op in ('fmt', 'join', 'str') or is_text_call(x) or x.op == 'const' and isinstance(x.args[0], str))
                            else Term('str', x), [args[0]])
            if n in ('builtins.tuple', 'builtins.list') and len(args) == 1 and args[0].op == 'uniq':
                return args[0]
            if n == 'builtins.next' and len(args) in (1, 2):
                if args[0].op == 'ite' and len(atoms_of(args[0])) <= MAXLIFT:
                    return lift(lambda x: self.b_call(f, (x,) + tuple(args[1:]), ()) if x.op != 'ite' else x, [args[0]])
                if args[0].op == 'list':
                    if args[0].args[0]:
                        return args[0].args[0][0]
                    if len(args) == 2:
                        return args[1]
                if args[0].op == 'comp':
                    c = args[0]
                    fst = self.b_first(c.args[1], c.args[2])
                    if len(args) == 2:
                        return ITE(self.gens_any(c.args[2]), fst, args[1])
                    return fst
                if args[0].op == 'concat' and all(z.op in ('comp', 'list') for z in args[0].args[0]):
                    r = args[1] if len(args) == 2 else None
                    for z in args[0].args[0][::-1]:
                        x = self.b_call(f, (z,), ())
                        c = self.gens_any(z.args[2]) if z.op == 'comp' else TRUE
                        r = x if r is None else ITE(c, x, r)
                    return r
        if f.op == 'attr' and f.args[1] == 'fromkeys' and f.args[0].op == 'global':
            return self.b_call(Term('global', f.args[0].args[0] + '.fromkeys'), args, kwargs)
        if f.op == 'attr' and f.args[1] in ('sum', 'max', 'min') and not args and not kwargs and \
                f.args[0].op not in ('global', 'ite'):
            return self.generic_lift('call', (Term('global', 'builtins.' + f.args[1]), (f.args[0],), ()))
        if f.op == 'attr' and f.args[1] in DUNDERS and not kwargs and len(args) == DUNDERS[f.args[1]][1] and \
                not (f.args[0].op == 'global' or f.args[0].op == 'call' and f.args[0].args[0].op == 'global'):
            name = DUNDERS[f.args[1]][0]
            if name == 'in':
                return self.b_cmp('in', args[0], f.args[0])
            if name == '[]':
                return self.generic_lift('item', (f.args[0], args[0]))
            return self.b_call(Term('global', 'builtins.' + name), (f.args[0],), ())
        if f.op == 'attr' and f.args[1] in ('any', 'all') and not args and not kwargs and f.args[0].op == 'mask':
            r = self.mask_test(f.args[1], f.args[0].args[0])
            if r is not None:
                return r
            if f.args[1] == 'all':
                x = masked(NOT(f.args[0].args[0]))
                return NOT(self.truthy(self.generic_lift('call', (Term('attr', x, 'any'), (), ()))))
        if f.op == 'attr' and f.args[1] in ('any', 'all') and not args and not kwargs and is_array_of_list(f.args[0]):
            return self.array_any(f.args[1], f.args[0].args[1][0])
        return self.generic_lift('call', (f, args, kwargs))

    def mk_uniq(self, x):
        return x if x.op == 'uniq' else Term('uniq', x)

    def array_any(self, which, x):
        if x.op == 'ite':
            return lift(lambda y: self.array_any(which, y), [x])
        b = self.truthy(Term('elem', x, 0))
        return self.mk_anyn(b, x) if which == 'any' else NOT(self.mk_anyn(NOT(b), x))

    @staticmethod
    def index_key(k):
        if k.op == 'attr' and k.args[1] == 'index':
            return k.args[0]
        if k.op == 'lam':
            b = k.args[1]
            if b.op == 'call' and b.args[0].op == 'attr' and b.args[0].args[1] == 'index' and len(b.args[1]) == 1 and \
                    b.args[1][0].op == 'bound':
                return b.args[0].args[0]
        return None

    def mk_set(self, x):
        if x.op in ('list', 'tuple'):
            if not any(z.op == 'star' for z in x.args[0]):
                return self.b_set(x.args[0])
        if x.op == 'set':
            return x
        if x.op == 'comp' and x.args[0] in ('list', 'set'):
            return self.b_comp('set', x.args[1], x.args[2])
        if x.op == 'comp' and x.args[0] == 'dict' and x.args[1].op == 'tuple':
            return self.b_comp('set', x.args[1].args[0][0], x.args[2])
        if x.op == 'dict' and all(k.op != 'dstar' for k, _ in x.args[0]):
            return self.b_set([k for k, _ in x.args[0]])
        if x.op == 'uniq':
            return self.mk_set(x.args[0])
        if x.op == 'concat':
            parts = [self.mk_set(z) for z in x.args[0]]
            r = parts[0]
            for z in parts[1:]:
                r = self.set_op('BitOr', r, z)
            return r
        if x.op == 'union':
            return x
        x = self.strip_core(x, 'set')
        return self.b_comp('set', Term('elem', x, 0), ((x, TRUE),))

    def mk_len(self, x):
        if x.op in ('list', 'tuple') and not any(z.op == 'star' for z in x.args[0]):
            return const(len(x.args[0]))
        if x.op == 'comp' and x.args[0] == 'list':
            return self.sum_of(const(1), x.args[2])
        return None

    def mk_sum(self, x):
        if x.op in ('list', 'tuple') and not any(z.op == 'star' for z in x.args[0]):
            r = const(0)
            for z in x.args[0]:
                r = self.b_bin('Add', r, z)
            return r
        if x.op == 'comp' and x.args[0] == 'list':
            return self.sum_of(x.args[1], x.args[2])
        if x.op == 'ite':
            return lift(lambda y: self.mk_sum(y) or Term('call', Term('global', 'builtins.sum'), (y,), ()), [x])
        return None

    def sum_of(self, elt, gens):
        if is_seq(elt) or elt.op == 'ite':
            # numbers gated on the element: split into guarded sums
            if elt.op == 'ite' and not is_seq(elt.args[1]) and not is_seq(elt.args[2]):
                v = BDD(elt.args[0])
                last = gens[-1]
                a = self.sum_of(elt.args[1], gens[:-1] + ((last[0], AND(last[1], v)),))
                b = self.sum_of(elt.args[2], gens[:-1] + ((last[0], AND(last[1], NOT(v))),))
                return self.b_bin('Add', a, b)
            return Term('sum', elt, gens)
        if any(c is FALSE for _, c in gens):
            return const(0)
        elt, gens = self.join_gens(elt, gens)
        # free decisions in the guards move out
        for core, c in gens:
            free = [a for a in atoms_of(c) if not any(self.depends(a, b) for b, _ in gens)]
            if free:
                v = free[0]
                return ITE(BDD(v), self.sum_of(assume(elt, v, True), tuple((assume(x, v, True), assume(y, v, True))
                                                                           for x, y in gens)),
                           self.sum_of(assume(elt, v, False), tuple((assume(x, v, False), assume(y, v, False))
                                                                    for x, y in gens)))
        if gens[0][0].op == 'concat' and not any(contains_idx(z, gens[0][0]) for z in [elt] + [z for g in gens for z in g]):
            r = const(0)
            core = gens[0][0]
            for part in core.args[0]:
                mp = {Term('elem', core, 0): Term('elem', part, 0)}
                g2 = tuple((part if i == 0 else self.renorm(subst(c, mp)), self.renorm(subst(g, mp)))
                           for i, (c, g) in enumerate(gens))
                r = self.b_bin('Add', r, self.sum_of(self.renorm(subst(elt, mp)), g2))
            return r
        bound = [c for c, _ in gens]
        p = poly_of(elt)
        r = {}
        for m, c in p.items():
            outm = tuple((b, e) for b, e in m if not any(self.depends(b, x) for x in bound) and
                         not (isinstance(e, Term) and any(self.depends(e, x) for x in bound)))
            inm = tuple(z for z in m if z not in outm)
            s = self.indicator_norm(to_term({inm: Fraction(1)}), gens)
            r = padd(r, pmul({outm: c}, s))
        return to_term(r)

    def join_gens(self, elt, gens):
        """for part in (a, b): for x in part  ->  for x in a + b"""
        for i in range(len(gens) - 1):
            core, g = gens[i]
            if core.op not in ('list', 'tuple') or g is not TRUE or any(z.op == 'star' for z in core.args[0]):
                continue
            e = Term('elem', core, 0)
            nxt = gens[i + 1][0]
            if nxt is not e or not core.args[0]:
                continue
            joined = core.args[0][0]
            for z in core.args[0][1:]:
                joined = self.concat(joined, z)
            mp = {Term('elem', e, 0): Term('elem', joined, 0)}
            rest = [(self.renorm(subst(c, mp)), self.renorm(subst(q, mp))) for c, q in gens[i + 2:]]
            g1 = self.renorm(subst(gens[i + 1][1], mp))
            elt2 = self.renorm(subst(elt, mp))
            if any(x is core or x.op in ('elem', 'idx') and x.args[0] is e
                   for t in [elt2, g1] + [z for q in rest for z in q] for x in walk(t)):
                continue
            return self.join_gens(elt2, gens[:i] + ((joined, g1),) + tuple(rest))
        return elt, gens

    def indicator_norm(self, elt, gens):
        """sum of elt over gens as a polynomial over guarded sums"""
        if len(gens) == 1 and gens[0][1] is TRUE and num(elt) == 1:
            return poly_of(self.b_call(Term('global', 'builtins.len'), (gens[0][0],), ()))
        return poly_of(Term('sum', elt, gens))

    def b_sum(self, elt, gens):
        return self.sum_of(elt, gens)

    def math(self, fn, args):
        x = args[0]
        if len(args) == 1:
            return lift(lambda p: self.math1(fn, p), [x]) if len(atoms_of(x)) <= MAXLIFT else \
                Term('fn', fn, (x,))
        if len(args) == 2:
            op = {'power': 'Pow', 'pow': 'Pow', 'multiply': 'Mult', 'add': 'Add', 'subtract': 'Sub', 'divide': 'Div',
                  'true_divide': 'Div'}.get(fn)
            if op:
                return self.b_bin(op, x, args[1])
        return Term('fn', fn, tuple(args))

    def math1(self, fn, p):
        if fn == 'sqrt':
            return to_term(ppow(poly_of(boolnum(p)), Fraction(1, 2)))
        if fn == 'square':
            return to_term(ppow(poly_of(boolnum(p)), Fraction(2)))
        if fn == 'negative':
            return self.b_un('USub', p)
        if fn in ('float64', 'float'):
            if p.op in ('num', 'poly') or num(p) is not None:
                return p
            return Term('float', p)
        if fn in ('absolute', 'fabs'):
            fn = 'abs'
        if fn == 'abs' and num(p) is not None:
            return from_num(abs(num(p)))
        return Term('fn', fn, (p,))

    # -- items / attributes
    def b_item(self, base, idx):
        def leaf(b, i):
            if b.op in ('tuple', 'list') and is_const(i) and isinstance(i.args[0], int) and \
                    -len(b.args[0]) <= i.args[0] < len(b.args[0]) and not any(z.op == 'star' for z in b.args[0]):
                return b.args[0][i.args[0]]
            if b.op == 'dict' and is_const(i):
                for k, v in b.args[0][::-1]:
                    if k is i:
                        return v
                    if k.op != 'const':
                        break
            if is_const(i, -1) and b.op == 'call' and b.args[0] is Term('global', 'os.path.split'):
                i = const(1)
            if is_const(i, 0) and b.op == 'call' and b.args[0] is Term('global', 'builtins.sorted') and len(b.args[1]) == 1:
                kw = dict(b.args[2])
                rev = kw.pop('reverse', FALSE)
                if set(kw) <= {'key'} and rev in (TRUE, FALSE):
                    return self.b_call(Term('global', 'builtins.max' if rev is TRUE else 'builtins.min'), b.args[1],
                                       tuple(kw.items()))
            if is_const(i, 0) and b.op == 'comp' and b.args[0] == 'list':
                return self.b_first(b.args[1], b.args[2])
            if b.op == 'attr' and b.args[1] == 'loc' and b.args[0].op == 'item' and b.args[0].args[0].op == 'attr' and \
                    b.args[0].args[0].args[1] == 'loc':
                rows, cols = b.args[0].args[1], i
                if rows.op != 'tuple' and cols.op == 'tuple' and len(cols.args[0]) == 2 and is_all(cols.args[0][0]):
                    return self.b_item(b.args[0].args[0], Term('tuple', (rows, cols.args[0][1])))
                if cols.op != 'tuple' and rows.op == 'tuple' and len(rows.args[0]) == 2 and is_all(rows.args[0][0]):
                    return self.b_item(b.args[0].args[0], Term('tuple', (cols, rows.args[0][1])))
            if b.op == 'attr' and b.args[1] == 'at' and i.op == 'elem' and i.args[0].op == 'attr' and \
                    i.args[0].args[1] == 'index':
                return self.b_item(b.args[0], i)
            if i.op == 'idx' and i.args[0] is b:
                return Term('elem', b, i.args[1])
            if b.op == 'comp' and b.args[0] == 'dict' and b.args[1].op == 'tuple' and len(b.args[2]) == 1:
                k, v = b.args[1].args[0]
                core, cc = b.args[2][0]
                if k is Term('elem', core, 0) and not contains_idx(v, core):
                    return self.renorm(subst(v, {k: i}))
            if b.op == 'comp' and b.args[0] == 'list' and len(b.args[2]) == 1 and i.op == 'idx' and \
                    i.args[0] is b.args[2][0][0] and b.args[2][0][1] is TRUE:
                core = b.args[2][0][0]
                return self.renorm(subst(b.args[1], {Term('elem', core, 0): Term('elem', core, i.args[1]),
                                                     Term('idx', core, 0): Term('idx', core, i.args[1])}))
            return self.leaf('item', (b, i))
        if base.op not in LITERAL:
            idx = masked(idx)
        base = masked(base)
        ats = atoms_of(base, atoms_of(idx))
        if len(ats) > MAXLIFT + 3:
            return Term('item', base, idx)
        return lift(leaf, [base, idx])


LITERAL = {'dict', 'tuple', 'list'}
LIST_CALLS = {'builtins.list', 'builtins.sorted'}


def is_listlike(x):
    if x.op == 'call' and x.args[0].op == 'global':
        return x.args[0].args[0] in LIST_CALLS
    if x.op == 'call' and x.args[0].op == 'attr':
        return x.args[0].args[1] in ('split', 'tolist')
    if x.op == 'concat':
        return any(is_listlike(z) for z in x.args[0])
    return x.op == 'list' or x.op == 'comp' and x.args[0] == 'list' or x.op == 'uniq'


def is_set(x):
    if x.op == 'copyof':
        return is_set(x.args[0])
    return x.op in ('set', 'union') or x.op == 'comp' and x.args[0] == 'set' or x.op in ('attr', 'classattr') and \
        x.args[1] in SET_ATTRS


def is_dict(x):
    return x.op in ('dict', 'dictcopy') or x.op == 'comp' and x.args[0] == 'dict' or \
        x.op == 'param' and str(x.args[0]).startswith('**')


CONTAINERS = {'builtins.set', 'builtins.frozenset', 'builtins.dict', 'collections.OrderedDict', 'builtins.list',
              'builtins.tuple', 'builtins.sorted', 'builtins.sum', 'builtins.len'}


def is_all(x):
    return x.op == 'slice' and all(z is NONE for z in x.args)


def is_list(x):
    return x.op == 'list' or x.op == 'comp' and x.args[0] == 'list' or x.op == 'ite' and \
        all(is_list(z) for z in ite_leaves(x))


def is_array_of_list(x):
    return x.op == 'call' and x.args[0].op == 'global' and x.args[0].args[0] in ('numpy.array', 'numpy.asarray') and \
        len(x.args[1]) == 1 and not x.args[2] and is_list(x.args[1][0])


def is_mask(x):
    return x.op == 'ite' and all(z is TRUE or z is FALSE for z in ite_leaves(x)) and \
        all(a.op == 'cmp' and (any(is_array_of_list(z) for z in a.args[1:]) or a.args[0] in ('<', '<=') and any(
            is_rounded_range(z) for z in a.args[1:])) for a in atoms_of(x))


def is_rounded_range(x):
    """numpy.round of an array made by numpy.arange"""
    if x.op != 'call' or x.args[0].op != 'global' or x.args[0].args[0] not in ('numpy.round', 'numpy.around'):
        return False
    return any(z.op == 'call' and z.args[0].op == 'global' and z.args[0].args[0] in ('numpy.arange', 'numpy.linspace')
               for z in subs_(x))


def subs_(x):
    todo, seen = [x], set()
    while todo:
        t = todo.pop()
        if t.uid in seen:
            continue
        seen.add(t.uid)
        yield t
        todo.extend(kids(t))


def masked(x):
    """a comparison used as data may be an elementwise mask, not one truth value: its cases are not taken apart"""
    if x.op == 'ite' and all(z is TRUE or z is FALSE for z in ite_leaves(x)) and \
            any(a.op == 'cmp' and a.args[0] in ('<', '<=', '==') for a in atoms_of(x)):
        return Term('mask', x)
    return x


class Renorm(object):
    """re-normalise a term built from normalised parts"""
    def __init__(self, n):
        self.n = n
        self.memo = {}

    def go(self, x):
        r = self.memo.get(x.uid)
        if r is None:
            r = self._go(x)
            self.memo[x.uid] = r
        return r

    def got(self, a):
        if isinstance(a, Term):
            return self.go(a)
        if isinstance(a, tuple):
            return tuple(self.got(z) for z in a)
        return a

    def _go(self, x):
        n, op, a = self.n, x.op, x.args
        if op in ('const', 'param', 'self', 'global', 'classref', 'obj', 'mu', 'closure', 'num', 'bound', 'never'):
            return x
        if op == 'ite':
            return ITE(self.atom(a[0]), self.go(a[1]), self.go(a[2]))
        if op == 'comp':
            return n.b_comp(a[0], self.go(a[1]), tuple((self.go(c), self.go(g)) for c, g in a[2]))
        if op == 'any':
            return n.mk_anyn(self.go(a[0]), self.go(a[1]), a[2])
        if op == 'loopsys':
            return n.b_loop(a[0], self.go(a[1]), self.go(a[2]), tuple((self.go(o), self.go(f)) for o, f in a[3]),
                            tuple((self.go(c), tuple(self.go(x) for x in xs)) for c, xs in a[4]))
        if op == 'poly':
            p = {}
            for c, m in a[0]:
                q = {(): c}
                for b, e in m:
                    bb = boolnum(self.go(b))
                    if bb.op == 'ite':
                        return self.poly_ite(x)
                    q = pmul(q, ppow(poly_of(bb), e if isinstance(e, Fraction) else term_exp(self.go(e))))
                p = padd(p, q)
            return to_term(p)
        if op == 'accn':
            r = self.go(a[0])
            for gens, k, w in a[1]:
                r = n.b_acc(r, tuple((self.go(c), self.go(g)) for c, g in gens), self.go(k), self.go(w))
            return r
        if op == 'sum':
            return n.sum_of(self.go(a[0]), tuple((self.go(c), self.go(g)) for c, g in a[1]))
        if op == 'cmp':
            return n.b_cmp(a[0], self.go(a[1]), self.go(a[2]))
        if op == 'fn':
            return n.math(a[0], tuple(self.go(z) for z in a[1]))
        return n.build(op, tuple(self.got(z) for z in a))

    def poly_ite(self, x):
        n = self.n
        r = const(0)
        for c, m in x.args[0]:
            q = from_num(c)
            for b, e in m:
                t = n.b_bin('Pow', self.go(b), from_num(e) if isinstance(e, Fraction) else self.go(e))
                q = n.b_bin('Mult', q, t)
            r = n.b_bin('Add', r, q)
        return r

    def atom(self, v):
        y = self.go(v) if v.op in ('cmp', 'any') else self.n.truthy(self.go(v))
        return y


class Shape(object):
    """structural hash of a term that does not depend on the order in which terms were created"""

    def __init__(self, colours):
        self.col = colours
        self.memo = {}

    def __call__(self, x):
        if isinstance(x, Term):
            r = self.memo.get(x.uid)
            if r is None:
                r = self.memo[x.uid] = self.one(x)
            return r
        if isinstance(x, tuple):
            return hash(tuple(self(z) for z in x))
        return hash((type(x).__name__, repr(x) if isinstance(x, float) else x))

    def one(self, x):
        c = self.col.get(x)
        if c is not None:
            return hash(('mu', c))
        op, a = x.op, x.args
        if op == 'poly':
            return hash(('poly', tuple(sorted(hash((self(c), tuple(sorted(hash((self(b), self(e))) for b, e in m))))
                                              for c, m in a[0]))))
        if op == 'ite':
            return hash(('ite', tuple(sorted(self(v) for v in atoms_of(x))), tuple(sorted(self(v) for v in ite_leaves(x)))))
        if op in ('set', 'union', 'and', 'or') and len(a) == 1 and isinstance(a[0], tuple):
            return hash((op, tuple(sorted(self(z) for z in a[0]))))
        return hash((op, tuple(self(z) for z in a)))


def ite_leaves(x):
    out, seen, st = [], set(), [x]
    while st:
        y = st.pop()
        if y.uid in seen:
            continue
        seen.add(y.uid)
        if y.op == 'ite':
            st.extend(y.args[1:])
        else:
            out.append(y)
    return out


def contains_idx(x, core):
    for z in walk(x):
        if z.op == 'idx' and z.args[0] is core:
            return True
    return False


def cval(x):
    return x.args[0]


def boolnum(x):
    if x is TRUE:
        return const(1)
    if x is FALSE:
        return const(0)
    return x


def is_num(x):
    return x.op in ('num', 'poly', 'sum', 'fn') or num(x) is not None or is_len(x) or is_number_call(x)


def is_number_call(x):
    return x.op == 'call' and x.args[0].op == 'global' and x.args[0].args[0] in ('builtins.int', 'builtins.float')


def is_text_call(x):
    return x.op == 'call' and x.args[0].op == 'global' and x.args[0].args[0] in ('re.sub',)


def is_len(x):
    return x.op == 'call' and x.args[0].op == 'global' and x.args[0].args[0] == 'builtins.len' or \
        x.op == 'sum' and x.args[0] is const(1)


def is_setlike_poly(y):
    (c1, m1), (c2, m2) = y.args[0]
    return {c1, c2} == {Fraction(1), Fraction(-1)} and len(m1) == 1 and len(m2) == 1 and \
        m1[0][1] == 1 and m2[0][1] == 1


def definitely_not_none(t):
    if t.op == 'first':
        core, cc = t.args[1][-1]
        e = Term('elem', core, 0)
        return t.args[0] is e and any(y.op == 'attr' and y.args[0] is e for y in walk(cc))
    return t.op in ('obj', 'tuple', 'list', 'dict', 'set', 'comp', 'fmt', 'bin', 'poly', 'num', 'sum', 'lam', 'method',
                    'closure', 'new', 'concat', 'union', 'float', 'str') or t.op == 'const' and t.args[0] is not None


def strip_str(z):
    """'{}'.format(str(x)) == '{}'.format(x)"""
    if z.op == 'str':
        return z.args[0]
    return z


def merge_anys(xs):
    """any(f) or any(g) over the same core -> any(f or g)"""
    groups = {}
    out = []
    for x in xs:
        if x.op == 'any':
            k = (x.args[1], x.args[2])
            if k in groups:
                groups[k].append(x.args[0])
                continue
            groups[k] = [x.args[0]]
            out.append(('any', k))
        else:
            out.append(('x', x))
    res = []
    for kind, v in out:
        if kind == 'x':
            res.append(v)
        else:
            fs = groups[v]
            res.append(Term('any', fs[0] if len(fs) == 1 else Term('or', tuple(fs)), v[0], v[1]))
    return res
