"""Parse the packages of /repo and resolve names: modules, classes (with MRO), functions, imports."""
import ast
import hashlib
import os

PACKAGES = ('plaschem', 'pygmo_fwork')
REPO = os.environ.get('SA_REPO', '/repo')


class AnalysisBroken(Exception):
    """an anchor the rule needs cannot be found: neither a pass nor a violation"""


class Func(object):
    def __init__(self, node, module, cls=None, outer=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.name = node.name if hasattr(node, 'name') else '<lambda>'
        self.outer = outer
        self.kind = 'method' if cls is not None else 'function'
        self.is_property = False
        for d in getattr(node, 'decorator_list', []):
            n = d.id if isinstance(d, ast.Name) else (d.attr if isinstance(d, ast.Attribute) else None)
            if n == 'staticmethod':
                self.kind = 'static'
            elif n == 'classmethod':
                self.kind = 'class'
            elif n in ('property', 'cached_property'):
                self.is_property = True
            elif n in ('setter', 'getter', 'deleter'):
                self.is_property = True

    @property
    def qualname(self):
        if self.cls is not None:
            return '%s.%s' % (self.cls.qualname, self.name)
        return '%s.%s' % (self.module.name, self.name)

    @property
    def where(self):
        return '%s:%d (%s)' % (self.module.relpath, getattr(self.node, 'lineno', 0),
                               (self.cls.name + '.' if self.cls else '') + self.name)

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args], a.vararg.arg if a.vararg else None, \
            [x.arg for x in a.kwonlyargs], a.kwarg.arg if a.kwarg else None

    def defaults(self):
        a = self.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults)) if a.defaults else {}
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                out[k.arg] = d
        return out

    def __repr__(self):
        return '<Func %s>' % self.qualname


class Class(object):
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.qualname = '%s.%s' % (module.name, node.name)
        self.methods = {}
        self.attrs = {}   # name -> value expression node (last assignment), class-level
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(st, module, self)
                if st.name in self.methods and f.is_property:
                    continue
                self.methods[st.name] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
                        if isinstance(st.value, ast.Name) and st.value.id in self.methods:
                            self.methods[t.id] = self.methods[st.value.id]
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.attrs[st.target.id] = st.value
        self.mro = None

    def __repr__(self):
        return '<Class %s>' % self.qualname


class Module(object):
    def __init__(self, name, path, relpath):
        self.name = name
        self.path = path
        self.relpath = relpath
        with open(path, encoding='utf-8') as f:
            self.source = f.read()
        self.tree = ast.parse(self.source, path)
        self.imports = {}
        self.functions = {}
        self.classes = {}
        self.globals = {}
        self._scan(self.tree.body)
        for n in ast.walk(self.tree):   # function-level imports
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                self._imp(n)

    def _imp(self, st):
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    self.imports[a.asname] = a.name
                else:
                    self.imports.setdefault(a.name.split('.')[0], a.name.split('.')[0])
        else:
            base = st.module or ''
            if st.level:
                pkg = self.name.split('.')
                if not self.path.endswith('__init__.py'):
                    pkg = pkg[:-1]
                pkg = pkg[:len(pkg) - (st.level - 1)]
                base = '.'.join(pkg + ([base] if base else []))
            for a in st.names:
                self.imports[a.asname or a.name] = base + '.' + a.name

    def _scan(self, body):
        for st in body:
            if isinstance(st, (ast.Import, ast.ImportFrom)):
                self._imp(st)
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions[st.name] = Func(st, self)
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = Class(st, self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.globals[t.id] = st.value
            elif isinstance(st, ast.AnnAssign):
                if isinstance(st.target, ast.Name) and st.value is not None:
                    self.globals[st.target.id] = st.value
            elif isinstance(st, (ast.If, ast.Try)):
                self._scan(st.body)
                for h in getattr(st, 'handlers', []):
                    self._scan(h.body)
                self._scan(getattr(st, 'orelse', []))


ALIASES = {'numpy': 'numpy', 'np': 'numpy'}


class Project(object):
    def __init__(self, root=REPO):
        self.root = root
        self.modules = {}
        self.digest = hashlib.sha256()
        for pkg in PACKAGES:
            base = os.path.join(root, pkg)
            if not os.path.isdir(base):
                raise AnalysisBroken('package %s not found in %s' % (pkg, root))
            for dp, dn, fn in os.walk(base):
                dn[:] = sorted(d for d in dn if not d.startswith(('.', '__pycache__')))
                for f in sorted(fn):
                    if not f.endswith('.py'):
                        continue
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, root)
                    parts = rel[:-3].split(os.sep)
                    if parts[-1] == '__init__':
                        parts = parts[:-1]
                    name = '.'.join(parts)
                    try:
                        self.modules[name] = Module(name, p, rel)
                    except SyntaxError as e:
                        raise AnalysisBroken('cannot parse %s: %s' % (rel, e))
                    self.digest.update(self.modules[name].source.encode())
        self.classes = {}
        for m in self.modules.values():
            for c in m.classes.values():
                self.classes[c.qualname] = c
        for c in self.classes.values():
            self._mro(c)

    def _mro(self, c):
        if c.mro is not None:
            return c.mro
        c.mro = [c]
        seqs = []
        for b in c.node.bases:
            d = self.dotted(b, c.module)
            bc = self.classes.get(d)
            if bc is not None:
                seqs.append(list(self._mro(bc)))
        # C3-ish merge
        direct = [s[0] for s in seqs]
        seqs.append(list(direct))
        while any(seqs):
            seqs = [s for s in seqs if s]
            if not seqs:
                break
            for s in seqs:
                h = s[0]
                if not any(h in o[1:] for o in seqs):
                    break
            else:
                h = seqs[0][0]
            c.mro.append(h)
            for s in seqs:
                if s and s[0] is h:
                    s.pop(0)
                elif h in s:
                    s.remove(h)
        return c.mro

    def subclasses(self, c):
        return [k for k in self.classes.values() if c in k.mro]

    # ---- names
    def dotted(self, node, module):
        """dotted path of a Name/Attribute expression as seen from the module, or None"""
        if isinstance(node, ast.Name):
            return self.resolve_name(node.id, module)
        if isinstance(node, ast.Attribute):
            b = self.dotted(node.value, module)
            return None if b is None else self.canon(b + '.' + node.attr)
        return None

    def resolve_name(self, name, module):
        if name in module.functions or name in module.classes or name in module.globals:
            return module.name + '.' + name
        if name in module.imports:
            return self.canon(module.imports[name])
        return None

    def canon(self, dotted):
        """follow re-exports between repo modules"""
        for _ in range(8):
            mod, _, attr = dotted.rpartition('.')
            m = self.modules.get(mod)
            if m is None or not attr:
                return dotted
            if attr in m.functions or attr in m.classes or attr in m.globals:
                return dotted
            if attr in m.imports and m.imports[attr] != dotted:
                dotted = m.imports[attr]
                continue
            return dotted
        return dotted

    def func(self, dotted):
        mod, _, attr = dotted.rpartition('.')
        m = self.modules.get(mod)
        if m is not None:
            return m.functions.get(attr)
        c = self.classes.get(mod)
        if c is not None:
            return self.method(c, attr)
        return None

    def cls(self, dotted):
        return self.classes.get(dotted)

    def need_class(self, name):
        cs = [c for c in self.classes.values() if c.name == name]
        if len(cs) != 1:
            raise AnalysisBroken('class %s: %d definitions found' % (name, len(cs)))
        return cs[0]

    def need_method(self, cname, mname):
        c = self.need_class(cname) if isinstance(cname, str) else cname
        f = self.method(c, mname)
        if f is None:
            raise AnalysisBroken('method %s.%s not found' % (c.name, mname))
        return f

    def fields_read(self, f):
        return reads_of(self, f)

    def method(self, c, name, after=None):
        started = after is None
        for k in c.mro:
            if started and name in k.methods:
                return k.methods[name]
            if k is after:
                started = True
        return None

    def class_attr(self, c, name):
        """(owner, expression node) of a class-level attribute"""
        for k in c.mro:
            if name in k.attrs:
                return k, k.attrs[name]
        return None, None

    def all_methods(self, c):
        out = {}
        for k in reversed(c.mro):
            out.update(k.methods)
        return out

    def all_funcs(self):
        for m in self.modules.values():
            for f in m.functions.values():
                yield f
            for c in m.classes.values():
                for f in c.methods.values():
                    yield f


def reads_of(project, f, busy=()):
    """names of the fields of its object that a method reads, its own methods included"""
    memo = project.__dict__.setdefault('_reads', {})
    c = f.cls
    if c is None or f.node in busy:
        return frozenset()
    r = memo.get((c.qualname, f.name))
    if r is not None:
        return r
    g = project.method(c, f.name) or f
    me = g.node.args.args[0].arg if g.node.args.args else None
    out = set()
    for x in ast.walk(g.node):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me and isinstance(x.ctx, ast.Load):
            h = project.method(c, x.attr)
            if h is None:
                out.add(x.attr)
            else:
                out |= reads_of(project, h, busy + (f.node, g.node))
    if not busy:
        memo[(c.qualname, f.name)] = frozenset(out)
    return frozenset(out)
