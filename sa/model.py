"""Resolved program model of the package under analysis (stdlib ast only).

Every run parses all modules of the package from /repo's working tree.  Names
are resolved through imports (absolute, relative, aliased, re-exported) to
qualified names; classes get a method resolution order.
"""
import ast
import os

REPO = os.environ.get('SA_REPO', '/repo')
PACKAGE = 'sciencebeam_trainer_grobid_tools'


class AnalysisBroken(Exception):
    """an anchor the analysis needs does not exist (not a property violation)"""


class Func:
    def __init__(self, qualname, node, module, cls=None, parent=None):
        self.qualname = qualname
        self.node = node
        self.module = module
        self.cls = cls
        self.parent = parent
        self.name = node.name if hasattr(node, 'name') else '<lambda>'
        self.decorators = [
            module.dotted(d.func if isinstance(d, ast.Call) else d)
            for d in getattr(node, 'decorator_list', [])
        ]
        self._is_gen = None

    @property
    def is_property(self):
        return any(d in ('property', 'functools.cached_property') for d in self.decorators)

    @property
    def is_static(self):
        return 'staticmethod' in self.decorators

    @property
    def is_classmethod(self):
        return 'classmethod' in self.decorators

    @property
    def is_contextmanager(self):
        return any(d in ('contextlib.contextmanager', 'contextmanager') for d in self.decorators)

    @property
    def is_generator(self):
        if self._is_gen is None:
            self._is_gen = any(
                isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(self.node)
            )
        return self._is_gen

    @property
    def where(self):
        return '%s:%d %s' % (self.module.relpath, self.node.lineno, self.qualname)

    def param_names(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]

    def __repr__(self):
        return 'Func(%s)' % self.qualname


def walk_own(fn_node):
    """walk a function body without entering nested functions / lambdas / classes"""
    body = fn_node.body if isinstance(fn_node.body, list) else [fn_node.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class Class:
    def __init__(self, qualname, node, module):
        self.qualname = qualname
        self.node = node
        self.module = module
        self.name = node.name
        self.methods = {}
        self.attrs = {}      # name -> value ast
        self.ann_types = {}
        self.annotations = []  # ordered (name, value ast or None)
        self.base_names = [module.dotted(b) for b in node.bases if module.dotted(b)]
        for stmt in node.body:
            if isinstance(stmt, (ast.FunctionDef, ast.AsyncFunctionDef)):
                # property setters would shadow, keep the first (getter)
                if stmt.name in self.methods and any(
                        isinstance(d, ast.Attribute) and d.attr in ('setter', 'deleter')
                        for d in stmt.decorator_list):
                    continue
                self.methods[stmt.name] = Func(
                    qualname + '.' + stmt.name, stmt, module, cls=self)
            elif isinstance(stmt, ast.Assign):
                for t in stmt.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = stmt.value
            elif isinstance(stmt, ast.AnnAssign) and isinstance(stmt.target, ast.Name):
                self.annotations.append((stmt.target.id, stmt.value))
                self.ann_types[stmt.target.id] = stmt.annotation
                if stmt.value is not None:
                    self.attrs[stmt.target.id] = stmt.value

    def __repr__(self):
        return 'Class(%s)' % self.qualname


class Module:
    def __init__(self, name, path, relpath, tree, is_pkg):
        self.name = name
        self.path = path
        self.relpath = relpath
        self.tree = tree
        self.is_pkg = is_pkg
        self.imports = {}     # local name -> dotted target
        self.functions = {}
        self.classes = {}
        self.assigns = {}     # name -> list of value asts (module level)
        self.global_stmts = []

    def _abs(self, level, mod):
        if not level:
            return mod or ''
        parts = self.name.split('.')
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (level - 1)] if level > 1 else parts
        return '.'.join(parts + ([mod] if mod else []))

    def index(self):
        self._index_body(self.tree.body)

    def add_import(self, stmt, into):
        if isinstance(stmt, ast.Import):
            for a in stmt.names:
                if a.asname:
                    into[a.asname] = a.name
                else:
                    into[a.name.split('.')[0]] = a.name.split('.')[0]
        else:
            base = self._abs(stmt.level, stmt.module)
            for a in stmt.names:
                into[a.asname or a.name] = (base + '.' + a.name) if base else a.name

    def _index_body(self, body):
        for stmt in body:
            if isinstance(stmt, (ast.Import, ast.ImportFrom)):
                self.add_import(stmt, self.imports)
            elif isinstance(stmt, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions[stmt.name] = stmt
            elif isinstance(stmt, ast.ClassDef):
                self.classes[stmt.name] = stmt
            elif isinstance(stmt, ast.Assign):
                for t in stmt.targets:
                    if isinstance(t, ast.Name):
                        self.assigns.setdefault(t.id, []).append(stmt.value)
                    elif isinstance(t, ast.Tuple):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                self.assigns.setdefault(e.id, []).append(
                                    ast.Subscript(stmt.value, ast.Constant(i), ast.Load()))
            elif isinstance(stmt, ast.AnnAssign):
                if isinstance(stmt.target, ast.Name) and stmt.value is not None:
                    self.assigns.setdefault(stmt.target.id, []).append(stmt.value)
            elif isinstance(stmt, ast.AugAssign):
                if isinstance(stmt.target, ast.Name):
                    self.assigns.setdefault(stmt.target.id, []).append(None)
            elif isinstance(stmt, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                is_main = (
                    isinstance(stmt, ast.If) and isinstance(stmt.test, ast.Compare)
                    and isinstance(stmt.test.left, ast.Name) and stmt.test.left.id == '__name__'
                )
                if not is_main:
                    for f in ('body', 'orelse', 'finalbody'):
                        self._index_body(getattr(stmt, f, []) or [])
                    for h in getattr(stmt, 'handlers', []):
                        self._index_body(h.body)

    def dotted(self, node):
        """dotted target of a Name/Attribute chain, resolving imports; None if not a chain"""
        parts = []
        while isinstance(node, ast.Attribute):
            parts.append(node.attr)
            node = node.value
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == 'super':
            return None
        if isinstance(node, ast.Subscript):
            # Generic[T] style bases
            base = self.dotted(node.value)
            return base
        if not isinstance(node, ast.Name):
            return None
        parts.append(node.id)
        parts.reverse()
        head = parts[0]
        if head in self.imports:
            return '.'.join([self.imports[head]] + parts[1:])
        if head in self.functions or head in self.classes or head in self.assigns:
            return '.'.join([self.name] + parts)
        return '.'.join(parts)


class Program:
    def __init__(self, repo=None, package=PACKAGE):
        self.repo = repo or REPO
        self.package = package
        self.modules = {}
        self.funcs = {}
        self.classes = {}
        root = os.path.join(self.repo, package)
        if not os.path.isdir(root):
            raise AnalysisBroken('package directory not found: %s' % root)
        for dirpath, dirnames, filenames in os.walk(root):
            dirnames[:] = sorted(d for d in dirnames if d != '__pycache__')
            for fn in sorted(filenames):
                if not fn.endswith('.py'):
                    continue
                path = os.path.join(dirpath, fn)
                rel = os.path.relpath(path, self.repo)
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == '__init__'
                if is_pkg:
                    parts = parts[:-1]
                name = '.'.join(parts)
                with open(path, encoding='utf-8') as f:
                    src = f.read()
                tree = ast.parse(src, filename=rel)
                self.modules[name] = Module(name, path, rel, tree, is_pkg)
        for m in self.modules.values():
            m.index()
        for m in self.modules.values():
            for n, node in m.functions.items():
                self.funcs[m.name + '.' + n] = Func(m.name + '.' + n, node, m)
            for n, node in m.classes.items():
                c = Class(m.name + '.' + n, node, m)
                self.classes[c.qualname] = c
                for f in c.methods.values():
                    self.funcs[f.qualname] = f
        self._mro = {}
        self._subclasses = None

    # -- resolution
    def canonical(self, dotted, _seen=None):
        """follow re-exports: a.b.NAME where module a.b imports NAME from elsewhere"""
        if dotted is None:
            return None
        _seen = _seen or set()
        if dotted in _seen:
            return dotted
        _seen.add(dotted)
        if dotted in self.funcs or dotted in self.classes or dotted in self.modules:
            return dotted
        parts = dotted.split('.')
        for i in range(len(parts) - 1, 0, -1):
            mod = '.'.join(parts[:i])
            if mod in self.modules:
                m = self.modules[mod]
                head = parts[i]
                if head in m.imports:
                    return self.canonical('.'.join([m.imports[head]] + parts[i + 1:]), _seen)
                if head in m.assigns and len(m.assigns[head]) == 1 and m.assigns[head][0] is not None:
                    # simple aliases  NAME = other.NAME
                    val = m.assigns[head][0]
                    d = m.dotted(val) if isinstance(val, (ast.Name, ast.Attribute)) else None
                    if d and d != dotted:
                        c = self.canonical(d, _seen)
                        if c in self.funcs or c in self.classes:
                            return '.'.join([c] + parts[i + 1:])
                # class attribute
                cq = mod + '.' + head
                if cq in self.classes and len(parts) > i + 1:
                    for k in self.mro(cq):
                        if parts[i + 1] in k.methods:
                            return k.methods[parts[i + 1]].qualname
                return dotted
        return dotted

    def func(self, qualname):
        q = qualname if qualname.startswith(self.package) else self.package + '.' + qualname
        f = self.funcs.get(q) or self.funcs.get(self.canonical(q) or '')
        if f is None:
            raise AnalysisBroken('function not found: %s' % q)
        return f

    def cls(self, qualname):
        q = qualname if qualname.startswith(self.package) else self.package + '.' + qualname
        c = self.classes.get(q) or self.classes.get(self.canonical(q) or '')
        if c is None:
            raise AnalysisBroken('class not found: %s' % q)
        return c

    def mro(self, cls_q):
        if isinstance(cls_q, Class):
            cls_q = cls_q.qualname
        if cls_q in self._mro:
            return self._mro[cls_q]
        c = self.classes.get(cls_q)
        if c is None:
            return []
        result = [c]
        self._mro[cls_q] = result
        for b in c.base_names:
            bq = self.canonical(b)
            for k in self.mro(bq) if bq in self.classes else []:
                if k not in result:
                    result.append(k)
        self._mro[cls_q] = result
        return result

    def external_bases(self, cls_q):
        out = []
        for k in self.mro(cls_q):
            for b in k.base_names:
                bq = self.canonical(b)
                if bq not in self.classes:
                    out.append(bq)
        return out

    def find_method(self, cls_q, name, after=None):
        mro = self.mro(cls_q)
        if after is not None:
            names = [k.qualname for k in mro]
            if after in names:
                mro = mro[names.index(after) + 1:]
        for k in mro:
            if name in k.methods:
                return k.methods[name]
        return None

    def find_class_attr(self, cls_q, name):
        for k in self.mro(cls_q):
            if name in k.attrs:
                return k, k.attrs[name]
        return None

    def subclasses(self, cls_q):
        return [c for q, c in sorted(self.classes.items())
                if q != cls_q and any(k.qualname == cls_q for k in self.mro(q))]

    def is_subclass(self, cls_q, base_q):
        return any(k.qualname == base_q for k in self.mro(cls_q))

    def nested_functions(self):
        """all function nodes incl. nested ones: (owner Func, node)"""
        for f in self.funcs.values():
            for n in ast.walk(f.node):
                if n is not f.node and isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    yield f, n
