"""Rules decided on the current tree alone (no reference needed), per property.

Each rule returns the number of instances it examined, and violations naming the construct.
"""
import ast
import re

from .footprint import Footprints
from .model import AnalysisBroken, PACKAGE, walk_own

N = len(PACKAGE) + 1


class Outcome:
    def __init__(self, minimum=1):
        self.instances = 0
        self.minimum = minimum
        self.violations = []
        self.unknowns = []
        self.notes = []

    def bad(self, rule, construct, where, what, detail=''):
        self.violations.append({'rule': rule, 'construct': construct, 'where': where,
                                'what': what, 'detail': detail})


class Context:
    def __init__(self, cur, ref, conf, prop, verdicts):
        self.cur, self.ref, self.conf, self.prop, self.verdicts = cur, ref, conf, prop, verdicts


def rule_class_structure(cx):
    """classes with functions in the cone keep their ancestry and the members they answered to"""
    o = Outcome(0)
    ref, cur = cx.ref, cx.cur
    owners = {q.rpartition('.')[0] for q in cx.verdicts}
    for q in sorted(owners & set(ref.classes)):
        cq = cx.conf.pair.back.get(q, q)
        if cq not in cur.classes:
            o.unknowns.append('class %s is gone' % q[N:])
            continue
        o.instances += 1
        where = '%s:%s' % (cur.classes[cq].module.relpath, cur.classes[cq].node.lineno)
        moved = cx.conf.pair.moved
        have = {moved.get(k.qualname, k.qualname) for k in cur.mro(cq)}
        for k in ref.mro(q):
            if k.qualname not in have and cx.conf.pair.back.get(k.qualname, k.qualname) \
                    in cur.classes:
                o.bad('class_structure', q[N:], where,
                      'no longer a %s' % k.qualname[N:])
        re_, ce = set(ref.external_bases(q)), set(cur.external_bases(cq))
        lost = {b for b in re_ - ce if b and b not in ('object', 'abc.ABC', 'typing.Generic')}
        if lost:
            o.bad('class_structure', q[N:], where, 'external bases lost: %s' % sorted(lost))
        # methods inherited in the reference but overridden now
        for name, f in sorted(cur.classes[cq].methods.items()):
            rf = ref.find_method(q, name)
            if rf is None or rf.qualname == q + '.' + name:
                continue
            v = cx.conf.override_verdict(q, name)
            if v is not None and v.status == 'REFUTED':
                o.bad('class_structure', '%s.%s' % (q[N:], name), where,
                      'override behaves differently from the inherited method: %s' % v.why)
    return o


# ------------------------------------------------------------------ functions a rule looks at
def changed_functions(cx, equal=False):
    """functions of the cone not shown equal to the reference, and the new functions they reach;
    what is shown equal needs no further argument, unless the rule is about something the value
    graphs do not tell apart (equal)"""
    memo = cx.__dict__.setdefault('_changed', {})
    if equal in memo:
        return memo[equal]
    cur, ref, pair = cx.cur, cx.ref, cx.conf.pair
    todo, out = [], []
    for q in sorted(cx.verdicts):
        if cx.verdicts[q].status == 'EQUAL' and not equal:
            continue
        f = pair.resolve('cur', q)
        if f is not None:
            todo.append(f)
    seen = set()
    known = {pair.back.get(q, q) for q in ref.funcs}
    while todo:
        f = todo.pop()
        if f.qualname in seen:
            continue
        seen.add(f.qualname)
        out.append(f)
        for n in ast.walk(f.node):
            d = None
            if isinstance(n, ast.Name):
                d = f.module.dotted(n)
            elif isinstance(n, ast.Attribute):
                if isinstance(n.value, ast.Name) and n.value.id in ('self', 'cls') and f.cls:
                    m = cur.find_method(f.cls.qualname, n.attr)
                    d = m.qualname if m else None
                else:
                    d = f.module.dotted(n)
            d = cur.canonical(d) if d else None
            if d in cur.funcs and d not in known:
                todo.append(cur.funcs[d])
            elif d in cur.classes and d not in {pair.back.get(q, q) for q in ref.classes}:
                todo.extend(cur.classes[d].methods.values())
    memo[equal] = sorted(out, key=lambda f: f.qualname)
    return memo[equal]


def cone_functions(cx):
    out = []
    for q in sorted(cx.verdicts):
        f = cx.conf.pair.resolve('cur', q)
        if f is not None:
            out.append(f)
    return out


def new_sites(cx, finder, rule, minimum=0, equal=False):
    """sites found in changed functions beyond those the reference module already has"""
    o = Outcome(minimum)
    o.instances = len(cone_functions(cx))
    cur, ref = cx.cur, cx.ref
    per_ref, per_cur = {}, {}
    changed = changed_functions(cx, equal)
    mods = {f.module.name for f in changed}
    for prog, per in ((ref, per_ref), (cur, per_cur)):
        for f in prog.funcs.values():
            if f.module.name in mods:
                for key, node, what in finder(prog, f):
                    per.setdefault((f.module.name, key), []).append((f, node, what))
    names = {f.qualname for f in changed}
    for (mod, key), sites in sorted(per_cur.items()):
        spare = len(per_ref.get((mod, key), ()))
        o.notes.append('%s %s: %d (reference %d)' % (mod[N:], key, len(sites), spare))
        if len(sites) <= spare:
            continue
        for f, node, what in sites:
            if f.qualname not in names:
                continue
            if any(rf.qualname == f.qualname for rf, _, _ in per_ref.get((mod, key), ())):
                continue
            o.bad(rule, f.qualname[N:], '%s:%d' % (f.module.relpath, node.lineno), what)
    return o


def parents(fn):
    p = {}
    for n in ast.walk(fn):
        for c in ast.iter_child_nodes(n):
            p[c] = n
    return p


# ------------------------------------------------------------------ order of sets
SET_ANN = re.compile(r'^(typing\.)?(Optional\[)?\s*(typing\.)?(Set|FrozenSet|AbstractSet|set|frozenset)\b')
SET_METHODS = {'union', 'intersection', 'difference', 'symmetric_difference'}
BLIND = {'set', 'frozenset', 'sorted', 'any', 'all', 'len', 'sum', 'min', 'max', 'bool',
         'collections.Counter', 'Counter'}
ORDERED = {'list', 'tuple', 'enumerate', 'iter', 'map', 'filter', 'zip', 'itertools.chain',
           'dict.fromkeys', 'collections.OrderedDict', 'collections.deque', 'next', 'reversed'}


class SetTypes:
    def __init__(self, prog, f):
        self.prog, self.f = prog, f
        self.names = {}
        a = f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            self.names[x.arg] = bool(x.annotation is not None and SET_ANN.match(
                ast.unparse(x.annotation)))
        for _ in range(3):
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 \
                        and isinstance(n.targets[0], ast.Name):
                    k, v = n.targets[0].id, self.is_set(n.value)
                    if isinstance(n.value, ast.Constant) and n.value.value is None:
                        continue
                    self.names[k] = v and self.names.get(k, True)
                elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                    self.names[n.target.id] = bool(SET_ANN.match(ast.unparse(n.annotation)))
                elif isinstance(n, (ast.For, ast.comprehension)):
                    for t in ast.walk(n.target):
                        if isinstance(t, ast.Name):
                            self.names[t.id] = False

    def is_set(self, e):
        if isinstance(e, (ast.Set, ast.SetComp)):
            return True
        if isinstance(e, ast.Name):
            return bool(self.names.get(e.id))
        if isinstance(e, ast.BoolOp):
            return any(self.is_set(v) for v in e.values)
        if isinstance(e, ast.IfExp):
            return self.is_set(e.body) or self.is_set(e.orelse)
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub,
                                                          ast.BitXor)):
            def keys(x):
                return isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) \
                    and x.func.attr in ('keys', 'items') and not x.args
            return self.is_set(e.left) or self.is_set(e.right) or keys(e.left) and keys(e.right)
        if isinstance(e, ast.Call):
            d = self.f.module.dotted(e.func)
            if d in ('set', 'frozenset'):
                return True
            if isinstance(e.func, ast.Attribute) and e.func.attr in SET_METHODS:
                return self.is_set(e.func.value)
            if isinstance(e.func, ast.Attribute) and e.func.attr == 'copy':
                return self.is_set(e.func.value)
            c = self.prog.canonical(d) if d else None
            if c in self.prog.funcs:
                r = self.prog.funcs[c].node.returns
                return r is not None and bool(SET_ANN.match(ast.unparse(r)))
        return False


def order_blind_body(body):
    """the statements have the same effect in whatever order the loop runs"""
    for s in body:
        if isinstance(s, (ast.Pass, ast.Continue)):
            continue
        if isinstance(s, ast.If):
            if order_blind_body(s.body) and order_blind_body(s.orelse):
                continue
            return False
        if isinstance(s, ast.Return) and (s.value is None or isinstance(s.value, ast.Constant)):
            continue
        if isinstance(s, ast.AugAssign) and isinstance(s.op, (ast.BitOr, ast.BitAnd)):
            continue
        if isinstance(s, ast.AugAssign) and isinstance(s.value, ast.Constant) \
                and isinstance(s.value.value, (int, bool)):
            continue
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) \
                and isinstance(s.value.func, ast.Attribute):
            a = s.value.func.attr
            if a in ('add', 'discard', 'update', 'debug', 'info', 'warning', 'error'):
                continue
        return False
    return True


def set_order_sites(prog, f):
    st = SetTypes(prog, f)
    par = parents(f.node)

    def blind_parent(n):
        p = par.get(n)
        if isinstance(p, ast.Starred):
            p = par.get(p)
        if isinstance(p, ast.Call) and n in p.args:
            d = f.module.dotted(p.func)
            if d in BLIND:
                return True
            if isinstance(p.func, ast.Attribute) and p.func.attr in (
                    SET_METHODS | {'issubset', 'issuperset', 'isdisjoint'}):
                return True
            if isinstance(p.func, ast.Attribute) and p.func.attr == 'update' \
                    and st.is_set(p.func.value):
                return True
            if isinstance(p.func, ast.Attribute) and p.func.attr in (
                    'debug', 'info', 'warning', 'error', 'exception', 'critical'):
                return True
            if d in ORDERED:
                return blind_parent(p)
            if d:
                c = prog.canonical(d)
                if c in prog.funcs and par.get(p) is not None and blind_parent(p):
                    return True
        if isinstance(p, ast.Compare):
            return True
        if isinstance(p, (ast.GeneratorExp, ast.ListComp)) and isinstance(n, ast.comprehension):
            return blind_parent(p)
        if isinstance(p, ast.SetComp):
            return True
        if isinstance(p, ast.BoolOp):
            return blind_parent(p)
        if isinstance(p, ast.For) and p.iter is n:
            return order_blind_body(p.body)
        if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
            name = p.targets[0].id
            uses = [u for u in ast.walk(f.node) if isinstance(u, ast.Name) and u.id == name
                    and isinstance(u.ctx, ast.Load)]
            if any(isinstance(par.get(u), ast.Attribute) and par[u].attr == 'sort' for u in uses):
                return True
            return bool(uses) and all(blind_parent(u) for u in uses)
        return False

    def order_known(e):
        """one element at most, or a literal of constants the reader sees"""
        return isinstance(e, ast.Set) and len(e.elts) < 2

    for n in ast.walk(f.node):
        if isinstance(n, ast.For) and st.is_set(n.iter) and not order_known(n.iter):
            if not order_blind_body(n.body):
                yield 'set-order', n, 'loops over the set %s in hash order' % ast.unparse(n.iter)
        elif isinstance(n, ast.comprehension) and st.is_set(n.iter) and not order_known(n.iter):
            p = par[n]
            if isinstance(p, ast.SetComp) or isinstance(p, (ast.ListComp, ast.GeneratorExp)) \
                    and blind_parent(p):
                continue
            yield 'set-order', n.iter, 'collects the set %s in hash order' % ast.unparse(n.iter)
        elif isinstance(n, ast.Call):
            d = f.module.dotted(n.func)
            if (d in ORDERED or isinstance(n.func, ast.Attribute) and n.func.attr in (
                    'join', 'extend')) and any(st.is_set(a) for a in n.args) \
                    and not blind_parent(n):
                yield 'set-order', n, 'takes a set in hash order: %s' % ast.unparse(n)
            elif isinstance(n.func, ast.Attribute) and n.func.attr == 'pop' and not n.args \
                    and st.is_set(n.func.value):
                yield 'set-order', n, 'takes an arbitrary element: %s' % ast.unparse(n)
            elif d and (d.startswith(('random.', 'uuid.', 'secrets.'))
                        or d in ('hash', 'os.urandom')):
                yield 'random', n, 'value differs from run to run: %s' % ast.unparse(n)
            elif d in ('os.listdir', 'glob.glob', 'os.scandir', 'glob.iglob') \
                    and not blind_parent(n):
                yield 'directory-order', n, 'order of directory entries: %s' % ast.unparse(n)
        if isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.iter, ast.Call) \
                and (f.module.dotted(n.iter.func) or '').endswith('as_completed'):
            if isinstance(n, ast.comprehension):
                p = par[n]
                if isinstance(p, (ast.ListComp, ast.DictComp)):
                    yield 'completion-order', n.iter, 'results in order of completion'
            else:
                for m in ast.walk(n):
                    if isinstance(m, (ast.Yield, ast.YieldFrom)) or isinstance(m, ast.Call) \
                            and isinstance(m.func, ast.Attribute) and m.func.attr in (
                                'append', 'extend', 'write'):
                        yield 'completion-order', n, 'results in order of completion'
                        break


def rule_deterministic_sources(cx):
    """no function takes the elements of a set in hash order, the entries of a directory, the
    results of workers in completion order or a random value into an ordered result"""
    return new_sites(cx, set_order_sites, 'deterministic_sources')


# ------------------------------------------------------------------ resources
ACQUIRE = {'tempfile.mkdtemp': 'directory', 'tempfile.mkstemp': 'file',
           'tempfile.NamedTemporaryFile': 'file', 'tempfile.TemporaryFile': 'file',
           'tempfile.TemporaryDirectory': 'directory', 'open': 'file', 'io.open': 'file',
           'concurrent.futures.ThreadPoolExecutor': 'pool',
           'concurrent.futures.ProcessPoolExecutor': 'pool',
           'multiprocessing.Pool': 'pool', 'contextlib.ExitStack': 'exit stack'}


def resource_sites(prog, f):
    par = parents(f.node)
    for n in ast.walk(f.node):
        if not isinstance(n, ast.Call):
            continue
        d = f.module.dotted(n.func)
        if d is None:
            continue
        kind = ACQUIRE.get(d)
        if kind is None and d.rpartition('.')[2] in ('fopen', 'open') and '.' in d \
                and d.rpartition('.')[0] not in ('os', 'self'):
            kind = 'file'
        if kind is None and d.endswith('auto_download_input_file'):
            kind = 'file'
        if kind is None:
            continue
        p = par.get(n)
        while isinstance(p, (ast.IfExp, ast.BoolOp, ast.NamedExpr, ast.Starred)):
            p = par.get(p)
        if isinstance(p, ast.withitem):
            continue
        if isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and p.func.attr in (
                'enter_context', 'push') or isinstance(p, ast.Call) and (
                    f.module.dotted(p.func) or '').endswith('closing'):
            continue
        if isinstance(p, (ast.Return, ast.Yield)):
            continue    # handed to the caller
        if isinstance(p, ast.Assign) and all(
                isinstance(t, ast.Attribute) for t in p.targets):
            continue    # owned by the object
        names = set()
        if isinstance(p, ast.Assign):
            for t in p.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name):
                        names.add(x.id)
        if names and released(f, p, names, par):
            continue
        yield 'resource-' + kind, n, '%s acquired here is not released on every path: %s' % (
            kind, ast.unparse(n))


def released(f, assign, names, par):
    """named in a finally block or handed to a with statement / an exit callback, or returned"""
    for n in ast.walk(f.node):
        if isinstance(n, ast.Try) and n.finalbody:
            for s in n.finalbody:
                if any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(s)):
                    return True
        elif isinstance(n, ast.withitem):
            if any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(n.context_expr)):
                return True
        elif isinstance(n, ast.Call) and isinstance(n.func, (ast.Attribute, ast.Name)):
            a = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id
            if a in ('enter_context', 'callback', 'push', 'register', 'finalize') and any(
                    isinstance(x, ast.Name) and x.id in names
                    for y in n.args for x in ast.walk(y)):
                return True
        elif isinstance(n, ast.Return) and n.value is not None:
            if any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(n.value)):
                return True
        elif isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) for t in n.targets):
            if isinstance(n.value, ast.Name) and n.value.id in names:
                return True
    return False


def unprotected_yield_sites(prog, f):
    """a generator used as a context manager must clean up although the block raises"""
    if not f.is_contextmanager:
        return
    par = parents(f.node)
    for n in ast.walk(f.node):
        if not isinstance(n, (ast.Yield, ast.YieldFrom)):
            continue
        guarded, s = False, n
        while s is not f.node:
            p = par[s]
            if isinstance(p, ast.Try) and s in p.body and (p.finalbody or p.handlers):
                guarded = True
            if isinstance(p, (ast.With, ast.AsyncWith)):
                guarded = True
            s = p
        if guarded:
            continue
        s, after, done = n, [], False
        while s is not f.node and not done:
            p = par[s]
            for field in ('body', 'orelse', 'finalbody'):
                b = getattr(p, field, None)
                if isinstance(b, list) and s in b:
                    for t in b[b.index(s) + 1:]:
                        after.append(t)
                        if isinstance(t, (ast.Return, ast.Raise)):
                            done = True
            s = p
        calls = [x for t in after for x in ast.walk(t) if isinstance(x, ast.Call)]
        calls = [x for x in calls if not (isinstance(x.func, ast.Attribute) and x.func.attr in (
            'debug', 'info', 'warning'))]
        if calls:
            yield 'yield-cleanup', n, 'not run when the block raises: %s' % ast.unparse(calls[0])


def rule_resources_released(cx):
    """a temporary file or directory, open file or worker pool is owned by a with statement, a
    finally block or an exit callback (or handed on), and what a context manager does after its
    yield runs although the block raises"""
    def both(prog, f):
        yield from resource_sites(prog, f)
        yield from unprotected_yield_sites(prog, f)
    return new_sites(cx, both, 'resources_released')


# ------------------------------------------------------------------ iterating what is changed
SHRINK = {'pop', 'remove', 'clear', 'popitem', 'discard', 'append', 'insert', 'extend', 'add',
          'popleft', 'appendleft'}


def alias_key(e):
    if isinstance(e, (ast.Name, ast.Attribute)):
        return ast.unparse(e)
    return None


def self_mutations(prog, cls_q, seen=None):
    """method -> attributes of self it grows or shrinks, transitively through self calls"""
    out = {}
    if cls_q not in prog.classes:
        return out
    methods = {}
    for k in reversed(prog.mro(cls_q)):
        methods.update(k.methods)
    direct, calls = {}, {}
    for name, m in methods.items():
        ps = m.param_names()
        me = ps[0] if ps else None
        direct[name], calls[name] = set(), set()
        for n in ast.walk(m.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                v = n.func.value
                if n.func.attr in SHRINK and isinstance(v, ast.Attribute) \
                        and isinstance(v.value, ast.Name) and v.value.id == me:
                    direct[name].add(v.attr)
                elif isinstance(v, ast.Name) and v.id == me:
                    calls[name].add(n.func.attr)
            elif isinstance(n, ast.Delete):
                for t in n.targets:
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) \
                            and isinstance(t.value.value, ast.Name) and t.value.value.id == me:
                        direct[name].add(t.value.attr)
    change = True
    while change:
        change = False
        for n, cs in calls.items():
            for c in cs:
                new = direct.get(c, set()) - direct[n]
                if new:
                    direct[n] |= new
                    change = True
    return direct


def leaves_loop(stmts, node, par, loop):
    """the loop is left straight after the change"""
    s = node
    while s is not loop:
        p = par[s]
        for field in ('body', 'orelse', 'finalbody'):
            b = getattr(p, field, None)
            if isinstance(b, list) and s in b:
                for t in b[b.index(s):]:
                    if isinstance(t, (ast.Return, ast.Break, ast.Raise)):
                        return True
        s = p
    return False


def is_bound(n, name):
    return isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store)


def is_element(f, e):
    """a parameter said to be an element of a tree"""
    if not isinstance(e, ast.Name) or any(is_bound(n, e.id) for n in own_nodes(f.node)):
        return False
    a = f.node.args
    return any(x.arg == e.id and x.annotation is not None
               and ast.unparse(x.annotation).split('.')[-1] in ('Element', '_Element')
               for x in a.posonlyargs + a.args + a.kwonlyargs)


def iterate_change_sites(prog, f):
    par = parents(f.node)
    muts = self_mutations(prog, f.cls.qualname) if f.cls is not None else {}
    me = f.param_names()[0] if f.cls is not None and f.param_names() else None
    for loop in ast.walk(f.node):
        if not isinstance(loop, ast.For):
            continue
        it = loop.iter
        views = ('items', 'keys', 'values', 'iter', 'iterchildren', 'iterdescendants',
                 'itersiblings', 'getiterator', 'itertext')
        tree = False
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in (
                'enumerate', 'iter', 'reversed') and len(it.args) == 1:
            if it.func.id == 'reversed':
                continue
            it = it.args[0]
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) \
                and it.func.attr in views:
            tree = it.func.attr not in ('items', 'keys', 'values')
            it = it.func.value
        key = alias_key(it)
        if key is None:
            continue
        # rebound inside the loop: another object
        if isinstance(it, ast.Name) and any(
                isinstance(x, ast.Name) and x.id == it.id and isinstance(x.ctx, ast.Store)
                for s in loop.body for x in ast.walk(s)):
            continue
        for s in loop.body:
            for n in ast.walk(s):
                hit = None
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    if n.func.attr in SHRINK and alias_key(n.func.value) == key:
                        hit = n
                    elif n.func.attr in ('addprevious', 'addnext', 'append', 'insert') and n.args \
                            and isinstance(loop.target, ast.Name) \
                            and is_name(n.args[-1], loop.target.id) and is_element(f, it):
                        # a child put somewhere else is no longer in the element
                        hit = n
                    elif isinstance(n.func.value, ast.Name) and n.func.value.id == me \
                            and key.startswith('%s.' % me) \
                            and key[len(me) + 1:] in muts.get(n.func.attr, ()):
                        hit = n
                elif isinstance(n, ast.Delete) and any(
                        isinstance(t, ast.Subscript) and alias_key(t.value) == key
                        for t in n.targets):
                    hit = n
                if hit is not None and not leaves_loop(loop.body, hit, par, loop):
                    yield 'iterate-change', hit, 'changes %s while iterating over it: %s' % (
                        key, ast.unparse(hit))
        del tree


def keeps(prog, f, e, name):
    """the value e is, or holds on to, the object called name"""
    if is_name(e, name):
        return True
    if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
        return any(keeps(prog, f, x, name) for x in e.elts)
    if isinstance(e, ast.Dict):
        return any(keeps(prog, f, x, name) for x in e.values)
    if isinstance(e, ast.Call):
        c = prog.canonical(f.module.dotted(e.func) or '')
        if c in prog.classes:
            return any(keeps(prog, f, x, name) for x in e.args + [k.value for k in e.keywords])
    return False


def hands_over(prog, f, s, name):
    for n in ast.walk(s):
        if isinstance(n, ast.Yield) and n.value is not None and keeps(prog, f, n.value, name):
            return n
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                'append', 'add', 'insert', 'appendleft') and any(
                    keeps(prog, f, a, name) for a in n.args):
            return n
        if isinstance(n, ast.Assign) and keeps(prog, f, n.value, name) and any(
                isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets):
            return n
    return None


def emptied(s, name):
    for n in ast.walk(s):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                and n.func.attr == 'clear' and is_name(n.func.value, name):
            return n
        ts = n.targets if isinstance(n, (ast.Delete, ast.Assign)) else ()
        for t in ts:
            if isinstance(t, ast.Subscript) and is_name(t.value, name) \
                    and isinstance(t.slice, ast.Slice) and t.slice.lower is None \
                    and t.slice.upper is None:
                return n
    return None


def emptied_sites(prog, f):
    """a container is emptied after it was handed to somebody who may keep it"""
    fresh = {t.id for n in own_nodes(f.node) if isinstance(n, (ast.Assign, ast.AnnAssign))
             and isinstance(n.value, (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp))
             for t in (n.targets if isinstance(n, ast.Assign) else [n.target])
             if isinstance(t, ast.Name)}
    fresh &= {n.value.id for n in ast.walk(f.node)
              if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.value, ast.Name)}
    if not fresh:
        return
    done = set()
    for n in ast.walk(f.node):
        for block in (getattr(n, a, None) for a in ('body', 'orelse', 'finalbody')):
            if not isinstance(block, list):
                continue
            for name in sorted(fresh):
                given = None
                for s in block:
                    e = emptied(s, name)
                    if given is not None and e is not None and e not in done:
                        done.add(e)
                        yield 'emptied', e, '%s is emptied after it was handed over by %s' % (
                            name, ast.unparse(given)[:80])
                    if any(is_bound(x, name) for x in ast.walk(s)):
                        given = None
                    else:
                        given = hands_over(prog, f, s, name) or given


def stale_view_sites(prog, f):
    """what was only another name for a part of an object is used after the object was emptied"""
    for n in ast.walk(f.node):
        for block in (getattr(n, a, None) for a in ('body', 'orelse', 'finalbody')):
            if not isinstance(block, list):
                continue
            for i, s in enumerate(block):
                if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
                        s.targets[0], ast.Name) and isinstance(s.value, ast.Attribute)
                        and s.value.attr in ('attrib', 'tokens', 'items', 'data', 'children')
                        and isinstance(s.value.value, ast.Name)):
                    continue
                name, owner, hit = s.targets[0].id, s.value.value.id, None
                for t in block[i + 1:]:
                    if any(is_bound(x, name) or is_bound(x, owner) for x in ast.walk(t)):
                        break
                    if hit is not None and any(
                            is_name(x, name) and isinstance(x.ctx, ast.Load)
                            for x in ast.walk(t)):
                        yield 'stale', t, '%s is %s itself, which is emptied before: %s' % (
                            name, ast.unparse(s.value), ast.unparse(hit))
                        break
                    if isinstance(t, ast.Expr) and isinstance(t.value, ast.Call) and isinstance(
                            t.value.func, ast.Attribute) and t.value.func.attr == 'clear' \
                            and ast.unparse(t.value.func.value) in (owner, ast.unparse(s.value)):
                        hit = t


def changing_sites(prog, f):
    yield from iterate_change_sites(prog, f)
    yield from stale_view_sites(prog, f)
    yield from emptied_sites(prog, f)


def rule_stable_iteration(cx):
    """no loop changes the collection it iterates over (elements would be skipped), neither
    directly nor through a method of the same object; nothing is emptied after it was handed over"""
    return new_sites(cx, changing_sites, 'stable_iteration', equal=True)


# ------------------------------------------------------------------ errors
BROAD = {None, 'Exception', 'BaseException'}


def swallow_sites(prog, f):
    par = parents(f.node)
    for n in ast.walk(f.node):
        if isinstance(n, ast.ExceptHandler):
            ts = n.type.elts if isinstance(n.type, ast.Tuple) else [n.type]
            names = {f.module.dotted(t) if t is not None else None for t in ts}
            if not names & BROAD:
                continue
            if any(isinstance(x, ast.Raise) for s in n.body for x in ast.walk(s)):
                continue
            yield 'swallow', n, 'any error is dropped here: %s' % ast.unparse(n).split('\n')[0]
        elif isinstance(n, ast.Call) and (f.module.dotted(n.func) or '') in (
                'contextlib.suppress', 'suppress') and any(
                    f.module.dotted(a) in BROAD for a in n.args):
            yield 'swallow', n, 'any error is dropped here: %s' % ast.unparse(n)
        elif isinstance(n, (ast.Return, ast.Break, ast.Continue)):
            s = n
            while s in par:
                p = par[s]
                if isinstance(p, ast.Try) and s in p.finalbody:
                    yield 'swallow', n, 'leaving a finally block drops the error: %s' % \
                        ast.unparse(n)
                    break
                if isinstance(p, (ast.FunctionDef, ast.Lambda)) or isinstance(
                        p, (ast.For, ast.While)) and not isinstance(n, ast.Return):
                    break
                s = p


    for n, what in dropped_futures(prog, f, par):
        yield 'future', n, what


ASYNC = ('apply_async', 'map_async', 'starmap_async')
LAZY_MAP = ('imap', 'imap_unordered')


def dropped_futures(prog, f, par):
    """errors of background work that nobody asks for"""
    pools = {i.optional_vars.id for w in ast.walk(f.node) if isinstance(w, ast.With)
             for i in w.items if isinstance(i.optional_vars, ast.Name)
             and isinstance(i.context_expr, ast.Call)
             and (f.module.dotted(i.context_expr.func) or '').endswith('PoolExecutor')}
    attrs = [n for n in ast.walk(f.module.tree) if isinstance(n, ast.Attribute)]
    asked = any(a.attr in ('result', 'exception') for a in attrs)
    got = any(isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'get'
              and len(c.args) + len(c.keywords) < 2 and not any(
                  isinstance(a, ast.Constant) and isinstance(a.value, str) for a in c.args)
              for c in ast.walk(f.module.tree))
    for n in ast.walk(f.node):
        if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)):
            continue
        recv = n.func.value
        p = par.get(n)
        alone = isinstance(p, ast.Expr) or isinstance(p, ast.Attribute) and p.attr in (
            'wait', 'ready', 'successful')
        if n.func.attr in ASYNC and (alone or not got) and not any(
                k.arg == 'error_callback' for k in n.keywords):
            yield n, 'nobody asks for the outcome of this work: %s' % ast.unparse(n)[:120]
        elif n.func.attr in LAZY_MAP and alone:
            yield n, 'the results of this work are never asked for: %s' % ast.unparse(n)[:120]
        if isinstance(recv, ast.Name) and recv.id in pools:
            if n.func.attr == 'map' and isinstance(par.get(n), ast.Expr):
                yield n, 'nobody asks for the outcome of this work: %s' % ast.unparse(n)[:120]
            elif n.func.attr == 'submit' and not asked:
                yield n, 'nobody asks for the outcome of this work: %s' % ast.unparse(n)[:120]
    called = [prog.funcs.get(prog.canonical(f.module.dotted(c.func)) or '') for c in ast.walk(f.node)
              if isinstance(c, ast.Call) and f.module.dotted(c.func)]
    if any(isinstance(x, ast.Raise) for g in [f] + [c for c in called if c is not None]
           for x in ast.walk(g.node)):
        return
    for n in ast.walk(f.node):
        if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
                and n.func.attr == 'result' and isinstance(n.func.value, ast.Name)):
            continue
        me = n.func.value.id
        s = n
        while s in par and not isinstance(par[s], (ast.FunctionDef, ast.Lambda)):
            p = par[s]
            tests = []
            if isinstance(p, (ast.If, ast.IfExp)) and s is not p.test:
                body = p.body if isinstance(p.body, list) else [p.body]
                tests = [(p.test, s in body)]
            elif isinstance(p, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                tests = [(t, True) for g in p.generators for t in g.ifs]
            for t, holds in tests:
                if without_error(t, me, holds):
                    yield n, 'the outcome is only asked for when there was no error: %s' % \
                        ast.unparse(t)
                    break
            s = p


def without_error(test, name, holds):
    """the test taken this way says that the work called name did not fail"""
    if isinstance(test, ast.BoolOp):
        return isinstance(test.op, ast.And) == holds and any(
            without_error(v, name, holds) for v in test.values)
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return without_error(test.operand, name, not holds)
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(
            test.comparators[0], ast.Constant) and test.comparators[0].value is None:
        if isinstance(test.ops[0], (ast.Is, ast.Eq)):
            return without_error(test.left, name, not holds)
        if isinstance(test.ops[0], (ast.IsNot, ast.NotEq)):
            return without_error(test.left, name, holds)
    return not holds and isinstance(test, ast.Call) and isinstance(test.func, ast.Attribute) \
        and test.func.attr == 'exception' and isinstance(test.func.value, ast.Name) \
        and test.func.value.id == name


def rule_no_swallowed_errors(cx):
    """no handler for every exception, suppress(), jump out of a finally block or background work
    nobody asks about drops an error"""
    return new_sites(cx, swallow_sites, 'no_swallowed_errors')


# ------------------------------------------------------------------ progress of loops
class Path:
    """one way through a loop body: what was tested and assigned, how it ends"""
    def __init__(self, tests=(), assigns=(), end='next'):
        self.tests, self.assigns, self.end = tests, assigns, end

    def plus(self, tests=(), assigns=(), end=None):
        return Path(self.tests + tuple(tests), self.assigns + tuple(assigns), end or self.end)


def body_paths(stmts, paths, limit=400):
    for s in stmts:
        out = [p for p in paths if p.end != 'next']
        for p in paths:
            if p.end != 'next':
                continue
            if isinstance(s, ast.If):
                out += body_paths(s.body, [p.plus(tests=[s.test])])
                out += body_paths(s.orelse, [p.plus(tests=[s.test])])
            elif isinstance(s, (ast.Return, ast.Raise, ast.Break)):
                out.append(p.plus(end='leave'))
            elif isinstance(s, ast.Continue):
                out.append(p.plus(end='back'))
            elif isinstance(s, ast.With):
                out += body_paths(s.body, [p])
            elif isinstance(s, (ast.For, ast.While, ast.Try)) or hasattr(ast, 'Match') \
                    and isinstance(s, ast.Match):
                if any(isinstance(x, (ast.Return, ast.Raise, ast.Break, ast.Continue))
                       for x in ast.walk(s)):
                    return None
                inner = [x for x in ast.walk(s) if isinstance(x, (
                    ast.Assign, ast.AugAssign, ast.AnnAssign, ast.NamedExpr))]
                out.append(p.plus(assigns=inner, tests=[
                    x.test for x in ast.walk(s) if isinstance(x, (ast.If, ast.While))]))
            else:
                tests = [x for x in ast.walk(s) if isinstance(x, (ast.IfExp, ast.Assert))]
                out.append(p.plus(assigns=[s] + [x for x in ast.walk(s) if isinstance(
                    x, ast.NamedExpr)], tests=[x.test for x in tests]))
        if any(x is None for x in out) or len(out) > limit:
            return None
        paths = out
    return paths


def stored(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)
            and isinstance(x.ctx, ast.Store)}


def loaded(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}


def advances(value, v, up, path, seen=()):
    """why the new value may be where the old one was, or None"""
    if isinstance(value, ast.BinOp) and isinstance(value.op, ast.Add if up else ast.Sub):
        return None
    if isinstance(value, ast.Call) and isinstance(value.func, ast.Name) \
            and value.func.id in ('max', 'min') and len(value.args) > 1:
        if (value.func.id == 'max') == up:
            if any(advances(a, v, up, path, seen) is None for a in value.args):
                return None
        return '%s may be %s itself' % (ast.unparse(value), v)
    if isinstance(value, ast.Name) and value.id == v:
        return '%s is left as it is' % v
    names = loaded(value) - {v}
    if isinstance(value, ast.Name) and value.id not in seen:
        for s in path.assigns:
            if isinstance(s, ast.Assign) and value.id in {
                    n for t in s.targets for n in stored(t)} and isinstance(
                        s.targets[0], ast.Name):
                names |= loaded(s.value)
                if advances(s.value, v, up, path, seen + (value.id,)) is None:
                    return None
    for t in path.tests:
        here = loaded(t)
        if v in here and (here & names or not isinstance(value, ast.Name)):
            return None
        if isinstance(value, ast.Name) and value.id in here:
            return None
        for s in path.assigns:
            # a test that was given a name
            if isinstance(s, ast.Assign) and here & {
                    n for x in s.targets for n in stored(x)} and v in loaded(s.value) and (
                        loaded(s.value) & names):
                return None
    return '%s is not compared with %s' % (ast.unparse(value), v)


def loop_sites(prog, f):
    for w in ast.walk(f.node):
        if not (isinstance(w, ast.While) and isinstance(w.test, ast.Compare)
                and len(w.test.ops) == 1):
            continue
        op, a, b = w.test.ops[0], w.test.left, w.test.comparators[0]
        if isinstance(op, (ast.Gt, ast.GtE)):
            a, b = b, a
        elif not isinstance(op, (ast.Lt, ast.LtE)):
            continue
        assigned = {n for x in ast.walk(w) for n in (stored(x) if isinstance(
            x, ast.stmt) and x is not w else ())}
        if isinstance(a, ast.Name) and a.id in assigned and not loaded(b) & assigned:
            v, up = a.id, True
        elif isinstance(b, ast.Name) and b.id in assigned and not loaded(a) & assigned:
            v, up = b.id, False
        else:
            continue
        paths = body_paths(w.body, [Path()])
        if paths is None:
            continue
        for p in paths:
            if p.end == 'leave':
                continue
            why = '%s is left as it is' % v
            for s in p.assigns:
                if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) \
                        and s.target.id == v:
                    wrong = isinstance(s.op, ast.Sub if up else ast.Add) and isinstance(
                        s.value, ast.Constant)
                    none = isinstance(s.value, ast.Constant) and s.value.value == 0
                    why = ast.unparse(s) if wrong or none else None
                elif v in {n for t in getattr(s, 'targets', [getattr(s, 'target', None)])
                           if t is not None for n in stored(t)}:
                    tgt = s.targets[0] if isinstance(s, ast.Assign) else s.target
                    why = advances(s.value, v, up, p) if isinstance(tgt, ast.Name) \
                        and s.value is not None else None
            if why is not None:
                yield 'progress', w, 'the loop while %s may go round without getting further: %s' \
                    % (ast.unparse(w.test), why)
                break


def rule_loop_progress(cx):
    """every way back to the head of a counting loop has moved its counter on"""
    return new_sites(cx, loop_sites, 'loop_progress')


# ------------------------------------------------------------------ state shared between documents
def shared_state_sites(prog, f):
    m = f.module
    # mutable default that is changed
    a = f.node.args
    pos = a.posonlyargs + a.args
    pairs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [
        (x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
    for x, d in pairs:
        mutable = isinstance(d, (ast.List, ast.Dict, ast.Set)) or isinstance(d, ast.Call) and (
            m.dotted(d.func) in ('list', 'dict', 'set', 'collections.defaultdict',
                                 'collections.OrderedDict', 'collections.Counter'))
        if not mutable:
            continue
        if any(isinstance(n, ast.Name) and n.id == x.arg and isinstance(n.ctx, ast.Store)
               for n in ast.walk(f.node)):
            continue
        for n in mutations(f.node, x.arg):
            yield 'mutable-default', n, 'the default of %s is shared by all calls and changed ' \
                'here: %s' % (x.arg, ast.unparse(n))
    # module level collections changed by a function
    local = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name)
             and isinstance(n.ctx, ast.Store)} | set(f.param_names())
    globs = {n for g in ast.walk(f.node) if isinstance(g, ast.Global) for n in g.names}
    for g in sorted(globs):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and n.id == g and isinstance(n.ctx, ast.Store):
                yield 'global', n, 'module variable %s is set here' % g
    for name in sorted((set(m.assigns) - local) | globs):
        if name not in m.assigns:
            continue
        for n in mutations(f.node, name):
            if isinstance(n, ast.Call) and n.func.attr == 'setdefault' or isinstance(
                    n, ast.Assign):
                # a table filled on demand: same value for the same key
                yield 'module-memo', n, 'module variable %s is filled here: %s' % (
                    name, ast.unparse(n))
                continue
            yield 'module-state', n, 'module variable %s is changed here: %s' % (
                name, ast.unparse(n))
    # results kept from call to call
    for d in f.node.decorator_list:
        t = m.dotted(d.func if isinstance(d, ast.Call) else d)
        if t in ('functools.lru_cache', 'functools.cache', 'lru_cache', 'cache'):
            if f.is_generator:
                yield 'cached', d, 'a generator is used up by its first user'
            elif returns_mutable(f):
                yield 'cached', d, 'all callers share one mutable result'
            elif reads_files(prog, f):
                yield 'cached', d, 'the content read is kept although the file changes'
    # class level collection changed through an instance
    if f.cls is not None and f.param_names():
        me = f.param_names()[0]
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                    and n.func.attr in SHRINK | {'update'} \
                    and isinstance(n.func.value, ast.Attribute) \
                    and isinstance(n.func.value.value, ast.Name) and n.func.value.value.id == me:
                attr = n.func.value.attr
                owner = prog.find_class_attr(f.cls.qualname, attr)
                if owner is None or not isinstance(owner[1], (ast.List, ast.Dict, ast.Set,
                                                              ast.Call)):
                    continue
                if any(isinstance(x, ast.Attribute) and x.attr == attr and isinstance(
                        x.ctx, ast.Store) for k in prog.mro(f.cls.qualname)
                        for mm in k.methods.values() for x in ast.walk(mm.node)):
                    continue
                yield 'class-state', n, 'the collection %s of the class is shared by all ' \
                    'instances and changed here: %s' % (attr, ast.unparse(n))


def mutations(fn, name):
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                and n.func.attr in SHRINK | {'update', 'setdefault', 'sort', 'reverse'} \
                and isinstance(n.func.value, ast.Name) and n.func.value.id == name:
            yield n
        elif isinstance(n, (ast.Assign, ast.AugAssign)):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target]
            for t in ts:
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) \
                        and t.value.id == name:
                    yield n
                elif isinstance(n, ast.AugAssign) and isinstance(t, ast.Name) and t.id == name \
                        and isinstance(n.op, (ast.BitOr, ast.Add)):
                    yield n
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) \
                        and t.value.id == name:
                    yield n


MUTABLE_ANN = re.compile(r'\b(List|Dict|Set|list|dict|set|Element|ElementBase|StructuredDocument|'
                         r'Iterable|Iterator|OrderedDict|defaultdict)\b')


def returns_mutable(f):
    r = f.node.returns
    if r is not None and MUTABLE_ANN.search(ast.unparse(r)):
        return True
    for n in walk_own(f.node):
        if isinstance(n, ast.Return) and isinstance(n.value, (
                ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
            return True
    return False


def reads_files(prog, f, depth=4, seen=None):
    seen = seen if seen is not None else set()
    if f.qualname in seen or depth < 0:
        return False
    seen.add(f.qualname)
    for n in ast.walk(f.node):
        if not isinstance(n, ast.Call):
            continue
        d = f.module.dotted(n.func) or ''
        if d == 'open' or d.rpartition('.')[2] in (
                'parse_xml', 'read_all_from_path', 'open', 'exists', 'read_bytes', 'read_text',
                'auto_download_input_file', 'urlopen', 'fopen'):
            return True
        c = prog.canonical(d)
        if c in prog.funcs and reads_files(prog, prog.funcs[c], depth - 1, seen):
            return True
    return False


def rule_no_shared_state(cx):
    """nothing a function changes or keeps outlives the document: no changed mutable default,
    module or class level collection, and no cached result that is mutable or read from a file"""
    return new_sites(cx, shared_state_sites, 'no_shared_state')


# ------------------------------------------------------------------ shipped configuration
def read_conf(path):
    import configparser
    p = configparser.ConfigParser(interpolation=None, delimiters=('=',), strict=False)
    p.optionxform = str
    with open(path, encoding='utf-8') as fp:
        p.read_string(fp.read())
    return {(s, k): ' '.join(v.split()) for s in p.sections() for k, v in p.items(s)}


def rule_shipped_configuration(cx):
    """each entry of the shipped mapping and segmentation configuration has the reviewed value"""
    import os
    o = Outcome(0)
    for name in ('xml-mapping.conf', 'segmentation.conf'):
        a = os.path.join(cx.ref.repo, 'config', name)
        b = os.path.join(cx.cur.repo, 'config', name)
        if not os.path.exists(b):
            o.unknowns.append('config/%s is gone' % name)
            continue
        ra, rb = read_conf(a), read_conf(b)
        for k in sorted(set(ra) | set(rb)):
            o.instances += 1
            if ra.get(k) != rb.get(k):
                o.bad('shipped_configuration', 'config/%s [%s] %s' % ((name,) + k),
                      'config/%s' % name, '%r -> %r' % (ra.get(k), rb.get(k)))
    return o


# ------------------------------------------------------------------ iterators that can be gone through once
ONE_SHOT_EXT = {'map', 'filter', 'zip', 'enumerate', 'reversed', 're.finditer', 'regex.finditer',
                'itertools.groupby', 'itertools.chain', 'itertools.islice', 'itertools.zip_longest',
                'itertools.chain.from_iterable', 'itertools.takewhile', 'itertools.dropwhile',
                'itertools.starmap', 'itertools.product', 'itertools.accumulate'}
ONE_SHOT_METHODS = {'iterancestors', 'iterchildren', 'itertext', 'itersiblings', 'iterdescendants',
                    'finditer', 'iterfind'}
TAKES_ALL = {'list', 'tuple', 'set', 'frozenset', 'sorted', 'sum', 'any', 'all', 'max', 'min',
             'dict', 'collections.Counter', 'Counter', 'typing.Counter', 'collections.OrderedDict',
             'collections.deque', 'functools.reduce', 'len'} | ONE_SHOT_EXT
TAKES_ALL_METHODS = {'join', 'extend', 'update', 'writelines', 'union', 'intersection', 'difference'}
CURSORS = {'next', 'itertools.islice', 'itertools.takewhile', 'itertools.dropwhile', 'iter',
           'itertools.tee'}


def own_nodes(node):
    """nodes of a function without those of functions inside it"""
    stack = list(ast.iter_child_nodes(node))
    while stack:
        n = stack.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef, ast.ClassDef)):
            stack.extend(ast.iter_child_nodes(n))


class OneShot:
    """which functions of a program give, and which go through, an iterator"""
    def __init__(self, prog):
        self.p = prog
        self.gives = {q for q, f in prog.funcs.items() if any(
            isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(f.node))}
        self.by_name = {}
        for q, f in prog.funcs.items():
            if f.cls is not None:
                self.by_name.setdefault(f.name, []).append(q)
        self.decorated = {q for q, f in prog.funcs.items() if f.node.decorator_list}
        self.gives -= self.decorated
        grew = True
        while grew:
            grew = False
            for q, f in prog.funcs.items():
                if q in self.gives or q in self.decorated:
                    continue
                rets = [n.value for n in own_nodes(f.node) if isinstance(n, ast.Return)]
                if rets and all(r is not None and self.is_one_shot(f, r) for r in rets):
                    self.gives.add(q)
                    grew = True
        self.memo = {}
        self.fp = None

    def footprints(self):
        if self.fp is None:
            self.fp = Footprints(self.p)
        return self.fp

    def callee(self, f, call):
        """functions of the package the call may reach"""
        d = f.module.dotted(call.func)
        c = self.p.canonical(d) if d else None
        if c in self.p.funcs:
            return [c]
        if c in self.p.classes:
            m = self.p.find_method(c, '__init__')
            return [m.qualname] if m is not None else []
        if isinstance(call.func, ast.Attribute):
            if isinstance(call.func.value, ast.Name) and call.func.value.id in ('self', 'cls') \
                    and f.cls is not None:
                m = self.p.find_method(f.cls.qualname, call.func.attr)
                if m is not None:
                    return [m.qualname]
            return self.by_name.get(call.func.attr, [])
        return []

    def is_one_shot(self, f, e):
        if isinstance(e, ast.GeneratorExp):
            return True
        if isinstance(e, ast.IfExp):
            return self.is_one_shot(f, e.body) and self.is_one_shot(f, e.orelse)
        if not isinstance(e, ast.Call):
            return False
        d = f.module.dotted(e.func)
        if d in ONE_SHOT_EXT:
            return True
        qs = self.callee(f, e)
        if qs:
            return all(q in self.gives for q in qs)
        return isinstance(e.func, ast.Attribute) and e.func.attr in ONE_SHOT_METHODS

    def takes(self, f, call, arg):
        """the call goes through what it is given as this argument"""
        d = f.module.dotted(call.func)
        if d in TAKES_ALL:
            return True
        if isinstance(call.func, ast.Attribute) and call.func.attr in TAKES_ALL_METHODS:
            return True
        qs = self.callee(f, call)
        return bool(qs) and all(self.param_use(q, call, arg)[0] for q in qs)

    def param_of(self, q, call, arg):
        f = self.p.funcs[q]
        names = f.param_names()
        for k in call.keywords:
            if k.value is arg:
                return k.arg if k.arg in names else None
        for i, a in enumerate(call.args):
            if a is arg:
                bound = f.cls is not None and 'staticmethod' not in ' '.join(f.decorators)
                i += 1 if bound and names and names[0] in ('self', 'cls') else 0
                return names[i] if i < len(names) else None
        return None

    def param_use(self, q, call, arg):
        """(gone through at least once, more than once)"""
        p = self.param_of(q, call, arg)
        if p is None:
            return False, False
        key = (q, p)
        if key not in self.memo:
            self.memo[key] = (False, False)
            f = self.p.funcs[q]
            once = any(True for _ in consumptions(self, f, p))
            again = bool(OneShotFlow(self, f, {p}).run())
            self.memo[key] = (once, again)
        return self.memo[key]


def consumptions(one, f, name):
    """places where what a name stands for is gone through"""
    for n in own_nodes(f.node):
        yield from consumed_by(one, f, n, name)


def is_name(e, name):
    return isinstance(e, ast.Name) and e.id == name and isinstance(e.ctx, ast.Load)


def consumed_by(one, f, n, name):
    if isinstance(n, (ast.For, ast.comprehension)) and is_name(n.iter, name):
        yield n.iter
    elif isinstance(n, ast.Starred) and is_name(n.value, name):
        yield n.value
    elif isinstance(n, ast.YieldFrom) and is_name(n.value, name):
        yield n.value
    elif isinstance(n, ast.Compare):
        for o, c in zip(n.ops, n.comparators):
            if isinstance(o, (ast.In, ast.NotIn)) and is_name(c, name):
                yield c
    elif isinstance(n, ast.Call):
        for a in list(n.args) + [k.value for k in n.keywords]:
            if is_name(a, name) and one.takes(f, n, a):
                yield a


class OneShotFlow:
    """goes through a function and reports where an iterator that may have been used up is gone
    through again"""
    def __init__(self, one, f, params=()):
        self.one, self.f, self.params = one, f, set(params)
        self.found = []
        self.cursors = {a.id for n in own_nodes(f.node) if isinstance(n, ast.Call)
                        and f.module.dotted(n.func) in CURSORS for a in n.args
                        if isinstance(a, ast.Name)}
        self.cursors |= {n.func.value.id for n in own_nodes(f.node) if isinstance(n, ast.Call)
                         and isinstance(n.func, ast.Attribute) and n.func.attr == '__next__'
                         and isinstance(n.func.value, ast.Name)}

    def steps(self, attr):
        """the field is meant to be gone through step by step"""
        return any(isinstance(n, ast.Call) and self.f.module.dotted(n.func) == 'next' and n.args
                   and isinstance(n.args[0], ast.Attribute) and n.args[0].attr == attr
                   for n in ast.walk(self.f.module.tree))

    def run(self):
        state = {p: {'fresh'} for p in self.params}
        self.block(self.f.node.body, state, [], [])
        return self.found

    @staticmethod
    def join(*states):
        live = [s for s in states if s is not None]
        if not live:
            return None
        out = {}
        for s in live:
            for k, v in s.items():
                out.setdefault(k, set()).update(v)
        return out

    def block(self, stmts, state, brk, cont):
        for s in stmts:
            if state is None:
                return None
            state = self.stmt(s, state, brk, cont)
        return state

    def use(self, name, node, state, many):
        st = state.get(name, set())
        if name in self.cursors:
            return
        if 'used' in st or many and 'fresh' in st:
            self.found.append((name, node))
        if 'fresh' in st:
            state[name] = (st - {'fresh'}) | {'used'}

    def probe(self, e, state):
        """asked whether there is anything in it, an iterator always says yes"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            self.probe(e.operand, state)
        elif isinstance(e, ast.BoolOp):
            for v in e.values:
                self.probe(v, state)
        elif isinstance(e, ast.Name):
            if 'fresh' in state.get(e.id, ()) or 'used' in state.get(e.id, ()):
                if e.id not in self.params:
                    self.found.append((e.id, e))
        elif self.one.is_one_shot(self.f, e):
            self.found.append((ast.unparse(e)[:60], e))

    def expr(self, e, state, many=False):
        """the uses inside an expression, in the order of evaluation"""
        if isinstance(e, ast.BoolOp):
            for v in e.values[:-1]:
                self.probe(v, state)
        elif isinstance(e, ast.IfExp):
            self.probe(e.test, state)
        elif isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            self.probe(e.operand, state)
        elif isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) and isinstance(
                e.ctx, ast.Load) and e.value.id not in self.params:
            self.probe(e.value, state)
        if e is None or not isinstance(e, ast.AST):
            return
        if isinstance(e, (ast.Lambda, ast.FunctionDef)):
            return
        if isinstance(e, ast.GeneratorExp) and not many:
            self.comp(e, state, many)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            self.comp(e, state, many)
            return
        if isinstance(e, ast.IfExp):
            self.expr(e.test, state, many)
            a, b = self.copy(state), self.copy(state)
            self.expr(e.body, a, many)
            self.expr(e.orelse, b, many)
            j = self.join(a, b)
            state.clear()
            state.update(j)
            return
        for c in ast.iter_child_nodes(e):
            self.expr(c, state, many)
        for name in list(state):
            if not state[name] & {'fresh', 'used'}:
                continue
            for node in consumed_by(self.one, self.f, e, name):
                self.use(name, node, state, many)
                if isinstance(e, ast.Call) and not (
                        self.f.module.dotted(e.func) in TAKES_ALL):
                    for q in self.one.callee(self.f, e):
                        if self.one.param_use(q, e, node)[1] and name not in self.cursors:
                            self.found.append((name, node))

    def comp(self, e, state, many):
        inner = many
        hidden = {n.id for g in e.generators for n in ast.walk(g.target)
                  if isinstance(n, ast.Name)}
        for i, g in enumerate(e.generators):
            if isinstance(g.iter, ast.Name):
                for name in list(state):
                    if is_name(g.iter, name) and not (i and name in hidden):
                        self.use(name, g.iter, state, inner)
            else:
                self.expr(g.iter, state, inner)
            inner = True
            sub = {k: v for k, v in state.items() if k not in hidden}
            for t in g.ifs:
                self.expr(t, sub, True)
        sub = {k: v for k, v in state.items() if k not in hidden}
        for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
            self.expr(x, sub, True)
        for k in sub:
            state[k] = sub[k]

    @staticmethod
    def copy(state):
        return {k: set(v) for k, v in state.items()}

    def bind(self, target, value, state):
        if isinstance(target, ast.Name):
            if value is not None and self.one.is_one_shot(self.f, value):
                state[target.id] = {'fresh'}
            elif isinstance(value, ast.Name):
                state[target.id] = set(state.get(value.id, {'other'}))
            else:
                state[target.id] = {'other'}
        else:
            for n in ast.walk(target):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    state[n.id] = {'other'}

    def stmt(self, s, state, brk, cont):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            return state
        if isinstance(s, ast.Assign):
            self.expr(s.value, state)
            for t in s.targets:
                if not isinstance(t, ast.Name):
                    self.expr(t, state)
                self.bind(t, s.value, state)
                if isinstance(t, ast.Attribute):
                    # kept: gone through whenever somebody asks
                    if isinstance(s.value, ast.Name):
                        self.use(s.value.id, s.value, state, True)
                    elif self.one.is_one_shot(self.f, s.value) and not self.steps(t.attr):
                        self.found.append((t.attr, s.value))
            return state
        if isinstance(s, ast.AnnAssign):
            self.expr(s.value, state)
            if s.value is not None:
                self.bind(s.target, s.value, state)
            return state
        if isinstance(s, (ast.For, ast.AsyncFor)):
            if isinstance(s.iter, ast.Name):
                if s.iter.id in state:
                    self.use(s.iter.id, s.iter, state, False)
            else:
                self.expr(s.iter, state)
            after = self.loop(s, state, lambda st: self.bind(s.target, None, st))
            return self.block(s.orelse, after, brk, cont) if s.orelse else after
        if isinstance(s, ast.While):
            self.probe(s.test, state)
            self.expr(s.test, state)
            return self.loop(s, state, lambda st: None, s.test)
        if isinstance(s, ast.If):
            self.probe(s.test, state)
            self.expr(s.test, state)
            a = self.block(s.body, self.copy(state), brk, cont)
            b = self.block(s.orelse, self.copy(state), brk, cont)
            return self.join(a, b)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.expr(i.context_expr, state)
            return self.block(s.body, state, brk, cont)
        if isinstance(s, ast.Try):
            before = self.copy(state)
            a = self.block(s.body, state, brk, cont)
            outs = [self.block(s.orelse, a, brk, cont) if a is not None else None]
            for h in s.handlers:
                outs.append(self.block(h.body, self.copy(before), brk, cont))
            j = self.join(*outs)
            return self.block(s.finalbody, j, brk, cont) if j is not None else None
        if isinstance(s, ast.Break):
            brk.append(self.copy(state))
            return None
        if isinstance(s, ast.Continue):
            cont.append(self.copy(state))
            return None
        for c in ast.iter_child_nodes(s):
            self.expr(c, state)
        if isinstance(s, (ast.Return, ast.Raise)):
            if isinstance(s, ast.Return) and isinstance(s.value, ast.Name) and 'used' in state.get(
                    s.value.id, ()) and s.value.id not in self.cursors | self.params:
                self.found.append((s.value.id, s.value))
            return None
        return state

    def loop(self, s, state, enter, test=None):
        head = self.copy(state)
        breaks = []
        for _ in range(2):
            cont = []
            st = self.copy(head)
            enter(st)
            end = self.block(s.body, st, breaks, cont)
            nxt = self.join(end, *cont)
            if nxt is not None and test is not None:
                self.expr(test, nxt)
            head = self.join(head, nxt)
        return self.join(head, *breaks)


_one_shot = {}


def one_shot_of(prog):
    if id(prog) not in _one_shot:
        _one_shot[id(prog)] = (prog, OneShot(prog))
    return _one_shot[id(prog)][1]


def one_shot_sites(prog, f):
    one = one_shot_of(prog)
    seen = set()
    for name, node in OneShotFlow(one, f).run():
        if (name, node.lineno) not in seen:
            seen.add((name, node.lineno))
            yield 'used-up', node, '%s can be gone through once only, and may have been' % name
    # iterators handed over directly to a function that goes through them several times
    for n in own_nodes(f.node):
        if isinstance(n, ast.Call):
            for a in list(n.args) + [k.value for k in n.keywords]:
                if one.is_one_shot(f, a) and f.module.dotted(n.func) not in TAKES_ALL:
                    qs = one.callee(f, n)
                    if qs and all(one.param_use(q, n, a)[1] for q in qs):
                        yield 'handed-over', a, '%s goes through it more than once: %s' % (
                            qs[0].split('.')[-1], ast.unparse(a)[:80])
    yield from group_sites(f)
    yield from lazy_sites(prog, f)


def root_name(e):
    while isinstance(e, (ast.Attribute, ast.Subscript, ast.Call)):
        e = e.func if isinstance(e, ast.Call) else e.value
    return e.id if isinstance(e, ast.Name) else None


def lazy_sites(prog, f):
    """which elements there are is decided while the loop over them changes what decides it"""
    made = {}
    for n in own_nodes(f.node):
        if isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, ast.GeneratorExp):
            for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                if isinstance(t, ast.Name):
                    made[t.id] = n.value
    if not made and not any(isinstance(n, ast.For) and isinstance(n.iter, ast.GeneratorExp)
                            for n in own_nodes(f.node)):
        return
    fp = one_shot_of(prog).footprints()

    def reads(e):
        out = set()
        for n in ast.walk(e):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                out |= set(fp.of_method(n.func.attr, None, False)[0])
            elif isinstance(n, ast.Attribute):
                out.add(n.attr)
        return out

    for n in own_nodes(f.node):
        if not isinstance(n, ast.For):
            continue
        g = made.get(n.iter.id) if isinstance(n.iter, ast.Name) else n.iter
        if not isinstance(g, ast.GeneratorExp):
            continue
        r = set().union(*[reads(t) for c in g.generators for t in c.ifs] or [set()])
        if not r:
            continue
        own = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        for s in n.body:
            for x in ast.walk(s):
                w, who = set(), None
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                    w = set(fp.of_method(x.func.attr, None, True)[1])
                    who = {root_name(x.func)} | {root_name(a) for a in x.args}
                elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                    w, who = {x.attr}, {root_name(x)}
                if w & r and not who & own:
                    yield 'decided-late', x, 'what is still to come of %s depends on what is ' \
                        'changed here: %s' % (ast.unparse(n.iter)[:40], ', '.join(sorted(w & r)))


def group_sites(f):
    m = f.module
    sorted_names = {t.id for n in own_nodes(f.node) if isinstance(n, ast.Assign)
                    and isinstance(n.value, ast.Call) and m.dotted(n.value.func) == 'sorted'
                    for t in n.targets if isinstance(t, ast.Name)}
    sorted_names |= {n.func.value.id for n in own_nodes(f.node) if isinstance(n, ast.Call)
                     and isinstance(n.func, ast.Attribute) and n.func.attr == 'sort'
                     and isinstance(n.func.value, ast.Name)}

    def grouped(e):
        return isinstance(e, ast.Call) and m.dotted(e.func) == 'itertools.groupby'

    def in_order(call):
        x = call.args[0] if call.args else None
        return isinstance(x, ast.Call) and m.dotted(x.func) == 'sorted' or isinstance(
            x, ast.Name) and x.id in sorted_names

    for n in own_nodes(f.node):
        if isinstance(n, ast.Call) and m.dotted(n.func) in ('list', 'tuple', 'sorted', 'dict') \
                and n.args and grouped(n.args[0]):
            yield 'groups-kept', n, 'the groups are used up before they are looked at: %s' % \
                ast.unparse(n)[:80]
        targets = []
        if isinstance(n, ast.For) and grouped(n.iter):
            targets = [(n.target, n.iter, n.body)]
        elif isinstance(n, ast.DictComp) and grouped(n.generators[0].iter) \
                and len(n.generators) == 1:
            targets = [(n.generators[0].target, n.generators[0].iter, n)]
        for target, call, body in targets:
            if not (isinstance(target, ast.Tuple) and len(target.elts) == 2
                    and all(isinstance(t, ast.Name) for t in target.elts)):
                continue
            key, group = (t.id for t in target.elts)
            if isinstance(body, ast.DictComp):
                if is_name(body.value, group):
                    yield 'groups-kept', body, 'the group is kept and used up when the next one ' \
                        'starts: %s' % group
                if is_name(body.key, key) and not in_order(call):
                    yield 'groups-lost', call, 'groups with the same key that are not next to ' \
                        'each other replace one another'
                continue
            for s in body:
                for x in ast.walk(s):
                    if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(
                            x.targets[0], ast.Subscript) and is_name(x.targets[0].slice, key):
                        if is_name(x.value, group):
                            yield 'groups-kept', x, 'the group is kept and used up when the next ' \
                                'one starts: %s' % group
                        table = ast.dump(x.targets[0].value).replace('Store', 'Load')
                        reads = any(ast.dump(y).replace('Store', 'Load') == table
                                    for y in ast.walk(x.value))
                        if not in_order(call) and not reads:
                            yield 'groups-lost', x, 'groups with the same key that are not next ' \
                                'to each other replace one another'
                    elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) \
                            and x.func.attr in ('append', 'setdefault') and any(
                                is_name(a, group) for a in x.args):
                        yield 'groups-kept', x, 'the group is kept and used up when the next one ' \
                            'starts: %s' % group


def rule_iterators_used_once(cx):
    """nothing that can be gone through once only is gone through again, and groups are looked at
    while they are there"""
    return new_sites(cx, one_shot_sites, 'iterators_used_once', equal=True)
