"""Conformance of functions to the reference semantics.

Both sides are summarised by the same gated value graph construction (flow.py);
because terms and gates are hash-consed, equal semantics (modulo the graph's normal
form) means identical nodes.  A function present with the same interface on both sides is a
cut point (opaque call); everything else is entered in place, so extracted or inlined
helpers do not matter.
"""
import ast
import re

from .model import AnalysisBroken
from .flow import Analysis, Limit, MUTATORS
from .footprint import Footprints
from . import terms as tm
from .terms import (
    T, B, TRUE, FALSE, band, bor, bnot, leaves, implies, equiv, sat, show, show_b, atoms_of
)

EQUAL, DIFF, UNKNOWN = 'EQUAL', 'DIFF', 'UNKNOWN'

IO_EXT = {
    'os.makedirs', 'os.remove', 'os.rename', 'os.replace', 'shutil.copy', 'shutil.move',
    'shutil.rmtree', 'open', 'print', 'setattr', 'delattr', 'exec', 'eval', 'sys.exit',
    'warnings.warn', 'input',
}
IO_EXT_PREFIX = (
    'sciencebeam_utils.utils.file_path.', 'sciencebeam_utils.beam_utils.io.',
    'sciencebeam_gym.utils.', 'requests.', 'urllib.', 'tempfile.', 'subprocess.', 'shutil.',
    'apache_beam.', 'concurrent.', 'threading.', 'sciencebeam_trainer_delft.',
)
PURE_EXT = {
    'os.path.basename', 'os.path.dirname', 'os.path.join', 'os.path.splitext', 'os.path.split',
    'sciencebeam_utils.utils.file_path.relative_path',
    'sciencebeam_utils.utils.file_path.join_if_relative_path',
    'sciencebeam_utils.utils.file_path.get_output_file',
    'sciencebeam_utils.beam_utils.io.basename', 'sciencebeam_utils.beam_utils.io.dirname',
}


def sig(fn):
    a = fn.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    d = [ast.dump(x) for x in a.defaults]
    kw = [(x.arg, ast.dump(y) if y is not None else None)
          for x, y in zip(a.kwonlyargs, a.kw_defaults)]
    return (pos, d, kw, a.vararg.arg if a.vararg else None, a.kwarg.arg if a.kwarg else None,
            tuple(sorted(x for x in fn.decorators if x)), fn.is_generator)


def returns_logger(f):
    b = [x for x in f.node.body if not (
        isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
    return (len(b) == 1 and isinstance(b[0], ast.Return) and isinstance(b[0].value, ast.Call)
            and f.module.dotted(b[0].value.func) == 'logging.getLogger')


def is_expression(f):
    """a module level function that is one small expression without calls"""
    b = [x for x in f.node.body if not (
        isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
    if f.cls is not None and f.decorators != ['property'] or f.cls is None and f.decorators \
            or len(b) != 1 or not isinstance(b[0], ast.Return) or b[0].value is None:
        return False
    nodes = list(ast.walk(b[0].value))
    return len(nodes) <= 30 and not any(isinstance(n, (
        ast.Yield, ast.YieldFrom, ast.Await, ast.Lambda, ast.comprehension)) for n in nodes) \
        and not any(isinstance(n, ast.Call) for n in nodes)


def made_here(t):
    """a collection the function itself made: changing it is no effect on anything else"""
    if t.op == 'phi':
        return all(made_here(x) for _, x in t.args[0])
    if t.op in ('seq', 'dict', 'muref'):
        return True
    if t.op == 'const':
        return t.args[1] is None
    if t.op == 'cur':
        return made_here(t.args[0])
    if t.op == 'mu':
        return all(made_here(x) for x in t.args[1:] if isinstance(x, T) and x.op == 'mudef')
    if t.op == 'mudef':
        return all(made_here(x) for x in t.args if isinstance(x, T))
    return False


def changes_own(e):
    return e.kind == 'mcall' and e.term.args[1] in MUTATORS and made_here(e.term.args[0])


def is_self(t):
    return t.op == 'sym' and t.args[0] == 'self'


def self_arg(t):
    """the object a method is called on: the own one, or one made in place"""
    for k, v in t.args[2]:
        if k == 'self':
            ls = [x for _, x in leaves(v)]
            if all(is_self(x) for x in ls):
                return 'self'
            if all(x.op == 'new' or x.op == 'call' and x.args[0].op == 'ocls' for x in ls):
                return 'new'
    return None


class Pair:
    """the current program and the reference"""

    def __init__(self, cur, ref):
        self.cur, self.ref = cur, ref
        self.strict = False
        self.common = set()
        self.changed_sig = []
        self.moved = {}
        for q in list(ref.classes) + list(ref.funcs):
            if q in cur.classes or q in cur.funcs:
                continue
            c = cur.canonical(q)
            if c != q and (c in cur.classes or c in cur.funcs) and c not in ref.classes \
                    and c not in ref.funcs:
                self.moved[c] = q
                if c in cur.classes:
                    for m in cur.classes[c].methods.values():
                        self.moved[m.qualname] = q + '.' + m.qualname.rpartition('.')[2]
        back = {q: c for c, q in self.moved.items()}
        self.back = back
        for q, f in ref.funcs.items():
            g = cur.funcs.get(back.get(q, q))
            if g is None:
                continue
            if sig(f) == sig(g):
                self.common.add(q)
            else:
                self.changed_sig.append(q)
        self.common_cls = {
            q for q, c in ref.classes.items()
            if back.get(q, q) in cur.classes
            and self.same_shape(c, cur.classes[back.get(q, q)])}
        # accessors of a logger are never of interest
        self.trivial = {q for q in self.common if returns_logger(ref.funcs[q])
                        and returns_logger(cur.funcs[back.get(q, q)])}
        # small expressions are entered everywhere
        self.trivial |= {q for q in self.common if is_expression(ref.funcs[q])
                         and not self.overridden(q)}
        self.cache = {}
        self.effectful = None
        self.fps = {}
        self._attr_types = None

    def overridden(self, q):
        owner, _, name = q.rpartition('.')
        return any(name in c.methods for p in (self.ref, self.cur) if owner in p.classes
                   for c in p.subclasses(owner))

    @staticmethod
    def same_shape(a, b):
        return [n for n, _ in a.annotations] == [n for n, _ in b.annotations]

    def footprints(self, which):
        # one table for both sides: a cut point is assumed equal when its users are compared, its
        # own footprint is part of its own comparison
        if 'ref' not in self.fps:
            self.fps['ref'] = Footprints(self.ref)
        return self.fps['ref']

    # ---------------------------------------------------------------- types of parameters
    def param_types(self, q):
        f = self.ref.funcs.get(q)
        out = {}
        if f is None:
            return out
        a = f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            t = self.ann_class(x.annotation, f.module)
            if t:
                out[x.arg] = t
        return out

    def ann_class(self, ann, module):
        if ann is None:
            return None
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode='eval').body
            except SyntaxError:
                return None
        if isinstance(ann, ast.Subscript):
            if (module.dotted(ann.value) or '').endswith('Optional'):
                return self.ann_class(ann.slice, module)
            return None
        d = module.dotted(ann)
        q = self.ref.canonical(d) if d else None
        if q in self.ref.classes and self.back.get(q, q) in self.cur.classes:
            return q
        return None

    def attr_types(self):
        """(class, field) -> class of the field: declared, or assigned from a typed parameter or a
        new instance and nothing else"""
        if self._attr_types is None:
            out = {}
            for q, c in self.ref.classes.items():
                for f in c.methods.values():
                    ps = self.param_types(f.qualname)
                    first = f.param_names()[0] if f.param_names() else None
                    for n in ast.walk(f.node):
                        tgt = ann = val = None
                        if isinstance(n, ast.AnnAssign):
                            tgt, ann, val = n.target, n.annotation, n.value
                        elif isinstance(n, ast.Assign) and len(n.targets) == 1:
                            tgt, val = n.targets[0], n.value
                        if not (isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name)
                                and tgt.value.id == first):
                            continue
                        t = self.ann_class(ann, f.module)
                        if t is None and isinstance(val, ast.Name):
                            t = ps.get(val.id)
                        if t is None and isinstance(val, ast.Call):
                            t = self.ann_class(val.func, f.module) if isinstance(
                                val.func, (ast.Name, ast.Attribute)) else None
                        k = (q, tgt.attr)
                        out[k] = t if k not in out or out[k] == t else None
                for name, ann in c.ann_types.items():
                    t = self.ann_class(ann, c.module)
                    if t:
                        out.setdefault((q, name), t)
            self._attr_types = {k: t for k, t in out.items() if t}
        return self._attr_types

    # ---------------------------------------------------------------- effect classification
    def compute_effectful(self):
        """functions of the reference whose call may have an effect besides its result,
        and those that may raise"""
        if self.effectful is not None:
            return self.effectful
        direct, raising, calls = set(), set(), {}
        self.effectful, self.raising = direct, raising
        self.own_only, on_self, other = set(), {}, set()
        for q in self.ref.funcs:
            calls[q] = set()
            s, _ = self.summary('ref', q)
            if s is None:
                direct.add(q)
                continue
            for e in s.effects:
                if e.kind == 'raise':
                    raising.add(q)
                elif e.kind == 'call' and e.term.op == 'call' and e.term.args[0].op == 'ofunc':
                    calls[q].add((e.term.args[0].args[0], e.unused, self_arg(e.term)))
                elif self.is_effect(e):
                    direct.add(q)
                    if not (e.kind == 'store' and all(
                            x.op == 'store' and is_self(x.args[0]) for _, x in leaves(e.term))):
                        other.add(q)
        # functions that change nothing but the fields of their own object: on an object made in
        # place that is no effect
        changed = True
        while changed:
            changed = False
            for q, cs in calls.items():
                for c, unused, me in cs:
                    if c in direct and q not in direct and not (me == 'new' and c not in other):
                        direct.add(q)
                        changed = True
                    if q not in other and (c in other or c in direct and me is None):
                        other.add(q)
                        changed = True
        self.own_only = direct - other
        changed = True
        while changed:
            changed = False
            for q, cs in calls.items():
                for c, unused, me in cs:
                    if unused and c in raising and q not in raising:
                        raising.add(q)
                        changed = True
        return direct

    def is_effect(self, e):
        k = e.kind
        if k in ('store', 'setitem', 'del', 'raise', 'enter', 'exit'):
            return True
        if k == 'log':
            return False
        t = e.term
        if k == 'mcall':
            name = t.args[1]
            if changes_own(e) and not self.strict:
                return False
            return (name in MUTATORS or name.startswith('set_') or name.startswith('write')
                    or (e.unused and not name.startswith('get_')))
        if k == 'call':
            f = t.args[0]
            if f.op == 'ofunc':
                eff = self.compute_effectful()
                if f.args[0] in self.own_only and self_arg(t) == 'new':
                    return False
                return f.args[0] in eff or f.args[0] not in self.ref.funcs or (
                    e.unused and f.args[0] in self.raising)
            if f.op == 'ocls':
                return False
            if f.op == 'ext':
                if f.args[0] == 'logging.getLogger':
                    return False
                return is_io_ext(f.args[0]) or (
                    e.unused and f.args[0] not in PURE_EXT and not is_pure_builtin(f.args[0]))
            # a function value that is called for its result
            return e.unused
        return True

    # ---------------------------------------------------------------- summaries
    def owner(self, which, q):
        prog = self.cur if which == 'cur' else self.ref
        c = q.rpartition('.')[0]
        if which == 'cur':
            c = self.back.get(c, c)
        return c if c in prog.classes else None

    def resolve(self, which, q):
        """the function that answers to the name: itself, an inherited method, or the
        definition a module re-exports"""
        prog = self.cur if which == 'cur' else self.ref
        if which == 'cur':
            q = self.back.get(q, q)
        f = prog.funcs.get(q)
        if f is not None:
            return f
        cls, _, name = q.rpartition('.')
        if cls in prog.classes:
            return prog.find_method(cls, name)
        c = prog.canonical(q)
        return prog.funcs.get(c) if c else None

    def opaque_for(self, q, inline):
        return (self.common | self.common_cls) - self.trivial - set(inline) - {q}

    def summary(self, which, q, inline=()):
        key = (which, q, frozenset(inline))
        if key in self.cache:
            return self.cache[key]
        prog = self.cur if which == 'cur' else self.ref
        f = self.resolve(which, q)
        if f is None:
            raise AnalysisBroken('function not found: %s' % q)
        opaque = self.opaque_for(q, inline)
        if which == 'cur':
            opaque = {self.back.get(x, x) for x in opaque}
        an = Analysis(prog, opaque=opaque - {f.qualname},
                      types=self.param_types(q), footprints=self.footprints(which),
                      attr_types=self.attr_types(),
                      aliases=self.moved if which == 'cur' else None)
        args = {}
        rf = self.resolve('ref', q)
        owner = self.owner(which, q)
        if owner is not None and f.cls is not None and not f.is_static and f.param_names() \
                and f.cls.qualname != owner:
            args[f.param_names()[0]] = an.sym('self', an.alias(owner))
        if which == 'cur' and rf is not None:
            rn, cn = rf.param_names(), f.param_names()
            ty = self.param_types(q)
            for i, n in enumerate(cn):
                if i < len(rn) and n not in rn and not (i == 0 and f.cls is not None):
                    args[n] = an.sym(rn[i], ty.get(rn[i]))
        try:
            s = an.run(f, args=args or None)
            s.error = None
            s.creates = f.name == '__init__'
        except Limit as e:
            s = None
            self.cache[key] = (None, str(e))
            return self.cache[key]
        except RecursionError:
            self.cache[key] = (None, 'recursion')
            return self.cache[key]
        except AnalysisBroken:
            raise
        except Exception as e:  # one function the engine cannot model decides nothing else
            self.cache[key] = (None, 'internal: %s: %s' % (type(e).__name__, e))
            return self.cache[key]
        self.cache[key] = (s, None)
        return self.cache[key]

    # ---------------------------------------------------------------- comparison
    def compare(self, q, inline=(), what='all'):
        a, ea = self.summary('ref', q, inline)
        b, eb = self.summary('cur', q, inline)
        if a is None or b is None:
            return Result(q, UNKNOWN, [('limit', ea or eb)])
        diffs = self.diffs(a, b, what)
        if diffs:
            # a value is known to be a constant where it was tested for it
            ats = const_tests(a, b)
            gts = gate_tests(a, b)
            if ats and not self.diffs(a, b, what, ats):
                diffs = []
            # a collection with an element under a condition is one of two collections
            elif gts and not self.diffs(a, b, what, gts + ats):
                diffs = []
        if not diffs and what in ('all', 'effects'):
            # changes of own collections whose value is not followed any further
            self.strict = True
            try:
                diffs = [d for d in self.effect_diff(a, b) if changes_own(d[1][1])]
            finally:
                self.strict = False
        if not diffs:
            return Result(q, EQUAL, [], a, b)
        return Result(q, DIFF, diffs, a, b)

    def diffs(self, a, b, what='all', ats=()):
        diffs = []
        if what in ('all', 'ret'):
            ra, rb = split_value(a.ret, ats), split_value(b.ret, ats)
            if not same_value(ra, a.live, rb, b.live):
                diffs.append(('return', (a.live, a.ret), (b.live, b.ret)))
            elif a.live is not b.live and not equiv(a.live, b.live):
                diffs.append(('live', (a.live,), (b.live,)))
        if what in ('all', 'effects'):
            diffs.extend(self.effect_diff(a, b, ats))
        return diffs

    def effects_of(self, s, ats=()):
        acc = {}
        order = []
        for e in s.effects:
            if not self.is_effect(e):
                continue
            for g, leaf in split_leaves(e.term, e.gate, ats):
                gate = band(e.gate, g)
                if s.creates and e.kind == 'store' and not e.loops:
                    # nobody has the new object when its creation fails
                    gate = band(gate, s.live)
                if gate is FALSE:
                    continue
                if e.kind == 'raise':
                    leaf = raise_type(leaf)
                k = (e.kind, tuple(tm._k(lp) for lp in e.loops), leaf.id)
                if k in acc:
                    acc[k][0] = bor(acc[k][0], gate)
                    acc[k][3].append(e.where)
                else:
                    acc[k] = [gate, e, leaf, [e.where]]
                    order.append(k)
        return acc, order

    def effect_diff(self, a, b, ats=()):
        ea, oa = self.effects_of(a, ats)
        eb, ob = self.effects_of(b, ats)
        out = []
        for k in oa:
            if k not in eb:
                out.append(('effect-', ea[k]))
            elif not equiv(ea[k][0], eb[k][0]):
                out.append(('effect-gate', ea[k], eb[k]))
        for k in ob:
            if k not in ea:
                out.append(('effect+', eb[k]))
        return out


class Result:
    def __init__(self, q, status, diffs, ref=None, cur=None):
        self.q, self.status, self.diffs, self.ref, self.cur = q, status, diffs, ref, cur

    def text(self, maxd=6, limit=1500):
        out = ['%s: %s' % (self.q, self.status)]
        for d in self.diffs:
            if d[0] == 'return':
                out.append('  returns (reference): ' + show(d[1][1], 0, maxd)[:limit])
                out.append('  returns (current):   ' + show(d[2][1], 0, maxd)[:limit])
            elif d[0] == 'live':
                out.append('  normal return when (reference): ' + show_b(d[1][0], 0, maxd)[:limit])
                out.append('  normal return when (current):   ' + show_b(d[2][0], 0, maxd)[:limit])
            elif d[0] == 'effect-gate':
                out.append('  effect %s %s at %s' % (
                    d[1][1].kind, show(d[1][2], 0, maxd)[:limit], d[2][3][0]))
                out.append('    when (reference): ' + show_b(d[1][0], 0, maxd)[:limit])
                out.append('    when (current):   ' + show_b(d[2][0], 0, maxd)[:limit])
            elif d[0] in ('effect-', 'effect+'):
                out.append('  %s effect %s %s when %s (%s)' % (
                    'missing' if d[0] == 'effect-' else 'additional', d[1][1].kind,
                    show(d[1][2], 0, maxd)[:limit], show_b(d[1][0], 0, maxd)[:400],
                    d[1][3][0]))
            else:
                out.append('  %s' % (d,))
        return '\n'.join(out)


def const_tests(a, b):
    """(gate, term, constant) of the tests of plain values against a constant"""
    out = {}
    for s in (a, b):
        gates = [s.live] + [g for g, _ in leaves(s.ret)] + [e.gate for e in s.effects] + [
            g for e in s.effects for g, _ in leaves(e.term)]
        for g in gates:
            for x in atoms_of(g):
                if x.op == 'isnone' and x.args[0].op in ('sym', 'attr', 'elem'):
                    out[x.id] = (x, x.args[0], tm.NONE)
                elif x.op == 'eq' and any(y.op == 'const' for y in x.args):
                    c, t = x.args if x.args[0].op == 'const' else x.args[::-1]
                    if t.op in ('sym', 'attr', 'elem'):
                        out[x.id] = (x, t, c)
    return list(out.values()) if len(out) <= 6 else []


def gate_tests(a, b):
    """the conditions of single elements in the collections of results and effects"""
    out = {}

    def walk(t, depth):
        if depth > 8:
            return
        if isinstance(t, tuple):
            for y in t:
                walk(y, depth)
            return
        if not isinstance(t, T):
            return
        if t.op in ('seq', 'dict'):
            for sg in t.args[-1]:
                if not sg[0]:
                    for x in atoms_of(sg[1]):
                        out[x.id] = x
                    walk(sg[2:], depth + 1)
        elif t.op in ('call', 'mcall', 'new', 'tuple', 'kw', 'phi', 'store', 'setitem', 'cat'):
            walk(t.args, depth + 1)

    for s in (a, b):
        for _, leaf in leaves(s.ret):
            walk(leaf, 0)
        for e in s.effects:
            walk(e.term, 0)
    return [(x, None, None) for x in out.values()] if len(out) <= 4 else []


def drop_dead(op, args):
    if op in ('seq', 'dict'):
        args = args[:-1] + (tuple(sg for sg in args[-1] if sg[1] is not FALSE),)
    return tm.mk(op, *args)


def split_leaves(term, gate, ats):
    pairs = list(leaves(term))
    for x, t, c in ats:
        nxt = []
        g1 = tm.atom(x)
        if t is None:
            for g, leaf in pairs:
                if not occurs_in(leaf, x):
                    nxt.append((g, leaf))
                    continue
                for gx, val in ((g1, TRUE), (bnot(g1), FALSE)):
                    gg = band(g, gx)
                    if sat(band(gg, gate)):
                        r = tm.Subst({x: val}, rebuild=drop_dead)(leaf)
                        nxt.extend((band(gg, g2), l2) for g2, l2 in leaves(r))
            pairs = nxt
            continue
        if c is tm.NONE:
            g1 = band(g1, bnot(tm.atom(tm.mk('truth', t))))
        elif isinstance(c.args[1], str) and c.args[1]:
            g1 = band(g1, tm.atom(tm.mk('truth', t)))
        for g, leaf in pairs:
            if not occurs_in(leaf, t):
                nxt.append((g, leaf))
                continue
            yes, no = band(g, g1), band(g, bnot(g1))
            if sat(band(yes, gate)):
                nxt.append((yes, tm.Subst({t: c})(leaf)))
            if sat(band(no, gate)):
                nxt.append((no, leaf))
        pairs = nxt
    return pairs


def split_value(v, ats):
    if not ats or v is None:
        return v
    return tm.phi(split_leaves(v, TRUE, ats))


def occurs_in(x, t):
    seen = set()
    stack = [x]
    while stack:
        y = stack.pop()
        if y is t:
            return True
        if isinstance(y, tuple):
            stack.extend(y)
        elif isinstance(y, B):
            if y.var is not None and ('b', y.id) not in seen:
                seen.add(('b', y.id))
                stack.extend(atoms_of(y))
        elif isinstance(y, T) and y.id not in seen:
            seen.add(y.id)
            stack.extend(a for a in y.args if isinstance(a, (T, B, tuple)))
    return False


def raise_type(t):
    if t.op == 'call':
        return tm.mk('raise', t.args[0])
    if t.op == 'new':
        return tm.mk('raise', tm.mk('ocls', t.args[0]))
    return t


def is_io_ext(q):
    if q in PURE_EXT:
        return False
    return q in IO_EXT or q.startswith(IO_EXT_PREFIX)


def is_pure_builtin(q):
    return q in ('len', 'str', 'int', 'float', 'sorted', 'reversed', 'min', 'max', 'sum', 'abs',
                 'repr', 'isinstance', 'hash', 'id', 'type', 'callable', 'hasattr', 'getattr',
                 'round', 'ord', 'chr')


def same_value(v1, l1, v2, l2):
    if v1 is v2:
        return True
    live = band(l1, l2)
    a = {leaf.id: band(g, l1) for g, leaf in leaves(v1)}
    b = {leaf.id: band(g, l2) for g, leaf in leaves(v2)}
    a = {k: g for k, g in a.items() if sat(g)}
    b = {k: g for k, g in b.items() if sat(g)}
    if set(a) != set(b):
        return False
    return all(equiv(a[k], b[k]) for k in a)


def weight(x, y):
    """how far two terms are apart: number and kind of their innermost differences"""
    if x.op != y.op:
        return 1000
    ds = first_diffs(x, y, None, 12)
    return sum(1 if not isinstance(p, (T, B)) or not isinstance(q, (T, B)) or isinstance(p, T)
               and isinstance(q, T) and p.op == q.op else 3 for _, p, q in ds)


def pair_up(xs, ys):
    """the terms of both sides that are most alike"""
    if len(xs) == 1 or len(xs) > 6:
        return list(zip(xs, ys))
    ws = sorted(((weight(x, y), i, j) for i, x in enumerate(xs) for j, y in enumerate(ys)))
    done_x, done_y, out = set(), set(), []
    for _, i, j in ws:
        if i not in done_x and j not in done_y:
            done_x.add(i)
            done_y.add(j)
            out.append((xs[i], ys[j]))
    return out


def first_diffs(a, b, out=None, limit=6, path=''):
    """innermost positions where two terms / gates differ"""
    out = [] if out is None else out
    if len(out) >= limit or a is b:
        return out
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            out.append((path, a, b))
            return out
        for x, y in zip(a, b):
            first_diffs(x, y, out, limit, path)
        return out
    if isinstance(a, B) and isinstance(b, B):
        aa, bb = atoms_of(a), atoms_of(b)
        ea = [x for x in aa if x not in bb]
        eb = [x for x in bb if x not in aa]
        if len(ea) == len(eb) and ea:
            for x, y in pair_up(ea, eb):
                first_diffs(x, y, out, limit, path + '/gate')
            return out
        out.append((path + '/gate', a, b))
        return out
    if isinstance(a, T) and isinstance(b, T) and a.op == b.op and len(a.args) == len(b.args) \
            and a.op != 'const':
        if a.op == 'phi':
            la = {leaf.id: (g, leaf) for g, leaf in a.args[0]}
            lb = {leaf.id: (g, leaf) for g, leaf in b.args[0]}
            ka = [k for k in la if k not in lb]
            kb = [k for k in lb if k not in la]
            for k in la:
                if k in lb:
                    first_diffs(la[k][0], lb[k][0], out, limit, path + '/phi')
            if len(ka) == len(kb):
                for x, y in pair_up([la[k][1] for k in ka], [lb[k][1] for k in kb]):
                    first_diffs(x, y, out, limit, path + '/phi')
            elif ka or kb:
                out.append((path + '/phi', a, b))
            return out
        if a.op == 'eq' and a.args[0] is not b.args[0] and a.args[1] is not b.args[1]:
            # which side of an equality is written first says nothing
            for x, y in pair_up(list(a.args), list(b.args)):
                first_diffs(x, y, out, limit, path + '/' + a.op)
            return out
        for x, y in zip(a.args, b.args):
            first_diffs(x, y, out, limit, path + '/' + a.op)
        return out
    if a != b:
        out.append((path, a, b))
    return out
