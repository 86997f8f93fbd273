"""Gated value graph construction (interprocedural, path-insensitive walk).

One walk over the syntax tree of an entry function (repository helpers are
entered in place) computes, for every variable, a *guarded value*: a set of value
numbers with the boolean gate under which each is current; joins merge, loops are
summarised by a single generic iteration.  No path is enumerated, nothing of the
analysed code is executed and no solver is involved: gates are BDDs over opaque
tests.  The result is a Summary: guarded return value, guarded effects (calls,
stores, raises) with their loop nests.

Loops, comprehensions, generator functions, any()/all()/next(), zip/enumerate/
range(len()) and dict views map to the same representation; formatting styles, boolean
forms, early returns, local names and helper boundaries do not matter.
"""
import ast
import builtins
import re

from .model import Func, AnalysisBroken, walk_own
from .terms import (
    T, B, TRUE, FALSE, NONE, CTRUE, CFALSE, UNDEF, atom, band, bor, bnot, bors, ite,
    constrain, simplify_on, atoms_of, const, mk, phi, leaves, on, lift, lift_b, Subst, support,
    atom_term, restrict_var, sat, _free_of
)

BUILTIN_NAMES = set(dir(builtins))

MUTATORS = {
    'append', 'extend', 'insert', 'add', 'update', 'clear', 'pop', 'popitem', 'remove',
    'discard', 'sort', 'reverse', 'setdefault', 'write', 'writelines', 'writerow',
    'addprevious', 'addnext', 'replace_child', 'set', 'feed',
}

LOG_METHODS = {
    'debug', 'info', 'warning', 'error', 'exception', 'critical', 'log', 'warn'
}


def occurs(t, xs):
    seen, stack = set(), list(xs)
    while stack:
        y = stack.pop()
        if isinstance(y, tuple):
            stack.extend(y)
        elif isinstance(y, B):
            if y.var is not None and y.id not in seen:
                seen.add(y.id)
                stack.extend(atom_term(i) for i in support(y))
        elif isinstance(y, T) and y.id not in seen:
            if y is t:
                return True
            seen.add(y.id)
            stack.extend(a for a in y.args if isinstance(a, (T, B, tuple)))
    return False


def small(c):
    """an integer constant small enough for the length chain"""
    return c.op == 'const' and c.args[0] == 'num' and isinstance(c.args[1], int) \
        and -1 <= c.args[1] <= 8


class Limit(Exception):
    """analysis budget exceeded or unsupported construct; the caller answers UNKNOWN"""


class Effect:
    __slots__ = ('gate', 'kind', 'term', 'loops', 'where', 'unused', 'raw', 'seq')

    def __init__(self, gate, kind, term, loops, where, unused=False):
        self.gate, self.kind, self.term, self.loops = gate, kind, term, loops
        self.where = where
        self.unused = unused
        self.raw = None

    def __repr__(self):
        return '<%s %r when %r%s @%s>' % (
            self.kind, self.term, self.gate,
            (' in ' + ' in '.join(repr(lp[0]) for lp in self.loops)) if self.loops else '',
            self.where)


class Summary:
    def __init__(self, ret, live, effects, stats):
        self.ret = ret          # guarded return value, valid under `live`
        self.live = live        # gate of normal return
        self.effects = effects
        self.stats = stats

    def of_kind(self, *kinds):
        return [e for e in self.effects if e.kind in kinds]


SELF_ENTER = {
    'contextlib.ExitStack', 'open', 'io.open', 'gzip.open',
    'apache_beam.io.filesystems.FileSystems.open',
    'apache_beam.io.filesystems.FileSystems.create',
}


class Frame:
    __slots__ = ('func', 'module', 'cls', 'env', 'parent_env', 'returns', 'yields', 'depth',
                 'cm_body', 'selfv', 'loop_base', 'local_imports')

    def __init__(self, func, module, cls, env, depth):
        self.func = func
        self.module = module
        self.cls = cls
        self.env = env
        self.parent_env = []
        self.returns = []     # (gate, value) in the frame's own loop depth
        self.yields = None
        self.depth = depth
        self.cm_body = None
        self.selfv = None
        self.loop_base = 0
        self.local_imports = {}


class LoopCtx:
    def __init__(self, entry, base_live):
        self.entry = entry
        self.base_live = base_live
        self.breaks = []      # (gate, env, heap)
        self.continues = []
        self.exits = []       # gates of returns / raises leaving the loop


# operations that answer with a truth value
BOOL_EXT = {'os.path.exists', 'os.path.isfile', 'os.path.isdir', 'os.path.isabs', 'hasattr',
            'callable', 'issubclass'}
BOOL_METHODS = {'startswith', 'endswith', 'isalpha', 'isdigit', 'isspace', 'isupper', 'islower',
                'isalnum', 'isnumeric', 'isdecimal', 'istitle', 'isidentifier', 'issubset',
                'issuperset', 'isdisjoint'}

# texts a value is compared with, in the order they turn up
EQ_TEXTS = {}


NUMERIC_NAME = re.compile(
    r'(^|_)(index|idx|offset|start|end|pos|position|count|size|len|length|num|number|gap|gaps|'
    r'min|max|total|score|ratio|width|height|level|depth|threshold|i|j|n|k)$')
FLOAT_NAME = re.compile(r'(^|_)(score|ratio|threshold|weight|factor)s?$')


def leaf_name(t):
    if t.op == 'sym':
        return t.args[0]
    if t.op == 'attr':
        return t.args[1]
    if t.op == 'mcall':
        return t.args[1]
    if t.op == 'call' and t.args[0].op == 'ofunc':
        return t.args[0].args[0].rpartition('.')[2]
    if t.op == 'cur':
        return leaf_name(t.args[0]) if isinstance(t.args[0], T) else ''
    return ''


def numeric(t):
    if t.op == 'const':
        return t.args[0] == 'num'
    if t.op in ('len', 'sub', 'index', 'neg', 'mul', 'pos'):
        return True
    if t.op == 'add':
        return any(numeric(x) for x in t.args)
    if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in ('int', 'float', 'abs'):
        return True
    n = leaf_name(t)
    return isinstance(n, str) and bool(NUMERIC_NAME.search(n))


def integral(t):
    if t.op == 'const':
        return t.args[0] == 'num' and isinstance(t.args[1], int)
    if t.op in ('len', 'index', 'pos'):
        return True
    if t.op in ('add', 'sub', 'neg'):
        return all(integral(x) for x in t.args)
    if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] == 'int':
        return True
    n = leaf_name(t)
    return isinstance(n, str) and bool(NUMERIC_NAME.search(n)) and not FLOAT_NAME.search(n)


def lin_sum(pairs):
    """coefficients of a sum: ({id: (term, coefficient)}, constant)"""
    acc, c = {}, 0

    def go(t, k):
        nonlocal c
        if t.op == 'const' and t.args[0] == 'num':
            c += k * t.args[1]
        elif t.op == 'add' and numeric(t):
            for x in t.args:
                go(x, k)
        elif t.op == 'sub':
            go(t.args[0], k)
            go(t.args[1], -k)
        elif t.op == 'neg':
            go(t.args[0], -k)
        else:
            old = acc.get(t.id, (t, 0))[1]
            acc[t.id] = (t, old + k)
    for t, k in pairs:
        go(t, k)
    return {i: v for i, v in acc.items() if v[1]}, c


def lin_side(ts, c=0):
    ts = sorted(mk('mul', *sorted((t, const(k)))) if k != 1 else t for t, k in ts)
    if c:
        ts = ts + [const(c)]
    if not ts:
        return const(0)
    return ts[0] if len(ts) == 1 else mk('add', *ts)


def lin_term(lc):
    acc, c = lc
    pos = [(t, k) for t, k in acc.values() if k > 0]
    neg = [(t, -k) for t, k in acc.values() if k < 0]
    if not neg:
        return lin_side(pos, c)
    if not pos and not c and len(neg) == 1 and neg[0][1] == 1:
        return mk('neg', neg[0][0])
    if not pos:
        return mk('sub', const(c), lin_side(neg))
    r = mk('sub', lin_side(pos), lin_side(neg))
    return mk('add', r, const(c)) if c else r


def balance(x, y):
    """both sides of a comparison with the common parts taken off and nothing subtracted"""
    if x.op not in ('add', 'sub', 'neg') and y.op not in ('add', 'sub', 'neg'):
        return x, y
    if not (numeric(x) or numeric(y)):
        return x, y
    acc, c = lin_sum(((y, 1), (x, -1)))
    left = lin_side([(t, -k) for t, k in acc.values() if k < 0], -c if c < 0 else 0)
    right = lin_side([(t, k) for t, k in acc.values() if k > 0], c if c > 0 else 0)
    return left, right


COUNTERS = ('typing.Counter', 'collections.Counter')


def predicate(t):
    """the call of something named as a question"""
    n = leaf_name(t)
    return t.op in ('mcall', 'call') and isinstance(n, str) and bool(
        re.match(r'_?(is|has|contains)(_|junk|digit|space|alpha)', n))


def is_match(t):
    """a match object or None"""
    return t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in (
        're.match', 're.search', 're.fullmatch')


def iterates_field(f):
    """the field an `__iter__` iterates over, if that is all it does"""
    b = [x for x in f.node.body if not (
        isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
    ps = f.param_names()
    if len(b) != 1 or not ps:
        return None
    v = None
    if isinstance(b[0], ast.Return) and isinstance(b[0].value, ast.Call) \
            and isinstance(b[0].value.func, ast.Name) and b[0].value.func.id == 'iter' \
            and len(b[0].value.args) == 1:
        v = b[0].value.args[0]
    elif isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.YieldFrom):
        v = b[0].value.value
    if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == ps[0]:
        return v.attr
    return None


class Analysis:
    def __init__(self, program, opaque=(), types=None, aliases=None, max_depth=40,
                 max_steps=400000, inline_filter=None, pure_ext=(), effect_calls=(),
                 footprints=None, attr_types=None):
        self.p = program
        self.attr_types = attr_types or {}
        self.opaque = set(opaque)
        self.types = types or {}
        self.aliases = aliases or {}
        self.unaliases = {v: k for k, v in self.aliases.items()}
        self.max_depth = max_depth
        self.max_steps = max_steps
        self.inline_filter = inline_filter
        self.effect_calls = set(effect_calls)
        self.steps = 0
        self.heap = {}
        self.live = TRUE
        self.effects = []
        self.loops = []       # LoopCtx stack
        self.frames = []
        self.stack = []       # inlined qualnames
        self.nobj = 0
        self.objs = {}        # id -> info
        self.reads = set()
        self.suppress = 0
        self.global_cache = {}
        self.global_busy = set()
        self.eta_depth = 0
        self.inlined = set()
        self.unknowns = []
        self.muid = 0
        self.try_no = 0
        self.freezing = set()
        self.fp = footprints
        self.wlog = []        # (gate, label, written fields) of operations so far

    # ------------------------------------------------------------ entry
    def sym(self, name, cls=None):
        return mk('sym', name, cls or '')

    def run(self, func, args=None, self_value=None, kwargs=None):
        """summarise func with symbolic parameters (overridable by args)"""
        fr_args = {}
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if func.cls is not None and not func.is_static and names:
            first = names[0]
            if first not in (args or {}):
                fr_args[first] = self_value if self_value is not None else self.sym(
                    'self', self.alias(func.cls.qualname))
        for n in names:
            if n in fr_args:
                continue
            if args and n in args:
                fr_args[n] = args[n]
            else:
                fr_args[n] = self.sym(n, self.types.get(n))
        if a.vararg:
            fr_args[a.vararg.arg] = (args or {}).get(a.vararg.arg, self.sym('*' + a.vararg.arg))
        if a.kwarg:
            fr_args[a.kwarg.arg] = (args or {}).get(a.kwarg.arg, self.sym('**' + a.kwarg.arg))
        mark = len(self.effects)
        live0 = self.live
        ret = self.enter(func, fr_args)
        ret = self.freeze(on(ret, self.live))
        s = Summary(ret, self.live, self.drop_local(
            ret, self.final_stores(self.effects[mark:])), {
            'functions_entered': sorted(self.inlined), 'steps': self.steps,
            'unknowns': list(self.unknowns)})
        self.live = live0
        return s

    def drop_local(self, ret, effects):
        """changes of a collection made here that nothing but the log looks at"""
        def base(e):
            if e.kind in ('setitem', 'mcall', 'del') and e.term.args \
                    and isinstance(e.term.args[0], T):
                t = e.term.args[0]
                if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in (
                        'collections.Counter', 'collections.defaultdict', 'collections.deque',
                        'collections.OrderedDict'):
                    return t
            return None
        cands = {base(e) for e in effects} - {None}
        for t in cands:
            others = [x for e in effects if e.kind != 'log' and base(e) is not t and e.term is not t
                      for x in (e.term, e.gate, e.loops)] + [ret, self.live]
            if not occurs(t, others):
                effects = [e for e in effects if base(e) is not t]
        return effects

    def final_stores(self, effects):
        """attribute stores outside loops: one effect per attribute with its final value"""
        out, seen = [], {}
        for e in effects:
            if e.kind == 'store' and not e.loops and e.raw is not None:
                key = e.raw
                if key in seen:
                    seen[key].gate = bor(seen[key].gate, e.gate)
                    continue
                v = self.heap.get(key)
                if v is not None:
                    fv = self.freeze(on(v, self.live)) if self.live is not FALSE else None
                    if fv is not None and fv is not UNDEF:
                        e = Effect(e.gate, 'store', lift(
                            lambda x, e=e: mk('store', e.term.args[0], e.term.args[1], x), fv),
                            e.loops, e.where, e.unused)
                seen[key] = e
            out.append(e)
        return out

    # ------------------------------------------------------------ helpers
    def where(self, node=None):
        fr = self.frames[-1] if self.frames else None
        if fr is None:
            return '?'
        return '%s:%s (%s)' % (
            fr.module.relpath, getattr(node, 'lineno', '?'),
            fr.func.qualname.split('.', 1)[-1] if fr.func else '<module>')

    def unknown(self, what, node=None):
        self.unknowns.append('%s: %s' % (self.where(node), what))

    def cur_loops(self, base=0):
        return tuple(lc.entry for lc in self.loops[base:])

    def effect(self, kind, term, node, gate=None, unused=False):
        if self.suppress:
            return
        self.effects.append(Effect(
            self.live if gate is None else gate, kind, term, self.cur_loops(),
            self.where(node), unused))

    def step(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Limit('analysis budget exceeded')

    # ------------------------------------------------------------ objects
    def new_obj(self, kind, **info):
        self.nobj += 1
        t = mk(kind, self.nobj)
        info.update(kind=kind, depth=len(self.loops), live=self.live)
        self.objs[t.id] = info
        return t

    def new_list(self, segs=(), kind='list'):
        t = self.new_obj('lobj', seqkind=kind)
        self.heap[(t.id, '#segs')] = tuple(segs)
        return t

    def new_dict(self, segs=()):
        t = self.new_obj('dobj')
        self.heap[(t.id, '#segs')] = tuple(segs)
        return t

    def item(self, v):
        return ((), TRUE, v)

    def ident_segs(self, it):
        """segments of a sequence of unknown content: one generic element"""
        d = sum(1 for lc in self.loops if lc.entry[0] is it)
        e, i = mk('elem', it, d), mk('index', it, d)
        return (((((it, e, i, FALSE),)), TRUE, e),)

    def segs_of(self, v):
        """segments of a sequence value with known structure, else None"""
        if v.op == 'lobj':
            self.reads.add(v.id)
            return self.heap[(v.id, '#segs')]
        if v.op == 'seq':
            return v.args[1]
        if v.op == 'tuple':
            return tuple(self.item(x) for x in v.args)
        if v.op == 'const' and isinstance(v.args[1], str) and len(v.args[1]) < 20:
            return None
        return None

    def seq_kind(self, v):
        if v.op == 'lobj':
            return self.objs[v.id]['seqkind']
        if v.op == 'seq':
            return v.args[0]
        if v.op == 'tuple':
            return 'tuple'
        return None

    def dict_segs(self, v):
        if v.op == 'dobj':
            self.reads.add(v.id)
            return self.heap[(v.id, '#segs')]
        if v.op == 'dict':
            return v.args[0]
        return None

    @staticmethod
    def collapsing(ds):
        """entries of a dictionary made in a loop whose keys are worked out: two of them may be
        the same, so that the entries are not one per iteration"""
        for loops, _gate, key, _value in ds:
            if not loops:
                continue
            mine = {x for lp in loops for x in (lp[1], lp[2])}
            todo = [key]
            while todo:
                k = todo.pop()
                if k in mine:
                    break
                if k.op == 'tuple':
                    todo.extend(k.args)
                elif k.op == 'idx' and k.args[1].op == 'const':
                    todo.append(k.args[0])
                elif k.op == 'mcall' and k.args[1] == 'submit':
                    break
            else:
                if key.op in ('call', 'mcall', 'cat', 'add', 'format', 'join'):
                    return True
        return False

    def fresh_loops(self, loops, *vals):
        """rename bound elements of `loops` that clash with loops being walked"""
        active = {lc.entry[1].id for lc in self.loops}
        m = {}
        out = []
        for it, e, i, u in loops:
            if e.id in active and e.op == 'elem':
                d = e.args[1]
                while mk('elem', it, d).id in active:
                    d += 1
                m[e] = mk('elem', it, d)
                m[i] = mk('index', it, d)
        if not m:
            return loops, vals
        s = self.subst(m)
        for it, e, i, u in loops:
            out.append((s(it), s(e), s(i), s(u)))
        return tuple(out), tuple(s(v) for v in vals)

    def subst(self, m):
        return Subst(m, rebuild=self.rebuild, truth=self.rebuild_atom)

    def rebuild(self, op, args):
        if op == 'attr':
            return lift(lambda x: mk('attr', x, args[1]), args[0])
        if op == 'idx':
            return lift(self.mk_idx, args[0], args[1])
        if op in ('exists',):
            return mk(op, *args)
        return mk(op, *args)

    def rebuild_atom(self, t):
        if isinstance(t, B):
            return t
        if t.op == 'truth':
            return self.truth(t.args[0])
        if t.op == 'isnone':
            return self.is_none(t.args[0])
        if t.op == 'eq':
            return self.eq(t.args[0], t.args[1])
        if t.op == 'exists':
            it, e, i, g = t.args
            return self.exists((it, e, i, FALSE), g)
        return atom(t)

    # ------------------------------------------------------------ freezing
    def freeze(self, v):
        """structural term for a value that escapes the walked code"""
        if v.op == 'phi':
            live = self.live
            out = []
            for g, x in v.args[0]:
                # what is known where this alternative is the value
                self.live = band(live, g) if band(live, g) is not FALSE else live
                out.append((g, self.freeze(x)))
            self.live = live
            return phi(out)
        op = v.op
        if op in ('lobj', 'dobj', 'obj', 'closure', 'bound', 'partial', 'func'):
            if v.id in self.freezing:
                return mk('cyc', op)
            self.freezing.add(v.id)
            try:
                return self._freeze(v)
            finally:
                self.freezing.discard(v.id)
        if op == 'tuple':
            return lift(lambda *xs: mk('tuple', *xs), *[self.freeze(x) for x in v.args])
        if op == 'seq' and v.args[0] == 'gen':
            return self.mk_seq('gen', self.norm_segs(v.args[1]))
        return v

    def norm_segs(self, segs, is_set=False):
        out = []
        care = self.live
        for seg in segs:
            loops, gate = seg[0], simplify_on(seg[1], care)
            if gate is FALSE:
                continue
            if loops and gate is not TRUE:
                # an element exists, so the collection is not empty
                for lp in loops:
                    gate = simplify_on(gate, self.nonempty(lp[0]))
                if gate is FALSE:
                    continue
            vals = [self.freeze(x) for x in seg[2:]]
            # expand guarded items into gated items
            combos = [(gate, ())]
            for val in vals:
                combos = [(band(g, g2), xs + (leaf,)) for g, xs in combos
                          for g2, leaf in leaves(val) if band(g, g2) is not FALSE]
            if len(combos) > 16 or len(combos) == 1:
                out.append((loops, gate) + tuple(vals))
            else:
                for g, xs in sorted(combos, key=lambda c: tuple(x.id for x in c[1])):
                    out.append((loops, g) + xs)
        if is_set:
            uniq = {}
            for s in out:
                k = tuple(lp[0].id for lp in s[0]), s[2].id
                if k in uniq:
                    o = uniq[k]
                    uniq[k] = (o[0], bor(o[1], s[1])) + o[2:]
                else:
                    uniq[k] = s
            out = sorted(uniq.values(), key=lambda s: (s[2].id, s[1].id))
        else:
            # adjacent alternatives are disjoint: a stable order for them
            out = self.sort_disjoint(out)
        return tuple(out)

    def sort_disjoint(self, out):
        """order of alternatives: segments that cannot both contribute for the same
        surrounding elements have no order between them"""
        res = list(out)
        changed = True
        n = 0
        while changed and n < 200:
            changed = False
            n += 1
            for i in range(len(res) - 1):
                a, b = res[i], res[i + 1]
                if a[2:] == b[2:] and a[0] == b[0]:
                    continue
                if self.seg_key(a) > self.seg_key(b) and self.alternatives(a, b):
                    res[i], res[i + 1] = b, a
                    changed = True
        merged = []
        for s in res:
            if merged and merged[-1][0] == s[0] and merged[-1][2:] == s[2:] \
                    and band(merged[-1][1], s[1]) is FALSE:
                o = merged.pop()
                s = (o[0], bor(o[1], s[1])) + s[2:]
            merged.append(s)
        return merged

    @staticmethod
    def seg_key(s):
        return (tuple((lp[0].id, lp[3].id) for lp in s[0]), tuple(x.id for x in s[2:]))

    @staticmethod
    def alternatives(a, b):
        if band(a[1], b[1]) is not FALSE:
            return False
        k = 0
        while k < len(a[0]) and k < len(b[0]) and a[0][k] == b[0][k]:
            k += 1
        if k == len(a[0]) == len(b[0]):
            return True
        for s in (a, b):
            inner = {x for lp in s[0][k:] for x in lp[1:3]}
            if not inner or not (_free_of(s[1]) & inner):
                return True
        return False

    def _freeze(self, v):
        op = v.op
        if op == 'lobj':
            kind = self.objs[v.id]['seqkind']
            segs = self.norm_segs(self.segs_of(v), is_set=kind == 'set')
            return self.mk_seq(kind, segs)
        if op == 'dobj':
            segs = self.norm_segs(self.dict_segs(v))
            if len(segs) == 1 and len(segs[0][0]) == 1 and segs[0][1] is TRUE:
                (it, e, _, u) = segs[0][0][0]
                if u is FALSE and segs[0][2] is e and segs[0][3] is mk('idx', it, e):
                    return it
            if all(x[0] == () and x[2].op == 'const' for x in segs):
                segs = tuple(sorted(segs, key=lambda x: (
                    str(type(x[2].args[1])), str(x[2].args[1]), x[3].id)))
            return mk('dict', segs)
        if op == 'obj':
            info = self.objs[v.id]
            attrs = []
            for (oid, name), val in sorted(
                    ((k, x) for k, x in self.heap.items() if k[0] == v.id),
                    key=lambda kv: kv[0][1]):
                attrs.append((name, self.freeze(on(val, self.live))))
            return mk('new', self.alias(info['cls']), tuple(attrs))
        if op == 'func':
            if self.eta_depth >= 2 or v.args[0] in self.opaque:
                return mk('func', self.alias(v.args[0]))
            return self.eta(v)
        if op == 'bound':
            f = self.p.funcs.get(v.args[1])
            if f is None or self.eta_depth >= 2 or v.args[1] in self.opaque:
                return mk('bound', self.freeze(v.args[0]), self.alias(v.args[1]))
            return self.eta(v)
        if op in ('closure', 'partial'):
            if self.eta_depth >= 2:
                if op == 'partial':
                    return mk('partial', self.freeze(v.args[0]),
                              tuple(self.freeze(x) for x in v.args[1]),
                              tuple((k, self.freeze(x)) for k, x in v.args[2]))
                return mk('closure?')
            return self.eta(v)
        return v

    def mk_seq(self, kind, segs):
        if kind != 'set' and len(segs) == 1 and len(segs[0][0]) == 1 and segs[0][1] is TRUE:
            (it, e, _, u) = segs[0][0][0]
            if u is FALSE and segs[0][2] is e and it.op not in ('while',):
                return it
        if kind in ('gen', 'list', 'iter'):
            kind = 'list'
        if kind == 'tuple' and all(s[0] == () and s[1] is TRUE for s in segs):
            return mk('tuple', *[s[2] for s in segs])
        return mk('seq', kind, segs)

    def alias(self, q):
        return self.aliases.get(q, q)

    def eta(self, v):
        """extensional form of a function value: its summary on generic arguments"""
        try:
            params = self.required_params(v)
        except Limit:
            return mk('fn?', v.op)
        if params is None:
            return mk('func', self.alias(v.args[0])) if v.op == 'func' else mk('fn?', v.op)
        self.eta_depth += 1
        saved = (self.live, self.loops, self.effects, self.heap)
        self.live, self.loops, self.effects, self.heap = TRUE, [], [], dict(self.heap)
        try:
            args = [mk('arg', self.eta_depth, i) for i in range(params)]
            ret = self.call_value(v, args, {}, None)
            ret = self.freeze(on(ret, self.live))
            eff = tuple(
                (e.kind, e.gate, e.term) for e in self.effects
                if e.kind not in ('log', 'raise'))
            return mk('lambda', params, ret, self.live, eff)
        finally:
            self.live, self.loops, self.effects, self.heap = saved
            self.eta_depth -= 1

    def required_params(self, v):
        if v.op == 'func':
            f = self.p.funcs.get(v.args[0])
            if f is None:
                return None
            node, skip = f.node, 0
        elif v.op == 'bound':
            f = self.p.funcs.get(v.args[1])
            if f is None:
                return None
            node, skip = f.node, 1
        elif v.op == 'closure':
            a = self.objs[v.id]['node'].args
            return len(a.posonlyargs + a.args)
        elif v.op == 'partial':
            inner = v.args[0]
            n = self.required_params_names(inner)
            if n is None:
                return None
            n = n[len(v.args[1]):]
            bound = {k for k, _ in v.args[2]}
            return len([x for x in n if x not in bound])
        else:
            return None
        return len(self.required_params_names(v))

    def required_params_names(self, v):
        if v.op == 'func':
            f = self.p.funcs.get(v.args[0])
            node, skip = (f.node, 0) if f else (None, 0)
        elif v.op == 'bound':
            f = self.p.funcs.get(v.args[1])
            node, skip = (f.node, 1) if f else (None, 0)
        elif v.op == 'closure':
            node, skip = self.objs[v.id]['node'], 0
        else:
            return None
        if node is None:
            return None
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        nd = len(a.defaults)
        req = pos[:len(pos) - nd] if nd else pos
        return req[skip:]

    # ------------------------------------------------------------ predicates
    def truth(self, v):
        return lift_b(self._truth, v)

    def _truth(self, t):
        op = t.op
        if op == 'const':
            return TRUE if t.args[1] else FALSE
        if op == 'boolof':
            return t.args[0]
        if op in ('func', 'cls', 'closure', 'bound', 'partial', 'lambda', 'ext', 'new', 'match?'):
            return TRUE
        if op == 'tuple':
            return TRUE if t.args else FALSE
        if op == 'cat':
            if any(x.op == 'const' and x.args[1] for x in t.args):
                return TRUE
            return atom(mk('truth', t))
        if op == 'len':
            return self._truth(t.args[0])
        if op == 'obj':
            info = self.objs[t.id]
            for m in ('__bool__', '__len__'):
                f = self.p.find_method(info['cls'], m)
                if f is not None:
                    r = self.call_func(f, [t], {}, None)
                    return self.truth(r)
            return TRUE
        segs = self.segs_of(t)
        if segs is None and t.op in ('dobj', 'dict'):
            segs = self.dict_segs(t)
        if segs is not None:
            return self.segs_nonempty(segs)
        if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in COUNTERS \
                and len(t.args[1]) == 1 and not t.args[2]:
            return self.truth(t.args[1][0])
        if is_match(t):
            return bnot(atom(mk('isnone', t)))
        return atom(mk('truth', t))

    def segs_nonempty(self, segs):
        by = {}
        for s in segs:
            k = tuple(tuple(x.id for x in lp[:3]) for lp in s[0])
            by[k] = (s[0], bor(by[k][1], s[1]) if k in by else s[1])
        r = FALSE
        for loops, g in by.values():
            for lp in reversed(loops):
                g = self.exists(lp, g)
            r = bor(r, g)
        return r

    def exists(self, lp, g):
        """gate: some element of the loop satisfies g"""
        it, e, i, _u = lp
        if g is FALSE:
            return FALSE
        dep = None
        indep = None
        for v in sorted(support(g)):
            a = atom_term(v)
            if any(x is e or x is i or (x.op == 'muvar' and x.args[0] is it) for x in a.free):
                dep = v
            elif indep is None:
                indep = v
        if indep is not None and dep is not None:
            return ite(atom(atom_term(indep)),
                       self.exists(lp, restrict_var(g, indep, True)),
                       self.exists(lp, restrict_var(g, indep, False)))
        if dep is None:
            return band(g, self.nonempty(it))
        return atom(mk('exists', it, e, i, g))

    def nonempty(self, it):
        if it.op in ('while',):
            return TRUE
        if it.op == 'range':
            return atom(mk('nonempty', it))
        return self.truth(it)

    def is_none(self, v):
        def f(t):
            if t.op == 'const':
                return TRUE if t is NONE else FALSE
            if t.op in ('lobj', 'dobj', 'obj', 'seq', 'dict', 'tuple', 'func', 'cls', 'closure',
                        'bound', 'partial', 'cat', 'new', 'boolof', 'len', 'ext', 'lambda', 'join'):
                return FALSE
            if is_match(t):
                return atom(mk('isnone', t))
            # None is false
            return band(bnot(self._truth(t)), atom(mk('isnone', t)))
        return lift_b(f, v)

    def eq_text(self, c, t):
        """t == c for a text c: at most one of several texts, and it settles the truth of t;
        written as a chain so that every gate over these tests has one form"""
        seen = EQ_TEXTS.setdefault((t.id, bool(c.args[1])), [])
        if c not in seen:
            seen.append(c)
        tr = self._truth(t)
        if c.args[1]:
            r = tr
        else:
            r = band(bnot(tr), bnot(self.is_none(t)))
        for k in seen:
            a = atom(mk('eq', *sorted((k, t))))
            if k is c:
                return band(r, a)
            r = band(r, bnot(a))
        raise AssertionError


    def eq(self, a, b):
        def f(x, y):
            if x is y:
                return TRUE
            # the greater one of two is this one
            for p, q in ((x, y), (y, x)):
                if p.op == 'call' and p.args[0].op == 'ext' and p.args[0].args[0] in (
                        'max', 'min') and len(p.args[1]) == 2 and not p.args[2] and q in p.args[1]:
                    o = p.args[1][0] if p.args[1][1] is q else p.args[1][1]
                    return bnot(self.lt(q, o) if p.args[0].args[0] == 'max' else self.lt(o, q))
            x, y = balance(x, y)
            if x.op == 'const' and y.op == 'const':
                if x.args[0] == y.args[0] or {x.args[0], y.args[0]} <= {'num', 'bool'}:
                    return TRUE if x.args[1] == y.args[1] else FALSE
                return FALSE
            if x is NONE:
                return self.is_none(y)
            if y is NONE:
                return self.is_none(x)
            for p, q in ((x, y), (y, x)):
                if p.op == 'const' and p.args[1] in (True, False) and p.args[0] == 'bool' \
                        and q.op == 'boolof':
                    return q.args[0] if p.args[1] else bnot(q.args[0])
                if p.op == 'const' and q.op == 'len' and small(p):
                    n = p.args[1]
                    return band(self.len_ge(q.args[0], n), bnot(self.len_ge(q.args[0], n + 1)))
            if x.op == 'tuple' and y.op == 'tuple' and len(x.args) == len(y.args):
                r = TRUE
                for p, q in zip(x.args, y.args):
                    r = band(r, self.eq(p, q))
                return r
            fx, fy = self.freeze(x), self.freeze(y)
            if fx is fy:
                return TRUE
            if fx.op == 'phi' or fy.op == 'phi':
                return lift_b(f, fx, fy)
            for p, q in ((fx, fy), (fy, fx)):
                if p.op == 'const' and isinstance(p.args[1], str):
                    return self.eq_text(p, q)
            return atom(mk('eq', *sorted((fx, fy))))
        return lift_b(f, a, b)

    def lt(self, a, b):
        def f(x, y):
            x, y = balance(x, y)
            if x.op == 'const' and y.op == 'const':
                try:
                    return TRUE if x.args[1] < y.args[1] else FALSE
                except TypeError:
                    return FALSE
            # len(x) > 0, len(x) < 1
            if y.op == 'len' and small(x):
                return self.len_ge(y.args[0], x.args[1] + 1)
            if x.op == 'len' and small(y):
                return bnot(self.len_ge(x.args[0], y.args[1]))
            # index > 0  ==  not (index == 0)
            if x is const(0) and y.op in ('index', 'pos'):
                return bnot(self.eq(y, const(0)))
            if y is const(1) and x.op in ('index', 'pos'):
                return self.eq(x, const(0))
            fx, fy = self.freeze(x), self.freeze(y)
            if fx.op == 'phi' or fy.op == 'phi':
                return lift_b(f, fx, fy)
            # n < m + 1  ==  not m < n
            if fy.op == 'add' and fy.args[-1] is const(1) and integral(fx) and integral(fy):
                return bnot(f(lin_term(lin_sum(((fy, 1), (const(1), -1)))), fx))
            return atom(mk('lt', fx, fy))
        return lift_b(f, a, b)

    def len_ge(self, x, n):
        """len(x) >= n as a chain: each atom says one more, given the ones before"""
        if n <= 0:
            return TRUE
        r = self.truth(x)
        for k in range(2, n + 1):
            r = band(r, atom(mk('longer', x, k)))
        return r

    def contains(self, x, c):
        def f(xx, cc):
            if cc.op == 'const' and isinstance(cc.args[1], (str, bytes)) and xx.op == 'const' \
                    and type(xx.args[1]) is type(cc.args[1]):
                return TRUE if xx.args[1] in cc.args[1] else FALSE
            segs = self.segs_of(cc)
            if segs is None and cc.op in ('dobj', 'dict'):
                segs = self.dict_segs(cc)
            if segs is not None:
                simple = all(s[0] == () for s in segs)
                if simple and len(segs) <= 40:
                    return bors(band(s[1], self.eq(xx, s[2])) for s in segs)
                if len(segs) <= 4 and all(s[0] == () or (
                        len(s[0]) == 1 and s[2] is s[0][0][1]
                        and not (_free_of(s[1]) & {s[0][0][1], s[0][0][2]})) for s in segs):
                    return bors(band(s[1], f(xx, s[0][0][0]) if s[0] else self.eq(xx, s[2]))
                                for s in segs)
                fc = self.freeze(cc)
                if fc.op == 'seq' or fc.op == 'dict':
                    if fc.op == 'seq':
                        fc = mk('seq', 'set', self.norm_segs(fc.args[1], True))
                    return lift_b(lambda p: atom(mk('in', p, fc)), self.freeze(xx))
                return lift_b(lambda p: atom(mk('in', p, fc)), self.freeze(xx))
            cc = self.freeze(cc)
            if cc.op == 'mcall' and cc.args[1] == 'keys' and not cc.args[2]:
                cc = cc.args[0]
            return lift_b(lambda p, q: atom(mk('in', p, q)), self.freeze(xx), cc)
        return lift_b(f, x, c)

    def boolv(self, g):
        """value of a boolean expression"""
        if g is TRUE:
            return CTRUE
        if g is FALSE:
            return CFALSE
        return phi([(g, CTRUE), (bnot(g), CFALSE)])

    # ------------------------------------------------------------ indexing
    def mk_idx(self, x, i):
        if i.op == 'index' and i.args[0] is x:
            return mk('elem', x, i.args[1])
        if x.op == 'tuple' and i.op == 'const' and isinstance(i.args[1], int) \
                and -len(x.args) <= i.args[1] < len(x.args):
            return x.args[i.args[1]]
        if x.op in ('partition3', 'split1') and i is const(0):
            return mk('before', *x.args)
        if (x.op == 'rpartition3' and i in (const(2), const(-1))) \
                or (x.op == 'rsplit1' and i is const(-1)):
            return mk('afterlast', *x.args)
        if x.op == 'mcall' and x.args[1] in ('split', 'rsplit') and len(x.args[2]) == 1 \
                and x.args[2][0] is not NONE and not x.args[3]:
            if i is const(0):
                return mk('before', x.args[0], x.args[2][0])
            if i is const(-1):
                return mk('afterlast', x.args[0], x.args[2][0])
        return mk('idx', x, i)

    def index(self, v, i):
        def f(x, k):
            segs = self.segs_of(x)
            if segs is not None and k.op == 'const' and isinstance(k.args[1], int) \
                    and not isinstance(k.args[1], bool):
                n = k.args[1]
                seq = segs if n >= 0 else tuple(reversed(segs))
                pos = n if n >= 0 else -n - 1
                ok = True
                for j, s in enumerate(seq):
                    if s[0] != () or simplify_on(s[1], self.live) is not TRUE:
                        ok = False
                        break
                    if j == pos:
                        return s[2]
                # first element of a filtered loop
                if n == 0 and len(segs) == 1 and len(segs[0][0]) == 1 \
                        and segs[0][0][0][3] is FALSE and segs[0][1] is not TRUE:
                    (it, e, i, _), g, val = segs[0][0][0], segs[0][1], segs[0][2]
                    bound = frozenset((e, i))
                    return self.wrap_first(self.freeze(val), ((it, e, i, g),), bound)
            ds = self.dict_segs(x)
            if ds is not None:
                r = self.dict_lookup(ds, k)
                if r is not None:
                    return r
            fx = self.freeze(x)
            fk = self.freeze(k)
            return lift(self.mk_idx, fx, fk)
        return lift(f, v, i)

    def dict_lookup(self, ds, k):
        """value for a key in a dict with known entries, None when undecided"""
        if not all(s[0] == () and simplify_on(s[1], self.live) is TRUE for s in ds):
            return None
        if k.op == 'const':
            if not all(s[2].op == 'const' for s in ds):
                return None
            for s in reversed(ds):
                if s[2] is k:
                    return s[3]
            return None
        return None

    def dict_get(self, x, k, default):
        def f(d, kk):
            ds = self.dict_segs(d)
            if ds is not None:
                if not ds:
                    return default
                r = self.dict_lookup(ds, kk)
                if r is not None:
                    return r
                if kk.op == 'const' and all(
                        s[0] == () and s[2].op == 'const' for s in ds) \
                        and not any(s[2] is kk for s in ds):
                    return default
            g = self.contains(kk, d)
            return phi([(g, self.index(d, kk)), (bnot(g), default)])
        return lift(f, x, k)

    def slice(self, v, lo, hi, stepv):
        def f(x, a, b, c):
            segs = self.segs_of(x)
            ints = all(z is NONE or (z.op == 'const' and isinstance(z.args[1], int))
                       for z in (a, b, c))
            if segs is not None and ints and all(
                    s[0] == () and simplify_on(s[1], self.live) is TRUE for s in segs):
                sl = slice(*[None if z is NONE else z.args[1] for z in (a, b, c)])
                if x.op == 'tuple':
                    return mk('tuple', *[s[2] for s in segs[sl]])
                return self.new_list(segs[sl], self.seq_kind(x))
            if x.op == 'const' and ints and isinstance(x.args[1], str):
                return const(x.args[1][slice(*[None if z is NONE else z.args[1]
                                               for z in (a, b, c)])])
            if a is const(0):
                a = NONE
            if a is NONE and b is NONE and c is NONE:
                return self.freeze(x)
            fx, fa, fb = self.freeze(x), self.freeze(a), self.freeze(b)
            return lift(lambda p, q, r: mk('slice', p, q, r, c), fx, fa, fb)
        return lift(f, v, lo, hi, stepv)

    # ------------------------------------------------------------ state
    def snapshot(self):
        return (self.live, [(f, dict(f.env)) for f in self.all_frames()], dict(self.heap))

    def all_frames(self):
        return self._frames_all

    @property
    def _frames_all(self):
        return self.__dict__.setdefault('_fa', [])

    def restore(self, snap):
        self.live = snap[0]
        for f, env in snap[1]:
            f.env = dict(env)
        self.heap = dict(snap[2])

    def join(self, states):
        """states: list of (live, frame envs, heap); disjoint gates"""
        states = [s for s in states if s[0] is not FALSE]
        if not states:
            self.live = FALSE
            return
        if len(states) == 1:
            self.restore(states[0])
            return
        live = bors(s[0] for s in states)
        gates = [simplify_on(s[0], live) for s in states]
        self.live = live
        for fi, (fr, _) in enumerate(states[0][1]):
            envs = []
            for s in states:
                envs.append(s[1][fi][1] if fi < len(s[1]) else {})
            keys = []
            for e in envs:
                for k in e:
                    if k not in keys:
                        keys.append(k)
            env = {}
            for k in keys:
                vals = [e.get(k, UNDEF) for e in envs]
                if all(v is vals[0] for v in vals):
                    env[k] = vals[0]
                else:
                    env[k] = phi(list(zip(gates, vals)))
            fr.env = env
        heap = {}
        keys = []
        seen = set()
        for s in states:
            for k in s[2]:
                if k not in seen:
                    seen.add(k)
                    keys.append(k)
        for k in keys:
            vals = [s[2].get(k) for s in states]
            present = [v for v in vals if v is not None]
            if all(v is present[0] for v in present) and (
                    len(present) == len(vals) or k[1] == '#segs'):
                heap[k] = present[0]
            elif k[1] == '#segs':
                heap[k] = self.join_segs(gates, vals)
            else:
                heap[k] = phi([(g, v if v is not None else self.default_slot(k))
                               for g, v in zip(gates, vals)])
        self.heap = heap

    def default_slot(self, k):
        t = self.overlay_base.get(k)
        return t if t is not None else UNDEF

    @property
    def overlay_base(self):
        return self.__dict__.setdefault('_ob', {})

    def join_segs(self, gates, vals):
        present = [(g, v) for g, v in zip(gates, vals) if v is not None]
        first = present[0][1]
        n = min(len(v) for _, v in present)
        k = 0
        while k < n and all(v[k] == first[k] for _, v in present):
            k += 1
        out = list(first[:k])
        for g, v in present:
            for s in v[k:]:
                gg = band(s[1], g)
                if gg is not FALSE:
                    out.append((s[0], gg) + tuple(s[2:]))
        return tuple(out)

    def fork(self, pairs):
        """pairs of (gate, thunk); gates disjoint; returns the guarded value"""
        base = self.snapshot()
        states, vals = [], []
        for g, thunk in pairs:
            lv = band(base[0], g)
            if lv is FALSE:
                continue
            self.restore(base)
            self.live = lv
            v = thunk()
            if self.live is not FALSE:
                states.append(self.snapshot())
                vals.append((self.live, v))
        self.join(states)
        if not vals:
            return UNDEF
        if len(vals) == 1:
            return vals[0][1] if vals[0][1] is not None else UNDEF
        return phi([(simplify_on(g, self.live), v if v is not None else NONE) for g, v in vals])

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts):
        for s in stmts:
            if self.live is FALSE:
                return
            self.step()
            m = getattr(self, 'x_' + type(s).__name__, None)
            if m is None:
                self.unknown('statement %s' % type(s).__name__, s)
                continue
            m(s)

    def x_Pass(self, s):
        pass

    def x_Global(self, s):
        self.unknown('global statement', s)

    x_Nonlocal = x_Global

    def x_Import(self, s):
        self.frames[-1].module.add_import(s, self.frames[-1].local_imports)

    x_ImportFrom = x_Import

    def x_Assert(self, s):
        before = self.live
        self.suppress += 1
        try:
            c = self.test(s.test)
        finally:
            self.suppress -= 1
            self.live = before
        if all(a.op in ('isnone', 'truth', 'isinst', 'exists') for a in atoms_of(c)):
            # type narrowing (not None, isinstance, truthiness): no behaviour of its own
            return
        self.live = band(before, bnot(c))
        if self.live is not FALSE:
            self.do_raise(mk('call', mk('ext', 'AssertionError'), (), ()), s)
        self.live = band(before, c)

    def x_Expr(self, s):
        v = s.value
        if isinstance(v, ast.Constant):
            return
        if isinstance(v, ast.Call):
            self.eval_call(v, unused=True)
        else:
            self.eval(v)

    def x_Assign(self, s):
        v = self.eval(s.value)
        if self.live is FALSE:
            return
        for t in s.targets:
            self.assign(t, v)

    def x_AnnAssign(self, s):
        if s.value is not None:
            v = self.eval(s.value)
            if self.live is not FALSE:
                self.assign(s.target, v)

    def x_AugAssign(self, s):
        load = ast.copy_location(self.as_load(s.target), s.target)
        cur = self.eval(load)
        v = self.eval(s.value)
        if isinstance(s.op, ast.Add) and cur.op == 'lobj':
            self.list_extend(cur, v)
            return
        if isinstance(s.op, ast.BitOr) and cur.op == 'lobj':
            self.list_extend(cur, v)
            return
        self.assign(s.target, self.binop(s.op, cur, v))

    def as_load(self, t):
        if isinstance(t, ast.Name):
            return ast.Name(t.id, ast.Load())
        if isinstance(t, ast.Attribute):
            return ast.Attribute(t.value, t.attr, ast.Load())
        return ast.Subscript(t.value, t.slice, ast.Load())

    def assign(self, target, v):
        if isinstance(target, ast.Name):
            self.frames[-1].env[target.id] = v
        elif isinstance(target, (ast.Tuple, ast.List)):
            n = len(target.elts)
            star = [i for i, e in enumerate(target.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                for j in range(i):
                    self.assign(target.elts[j], self.index(v, const(j)))
                rest = self.slice(v, const(i), const(i + 1 - n) if i + 1 < n else NONE, NONE)
                self.assign(target.elts[i].value, rest)
                for j in range(i + 1, n):
                    self.assign(target.elts[j], self.index(v, const(j - n)))
                return
            for i, e in enumerate(target.elts):
                self.assign(e, self.index(v, const(i)))
        elif isinstance(target, ast.Attribute):
            recv = self.eval(target.value)
            self.store_attr(recv, target.attr, v, target)
        elif isinstance(target, ast.Subscript):
            recv = self.eval(target.value)
            if isinstance(target.slice, ast.Slice):
                self.effect('setitem', mk('setslice', self.freeze(recv), self.freeze(v)), target)
                return
            k = self.eval(target.slice)
            self.store_item(recv, k, v, target)
        elif isinstance(target, ast.Starred):
            self.assign(target.value, v)

    def store_attr(self, recv, name, v, node):
        lv = leaves(on(recv, self.live))
        for g, r in lv:
            key = (r.id, name)
            if r.op != 'obj':
                self.overlay_base.setdefault(key, lift(lambda x: mk('attr', x, name), r))
                self.effect('store', mk('store', self.freeze(r), name, self.freeze(v)), node,
                            gate=band(self.live, g))
                if not self.suppress:
                    self.effects[-1].raw = key
                    self.wlog.append((self.live, '.' + name, frozenset([name])))
                if r.op in ('cls', 'func', 'ext', 'global'):
                    continue
            if len(lv) == 1:
                self.heap[key] = v
            else:
                old = self.heap.get(key)
                if old is None:
                    old = self.default_slot(key)
                self.heap[key] = phi([(g, v), (bnot(g), old)])

    def store_item(self, recv, k, v, node):
        lv = leaves(on(recv, self.live))
        for g, r in lv:
            if r.op == 'dobj':
                info = self.objs[r.id]
                loops = self.cur_loops(info['depth'])
                gate = simplify_on(band(self.live, g), info['live'])
                segs = self.heap[(r.id, '#segs')]
                if loops == () and gate is TRUE and all(
                        s[0] == () and s[2].op == 'const' for s in segs) and k.op == 'const':
                    segs = tuple(s for s in segs if s[2] is not k)
                self.heap[(r.id, '#segs')] = segs + ((loops, gate, k, v),)
            elif r.op == 'lobj':
                segs = list(self.heap[(r.id, '#segs')])
                if k.op == 'const' and isinstance(k.args[1], int) and all(
                        s[0] == () and s[1] is TRUE for s in segs) \
                        and -len(segs) <= k.args[1] < len(segs) and len(lv) == 1:
                    segs[k.args[1]] = self.item(v)
                    self.heap[(r.id, '#segs')] = tuple(segs)
                else:
                    old = self.freeze(r)
                    self.heap[(r.id, '#segs')] = self.ident_segs(mk(
                        'updated', old, self.freeze(k), self.freeze(v),
                        simplify_on(band(self.live, g), self.objs[r.id]['live'])))
            else:
                self.effect('setitem', mk('setitem', self.freeze(r), self.freeze(k),
                                          self.freeze(v)), node, gate=band(self.live, g))

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.frames[-1].env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.effect('del', mk('del', self.freeze(self.eval(t.value)),
                                      self.freeze(self.eval(t.slice))
                                      if not isinstance(t.slice, ast.Slice) else NONE), s)
            elif isinstance(t, ast.Attribute):
                self.effect('del', mk('delattr', self.freeze(self.eval(t.value)), t.attr), s)

    def x_Return(self, s):
        v = self.eval(s.value) if s.value is not None else NONE
        if self.live is FALSE:
            return
        fr = self.frames[-1]
        fr.returns.append((self.live, v, dict(self.heap)))
        for lc in self.loops[fr.loop_base:]:
            lc.exits.append(self.live)
        self.live = FALSE

    def x_Raise(self, s):
        if s.exc is None:
            t = mk('reraise')
        else:
            self.suppress += 1
            try:
                t = self.freeze(self.eval(s.exc))
            finally:
                self.suppress -= 1
        self.do_raise(t, s)

    def do_raise(self, t, node):
        self.effect('raise', t, node)
        for lc in self.loops:
            lc.exits.append(self.live)
        self.live = FALSE

    def x_If(self, s):
        c = self.test(s.test)
        if self.live is FALSE:
            return
        self.fork([(c, lambda: self.exec_block(s.body)),
                   (bnot(c), lambda: self.exec_block(s.orelse))])

    def x_Break(self, s):
        lc = self.break_target()
        lc.breaks.append(self.snapshot())
        fr = self.frames[-1]
        i = self.loops.index(lc) if lc in self.loops else len(self.loops)
        for inner in self.loops[i + 1:]:
            inner.exits.append(self.live)
        self.live = FALSE

    def x_Continue(self, s):
        lc = self.break_target()
        lc.continues.append(self.snapshot())
        self.live = FALSE

    def break_target(self):
        return self.loop_targets[-1]

    @property
    def loop_targets(self):
        return self.__dict__.setdefault('_lt', [])

    def x_FunctionDef(self, s):
        self.frames[-1].env[s.name] = self.closure(s)

    def x_ClassDef(self, s):
        self.unknown('nested class', s)
        self.frames[-1].env[s.name] = mk('nestedcls', s.name)

    def closure(self, node):
        t = self.new_obj('closure', node=node, frame=self.frames[-1])
        return t

    # ------------------------------------------------------------ loops
    def x_For(self, s):
        itv = on(self.eval(s.iter), self.live)
        if self.live is FALSE:
            return
        lv = leaves(itv)
        if len(lv) == 1:
            self.loop_over(lv[0][1], s)
        else:
            self.fork([(g, (lambda leaf=leaf: self.loop_over(leaf, s))) for g, leaf in lv])

    def iter_segs(self, v):
        cls = self.class_of(v) if v.op in ('sym', 'call', 'attr', 'obj', 'new') else None
        if cls:
            f = self.p.find_method(cls, '__iter__')
            if f is not None and iterates_field(f):
                v = self.getattr(v, iterates_field(f), None)
        segs = self.segs_of(v)
        if segs is None:
            ds = self.dict_segs(v)
            if ds is not None:
                if self.collapsing(ds):
                    return self.ident_segs(mk('distinct', self.freeze(v)))
                segs = tuple(x[:3] for x in ds)
        if segs is None:
            it = self.freeze(v)
            if it.op == 'phi':
                out = []
                for g, leaf in it.args[0]:
                    for x in self.iter_segs(leaf):
                        out.append((x[0], band(x[1], g)) + tuple(x[2:]))
                return tuple(out)
            if it.op in ('seq',):
                return it.args[1]
            if it.op == 'dict':
                if self.collapsing(it.args[0]):
                    return self.ident_segs(mk('distinct', it))
                return tuple(x[:3] for x in it.args[0])
            if it.op == 'mcall' and it.args[1] in ('keys', 'iterchildren', 'getchildren') \
                    and not it.args[2]:
                it = it.args[0]
            segs = self.ident_segs(it)
        return segs

    def loop_over(self, itv, s):
        segs = self.iter_segs(itv)
        if len(segs) > 60:
            self.unknown('long literal loop', s)
            segs = self.ident_segs(self.freeze(itv))
        broke = []      # break states

        def body(value):
            self.assign(s.target, value)
            self.exec_block(s.body)

        for seg in segs:
            if self.live is FALSE:
                break
            loops, (gate, value) = self.fresh_loops(seg[0], seg[1], seg[2])
            if not loops:
                lc = LoopCtx(None, self.live)
                self.loop_targets.append(lc)
                base_live = self.live
                if gate is TRUE:
                    body(value)
                    ends = [self.snapshot()] if self.live is not FALSE else []
                else:
                    base = self.snapshot()
                    self.live = band(base_live, gate)
                    body(value)
                    ends = [self.snapshot()] if self.live is not FALSE else []
                    rest = band(base_live, bnot(gate))
                    ends.append((rest,) + base[1:])
                self.loop_targets.pop()
                broke.extend(lc.breaks)
                self.join(ends + lc.continues)
            else:
                broke.extend(self.generic_loop(loops, gate, lambda value=value: body(value)))
        if s.orelse and self.live is not FALSE:
            self.exec_block(s.orelse)
        if broke:
            cur = [self.snapshot()] if self.live is not FALSE else []
            self.join(cur + broke)

    def x_While(self, s):
        d = sum(1 for lc in self.loops if lc.entry and lc.entry[0].op == 'while')
        it = mk('while', d)
        e, i = mk('elem', it, 0), mk('index', it, 0)
        infinite = isinstance(s.test, ast.Constant) and bool(s.test.value)
        if s.orelse:
            raise Limit('while-else')

        def body():
            if not infinite:
                before = self.live
                c = self.test(s.test)
                out = band(before, bnot(c))
                if out is not FALSE:
                    saved = self.live
                    self.live = out
                    self.break_target().breaks.append(self.snapshot())
                    self.live = saved
                self.live = band(self.live, c)
                if self.live is FALSE:
                    return
            self.exec_block(s.body)
        broke = self.generic_loop(((it, e, i, FALSE),), TRUE, body, infinite=True)
        cur = [self.snapshot()] if self.live is not FALSE else []
        if broke or cur:
            self.join(cur + broke)

    def generic_loop(self, loops, gate, body, infinite=False):
        """one generic iteration of a loop nest; returns break states"""
        base = self.snapshot()
        base_live = self.live
        fr = self.frames[-1]
        mark_e, mark_r = len(self.effects), len(fr.returns)
        mark_y = len(fr.yields) if fr.yields is not None else 0
        marks_frames = [(f, len(f.yields)) for f in self.all_frames() if f.yields is not None]
        mark_u = len(self.unknowns)
        mark_o = len(self.opcalls)
        mark_w = len(self.wlog)
        prior = []     # writes of earlier iterations
        mus = {}       # slot -> muvar
        listy = {}     # env slots holding local containers: carried by content
        it0 = loops[0][0]
        for attempt in range(7):
            del self.effects[mark_e:]
            del fr.returns[mark_r:]
            for f, n in marks_frames:
                del f.yields[n:]
            del self.unknowns[mark_u:]
            del self.opcalls[mark_o:]
            del self.wlog[mark_w:]
            self.wlog.extend(prior)
            self.restore(base)
            for slot, mv in mus.items():
                self.set_slot(slot, mv, listy.get(slot))
            self.muid += 1
            uv = mk('untilvar', it0, self.muid)
            entries = []
            for j, lp in enumerate(loops):
                last = j == len(loops) - 1
                entries.append((lp[0], lp[1], lp[2], bor(lp[3], atom(uv)) if last else lp[3]))
            lcs = [LoopCtx(en, base_live) for en in entries]
            lc = lcs[-1]
            self.loops.extend(lcs)
            self.loop_targets.append(lc)
            saved_reads = self.reads
            self.reads = set()
            self.live = band(base_live, gate)
            start = self.snapshot()
            body()
            reads = self.reads
            self.reads = saved_reads | reads
            self.loop_targets.pop()
            del self.loops[-len(lcs):]
            for x in lcs[:-1]:
                lc.exits.extend(g for g in x.exits if g not in lc.exits)
            ends = ([self.snapshot()] if self.live is not FALSE else []) + lc.continues
            skipped = band(base_live, bnot(gate))
            if skipped is not FALSE:
                # elements the gate leaves out change nothing
                ends.append((skipped,) + start[1:])
            self.join(ends)
            end_live = self.live
            end = self.snapshot() if ends else start
            new = self.modified_slots(base, end, mus, reads, entries)
            body_writes = sorted({(lab, ww) for _, lab, ww in self.wlog[mark_w:]},
                                 key=lambda x: (x[0], sorted(x[1])))
            body_writes = [(base_live, lab, ww) for lab, ww in body_writes]
            stable = body_writes == prior
            prior = body_writes
            if not new and stable:
                self.wlog[mark_w:] = body_writes
                break
            for slot in new:
                mus[slot] = mk('muvar', it0, self.muid, len(mus))
                lk = self.listy(base, end, slot)
                if lk:
                    listy[slot] = lk
        else:
            raise Limit('loop summary does not stabilise')
        # --- relative exit conditions
        break_gates = [b[0] for b in lc.breaks]
        U = simplify_on(bors(list(lc.exits) + break_gates), base_live)
        U = simplify_on(U, TRUE)
        # --- induction summaries
        steps = {}
        for slot, mv in mus.items():
            steps[slot] = self.slot_value(end, slot)
        loops_plain = tuple((lp[0], lp[1], lp[2], FALSE) for lp in loops)
        init = {slot: self.slot_value(base, slot) for slot in mus}
        SU = self.subst({uv: atom(mk('selfuntil'))})
        lvl = self.mu_system(mus, init, {k: SU(on(v, end_live)) for k, v in steps.items()}, U,
                             loops_plain)
        cur = {mv: mk('cur', lvl[slot]) for slot, mv in mus.items()}
        s1 = self.subst(cur)
        U1 = s1(U)
        m2 = dict(cur)
        m2[uv] = U1
        S = self.subst(m2)
        # --- rewrite what was recorded inside the loop
        for e in self.effects[mark_e:]:
            e.gate, e.term, e.loops = S(e.gate), S(e.term), S(e.loops)
        self.opcalls[mark_o:] = [S(t) for t in self.opcalls[mark_o:]]
        for f, n in marks_frames:
            f.yields[n:] = [S(y) for y in f.yields[n:]]
        loops_done = tuple(
            (lp[0], lp[1], lp[2], U1 if j == len(loops) - 1 else lp[3])
            for j, lp in enumerate(loops))
        bound = set()
        for lp in loops:
            bound.add(lp[1])
            bound.add(lp[2])
        bound |= set(mus.values())

        def E(g):
            for lp in reversed(loops):
                g = self.exists(lp, g)
            return g
        anyexit = TRUE if infinite else (E(U) if U is not FALSE else FALSE)
        anyexit = s1(anyexit) if anyexit is not TRUE else TRUE

        kinds = []
        rets = fr.returns[mark_r:]
        for r in rets:
            kinds.append(('ret', simplify_on(r[0], base_live), r))
        for b in lc.breaks:
            kinds.append(('brk', simplify_on(b[0], base_live), b))
        raises = [g for g in lc.exits if not any(g is r[0] for r in rets)]
        for g in raises:
            kinds.append(('rse', simplify_on(g, base_live), None))
        kinds.sort(key=lambda k: k[1].id)
        remaining = anyexit
        out_rets, out_brks = [], []
        for n, (kind, rel, obj) in enumerate(kinds):
            if n == len(kinds) - 1:
                gsel = remaining
            else:
                a = atom(mk('firstsat', loops_plain, s1(U), s1(simplify_on(rel, U))))
                gsel = band(remaining, a)
                remaining = band(remaining, bnot(a))
            gabs = band(base_live, gsel)
            if kind == 'ret':
                out_rets.append((gabs, self.wrap_first(S(obj[1]), loops_done, bound),
                                 self.subst_heap(S, self.exit_heap(obj[2], base, end, mus))))
            elif kind == 'brk':
                envs = [(f, {k: self.wrap_first(S(v), loops_done, bound) for k, v in env.items()})
                        for f, env in obj[1]]
                out_brks.append((gabs, envs, self.subst_heap(
                    S, self.exit_heap(obj[2], base, end, mus))))
        fr.returns[mark_r:] = out_rets
        # --- state after normal exhaustion
        normal_live = FALSE if infinite else band(base_live, bnot(anyexit))
        self.restore(end)
        heap = self.subst_heap(S, end[2])
        for (f, benv) in base[1]:
            cur_env = dict(f.env)
            env = {}
            for k, v in cur_env.items():
                if k in benv:
                    env[k] = benv[k]
                else:
                    env[k] = self.wrap_last(S(v), loops_done, bound)
            f.env = env
        self.heap = heap
        for slot, mv in mus.items():
            v = self.flag_pattern(slot, mv, steps[slot], init[slot], end_live, base_live, U,
                                  loops, bound)
            if v is None:
                v = lvl[slot]
            self.set_slot(slot, v, listy.get(slot))
        # slots unchanged by the loop keep their old value
        for k, v in base[2].items():
            if ('heap', k) not in mus and k[1] != '#segs':
                self.heap[k] = v
        self.live = normal_live
        return out_brks

    def mu_system(self, mus, init, steps, U, loops):
        """canonical names for the values carried by the loop: the recurrence of each
        slot with references to the other carried slots expanded, back references by position"""
        by_mv = {mv.id: slot for slot, mv in mus.items()}
        refs = {}
        for slot in mus:
            refs[slot] = [x for x in self.free_muvars(steps[slot]) if x.id in by_mv]
        urefs = [x for x in self.free_muvars(U) if x.id in by_mv]
        memo = {}
        budget = [4000]

        def define(slot, stack):
            key = (slot, stack)
            r = memo.get(key)
            if r is None:
                budget[0] -= 1
                if budget[0] < 0:
                    raise Limit('loop recurrences too entangled')
                st = stack + (slot,)
                S = self.subst({mv: name(by_mv[mv.id], st) for mv in refs[slot]})
                r = mk('mudef', init[slot], S(steps[slot]))
                memo[key] = r
            return r

        def name(slot, stack):
            if slot in stack:
                return mk('muref', len(stack) - 1 - stack.index(slot))
            return define(slot, stack)
        out = {}
        for slot in mus:
            d = define(slot, ())
            S = self.subst({mv: name(by_mv[mv.id], (slot,)) for mv in urefs})
            out[slot] = mk('mu', loops, d, S(U))
        return out

    def free_muvars(self, x):
        if isinstance(x, T) and x.op == 'phi':
            out = {}
            for g, leaf in x.args[0]:
                for v in self.free_muvars(g) + self.free_muvars(leaf):
                    out[v.id] = v
            return [out[k] for k in sorted(out)]
        fr = x.free if isinstance(x, T) else _free_of(x)
        return sorted(v for v in fr if v.op == 'muvar')

    def listy(self, base, end, slot):
        """kind of container if a variable carries local containers of one kind"""
        if slot[0] != 'env':
            return None
        kinds = set()
        for snap in (base, end):
            for f, env in snap[1]:
                if f is slot[1]:
                    for _, x in leaves(env.get(slot[2], UNDEF)):
                        if x.op in ('lobj', 'dobj'):
                            kinds.add((x.op, self.objs[x.id].get('seqkind')))
                        elif x.op == 'undef':
                            continue
                        else:
                            kinds.add(None)
        if len(kinds) == 1:
            return kinds.pop()
        return None

    def flag_pattern(self, slot, mv, step, init, end_live, base_live, U, loops, bound):
        if slot[0] == 'heap' and slot[1][1] == '#segs':
            return None
        g = FALSE
        val = None
        for gg, leaf in leaves(step):
            if leaf is mv:
                continue
            if val is not None or (leaf.free & bound):
                return None
            val = leaf
            g = gg
        if val is None:
            return init
        rel = simplify_on(band(g, end_live), base_live)
        if U is not FALSE:
            return None
        for a in atoms_of(rel):
            if any(x.op == 'muvar' and x in bound for x in a.free):
                return None
        for lp in reversed(loops):
            rel = self.exists(lp, rel)
        return phi([(rel, val), (bnot(rel), init)])

    def wrap_first(self, v, loops, bound):
        if v.op in ('lobj', 'dobj', 'obj', 'closure'):
            return v
        if v.op == 'phi':
            if any((leaf.free & bound) for _, leaf in v.args[0]) or any(
                    (a.free & bound) for g, _ in v.args[0] for a in atoms_of(g)):
                return mk('first', loops, v)
            return v
        if v.free & bound:
            return mk('first', loops, v)
        return v

    def wrap_last(self, v, loops, bound):
        if v.op in ('lobj', 'dobj', 'obj', 'closure'):
            return v
        fr = v.free if v.op != 'phi' else frozenset().union(
            *[x.free for _, x in v.args[0]])
        if fr & bound:
            return mk('lastof', loops, v)
        return v

    @staticmethod
    def exit_heap(heap, base, end, mus):
        """collections when a loop is left: with what earlier iterations put into them"""
        out = dict(heap)
        for k, b in base[2].items():
            if k[1] != '#segs' or ('heap', k) in mus:
                continue
            e, x = end[2].get(k), heap.get(k)
            if e is None or x is None or e == x:
                continue
            if not all(isinstance(v, tuple) and v[:len(b)] == b for v in (e, x)):
                continue
            new = list(e[len(b):])
            for seg in x[len(b):]:
                for i, o in enumerate(new):
                    if o[0] == seg[0] and o[2:] == seg[2:]:
                        new[i] = (o[0], bor(o[1], seg[1])) + tuple(o[2:])
                        break
                else:
                    new.append(seg)
            out[k] = b + tuple(new)
        return out

    def subst_heap(self, S, heap):
        out = {}
        for k, v in heap.items():
            out[k] = S(v)
        return out

    def set_slot(self, slot, v, listy=None):
        if slot[0] == 'env':
            if listy:
                if listy[0] == 'lobj':
                    o = self.new_list(self.content_segs(v), listy[1])
                else:
                    o = self.new_dict(self.content_segs(v, True))
                v = o
            for f in self.all_frames():
                if f is slot[1]:
                    f.env[slot[2]] = v
        else:
            k = slot[1]
            if k[1] == '#segs':
                if isinstance(v, T):
                    if v.op == 'seq':
                        self.heap[k] = v.args[1]
                    elif v.op == 'dict':
                        self.heap[k] = v.args[0]
                    elif self.is_dict_slot(k):
                        e = self.ident_segs(v)[0]
                        self.heap[k] = ((e[0], TRUE, e[2], mk('idx', v, e[2])),)
                    else:
                        self.heap[k] = self.ident_segs(v)
                else:
                    self.heap[k] = v
            else:
                self.heap[k] = v

    def content_segs(self, v, is_dict=False):
        if v.op == 'seq':
            return v.args[1]
        if v.op == 'tuple' and not is_dict:
            return tuple(self.item(x) for x in v.args)
        if v.op == 'dict':
            return v.args[0]
        if v.op == 'phi':
            out = []
            for g, leaf in v.args[0]:
                for x in self.content_segs(leaf, is_dict):
                    gg = band(g, x[1])
                    if gg is not FALSE:
                        out.append((x[0], gg) + tuple(x[2:]))
            return tuple(out)
        e = self.ident_segs(v)[0]
        if is_dict:
            return ((e[0], TRUE, e[2], mk('idx', v, e[2])),)
        return (e,)

    def is_dict_slot(self, k):
        info = self.objs.get(k[0])
        return bool(info and info['kind'] == 'dobj')

    def slot_value(self, snap, slot):
        if slot[0] == 'env':
            for f, env in snap[1]:
                if f is slot[1]:
                    return self.freeze_soft(env.get(slot[2], UNDEF), snap)
            return UNDEF
        v = snap[2].get(slot[1])
        if v is None:
            return self.default_slot(slot[1])
        if slot[1][1] == '#segs':
            info = self.objs.get(slot[1][0])
            saved = self.heap
            self.heap = snap[2]
            try:
                if info['kind'] == 'dobj':
                    return mk('dict', self.norm_segs(v))
                return self.mk_seq(info['seqkind'], self.norm_segs(
                    v, info['seqkind'] == 'set'))
            finally:
                self.heap = saved
        return self.freeze_soft(v, snap)

    def freeze_soft(self, v, snap):
        saved = self.heap
        self.heap = snap[2]
        try:
            return self.freeze(v)
        finally:
            self.heap = saved

    @staticmethod
    def first_loads(f):
        """where each name is first read: an order that the order of assignments does not change"""
        node = getattr(f.func, 'node', None)
        if node is None:
            return {}
        pos = getattr(node, '_first_loads', None)
        if pos is None:
            names = sorted((x.lineno, x.col_offset, x.id) for x in ast.walk(node)
                           if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)
                           and hasattr(x, 'lineno'))
            pos = {}
            for _, _, n in names:
                pos.setdefault(n, len(pos))
            node._first_loads = pos
        return pos

    def modified_slots(self, base, end, mus, reads, entries):
        new = []
        for (f, benv), (f2, eenv) in zip(base[1], end[1]):
            pos = self.first_loads(f)
            for k, v in sorted(benv.items(), key=lambda kv: pos.get(kv[0], 1 << 30)):
                slot = ('env', f, k)
                if slot in mus:
                    continue
                if eenv.get(k, v) is not v:
                    new.append(slot)
        for k, v in base[2].items():
            slot = ('heap', k)
            if slot in mus:
                continue
            ev = end[2].get(k)
            if ev is v or ev == v:
                continue
            if k[1] == '#segs':
                if ev is not None and ev[:len(v)] == v and k[0] not in reads and all(
                        any(lp[0] is entries[-1][0] for lp in s[0]) for s in ev[len(v):]):
                    continue
            new.append(slot)
        for k, v in end[2].items():
            if k not in base[2] and k in self.overlay_base:
                slot = ('heap', k)
                if slot not in mus:
                    # attribute of an unknown object first written in the loop
                    base[2][k] = self.overlay_base[k]
                    new.append(slot)
        return new

    # ------------------------------------------------------------ with / try
    def x_With(self, s):
        self.with_items(list(s.items), s.body)

    def with_items(self, items, body):
        if not items:
            self.exec_block(body)
            return
        item = items[0]
        ce = item.context_expr
        if isinstance(ce, ast.Call):
            f = self.eval(ce.func)
            cm = self.as_contextmanager(f)
            if cm is not None:
                func, pre = cm
                args, kwargs = self.eval_args(ce)
                env = self.bind(func, pre + args, kwargs)
                frames = list(self.frames)

                def cont(v):
                    inner = self.frames
                    self.frames = list(frames)
                    try:
                        if item.optional_vars is not None:
                            self.assign(item.optional_vars, v)
                        self.with_items(items[1:], body)
                    finally:
                        self.frames = inner
                self.enter(func, env, cm_body=cont)
                return
        v = self.eval(ce)
        if self.live is FALSE:
            return
        fv = self.freeze(v)
        ent = lift(lambda x: mk('enter', x), fv)
        self.effect('enter', ent, item.context_expr)
        if item.optional_vars is not None:
            self.assign(item.optional_vars, lift(lambda x: x if self.enters_itself(x)
                                                 else mk('enter', x), fv))
        base_live = self.live
        self.with_items(items[1:], body)
        self.effect('exit', ent, item.context_expr, gate=base_live)

    @staticmethod
    def enters_itself(x):
        """with x as y: y is x"""
        return x.op == 'call' and x.args[0].op == 'ext' and (
            x.args[0].args[0] in SELF_ENTER or x.args[0].args[0].endswith('PoolExecutor'))

    def as_contextmanager(self, f):
        if f.op == 'func':
            fn = self.p.funcs.get(f.args[0])
            if fn is not None and fn.is_contextmanager and self.can_inline(fn):
                return fn, []
        if f.op == 'bound':
            fn = self.p.funcs.get(f.args[1])
            if fn is not None and fn.is_contextmanager and self.can_inline(fn):
                return fn, [f.args[0]]
        return None

    @property
    def opcalls(self):
        return self.__dict__.setdefault('_oc', [])

    def x_Try(self, s):
        base = self.snapshot()
        base_live = self.live
        mark_e, mark_o = len(self.effects), len(self.opcalls)
        fr = self.frames[-1]
        mark_r = len(fr.returns)
        loops_exits = [(lc, len(lc.exits)) for lc in self.loops]
        self.exec_block(s.body)
        calls = tuple(sorted({t.id: t for t in self.opcalls[mark_o:]
                              if not self.is_logger(t)}.values()))
        body_state = self.snapshot()
        # explicit raises caught here
        caught = []
        handler_types = []
        for h in s.handlers:
            names = []
            if h.type is None:
                names = ['BaseException']
            else:
                for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                    names.append(fr.module.dotted(x) or '?')
            handler_types.append(tuple(sorted(names)))
        broad = {'Exception', 'BaseException'}
        explicit = FALSE
        keep = []
        for e in self.effects[mark_e:]:
            if e.kind == 'raise' and s.handlers:
                nm = self.raise_name(e.term)
                hit = any(set(ht) & broad or (nm and (nm in ht)) for ht in handler_types)
                if hit:
                    explicit = bor(explicit, e.gate)
                    caught.append(e)
                    for lc, n in loops_exits:
                        lc.exits[n:] = [g for g in lc.exits[n:] if g is not e.gate]
                    continue
            keep.append(e)
        self.effects[mark_e:] = keep
        states = []
        handled = FALSE
        if s.handlers:
            for idx, h in enumerate(s.handlers):
                a = atom(mk('exc', handler_types[idx], calls))
                g = band(base_live, a)
                if idx == 0 or len(s.handlers) == 1:
                    g = bor(g, explicit)
                g = band(g, bnot(handled))
                handled = bor(handled, g)
            # body results hold only when nothing was raised
            body_live = band(body_state[0], bnot(handled))
            fr.returns[mark_r:] = [
                (band(r[0], bnot(handled)),) + r[1:] for r in fr.returns[mark_r:]]
            states.append((body_live,) + body_state[1:])
            prev = FALSE
            for idx, h in enumerate(s.handlers):
                a = atom(mk('exc', handler_types[idx], calls))
                g = band(base_live, a)
                if idx == 0:
                    g = bor(g, explicit)
                g = band(g, bnot(prev))
                prev = bor(prev, g)
                self.restore(base)
                # names assigned in the body may or may not be set
                single = len(s.body) == 1 and isinstance(s.body[0], (
                    ast.Assign, ast.AugAssign, ast.AnnAssign))
                for (f, benv), (f2, eenv) in zip(base[1], body_state[1]):
                    for k, v in eenv.items():
                        if single and k in benv:
                            continue    # the value was not there yet
                        if k in benv and benv[k] is not v and v.op not in ('lobj', 'dobj', 'obj'):
                            f.env[k] = mk('maybe', self.freeze(benv[k]), self.freeze_soft(
                                v, body_state))
                        elif k not in benv:
                            f.env[k] = v
                for k, v in body_state[2].items():
                    if k not in self.heap:
                        self.heap[k] = v
                self.live = g
                if self.live is FALSE:
                    continue
                if h.name:
                    self.frames[-1].env[h.name] = mk('excval', handler_types[idx])
                self.exec_block(h.body)
                if self.live is not FALSE:
                    states.append(self.snapshot())
        else:
            states.append(body_state)
        self.join(states) if states else None
        if not [x for x in states if x[0] is not FALSE]:
            self.live = FALSE
        if s.orelse and self.live is not FALSE:
            self.exec_block(s.orelse)
        if s.finalbody:
            lv = self.live
            if lv is FALSE:
                self.restore(base)
            self.live = base_live
            self.exec_block(s.finalbody)
            self.live = lv

    x_TryStar = x_Try

    def raise_name(self, t):
        if t.op == 'call':
            t = t.args[0]
        if t.op in ('ext', 'cls'):
            return t.args[0]
        if t.op == 'new':
            return t.args[0]
        return None

    # ------------------------------------------------------------ expressions
    def test(self, node):
        """gate of a condition (short circuit; effects of operands are gated)"""
        if isinstance(node, ast.BoolOp):
            is_and = isinstance(node.op, ast.And)
            r = self.test(node.values[0])
            for nxt in node.values[1:]:
                cond = r if is_and else bnot(r)
                base = self.live
                if band(base, cond) is FALSE:
                    continue
                out = []

                def thunk(nxt=nxt, out=out):
                    out.append(self.test(nxt))
                self.fork([(cond, thunk), (bnot(cond), lambda: None)])
                c2 = out[0] if out else FALSE
                r = band(r, c2) if is_and else bor(r, band(cond, c2))
            return r
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return bnot(self.test(node.operand))
        if isinstance(node, ast.Compare):
            return self.compare(node)
        if isinstance(node, ast.IfExp):
            c = self.test(node.test)
            a, b = [], []
            self.fork([(c, lambda: a.append(self.test(node.body))),
                       (bnot(c), lambda: b.append(self.test(node.orelse)))])
            return bor(band(c, a[0] if a else FALSE), band(bnot(c), b[0] if b else FALSE))
        v = self.eval(node)
        return self.truth(on(v, self.live))

    def compare(self, node):
        left = self.eval(node.left)
        r = TRUE
        for op, rn in zip(node.ops, node.comparators):
            right = self.eval(rn)
            o = type(op).__name__
            if o == 'Eq':
                g = self.eq(left, right)
            elif o == 'NotEq':
                g = bnot(self.eq(left, right))
            elif o == 'Lt':
                g = self.lt(left, right)
            elif o == 'Gt':
                g = self.lt(right, left)
            elif o == 'LtE':
                g = bnot(self.lt(right, left))
            elif o == 'GtE':
                g = bnot(self.lt(left, right))
            elif o in ('Is', 'IsNot'):
                if right is NONE:
                    g = self.is_none(left)
                elif left is NONE:
                    g = self.is_none(right)
                else:
                    g = self.eq(left, right)
                if o == 'IsNot':
                    g = bnot(g)
            elif o in ('In', 'NotIn'):
                g = self.contains(left, right)
                if o == 'NotIn':
                    g = bnot(g)
            else:
                g = atom(mk('cmp', o, self.freeze(left), self.freeze(right)))
            r = band(r, g)
            left = right
        return r

    def eval(self, node):
        self.step()
        m = getattr(self, 'e_' + type(node).__name__, None)
        if m is None:
            self.unknown('expression %s' % type(node).__name__, node)
            return mk('unknown', type(node).__name__)
        return m(node)

    def e_Constant(self, n):
        return const(n.value)

    def e_Name(self, n):
        return on(self.load(n.id), self.live)

    def load(self, name):
        fr = self.frames[-1]
        if name in fr.env:
            return fr.env[name]
        for pf in fr.parent_env:
            if name in pf.env:
                return pf.env[name]
            if name in pf.local_imports:
                return self.resolve_dotted(pf.local_imports[name])
        if name in fr.local_imports:
            return self.resolve_dotted(fr.local_imports[name])
        m = fr.module
        if name in m.imports or name in m.functions or name in m.classes or name in m.assigns:
            return self.resolve_dotted(m.dotted(ast.Name(name, ast.Load())))
        if name in BUILTIN_NAMES:
            return mk('ext', name)
        return mk('global', m.name + '.' + name)

    def resolve_dotted(self, d):
        q = self.p.canonical(d)
        if q in self.p.funcs:
            return mk('func', q)
        if q in self.p.classes:
            return mk('cls', q)
        if q in self.p.modules:
            return mk('ext', q)
        parts = q.split('.')
        for i in range(len(parts) - 1, 0, -1):
            mod = '.'.join(parts[:i])
            if mod in self.p.modules:
                m = self.p.modules[mod]
                name = parts[i]
                if name in m.assigns:
                    v = self.global_value(m, name)
                    for a in parts[i + 1:]:
                        v = self.getattr(v, a, None)
                    return v
                cq = mod + '.' + name
                if cq in self.p.classes and len(parts) > i + 1:
                    v = mk('cls', cq)
                    for a in parts[i + 1:]:
                        v = self.getattr(v, a, None)
                    return v
                return mk('global', q)
        return mk('ext', q)

    def global_value(self, m, name):
        key = (m.name, name)
        if key in self.global_cache:
            return self.global_cache[key]
        vals = m.assigns[name]
        if len(vals) != 1 or vals[0] is None or key in self.global_busy:
            return mk('global', m.name + '.' + name)
        self.global_busy.add(key)
        saved = (self.live, self.loops, self.frames, self.effects, self.suppress,
                 self.__dict__.get('_lt', []), self.__dict__.get('_oc', []))
        self.live, self.loops, self.effects = TRUE, [], []
        fr = Frame(None, m, None, {}, 0)
        self.frames = [fr]
        try:
            v = self.eval(vals[0])
            if v.op in ('lobj', 'dobj', 'obj', 'tuple'):
                v2 = self.freeze(v)
                # instances of repository classes keep their identity
                v = v2 if v.op != 'obj' else v
        except Limit:
            v = mk('global', m.name + '.' + name)
        finally:
            (self.live, self.loops, self.frames, self.effects, self.suppress, _, _) = saved
            self.__dict__['_oc'] = saved[6]
            self.global_busy.discard(key)
        if v.op == 'ext' and v.args[0].startswith('typing'):
            pass
        if v.op == 'const' and not isinstance(v.args[1], (str, int, float, bytes, type(None), bool)):
            v = mk('global', m.name + '.' + name)
        self.global_cache[key] = v
        return v

    def e_Attribute(self, n):
        v = self.eval(n.value)
        return on(self.getattr(v, n.attr, n), self.live)

    def getattr(self, v, name, node):
        v = on(v, self.live)
        lv = leaves(v)
        if len(lv) == 1:
            return self._getattr(lv[0][1], name, node)
        if not any(self.needs_call(x, name) for _, x in lv):
            return phi([(g, self._getattr(x, name, node)) for g, x in lv])
        return self.fork([(g, (lambda x=x: self._getattr(x, name, node))) for g, x in lv])

    def needs_call(self, x, name):
        cls = self.class_of(x)
        if cls:
            f = self.p.find_method(cls, name)
            return f is not None and f.is_property
        return False

    def class_of(self, x):
        if x.op == 'obj':
            return self.objs[x.id]['cls']
        if x.op == 'sym' and x.args[1]:
            return self.unaliases.get(x.args[1], x.args[1])
        if x.op == 'new' and self.unaliases.get(x.args[0], x.args[0]) in self.p.classes:
            return self.unaliases.get(x.args[0], x.args[0])
        if x.op == 'call' and x.args[0].op == 'ocls':
            c = self.unaliases.get(x.args[0].args[0], x.args[0].args[0])
            return c if c in self.p.classes else None
        if x.op == 'attr' and self.attr_types and isinstance(x.args[0], T):
            base = self.class_of(x.args[0])
            if base:
                for k in self.p.mro(base):
                    t = self.attr_types.get((self.aliases.get(k.qualname, k.qualname), x.args[1]))
                    if t:
                        return self.unaliases.get(t, t)
        return None

    def _getattr(self, x, name, node):
        key = (x.id, name)
        if key in self.heap:
            return self.heap[key]
        if x.op == 'first' and x.args[1].op == 'elem' and not self.needs_call(x.args[1], name):
            v = self._getattr(x.args[1], name, node)
            if v.op == 'attr':
                return mk('first', x.args[0], v)
        cls = self.class_of(x)
        if cls:
            if x.op == 'new':
                for k, v in x.args[1]:
                    if k == name:
                        return v
            f = self.p.find_method(cls, name)
            if f is not None:
                if f.is_property:
                    return self.call_func(f, [x], {}, node)
                if f.is_static:
                    return mk('func', f.qualname)
                if f.is_classmethod:
                    return mk('bound', mk('cls', cls), f.qualname)
                return mk('bound', x, f.qualname)
            ca = self.p.find_class_attr(cls, name)
            if ca is not None and x.op in ('obj', 'sym'):
                if x.op == 'sym' and self.is_tuple_class(cls):
                    return mk('attr', x, name)
                return self.eval_in_module(ca[0].module, ca[1])
            if name == '__class__':
                return mk('cls', cls)
            return mk('attr', self.freeze(x) if x.op == 'obj' and False else x, name)
        if x.op == 'cls':
            f = self.p.find_method(x.args[0], name)
            if f is not None:
                if f.is_classmethod:
                    return mk('bound', x, f.qualname)
                return mk('func', f.qualname)
            ca = self.p.find_class_attr(x.args[0], name)
            if ca is not None:
                return self.eval_in_module(ca[0].module, ca[1])
            return mk('attr', x, name)
        if x.op == 'ext':
            q = x.args[0] + '.' + name
            if x.args[0] in self.p.modules or self.p.canonical(q) != q:
                return self.resolve_dotted(q)
            return mk('ext', q)
        if x.op == 'super':
            selfv, after = x.args
            cls = self.class_of(selfv) or (selfv.args[0] if selfv.op == 'cls' else None)
            f = self.p.find_method(cls, name, after=after) if cls else None
            if f is None and cls and name == '__init__' and self.plain_bases(cls, after):
                return mk('ext', 'object.__init__')
            if f is not None:
                if f.is_property:
                    return self.call_func(f, [selfv], {}, node)
                return mk('bound', selfv, f.qualname)
            return mk('attr', mk('superext', after), name)
        if x.op in ('lobj', 'dobj', 'seq', 'dict', 'tuple', 'const', 'cat'):
            return mk('attr', x, name)
        return mk('attr', x, name)

    def plain_bases(self, cls, after):
        """nothing but object is behind the classes written here"""
        return all(b.split('[')[0].rsplit('.', 1)[-1] in ('object', 'ABC', 'Generic', 'Protocol')
                   for b in self.p.external_bases(cls) + self.p.external_bases(after))

    def b_object___init__(self, args, kwargs, node):
        return NONE if not args and not kwargs else None

    def is_tuple_class(self, cls):
        return any('NamedTuple' in (b or '') for k in self.p.mro(cls) for b in k.base_names)

    def eval_in_module(self, module, node):
        saved = self.frames
        self.frames = [Frame(None, module, None, {}, 0)]
        try:
            return self.eval(node)
        finally:
            self.frames = saved

    def e_Subscript(self, n):
        v = self.eval(n.value)
        if isinstance(n.slice, ast.Slice):
            lo = self.eval(n.slice.lower) if n.slice.lower else NONE
            hi = self.eval(n.slice.upper) if n.slice.upper else NONE
            st = self.eval(n.slice.step) if n.slice.step else NONE
            return self.slice(v, lo, hi, st)
        k = self.eval(n.slice)
        r = self.index(on(v, self.live), k)
        for _, leaf in leaves(r):
            if leaf.op == 'idx':
                self.opcalls.append(leaf)
        return r

    def e_Tuple(self, n):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            t = self.e_List(n)
            self.objs[t.id]['seqkind'] = 'tuple'
            return t
        vals = [self.eval(e) for e in n.elts]
        return mk('tuple', *vals)

    def e_List(self, n):
        t = self.new_list()
        for e in n.elts:
            if isinstance(e, ast.Starred):
                self.list_extend(t, self.eval(e.value))
            else:
                v = self.eval(e)
                self.list_append(t, v)
        return t

    def e_Set(self, n):
        t = self.e_List(n)
        self.objs[t.id]['seqkind'] = 'set'
        return t

    def e_Dict(self, n):
        t = self.new_dict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.dict_update(t, self.eval(v))
            else:
                kv = self.eval(k)
                self.store_item(t, kv, self.eval(v), n)
        return t

    def dict_update(self, t, v):
        info = self.objs[t.id]
        out = []
        for g, leaf in leaves(on(v, self.live)):
            ds = self.dict_segs(leaf)
            if ds is None:
                it = self.freeze(leaf)
                ds = tuple((s[0], s[1], s[2], mk('idx', it, s[2]))
                           for s in self.ident_segs(it)) if it is not NONE else ()
            pre = self.cur_loops(info['depth'])
            for s in ds:
                loops, rest = self.fresh_loops(s[0], *s[1:])
                gate = band(simplify_on(band(self.live, g), info['live']), rest[0])
                if gate is FALSE:
                    continue
                out.append((pre + loops, gate) + tuple(rest[1:]))
        self.heap[(t.id, '#segs')] = self.heap[(t.id, '#segs')] + tuple(out)

    def list_append(self, t, v, gate=None):
        info = self.objs[t.id]
        loops = self.cur_loops(info['depth'])
        g = simplify_on(self.live if gate is None else gate, info['live'])
        self.heap[(t.id, '#segs')] = self.heap[(t.id, '#segs')] + ((loops, g, v),)

    def list_extend(self, t, v):
        info = self.objs[t.id]
        pre = self.cur_loops(info['depth'])
        out = []
        for g, leaf in leaves(on(v, self.live)):
            for s in self.iter_segs(leaf):
                loops, (sg, sv) = self.fresh_loops(s[0], s[1], s[2])
                gate = band(simplify_on(band(self.live, g), info['live']), sg)
                if gate is FALSE:
                    continue
                out.append((pre + loops, gate, sv))
        self.heap[(t.id, '#segs')] = self.heap[(t.id, '#segs')] + tuple(out)

    def e_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.eval(v.value)
                if v.conversion == ord('r'):
                    x = lift(lambda y: mk('repr', y), self.freeze(x))
                if v.format_spec is not None and v.format_spec.values:
                    spec = ast.unparse(v.format_spec) if False else repr(
                        [getattr(z, 'value', '?') for z in v.format_spec.values])
                    x = lift(lambda y: mk('format', y, spec), self.freeze(x))
                parts.append(x)
        return self.cat(parts)

    def e_FormattedValue(self, n):
        return self.eval(n.value)

    def cat(self, parts):
        """string concatenation of parts (str() of parts is implied)"""
        parts = [self.freeze(p) for p in parts]

        def f(*ps):
            out = []
            for p in ps:
                if p.op == 'str':
                    p = p.args[0]
                sub = p.args if p.op == 'cat' or p.op == 'add' and not numeric(p) else (p,)
                for q in sub:
                    if q.op == 'const' and not isinstance(q.args[1], bytes):
                        q = const(str(q.args[1]))
                        if out and out[-1].op == 'const':
                            out[-1] = const(out[-1].args[1] + q.args[1])
                            continue
                        if q.args[1] == '':
                            continue
                    out.append(q)
            if not out:
                return const('')
            if len(out) == 1:
                return out[0] if out[0].op == 'const' else mk('str', out[0])
            if any(self.is_concat(q) for q in out):
                return self.mk_concat([((), TRUE, q) for q in out])
            if not any(q.op == 'const' or numeric(q) for q in out):
                return mk('add', *[y for q in out for y in (q.args if q.op == 'add' else (q,))])
            return mk('cat', *out)
        return lift(f, *parts) if parts else const('')

    @staticmethod
    def is_concat(t):
        return t.op == 'join' and t.args[0] is const('') and t.args[1].op == 'seq'

    def e_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            return self.boolv(self.test(n))
        v = self.eval(n.operand)
        if isinstance(n.op, ast.USub):
            def f(x):
                if x.op == 'const' and isinstance(x.args[1], (int, float)):
                    return const(-x.args[1])
                return mk('neg', x)
            return lift(f, self.freeze(v))
        return lift(lambda x: mk('unary', type(n.op).__name__, x), self.freeze(v))

    def e_BoolOp(self, n):
        is_and = isinstance(n.op, ast.And)
        v = self.eval(n.values[0])
        for nxt in n.values[1:]:
            v = on(v, self.live)
            c = self.truth(v)
            take = c if is_and else bnot(c)
            if band(self.live, take) is FALSE:
                continue
            cur = v
            v = self.fork([(take, lambda nxt=nxt: self.eval(nxt)),
                           (bnot(take), lambda cur=cur: cur)])
        return v

    def e_Compare(self, n):
        return self.boolv(self.compare(n))

    def e_IfExp(self, n):
        c = self.test(n.test)
        return self.fork([(c, lambda: self.eval(n.body)), (bnot(c), lambda: self.eval(n.orelse))])

    def e_NamedExpr(self, n):
        v = self.eval(n.value)
        self.assign(n.target, v)
        return v

    def e_Lambda(self, n):
        return self.closure(n)

    def e_Starred(self, n):
        return self.eval(n.value)

    def e_Await(self, n):
        return self.eval(n.value)

    def e_BinOp(self, n):
        a = self.eval(n.left)
        b = self.eval(n.right)
        return self.binop(n.op, a, b)

    def is_seqish(self, x):
        return x.op in ('lobj', 'seq') or (x.op == 'tuple')

    def binop(self, op, a, b):
        o = type(op).__name__

        def f(x, y):
            if x.op == 'const' and y.op == 'const':
                try:
                    r = self.const_binop(o, x.args[1], y.args[1])
                    if isinstance(r, (str, int, float, bytes, bool)):
                        return const(r)
                except Exception:  # pylint: disable=broad-except
                    pass
            if o == 'Mod' and x.op == 'const' and isinstance(x.args[1], str):
                return self.percent(x.args[1], y)
            if o == 'Add':
                if x is const(''):
                    return y
                if y is const(''):
                    return x
                if (x.op == 'const' and isinstance(x.args[1], str)) or (
                        y.op == 'const' and isinstance(y.args[1], str)) \
                        or x.op in ('cat', 'str') or y.op in ('cat', 'str') \
                        or self.is_concat(x) or self.is_concat(y):
                    return self.cat([x, y])
                if self.is_seqish(x) or self.is_seqish(y):
                    if x.op == 'tuple' and y.op == 'tuple':
                        return mk('tuple', *(x.args + y.args))
                    t = self.new_list(kind='list')
                    self.list_extend(t, x)
                    self.list_extend(t, y)
                    return t
                # commutative constants last
                if y.op == 'const' and y.args[1] == 0:
                    return x
                fx, fy = self.freeze(x), self.freeze(y)
                return lift(self.mk_add, fx, fy)
            if o == 'Sub':
                if y.op == 'const' and y.args[1] == 0 and y.args[0] == 'num':
                    return x
                if self.seq_kind(x) == 'set' or self.seq_kind(y) == 'set':
                    return self.set_filter(x, y, False)
                fx, fy = self.freeze(x), self.freeze(y)

                return lift(lambda p, q: lin_term(lin_sum(((p, 1), (q, -1)))), fx, fy)
            if o == 'BitOr' and (self.seq_kind(x) == 'set' or self.seq_kind(y) == 'set'):
                t = self.new_list(kind='set')
                self.list_extend(t, x)
                self.list_extend(t, y)
                return t
            if o == 'BitAnd' and (self.seq_kind(x) == 'set' or self.seq_kind(y) == 'set'):
                return self.set_filter(x, y, True)
            fx, fy = self.freeze(x), self.freeze(y)
            if o == 'Mult':
                def mul(p, q):
                    if p.op == 'const' and p.args[1] == 1 and p.args[0] == 'num':
                        return q
                    if q.op == 'const' and q.args[1] == 1 and q.args[0] == 'num':
                        return p
                    return mk('mul', *sorted((p, q)))
                return lift(mul, fx, fy)
            return lift(lambda p, q: mk('bin', o, p, q), fx, fy)
        return lift(f, a, b)

    def mk_add(self, p, q):
        """sum in linear normal form; arguments of unknown type keep their order"""
        if numeric(p) or numeric(q):
            return lin_term(lin_sum(((p, 1), (q, 1))))

        def parts(t):
            return list(t.args) if t.op == 'add' else [t]
        return mk('add', *(parts(p) + parts(q)))

    def const_binop(self, o, a, b):
        if o == 'Add':
            return a + b
        if o == 'Sub':
            return a - b
        if o == 'Mult':
            return a * b
        if o == 'Mod' and isinstance(a, (int, float)):
            return a % b
        if o == 'Div':
            return a / b
        raise ValueError(o)

    def set_filter(self, x, y, keep):
        t = self.new_list(kind='set')
        info = self.objs[t.id]
        out = []
        pre = self.cur_loops(info['depth'])
        for s in self.iter_segs(x):
            loops, (sg, sv) = self.fresh_loops(s[0], s[1], s[2])
            g = self.contains(sv, y)
            g = g if keep else bnot(g)
            out.append((pre + loops, band(sg, g), sv))
        self.heap[(t.id, '#segs')] = tuple(out)
        return t

    def percent(self, fmt, y):
        import re as _re
        if y.op == 'tuple':
            args = list(y.args)
        elif self.segs_of(y) is not None and y.op != 'lobj':
            args = [s[2] for s in self.segs_of(y)]
        else:
            args = [y]
        parts = []
        pos = 0
        for m in _re.finditer(r'%(\([^)]*\))?([-#0 +]*[\d.]*)([sdrfx%i])', fmt):
            parts.append(const(fmt[pos:m.start()]))
            pos = m.end()
            if m.group(3) == '%':
                parts.append(const('%'))
                continue
            if m.group(1):
                x = self.index(y, const(m.group(1)[1:-1]))
            elif args:
                x = args.pop(0)
            else:
                x = mk('missing')
            if m.group(3) == 'r':
                x = lift(lambda z: mk('repr', z), self.freeze(x))
            elif m.group(2):
                spec = m.group(2) + m.group(3)
                x = lift(lambda z: mk('format', z, spec), self.freeze(x))
            parts.append(x)
        parts.append(const(fmt[pos:]))
        return self.cat(parts)

    def str_format(self, fmt, args, kwargs):
        import string
        parts = []
        n = 0
        for lit, field, spec, conv in string.Formatter().parse(fmt):
            parts.append(const(lit))
            if field is None:
                continue
            if field == '':
                x = args[n] if n < len(args) else mk('missing')
                n += 1
            elif field.isdigit():
                x = args[int(field)] if int(field) < len(args) else mk('missing')
            else:
                x = kwargs.get(field, mk('missing'))
            if conv == 'r':
                x = lift(lambda z: mk('repr', z), self.freeze(x))
            if spec:
                x = lift(lambda z: mk('format', z, spec), self.freeze(x))
            parts.append(x)
        return self.cat(parts)

    # ------------------------------------------------------------ comprehensions
    def e_ListComp(self, n):
        return self.comp(n, 'list')

    def e_SetComp(self, n):
        return self.comp(n, 'set')

    def e_GeneratorExp(self, n):
        return self.comp(n, 'gen')

    def e_DictComp(self, n):
        return self.comp(n, 'dict')

    def comp(self, n, kind):
        out = []
        depth = len(self.loops)
        base_live = self.live
        env0 = dict(self.frames[-1].env)
        assigned = []

        def emit():
            loops = self.cur_loops(depth)
            gate = simplify_on(self.live, base_live)
            if kind == 'dict':
                k = self.eval(n.key)
                v = self.eval(n.value)
                out.append((loops, gate, k, v))
            else:
                out.append((loops, gate, self.eval(n.elt)))

        def rec(i):
            if self.live is FALSE:
                return
            if i == len(n.generators):
                emit()
                return
            g = n.generators[i]
            itv = on(self.eval(g.iter), self.live)
            for lg, leaf in leaves(itv):
                for seg in self.iter_segs(leaf):
                    loops, (sg, sv) = self.fresh_loops(seg[0], seg[1], seg[2])
                    saved = self.live
                    self.live = band(band(saved, lg), sg)
                    if self.live is not FALSE:
                        lcs = [LoopCtx(lp, self.live) for lp in loops]
                        self.loops.extend(lcs)
                        self.assign(g.target, sv)
                        for c in g.ifs:
                            if self.live is FALSE:
                                break
                            cg = self.test(c)
                            self.live = band(self.live, cg)
                        rec(i + 1)
                        if lcs:
                            del self.loops[-len(lcs):]
                    self.live = saved
        rec(0)
        self.live = base_live
        # comprehension variables do not leak
        fr = self.frames[-1]
        env = {}
        for k, v in fr.env.items():
            if k in env0:
                env[k] = env0[k] if any(
                    isinstance(x, ast.Name) and x.id == k
                    for g in n.generators for x in ast.walk(g.target)) else v
        fr.env = env
        if kind == 'dict':
            return self.new_dict(out)
        if kind == 'gen':
            return mk('seq', 'gen', tuple(out))
        return self.new_list(out, kind)

    def e_Yield(self, n):
        v = self.eval(n.value) if n.value is not None else NONE
        fr = self.frames[-1]
        if fr.cm_body is not None:
            fr.cm_body(v)
            return NONE
        if fr.yields is not None:
            fr.yields.append((self.cur_loops(fr.loop_base),
                              simplify_on(self.live, fr.selfv), v))
        return NONE

    def e_YieldFrom(self, n):
        v = self.eval(n.value)
        fr = self.frames[-1]
        if fr.yields is not None:
            pre = self.cur_loops(fr.loop_base)
            for g, leaf in leaves(on(v, self.live)):
                for s in self.iter_segs(leaf):
                    loops, (sg, sv) = self.fresh_loops(s[0], s[1], s[2])
                    gate = band(simplify_on(band(self.live, g), fr.selfv), sg)
                    if gate is not FALSE:
                        fr.yields.append((pre + loops, gate, sv))
        return NONE

    # ------------------------------------------------------------ calls
    def eval_args(self, n):
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                segs = self.segs_of(v) if v.op != 'phi' else None
                if segs is not None and all(s[0] == () and s[1] is TRUE for s in segs):
                    args.extend(s[2] for s in segs)
                else:
                    args.append(mk('star', self.freeze(v)))
            else:
                args.append(self.eval(a))
        for k in n.keywords:
            v = self.eval(k.value)
            if k.arg is None:
                ds = self.dict_segs(v) if v.op != 'phi' else None
                if ds is not None and all(
                        s[0] == () and s[1] is TRUE and s[2].op == 'const' for s in ds):
                    for s in ds:
                        kwargs[s[2].args[1]] = s[3]
                else:
                    kwargs['**'] = v
            else:
                kwargs[k.arg] = v
        return args, kwargs

    def e_Call(self, n):
        return self.eval_call(n)

    def is_logger(self, t):
        return t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] == 'logging.getLogger'

    def eval_call(self, n, unused=False):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and 'super' not in \
                self.frames[-1].env:
            fr = self.frames[-1]
            a = fr.func.node.args
            first = (a.posonlyargs + a.args)[0].arg
            return mk('super', fr.env[first], fr.cls.qualname)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'fromkeys' and isinstance(
                n.func.value, ast.Name) and n.func.value.id == 'dict' and not n.keywords \
                and 1 <= len(n.args) <= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            k = '<key>'
            comp = ast.DictComp(
                key=ast.Name(id=k, ctx=ast.Load()),
                value=n.args[1] if len(n.args) > 1 else ast.Constant(value=None),
                generators=[ast.comprehension(
                    target=ast.Name(id=k, ctx=ast.Store()), iter=n.args[0], ifs=[], is_async=0)])
            return self.eval(ast.fix_missing_locations(ast.copy_location(comp, n)))
        if isinstance(n.func, ast.Attribute):
            recv = on(self.eval(n.func.value), self.live)
            if self.live is FALSE:
                return UNDEF
            name = n.func.attr
            if all(self.is_logger(x) for _, x in leaves(recv)) and name in LOG_METHODS:
                self.suppress += 1
                saved = self.live
                try:
                    args, kwargs = self.eval_args(n)
                    fargs = tuple(self.freeze(a) for a in args)
                finally:
                    self.suppress -= 1
                    self.live = saved
                self.effect('log', mk('log', name, fargs), n)
                return NONE
            args, kwargs = self.eval_args(n)
            if self.live is FALSE:
                return UNDEF
            lv = leaves(on(recv, self.live))
            if len(lv) == 1:
                return self.method_call(lv[0][1], name, args, kwargs, n, unused)
            return self.fork([
                (g, (lambda x=x: self.method_call(x, name, args, kwargs, n, unused)))
                for g, x in lv])
        if isinstance(n.func, ast.Name) and n.func.id in ('any', 'all') and len(n.args) == 1 \
                and isinstance(n.args[0], ast.GeneratorExp) and not n.keywords \
                and n.func.id not in self.frames[-1].env:
            r = self.stopping(n)
            if r is not None:
                return r
        f = on(self.eval(n.func), self.live)
        args, kwargs = self.eval_args(n)
        if self.live is FALSE:
            return UNDEF
        return self.call_value(f, args, kwargs, n, unused)

    def stopping(self, n):
        """any / all over calls that change something: the loop that stops at the first one"""
        snap, neff, nw = self.snapshot(), len(self.effects), len(self.wlog)
        nop = len(self.opcalls)
        self.comp(n.args[0], 'gen')
        writes = len(self.wlog) > nw
        self.restore(snap)
        del self.effects[neff:]
        del self.wlog[nw:]
        del self.opcalls[nop:]
        if not writes:
            return None
        env = self.frames[-1].env
        is_any = n.func.id == 'any'
        flag = '#any%d' % n.lineno
        gens = n.args[0].generators
        old = {x.id: env.get(x.id) for g in gens for x in ast.walk(g.target)
               if isinstance(x, ast.Name)}
        test = n.args[0].elt if is_any else ast.UnaryOp(op=ast.Not(), operand=n.args[0].elt)
        found = [ast.Assign(targets=[ast.Name(id=flag, ctx=ast.Store())],
                            value=ast.Constant(value=is_any)), ast.Break()]
        if len(gens) != 1:
            return None
        body = [ast.If(test=test, body=found, orelse=[])]
        for c in reversed(gens[0].ifs):
            body = [ast.If(test=c, body=body, orelse=[])]
        loop = [ast.Assign(targets=[ast.Name(id=flag, ctx=ast.Store())],
                           value=ast.Constant(value=not is_any)),
                ast.For(target=gens[0].target, iter=gens[0].iter, body=body, orelse=[])]
        for st in loop:
            for x in ast.walk(st):
                if 'lineno' in x._attributes and not hasattr(x, 'lineno'):
                    x.lineno = x.end_lineno = n.lineno
                    x.col_offset = x.end_col_offset = n.col_offset
        self.exec_block(loop)
        env = self.frames[-1].env
        r = env.pop(flag, UNDEF)
        for k, v in old.items():
            if v is None:
                env.pop(k, None)
            else:
                env[k] = v
        return r

    def call_value(self, f, args, kwargs, node, unused=False):
        lv = leaves(on(f, self.live))
        if len(lv) == 1:
            return self.call_leaf(lv[0][1], args, kwargs, node, unused)
        return self.fork([
            (g, (lambda x=x: self.call_leaf(x, args, kwargs, node, unused))) for g, x in lv])

    def call_leaf(self, f, args, kwargs, node, unused=False):
        if f.op == 'func':
            fn = self.p.funcs.get(f.args[0])
            if fn is not None:
                return self.call_func(fn, args, kwargs, node, unused)
        if f.op == 'bound':
            fn = self.p.funcs.get(f.args[1])
            if 'abc.abstractmethod' in fn.decorators or 'abstractmethod' in fn.decorators:
                return self.method_call(f.args[0], fn.name, args, kwargs, node, unused)
            return self.call_func(fn, [f.args[0]] + list(args), kwargs, node, unused)
        if f.op == 'partial':
            kw = dict(f.args[2])
            kw.update(kwargs)
            return self.call_value(f.args[0], list(f.args[1]) + list(args), kw, node, unused)
        if f.op == 'closure':
            return self.call_closure(f, args, kwargs, node)
        if f.op == 'lambda' and not f.args[3] and f.args[2] is TRUE and not kwargs \
                and f.args[0] == len(args):
            # apply an extensional function value
            ret = f.args[1]
            m = {}
            for d in (1, 2, 3):
                for i, a in enumerate(args):
                    m[mk('arg', d, i)] = self.freeze(a)
            return Subst(m, rebuild=self.rebuild, truth=self.rebuild_atom)(ret)
        if f.op == 'cls':
            return self.instantiate(f.args[0], args, kwargs, node, unused)
        if f.op == 'attr':
            return self.method_call(f.args[0], f.args[1], args, kwargs, node, unused)
        if f.op == 'ext':
            return self.call_ext(f.args[0], args, kwargs, node, unused)
        if f.op == 'namedtuple':
            return self.make_tuple_obj(f, args, kwargs)
        return self.opaque_call(f, args, kwargs, node, unused)

    def make_tuple_obj(self, f, args, kwargs):
        t = self.new_obj('obj', cls='namedtuple:' + f.args[0])
        for i, nme in enumerate(f.args[1]):
            v = args[i] if i < len(args) else kwargs.get(nme, mk('missing'))
            self.heap[(t.id, nme)] = v
        return t

    def opaque_call(self, f, args, kwargs, node, unused=False, kind='call'):
        ff = self.freeze(f)
        fargs = [self.freeze(a) for a in args]
        kws = sorted(kwargs.items())
        kvals = [self.freeze(v) for _, v in kws]

        def build(x, *rest):
            a = rest[:len(fargs)]
            k = tuple((kk, v) for (kk, _), v in zip(kws, rest[len(fargs):]))
            return mk('call', x, tuple(a), k, *self.version(x, None, None))
        t = lift(build, ff, *(fargs + kvals))
        self.log_write(t)
        for g, leaf in leaves(t):
            self.effect(kind, leaf, node, gate=band(self.live, g), unused=unused)
            self.opcalls.append(leaf)
        if ff.op in ('ext', 'ofunc') and self.returns_bool(ff):
            return self.boolv(self.truth(t))
        return t

    def returns_bool(self, f):
        if f.op == 'ext':
            return f.args[0] in BOOL_EXT
        fn = self.p.funcs.get(f.args[0])
        return fn is not None and isinstance(fn.node.returns, ast.Name) and (
            fn.node.returns.id == 'bool')

    def opaque_mcall(self, recv, name, args, kwargs, node, unused=False):
        fr = self.freeze(recv)
        fargs = [self.freeze(a) for a in args]
        kws = sorted(kwargs.items())
        kvals = [self.freeze(v) for _, v in kws]

        def build(x, *rest):
            a = rest[:len(fargs)]
            k = tuple((kk, v) for (kk, _), v in zip(kws, rest[len(fargs):]))
            return mk('mcall', x, name, tuple(a), k, *self.version(None, x, name))
        t = lift(build, fr, *(fargs + kvals))
        self.log_write(t)
        for g, leaf in leaves(t):
            self.effect('mcall', leaf, node, gate=band(self.live, g), unused=unused)
            self.opcalls.append(leaf)
        if name in BOOL_METHODS:
            return self.boolv(self.truth(t))
        return t

    # ------------------------------------------------------------ interference
    def foot(self, f, recv, name):
        """(label, reads, writes) of an opaque operation"""
        if self.fp is None:
            return None, frozenset(), frozenset()
        if name is not None:
            a = recv
            while a.op in ('idx', 'elem', 'at') and isinstance(a.args[0], T):
                a = a.args[0]
            attr = a.args[1] if a.op == 'attr' else None
            local = recv.op in ('const', 'seq', 'dict', 'tuple', 'cat')
            r, w = self.fp.of_method(name, attr, local)
            return name, r, w
        if f.op == 'ofunc':
            r, w = self.fp.of_func(f.args[0])
            return f.args[0].split('.')[-1], r, w
        if f.op == 'ext':
            r, w = self.fp.of_ext(f.args[0])
            return f.args[0], r, w
        if f.op == 'attr':
            r, w = self.fp.of_method(f.args[1], None, False)
            return f.args[1], r, w
        return None, frozenset(), frozenset()

    def version(self, f, recv, name):
        label, r, w = self.foot(f, recv, name)
        if not r and not w:
            return ()
        seen = set()
        for g, lab, ww in self.wlog:
            if lab == label or lab in seen:
                continue
            if (ww & r or ww & w) and band(g, self.live) is not FALSE:
                seen.add(lab)
        # operations after a reader that they would have affected
        return (('after',) + tuple(sorted(seen)),) if seen else ()

    def log_write(self, t):
        if self.fp is None or self.suppress:
            return
        for g, x in leaves(t):
            if x.op == 'call':
                label, r, w = self.foot(x.args[0], None, None)
            elif x.op == 'mcall':
                label, r, w = self.foot(None, x.args[0], x.args[1])
            else:
                continue
            if w:
                self.wlog.append((band(self.live, g), label, frozenset(w)))

    def can_inline(self, fn):
        if fn.qualname in self.opaque:
            return False
        if self.inline_filter is not None and not self.inline_filter(fn):
            return False
        if len(self.stack) >= self.max_depth:
            return False
        if self.stack.count(fn.qualname) >= 1:
            return False
        if 'abc.abstractmethod' in fn.decorators or 'abstractmethod' in fn.decorators:
            return False
        return True

    def bind(self, fn, args, kwargs, node_override=None):
        node = fn.node if fn is not None else node_override
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        extra = []
        for i, v in enumerate(args):
            if v.op == 'star' and i == len(args) - 1 and a.vararg is not None and i >= len(pos):
                extra = v
                break
            if i < len(pos):
                env[pos[i]] = v
            else:
                extra.append(v)
        if a.vararg is not None:
            env[a.vararg.arg] = mk('tuple', *extra) if isinstance(extra, list) else extra.args[0]
        rest = {}
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        for k, v in kwargs.items():
            if k in names and k not in env:
                env[k] = v
            else:
                rest[k] = v
        star = rest.pop('**', None)
        defaults = {}
        for n, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            defaults[n] = d
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        for n in pos + [x.arg for x in a.kwonlyargs]:
            if n in env:
                continue
            if star is not None and n not in defaults:
                env[n] = lift(lambda s: self.mk_idx(s, const(n)), self.freeze(star))
            elif n in defaults:
                env[n] = self.eval_default(fn, defaults[n])
            else:
                env[n] = mk('missing', n)
        if a.kwarg is not None:
            if star is not None and not rest:
                env[a.kwarg.arg] = star
            else:
                d = self.new_dict([((), TRUE, const(k), v) for k, v in sorted(rest.items())])
                if star is not None:
                    self.dict_update(d, star)
                env[a.kwarg.arg] = d
        return env

    def forwarded(self, fn):
        """names of the parameters the extra positional arguments of fn are handed on to"""
        a = fn.node.args
        if a.vararg is None:
            return ()
        for n in ast.walk(fn.node):
            if not isinstance(n, ast.Call) or not n.args:
                continue
            last = n.args[-1]
            if not (isinstance(last, ast.Starred) and isinstance(last.value, ast.Name)
                    and last.value.id == a.vararg.arg):
                continue
            skip = len(n.args) - 1
            f = n.func
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(
                    f.value.func, ast.Name) and f.value.func.id == 'super' and fn.cls is not None:
                target = None
                for k in self.p.mro(fn.cls.qualname)[1:]:
                    if f.attr in k.methods:
                        target = k.methods[f.attr]
                        break
                skip += 1
            else:
                d = fn.module.dotted(f) if isinstance(f, (ast.Name, ast.Attribute)) else None
                q = self.p.canonical(d) if d else None
                target = self.p.funcs.get(q)
                if target is None and q in self.p.classes:
                    target = self.p.find_method(q, '__init__')
                    skip += 1
            if target is None or not any(k.arg is None for k in n.keywords):
                return ()
            t = target.node.args
            return tuple(x.arg for x in (t.posonlyargs + t.args)[skip:])
        return ()

    def name_extra(self, fn, args, kwargs):
        """extra positional arguments that are handed on, by the name they get there"""
        n = len(fn.node.args.posonlyargs + fn.node.args.args)
        if len(args) <= n or fn.node.args.kwarg is None or any(x.op == 'star' for x in args):
            return args, kwargs
        names = self.forwarded(fn)
        extra = args[n:]
        if len(extra) > len(names) or any(k in kwargs for k in names[:len(extra)]):
            return args, kwargs
        return args[:n], dict(kwargs, **dict(zip(names, extra)))

    def eval_default(self, fn, node):
        if fn is not None and fn.parent is None:
            saved = (self.frames, self.suppress)
            self.frames = [Frame(None, fn.module, None, {}, 0)]
            try:
                return self.eval(node)
            finally:
                self.frames, self.suppress = saved
        return self.eval(node)

    def call_func(self, fn, args, kwargs, node, unused=False):
        if not self.can_inline(fn) or fn.is_contextmanager:
            args, kwargs = self.name_extra(fn, list(args), kwargs)
            env = self.bind(fn, args, kwargs)
            a = fn.node.args
            names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
            if a.vararg:
                names.append(a.vararg.arg)
            if a.kwarg:
                names.append(a.kwarg.arg)
            kw = {k: env[k] for k in names if k in env}
            if a.kwarg:
                kv = kw[a.kwarg.arg]
                ds = self.dict_segs(kv) if kv.op != 'phi' else None
                if ds is not None and not ds:
                    del kw[a.kwarg.arg]
            f = mk('ofunc', self.alias(fn.qualname))
            return self.opaque_call(f, [], kw, node, unused)
        env = self.bind(fn, args, kwargs)
        return self.enter(fn, env)

    def enter(self, fn, env, cm_body=None):
        self.inlined.add(fn.qualname)
        fr = Frame(fn, fn.module, fn.cls, dict(env), len(self.stack))
        return self.run_frame(fr, fn.node, fn.qualname, cm_body, fn.is_generator)

    def run_frame(self, fr, node, qual, cm_body, is_gen):
        fr.loop_base = len(self.loops)
        fr.cm_body = cm_body
        fr.selfv = self.live
        if is_gen and cm_body is None:
            fr.yields = []
        self.frames.append(fr)
        self._frames_all.append(fr)
        self.stack.append(qual)
        lt = self.__dict__.get('_lt', [])
        self.__dict__['_lt'] = []
        try:
            if isinstance(node, ast.Lambda):
                v = self.eval(node.body)
                if self.live is not FALSE:
                    fr.returns.append((self.live, v, dict(self.heap)))
            else:
                self.exec_block(node.body)
                if self.live is not FALSE:
                    fr.returns.append((self.live, NONE, dict(self.heap)))
        finally:
            self.frames.pop()
            self._frames_all.remove(fr)
            self.stack.pop()
            self.__dict__['_lt'] = lt
        rets = [r for r in fr.returns if r[0] is not FALSE]
        if not rets and fr.yields:
            # generator that never ends by itself
            self.live = fr.selfv
            return mk('seq', 'gen', tuple(fr.yields))
        if not rets:
            self.live = FALSE
            return UNDEF
        env_states = [(f, f.env) for f in self._frames_all]
        live = bors(r[0] for r in rets)
        if len(rets) == 1:
            self.heap = rets[0][2]
        else:
            states = [(r[0], [(f, dict(e)) for f, e in env_states], r[2]) for r in rets]
            self.join(states)
        self.live = live
        if fr.yields is not None:
            return mk('seq', 'gen', tuple(self.sort_disjoint(fr.yields)))
        return phi([(simplify_on(r[0], live), r[1]) for r in rets]) if len(rets) > 1 else rets[0][1]

    def call_closure(self, f, args, kwargs, node):
        info = self.objs[f.id]
        n = info['node']
        q = '<closure %d>' % id(n)
        if self.stack.count(q) >= 1 or len(self.stack) >= self.max_depth:
            return self.opaque_call(mk('closure?'), args, kwargs, node)
        parent = info['frame']
        saved = self.frames
        env = self.bind(None, args, kwargs, node_override=n) if not n.args.defaults else \
            self.bind_closure(n, args, kwargs, parent)
        fr = Frame(parent.func, parent.module, parent.cls, env, len(self.stack))
        fr.parent_env = [parent] + parent.parent_env
        is_gen = not isinstance(n, ast.Lambda) and any(
            isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(n))
        return self.run_frame(fr, n, q, None, is_gen)

    def bind_closure(self, n, args, kwargs, parent):
        saved = self.frames
        self.frames = [parent]
        try:
            return self.bind(None, args, kwargs, node_override=n)
        finally:
            self.frames = saved

    def class_fields(self, q):
        return [(nme, d, k) for k in reversed(self.p.mro(q)) for nme, d in k.annotations]

    def instantiate(self, q, args, kwargs, node, unused=False):
        cls = self.p.classes[q]
        init = self.p.find_method(q, '__init__')
        if q in self.opaque or any(
                (b or '').split('.')[-1] in ('Exception', 'ValueError', 'RuntimeError', 'Error')
                for b in self.p.external_bases(q)):
            f = mk('ocls', self.alias(q))
            if init is not None:
                args, kwargs = self.name_extra(init, [mk('selfobj')] + list(args), kwargs)
                env = self.bind(init, args, kwargs)
                names = [x for x in init.param_names()[1:] if x in env]
                for extra in (init.node.args.vararg, init.node.args.kwarg):
                    if extra is not None and extra.arg in env:
                        names.append(extra.arg)
                kw = {k: env[k] for k in names}
                return self.opaque_call(f, [], kw, node, unused)
            fields = self.class_fields(q)
            if fields and len(args) <= len(fields) and all(
                    a.op != 'star' for a in args) and all(
                        k in [x[0] for x in fields] for k in kwargs):
                kw = {}
                for i, (nme, d, k) in enumerate(fields):
                    if i < len(args):
                        kw[nme] = args[i]
                    elif nme in kwargs:
                        kw[nme] = kwargs[nme]
                    elif d is not None:
                        kw[nme] = self.eval_in_module(k.module, d)
                return self.opaque_call(f, [], kw, node, unused)
            return self.opaque_call(f, args, kwargs, node, unused)
        t = self.new_obj('obj', cls=q)
        if init is None:
            # NamedTuple / dataclass style fields
            fields = self.class_fields(q)
            for i, (nme, d, k) in enumerate(fields):
                if i < len(args):
                    v = args[i]
                elif nme in kwargs:
                    v = kwargs[nme]
                elif d is not None:
                    v = self.eval_in_module(k.module, d)
                else:
                    v = mk('missing', nme)
                self.heap[(t.id, nme)] = v
            return t
        if not self.can_inline(init):
            env = self.bind(init, [t] + list(args), kwargs)
            for k in init.param_names()[1:]:
                if k in env:
                    self.heap[(t.id, '@' + k)] = env[k]
            return t
        self.call_func(init, [t] + list(args), kwargs, node)
        return t

    # ------------------------------------------------------------ methods of known values
    def method_call(self, x, name, args, kwargs, node, unused=False):
        key = (x.id, name)
        if key in self.heap:
            return self.call_value(self.heap[key], args, kwargs, node, unused)
        cls = self.class_of(x)
        if cls:
            if x.op == 'new':
                for k, v in x.args[1]:
                    if k == name:
                        return self.call_value(v, args, kwargs, node, unused)
            f = self.p.find_method(cls, name)
            if f is not None:
                if f.is_static:
                    return self.call_func(f, args, kwargs, node, unused)
                if f.is_property:
                    v = self.call_func(f, [x], {}, node)
                    return self.call_value(v, args, kwargs, node, unused)
                recv = mk('cls', cls) if f.is_classmethod else x
                if 'abc.abstractmethod' in f.decorators or 'abstractmethod' in f.decorators:
                    env = self.bind(f, [recv] + list(args), kwargs)
                    kw = {k: env[k] for k in f.param_names()[1:] if k in env}
                    return self.opaque_mcall(x, name, [], kw, node, unused)
                return self.call_func(f, [recv] + list(args), kwargs, node, unused)
            if name == '_replace' and x.op == 'obj':
                t = self.new_obj('obj', cls=cls)
                for (oid, nme), v in list(self.heap.items()):
                    if oid == x.id:
                        self.heap[(t.id, nme)] = v
                for k, v in kwargs.items():
                    self.heap[(t.id, k)] = v
                return t
            return self.opaque_mcall(x, name, args, kwargs, node, unused)
        if x.op in ('cls', 'super', 'ext'):
            v = self._getattr(x, name, node)
            if v.op == 'attr':
                return self.opaque_mcall(x, name, args, kwargs, node, unused)
            return self.call_value(v, args, kwargs, node, unused)
        if x.op == 'lobj':
            r = self.list_method(x, name, args, kwargs, node)
            if r is not None:
                return r
        if x.op in ('dobj', 'dict') or name in ('get', 'items', 'keys', 'values', 'copy'):
            r = self.dict_method(x, name, args, kwargs, node)
            if r is not None:
                return r
        if x.op in ('seq', 'tuple') and name == 'copy':
            t = self.new_list(kind=self.seq_kind(x))
            self.list_extend(t, x)
            return t
        if name in ('union',) and self.seq_kind(x) == 'set':
            t = self.new_list(kind='set')
            self.list_extend(t, x)
            for a in args:
                self.list_extend(t, a)
            return t
        if name in ('difference',) and self.seq_kind(x) == 'set' and len(args) == 1:
            return self.set_filter(x, args[0], False)
        if name in ('intersection',) and self.seq_kind(x) == 'set' and len(args) == 1:
            return self.set_filter(x, args[0], True)
        if name in ('issubset',) and self.seq_kind(x) == 'set' and len(args) == 1:
            return self.boolv(bnot(self.truth(self.set_filter(x, args[0], False))))
        if name in ('issuperset',) and len(args) == 1 and self.seq_kind(args[0]) == 'set':
            return self.boolv(bnot(self.truth(self.set_filter(args[0], x, False))))
        if name == 'join' and len(args) == 1:
            a = self.freeze(args[0])
            if a.op == 'dict':
                a = self.freeze(self.gen([(d[0], d[1], d[2]) for d in a.args[0]]))
            segs = self.segs_of(a) if a.op in ('tuple', 'seq') else None
            if segs is not None and x.op == 'const' and all(
                    s[0] == () and s[1] is TRUE for s in segs):
                parts = []
                for i, s in enumerate(segs):
                    if i:
                        parts.append(x)
                    parts.append(s[2])
                return self.cat(parts)
            if x is const('') and segs is not None and a.args[0] != 'set':
                return self.mk_concat(segs)
            return lift(lambda p, q: mk('join', p, q), self.freeze(x), a)
        if name in ('partition', 'split', 'rpartition', 'rsplit') and self.split_form(
                name, args, kwargs):
            return lift(lambda p, q: mk(self.split_form(name, args, kwargs), p, q),
                        self.freeze(x), self.freeze(args[0]))
        if name == 'format' and x.op == 'const' and isinstance(x.args[1], str):
            return self.str_format(x.args[1], args, kwargs)
        if x.op == 'const' and isinstance(x.args[1], str) and name in (
                'lower', 'upper', 'strip', 'startswith', 'endswith', 'replace', 'lstrip', 'rstrip') \
                and all(a.op == 'const' for a in args) and not kwargs:
            try:
                r = getattr(x.args[1], name)(*[a.args[1] for a in args])
                return const(r)
            except Exception:  # pylint: disable=broad-except
                pass
        if name == 'span' and len(args) <= 1 and not kwargs:
            return mk('tuple', self.opaque_mcall(x, 'start', args, {}, node),
                      self.opaque_mcall(x, 'end', args, {}, node))
        if name in ('match', 'search', 'fullmatch', 'sub', 'findall', 'finditer', 'split') \
                and x.op == 'call' and x.args[0].op == 'ext' and x.args[0].args[0] in (
                    're.compile', 'regex.compile') and 1 <= len(x.args[1]) <= 2 and not kwargs \
                and len(args) == (2 if name == 'sub' else 1):
            # the function of the module with the same pattern
            kw = dict(x.args[2])
            if len(x.args[1]) == 2:
                kw['flags'] = x.args[1][1]
            if set(kw) <= {'flags'}:
                return self.call_ext('%s.%s' % (x.args[0].args[0].split('.')[0], name),
                                     [x.args[1][0]] + list(args), kw, node, unused)
        if name == 'enter_context' and len(args) == 1:
            t = lift(lambda p: mk('enter', p), self.freeze(args[0]))
            self.effect('mcall', mk('mcall', self.freeze(x), name, (t,), ()), node)
            return t
        return self.opaque_mcall(x, name, args, kwargs, node, unused)

    @staticmethod
    def split_form(name, args, kwargs):
        """splits at the first / last separator, by partition or split"""
        if name in ('partition', 'rpartition') and len(args) == 1:
            return name + '3'
        n = args[1] if len(args) > 1 else kwargs.get('maxsplit')
        if args and args[0] is not NONE and n is const(1) and len(args) + len(kwargs) == 2:
            return 'split1' if name == 'split' else 'rsplit1'
        return None

    def string_segs(self, t):
        """segments whose concatenation is the string t"""
        if t.op == 'join' and t.args[0] is const('') and t.args[1].op == 'seq':
            return list(t.args[1].args[1])
        if t.op in ('cat', 'add'):
            return [s for x in t.args for s in self.string_segs(x)]
        if t.op == 'str':
            return self.string_segs(t.args[0])
        if t is const(''):
            return []
        return [((), TRUE, t)]

    def mk_concat(self, segs):
        """''.join of segments, pieces taken apart"""
        out = []
        for loops, gate, v in self.norm_segs(segs):
            for l2, g2, v2 in self.string_segs(v):
                l2, (g2, v2) = self.fresh_inner(loops, l2, g2, v2)
                out.append((loops + l2, band(gate, g2), v2))
        out = [s for s in self.sort_disjoint(out) if s[1] is not FALSE]
        if all(s[0] == () and s[1] is TRUE for s in out):
            return self.cat([s[2] for s in out])
        return mk('join', const(''), mk('seq', 'list', tuple(out)))

    def fresh_inner(self, outer, loops, *vals):
        """rename bound elements of `loops` that clash with those of `outer`"""
        active = {lp[1].id for lp in outer}
        m = {}
        for it, e, i, _u in loops:
            if e.id in active and e.op == 'elem':
                d = e.args[1]
                while mk('elem', it, d).id in active:
                    d += 1
                m[e], m[i] = mk('elem', it, d), mk('index', it, d)
        if not m:
            return loops, vals
        s = self.subst(m)
        return tuple((s(it), s(e), s(i), s(u)) for it, e, i, u in loops), tuple(
            s(v) for v in vals)

    def list_method(self, x, name, args, kwargs, node):
        k = (x.id, '#segs')
        if name in ('append', 'add') and len(args) == 1:
            self.list_append(x, args[0])
            return NONE
        if name in ('extend', 'update') and len(args) == 1:
            self.list_extend(x, args[0])
            return NONE
        if name == 'clear' and not args:
            self.heap[k] = ()
            return NONE
        if name == 'copy':
            t = self.new_list(self.heap[k], self.objs[x.id]['seqkind'])
            self.reads.add(x.id)
            return t
        if name == 'insert' and len(args) == 2 and args[0] is const(0):
            v = args[1]
            info = self.objs[x.id]
            loops = self.cur_loops(info['depth'])
            g = simplify_on(self.live, info['live'])
            self.heap[k] = ((loops, g, v),) + self.heap[k]
            return NONE
        if name in ('pop', 'remove', 'insert', 'sort', 'reverse', 'discard'):
            segs = self.heap[k]
            if name == 'pop' and not args and segs and segs[-1][0] == () and \
                    simplify_on(segs[-1][1], self.live) is TRUE:
                self.heap[k] = segs[:-1]
                return segs[-1][2]
            old = self.freeze(x)
            fa = tuple(self.freeze(a) for a in args)
            g = simplify_on(self.live, self.objs[x.id]['live'])
            self.heap[k] = self.ident_segs(mk('mutated', name, old, fa, tuple(
                (kk, self.freeze(v)) for kk, v in sorted(kwargs.items())), g))
            return lift(lambda o: mk('mcall', o, name, fa, ()), old)
        return None

    def dict_method(self, x, name, args, kwargs, node):
        ds = self.dict_segs(x)
        if name == 'get' and 1 <= len(args) <= 2 and not kwargs:
            return self.dict_get(x, args[0], args[1] if len(args) > 1 else NONE)
        if name in ('items', 'keys', 'values') and not args:
            if ds is None and self.segs_of(x) is not None:
                return None
            if ds is None:
                it = self.freeze(x)
                base = self.ident_segs(it)
                ds = tuple((s[0], s[1], s[2], self.mk_idx(it, s[2])) for s in base)
            elif self.collapsing(ds):
                it = self.freeze(x)
                base = self.ident_segs(mk('distinct', it))
                ds = tuple((s[0], s[1], s[2], mk('idx', it, s[2])) for s in base)
            if name == 'items':
                segs = tuple((s[0], s[1], mk('tuple', s[2], s[3])) for s in ds)
            elif name == 'keys':
                segs = tuple((s[0], s[1], s[2]) for s in ds)
            else:
                segs = tuple((s[0], s[1], s[3]) for s in ds)
            return mk('seq', 'gen', segs)
        if name == 'copy' and not args:
            if ds is not None:
                return self.new_dict(ds)
            if x.op in ('sym', 'attr', 'call', 'idx', 'mcall'):
                t = self.new_dict()
                self.dict_update(t, x)
                return t
            return None
        if x.op == 'dobj':
            if name == 'update':
                for a in args:
                    self.dict_update(x, a)
                for k, v in kwargs.items():
                    self.store_item(x, const(k), v, node)
                return NONE
            if name == 'setdefault' and len(args) == 2:
                g = self.contains(args[0], x)
                cur = self.index(x, args[0])
                saved = self.live
                self.live = band(self.live, bnot(g))
                if self.live is not FALSE:
                    self.store_item(x, args[0], args[1], node)
                self.live = saved
                return phi([(g, cur), (bnot(g), args[1])])
            if name == 'clear':
                self.heap[(x.id, '#segs')] = ()
                return NONE
        return None

    # ------------------------------------------------------------ builtins / externals
    def call_ext(self, q, args, kwargs, node, unused=False):
        m = getattr(self, 'b_' + q.replace('.', '_'), None)
        if m is not None and not any(a.op == 'star' for a in args) and '**' not in kwargs:
            r = m(args, kwargs, node)
            if r is not None:
                return r
        if q in ('concurrent.futures.as_completed', 'concurrent.futures.wait', 'sorted',
                 'sum', 'min', 'max', 'reversed') and len(args) == 1:
            # a dict stands for its keys
            args = [lift(lambda a: self.gen([(d[0], d[1], d[2]) for d in self.dict_segs(a)])
                         if self.dict_segs(a) is not None else a, args[0])]
            if q.startswith('concurrent'):
                args = [lift(lambda a: mk('seq', 'list', a.args[1])
                             if a.op == 'seq' else a, self.freeze(args[0]))]
        if q in ('min', 'max') and len(args) > 1 and not kwargs \
                and not any(a.op == 'star' for a in args):
            return lift(lambda *xs: mk('call', mk('ext', q), tuple(sorted(xs)), ()),
                        *[self.freeze(a) for a in args])
        if q.startswith('logging.') and q.split('.')[-1] in LOG_METHODS:
            self.effect('log', mk('log', q.split('.')[-1], tuple(
                self.freeze(a) for a in args)), node)
            return NONE
        return self.opaque_call(mk('ext', q), args, kwargs, node, unused)

    def b_itertools_islice(self, args, kwargs, node):
        # the first elements of something put together here
        if len(args) == 2 and not kwargs and self.freeze(args[0]).op == 'seq':
            x = self.freeze(args[0])
            return self.slice(mk('seq', 'list', x.args[1]), NONE, args[1], NONE)
        return None

    def b_typing_cast(self, args, kwargs, node):
        return args[1] if len(args) == 2 else None

    def b_functools_partial(self, args, kwargs, node):
        f = args[0]
        if f.op == 'phi':
            return phi([(g, mk('partial', x, tuple(args[1:]), tuple(sorted(kwargs.items()))))
                        for g, x in f.args[0]])
        if f.op == 'partial':
            kw = dict(f.args[2])
            kw.update(kwargs)
            return mk('partial', f.args[0], tuple(f.args[1]) + tuple(args[1:]),
                      tuple(sorted(kw.items())))
        return mk('partial', f, tuple(args[1:]), tuple(sorted(kwargs.items())))

    def b_collections_namedtuple(self, args, kwargs, node):
        if len(args) >= 2 and args[0].op == 'const':
            f = self.freeze(args[1])
            segs = self.segs_of(f)
            if f.op == 'const' and isinstance(f.args[1], str):
                names = f.args[1].replace(',', ' ').split()
            elif segs is not None and all(s[2].op == 'const' for s in segs):
                names = [s[2].args[1] for s in segs]
            else:
                return None
            return mk('namedtuple', args[0].args[1], tuple(names))
        return None

    def b_len(self, args, kwargs, node):
        def f(x):
            if x.op == 'obj':
                fn = self.p.find_method(self.objs[x.id]['cls'], '__len__')
                if fn is not None:
                    return self.call_func(fn, [x], {}, node)
            if x.op == 'sym' and x.args[0] == 'self' and x.args[1]:
                fn = self.p.find_method(self.class_of(x), '__len__')
                if fn is not None and fn.qualname not in self.stack:
                    return self.call_func(fn, [x], {}, node)
            if x.op == 'const' and isinstance(x.args[1], (str, bytes)):
                return const(len(x.args[1]))
            segs = self.segs_of(x)
            if segs is not None and all(
                    s[0] == () and simplify_on(s[1], self.live) is TRUE for s in segs) \
                    and self.seq_kind(x) != 'set':
                return const(len(segs))
            fx = self.freeze(x)

            def g(y):
                # a one to one mapped list has the length of its source
                if y.op == 'seq' and y.args[0] != 'set' and len(y.args[1]) == 1:
                    s = y.args[1][0]
                    if len(s[0]) == 1 and s[1] is TRUE and s[0][0][3] is FALSE:
                        return mk('len', s[0][0][0])
                if y.op == 'seq' and y.args[0] != 'set':
                    # what is counted does not matter
                    y = mk('seq', 'list', tuple((s[0], s[1], const(1)) for s in y.args[1]))
                return mk('len', y)
            return lift(g, fx)
        return lift(f, args[0])

    def b_sum(self, args, kwargs, node):
        if len(args) != 1 or kwargs:
            return None
        a = args[0]
        segs = self.segs_of(a) if a.op != 'phi' else None
        if segs is None:
            return None
        out = []
        for s in segs:
            loops, (g, v) = self.fresh_loops(s[0], s[1], s[2])
            if v.op == 'boolof' or v in (CTRUE, CFALSE) or predicate(v):
                g, v = band(g, self.truth(v)), const(1)
            out.append((loops, g, v))
        seq = mk('seq', 'list', tuple(out))
        if all(x[2] is const(1) for x in out):
            return self.b_len([seq], {}, node)
        return self.opaque_call(mk('ext', 'sum'), [seq], {}, node)

    def b_bool(self, args, kwargs, node):
        return self.boolv(self.truth(args[0])) if args else CFALSE

    def b_any(self, args, kwargs, node):
        return self.boolv(self.quant(args[0], True))

    def b_all(self, args, kwargs, node):
        return self.boolv(bnot(self.quant(args[0], False)))

    def quant(self, v, want):
        r = FALSE
        for g, leaf in leaves(on(v, self.live)):
            for s in self.iter_segs(leaf):
                loops, (sg, sv) = self.fresh_loops(s[0], s[1], s[2])
                c = self.truth(sv)
                c = c if want else bnot(c)
                c = band(sg, c)
                for lp in reversed(loops):
                    c = self.exists(lp, c)
                r = bor(r, band(g, c))
        return r

    def seq_ctor(self, kind, args):
        t = self.new_list(kind=kind)
        if args:
            self.list_extend(t, args[0])
        return t

    def b_list(self, args, kwargs, node):
        return self.seq_ctor('list', args)

    def b_set(self, args, kwargs, node):
        return self.seq_ctor('set', args)

    b_frozenset = b_set

    def b_tuple(self, args, kwargs, node):
        if not args:
            return mk('tuple')
        t = self.seq_ctor('tuple', args)
        segs = self.heap[(t.id, '#segs')]
        if all(s[0] == () and s[1] is TRUE for s in segs):
            return mk('tuple', *[s[2] for s in segs])
        return t

    def b_iter(self, args, kwargs, node):
        return args[0] if len(args) == 1 else None

    def b_dict(self, args, kwargs, node):
        t = self.new_dict()
        if args:
            a = args[0]
            if a.op == 'phi':
                self.dict_update(t, a)
            else:
                segs = self.segs_of(a)
                if segs is not None:
                    info = self.objs[t.id]
                    out = []
                    for s in segs:
                        loops, (sg, sv) = self.fresh_loops(s[0], s[1], s[2])
                        out.append((loops, sg, self.index(sv, const(0)), self.index(sv, const(1))))
                    self.heap[(t.id, '#segs')] = tuple(out)
                else:
                    self.dict_update(t, a)
        for k, v in kwargs.items():
            self.store_item(t, const(k), v, node)
        return t

    def gen(self, segs):
        return mk('seq', 'gen', tuple(segs))

    def b_enumerate(self, args, kwargs, node):
        start = args[1] if len(args) > 1 else kwargs.get('start', const(0))
        out = []
        x = on(args[0], self.live)
        if x.op == 'phi':
            x = self.freeze(x)
            if x.op == 'phi':
                return phi([(g, self.b_enumerate([leaf, start], {}, node))
                            for g, leaf in x.args[0]])
        segs = self.iter_segs(x)
        before = const(0)       # elements of the segments gone by
        for n, s in enumerate(segs):
            plain = s[1] is TRUE and (not s[0] or len(s[0]) == 1 and s[0][0][0].op != 'while')
            if before is not None and plain and not s[0]:
                idx = before
            elif before is not None and plain:
                idx = self.binop(ast.Add(), before, s[0][0][2]) if n else s[0][0][2]
            else:
                idx = mk('pos', self.freeze(x), n)
            if before is not None:
                if not plain or s[0] and s[0][0][3] is not FALSE:
                    before = None
                elif not s[0]:
                    before = self.binop(ast.Add(), before, const(1))
                else:
                    k = self.b_len([s[0][0][0]], {}, node)
                    before = self.binop(ast.Add(), before, k) if n else k
            idx = self.binop(ast.Add(), idx, start)
            out.append((s[0], s[1], mk('tuple', idx, s[2])))
        return self.gen(out)

    def b_zip(self, args, kwargs, node):
        if not args or any(on(a, self.live).op == 'phi' for a in args):
            return None
        first = self.iter_segs(args[0])
        if len(first) == 1 and len(first[0][0]) == 1 and first[0][1] is TRUE:
            lp = first[0][0][0]
            vals = [first[0][2]]
            for a in args[1:]:
                fa = self.iter_segs(a)
                if len(fa) == 1 and len(fa[0][0]) == 1 and fa[0][1] is TRUE \
                        and fa[0][0][0][0] is lp[0]:
                    vals.append(fa[0][2])
                else:
                    fz = self.freeze(a)
                    if fz.op == 'phi':
                        return None
                    vals.append(self.mk_idx(fz, lp[2]))
            return self.gen([(first[0][0], TRUE, mk('tuple', *vals))])
        if all(s[0] == () and s[1] is TRUE for a in args for s in self.iter_segs(a)):
            rows = zip(*[[s[2] for s in self.iter_segs(a)] for a in args])
            return self.gen([((), TRUE, mk('tuple', *r)) for r in rows])
        it = mk('zip', *[self.freeze(a) for a in args])
        segs = self.ident_segs(it)
        e = segs[0][2]
        return self.gen([(segs[0][0], TRUE, mk('tuple', *[
            mk('idx', e, const(i)) for i in range(len(args))]))])

    def b_range(self, args, kwargs, node):
        if len(args) == 1:
            a = args[0]
            if a.op == 'const' and isinstance(a.args[1], int) and a.args[1] <= 8:
                return self.gen([((), TRUE, const(i)) for i in range(a.args[1])])
            if a.op == 'len':
                segs = self.ident_segs(a.args[0])
                return self.gen([(segs[0][0], TRUE, segs[0][0][0][2])])
        fa = [self.freeze(a) for a in args]
        if any(a.op == 'phi' for a in fa):
            return None
        if len(fa) == 2 and fa[0] is const(0):
            return self.b_range(args[1:], kwargs, node)
        return None

    def b_map(self, args, kwargs, node):
        if len(args) != 2:
            return None
        return self.map_filter(args[0], args[1], False, node)

    def b_filter(self, args, kwargs, node):
        return self.map_filter(args[0], args[1], True, node)

    def map_filter(self, f, itv, is_filter, node):
        depth = len(self.loops)
        base = self.live
        out = []
        for lg, leaf in leaves(on(itv, self.live)):
            for seg in self.iter_segs(leaf):
                loops, (sg, sv) = self.fresh_loops(seg[0], seg[1], seg[2])
                self.live = band(band(base, lg), sg)
                if self.live is FALSE:
                    continue
                lcs = [LoopCtx(lp, self.live) for lp in loops]
                self.loops.extend(lcs)
                v = self.call_value(f, [sv], {}, node) if f is not NONE else sv
                if is_filter:
                    self.live = band(self.live, self.truth(v))
                    v = sv
                out.append((self.cur_loops(depth), simplify_on(self.live, base), v))
                if lcs:
                    del self.loops[-len(lcs):]
        self.live = base
        return self.gen(out)

    def b_next(self, args, kwargs, node):
        if not args:
            return None
        v = on(args[0], self.live)
        if v.op == 'phi':
            return None
        segs = self.segs_of(v)
        if segs is None or len(segs) != 1 or not segs[0][0]:
            return None
        loops, gate, val = segs[0]
        ex = gate
        for lp in reversed(loops):
            ex = self.exists(lp, ex)
        bound = {x for lp in loops for x in (lp[1], lp[2])}
        # what does not depend on the element holds wherever there is one
        inv = gate
        for x in sorted(support(gate)):
            if atom_term(x).free & bound:
                inv = bor(restrict_var(inv, x, True), restrict_var(inv, x, False))
        gate = simplify_on(gate, inv)
        loops2 = tuple((lp[0], lp[1], lp[2], gate if j == len(loops) - 1 else lp[3])
                       for j, lp in enumerate(loops))
        fv = self.wrap_first(self.freeze(val), loops2, bound)
        if len(args) > 1:
            return phi([(ex, fv), (bnot(ex), args[1])])
        return fv

    def b_isinstance(self, args, kwargs, node):
        classes = args[1].args if args[1].op == 'tuple' else (args[1],)

        def one(x, c):
            name = c.args[0] if c.op in ('cls', 'ext') else repr(c)
            cls = self.class_of(x)
            if x.op in ('obj', 'new') and cls and cls in self.p.classes:
                if c.op == 'cls':
                    return TRUE if self.p.is_subclass(cls, name) else FALSE
                return FALSE
            kinds = {'lobj': self.seq_kind(x) or 'list', 'dobj': 'dict', 'tuple': 'tuple',
                     'dict': 'dict', 'cat': 'str', 'join': 'str'}
            k = kinds.get(x.op)
            if x.op == 'const':
                k = type(x.args[1]).__name__
            if k == 'gen':
                k = 'generator'
            if k is not None and c.op in ('ext', 'cls'):
                return TRUE if name == k or (k == 'bool' and name == 'int') else FALSE
            return atom(mk('isinst', self.freeze(x), name))
        g = bors(lift_b(lambda x, c=c: one(x, c), args[0]) for c in classes)
        return self.boolv(g)

    def b_str(self, args, kwargs, node):
        if not args:
            return const('')
        if len(args) != 1 or kwargs:
            return None

        def f(x):
            if x.op == 'const' and isinstance(x.args[1], str):
                return x
            if x.op == 'const' and not isinstance(x.args[1], bytes):
                return const(str(x.args[1]))
            if x.op in ('cat', 'str', 'join'):
                return x
            cls = self.class_of(x)
            if cls:
                fn = self.p.find_method(cls, '__str__')
                if fn is not None and self.can_inline(fn):
                    return self.call_func(fn, [x], {}, node)
            return lift(lambda y: mk('str', y), self.freeze(x))
        return lift(f, args[0])

    def b_getattr(self, args, kwargs, node):
        if len(args) >= 2 and args[1].op == 'const' and isinstance(args[1].args[1], str):
            if len(args) == 2:
                return self.getattr(args[0], args[1].args[1], node)
            x = self.freeze(args[0])
            return lift(lambda a, d: mk('getattrd', a, args[1].args[1], d), x,
                        self.freeze(args[2]))
        return None

    def b_setattr(self, args, kwargs, node):
        if len(args) == 3 and args[1].op == 'const':
            self.store_attr(args[0], args[1].args[1], args[2], node)
            return NONE
        return None

    def b_print(self, args, kwargs, node):
        return NONE

    def b_type(self, args, kwargs, node):
        if len(args) == 1:
            c = self.class_of(args[0])
            if c:
                return mk('cls', c)
        return None

    def b_os_path_join(self, args, kwargs, node):
        def f(*ps):
            out = []
            for p in ps:
                if p.op == 'call' and p.args[0] is mk('ext', 'os.path.join') and not out:
                    out.extend(p.args[1])
                else:
                    out.append(p)
            return mk('call', mk('ext', 'os.path.join'), tuple(out), ())
        return lift(f, *[self.freeze(a) for a in args])

    def b_os_path_split(self, args, kwargs, node):
        x = self.freeze(args[0])
        return lift(lambda p: mk(
            'tuple', mk('call', mk('ext', 'os.path.dirname'), (p,), ()),
            mk('call', mk('ext', 'os.path.basename'), (p,), ())), x)

    def b_itertools_chain(self, args, kwargs, node):
        t = self.new_list(kind='gen')
        for a in args:
            self.list_extend(t, a)
        return t

    def b_itertools_chain_from_iterable(self, args, kwargs, node):
        return self.flatten(args[0])

    def b_sciencebeam_utils_utils_collection_iter_flatten(self, args, kwargs, node):
        return self.flatten(args[0])

    def flatten(self, v):
        out = []
        for g, leaf in leaves(on(v, self.live)):
            for s in self.iter_segs(leaf):
                loops, (sg, sv) = self.fresh_loops(s[0], s[1], s[2])
                lcs = [LoopCtx(lp, self.live) for lp in loops]
                self.loops.extend(lcs)
                for g2, leaf2 in leaves(sv):
                    for s2 in self.iter_segs(leaf2):
                        l2, (g3, v3) = self.fresh_loops(s2[0], s2[1], s2[2])
                        out.append((loops + l2, band(band(g, sg), band(g2, g3)), v3))
                if lcs:
                    del self.loops[-len(lcs):]
        return self.gen(out)

    def b_abs(self, args, kwargs, node):
        return None
