"""Hash-consed value terms and boolean gates (BDDs over term atoms).

Terms are the value numbers of the gated value graph built by flow.py: two
expressions with the same term denote the same value for every input.  Gates are
reduced ordered BDDs whose variables are atomic tests on terms; gate operations
are purely propositional (no solver, no arithmetic).
"""
import sys
import zlib

sys.setrecursionlimit(20000)

_T_TABLE = {}
_NEXT = [0]
EMPTY = frozenset()

BINDERS = ('exists', 'first', 'segs')


class T:
    __slots__ = ('op', 'args', 'id', 'free', '__weakref__')

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.id < other.id


class B:
    """BDD node: var is an atom index; terminals have var None"""
    __slots__ = ('var', 'lo', 'hi', 'id', '_free')

    def __repr__(self):
        return show_b(self)

    def __lt__(self, other):
        return self.id < other.id


_B_TABLE = {}
_ATOMS = []
_ATOM_INDEX = {}


def _mkb(var, lo, hi):
    if lo is hi:
        return lo
    k = (var, lo.id, hi.id)
    n = _B_TABLE.get(k)
    if n is None:
        n = B()
        n.var, n.lo, n.hi = var, lo, hi
        _NEXT[0] += 1
        n.id = _NEXT[0]
        n._free = None
        _B_TABLE[k] = n
    return n


def _term(i):
    n = B()
    n.var, n.lo, n.hi, n.id = None, None, None, -1 - i
    n._free = EMPTY
    return n


FALSE = _term(0)
TRUE = _term(1)


def atom(t):
    i = _ATOM_INDEX.get(t.id)
    if i is None:
        i = len(_ATOMS)
        _ATOMS.append(t)
        _ATOM_INDEX[t.id] = i
    return _mkb(i, FALSE, TRUE)


_ITE = {}


def _cof(f, v, val):
    if f.var is None or f.var != v:
        return f
    return f.hi if val else f.lo


def ite(f, g, h):
    if f is TRUE:
        return g
    if f is FALSE:
        return h
    if g is h:
        return g
    if g is TRUE and h is FALSE:
        return f
    k = (f.id, g.id, h.id)
    r = _ITE.get(k)
    if r is not None:
        return r
    v = min(x.var for x in (f, g, h) if x.var is not None)
    hi = ite(_cof(f, v, 1), _cof(g, v, 1), _cof(h, v, 1))
    lo = ite(_cof(f, v, 0), _cof(g, v, 0), _cof(h, v, 0))
    r = _mkb(v, lo, hi)
    _ITE[k] = r
    return r


def band(a, b):
    return ite(a, b, FALSE)


def bor(a, b):
    return ite(a, TRUE, b)


def bnot(a):
    return ite(a, FALSE, TRUE)


def bors(xs):
    r = FALSE
    for x in xs:
        r = bor(r, x)
    return r


def bands(xs):
    r = TRUE
    for x in xs:
        r = band(r, x)
    return r


def restrict_var(f, v, val):
    """cofactor of f w.r.t. atom index v"""
    return _cofactor(f, v, val, {})


def _cofactor(f, v, val, memo):
    if f.var is None or f.var > v:
        return f
    if f.var == v:
        return f.hi if val else f.lo
    r = memo.get(f.id)
    if r is None:
        r = memo[f.id] = _mkb(f.var, _cofactor(f.lo, v, val, memo), _cofactor(f.hi, v, val, memo))
    return r


def _fix(f, lits, memo):
    """f with the outcome of some tests fixed"""
    if f.var is None:
        return f
    r = memo.get(f.id)
    if r is None:
        val = lits.get(f.var)
        if val is not None:
            r = _fix(f.hi if val else f.lo, lits, memo)
        else:
            r = _mkb(f.var, _fix(f.lo, lits, memo), _fix(f.hi, lits, memo))
        memo[f.id] = r
    return r


def _compose(f, m, memo):
    if f.var is None:
        return f
    r = memo.get(f.id)
    if r is not None:
        return r
    hi = _compose(f.hi, m, memo)
    lo = _compose(f.lo, m, memo)
    c = m.get(f.var)
    if c is None:
        c = _mkb(f.var, FALSE, TRUE)
    r = ite(c, hi, lo)
    memo[f.id] = r
    return r


_CONSTRAIN = {}


def constrain(f, c):
    """generalised cofactor: agrees with f on c, depends only on f & c"""
    if c is TRUE or f.var is None:
        return f
    if c is FALSE:
        return FALSE
    if f is c:
        return TRUE
    k = (f.id, c.id)
    r = _CONSTRAIN.get(k)
    if r is not None:
        return r
    v = min(f.var, c.var)
    c1, c0 = _cof(c, v, 1), _cof(c, v, 0)
    f1, f0 = _cof(f, v, 1), _cof(f, v, 0)
    if c0 is FALSE:
        r = constrain(f1, c1)
    elif c1 is FALSE:
        r = constrain(f0, c0)
    else:
        r = _mkb(v, constrain(f0, c0), constrain(f1, c1))
    _CONSTRAIN[k] = r
    return r


def simplify_on(f, c):
    """canonical representative of f on the care set c (only c's relevant atoms)"""
    if f is TRUE or f is FALSE:
        return f
    fc = band(f, c)
    if fc is FALSE:
        return FALSE
    if fc is c:
        return TRUE
    k = (fc.id, c.id)
    r = _SIMPLE.get(k)
    if r is None:
        r = _SIMPLE[k] = _simplest(fc, c)
    return r


_SIMPLE = {}
MANY = 36
_SHAPE = {}


def _simplest(fc, c):
    """the gate that agrees with fc on c and leaves out every test it can, in an order that
    rests on what the tests are and not on when they were met"""
    if not support(fc) & support(c):
        return fc
    lits = forced(c)
    if lits:
        memo = {}
        fc, c = _fix(fc, lits, memo), _fix(c, lits, memo)
        if c is TRUE or not support(fc) & support(c):
            return fc
    tests = support(c)
    if len(tests) > MANY:
        return constrain(fc, c)
    lo, hi = fc, bor(fc, bnot(c))
    for v in sorted(tests, key=lambda v: (shape_of(_ATOMS[v]), v), reverse=True):
        h0, h1 = restrict_var(hi, v, 0), restrict_var(hi, v, 1)
        hi2 = band(h0, h1)
        if hi2 is FALSE and lo is not FALSE:
            continue
        l0, l1 = restrict_var(lo, v, 0), restrict_var(lo, v, 1)
        if band(l0, bnot(h1)) is FALSE and band(l1, bnot(h0)) is FALSE:
            lo, hi = bor(l0, l1), hi2
    return lo


_FORCED = {}


def forced(c):
    """the tests whose outcome is fixed in c"""
    if c.var is None:
        return {} if c is TRUE else None
    r = _FORCED.get(c.id, 0)
    if r != 0:
        return r
    lo, hi = forced(c.lo), forced(c.hi)
    if lo is None and hi is None:
        r = None
    elif lo is None:
        r = dict(hi)
        r[c.var] = 1
    elif hi is None:
        r = dict(lo)
        r[c.var] = 0
    else:
        r = {v: x for v, x in lo.items() if hi.get(v) == x}
    _FORCED[c.id] = r
    return r


def shape_of(x):
    """a number for what a term looks like, the same for values met in another order"""
    if isinstance(x, T):
        r = _SHAPE.get(x.id)
        if r is None:
            args = x.args
            if x.op in ('muvar', 'untilvar'):
                args = args[:1] + args[2:]
            r = _SHAPE[x.id] = zlib.crc32(repr((x.op, [shape_of(a) for a in args])).encode())
        return r
    if isinstance(x, B):
        return zlib.crc32(repr(sorted(shape_of(a) for a in atoms_of(x))).encode())
    if isinstance(x, tuple):
        return zlib.crc32(repr([shape_of(a) for a in x]).encode())
    return zlib.crc32(repr(x).encode())


def support(f, memo=None):
    memo = {} if memo is None else memo
    out = set()
    stack = [f]
    seen = set()
    while stack:
        n = stack.pop()
        if n.var is None or n.id in seen:
            continue
        seen.add(n.id)
        out.add(n.var)
        stack.append(n.lo)
        stack.append(n.hi)
    return out


def atoms_of(f):
    return [_ATOMS[i] for i in sorted(support(f))]


def atom_term(i):
    return _ATOMS[i]


def theory(f):
    """constraints between the atoms used in f: None is falsy; at most one constant equal;
    isinstance(None) is false"""
    r = TRUE
    ats = atoms_of(f)
    by = {}
    for a in ats:
        by.setdefault(a.op, []).append(a)
    truths = {a.args[0].id: a for a in by.get('truth', [])}
    for a in by.get('isnone', []):
        t = truths.get(a.args[0].id)
        if t is not None:
            r = band(r, bnot(band(atom(a), atom(t))))
    eqs = by.get('eq', [])
    for i, a in enumerate(eqs):
        for b in eqs[i + 1:]:
            sa, sb = set(a.args), set(b.args)
            common = sa & sb
            if len(common) == 1:
                x = next(iter(sa - common), None)
                y = next(iter(sb - common), None)
                if x is not None and y is not None and x.op == 'const' and y.op == 'const' \
                        and x is not y:
                    r = band(r, bnot(band(atom(a), atom(b))))
        for c in a.args:
            o = a.args[0] if a.args[1] is c else a.args[1]
            if c.op == 'const' and o.id in truths:
                # x == const fixes the truth of x
                tv = bool(c.args[1])
                lit = atom(truths[o.id])
                r = band(r, bor(bnot(atom(a)), lit if tv else bnot(lit)))
    heads = [(a, h) for a in by.get('truth', []) for h in [constant_start(a.args[0])] if h]
    for i, (a, (x, s)) in enumerate(heads):
        for b, (y, t) in heads[i + 1:]:
            if x is y and not any(p.startswith(q) or q.startswith(p) for p in s for q in t):
                # a text does not begin in two ways
                r = band(r, bnot(band(atom(a), atom(b))))
    for a in by.get('lt', []):
        for b in by.get('lt', []):
            if a is not b and a.args == tuple(reversed(b.args)) and a.id < b.id:
                r = band(r, bnot(band(atom(a), atom(b))))
    return r


def constant_start(t):
    """(text, possible beginnings) of text.startswith(constant)"""
    if t.op != 'mcall' or t.args[1] != 'startswith' or len(t.args[2]) != 1:
        return None
    c = t.args[2][0]
    if c.op == 'const' and isinstance(c.args[1], str) and c.args[1]:
        return t.args[0], (c.args[1],)
    return None


def implies(f, g):
    x = band(f, bnot(g))
    if x is FALSE:
        return True
    return band(x, theory(x)) is FALSE


def sat(f):
    return f is not FALSE and band(f, theory(f)) is not FALSE


def equiv(f, g):
    if f is g:
        return True
    return implies(f, g) and implies(g, f)


# ---------------------------------------------------------------- terms

def _free_of(x):
    if isinstance(x, T):
        return x.free
    if isinstance(x, B):
        if x._free is None:
            s = set()
            for a in atoms_of(x):
                s |= a.free
            x._free = frozenset(s)
        return x._free
    if isinstance(x, tuple):
        s = EMPTY
        for y in x:
            f = _free_of(y)
            if f:
                s = s | f
        return s
    return EMPTY


def _k(x):
    if isinstance(x, T):
        return x.id
    if isinstance(x, B):
        return ('b', x.id)
    if isinstance(x, tuple):
        return tuple(_k(y) for y in x)
    return (type(x).__name__, x)


def mk(op, *args):
    k = (op,) + tuple(_k(a) for a in args)
    t = _T_TABLE.get(k)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.args = args
    _NEXT[0] += 1
    t.id = _NEXT[0]
    free = _free_of(args)
    if op in ('elem', 'index', 'muvar', 'untilvar'):
        free = free | {t}
    elif op in ('exists', 'first', 'seq', 'dict', 'mu', 'lastof'):
        free = free - bound_of(op, args)
    t.free = free
    _T_TABLE[k] = t
    return t


def bound_of(op, args):
    s = set()

    def loops(ls):
        for lp in ls:
            s.add(lp[1])
            s.add(lp[2])
    if op == 'exists':
        s.add(args[1])
        s.add(args[2])
    elif op in ('first', 'lastof'):
        loops(args[0])
    elif op == 'seq':
        for seg in args[1]:
            loops(seg[0])
    elif op == 'dict':
        for seg in args[0]:
            loops(seg[0])
    elif op == 'mu':
        # (loops, definition, exit gate)
        loops(args[0])
    return frozenset(s)


def const(v):
    if isinstance(v, bool):
        return mk('const', 'bool', v)
    if isinstance(v, (int, float)):
        return mk('const', 'num', v)
    return mk('const', type(v).__name__, v)


NONE = const(None)
CTRUE = const(True)
CFALSE = const(False)
UNDEF = mk('undef')


def leaves(v):
    """(gate, leaf) pairs of a value"""
    if v.op == 'phi':
        return v.args[0]
    return ((TRUE, v),)


def phi(pairs):
    """canonical guarded value; gates must be disjoint"""
    acc = {}
    order = []
    for g, v in pairs:
        if g is FALSE:
            continue
        for g2, leaf in leaves(v):
            gg = band(g, g2)
            if gg is FALSE:
                continue
            if leaf.id in acc:
                acc[leaf.id] = (bor(acc[leaf.id][0], gg), leaf)
            else:
                acc[leaf.id] = (gg, leaf)
                order.append(leaf.id)
    if not order:
        return UNDEF
    if len(order) > 1 and UNDEF.id in acc:
        del acc[UNDEF.id]
        order = [o for o in order if o != UNDEF.id]
    if len(order) == 1:
        return acc[order[0]][1]
    if len(order) == 2:
        for g, v in acc.values():
            if g.var is not None and g.lo is FALSE and g.hi is TRUE:
                a = atom_term(g.var)
                if a.op == 'lt' and {x.id for x in a.args} == set(order) \
                        and equiv(bor(*[x[0] for x in acc.values()]), TRUE):
                    return mk('call', mk('ext', 'max' if v is a.args[1] else 'min'),
                              tuple(sorted(a.args)), ())
    return mk('phi', tuple(sorted((acc[o] for o in order), key=lambda p: p[1].id)))


def on(v, care):
    """simplify a guarded value for uses under `care`"""
    if v.op != 'phi':
        return decided(v, care)
    out = []
    for g, leaf in v.args[0]:
        s = simplify_on(g, care)
        if s is not FALSE:
            out.append((s, decided(leaf, band(care, g))))
    return phi(out)


def decided(v, care):
    """min / max where it is known which one it is"""
    if v.op == 'call' and v.args[0].op == 'ext' and v.args[0].args[0] in ('min', 'max') \
            and len(v.args[1]) == 2 and not v.args[2] and care.var is not None:
        a, b = v.args[1]
        for x, y in ((a, b), (b, a)):
            i = _ATOM_INDEX.get(mk('lt', x, y).id)
            if i is None:
                continue
            lt = _mkb(i, FALSE, TRUE)
            if band(care, bnot(lt)) is FALSE:
                return y if v.args[0].args[0] == 'max' else x
            if band(care, lt) is FALSE:
                return x if v.args[0].args[0] == 'max' else y
    return v


MAX_LIFT = 128


def lift(fn, *vals):
    """apply fn to every combination of leaves; result is a guarded value"""
    n = 1
    for v in vals:
        n *= len(leaves(v))
    if n == 1:
        return fn(*[leaves(v)[0][1] for v in vals])
    if n > MAX_LIFT:
        return fn(*[mk('blob', v) if v.op == 'phi' else v for v in vals])
    combos = [(TRUE, ())]
    for v in vals:
        nxt = []
        for g, ls in combos:
            for g2, leaf in leaves(v):
                gg = band(g, g2)
                if gg is not FALSE:
                    nxt.append((gg, ls + (leaf,)))
        combos = nxt
    return phi([(g, fn(*ls)) for g, ls in combos])


def lift_b(fn, *vals):
    """like lift, for predicates returning gates"""
    n = 1
    for v in vals:
        n *= len(leaves(v))
    if n == 1:
        return fn(*[leaves(v)[0][1] for v in vals])
    if n > MAX_LIFT * 4:
        return fn(*[mk('blob', v) if v.op == 'phi' else v for v in vals])
    combos = [(TRUE, ())]
    for v in vals:
        nxt = []
        for g, ls in combos:
            for g2, leaf in leaves(v):
                gg = band(g, g2)
                if gg is not FALSE:
                    nxt.append((gg, ls + (leaf,)))
        combos = nxt
    return bors(band(g, fn(*ls)) for g, ls in combos)


# ---------------------------------------------------------------- substitution

class Subst:
    """simultaneous replacement of sub terms (leaf terms), rebuilding with `rebuild`"""

    def __init__(self, mapping, rebuild=None, truth=None):
        self.m = {k.id: v for k, v in mapping.items()}
        self.keys = frozenset(mapping)
        self.only_free = all(
            k.op in ('elem', 'index', 'muvar', 'untilvar') for k in mapping)
        self.memo = {}
        self.bmemo = {}
        self.rebuild_hook = rebuild
        self.atom_hook = truth

    def __call__(self, x):
        if isinstance(x, T):
            return self.term(x)
        if isinstance(x, B):
            return self.gate(x)
        if isinstance(x, tuple):
            return tuple(self(y) for y in x)
        return x

    def term(self, t):
        r = self.m.get(t.id)
        if r is not None:
            return r
        if not (t.free & self.keys) and t.op != 'phi' and self.only_free:
            return t
        r = self.memo.get(t.id)
        if r is not None:
            return r
        args = tuple(self(a) for a in t.args)
        if all(a is b for a, b in zip(args, t.args)) or args == t.args:
            r = t
        elif t.op == 'phi':
            r = phi(args[0])
        elif self.rebuild_hook is not None:
            r = self.rebuild_hook(t.op, args)
        else:
            r = mk(t.op, *args)
        self.memo[t.id] = r
        return r

    def gate(self, b):
        if b.var is None:
            return b
        r = self.bmemo.get(b.id)
        if r is not None:
            return r
        a = _ATOMS[b.var]
        na = self.term(a)
        if isinstance(na, B):
            c = na
        elif na is a:
            c = _mkb(b.var, FALSE, TRUE)
        else:
            c = self.atom_hook(na) if self.atom_hook else atom(na)
        r = ite(c, self.gate(b.hi), self.gate(b.lo))
        self.bmemo[b.id] = r
        return r


# ---------------------------------------------------------------- printing

def show(t, depth=0, maxd=7):
    if isinstance(t, B):
        return show_b(t, depth, maxd)
    if isinstance(t, tuple):
        return '(' + ', '.join(show(x, depth + 1, maxd) for x in t) + ')'
    if not isinstance(t, T):
        return repr(t)
    if depth > maxd:
        return '...'
    op, a = t.op, t.args
    d = depth + 1
    if op == 'const':
        return repr(a[1])
    if op in ('sym', 'ext', 'func', 'cls', 'global'):
        return str(a[0]).replace('sciencebeam_trainer_grobid_tools.', '')
    if op == 'attr':
        return '%s.%s' % (show(a[0], d, maxd), a[1])
    if op == 'elem':
        return 'each(%s)' % show(a[0], d, maxd)
    if op == 'phi':
        return '{' + ' | '.join('%s when %s' % (show(v, d, maxd), show_b(g, d, maxd))
                                for g, v in a[0]) + '}'
    if op == 'call':
        return '%s(%s)' % (show(a[0], d, maxd), ', '.join(
            [show(x, d, maxd) for x in a[1]] + ['%s=%s' % (k, show(v, d, maxd)) for k, v in a[2]]))
    if op == 'mcall':
        return '%s.%s(%s)' % (show(a[0], d, maxd), a[1], ', '.join(
            [show(x, d, maxd) for x in a[2]] + ['%s=%s' % (k, show(v, d, maxd)) for k, v in a[3]]))
    if op == 'truth':
        return 'truth(%s)' % show(a[0], d, maxd)
    return '%s(%s)' % (op, ', '.join(show(x, d, maxd) for x in a))


def show_b(b, depth=0, maxd=7):
    if b is TRUE:
        return 'True'
    if b is FALSE:
        return 'False'
    cubes = []

    def rec(n, lits):
        if len(cubes) > 4:
            return
        if n is FALSE:
            return
        if n is TRUE:
            cubes.append(' & '.join(lits) or 'True')
            return
        a = show(_ATOMS[n.var], depth + 1, maxd)
        rec(n.hi, lits + [a])
        rec(n.lo, lits + ['!' + a])
    rec(b, [])
    if len(cubes) > 4:
        cubes = cubes[:4] + ['...']
    return ' or '.join(cubes)
