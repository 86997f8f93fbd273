"""Verdicts on conformance: EQUAL, REFUTED, UNKNOWN.

`Pair.compare` says whether the value graphs of a function are identical.  Where they are
not, this module decides whether the difference is *definite* - expressible in terms both
sides understand - and whether it is visible from outside the function: a helper whose
graph changed is accepted when every function that uses it is unchanged with the helper's
body put in place.  A difference that rests on a construct the normal form does not
interpret is UNKNOWN and stays quiet.
"""
from .model import AnalysisBroken
from .flow import Limit, Analysis, Frame
from .compare import Pair, EQUAL, DIFF, UNKNOWN, first_diffs
from .shape import substitution, other_end, iteration, talk, only_left_out, only_moved, one_for_all, guards_empty, reexpressed, \
    simple, contains, by_search, one_of_many, whole_for_parts, other_wins, all_terms, named_args, \
    fed_backwards, step_to_lookup, \
    skeleton as statement_skeleton
from . import terms as tm
from .terms import T, B, TRUE, FALSE, leaves, show, show_b, atoms_of, implies

REFUTED = 'REFUTED'

# operators whose meaning the normal form does not canonicalise: when they take part in a
# difference nothing is concluded
FREE_FORM = {
    'mu', 'mudef', 'muref', 'muvar', 'while', 'untilvar', 'selfuntil', 'until', 'blob', 'unknown',
    'cyc', 'nestedcls', 'star', 'setslice', 'maybe', 'mutated', 'fn?', 'fix', 'superext',
    'undef', 'delattr',
}
BASE_EXT = {
    'len', 'str', 'int', 'float', 'bool', 'sorted', 'reversed', 'min', 'max', 'sum', 'abs', 'any',
    'all', 'set', 'list', 'tuple', 'dict', 'range', 'enumerate', 'zip', 'repr', 'isinstance',
    'open', 'print', 'round', 'ValueError', 'AssertionError', 'RuntimeError', 'KeyError',
    'TypeError', 'IndexError', 'Exception', 'copy.copy', 'copy.deepcopy', 'os.path.join',
    'os.path.basename', 'os.path.dirname', 'os.path.exists', 'os.path.splitext', 'os.remove',
    're.compile', 're.sub', 're.match', 're.search', 'object', 'type', 'id', 'next', 'iter',
    'os.makedirs', 'hash', 'ord', 'chr', 'frozenset', 'NotImplementedError', 'StopIteration',
    'map', 'filter', 'os.path.abspath', 'os.path.relpath', 'os.getcwd', 'random.random',
    'time.time', 'random.shuffle', 'random.sample', 'collections.OrderedDict', 'threading.Thread',
}
BASE_METHODS = {
    'append', 'extend', 'add', 'get', 'items', 'keys', 'values', 'strip', 'lstrip', 'rstrip',
    'lower', 'upper', 'split', 'rsplit', 'splitlines', 'replace', 'startswith', 'endswith', 'find',
    'rfind', 'index', 'rindex', 'count', 'join', 'format', 'encode', 'decode', 'pop', 'insert',
    'remove', 'clear', 'update', 'sort', 'reverse', 'copy', 'setdefault', 'isdigit', 'isalpha',
    'isspace', 'isalnum', 'islower', 'isupper', 'title', 'capitalize', 'group', 'match', 'search',
    'sub', 'findall', 'finditer', 'close', 'write', 'read', 'xpath', 'iter', 'set', 'getparent',
    'union', 'difference', 'intersection', 'issubset', 'partition', 'rpartition', 'discard',
    'start', 'end', 'span', 'groups', 'casefold', 'swapcase', 'zfill', 'getroottree', 'getroot',
    'find', 'itertext', 'addnext', 'addprevious', 'getnext', 'getprevious', 'getchildren', 'drop_tag',
    'makeelement', 'tostring', 'map', 'submit', 'result', 'shutdown', 'cancel', 'flush', 'readlines',
}


# library methods that do the same when given the right arguments
SYNONYMS = [
    {'insert', 'append', 'addnext', 'addprevious', 'extend', 'replace'},
    {'write', 'writelines'}, {'pop', 'remove', 'clear', 'discard'}, {'update', 'setdefault', 'add'},
    {'set', 'update'},
]


def subterms(x):
    seen = set()
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, tuple):
            stack.extend(y)
        elif isinstance(y, B):
            if y.var is not None and y.id not in seen:
                seen.add(y.id)
                stack.extend(atoms_of(y))
        elif isinstance(y, T) and y.id not in seen:
            seen.add(y.id)
            stack.extend(a for a in y.args if isinstance(a, (T, B, tuple)))
    return seen


def features(x, out=None, seen=None):
    """operator vocabulary of a term / gate; sub terms in `seen` are left out"""
    out = set() if out is None else out
    seen = set() if seen is None else seen
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, tuple):
            stack.extend(y)
        elif isinstance(y, B):
            if y.id in seen or y.var is None:
                continue
            seen.add(y.id)
            for a in atoms_of(y):
                stack.append(a)
        elif isinstance(y, T):
            if y.id in seen:
                continue
            seen.add(y.id)
            if y.op == 'ext':
                out.add('ext:' + y.args[0])
            elif y.op == 'mcall':
                out.add('mcall:' + y.args[1])
            else:
                out.add(y.op)
            stack.extend(a for a in y.args if isinstance(a, (T, B, tuple)))
    return out


LOOPY = {'mu', 'mudef', 'muref', 'muvar', 'while', 'untilvar', 'selfuntil', 'until', 'undef'}


def skeleton(s):
    """shape of the loops that carry values: how many carried values per kind of loop"""
    seen, out = set(), {}
    stack = [s.ret, s.live] + [x for e in s.effects if e.kind != 'log'
                               for x in (e.term, e.gate, e.loops)]
    while stack:
        y = stack.pop()
        if isinstance(y, tuple):
            stack.extend(y)
        elif isinstance(y, B):
            if y.var is not None and y.id not in seen:
                seen.add(y.id)
                stack.extend(atoms_of(y))
        elif isinstance(y, T) and y.id not in seen:
            seen.add(y.id)
            if y.op == 'mu':
                k = 'while' if y.args[0] and y.args[0][-1][0].op == 'while' else 'for'
                out[k] = out.get(k, 0) + 1
            stack.extend(a for a in y.args if isinstance(a, (T, B, tuple)))
    return out


class Conformance:
    def __init__(self, cur, ref):
        self.cur, self.ref = cur, ref
        self.pair = Pair(cur, ref)
        self.base = {}          # q -> Result of the plain comparison
        self.verdicts = {}      # q -> Verdict
        self._users = None
        self._diff = None
        self.vocab = None
        self.fields = None

    # ------------------------------------------------------------ plain comparison of everything
    def names(self):
        """every function of the reference that still answers to its name, with the same
        interface"""
        return sorted(self.pair.common)

    def plain(self, q):
        if q not in self.base:
            try:
                self.base[q] = self.pair.compare(q)
            except (Limit, RecursionError, AttributeError, TypeError, ValueError, KeyError,
                    IndexError, AssertionError) as e:
                from .compare import Result
                self.base[q] = Result(q, UNKNOWN, [('limit', '%s: %s' % (type(e).__name__, e))])
        return self.base[q]

    def diff_set(self):
        if self._diff is None:
            self._diff = {q for q in self.names() if self.plain(q).status == DIFF}
        return self._diff

    # ------------------------------------------------------------ who uses a function
    def mentions(self, which, q):
        s, _ = self.pair.summary(which, q)
        if s is None:
            return None
        out = set()
        seen = set()
        stack = [s.ret, s.live] + [e.term for e in s.effects] + [e.gate for e in s.effects] + [
            e.loops for e in s.effects]
        while stack:
            y = stack.pop()
            if isinstance(y, tuple):
                stack.extend(y)
            elif isinstance(y, B):
                if y.var is None or y.id in seen:
                    continue
                seen.add(y.id)
                stack.extend(atoms_of(y))
            elif isinstance(y, T):
                if y.id in seen:
                    continue
                seen.add(y.id)
                if y.op in ('ofunc', 'func', 'ocls', 'cls'):
                    out.add(y.args[0])
                elif y.op == 'bound':
                    out.add(y.args[1])
                elif y.op == 'mcall':
                    out.add('.' + y.args[1])
                elif y.op == 'attr' and isinstance(y.args[1], str):
                    out.add('.' + y.args[1])
                stack.extend(a for a in y.args if isinstance(a, (T, B, tuple)))
        return out

    def users(self):
        if self._users is None:
            u = {}
            for q in self.names():
                for which in ('ref', 'cur'):
                    ms = self.mentions(which, q)
                    for m in ms or ():
                        u.setdefault(m, set()).add(q)
            self._users = u
        return self._users

    def leaky(self, q):
        """q may be called in ways that cannot be put in place"""
        name = q.rpartition('.')[2]
        if name.startswith('__') or name == 'main':
            return True
        f = self.ref.funcs[q]
        if f.cls is not None:
            if self.users().get('.' + name):
                return True
        for prog in (self.ref, self.cur):
            for m in prog.modules.values():
                if self.module_level_use(prog, m, q):
                    return True
        return False

    def module_level_use(self, prog, m, q):
        import ast
        key = (id(prog), m.name)
        cache = self.__dict__.setdefault('_mlu', {})
        if key not in cache:
            used = set()
            for stmt in m.tree.body:
                if isinstance(stmt, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
                    continue
                for n in ast.walk(stmt):
                    if isinstance(n, (ast.Name, ast.Attribute)):
                        d = m.dotted(n)
                        if d:
                            used.add(prog.canonical(d))
            cache[key] = used
        return q in cache[key]

    # ------------------------------------------------------------ escalation
    def resolved(self, q, extra=frozenset(), depth=3):
        """the change of q is invisible: all its users are unchanged with it put in place"""
        if self.leaky(q):
            return False
        us = set(self.users().get(q, ())) - {q}
        if not us:
            return False
        inline = self.diff_set() | extra | {q}
        for u in sorted(us):
            r = self.pair.compare(u, inline=tuple(sorted(inline - {u})))
            if r.status == EQUAL and not self.residual(u, inline - {u}, extra | {q}):
                continue
            if r.status == UNKNOWN:
                return None
            if depth > 0:
                rr = self.resolved(u, extra | {q}, depth - 1)
                if rr:
                    continue
                if rr is None:
                    return None
            return False
        return True

    def residual(self, u, inline, qs):
        """one of the functions put in place still occurs as itself (recursion, first class, or
        called by name on a receiver whose class is not known)"""
        methods = {q.rpartition('.')[2] for q in qs
                   if q in self.ref.funcs and self.ref.funcs[q].cls is not None}
        for which in ('ref', 'cur'):
            s, _ = self.pair.summary(which, u, tuple(sorted(inline)))
            if s is None:
                return True
            seen = set()
            stack = [s.ret, s.live] + [x for e in s.effects for x in (e.term, e.gate, e.loops)]
            while stack:
                y = stack.pop()
                if isinstance(y, tuple):
                    stack.extend(y)
                elif isinstance(y, B):
                    if y.var is not None and y.id not in seen:
                        seen.add(y.id)
                        stack.extend(atoms_of(y))
                elif isinstance(y, T):
                    if y.id in seen:
                        continue
                    seen.add(y.id)
                    if y.op in ('ofunc', 'func') and y.args[0] in qs:
                        return True
                    if y.op == 'bound' and y.args[1] in qs:
                        return True
                    if y.op in ('mcall', 'attr') and y.args[1] in methods:
                        return True
                    stack.extend(a for a in y.args if isinstance(a, (T, B, tuple)))
        return False

    # ------------------------------------------------------------ verdicts
    def verdict(self, q):
        if q in self.verdicts:
            return self.verdicts[q]
        try:
            v = self._verdict(q)
        except Limit as e:
            v = Verdict(q, UNKNOWN, 'limit: %s' % e)
        except AnalysisBroken:
            raise
        except Exception as e:  # reported as undecided, never as an alarm or a crash
            v = Verdict(q, UNKNOWN, 'internal: %s: %s' % (type(e).__name__, e))
        self.verdicts[q] = v
        return v

    def changed_default(self, q):
        """a parameter left out by the caller means another value now"""
        f, g = self.pair.resolve('ref', q), self.pair.resolve('cur', q)
        if f is None or g is None or f.name.startswith('_') and not f.name.startswith('__'):
            return None
        a, b = self.default_values('ref', f), self.default_values('cur', g)
        for name in a:
            if name in b and a[name].op == 'const' and b[name].op == 'const' \
                    and a[name] is not b[name]:
                return '%s defaults to %s -> %s' % (name, show(a[name]), show(b[name]))
        return None

    def default_values(self, which, f):
        an = Analysis(self.ref if which == 'ref' else self.cur,
                      aliases=self.pair.moved if which == 'cur' else None)
        an.frames = [Frame(None, f.module, None, {}, 0)]
        node = f.node.args
        pos = node.posonlyargs + node.args
        out = {}
        pairs = list(zip(pos[len(pos) - len(node.defaults):], node.defaults)) + list(
            zip(node.kwonlyargs, node.kw_defaults))
        for a, d in pairs:
            if d is not None:
                out[a.arg] = an.eval(d)
        return out

    def _verdict(self, q):
        v = self._verdict_body(q)
        if v.status == EQUAL:
            d = self.changed_default(q)
            if d:
                return Verdict(q, REFUTED, d, v.result)
        return v

    def _verdict_body(self, q):
        if q not in self.pair.common:
            if self.pair.resolve('cur', q) is None:
                return Verdict(q, 'GONE', 'no function of this name; entered in place in its users')
            f = self.pair.resolve('cur', q)
            if q in self.ref.funcs and f.qualname in self.cur.funcs:
                r = self.pair.compare(q)
                if r.status == EQUAL:
                    return Verdict(q, EQUAL, 'same value graph (interface changed)', r)
                return Verdict(q, 'CHANGED-INTERFACE', 'entered in place in its users')
        r = self.plain(q)
        if r.status == EQUAL:
            return Verdict(q, EQUAL, 'same value graph', r)
        if r.status == UNKNOWN:
            return Verdict(q, UNKNOWN, str(r.diffs), r)
        inline = self.diff_set() - {q}
        if inline:
            # responsibility moved between functions
            r2 = self.pair.compare(q, inline=tuple(sorted(inline)))
            if r2.status == EQUAL:
                return Verdict(q, EQUAL, 'same value graph with its changed callees put in place', r2)
        # an existing function is used on one side where the other spells it out
        one_side = self.used_on_one_side(q)
        if one_side:
            r3 = self.pair.compare(q, inline=tuple(sorted(inline | one_side)))
            if r3.status == EQUAL:
                return Verdict(q, EQUAL, 'same value graph with %s put in place' % ', '.join(
                    sorted(one_side)), r3)
        res = self.resolved(q)
        if res:
            return Verdict(q, EQUAL, 'users unchanged with it put in place', r)
        if res is None:
            return Verdict(q, UNKNOWN, 'users could not be summarised', r)
        ok, why = self.definite(r)
        if ok and one_side and not r3_definite(self, r3):
            ok = False
        if ok:
            return Verdict(q, REFUTED, why, r)
        return Verdict(q, UNKNOWN, why, r)

    def used_on_one_side(self, q):
        a, b = self.mentions('ref', q), self.mentions('cur', q)
        if a is None or b is None:
            return set()
        out = {m for m in a ^ b if m in self.pair.common and m != q and not m.startswith('.')}
        return out if len(out) <= 4 else set()

    def ref_users(self, q):
        out = set()
        name = q.rpartition('.')[2]
        method = self.ref.funcs[q].cls is not None if q in self.ref.funcs else False
        for u in self.ref.funcs:
            ms = self.syntactic_mentions(u)
            if q in ms or (method and ('.' + name) in ms):
                out.add(u)
        return out - {q}

    def syntactic_mentions(self, u):
        import ast
        cache = self.__dict__.setdefault('_syn', {})
        if u not in cache:
            f = self.ref.funcs[u]
            out = set()
            for n in ast.walk(f.node):
                if isinstance(n, (ast.Name, ast.Attribute)):
                    d = f.module.dotted(n)
                    if d:
                        out.add(self.ref.canonical(d))
                    if isinstance(n, ast.Attribute):
                        out.add('.' + n.attr)
            cache[u] = out
        return cache[u]

    def override_verdict(self, cls_q, name):
        q = cls_q + '.' + name
        try:
            r = self.pair.compare(q)
        except Exception:
            return None
        if r.status == EQUAL:
            return Verdict(q, EQUAL, 'same', r)
        if r.status == UNKNOWN:
            return Verdict(q, UNKNOWN, str(r.diffs), r)
        ok, why = self.definite(r)
        return Verdict(q, REFUTED if ok else UNKNOWN, why, r)

    # ------------------------------------------------------------ definite differences
    def vocabulary(self):
        if self.vocab is None:
            v = set()
            for q in self.names():
                s, _ = self.pair.summary('ref', q)
                if s is not None:
                    for x in [s.ret, s.live] + [e.term for e in s.effects]:
                        features(x, v)
            self.vocab = v
        return self.vocab

    def known(self, f):
        if f.startswith('ext:'):
            return f[4:] in BASE_EXT or f in self.vocabulary() or f.startswith('ext:typing.')
        if f.startswith('mcall:'):
            return f[6:] in BASE_METHODS or f in self.vocabulary()
        return f not in FREE_FORM

    def definite(self, r):
        ok, why = self.definite_pairs(r)
        if not ok:
            gone = self.facts_lost(r)
            if gone:
                return True, gone
        return ok, why

    def facts_lost(self, r):
        """facts a function cannot lose by being written in another way"""
        if r.ref is None or r.cur is None:
            return None
        x = one_for_all(self.parts(r.ref), self.parts(r.cur))
        if x:
            return '%s is gone through -> only items at fixed positions are used' % brief(x[0])
        x = by_search(self.parts(r.ref), self.parts(r.cur))
        if x:
            return 'the position in %s is known -> %s is searched for in it' % (
                brief(x[0][0]), brief(x[0][1]))
        x = step_to_lookup(self.parts(r.ref), self.parts(r.cur))
        if x:
            return 'elements of %s and %s are compared one by one -> looked up wherever they are' % (
                brief(x[0][0]), brief(x[0][1]))
        x = self.repeated(r)
        if x:
            return x
        x = one_of_many(self.parts(r.ref), self.parts(r.cur))
        if x:
            return 'all elements of %s are collected from -> a single one is' % brief(x[0])
        f, g = self.pair.resolve('ref', r.q), self.pair.resolve('cur', r.q)
        x = other_wins(f.node, g.node) if f is not None and g is not None else None
        if x:
            return x
        x = [(f, g) for f, g in fed_backwards(self.parts(r.ref), self.parts(r.cur))
             if f in self.pair.common and g in self.pair.common]
        if x:
            return '%s is given what %s makes -> the other way round' % x[0]
        x = self.order_lost(r)
        if x:
            return '%s is done after %s -> no longer' % x
        for f, k, v, way in whole_for_parts(self.parts(r.ref), self.parts(r.cur)):
            if self.depends_on_whole(f, k):
                return '%s, which depends on all of %r, is now called %s' % (
                    f, k, 'once for all parts' if way == 'whole' else 'for each part')
        return None

    def order_lost(self, r):
        """the same kinds of effects, but one that was done after another which it depends on is
        now only done before it"""
        facts, heads = [], []
        for s in (r.ref, r.cur):
            es = [e for e in s.effects if e.kind in ('call', 'mcall') and self.pair.is_effect(e)]
            heads.append({head(e.term) for e in s.effects if e.kind in ('call', 'mcall', 'store')
                          and self.pair.is_effect(e)})
            labels = {str(head(e.term)[1]).split('.')[-1] for e in es}
            facts.append({(head(e.term), g) for e in es for v in e.term.args
                          if isinstance(v, tuple) and v[:1] == ('after',) for g in v[1:]
                          if g in labels})
        if heads[0] != heads[1]:
            return None
        for h, g in sorted(facts[0] - facts[1], key=repr):
            return h[1], g
        return None

    def repeated(self, r):
        """an effect of every pass of a loop is now had once, after or before it, or the other way
        round"""
        eff = self.pair.compute_effectful()
        heads = []
        for s in (r.ref, r.cur):
            out = {}
            for e in s.effects:
                if e.kind in ('call', 'mcall') and (
                        self.pair.is_effect(e) or head(e.term)[1] in eff):
                    h = head(e.term)
                    out.setdefault(h, []).append(
                        frozenset(lp[0] for lp in e.loops if isinstance(lp, tuple)))
            heads.append(out)
        a, b = heads
        sources = [set().union(*[x for v in h.values() for x in v]) if h else set()
                   for h in heads]
        for h in sorted(a.keys() & b.keys(), key=repr):
            if all(a[h]) and not any(b[h]) and any(x & sources[1] for x in a[h]):
                return '%s is done for every element -> once' % (h[1],)
            if all(b[h]) and not any(a[h]) and any(x & sources[0] for x in b[h]):
                return '%s is done once -> for every element' % (h[1],)
        return None

    def depends_on_whole(self, q, k, seen=frozenset()):
        """what the function makes of the collection is not put together from what it makes of the
        elements: it asks for the size, an order, or an item of it"""
        if (q, k) in seen or q not in self.pair.common:
            return False
        s, _ = self.pair.summary('ref', q)
        if s is None:
            return False
        parts = self.parts(s)
        whole = {y for y in all_terms(parts) if y.op == 'sym' and y.args[0] == k}
        grew = True
        while grew:
            grew = False
            for y in all_terms(parts):
                if y in whole:
                    continue
                if y.op == 'seq' and any(e[0] and e[0][0][0] in whole for e in y.args[1]) or \
                        y.op == 'call' and any(v in whole for v in named_args(y).values()) or \
                        y.op == 'call' and y.args[0].op == 'ext' and y.args[0].args[0] in (
                            'list', 'tuple') and y.args[1] and y.args[1][0] in whole:
                    whole.add(y)
                    grew = True
        for y in all_terms(parts):
            if y.op in ('len', 'idx', 'slice') and y.args[0] in whole:
                return True
            if y.op == 'call' and y.args[0].op == 'ext' and y.args[0].args[0] == 'sorted' \
                    and y.args[1] and y.args[1][0] in whole:
                return True
            if y.op == 'call' and y.args[0].op == 'ofunc':
                for n, v in named_args(y).items():
                    if v in whole and self.depends_on_whole(y.args[0].args[0], n, seen | {(q, k)}):
                        return True
        return False

    @staticmethod
    def parts(s):
        return [s.ret, s.live] + [x for e in s.effects if e.kind not in ('log', 'raise')
                                  for x in (e.term, e.gate, e.loops)]

    def definite_pairs(self, r):
        pairs = []
        minus, plus = [], []
        for d in r.diffs:
            if d[0] == 'return':
                first_diffs(d[1][1], d[2][1], pairs, limit=40)
                if d[1][0] is not d[2][0]:
                    first_diffs(d[1][0], d[2][0], pairs, limit=40)
            elif d[0] == 'live':
                first_diffs(d[1][0], d[2][0], pairs, limit=40)
            elif d[0] == 'effect-gate':
                if d[1][1].kind in ('call', 'mcall') and guards_empty(d[1][2], d[1][0], d[2][0]):
                    return False, 'rests on a call with nothing to do'
                first_diffs(d[1][0], d[2][0], pairs, limit=40)
            elif d[0] == 'effect-':
                minus.append(d[1])
            elif d[0] == 'effect+':
                plus.append(d[1])
        for m in list(minus):
            cands = [p for p in plus if p[1].kind == m[1].kind and head(p[2]) == head(m[2])]
            if cands:
                p = cands[0]
                plus.remove(p)
                minus.remove(m)
                before = len(pairs)
                first_diffs((m[2], m[1].loops), (p[2], p[1].loops), pairs, limit=60)
                if len(pairs) == before:
                    pairs.append(('', m[2], p[2]))
        if any(m[1].kind == 'mcall' and p[1].kind == 'mcall' and m[2].args[1] != p[2].args[1]
               and m[2].args[1] in g and p[2].args[1] in g
               for m in minus for p in plus for g in SYNONYMS):
            return False, 'rests on another library method for the same purpose'
        local = self.local_edit(r.q)
        if minus and plus and not local and not self.talk_differs(r):
            return False, 'effects written in another way'
        for m in minus:
            pairs.append(('missing effect', (m[2], m[1].loops), ()))
        for p in plus:
            pairs.append(('additional effect', (), (p[2], p[1].loops)))
        if not pairs:
            return False, 'difference not located'
        bad = []
        same_loops = skeleton(r.ref) == skeleton(r.cur)
        stars = self.same_stars(r.q)
        for path, a, b in pairs:
            fa, fb = features(a, seen=subterms(b)), features(b, seen=subterms(a))
            unk = [f for f in sorted(fa | fb) if not self.known(f)
                   and not ((same_loops or local) and f in LOOPY)
                   and not (local and f in ('mutated', 'setslice'))
                   and not (f == 'star' and (f in fa and f in fb or local and stars))]
            if unk and not self.same_skeleton(a, b):
                bad.append((path, unk))
        if bad and self.only_restricted(r):
            d = r.diffs[0]
            return True, 'when %s -> %s' % (show_b(d[1][0])[:200], show_b(d[2][0])[:200])
        if bad:
            return False, 'rests on %s' % ', '.join(sorted({u for _, us in bad for u in us}))
        uniq = {}
        for path, a, b in pairs:
            at = path.endswith('/idx') or path.endswith('/slice')
            uniq.setdefault((tm._k(a), tm._k(b), at), (a, b, at))
        triples = list(uniq.values())
        pairs = [(a, b) for a, b, _ in triples]
        odd = [(a, b) for a, b, at in triples if not substitution(a, b, at)]
        if self.quantifiers(r.q):
            odd += [(a, b) for a, b in pairs if isinstance(a, T) and isinstance(b, T)
                    and (a.op == 'const' and isinstance(a.args[1], bool)) != (
                        b.op == 'const' and isinstance(b.args[1], bool))]
        elif odd and local:
            odd = [(a, b) for a, b in odd if iteration(a, b) or self.taken_apart(r.q, a, b)]
        odd = [(a, b) for a, b in odd if not self.part_for_result(a, b)]
        if odd and self.talk_differs(r):
            odd = [(a, b) for a, b in odd if reexpressed(a, b)]
        if odd:
            return False, 'written in another way: ' + '; '.join(
                '%s -> %s' % (brief(a), brief(b)) for a, b in odd[:3])
        text = '; '.join('%s -> %s' % (brief(a), brief(b)) for a, b in pairs[:3])
        return True, text

    def part_for_result(self, a, b):
        """a field of a value against what a function of the package, the same on both sides,
        makes of the value"""
        if not isinstance(a, T) or not isinstance(b, T):
            return False
        for x, y in ((a, b), (b, a)):
            if x.op == 'bound' and y.op == 'lambda' and self.calls_more(x.args[1], y):
                return True
            if x.op == 'attr' and simple(x) and y.op == 'call' and y.args[0].op == 'ofunc' \
                    and y.args[0].args[0] in self.pair.common \
                    and x.args[1] in self.ref_fields() and contains(y, x.args[0]) \
                    and not contains(y, x):
                return True
        return False

    def calls_more(self, q, fn):
        """fn calls functions of the package which q, that it stands for, has nothing to do with"""
        used = {y.args[0].args[0] for y in all_terms([fn]) if y.op == 'call'
                and y.args[0].op == 'ofunc' and y.args[0].args[0] in self.pair.common}
        mine, todo = set(), [q]
        while todo:
            m = todo.pop()
            if m in mine or m not in self.ref.funcs:
                continue
            mine.add(m)
            f = self.ref.funcs[m]
            for c in self.syntactic_mentions(m):
                if c.startswith('.'):
                    g = self.ref.find_method(f.cls.qualname, c[1:]) if f.cls is not None else None
                    c = g.qualname if g is not None else ''
                todo.append(c)
        import ast
        fields = {y.args[1] for y in all_terms([fn]) if y.op == 'attr'} & self.ref_fields()
        known = {n.attr for m in mine for n in ast.walk(self.ref.funcs[m].node)
                 if isinstance(n, ast.Attribute)}
        return bool(used - mine) or bool(fields - known)

    def ref_fields(self):
        """names of the fields the reference gives its objects"""
        import ast
        if self.fields is None:
            self.fields = {n.attr for f in self.ref.funcs.values() for n in ast.walk(f.node)
                           if isinstance(n, ast.Attribute)}
        return self.fields

    def same_stars(self, q):
        """as many arguments are spread on either side, and the same things are called"""
        import ast
        n = []
        for w in ('ref', 'cur'):
            f = self.pair.resolve(w, q)
            if f is None:
                return False
            n.append((sum(1 for x in ast.walk(f.node) if isinstance(x, ast.Starred)
                          or isinstance(x, ast.keyword) and x.arg is None),
                      sorted(ast.dump(x.func) for x in ast.walk(f.node) if isinstance(x, ast.Call)
                             and isinstance(x.func, ast.Name)
                             and x.func.id not in ('len', 'str', 'int', 'float', 'repr'))))
        return n[0] == n[1]

    def quantifiers(self, q):
        """any / all / bool are used on one side only: truth for the value itself"""
        import ast
        n = []
        for w in ('ref', 'cur'):
            f = self.pair.resolve(w, q)
            n.append(sum(1 for x in ast.walk(f.node) if isinstance(x, ast.Call)
                         and isinstance(x.func, ast.Name) and x.func.id in ('any', 'all', 'bool'))
                     if f is not None else 0)
        return n[0] != n[1]

    @staticmethod
    def talk_differs(r):
        parts = Conformance.parts
        a, b = talk(parts(r.ref)), talk(parts(r.cur))
        return sorted(a ^ b)

    def taken_apart(self, q, a, b):
        """items by position, where one side takes the tuple apart: the position from the other
        end may be the same"""
        import ast
        if not (isinstance(a, tm.T) and isinstance(b, tm.T) and a.op == b.op == 'const'
                and other_end(a, b)):
            return False
        n = max(a.args[1], b.args[1]) + 1
        return any(isinstance(x, ast.Tuple) and isinstance(x.ctx, ast.Store) and len(x.elts) == n
                   for w in ('ref', 'cur') for f in [self.pair.resolve(w, q)] if f is not None
                   for x in ast.walk(f.node))

    def local_edit(self, q, seen=frozenset()):
        """the difference comes from replaced expressions only, in the function and in those that
        are put in place in it"""
        if not self.own_local_edit(q):
            return False
        f = self.ref.funcs.get(q)
        for m in sorted(self.syntactic_mentions(q)) if f is not None else ():
            if m.startswith('.'):
                c = self.ref.find_method(f.cls.qualname, m[1:]) if f.cls is not None else None
                m = c.qualname if c is not None else None
            if m is None or m == q or m in seen or m not in self.ref.funcs:
                continue
            if m in self.pair.common and m not in self.pair.trivial:
                continue
            if not self.local_edit(m, seen | {q}):
                return False
        return True

    def own_local_edit(self, q):
        """the statements of the function are the same ones: only expressions were replaced, and
        nothing was moved to a function that did not exist before"""
        import ast
        f, g = self.pair.resolve('ref', q), self.pair.resolve('cur', q)
        if f is None or g is None:
            return False
        if only_left_out(f.node, g.node) or only_moved(f.node, g.node):
            return True
        if statement_skeleton(f.node) != statement_skeleton(g.node):
            return False
        nodes = [sum(1 for n in ast.walk(x.node) if isinstance(n, (
            ast.FunctionDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp,
            ast.GeneratorExp))) for x in (f, g)]
        if nodes[0] != nodes[1]:
            return False
        for n in ast.walk(g.node):
            if isinstance(n, (ast.Name, ast.Attribute)):
                d = g.module.dotted(n)
                c = self.cur.canonical(d) if d else None
                if (c in self.cur.funcs or c in self.cur.classes) and \
                        self.pair.moved.get(c, c) not in self.pair.common | self.pair.common_cls:
                    return False
        if g.cls is not None:
            for n in ast.walk(g.node):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in (
                        'self', 'cls'):
                    m = self.cur.find_method(g.cls.qualname, n.attr)
                    if m is not None and self.pair.moved.get(
                            m.qualname, m.qualname) not in self.pair.common:
                        return False
        return True

    def only_restricted(self, r):
        """the only difference: the same effects happen under strictly fewer (or strictly more)
        conditions, nothing takes their place; a condition asked of a library does not have to be
        understood to tell that it matters"""
        way = set()
        gates = [d for d in r.diffs if d[0] == 'effect-gate']
        for d in r.diffs:
            if d[0] in ('effect+', 'effect-') and gates and isinstance(d[1][2], T):
                # the question itself, asked of a library
                side = 2 if d[0] == 'effect+' else 1
                t = d[1][2]
                if t.op == 'call' and t.args[0].op == 'ext' and all(
                        isinstance(g[side][0], B) and any(
                            contains(x, t) for x in atoms_of(g[side][0])) for g in gates):
                    continue
            if d[0] != 'effect-gate':
                return False
            a, b = d[1][0], d[2][0]
            if not isinstance(a, B) or not isinstance(b, B):
                return False
            for x in set(atoms_of(b)) ^ set(atoms_of(a)):
                if any(f in LOOPY or f in ('star', 'blob', 'unknown', 'maybe', 'fn?')
                       for f in features(x)):
                    return False
            if implies(b, a):
                way.add('less')
            elif implies(a, b):
                way.add('more')
            else:
                return False
        return len(way) == 1

    @staticmethod
    def same_skeleton(a, b):
        """gates over the same atoms differ as boolean functions"""
        if isinstance(a, B) and isinstance(b, B):
            return set(atoms_of(a)) == set(atoms_of(b))
        return False


def r3_definite(conf, r):
    return r.status == DIFF and conf.definite(r)[0]


def head(t):
    if t.op == 'call':
        return 'call', t.args[0].args[0] if t.args[0].args else t.args[0].op
    if t.op == 'mcall':
        return 'mcall', t.args[1]
    if t.op == 'store':
        return 'store', t.args[1]
    return t.op,


def brief(x, n=160):
    s = show(x, 0, 5) if not isinstance(x, tuple) or x else '(nothing)'
    return s if len(s) <= n else s[:n] + '...'


class Verdict:
    def __init__(self, q, status, why, result=None):
        self.q, self.status, self.why, self.result = q, status, why, result
