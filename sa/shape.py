"""Is a located difference a substitution?

Two value graphs that are not identical either compute different things, or compute the same
thing in a way the normal form does not identify (the code was re-expressed).  A difference is
only believed when it has the shape of a substitution: one leaf for another, an operation added
around or taken away from the same operand, an argument or a condition added, dropped or
replaced, the arms of a choice reduced.  Where the two sides use different operators and neither
contains the other, nothing is concluded.
"""
import ast

from .terms import T, B, FALSE, atoms_of

NAMES = {'const', 'sym', 'ext', 'global', 'func', 'cls', 'ofunc', 'ocls', 'selfobj', 'bound', 'missing'}
# names given by the analysis: their identity depends on how loops are written
SYNTHETIC = {'muvar', 'muref', 'untilvar', 'mudef', 'undef'}
# operations that turn up when an iteration or a text operation is written in another way
REEXPRESS = {'range', 'zip', 'enumerate', 'reversed', 'iter', 'itertools.zip_longest',
             'itertools.chain', 'itertools.islice', 'itertools.takewhile', 'itertools.groupby',
             'itertools.product', 'itertools.accumulate', 'functools.reduce', 'next', 'map',
             'filter'}
LOOP_OPS = {'mu', 'while', 'until', 'selfuntil', 'first', 'firstsat', 'lastof', 'exists', 'seq', 'dict'}
ARITH = {'add', 'sub', 'mul', 'bin', 'neg', 'unary', 'cat', 'format', 'join'}
OPAQUE = {'blob', 'unknown', 'cyc', 'nestedcls', 'maybe', 'mutated', 'fn?', 'fix', 'superext',
          'setslice', 'star', 'closure?', 'lambda', 'arg'}


def contains(big, small):
    """small is a sub term of big"""
    seen = set()
    stack = [big]
    while stack:
        y = stack.pop()
        if y is small:
            return True
        if isinstance(y, tuple):
            stack.extend(y)
        elif isinstance(y, B):
            if y.var is not None and ('b', y.id) not in seen:
                seen.add(('b', y.id))
                stack.extend(atoms_of(y))
        elif isinstance(y, T) and y.id not in seen:
            seen.add(y.id)
            stack.extend(a for a in y.args if isinstance(a, (T, B, tuple)))
    return False


def simple(t):
    """a name, or a field / item of one"""
    while t.op in ('attr', 'idx', 'elem') and isinstance(t.args[0], T):
        if t.op == 'idx' and t.args[1].op not in ('const', 'sym', 'attr', 'elem'):
            return False
        t = t.args[0]
    return t.op in NAMES


def head_name(t):
    """what the outermost operation is"""
    if t.op == 'call':
        f = t.args[0]
        return f.args[0] if f.op in ('ext', 'ofunc', 'ocls', 'func') else f.op
    if t.op == 'mcall':
        return '.' + t.args[1]
    return t.op


def other_end(a, b):
    """positions counted from different ends may be the same one"""
    x, y = a.args[1], b.args[1]
    return type(x) is int and type(y) is int and (x < 0) != (y < 0) and max(x, y) > 0


def wrapper(big, small):
    """big is small with one operation added whose operand is small itself"""
    if big.op in LOOP_OPS or big.op in SYNTHETIC or big.op in OPAQUE:
        return False
    if head_name(big) in REEXPRESS or head_name(big) in ('max', 'min', 'abs'):
        return False
    return contains(big, small)


def subsequence(a, b):
    """a is b with elements left out"""
    it = iter(b)
    return all(any(x is y or x == y for y in it) for x in a)


def substitution(a, b, position=True):
    """True: the difference is a substitution, False: nothing is concluded"""
    if isinstance(a, T) and isinstance(b, T):
        return term_shape(a, b, position)
    if isinstance(a, B) and isinstance(b, B):
        return gate_shape(a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if not a or not b:
            return True
        return subsequence(a, b) or subsequence(b, a)
    if isinstance(a, (T, B, tuple)) or isinstance(b, (T, B, tuple)):
        return False
    # names of methods, fields, keywords
    return True


def term_shape(a, b, position=True):
    for t in (a, b):
        if t.op in SYNTHETIC or t.op in OPAQUE:
            return False
    for t, o in ((a, b), (b, a)):
        if t.op == 'distinct' and o.op == 'seq':
            # the elements, or one per different name made from them
            d = t.args[0].args[0] if t.args[0].op == 'dict' else ()
            return any(x[:3] == y for x in d for y in o.args[1])
    if a.op == 'phi' or b.op == 'phi':
        return phi_shape(a, b)
    if a.op == 'const' or b.op == 'const':
        if a.op == b.op and position and other_end(a, b):
            return False
        o = b if a.op == 'const' else a
        return o.op not in LOOP_OPS
    if simple(a) and simple(b):
        # an element is not compared with an item by position
        return not (a.op != b.op and {a.op, b.op} & {'elem'} and {a.op, b.op} & {'idx'})
    for big, small in ((a, b), (b, a)):
        if big.op not in NAMES and wrapper(big, small):
            return True
    if a.op in ARITH and b.op in ARITH:
        return set(x for x in a.args if isinstance(x, T)) == set(
            x for x in b.args if isinstance(x, T))
    return False


def phi_shape(a, b):
    la = {x for _, x in a.args[0]} if a.op == 'phi' else {a}
    lb = {x for _, x in b.args[0]} if b.op == 'phi' else {b}
    if la <= lb or lb <= la:
        return True
    ea, eb = la - lb, lb - la
    if len(ea) == 1 and len(eb) == 1:
        return term_shape(next(iter(ea)), next(iter(eb)))
    return False


def gate_shape(a, b):
    aa, bb = set(atoms_of(a)), set(atoms_of(b))
    if any(x.op in SYNTHETIC or x.op in OPAQUE for x in aa ^ bb):
        return False
    if aa != bb and all(x.op in ('eq', 'lt') and all(y.op == 'len' for y in x.args)
                        for x in aa ^ bb):
        # which of two collections is longer may follow from how they were made
        return False
    if aa < bb and all(x.op in ('isnone', 'truth') and isinstance(x.args[0], T)
                       and x.args[0].op == 'idx' and x.args[0].args[1].op == 'const'
                       for x in bb - aa) and any(x.op == 'isnone' for x in bb - aa):
        # an item by position that is there is never None in a list that holds no None
        return False
    return aa <= bb or bb <= aa


def iteration(a, b):
    """the pair is about the way something is gone through"""
    for t in (a, b):
        if isinstance(t, T) and (t.op in ('first', 'firstsat', 'lastof', 'range', 'zip')
                                 or head_name(t) in REEXPRESS):
            return True
    return reexpressed(a, b)


def reexpressed(a, b):
    """two ways of writing the same thing that are known not to be told apart here"""
    if isinstance(a, T) and isinstance(b, T):
        if (a.op == 'lambda') != (b.op == 'lambda'):
            return True
        cut = ('.replace', '.removeprefix', '.removesuffix', 'before', 'afterlast', 'idx')
        if a.op == 'slice' and head_name(b) in cut or b.op == 'slice' and head_name(a) in cut:
            return True
        ordered = ('collections.OrderedDict', 'collections.defaultdict', 'collections.Counter')
        return (head_name(a) in ordered) != (head_name(b) in ordered)
    return False


def guards_empty(term, a, b):
    """the conditions differ only in whether something the call is given a list made from has
    elements: a call with an empty list may do nothing"""
    if not isinstance(a, B) or not isinstance(b, B):
        return False
    aa, bb = set(atoms_of(a)), set(atoms_of(b))
    if not aa ^ bb:
        return False
    sources = set()
    seen = set()
    stack = [x for x in term.args if isinstance(x, (T, tuple))]
    while stack:
        y = stack.pop()
        if isinstance(y, tuple):
            stack.extend(y)
        elif isinstance(y, T) and y.id not in seen:
            seen.add(y.id)
            if y.op in ('seq', 'dict') and len(y.args[-1]) == 1:
                for lp in y.args[-1][0][0]:
                    x = lp[0]
                    sources.add(x)
                    while x.op == 'slice' and isinstance(x.args[0], T):
                        x = x.args[0]
                        sources.add(x)
            stack.extend(x for x in y.args if isinstance(x, (T, tuple)))
    return all(x.op in ('truth', 'longer', 'nonempty') and x.args[0] in sources for x in aa ^ bb)


def uses(xs):
    """how each plain value is used: gone through, an item at a fixed position, asked for its
    size, or anything else"""
    out = {}
    seen = set()
    stack = list(xs)
    while stack:
        y = stack.pop()
        if isinstance(y, tuple):
            for x in y:
                if isinstance(x, T) and simple(x):
                    out.setdefault(x, set()).add('other')
            stack.extend(y)
        elif isinstance(y, B):
            if y.var is not None and ('b', y.id) not in seen:
                seen.add(('b', y.id))
                stack.extend(atoms_of(y))
        elif isinstance(y, T) and y.id not in seen:
            seen.add(y.id)
            for n, x in enumerate(y.args):
                if not isinstance(x, (T, B, tuple)):
                    continue
                if y.op in ('elem', 'index', 'seq', 'mu') and isinstance(x, tuple):
                    # the source of a loop is also an argument of its elements
                    stack.extend(z for z in flat(x))
                    continue
                stack.append(x)
                if not isinstance(x, T) or not simple(x):
                    continue
                if y.op in ('elem', 'index'):
                    kind = 'iter'
                elif y.op == 'idx' and n == 0 and y.args[1].op == 'const':
                    kind = 'item'
                elif y.op in ('truth', 'len', 'isnone', 'nonempty', 'longer'):
                    kind = 'probe'
                else:
                    kind = 'other', y.id
                out.setdefault(x, set()).add(kind)
    return out


def flat(x):
    out = []
    for y in x:
        if isinstance(y, tuple):
            # entries of loops start with the source and its element: the element says it all
            if len(y) == 4 and isinstance(y[0], T) and isinstance(y[1], T) and y[1].op == 'elem':
                out.extend(z for z in y[1:] if isinstance(z, (T, B)))
            else:
                out.extend(flat(y))
        elif isinstance(y, (T, B)):
            out.append(y)
    return out


def one_for_all(ref, cur):
    """something the reference goes through is only looked at by fixed positions"""
    a, b = uses(ref), uses(cur)
    return [x for x, k in a.items() if 'iter' in k and x in b and 'item' in b[x]
            and not b[x] & {'iter', 'other'}
            and all(u in k for u in b[x] if isinstance(u, tuple))]


SEARCH_METHODS = {'index', 'find', 'rindex', 'rfind', 'partition', 'rpartition', 'split', 'rsplit',
                  'replace', 'count'}
SEARCH_OPS = {'before', 'afterlast', 'partition3', 'rpartition3', 'split1', 'rsplit1'}


def all_terms(xs):
    seen = set()
    stack = list(xs)
    while stack:
        y = stack.pop()
        if isinstance(y, tuple):
            stack.extend(y)
        elif isinstance(y, B):
            if y.var is not None and ('b', y.id) not in seen:
                seen.add(('b', y.id))
                stack.extend(atoms_of(y))
        elif isinstance(y, T) and y.id not in seen:
            seen.add(y.id)
            yield y
            stack.extend(a for a in y.args if isinstance(a, (T, B, tuple)))


def part_of(text, x):
    """x is, or is made from, a piece cut out of the text at given positions"""
    return any(y.op == 'slice' and y.args[0] is text for y in all_terms([x]))


def searches(xs):
    """(text, needle): a text is searched for a piece of itself"""
    out = set()
    for y in all_terms(xs):
        if y.op in SEARCH_OPS:
            text, needle = y.args[0], y.args[1]
        elif y.op == 'mcall' and y.args[1] in SEARCH_METHODS and y.args[2]:
            text, needle = y.args[0], y.args[2][0]
        else:
            continue
        if isinstance(text, T) and isinstance(needle, T) and part_of(text, needle):
            out.add((text, needle))
    return out


def by_search(ref, cur):
    """a piece of a text, known by its position in the reference, is searched for by what it says:
    the same words may stand somewhere else before it"""
    a = searches(ref)
    return [x for x in searches(cur) if x not in a and x[0] not in {t for t, _ in a}]


PICKS = {'max', 'min', 'next'}


def picked(t):
    """the collection a single element is taken from"""
    if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in PICKS:
        for x in t.args[1:]:
            for y in (x if isinstance(x, tuple) else (x,)):
                if isinstance(y, T):
                    return y
    if t.op == 'idx' and t.args[1].op == 'const' and type(t.args[1].args[1]) is int:
        return t.args[0]
    return None


def collected(xs):
    """(collection, collection inside each of its elements) of all complete nested iterations"""
    out = set()
    for y in all_terms(xs):
        if y.op in ('seq', 'dict'):
            for entry in y.args[-1]:
                lps = entry[0]
                for p, q in zip(lps, lps[1:]):
                    if p[3] is FALSE and q[3] is FALSE and q[0] is p[1]:
                        out.add(p[0])
    return out


def one_of_many(ref, cur):
    """the reference collects from all elements of a collection, now from a single one"""
    a = collected(ref)
    if not a:
        return []
    b = collected(cur)
    out = []
    for y in all_terms(cur):
        if y.op in ('seq', 'dict'):
            for entry in y.args[-1]:
                for p in entry[0]:
                    s = picked(p[0])
                    if s is not None and s in a and s not in b:
                        out.append(s)
    return out


def named_args(t):
    return {k: v for x in t.args[1:] if isinstance(x, tuple) for y in x
            if isinstance(y, tuple) and len(y) == 2 for k, v in (y,)}


def parts_calls(xs):
    """calls of functions of the package that are given the part of a collection that belongs to one
    element of another: (function, argument, part)"""
    out = set()
    for y in all_terms(xs):
        if y.op == 'call' and y.args[0].op == 'ofunc':
            for k, v in named_args(y).items():
                if isinstance(v, T):
                    out.add((y.args[0].args[0], k, v))
    return out


def whole_for_parts(ref, cur):
    """a function is given all parts at once instead of one after the other, or the other way
    round"""
    a, b = parts_calls(ref), parts_calls(cur)
    out = []
    for one, other, way in ((a, b, 'whole'), (b, a, 'parts')):
        for f, k, v in other:
            if v.op != 'seq' or len(v.args[1]) != 1:
                continue
            lps, gate, value = v.args[1][0][:3]
            if len(lps) < 2 or value is not lps[-1][1] or any(lp[3] is not FALSE for lp in lps):
                continue
            if (f, k, lps[-1][0]) in one and (f, k, v) not in one and \
                    (f, k, lps[-1][0]) not in other:
                out.append((f, k, v, way))
    return out


# ---------------------------------------------------------------- what is talked about

# operations by which the same thing can be said in another way
IDIOM_EXT = REEXPRESS | {
    'len', 'list', 'tuple', 'dict', 'set', 'frozenset', 'str', 'int', 'bool', 'sum', 'any', 'all',
    'min', 'max', 'isinstance', 'getattr', 'setattr', 'hasattr', 'callable', 'type', 'abs', 'print',
    'collections.OrderedDict', 'collections.defaultdict', 'collections.Counter',
    'collections.deque', 'functools.partial', 'operator.itemgetter', 'operator.attrgetter',
    'contextlib.ExitStack', 'contextlib.suppress', 'contextlib.closing', 'object', 'super', 'open',
    'os.path.join', 're.compile', 're.match', 're.search', 're.sub', 're.findall', 're.finditer',
    're.fullmatch', 're.split', 'typing.cast', 'repr', 'format', 'divmod',
    'os.path.split', 'os.path.splitext', 'os.path.basename', 'os.path.dirname', 'vars', 'slice',
    'xml.sax.saxutils.escape', 'lxml.etree.SubElement', 'lxml.etree.Element',
}
IDIOM_METHODS = {
    'append', 'extend', 'add', 'get', 'items', 'keys', 'values', 'setdefault', 'update', 'pop',
    'popleft', 'appendleft', 'insert', 'remove', 'clear', 'copy', 'join', 'format', 'index', 'find',
    'split', 'rsplit', 'partition', 'rpartition', 'startswith', 'endswith', 'union', 'difference',
    'intersection', 'issubset', 'issuperset', 'count', 'discard', 'sort', 'reverse', 'match',
    'search', 'fullmatch', 'sub', 'group', 'groups', 'start', 'end', 'span', 'write', 'writelines',
    'writerow', 'writerows', '__getitem__', '__contains__', 'result', 'set', 'strip', 'lstrip',
    'rstrip', 'isspace', 'splitlines', 'read', 'readlines', '__enter__', '__exit__', 'close',
    'map', 'submit', 'encode', 'decode', 'casefold', 'removeprefix', 'removesuffix', 'find_all',
    'getchildren', 'iterchildren', 'addnext', 'addprevious', 'getnext', 'getprevious', 'makeelement',
}


def talk(xs):
    """library operations, fields and texts a value depends on, without the idioms"""
    out = set()
    seen = set()
    stack = list(xs)
    while stack:
        y = stack.pop()
        if isinstance(y, tuple):
            stack.extend(y)
        elif isinstance(y, B):
            if y.var is not None and ('b', y.id) not in seen:
                seen.add(('b', y.id))
                stack.extend(atoms_of(y))
        elif isinstance(y, T) and y.id not in seen:
            seen.add(y.id)
            if y.op == 'ext' and y.args[0] not in IDIOM_EXT:
                out.add(y.args[0])
            elif y.op == 'mcall' and y.args[1] not in IDIOM_METHODS:
                out.add('.' + y.args[1])
            elif y.op == 'attr' and isinstance(y.args[1], str):
                out.add('.' + y.args[1])
            elif y.op == 'const' and isinstance(y.args[1], str) and y.args[1].strip():
                out.add(repr(y.args[1]))
            stack.extend(a for a in y.args if isinstance(a, (T, B, tuple)))
    return out


# ---------------------------------------------------------------- how much was rewritten

def skeleton(fn):
    """nesting of the statements of a function; expressions, names, logging left out"""
    def is_noise(st):
        if isinstance(st, ast.Pass):
            return True
        if isinstance(st, ast.Expr):
            if isinstance(st.value, ast.Constant):
                return True
            if isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute):
                v = st.value.func.value
                return isinstance(v, ast.Name) and v.id.lower() in ('logger', 'log', 'logging')
        return False

    def block(stmts):
        return tuple(one(st) for st in stmts if not is_noise(st))

    def one(st):
        kind = 'Assign' if isinstance(st, (ast.AnnAssign, ast.Assign)) else type(st).__name__
        out = [kind]
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(st, f, None)
            if isinstance(b, list):
                out.append(block(b))
        for h in getattr(st, 'handlers', ()):
            out.append(block(h.body))
        return tuple(out)
    return block(fn.body) if isinstance(getattr(fn, 'body', None), list) else ()


def only_moved(ref, cur):
    """the same statements and conditions, some of them in another place"""
    def parts(fn):
        out = []
        stack = list(fn.body)
        while stack:
            st = stack.pop()
            if isinstance(st, ast.Pass) or isinstance(st, ast.Expr) and isinstance(
                    st.value, ast.Constant):
                continue
            inner = [b for f in ('body', 'orelse', 'finalbody')
                     for b in [getattr(st, f, None)] if isinstance(b, list)]
            inner += [h.body for h in getattr(st, 'handlers', ())]
            if not inner:
                out.append(ast.dump(st))
                continue
            for b in inner:
                stack.extend(b)
            out.append(type(st).__name__ + ''.join(
                ast.dump(x) for f, v in ast.iter_fields(st)
                if f not in ('body', 'orelse', 'finalbody', 'handlers')
                for x in (v if isinstance(v, list) else [v]) if isinstance(x, ast.AST)))
        return sorted(out)
    if not isinstance(getattr(ref, 'body', None), list) or not isinstance(
            getattr(cur, 'body', None), list):
        return False
    return ast.dump(ref.args) == ast.dump(cur.args) and parts(ref) == parts(cur)


def only_left_out(ref, cur):
    """the function is the reference with statements left out, everything else untouched"""
    def blocks(st):
        out = [b for f in ('body', 'orelse', 'finalbody')
               for b in [getattr(st, f, None)] if isinstance(b, list)]
        return out + [h.body for h in getattr(st, 'handlers', ())]

    def heads(st):
        out = [type(st).__name__, len(getattr(st, 'handlers', ()))]
        for f, v in ast.iter_fields(st):
            if f in ('body', 'orelse', 'finalbody', 'handlers'):
                continue
            if isinstance(v, ast.AST):
                out.append(ast.dump(v))
            elif isinstance(v, list):
                out.append([ast.dump(x) if isinstance(x, ast.AST) else x for x in v])
            else:
                out.append(v)
        return out

    def same(a, b):
        if heads(a) != heads(b):
            return False
        ba, bb = blocks(a), blocks(b)
        return len(ba) == len(bb) and all(block(x, y) for x, y in zip(ba, bb))

    def block(a, b):
        b = [x for x in b if not isinstance(x, ast.Pass)]
        i = 0
        for st in b:
            while i < len(a) and not same(a[i], st):
                i += 1
            if i == len(a):
                return False
            i += 1
        return True
    if not isinstance(getattr(ref, 'body', None), list) or not isinstance(
            getattr(cur, 'body', None), list):
        return False
    return ast.dump(ref.args) == ast.dump(cur.args) and block(ref.body, cur.body)


# ---------------------------------------------------------------- which of several wins

def tables(fn):
    """(sites where the first value for a key stays, sites where the last one does); only keys
    that may come up several times"""
    first, last = [], []

    def repeats(key, loops):
        names = {n.id for n in ast.walk(key) if isinstance(n, ast.Name)}
        if isinstance(key, ast.Name):
            if ('value', key.id) in set().union(*loops):
                return True
            # the key of a table, or a number: once only
            return sum(1 for t in loops) > 1 and any(key.id in t for t in loops[1:])
        return bool(names & set().union(*loops)) if loops else False

    def target(t, it):
        out = {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}
        if isinstance(t, ast.Tuple) and len(t.elts) == 2 and isinstance(it, ast.Call) \
                and isinstance(it.func, ast.Attribute) and it.func.attr == 'items':
            # several keys of a table may have the same value
            out |= {('value', n.id) for n in ast.walk(t.elts[1]) if isinstance(n, ast.Name)}
        return out

    def empty(v):
        return isinstance(v, (ast.List, ast.Dict, ast.Tuple)) and not getattr(
            v, 'elts', getattr(v, 'keys', None)) or isinstance(v, ast.Call) and not v.args

    def block(stmts, loops, guard):
        for s in stmts:
            if isinstance(s, (ast.For, ast.AsyncFor)):
                block(s.body, loops + [target(s.target, s.iter)], guard)
                block(s.orelse, loops, guard)
                continue
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(
                    s.value.func, ast.Attribute) and s.value.func.attr == 'setdefault' \
                    and len(s.value.args) == 2 and not empty(s.value.args[1]) \
                    and repeats(s.value.args[0], loops):
                first.append(s)
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
                    s.targets[0], ast.Subscript) and loops and repeats(s.targets[0].slice, loops):
                k = ast.dump(s.targets[0].slice)
                (first if k in guard else last).append(s)
            for x in ast.walk(s) if not isinstance(s, (ast.If, ast.With, ast.Try, ast.While)) else ():
                if isinstance(x, ast.DictComp) and repeats(
                        x.key, loops + [target(g.target, g.iter) for g in x.generators]):
                    last.append(x)
            if isinstance(s, ast.If):
                t = s.test
                g = {ast.dump(t.left)} if isinstance(t, ast.Compare) and isinstance(
                    t.ops[0], ast.NotIn) else set()
                block(s.body, loops, guard | g)
                block(s.orelse, loops, guard)
            elif isinstance(s, (ast.With, ast.While)):
                block(s.body, loops, guard)
            elif isinstance(s, ast.Try):
                block(s.body + s.orelse + s.finalbody, loops, guard)
                for h in s.handlers:
                    block(h.body, loops, guard)

    block(fn.body, [], set())
    return first, last


def other_wins(ref, cur):
    a, b = tables(ref), tables(cur)
    if not a[0] and a[1] and b[0] and not b[1]:
        return 'the last value given for a key stays -> the first one: %s' % ast.unparse(b[0][0])
    if a[0] and not a[1] and not b[0] and b[1]:
        return 'the first value given for a key stays -> the last one: %s' % ast.unparse(b[1][0])
    return None


def fed(xs):
    """(f, g): a result of the package's function g is part of what its function f is given"""
    out = set()
    inner = {}

    def names(y):
        if isinstance(y, tuple):
            return frozenset().union(*[names(z) for z in y]) if y else frozenset()
        if isinstance(y, B):
            return frozenset().union(*[names(z) for z in atoms_of(y)]) if y.var is not None \
                else frozenset()
        if not isinstance(y, T):
            return frozenset()
        if y.id not in inner:
            inner[y.id] = frozenset()
            got = names(tuple(a for a in y.args if isinstance(a, (T, B, tuple))))
            if y.op == 'call' and y.args[0].op == 'ofunc':
                got = got | {y.args[0].args[0]}
            inner[y.id] = got
        return inner[y.id]
    for y in all_terms(xs):
        if y.op == 'call' and y.args[0].op == 'ofunc':
            for g in names(tuple(a for a in y.args[1:] if isinstance(a, (T, B, tuple)))):
                out.add((y.args[0].args[0], g))
    return out


def fed_backwards(ref, cur):
    """what one function makes was given to another one: now it is the other way round"""
    a, b = fed(ref), fed(cur)
    return sorted((f, g) for f, g in a - b if f != g and (g, f) in b and (g, f) not in a)


ZIPS = {'zip', 'itertools.zip_longest'}


def side_by_side(xs):
    """pairs of values gone through in step; pairs where the elements of one are looked up in
    the other, wherever they stand"""
    steps, lookups = set(), set()
    for y in all_terms(xs):
        if y.op == 'zip' or y.op == 'call' and y.args[0].op == 'ext' and y.args[0].args[0] in ZIPS:
            vals = [x for a in y.args for x in (a if isinstance(a, tuple) else (a,))
                    if isinstance(x, T) and simple(x)]
            steps |= {(a, b) for a in vals for b in vals if a is not b}
        elif y.op == 'in' and y.args[0].op == 'elem' and isinstance(y.args[0].args[0], T) \
                and isinstance(y.args[1], T):
            lookups.add((y.args[0].args[0], y.args[1]))
    return steps, lookups


def step_to_lookup(ref, cur):
    (sa, la), (sb, lb) = side_by_side(ref), side_by_side(cur)
    return sorted(((a, b) for a, b in lb if (a, b) in sa and (a, b) not in sb and (a, b) not in la),
                  key=lambda p: (p[0].id, p[1].id))
