"""Which definite differences concern a property whose cone is wider than its subject."""
from .conform import features
from .flow import MUTATORS

NONDET = {'ext:set', 'ext:frozenset', 'ext:hash', 'ext:id', 'ext:os.getcwd', 'ext:os.listdir',
          'ext:os.environ', 'ext:os.getenv', 'ext:os.getpid', 'ext:glob.glob', 'mcall:pop',
          'ext:concurrent.futures.as_completed', 'ext:sorted', 'mcall:sort', 'ext:object',
          'ext:threading.get_ident', 'ext:datetime.datetime.now', 'ext:datetime.datetime.utcnow'}
NONDET_PREFIX = ('ext:random', 'ext:time.', 'ext:uuid', 'ext:secrets', 'ext:numpy.random',
                 'ext:datetime', 'ext:os.urandom', 'ext:multiprocessing')


def has_set(x):
    from .terms import T, B, atoms_of
    seen, stack = set(), [x]
    while stack:
        y = stack.pop()
        if isinstance(y, tuple):
            stack.extend(y)
        elif isinstance(y, B):
            if y.var is not None and y.id not in seen:
                seen.add(y.id)
                stack.extend(atoms_of(y))
        elif isinstance(y, T) and y.id not in seen:
            seen.add(y.id)
            if y.op == 'seq' and y.args[0] == 'set':
                return True
            stack.extend(a for a in y.args if isinstance(a, (T, B, tuple)))
    return False


def parts(s):
    return tuple([s.ret, s.live] + [x for e in s.effects if e.kind != 'log'
                                    for x in (e.term, e.gate, e.loops)])


def nondeterminism(conf, v):
    r, c = v.result.ref, v.result.cur
    fr, fc = features(parts(r)), features(parts(c))
    d = fr ^ fc
    if any(f in NONDET or f.startswith(NONDET_PREFIX) for f in d):
        return True
    return has_set(parts(c)) != has_set(parts(r))


TAGGING = ('set_tag', 'set_sub_tag', 'set_tag_only', 'set_sub_tag_only', 'set_tag_with_prefix',
           'set_sub_tag_with_prefix', 'set_preserved_tag', '_set_preserved_tag')


def nontag_effects(conf, v):
    for d in v.result.diffs:
        if not d[0].startswith('effect'):
            continue
        e, leaf = d[1][1], d[1][2]
        if e.kind in ('store', 'setitem', 'del'):
            return True
        if e.kind == 'mcall' and leaf.args[1] in MUTATORS:
            return True
        if e.kind == 'mcall' and leaf.args[1] in ('remove_all_untagged',):
            return True
        if e.kind == 'call' and leaf.op == 'call' and leaf.args[0].op == 'ofunc' \
                and leaf.args[0].args[0].rpartition('.')[2] not in TAGGING:
            return True
    return False


FILTERS = {'A18': nondeterminism, 'A08': nontag_effects}
