"""Sensitivity measurement: syntactic mutants of the package, in memory only.

usage: mutate.py [function substring] [max]  - prints functions whose mutants are not seen as different.
"""
import ast
import copy
import os
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from sa.model import Program, Func  # noqa
from sa.conform import Conformance
from sa.compare import Pair, EQUAL, UNKNOWN, DIFF  # noqa

SWAP = {
    ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq,
    ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot,
    ast.IsNot: ast.Is, ast.Add: ast.Sub, ast.Sub: ast.Add,
}


def is_log(n):
    return isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(
        n.value.func, ast.Attribute) and isinstance(n.value.func.value, ast.Name) and \
        n.value.func.value.id in ('LOGGER', 'logger')


def mutants(fn):
    """yield (description, mutated function node)"""
    nodes = list(ast.walk(fn))
    skip = set()
    for n in nodes:
        if is_log(n) or isinstance(n, (ast.Raise,)):
            for x in ast.walk(n):
                skip.add(id(x))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.add(id(n.value))
            skip.add(id(n))
        if isinstance(n, (ast.FunctionDef,)):
            for d in n.decorator_list:
                for x in ast.walk(d):
                    skip.add(id(x))
            for arg in ast.walk(n.args):
                skip.add(id(arg))
            if n.returns is not None:
                for x in ast.walk(n.returns):
                    skip.add(id(x))
        if isinstance(n, ast.AnnAssign):
            for x in ast.walk(n.annotation):
                skip.add(id(x))
    idx = {id(n): i for i, n in enumerate(nodes)}
    for i, n in enumerate(nodes):
        if id(n) in skip:
            continue
        line = getattr(n, 'lineno', 0)

        def clone():
            c = copy.deepcopy(fn)
            return c, list(ast.walk(c))[i]
        if isinstance(n, ast.Compare) and type(n.ops[0]) in SWAP:
            c, m = clone()
            m.ops[0] = SWAP[type(n.ops[0])]()
            yield 'cmp@%d' % line, c
        elif isinstance(n, ast.BinOp) and type(n.op) in SWAP:
            c, m = clone()
            m.op = SWAP[type(n.op)]()
            yield 'binop@%d' % line, c
        elif isinstance(n, ast.BoolOp):
            c, m = clone()
            m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            yield 'bool@%d' % line, c
            for k in range(len(n.values)):
                c, m = clone()
                del m.values[k]
                yield 'dropcond%d@%d' % (k, line), c
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            c, m = clone()
            m.op = ast.UAdd()
            yield 'not@%d' % line, c
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            c, m = clone()
            m.value = n.value + 1
            yield 'const@%d' % line, c
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            c, m = clone()
            m.value = not n.value
            yield 'bconst@%d' % line, c
        elif isinstance(n, ast.Constant) and isinstance(n.value, str):
            c, m = clone()
            m.value = n.value + '~'
            yield 'str@%d' % line, c
        elif isinstance(n, (ast.If, ast.While)):
            c, m = clone()
            m.test = ast.Constant(True)
            if isinstance(n, ast.If):
                yield 'iftrue@%d' % line, c
            c, m = clone()
            m.test = ast.Constant(False)
            yield 'iffalse@%d' % line, c
        elif isinstance(n, ast.IfExp):
            c, m = clone()
            m.body, m.orelse = m.orelse, m.body
            yield 'ifexp@%d' % line, c
        elif isinstance(n, ast.comprehension):
            for k in range(len(n.ifs)):
                c, m = clone()
                del m.ifs[k]
                yield 'dropif@%d' % line, c
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and not any(
                isinstance(a, ast.Starred) for a in n.args):
            c, m = clone()
            m.args[0], m.args[1] = m.args[1], m.args[0]
            yield 'swapargs@%d' % line, c
        elif isinstance(n, ast.Break):
            pass
        for field in ('body', 'orelse'):
            lst = getattr(n, field, None)
            if not isinstance(lst, list):
                continue
            for k, s in enumerate(lst):
                if id(s) in skip or is_log(s):
                    continue
                if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Break, ast.Continue,
                                  ast.Return, ast.Raise)) and not (
                        isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                    c, m = clone()
                    b = getattr(m, field)
                    b[k] = ast.copy_location(ast.Pass(), s)
                    yield 'del %s@%d' % (type(s).__name__, s.lineno), c
                    if k + 1 < len(lst) and isinstance(s, (ast.Expr, ast.Assign)) and isinstance(
                            lst[k + 1], (ast.Expr, ast.Assign)) and not is_log(lst[k + 1]):
                        c, m = clone()
                        b = getattr(m, field)
                        b[k], b[k + 1] = b[k + 1], b[k]
                        yield 'SWAPSTMT@%d' % s.lineno, c


def main():
    pat = sys.argv[1] if len(sys.argv) > 1 else ''
    ref = Program(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', 'reference'))
    cur = Program()
    V = Conformance(cur, ref)
    P = V.pair
    V.vocabulary()
    tot = {}
    by = {}
    t0 = time.time()
    for q in sorted(P.common):
        if pat not in q:
            continue
        f = cur.funcs[q]
        orig = f.node
        missed = []
        for desc, node in mutants(orig):
            f.node = node
            f._is_gen = None
            P.cache = {k: v for k, v in P.cache.items() if k[0] != 'cur'}
            try:
                r = P.compare(q)
                st = r.status
                if st == DIFF and V is not None:
                    ok, why = V.definite(r)
                    st = DIFF if ok else 'UNK'
                    if not ok and os.environ.get('SHOW'):
                        print(q, desc, why)
            except Exception as e:  # pylint: disable=broad-except
                st = 'ERR:' + type(e).__name__ + str(e)[:80]
            kind = desc.split('@')[0]
            tot[st] = tot.get(st, 0) + 1
            by.setdefault(kind, {}).setdefault(st, 0)
            by[kind][st] += 1
            if st != DIFF:
                missed.append((desc, st))
        f.node = orig
        f._is_gen = None
        missed = [m for m in missed if not m[0].startswith('SWAPSTMT')]
        if missed:
            print(q.split('.', 1)[1], ' '.join('%s:%s' % m for m in missed)[:300])
    print(tot, round(time.time() - t0, 1))
    for k, v in sorted(by.items()):
        print('  ', k, v)


if __name__ == '__main__':
    main()
