"""Robustness measurement: behaviour-preserving rewrites of every function, in memory only.

usage: refactor.py [function substring] [kind] - prints rewrites that are not seen as equal.
"""
import ast
import copy
import os
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from sa.model import Program, Func  # noqa
from sa.conform import Conformance  # noqa
from sa.compare import EQUAL, UNKNOWN, DIFF  # noqa


def names_stored(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(
        n.ctx, (ast.Store, ast.Del))} | {
            n.name for n in ast.walk(node) if isinstance(n, ast.ExceptHandler) and n.name}


def names_loaded(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}


def params(fn):
    a = fn.args
    out = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if a.vararg:
        out.append(a.vararg.arg)
    if a.kwarg:
        out.append(a.kwarg.arg)
    return out


def local_names(fn):
    return set(params(fn)) | names_stored(fn)


def has_flow(stmts):
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom,
                              ast.Raise)):
                return True
    return False


def terminates(stmts):
    return bool(stmts) and isinstance(stmts[-1], (ast.Return, ast.Continue, ast.Break, ast.Raise))


def bodies(fn):
    for n in ast.walk(fn):
        for field in ('body', 'orelse', 'finalbody'):
            b = getattr(n, field, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, field, b


def nested_scope(fn):
    s = set()
    for n in ast.walk(fn):
        if n is not fn and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.SetComp,
                                          ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                s.add(id(x))
    return s


def rewrites(fn, qual):
    """(kind, new function node, [extra module level functions])"""
    n_nodes = len(list(ast.walk(fn)))

    def nodes():
        c = copy.deepcopy(fn)
        return c, list(ast.walk(c))
    orig = list(ast.walk(fn))
    scoped = nested_scope(fn)
    loc = local_names(fn)
    has_nested = any(isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn for n in orig)
    # rename locals
    c, _ = nodes()
    ren = {x for x in names_stored(fn)} - set(params(fn))
    for n in orig:
        if n is not fn and isinstance(n, (ast.Lambda, ast.FunctionDef)):
            ren -= set(params(n))
    nonlocal_ = any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in orig)
    if ren and not nonlocal_:
        for n in ast.walk(c):
            if isinstance(n, ast.Name) and n.id in ren:
                n.id = n.id + '_r'
            elif isinstance(n, ast.ExceptHandler) and n.name in ren:
                n.name += '_r'
        yield 'rename', c, []
    # no-op statements
    c, _ = nodes()
    for n, f, b in list(bodies(c)):
        if not isinstance(n, ast.ClassDef):
            getattr(n, f).insert(0 if not (isinstance(b[0], ast.Expr) and isinstance(
                b[0].value, ast.Constant)) else 1, ast.parse('_unused = None').body[0])
    yield 'noop', c, []
    for i, n in enumerate(orig):
        if isinstance(n, ast.If) and n.orelse:
            c, ns = nodes()
            m = ns[i]
            m.test = ast.UnaryOp(ast.Not(), m.test)
            m.body, m.orelse = m.orelse, m.body
            yield 'invert', c, []
        if isinstance(n, ast.If) and isinstance(n.test, ast.BoolOp) and isinstance(
                n.test.op, ast.And) and not n.orelse:
            c, ns = nodes()
            m = ns[i]
            inner = ast.If(ast.BoolOp(ast.And(), m.test.values[1:]) if len(m.test.values) > 2
                           else m.test.values[1], m.body, [])
            m.test = m.test.values[0]
            m.body = [inner]
            yield 'nestif', c, []
        if isinstance(n, (ast.If, ast.While)) and isinstance(n.test, ast.BoolOp):
            c, ns = nodes()
            m = ns[i]
            m.test = ast.UnaryOp(ast.Not(), ast.BoolOp(
                ast.Or() if isinstance(n.test.op, ast.And) else ast.And(),
                [ast.UnaryOp(ast.Not(), v) for v in m.test.values]))
            yield 'demorgan', c, []
        if isinstance(n, ast.If) and id(n) not in scoped:
            c, ns = nodes()
            for p, f, b in list(bodies(c)):
                if ns[i] in b:
                    k = b.index(ns[i])
                    t = ns[i].test
                    b.insert(k, ast.Assign([ast.Name('_cond', ast.Store())], t))
                    ns[i].test = ast.Name('_cond', ast.Load())
                    if not (isinstance(p, ast.If) and f == 'orelse' and len(b) == 2 and False):
                        yield 'condvar', c, []
                    break
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in (
                ast.Lt, ast.Gt, ast.LtE, ast.GtE):
            c, ns = nodes()
            m = ns[i]
            flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
            m.left, m.comparators, m.ops = m.comparators[0], [m.left], [flip[type(n.ops[0])]()]
            yield 'flipcmp', c, []
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            neg = {ast.Lt: ast.GtE, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.GtE: ast.Lt,
                   ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In,
                   ast.Is: ast.IsNot, ast.IsNot: ast.Is}
            if type(n.ops[0]) in neg:
                c, ns = nodes()
                for p in ast.walk(c):
                    for fld, val in ast.iter_fields(p):
                        if val is ns[i]:
                            ns[i].ops = [neg[type(n.ops[0])]()]
                            setattr(p, fld, ast.UnaryOp(ast.Not(), ns[i]))
                            yield 'negcmp', c, []
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and isinstance(
                n.op, (ast.Add, ast.Sub)):
            c, ns = nodes()
            for p, f, b in list(bodies(c)):
                if ns[i] in b:
                    k = b.index(ns[i])
                    b[k] = ast.Assign([ast.Name(n.target.id, ast.Store())], ast.BinOp(
                        ast.Name(n.target.id, ast.Load()), n.op, ns[i].value))
                    yield 'augassign', c, []
                    break
        if isinstance(n, ast.While):
            c, ns = nodes()
            m = ns[i]
            m.body.insert(0, ast.If(ast.UnaryOp(ast.Not(), m.test), [ast.Break()], []))
            m.test = ast.Constant(True)
            yield 'whiletrue', c, []
        # comprehension -> loop
        if isinstance(n, (ast.Return, ast.Assign)) and isinstance(
                n.value, (ast.ListComp, ast.SetComp, ast.DictComp)) and id(n) not in scoped:
            if isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name):
                continue
            c, ns = nodes()
            m = ns[i]
            comp = m.value
            if isinstance(comp, ast.ListComp):
                init = ast.List([], ast.Load())
                add = ast.parse('_acc.append(x)').body[0]
                add.value.args[0] = comp.elt
            elif isinstance(comp, ast.SetComp):
                init = ast.Call(ast.Name('set', ast.Load()), [], [])
                add = ast.parse('_acc.add(x)').body[0]
                add.value.args[0] = comp.elt
            else:
                init = ast.Dict([], [])
                add = ast.parse('_acc[k] = v').body[0]
                add.targets[0].slice = comp.key
                add.value = comp.value
            body = [add]
            for g in reversed(comp.generators):
                for cond in reversed(g.ifs):
                    body = [ast.If(cond, body, [])]
                body = [ast.For(g.target, g.iter, body, [])]
            for p, f, b in list(bodies(c)):
                if m in b:
                    k = b.index(m)
                    m.value = ast.Name('_acc', ast.Load())
                    b[k:k] = [ast.Assign([ast.Name('_acc', ast.Store())], init)] + body
                    yield 'comp2loop', c, []
                    break
        # statements with if expression
        if isinstance(n, (ast.Return, ast.Assign)) and isinstance(n.value, ast.IfExp) \
                and id(n) not in scoped:
            c, ns = nodes()
            m = ns[i]
            ie = m.value
            for p, f, b in list(bodies(c)):
                if m in b:
                    k = b.index(m)
                    m1, m2 = copy.deepcopy(m), copy.deepcopy(m)
                    m1.value, m2.value = ie.body, ie.orelse
                    b[k] = ast.If(ie.test, [m1], [m2])
                    yield 'ifexp2if', c, []
                    break
        # any / all -> loop in helper form
        if isinstance(n, ast.Return) and isinstance(n.value, ast.Call) and isinstance(
                n.value.func, ast.Name) and n.value.func.id in ('any', 'all') and len(
                    n.value.args) == 1 and isinstance(n.value.args[0], ast.GeneratorExp):
            c, ns = nodes()
            m = ns[i]
            is_any = m.value.func.id == 'any'
            comp = m.value.args[0]
            test = comp.elt if is_any else ast.UnaryOp(ast.Not(), comp.elt)
            body = [ast.If(test, [ast.Return(ast.Constant(is_any))], [])]
            for g in reversed(comp.generators):
                for cond in reversed(g.ifs):
                    body = [ast.If(cond, body, [])]
                body = [ast.For(g.target, g.iter, body, [])]
            for p, f, b in list(bodies(c)):
                if m in b:
                    k = b.index(m)
                    b[k:k + 1] = body + [ast.Return(ast.Constant(not is_any))]
                    yield 'any2loop', c, []
                    break
        # keyword arguments to positional order change: reverse keywords
        if isinstance(n, ast.Call) and len(n.keywords) > 1 and all(k.arg for k in n.keywords):
            c, ns = nodes()
            ns[i].keywords.reverse()
            yield 'kworder', c, []
        # extract return expression / assigned expression into a helper
        if isinstance(n, (ast.Return, ast.Assign)) and n.value is not None and not isinstance(
                n.value, (ast.Constant, ast.Name)) and id(n) not in scoped and not any(
                    isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr))
                    for x in ast.walk(n.value)):
            if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'super'
                   for x in ast.walk(n.value)):
                continue
            c, ns = nodes()
            m = ns[i]
            fv = sorted(names_loaded(m.value) & loc)
            h = ast.parse('def _helper_x(%s):\n    return 0' % ', '.join(fv)).body[0]
            h.body[0].value = m.value
            m.value = ast.Call(ast.Name('_helper_x', ast.Load()),
                               [ast.Name(x, ast.Load()) for x in fv], [])
            yield 'extractexpr', c, [h]
    # early return: if c: ...terminates; rest -> else: rest
    for bi, (p, f, b) in enumerate(list(bodies(fn))):
        for k, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and terminates(s.body) and k + 1 < len(b):
                c, _ = nodes()
                b2 = list(bodies(c))[bi][2]
                b2[k].orelse = b2[k + 1:]
                del b2[k + 1:]
                yield 'elsewrap', c, []
            if isinstance(s, ast.If) and s.orelse and terminates(s.body) and k + 1 == len(b):
                c, _ = nodes()
                b2 = list(bodies(c))[bi][2]
                rest = b2[k].orelse
                b2[k].orelse = []
                b2.extend(rest)
                yield 'unelse', c, []
        # continue -> nested if inside loops
        if isinstance(p, (ast.For, ast.While)) and f == 'body':
            for k, s in enumerate(b):
                if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(
                        s.body[0], ast.Continue) and k + 1 < len(b):
                    c, _ = nodes()
                    b2 = list(bodies(c))[bi][2]
                    b2[k].test = ast.UnaryOp(ast.Not(), b2[k].test)
                    b2[k].body = b2[k + 1:]
                    del b2[k + 1:]
                    yield 'uncontinue', c, []
        # extract loop body or if body / block tail as helper procedure
        if p is not fn and isinstance(p, (ast.For, ast.If)) and not has_flow(b) and not has_nested:
            stored = set()
            for s in b:
                stored |= names_stored(s)
            outside = set()
            inner_ids = set()
            for s in b:
                for x in ast.walk(s):
                    inner_ids.add(id(x))
            for x in ast.walk(fn):
                if isinstance(x, ast.Name) and id(x) not in inner_ids and isinstance(
                        x.ctx, ast.Load):
                    outside.add(x.id)
            loaded = set()
            for s in b:
                loaded |= names_loaded(s)
            if any(isinstance(x, ast.AugAssign) for s in b for x in ast.walk(s)):
                loaded |= {x.target.id for s in b for x in ast.walk(s)
                           if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
            if isinstance(p, ast.For) and any(
                    x in loaded and (x in params(fn) or _def_before(fn, b, x)) and x not in outside
                    for x in stored):
                continue
            out = sorted(stored & outside)
            in_loop_carried = stored & loaded
            if any(isinstance(x, ast.Name) and x.id == 'super' for s in b for x in ast.walk(s)):
                continue
            fv = sorted((loaded | set(out)) & loc - (stored - set(out) - set()))
            c, _ = nodes()
            b2 = list(bodies(c))[bi][2]
            # a stored name read before assignment must be a parameter; conservative: pass all
            first_store_only = [x for x in out if x not in in_loop_carried]
            fv = [x for x in fv if x not in first_store_only]
            carried_local = [x for x in stored - set(out) if x in loaded]
            if isinstance(p, ast.For) and carried_local:
                pass
            if out and isinstance(p, ast.If):
                # conditional stores only: value must exist on the other path; keep simple
                pass
            h = ast.parse('def _helper_b(%s):\n    pass' % ', '.join(fv)).body[0]
            h.body = list(b2)
            call = ast.Call(ast.Name('_helper_b', ast.Load()),
                            [ast.Name(x, ast.Load()) for x in fv], [])
            if any(x in stored and x in fv and x not in params(fn) and not _def_before(fn, b, x)
                   for x in fv):
                continue
            if out:
                tgt = ast.Tuple([ast.Name(x, ast.Store()) for x in out], ast.Store()) \
                    if len(out) > 1 else ast.Name(out[0], ast.Store())
                val = ast.Tuple([ast.Name(x, ast.Load()) for x in out], ast.Load()) \
                    if len(out) > 1 else ast.Name(out[0], ast.Load())
                if any(not _definitely(b, x) and x not in fv for x in out):
                    continue
                h.body.append(ast.Return(val))
                b2[:] = [ast.Assign([tgt], call)]
            else:
                b2[:] = [ast.Expr(call)]
            yield 'extractblock', c, [h]


def _definitely(b, x):
    return any(isinstance(s, ast.Assign) and any(
        isinstance(t, ast.Name) and t.id == x for tt in s.targets for t in ast.walk(tt)) for s in b)


def _def_before(fn, b, x):
    for s in ast.walk(fn):
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.For)) and s.lineno < b[0].lineno:
            if x in names_stored(s):
                return True
    return False


def main():
    pat = sys.argv[1] if len(sys.argv) > 1 else ''
    only = sys.argv[2] if len(sys.argv) > 2 else None
    ref = Program(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', 'reference'))
    cur = Program()
    V = Conformance(cur, ref)
    P = V.pair
    V.vocabulary()
    by = {}
    t0 = time.time()
    for q in sorted(P.common):
        if pat not in q:
            continue
        f = cur.funcs[q]
        orig = f.node
        m = f.module
        bad = []
        for kind, node, extra in rewrites(orig, q):
            if only and kind != only:
                continue
            ast.fix_missing_locations(node)
            f.node = node
            f._is_gen = None
            for h in extra:
                ast.fix_missing_locations(h)
                m.functions[h.name] = h
                cur.funcs[m.name + '.' + h.name] = Func(m.name + '.' + h.name, h, m)
            P.cache = {k: v for k, v in P.cache.items() if k[0] != 'cur'}
            try:
                r = P.compare(q)
                st = r.status
                if st == DIFF and not V.definite(r)[0]:
                    st = 'UNK'
                if only and st == DIFF:
                    print(ast.unparse(node))
                    for h in extra:
                        print(ast.unparse(h))
                    print(r.text(3, 600))
                    from sa.compare import first_diffs
                    from sa.terms import show
                    for d in r.diffs:
                        if d[0] == 'return':
                            ds = first_diffs(d[1][1], d[2][1])
                        elif d[0] == 'live':
                            ds = first_diffs(d[1][0], d[2][0])
                        elif d[0] == 'effect-gate':
                            ds = first_diffs(d[1][0], d[2][0])
                        else:
                            continue
                        for pth, x, y in ds:
                            print('   @', pth)
                            print('     REF', show(x, 0, 4)[:700])
                            print('     CUR', show(y, 0, 4)[:700])
                    mi = [d[1] for d in r.diffs if d[0] == 'effect-']
                    pl = [d[1] for d in r.diffs if d[0] == 'effect+']
                    for x, y in zip(mi, pl):
                        for pth, x, y in first_diffs(x[2], y[2]) + first_diffs(x[1].loops, y[1].loops):
                            print('   @E', pth)
                            print('     REF', show(x, 0, 4)[:700])
                            print('     CUR', show(y, 0, 4)[:700])
            except Exception as e:  # pylint: disable=broad-except
                st = 'ERR:' + type(e).__name__ + str(e)[:80]
                if only:
                    raise
            for h in extra:
                del m.functions[h.name]
                del cur.funcs[m.name + '.' + h.name]
            by.setdefault(kind, {}).setdefault(st, 0)
            by[kind][st] += 1
            if st != EQUAL:
                bad.append('%s:%s' % (kind, st))
        f.node = orig
        f._is_gen = None
        if bad:
            print(q.split('.', 1)[1], ' '.join(bad)[:300])
    print(round(time.time() - t0, 1))
    for k, v in sorted(by.items()):
        print('  ', k, v)


if __name__ == '__main__':
    main()
