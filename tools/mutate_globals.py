"""Sensitivity measurement, module level: constants, tables, class attributes, parameter defaults,
decorators and bases are changed one at a time in a scratch copy; which properties notice?

usage: mutate_globals.py [module substring]
"""
import ast
import copy
import os
import shutil
import sys
import tempfile
from multiprocessing import Pool

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, HERE)
from sa.model import Program, PACKAGE  # noqa
from sa.conform import Conformance  # noqa
from props import PROPERTIES  # noqa
from check import cone_of, conform_all  # noqa

REF = os.path.join(HERE, 'spec', 'reference')


def sites(tree):
    """(node list index, description, mutation) outside function bodies, and parameter defaults"""
    nodes = list(ast.walk(tree))
    infn = set()
    for n in nodes:
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            body = n.body if isinstance(n.body, list) else [n.body]
            for st in body:
                for x in ast.walk(st):
                    infn.add(id(x))
            for a in ast.walk(n.args):
                if isinstance(a, ast.arg) and a.annotation is not None:
                    for x in ast.walk(a.annotation):
                        infn.add(id(x))
            if getattr(n, 'returns', None) is not None:
                for x in ast.walk(n.returns):
                    infn.add(id(x))
        if isinstance(n, ast.AnnAssign):
            for x in ast.walk(n.annotation):
                infn.add(id(x))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            infn.add(id(n.value))
    for i, n in enumerate(nodes):
        if id(n) in infn or not hasattr(n, 'lineno'):
            continue
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                yield i, 'bool@%d' % n.lineno, lambda m: setattr(m, 'value', not m.value)
            elif isinstance(n.value, str) and n.value != '__main__':
                yield i, 'str@%d %r' % (n.lineno, n.value[:20]), \
                    lambda m: setattr(m, 'value', m.value + 'x')
            elif isinstance(n.value, (int, float)):
                yield i, 'num@%d' % n.lineno, lambda m: setattr(m, 'value', m.value + 1)
            elif n.value is None:
                yield i, 'none@%d' % n.lineno, lambda m: setattr(m, 'value', 0)
        elif isinstance(n, ast.Dict) and len(n.keys) > 1:
            def drop(m):
                del m.keys[-1], m.values[-1]
            yield i, 'dropkey@%d' % n.lineno, drop
        elif isinstance(n, (ast.List, ast.Set)) and len(n.elts) > 1:
            def drope(m):
                del m.elts[-1]
            yield i, 'dropelt@%d' % n.lineno, drope
        elif isinstance(n, ast.FunctionDef) and n.decorator_list:
            yield i, 'undecorate@%d' % n.lineno, lambda m: m.decorator_list.clear()


def one(job):
    rel, i, desc = job
    d = tempfile.mkdtemp(prefix='gm')
    try:
        shutil.copytree(REF, os.path.join(d, 'r'))
        p = os.path.join(d, 'r', rel)
        tree = ast.parse(open(p).read())
        for k, dd, f in sites(tree):
            if k == i and dd == desc:
                f(list(ast.walk(tree))[i])
                break
        open(p, 'w').write(ast.unparse(tree))
        ref, cur = Program(REF), Program(os.path.join(d, 'r'))
        conf = Conformance(cur, ref)
        hit = set()
        unk = set()
        for prop in PROPERTIES:
            for q, v in conform_all(prop, conf, ref, cur).items():
                if v.status == 'REFUTED':
                    hit.add(prop['id'])
                elif v.status != 'EQUAL':
                    unk.add((q[len(PACKAGE) + 1:], v.status))
        return rel, desc, sorted(hit), sorted(unk)[:3]
    except Exception as e:  # pylint: disable=broad-except
        return rel, desc, ['ERROR %s' % e], []
    finally:
        shutil.rmtree(d)


def main():
    sel = sys.argv[1] if len(sys.argv) > 1 else ''
    jobs = []
    for base, _, files in os.walk(os.path.join(REF, PACKAGE)):
        for fn in sorted(files):
            rel = os.path.relpath(os.path.join(base, fn), REF)
            if fn.endswith('.py') and sel in rel:
                tree = ast.parse(open(os.path.join(base, fn)).read())
                jobs += [(rel, i, d) for i, d, _ in sites(copy.deepcopy(tree))]
    missed = 0
    with Pool(8) as pool:
        for rel, desc, hit, unk in pool.imap_unordered(one, jobs):
            if not hit or hit[0].startswith('ERROR'):
                missed += 1
                print('MISSED', rel, desc, hit, unk, flush=True)
    print(len(jobs), 'changes', missed, 'missed')


if __name__ == '__main__':
    main()
