"""Create and confirm planted bugs.  usage: seed.py SPEC.py [id ...]

SPEC.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo=python source,
needs, what_it_breaks)].  A bug is kept only if the patch applies, the stable tests pass with it,
and the demo passes without and fails with it.  Then every check whose cone could be affected is
run against it and the ids of those reporting are printed.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

REPO = '/repo'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')
WORK = '/tmp/seedwork'
PKG = 'sciencebeam_trainer_grobid_tools/'
PY = '/opt/venv/bin/python'


def sh(cmd, cwd=None, env=None, timeout=600):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          timeout=timeout)


def stable():
    base = json.load(open('/opt/vp/BASELINE.json'))
    for key in ('stable', 'passed', 'tests', 'pass'):
        if isinstance(base, dict) and key in base:
            return base[key]
    return base


def main():
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    only = set(sys.argv[2:])
    for s in seeds:
        if only and s['id'] not in only:
            continue
        out = os.path.join(SEEDED, s['id'])
        shutil.rmtree(WORK, ignore_errors=True)
        subprocess.check_call(['cp', '-a', REPO, WORK])
        bad = None
        for rel, old, new in s['edits']:
            p = os.path.join(WORK, PKG + rel)
            t = open(p, encoding='utf-8').read()
            if t.count(old) != 1:
                bad = 'edit matches %d times in %s: %r' % (t.count(old), rel, old)
                break
            open(p, 'w', encoding='utf-8').write(t.replace(old, new))
        if bad:
            print(s['id'], 'BAD', bad)
            continue
        patch = sh(['git', 'diff'], cwd=WORK).stdout
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'patch.diff'), 'wb').write(patch)
        open(os.path.join(out, 'demo.py'), 'w', encoding='utf-8').write(s['demo'])
        with open(os.path.join(out, 'demo.sh'), 'w', encoding='utf-8') as fp:
            fp.write('#!/bin/bash\n# exit 0: the property holds in this scenario\n'
                     'here="$(cd "$(dirname "$0")" && pwd)"\n'
                     'scratch="$(mktemp -d)"\ntrap \'rm -rf -- "$scratch"\' EXIT\n'
                     'PYTHONPATH="$PWD" SCRATCH="$scratch" timeout %d %s "$here/demo.py"\n' % (
                         s.get('timeout', 120), PY))
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'],
                   'what_it_breaks': s['what_it_breaks']},
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        d0 = sh(['bash', os.path.join(out, 'demo.sh')], cwd=REPO)
        d1 = sh(['bash', os.path.join(out, 'demo.sh')], cwd=WORK)
        try:
            t = sh([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=WORK,
                   env={'PYTHONPATH': WORK}, timeout=90)
        except subprocess.TimeoutExpired:
            print(s['id'], 'REJECTED the tests hang')
            shutil.rmtree(out)
            continue
        tail = t.stdout.decode(errors='replace').strip().splitlines()[-1]
        ok = d0.returncode == 0 and d1.returncode != 0 and t.returncode == 0
        caught = []
        props = [s['property']] + [p for p in sorted(
            m['property'] for m in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks'])
            if p != s['property'] and '--all' in os.environ.get('SEED', '')]
        for p in props:
            r = sh(['python3', os.path.join(HERE, 'check.py'), p], cwd=HERE,
                   env={'SA_REPO': WORK})
            if b'VIOLATION property=%s ' % p.encode() in r.stdout and r.returncode == 1:
                caught.append(p)
            elif r.returncode != 0:
                caught.append(p + '!rc%d' % r.returncode)
        print(s['id'], s['property'], 'CONFIRMED' if ok else 'REJECTED', 'demo %d/%d' % (
            d0.returncode, d1.returncode), tail, 'caught by', caught or 'NONE')
        if not ok:
            print((d0.stdout + b"\n--\n" + d1.stdout).decode(errors="replace")[-500:])
            if t.returncode:
                print(t.stdout.decode(errors="replace")[-400:])
            shutil.rmtree(out)
    shutil.rmtree(WORK, ignore_errors=True)


if __name__ == '__main__':
    main()
