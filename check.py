#!/usr/bin/env python3
"""Decide one property: check.py <id> [--tier quick|thorough]

Reads /repo's current source (never imports or runs it), writes evidence/<id>.json and, when
the property is violated, evidence/<id>.report.txt; exit 0 held, 1 violated, 2 the analysis
itself is broken.
"""
import argparse
import json
import os
import sys
import time
import traceback
from fnmatch import fnmatchcase

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from props import BY_ID  # noqa: E402
from sa.model import Program, AnalysisBroken, REPO, PACKAGE  # noqa: E402
from sa.conform import Conformance, EQUAL, REFUTED, UNKNOWN  # noqa: E402
from sa import rules as rules_mod  # noqa: E402
from sa.filters import FILTERS  # noqa: E402

REFERENCE = os.path.join(HERE, 'spec', 'reference')
EVIDENCE = os.path.join(HERE, 'evidence')
FINDINGS = os.path.join(HERE, 'known-findings.txt')


def cone_of(prop, ref):
    n = len(PACKAGE) + 1
    cone = set()
    for pat in prop['cone']:
        neg, pt = pat.startswith('!'), pat.lstrip('!')
        m = {q for q in ref.funcs if fnmatchcase(q[n:], pt)}
        if not m:
            raise AnalysisBroken('no function matches %s' % pat)
        cone = cone - m if neg else cone | m
    return cone


def known_findings(pid):
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS, encoding='utf-8'):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                out.append(line.split(' ', 2)[2])
    return out


def conform_all(prop, conf, ref, cur):
    """verdicts for the cone; functions that are gone are represented by their users"""
    todo = sorted(cone_of(prop, ref))
    done = {}
    while todo:
        q = todo.pop()
        if q in done:
            continue
        v = conf.verdict(q)
        done[q] = v
        if v.status in ('GONE', 'CHANGED-INTERFACE'):
            for u in sorted(conf.ref_users(q)):
                if u not in done:
                    todo.append(u)
    return done


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'),
                    choices=['quick', 'thorough'])
    args = ap.parse_args(argv)
    prop = BY_ID[args.property]
    t0 = time.time()
    ref = Program(REFERENCE)
    cur = Program(REPO)
    conf = Conformance(cur, ref)
    violations, unknowns, samples = [], [], []
    verdicts = conform_all(prop, conf, ref, cur)
    flt = FILTERS.get(prop['id'])
    counts = {}
    for q in sorted(verdicts):
        v = verdicts[q]
        status = v.status
        if status == REFUTED and flt is not None and not flt(conf, v):
            status = 'OTHER-CHANGE'
        counts[status] = counts.get(status, 0) + 1
        f = conf.pair.resolve('cur', q)
        where = f.where if f is not None else '(absent)'
        short = q[len(PACKAGE) + 1:]
        if status == REFUTED:
            violations.append({
                'rule': 'conformance', 'construct': short, 'where': where, 'what': v.why,
                'detail': v.result.text() if v.result else ''})
        elif status == UNKNOWN:
            unknowns.append('%s: %s' % (short, v.why))
        elif len(samples) < 6 and v.result is not None and v.result.cur is not None:
            s = v.result.cur
            samples.append('%s (%s): %d effects, %d functions entered, %s' % (
                short, where, len(s.effects), len(s.stats['functions_entered']), v.why))
    rule_info = {}
    rc = rules_mod.Context(cur, ref, conf, prop, verdicts)
    for name in ['class_structure'] + prop['rules']:
        rule = getattr(rules_mod, 'rule_' + name)
        r = rule(rc)
        rule_info[name] = {'rule': (rule.__doc__ or '').strip().replace('\n', ' '),
                           'instances': r.instances, 'notes': r.notes[:10]}
        if r.instances < r.minimum:
            raise AnalysisBroken('rule %s matched %d instances, expected at least %d' % (
                name, r.instances, r.minimum))
        violations.extend(r.violations)
        unknowns.extend(r.unknowns)
    if args.tier == 'thorough':
        rule_info['thorough'] = thorough(conf, verdicts, cur)
    known = known_findings(prop['id'])
    new = []
    for v in violations:
        key = '%s %s' % (v['rule'], v['construct'])
        k = [x for x in known if x.startswith(key)]
        if k:
            print('KNOWN-FINDING: property=%s %s' % (prop['id'], k[0]))
        else:
            new.append(v)
    os.makedirs(EVIDENCE, exist_ok=True)
    evidence = {
        'property': prop['id'], 'tier': args.tier, 'seed': int(os.environ.get('VERIF_SEED', '0')),
        'level': 'translation_validation',
        'coverage': {
            'programs': len(verdicts),
            'disagreements_checked': sum(
                1 for v in verdicts.values() if v.result is not None and v.result.diffs) + sum(
                    r['instances'] for r in rule_info.values() if 'instances' in r),
            'samples': samples or ['(none)'],
            'verdicts': counts,
            'undecided': unknowns[:40],
            'rules': rule_info,
            'modules_parsed': len(cur.modules), 'functions_parsed': len(cur.funcs),
            'steps': sum(v.result.cur.stats['steps'] for v in verdicts.values()
                         if v.result is not None and v.result.cur is not None),
            'functions': sorted(q[len(PACKAGE) + 1:] for q in verdicts),
        },
        'assumptions': [
            'the reviewed reference semantics under spec/reference has the property (argued in '
            'DESIGN.md)',
            'third party functions are deterministic up to their listed effects; attribute access '
            'has no side effect; annotations of parameters are right',
        ],
        'wall_s': round(time.time() - t0, 3), 'violations': len(new),
    }
    with open(os.path.join(EVIDENCE, prop['id'] + '.json'), 'w', encoding='utf-8') as fp:
        json.dump(evidence, fp, indent=1)
    for u in unknowns[:20]:
        print('UNDECIDED %s' % u)
    report = os.path.join(EVIDENCE, prop['id'] + '.report.txt')
    if os.path.exists(report):
        os.remove(report)
    if new:
        with open(report, 'w', encoding='utf-8') as fp:
            fp.write('property %s: %s\n\n%s\n\n' % (prop['id'], prop['title'], prop['statement']))
            for v in new:
                fp.write('[%s] %s at %s\n  %s\n%s\n\n' % (
                    v['rule'], v['construct'], v['where'], v['what'], v.get('detail', '')))
        for v in new:
            print('%s: [%s] %s: %s' % (v['where'], v['rule'], v['construct'], v['what'][:300]))
        print('VIOLATION property=%s replay=%s' % (prop['id'], report))
        return 1
    print('property %s held: %d functions, %s, rules %s (%.1fs)' % (
        prop['id'], len(verdicts), counts,
        {k: r.get('instances') for k, r in rule_info.items()}, time.time() - t0))
    return 0


def thorough(conf, verdicts, cur):
    """every function of the cone again with its callees entered in place (no cut points one
    level down): agreement must not rest on the cut points alone"""
    again, agree, limit = 0, 0, 0
    bad = []
    for q, v in sorted(verdicts.items()):
        if v.status != EQUAL:
            continue
        callees = sorted(m for m in (conf.mentions('ref', q) or ()) if m in conf.pair.common)
        if not callees:
            continue
        again += 1
        r = conf.pair.compare(q, inline=tuple(callees))
        if r.status == EQUAL:
            agree += 1
        elif r.status == UNKNOWN:
            limit += 1
        else:
            bad.append(q)
    return {'reentered': again, 'agree': agree, 'budget_exceeded': limit, 'differ': bad}


if __name__ == '__main__':
    try:
        sys.exit(main())
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN %s' % e)
        sys.exit(2)
    except Exception:  # pylint: disable=broad-except
        traceback.print_exc()
        sys.exit(2)
