"""Write properties.jsonl and MANIFEST.json from props.py."""
import json
import os
import sys

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, HERE)
from props import PROPERTIES, NOT_APPLICABLE  # noqa: E402


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w', encoding='utf-8') as f:
        for p in PROPERTIES + NOT_APPLICABLE:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': p['mechanism'],
                            'observe_at': p['observe'], 'hook_needed': None},
            }) + '\n')
    checks = []
    for p in PROPERTIES:
        checks.append({
            'property': p['id'],
            'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
            'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
            'technique': 'static analysis: gated value graph equivalence of the %s functions '
                         'carrying the property with reviewed reference semantics%s' % (
                             'listed', ('; rules: ' + ', '.join(p['rules'])) if p['rules'] else ''),
            'level': 'translation_validation',
            'level_note': 'Decided from the source on every run, for all inputs at once: each '
                          'function is summarised (values, guards, effects) and must denote the '
                          'same summary as the reviewed reference; a difference is reported only '
                          'if it is definite and visible to the users of the function. Trusts the '
                          'review of the reference, the summary construction and that third party '
                          'calls behave alike when given the same arguments. Differences that '
                          'rest on constructs the normal form does not interpret are listed as '
                          'undecided in the evidence.',
        })
    manifest = {
        'version': 1,
        'setup_cmd': 'python3 -m compileall -q sa props.py check.py',
        'checks': checks,
        'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NOT_APPLICABLE],
        'notes': 'No hooks: the checks parse /repo and never run it. Known findings and fixes: '
                 'known-findings.txt. Generated by tools/gen.py from props.py.',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
