"""Writes properties.jsonl and MANIFEST.json from tools/catalog.py."""
import json
import os
import re
import sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from catalog import P, NOT_APPLICABLE  # noqa

root = os.path.dirname(here)

with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        n = len(re.findall(r'[.](?:\s|$)', p['statement']))
        assert n <= 3, (p['id'], n)
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {
                'files': p['files'],
                'mechanism': [
                    {'name': n, 'where': w} for n, w in p['mechanism']],
                'state': [], 'observe_at': p['observe'],
                'hook_needed': None,
            },
        }) + '\n')

json.dump({
    'version': 1,
    'setup_cmd': 'python3-vt -m compileall -q harness && '
                 'python3-vt -c "import hypothesis"',
    'checks': [{
        'property': p['id'],
        'quick_cmd': './check %s quick' % p['id'],
        'thorough_cmd': './check %s thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': p['technique'],
        'level': 'exploration',
        'level_note': (
            'Generated cases from VERIF_SEED against an explicit oracle; '
            'counts, label distribution and samples are in the evidence. '
            'Absence of a violation is not a proof. Trusts: %s; Hypothesis '
            'and the Python standard library.' % p['trusts']),
    } for p in P],
    'not_applicable': NOT_APPLICABLE,
    'notes': 'No hooks: everything is observed through the public '
             'interfaces. tools/generate.py writes this file and '
             'properties.jsonl from tools/catalog.py. Each failing case is '
             'shrunk and written to replays/; ./check ID --replay FILE runs '
             'it again.',
}, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
