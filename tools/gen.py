"""Write properties.jsonl and MANIFEST.json from mc/catalog.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from mc import catalog
PY = '/opt/venv/bin/python'
built = {p['id'] for p in catalog.P
         if os.path.exists(os.path.join(HERE, 'mc', 'props', p['id'].lower() + '.py'))}
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in catalog.P:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': p['mechanism'],
                        'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
man = {
    'version': 1,
    'setup_cmd': PY + ' check.py --selftest',
    'checks': [{'property': p['id'],
                'quick_cmd': '%s check.py %s' % (PY, p['id']),
                'thorough_cmd': 'VERIF_TIER=thorough %s check.py %s' % (PY, p['id']),
                'evidence_file': 'evidence/%s.json' % p['id'],
                'technique': p['technique'],
                'level': 'fault_enumeration' if p['id'] == 'C21' else 'model_checking',
                'level_note': p['note']} for p in catalog.P if p['id'] in built],
    'not_applicable': [{'property': p['id'], 'reason': 'check not built yet'}
                       for p in catalog.P if p['id'] not in built],
    'notes': 'No hooks in /repo: nondeterminism is taken over by replacing the '
             'functions of the random module before the library is imported. '
             'See DESIGN.md.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(catalog.P), 'properties,', len(built), 'checks')
