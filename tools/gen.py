import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import defs
V = os.path.dirname(here)
with open(V + '/properties.jsonl', 'w') as f:
    for d in defs.P:
        f.write(json.dumps({'id': d['id'], 'title': d['title'], 'statement': d['statement'],
                            'quantifier': {'over': d['over'], 'text': d['text']}, 'why_tests_cant': d['why'],
                            'anchors': {'files': d['files'], 'mechanism': [{'name': n, 'where': w} for n, w in d['mech']]}}) + '\n')
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
for d in defs.P:
    if d['claim']:
        m['checks'].append({'property': d['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % d['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % d['id'],
                            'technique': d['technique'], 'level': 'other', 'level_note': d['note']})
    else:
        m['not_applicable'].append({'property': d['id'], 'reason': d['na']})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
