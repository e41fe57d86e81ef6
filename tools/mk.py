"""writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NA

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NA:
        q = {k: p[k] for k in ('id', 'title', 'statement')}
        assert len(p['title']) <= 80, p['id']
        q['quantifier'] = {'over': p['over'], 'text': p['forall']}
        q['why_tests_cant'] = p['why']
        q['anchors'] = {'files': p['files'],
                        'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                        'observe_at': p.get('observe', []), 'hook_needed': None}
        f.write(json.dumps(q) + '\n')
m = {'version': 1, 'setup_cmd': './setup.sh',
     'checks': [{'property': p['id'], 'quick_cmd': './check.sh %s quick' % p['id'],
                 'thorough_cmd': './check.sh %s thorough' % p['id'],
                 'technique': p['tech'], 'level': 'other', 'level_note': p['note']} for p in PROPS],
     'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA],
     'notes': 'Every check compiles a rustc driver, runs it over the current working tree of /repo to get the '
              'type-checked MIR as facts, and decides its property from those facts; nothing of the crate is run. '
              'No hooks in /repo.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)

# ---- DESIGN.md
import importlib, glob
sys.path.insert(0, os.path.join(ROOT, 'sv'))
from rules import RULES
props = ''
for p in PROPS:
    mod, cls = RULES[p['id']]
    exp = getattr(getattr(importlib.import_module(mod), cls), 'explanation', '')
    props += '### %s - %s\n%s\n\n*Decided by* (`sv/%s.py`): %s\n\n' % (p['id'], p['title'], p['statement'], mod, exp.strip())
    props += '*Why tests cannot:* %s *Holds for:* %s.%s\n\n' % (p['why'], p['forall'], ' *Limits:* ' + p['limits'] if p.get('limits') else '')
seeds = '| change | property | caught | needs |\n|---|---|---|---|\n'
missed = set(open(os.path.join(HERE, 'missed.txt')).read().split()) if os.path.exists(os.path.join(HERE, 'missed.txt')) else set()
for d in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    s = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    seeds += '| %s | %s | %s | %s |\n' % (n, s['property'], 'no' if n in missed else 'yes', s['needs'])
find = ''.join('- %s\n' % l.strip() for l in open(os.path.join(ROOT, 'known_findings.txt')) if l.strip())
t = open(os.path.join(HERE, 'design.md')).read()
for k, v in (('PROPS', props), ('NA', ''.join('- %s %s: %s\n' % (p['id'], p['title'], p['reason']) for p in NA) or 'None of the properties listed.'), ('FIND', find), ('SEEDS', seeds)):
    t = t.replace('@@%s@@' % k, v.rstrip())
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(t)
