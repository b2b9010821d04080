#!/usr/bin/env python3
"""write properties.jsonl and MANIFEST.json from checks/props.py"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'checks'))
from props import PROPS
import na
lines = []
for p in PROPS + na.PROPS:
    lines.append({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                  'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
                  'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mechanism']],
                              'observe_at': p.get('observe') or [], 'hook_needed': None}})
    assert len(p['title']) <= 80, p['id']
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for l in lines:
        f.write(json.dumps(l) + '\n')
m = {'version': 1, 'setup_cmd': './setup.sh',
     'checks': [{'property': p['id'], 'quick_cmd': './check %s quick' % p['id'], 'thorough_cmd': './check %s thorough' % p['id'],
                 'evidence_file': 'evidence/%s.json' % p['id'], 'technique': 'static analysis: ' + p['technique'], 'level': 'other',
                 'level_note': p['note']} for p in PROPS],
     'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in na.PROPS],
     'notes': 'No hooks in /repo: the analysis reads the MIR rustc builds from the current tree. quick = default build with all features; '
              'thorough = additionally the program without features.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')


def fill(text, tag, body):
    a, b = '<!-- %s -->' % tag, '<!-- /%s -->' % tag
    return text[:text.index(a) + len(a)] + '\n' + body + '\n' + text[text.index(b):]


d = os.path.join(ROOT, 'DESIGN.md')
t = open(d).read()
t = fill(t, 'properties', '\n'.join('### %s %s\n\n%s\n\n- *Decided by*: %s\n- *Rules*: `checks/%s.py` (%s). %s\n- *Extent*: %s\n- *Why tests do not settle it*: %s\n' % (
    p['id'], p['title'], p['statement'], p['technique'], p['module'], p['func'], p['explain'], p['note'], p['why']) for p in PROPS))
t = fill(t, 'na', '\n'.join('- **%s %s**: %s' % (p['id'], p['title'], p['reason']) for p in na.PROPS))
rows = []
for i in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    x = json.load(open(os.path.join(ROOT, 'seeded', i, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (i, x['property'], x['what_it_breaks'], x['needs']))
t = fill(t, 'seeds', '| Change | Caught by | Breaks | Needs |\n|---|---|---|---|\n' + '\n'.join(rows))
open(d, 'w').write(t)
print(len(PROPS), 'claimed', len(na.PROPS), 'not applicable')
