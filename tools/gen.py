"""Writes properties.jsonl and MANIFEST.json from props.py and the check modules."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, 'tools')]
import props
ids = set()
with open(os.path.join(V, 'properties.jsonl'), 'w') as fp:
    for p in props.PROPS:
        assert p['id'] not in ids and len(p['title']) <= 80, p['id']
        ids.add(p['id'])
        fp.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                         observe_at=p.get('observe', []), hook_needed=None))) + '\n')
checks = []
for p in props.PROPS:
    if p.get('na'):
        continue
    m = importlib.import_module('mc.checks.' + p['id'])
    checks.append(dict(property=p['id'], quick_cmd='./run_check.sh %s --tier quick' % p['id'],
        thorough_cmd='./run_check.sh %s --tier thorough' % p['id'], evidence_file='evidence/%s.json' % p['id'],
        technique=p['technique'], level=m.LEVEL,
        level_note=(m.BOUNDS('quick') + '. Assumes: ' + '; '.join(m.ASSUMPTIONS))[:1900]))
json.dump(dict(version=1, setup_cmd='true', checks=checks,
    not_applicable=[dict(property=p['id'], reason=p['na']) for p in props.PROPS if p.get('na')],
    notes='Every check runs the code of /repo directly (no build step beyond byte compiling and numba); no hooks in /repo are needed. '
          'KNOWN_FINDINGS.txt lists repaired and recorded defects.'),
    open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
# DESIGN.md
T = os.path.join(V, 'tools')
cost = json.load(open(os.path.join(T, 'costs.json')))
out = [open(os.path.join(T, 'design_head.md')).read()]
for p in props.PROPS:
    out.append('### %s %s\n\n%s\n' % (p['id'], p['title'], p['statement']))
    if p.get('na'):
        out.append('Not applicable: %s\n' % p['na']); continue
    m = importlib.import_module('mc.checks.' + p['id'])
    c = cost.get(p['id'], {})
    out.append('* Enumerated and checked: %s.' % m.RULE)
    out.append('* Bounds: quick: %s.\n  Thorough: %s.' % (m.BOUNDS('quick'), m.BOUNDS('thorough')))
    out.append('* Assumes: %s.' % '; '.join(m.ASSUMPTIONS))
    out.append('* Beyond the tests: %s' % p['why'])
    out.append('* Anchors: %s.' % '; '.join('%s (%s)' % x for x in p['mech']))
    out.append('* Technique: %s. Cost on 8 cores: %s.\n' % (p['technique'], '; '.join('%s %s' % x for x in sorted(c.items())) or 'see evidence'))
rows = ['| planted change | property | breaks | needs | caught by |', '|---|---|---|---|---|']
caught = json.load(open(os.path.join(T, 'caught.json')))
for s in sorted(os.listdir(os.path.join(V, 'seeded'))) if os.path.isdir(os.path.join(V, 'seeded')) else []:
    try:
        d = json.load(open(os.path.join(V, 'seeded', s, 'meta.json')))
    except OSError:
        continue
    rows.append('| %s | %s | %s | %s | %s |' % (s, d['property'], d['what_it_breaks'], d['needs'], caught.get(s, d['property'])))
misses = open(os.path.join(T, 'misses.md')).read().rstrip('\n')
out.append(open(os.path.join(T, 'design_tail.md')).read().replace('@SEEDED@', '\n'.join(rows)).replace('@MISSES@', misses))
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
