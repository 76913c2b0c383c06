"""Rewrites MANIFEST.json from properties.jsonl and specs/props.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
conf = json.load(open(V + '/specs/props.json'))
m = json.load(open(V + '/MANIFEST.json'))
m['checks'] = []
for l in open(V + '/properties.jsonl'):
    if not l.strip():
        continue
    pid = json.loads(l)['id']
    c = conf.get(pid)
    if c:
        tech = 'contract-based deductive verification (Verus) of the functions extracted from /repo on every run, plus a bounded search for failing inputs'
        note = 'Proved: %s. Not proved, bounded exploration only: %s.' % (c['proved'], c['not_proved'] or 'nothing further')
        lev = c['level']
    else:
        tech = 'bounded exploration of the real code against an independent oracle (stand-in: contracts do not reach this property yet)'
        note = 'bounded; nothing proved'
        lev = 'exploration'
    m['checks'].append({'property': pid, 'quick_cmd': './check %s' % pid, 'thorough_cmd': './check %s --thorough' % pid,
                        'technique': tech, 'level': lev, 'level_note': note})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
