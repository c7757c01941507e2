#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from lib/meta.py and lib/plan.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/lib")
from meta import P
from plan import PLAN
import subprocess
with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], hook_needed=None))
        if p['state']: d['anchors']['state'] = p['state']
        if p['observe']: d['anchors']['observe_at'] = p['observe']
        f.write(json.dumps(d) + '\n')
        assert len(p['title']) <= 80, p['title']
        for x in p['files']:
            if not os.path.exists('/repo/' + x): print('no such anchor', p['id'], x)
checks = [dict(property=p['id'], quick_cmd='python3 /verif/run.py %s quick' % p['id'], thorough_cmd='python3 /verif/run.py %s thorough' % p['id'],
               evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level='exploration', level_note=p['note']) for p in P if p['id'] in PLAN]
m = dict(version=1, setup_cmd='python3 /verif/run.py setup',
         hooks=dict(guard='LIBDFP_VERIF', enable='no hooks were needed: the monitors observe the public interface of an unmodified build', source_commits=[]),
         checks=checks, not_applicable=[dict(property=p['id'], reason=p['note']) for p in P if p['id'] not in PLAN], notes='See DESIGN.md. run.py builds libdfp from /repo out of tree under /verif/.cache.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
