"""python3-vt tools/mkmanifest.py: MANIFEST.json from properties.jsonl and the checks that exist"""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'C20': 'Pure function of one expression string and four numbers: no schedule, clock, I/O, fault or second party for the property to depend on.',
    'C21': 'Pure function of one histogram and one volume: no schedule, clock, I/O, fault or second party for the property to depend on.',
    'C22': 'Pure arithmetic on one geotransform: no schedule, clock, I/O, fault or second party for the property to depend on.',
}
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)['id']
    f = os.path.join(V, 'sim/props/%s.py' % p.lower())
    if p in NA:
        na.append(dict(property=p, reason=NA[p]))
    elif not os.path.exists(f):
        na.append(dict(property=p, reason='The check is not built yet.'))
    else:
        s = open(f).read()
        m = re.search(r"^NOTE = (\(.*?\)|'.*?')$", s, re.S | re.M)
        note = eval(m.group(1))
        checks.append(dict(property=p, quick_cmd='bash check.sh %s --tier quick' % p, thorough_cmd='bash check.sh %s --tier thorough' % p,
                           evidence_file='evidence/%s.json' % p, technique='deterministic simulation with fault injection', level='exploration', level_note=note))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
               notes='No hooks in /repo: the seam is the system call boundary (seccomp trap in the simulated process, sim/native/simk.c), the Python trace '
                     'hook and the library\'s own readers and writers. All commits in /repo are fixes.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
