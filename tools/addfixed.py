#!/usr/bin/env python3
"""addfixed.py COMMIT PROPS WHAT: records a repaired defect."""
import json, sys
p = '/verif/known_findings.json'
d = json.load(open(p))
commit, props, what = sys.argv[1], sys.argv[2].split(','), sys.argv[3]
d['findings'].append(dict(kind='fixed', properties=props, commit=commit, what=what,
                          text='; '.join('fixed: property=%s %s %s' % (q, commit, what) for q in props)))
json.dump(d, open(p, 'w'), indent=1, ensure_ascii=False)
open(p, 'a').write('\n')
