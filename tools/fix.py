#!/usr/bin/env python3
"""tools/fix.py 'C18[,C19]' 'commit message after fix:' 'what failed' [FILE...]: commit /repo's change (to FILEs) and record it."""
import json,subprocess,sys
ids,msg,what=sys.argv[1:4];only=sys.argv[4:]
r=lambda *a:subprocess.run(a,cwd='/repo',check=True,capture_output=True,text=True).stdout
files=[f for f in r('git','diff','--name-only').split()]
assert files and all(f.startswith('src/') for f in files),files
r('git','commit','-qm','fix: '+msg,'--',*(only or files))
h=r('git','rev-parse','--short','HEAD').strip()
p='/verif/known_findings.json';d=json.load(open(p))
for i in ids.split(','): d['fixed'].append(f'fixed: property={i} {h} {what}')
json.dump(d,open(p,'w'),indent=1,ensure_ascii=False);open(p,'a').write('\n')
print(h)
