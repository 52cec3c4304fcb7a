#!/usr/bin/env python3
# Writes known-findings.txt: a "fixed:" line per fix commit in /repo (property map below)
# followed by the hand-kept findings in tools/findings.txt.
import subprocess
P=dict(l.rstrip('\n').split('\t') for l in open('/verif/tools/fixed.tsv') if l.strip())
log=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h\t%s','67b1831..HEAD'],text=True)
out=['# fixed: property=<id> <commit> <what failed>   (suppresses nothing)',
     '# finding: property=<id> key=<key> <what fails>  (an unrepaired genuine defect, identified by its key)']
for l in log.splitlines():
    h,s=l.split('\t',1)
    if not s.startswith('fix: '): continue
    s=s[5:]
    if s not in P: raise SystemExit('no property for fix commit: '+s)
    for p in P[s].split(','): out.append('fixed: property=%s %s %s'%(p,h,s))
out+= [l.rstrip('\n') for l in open('/verif/tools/findings.txt') if l.strip()]
open('/verif/known-findings.txt','w').write('\n'.join(out)+'\n')
print(len(out),'lines')
