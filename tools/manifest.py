#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and the suites the harness has.
import json,subprocess,sys,os,tempfile
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
w=tempfile.mkdtemp()
subprocess.check_call(['bash','/verif/harness/build.sh',w+'/z'])
have={l.split()[0] for l in subprocess.check_output([w+'/z','-list'],text=True).splitlines() if l.strip()}
NOTE={
 'C18':'Exploration: the Go race detector watches every memory access of concurrent calls; results are compared with a sequential run. Schedules are those the scheduler produced under stress, not all.',
}
TECH={
 'C16':'runtime monitoring: crash, hang and memory monitor around every entry point under hostile generated input',
 'C17':'runtime monitoring: deep snapshots of arguments and earlier results around every call, call-history replay',
 'C18':'Go race detector plus result comparison under concurrent stress',
}
checks=[];na=[]
for p in props:
    i=p['id']
    if i in have:
        checks.append(dict(property=i,quick_cmd='bash run.sh %s quick'%i,thorough_cmd='bash run.sh %s thorough'%i,evidence_file='evidence/%s.json'%i,
          technique=TECH.get(i,'runtime monitoring: every call of generated workloads is judged online by an independent reference oracle'),
          level='exploration',level_note=NOTE.get(i,'Exploration: the property held on every observed execution of a seeded, literal-guided workload; trusted: the reference oracles in harness/src, golang.org/x/crypto, btcsuite and the standard library.')))
    else:
        na.append(dict(property=i,reason='no check built yet'))
m=dict(version=1,setup_cmd='bash setup.sh',hooks=dict(guard='none',enable='no hooks: the harness is compiled next to /repo through a build overlay and uses its exported API only',source_commits=[]),checks=checks,not_applicable=na,
  notes='Harness: harness/src, built by harness/build.sh as an overlay package inside the /repo module. See DESIGN.md.')
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
subprocess.call(['rm','-rf',w])
print(len(checks),'checks',len(na),'n/a')
