#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl (run by hand when the list changes).
import json,os
d=os.path.dirname(os.path.abspath(__file__))
props=[json.loads(l) for l in open(d+'/properties.jsonl') if l.strip()]
NA=json.load(open(d+'/not_applicable.json'))
na={x['property'] for x in NA}
checks=[]
for p in props:
    if p['id'] in na: continue
    checks.append({"property":p['id'],"quick_cmd":"./check "+p['id'],"thorough_cmd":"./check "+p["id"]+" thorough",
      "evidence_file":"evidence/%s.json"%p['id'],
      "technique":"deterministic simulation with fault injection: seeded schedules and faults over the real code, oracle over invariants and recorded histories",
      "level":"exploration",
      "level_note":"Seeded search, not exhaustive: no violation in the runs explored. Every goroutine, channel, lock, atomic, timer, file, socket and random source of the code under test is under the simulator; assumes sequentially consistent memory and a faithful source rewriter and runtime stand-ins (DESIGN.md)."})
m={"version":1,"setup_cmd":"./check build","checks":checks,"not_applicable":NA,
 "notes":"No hooks in /repo: the sources are rewritten on a scratch copy (sim/instr) so that all nondeterminism goes through the simulator. Replay a violation with ./check replay FILE."}
json.dump(m,open(d+'/MANIFEST.json','w'),indent=1); open(d+'/MANIFEST.json','a').write('\n')
print(len(checks),'checks')
