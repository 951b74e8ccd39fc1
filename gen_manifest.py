#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and the list of implemented checks.
import json, subprocess, sys, os
V=os.path.dirname(os.path.abspath(__file__))
ids=[json.loads(l) for l in open(V+'/properties.jsonl')]
claimed=subprocess.run([V+'/build/simlab','list'],capture_output=True,text=True).stdout.split()
HOST="Seeded search, not a proof. Runs the real sources of the working tree; trusts the simulated libc back end, disk and scheduler, and (for valid inputs) the tool's own undisturbed run as reference."
PC="Seeded search, not a proof. Runs .com files built in the simulator from the working tree's sources; trusts the independent 8086+DOS reference machine."
NA={
'N05':"Whether a source is valid and how it is rejected is a pure function of the source text. What failing runs may do to files is P07 and P09.",
}
extra=json.load(open(V+'/na_extra.json')) if os.path.exists(V+'/na_extra.json') else {}
m={"version":1,"setup_cmd":"bash run.sh build","checks":[],"not_applicable":[],
 "notes":"No hooks in /repo: the seams are the C library calls of the host builds, and the DOS/BIOS interface of the 8086 builds. run.sh rebuilds everything from /repo's working tree; a violation is reported with a minimised scenario file, replayable with 'bash run.sh replay FILE'."}
for d in ids:
    p=d['id']
    if p in claimed:
        m["checks"].append({"property":p,"quick_cmd":f"bash run.sh {p} quick","thorough_cmd":f"bash run.sh {p} thorough","evidence_file":f"evidence/{p}.json",
          "technique":"deterministic simulation with fault injection (seeded schedules and faults, reference model, minimised replay)","level":"exploration","level_note":HOST if p<='P12' else PC})
    else:
        m["not_applicable"].append({"property":p,"reason":NA.get(p) or extra.get(p) or "Not built yet."})
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); open(V+'/MANIFEST.json','a').write('\n')
