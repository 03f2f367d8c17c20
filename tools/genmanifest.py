#!/usr/bin/env python3
# regenerates MANIFEST.json
import json,os
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l) for l in open(os.path.join(root,"properties.jsonl"))]
NA={"C17":"Pure functions of their arguments that no exported function reaches: no schedule, clock, I/O, fault or second party is involved, so simulation has nothing to decide. (DESIGN.md lists what was seen while reading them.)",
    "C18":"Each keyword parser is a pure function of its token list; whether a parameter lands in the right field depends on no schedule, fault or history. What does depend on them (objects lost, mixed or altered by the division of work) is C05."}
NOTE="Seeded search over schedules, processor counts, file contents and faults with the real parsers running under a simulated scheduler, file system and clock; a clean run is evidence over the sampled executions, not proof. Trusted: the source rewriter, the simulated runtime and %s."
ORACLE={
"C01":"the reference decoder for Intel HEX","C02":"the reference decoder for S-records","C03":"the reference decoders' notion of a damaged record","C04":"the reference decoders",
"C05":"the lexer and block reader of the reference and the single-worker reading of each object alone","C06":"the reference block reader","C07":"the two parts read alone and the reference decoders",
"C08":"the simulator's deadlock, step and panic detection","C09":"the same call run alone in a fresh simulated process","C10":"the same call run alone in a fresh simulated process",
"C11":"the Go race detector fed with the simulated program's own happens-before edges only","C12":"deep digests taken at return","C13":"the single-worker reading of each object alone",
"C14":"the same call without log faults","C15":"the simulated disk's record of failed operations","C16":"the plain schedule's outcome"}
checks=[]
for p in props:
    i=p["id"]
    if i in NA: continue
    t="deterministic simulation with fault injection (seeded scheduler, in-memory faulty disk, simulated clock)"
    if i=="C11": t="deterministic simulation with fault injection, happens-before race detection inside each simulated run"
    checks.append({"property":i,"quick_cmd":"./check.sh %s quick"%i,"thorough_cmd":"./check.sh %s thorough"%i,"evidence_file":"evidence/%s.json"%i,
      "technique":t,"level":"exploration","level_note":NOTE%ORACLE[i]})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,
   "not_applicable":[{"property":k,"reason":v} for k,v in NA.items()],
   "notes":"No hooks are committed in /repo: each check copies the working tree to a scratch folder, rewrites goroutines, channels, sync, os, time and map iteration to the simulator's versions there, and builds that. replay.sh FILE repeats a recorded violation."}
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1); open(os.path.join(root,"MANIFEST.json"),"a").write("\n")
