import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
T={ # deciding technique
"C01":"explicit-state exploration of all call sequences in lock-step with a reference model",
"C08":"exhaustive enumeration of all scoped programs in lock-step with a reference model",
"C13":"exhaustive enumeration of all attempt histories in lock-step with a reference model",
"C17":"exhaustive enumeration of all segment lists against a reference order",
"C18":"exhaustive enumeration of all segment lists against a reference partition",
"C19":"exhaustive enumeration of all Append histories in lock-step with a reference model",
"C20":"exhaustive enumeration of all small graphs and pairs of graphs against a reference model",
"C28":"exhaustive enumeration of read histories of one instance against fresh instances",
"C29":"stateless exploration of all schedules up to a preemption bound under a controlled scheduler; all pairs of operations under the race detector",
}
D="bounded exhaustive exploration of the real code in lock-step with a reference model"
N={
"C29":"Every schedule within the preemption bound was executed on the real code. Interruption points are the movements of the scanner, the callbacks and the constructor calls; between them the argument is that no two operations access the same memory with a conflict (race detector on all ordered pairs of operations). Trusts the scheduler of the harness and the race detector.",
}
NN="Holds for every element of the stated finite space (bounds in evidence and DESIGN.md), each executed on the real code built from the working tree and compared with an independent model; nothing is sampled. Beyond the bounds it rests on the small-scope argument in DESIGN.md. Trusts the reference model and the Go toolchain."
checks=[]
for p in props:
    i=p['id']
    checks.append(dict(property=i,quick_cmd=f"./run.sh check {i} quick",thorough_cmd=f"./run.sh check {i} thorough",
      evidence_file=f"evidence/{i}.json",technique="model checking: "+T.get(i,D),level="model_checking",level_note=N.get(i,NN)))
json.dump(dict(version=1,setup_cmd="./run.sh build",checks=checks,not_applicable=[],
 notes="No hooks in /repo: everything is observed through the exported API. The commits in /repo are repairs (fix:), listed in KNOWN_FINDINGS.txt."),open('/verif/MANIFEST.json','w'),indent=1)
