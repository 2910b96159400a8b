import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
na={'C22':"The accuracy of the recurrences on ill-conditioned data is a property of a pure function of one input sequence: no schedule, clock, fault or other party has any influence on it, so a simulation would only be random testing of arithmetic. (Well-conditioned and mildly offset streams are part of C03 to C06.)",
 'C23':"What String returns and which configurations are accepted is a pure function of the constructor's arguments: there is no schedule, time, I/O or party for it to depend on. (Rejected calls under concurrency are C17.)"}
note={
'C16':"Seeded search; each run draws many fair simulated random sources and compares inclusion frequencies with the uniform distribution at a significance of about 1e-9 per run, so biases below a few percent can be missed.",
'C02':"Seeded search with the Go race detector (happens-before) inside the simulator: the synchronisation of the code is reported to it, that of the simulator is not, so a race is reported whenever both accesses are in an explored execution, whatever their distance.",
'C21':"Seeded search; steps are counted at instrumented function entries, loops and slice moves, and compared between sizes with factors of 4 to 6, so only a change of the order of growth is noticed.",
'C12':"Seeded search over schedules and lock sections with an exact linearizability check. One known finding (read-lock-reentry) is listed in known_findings.txt.",
}
base="Seeded search over workloads and schedules of the real code (instrumented copy of /repo plus the queue and deque libraries) under a deterministic scheduler; every recorded history is checked against a batch-formula reference model with an exact linearizability search. Not exhaustive; preemption happens at synchronisation, calls, loops and shared memory accesses of instrumented code, not inside a single expression, and memory is sequentially consistent (C02 covers races)."
checks=[]
for p in props:
    if p['id'] in na: continue
    i=p['id']
    checks.append(dict(property=i,quick_cmd='./check %s quick'%i,thorough_cmd='./check %s thorough'%i,evidence_file='evidence/%s.json'%i,
      technique='deterministic simulation with fault injection: seeded schedule and fault search',level='exploration',level_note=note.get(i,base)))
m=dict(version=1,setup_cmd='mkdir -p evidence replays && chmod +x check sim/build.sh && d=$(mktemp -d /tmp/verif-setup.XXXXXX) && sim/build.sh "$d"; r=$?; rm -rf "$d"; exit $r',checks=checks,
 not_applicable=[dict(property=k,reason=v) for k,v in na.items()],
 notes="No hooks in /repo: the checks instrument a copy of its working tree (sim/instr). './check replay FILE' re-executes a replay file.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
