# Writes MANIFEST.json from properties.jsonl and the tables below.
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
T="deterministic simulation with fault injection: "
tech={
"C01":"seeded schedules and cache/pool faults; every fitness recomputed by a fresh evaluator",
"C02":"seeded schedules; history check of best results against all evaluations",
"C03":"seeded schedules; history check of survivors against a small reference model",
"C04":"seeded result-delivery orders; reference model of the combination step",
"C05":"seeded schedules and extreme random streams; lineage check of every new member",
"C06":"the same seeded run under different schedules, compared bit for bit",
"C07":"the same seeded run under different cache sizes and injected cache faults, compared bit for bit",
"C08":"seeded schedules; protocol automaton over the evaluator's calls",
"C09":"seeded schedules with pool shutdown, stalls and clock jumps; progress within bounded work",
"C10":"injected panics at any evaluation under seeded schedules; outcome at the caller",
"C11":"seeded schedules under a happens-before race detector that does not see the simulator's hand-offs",
"C12":"one evaluation held until everything else is idle, seeded schedules for the rest",
"C13":"two to four instances interleaved by seeded schedules, compared with their solo runs",
"C14":"concurrent copies and edits under seeded schedules with updates aborted midway; multiset model",
"C15":"kill and power loss at disk operations and statements on a simulated disk; history check after restart",
"C16":"disk errors, short writes and full disks on a simulated file system; check of every round",
"C17":"clock jumps, disk faults and start failures; check of output, duration and profiler state",
"C18":"simulated monotonic and wall clocks with jumps; check of every reported time and count",
"C19":"caller tampering between steps under seeded schedules, compared with an untouched run",
"C25":"concurrent generation under seeded schedules and extreme random streams, with race detection",
"C27":"concurrent one-shot operations under seeded schedules, compared with solo calls, with race detection",
"C28":"seeded schedules, pool faults and extreme random streams; results recomputed by a new fitness function",
"C29":"the same seeded run with different block sizes, compared bit for bit over whole trajectories and evaluation by evaluation",
"C31":"seeded schedules, cache and pool faults; refinement of every fitness of a run to an independent reference model",
"C32":"best results drawn by other tasks under seeded schedules; end-to-end comparison with the reference model and the reported fitness",
"C33":"seeded searches with every random source behind the simulator; binomial tests of rates and displacements over whole histories",
"C30":"seeded schedules with panicking evaluations, disk and profiler faults; what is left at rest, and live memory over long histories",
}
note={
"default":"Samples schedules and faults of the real code (instrumented copy of the tree and of its worker pool) under one seeded scheduler: a clean run is evidence, not proof. Preemption is at statement granularity and memory is sequentially consistent.",
"C11":"Each explored schedule is judged by the Go race detector's happens-before analysis, with the simulator's own synchronisation hidden from it, so races that do not manifest are reported too; only executed code paths are covered.",
"C25":"Counts and iteration numbers are sampled (mostly up to 30 points); the distance comparison is statistical, with a wide margin. Races are judged by the Go race detector with the simulator's own synchronisation hidden from it.",
"C27":"Samples inputs, sets of operations and schedules; races are judged by the Go race detector with the simulator's own synchronisation hidden from it.",
"C28":"Mostly small images, up to nine points and two steps, because a generation evaluates 400 members; where several triangulations of the best points exist the fitness is not compared.",
"C31":"Points with several Delaunay triangulations, and cells with many corners within rounding distance of a boundary, are not compared; pixels exactly on a slanted side may be counted to either side.",
"C32":"Points with several Delaunay triangulations are not compared; colours are compared for shapes no slanted side of which passes exactly through a pixel's corner.",
"C33":"Statistical, with margins of six standard deviations and six events over up to a few hundred thousand events per run; smaller deviations are missed.",
"C30":"Memory counts as growing when the live heap gains at least 8 KiB in each of the last three of five equal parts of a history, or in two of them and 48 KiB in all; slower leaks are missed, and memory outside the Go heap is not seen.",
"C14":"Compares with a from-scratch triangulation only where it is unique (decided exactly in integers); copies are compared exactly always. Samples histories and interleavings.",
"C15":"The simulated disk loses, keeps or tears any unsynced write and any suffix of unsynced directory changes (directory changes persist in order); samples crash points and examines six power-loss outcomes at each stop.",
"C16":"Faults are injected at every kind of file operation of the simulated file system; samples fault sequences.",
"C17":"The profiler and the tracer are stubs that write known bytes the way the real ones do; the file system and clocks are simulated.",
}
na_reason="pure function of its input: no schedule, clock, fault, I/O or interleaving for the property to depend on, so this technique does not apply"
na={"C26":"statistical statement about a sequential generator: no schedule, clock, fault or interleaving to simulate"}
import os
checks=[]; nas=[]
for p in props:
    i=p["id"]
    if i in tech:
        checks.append({"property":i,"quick_cmd":f"./run.sh check {i} quick","thorough_cmd":f"./run.sh check {i} thorough","evidence_file":f"evidence/{i}.json",
          "technique":T+tech[i],"level":"exploration","level_note":note.get(i,note["default"])})
    else: nas.append({"property":i,"reason":na.get(i,na_reason)})
m={"version":1,"setup_cmd":"./run.sh setup","checks":checks,"not_applicable":nas,
 "notes":"No hooks in /repo: a source-to-source tool (tool/) instruments a scratch copy of the working tree, so the seams exist only in the simulated build. Replay a violation with ./run.sh replay FILE; check determinism with ./run.sh selftest N."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write("\n")
