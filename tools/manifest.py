import json,importlib,sys
sys.path[:0]=['/repo','/verif']
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
TECH={
'C01':"deterministic simulation: seeded torn copies of modelled links, refinement against a reference model",
'C02':"deterministic simulation: seeded stored-byte damage, comparison of undamaged parts with a reference model",
'C03':"deterministic simulation: seeded cocktails of storage faults, invariants over every report",
'C04':"deterministic simulation: seeded hostile files under a simulated step clock and memory meter",
'C05':"deterministic simulation: seeded damage, conservation of declared parts against recorded warnings",
'C06':"deterministic simulation: seeded stale tails, exact comparison with a reference model",
'C07':"deterministic simulation: seeded containers walked across crashes and restarts, exactly-once check",
'C08':"deterministic simulation: seeded delivery schedules (short, interrupted, delayed reads), exact comparison",
'C09':"deterministic simulation: seeded read faults, error identity and exact recovery",
'C10':"deterministic simulation: seeded disturbances of the source between and during reports, exact comparison",
'C11':"deterministic simulation: seeded operation histories against fresh copies and a reference model",
'C12':"deterministic simulation: seeded interruption at lines and instructions, exact comparison afterwards",
'C13':"deterministic simulation: seeded write faults on standard output, prefix, error identity and exactly-once checks",
'C14':"deterministic simulation: seeded file, read, write and option faults around the command-line entry point",
'C15':"deterministic simulation: seeded thread schedules (single baton at library lines and instructions), isolation check",
'C16':"deterministic simulation: seeded thread schedules on shared links, comparison with sequential results",
'C17':"deterministic simulation: seeded host conditions (clock, zone, locale, environment, interpreter), exact comparison",
'C18':"deterministic simulation: seeded faults and interruptions, process state compared before and after each step",
'C21':"deterministic simulation: seeded long histories with read, write and interruption faults, conservation of memory, objects and descriptors",
'C22':"deterministic simulation: seeded nested operations entered at lines, instructions, hooks and streams, exact comparison",
'C23':"deterministic simulation: seeded thread schedules with forks between other threads' steps, exact comparison, progress in the child",
}
NOTE={
'C04':"Bounds calibrated at several times the unmodified code's worst measured ratio; super-linear growth is judged against them.",
}
checks=[]
for p in props:
    i=p['id']
    if i not in TECH: continue
    m=importlib.import_module('sim.checks.'+i.lower())
    checks.append({"property":i,"quick_cmd":"./check %s"%i,"thorough_cmd":"./check %s --tier thorough"%i,"evidence_file":"evidence/%s.json"%i,
     "technique":TECH[i],"level":m.LEVEL,
     "level_note":(NOTE.get(i,"")+" Seeded search, not exhaustive: %d runs quick, %d thorough. Assumes: %s."%(m.RUNS['quick'],m.RUNS['thorough'],"; ".join(m.ASSUME))).strip()})
na=[{"property":"C19","reason":"A pure function of a few bytes without state, time, I/O or schedule: simulation adds nothing to input generation."},
    {"property":"C20","reason":"A pure function of a byte string and a code page name without state, time, I/O or schedule: simulation adds nothing to input generation."}]
doc={"version":1,"setup_cmd":"./native/build.sh","checks":checks,"not_applicable":na,
 "notes":"No hooks in /repo: scheduling and interruption use sys.monitoring, streams, clock, locale and files are injected from outside."}
json.dump(doc,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write("\n")
