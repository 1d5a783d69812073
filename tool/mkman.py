import json,subprocess
done=subprocess.check_output(['grep','-oP','^\\t+"\\KC\\d\\d(?=": \\{)','/verif/tool/plans.go'],text=True).split()
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
notes={
'C01':'Seeded search over interleavings at statement granularity of real code compiled with the race detector; trusts the instrumenter, the simulated sync primitives and the fresh-process baselines.',
'C02':'Seeded search over operation histories with injected failures; every result compared with the same operation in a fresh process. Trusts the operation catalogue as the notion of "operation".',
'C03':'Seeded search over error points and later calls; zero results, sticky first error and bounded loops. Trusts the document model.',
'C04':'Seeded search over which user callbacks fail or panic, at every nesting the model types have, on code generated by the generator under test.',
'C05':'Seeded search over call histories, compared with an executable tree model.',
'C06':'Seeded search over documents and call mixes, compared with a cursor model.',
'C07':'Seeded search over destination faults at every call and byte class; trusts the stub destination.',
'C08':'Seeded search over operations, with every shared byte slice overwritten between calls and results re-checked.',
'C09':'Seeded search over interleavings of readers and writers of one tree with the race detector, plus tree dumps before and after.',
'C10':'Seeded search over failing file operations and toolchain failures of the real generator binary behind a system-call seam.',
'C11':'Seeded search over kill points (every intercepted system call, torn writes) of the real generator binary and recovery runs.',
'C12':'Seeded search over runtime randomness, histories and directory contents; outputs compared byte for byte.',
'C13':'Seeded search over interleavings of lookups and of the environment failing and recovering; trusts the stubbed go command.',
'C15':'Seeded search over call sequences with a panicking stream, compared with a list model.',
'C16':'Seeded search over system-call interleavings of several real generator processes in one directory.',
'C17':'Seeded search over goroutine schedules at statement granularity, including leak and termination checks.',
}
na={
'C20':'A pure function of one value: no schedule, fault, crash, time or history can influence it beyond what C02/C05/C06/C07 decide; deciding it needs input generation against a value oracle, which is another technique.',
'C21':'Conformance of a pure function (text to tree) with the YAML specification; nothing for a scheduler or fault injector to control.',
'C22':'Totality and cost of a pure function of the input bytes; fuzzing territory. Failing token sources and panics are covered by C02 and C15.',
'C23':'Pure string/number conversion; no concurrency, time, I/O or history involved.',
'C24':'A pure function of the type under generation decided by the compiler; faults and schedules around generation are C10-C13 and C16.',
'C25':'Agreement of two pure functions; differential testing, not simulation.',
'C26':'Resource bound of a pure function of the document.',
}
m={'version':1,'setup_cmd':'bin/setup','checks':[],'not_applicable':[],
 'notes':'No guarded hooks were added to /repo: instrumentation is applied to a copy at build time through go build -overlay. /repo carries only fix: commits, listed in known-findings.txt.'}
for p in props:
    i=p['id']
    if i in na: m['not_applicable'].append({'property':i,'reason':na[i]})
    elif i in done:
        m['checks'].append({'property':i,'quick_cmd':f'bin/check {i} quick','thorough_cmd':f'bin/check {i} thorough',
          'technique':'deterministic simulation, seeded schedule and fault search','level':'exploration','level_note':notes[i]})
    else: m['not_applicable'].append({'property':i,'reason':'its simulation is still being built; not claimed yet'})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
print(done)
