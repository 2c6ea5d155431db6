"""writes MANIFEST.json: python3 dst/mkmanifest.py 'C01 C02 ...'"""
import json,sys
claimed=sys.argv[1].split()
L=[json.loads(l) for l in open('/verif/properties.jsonl')]
NA={
'C40':'A pure function of the source text and the options: no schedule, clock, I/O, fault or history in it, so there is nothing for a simulator to decide (C01, C10, C11 and C12 cover its independence from these).',
'C41':'A pure function of the source text, options and Python version; it needs other interpreters and a judge of the generated code, not schedules or faults.',
'C42':'A pure function of value and type; only its independence from histories, interleavings and interruptions is a target of simulation (C13, C14, C15).',
'C43':'A pure function of the command line and the source; nothing in it depends on time, schedule or faults.',
'C44':'A relation between two texts (grammar and generated parser); no schedule, clock, I/O or fault in it.',
'C45':'A pure function of class definitions; nothing in it depends on time, schedule or faults.',
'C46':'A pure function of the source text; input generation alone would decide it, not simulation.',
}
checks=[];na=[]
for d in L:
    i=d['id']
    if i in claimed:
        checks.append({'property':i,'quick_cmd':'bin/check %s --tier=quick'%i,'thorough_cmd':'bin/check %s --tier=thorough'%i,
          'evidence_file':'evidence/%s.json'%i,
          'technique':'deterministic simulation with fault injection: seeded search over schedules, faults and histories, differential oracle against undisturbed executions of the same code' if i not in ('C16','C17') else 'deterministic simulation: seeded search over thread schedules and interrupts, linearizability against a sequential reference model',
          'level':'exploration',
          'level_note':NOTE.get(i,'') if (NOTE:=json.load(open('/verif/dst/notes.json'))) else ''})
    else:
        na.append({'property':i,'reason':NA.get(i,'Not claimed yet: the check is under construction.')})
m={'version':1,'setup_cmd':'bin/setup','checks':checks,'not_applicable':na,
 'hooks':{'guard':'none','enable':'No hooks in /repo: the simulator replaces the operating system services, clock, randomness and locks from outside (dst/simos.py) before the code is imported.','source_commits':[]},
 'notes':'bin/check <ID> [--tier= --seed= --runs= --jobs=], bin/replay <file>, bin/trace <ID> --run=N. VERIF_SEED and VERIF_TIER select seed and depth. See DESIGN.md.'}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False); open('/verif/MANIFEST.json','a').write('\n')
