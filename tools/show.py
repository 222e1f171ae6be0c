import json,sys
d=json.load(open(sys.argv[1])); c=d['case']
print(d['property'],d['kind'],d['message'][:600])
for k,v in c.items():
    if k in('doc','prop','case_seed'): continue
    print(' ',k,'=',json.dumps(v)[:700])
for dd in [c.get('doc')]+(c.get('docs') or []):
    if not dd: continue
    print(' ',dd['timestepper'],dd.get('scenarios'),dd.get('scenario_combinations'))
    for n in dd['nodes']: print('   ',json.dumps({k:v for k,v in n.items() if k[0]!='_'})[:400])
    print('   ',dd['edges'])
    for k,v in dd['parameters'].items(): print('    P',k,json.dumps(v)[:300])
    for k,v in dd['recorders'].items(): print('    R',k,json.dumps(v)[:300])
