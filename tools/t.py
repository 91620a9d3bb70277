import sys; sys.path.insert(0,'/verif')
from pyvc import env
import importlib
p=sys.argv[1]
importlib.import_module('contracts.'+p)
from pyvc import runner
import json
names=[n for n in runner.CONTRACTS[p.upper()] if len(sys.argv)<3 or sys.argv[2] in n]
for r in runner.run_all(p.upper(),names):
    bad={k:v for k,v in r['obligations'].items() if v['refuted'] or v['unknown']}
    print(('OK ' if not bad and not r['undecided'] else 'BAD'),r['name'],'paths',r['paths'],'obl',sum(v['instances'] for v in r['obligations'].values()),r['wall_s'],'s')
    for k,v in bad.items():
        print('   ',k,'unknown',v['unknown'],'refuted',len(v['refuted']),json.dumps([x for x in v['refuted'] if x][:2])[:1200])
    for u in r['undecided'][:6]: print('    UNDECIDED',u[:600])
    if '-v' in sys.argv: print(r['notes'])
