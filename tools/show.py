#!/usr/bin/env python3
"""show.py FILE INDEX [UPTO]: a behaviour in short form."""
import json,sys
b=[json.loads(l) for l in open(sys.argv[1])][int(sys.argv[2])]
c=dict(b['cfg']); print({k:v for k,v in c.items() if k!='table'}); print([(t['c'],t['u'],t['r']) for t in c['table']])
for i,s in enumerate(b['steps']):
    o=s['op']; v=o['v']
    print(i,'t',s['t'],o['op'],'k',o['k'],('n%d w%d x%d c%d'%(v['n'],v['w'],v['x'],v['c'])) if v['n'] else '',o['o'],'->',s['res']['r'],s['res']['n'],'ev',[(e['k'],e['n'],e['c']) for e in s['ev']],'cb',[(e['f'][0],e['k'],e['n'],e['d']) for e in s['cb']],'lk',s['lk'],'ec',s['ec'],'ws',s['ws'])
