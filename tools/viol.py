"""viol.py FILE...: the last state of a TLC error trace, in short (development helper)."""
import sys,re
for f in sys.argv[1:]:
    t=open(f).read()
    if 'is violated' not in t: continue
    st=[m.start() for m in re.finditer(r'^State \d+',t,re.M)]
    for name in ('cfg','bad','last','now','ab','cs','hist'):
        m=None
        for s in reversed(st):
            m=re.search(r'^/\\ %s = (.*?)(?=^/\\ |^State|^The number|\Z)'%name,t[s:],re.M|re.S)
            if m: break
        if m:
            x=re.sub(r'\s+',' ',m.group(1)); x=re.sub(r'\[ ?v \|-> \[w \|-> 0[^\]]*\], p \|-> FALSE[^\]]*\],? ?','_',x); x=re.sub(r'\[w \|-> 0, x \|-> 0, c \|-> 0, n \|-> 0\]','-',x)
            print(name,x[-2500:] if name=='hist' else x[:2500])
