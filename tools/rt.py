import sys,time,importlib; import os; sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from nbv.engine import Run
from nbv.tasks import TASKS
mods=sys.argv[1].split(','); prop=sys.argv[2]; pat=sys.argv[3] if len(sys.argv)>3 else ''
extra=eval(sys.argv[4]) if len(sys.argv)>4 else {}
for m in mods: importlib.import_module('nbv.specs.'+m)
for name,fn,cfg in TASKS[prop]:
    if pat and not (name==pat or pat.endswith('*') and name.startswith(pat[:-1])): continue
    cfg=dict(cfg,**extra)
    r=Run(name,cfg).verify(fn); s=r.summary()
    bad=s['refuted'] or s['unknown'] or s['unsupported'] or [k for k in cfg.get('covers',()) if r.covers.get(k)!='sat'] or not s['obligations'] or os.environ.get('V')
    tot=globals().setdefault('TOT',[0,0,0.0]); tot[0]+=1; tot[1]+=s['discharged']; tot[2]+=r.wall
    if bad: print(prop,name,'ob',s['obligations'],'ok',s['discharged'],'ref',len(s['refuted']),'unk',len(s['unknown']),'paths',s['paths'],'covers',r.covers,'wall %.1f'%r.wall, 'uns',[u[:300] for u in s['unsupported'][:3]],r.notes)
    seen=set()
    for o in s['refuted']+s['unknown']:
        if o.name in seen: continue
        seen.add(o.name); print('   ',o.status,o.name,o.path,o.detail[:400])

print('TOTAL tasks %d discharged %d wall %.1f'%tuple(TOT))
