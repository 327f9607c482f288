import sys
sys.path[:0]=["/verif/kvf"]
from spec import *
def prev(e,ind,out=print):
    if e[0]=='loop':
        out(' '*ind+f'loop {e[1]} κ={e[2]} bound {show(e[3])} W={e[5]}'[:400])
        for q in e[4]:
            g=' & '.join(sorted(f"{show(t)} in {sorted(map(str,d))}" for t,d in q['guard'].items()))
            out((' '*ind+'  * '+q['kind']+' '+(show(q['val']) if q['val'] is not None else '')+' | '+g)[:600])
            for x in q['ev']: prev(x,ind+6,out)
    else:
        out((' '*ind+' '.join([e[0]]+[show(x) if isinstance(x,tuple) else str(x) for x in e[1:]]))[:400])
def dump(outs,maxp=20,ev=True):
    for p in outs[:maxp]:
        print('  ',p.kind,show(p.val)[:600],'|',p.show_cond()[:600])
        if ev:
            for e in p.ev: prev(e,6)
