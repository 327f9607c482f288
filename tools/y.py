from x import *
import sys
c=Ctx('C','quick'); p=c.prog()
def go(name,pred=None,idx=0,**ic):
    f=c.fn(name,pred=pred,idx=idx)
    ai=c.ai(intercepts=ic.get('ic',{}))
    th=sym_this(ai,f); a=sym_args(ai,f)
    try: outs=ai.explore(lambda: ai.call_fn(f,th,a))
    except Unsupported as e:
        print('UNSUP',name,e,str(e.node)[:200]); return
    print('==',name,f['qn'][:100]); dump(outs); return ai,outs
if __name__=='__main__':
    for n in sys.argv[1:]: go(n)
