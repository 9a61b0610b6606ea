import sys,time
import dump
from engine import *
import cuts as C
j,_=dump.dump('lib')
P=Prog(j)
def run(sub,cuts=None,n=12,w=600):
    fs=[f for f in P.fns if sub in f['full'] and 'body' in f and f.get('local')]
    for f in fs[:1]:
        sk=shortkey(f['path'])
        I=Interp(P,C.cuts(sk) if cuts is None else cuts)
        t=time.time()
        rets,evs=I.run_root(f['id'])
        print('=====',f['full'][:100],sk,'%.1fs steps %d'%(time.time()-t,I.steps),'rets',len(rets),'evs',len(evs))
        for s,v in rets[:n]:
            print('  RET',show(v)[:w]); print('     facts',len(s.facts),[str(c)[:w] for c in s.facts][:2])
            for k,x in s.store.items():
                if k[0]=='in' : print('     in',k[1],show(x)[:w])
        for e in evs[:30]: print('  EV',e.kind,e.name,[show(a)[:200] for a in e.args],e.span)
        print('  unmod',dict(I.unmodelled))
        for p,v in list(I.phis.items())[:25]: print('  phi',show(p),p.a[1:],[show(x)[:250] for x,_ in v])
        return I
if __name__=='__main__':
    for a in sys.argv[1:]: run(a)
