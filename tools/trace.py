import sys,traceback; sys.path.insert(0,'/verif')
def ab(s):
    for a,b in (('px(px_set_encode,val($arg0).2,$arg1)@1.0','KEY'),('(-4728538181899302272*KEY)','SH'),('(5871781006564002453*KEY)','HASH'),('val($arg0).0@1.0.','SPARSE.'),('val($arg0).0@0.0','DENSE'),('shr(64,SH,SPARSE.2)','SHARD'),('px(px_set_encode_dense,val($arg0).2,KEY)@1.0','DIDX'),('shr(64,(128*$arg1.1),SPARSE.2)','SHARDid')): s=s.replace(a,b)
    return s

from engine.mir import Prog
from engine.interp import *
from engine import build
P=Prog(build.mir())
pat=sys.argv[1]; verbose=len(sys.argv)>2
import re,time
for n in P.roots:
    if not re.search(pat,n): continue
    I=Interp(P); t=time.time()
    try:
        rs=I.run_root(n)
        print('==',n,len(rs),'%.2fs'%(time.time()-t), 'UNK '+str(dict(list(I.unknown.items())[:4])) if I.unknown else '')
        if verbose:
            for k,st,v,site in rs:
                print('  ',k,ab(str(v))[:300],site or '')
                for e in trace_list(st.trace): print('        ',ab(str(e))[:400], e.x if e.kind=='atomic' else '')
                if verbose and len(sys.argv)>3:
                    for f,x in st.facts.items(): print('          F',ab(str(f))[:200],x)
                    for a,v in st.mem.items():
                        if a.op!='loc': print('          M',ab(str(a))[:100],ab(str(v))[:300])
    except Exception as e:
        print('==',n,'FAIL',type(e).__name__,str(e)[:300])
        if len(sys.argv)>2: traceback.print_exc(limit=-6)
    if len(sys.argv)>3:
        for lid,L in I.loops.items():
            print('  LOOP',lid,L.k,L.site,'exits',L.exits)
            for l in L.leaves: print('     leaf',ab(str(l))[:500])
            for fx,tr,s in L.conts:
                print('    cont')
                for e in tr: print('        ',ab(str(e))[:400], e.x if e.kind in('atomic','loop') else '')
                for f,x in fx.items():
                    if f not in L.head.facts: print('          F',ab(str(f))[:200],x)
