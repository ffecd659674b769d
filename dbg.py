import sys; sys.path.insert(0,'/verif')
from gk.interp import Program, Unsupported
from gk import oblig, eq as E, terms as tm
p=Program('/verif/.build/dump/obs.lib.json')
base=sys.argv[1]
def sh(t,d=5):
    if not isinstance(t,tm.T): return repr(t)
    if t.val is not None: return str(t.val)
    if t.op=='sym': return t.args[0]
    if d==0: return '..'
    return t.op+'('+','.join(sh(a,d-1) for a in t.args)+')'
orig=E.Prover.fpeq
def fpeq(self,env,pairs):
    try: return orig(self,env,pairs)
    except Unsupported as e:
        print("UNSUP",e); 
        for op,x,y in env.cmps: print("  fact",op,sh(x),'|',sh(y))
        for q in pairs: print("  pair",q[0],sh(q[1]),'|',sh(q[2]),'|',sh(q[3]))
        raise
E.Prover.fpeq=fpeq
ob=E.refute
def ref(pr,comps,leaves,*aa,**kk):
    if not leaves: return None
    for path,env,sub,todo in leaves[:2]:
        print("LEAF",path); 
        for op,x,y in env.cmps: print("  fact",op,sh(x),'|',sh(y))
        for q in todo: print("  pair",q[0],sh(q[1],8),'|',sh(q[2],9),'|',sh(q[3],9))
    pt=getattr(pr,'pt',None)
    if pt is not None:
        for c in leaves[0][3]:
            A=E.subterms([c[2]]);B=E.subterms([c[3]])
            def val(t):
                try: return pt.v(t)
                except Exception as e: return ('x',str(e))
            bv={val(t) for t in B.values() if t.ty=='f'}
            av={val(t) for t in A.values() if t.ty=='f'}
            for X,O,nm in ((A,bv,'code'),(B,av,'spec')):
                n=0
                for t in sorted(X.values(),key=lambda t:t.id):
                    if t.ty!='f' or t.val is not None: continue
                    if val(t) in O: continue
                    if all((not isinstance(a,tm.T)) or a.val is not None or val(a) in O or a.op=='sym' for a in t.args):
                        print("  NOCOUNTERPART",nm,sh(t,6),t.loc); n+=1
                        if n>5: break
    if len(sys.argv)>2: sys.exit()
    return ob(pr,comps,leaves)
E.refute=ref
obt=E.refute_true
def reft(pr,t,leaves):
    for path,env,sub,todo in leaves[:2]:
        print("LEAF",path); 
        for op,x,y in env.cmps: print("  fact",op,sh(x),'|',sh(y))
        print("  term",sh(E.Rw(env)(t),9))
    return obt(pr,t,leaves)
E.refute_true=reft
for n,k in oblig.names(p,'g..'):
    if n.endswith(base):
        r=oblig.run_one(p,n,k); print(r.status,r.detail[:300])
