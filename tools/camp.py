#!/usr/bin/env python3
"""Run skeletons (stdin or file) through the engine, report violations. Development tool."""
import sys, json, subprocess, os, concurrent.futures as cf, collections
alg=int(sys.argv[1]); f=sys.argv[2]; T=float(sys.argv[3]) if len(sys.argv)>3 else 10
mask=int(os.environ.get('M','127')); LL=os.environ.get('LL','/tmp/g_pub.ll'); NAT=os.environ.get('NAT','/tmp/native_g_pub')
def words(t):
    b=t.encode(); return [len(b)]+[int.from_bytes(b[i:i+8],'little') for i in range(0,len(b),8)]
def run(it):
    i,t=it
    o=f'/tmp/camp/{os.getpid()}_{i}.json'; os.makedirs('/tmp/camp',exist_ok=True)
    a=['/verif/symex/target/release/symex','--ll',LL,'--entry','h_alloc','--jobs','1','--time',str(int(T)),'--out',o,'--max-viol','3']
    for p in [alg,mask]+words(t): a+=['--param',str(p)]
    p=subprocess.run(a,capture_output=True,text=True)
    try: d=json.load(open(o))
    except Exception as e: return i,t,None,p.stderr[-500:]
    os.unlink(o)
    return i,t,d,None
sk=[l.rstrip('\n') for l in open(f) if l.strip() and not l.startswith('#')]
tot=collections.Counter(); viol=collections.defaultdict(list)
with cf.ThreadPoolExecutor(8) as ex:
    for i,t,d,err in ex.map(run,enumerate(sk)):
        if d is None: print(i,'ERR',err[:200]); tot['err']+=1; continue
        tot['paths']+=d['paths']; tot['instrs']+=d['instrs']; tot['complete']+=d['complete']; tot['inf']+=d['infeasible']
        if not d['complete'] and not d['violations']: print(i,'incomplete',d['incomplete'][:1],d['paths'])
        for v in d['violations']:
            key=v['msg'][:90]+' @ '+' < '.join(s.split('@')[0][-40:] for s in v['stack'][:2])
            viol[key].append((i,v['inputs']))
        if os.environ.get('V'): print(i,d['paths'],d['instrs'],d['wall_s'],d['covers'][1:4])
print(dict(tot))
for k,l in sorted(viol.items(),key=lambda x:-len(x[1])):
    print(len(l),k,[(i,' '.join(x)) for i,x in l[:3]])
