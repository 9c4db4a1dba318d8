#!/usr/bin/env python3
"""Generate random skeletons (see harness/src/tf.rs for the grammar). Development tool: the
skeletons the checks use are committed text files."""
import random, sys

CFGS = {
 'straight': [[]],
 'chain': [[1],[2],[]],
 'diamond': [[1,2],[3],[3],[]],
 'switch': [[1,2,3],[4],[4],[4],[]],
 'loop': [[1],[2,3],[1],[]],
 'loop2': [[1],[2],[3,4],[1],[]],
 'selfloop': [[1,2],[3],[],[3]],
 'nest': [[1],[2,6],[3],[4,5],[3],[1],[]],
 'exits': [[1],[2,3],[4,5],[],[1],[]],
 'irr': [[1,2],[3],[4],[5,6],[7,8],[4],[],[3],[]],
 'order': [[3],[],[3],[1,2]],
 'two': [[1,2],[],[]],
 'dd': [[1,2],[3],[3],[4,5],[6],[6],[]],
}
def dom(cfg):
    n=len(cfg); preds=[[] for _ in cfg]
    for b,s in enumerate(cfg):
        for x in s: preds[x].append(b)
    D=[set(range(n)) for _ in cfg]; D[0]={0}
    ch=True
    while ch:
        ch=False
        for b in range(1,n):
            new=set(range(n))
            for p in preds[b]: new&=D[p]
            new|={b}
            if new!=D[b]: D[b]=new; ch=True
    return D,preds

def gen(rnd, alg, budget=None):
    name=rnd.choice(list(CFGS)); cfg=CFGS[name]; n=len(cfg)
    D,preds=dom(cfg)
    classes=rnd.choice(['i','i','i','if','ifv'])
    nreg=rnd.choice([2,3,3,4,5])
    env=[]
    regs={}
    for ci,c in enumerate('ifv'):
        if c not in classes: continue
        k=nreg
        base=rnd.choice([0,0,1])
        m=sum(1<<(base+i) for i in range(k)); 
        q=0
        if rnd.random()<.3:
            q=1<<(base+k-1); m&=~q
        env.append(f"P{ci} {m:x}")
        if q: env.append(f"Q{ci} {q:x}")
        regs[c]=[base+i for i in range(k)]
        if rnd.random()<.3: env.append(f"X{ci} {1<<(base+k):x}")
        if rnd.random()<.25: env.append(f"K{ci} {3<<(base+k+1):x}"); regs[c+'k']=[base+k+1,base+k+2]
    sizes=rnd.choice([None,None,'1 1 2','1 2 4','2 1 2'])
    if sizes: env.append('z '+sizes)
    if rnd.random()<.2: env.append('L')
    budget=budget or rnd.choice([4,5,6,7])
    # plan slots: list of instructions
    vcl=[]; 
    def newv(c=None):
        vcl.append(c or rnd.choice(classes)); return len(vcl)-1
    params=[[] for _ in cfg]; local=[[] for _ in cfg]; insts=[[] for _ in cfg]
    maxdefs=rnd.choice([1,2,2,3])
    for b in range(n):
        if b and len(preds[b])>=1 and rnd.random()<.6:
            for _ in range(rnd.choice([1,1,2,3])): params[b].append(newv())
        k=rnd.randint(1 if b==0 else 0,maxdefs)
        for _ in range(k): insts[b].append([newv() for _ in range(rnd.choice([1,1,1,2]))] if rnd.random()<.85 else [])
    def avail(b,i):
        a=[]
        for d in D[b]:
            if d!=b:
                a+=params[d]
                for x in insts[d]: a+=x
        a+=params[b]
        for x in insts[b][:i]: a+=x
        return a
    stats={'sym':0}
    def sym(): 
        if stats['sym']<budget and rnd.random()<.5:
            stats['sym']+=1; return True
        return False
    def regno(c,k): return {'i':0,'f':16,'v':32}[c]+k
    def cons(kind,v,ops,inst_defs):
        c=vcl[v]
        def fixed(allm=False):
            pool=regs[c]+([r for r in regs.get(c+'k',[])] if rnd.random()<.4 else [])
            ks=rnd.sample(pool,min(len(pool),rnd.choice([1,1,2]) if allm else 1))
            return 'F%x.'%sum(1<<regno(c,k) for k in ks)
        base={'u':['A','R','R','S','F'],'d':['A','R','R','S','F']}[kind]
        if alg==0 and rnd.random()<.1: base=base+['L']
        def one(x):
            if x=='F': return fixed()
            if x=='L': return 'L%d'%rnd.choice([2,4])
            return x
        if sym():
            k=rnd.choice([2,2,3]); xs=rnd.sample(['A','R','S','F'],k)
            return ''.join(fixed(True) if x=='F' else one(x) for x in xs)
        return one(rnd.choice(base))
    out=[]; pos=lambda:('x' if sym() else rnd.choice(['','','','','e','l'])) if rnd.random()<.4 else ''
    for b in range(n):
        succ=[]
        body=[]
        for i,defs in enumerate(insts[b]):
            ops=[]
            av=avail(b,i)
            nu=rnd.choice([0,1,1,2,3]) if av else 0
            for _ in range(nu):
                if sym() and len(av)>1:
                    vs=rnd.sample(av,2)
                    if vcl[vs[0]]==vcl[vs[1]]:
                        ops.append(f"u{vs[0]}|{vs[1]}:"+rnd.choice(['A','R','AR'])); continue
                v=rnd.choice(av)
                ops.append(f"u{v}:{cons('u',v,ops,defs)}{pos()}")
            for v in defs:
                reuse=[k for k,o in enumerate(ops) if o[0]=='u' and '|' not in o and vcl[int(o[1:].split(':')[0])]==vcl[v] and '=' not in ''.join(ops)]
                if reuse and rnd.random()<.3:
                    k=rnd.choice(reuse); x=ops[k].split(':')[0]
                    ops[k]=x+':R'
                    ops.append(f"d{v}:={k}" + ('R' if sym() else ''))
                else:
                    ops.append(f"d{v}:{cons('d',v,ops,defs)}{pos()}")
            if rnd.random()<.25:
                allm=0
                for c in classes:
                    for r in regs[c]: 
                        if rnd.random()<.6: allm|=1<<regno(c,r)
                if allm:
                    if sym() and bin(allm).count('1')<=4: ops.append('c?%x'%allm)
                    else: ops.append('c%x'%allm)
            rnd.random()
            body.append('i '+' '.join(ops))
        av=avail(b,len(insts[b]))
        for s in cfg[b]:
            args=[]
            for p in params[s]:
                cand=[v for v in av if vcl[v]==vcl[p]]
                if not cand: return None
                if sym() and len(cand)>1: args.append('|'.join(map(str,rnd.sample(cand,2))))
                else: args.append(str(rnd.choice(cand)))
            succ.append(f"{s}"+(f"({','.join(args)})" if args else ''))
        t='t'
        ok=all(len(preds[s])==1 for s in cfg[b])
        if ok and av and rnd.random()<.7:
            for _ in range(rnd.choice([1,1,2])):
                v=rnd.choice(av); t+=f" u{v}:{cons('u',v,[],[])}"
        out.append('b '+(','.join(map(str,params[b])) or '-')+''.join(' '+x for x in succ))
        out+=body; out.append(t)
    if len(vcl)>24: return None
    lab=[]; lb=rnd.randint(0,7)
    if rnd.random()<.3:
        ni=sum(1 for o in out if o[0] in 'it')
        for v in sorted(rnd.sample(range(len(vcl)),min(2,len(vcl)))):
            a=rnd.randint(0,ni-1); e=rnd.randint(a,ni)
            lab.append(f"l {v} {a} {e} {lb}"); lb=lb+1 if rnd.random()<.6 else 7-lb
    # vregs of a class never used by classes list fine
    return '; '.join(['!']+env+['v '+''.join(vcl)]+out+lab)


def gen_inst(rnd, alg):
    """one heavily constrained instruction (or two) between plain definitions and uses"""
    n=rnd.choice([3,4,4,5,6]); two=rnd.random()<.3
    env=[f"P0 {((1<<n)-1):x}"]
    if rnd.random()<.3: env=[f"P0 {((1<<(n-1))-1):x}", f"Q0 {1<<(n-1):x}"]
    if rnd.random()<.5: env.append(f"X0 {1<<n:x}")
    k=rnd.random()<.25
    if k: env.append(f"K0 {3<<(n+1):x}")
    if two: env.append("P1 7")
    if rnd.random()<.3: env.append('z '+rnd.choice(['1 1 2','2 1 2','4 2 1']))
    nv=rnd.choice([2,2,3,3,4])
    cls=['f' if two and rnd.random()<.25 else 'i' for _ in range(nv)]
    out=['b -']
    out.append('i '+' '.join(f"d{v}:{rnd.choice('RRRAS')}" for v in range(nv)))
    def fix(c,one=True):
        base=16 if c=='f' else 0
        m=3 if c=='f' else n
        rs=rnd.sample(range(m),1 if one else 2)
        if k and c=='i' and rnd.random()<.2: rs=[n+1]
        return 'F%x.'%sum(1<<(base+r) for r in rs)
    sym=0; lim=rnd.choice([3,4,5,6]); insts=[]
    for _ in range(rnd.choice([1,1,2])):
        ops=[]
        for _ in range(rnd.choice([2,3,3,4,5])):
            v=rnd.randrange(nv); o=f"u{v}:"
            r=rnd.random()
            if r<.35 and sym<lim: sym+=1; o+=rnd.choice(['AR','RS','AS'])+(fix(cls[v]) if rnd.random()<.6 else '')
            elif r<.65: o+=fix(cls[v],rnd.random()<.6 or sym>=lim); sym+= '.' in o and bin(int(o[o.index('F')+1:-1],16)).count('1')>1
            else: o+=rnd.choice('RRAS' if alg else ['R','R','A','S','L%d'%rnd.choice([1,2])])
            p=rnd.random()
            if p<.2 and sym<lim: o+='x'; sym+=1
            elif p<.35: o+='l'
            ops.append(o)
        for _ in range(rnd.choice([0,1,1,2])):
            c=rnd.choice(cls); cls.append(c); v=len(cls)-1
            r=rnd.random(); us=[j for j,o in enumerate(ops) if o[0]=='u' and cls[int(o[1:o.index(':')])]==c and '='+str(j) not in ' '.join(ops)]
            if r<.45 and us:
                j=rnd.choice(us); ops[j]=ops[j].split(':')[0]+':R'
                ops.append(f"d{v}:={j}")
            elif r<.75: ops.append(f"d{v}:"+fix(c)+rnd.choice(['','','e','x']))
            else: ops.append(f"d{v}:"+rnd.choice(['R','R','A','S','AR'])+rnd.choice(['','','e','x']))
        if rnd.random()<.5:
            m=sum(1<<r for r in rnd.sample(range(n),rnd.randint(1,n-1)))
            if bin(m).count('1')<=3 and sym<lim: ops.append('c?%x'%m); sym+=1
            else: ops.append('c%x'%m)
        rnd.random()<.3 and rnd.shuffle(ops) if not any('=' in o for o in ops) else None
        out.append('i '+' '.join(ops))
    live=[v for v in range(len(cls)) if rnd.random()<.5]
    if live: out.append('i '+' '.join(f"u{v}:{rnd.choice('RA')}" for v in live[:n]))
    if rnd.random()<.3:
        vs=rnd.sample(range(len(cls)),min(2,len(cls))); out.append('t '+' '.join(f"u{v}:{rnd.choice('RA')}" for v in vs))
    else: out.append('t')
    return '; '.join(['!']+env+['v '+''.join(cls)]+out)

def gen_press(rnd, alg):
    """register pressure: many values live across calls and loops, few symbolic choices"""
    name=rnd.choice(['straight','chain','diamond','loop','loop2','nest','exits','irr','dd']); cfg=CFGS[name]; nb=len(cfg)
    D,preds=dom(cfg)
    n=rnd.choice([2,3,3,4]); two=rnd.random()<.35
    env=[f"P0 {((1<<n)-1):x}"]+(['P1 3'] if two else [])
    if rnd.random()<.5: env=[f"P0 {((1<<(n-1))-1):x}", f"Q0 {1<<(n-1):x}"]+env[1:]
    if rnd.random()<.4: env.append(f"X0 {1<<n:x}")
    if rnd.random()<.4: env.append('z '+rnd.choice(['1 2 4','2 1 2','4 1 1'])); 
    if rnd.random()<.2: env.append('L')
    cls=[]; out=[]; where=[]  # where[v]=(block,order)
    sym=0; lim=rnd.choice([3,4,5])
    def nv(b): cls.append('f' if two and rnd.random()<.3 else 'i'); where.append(b); return len(cls)-1
    params=[[] for _ in cfg]
    for b in range(1,nb):
        if rnd.random()<.5: params[b]=[nv(b) for _ in range(rnd.choice([1,2,2,3]))]
    bodies=[]
    seen=[]
    lines=[]
    for b in range(nb):
        av=[v for v in range(len(cls)) if where[v] in D[b] and (where[v]!=b or v in params[b]) and (v in seen or v in sum(params,[]))]
        av=[v for v in av if v not in sum([params[x] for x in range(nb) if x not in D[b]],[])]
        body=[]
        for _ in range(rnd.choice([1,2,3,4]) if b else rnd.choice([3,4,5])):
            if len(cls)>=28: break
            ops=[]
            for v in rnd.sample(av,min(len(av),rnd.choice([0,1,1,2]))):
                r=rnd.random()
                if r<.25 and sym<lim: sym+=1; ops.append(f"u{v}:{rnd.choice(['AR','RS','AS'])}")
                else: ops.append(f"u{v}:{rnd.choice('RRRAS')}"+rnd.choice(['','','','l']))
            if rnd.random()<.75:
                v=nv(b); seen.append(v)
                us=[j for j,o in enumerate(ops) if cls[int(o[1:o.index(':')])]==cls[v]]
                if us and rnd.random()<.35:
                    j=rnd.choice(us); ops[j]=ops[j].split(':')[0]+':R'; ops.append(f"d{v}:={j}")
                else: ops.append(f"d{v}:{rnd.choice('RRRAF') if cls[v]=='i' else 'R'}".replace('F','F%x.'%(1<<rnd.randrange(n))))
                av2=v
            else: av2=None
            if rnd.random()<.3:
                m=(1<<n)-1
                if any(':F' in o for o in ops if o[0]=='d') or any(o[0]=='d' for o in ops) and n<3: m=0
                elif any(o[0]=='d' for o in ops): m&=~(1<<rnd.randrange(n)); 
                if two: m|=0x20000
                if m: ops.append('c%x'%m)
            body.append('i '+' '.join(ops))
            if av2 is not None: av.append(av2)
        succ=[]
        for s in cfg[b]:
            args=[]
            for p in params[s]:
                c=[v for v in av if cls[v]==cls[p]]
                if not c: return None
                if sym<lim and len(c)>1 and rnd.random()<.3: sym+=1; args.append('|'.join(map(str,rnd.sample(c,2))))
                else: args.append(str(rnd.choice(c)))
            succ.append(f" {s}"+(f"({','.join(args)})" if args else ''))
        t='t'
        if all(len(preds[s])==1 for s in cfg[b]) and av and rnd.random()<.6:
            for v in rnd.sample(av,min(len(av),rnd.choice([1,2,4]))): t+=f" u{v}:{rnd.choice('RAA' if t=='t' else 'AAS')}"
        lines+=['b '+(','.join(map(str,params[b])) or '-')+''.join(succ)]+body+[t]
    if len(cls)>30: return None
    return '; '.join(['!']+env+['v '+''.join(cls)]+lines)

def gen_perm(rnd, alg):
    """another block order, entry anywhere, code that cannot be reached"""
    g=(gen if rnd.random()<.6 else gen_press)(rnd, alg)
    if not g: return None
    st=[x.strip() for x in g.split(';')]
    head=[]; blocks=[]; cls=None
    for x in st:
        if x[:1]=='b': blocks.append([x])
        elif x[:1] in 'it' and x[1:2] in ('',' ') and blocks: blocks[-1].append(x)
        elif x[:1]=='l': pass
        elif x[:2]=='v ': cls=x[2:]
        elif x: head.append(x)
    if len(blocks)<2 or not cls: return None
    import re
    def succs(b): return [(int(m.group(1)),m.group(2) or '') for m in re.finditer(r' (\d+)(\([^)]*\))?',b[0][b[0].index(' ',2):] if ' ' in b[0][2:] else '')]
    params=[[] if b[0].split()[1]=='-' else [int(v) for v in b[0].split()[1].split(',')] for b in blocks]
    np=[0]*len(blocks)
    for b in blocks:
        for t,_ in succs(b): np[t]+=1
    nb=len(blocks)
    dead=rnd.choice([0,0,1,1,2,3]); base=nb
    regs=bin(int(next(x for x in head if x.startswith('P0')).split()[1],16)).count('1')
    for k in range(dead):
        i=nb+k; mine=[]
        def nv(c):
            nonlocal cls
            cls+=c; return len(cls)-1
        cand=[t for t in range(nb) if np[t]>=2]
        body=[]
        for _ in range(rnd.choice([1,1,2])):
            v=nv('i'); u=rnd.choice(mine) if mine and rnd.random()<.5 else None
            body.append('i '+(f'u{u}:{rnd.choice("RAS")} ' if u is not None else '')+f'd{v}:{rnd.choice("RRAS")}'); mine.append(v)
        if k+1<dead and rnd.random()<.5:
            e=f' {i+1}'
        elif cand and rnd.random()<.8:
            t=rnd.choice(cand); a=[]
            for p in params[t]:
                c=[v for v in mine if cls[v]==cls[p]]
                if not c or rnd.random()<.3:
                    v=nv(cls[p]); body.append(f'i d{v}:{rnd.choice("RAS") if cls[p]=="i" else "A"}'); mine.append(v); c=[v]
                a.append(str(rnd.choice(c)))
            e=f' {t}'+(f'({",".join(a)})' if a else ''); np[t]+=1
        else: e=''
        if rnd.random()<.5 and mine: body.append(f'i u{rnd.choice(mine)}:A')
        blocks.append([f'b -{e}']+body+['t'])
    if len(cls)>30: return None
    n=len(blocks); order=list(range(n)); rnd.shuffle(order)
    at={b:i for i,b in enumerate(order)}
    out=[]
    for b in order:
        h=blocks[b][0]; p=h.split()[1]
        out.append('b '+p+''.join(f' {at[t]}{a}' for t,a in succs(blocks[b]))); out+=blocks[b][1:]
    if at[0]: head.insert(1,f'E {at[0]}')
    ni=sum(x[:1] in 'it' and x[1:2] in ('',' ') for x in out); lb=0
    for _ in range(rnd.choice([0,0,1,2])):
        v=rnd.randrange(len(cls)); s=rnd.randrange(ni); e=rnd.randrange(s+1,ni+1)
        out.append(f'l {v} {f"?{max(0,s-1)}-{s}" if rnd.random()<.5 else s} {e} {lb}'); lb+=rnd.random()<.6
    out=[x for x in out if x[:2]!='l ']+sorted((x for x in out if x[:2]=='l '),key=lambda x:int(x.split()[1]))
    return '; '.join(head+['v '+cls]+out)

def gen_tight(rnd, alg):
    """few registers, three classes, instructions that may or may not fit, from the first instruction on"""
    n=[rnd.choice([1,1,2,2,3]),rnd.choice([0,0,1,2]),rnd.choice([0,0,0,1,2])]
    env=[]
    for c in range(3):
        if not n[c]: continue
        q=rnd.randrange(n[c]+1) if rnd.random()<.3 else 0; sh=rnd.choice([0,0,0,3]) if c else 0
        m=((1<<n[c])-1)<<sh; lo=((1<<(n[c]-q))-1)<<sh
        env.append(f"P{c} {lo:x}"); 
        if m&~lo: env.append(f"Q{c} {m&~lo:x}")
        if rnd.random()<.4: env.append(f"X{c} {1<<(sh+n[c]):x}")
        n[c]=(n[c],sh)
    if rnd.random()<.4: env.append('z '+rnd.choice(['1 2 4','2 1 2','1 1 2']))
    if rnd.random()<.2: env.append('L')
    k=rnd.random()<.2
    if k: env.append("K0 %x"%(3<<6))
    cls=[]; sym=0; lim=rnd.choice([2,3,4])
    kinds=[c for c in range(3) if n[c]]
    def fix(c,one):
        r,sh=n[c]
        if k and c==0 and rnd.random()<.2: return 'F%x.'%(1<<rnd.choice([6,7]))
        rs=rnd.sample(range(r),1 if one else min(2,r)); return 'F%x.'%sum(1<<(16*c+sh+x) for x in rs)
    def body(av,count):
        nonlocal sym
        out=[]
        for _ in range(count):
            ops=[]
            for v in [rnd.choice(av) for _ in range(rnd.choice([0,1,1,2,3]))] if av else []:
                c='ifv'.index(cls[v]); r=rnd.random()
                if r<.3 and sym<lim: sym+=1; o=rnd.choice(['AR','RS','AS'])+(fix(c,True) if rnd.random()<.4 else '')
                elif r<.5: o=fix(c,True)
                else: o=rnd.choice('RRRAS')
                if not alg and rnd.random()<.06: o='L%d'%rnd.choice([1,2])
                p=rnd.random()
                if p<.15 and sym<lim: o+='x'; sym+=1
                elif p<.3: o+='l'
                ops.append(f"u{v}:"+o)
            nu=len(ops); nd=[]
            for _ in range(rnd.choice([0,1,1,2,3])):
                if len(cls)>=28: break
                c=rnd.choice(kinds); cls.append('ifv'[c]); v=len(cls)-1; nd.append(v)
                us=[j for j in range(nu) if 'ifv'.index(cls[int(ops[j][1:ops[j].index(':')])])==c and not any(o.endswith(f':={j}') for o in ops)]
                r=rnd.random()
                if us and r<.35:
                    j=rnd.choice(us); ops[j]=ops[j].split(':')[0]+':R'; ops.append(f"d{v}:={j}"); continue
                o=rnd.choice('RRRAS') if r<.7 or sym>=lim else (rnd.choice(['AR','RS']))
                if len(o)>1: sym+=1
                if .9<r: o=fix(c,True)
                p=rnd.random()
                if p<.15 and sym<lim: o+='x'; sym+=1
                elif p<.4: o+='e'
                ops.append(f"d{v}:"+o)
            if rnd.random()<.3:
                c=rnd.choice(kinds); r,sh=n[c]; m=rnd.randrange(1,1<<r)<<(sh+16*c)
                if bin(m).count('1')<=2 and sym<lim and rnd.random()<.5: ops.append('c?%x'%m); sym+=1
                else: ops.append('c%x'%m)
            if not any('=' in o for o in ops) and rnd.random()<.4: rnd.shuffle(ops)
            out.append('i '+' '.join(ops)); av=av+nd
        return out,av
    shape=rnd.choice(['one','one','chain','diamond','loop'])
    cfg={'one':[[]],'chain':[[1],[]],'diamond':[[1,2],[3],[3],[]],'loop':[[1],[2,3],[1],[]]}[shape]
    dom={0:[],1:[0],2:[0] if shape=='diamond' else [0,1],3:[0] if shape=='diamond' else [0,1]}
    preds=[sum(t==b for ss in cfg for t in ss) for b in range(len(cfg))]
    avs={}; lines=[]; ps=[[] for _ in cfg]
    for b in range(1,len(cfg)):
        if rnd.random()<.5:
            for _ in range(rnd.choice([1,1,2])):
                cls.append('ifv'[rnd.choice(kinds)]); ps[b].append(len(cls)-1)
    outs=[]
    for b in range(len(cfg)):
        av=list(ps[b])
        for d in dom[b]: av+=[v for v in avs[d] if v not in av]
        own,a2=body(av,rnd.choice([1,2,3,4]) if len(cfg)==1 else rnd.choice([1,1,2])); avs[b]=a2
        succ=''
        for s in cfg[b]:
            a=[]
            for p in ps[s]:
                c=[v for v in a2 if cls[v]==cls[p]]
                if not c: return None
                a.append(str(rnd.choice(c)))
            succ+=f" {s}"+(f"({','.join(a)})" if a else '')
        t='t'
        if all(preds[s]==1 for s in cfg[b]) and a2:
            for v in rnd.sample(a2,min(len(a2),rnd.choice([0,1,2]))): t+=f" u{v}:{rnd.choice('RAAS')}"
        lines+=['b '+(','.join(map(str,ps[b])) or '-')+succ]+own+[t]
    if len(cls)>30 or not cls: return None
    return '; '.join(['!']+env+['v '+''.join(cls)]+lines)

if __name__=='__main__':
    seed=int(sys.argv[1]); n=int(sys.argv[2]); alg=int(sys.argv[3]); mode=sys.argv[4] if len(sys.argv)>4 else 'cfg'
    rnd=random.Random(seed); fn={'cfg':gen,'inst':gen_inst,'press':gen_press,'perm':gen_perm,'tight':gen_tight}[mode]
    k=0
    while k<n:
        g=fn(rnd,alg)
        if g: print(g); k+=1
