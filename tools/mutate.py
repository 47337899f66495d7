#!/usr/bin/env python3
"""Mutation testing of the checks (development tool, no check uses it).
mutate.py OUT.jsonl [--files A.c,B.c] [--sample N] [--seed S] [--props C01,..] [--all] [--cases DIV] [--jobs J] [--only file:line]
Makes one-token mutants of /repo/src, builds each as a shared library that the prebuilt checks load, and runs every check
with 1/DIV of its quick cases; without --all it stops at the first check that reports a violation."""
import sys,os,re,subprocess,random,json,tempfile,shutil,glob,argparse,threading,queue,time
A=argparse.ArgumentParser(); A.add_argument('out'); A.add_argument('--files',default=''); A.add_argument('--sample',type=int,default=0)
A.add_argument('--seed',type=int,default=1); A.add_argument('--props',default=''); A.add_argument('--all',action='store_true')
A.add_argument('--cases',type=float,default=20); A.add_argument('--jobs',type=int,default=8); A.add_argument('--only',default=''); A.add_argument('--again',default='')
a=A.parse_args()
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R='/repo/src'
W=tempfile.mkdtemp(prefix='/tmp/mutate-')
SAN='-fsanitize=address,bounds,null,integer-divide-by-zero,return,vla-bound,object-size,alignment,unreachable -fno-sanitize-recover=all -fno-omit-frame-pointer'
CF=f'-O1 -fPIC {SAN} -w'
WRAP='-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free'
props=a.props.split(',') if a.props else sorted(os.path.basename(p)[:-4] for p in glob.glob(V+'/props/C*.cpp'))
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def base():
    os.makedirs(W+'/base'); cmds=[]
    srcs=sorted(os.path.basename(p)[:-2] for p in glob.glob(R+'/*.c'))
    for s in srcs: cmds.append(f'clang {CF} -fwrapv -I{R} -c {R}/{s}.c -o {W}/base/{s}.o')
    cmds.append(f'clang {CF} -c {V}/src/shim.c -o {W}/shim.o'); cmds.append(f'clang++ -std=c++17 {CF} -c {V}/src/engine.cpp -o {W}/engine.o')
    for p in props: cmds.append(f'clang++ -std=c++17 {CF} -I{R} -I{V}/src -c {V}/props/{p}.cpp -o {W}/{p}.o')
    r=subprocess.run(['xargs','-P','8','-I{}','sh','-c','{} || exit 255'],input='\n'.join(cmds),text=True)
    assert r.returncode==0
    r=sh(f'clang -O1 -shared {SAN} {WRAP} -Wl,-soname,libblip.so {W}/base/*.o -lm -o {W}/base/libblip.so'); assert r.returncode==0,r.stderr
    cmds=[f'clang++ -O1 {SAN} {WRAP} -rdynamic {W}/{p}.o {W}/engine.o {W}/shim.o {W}/base/libblip.so -lm -o {W}/{p}.exe' for p in props]
    r=subprocess.run(['xargs','-P','8','-I{}','sh','-c','{} || exit 255'],input='\n'.join(cmds),text=True); assert r.returncode==0
    for s in srcs: sh(f'clang {CF} -fwrapv -I{R} -S {R}/{s}.c -o {W}/base/{s}.s')
    return srcs
QC={}
for p in props:
    m=re.findall(r', (\d+), (\d+), \w+, \{',open(f'{V}/props/{p}.cpp').read()); QC[p]=int(m[-1][0]) if m else 40000
def strip(s):
    # blank comments and strings, keep positions
    def b(m): return re.sub(r'[^\n]',' ',m.group(0))
    return re.sub(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'',b,s,flags=re.S)
SW={'<':'<=','<=':'<','>':'>=','>=':'>','==':'!=','!=':'==','+':'-','-':'+','*':'/','/':'*','<<':'>>','>>':'<<','&&':'||','||':'&&','+=':'-=','-=':'+=','++':'--','--':'++','&':'|','|':'&','|=':'&=','&=':'|='}
def mutants(f):
    s=open(f'{R}/{f}').read(); t=strip(s); out=[]; pos=0
    depth=0; lines=t.split('\n'); pre=False
    for ln,l in enumerate(lines,1):
        st=pos; pos+=len(l)+1
        d0=depth; depth+=l.count('{')-l.count('}')
        if pre or l.lstrip().startswith('#'): pre=l.rstrip().endswith('\\'); continue
        if d0<=0 or len(re.findall(r'\d+,',l))>5: continue
        for m in re.finditer(r'->|<<=|>>=|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||\+=|-=|\*=|/=|\|=|&=|[-+*/<>&|]',l):
            o=m.group(0)
            if o not in SW: continue
            sp=l[:m.start()]; nx=l[m.end():m.end()+1]
            if o in '*&+-' and (re.search(r'[\w)\]]\s*$',sp) is None or re.search(r'\b(return|case)\s*$',sp)): continue
            if o=='*' and re.search(r'\b(BK\w+|void|char|int|const|unsigned)\s*$',sp): continue
            out.append((f,ln,st+m.start(),len(o),SW[o],'op'))
        for m in re.finditer(r'(?<![\w.])(\d+|0x[0-9a-fA-F]+)(?![\w.])',l):
            v=int(m.group(0),0)
            if re.search(r'\bcase\b',l): continue
            out.append((f,ln,st+m.start(),len(m.group(0)),str(v+1),'const+'))
            if v>0: out.append((f,ln,st+m.start(),len(m.group(0)),str(v-1),'const-'))
        m=re.match(r'(\s*)(\S.*;)\s*$',l)
        if m and not re.match(r'(BK\w+|char|int|void|const|static|struct|unsigned|float|double|size_t|uint\w+|FILE)\s+\**\s*\w+(\s*[=;,\[]|\s+\*)',m.group(2)) and not re.match(r'return|goto|\}',m.group(2)) and l.count('(')==l.count(')'):
            out.append((f,ln,st+len(m.group(1)),len(m.group(2)),';','del'))
        m=re.search(r'\b(if|while) \((.*)\)( \{)?\s*$',l)
        if m and m.group(2).count('(')==m.group(2).count(')'):
            i=l.index(m.group(1)+' (')+len(m.group(1))+2
            if m.group(1)=='if': out.append((f,ln,st+i,len(m.group(2)),'1','if1'))
            out.append((f,ln,st+i,len(m.group(2)),'0','if0'))
            for part in re.finditer(r'(?:^|&&|\|\|)([^&|]+)',m.group(2)):
                pass
    return out
def run(mu,slot):
    f,ln,p,n,new,kind=mu
    d=f'{W}/m{slot}'; shutil.rmtree(d,ignore_errors=True); os.makedirs(d+'/root'); os.makedirs(d+'/s')
    s=open(f'{R}/{f}').read(); s2=s[:p]+new+s[p+n:]; open(d+'/'+f,'w').write(s2)
    b=f[:-2]; exe={}
    if f.endswith('.h'):   # everything is compiled with the changed header, and the checks that call its functions themselves
        shutil.copytree(R,d+'/src'); open(f'{d}/src/{f}','w').write(s2); same=True; objs=[]
        for x in srcs:
            if sh(f'clang {CF} -fwrapv -I{d}/src -S {d}/src/{x}.c -o {d}/{x}.s').returncode: return None
            if [y for y in open(f'{d}/{x}.s') if not y.startswith('\t.file')]==[y for y in open(f'{W}/base/{x}.s') if not y.startswith('\t.file')]: objs.append(f'{W}/base/{x}.o'); continue
            same=False; objs.append(f'{d}/{x}.o')
            if sh(f'clang {CF} -c {d}/{x}.s -o {d}/{x}.o').returncode: return None
        r=sh(f'clang -O1 -shared {SAN} {WRAP} -Wl,-soname,libblip.so {" ".join(objs)} -lm -o {d}/libblip.so')
        if r.returncode: return None
        for q in ('C07','C27','C38'):
            if q in props:
                if sh(f'clang++ -std=c++17 {CF} -I{d}/src -I{V}/src -c {V}/props/{q}.cpp -o {d}/{q}.o && clang++ -O1 {SAN} {WRAP} -rdynamic {d}/{q}.o {W}/engine.o {W}/shim.o {d}/libblip.so -lm -o {d}/{q}.exe').returncode: return None
                exe[q]=f'{d}/{q}.exe'
    else:
     r=sh(f'clang {CF} -fwrapv -I{R} -S {d}/{f} -o {d}/{b}.s')
     if r.returncode: return None
     if [x for x in open(f'{d}/{b}.s') if not x.startswith('\t.file')]==[x for x in open(f'{W}/base/{b}.s') if not x.startswith('\t.file')]: return None
     objs=' '.join(x for x in glob.glob(W+'/base/*.o') if os.path.basename(x)!=b+'.o')
     r=sh(f'clang {CF} -c {d}/{b}.s -o {d}/{b}.o && clang -O1 -shared {SAN} {WRAP} -Wl,-soname,libblip.so {objs} {d}/{b}.o -lm -o {d}/libblip.so')
     if r.returncode: return None
    line=s.split('\n')[ln-1].strip(); nl=s2.split('\n')[ln-1].strip()
    res={'file':f,'line':ln,'kind':kind,'old':line,'new':nl,'pos':p,'len':n,'text':new,'caught':[],'missed':[],'odd':[]}
    order=props[:]; order.sort(key=lambda x:-HIT.get((b,x),0))
    for q in order:
        env=dict(os.environ,LD_LIBRARY_PATH=d,VP_ROOT=d+'/root',VP_SCRATCH=d+'/s',VP_WORKERS='1',VP_CASES=str(max(200,int(QC[q]/a.cases))),VP_NOSHRINK='1',VERIF_SEED='1',LC_ALL='C',
          ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:exitcode=99:symbolize=0:handle_abort=1:max_malloc_fill_size=0')
        try: r=subprocess.run([exe.get(q,f'{W}/{q}.exe'),q],env=env,capture_output=True,text=True,timeout=240,errors='replace')
        except subprocess.TimeoutExpired: res['odd'].append(q+' timeout'); continue
        if r.returncode==1 and 'VIOLATION' in r.stdout:
            res['caught'].append(q); HIT[(b,q)]=HIT.get((b,q),0)+1
            if not a.all: break
        elif r.returncode==0: res['missed'].append(q)
        else: res['odd'].append(f'{q} rc{r.returncode}')
    return res
HIT={}
try:
    srcs=base()
    files=a.files.split(',') if a.files else [s+'.c' for s in srcs]
    ms=[m for f in files for m in mutants(f)]
    if a.only: f,l=a.only.split(':'); ms=[m for m in ms if m[0]==f and m[1]==int(l)]
    if a.again:
        ms=[(r['file'],r['line'],r['pos'],r['len'],r['text'],r['kind']) for r in map(json.loads,open(a.again))]
    print(len(ms),'mutants',flush=True)
    random.Random(a.seed).shuffle(ms)
    if a.sample: ms=ms[:a.sample]
    Q=queue.Queue(); [Q.put(m) for m in ms]; L=threading.Lock(); n=[0,0,0]; out=open(a.out,'w'); t0=time.time()
    def work(slot):
        while True:
            try: m=Q.get_nowait()
            except queue.Empty: return
            r=run(m,slot)
            with L:
                n[0]+=1
                if r is None: n[1]+=1; continue
                out.write(json.dumps(r)+'\n'); out.flush()
                if not r['caught']: n[2]+=1; print(f"[{n[0]}/{len(ms)} {time.time()-t0:.0f}s] SURVIVES {r['file']}:{r['line']} {r['kind']}: {r['old']} => {r['new']} {r['odd']}",flush=True)
    T=[threading.Thread(target=work,args=(i,)) for i in range(a.jobs)]
    [t.start() for t in T]; [t.join() for t in T]
    print(f'{n[0]} mutants, {n[1]} equal or not compiling, {n[2]} survive all, {time.time()-t0:.0f}s')
finally: shutil.rmtree(W,ignore_errors=True)
