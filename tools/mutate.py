#!/usr/bin/env python3-vt
"""Mutation testing of the checks: makes small edits in scratch copies of /repo and runs the checks
of the properties anchored in the edited file until one of them reports a violation.
usage: mutate.py OUT.jsonl N_PER_FILE SEED WORKERS [file ...]     (never touches /repo)"""
import sys,os,re,json,random,subprocess,threading,queue,collections,time,shutil
out,N,seed,W=sys.argv[1],int(sys.argv[2]),int(sys.argv[3]),int(sys.argv[4]); only=sys.argv[5:]
V='/verif'; R='/repo'; ncpu=os.cpu_count()
props=collections.OrderedDict()
for l in open(V+'/properties.jsonl'):
    p=json.loads(l)
    for f in p['anchors']['files']: props.setdefault(f,[]).append(p['id'])
files=only or [f for f in props if os.path.exists(R+'/'+f)]
def mask(s): # comments and string literals blanked, same length
    o=list(s); i=0
    for m in re.finditer(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|^[ \t]*#(?:[^\n]*\\\n)*[^\n]*',s,re.S|re.M):
        for k in range(m.start(),m.end()):
            if o[k]!='\n': o[k]=' '
    return ''.join(o)
OPS=[(r'(?<![<>=!\-+&|])<=(?!=)',['<','==']),(r'(?<![<>=!\-])>=(?!=)',['>','==']),(r'(?<= )<(?= )',['<=','>']),(r'(?<= )>(?= )',['>=','<']),(r'==',['!=']),(r'!=(?!=)',['==']),
 (r'&&',['||']),(r'\|\|',['&&']),(r'(?<=[\w\)\]] )\+(?= ?[\w\(])',['-']),(r'(?<=[\w\)\]] )-(?= ?[\w\(])',['+']),(r'(?<=[\w\)\]] )\*(?= ?[\w\(])',['/']),(r'(?<=[\w\)\]] )/(?= ?[\w\(])',['*']),
 (r'\+\+',['--']),(r'\+=',['-=','=']),(r'-=',['+=']),(r'\btrue\b',['false']),(r'\bfalse\b',['true']),(r'(?<=[\(, =\[<>+\-])[01](?=[\), ;\]])',['NUM']),(r'(?<![\w.])[2-9]\d*(?![\w.])',['NUM']),
 (r'(?<=[\(\s&|])!(?=\s*[\w\(])',['']),(r'\bfirst\b',['second']),(r'\bx\b',['y']),(r'\by\b',['x']),(r'\.begin\b',['.end']),(r'\brow',['col']),(r'\bwidth\b',['height']),(r'\bdepth\b',['height']),(r'\breturn\s+\w[^;]*;',['NOSTMT']),
 (r'(?<=[;{}]\n)[ \t]*[\w>:.\-\[\]\(\)\*]+\s*(?:=|\+=|\()[^;{}]*;',['DEL']),(r'\bbreak;',['']),(r'\bcontinue;',['']),(r'\bconst\s*&',['const ']) if 0 else (r'\belse if\b',['if']),(r'(?<=if) \(.*\)$',['NEG']),(r'(?<=if)\( .* \)$',['NEG']),(r'\blower',['upper']),(r'\bmin\b',['max']),(r'\bmax\b',['min'])]
def gen(f):
    s=open(R+'/'+f).read(); m=mask(s); res=[]
    for rx,reps in OPS:
        for k in re.finditer(rx,m,re.M):
            t=s[k.start():k.end()]
            l0=s.rfind('\n',0,k.start())+1; line=m[l0:s.find('\n',k.start())]
            if t.strip() in('<','>') and re.search(r'template|_cast|Matrix|vector|_ptr|map|list|set<|set <|typename|include|operator|->',line): continue
            if re.search(r'\bvirtual\b|= 0;|\bdefault\b|#define',line): continue
            for r in reps:
                if r=='NUM': new=str(int(t)+1)
                elif r=='NOSTMT': continue
                elif r=='DEL':
                    if re.match(r'\s*(return|typedef|using|template|virtual|friend|static|const)\b',t) or not re.match(r'[ \t]',t): continue
                    new='  ;'
                elif r=='NEG': new='( !( %s ) )'%t.strip()[1:-1]
                else: new=r
                res.append((k.start(),k.end(),new))
    return s,res
rnd=random.Random(seed); jobs=[]
done=set()
if os.path.exists(out):
    for l in open(out): j=json.loads(l); done.add((j['file'],j['pos'],j['new']))
for f in files:
    s,res=gen(f); rnd.shuffle(res); k=0
    for (a,b,n) in res:
        if k>=N: break
        k+=1
        if (f,a,n) in done: continue
        jobs.append((f,a,b,n))
rnd.shuffle(jobs); q=queue.Queue(); [q.put(j) for j in jobs]; total=len(jobs); lock=threading.Lock(); cnt=[0]; tally=collections.Counter()
order=collections.Counter()
import glob,shlex
def syntax(rep,bld,f):
    cc=sorted(glob.glob(bld+'/cfg-*/compile_commands.json'))
    if not cc: return True
    es=json.load(open(cc[-1])); c=f.endswith('.c')
    e=next((e for e in es if e['file']==rep+'/'+f),None) or next(e for e in es if '/vital/config/' in e['file'])
    fl=[t for t in shlex.split(e['command']) if t.startswith(('-I','-D','-std'))]; src=rep+'/'+f
    if not e['file'].endswith(f): open(bld+'/syn.cxx','w').write('#include "%s"\n'%src); src=bld+'/syn.cxx'
    a=shlex.split(e['command'])
    for i,t in enumerate(a):
        if t=='-isystem': fl+=[t,a[i+1]]
    if not any(t.startswith('-std') for t in fl) and not c: fl.append('-std=c++11')
    return subprocess.run(['clang' if c else 'clang++','-fsyntax-only','-w']+fl+[src],capture_output=True).returncode==0
def work(k):
    rep='/tmp/mut/w%d'%k; bld='/tmp/mut/b%d'%k; os.makedirs('/tmp/mut',exist_ok=True)
    if not os.path.exists(rep): subprocess.run(['git','clone','-q',R,rep],check=True)
    subprocess.run('git fetch -q && git checkout -qf --detach origin/HEAD && git checkout -qf .',shell=True,cwd=rep)
    per=ncpu//W; cpus='%d-%d'%(k*per,k*per+per-1)
    while True:
        try: f,a,b,n=q.get_nowait()
        except queue.Empty: return
        s=open(R+'/'+f).read(); p=rep+'/'+f; open(p,'w').write(s[:a]+n+s[b:])
        ln=s.count('\n',0,a)+1; st='survived'; t0=time.time(); runs=[]
        try:
            if not syntax(rep,bld,f): raise SyntaxError
            for pid in sorted(props.get(f,[]),key=lambda x:-order[(f,x)]):
                env=dict(os.environ,SX_REPO=rep,SX_BUILD=bld,SX_BUDGET='240',SX_MAXVIOL='1',SX_NOREPLAY='1',SX_EVID='/tmp/mut/e%d'%k)
                try: r=subprocess.run(['taskset','-c',cpus,'python3',V+'/bin/sxcheck',pid,'quick'],env=env,capture_output=True,text=True,timeout=600); rc=r.returncode; tx=r.stdout
                except subprocess.TimeoutExpired: rc=3; tx='timeout'
                if rc==2 and 'build failed' in tx: st='nobuild'; break
                runs.append((pid,rc))
                if rc==1: st='killed '+pid; order[(f,pid)]+=1; break
                if rc>=2: st='noanswer '+pid+' '+tx[:300]
        except SyntaxError: st='nobuild'
        finally: open(p,'w').write(s)
        with lock:
            cnt[0]+=1; tally[st.split()[0]]+=1
            l=s.split('\n')[ln-1]; col=a-(s.rfind('\n',0,a)+1)
            open(out,'a').write(json.dumps(dict(file=f,line=ln,pos=a,old=s[a:b],new=n,text=l,state=st,runs=runs,secs=round(time.time()-t0)))+'\n')
            print('%d/%d %s %s'%(cnt[0],total,dict(tally),'' if st.startswith(('killed','nobuild')) else '%s:%d [%s]->[%s] %s   %s'%(f,ln,s[a:b].strip(),n,l.strip(),st[:200])),flush=True)
ts=[threading.Thread(target=work,args=(k,)) for k in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
