#!/usr/bin/env python3
"""Run one property's check:  check.py <ID> [--tier quick|thorough]
Regenerates the encoding (LLVM IR) from /repo's current sources plus the harness, executes it symbolically with
engine/vfe, replays counterexamples natively, writes evidence/<ID>.json.
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself could not run."""
import sys, os, json, subprocess, time, shutil, hashlib, re, glob
from concurrent.futures import ThreadPoolExecutor
V=os.path.dirname(os.path.abspath(__file__)); REPO=os.environ.get('VF_REPO','/repo'); SRC=REPO+'/src'
sys.path.insert(0,V)
from props import PROPS, ASSUME
BUILD=V+'/build'
LIBS=['libboost_thread.so.1.83.0','libboost_filesystem.so.1.83.0','libboost_system.so.1.83.0','libboost_regex.so.1.83.0']
HDF=['/usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so','/usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5_cpp.so']
LLVMCFG='llvm-config-18'

def sh(cmd,**k): return subprocess.run(cmd,shell=isinstance(cmd,str),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def need(r,what):
    if r.returncode!=0:
        print('ERROR',what); print(r.stdout[-4000:]); sys.exit(2)

def engine():
    src=[V+'/engine/'+f for f in ('interp.cpp','smt.hpp','norm.hpp','expr.hpp')]
    h=hashlib.sha256(b''.join(open(f,'rb').read() for f in src)).hexdigest()[:16]
    exe=f'{BUILD}/vfe-{h}'
    if not os.path.exists(exe):
        os.makedirs(BUILD,exist_ok=True)
        for o in glob.glob(BUILD+'/vfe-*'): os.unlink(o)
        flags=sh(f'{LLVMCFG} --cppflags').stdout.split()
        tmp=exe+f'.{os.getpid()}'
        need(sh(['clang++','-std=c++17','-O2','-w','-o',tmp,src[0]]+flags+['-L/usr/lib/llvm-18/lib','-lLLVM-18','-lz3','-lffi','-lgmpxx','-lgmp','-ldl','-fexceptions']),'engine build')
        os.rename(tmp,exe)
    return exe

def core_sources(h5):
    """the library's C++ sources as the project's own build file lists them"""
    t=open(SRC+'/CMakeLists.txt').read()
    fs=[]
    for m in re.finditer(r'set\(\s*flame_core_files(.*?)\)',t,re.S):
        for f in re.findall(r'[\w./-]+\.(?:cpp|cc|cxx)\b',m.group(1)):
            if f not in fs: fs.append(f)
    if not h5: fs=[f for f in fs if not os.path.basename(f).startswith('h5')]
    return fs

def main():
    pid=sys.argv[1]; tier=os.environ.get('VERIF_TIER','quick')
    if '--tier' in sys.argv: tier=sys.argv[sys.argv.index('--tier')+1]
    P=PROPS[pid]; t0=time.time(); verbose='-v' in sys.argv
    exe=engine()
    W=f'{BUILD}/work-{pid}-{os.getpid()}'; shutil.rmtree(W,ignore_errors=True); os.makedirs(W)
    rc=2
    try: rc=run(pid,P,tier,exe,W,t0,verbose)
    finally:
        if '--keep' not in sys.argv: shutil.rmtree(W,ignore_errors=True)
    sys.exit(rc)

CF=['-O1','-fno-vectorize','-fno-slp-vectorize','-ffp-contract=off','-fwrapv','-DNDEBUG','-w','-mllvm','-phi-node-folding-threshold=0','-mllvm','-two-entry-phi-node-folding-threshold=0']
def incs(W): return ['-I'+SRC,'-I'+W,'-I'+V+'/harness','-I/usr/include/hdf5/serial']

DEVCACHE=os.environ.get('VF_DEVCACHE')   # development only: reuse IR of identical sources
def cc(j):
    if not DEVCACHE: return sh(j[0])
    W=os.path.dirname(j[1]); h=hashlib.sha256()
    for f in sorted(glob.glob(SRC+'/*.[chyl]*')+glob.glob(SRC+'/flame/**/*.h',recursive=True)+glob.glob(V+'/harness/*.h')): h.update(open(f,'rb').read())
    f=j[2] if os.path.isabs(j[2]) else W+'/'+j[2]
    h.update(open(f,'rb').read() if os.path.exists(f) else b''); h.update(' '.join(j[0]).replace(W,'@').encode())
    c=DEVCACHE+'/'+h.hexdigest()
    if os.path.exists(c): shutil.copy(c,j[1]); return subprocess.CompletedProcess(j[0],0,'','')
    r=sh(j[0])
    if r.returncode==0: shutil.copy(j[1],c)
    return r
def compile_all(P,W,mode):
    """mode 'bc': LLVM IR for the interpreter; 'asan': native objects with the address sanitizer"""
    h5=P.get('h5',False); jobs=[]
    defs=['-DUSE_HDF5'] if h5 else []
    defs+=P.get('defs',[])+['-DVF_DATA="'+V+'/harness/data"']
    out='.bc' if mode=='bc' else '.o'
    extra=['-emit-llvm'] if mode=='bc' else ['-g','-fsanitize=address,undefined','-fno-sanitize-recover=undefined','-fno-sanitize=vptr,alignment,nonnull-attribute,enum,bool,float-cast-overflow,pointer-overflow,null']
    srcs=[] if P.get('nocore') else [SRC+'/'+f for f in core_sources(h5)]
    for f in srcs+[V+'/harness/'+x for x in P['harness']]+[REPO+'/'+x for x in P.get('extra_src',[])]:
        jobs.append((['clang++','-std=gnu++17']+CF+defs+extra+incs(W)+['-c',f,'-o',W+'/'+os.path.basename(f)+out],W+'/'+os.path.basename(f)+out,f))
    if not P.get('nocore'):
        for f in ('glps.par.c','glps.tab.c'):
            jobs.append((['clang']+CF+defs+extra+incs(W)+['-c',W+'/'+f,'-o',W+'/'+f+out],W+'/'+f+out,f))
    if mode!='bc': jobs.append((['clang++','-std=gnu++17','-O1','-g','-DVF_ASAN','-fsanitize=address','-c',V+'/native/vf_native.cpp','-o',W+'/vf_native.o'],W+'/vf_native.o','native'))
    with ThreadPoolExecutor(8) as ex: res=list(ex.map(cc,jobs))
    for r,j in zip(res,jobs): need(r,'compile '+j[2])
    return [j[1] for j in jobs]

def run(pid,P,tier,exe,W,t0,verbose):
    if not P.get('nocore'):
        need(sh(['bison','-o','glps.par.c','--defines=glps.par.h',SRC+'/glps.y'],cwd=W),'bison')
        need(sh(['flex','-o','glps.tab.c','--header-file=glps.tab.h',SRC+'/glps.l'],cwd=W),'flex')
    objs=compile_all(P,W,'bc')
    bc=W+'/all.bc'; need(sh(['llvm-link-18','-o',bc]+objs),'llvm-link')
    tb=time.time()-t0
    budget=P.get('time',{}).get(tier, 420 if tier=='quick' else 3000)
    out=W+'/out'; os.makedirs(out)
    env=dict(os.environ,VF_TIER='1' if tier=='thorough' else '0',VF_WORK=W)
    cmd=[exe,'--bc',bc,'--out',out,'--jobs','8','--time',str(budget),'--wall',str(P.get('wall',20 if tier=='quick' else 60))]
    for l in LIBS+(HDF if P.get('h5') else []): cmd+=['--lib',l]
    if verbose: cmd+=['-v']
    r=sh(cmd,env=env,cwd=W)
    if verbose: print(r.stdout)
    if not os.path.exists(out+'/summary.json'): print('ERROR engine',r.stdout[-3000:]); return 2
    S=json.load(open(out+'/summary.json')); log=[]
    if os.path.exists(out+'/log.jsonl'):
        for l in open(out+'/log.jsonl',errors='replace'):
            try: log.append(json.loads(l))
            except Exception: pass
    viols=[x for x in log if x.get('t')=='viol']
    inc=[x for x in log if x.get('t')=='unknown' or (x.get('t')=='path' and x.get('status')=='inconclusive')]
    # native build of the same IR: replays counterexamples and path witnesses on compiled code
    nat=None
    def native():
        nonlocal nat
        if nat is None:
            nat=W+'/native'
            need(sh(['clang++','-std=gnu++17','-O1','-w','-ftrivial-auto-var-init=pattern','-o',nat,bc,V+'/native/vf_native.cpp','-lboost_thread','-lboost_filesystem','-lboost_system','-lboost_regex','-lpthread','-lm']+(HDF if P.get('h5') else [])),'native link')
        return nat
    asan=None
    def sanit():
        nonlocal asan
        if asan is None:
            A=W+'/asan'; os.makedirs(A,exist_ok=True)
            for f in glob.glob(W+'/glps.*.[ch]'): shutil.copy(f,A)
            o=compile_all(P,A,'asan'); asan=A+'/asan'
            need(sh(['clang++','-fsanitize=address,undefined','-o',asan]+o+['-lboost_thread','-lboost_filesystem','-lboost_system','-lboost_regex','-lpthread','-lm']+(HDF if P.get('h5') else [])),'sanitizer link')
        return asan
    def replay(f,ident):
        scratch=W+'/scratch'; os.makedirs(scratch,exist_ok=True)
        def go(b):
            try: return subprocess.run(['timeout','-s','KILL','120',b,f],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',cwd=scratch,env=dict(env,ASAN_OPTIONS='detect_leaks=0:exitcode=77',UBSAN_OPTIONS='print_stacktrace=1'))
            except Exception as e: return None
        if ident=='memory-safety':
            r=go(sanit()); 
            if r and r.returncode not in (0,2): return True,r.stdout
            r=go(native())
            return (r is not None and (r.returncode<0 or r.returncode>=128)),(r.stdout if r else '')
        r=go(native())
        return (r is not None and r.returncode not in (0,2)),(r.stdout if r else '')
    known=[]
    kf=V+'/known-findings.json'
    if os.path.exists(kf): known=[k for k in json.load(open(kf)).get('findings',[]) if k['property']==pid and k.get('status')=='known']
    confirmed={}; unconfirmed={}; tried={}
    for v in viols:
        i=v['id']
        if i in confirmed or tried.get(i,0)>=6: continue
        tried[i]=tried.get(i,0)+1
        ok,txt=replay(v['file'],i)
        if ok: confirmed[i]=(v,txt); unconfirmed.pop(i,None)
        else: unconfirmed[i]=(v,txt)
    reported=0; knownseen=0
    for i,(v,txt) in confirmed.items():
        k=[k for k in known if k['assertion']==i]
        if k: knownseen+=1; print(f"KNOWN-FINDING: property={pid} {k[0]['what']}"); continue
        os.makedirs(V+'/replays',exist_ok=True)
        rp=f'{V}/replays/{pid}-{reported}.txt'
        with open(rp,'w') as o:
            o.write(open(v['file']).read()); o.write(f"# property {pid}\n# harness {','.join(P['harness'])}\n# assertion {i}\n# solver/engine: {v['what']}\n# native replay output:\n"); o.write(''.join('#   '+l+'\n' for l in txt.splitlines()[:40]))
        print(f'  assertion "{i}": {v["what"][:300]}')
        for l in txt.splitlines()[:3]: print('   ',l[:300])
        print(f'VIOLATION property={pid} replay={rp}'); reported+=1
    # validate the encoding: replay sampled path witnesses on the compiled code
    wit=sorted(glob.glob(out+'/path_*.txt'),key=lambda f:int(re.findall(r'path_(\d+)',f)[0]))[:12 if tier=='quick' else 200]
    valid=0; bad=[]
    if wit and not reported:
        native()
        def one(f): return f,replay(f,'witness')
        with ThreadPoolExecutor(8) as ex:
            for f,(ok,txt) in ex.map(one,wit):
                if ok and all(any(l.startswith('REPLAY FAIL '+k['assertion']+':') for k in known) for l in txt.splitlines() if l.startswith('REPLAY FAIL')): valid+=1
                elif ok: bad.append((f,txt))
                else: valid+=1
    for f,txt in bad:
        print('NOTE path witness disagrees with native run:',txt[:300].replace('\n',' | '))
        if verbose: print(open(f).read())
    for i,(v,txt) in unconfirmed.items(): print(f'NOTE candidate for "{i}" did not reproduce natively: {v["what"][:200]}')
    for x in inc[:8]: print('NOTE not decided:',(x.get('id') or x.get('why') or '')[:300])
    covers={k[6:]:v for k,v in S['asserts_by_id'].items() if k.startswith('cover:')}
    wits={k[8:]:v for k,v in S['asserts_by_id'].items() if k.startswith('witness:')}
    asserts={k:v for k,v in S['asserts_by_id'].items() if not k.startswith(('cover:','witness:'))}
    fns=[re.sub(r'\s+',' ',f) for f in S['functions'] if not f.startswith(('std::','void std::','boost::','__gnu','vf_','unsigned long std','bool std','double boost','void boost','bool boost'))]
    vac=[c for c in P.get('must_cover',['end']) if not wits.get(c)]
    for c in vac: print('NOTE coverage point not reached with a witness:',c)
    sample=[]
    for f in wit[:3]: sample.append({'path witness':[l.strip() for l in open(f) if not l.startswith('#')][:40]})
    ev={'property':pid,'tier':tier,'seed':int(os.environ.get('VERIF_SEED','1')),'level':'model_checking','wall_s':round(time.time()-t0,2),'violations':reported,
     'coverage':{'states':S['paths'],'transitions':S['forks'],'traces_validated_against_impl':valid,'samples':sample,
       'bounds':P['bounds'],'outside':P.get('outside',''),
       'paths_completed':S['ended'],'paths_infeasible':S['infeasible'],'undecided':S['inconclusive'],'instructions_interpreted':S['instructions'],
       'assertions_checked':S['asserts'],'assertions_closed_by_constant_folding':S['syntactic'],'assertions_decided_by_tolerance_query':S['tolerance'],'assertions_by_id':asserts,
       'queries':{'total':S['queries'],'unsat':S['unsat'],'sat':S['sat'],'unknown':S['unknown'],'escalated_to_z3new_cvc5':S['external']},'solver_time_s':S['solver_s'],
       'domain_assumptions_added':S['domain'],'reachability_witnesses':wits,'coverage_points':covers,
       'functions_encoded_count':len(S['functions']),'functions_encoded':fns[:400],
       'undecided_list':[(x.get('id') or x.get('why') or '')[:200] for x in inc[:20]],
       'unconfirmed_candidates':sorted(unconfirmed),'known_findings_seen':knownseen,'native_witness_disagreements':len(bad),
       'build_s':round(tb,2),'exhaustive':S['inconclusive']==0},
     'assumptions':ASSUME+P.get('assume',[])}
    os.makedirs(V+'/evidence',exist_ok=True)
    json.dump(ev,open(f'{V}/evidence/{pid}.json','w'),indent=1)
    print(f"{pid} {tier}: paths {S['paths']} (undecided {S['inconclusive']}), asserts {S['asserts']}, queries {S['queries']} (unknown {S['unknown']}), solver {S['solver_s']:.1f}s, witnesses replayed {valid}, violations {reported}, {time.time()-t0:.1f}s")
    return 1 if reported else 0
if __name__=='__main__': main()
