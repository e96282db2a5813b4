// vfe: symbolic execution of LLVM IR (compiled from the project's current sources together with a harness).
// Concrete bytes live in the process's own memory, symbolic values in a byte-granular shadow; every branch on a
// symbolic condition is decided with the SMT solver and both feasible sides are explored (fork per side).
#include "smt.hpp"
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <ffi.h>
#include <dlfcn.h>
#include <cxxabi.h>
#include <atomic>
#include <functional>
#include <typeinfo>
#include <exception>
#include <sys/resource.h>
#include <sys/time.h>
#include <fcntl.h>
#include <stdarg.h>
using namespace llvm;

// ---------------------------------------------------------------- guest memory
static const uint64_t GBASE=0x200000000000ull, GSIZE=48ull<<30, SBASE=GBASE+GSIZE, SSIZE=8ull<<30, GEND=SBASE+SSIZE;
static uint8_t*shadow; static uint64_t hp=GBASE+4096, sp=SBASE+4096;
struct SymPage{ int node[4096]; uint8_t off[4096]; int cnt; };
static SymPage**symPg;
static bool guestMode=false;
static const uint64_t POISON=0x7ffbadbadbadbad5ull;
static inline bool inGuest(uint64_t a){ return a>=GBASE&&a<GEND; }
static void initMem(){
    void*p=mmap((void*)GBASE,GSIZE+SSIZE,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0);
    if(p==MAP_FAILED){perror("mmap guest");_exit(3);} 
    shadow=(uint8_t*)mmap(0,(GSIZE+SSIZE)/8,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
    symPg=(SymPage**)mmap(0,(GSIZE+SSIZE)/4096*8,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
}
static void setShadow(uint64_t a,uint64_t sz,uint8_t v){ // v: 8 = addressable, else poison code
    uint64_t g=(a-GBASE)/8, e=(a-GBASE+sz)/8; memset(shadow+g,v,e-g); if(v==8&&(sz&7))shadow[e]=sz&7; else if(sz&7)shadow[e]=v; }
static void symClear(uint64_t a,uint64_t sz){ if(!inGuest(a))return; uint64_t e=a+sz; while(a<e){ uint64_t pg=(a-GBASE)>>12; uint64_t pe=std::min(e,GBASE+((pg+1)<<12)); SymPage*p=symPg[pg]; if(p&&p->cnt){ for(uint64_t x=a;x<pe;x++){ int&nn=p->node[x&4095]; if(nn){nn=0;p->cnt--;} } } a=pe; } }
static bool symAny(uint64_t a,uint64_t sz){ if(!inGuest(a))return false; uint64_t e=a+sz; while(a<e){ uint64_t pg=(a-GBASE)>>12; uint64_t pe=std::min(e,GBASE+((pg+1)<<12)); SymPage*p=symPg[pg]; if(p&&p->cnt){ for(uint64_t x=a;x<pe;x++)if(p->node[x&4095])return true; } a=pe; } return false; }
static uint64_t galloc(uint64_t sz,bool fill=true){ uint64_t a=(hp+32+15)&~15ull; hp=a+((sz+15)&~15ull)+16; if(hp>=SBASE){fprintf(stderr,"guest heap exhausted\n");_exit(4);} 
    setShadow(a,sz,8); if(fill){ uint64_t*w=(uint64_t*)a; for(uint64_t i=0;i<(sz+7)/8;i++)w[i]=POISON; } 
    *(uint64_t*)(a-16)=sz; return a; }
static void*gmallocHost(size_t n){ return (void*)galloc(n?n:1); }
static int gfree(void*p){ // 0 ok, 1 bad free
    uint64_t a=(uint64_t)p; if(!a)return 0; if(!inGuest(a)||a>=SBASE)return 1; uint8_t s=shadow[(a-GBASE)/8]; if(s==0xFD||s==0)return 1; uint64_t sz=*(uint64_t*)(a-16); setShadow(a,(sz+7)&~7ull,0xFD); symClear(a,sz); return 0; }
void* operator new(size_t n){ if(guestMode)return gmallocHost(n); void*p=malloc(n?n:1); if(!p)throw std::bad_alloc(); return p; }
void* operator new[](size_t n){ return operator new(n); }
void operator delete(void*p)noexcept{ if(inGuest((uint64_t)p)){gfree(p);return;} free(p); }
void operator delete[](void*p)noexcept{ operator delete(p); }
void operator delete(void*p,size_t)noexcept{ operator delete(p); }
void operator delete[](void*p,size_t)noexcept{ operator delete(p); }

// ---------------------------------------------------------------- global analysis state
static Exprs*EX; static Norm*NM; static Smt*SM;
struct Shared{ std::atomic<int> active; std::atomic<uint64_t> paths,ended,infeasible,inconclusive,violations,instrs,forks,trivial,asserts,tolasserts,nviolfiles,npath,domain,sampled; std::atomic<uint64_t> q,uns,sat,unk,ext,tus; std::atomic<int> stop; uint32_t fnhit[1<<16]; std::atomic<uint32_t> assertHit[4096]; char assertName[4096][96]; std::atomic<int> nassert; std::atomic<int> lock; };
static Shared*SH; static int JOBS=8; static double DEADLINE=0; static std::string OUTDIR="/tmp/vfe"; static uint64_t MAXPATHS=200000; static int ONEPATH=0; static int VERB=0;
static std::vector<int> PC; static std::set<int> PCset; static Exprs::Asg W; static bool hasW=true; static std::vector<pid_t> kids; static std::string trail;
static uint64_t icount=0; static int concPinned=0; static bool weakPath=false;

static void emit(const std::string&s){ int fd=open((OUTDIR+"/log.jsonl").c_str(),O_WRONLY|O_APPEND|O_CREAT,0644); std::string t=s+"\n"; if(fd>=0){ (void)!write(fd,t.data(),t.size()); close(fd);} }
static std::string jstr(const std::string&s){ std::string r="\""; for(unsigned char c:s){ if(c=='"'||c=='\\'){r+='\\';r+=c;} else if(c<32){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b;} else r+=c; } return r+"\""; }
static void flushStats(){ SH->instrs+=icount; icount=0; SH->q+=SM->own.queries; SH->uns+=SM->own.unsat; SH->sat+=SM->own.sat; SH->unk+=SM->own.unknown; SH->ext+=SM->own.ext; SH->tus+=(uint64_t)(SM->own.t*1e6); SM->own=Smt::Stats(); }
[[noreturn]] static void finish(const char*status,const std::string&why=""){
    guestMode=false; flushStats();
    if(!strcmp(status,"end"))SH->ended++; else if(!strcmp(status,"infeasible"))SH->infeasible++; else if(!strcmp(status,"inconclusive")){SH->inconclusive++;}
    SH->paths++;
    if(!strcmp(status,"end")&&hasW&&why.empty()){ uint64_t k=SH->npath++; if(k<200){ FILE*o=fopen((OUTDIR+"/path_"+std::to_string(k)+".txt").c_str(),"w"); if(o){ for(size_t i=0;i<EX->vars.size();i++){ auto&V=EX->vars[i]; if(V.isF)fprintf(o,"%s r %.17g\n",V.name.c_str(),W.d[i]); else fprintf(o,"%s i %lld\n",V.name.c_str(),(long long)Exprs::sx(W.b[i],V.width==1?64:V.width)); } fclose(o);} } }
    if(strcmp(status,"end")||VERB) emit("{\"t\":\"path\",\"status\":"+jstr(status)+",\"why\":"+jstr(why)+",\"trail\":"+jstr(trail)+"}");
    SH->active--; int st; for(pid_t p:kids)waitpid(p,&st,0);
    _exit(0); }
[[noreturn]] static void inconclusive(const std::string&why){ finish("inconclusive",why); }

static bool evalB(int c,const Exprs::Asg&A){ std::unordered_map<int,Exprs::EV> m; return EX->eval(c,A,m).b!=0; }
static void fixSubst(Exprs::Asg&A){ for(int r=0;r<3;r++)for(auto&s:NM->subst){ std::unordered_map<int,Exprs::EV> m; A.d[EX->n[s.first].imm]=EX->eval(s.second,A,m).d; } }
static bool allTrue(const Exprs::Asg&A,const std::vector<int>&cs){ std::unordered_map<int,Exprs::EV> m; for(int c:cs)if(!EX->eval(c,A,m).b)return false; return true; }
static bool inRange(const Exprs::Asg&A){ for(size_t i=0;i<EX->vars.size();i++){ auto&V=EX->vars[i]; if(V.isF){ if(!(A.d[i]>=V.lo&&A.d[i]<=V.hi))return false; } else if(V.width>1){ int64_t v=Exprs::sx(A.b[i],V.width); if(v<V.ilo||v>V.ihi)return false; } } return true; }
static uint64_t rngS=88172645463325252ull; static uint64_t rnd(){ rngS^=rngS<<13; rngS^=rngS>>7; rngS^=rngS<<17; return rngS; }
static void randAsg(Exprs::Asg&A,bool nearW){ for(size_t i=0;i<EX->vars.size();i++){ auto&V=EX->vars[i]; if(nearW&&(rnd()%3))continue; if(V.isF){ uint64_t k=rnd()%16; if(k==0&&V.lo<=0&&V.hi>=0)A.d[i]=0; else if(k==1)A.d[i]=V.lo; else if(k==2)A.d[i]=V.hi; else A.d[i]=V.lo+(V.hi-V.lo)*((rnd()>>11)*(1.0/9007199254740992.0)); } else { uint64_t span=(uint64_t)(V.ihi-V.ilo)+1; A.b[i]=(uint64_t)(V.ilo+(int64_t)(span?rnd()%span:rnd())); } } }
static bool resample(const std::vector<int>&extra,int tries,Exprs::Asg&out){ for(int t=0;t<tries;t++){ Exprs::Asg A=W; randAsg(A,hasW&&(t&1)); fixSubst(A); if(inRange(A)&&allTrue(A,PC)&&allTrue(A,extra)){out=A;return true;} } return false; }

static void addPC(int c){ if(PCset.count(c))return; const Node n=EX->n[c]; if(n.op==O_CONST)return; if(n.op==O_AND&&n.w==1){ addPC(n.k[0]);addPC(n.k[1]);return; }
    PC.push_back(c); PCset.insert(c);
    if(n.op==O_FEQ){ for(int i=0;i<2;i++){ int x=n.k[i],y=n.k[1-i]; if(EX->n[x].op==O_FVAR&&!NM->subst.count(x)&&!NM->contains(y,x)){ NM->addSubst(x,y); SM->varsMemo.clear(); break; } } } }
static void fixModel(Exprs::Asg&A,const std::vector<int>&extra){ fixSubst(A); if(inRange(A)&&allTrue(A,PC)&&allTrue(A,extra)){ W=A; hasW=true; return; } Exprs::Asg B; if(resample(extra,400,B)){W=B;hasW=true;} else hasW=false; }

static bool childSide=false; // result holder
// fork: returns true in the child
static bool forkPath(){
    SH->forks++;
    if(ONEPATH) return false;
    bool conc=false; int a=SH->active.load(); while(a<JOBS){ if(SH->active.compare_exchange_weak(a,a+1)){conc=true;break;} }
    flushStats(); pid_t p=fork(); if(p<0){ if(conc)SH->active--; inconclusive("fork failed"); }
    if(p==0){ kids.clear(); rngS^=0x9E3779B97F4A7C15ull*(uint64_t)(PC.size()+7); return true; }
    if(conc)kids.push_back(p); else { int st; waitpid(p,&st,0); if(!WIFEXITED(st)||WEXITSTATUS(st)!=0){ emit("{\"t\":\"path\",\"status\":\"inconclusive\",\"why\":\"child died "+std::to_string(st)+"\"}"); SH->inconclusive++; } SH->active++; }
    // reap finished concurrent children
    for(size_t i=0;i<kids.size();){ int st; if(waitpid(kids[i],&st,WNOHANG)==kids[i]){ if(!WIFEXITED(st)||WEXITSTATUS(st)!=0){ emit("{\"t\":\"path\",\"status\":\"inconclusive\",\"why\":\"child died "+std::to_string(st)+"\"}"); SH->inconclusive++; SH->active--; } kids.erase(kids.begin()+i);} else i++; }
    return false; }
static void checkBudget(){ if(SH->stop.load()||nowS()>DEADLINE){ inconclusive("time budget"); } if(SH->paths.load()>MAXPATHS)inconclusive("path budget"); }

static double wallLeft(){ return std::max(1.0,std::min(SM->wallLimit,(DEADLINE-nowS())/4)); }
static std::string stackStr();
static bool decide(int c){
    uint64_t v; if(EX->isC(c,&v))return v; if(PCset.count(c))return true; int nc=EX->notb(c); if(PCset.count(nc))return false;
    bool save=guestMode; guestMode=false; checkBudget();
    bool res;
    if(hasW){ bool side=evalB(c,W); int other=side?nc:c, mine=side?c:nc; Exprs::Asg M=W; Smt::R r; double tq=nowS(); if(resample({other},24,M)){ r=Smt::SAT; SH->sampled++; } else r=SM->check(PC,{other},&M,4,false); if(VERB&&nowS()-tq>0.5)fprintf(stderr,"[slow] %d %.2f %s %s\n",(int)r,nowS()-tq,SM->show(other).c_str(),stackStr().substr(0,200).c_str());
        if(r==Smt::UNSAT){ PCset.insert(mine); PCset.erase(other); guestMode=save; return side; }
        if(r==Smt::UNKNOWN){ Exprs::Asg B; if(resample({other},300,B)){M=B;}  }
        if(forkPath()){ if(r==Smt::UNKNOWN)weakPath=true; addPC(other); fixModel(M,{}); trail+=side?"0":"1"; guestMode=save; return !side; }
        addPC(mine); trail+=side?"1":"0"; res=side; }
    else { Exprs::Asg M1=W,M2=W; Smt::R a=SM->check(PC,{c},&M1,4,false), b=SM->check(PC,{nc},&M2,4,false);
        if(a==Smt::UNSAT&&b==Smt::UNSAT)finish("infeasible");
        if(a==Smt::UNSAT){ addPC(nc); guestMode=save; return false; } if(b==Smt::UNSAT){ addPC(c); guestMode=save; return true; }
        if(forkPath()){ addPC(nc); fixModel(M2,{}); trail+="0"; guestMode=save; return false; }
        addPC(c); fixModel(M1,{}); trail+="1"; res=true; }
    guestMode=save; return res; }
static void assume(int c){ uint64_t v; if(EX->isC(c,&v)){ if(!v)finish("infeasible","assume"); return; } if(PCset.count(c))return; bool save=guestMode; guestMode=false;
    if(hasW&&evalB(c,W)){ addPC(c); fixSubst(W); if(!allTrue(W,PC)){ Exprs::Asg B; if(resample({},400,B))W=B; else hasW=false; } }
    else { Exprs::Asg B; if(resample({c},300,B)){ addPC(c); W=B; hasW=true; fixSubst(W); if(!allTrue(W,PC)){ if(resample({},400,B))W=B; else hasW=false; } }
        else { Exprs::Asg M=W; Smt::R r=SM->check(PC,{c},&M,6,true); if(r==Smt::UNSAT)finish("infeasible","assume"); addPC(c); fixModel(M,{}); } }
    guestMode=save; }
// domain assumption of the real-arithmetic reading (divisor != 0, radicand >= 0): added to the path condition
static void assumeDomain(int c){ uint64_t v; if(EX->isC(c,&v)||PCset.count(c))return; SH->domain++; bool save=guestMode; guestMode=false; PC.push_back(c); PCset.insert(c); if(hasW&&!evalB(c,W)){ Exprs::Asg B; if(resample({},400,B))W=B; else hasW=false; } guestMode=save; }
// an index chosen by comparisons of real values (pivot search): decide the comparisons, which is easier than asking for the index
static int resolveIte(int x){ Node N=EX->n[x]; uint64_t v; if(N.isF||EX->isC(x,&v))return x; switch(N.op){
    case O_ITE: { Node C=EX->n[N.k[0]]; if(C.op==O_XOR&&EX->isC(C.k[1],&v))C=EX->n[C.k[0]]; if(C.op!=O_FLT&&C.op!=O_FLE)return x; return resolveIte(decide(N.k[0])?N.k[1]:N.k[2]); }
    case O_ADD: case O_SUB: case O_MUL: case O_SHL: case O_OR: case O_AND: case O_XOR: { int a=resolveIte(N.k[0]),b=resolveIte(N.k[1]); return a==N.k[0]&&b==N.k[1]?x:EX->bin((Op)N.op,a,b); }
    case O_ZEXT: { int a=resolveIte(N.k[0]); return a==N.k[0]?x:EX->zext(a,N.w); } case O_SEXT: { int a=resolveIte(N.k[0]); return a==N.k[0]?x:EX->sext(a,N.w); }
    default: return x; } }
static uint64_t concretize(int node,int maxv=4096){ uint64_t v; if(EX->isC(node,&v))return v; node=resolveIte(node); if(EX->isC(node,&v))return v; unsigned w=EX->n[node].w; 
    for(int i=0;i<maxv;i++){ bool save=guestMode; guestMode=false; if(!hasW){ Exprs::Asg M=W; Smt::R r=SM->check({},PC,&M,6,true); if(r==Smt::UNSAT)finish("infeasible"); fixModel(M,{}); if(!hasW)inconclusive("no model to concretize"); }
        std::unordered_map<int,Exprs::EV> m; uint64_t val=EX->eval(node,W,m).b; int eq=EX->bin(O_EQ,node,EX->cst(val,w)),ne=EX->notb(eq); uint64_t cv; if(EX->isC(eq,&cv)||PCset.count(eq)){ guestMode=save; return val; }
        checkBudget(); Exprs::Asg M2=W; Smt::R r; if(resample({ne},8,M2)){ r=Smt::SAT; SH->sampled++; } else r=SM->check(PC,{ne},&M2,4,false); if(r==Smt::UNSAT){ PCset.insert(eq); guestMode=save; return val; }
        if(r==Smt::UNKNOWN){ Exprs::Asg B; if(resample({ne},300,B))M2=B; }
        // the child takes this value, the parent goes on to the others (keeps the process tree shallow)
        if(forkPath()){ addPC(eq); fixSubst(W); if(!allTrue(W,PC))hasW=false; trail+="="; guestMode=save; return val; }
        if(r==Smt::UNKNOWN)weakPath=true; addPC(ne); fixModel(M2,{}); trail+="!"; guestMode=save; }
    inconclusive("too many values"); }

// ---------------------------------------------------------------- assertions
static int assertSlot(const std::string&id){ while(SH->lock.exchange(1)){} int n=SH->nassert.load(); for(int i=0;i<n;i++)if(!strncmp(SH->assertName[i],id.c_str(),95)){SH->lock=0;return i;} if(n>=4095){SH->lock=0;return 4095;} strncpy(SH->assertName[n],id.c_str(),95); SH->nassert=n+1; SH->lock=0; return n; }
static std::atomic<int>*violCount=nullptr; 
static void recordViolation(const std::string&id,const std::string&what,const Exprs::Asg&A){
    uint64_t k=SH->nviolfiles++; if(k>=400){ SH->stop=1; return; }
    std::string f=OUTDIR+"/viol_"+std::to_string(k)+".txt"; FILE*o=fopen(f.c_str(),"w"); fprintf(o,"# assert %s\n# what %s\n",id.c_str(),what.c_str());
    for(size_t i=0;i<EX->vars.size();i++){ auto&V=EX->vars[i]; if(V.isF)fprintf(o,"%s r %.17g\n",V.name.c_str(),A.d[i]); else fprintf(o,"%s i %lld\n",V.name.c_str(),(long long)Exprs::sx(A.b[i],V.width==1?64:V.width)); } fclose(o);
    SH->violations++; emit("{\"t\":\"viol\",\"id\":"+jstr(id)+",\"what\":"+jstr(what)+",\"file\":"+jstr(f)+",\"weak\":"+std::to_string(weakPath||!hasW)+"}"); }
static uint32_t violSeenCount(int slot){ return SH->assertHit[slot].load()>>24; }
static void markViol(int slot){ SH->assertHit[slot]+=1u<<24; }
static bool eqTol(double a,double b,double tol){ if(std::isnan(a)&&std::isnan(b))return true; if(a==b)return true; double m=std::max(1.0,std::max(std::fabs(a),std::fabs(b))); return std::fabs(a-b)<=tol*m; }
static void unknownAssert(const std::string&id){ SH->inconclusive++; emit("{\"t\":\"unknown\",\"id\":"+jstr(id)+",\"trail\":"+jstr(trail)+"}"); }
static void doAssert(int c,const std::string&id){
    int slot=assertSlot(id); SH->asserts++; SH->assertHit[slot]++;
    uint64_t v; if(EX->isC(c,&v)){ SH->trivial++; if(!v){ if(violSeenCount(slot)<6){ markViol(slot); if(!hasW){Exprs::Asg M=W; SM->check({},PC,&M,6,true); fixModel(M,{});} recordViolation(id,"assertion is false on this path",W);} } return; }
    if(violSeenCount(slot)>=6)return;
    bool save=guestMode; guestMode=false; checkBudget(); int nc=EX->notb(c);
    if(hasW&&!evalB(c,W)){ markViol(slot); recordViolation(id,"assertion false",W); guestMode=save; return; }
    Exprs::Asg B; if(resample({nc},40,B)){ markViol(slot); recordViolation(id,"assertion false",B); guestMode=save; return; }
    Exprs::Asg M=W; Smt::R r=SM->check(PC,{nc},&M,wallLeft(),true);
    if(r==Smt::SAT){ fixSubst(M); if(allTrue(M,PC)&&!evalB(c,M)){ markViol(slot); recordViolation(id,"assertion false (solver model)",M);} else { Exprs::Asg B2; if(resample({nc},3000,B2)){ markViol(slot); recordViolation(id,"assertion false",B2);} else unknownAssert(id+" (model not realisable)"); } }
    else if(r==Smt::UNKNOWN){ Exprs::Asg B2; if(resample({nc},3000,B2)){ markViol(slot); recordViolation(id,"assertion false",B2);} else unknownAssert(id); }
    addPC(c); guestMode=save; }
static void doEq(int a,int b,double tol,const std::string&id){
    int slot=assertSlot(id); SH->asserts++; SH->assertHit[slot]++;
    double x,y; if(a==b){SH->trivial++;return;} bool A=EX->isFC(a,&x),B=EX->isFC(b,&y);
    bool save=guestMode; guestMode=false;
    if((A&&B)){ SH->trivial++; if(!eqTol(x,y,tol)&&violSeenCount(slot)<6){ markViol(slot); if(!hasW){Exprs::Asg M=W; SM->check({},PC,&M,6,true); fixModel(M,{});} char buf[128]; snprintf(buf,128,"%.17g != %.17g",x,y); recordViolation(id,buf,W);} guestMode=save; return; }
    if(violSeenCount(slot)>=6){guestMode=save;return;} checkBudget();
    if((A&&Exprs::bad(x))||(B&&Exprs::bad(y))){ markViol(slot); recordViolation(id,"nan/inf against a finite value",W); guestMode=save; return; }
    auto bad=[&](const Exprs::Asg&Q,std::string*w){ std::unordered_map<int,Exprs::EV> m; double p=EX->eval(a,Q,m).d,q=EX->eval(b,Q,m).d; if(!eqTol(p,q,tol)){ char buf[128]; snprintf(buf,128,"%.17g != %.17g",p,q); *w=buf; return true;} return false; };
    std::string w; if(hasW&&bad(W,&w)){ markViol(slot); recordViolation(id,w,W); guestMode=save; return; }
    for(int t=0;t<6;t++){ Exprs::Asg Q; if(!resample({},20,Q))break; if(bad(Q,&w)){ markViol(slot); recordViolation(id,w,Q); guestMode=save; return; } }
    Exprs::Asg M=W; bool exact=true; double tq=nowS(); Smt::R r=SM->checkEq(PC,a,b,tol,&M,&exact,wallLeft()); if(VERB&&nowS()-tq>0.5)fprintf(stderr,"[sloweq] %d %.2f %s %s\n",(int)r,nowS()-tq,id.c_str(),SM->showEq(a,b).c_str());
    if(r==Smt::UNSAT){ if(!exact)SH->tolasserts++; guestMode=save; return; }
    if(r==Smt::SAT){ fixSubst(M); if(allTrue(M,PC)&&bad(M,&w)){ markViol(slot); recordViolation(id,w+" (solver model)",M); guestMode=save; return; } }
    for(int t=0;t<400;t++){ Exprs::Asg Q; if(!resample({},20,Q))break; if(bad(Q,&w)){ markViol(slot); recordViolation(id,w,Q); guestMode=save; return; } }
    unknownAssert(id); guestMode=save; }

// ---------------------------------------------------------------- values
struct Val; typedef std::shared_ptr<std::vector<Val>> Agg;
struct Val { uint64_t u=0; int n=0; Agg a; Val(){} Val(uint64_t x):u(x){} };
static Val symV(int node){ Val v; uint64_t c; double d; if(EX->isC(node,&c)){v.u=c;return v;} if(EX->isFC(node,&d)){memcpy(&v.u,&d,8);return v;} v.n=node; return v; }
static double asD(const Val&v){ double d; memcpy(&d,&v.u,8); return d; }
static Val dV(double d){ Val v; memcpy(&v.u,&d,8); return v; }
static float asFl(const Val&v){ float f; uint32_t x=v.u; memcpy(&f,&x,4); return f; }
static Val flV(float f){ Val v; uint32_t x; memcpy(&x,&f,4); v.u=x; return v; }
static long double asLD(const Val&v){ long double r=0; if(v.a){ uint64_t lo=(*v.a)[0].u; uint16_t hi=(*v.a)[1].u; memcpy(&r,&lo,8); memcpy((char*)&r+8,&hi,2);} return r; }
static Val ldV(long double d){ Val v; v.a=std::make_shared<std::vector<Val>>(2); uint64_t lo; uint16_t hi; memcpy(&lo,&d,8); memcpy(&hi,(char*)&d+8,2); (*v.a)[0].u=lo; (*v.a)[1].u=hi; return v; }
static int fnode(const Val&v){ if(v.n){ if(EX->n[v.n].isF)return v.n; return EX->bitsf(v.n);} return EX->fcst_raw(asD(v)); }
static int bnode(const Val&v,unsigned w){ if(v.n){ if(EX->n[v.n].isF)return EX->fbits(v.n); return v.n;} return EX->cst(v.u,w); }

static const DataLayout*DL; static Module*MOD; static LLVMContext*LC;
struct MemErr{ std::string what; };
[[noreturn]] static void memViolation(const std::string&w);
static inline void chk(uint64_t a,uint64_t sz,bool wr){
    if(a<4096||(a>>47)){ char b[96]; snprintf(b,96,"%s of %llu bytes at invalid address 0x%llx",wr?"write":"read",(unsigned long long)sz,(unsigned long long)a); memViolation(b);} 
    if(!inGuest(a)||!sz)return; uint64_t o=a-GBASE; uint64_t e=o+sz; 
    for(uint64_t g=o/8;g*8<e;g++){ uint8_t s=shadow[g]; uint64_t end=std::min(e,g*8+8)-g*8; if(s==8)continue; if(s>=1&&s<=7&&end<=s)continue; char b[128]; snprintf(b,128,"out-of-bounds or freed %s of %llu bytes (%s)",wr?"write":"read",(unsigned long long)sz,s==0xFD?"freed":"outside object"); memViolation(b);} }
static Val loadBytes(uint64_t a,unsigned sz,bool isFloat){ // sz<=8
    chk(a,sz,false); Val v; uint64_t u=0; 
    if(inGuest(a)){ uint64_t pg=(a-GBASE)>>12,pg2=(a+sz-1-GBASE)>>12; SymPage*p=symPg[pg]; SymPage*p2=pg2==pg?p:symPg[pg2]; if((p&&p->cnt)||(p2&&p2->cnt)){
        auto nd=[&](uint64_t x)->int{SymPage*q=symPg[(x-GBASE)>>12];return q?q->node[x&4095]:0;}; auto of=[&](uint64_t x)->int{return symPg[(x-GBASE)>>12]->off[x&4095];};
        bool any=false; for(unsigned i=0;i<sz;i++)if(nd(a+i)){any=true;break;}
        if(any){ int n0=nd(a); if(n0){ unsigned nsz=EX->n[n0].isF?8:(EX->n[n0].w+7)/8; bool whole=nsz==sz; for(unsigned i=0;i<sz&&whole;i++)if(nd(a+i)!=n0||of(a+i)!=(int)i)whole=false; if(whole){ v.n=n0; if(isFloat&&!EX->n[n0].isF)v.n=EX->bitsf(n0); if(!isFloat&&EX->n[n0].isF){ v.n=EX->fbits(n0);} return v; } }
            int acc=0; for(unsigned i=0;i<sz;i++){ int b; int x=nd(a+i); if(x){ if(EX->n[x].isF)x=EX->fbits(x); if(EX->n[x].w<8*(unsigned)(of(a+i)+1))x=EX->zext(x,8*(of(a+i)+1)); b=EX->extract(x,8*of(a+i),8);} else b=EX->cst(*(uint8_t*)(a+i),8); acc=i?EX->concat(b,acc):b; }
            Val r=symV(acc); if(isFloat&&r.n)r.n=EX->bitsf(r.n); return r; } } }
    memcpy(&u,(void*)a,sz); v.u=u; return v; }
static void storeBytes(uint64_t a,unsigned sz,const Val&v){
    chk(a,sz,true); if(v.n==0){ symClear(a,sz); memcpy((void*)a,&v.u,sz); return; }
    if(!inGuest(a)) inconclusive("symbolic store outside guest memory");
    int node=v.n; if(EX->n[node].op==O_FBITS)node=EX->n[node].k[0]; if(!EX->n[node].isF&&EX->n[node].w<8*sz)node=EX->zext(node,8*sz);
    uint64_t ps=POISON; memcpy((void*)a,&ps,sz);
    for(unsigned i=0;i<sz;i++){ uint64_t x=a+i; uint64_t pg=(x-GBASE)>>12; SymPage*&p=symPg[pg]; if(!p){ bool s=guestMode; guestMode=false; p=(SymPage*)calloc(1,sizeof(SymPage)); guestMode=s; } if(!p->node[x&4095])p->cnt++; p->node[x&4095]=node; p->off[x&4095]=i; } }
static void copyMem(uint64_t d,uint64_t s,uint64_t n){ if(!n)return; chk(d,n,true); chk(s,n,false); bool any=symAny(s,n);
    std::vector<std::pair<int,uint8_t>> tmp; if(any){ tmp.resize(n); for(uint64_t i=0;i<n;i++){ SymPage*p=symPg[(s+i-GBASE)>>12]; if(p&&p->node[(s+i)&4095])tmp[i]={p->node[(s+i)&4095],p->off[(s+i)&4095]}; } }
    memmove((void*)d,(void*)s,n); symClear(d,n);
    if(any){ if(!inGuest(d))inconclusive("symbolic copy outside guest memory"); for(uint64_t i=0;i<n;i++)if(tmp[i].first){ uint64_t x=d+i; SymPage*&p=symPg[(x-GBASE)>>12]; if(!p)p=(SymPage*)calloc(1,sizeof(SymPage)); p->node[x&4095]=tmp[i].first; p->off[x&4095]=tmp[i].second; p->cnt++; } } }
static Val loadT(uint64_t a,Type*T){
    if(T->isX86_FP80Ty()){ chk(a,10,false); long double d=0; memcpy(&d,(void*)a,10); return ldV(d); }
    if(auto*VT=dyn_cast<FixedVectorType>(T)){ Val v; v.a=std::make_shared<std::vector<Val>>(); Type*e=VT->getElementType(); if(e->isIntegerTy(1)){ throw std::runtime_error("i1 vector load"); } unsigned sz=DL->getTypeStoreSize(e); for(unsigned i=0;i<VT->getNumElements();i++)v.a->push_back(loadT(a+i*sz,e)); return v; }
    if(auto*ST=dyn_cast<StructType>(T)){ Val v; v.a=std::make_shared<std::vector<Val>>(); auto*L=DL->getStructLayout(ST); for(unsigned i=0;i<ST->getNumElements();i++)v.a->push_back(loadT(a+L->getElementOffset(i),ST->getElementType(i))); return v; }
    if(auto*AT=dyn_cast<ArrayType>(T)){ Val v; v.a=std::make_shared<std::vector<Val>>(); uint64_t sz=DL->getTypeAllocSize(AT->getElementType()); for(unsigned i=0;i<AT->getNumElements();i++)v.a->push_back(loadT(a+i*sz,AT->getElementType())); return v; }
    if(T->isIntegerTy()&&T->getIntegerBitWidth()>64){ Val v; v.a=std::make_shared<std::vector<Val>>(2); (*v.a)[0]=loadBytes(a,8,false); (*v.a)[1]=loadBytes(a+8,8,false); return v; }
    Val v=loadBytes(a,DL->getTypeStoreSize(T),T->isDoubleTy()); if(T->isIntegerTy()){ unsigned w=T->getIntegerBitWidth(); if(v.n){ if(EX->n[v.n].w>w)v=symV(EX->extract(v.n,0,w)); } else v.u&=Exprs::mask(w); } return v; }
static void storeT(uint64_t a,Type*T,const Val&v){
    if(T->isX86_FP80Ty()){ chk(a,10,true); long double d=asLD(v); symClear(a,10); memcpy((void*)a,&d,10); return; }
    if(auto*VT=dyn_cast<FixedVectorType>(T)){ Type*e=VT->getElementType(); unsigned sz=DL->getTypeStoreSize(e); for(unsigned i=0;i<VT->getNumElements();i++)storeT(a+i*sz,e,v.a?(*v.a)[i]:Val()); return; }
    if(auto*ST=dyn_cast<StructType>(T)){ auto*L=DL->getStructLayout(ST); for(unsigned i=0;i<ST->getNumElements();i++)storeT(a+L->getElementOffset(i),ST->getElementType(i),v.a?(*v.a)[i]:Val()); return; }
    if(auto*AT=dyn_cast<ArrayType>(T)){ uint64_t sz=DL->getTypeAllocSize(AT->getElementType()); for(unsigned i=0;i<AT->getNumElements();i++)storeT(a+i*sz,AT->getElementType(),v.a?(*v.a)[i]:Val()); return; }
    if(T->isIntegerTy()&&T->getIntegerBitWidth()>64){ storeBytes(a,8,v.a?(*v.a)[0]:Val(v.u)); storeBytes(a+8,8,v.a?(*v.a)[1]:Val()); return; }
    storeBytes(a,DL->getTypeStoreSize(T),v); }

// ---------------------------------------------------------------- functions, globals, constants
struct GExc{ void*obj; const std::type_info*ti; void*adj; };
static std::vector<GExc*> caught; static GExc*inflight=nullptr; // inflight set => unwinding
struct GuestUnwind{};
static std::map<const void*,int> tiSel; static int selOf(const void*ti){ auto it=tiSel.find(ti); if(it!=tiSel.end())return it->second; int k=tiSel.size()+1; tiSel[ti]=k; return k; }

struct Opnd{ int idx; }; // >=0 register, <0 constant -1-idx
struct Insn{ Instruction*I; unsigned op; int dst; std::vector<int> o; int b0,b1; void*x; Type*T; };
struct FnInfo{ Function*F; bool decoded=false; std::vector<std::vector<Insn>> bb; std::vector<Val> consts; int nregs=0; std::unordered_map<const BasicBlock*,int> bbi; int id=0; };
typedef std::function<Val(CallBase*,std::vector<Val>&)> Builtin;
static std::unordered_map<Function*,FnInfo*> FNI; static std::unordered_map<std::string,Builtin> BI; static std::unordered_map<Function*,Builtin*> fbi;
static std::unordered_map<uint64_t,Function*> addrFn; static std::unordered_map<Function*,uint64_t> fnAddr; static std::unordered_map<const GlobalVariable*,uint64_t> gvAddr;
static std::vector<Function*> curStack;
static std::string stackStr(){ std::string s; for(int i=(int)curStack.size()-1,k=0;i>=0&&k<14;i--,k++){ s+=llvm::demangle(curStack[i]->getName().str()).substr(0,110)+" < "; } return s; }
static Val callFn(Function*F,std::vector<Val>&args,CallBase*CB);
static void memViolation(const std::string&w){ bool save=guestMode; guestMode=false; std::string id="memory-safety"; int slot=assertSlot(id); SH->asserts++; SH->assertHit[slot]++; if(violSeenCount(slot)<6){ markViol(slot); if(!hasW){Exprs::Asg M=W; SM->check({},PC,&M,6,true); fixModel(M,{});} recordViolation(id,w+" in "+stackStr(),W);} (void)save; finish("end","memory error"); }

static ffi_type* ffiT(Type*T){
    if(T->isVoidTy())return &ffi_type_void; if(T->isPointerTy())return &ffi_type_pointer; if(T->isDoubleTy())return &ffi_type_double; if(T->isFloatTy())return &ffi_type_float; if(T->isX86_FP80Ty())return &ffi_type_longdouble;
    if(T->isIntegerTy()){ unsigned w=T->getIntegerBitWidth(); if(w<=64)return &ffi_type_uint64; }
    if(auto*S=dyn_cast<StructType>(T)){ auto*t=new ffi_type; memset(t,0,sizeof *t); t->type=FFI_TYPE_STRUCT; t->elements=new ffi_type*[S->getNumElements()+1]; for(unsigned i=0;i<S->getNumElements();i++){ Type*e=S->getElementType(i); ffi_type*x=ffiT(e); if(e->isIntegerTy()){ unsigned w=e->getIntegerBitWidth(); x=w<=8?&ffi_type_uint8:w<=16?&ffi_type_uint16:w<=32?&ffi_type_uint32:&ffi_type_uint64; } t->elements[i]=x; } t->elements[S->getNumElements()]=0; return t; }
    if(auto*V=dyn_cast<FixedVectorType>(T)){ if(V->getNumElements()==2&&V->getElementType()->isFloatTy())return &ffi_type_double; }
    return nullptr; }
static void packVal(Type*T,const Val&v,void*p){ if(T->isX86_FP80Ty()){ long double d=asLD(v); memset(p,0,16); memcpy(p,&d,10); return; } if(auto*S=dyn_cast<StructType>(T)){ auto*L=DL->getStructLayout(S); for(unsigned i=0;i<S->getNumElements();i++)packVal(S->getElementType(i),(*v.a)[i],(char*)p+L->getElementOffset(i)); return; } 
    if(auto*V=dyn_cast<FixedVectorType>(T)){ unsigned sz=DL->getTypeStoreSize(V->getElementType()); for(unsigned i=0;i<V->getNumElements();i++)packVal(V->getElementType(),(*v.a)[i],(char*)p+i*sz); return; }
    memcpy(p,&v.u,DL->getTypeStoreSize(T)); }
static Val unpackVal(Type*T,void*p){ if(T->isX86_FP80Ty()){ long double d=0; memcpy(&d,p,10); return ldV(d); } if(auto*S=dyn_cast<StructType>(T)){ Val v; v.a=std::make_shared<std::vector<Val>>(); auto*L=DL->getStructLayout(S); for(unsigned i=0;i<S->getNumElements();i++)v.a->push_back(unpackVal(S->getElementType(i),(char*)p+L->getElementOffset(i))); return v; }
    if(auto*V=dyn_cast<FixedVectorType>(T)){ Val v; v.a=std::make_shared<std::vector<Val>>(); unsigned sz=DL->getTypeStoreSize(V->getElementType()); for(unsigned i=0;i<V->getNumElements();i++)v.a->push_back(unpackVal(V->getElementType(),(char*)p+i*sz)); return v; }
    Val v; if(T->isVoidTy())return v; memcpy(&v.u,p,DL->getTypeStoreSize(T)); if(T->isIntegerTy())v.u&=Exprs::mask(T->getIntegerBitWidth()); return v; }

// native code calling back into guest functions
static void closureEntry(ffi_cif*,void*ret,void**args,void*user){ Function*F=(Function*)user; bool save=guestMode; guestMode=false; std::vector<Val> a; FunctionType*FT=F->getFunctionType(); for(unsigned i=0;i<FT->getNumParams();i++)a.push_back(unpackVal(FT->getParamType(i),args[i])); guestMode=save; Val r=callFn(F,a,nullptr); if(inflight)throw GuestUnwind(); if(!FT->getReturnType()->isVoidTy()){ if(r.n)inconclusive("symbolic value returned to native code"); uint64_t z=0; if(FT->getReturnType()->isIntegerTy()){memcpy(ret,&z,8);} packVal(FT->getReturnType(),r,ret);} }
static uint64_t addrOfFunction(Function*F){
    auto it=fnAddr.find(F); if(it!=fnAddr.end())return it->second; bool save=guestMode; guestMode=false; uint64_t a=0; std::string nm=F->getName().str();
    if(F->isDeclaration()){ a=(uint64_t)dlsym(RTLD_DEFAULT,nm.c_str()); if(!a&&!F->hasExternalWeakLinkage()){ void*p=malloc(16); a=(uint64_t)p; } if(a){ if(BI.count(nm))addrFn[a]=F; } }
    else { void*code=nullptr; ffi_closure*cl=(ffi_closure*)ffi_closure_alloc(sizeof(ffi_closure),&code); FunctionType*FT=F->getFunctionType(); unsigned n=FT->getNumParams(); auto**at=new ffi_type*[n+1]; bool ok=true; for(unsigned i=0;i<n;i++){ at[i]=ffiT(FT->getParamType(i)); if(!at[i])ok=false; } ffi_type*rt=ffiT(FT->getReturnType()); if(!rt)ok=false; 
        if(ok){ auto*cif=new ffi_cif; if(ffi_prep_cif(cif,FFI_DEFAULT_ABI,n,rt,at)==FFI_OK) ffi_prep_closure_loc(cl,cif,closureEntry,F,code); }
        a=(uint64_t)code; addrFn[a]=F; }
    fnAddr[F]=a; guestMode=save; return a; }
static uint64_t addrOfGlobal(const GlobalVariable*G);
static Val constVal(const Constant*C){
    Type*T=C->getType();
    if(auto*x=dyn_cast<ConstantInt>(C)){ if(x->getBitWidth()>64){ Val v; v.a=std::make_shared<std::vector<Val>>(2); (*v.a)[0].u=x->getValue().extractBitsAsZExtValue(64,0); (*v.a)[1].u=x->getValue().extractBitsAsZExtValue(64,64); return v;} return Val(x->getZExtValue()); }
    if(auto*x=dyn_cast<ConstantFP>(C)){ if(T->isDoubleTy())return dV(x->getValueAPF().convertToDouble()); if(T->isFloatTy())return flV(x->getValueAPF().convertToFloat()); if(T->isX86_FP80Ty()){ APInt b=x->getValueAPF().bitcastToAPInt(); Val v; v.a=std::make_shared<std::vector<Val>>(2); (*v.a)[0].u=b.extractBitsAsZExtValue(64,0); (*v.a)[1].u=b.extractBitsAsZExtValue(16,64); return v;} throw std::runtime_error("fp const"); }
    if(isa<ConstantPointerNull>(C))return Val(0);
    if(isa<UndefValue>(C)||isa<ConstantAggregateZero>(C)){ if(T->isAggregateType()||T->isVectorTy()){ Val v; v.a=std::make_shared<std::vector<Val>>(); unsigned n=T->isVectorTy()?cast<FixedVectorType>(T)->getNumElements():T->isStructTy()?T->getStructNumElements():T->getArrayNumElements(); for(unsigned i=0;i<n;i++){ Constant*e=C->getAggregateElement(i); v.a->push_back(constVal(e)); } return v; } if(T->isX86_FP80Ty())return ldV(0); return Val(0); }
    if(auto*G=dyn_cast<GlobalVariable>(C))return Val(addrOfGlobal(G));
    if(auto*F=dyn_cast<Function>(C))return Val(addrOfFunction(const_cast<Function*>(F)));
    if(auto*A=dyn_cast<GlobalAlias>(C))return constVal(A->getAliasee());
    if(isa<ConstantAggregate>(C)||isa<ConstantDataSequential>(C)){ Val v; v.a=std::make_shared<std::vector<Val>>(); unsigned n=isa<ConstantDataSequential>(C)?cast<ConstantDataSequential>(C)->getNumElements():C->getNumOperands(); for(unsigned i=0;i<n;i++)v.a->push_back(constVal(C->getAggregateElement(i))); return v; }
    if(auto*E=dyn_cast<ConstantExpr>(C)){
        switch(E->getOpcode()){
        case Instruction::GetElementPtr:{ auto*G=cast<GEPOperator>(E); APInt off(64,0); if(!G->accumulateConstantOffset(*DL,off))throw std::runtime_error("gep const"); return Val(constVal(cast<Constant>(G->getPointerOperand())).u+off.getSExtValue()); }
        case Instruction::BitCast:case Instruction::IntToPtr:case Instruction::PtrToInt:case Instruction::AddrSpaceCast:{ Val v=constVal(E->getOperand(0)); if(T->isIntegerTy())v.u&=Exprs::mask(T->getIntegerBitWidth()); return v; }
        case Instruction::Trunc:{ Val v=constVal(E->getOperand(0)); v.u&=Exprs::mask(T->getIntegerBitWidth()); return v; }
        case Instruction::Sub:{ return Val((constVal(E->getOperand(0)).u-constVal(E->getOperand(1)).u)&Exprs::mask(T->getIntegerBitWidth())); }
        case Instruction::Add:{ return Val((constVal(E->getOperand(0)).u+constVal(E->getOperand(1)).u)&Exprs::mask(T->getIntegerBitWidth())); }
        case Instruction::ICmp:{ uint64_t a=constVal(E->getOperand(0)).u,b=constVal(E->getOperand(1)).u; switch(cast<ConstantExpr>(E)->getPredicate()){case CmpInst::ICMP_EQ:return Val(a==b);case CmpInst::ICMP_NE:return Val(a!=b);case CmpInst::ICMP_ULT:return Val(a<b);case CmpInst::ICMP_UGT:return Val(a>b);default:break;} }
        default:break; } std::string s; raw_string_ostream o(s); C->print(o); throw std::runtime_error("constexpr "+s); }
    std::string s; raw_string_ostream o(s); C->print(o); throw std::runtime_error("const "+s.substr(0,200)); }
static uint64_t addrOfGlobal(const GlobalVariable*G){
    auto it=gvAddr.find(G); if(it!=gvAddr.end())return it->second; uint64_t a=0;
    if(G->isDeclaration()||G->hasAvailableExternallyLinkage()){ a=(uint64_t)dlsym(RTLD_DEFAULT,G->getName().str().c_str()); if(!a&&!G->hasExternalWeakLinkage()){ if(G->hasInitializer())goto own; if(G->getName()=="__dso_handle"||true){ uint64_t sz=std::max<uint64_t>(16,G->getValueType()->isSized()?(uint64_t)DL->getTypeAllocSize(G->getValueType()):16); a=galloc(sz,false); if(VERB)fprintf(stderr,"warning: unresolved global %s\n",G->getName().str().c_str()); } } gvAddr[G]=a; return a; }
    own:
    { uint64_t sz=DL->getTypeAllocSize(G->getValueType()); a=galloc(std::max<uint64_t>(sz,1),false); gvAddr[G]=a; if(G->hasInitializer()&&!G->getInitializer()->isNullValue()&&!isa<UndefValue>(G->getInitializer())) storeT(a,G->getValueType(),constVal(G->getInitializer())); }
    return a; }

static FnInfo*info(Function*F){
    auto it=FNI.find(F); if(it!=FNI.end())return it->second; auto*fi=new FnInfo; fi->F=F; fi->id=FNI.size(); FNI[F]=fi; return fi; }
static void decode(FnInfo*fi){
    Function*F=fi->F; fi->decoded=true; std::unordered_map<const Value*,int> reg; int nr=0; for(auto&A:F->args())reg[&A]=nr++; int nb=0; for(auto&B:*F){fi->bbi[&B]=nb++; for(auto&I:B)if(!I.getType()->isVoidTy())reg[&I]=nr++;}
    fi->nregs=nr; std::unordered_map<const Value*,int> cidx;
    auto opn=[&](Value*v)->int{ auto r=reg.find(v); if(r!=reg.end())return r->second; if(auto*C=dyn_cast<Constant>(v)){ auto c=cidx.find(C); if(c!=cidx.end())return c->second; fi->consts.push_back(constVal(C)); int k=-(int)fi->consts.size(); cidx[C]=k; return k; } return INT32_MIN; };
    fi->bb.resize(nb); int k=0; for(auto&B:*F){ auto&v=fi->bb[k++]; for(auto&I:B){ if(isa<DbgInfoIntrinsic>(I))continue; Insn x; x.I=&I; x.op=I.getOpcode(); x.dst=I.getType()->isVoidTy()?-1:reg[&I]; x.b0=x.b1=-1; x.x=nullptr; x.T=I.getType();
            if(auto*BR=dyn_cast<BranchInst>(&I)){ if(BR->isConditional()){x.o.push_back(opn(BR->getCondition()));x.b0=fi->bbi[BR->getSuccessor(0)];x.b1=fi->bbi[BR->getSuccessor(1)];} else x.b0=fi->bbi[BR->getSuccessor(0)]; }
            else if(auto*P=dyn_cast<PHINode>(&I)){ for(unsigned i=0;i<P->getNumIncomingValues();i++){x.o.push_back(fi->bbi[P->getIncomingBlock(i)]);x.o.push_back(opn(P->getIncomingValue(i)));} }
            else if(auto*C=dyn_cast<CallBase>(&I)){ for(unsigned i=0;i<C->arg_size();i++){ Value*a=C->getArgOperand(i); x.o.push_back(a->getType()->isMetadataTy()?INT32_MIN:opn(a)); } if(!C->getCalledFunction()&&!C->isInlineAsm())x.o.push_back(opn(C->getCalledOperand())); if(auto*II=dyn_cast<InvokeInst>(&I)){x.b0=fi->bbi[II->getNormalDest()];x.b1=fi->bbi[II->getUnwindDest()];} }
            else if(auto*S=dyn_cast<SwitchInst>(&I)){ x.o.push_back(opn(S->getCondition())); }
            else if(isa<LandingPadInst>(&I)){}
            else for(Value*a:I.operands()){ if(!isa<BasicBlock>(a))x.o.push_back(opn(a)); }
            v.push_back(std::move(x)); } } }

// ---------------------------------------------------------------- execution
[[noreturn]] static void unsup(const std::string&w){ inconclusive("unsupported: "+w+" in "+stackStr()); }
static uint64_t conc(const Val&v){ if(!v.n)return v.u; if(EX->n[v.n].isF)unsup("symbolic double used as integer"); return concretize(v.n); }
static double concD(const Val&v,const char*w){ if(v.n)unsup(std::string("symbolic double in ")+w); return asD(v); }
static Val fop(Op op,const Val&a,const Val&b){ if(!a.n&&!b.n){ double x=asD(a),y=asD(b); switch(op){case O_FADD:return dV(x+y);case O_FSUB:return dV(x-y);case O_FMUL:return dV(x*y);default:return dV(x/y);} }
    int x=fnode(a),y=fnode(b); if(op==O_FDIV&&!EX->isFC(y)){ if(!(EX->iv(y).lo>0||EX->iv(y).hi<0)) assumeDomain(EX->notb(EX->fcmp(O_FEQ,y,EX->fcst(0)))); }
    { double d; bool cx=EX->isFC(x,&d)&&std::isinf(d); double dx=d; bool cy=EX->isFC(y,&d)&&(std::isinf(d)||(op==O_FDIV&&d==0)); double dy=d; // infinities against a symbolic (finite) operand
      if(cx||cy){ int o=cx?y:x; double c=cx?dx:dy; auto I=EX->iv(o); double sg=I.lo>0?1:I.hi<0?-1:std::nan(""); switch(op){ case O_FADD:return dV(c); case O_FSUB:return dV(cx?c:-c); case O_FMUL:return dV(c*sg); default: if(cx)return dV(c*sg); if(std::isinf(c))return dV(0.0); return dV(sg*(std::signbit(c)?-INFINITY:INFINITY)); } } }
    return symV(EX->fbin(op,x,y)); }
static Val ffun(int f,const Val&a){ if(!a.n)return dV(fnEval(f,asD(a))); int x=fnode(a); if(f==FN_SQRT&&!(EX->iv(x).lo>=0))assumeDomain(EX->fcmp(O_FLE,EX->fcst(0),x)); if(f==FN_LOG&&!(EX->iv(x).lo>0))assumeDomain(EX->fcmp(O_FLT,EX->fcst(0),x)); return symV(EX->ffn(f,x)); }
static Val scalarBin(unsigned op,Type*T,const Val&a,const Val&b){
    if(T->isDoubleTy()){ switch(op){case Instruction::FAdd:return fop(O_FADD,a,b);case Instruction::FSub:return fop(O_FSUB,a,b);case Instruction::FMul:return fop(O_FMUL,a,b);case Instruction::FDiv:return fop(O_FDIV,a,b);case Instruction::FRem: return dV(fmod(concD(a,"frem"),concD(b,"frem")));} unsup("fp op"); }
    if(T->isFloatTy()){ if(a.n||b.n)unsup("symbolic float"); float x=asFl(a),y=asFl(b); switch(op){case Instruction::FAdd:return flV(x+y);case Instruction::FSub:return flV(x-y);case Instruction::FMul:return flV(x*y);case Instruction::FDiv:return flV(x/y);default:unsup("float op");} }
    if(T->isX86_FP80Ty()){ long double x=asLD(a),y=asLD(b); switch(op){case Instruction::FAdd:return ldV(x+y);case Instruction::FSub:return ldV(x-y);case Instruction::FMul:return ldV(x*y);case Instruction::FDiv:return ldV(x/y);default:unsup("ld op");} }
    unsigned w=T->getIntegerBitWidth();
    if(w>64){ if(w!=128)unsup("wide int"); auto g=[&](const Val&v){ if(v.a){ if((*v.a)[0].n||(*v.a)[1].n)unsup("symbolic i128"); return ((unsigned __int128)(*v.a)[1].u<<64)|(*v.a)[0].u;} if(v.n)unsup("symbolic i128"); return (unsigned __int128)v.u; }; unsigned __int128 x=g(a),y=g(b),r=0; switch(op){case Instruction::Add:r=x+y;break;case Instruction::Sub:r=x-y;break;case Instruction::Mul:r=x*y;break;case Instruction::And:r=x&y;break;case Instruction::Or:r=x|y;break;case Instruction::Xor:r=x^y;break;case Instruction::Shl:r=x<<(int)y;break;case Instruction::LShr:r=x>>(int)y;break;case Instruction::UDiv:r=x/y;break;case Instruction::URem:r=x%y;break;default:unsup("i128 op");} Val v; v.a=std::make_shared<std::vector<Val>>(2); (*v.a)[0].u=(uint64_t)r; (*v.a)[1].u=(uint64_t)(r>>64); return v; }
    Op o; switch(op){case Instruction::Add:o=O_ADD;break;case Instruction::Sub:o=O_SUB;break;case Instruction::Mul:o=O_MUL;break;case Instruction::UDiv:o=O_UDIV;break;case Instruction::SDiv:o=O_SDIV;break;case Instruction::URem:o=O_UREM;break;case Instruction::SRem:o=O_SREM;break;case Instruction::And:o=O_AND;break;case Instruction::Or:o=O_OR;break;case Instruction::Xor:o=O_XOR;break;case Instruction::Shl:o=O_SHL;break;case Instruction::LShr:o=O_LSHR;break;case Instruction::AShr:o=O_ASHR;break;default:unsup("binop");}
    bool div=o>=O_UDIV&&o<=O_SREM;
    if(!a.n&&!b.n){ uint64_t r; if(!Exprs::foldBV(o,w,a.u,b.u,r)){ memViolation("integer division by zero"); } return Val(r); }
    int x=bnode(a,w),y=bnode(b,w); if(div){ if(decide(EX->bin(O_EQ,y,EX->cst(0,w))))memViolation("integer division by zero"); }
    return symV(EX->bin(o,x,y)); }
static Val scalarCmp(CmpInst::Predicate p,Type*T,const Val&a,const Val&b){
    if(T->isX86_FP80Ty()||T->isFloatTy()){ if(a.n||b.n)unsup("symbolic float cmp"); long double x=T->isFloatTy()?asFl(a):asLD(a),y=T->isFloatTy()?asFl(b):asLD(b); bool un=std::isnan(x)||std::isnan(y); bool lt=x<y,eq=x==y,gt=x>y; switch(p){case CmpInst::FCMP_FALSE:return Val(0);case CmpInst::FCMP_TRUE:return Val(1);case CmpInst::FCMP_OEQ:return Val(eq);case CmpInst::FCMP_OGT:return Val(gt);case CmpInst::FCMP_OGE:return Val(gt||eq);case CmpInst::FCMP_OLT:return Val(lt);case CmpInst::FCMP_OLE:return Val(lt||eq);case CmpInst::FCMP_ONE:return Val(!un&&!eq);case CmpInst::FCMP_ORD:return Val(!un);case CmpInst::FCMP_UNO:return Val(un);case CmpInst::FCMP_UEQ:return Val(un||eq);case CmpInst::FCMP_UGT:return Val(un||gt);case CmpInst::FCMP_UGE:return Val(un||gt||eq);case CmpInst::FCMP_ULT:return Val(un||lt);case CmpInst::FCMP_ULE:return Val(un||lt||eq);case CmpInst::FCMP_UNE:return Val(un||!eq);default:break;} }
    if(T->isDoubleTy()){
        if(!a.n&&!b.n){ double x=asD(a),y=asD(b); bool un=std::isnan(x)||std::isnan(y); bool lt=x<y,eq=x==y,gt=x>y; switch(p){case CmpInst::FCMP_FALSE:return Val(0);case CmpInst::FCMP_TRUE:return Val(1);case CmpInst::FCMP_OEQ:return Val(eq);case CmpInst::FCMP_OGT:return Val(gt);case CmpInst::FCMP_OGE:return Val(gt||eq);case CmpInst::FCMP_OLT:return Val(lt);case CmpInst::FCMP_OLE:return Val(lt||eq);case CmpInst::FCMP_ONE:return Val(!un&&!eq);case CmpInst::FCMP_ORD:return Val(!un);case CmpInst::FCMP_UNO:return Val(un);case CmpInst::FCMP_UEQ:return Val(un||eq);case CmpInst::FCMP_UGT:return Val(un||gt);case CmpInst::FCMP_UGE:return Val(un||gt||eq);case CmpInst::FCMP_ULT:return Val(un||lt);case CmpInst::FCMP_ULE:return Val(un||lt||eq);case CmpInst::FCMP_UNE:return Val(un||!eq);default:break;} }
        int x=fnode(a),y=fnode(b); double d; bool nan=(EX->isFC(x,&d)&&std::isnan(d))||(EX->isFC(y,&d)&&std::isnan(d)); bool U=p>=CmpInst::FCMP_UNO; if(nan)return Val(p==CmpInst::FCMP_TRUE||(U&&p!=CmpInst::FCMP_TRUE));
        switch(p){ case CmpInst::FCMP_FALSE:case CmpInst::FCMP_UNO:return Val(0);case CmpInst::FCMP_TRUE:case CmpInst::FCMP_ORD:return Val(1);
        case CmpInst::FCMP_OEQ:case CmpInst::FCMP_UEQ:return symV(EX->fcmp(O_FEQ,x,y)); case CmpInst::FCMP_ONE:case CmpInst::FCMP_UNE:return symV(EX->notb(EX->fcmp(O_FEQ,x,y)));
        case CmpInst::FCMP_OGT:case CmpInst::FCMP_UGT:return symV(EX->fcmp(O_FLT,y,x)); case CmpInst::FCMP_OGE:case CmpInst::FCMP_UGE:return symV(EX->fcmp(O_FLE,y,x));
        case CmpInst::FCMP_OLT:case CmpInst::FCMP_ULT:return symV(EX->fcmp(O_FLT,x,y)); case CmpInst::FCMP_OLE:case CmpInst::FCMP_ULE:return symV(EX->fcmp(O_FLE,x,y)); default:unsup("fcmp"); } }
    unsigned w=T->isPointerTy()?64:T->getIntegerBitWidth(); if(w>64){ if(a.n||b.n)unsup("i128 cmp"); auto g=[&](const Val&v){ if(v.a)return ((unsigned __int128)(*v.a)[1].u<<64)|(*v.a)[0].u; return (unsigned __int128)v.u; }; unsigned __int128 x=g(a),y=g(b); switch(p){case CmpInst::ICMP_EQ:return Val(x==y);case CmpInst::ICMP_NE:return Val(x!=y);case CmpInst::ICMP_ULT:return Val(x<y);case CmpInst::ICMP_UGT:return Val(x>y);case CmpInst::ICMP_ULE:return Val(x<=y);case CmpInst::ICMP_UGE:return Val(x>=y);default:unsup("i128 cmp");} }
    if(!a.n&&!b.n){ uint64_t x=a.u&Exprs::mask(w),y=b.u&Exprs::mask(w); int64_t s=Exprs::sx(x,w),t=Exprs::sx(y,w); switch(p){case CmpInst::ICMP_EQ:return Val(x==y);case CmpInst::ICMP_NE:return Val(x!=y);case CmpInst::ICMP_UGT:return Val(x>y);case CmpInst::ICMP_UGE:return Val(x>=y);case CmpInst::ICMP_ULT:return Val(x<y);case CmpInst::ICMP_ULE:return Val(x<=y);case CmpInst::ICMP_SGT:return Val(s>t);case CmpInst::ICMP_SGE:return Val(s>=t);case CmpInst::ICMP_SLT:return Val(s<t);case CmpInst::ICMP_SLE:return Val(s<=t);default:unsup("icmp");} }
    int x=bnode(a,w),y=bnode(b,w);
    if((EX->n[x].op==O_FBITS)!=(EX->n[y].op==O_FBITS)){ // double bits against an integer constant: sign/zero tests only
        int f=EX->n[x].op==O_FBITS?EX->n[x].k[0]:EX->n[y].k[0]; uint64_t c; bool left=EX->n[x].op==O_FBITS; if(EX->isC(left?y:x,&c)){ if(c==0&&(p==CmpInst::ICMP_EQ||p==CmpInst::ICMP_NE)){ int e=EX->fcmp(O_FEQ,f,EX->fcst(0)); return symV(p==CmpInst::ICMP_EQ?e:EX->notb(e)); } if(left&&c==0&&p==CmpInst::ICMP_SLT)return symV(EX->fcmp(O_FLT,f,EX->fcst(0))); if(left&&c==~0ull&&p==CmpInst::ICMP_SGT)return symV(EX->fcmp(O_FLE,EX->fcst(0),f)); } unsup("integer compare on double bits"); }
    switch(p){case CmpInst::ICMP_EQ:return symV(EX->bin(O_EQ,x,y));case CmpInst::ICMP_NE:return symV(EX->notb(EX->bin(O_EQ,x,y)));case CmpInst::ICMP_UGT:return symV(EX->bin(O_ULT,y,x));case CmpInst::ICMP_UGE:return symV(EX->bin(O_ULE,y,x));case CmpInst::ICMP_ULT:return symV(EX->bin(O_ULT,x,y));case CmpInst::ICMP_ULE:return symV(EX->bin(O_ULE,x,y));case CmpInst::ICMP_SGT:return symV(EX->bin(O_SLT,y,x));case CmpInst::ICMP_SGE:return symV(EX->bin(O_SLE,y,x));case CmpInst::ICMP_SLT:return symV(EX->bin(O_SLT,x,y));case CmpInst::ICMP_SLE:return symV(EX->bin(O_SLE,x,y));default:unsup("icmp");} }
static Val scalarCast(unsigned op,Type*S,Type*D,const Val&v){
    switch(op){
    case Instruction::Trunc:{ unsigned w=D->getIntegerBitWidth(); if(v.a)return Val((*v.a)[0].u&Exprs::mask(w)); if(v.n){ int x=bnode(v,S->getIntegerBitWidth()); return symV(EX->extract(x,0,w)); } return Val(v.u&Exprs::mask(w)); }
    case Instruction::ZExt:{ if(D->getIntegerBitWidth()>64){ Val r; r.a=std::make_shared<std::vector<Val>>(2); (*r.a)[0]=v; return r; } if(v.n)return symV(EX->zext(v.n,D->getIntegerBitWidth())); return Val(v.u&Exprs::mask(S->getIntegerBitWidth())); }
    case Instruction::SExt:{ if(D->getIntegerBitWidth()>64){ if(v.n)unsup("sext128"); Val r; r.a=std::make_shared<std::vector<Val>>(2); (*r.a)[0].u=Exprs::sx(v.u,S->getIntegerBitWidth()); (*r.a)[1].u=(int64_t)(*r.a)[0].u<0?~0ull:0; return r; } if(v.n)return symV(EX->sext(v.n,D->getIntegerBitWidth())); return Val((uint64_t)Exprs::sx(v.u,S->getIntegerBitWidth())&Exprs::mask(D->getIntegerBitWidth())); }
    case Instruction::PtrToInt:case Instruction::IntToPtr:case Instruction::AddrSpaceCast:{ Val r=v; if(D->isIntegerTy()&&D->getIntegerBitWidth()<64){ if(r.n)return symV(EX->extract(r.n,0,D->getIntegerBitWidth())); r.u&=Exprs::mask(D->getIntegerBitWidth()); } if(S->isIntegerTy()&&S->getIntegerBitWidth()<64&&r.n)r=symV(EX->zext(r.n,64)); return r; }
    case Instruction::BitCast:{ if(v.n){ if(D->isDoubleTy()&&!EX->n[v.n].isF)return symV(EX->bitsf(v.n)); if(D->isIntegerTy()&&EX->n[v.n].isF)return symV(EX->fbits(v.n)); } return v; }
    case Instruction::FPTrunc:{ if(S->isX86_FP80Ty()){ long double d=asLD(v); return D->isDoubleTy()?dV((double)d):flV((float)d); } if(v.n)unsup("double to float of symbolic"); return flV((float)asD(v)); }
    case Instruction::FPExt:{ if(D->isX86_FP80Ty()){ if(v.n)unsup("long double of symbolic"); return ldV(S->isFloatTy()?(long double)asFl(v):(long double)asD(v)); } return dV(asFl(v)); }
    case Instruction::SIToFP:case Instruction::UIToFP:{ uint64_t u=v.a?(*v.a)[0].u:v.n?concretize(v.n):v.u; unsigned w=std::min(64u,S->getIntegerBitWidth()); bool sg=op==Instruction::SIToFP; if(D->isDoubleTy())return dV(sg?(double)Exprs::sx(u,w):(double)(u&Exprs::mask(w))); if(D->isFloatTy())return flV(sg?(float)Exprs::sx(u,w):(float)(u&Exprs::mask(w))); return ldV(sg?(long double)Exprs::sx(u,w):(long double)(u&Exprs::mask(w))); }
    case Instruction::FPToSI:case Instruction::FPToUI:{ unsigned w=D->getIntegerBitWidth(); if(S->isX86_FP80Ty()){ long double d=asLD(v); return Val((op==Instruction::FPToSI?(uint64_t)(int64_t)d:(uint64_t)d)&Exprs::mask(w)); } if(S->isFloatTy()){ float d=asFl(v); return Val((op==Instruction::FPToSI?(uint64_t)(int64_t)d:(uint64_t)d)&Exprs::mask(w)); }
        if(v.n){ // bounded case split on the truncated value
            int f=fnode(v); for(int i=0;i<64;i++){ if(!hasW)unsup("fptosi without model"); std::unordered_map<int,Exprs::EV> m; double d=trunc(EX->eval(f,W,m).d); int lo,hi; if(d>0){lo=EX->fcmp(O_FLE,EX->fcst(d),f);hi=EX->fcmp(O_FLT,f,EX->fcst(d+1));} else if(d<0){lo=EX->fcmp(O_FLT,EX->fcst(d-1),f);hi=EX->fcmp(O_FLE,f,EX->fcst(d));} else {lo=EX->fcmp(O_FLT,EX->fcst(-1),f);hi=EX->fcmp(O_FLT,f,EX->fcst(1));} if(decide(EX->andb(lo,hi)))return Val((uint64_t)(int64_t)d&Exprs::mask(w)); } unsup("fptosi range"); }
        double d=asD(v); 
        if(std::isnan(d)||(op==Instruction::FPToSI?(d>=ldexp(1.0,w-1)||d<-ldexp(1.0,w-1)-1):(d<=-1.0||d>=ldexp(1.0,w)))){ return Val((1ull<<(w-1))); }
        return Val((op==Instruction::FPToSI?(uint64_t)(int64_t)d:(uint64_t)d)&Exprs::mask(w)); }
    } unsup("cast"); }

static bool printLike(const std::string&n){ // output of a symbolic number: text is irrelevant to the properties decided with symbolic numbers
    return n.find("_M_insertI")!=std::string::npos||n.find("ostream")!=std::string::npos||n=="printf"||n=="fprintf"||n=="snprintf"||n=="vsnprintf"||n=="_ZNSolsEd"||n=="_ZNSo9_M_insertIdEERSoT_"; }
static std::unordered_map<const CallBase*,std::pair<ffi_cif*,std::vector<ffi_type*>*>> cifs;
static Val nativeCall(void*fp,CallBase*CB,std::vector<Val>&args,const std::string&name){
    FunctionType*FT=CB->getFunctionType(); unsigned n=args.size(); auto&ce=cifs[CB];
    if(!ce.first){ auto*cif=new ffi_cif; auto*at=new std::vector<ffi_type*>(); for(unsigned i=0;i<n;i++){ Type*T=CB->getArgOperand(i)->getType(); if(CB->isByValArgument(i)){ Type*E=CB->getParamByValType(i); auto*t=new ffi_type; memset(t,0,sizeof*t); t->type=FFI_TYPE_STRUCT; unsigned k=(DL->getTypeAllocSize(E)+7)/8; t->elements=new ffi_type*[k+1]; for(unsigned j=0;j<k;j++)t->elements[j]=&ffi_type_uint64; t->elements[k]=0; at->push_back(t); continue; } ffi_type*t=ffiT(T); if(!t)unsup("native arg type in "+name); at->push_back(t);} ffi_type*rt=ffiT(FT->getReturnType()); if(!rt)unsup("native ret type in "+name); ffi_status s=FT->isVarArg()?ffi_prep_cif_var(cif,FFI_DEFAULT_ABI,FT->getNumParams(),n,rt,at->data()):ffi_prep_cif(cif,FFI_DEFAULT_ABI,n,rt,at->data()); if(s!=FFI_OK)unsup("ffi prep "+name); ce={cif,at}; }
    std::vector<std::array<uint64_t,4>> buf(n); std::vector<void*> av(n);
    for(unsigned i=0;i<n;i++){ Val v=args[i]; Type*T=CB->getArgOperand(i)->getType(); if(v.n){ if(T->isDoubleTy()&&printLike(name))v=dV(0.0); else if(T->isIntegerTy()&&!EX->n[v.n].isF)v=Val(concretize(v.n)); else if(T->isPointerTy()&&!EX->n[v.n].isF)v=Val(concretize(v.n)); else unsup("symbolic argument to native "+name); }
        if(CB->isByValArgument(i)){ av[i]=(void*)v.u; continue; }
        memset(&buf[i],0,32); if(T->isIntegerTy()){ uint64_t u=v.u; unsigned w=T->getIntegerBitWidth(); u=CB->paramHasAttr(i,Attribute::SExt)?(uint64_t)Exprs::sx(u,w):(u&Exprs::mask(w)); buf[i][0]=u; } else packVal(T,v,&buf[i]); av[i]=&buf[i];
        if(T->isPointerTy()&&inGuest(v.u)&&symAny(v.u,32)&&name.find("_ZNSt")!=std::string::npos&&name.find("string")!=std::string::npos) unsup("native "+name+" on symbolic bytes"); }
    union{ uint64_t u[8]; long double ld; } ret; memset(&ret,0,sizeof ret); bool threw=false,gu=false; GExc*ge=nullptr;
    guestMode=true;
    try{ ffi_call(ce.first,FFI_FN(fp),&ret,av.data()); guestMode=false; }
    catch(GuestUnwind&){ guestMode=false; gu=true; }
    catch(...){ auto*ep=new std::exception_ptr(std::current_exception()); guestMode=false; ge=new GExc; ge->obj=*(void**)ep; ge->ti=ep->__cxa_exception_type(); ge->adj=ge->obj; threw=true; }
    if(threw)inflight=ge; if(threw||gu)return Val();
    Type*RT=FT->getReturnType(); if(RT->isVoidTy())return Val(); return unpackVal(RT,&ret); }

static bool landingMatch(LandingPadInst*LP,int&sel){
    for(unsigned i=0;i<LP->getNumClauses();i++){ if(LP->isCatch(i)){ Constant*C=LP->getClause(i); if(isa<ConstantPointerNull>(C)){ inflight->adj=inflight->obj; sel=selOf(nullptr); return true; } auto*ti=(const std::type_info*)constVal(C).u; void*adj=inflight->obj; if(inflight->ti->__is_pointer_p())adj=*(void**)adj; if(ti->__do_catch(inflight->ti,&adj,1)){ inflight->adj=adj; sel=selOf(ti); return true; } } else { Constant*C=LP->getClause(i); if(C->getType()->isArrayTy()&&C->getType()->getArrayNumElements()==0){ sel=-1; return true; } } }
    if(LP->isCleanup()){ sel=0; return true; } return false; }

struct Frame{ std::vector<Val> r; uint64_t sp0; uint64_t va=0; };
static Val execFn(FnInfo*fi,std::vector<Val>&args,uint64_t va);
static Val doCall(FnInfo*fi,Frame&fr,Insn&x,std::vector<Val>&args,bool&handled);
static Val callFn(Function*F,std::vector<Val>&args,CallBase*CB){
    auto it=fbi.find(F); Builtin*b; if(it==fbi.end()){ auto q=BI.find(F->getName().str()); b=q==BI.end()?nullptr:&q->second; fbi[F]=b; } else b=it->second;
    if(b)return (*b)(CB,args);
    if(F->isDeclaration()){ if(!CB)unsup("callback to declaration"); std::string nm=F->getName().str(); void*fp=dlsym(RTLD_DEFAULT,nm.c_str()); if(!fp)unsup("unresolved function "+llvm::demangle(nm)); return nativeCall(fp,CB,args,nm); }
    FnInfo*fi=info(F); if(!fi->decoded)decode(fi);
    uint64_t va=0; unsigned np=F->arg_size(); if(F->isVarArg()&&args.size()>=np){ unsigned ex=args.size()-np; va=galloc(8*(ex+1)*2,false); uint64_t o=va; for(unsigned i=0;i<ex;i++){ Type*T=CB->getArgOperand(np+i)->getType(); if(T->isX86_FP80Ty()){ o=(o+15)&~15ull; storeT(o,T,args[np+i]); o+=16; } else { Val v=args[np+i]; if(v.n)v=T->isDoubleTy()?dV(0):Val(concretize(v.n)); *(uint64_t*)o=v.u; o+=8; } } args.resize(np); }
    // byval arguments: callee gets a copy
    for(unsigned i=0;i<np;i++)if(F->hasParamAttribute(i,Attribute::ByVal)){ uint64_t sz=DL->getTypeAllocSize(F->getParamByValType(i)); uint64_t c=galloc(sz); copyMem(c,args[i].u,sz); args[i]=Val(c); }
    if(fi->id<(1<<16))SH->fnhit[fi->id]=1;
    return execFn(fi,args,va); }

static Val intrinsic(Intrinsic::ID id,CallBase*CB,std::vector<Val>&a,Frame&fr);
static uint64_t instrLimit=400000000ull; static uint64_t pathInstr=0;
static int callDepth=0;
static Val execFn(FnInfo*fi,std::vector<Val>&args,uint64_t va){
    if(++callDepth>3000){ memViolation("unbounded recursion (call depth 3000)"); }
    struct DG{~DG(){callDepth--; curStack.pop_back();}}; curStack.push_back(fi->F); DG dg; 
    Frame fr; fr.r.resize(fi->nregs); for(size_t i=0;i<args.size()&&i<(size_t)fi->nregs;i++)fr.r[i]=args[i]; fr.sp0=sp; fr.va=va;
    auto V=[&](int i)->const Val&{ return i>=0?fr.r[i]:fi->consts[-1-i]; };
    auto leave=[&](){ if(sp!=fr.sp0){ symClear(fr.sp0,sp-fr.sp0); setShadow(fr.sp0,(sp-fr.sp0+7)&~7ull,0); sp=fr.sp0; } };
    int bb=0,prev=-1; int landSel=0; (void)landSel;
    for(;;){
        auto&blk=fi->bb[bb]; size_t k=0;
        // phis first (parallel)
        if(!blk.empty()&&blk[0].op==Instruction::PHI){ std::vector<Val> tmp; size_t e=0; for(;e<blk.size()&&blk[e].op==Instruction::PHI;e++){ auto&o=blk[e].o; bool ok=false; for(size_t i=0;i<o.size();i+=2)if(o[i]==prev){tmp.push_back(V(o[i+1]));ok=true;break;} if(!ok)unsup("phi"); } for(size_t i=0;i<e;i++)fr.r[blk[i].dst]=tmp[i]; k=e; icount+=e; }
        bool jumped=false;
        for(;k<blk.size();k++){
            Insn&x=blk[k]; icount++; if(++pathInstr>instrLimit)inconclusive("instruction budget");
            if((pathInstr&0xfffff)==0)checkBudget();
            switch(x.op){
            case Instruction::Alloca:{ auto*A=cast<AllocaInst>(x.I); uint64_t n=conc(V(x.o[0])); uint64_t sz=DL->getTypeAllocSize(A->getAllocatedType())*n; uint64_t al=std::max<uint64_t>(16,A->getAlign().value()); uint64_t a=(sp+16+al-1)&~(al-1); sp=(a+sz+15+16)&~15ull; if(sp>=GEND-4096)memViolation("guest stack overflow"); setShadow(a,sz?sz:1,8); uint64_t*w=(uint64_t*)a; for(uint64_t i=0;i<sz/8;i++)w[i]=POISON; fr.r[x.dst]=Val(a); break; }
            case Instruction::Load:{ uint64_t a=conc(V(x.o[0])); fr.r[x.dst]=loadT(a,x.T); break; }
            case Instruction::Store:{ uint64_t a=conc(V(x.o[1])); storeT(a,x.I->getOperand(0)->getType(),V(x.o[0])); break; }
            case Instruction::GetElementPtr:{ auto*G=cast<GetElementPtrInst>(x.I); 
                if(!x.x){ // pre-decode
                    struct GD{ int64_t off; std::vector<std::pair<int,int64_t>> t; }; }
                if(G->getType()->isVectorTy())unsup("vector gep");
                Val base=V(x.o[0]); int64_t off=0; int symo=0; unsigned i=1; for(auto it=gep_type_begin(G),e=gep_type_end(G);it!=e;++it,++i){ const Val&iv=V(x.o[i]); if(StructType*ST=it.getStructTypeOrNull()){ off+=DL->getStructLayout(ST)->getElementOffset(iv.u); } else { uint64_t es=DL->getTypeAllocSize(it.getIndexedType()); unsigned w=it.getOperand()->getType()->getIntegerBitWidth(); if(iv.n){ int s=EX->sext(bnode(iv,w),64); s=EX->bin(O_MUL,s,EX->cst(es,64)); symo=symo?EX->bin(O_ADD,symo,s):s; } else off+=Exprs::sx(iv.u,w)*(int64_t)es; } }
                if(base.n||symo){ int b=bnode(base,64); b=EX->bin(O_ADD,b,EX->cst(off,64)); if(symo)b=EX->bin(O_ADD,symo,b); fr.r[x.dst]=symV(b); } else fr.r[x.dst]=Val(base.u+off); break; }
            case Instruction::Br:{ if(x.o.empty()){prev=bb;bb=x.b0;} else { const Val&c=V(x.o[0]); bool t=c.n?decide(c.n):(c.u&1); prev=bb; bb=t?x.b0:x.b1; } jumped=true; break; }
            case Instruction::Switch:{ auto*S=cast<SwitchInst>(x.I); Val c=V(x.o[0]); unsigned w=S->getCondition()->getType()->getIntegerBitWidth(); BasicBlock*d=nullptr; if(c.n){ for(auto&cs:S->cases()){ if(decide(EX->bin(O_EQ,bnode(c,w),EX->cst(cs.getCaseValue()->getZExtValue(),w)))){d=cs.getCaseSuccessor();break;} } if(!d)d=S->getDefaultDest(); } else { d=S->getDefaultDest(); for(auto&cs:S->cases())if(cs.getCaseValue()->getZExtValue()==(c.u&Exprs::mask(w))){d=cs.getCaseSuccessor();break;} } prev=bb; bb=fi->bbi[d]; jumped=true; break; }
            case Instruction::Ret:{ Val r; if(!x.o.empty())r=V(x.o[0]); leave(); return r; }
            case Instruction::Unreachable: memViolation("reached unreachable code");
            case Instruction::Resume:{ const Val&v=V(x.o[0]); (void)v; if(!inflight){ inflight=(GExc*)(*v.a)[0].u; } leave(); return Val(); }
            case Instruction::Call:case Instruction::Invoke:{
                auto*CB=cast<CallBase>(x.I); std::vector<Val> av; unsigned na=CB->arg_size(); av.reserve(na); for(unsigned i=0;i<na;i++)av.push_back(x.o[i]==INT32_MIN?Val():V(x.o[i]));
                Val r; Function*F=CB->getCalledFunction();
                if(CB->isInlineAsm()){ if(!CB->getType()->isVoidTy())unsup("inline asm"); }
                else if(F&&F->isIntrinsic()) r=intrinsic(F->getIntrinsicID(),CB,av,fr);
                else if(F) r=callFn(F,av,CB);
                else { uint64_t t=conc(V(x.o[na])); auto it=addrFn.find(t); if(it!=addrFn.end())r=callFn(it->second,av,CB); else { if(t<4096||(t>>47)||inGuest(t))memViolation("call through invalid function pointer"); Dl_info di; std::string nm="?"; if(dladdr((void*)t,&di)&&di.dli_sname)nm=di.dli_sname; r=nativeCall((void*)t,CB,av,nm); } }
                if(inflight){
                    if(x.op==Instruction::Call){ leave(); return Val(); }
                    auto*LP=cast<InvokeInst>(x.I)->getLandingPadInst(); int sel; if(!landingMatch(LP,sel)){ leave(); return Val(); }
                    GExc*g=inflight; inflight=nullptr; Val lp; lp.a=std::make_shared<std::vector<Val>>(2); (*lp.a)[0].u=(uint64_t)g; (*lp.a)[1].u=(uint32_t)sel; 
                    prev=bb; bb=x.b1; // execute phis + landingpad
                    auto&lb=fi->bb[bb]; size_t e=0; std::vector<Val> tmp; for(;lb[e].op==Instruction::PHI;e++){ auto&o=lb[e].o; for(size_t i=0;i<o.size();i+=2)if(o[i]==prev){tmp.push_back(V(o[i+1]));break;} } for(size_t i=0;i<e;i++)fr.r[lb[i].dst]=tmp[i];
                    for(size_t q=e;q<lb.size();q++)if(lb[q].op==Instruction::LandingPad){ fr.r[lb[q].dst]=lp; break; }
                    jumped=true; break; }
                if(x.dst>=0)fr.r[x.dst]=r;
                if(x.op==Instruction::Invoke){ prev=bb; bb=x.b0; jumped=true; }
                break; }
            case Instruction::LandingPad: break; // value already placed
            case Instruction::PHI: unsup("phi in middle");
            case Instruction::Select:{ const Val c=V(x.o[0]); if(c.a){ Val r; r.a=std::make_shared<std::vector<Val>>(); for(size_t i=0;i<c.a->size();i++){ const Val&ci=(*c.a)[i]; bool t=ci.n?decide(ci.n):(ci.u&1); r.a->push_back(t?(*V(x.o[1]).a)[i]:(*V(x.o[2]).a)[i]); } fr.r[x.dst]=r; break; }
                if(!c.n){ Val t=(c.u&1)?V(x.o[1]):V(x.o[2]); fr.r[x.dst]=t; break; }
                if(x.T->isIntegerTy()&&x.T->getIntegerBitWidth()<=64){ const Val&a=V(x.o[1]),&b=V(x.o[2]); unsigned w=x.T->getIntegerBitWidth(); int na=bnode(a,w),nb=bnode(b,w); if(EX->n[na].op!=O_FBITS&&EX->n[nb].op!=O_FBITS){ fr.r[x.dst]=symV(EX->ite(c.n,na,nb)); break; } }
                bool t=decide(c.n); Val tv=t?V(x.o[1]):V(x.o[2]); fr.r[x.dst]=tv; break; }
            case Instruction::ICmp:case Instruction::FCmp:{ auto*C=cast<CmpInst>(x.I); Type*T=C->getOperand(0)->getType(); const Val&a=V(x.o[0]),&b=V(x.o[1]); if(auto*VT=dyn_cast<FixedVectorType>(T)){ Val r; r.a=std::make_shared<std::vector<Val>>(); for(unsigned i=0;i<VT->getNumElements();i++)r.a->push_back(scalarCmp(C->getPredicate(),VT->getElementType(),(*a.a)[i],(*b.a)[i])); fr.r[x.dst]=r; } else { Val r=scalarCmp(C->getPredicate(),T,a,b); fr.r[x.dst]=r; } break; }
            case Instruction::FNeg:{ auto neg=[&](Type*T,const Val&v){ if(T->isDoubleTy())return v.n?symV(EX->fneg(v.n)):dV(-asD(v)); if(T->isFloatTy())return flV(-asFl(v)); return ldV(-asLD(v)); }; const Val&a=V(x.o[0]); if(auto*VT=dyn_cast<FixedVectorType>(x.T)){ Val r; r.a=std::make_shared<std::vector<Val>>(); for(unsigned i=0;i<VT->getNumElements();i++)r.a->push_back(neg(VT->getElementType(),(*a.a)[i])); fr.r[x.dst]=r; } else { Val r=neg(x.T,a); fr.r[x.dst]=r; } break; }
            case Instruction::ExtractValue:{ auto*E=cast<ExtractValueInst>(x.I); Val v=V(x.o[0]); for(unsigned i:E->indices()){ Val t=(*v.a)[i]; v=t; } fr.r[x.dst]=v; break; }
            case Instruction::InsertValue:{ auto*E=cast<InsertValueInst>(x.I); std::function<Val(const Val&,Type*,unsigned)> ins=[&](const Val&b,Type*T,unsigned d)->Val{ if(d==E->getNumIndices())return V(x.o[1]); Val r; r.a=std::make_shared<std::vector<Val>>(*b.a); unsigned i=E->getIndices()[d]; Type*ET=T->isStructTy()?T->getStructElementType(i):T->getArrayElementType(); (*r.a)[i]=ins((*b.a)[i],ET,d+1); return r; }; Val r=ins(V(x.o[0]),x.T,0); fr.r[x.dst]=r; break; }
            case Instruction::ExtractElement:{ uint64_t i=conc(V(x.o[1])); Val v=(*V(x.o[0]).a)[i]; fr.r[x.dst]=v; break; }
            case Instruction::InsertElement:{ uint64_t i=conc(V(x.o[2])); Val r; r.a=std::make_shared<std::vector<Val>>(*V(x.o[0]).a); (*r.a)[i]=V(x.o[1]); fr.r[x.dst]=r; break; }
            case Instruction::ShuffleVector:{ auto*S=cast<ShuffleVectorInst>(x.I); const Val&a=V(x.o[0]),&b=V(x.o[1]); Val r; r.a=std::make_shared<std::vector<Val>>(); int n=a.a->size(); for(int m:S->getShuffleMask())r.a->push_back(m<0?Val():m<n?(*a.a)[m]:(*b.a)[m-n]); fr.r[x.dst]=r; break; }
            case Instruction::Freeze:{ Val v=V(x.o[0]); fr.r[x.dst]=v; break; }
            case Instruction::Fence: break;
            case Instruction::AtomicRMW:{ auto*A=cast<AtomicRMWInst>(x.I); uint64_t p=conc(V(x.o[0])); Type*T=A->getValOperand()->getType(); Val old=loadT(p,T); Val v=V(x.o[1]),nv; switch(A->getOperation()){case AtomicRMWInst::Xchg:nv=v;break;case AtomicRMWInst::Add:nv=scalarBin(Instruction::Add,T,old,v);break;case AtomicRMWInst::Sub:nv=scalarBin(Instruction::Sub,T,old,v);break;case AtomicRMWInst::And:nv=scalarBin(Instruction::And,T,old,v);break;case AtomicRMWInst::Or:nv=scalarBin(Instruction::Or,T,old,v);break;default:unsup("atomicrmw");} storeT(p,T,nv); fr.r[x.dst]=old; break; }
            case Instruction::AtomicCmpXchg:{ auto*A=cast<AtomicCmpXchgInst>(x.I); uint64_t p=conc(V(x.o[0])); Type*T=A->getCompareOperand()->getType(); Val old=loadT(p,T); bool eq=conc(old)==conc(V(x.o[1])); if(eq)storeT(p,T,V(x.o[2])); Val r; r.a=std::make_shared<std::vector<Val>>(2); (*r.a)[0]=old; (*r.a)[1].u=eq; fr.r[x.dst]=r; break; }
            default:
                if(x.I->isBinaryOp()){ const Val&a=V(x.o[0]),&b=V(x.o[1]); Val r; if(auto*VT=dyn_cast<FixedVectorType>(x.T)){ r.a=std::make_shared<std::vector<Val>>(); for(unsigned i=0;i<VT->getNumElements();i++)r.a->push_back(scalarBin(x.op,VT->getElementType(),(*a.a)[i],(*b.a)[i])); } else r=scalarBin(x.op,x.T,a,b); fr.r[x.dst]=r; break; }
                if(x.I->isCast()){ const Val&a=V(x.o[0]); Type*S=x.I->getOperand(0)->getType(); Val r; auto*VD=dyn_cast<FixedVectorType>(x.T); auto*VS=dyn_cast<FixedVectorType>(S);
                    if(VD&&VS&&VD->getNumElements()==VS->getNumElements()){ r.a=std::make_shared<std::vector<Val>>(); for(unsigned i=0;i<VD->getNumElements();i++)r.a->push_back(scalarCast(x.op,VS->getElementType(),VD->getElementType(),(*a.a)[i])); }
                    else if(VD||VS||((S->isIntegerTy()&&S->getIntegerBitWidth()>64&&x.op==Instruction::BitCast))){ if(x.op!=Instruction::BitCast)unsup("vector cast"); uint64_t t=galloc(64,false); storeT(t,S,a); r=loadT(t,x.T); }
                    else r=scalarCast(x.op,S,x.T,a); fr.r[x.dst]=r; break; }
                unsup(std::string("instruction ")+x.I->getOpcodeName());
            }
            if(jumped)break;
        }
        if(!jumped)unsup("fell off block");
    } }

static Val minmax(Type*T,const Val&a,const Val&b,CmpInst::Predicate p){ Val c=scalarCmp(p,T,a,b); unsigned w=T->isIntegerTy()?T->getIntegerBitWidth():0; if(c.n){ if(w)return symV(EX->ite(c.n,bnode(a,w),bnode(b,w))); return decide(c.n)?a:b; } return c.u?a:b; }
static Val overflowOp(Intrinsic::ID id,Type*T,const Val&a,const Val&b){ unsigned w=T->getIntegerBitWidth(); Val r; r.a=std::make_shared<std::vector<Val>>(2); if(w>64)unsup("wide overflow");
    uint64_t ca=conc(a),cb=conc(b); __int128 x,y,z; bool sg=id==Intrinsic::sadd_with_overflow||id==Intrinsic::ssub_with_overflow||id==Intrinsic::smul_with_overflow; if(sg){x=Exprs::sx(ca,w);y=Exprs::sx(cb,w);} else {x=ca&Exprs::mask(w);y=cb&Exprs::mask(w);} 
    if(id==Intrinsic::umul_with_overflow||id==Intrinsic::smul_with_overflow){ if(!sg){ unsigned __int128 m=(unsigned __int128)(uint64_t)x*(uint64_t)y; (*r.a)[0].u=(uint64_t)m&Exprs::mask(w); (*r.a)[1].u=(m>>w)!=0; return r; } z=x*y; } else if(id==Intrinsic::uadd_with_overflow||id==Intrinsic::sadd_with_overflow)z=x+y; else z=x-y;
    uint64_t lo=(uint64_t)z&Exprs::mask(w); bool ov=sg?(z!=(__int128)Exprs::sx(lo,w)):(z<0||z>(__int128)(unsigned __int128)Exprs::mask(w)); (*r.a)[0].u=lo; (*r.a)[1].u=ov; return r; }
static Val lift1(Type*T,const Val&a,std::function<Val(Type*,const Val&)> f){ if(auto*VT=dyn_cast<FixedVectorType>(T)){ Val r; r.a=std::make_shared<std::vector<Val>>(); for(auto&e:*a.a)r.a->push_back(f(VT->getElementType(),e)); return r; } return f(T,a); }
static Val lift2(Type*T,const Val&a,const Val&b,std::function<Val(Type*,const Val&,const Val&)> f){ if(auto*VT=dyn_cast<FixedVectorType>(T)){ Val r; r.a=std::make_shared<std::vector<Val>>(); for(size_t i=0;i<a.a->size();i++)r.a->push_back(f(VT->getElementType(),(*a.a)[i],(*b.a)[i])); return r; } return f(T,a,b); }
static Val powV(const Val&a,const Val&b){ if(!a.n&&!b.n)return dV(pow(asD(a),asD(b))); int x=fnode(a),y=fnode(b); double e; if(EX->isFC(y,&e)&&(e!=floor(e)||e<0)){ if(!(EX->iv(x).lo>0))assumeDomain(EX->fcmp(O_FLT,EX->fcst(0),x)); } return symV(EX->fpow(x,y)); }
static Val roundLike(const Val&a,int kind){ if(!a.n){ double d=asD(a); switch(kind){case 0:return dV(floor(d));case 1:return dV(ceil(d));case 2:return dV(trunc(d));case 3:return dV(round(d));default:return dV(nearbyint(d));} }
    int f=fnode(a); for(int i=0;i<64;i++){ if(!hasW)unsup("round without model"); std::unordered_map<int,Exprs::EV> m; double d=EX->eval(f,W,m).d; double r; int c; 
        if(kind==0){ r=floor(d); c=EX->andb(EX->fcmp(O_FLE,EX->fcst(r),f),EX->fcmp(O_FLT,f,EX->fcst(r+1))); }
        else if(kind==1){ r=ceil(d); c=EX->andb(EX->fcmp(O_FLT,EX->fcst(r-1),f),EX->fcmp(O_FLE,f,EX->fcst(r))); }
        else if(kind==2){ r=trunc(d); c= r>0?EX->andb(EX->fcmp(O_FLE,EX->fcst(r),f),EX->fcmp(O_FLT,f,EX->fcst(r+1))): r<0?EX->andb(EX->fcmp(O_FLT,EX->fcst(r-1),f),EX->fcmp(O_FLE,f,EX->fcst(r))):EX->andb(EX->fcmp(O_FLT,EX->fcst(-1),f),EX->fcmp(O_FLT,f,EX->fcst(1))); }
        else { r=round(d); c= r>0?EX->andb(EX->fcmp(O_FLE,EX->fcst(r-0.5),f),EX->fcmp(O_FLT,f,EX->fcst(r+0.5))): r<0?EX->andb(EX->fcmp(O_FLT,EX->fcst(r-0.5),f),EX->fcmp(O_FLE,f,EX->fcst(r+0.5))):EX->andb(EX->fcmp(O_FLT,EX->fcst(-0.5),f),EX->fcmp(O_FLT,f,EX->fcst(0.5))); }
        if(decide(c))return dV(r); } unsup("round range"); }
static Val fabsV(Type*T,const Val&a){ if(T->isDoubleTy())return a.n?symV(EX->fabs_(fnode(a))):dV(fabs(asD(a))); if(T->isFloatTy())return flV(fabsf(asFl(a))); return ldV(fabsl(asLD(a))); }
static void memsetG(uint64_t d,const Val&c,uint64_t n){ if(!n)return; chk(d,n,true); if(c.n)for(uint64_t i=0;i<n;i++)storeBytes(d+i,1,c); else { symClear(d,n); memset((void*)d,(int)c.u,n); } }
static Val intrinsic(Intrinsic::ID id,CallBase*CB,std::vector<Val>&a,Frame&fr){
    Type*T=CB->getType();
    switch(id){
    case Intrinsic::memcpy:case Intrinsic::memmove:case Intrinsic::memcpy_inline: copyMem(conc(a[0]),conc(a[1]),conc(a[2])); return Val();
    case Intrinsic::memset: memsetG(conc(a[0]),a[1],conc(a[2])); return Val();
    case Intrinsic::lifetime_start:case Intrinsic::lifetime_end:case Intrinsic::assume:case Intrinsic::donothing:case Intrinsic::experimental_noalias_scope_decl:case Intrinsic::invariant_end:case Intrinsic::prefetch:case Intrinsic::var_annotation:case Intrinsic::sideeffect: return Val();
    case Intrinsic::invariant_start: return Val(0);
    case Intrinsic::expect:case Intrinsic::expect_with_probability:case Intrinsic::launder_invariant_group:case Intrinsic::strip_invariant_group:case Intrinsic::threadlocal_address:case Intrinsic::annotation:case Intrinsic::ptr_annotation: return a[0];
    case Intrinsic::fabs: return lift1(T,a[0],fabsV);
    case Intrinsic::sqrt: return lift1(T,a[0],[](Type*t,const Val&v){ return t->isDoubleTy()?ffun(FN_SQRT,v):t->isFloatTy()?flV(sqrtf(asFl(v))):ldV(sqrtl(asLD(v)));});
    case Intrinsic::sin: return ffun(FN_SIN,a[0]); case Intrinsic::cos: return ffun(FN_COS,a[0]); case Intrinsic::exp: return ffun(FN_EXP,a[0]); case Intrinsic::log: return ffun(FN_LOG,a[0]); case Intrinsic::log10: return ffun(FN_LOG10,a[0]);
    case Intrinsic::exp2: return dV(exp2(concD(a[0],"exp2"))); case Intrinsic::log2: return dV(log2(concD(a[0],"log2")));
    case Intrinsic::pow: return powV(a[0],a[1]);
    case Intrinsic::powi: return powV(a[0],dV((double)(int32_t)conc(a[1])));
    case Intrinsic::fmuladd:case Intrinsic::fma: return lift2(T,a[0],a[1],[&](Type*,const Val&x,const Val&y){return fop(O_FADD,fop(O_FMUL,x,y),a[2]);});
    case Intrinsic::floor: return T->isDoubleTy()?roundLike(a[0],0):ldV(floorl(asLD(a[0]))); case Intrinsic::ceil: return roundLike(a[0],1); case Intrinsic::trunc: return roundLike(a[0],2); case Intrinsic::round: return roundLike(a[0],3); case Intrinsic::rint:case Intrinsic::nearbyint:case Intrinsic::roundeven: return roundLike(a[0],a[0].n?3:4);
    case Intrinsic::lround:case Intrinsic::llround:case Intrinsic::lrint:case Intrinsic::llrint:{ Val r=roundLike(a[0],3); return Val((uint64_t)(int64_t)asD(r)); }
    case Intrinsic::copysign:{ if(!a[0].n&&!a[1].n)return dV(copysign(asD(a[0]),asD(a[1]))); Val m=fabsV(T,a[0]); bool neg=a[1].n?decide(EX->fcmp(O_FLT,fnode(a[1]),EX->fcst(0))):std::signbit(asD(a[1])); return neg?(m.n?symV(EX->fneg(m.n)):dV(-asD(m))):m; }
    case Intrinsic::minnum:case Intrinsic::minimum: return minmax(T,a[0],a[1],CmpInst::FCMP_OLT); case Intrinsic::maxnum:case Intrinsic::maximum: return minmax(T,a[0],a[1],CmpInst::FCMP_OGT);
    case Intrinsic::umin: return lift2(T,a[0],a[1],[](Type*t,const Val&x,const Val&y){return minmax(t,x,y,CmpInst::ICMP_ULT);}); case Intrinsic::umax: return lift2(T,a[0],a[1],[](Type*t,const Val&x,const Val&y){return minmax(t,x,y,CmpInst::ICMP_UGT);}); case Intrinsic::smin: return lift2(T,a[0],a[1],[](Type*t,const Val&x,const Val&y){return minmax(t,x,y,CmpInst::ICMP_SLT);}); case Intrinsic::smax: return lift2(T,a[0],a[1],[](Type*t,const Val&x,const Val&y){return minmax(t,x,y,CmpInst::ICMP_SGT);});
    case Intrinsic::abs: return lift1(T,a[0],[](Type*t,const Val&v){ unsigned w=t->getIntegerBitWidth(); if(v.n){ int z=EX->cst(0,w); return symV(EX->ite(EX->bin(O_SLT,v.n,z),EX->bin(O_SUB,z,v.n),v.n)); } int64_t s=Exprs::sx(v.u,w); return Val((uint64_t)(s<0?0-(uint64_t)s:s)&Exprs::mask(w)); });
    case Intrinsic::ctpop: return Val(__builtin_popcountll(conc(a[0]))); case Intrinsic::ctlz:{ unsigned w=T->getIntegerBitWidth(); uint64_t v=conc(a[0]); return Val(v?__builtin_clzll(v)-(64-w):w); } case Intrinsic::cttz:{ unsigned w=T->getIntegerBitWidth(); uint64_t v=conc(a[0]); return Val(v?__builtin_ctzll(v):w); }
    case Intrinsic::bswap:{ unsigned w=T->getIntegerBitWidth(); return Val(__builtin_bswap64(conc(a[0]))>>(64-w)); }
    case Intrinsic::fshl:{ unsigned w=T->getIntegerBitWidth(); uint64_t x=conc(a[0]),y=conc(a[1]),s=conc(a[2])%w; return Val((s?((x<<s)|(y>>(w-s))):x)&Exprs::mask(w)); } case Intrinsic::fshr:{ unsigned w=T->getIntegerBitWidth(); uint64_t x=conc(a[0]),y=conc(a[1]),s=conc(a[2])%w; return Val((s?((x<<(w-s))|(y>>s)):y)&Exprs::mask(w)); }
    case Intrinsic::uadd_with_overflow:case Intrinsic::sadd_with_overflow:case Intrinsic::usub_with_overflow:case Intrinsic::ssub_with_overflow:case Intrinsic::umul_with_overflow:case Intrinsic::smul_with_overflow: return overflowOp(id,CB->getArgOperand(0)->getType(),a[0],a[1]);
    case Intrinsic::usub_sat:{ unsigned w=T->getIntegerBitWidth(); (void)w; uint64_t x=conc(a[0]),y=conc(a[1]); return Val(x>y?x-y:0); } case Intrinsic::uadd_sat:{ unsigned w=T->getIntegerBitWidth(); uint64_t x=conc(a[0]),y=conc(a[1]); unsigned __int128 s=(unsigned __int128)x+y; return Val(s>Exprs::mask(w)?Exprs::mask(w):(uint64_t)s); }
    case Intrinsic::eh_typeid_for: return Val((uint32_t)selOf((void*)a[0].u));
    case Intrinsic::stacksave: return Val(sp); case Intrinsic::stackrestore: return Val();
    case Intrinsic::trap:case Intrinsic::debugtrap: memViolation("trap");
    case Intrinsic::vastart:{ uint64_t p=conc(a[0]); *(uint32_t*)p=48; *(uint32_t*)(p+4)=304; *(uint64_t*)(p+8)=fr.va; *(uint64_t*)(p+16)=0; return Val(); }
    case Intrinsic::vaend: return Val(); case Intrinsic::vacopy: memcpy((void*)conc(a[0]),(void*)conc(a[1]),24); return Val();
    case Intrinsic::is_constant: return Val(0); case Intrinsic::objectsize: return Val(~0ull);
    case Intrinsic::is_fpclass:{ if(a[0].n){ unsigned m=a[1].u; if((m&0x3f8)==0)return Val(0); if((m&0x3)!=0&&(m&0x3fc)==0)return Val(0); unsup("is.fpclass"); } double d=asD(a[0]); unsigned m=a[1].u,c; bool ng=std::signbit(d); switch(std::fpclassify(d)){case FP_NAN:c=2;break;case FP_INFINITE:c=ng?4:512;break;case FP_NORMAL:c=ng?8:256;break;case FP_SUBNORMAL:c=ng?16:128;break;default:c=ng?32:64;} return Val((m&c)!=0); }
    case Intrinsic::vector_reduce_fadd:{ Val r=a[0]; for(auto&e:*a[1].a)r=fop(O_FADD,r,e); return r; }
    case Intrinsic::vector_reduce_add:{ Val r=Val(0); for(auto&e:*a[0].a)r=scalarBin(Instruction::Add,T,r,e); return r; }
    case Intrinsic::load_relative:{ uint64_t b=conc(a[0]); Val o=loadT(b+conc(a[1]),Type::getInt32Ty(*LC)); return Val(b+(uint64_t)Exprs::sx(conc(o),32)); }
    case Intrinsic::vector_reduce_or:{ Val r=Val(0); for(auto&e:*a[0].a)r=scalarBin(Instruction::Or,T,r,e); return r; }
    case Intrinsic::vector_reduce_and:{ Val r=Val(Exprs::mask(T->getIntegerBitWidth())); for(auto&e:*a[0].a)r=scalarBin(Instruction::And,T,r,e); return r; }
    default: unsup("intrinsic "+CB->getCalledFunction()->getName().str()); } }

// ---------------------------------------------------------------- run-time library
static std::string gstr(uint64_t p){ return p?std::string((const char*)p):std::string(); }
static std::map<std::string,int> nameCnt;
static std::string uniq(const std::string&n){ int k=nameCnt[n]++; return k?n+"#"+std::to_string(k):n; }
static Val newReal(const std::string&nm,double lo,double hi){ std::string u=uniq(nm); if(lo==hi)return dV(lo); int id=EX->newVar(u,true,64,lo,hi,0,0); uint64_t h=1469598103934665603ull; for(char c:u){h^=(unsigned char)c;h*=1099511628211ull;} h^=h>>29; h*=0xbf58476d1ce4e5b9ull; h^=h>>32; double t=0.05+0.9*((h>>11)*(1.0/9007199254740992.0)); W.d.push_back(lo+(hi-lo)*t); W.b.push_back(0); return symV(id); }
static Val newInt(const std::string&nm,int w,int64_t lo,int64_t hi){ std::string u=uniq(nm); if(lo==hi)return Val((uint64_t)lo&Exprs::mask(w)); int id=EX->newVar(u,false,w,0,0,lo,hi); uint64_t h=1469598103934665603ull; for(char c:u){h^=(unsigned char)c;h*=1099511628211ull;} uint64_t span=(uint64_t)(hi-lo)+1; W.b.push_back((uint64_t)(lo+(int64_t)(span?(h>>7)%span:0))); W.d.push_back(0); return symV(id); }
static Val cmpMem(uint64_t a,uint64_t b,uint64_t n,bool str){ for(uint64_t i=0;i<n;i++){ Val x=loadBytes(a+i,1,false),y=loadBytes(b+i,1,false); if(!x.n&&!y.n){ if(x.u!=y.u)return Val((uint32_t)((int)x.u-(int)y.u)); if(str&&!x.u)return Val(0); continue; } int p=bnode(x,8),q=bnode(y,8); if(decide(EX->bin(O_EQ,p,q))){ if(str&&decide(EX->bin(O_EQ,p,EX->cst(0,8))))return Val(0); continue; } return decide(EX->bin(O_ULT,p,q))?Val((uint32_t)-1):Val(1); } return Val(0); }
static void setupBuiltins(){
    auto mathf=[](const char*n,int f){ BI[n]=[f](CallBase*,std::vector<Val>&a){return ffun(f,a[0]);}; };
    mathf("sin",FN_SIN);mathf("cos",FN_COS);mathf("sinh",FN_SINH);mathf("cosh",FN_COSH);mathf("sqrt",FN_SQRT);mathf("exp",FN_EXP);mathf("log",FN_LOG);mathf("atan",FN_ATAN);mathf("asin",FN_ASIN);mathf("acos",FN_ACOS);mathf("tanh",FN_TANH);mathf("cbrt",FN_CBRT);mathf("log10",FN_LOG10);
    BI["tan"]=[](CallBase*,std::vector<Val>&a){ if(!a[0].n)return dV(tan(asD(a[0]))); return fop(O_FDIV,ffun(FN_SIN,a[0]),ffun(FN_COS,a[0])); };
    BI["pow"]=[](CallBase*,std::vector<Val>&a){return powV(a[0],a[1]);};
    BI["fmod"]=[](CallBase*,std::vector<Val>&a){ if(!a[0].n&&!a[1].n)return dV(fmod(asD(a[0]),asD(a[1]))); if(a[1].n)unsup("fmod by a symbolic divisor"); static int k=0; double y=std::fabs(asD(a[1])); return newReal("fmod."+std::to_string(k++),-y,y); }; // any remainder: over-approximated
    BI["fabs"]=[](CallBase*C,std::vector<Val>&a){return fabsV(Type::getDoubleTy(*LC),a[0]);};
    BI["floor"]=[](CallBase*,std::vector<Val>&a){return roundLike(a[0],0);}; BI["ceil"]=[](CallBase*,std::vector<Val>&a){return roundLike(a[0],1);}; BI["trunc"]=[](CallBase*,std::vector<Val>&a){return roundLike(a[0],2);}; BI["round"]=[](CallBase*,std::vector<Val>&a){return roundLike(a[0],3);};
    BI["fmin"]=[](CallBase*,std::vector<Val>&a){return minmax(Type::getDoubleTy(*LC),a[0],a[1],CmpInst::FCMP_OLT);}; BI["fmax"]=[](CallBase*,std::vector<Val>&a){return minmax(Type::getDoubleTy(*LC),a[0],a[1],CmpInst::FCMP_OGT);};
    BI["hypot"]=[](CallBase*,std::vector<Val>&a){ if(!a[0].n&&!a[1].n)return dV(hypot(asD(a[0]),asD(a[1]))); return ffun(FN_SQRT,fop(O_FADD,fop(O_FMUL,a[0],a[0]),fop(O_FMUL,a[1],a[1]))); };
    auto mal=[](CallBase*,std::vector<Val>&a){ uint64_t n=conc(a[0]); if(n>(1ull<<32)){ return Val(0); } return Val(galloc(n?n:1)); };
    auto nw=[](CallBase*C,std::vector<Val>&a){ uint64_t n=conc(a[0]); if(n>(1ull<<32)){ try{ throw std::bad_alloc(); }catch(...){ auto*ep=new std::exception_ptr(std::current_exception()); auto*ge=new GExc; ge->obj=*(void**)ep; ge->ti=ep->__cxa_exception_type(); ge->adj=ge->obj; inflight=ge; } return Val(0);} return Val(galloc(n?n:1)); };
    BI["malloc"]=mal; for(auto n:{"_Znwm","_Znam","_ZnwmSt11align_val_t","_ZnamSt11align_val_t","_ZnwmRKSt9nothrow_t","_ZnamRKSt9nothrow_t"})BI[n]=nw;
    BI["calloc"]=[](CallBase*,std::vector<Val>&a){ uint64_t n=conc(a[0])*conc(a[1]); uint64_t p=galloc(n?n:1,false); memset((void*)p,0,n); return Val(p); };
    BI["realloc"]=[](CallBase*,std::vector<Val>&a){ uint64_t o=conc(a[0]),n=conc(a[1]); uint64_t p=galloc(n?n:1); if(o){ if(!inGuest(o)){ inconclusive("realloc of native block"); } uint64_t sz=*(uint64_t*)(o-16); copyMem(p,o,std::min(sz,n)); gfree((void*)o);} return Val(p); };
    auto fr=[](CallBase*,std::vector<Val>&a){ uint64_t p=conc(a[0]); if(!p)return Val(); if(inGuest(p)){ if(gfree((void*)p))memViolation("invalid or double free"); } else { free((void*)p); } return Val(); };
    for(auto n:{"free","_ZdlPv","_ZdaPv","_ZdlPvm","_ZdaPvm","_ZdlPvSt11align_val_t","_ZdlPvmSt11align_val_t","_ZdaPvSt11align_val_t","_ZdlPvRKSt9nothrow_t"})BI[n]=fr;
    BI["memcpy"]=BI["memmove"]=[](CallBase*,std::vector<Val>&a){ copyMem(conc(a[0]),conc(a[1]),conc(a[2])); return Val(conc(a[0])); };
    BI["memset"]=[](CallBase*,std::vector<Val>&a){ Val c=a[1]; if(c.n)c=symV(EX->extract(c.n,0,8)); memsetG(conc(a[0]),c,conc(a[2])); return Val(conc(a[0])); };
    BI["memcmp"]=BI["bcmp"]=[](CallBase*,std::vector<Val>&a){ return cmpMem(conc(a[0]),conc(a[1]),conc(a[2]),false); };
    BI["strcmp"]=[](CallBase*,std::vector<Val>&a){ return cmpMem(conc(a[0]),conc(a[1]),~0ull,true); }; BI["strncmp"]=[](CallBase*,std::vector<Val>&a){ return cmpMem(conc(a[0]),conc(a[1]),conc(a[2]),true); };
    BI["strlen"]=[](CallBase*,std::vector<Val>&a){ uint64_t p=conc(a[0]); for(uint64_t i=0;;i++){ Val v=loadBytes(p+i,1,false); if(v.n){ if(decide(EX->bin(O_EQ,bnode(v,8),EX->cst(0,8))))return Val(i); } else if(!v.u)return Val(i); } };
    BI["memchr"]=[](CallBase*,std::vector<Val>&a){ uint64_t p=conc(a[0]),n=conc(a[2]); uint64_t c=conc(a[1])&255; for(uint64_t i=0;i<n;i++){ Val v=loadBytes(p+i,1,false); if(v.n){ if(decide(EX->bin(O_EQ,bnode(v,8),EX->cst(c,8))))return Val(p+i);} else if(v.u==c)return Val(p+i);} return Val(0); };
    // exceptions
    BI["__cxa_allocate_exception"]=[](CallBase*,std::vector<Val>&a){ return Val(galloc(conc(a[0]),false)); };
    BI["__cxa_free_exception"]=[](CallBase*,std::vector<Val>&){return Val();};
    BI["__cxa_throw"]=[](CallBase*,std::vector<Val>&a){ auto*g=new GExc; g->obj=(void*)a[0].u; g->ti=(const std::type_info*)a[1].u; g->adj=g->obj; inflight=g; return Val(); };
    BI["__cxa_begin_catch"]=[](CallBase*,std::vector<Val>&a){ auto*g=(GExc*)a[0].u; caught.push_back(g); return Val((uint64_t)g->adj); };
    BI["__cxa_get_exception_ptr"]=[](CallBase*,std::vector<Val>&a){ return Val((uint64_t)((GExc*)a[0].u)->adj); };
    BI["__cxa_end_catch"]=[](CallBase*,std::vector<Val>&){ if(!caught.empty())caught.pop_back(); return Val(); };
    BI["__cxa_rethrow"]=[](CallBase*,std::vector<Val>&){ if(caught.empty())memViolation("rethrow without exception"); inflight=caught.back(); return Val(); };
    BI["__cxa_atexit"]=BI["atexit"]=[](CallBase*,std::vector<Val>&){return Val(0);};
    BI["__cxa_guard_acquire"]=[](CallBase*,std::vector<Val>&a){ return Val(*(uint8_t*)a[0].u?0:1); }; BI["__cxa_guard_release"]=[](CallBase*,std::vector<Val>&a){ *(uint8_t*)a[0].u=1; return Val(); }; BI["__cxa_guard_abort"]=[](CallBase*,std::vector<Val>&){return Val();};
    for(auto n:{"_ZSt9terminatev","abort","__clang_call_terminate","__assert_fail","__cxa_pure_virtual","exit","_exit","__stack_chk_fail","__cxa_call_unexpected"}){ std::string s=n; BI[n]=[s](CallBase*,std::vector<Val>&)->Val{ memViolation("program termination via "+s); }; }
    BI["_ZNSt8ios_base4InitC1Ev"]=BI["_ZNSt8ios_base4InitD1Ev"]=[](CallBase*,std::vector<Val>&){return Val();};
    // harness interface
    BI["vf_real"]=[](CallBase*,std::vector<Val>&a){ return newReal(gstr(a[0].u),asD(a[1]),asD(a[2])); };
    BI["vf_int"]=[](CallBase*,std::vector<Val>&a){ return newInt(gstr(a[0].u),32,(int32_t)a[1].u,(int32_t)a[2].u); };
    BI["vf_long"]=[](CallBase*,std::vector<Val>&a){ return newInt(gstr(a[0].u),64,(int64_t)a[1].u,(int64_t)a[2].u); };
    BI["vf_byte"]=[](CallBase*,std::vector<Val>&a){ Val v=newInt(gstr(a[0].u),8,-128,127); return v; };
    BI["vf_choice"]=[](CallBase*,std::vector<Val>&a){ int n=(int)a[1].u; Val v=newInt(gstr(a[0].u),32,0,n-1); return Val(v.n?concretize(v.n):v.u); };
    BI["vf_concrete_int"]=[](CallBase*,std::vector<Val>&a){ return Val(conc(a[0])); };
    BI["vf_assume"]=[](CallBase*,std::vector<Val>&a){ Val c=scalarCmp(CmpInst::ICMP_NE,Type::getInt32Ty(*LC),a[0],Val(0)); assume(c.n?c.n:EX->cst(c.u,1)); return Val(); };
    BI["vf_assert"]=[](CallBase*,std::vector<Val>&a){ Val c=scalarCmp(CmpInst::ICMP_NE,Type::getInt32Ty(*LC),a[0],Val(0)); doAssert(c.n?c.n:EX->cst(c.u,1),gstr(a[1].u)); return Val(); };
    BI["vf_eq"]=[](CallBase*,std::vector<Val>&a){ doEq(fnode(a[0]),fnode(a[1]),asD(a[2]),gstr(a[3].u)); return Val(); };
    BI["vf_tier"]=[](CallBase*,std::vector<Val>&){ const char*t=getenv("VF_TIER"); return Val(t&&*t=='1'?1:0); };
    BI["vf_symbolic"]=[](CallBase*,std::vector<Val>&){return Val(1);};
    BI["vf_issym"]=[](CallBase*,std::vector<Val>&a){return Val(a[0].n?1:0);};
    BI["vf_cover"]=[](CallBase*,std::vector<Val>&a){ int s=assertSlot("cover:"+gstr(a[0].u)); SH->assertHit[s]++; if(hasW){ int t=assertSlot("witness:"+gstr(a[0].u)); SH->assertHit[t]++; } return Val(); };
    BI["vf_done"]=[](CallBase*,std::vector<Val>&)->Val{ finish("end"); };
    BI["vf_trace"]=[](CallBase*,std::vector<Val>&a){ if(VERB){ fprintf(stderr,"[trace] %s",gstr(a[0].u).c_str()); if(a.size()>1){ if(a[1].n){ std::unordered_map<int,Exprs::EV> m; auto e=EX->eval(a[1].n,W,m); fprintf(stderr," sym#%d ~ %g",a[1].n,e.d);} else fprintf(stderr," %g",asD(a[1])); } fprintf(stderr,"\n"); } return Val(); };
}
static void segv(int s){ inconclusive(std::string("engine signal ")+std::to_string(s)+" in "+stackStr()); }

int main(int argc,char**argv){
    std::string bc,entry="vf_main",out; double T=600; std::vector<std::string> libs;
    for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&](){return std::string(argv[++i]);}; if(a=="--bc")bc=nx(); else if(a=="--entry")entry=nx(); else if(a=="--out")OUTDIR=nx(); else if(a=="--jobs")JOBS=atoi(nx().c_str()); else if(a=="--time")T=atof(nx().c_str()); else if(a=="--lib")libs.push_back(nx()); else if(a=="--maxpaths")MAXPATHS=atoll(nx().c_str()); else if(a=="--wall"){nx();} else if(a=="--one")ONEPATH=1; else if(a=="-v")VERB=1; }
    struct rlimit rl; getrlimit(RLIMIT_STACK,&rl); if(rl.rlim_cur!=RLIM_INFINITY&&rl.rlim_cur<(1ull<<30)&&!getenv("VFE_REEXEC")){ rl.rlim_cur=rl.rlim_max==RLIM_INFINITY?(4ull<<30):std::min<rlim_t>(rl.rlim_max,4ull<<30); setrlimit(RLIMIT_STACK,&rl); setenv("VFE_REEXEC","1",1); execv("/proc/self/exe",argv); }
    for(auto&l:libs)if(!dlopen(l.c_str(),RTLD_NOW|RTLD_GLOBAL)){fprintf(stderr,"dlopen %s: %s\n",l.c_str(),dlerror());}
    initMem(); SH=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); SH->active=1;
    LLVMContext ctx; LC=&ctx; SMDiagnostic err; auto M=parseIRFile(bc,err,ctx); if(!M){err.print("vfe",errs());return 3;} MOD=M.get(); DL=&MOD->getDataLayout();
    for(auto&F:*MOD)info(&F);
    EX=new Exprs; NM=new Norm(*EX); SM=new Smt(*EX,*NM); SM->tmpdir=OUTDIR; for(int i=1;i<argc;i++)if(!strcmp(argv[i],"--wall"))SM->wallLimit=atof(argv[i+1]);
    setupBuiltins(); DEADLINE=nowS()+T; double t0=nowS();
    pid_t root=fork(); if(root==0){
        stack_t ss; ss.ss_sp=malloc(1<<20); ss.ss_size=1<<20; ss.ss_flags=0; sigaltstack(&ss,0); struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=segv; sa.sa_flags=SA_ONSTACK|SA_NODEFER; sigaction(SIGSEGV,&sa,0); sigaction(SIGBUS,&sa,0); sigaction(SIGFPE,&sa,0);sigaction(SIGABRT,&sa,0);
        try{
            if(auto*G=MOD->getGlobalVariable("llvm.global_ctors")){ auto*A=dyn_cast<ConstantArray>(G->getInitializer()); if(A){ std::vector<std::pair<unsigned,Function*>> v; for(unsigned i=0;i<A->getNumOperands();i++){ auto*S=cast<ConstantStruct>(A->getOperand(i)); if(auto*F=dyn_cast<Function>(S->getOperand(1)))v.push_back({(unsigned)cast<ConstantInt>(S->getOperand(0))->getZExtValue(),F}); } std::stable_sort(v.begin(),v.end(),[](auto&a,auto&b){return a.first<b.first;}); for(auto&p:v){ std::vector<Val> no; callFn(p.second,no,nullptr); if(inflight)inconclusive("exception in static initialiser"); } } }
            Function*F=MOD->getFunction(entry); if(!F)inconclusive("no entry"); std::vector<Val> no; callFn(F,no,nullptr);
            if(inflight){ std::string w=llvm::demangle(std::string("_Z")+inflight->ti->name()); w=inflight->ti->name(); void*adj=inflight->obj; if(typeid(std::exception).__do_catch(inflight->ti,&adj,1)){ w+=": "; w+=((std::exception*)adj)->what(); } inflight=nullptr; int slot=assertSlot("uncaught-exception"); SH->asserts++; if(violSeenCount(slot)<6){ markViol(slot); recordViolation("uncaught-exception",w,W);} }
            finish("end");
        }catch(std::exception&e){ inconclusive(std::string("engine: ")+e.what()+" in "+stackStr()); } }
    int st; waitpid(root,&st,0); if(!WIFEXITED(st)||WEXITSTATUS(st)){ fprintf(stderr,"root path died: status %d\n",st); SH->inconclusive++; emit("{\"t\":\"path\",\"status\":\"inconclusive\",\"why\":\"root died\"}"); }
    FILE*o=fopen((OUTDIR+"/summary.json").c_str(),"w");
    fprintf(o,"{\"paths\":%llu,\"ended\":%llu,\"infeasible\":%llu,\"inconclusive\":%llu,\"violations\":%llu,\"instructions\":%llu,\"forks\":%llu,\"asserts\":%llu,\"syntactic\":%llu,\"tolerance\":%llu,\"queries\":%llu,\"unsat\":%llu,\"sat\":%llu,\"unknown\":%llu,\"external\":%llu,\"solver_s\":%.3f,\"domain\":%llu,\"wall_s\":%.2f,",
        (unsigned long long)SH->paths,(unsigned long long)SH->ended,(unsigned long long)SH->infeasible,(unsigned long long)SH->inconclusive,(unsigned long long)SH->violations,(unsigned long long)SH->instrs,(unsigned long long)SH->forks,(unsigned long long)SH->asserts,(unsigned long long)SH->trivial,(unsigned long long)SH->tolasserts,(unsigned long long)SH->q,(unsigned long long)SH->uns,(unsigned long long)SH->sat,(unsigned long long)SH->unk,(unsigned long long)SH->ext,SH->tus/1e6,(unsigned long long)SH->domain,nowS()-t0);
    fprintf(o,"\"asserts_by_id\":{"); int n=SH->nassert; for(int i=0;i<n;i++)fprintf(o,"%s%s:%u",i?",":"",jstr(SH->assertName[i]).c_str(),SH->assertHit[i].load()&0xffffff); fprintf(o,"},\"functions\":["); bool first=true; for(auto&F:*MOD){ auto*fi=FNI[&F]; if(fi->id<(1<<16)&&SH->fnhit[fi->id]){ fprintf(o,"%s%s",first?"":",",jstr(llvm::demangle(F.getName().str())).c_str()); first=false; } } fprintf(o,"]}\n"); fclose(o);
    return 0; }
