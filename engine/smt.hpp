// SMT back end (Z3): translation of path conditions / assertions, staged checking.
#pragma once
#include "norm.hpp"
#include <z3++.h>
#include <chrono>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <poll.h>
#include <signal.h>
#include <fstream>
#include <sstream>

static double nowS(){ using namespace std::chrono; return duration<double>(steady_clock::now().time_since_epoch()).count(); }

struct Smt {
    Exprs&E; Norm&N; z3::context c;
    std::unordered_map<int,z3::expr> cache; // BV/bool/real nodes
    std::unordered_map<int,z3::expr> atomExpr;
    std::string tmpdir="/tmp"; double wallLimit=20; int useExternal=1;
    struct Stats{ uint64_t queries=0,unsat=0,sat=0,unknown=0,ext=0; double t=0; } *st;
    Stats own;
    Norm NC,ND; Smt(Exprs&e,Norm&n):E(e),N(n),st(&own),NC(e,1),ND(e,2){}
    z3::expr q2z(const mpq_class&q){ return c.real_val(q.get_str().c_str()); }
    z3::expr atom(int a){
        auto it=atomExpr.find(a); if(it!=atomExpr.end())return it->second;
        Norm::Atom&A=N.atoms[a]; std::string nm;
        if(A.k==Norm::A_VAR)nm=E.vars[E.n[A.node].imm].name; else if(A.k==Norm::A_FN)nm=std::string(fnName(A.fn))+"!"+std::to_string(a); else nm="atom!"+std::to_string(a);
        z3::expr x=c.real_const(nm.c_str()); atomExpr.emplace(a,x); return x; }
    z3::expr poly(const Poly&p){ z3::expr_vector v(c); if(p.zero())return c.real_val(0); for(auto&t:p.t){ z3::expr_vector f(c); if(t.second!=1||t.first.empty())f.push_back(q2z(t.second)); for(auto&m:t.first)for(int i=0;i<m.second;i++)f.push_back(atom(m.first)); v.push_back(f.size()==1?f[0]:mulv(f)); } return v.size()==1?v[0]:z3::sum(v); }
    z3::expr mulv(z3::expr_vector&f){ std::vector<Z3_ast> a; for(unsigned i=0;i<f.size();i++)a.push_back(f[i]); Z3_ast r=Z3_mk_mul(c,a.size(),a.data()); return z3::expr(c,r); }
    z3::expr den(const Rat&r){ z3::expr_vector f(c); for(auto&d:r.den)for(int i=0;i<d.second;i++)f.push_back(d.first>=0?atom(d.first):poly(N.factors[-1-d.first])); if(f.size()==0)return c.real_val(1); return f.size()==1?f[0]:mulv(f); }
    z3::expr rat(const Rat&r){ if(r.den.empty())return poly(r.num); return poly(r.num)/den(r); }
    // atoms occurring (transitively through arguments) in a Rat
    void ratAtoms(const Rat&r,std::set<int>&s){ for(auto&t:r.num.t)for(auto&m:t.first)addAtom(m.first,s); for(auto&d:r.den){ if(d.first>=0)addAtom(d.first,s); else for(auto&t:N.factors[-1-d.first].t)for(auto&m:t.first)addAtom(m.first,s);} }
    void addAtom(int a,std::set<int>&s){ if(!s.insert(a).second)return; Norm::Atom A=N.atoms[a]; if(A.k==Norm::A_FN||A.k==Norm::A_ABS||A.k==Norm::A_POW)ratAtoms(A.arg,s); if(A.k==Norm::A_FN&&(A.fn==FN_SIN||A.fn==FN_COS||A.fn==FN_SINH||A.fn==FN_COSH)){ int p=N.partner(a); s.insert(p);} }
    void axioms(int a,z3::expr_vector&o){
        Norm::Atom A=N.atoms[a]; z3::expr x=atom(a);
        if(A.k==Norm::A_VAR||A.k==Norm::A_OPAQUE){ rng(x,A.iv,o); return; }
        if(A.k==Norm::A_ABS){ z3::expr g=rat(A.arg); o.push_back(x>=0); o.push_back(x==g||x==-g); return; }
        if(A.k==Norm::A_POW){ rng(x,A.iv,o); o.push_back(z3::implies(poly(A.arg.num)*den(A.arg)>0,x>0)); return; }
        rng(x,A.iv,o);
        switch(A.fn){
        case FN_SQRT:{ o.push_back(x>=0); if(A.arg.den.empty())o.push_back(x*x==poly(A.arg.num)); else { o.push_back(x*x*den(A.arg)==poly(A.arg.num)); o.push_back(den(A.arg)!=0);} break; }
        case FN_SIN:case FN_COS:{ int p=N.partner(a); if(A.fn==FN_SIN||p>a){ z3::expr y=atom(p); o.push_back(x*x+y*y==1);} break; }
        case FN_SINH:case FN_COSH:{ int p=N.partner(a); if(A.fn==FN_SINH){ z3::expr y=atom(p); o.push_back(y*y-x*x==1); o.push_back(y>=1);} break; }
        case FN_EXP:o.push_back(x>0);break;
        case FN_FLOOR:{ z3::expr g=rat(A.arg); o.push_back(x<=g); o.push_back(x>g-1); break; }
        default:break; } }
    void rng(z3::expr x,Exprs::Iv iv,z3::expr_vector&o){ if(std::isfinite(iv.lo))o.push_back(x>=q2z(dblToQ(iv.lo))); if(std::isfinite(iv.hi))o.push_back(x<=q2z(dblToQ(iv.hi))); }
    // ---- node translation
    std::set<int>*curAtoms=nullptr; std::set<int>*curVars=nullptr; z3::expr_vector*curSide=nullptr;
    z3::expr real(int id){
        if(E.n[id].op==O_FITE) return z3::ite(boolean(E.n[id].k[0]),real(E.n[id].k[1]),real(E.n[id].k[2]));
        const Rat&r=N.norm(id); if(curAtoms)ratAtoms(r,*curAtoms);
        if(curSide)for(auto&d:r.den) curSide->push_back((d.first>=0?atom(d.first):poly(N.factors[-1-d.first]))!=0);
        // opaque atoms that hide ITE/ITOF: define them
        return rat(r); }
    z3::expr boolean(int id){
        const Node n=E.n[id];
        switch(n.op){
        case O_CONST:return c.bool_val(n.imm!=0);
        case O_VAR:{ if(curVars)curVars->insert(n.imm); return c.bool_const(E.vars[n.imm].name.c_str()); }
        case O_AND:return boolean(n.k[0])&&boolean(n.k[1]); case O_OR:return boolean(n.k[0])||boolean(n.k[1]);
        case O_XOR:{ uint64_t v; if(E.isC(n.k[1],&v)) return v? !boolean(n.k[0]):boolean(n.k[0]); return boolean(n.k[0])!=boolean(n.k[1]); }
        case O_EQ: if(E.n[n.k[0]].w==1)return boolean(n.k[0])==boolean(n.k[1]); return bv(n.k[0])==bv(n.k[1]);
        case O_ULT:return z3::ult(bv(n.k[0]),bv(n.k[1])); case O_ULE:return z3::ule(bv(n.k[0]),bv(n.k[1]));
        case O_SLT:return z3::slt(bv(n.k[0]),bv(n.k[1])); case O_SLE:return z3::sle(bv(n.k[0]),bv(n.k[1]));
        case O_ITE:return z3::ite(boolean(n.k[0]),boolean(n.k[1]),boolean(n.k[2]));
        case O_FLT:case O_FLE:case O_FEQ:return relate(n.op,n.k[0],n.k[1]);
        default:{ return bv(id)==c.bv_val(1,1); } } }
    z3::expr relate(Op op,int a,int b){
        if(E.n[a].op==O_FITE||E.n[b].op==O_FITE){ z3::expr x=real(a),y=real(b); return op==O_FLT?x<y:op==O_FLE?x<=y:x==y; }
        Rat d=N.add(N.norm(a),N.norm(b),-1); if(curAtoms)ratAtoms(d,*curAtoms);
        // sign of num/den decided as sign of num*den (odd powers only); den != 0 is a recorded side condition
        z3::expr p=poly(d.num); if(op==O_FEQ){ side(d); return p==0; }
        z3::expr_vector f(c); f.push_back(p); for(auto&x:d.den){ if(x.second%2){ if(x.first>=0){ Norm::Atom&A=N.atoms[x.first]; if(A.iv.lo>=0)continue; } f.push_back(x.first>=0?atom(x.first):poly(N.factors[-1-x.first])); } }
        side(d); z3::expr e=f.size()==1?f[0]:mulv(f); return op==O_FLT?e<0:e<=0; }
    void side(const Rat&d){ if(!curSide)return; for(auto&x:d.den)curSide->push_back((x.first>=0?atom(x.first):poly(N.factors[-1-x.first]))!=0); }
    z3::expr bv(int id){
        auto it=cache.find(id); if(it!=cache.end()&&!curVars)return it->second;
        const Node n=E.n[id]; z3::expr r(c);
        switch(n.op){
        case O_CONST:r=c.bv_val((uint64_t)n.imm,n.w);break;
        case O_VAR:{ if(curVars)curVars->insert(n.imm); if(n.w==1) r=z3::ite(c.bool_const(E.vars[n.imm].name.c_str()),c.bv_val(1,1),c.bv_val(0,1)); else r=c.bv_const(E.vars[n.imm].name.c_str(),n.w);break; }
        case O_ADD:r=bv(n.k[0])+bv(n.k[1]);break;case O_SUB:r=bv(n.k[0])-bv(n.k[1]);break;case O_MUL:r=bv(n.k[0])*bv(n.k[1]);break;
        case O_UDIV:r=z3::udiv(bv(n.k[0]),bv(n.k[1]));break;case O_SDIV:r=bv(n.k[0])/bv(n.k[1]);break;
        case O_UREM:r=z3::urem(bv(n.k[0]),bv(n.k[1]));break;case O_SREM:r=z3::srem(bv(n.k[0]),bv(n.k[1]));break;
        case O_SHL:r=z3::shl(bv(n.k[0]),bv(n.k[1]));break;case O_LSHR:r=z3::lshr(bv(n.k[0]),bv(n.k[1]));break;case O_ASHR:r=z3::ashr(bv(n.k[0]),bv(n.k[1]));break;
        case O_AND: if(n.w==1)goto asbool; r=bv(n.k[0])&bv(n.k[1]);break;
        case O_OR: if(n.w==1)goto asbool; r=bv(n.k[0])|bv(n.k[1]);break;
        case O_XOR: if(n.w==1)goto asbool; r=bv(n.k[0])^bv(n.k[1]);break;
        case O_ITE: if(n.w==1)goto asbool; r=z3::ite(boolean(n.k[0]),bv(n.k[1]),bv(n.k[2]));break;
        case O_ZEXT:r=z3::zext(bv(n.k[0]),n.w-E.n[n.k[0]].w);break;case O_SEXT:r=z3::sext(bv(n.k[0]),n.w-E.n[n.k[0]].w);break;
        case O_EXTRACT:r=bv(n.k[0]).extract(n.imm+n.w-1,n.imm);break;
        case O_CONCAT:r=z3::concat(bv(n.k[0]),bv(n.k[1]));break;
        case O_EQ:case O_ULT:case O_ULE:case O_SLT:case O_SLE:case O_FLT:case O_FLE:case O_FEQ:
        asbool: r=z3::ite(boolean(id),c.bv_val(1,1),c.bv_val(0,1));break;
        default: throw std::runtime_error("bv translation"); }
        cache.emplace(id,r); return r; }
    std::string show(int id){ try{ std::string r=boolean(id).to_string(); return r.substr(0,600); }catch(...){ return "?"; } }
    std::string showRat(const Rat&d,int mx,std::set<int>&fs){ std::string r="["+std::to_string(d.num.t.size())+"] "; int k=0; for(auto&t:d.num.t){ if(k++>mx)break; r+=t.second.get_str().substr(0,18)+".."; for(auto&m:t.first){ auto&A=N.atoms[m.first]; if(A.k!=Norm::A_VAR)fs.insert(m.first); r+=" "+(A.k==Norm::A_VAR?E.vars[E.n[A.node].imm].name:A.k==Norm::A_FN?std::string(fnName(A.fn))+"#"+std::to_string(m.first):std::string("?")+std::to_string(A.k))+"^"+std::to_string(m.second); } r+=" + "; } r+=" / "; for(auto&x:d.den){ r+="("; if(x.first>=0){ fs.insert(x.first); auto&A=N.atoms[x.first]; r+=A.k==Norm::A_VAR?E.vars[E.n[A.node].imm].name:"#"+std::to_string(x.first); } else { Rat q; q.num=N.factors[-1-x.first]; std::set<int> f2; r+=showRat(q,3,f2); fs.insert(f2.begin(),f2.end()); } r+=")^"+std::to_string(x.second)+" "; } return r; }
    std::string showEq(int a,int b){ try{ polyWork=0; bool dr=false; Rat d=N.diffR(N.norm(a),N.norm(b),dr); std::set<int> fs; std::string r=showRat(d,6,fs); std::set<int> done; for(int round=0;round<3;round++){ std::set<int> nx; for(int f:fs)if(done.insert(f).second&&N.atoms[f].k==Norm::A_FN){ std::set<int> f2; Rat arg=N.atoms[f].arg; r+="\n     #"+std::to_string(f)+" = "+fnName(N.atoms[f].fn)+"( "+showRat(arg,6,f2)+" )"; nx.insert(f2.begin(),f2.end()); } fs=nx; } return r; }catch(...){ return "too big"; } }
    // collect input variables of a node
    std::unordered_map<int,std::set<int>> varsMemo;
    const std::set<int>& varsOf(int id){ auto it=varsMemo.find(id); if(it!=varsMemo.end())return it->second; std::set<int> r; std::vector<int> stk{id}; std::set<int> seen; while(!stk.empty()){int x=stk.back();stk.pop_back(); if(!seen.insert(x).second)continue; const Node&n=E.n[x]; if(n.op==O_VAR||n.op==O_FVAR)r.insert(n.imm); auto s=N.subst.find(x); if(s!=N.subst.end())stk.push_back(s->second); for(int i=0;i<3;i++)if(n.k[i])stk.push_back(n.k[i]);} return varsMemo[id]=r; }
    void slice(const std::vector<int>&pc,const std::vector<int>&q,std::vector<int>&out){ std::set<int> vs; for(int x:q){auto&s=varsOf(x);vs.insert(s.begin(),s.end());} std::vector<char> used(pc.size(),0); bool ch=true; while(ch){ch=false; for(size_t i=0;i<pc.size();i++)if(!used[i]){ auto&s=varsOf(pc[i]); bool hit=false; for(int v:s)if(vs.count(v)){hit=true;break;} if(hit){used[i]=1;ch=true;vs.insert(s.begin(),s.end());} }} for(size_t i=0;i<pc.size();i++)if(used[i])out.push_back(pc[i]); }
    enum R{UNSAT,SAT,UNKNOWN};
    struct Built { z3::expr_vector v; std::set<int> atoms,vars; bool hasBV; Built(z3::context&c):v(c),hasBV(false){} };
    void build(const std::vector<int>&conj,Built&b,z3::expr*extra=nullptr,const std::set<int>*extraAtoms=nullptr,const std::vector<int>*best=nullptr){
        curAtoms=&b.atoms; curVars=&b.vars; z3::expr_vector side(c); curSide=&side;
        for(int x:conj) b.v.push_back(boolean(x));
        if(best)for(int x:*best){ try{ size_t w0=polyWork; (void)w0; b.v.push_back(boolean(x)); }catch(TooBig&){ /* constraint dropped: over-approximates the path condition */ } }
        curSide=nullptr; curAtoms=nullptr; curVars=nullptr;
        for(unsigned i=0;i<side.size();i++)b.v.push_back(side[i]);
        if(extra)b.v.push_back(*extra); if(extraAtoms)b.atoms.insert(extraAtoms->begin(),extraAtoms->end());
        std::set<int> done; while(done.size()<b.atoms.size()){ std::vector<int> todo; for(int a:b.atoms)if(!done.count(a))todo.push_back(a); for(int a:todo){ done.insert(a); addAtomClosure(a,b.atoms); axioms(a,b.v);} }
        for(int v:b.vars){ auto&V=E.vars[v]; if(V.isF)continue; b.hasBV=true; if(V.width>1){ z3::expr x=c.bv_const(V.name.c_str(),V.width); b.v.push_back(z3::sle(c.bv_val((int64_t)V.ilo,V.width),x)); b.v.push_back(z3::sle(x,c.bv_val((int64_t)V.ihi,V.width))); } } }
    void addAtomClosure(int a,std::set<int>&s){ Norm::Atom A=N.atoms[a]; if(A.k==Norm::A_FN||A.k==Norm::A_ABS||A.k==Norm::A_POW)ratAtoms(A.arg,s); if(A.k==Norm::A_FN&&A.fn>=FN_SIN&&A.fn<=FN_COSH)s.insert(N.partner(a)); }
    static double zval(const z3::expr&e){ std::string s=e.get_decimal_string(20); bool neg=false; size_t i=0; if(!s.empty()&&s[0]=='-'){neg=true;i=1;} while(!s.empty()&&s.back()=='?')s.pop_back(); double v=atof(s.c_str()+i); return neg?-v:v; }
    typedef Exprs::Asg Asg;
    R solveIn(Built&b,unsigned rlimit,Asg*model){
        z3::solver s = b.atoms.empty() ? z3::solver(c,z3::solver::simple()) : b.hasBV ? z3::solver(c) : z3::solver(c,"QF_NRA");
        z3::params p(c); p.set("rlimit",rlimit); s.set(p);
        for(unsigned i=0;i<b.v.size();i++)s.add(b.v[i]);
        z3::check_result r; try{ r=s.check(); }catch(z3::exception&){ r=z3::unknown; }
        if(r==z3::sat&&model){ z3::model m=s.get_model(); readModel(m,b,model); }
        return r==z3::unsat?UNSAT:r==z3::sat?SAT:UNKNOWN; }
    void readModel(z3::model&m,Built&b,Asg*A){
        for(int v:b.vars){ auto&V=E.vars[v]; if(V.isF)continue; z3::expr e=V.width==1?m.eval(c.bool_const(V.name.c_str()),true):m.eval(c.bv_const(V.name.c_str(),V.width),true); if(V.width==1)A->b[v]=e.is_true(); else { uint64_t u=0; if(e.is_numeral_u64(u))A->b[v]=u; } }
        for(int a:b.atoms){ auto&At=N.atoms[a]; if(At.k!=Norm::A_VAR)continue; z3::expr e=m.eval(atom(a),true); int v=E.n[At.node].imm; try{ if(e.is_algebraic()||e.is_numeral()) A->d[v]=zval(e);}catch(z3::exception&){} } }
    R external(Built&b,double wall){ // portfolio on the same formula: newer z3 and cvc5
        if(!useExternal)return UNKNOWN; st->ext++;
        z3::solver s(c); for(unsigned i=0;i<b.v.size();i++)s.add(b.v[i]); std::string smt=s.to_smt2();
        std::string f=tmpdir+"/q"+std::to_string(getpid())+"_"+std::to_string(st->ext)+".smt2"; { std::ofstream o(f); o<<smt; }
        std::string cmds[]={ "timeout "+std::to_string((int)wall)+" z3-new "+f, "timeout "+std::to_string((int)wall)+" cvc5 --nl-cov "+f };
        R res=UNKNOWN; for(auto&cm:cmds){ FILE*p=popen((cm+" 2>/dev/null").c_str(),"r"); char buf[64]={0}; if(p){ if(fgets(buf,63,p)){ if(!strncmp(buf,"unsat",5))res=UNSAT; else if(!strncmp(buf,"sat",3))res=SAT; } pclose(p);} if(res!=UNKNOWN)break; }
        unlink(f.c_str()); return res; }
    // in a forked child with a wall limit (z3 may ignore its resource limit inside nlsat)
    R solveForked(Built&b,double wall,Asg*model){
        size_t n=E.vars.size(); size_t sz=16+n*16; char*sh=(char*)mmap(0,sz,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); *(int*)sh=UNKNOWN;
        pid_t pid=fork(); if(pid==0){ signal(SIGSEGV,SIG_DFL); Asg a; a.d.resize(n); a.b.resize(n); if(model)a=*model; R r; try{ r=solveIn(b,400000000u,model?&a:nullptr);}catch(...){r=UNKNOWN;} if(model){memcpy(sh+16,a.d.data(),n*8);memcpy(sh+16+n*8,a.b.data(),n*8);} *(volatile int*)sh=r; _exit(0);} 
        double t0=nowS(); int stt; bool done=false; useconds_t us=200; while(nowS()-t0<wall){ if(waitpid(pid,&stt,WNOHANG)==pid){done=true;break;} usleep(us); if(us<20000)us*=2; }
        if(!done){ kill(pid,SIGKILL); waitpid(pid,&stt,0);} 
        R r=(R)*(int*)sh; if(!done||!WIFEXITED(stt))r=UNKNOWN; if(r==SAT&&model){ memcpy(model->d.data(),sh+16,n*8); memcpy(model->b.data(),sh+16+n*8,n*8);} munmap(sh,sz); return r; }
    static Exprs::Iv imul(Exprs::Iv a,Exprs::Iv b){ double p[]={a.lo*b.lo,a.lo*b.hi,a.hi*b.lo,a.hi*b.hi}; double lo=p[0],hi=p[0]; for(double x:p){ if(std::isnan(x))return Exprs::Iv{-INFINITY,INFINITY}; lo=std::min(lo,x);hi=std::max(hi,x);} return Exprs::Iv{lo,hi}; }
    static Exprs::Iv ipw(Exprs::Iv i,int e){ Exprs::Iv r{1,1}; for(int k=0;k<e;k++)r=imul(r,i); if(e%2==0&&r.lo<0)r.lo=0; return r; }
    Exprs::Iv monoIv(const Mono&m){ Exprs::Iv r{1,1}; for(auto&x:m)r=imul(r,ipw(N.atoms[x.first].iv,x.second)); return r; }
    // linear relaxation of a single comparison: every monomial a fresh real within its interval. UNSAT is sound, anything else says nothing
    bool relaxUnsat(int id){ bool neg=false; Node n=E.n[id]; uint64_t v; if(n.op==O_XOR&&E.isC(n.k[1],&v)&&v){ neg=true; n=E.n[n.k[0]]; } if(n.op!=O_FLT&&n.op!=O_FLE&&n.op!=O_FEQ)return false; if(E.n[n.k[0]].op==O_FITE||E.n[n.k[1]].op==O_FITE)return false; if(neg&&n.op==O_FEQ)return false;
        { Exprs::Iv x=E.iv(n.k[0]),y=E.iv(n.k[1]); z3::solver s(c); z3::expr a=c.real_const("l!"),b=c.real_const("r!"); if(std::isfinite(x.lo))s.add(a>=q2z(dblToQ(x.lo))); if(std::isfinite(x.hi))s.add(a<=q2z(dblToQ(x.hi))); if(std::isfinite(y.lo))s.add(b>=q2z(dblToQ(y.lo))); if(std::isfinite(y.hi))s.add(b<=q2z(dblToQ(y.hi)));
          s.add(n.op==O_FEQ?a==b:n.op==O_FLT?(neg?a>=b:a<b):(neg?a>b:a<=b)); if(s.check()==z3::unsat)return true; }
        polyWork=0; Rat d=N.add(N.norm(n.k[0]),N.norm(n.k[1]),-1); int sg=1; if(n.op!=O_FEQ)for(auto&f:d.den){ if(f.second%2==0)continue; Exprs::Iv i; if(f.first>=0)i=N.atoms[f.first].iv; else { i=Exprs::Iv{0,0}; for(auto&t:N.factors[-1-f.first].t){ double c0=t.second.get_d(); Exprs::Iv m=imul(monoIv(t.first),Exprs::Iv{c0,c0}); i.lo+=m.lo; i.hi+=m.hi; } } if(i.lo>=0)continue; if(i.hi<=0){sg=-sg;continue;} return false; }
        if(d.num.t.size()>60||d.num.t.empty())return false; z3::solver s(c); z3::expr_vector sum(c); int k=0; for(auto&t:d.num.t){ Exprs::Iv m=monoIv(t.first); z3::expr x=t.first.empty()?c.real_val(1):c.real_const(("m!"+std::to_string(k++)).c_str()); if(!t.first.empty()){ if(std::isfinite(m.lo))s.add(x>=q2z(dblToQ(m.lo))); if(std::isfinite(m.hi))s.add(x<=q2z(dblToQ(m.hi))); } sum.push_back(q2z(sg>0?t.second:mpq_class(-t.second))*x); }
        z3::expr e=z3::sum(sum); z3::expr rel=n.op==O_FEQ?e==0:n.op==O_FLT?(neg?e>=0:e<0):(neg?e>0:e<=0); s.add(rel); return s.check()==z3::unsat; }
    R check(const std::vector<int>&pc,const std::vector<int>&q,Asg*model,double wall,bool deep){
        double t0=nowS(); R r=UNKNOWN; st->queries++;
        try{ for(int x:q)if(E.n[x].w==1&&relaxUnsat(x)){ st->t+=nowS()-t0; st->unsat++; return UNSAT; } } catch(TooBig&){} catch(z3::exception&){} catch(std::runtime_error&){}
        try{ std::vector<int> conj; slice(pc,q,conj); Built b(c); polyWork=0; build(q,b,nullptr,nullptr,&conj);
            bool pureBV=b.atoms.empty(); if(pureBV) r=solveIn(b,200000000u,model); else { r=solveForked(b,wall,model); if(r==UNKNOWN&&deep) r=external(b,wall); } }
        catch(TooBig&){ r=UNKNOWN; } catch(z3::exception&){ r=UNKNOWN; }
        st->t+=nowS()-t0; if(r==UNSAT)st->unsat++; else if(r==SAT)st->sat++; else st->unknown++; return r; }
    // is a==b for all inputs satisfying pc ? (normal form of a-b, then the solver)
    R checkEq(const std::vector<int>&pc,int a,int b2,double tol,Asg*model,bool*exact,double wall){
        double t0=nowS(); st->queries++; R r=UNKNOWN; *exact=true;
        for(Norm*Q:{&ND,&NC})if(r!=UNSAT)try{ // first with functions and divisors as uninterpreted terms
            polyWork=WORKCAP-WORKCAP/8; bool dropped=false; Rat d=Q->diffR(Q->norm(a),Q->norm(b2),dropped);
            if(d.num.zero()){ if(dropped)*exact=false; z3::solver s(c); s.add(poly(d.num)!=c.real_val(0)); r=s.check()==z3::unsat?UNSAT:UNKNOWN; } }
        catch(TooBig&){} catch(z3::exception&){} catch(std::runtime_error&){}
        if(r!=UNSAT)try{
            polyWork=0; bool dropped=false; Rat d=N.diffR(N.norm(a),N.norm(b2),dropped);
            if(d.num.zero()){ if(dropped)*exact=false; z3::solver s(c); s.add(poly(d.num)!=c.real_val(0)); r=s.check()==z3::unsat?UNSAT:UNKNOWN; }
            else if(relax(d,tol)){ *exact=false; r=UNSAT; }
            else {
                int q=E.fcmp(O_FEQ,a,b2); std::vector<int> conj; slice(pc,{q},conj); Built b(c); build({E.notb(q)},b,nullptr,nullptr,&conj); r=solveForked(b,wall,model);
                if(r!=UNSAT){ *exact=false; Built b3(c); int df=E.fbin(O_FSUB,a,b2); int lim=E.fcst(tol); int big=E.orb(E.fcmp(O_FLT,lim,df),E.fcmp(O_FLT,df,E.fneg(lim))); std::vector<int> cj; slice(pc,{big},cj); build({big},b3,nullptr,nullptr,&cj); r=solveForked(b3,wall,model); if(r==UNKNOWN)r=external(b3,wall); }
            } }
        catch(TooBig&){ r=UNKNOWN; } catch(z3::exception&){ r=UNKNOWN; }
        st->t+=nowS()-t0; if(r==UNSAT)st->unsat++; else if(r==SAT)st->sat++; else st->unknown++; return r; }
    // linear relaxation: every monomial a fresh real within its interval; decides |num| <= tol*|den|
    bool relax(const Rat&d,double tol){
        auto ipw=[](Exprs::Iv i,int e){ Exprs::Iv r{1,1}; for(int k=0;k<e;k++){ double p[]={r.lo*i.lo,r.lo*i.hi,r.hi*i.lo,r.hi*i.hi}; double lo=p[0],hi=p[0]; for(double x:p){ if(std::isnan(x))return Exprs::Iv{-INFINITY,INFINITY}; lo=std::min(lo,x);hi=std::max(hi,x);} r=Exprs::Iv{lo,hi}; } if(e%2==0&&r.lo<0)r.lo=0; return r; };
        auto imul=[](Exprs::Iv a,Exprs::Iv b){ double p[]={a.lo*b.lo,a.lo*b.hi,a.hi*b.lo,a.hi*b.hi}; double lo=p[0],hi=p[0]; for(double x:p){ if(std::isnan(x))return Exprs::Iv{-INFINITY,INFINITY}; lo=std::min(lo,x);hi=std::max(hi,x);} return Exprs::Iv{lo,hi}; };
        double dmin=1; for(auto&f:d.den){ Exprs::Iv i; if(f.first>=0)i=N.atoms[f.first].iv; else { i=Exprs::Iv{0,0}; for(auto&t:N.factors[-1-f.first].t){ Exprs::Iv m{1,1}; for(auto&x:t.first)m=imul(m,ipw(N.atoms[x.first].iv,x.second)); double q=t.second.get_d(); m=imul(m,Exprs::Iv{q,q}); i.lo+=m.lo;i.hi+=m.hi; } } double a=(i.lo>0)?i.lo:(i.hi<0?-i.hi:0); if(!(a>0))return false; for(int k=0;k<f.second;k++)dmin*=a; }
        if(!(dmin>0)||!std::isfinite(dmin))return false;
        z3::solver s(c); z3::expr_vector sum(c); int k=0; 
        for(auto&t:d.num.t){ Exprs::Iv m{1,1}; for(auto&x:t.first)m=imul(m,ipw(N.atoms[x.first].iv,x.second)); if(!std::isfinite(m.lo)||!std::isfinite(m.hi))return false; z3::expr v=c.real_const(("m!"+std::to_string(k++)).c_str()); s.add(v>=q2z(dblToQ(m.lo))); s.add(v<=q2z(dblToQ(m.hi))); sum.push_back(q2z(t.second)*v); }
        if(sum.size()>400)return false; z3::expr e=z3::sum(sum); z3::expr lim=q2z(dblToQ(tol*dmin*0.999)); s.add(e>lim||e<-lim); return s.check()==z3::unsat; }
};
