// P01: propagation visits exactly the requested window, in order, honouring redirection, direction and observers
#include "vf.h"
#include "flame/base.h"
#include <vector>
#include <climits>
static const int LOGN=24;
struct TState : public StateBase {
    int log[LOGN]; int dir[LOGN]; size_t nxt[LOGN]; int n;
    TState(const Config&c):StateBase(c),n(0){ for(int i=0;i<LOGN;i++)log[i]=-1; }
    TState(const TState&o,clone_tag t):StateBase(o,t),n(o.n){ for(int i=0;i<LOGN;i++){log[i]=o.log[i];dir[i]=o.dir[i];} }
    virtual void assign(const StateBase&o){ StateBase::assign(o); }
    virtual StateBase*clone()const{return new TState(*this,clone_tag());}
};
static int jumpAt=-1; static long jumpTo=0; static int self[8]; static int obsTotal;
struct TElem : public ElementVoid {
    int id;
    TElem(const Config&c):ElementVoid(c){ id=(int)c.get<double>("id"); }
    virtual const char*type_name()const{return "elem";}
    virtual void advance(StateBase&s){ TState&t=static_cast<TState&>(s); if(t.n<LOGN){ t.log[t.n]=id; t.dir[t.n]=s.retreat?-1:1; t.nxt[t.n]=s.next_elem; } t.n++; if(id==jumpAt){ s.next_elem=jumpTo; jumpAt=-1; } }
    virtual void assign(const ElementVoid*o){ ElementVoid::assign(o); }
};
struct Obs : public Observer { int n; int at[LOGN]; int who[LOGN]; Obs():n(0){}
    virtual void view(const ElementVoid*e,const StateBase*s){ if(n<LOGN){ at[n]=static_cast<const TState*>(s)->n; who[n]=static_cast<const TElem*>(e)->id; } n++; obsTotal++; } };
extern "C" void vf_main(){
    Machine::registerState<TState>("VF"); Machine::registerElement<TElem>("VF","elem");
    const int NMAX=vf_tier()?6:4;
    int N=vf_choice("nelem",NMAX+1);
    Config C; C.set<std::string>("sim_type","VF");
    std::vector<Config> els; const char*names[]={"a","b","c","d","e","f"};
    for(int i=0;i<N;i++){ Config e; e.set<std::string>("name",names[i]); e.set<std::string>("type","elem"); e.set<double>("id",i); els.push_back(e); }
    C.set<std::vector<Config> >("elements",els);
    Machine M(C); StateBase*S=M.allocState(); TState*T=static_cast<TState*>(S);
    vf_assert(M.size()==(size_t)N,"machine size");
    for(int i=0;i<N;i++)vf_assert(static_cast<TElem*>(M[i])->id==i&&M[i]->index==(size_t)i,"element order");
    long start=vf_long("start",0,LONG_MAX); int max=vf_int("max",INT_MIN,INT_MAX);
    int mode=vf_choice("mode",3); // plain, observers, redirect
    std::vector<Obs*> ob;
    if(mode==1){ for(int i=0;i<N;i++){ ob.push_back(new Obs); M[i]->set_observer(ob[i]); } }
    int ja=-1; long jt=0;
    if(mode==2){ if(N==0)vf_done(); ja=vf_choice("jumpAt",N); jt=vf_choice("jumpTo",N+1); jumpAt=ja; jumpTo=jt; }
    M.propagate(S,start,max);
    // specification
    int exp[LOGN],k=0; long i=start; bool back=max<0; long lim=max; if(lim<0)lim=-lim;
    while(i>=0&&i<N&&k<lim&&k<LOGN){ exp[k]=i; if(i==ja){ i=jt; ja=-1; } else i+=back?-1:1; k++; }
    vf_assert(T->n==k,"number of visits");
    for(int j=0;j<k;j++){ vf_assert(T->log[j]==exp[j],"visit order"); vf_assert(T->dir[j]==(back?-1:1),"direction seen by element"); vf_assert(T->nxt[j]==(size_t)((long)exp[j]+(back?-1:1)),"next index on entry"); }
    vf_assert(S->next_elem==(size_t)i,"next index afterwards");
    vf_assert((S->retreat!=0)==back,"direction afterwards");
    if(mode==1){ int tot=0; for(int e=0;e<N;e++){ int c=0; for(int j=0;j<k;j++)if(exp[j]==e){ vf_assert(ob[e]->n>c&&ob[e]->at[c]==j+1&&ob[e]->who[c]==e,"observer sees the state just after its element"); c++; } vf_assert(ob[e]->n==c,"observer calls"); tot+=c; } vf_cover("observed"); }
    if(k>=2&&back)vf_cover("backward"); if(k>=2&&!back)vf_cover("forward"); if(mode==2&&ja<0)vf_cover("redirected");
    vf_cover("end");
}
