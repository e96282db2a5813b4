// P07: a copied or assigned state equals its source and lives independently of it
#include "mom.h"
#include "flame/state/vector.h"
#include "flame/state/matrix.h"
static bool wide=true; // every field may hold any value, zero included
static void symAll(MomentState&S,const char*t){ std::string p(t); auto R=[&](std::string s,double lo,double hi){ return vf_real(s.c_str(),wide?-1e9:lo,wide?1e9:hi); }; auto P=[&](Particle&q,std::string s){ q.IonZ=R(s+"Z",0.1,0.4); q.IonQ=R(s+"Q",1,1e4); q.IonEs=R(s+"Es",9e8,1e9); q.IonW=R(s+"W",9e8,1e9); q.gamma=R(s+"g",1,2); q.beta=R(s+"b",0,1); q.bg=R(s+"bg",0,1); q.SampleFreq=R(s+"f",1e7,1e8); q.SampleLambda=R(s+"l",1,1e4); q.SampleIonK=R(s+"k",0,1); q.phis=R(s+"p",-9,9); q.IonEk=R(s+"Ek",1e5,1e8); };
    P(S.ref,p+"r"); S.pos=R(p+"pos",-9,9); S.last_caviphi0=R(p+"cav",-180,180);
    for(size_t k=0;k<S.size();k++){ P(S.real[k],p+nm("p",k)); for(int i=0;i<7;i++){ S.moment0[k](i)=R(p+nm("m",k,i),-9,9); for(int j=0;j<7;j++){ S.moment1[k](i,j)=R(p+nm("c",k,i)+nm("_",j),-9,9); S.transmat[k](i,j)=R(p+nm("t",k,i)+nm("_",j),-9,9); } } }
    for(int i=0;i<7;i++){ S.moment0_env(i)=R(p+nm("e",i),-9,9); S.moment0_rms(i)=R(p+nm("s",i),-9,9); for(int j=0;j<7;j++)S.moment1_env(i,j)=R(p+nm("E",i,j),-9,9); } }
static void same(const MomentState&a,const MomentState&b,const char*id){ eqState(a,b,0,id); vf_eq(a.last_caviphi0,b.last_caviphi0,0,id); vf_eq(a.ref.SampleLambda,b.ref.SampleLambda,0,id); for(size_t k=0;k<a.size();k++)vf_eq(a.real[k].SampleLambda,b.real[k].SampleLambda,0,id); }
struct Shadow { Particle ref; std::vector<Particle> real; std::vector<Vec> m0; std::vector<Mat> m1,t; Vec e0,r0; Mat e1; double cav,pos;
    Shadow(const MomentState&s):ref(s.ref),real(s.real),m0(s.moment0),m1(s.moment1),t(s.transmat),e0(s.moment0_env),r0(s.moment0_rms),e1(s.moment1_env),cav(s.last_caviphi0),pos(s.pos){}
    void same(const MomentState&s,const char*id)const{ vf_assert(s.size()==real.size()&&s.moment0.size()==m0.size()&&s.moment1.size()==m1.size()&&s.transmat.size()==t.size(),id); vf_eq(s.pos,pos,0,id); vf_eq(s.last_caviphi0,cav,0,id); auto P=[&](const Particle&a,const Particle&b){ eqParticle(a,b,0,id); vf_eq(a.SampleLambda,b.SampleLambda,0,id); }; P(s.ref,ref); for(size_t k=0;k<real.size();k++){ P(s.real[k],real[k]); eqVec(s.moment0[k],m0[k],0,id); eqMat(s.moment1[k],m1[k],0,id); eqMat(s.transmat[k],t[k],0,id); } eqVec(s.moment0_env,e0,0,id); eqVec(s.moment0_rms,r0,0,id); eqMat(s.moment1_env,e1,0,id); } };
template<class St> static void lin(const char*sim,int how){
    static bool reg=false; if(!reg){ registerLinear(); reg=true; } Lat l(sim); l<<El("d","drift").d("L",1.5); Machine M(l.conf()); std::unique_ptr<St> A(dynamic_cast<St*>(M.allocState())),B;
    size_t n=A->state.data().size(); std::vector<double> v(n),w(n); for(size_t i=0;i<n;i++){ v[i]=vf_real(nm("x",i).c_str(),-9,9); A->state.data()[i]=v[i]; } double p=A->pos=vf_real("pos",-9,9);
    if(how==0)B.reset(dynamic_cast<St*>(static_cast<StateBase*>(A.get())->clone())); else { B.reset(dynamic_cast<St*>(M.allocState())); B->assign(*A); }
    auto same=[&](St&S,const char*id){ vf_eq(S.pos,p,0,id); vf_assert(S.state.data().size()==n,id); for(size_t i=0;i<n;i++)vf_eq(S.state.data()[i],v[i],0,id); };
    same(*B,"copy equals source"); M.propagate(A.get()); same(*B,"copy unaffected by the source"); for(size_t i=0;i<n;i++)w[i]=A->state.data()[i]; M.propagate(B.get()); for(size_t i=0;i<n;i++)vf_eq(B->state.data()[i],w[i],0,"copy propagates like the source"); vf_cover("linear"); }
extern "C" void vf_main(){
    regMoment(); int sim=vf_choice("sim",3), how=vf_choice("how",3); // clone, assign, assign over a state of another size
    if(sim==1){ lin<VectorState>("Vector",how?1:0); vf_done(); } if(sim==2){ lin<MatrixState>("TransferMatrix",how?1:0); vf_done(); }
    int n=1+vf_choice("n",3); int n2=how==2?1+vf_choice("n2",3):n; int mut=vf_choice("mut",4); wide=mut!=3;
    Lat l; l<<El("d","drift").d("L",1.25); Machine M(l.conf()); std::unique_ptr<MomentState> A(mkState(M,n)),B; symAll(*A,"a"); Shadow keep(*A);
    if(how==0)B.reset(dynamic_cast<MomentState*>(static_cast<StateBase*>(A.get())->clone())); else { B.reset(mkState(M,n2)); symAll(*B,"b"); static_cast<StateBase*>(B.get())->assign(*A); }
    keep.same(*A,"source unchanged by copying"); keep.same(*B,"copy equals source");
    if(mut==0){ symAll(*A,"c"); keep.same(*B,"copy unaffected by the source"); }
    else if(mut==1){ symAll(*B,"c"); keep.same(*A,"source unaffected by the copy"); }
    else if(mut==2){ A.reset(); keep.same(*B,"copy outlives the source"); }
    else { // same future: both continue identically (dependent quantities made consistent first)
        for(MomentState*S:{A.get(),B.get()}){ S->ref=mkState(M,1)->ref; for(size_t k=0;k<S->size();k++){ double z=keep.real[k].IonZ; S->real[k]=S->ref; S->real[k].IonZ=z; S->real[k].IonQ=keep.real[k].IonQ; } }
        M.propagate(A.get()); keep.m0.size(); M.propagate(B.get()); same(*A,*B,"copy propagates like the source"); }
    // a state of another simulation type is refused and nothing is changed
    vf_cover("end"); if(n2!=n)vf_cover("resized");
}
