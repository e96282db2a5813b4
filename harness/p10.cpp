// P10: the named parameters of a state are complete, stable and live
#include "mom.h"
#include "flame/state/vector.h"
#include "flame/state/matrix.h"
#include <map>
#include <set>
typedef StateBase::ArrayInfo AI;
static double*at(AI&i,size_t a=0,size_t b=0,size_t c=0){ size_t d[3]={a,b,c}; vf_assert(i.inbounds(d),"documented index is valid"); return (double*)i.raw(d); }
struct Tab { std::map<std::string,AI> m; std::vector<std::string> order;
    Tab(StateBase&S){ for(unsigned i=0;;i++){ AI a; for(int d=0;d<3;d++){ a.dim[d]=999; a.stride[d]=999; } if(!S.getArray(i,a))break; vf_assert(a.name!=0&&a.ptr!=0&&a.ndim<=3,"parameter described"); vf_assert(m.count(a.name)==0,"parameter names are unique"); m[a.name]=a; order.push_back(a.name); vf_assert(i<200,"finite"); if(i>=200)break;
            // an index is valid exactly when it is below the dimension in every direction
            size_t d[3]={0,0,0}; for(unsigned q=0;q<a.ndim;q++){ vf_assert(a.dim[q]>0&&a.dim[q]<50,"dimension"); d[q]=a.dim[q]; vf_assert(!a.inbounds(d),"index past the end is invalid"); d[q]=a.dim[q]-1; vf_assert(a.inbounds(d),"last index is valid"); } } AI z; vf_assert(!S.getArray(order.size()+1,z)&&!S.getArray(4000000000u,z),"no parameter beyond the last"); }
    AI&operator[](const char*n){ vf_assert(m.count(n),"documented parameter exists"); return m[n]; } };
static void scalar(Tab&T,const char*n,double&v){ AI&a=T[n]; vf_assert(a.type==AI::Double&&a.ndim==0,n); vf_assert((void*)a.ptr==(void*)&v,n); }
static void sameShape(Tab&a,Tab&b,const char*id){ vf_assert(a.order==b.order,id); for(size_t i=0;i<a.order.size()&&i<b.order.size();i++){ AI&x=a.m[a.order[i]],&y=b.m[a.order[i]]; vf_assert(x.ndim==y.ndim&&x.type==y.type,id); } }
static void base(Tab&T,StateBase&S){ AI&a=T["next_elem"]; vf_assert(a.type==AI::Sizet&&a.ndim==0&&a.ptr==&S.next_elem,"next_elem"); scalar(T,"pos",S.pos); }
static void moment(MomentState&S){
    Tab T(S); base(T,S); size_t n=S.size();
    struct{const char*n;double Particle::*f;} F[]={{"IonZ",&Particle::IonZ},{"IonQ",&Particle::IonQ},{"IonEs",&Particle::IonEs},{"IonW",&Particle::IonW},{"gamma",&Particle::gamma},{"beta",&Particle::beta},{"bg",&Particle::bg},{"SampleFreq",&Particle::SampleFreq},{"SampleIonK",&Particle::SampleIonK},{"phis",&Particle::phis},{"IonEk",&Particle::IonEk}};
    for(auto&f:F){ scalar(T,(std::string("ref_")+f.n).c_str(),S.ref.*f.f); AI&a=T[f.n]; vf_assert(a.type==AI::Double&&a.ndim==1&&a.dim[0]==n,"per charge state parameter"); for(size_t k=0;k<n;k++)vf_assert(at(a,k)==&(S.real[k].*f.f),"per charge state parameter"); }
    scalar(T,"last_caviphi0",S.last_caviphi0);
    { AI&a=T["moment0_env"]; vf_assert(a.ndim==1&&a.dim[0]==7,"moment0_env"); AI&b=T["moment0_rms"]; vf_assert(b.ndim==1&&b.dim[0]==7,"moment0_rms"); for(int i=0;i<7;i++){ vf_assert(at(a,i)==&S.moment0_env(i),"moment0_env"); vf_assert(at(b,i)==&S.moment0_rms(i),"moment0_rms"); } }
    { AI&a=T["moment1_env"]; vf_assert(a.ndim==2&&a.dim[0]==7&&a.dim[1]==7,"moment1_env"); for(int i=0;i<7;i++)for(int j=0;j<7;j++)vf_assert(at(a,i,j)==&S.moment1_env(i,j),"moment1_env"); }
    { AI&a=T["moment0"]; vf_assert(a.ndim==2&&a.dim[0]==7&&a.dim[1]==n,"moment0"); for(int i=0;i<7;i++)for(size_t k=0;k<n;k++)vf_assert(at(a,i,k)==&S.moment0[k](i),"moment0"); }
    { AI&a=T["moment1"],&b=T["transmat"]; vf_assert(a.ndim==3&&a.dim[0]==7&&a.dim[1]==7&&a.dim[2]==n,"moment1"); vf_assert(b.ndim==3&&b.dim[0]==7&&b.dim[1]==7&&b.dim[2]==n,"transmat"); for(int i=0;i<7;i++)for(int j=0;j<7;j++)for(size_t k=0;k<n;k++){ vf_assert(at(a,i,j,k)==&S.moment1[k](i,j),"moment1"); vf_assert(at(b,i,j,k)==&S.transmat[k](i,j),"transmat"); } } }
extern "C" void vf_main(){
    regMoment(); int sim=vf_choice("sim",3); 
    if(sim==0){ int n=1+vf_choice("n",4); int m=1+vf_choice("m",4); Lat l; std::vector<double> z,q; for(int i=0;i<m;i++){ z.push_back((76.0+i)/238.0); q.push_back(10.0*(i+1)); } l<<El("d","drift").d("L",0.5)<<El("s","stripper").v("IonChargeStates",z).v("NCharge",q).s("charge_model","off"); Machine M(l.conf());
        std::unique_ptr<MomentState> S(mkState(M,n)); Tab before(*S); moment(*S); symM0(*S);
        M.propagate(S.get(),0,1); moment(*S); M.propagate(S.get(),1,1); moment(*S); vf_assert(S->size()==(size_t)m,"charge state count follows the stripper"); Tab after(*S); sameShape(before,after,"the set of parameters is fixed");
        std::unique_ptr<MomentState> C(S->clone()); moment(*C);
        std::unique_ptr<MomentState> E(dynamic_cast<MomentState*>(M.allocState())); moment(*E); Tab fresh(*E); sameShape(before,fresh,"the set of parameters is fixed"); if(n!=m)vf_cover("count changed");
        // values written through the description are what the simulation uses
        AI a=after["IonEk"]; double e=vf_real("newEk",3e5,2e7); AI r=after["ref_IonEk"]; Tab now(*S); *at(now["ref_IonEk"])=e; for(int k=0;k<m;k++)*at(now["IonEk"],k)=e; M.propagate(S.get(),0,1); vf_eq(S->ref.IonW,S->ref.IonEs+e,VF_TOL,"written energy is used"); vf_eq(S->real[m-1].IonW,S->real[m-1].IonEs+e,VF_TOL,"written energy is used"); }
    else { registerLinear(); Lat l(sim==1?"Vector":"TransferMatrix"); l<<El("d","drift").d("L",0.5); Machine M(l.conf()); std::unique_ptr<StateBase> S(M.allocState());
        for(int r=0;r<2;r++){ Tab T(*S); base(T,*S); AI&a=T["state"];
            if(sim==1){ VectorState&V=dynamic_cast<VectorState&>(*S); vf_assert(a.ndim==1&&a.dim[0]==6,"vector state"); for(int i=0;i<6;i++)vf_assert(at(a,i)==&V.state(i),"vector state"); }
            else { MatrixState&V=dynamic_cast<MatrixState&>(*S); vf_assert(a.ndim==2&&a.dim[0]==6&&a.dim[1]==6,"matrix state"); for(int i=0;i<6;i++)for(int j=0;j<6;j++)vf_assert(at(a,i,j)==&V.state(i,j),"matrix state"); }
            M.propagate(S.get()); } }
    vf_cover("end");
}
