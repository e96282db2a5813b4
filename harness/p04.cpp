// P04: the bunch summary is the charge-weighted mean and covariance of its charge states
#include "mom.h"
static void stats(const MomentState&S){
    size_t n=S.size(); double Q=0; for(size_t k=0;k<n;k++)Q+=S.real[k].IonQ; Vec e(7);
    for(int i=0;i<7;i++){ double s=0; for(size_t k=0;k<n;k++)s+=S.real[k].IonQ*S.moment0[k](i); e(i)=s/Q; vf_eq(S.moment0_env(i),e(i),VF_TOL,"mean"); }
    for(int i=0;i<7;i++){ for(int j=0;j<7;j++){ double s=0; if(i<6&&j<6)for(size_t k=0;k<n;k++)s+=S.real[k].IonQ*(S.moment1[k](i,j)+(S.moment0[k](i)-e(i))*(S.moment0[k](j)-e(j))); vf_eq(S.moment1_env(i,j),s/Q,VF_TOL,"covariance"); }
        vf_eq(S.moment0_rms(i),sqrt(S.moment1_env(i,i)),VF_TOL,"rms size"); } }
extern "C" void vf_main(){
    regMoment(); int where=vf_choice("where",NKIND+3); int n=1+vf_choice("n",vf_tier()?4:3); int back=0; if(where<NKIND&&where!=K_SEXT&&where!=K_STRIPPER&&!kindRF(where))back=vf_choice("back",2);
    int one=where>=NKIND?vf_choice("one",2):0; // load all charge states or a selected one
    Config c=stateConf(n); std::vector<double> q; for(int k=0;k<n;k++){ q.push_back(vf_real(nm("Q",k).c_str(),1,1e5)); std::vector<double> m0(7,1.0),m1(49,0.0); for(int i=0;i<6;i++)m0[i]=vf_real(nm("m",k,i).c_str(),-5,5); if(where<NKIND){ m0[4]=0.01*k; m0[5]=0.0001*k; }
        for(int i=0;i<6;i++)for(int j=i;j<6;j++){ double v=(i==j||j==i+1)?vf_real((nm("c",k,i)+nm("_",j)).c_str(),i==j?6:-2,i==j?9:2):0; m1[i*7+j]=m1[j*7+i]=v; } c.set<std::vector<double> >(nm("moment0",k),m0); c.set<std::vector<double> >(nm("initial",k),m1); }
    c.set<std::vector<double> >("NCharge",q); if(one){ c.set<double>("cstate",n-1); }
    if(where>=NKIND){ // constructed, from a source element, or without charge state list
        if(where==NKIND+2){ Config d; d.set<double>("IonEs",ES); d.set<double>("IonEk",5e5); d.set<double>("IonZ",0.14); d.set<double>("IonQ",q[0]); d.set<std::vector<double> >("moment0",c.get<std::vector<double> >("moment00")); d.set<std::vector<double> >("initial",c.get<std::vector<double> >("initial0")); c=d; }
        El s("s","source"); for(Config::const_iterator i=c.begin();i!=c.end();++i)s.c.setAny(i->first,i->second); Lat l; l<<s; Machine M(l.conf()); std::unique_ptr<MomentState> S(dynamic_cast<MomentState*>(where==NKIND+1?M.allocState():M.allocState(c)));
        if(where==NKIND+1)M.propagate(S.get()); stats(*S); vf_assert(S->size()==(where==NKIND+2||one?1u:(size_t)n),"charge states"); S->moment0[0](2)=vf_real("later",-3,3); S->calc_rms(); stats(*S); }
    else { Lat l; l<<mkKind(where,"x",0,"",0); Machine M(l.conf()); std::unique_ptr<MomentState> S(dynamic_cast<MomentState*>(M.allocState(c))); stats(*S); M.propagate(S.get(),0,back?-1:1); stats(*S); M.propagate(S.get(),0,back?-1:1); stats(*S); }
    vf_cover("end"); if(n>1)vf_cover("several");
}
