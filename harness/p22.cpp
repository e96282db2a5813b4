// P22: a beam state built from a configuration holds exactly what the configuration says
#include "mom.h"
static std::vector<double> sv(const char*p,int n,double lo,double hi,int nsym){ std::vector<double> v(n); for(int i=0;i<n;i++)v[i]=i<nsym?vf_real(nm(p,i).c_str(),lo,hi):0.01*(i%11)+0.1; return v; }
extern "C" void vf_main(){
    regMoment(); int n=1+vf_choice("n",3), cs=vf_choice("cstate",n+2)-1 /* -1: all, n: out of range */, names=vf_choice("names",2), hz=vf_choice("ionz",2), hq=vf_choice("ionq",2), hf=vf_choice("freq",2), via=vf_choice("via",3), bad=vf_choice("bad",8);
    if(bad&&(hz||hq||hf||names))vf_done();
    Config c; double Es=vf_real("Es",9.3e8,9.4e8),Ek=vf_real("Ek",2e5,2e8),F=80.5e6,z=vf_real("z",0.1,0.5),q=vf_real("q",1,1e4); c.set<double>("IonEs",Es); c.set<double>("IonEk",Ek); if(hf){ F=vf_real("F",4e7,2e8); c.set<double>("SampleFreq",F); } if(hz)c.set<double>("IonZ",z); if(hq)c.set<double>("IonQ",q); if(cs>=0)c.set<double>("cstate",cs);
    std::vector<double> Z=sv("Z",n,0.1,0.5,n),Q=sv("Q",n,1,1e4,n); const char*vn=names?"BaryCenter":"moment0",*mn=names?"S":"initial"; if(names){ c.set<std::string>("vector_variable",vn); c.set<std::string>("matrix_variable",mn); }
    if(bad==1){ Q.push_back(3); } if(bad==2){ Z.clear(); Q.clear(); } if(bad!=3)c.set<std::vector<double> >("IonChargeStates",Z); if(bad!=4)c.set<std::vector<double> >("NCharge",Q);
    std::vector<std::vector<double> > m0,m1; for(int k=0;k<n;k++){ m0.push_back(sv(nm("v",k).append("_").c_str(),7,-0.1,0.1,7)); m1.push_back(sv(nm("w",k).append("_").c_str(),49,-5,5,7)); 
        if(bad==5&&k==(cs>=0&&cs<n?cs:n-1))m0[k].pop_back(); if(bad==6&&k==(cs>=0&&cs<n?cs:n-1))m1[k].push_back(0.0); if(bad==7&&k==(cs>=0&&cs<n?cs:n-1))continue; c.set<std::vector<double> >(nm(vn,k),m0[k]); c.set<std::vector<double> >(nm(mn,k),m1[k]); }
    bool expect=cs>=n&&bad!=3, thrown=false; if(bad&&bad!=3)expect=true; if(bad==3)expect=cs>=0; 
    std::unique_ptr<MomentState> S; try{ Lat l; if(via==0){ El e("d","drift"); e.d("L",1.0); l<<e; Machine M(l.conf()); S.reset(dynamic_cast<MomentState*>(M.allocState(c))); }
        else if(via==1){ El e("s","source"); Config x(c); x.set<std::string>("name","s"); x.set<std::string>("type","source"); e.c=x; l<<e; Machine M(l.conf()); S.reset(dynamic_cast<MomentState*>(M.allocState())); M.propagate(S.get()); }
        else { Config x(c.new_scope()); x.set<std::string>("name","s"); x.set<std::string>("type","source"); El e("s","source"); e.c=x; l<<e; Machine M(l.conf()); Config none; S.reset(dynamic_cast<MomentState*>(M.allocState(none))); M.propagate(S.get()); } // parameters inherited from the lattice's top level
    }catch(std::exception&){ thrown=true; }
    vf_assert(thrown==expect,"invalid description is refused, valid one accepted"); if(thrown){ vf_cover("refused"); vf_done(); }
    if(bad==3){ vf_assert(S->size()==1,"one charge state without a list"); vf_done(); }
    int a=cs>=0?cs:0,cnt=cs>=0?1:n; vf_assert((int)S->size()==cnt&&(int)S->moment0.size()==cnt&&(int)S->moment1.size()==cnt&&(int)S->transmat.size()==cnt,"number of charge states");
    auto kin=[&](const Particle&P,double ek,const char*id){ vf_eq(P.IonEs,Es,VF_TOL,id); vf_eq(P.IonEk,ek,VF_TOL,id); vf_eq(P.IonW,Es+ek,VF_TOL,id); double g=(Es+ek)/Es; vf_eq(P.gamma,g,VF_TOL,id); double b=sqrt(1-1/(g*g)); vf_eq(P.beta,b,VF_TOL,id); vf_eq(P.bg,b*g,VF_TOL,id); vf_eq(P.SampleFreq,F,VF_TOL,id); vf_eq(P.SampleLambda,2.99792458e8/F*1e3,VF_TOL,id); vf_eq(P.SampleIonK,2*M_PI/(b*(2.99792458e8/F*1e3)),VF_TOL,id); };
    kin(S->ref,Ek,"reference"); vf_eq(S->ref.IonZ,hz?z:Z[0],VF_TOL,"reference charge"); vf_eq(S->ref.IonQ,hq?q:Q[0],VF_TOL,"reference amount"); vf_eq(S->ref.phis,0.0,VF_TOL,"reference phase"); vf_eq(S->pos,0.0,VF_TOL,"position");
    Mat I=ident(); for(int k=0;k<cnt;k++){ const Particle&P=S->real[k]; int j=a+k; vf_eq(P.IonZ,Z[j],VF_TOL,"charge"); vf_eq(P.IonQ,Q[j],VF_TOL,"amount"); vf_eq(P.phis,m0[j][4],VF_TOL,"phase"); kin(P,Ek+m0[j][5]*1e6,"charge state"); for(int i=0;i<7;i++)vf_eq(S->moment0[k](i),m0[j][i],VF_TOL,"centroid"); for(int i=0;i<49;i++)vf_eq(S->moment1[k](i/7,i%7),m1[j][i],VF_TOL,"covariance"); eqMat(S->transmat[k],I,VF_TOL,"no map yet"); }
    vf_cover("end"); if(cs>=0)vf_cover("selected"); if(via)vf_cover("source"); }
