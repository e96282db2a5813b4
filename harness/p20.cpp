// P20: the charge stripper recombines the beam and hands it out over the new charge states
#include "mom.h"
static double sq(double x){ return x*x; }
static double weight(double z,double mass,double prot,double beta){ // Baron's formula, carbon foil
    double q1=prot*(1-exp(-83.275*beta/pow(prot,0.447))), qa=q1*(1-exp(-12.905+0.2124*prot-0.00122*prot*prot)), y=q1/prot, d=sqrt(q1*(0.07535+0.19*y-0.2654*y*y));
    return exp(-0.5*sq(z*mass-qa)/(d*d))/(sqrt(2*M_PI)*d); }
extern "C" void vf_main(){
    regMoment(); int n=1+vf_choice("nin",vf_tier()?3:2), m=1+vf_choice("nout",3), model=vf_choice("model",3), cfg=vf_choice("cfg",3), bad=vf_choice("bad",4); // model 0 off, 1 baron, 2 default
    std::vector<double> z,q; for(int i=0;i<m;i++){ z.push_back((76.0+i)/238.0); q.push_back(model==0?vf_real(nm("q",i).c_str(),1,1000):1.0); }
    El e("s","stripper"); e.v("IonChargeStates",z).v("NCharge",q); if(model==0)e.s("charge_model","off"); if(model==1)e.s("charge_model","baron");
    double rz=78.0/238.0,mass=238,prot=92,E1=2.8874e-3,lam=5.5740,up=2.6903; std::vector<double> P{3.0,20.0,16.623e6},E0{16.348e6,1.00547,-0.10681};
    if(cfg){ rz=vf_real("rz",0.2,0.4); E1=vf_real("E1",1e-4,1e-2); lam=vf_real("lam",3,8); up=vf_real("up",1,4); P[0]=vf_real("thick",1,5); P[1]=vf_real("var",1,30); P[2]=vf_real("refE",15e6,18e6); E0[0]=vf_real("E00",15e6,17e6); E0[1]=vf_real("E01",0.9,1.1); E0[2]=vf_real("E02",-0.3,-0.01); mass=cfg==2?106:236; prot=cfg==2?36:90;
        e.d("Stripper_IonZ",rz).d("Stripper_E1Para",E1).d("Stripper_lambda",lam).d("Stripper_upara",up).d("Stripper_IonMass",mass).d("Stripper_IonProton",prot).v("Stripper_Para",P).v("Stripper_E0Para",E0); }
    if(bad==1)e.s("charge_model","other"); if(bad==2){ q.push_back(1.0); e.v("NCharge",q); } 
    Lat l; l<<e; Machine M(l.conf()); std::unique_ptr<MomentState> S(mkState(M,n)); S->pos=1.25; S->ref.IonEk=vf_real("refEk",15e6,18e6); S->ref.phis=vf_real("refphis",-5,5);
    for(int k=0;k<n;k++){ Particle&p=S->real[k]; p.IonQ=vf_real(nm("Q",k).c_str(),1,1000); p.IonEk=vf_real(nm("Ek",k).c_str(),15e6,18e6); p.phis=vf_real(nm("phis",k).c_str(),-5,5); for(int i=0;i<6;i++)S->moment0[k](i)=vf_real(nm("m",k,i).c_str(),-2,2);
        static const int ij[][2]={{0,1},{2,3},{4,5},{0,5},{1,3},{1,5},{3,5}}; for(int i=0;i<6;i++)S->moment1[k](i,i)=vf_real(nm("v",k,i).c_str(),0.001,2); for(auto&x:ij){ double c=vf_real((nm("c",k)+nm("_",x[0],x[1])).c_str(),-1,1); S->moment1[k](x[0],x[1])=c; S->moment1[k](x[1],x[0])=c; } }
    S->recalc(); if(bad||m!=2)S->calc_rms(); /* otherwise the summary is stale, as after writing the parameters */ std::unique_ptr<MomentState> I(dynamic_cast<MomentState*>(S->clone()));
    if(bad==3){ bool t=false; try{ M.propagate(S.get(),0,-1); }catch(std::exception&){ t=true; } vf_assert(t,"backward refused"); vf_cover("backward"); return; }
    if(bad==1||(bad==2&&model==0)){ bool t=false; try{ M.propagate(S.get()); }catch(std::exception&){ t=true; } vf_assert(t,"bad configuration refused"); eqState(*S,*I,VF_TOL,"refused leaves the beam"); vf_cover("refused"); return; }
    M.propagate(S.get());
    double tot=0,ph=0,ek=0; for(int k=0;k<n;k++){ tot+=I->real[k].IonQ; ph+=I->real[k].IonQ*I->real[k].phis; ek+=I->real[k].IonQ*I->real[k].IonEk; } ph/=tot; ek/=tot;
    double c[7],cov[7][7]; for(int i=0;i<7;i++){ c[i]=0; for(int k=0;k<n;k++)c[i]+=I->real[k].IonQ*I->moment0[k](i); c[i]/=tot; }
    for(int i=0;i<7;i++)for(int j=0;j<7;j++){ double s=0; for(int k=0;k<n;k++)s+=I->real[k].IonQ*(I->moment1[k](i,j)+(I->moment0[k](i)-c[i])*(I->moment0[k](j)-c[j])); cov[i][j]=s/tot; }
    double sc=up/(lam*lam)*1e-6, foil=P[1]/100*P[0]*E0[2]; double add[7]={0,sc,0,sc,0,E1*E1+foil*foil/3,0}; double g[7]; for(int i=0;i<7;i++)g[i]=(i==1||i==3||i==5)?sqrt((cov[i][i]+add[i])/cov[i][i]):1.0;
    vf_assert((int)S->size()==m&&(int)S->moment0.size()==m&&(int)S->moment1.size()==m&&(int)S->transmat.size()==m,"number of charge states");
    vf_eq(S->pos,1.25,VF_TOL,"position"); vf_eq(S->ref.IonZ,rz,VF_TOL,"reference charge"); vf_eq(S->ref.IonEk,(I->ref.IonEk-P[2])*E0[1]+E0[0],VF_TOL,"reference energy"); vf_eq(S->ref.phis,I->ref.phis,VF_TOL,"reference phase"); vf_eq(S->ref.IonEs,I->ref.IonEs,VF_TOL,"rest energy"); vf_eq(S->ref.SampleFreq,I->ref.SampleFreq,VF_TOL,"frequency");
    vf_eq(S->ref.IonW,S->ref.IonEs+S->ref.IonEk,VF_TOL,"reference consistent"); vf_eq(S->ref.gamma,S->ref.IonW/S->ref.IonEs,VF_TOL,"reference consistent");
    double beta=sqrt(1-1/sq(1+I->real[0].IonEk/I->real[0].IonEs));
    for(int k=0;k<m;k++){ const Particle&p=S->real[k]; vf_eq(p.IonZ,z[k],VF_TOL,"charge state"); vf_eq(p.IonQ,model==0?q[k]:weight(z[k],mass,prot,beta),VF_TOL,"amount"); vf_eq(p.IonEk,(ek-P[2])*E0[1]+E0[0],VF_TOL,"energy"); vf_eq(p.phis,ph,VF_TOL,"phase"); vf_eq(p.IonEs,I->ref.IonEs,VF_TOL,"rest energy"); vf_eq(p.SampleFreq,I->ref.SampleFreq,VF_TOL,"frequency");
        vf_eq(p.IonW,p.IonEs+p.IonEk,VF_TOL,"consistent"); vf_eq(p.gamma,p.IonW/p.IonEs,VF_TOL,"consistent"); vf_eq(p.beta,sqrt(1-1/sq(p.gamma)),VF_TOL,"consistent"); vf_eq(p.bg,p.beta*p.gamma,VF_TOL,"consistent"); vf_eq(p.SampleIonK,2*M_PI/(p.beta*(2.99792458e8/p.SampleFreq*1e3)),VF_TOL,"consistent");
        for(int i=0;i<7;i++){ vf_eq(S->moment0[k](i),c[i],VF_TOL,"centroid"); for(int j=0;j<7;j++){ vf_eq(S->moment1[k](i,j),g[i]*g[j]*cov[i][j],VF_TOL,"covariance"); vf_eq(S->transmat[k](i,j),i==j?1.0:0.0,VF_TOL,"map"); } vf_eq(S->moment0_env(i),c[i],VF_TOL,"summary"); } }
    vf_cover("end"); if(n>1)vf_cover("recombined"); }
