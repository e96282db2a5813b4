// P19: what an element leaves alone, and how position, phase and derived quantities advance
#include "mom.h"
static void kin(const Particle&P,const char*id){ vf_eq(P.IonW,P.IonEs+P.IonEk,VF_TOL,id); double g=(P.IonEs+P.IonEk)/P.IonEs,b=sqrt(1-1/(g*g)),l=2.99792458e8/P.SampleFreq*1e3; vf_eq(P.gamma,g,VF_TOL,id); vf_eq(P.beta,b,VF_TOL,id); vf_eq(P.bg,b*g,VF_TOL,id); vf_eq(P.SampleLambda,l,VF_TOL,id); vf_eq(P.SampleIonK,2*M_PI/(b*l),VF_TOL,id); }
static double K(const Particle&P){ double g=(P.IonEs+P.IonEk)/P.IonEs,b=sqrt(1-1/(g*g)),l=2.99792458e8/P.SampleFreq*1e3; return 2*M_PI/(b*l); }
static void sp(Particle&p,const char*t,bool sym,bool rf){ std::string s(t); if(sym){ p.IonEk=vf_real((s+"Ek").c_str(),3e5,2e7); p.IonEs=vf_real((s+"Es").c_str(),9.3e8,9.4e8); p.SampleFreq=vf_real((s+"F").c_str(),4e7,2e8); } else if(t[0]=='p')p.IonEk*=rf?1.001+0.001*(t[1]-'0'):1.03+0.04*(t[1]-'0'); p.IonZ=sym?vf_real((s+"Z").c_str(),0.1,0.4):p.IonZ; p.IonQ=vf_real((s+"Q").c_str(),1,1e4); if(rf)p.phis=0.3; else p.phis=vf_real((s+"phi").c_str(),-10,10); }
extern "C" void vf_main(){
    regMoment(); static const int KD[]={K_DRIFT,K_QUAD,K_SOL,K_EQUAD,K_ORBTRIM,K_SBEND,K_EDIPOLE,K_MARKER,K_BPM,K_TMATRIX,K_QCURVE,K_SCURVE,K_ECURVE,K_SEXT,K_RF41,K_RFGEN};
    int kd=KD[vf_choice("kind",16)], n=1+vf_choice("n",2), mis=vf_choice("mis",2), back=vf_choice("back",2), stale=vf_choice("stale",2); bool rf=kindRF(kd), thin=kd==K_MARKER||kd==K_BPM||kd==K_ORBTRIM, nofield=thin||kd==K_DRIFT; if(back&&(rf||kd==K_SEXT))vf_done(); if(mis&&(nofield&&kd!=K_ORBTRIM))vf_done();
    bool sym=!rf&&!mis&&!(back&&!nofield)&&kd<K_TMATRIX&&kd!=K_EDIPOLE;
    El e=mkKind(kd,"x",mis,"",0); double L=0; if(thin||kd==K_TMATRIX){ if(kd!=K_TMATRIX)e.d("L",vf_real("Lx",0.1,2)); } else if(sym&&kd!=K_QCURVE){ L=vf_real("L",0.1,2); e.d("L",L); } else L=e.c.get<double>("L");
    if(kd==K_TMATRIX){ L=vf_real("L",0.1,2); e.d("L",L); }
    Lat l; l<<e; Machine M(l.conf()); std::unique_ptr<MomentState> S(mkState(M,n)); sp(S->ref,"r",sym,rf); for(int k=0;k<n;k++)sp(S->real[k],nm("p",k).c_str(),sym,rf); if(!stale)S->recalc(); // stale: only the primary quantities were set
    double p0=vf_real("pos",0,100); S->pos=p0; for(int k=0;k<n;k++)for(int i=0;i<6;i++)S->moment0[k](i)=kd==K_SBEND||!sym?vf_real(nm("m",k,i).c_str(),-1,1):0.1*i;
    std::unique_ptr<MomentState> I(dynamic_cast<MomentState*>(S->clone())); M.propagate(S.get(),0,back?-1:1); double sg=back?-1:1;
    vf_eq(S->pos,p0+sg*L,VF_TOL,"position"); vf_assert((int)S->size()==n&&(int)S->moment0.size()==n&&(int)S->transmat.size()==n,"number of charge states"); vf_assert(S->next_elem==(back?(size_t)-1:1u)&&S->retreat==(back!=0),"next element"); kin(S->ref,"derived quantities of the reference");
    const Particle&a=I->ref,&b=S->ref; vf_eq(b.IonZ,a.IonZ,VF_TOL,"reference charge kept"); vf_eq(b.IonQ,a.IonQ,VF_TOL,"reference amount kept"); vf_eq(b.IonEs,a.IonEs,VF_TOL,"reference mass kept"); vf_eq(b.SampleFreq,a.SampleFreq,VF_TOL,"reference frequency kept"); if(!rf){ vf_eq(b.IonEk,a.IonEk,VF_TOL,"reference energy kept"); vf_eq(b.phis,a.phis+sg*K(a)*L*1e3,VF_TOL,"reference phase"); }
    for(int k=0;k<n;k++){ const Particle&p=I->real[k],&q=S->real[k]; kin(q,"derived quantities"); vf_eq(q.IonZ,p.IonZ,VF_TOL,"charge kept"); vf_eq(q.IonQ,p.IonQ,VF_TOL,"amount kept"); vf_eq(q.IonEs,p.IonEs,VF_TOL,"mass kept"); vf_eq(q.SampleFreq,p.SampleFreq,VF_TOL,"frequency kept");
        if(!rf){ vf_eq(q.IonEk,p.IonEk,VF_TOL,"energy kept"); double ph=p.phis+sg*K(p)*L*1e3; if(kd==K_SBEND)ph+=S->moment0[k](4)-I->moment0[k](4); vf_eq(q.phis,ph,VF_TOL,"phase"); }
        vf_eq(S->moment0[k](6),1.0,VF_TOL,"constant of the centroid"); }
    vf_cover("end"); if(back)vf_cover("backward"); if(rf)vf_cover("cavity"); if(sym&&stale)vf_cover("stale"); }
