// P05: the result of propagating a beam does not depend on what the machine simulated before
#include "mom.h"
static void symParticle(Particle&p,const char*pre,bool freq){ std::string s(pre); p.IonEk=vf_real((s+"Ek").c_str(),3e5,2e7); p.phis=vf_real((s+"phi").c_str(),-10,10); p.IonZ=vf_real((s+"Z").c_str(),0.1,0.4); p.IonQ=vf_real((s+"Q").c_str(),1,1e4);
    p.IonEs=vf_real((s+"Es").c_str(),9.3e8,9.4e8); if(freq)p.SampleFreq=vf_real((s+"F").c_str(),4e7,2e8); }
static MomentState* st(Machine&M,int n,const char*tag,bool sym,int var,double dE){
    MomentState*S=mkState(M,n); std::string t(tag);
    if(sym){ symParticle(S->ref,(t+"r").c_str(),true); for(int k=0;k<n;k++)symParticle(S->real[k],(t+nm("p",k)).c_str(),true); }
    else { // cavities: fixed numbers, variant var differs in exactly one quantity
        switch(var){ case 0: break; case 1: S->ref.IonEk+=dE; break; case 2: S->real[n-1].IonEk+=dE; break; case 3: S->ref.phis+=0.01; break; case 4: S->real[n-1].phis+=0.02; break; case 5: S->real[0].IonZ*=1.01; break; case 6: S->ref.IonZ*=1.01; break; case 7: S->real[n-1].IonQ*=3; break; case 8: S->ref.SampleFreq*=2; break; case 9: S->real[n-1].SampleFreq*=2; break; case 10: S->ref.IonEs*=1.001; break; case 11: S->real[0].IonEs*=1.001; break; } }
    S->recalc();
    for(int k=0;k<n;k++){ for(int i=0;i<6;i++)S->moment0[k](i)=vf_real((t+nm("m",k,i)).c_str(),-5,5); for(int i=0;i<6;i++)S->moment1[k](i,i)=vf_real((t+nm("c",k,i)).c_str(),0.1,5); }
    S->calc_rms(); return S; }
static bool fails(Machine&M,MomentState*S){ try{ M.propagate(S,0,1); }catch(std::exception&){ return true; } return false; }
static void failed(){ // an attempt that ends in an error leaves nothing behind: the next attempt fails just like the first one on a fresh machine
    static const struct{int k;const char*drop;} T[]={{K_QUAD,"B2"},{K_SOL,"B"},{K_EQUAD,"V"},{K_SBEND,"phi"},{K_EDIPOLE,"phi"},{K_TMATRIX,"matrix"},{K_QCURVE,"curve1"},{K_SCURVE,"curve0"},{K_ECURVE,"curve1"},{K_RF41,"scl_fac"},{K_RFGEN,"scl_fac"},{K_STRIPPER,"NCharge"}};
    int w=vf_choice("what",12); El e=mkKind(T[w].k,"x",0,"",0); Config f; for(Config::const_iterator i=e.c.begin();i!=e.c.end();++i)if(i->first!=T[w].drop)f.setAny(i->first,i->second);
    e.c=f; Lat l; l<<e; Machine A(l.conf()),B(l.conf()); std::unique_ptr<MomentState> S(mkState(A,2)); symM0(*S); std::unique_ptr<MomentState> X(S->clone()),Y(S->clone());
    bool f1=fails(A,S.get()),f2=fails(A,X.get()),f3=fails(B,Y.get());
    vf_assert(f1==f3,"missing parameter is reported"); vf_assert(f2==f3,"still reported on the second attempt"); vf_cover("failed attempt"); }
extern "C" void vf_main(){
    regMoment();
    if(vf_choice("failed",2)){ failed(); vf_done(); }
    int kind=vf_choice("kind",NKIND);
    bool rf=kindRF(kind), nb=kind==K_SEXT||kind==K_STRIPPER||rf;
    int n1=1+vf_choice("n1",2),n2=1+vf_choice("n2",2);
    int d1=nb?0:vf_choice("d1",2),d2=nb?0:vf_choice("d2",2);
    bool easy=kind==K_DRIFT||kind==K_MARKER||kind==K_BPM;
    // symbolic strengths and energies fork in the matrix inverse of backward steps: there the two beams are fixed numbers
    // that agree except for at most one quantity (var), and only the moments are symbolic
    int sym=!rf&&kind!=K_EDIPOLE&&kind!=K_QCURVE&&kind!=K_SCURVE&&kind!=K_ECURVE&&(easy||(!d1&&!d2&&n1==1&&n2==1));
    int var=sym||n1!=n2?0:vf_choice("var",12);
    Config c; { Lat l; l<<mkKind(kind,"x",0,"",sym); c=l.conf(); }
    Machine A(c),B(c);
    std::unique_ptr<MomentState> X1(st(A,n1,"a",sym,var,7e3)),X2(st(A,n2,"b",sym,0,0)),Y(X2->clone());
    A.propagate(X1.get(),0,d1?-1:1);
    A.propagate(X2.get(),0,d2?-1:1);
    B.propagate(Y.get(),0,d2?-1:1);
    eqState(*X2,*Y,VF_TOL,"same result as on a fresh machine");
    vf_eq(X2->last_caviphi0,Y->last_caviphi0,VF_TOL,"driven phase");
    vf_cover("end"); if(d1!=d2)vf_cover("direction change"); if(n1!=n2)vf_cover("charge state count change");
}
