// P18: propagating forward and then backward over the same elements restores the beam
#include "mom.h"
static void same(const MomentState&a,const MomentState&b,double tol,const char*id){ vf_assert(a.size()==b.size(),id); vf_eq(a.pos,b.pos,tol,id); eqParticle(a.ref,b.ref,tol,id); for(size_t k=0;k<a.size();k++){ eqParticle(a.real[k],b.real[k],tol,id); eqVec(a.moment0[k],b.moment0[k],tol,id); eqMat(a.moment1[k],b.moment1[k],tol,id); } } // the summary follows from these (own property)
// moderate strengths and lengths: maps and their computed inverses stay well conditioned, so that rounding stays far below the tolerance
static El mild(int kind,const char*n,int mis){ El e=mkKind(kind,n,mis,"",0); switch(kind){ case K_DRIFT: e.d("L",.3); break; case K_QUAD: e.d("L",.25).d("B2",5); break; case K_SOL: e.d("L",.2).d("B",2); break; case K_EQUAD: e.d("L",.2).d("V",4e3); break; case K_SBEND: e.d("L",.3).d("phi",20); break; case K_EDIPOLE: e.d("L",.3).d("phi",20); break; case K_QCURVE: case K_SCURVE: case K_ECURVE: e.d("L",.2).d("scl_fac0",.5).d("scl_fac1",-.3); break;
    case K_TMATRIX: { std::vector<double> m(49,0.0); for(int i=0;i<6;i++)for(int j=0;j<7;j++)m[i*7+j]=(i==j?1:0)+.02*((i*5+j*3)%7-3); m[48]=1; e.v("matrix",m); break; } } return e; }
extern "C" void vf_main(){
    regMoment(); static const int KD[]={K_DRIFT,K_QUAD,K_SOL,K_EQUAD,K_ORBTRIM,K_SBEND,K_EDIPOLE,K_MARKER,K_BPM,K_TMATRIX,K_QCURVE,K_SCURVE,K_ECURVE,K_RF41,K_RFGEN,K_SEXT,K_STRIPPER};
    int k1=vf_choice("k1",17); if(KD[k1]==K_SEXT||KD[k1]==K_STRIPPER){ // no backward step through these: reported, never silently wrong
        Lat l; l<<mkKind(K_DRIFT,"d",0,"",0)<<mkKind(KD[k1],"x",vf_choice("mis",2),"",0); Machine M(l.conf()); std::unique_ptr<MomentState> S(mkState(M,1)); if(vf_choice("before",2)){ if(KD[k1]==K_STRIPPER){ S->ref.IonEk=1.6e7; S->real[0].IonEk=1.6e7; S->recalc(); } M.propagate(S.get()); } symM0(*S); bool t=false; try{ M.propagate(S.get(),1,-2); }catch(std::exception&){ t=true; } vf_assert(t,"backward step is refused"); vf_cover("refused"); vf_done(); }
    int mode=vf_choice("mode",kindRF(KD[k1])||vf_tier()?3:2)*(kindRF(KD[k1])||vf_tier()?1:2); // 0 one element, 1 two elements, 2 three elements, all but the first walked back and forth
    int n=mode&&!vf_tier()?1:1+vf_choice("n",2), mis=vf_choice("mis",kindRF(KD[k1])&&mode==0?3:2); bool tilted=mis&&kindRF(KD[k1])&&mis==2; if(mis==2)mis=1; El a=mild(KD[k1],"a",mis); if(mis&&kindRF(KD[k1])&&!tilted)a.d("pitch",0.).d("yaw",0.); if(kindRF(KD[k1])&&vf_choice("mp",2))a.d("MpoleLevel",2.0);
    Lat l; l<<a; if(mode)l<<mild(KD[(k1+3)%9],"b",0); if(mode==2)l<<mild(KD[k1],"c",0); Machine M(l.conf()); int N=mode+1; std::unique_ptr<MomentState> S(mkState(M,n)); if(!kindRF(KD[k1])){ S->ref.IonEk=8e6; for(int k=0;k<n;k++)S->real[k].IonEk=8.1e6+k*1e5; } S->recalc(); static const double sc[6]={5,5e-3,5,5e-3,.1,.05}; // mm, rad, MeV/u
    for(int k=0;k<n;k++)for(int i=0;i<6;i++){ S->moment0[k](i)=vf_real(nm("m",k,i).c_str(),-sc[i],sc[i]); S->moment1[k](i,i)=vf_real(nm("c",k,i).c_str(),0.1,1)*(sc[i]*sc[i]); if(i<5)S->moment1[k](i,i+1)=S->moment1[k](i+1,i)=vf_real(nm("o",k,i).c_str(),-.1,.1)*(sc[i]*sc[i+1]); }
    if(!kindRF(KD[k1])){ S->ref.phis=vf_real("rp",-10,10); for(int k=0;k<n;k++)S->real[k].phis=vf_real(nm("p",k).c_str(),-10,10); }
    if(tilted&&n==1){ S->real[0].IonEk=S->ref.IonEk; S->recalc(); }
    if(kindRF(KD[k1]))for(int k=0;k<n;k++){ S->moment0[k](4)=S->real[k].phis-S->ref.phis; S->moment0[k](5)=(S->real[k].IonEk-S->ref.IonEk)/1e6; } // cavities keep phase and energy of the centroid with the particle
    S->pos=vf_real("pos",0,100); S->calc_rms(); std::unique_ptr<MomentState> I(dynamic_cast<MomentState*>(S->clone())),F;
    M.propagate(S.get()); F.reset(dynamic_cast<MomentState*>(S->clone())); double tol=tilted?1e-3:1e-6; M.propagate(S.get(),N-1,-N);
    same(*S,*I,tol,"restored"); if(tilted){ if(KD[k1]==K_RF41&&n==1){ static const char*id="restored exactly through a cavity with pitch or yaw"; vf_eq(S->moment0[0](0),I->moment0[0](0),1e-6,id); vf_eq(S->moment0[0](2),I->moment0[0](2),1e-6,id); } vf_cover("tilted"); vf_done(); }
    if(mode==0||mode==2){ M.propagate(S.get()); same(*S,*F,tol,"and the way out again"); if(mode==0||vf_tier()){ M.propagate(S.get(),N-1,-N); same(*S,*I,tol*3,"restored by a second return"); } vf_cover("again"); }
    vf_cover("end"); if(kindRF(KD[k1]))vf_cover("cavity"); if(mis)vf_cover("misaligned"); }
