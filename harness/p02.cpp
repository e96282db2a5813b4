// P02: a beamline acts as the composition of its parts
#include "mom.h"
static void sameS(const MomentState&a,const MomentState&b,double tol,const char*id){ vf_assert(a.size()==b.size(),id); if(a.size()!=b.size())return; vf_eq(a.pos,b.pos,tol,id); eqParticle(a.ref,b.ref,tol,id); for(size_t k=0;k<a.size();k++){ eqParticle(a.real[k],b.real[k],tol,id); eqVec(a.moment0[k],b.moment0[k],tol,id); eqMat(a.moment1[k],b.moment1[k],tol,id); } }
static void sym(MomentState&S,bool full){ for(size_t k=0;k<S.size();k++)for(int i=0;i<6;i++){ S.moment0[k](i)=vf_real(nm("m",k,i).c_str(),-5,5); S.moment1[k](i,i)=vf_real(nm("c",k,i).c_str(),.1,5); if(i<5&&full)S.moment1[k](i,i+1)=S.moment1[k](i+1,i)=vf_real(nm("o",k,i).c_str(),-.1,.1); } S.pos=vf_real("pos",0,100); S.calc_rms(); }
static MomentState*cl(const MomentState&S){ return dynamic_cast<MomentState*>(S.clone()); }
extern "C" void vf_main(){ regMoment(); int mode=vf_choice("mode",3);
    static const int KD[]={K_DRIFT,K_QUAD,K_SOL,K_EQUAD,K_ORBTRIM,K_SBEND,K_EDIPOLE,K_MARKER,K_BPM,K_TMATRIX,K_QCURVE,K_SCURVE,K_ECURVE,K_RF41,K_RFGEN,K_SEXT,K_STRIPPER};
    if(mode==0){ // any way of cutting the walk into pieces gives the beam of the whole walk, also via copies of the state
        int k1=vf_choice("k1",17),k2=vf_choice("k2",3); static const int K2[3]={K_DRIFT,K_SBEND,K_SOL}; int c1=vf_choice("c1",4),c2=vf_choice("c2",4); if(c2<c1)vf_done(); bool copy=vf_choice("copy",2); int n=1+vf_choice("n",2); if((n==2||kindRF(KD[k1]))&&k2)vf_done(); bool strip=KD[k1]==K_STRIPPER;
        Lat l; l<<mkKind(K2[k2],"a",1,"",0)<<mkKind(KD[k1],"b",k2==1&&!kindRF(KD[k1]),"",0)<<mkKind(K_QUAD,"c",0,"",0); Machine M(l.conf()),M2(l.conf()); std::unique_ptr<MomentState> S(mkState(M,n)); if(!kindRF(KD[k1])){ double e=strip?1.6e7:8e6; S->ref.IonEk=e; for(int k=0;k<n;k++)S->real[k].IonEk=e+k*1e4; } S->recalc(); sym(*S,!strip); std::unique_ptr<MomentState> P(cl(*S));
        M.propagate(S.get()); int at[4]={0,c1,c2,3}; for(int i=0;i<3;i++){ M2.propagate(P.get(),at[i],at[i+1]-at[i]); vf_assert(P->next_elem==(size_t)at[i+1]||at[i+1]==at[i],"next element"); if(copy)P.reset(cl(*P)); } sameS(*S,*P,VF_TOL,"pieces give the same beam as the whole"); eqVec(S->moment0_env,P->moment0_env,VF_TOL,"pieces give the same beam as the whole"); if(!strip)eqMat(S->moment1_env,P->moment1_env,VF_TOL,"pieces give the same beam as the whole"); vf_cover("pieces"); if(copy)vf_cover("copied"); }
    else if(mode==1){ // splitting an element
        int k=vf_choice("k",8),n=1; double l1=vf_real("l1",.05,1),l2=vf_real("l2",.05,1),s=0; int sg=vf_choice("sign",3); El w("w","drift"),a("a","drift"),b("b","drift"); const char*ty[]={"drift","quadrupole","solenoid","equad","sbend","edipole","orbtrim","sbend"};
        w=El("w",ty[k]); a=El("a",ty[k]); b=El("b",ty[k]); double S0=k==1?40:k==2?9:2e4; if((k==0||k>=4)&&sg)vf_done(); if(k>0&&k<4)s=sg==0?0.0:sg==1?vf_real("s",.01*S0,S0):vf_real("s",-S0,-.01*S0);
        if(k!=6){ w.d("L",l1+l2); a.d("L",l1); b.d("L",l2); }
        double g=0; switch(k){ case 1: w.d("B2",s); a.d("B2",s); b.d("B2",s); break; case 2: w.d("B",s); a.d("B",s); b.d("B",s); break; case 3: w.d("V",s).d("radius",.075); a.d("V",s).d("radius",.075); b.d("V",s).d("radius",.075); break;
            case 4: case 7: g=20; { double K=k==7?(vf_choice("Ks",2)?.7:-.7):0; w.d("phi",g*(l1+l2)).d("phi1",7).d("phi2",5).d("K",K); a.d("phi",g*l1).d("phi1",7).d("phi2",0).d("K",K); b.d("phi",g*l2).d("phi1",0).d("phi2",5).d("K",K); } break;
            case 5: g=15; { double ver=vf_choice("ver",2),sp=vf_choice("spher",2); w.d("phi",g*(l1+l2)).d("ver",ver).d("spher",sp).d("asym_fac",0); a.d("phi",g*l1).d("ver",ver).d("spher",sp).d("asym_fac",0); b.d("phi",g*l2).d("ver",ver).d("spher",sp).d("asym_fac",0); } break;
            case 6: w.d("theta_x",l1+l2).d("theta_y",l1-l2); a.d("theta_x",l1).d("theta_y",-l2); b.d("theta_x",l2).d("theta_y",l1); break; }
        if(k!=6){ Lat x,y; x<<w; y<<a<<b; Machine M(x.conf()),M2(y.conf()); std::unique_ptr<MomentState> S(mkState(M,n)); bool fx=k>=4; if(!fx){ S->ref.IonEk=vf_real("rE",2e5,2e8); S->real[0].IonEk=vf_real("E",2e5,2e8); S->real[0].IonZ=vf_real("Z",.1,.5); } else { S->ref.IonEk=8e6; S->real[0].IonEk=k==5?8e6:8.01e6; } S->recalc(); for(int i=0;i<6;i++)S->moment0[0](i)=vf_real(nm("m",0,i).c_str(),-5,5); S->moment1[0]=ident(); S->moment1[0](6,6)=0; S->calc_rms(); std::unique_ptr<MomentState> P(cl(*S)); M.propagate(S.get()); M2.propagate(P.get(),0,1); Mat A=P->transmat[0]; M2.propagate(P.get(),1,1); Mat B=P->transmat[0]; vf_eq(S->pos,P->pos,VF_TOL,"split element: position"); eqMat(S->transmat[0],mmul(B,A),VF_TOL,"a split element gives the same map"); eqParticle(S->ref,P->ref,VF_TOL,"split element: reference"); if(k<4)eqParticle(S->real[0],P->real[0],VF_TOL,"split element: charge state"); vf_cover("split"); if(g)vf_cover("bend"); }
        else { Lat x,y; x<<w; y<<a<<b; Machine M(x.conf()),M2(y.conf()); std::unique_ptr<MomentState> S(mkState(M,n)); sym(*S,true); std::unique_ptr<MomentState> P(cl(*S)); M.propagate(S.get()); M2.propagate(P.get()); sameS(*S,*P,VF_TOL,"two correctors add up"); vf_cover("correctors"); } }
    else { // elements without effect may be inserted anywhere
        int k1=vf_choice("k1",16),at=vf_choice("at",3),w=vf_choice("what",5); Lat x,y; El in("i","marker"); if(w==1)in=El("i","bpm"); else if(w==2)in=El("i","drift").d("L",0); else if(w==3)in=El("i","orbtrim").d("theta_x",0).d("theta_y",0); else if(w==4){ std::vector<double> m(49,0.0); for(int i=0;i<7;i++)m[8*i]=1; in=El("i","tmatrix").v("matrix",m); } El e[2]={mkKind(KD[k1],"b",w==0&&!kindRF(KD[k1]),"",0),mkKind(K_QUAD,"c",0,"",0)}; for(int i=0;i<=2;i++){ if(i==at)y<<in; if(i<2){ x<<e[i]; y<<e[i]; } }
        Machine M(x.conf()),M2(y.conf()); std::unique_ptr<MomentState> S(mkState(M,1)); if(!kindRF(KD[k1])){ S->ref.IonEk=8e6; S->real[0].IonEk=8.01e6; } S->recalc(); sym(*S,true); std::unique_ptr<MomentState> P(cl(*S)); M.propagate(S.get()); M2.propagate(P.get()); sameS(*S,*P,VF_TOL,"an element without effect changes nothing"); eqVec(S->moment0_env,P->moment0_env,VF_TOL,"an element without effect changes nothing"); vf_cover("inserted"); }
    vf_cover("end"); }
