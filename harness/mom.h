// helpers for harnesses over sim_type MomentMatrix
#ifndef VF_MOM_H
#define VF_MOM_H
#include "vf.h"
#include <string>
#include <vector>
#include <cmath>
#include <memory>
#include "flame/base.h"
#include "flame/moment.h"
typedef MomentState::matrix_t Mat; typedef MomentState::vector_t Vec;
static inline std::string nm(const char*b,int i){ std::string s(b); s+=std::to_string(i); return s; }
static inline std::string nm(const char*b,int i,int j){ std::string s(b); s+=std::to_string(i); s+="_"; s+=std::to_string(j); return s; }
struct El { Config c; El(const char*name,const char*type){ c.set<std::string>("name",name); c.set<std::string>("type",type); }
    El&d(const char*k,double v){ c.set<double>(k,v); return *this; } El&s(const char*k,const char*v){ c.set<std::string>(k,v); return *this; }
    El&v(const char*k,const std::vector<double>&x){ c.set<std::vector<double> >(k,x); return *this; } };
struct Lat { std::vector<Config> e; Config c; Lat(const char*sim="MomentMatrix"){ c.set<std::string>("sim_type",sim); }
    Lat&operator<<(const El&x){ e.push_back(x.c); return *this; } Config conf(){ c.set<std::vector<Config> >("elements",e); return c; } };
static inline void regMoment(){ static bool done=false; if(!done){ registerMoment(); done=true; } }
static const double ES=931494320.0;
// state with n charge states; every moment0/moment1 entry concrete unless sym
struct StOpt { int n; bool symM0,symM1,symE,symZ; StOpt(int n_=1):n(n_),symM0(false),symM1(false),symE(false),symZ(false){} };
static inline Config stateConf(int n){ Config c; c.set<double>("IonEs",ES); c.set<double>("IonEk",500000.0);
    std::vector<double> z,q; for(int i=0;i<n;i++){ z.push_back((33.0+i)/238.0); q.push_back(10000.0+100*i); }
    c.set<std::vector<double> >("IonChargeStates",z); c.set<std::vector<double> >("NCharge",q);
    for(int i=0;i<n;i++){ std::vector<double> m0(7,0.0); m0[6]=1.0; for(int j=0;j<6;j++)m0[j]=0.001*(j+1)*(i+1); m0[5]=0.0004*(i+1); c.set<std::vector<double> >(nm("moment0",i),m0);
        std::vector<double> m1(49,0.0); for(int j=0;j<6;j++)m1[j*8]=0.1*(j+1); c.set<std::vector<double> >(nm("initial",i),m1); }
    return c; }
static inline MomentState* mkState(Machine&M,int n){ Config c=stateConf(n); return dynamic_cast<MomentState*>(M.allocState(c)); }
// one nominal charge state: IonZ as given, symbolic beam energy etc.
static inline void symEnergy(MomentState&S,double lo=2e5,double hi=2e8,bool perState=true){ S.ref.IonEk=vf_real("refEk",lo,hi); for(size_t k=0;k<S.size();k++) S.real[k].IonEk=perState?vf_real("Ek",lo,hi):S.ref.IonEk; S.recalc(); }
static inline void symM0(MomentState&S,double r=5.0){ for(size_t k=0;k<S.size();k++){ for(int i=0;i<6;i++)S.moment0[k](i)=vf_real(nm("m0_",k,i).c_str(),-r,r); S.moment0[k](6)=1.0; } }
static inline void symM1(MomentState&S,double r=5.0,bool symmetric=true){ for(size_t k=0;k<S.size();k++){ for(int i=0;i<6;i++)for(int j=symmetric?i:0;j<6;j++){ double v=vf_real((nm("m1_",k)+nm("_",i,j)).c_str(),i==j?0.0:-r,r); S.moment1[k](i,j)=v; if(symmetric)S.moment1[k](j,i)=v; } } }
static inline void eqVec(const Vec&a,const Vec&b,double tol,const char*id){ vf_assert(a.size()==b.size(),id); for(size_t i=0;i<a.size();i++)vf_eq(a(i),b(i),tol,id); }
static inline void eqMat(const Mat&a,const Mat&b,double tol,const char*id){ vf_assert(a.size1()==b.size1()&&a.size2()==b.size2(),id); for(size_t i=0;i<a.size1();i++)for(size_t j=0;j<a.size2();j++)vf_eq(a(i,j),b(i,j),tol,id); }
static inline Mat mmul(const Mat&a,const Mat&b){ Mat r(7,7); for(int i=0;i<7;i++)for(int j=0;j<7;j++){ double s=0; for(int k=0;k<7;k++)s+=a(i,k)*b(k,j); r(i,j)=s; } return r; }
static inline Mat mtrans(const Mat&a){ Mat r(7,7); for(int i=0;i<7;i++)for(int j=0;j<7;j++)r(i,j)=a(j,i); return r; }
static inline Vec mvec(const Mat&a,const Vec&v){ Vec r(7); for(int i=0;i<7;i++){ double s=0; for(int k=0;k<7;k++)s+=a(i,k)*v(k); r(i)=s; } return r; }
static inline Mat ident(){ Mat r(7,7); for(int i=0;i<7;i++)for(int j=0;j<7;j++)r(i,j)=i==j?1.0:0.0; return r; }
static inline void eqParticle(const Particle&a,const Particle&b,double tol,const char*id){ vf_eq(a.IonZ,b.IonZ,tol,id); vf_eq(a.IonQ,b.IonQ,tol,id); vf_eq(a.IonEs,b.IonEs,tol,id); vf_eq(a.IonEk,b.IonEk,tol,id); vf_eq(a.phis,b.phis,tol,id); vf_eq(a.SampleFreq,b.SampleFreq,tol,id);
    vf_eq(a.IonW,b.IonW,tol,id); vf_eq(a.gamma,b.gamma,tol,id); vf_eq(a.beta,b.beta,tol,id); vf_eq(a.bg,b.bg,tol,id); vf_eq(a.SampleIonK,b.SampleIonK,tol,id); }
static inline void eqState(const MomentState&a,const MomentState&b,double tol,const char*id,bool trans=true){ vf_assert(a.size()==b.size()&&a.moment0.size()==b.moment0.size()&&a.moment1.size()==b.moment1.size()&&a.transmat.size()==b.transmat.size(),id); vf_eq(a.pos,b.pos,tol,id);
    eqParticle(a.ref,b.ref,tol,id); for(size_t k=0;k<a.size();k++){ eqParticle(a.real[k],b.real[k],tol,id); eqVec(a.moment0[k],b.moment0[k],tol,id); eqMat(a.moment1[k],b.moment1[k],tol,id); if(trans)eqMat(a.transmat[k],b.transmat[k],tol,id); }
    eqVec(a.moment0_env,b.moment0_env,tol,id); eqMat(a.moment1_env,b.moment1_env,tol,id); for(int i=0;i<7;i++)vf_eq(a.moment0_rms(i),b.moment0_rms(i),tol,id); }
#ifndef VF_DATA
#define VF_DATA "."
#endif
// ---- one element of every kind; parameters symbolic.  mis: 0 aligned, 1 displaced and tilted (fixed numbers), 2 displaced only, 3 rotated only
enum Kind { K_DRIFT,K_QUAD,K_SOL,K_EQUAD,K_ORBTRIM,K_SBEND,K_EDIPOLE,K_MARKER,K_BPM,K_TMATRIX,K_QCURVE,K_SCURVE,K_ECURVE,K_SEXT,K_STRIPPER,K_RF41,K_RFGEN,NKIND };
static inline const char*kindType(int k){ static const char*t[]={"drift","quadrupole","solenoid","equad","orbtrim","sbend","edipole","marker","bpm","tmatrix","quadrupole","solenoid","equad","sextupole","stripper","rfcavity","rfcavity"}; return t[k]; }
static inline bool kindRF(int k){ return k==K_RF41||k==K_RFGEN; }
static inline El mkKind(int kind,const char*name="x",int mis=0,const char*pre="",int sym=1){
    El e(name,kindType(kind)); auto R=[&](const char*n,double lo,double hi){ if(!sym){ unsigned h=7; for(const char*c=n;*c;c++)h=h*131+(unsigned char)*c; h^=h>>7; return lo+(0.1+0.8*((h*2654435761u)>>8)/16777216.0)*(hi-lo); } return vf_real((std::string(pre)+n).c_str(),lo,hi); };
    switch(kind){
    case K_DRIFT: e.d("L",R("L",0.01,3.0)); break;
    case K_QUAD: e.d("L",R("L",0.01,3.0)).d("B2",R("B2",-40,40)); break;
    case K_SOL: e.d("L",R("L",0.01,3.0)).d("B",R("B",-9,9)); break;
    case K_EQUAD: e.d("L",R("L",0.01,3.0)).d("V",R("V",-2e4,2e4)).d("radius",0.075); break;
    case K_ORBTRIM: e.d("theta_x",R("tx",-0.01,0.01)).d("theta_y",R("ty",-0.01,0.01)); break;
    case K_SBEND: e.d("L",R("L",0.1,3.0)).d("phi",R("phi",5,50)).d("phi1",7.0).d("phi2",5.0).d("K",sym?0.0:0.7); break;
    case K_EDIPOLE: e.d("L",R("L",0.1,3.0)).d("phi",R("phi",5,50)).d("ver",sym?0.0:1.0).d("spher",sym?0.0:1.0); break;
    case K_TMATRIX: { std::vector<double> m(49,0.0); for(int i=0;i<6;i++)for(int j=0;j<7;j++)m[i*7+j]=sym?R(nm("t",i,j).c_str(),-3,3):(i==j?1.5:0)+0.1*R(nm("t",i,j).c_str(),-3,3); m[48]=1; e.v("matrix",m); break; }
    case K_QCURVE: case K_SCURVE: case K_ECURVE: { std::vector<double> c0(2),c1(2); for(int i=0;i<2;i++){ c0[i]=R(nm("c0_",i).c_str(),-5,5); c1[i]=R(nm("c1_",i).c_str(),-5,5); } e.d("L",R("L",0.03,1.0)).d("ncurve",2.0).v("curve0",c0).v("curve1",c1).d("scl_fac0",R("s0",-2,2)).d("scl_fac1",R("s1",-2,2)); break; }
    case K_SEXT: e.d("L",R("L",0.01,1.0)).d("B3",R("B3",-40,40)).d("step",1.0).d("thinlens",1.0).d("dstkick",1.0); break;
    case K_STRIPPER: { std::vector<double> z,q; for(int i=0;i<3;i++){ z.push_back((76.0+i)/238.0); q.push_back(R(nm("nq",i).c_str(),10,1000)); } e.v("IonChargeStates",z).v("NCharge",q).s("charge_model","off"); break; }
    case K_RF41: e.s("cavtype","0.041QWR").s("Eng_Data_Dir",VF_DATA).d("L",0.24).d("f",80.5e6).d("phi",-32.0).d("scl_fac",0.64); break;
    case K_RFGEN: e.s("cavtype","Generic").s("Eng_Data_Dir",VF_DATA).s("datafile","gen_41.lat").d("L",0.24).d("f",80.5e6).d("phi",-32.0).d("scl_fac",0.64); break;
    default: break; }
    if(mis==1||mis==2)e.d("dx",0.0011).d("dy",-0.0007); if(mis==1||mis==3)e.d("pitch",0.002).d("yaw",-0.003).d("roll",0.05);
    return e; }
#endif
