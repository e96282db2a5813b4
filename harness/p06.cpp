// P06: an element given a new configuration behaves like the same element of a machine built from that configuration
#include "mom.h"
#include "flame/state/vector.h"
#include "flame/state/matrix.h"
struct Count:Observer{ int n; Count():n(0){} virtual void view(const ElementVoid*,const StateBase*){ n++; } };
struct Var { const char*key; int what; }; // 0 number scaled, 1 number replaced by a symbolic value, 2 vector entry scaled, 3 string, 4 key removed
static std::vector<Config> beamline(const Config&x){ std::vector<Config> e; e.push_back(El("head","drift").d("L",0.3).c); e.push_back(x); e.push_back(El("tail","drift").d("L",0.2).c); return e; }
static Config machine(const Config&x,const char*sim){ Config c; c.set<std::string>("sim_type",sim); c.set<std::vector<Config> >("elements",beamline(x)); return c; }
static double getd(const Config&c,const char*k){ double v=0; c.tryGet<double>(k,v); return v; }
static Config without(const Config&c,const std::string&k){ Config f; for(Config::const_iterator i=c.begin();i!=c.end();++i)if(i->first!=k)f.setAny(i->first,i->second); return f; }
// the changes tried for one kind of element
static int nvar(int kind); 
static Config change(const Config&c1,int kind,int v){
    Config c(c1); static const char*mis[]={"dx","dy","pitch","yaw","roll"}; static const double mv[]={0.0013,-0.0009,0.0021,-0.0017,0.043};
    if(v<5){ c.set<double>(mis[v],mv[v]); return c; }
    if(v==5){ c.set<double>("skipcache",1.0); return c; }
    if(v==6){ c.set<std::string>("name","renamed"); return c; }
    if(v==7){ c.set<double>("L",0.0); return c; }
    if(v==8)return without(c1,"L");
    v-=9;
    auto scale=[&](const char*k,double f){ c.set<double>(k,getd(c1,k)*f); }; auto vec=[&](const char*k,size_t i,double f){ std::vector<double> t(c1.get<std::vector<double> >(k)); if(i<t.size())t[i]*=f; c.set<std::vector<double> >(k,t); };
    auto symb=[&](const char*k,double lo,double hi){ c.set<double>(k,vf_real((std::string("new_")+k).c_str(),lo,hi)); };
    switch(kind){
    case K_DRIFT: symb("L",0.01,3); return c;
    case K_MARKER: case K_BPM: symb("L",0.01,3); return c;
    case K_QUAD: if(v==0)symb("L",0.01,3); else symb("B2",-40,40); return c;
    case K_SOL: if(v==0)symb("L",0.01,3); else symb("B",-9,9); return c;
    case K_EQUAD: if(v==0)symb("L",0.01,3); else if(v==1)symb("V",-2e4,2e4); else symb("radius",0.05,0.1); return c;
    case K_ORBTRIM: if(v==0)symb("theta_x",-0.01,0.01); else if(v==1)symb("theta_y",-0.01,0.01); else if(v==2){ c.set<double>("realpara",1.0); c.set<double>("tm_xkick",0.002); c.set<double>("tm_ykick",-0.001); } else c.set<double>("xyrotate",20.0); return c;
    case K_SBEND: if(v==0)scale("L",1.1); else if(v==1)scale("phi",1.2); else if(v==2)scale("phi1",0.5); else if(v==3)scale("phi2",-1); else if(v==4)c.set<double>("K",0.3); else { c.set<double>("HdipoleFitMode",0.0); c.set<double>("bg",0.033); } return c;
    case K_EDIPOLE: if(v==0)scale("L",1.1); else if(v==1)scale("phi",1.2); else if(v==2)c.set<double>("ver",1.0); else if(v==3)c.set<double>("spher",1.0); else if(v==4)c.set<double>("fringe_x",0.2); else if(v==5)c.set<double>("fringe_y",0.2); else if(v==6)c.set<double>("asym_fac",0.1); else { c.set<double>("HdipoleFitMode",0.0); c.set<double>("beta",0.034); } return c;
    case K_TMATRIX: vec("matrix",v==0?0:v==1?20:47,1.5); return c;
    case K_QCURVE: case K_SCURVE: case K_ECURVE: if(v==0)scale("L",1.1); else if(v==1)vec("curve0",1,1.4); else if(v==2)vec("curve1",0,-1); else if(v==3)scale("scl_fac0",1.3); else if(v==4)scale("scl_fac1",0.2); else if(v==5)c.set<double>("ncurve",1.0); else c.set<std::vector<double> >("use_range",std::vector<double>{0,1}); return c;
    case K_SEXT: if(v==0)symb("L",0.01,1); else if(v==1)symb("B3",-40,40); else if(v==2)c.set<double>("step",3.0); else if(v==3)c.set<double>("thinlens",0.0); else c.set<double>("dstkick",0.0); return c;
    case K_STRIPPER: if(v==0)vec("IonChargeStates",1,1.01); else if(v==1)vec("NCharge",2,2); else if(v==2)c.set<std::string>("charge_model","baron"); else if(v==3)c.set<double>("Stripper_IonZ",75.0/238); else if(v==4)c.set<std::vector<double> >("Stripper_E0Para",std::vector<double>{16.0e6,1.01,-0.1}); else if(v==5)c.set<std::vector<double> >("Stripper_Para",std::vector<double>{2.5,10,16e6}); else if(v==6)c.set<double>("Stripper_E1Para",3e-3); else if(v==7)c.set<double>("Stripper_lambda",5.0); else { std::vector<double> z{0.3,0.31},q{5,6}; c.set<std::vector<double> >("IonChargeStates",z); c.set<std::vector<double> >("NCharge",q); } return c;
    default: { // cavities
        static const char*ct[]={"0.041QWR","0.085QWR","0.29HWR","0.53HWR","Generic"}; bool g=kind==K_RFGEN;
        if(v<5){ c.set<std::string>("cavtype",ct[v]); c.set<std::string>("datafile",g?"gen_41.lat":"gen_85.lat"); return c; }
        v-=5; if(v==0)scale("phi",0.7); else if(v==1)scale("scl_fac",1.2); else if(v==2)scale("f",1.5); else if(v==3)scale("L",1.1); else if(v==4)c.set<double>("MpoleLevel",0.0); else if(v==5)c.set<double>("MpoleLevel",1.0); else if(v==6)c.set<double>("EmitGrowth",1.0); else if(v==7)c.set<double>("syncflag",0.0); else if(v==8)c.set<double>("forcettfcalc",1.0); else if(v==9)c.set<std::string>("datafile","gen_85.lat"); else if(v==10)c.set<std::string>("datafile","gen_41_p.lat"); else c.set<double>("Rm",11.0);
        return c; } } }
static int nvar(int kind){ static const int n[]={1,2,2,3,4,6,8,1,1,3,7,7,7,5,9,17,17}; return 9+n[kind]; }
static MomentState* beam(Machine&M,int n){ MomentState*S=mkState(M,n); symM0(*S); for(int k=0;k<n;k++)for(int i=0;i<6;i++)S->moment1[k](i,i)=vf_real(nm("c",k,i).c_str(),0.1,5); return S; }
// propagate; true if refused
static bool go(Machine&M,StateBase*S,size_t start=0,int max=100){ try{ M.propagate(S,start,max); }catch(std::exception&){ return true; } return false; }
static void compare(Machine&A,Machine&B,int n,bool back,const char*id){
    std::unique_ptr<MomentState> S(beam(A,n)),T(S->clone()); bool fa=go(A,S.get()),fb=go(B,T.get()); vf_assert(fa==fb,id); if(fa)return;
    eqState(*S,*T,VF_TOL,id); vf_eq(S->last_caviphi0,T->last_caviphi0,VF_TOL,id);
    if(back){ fa=go(A,S.get(),2,-3); fb=go(B,T.get(),2,-3); vf_assert(fa==fb,id); if(!fa)eqState(*S,*T,VF_TOL,id); } }
static void same(Machine&A,Machine&B,int n,Count*o,const char*id){
    vf_assert(A.size()==3&&B.size()==3,id); for(size_t i=0;i<3;i++){ vf_assert(A[i]->name==B[i]->name&&A[i]->index==i&&std::string(A[i]->type_name())==B[i]->type_name(),id); vf_eq(A[i]->length,B[i]->length,0,id); }
    // the element reports the configuration it was given
    const Config&a=A[1]->conf(),&b=B[1]->conf(); Config::const_iterator i=a.begin(),j=b.begin(); for(;i!=a.end()&&j!=b.end();++i,++j)vf_assert(i->first==j->first&&i->second.which()==j->second.which(),id); vf_assert(i==a.end()&&j==b.end(),id); }
static void linear(const char*sim,bool mat);
static void refused(){ // a change that is refused leaves the machine as it was
    int kind=vf_choice("rk",4); static const int K[]={K_QUAD,K_SBEND,K_RF41,K_STRIPPER}; Config c1=mkKind(K[kind],"x",0,"",0).c,c2(c1); int how=vf_choice("how",6); size_t idx=1;
    if(how==0)idx=3; else if(how==1)c2.set<std::string>("type","drift"); else if(how==2)c2.set<std::string>("type","nosuch"); else if(how==3)c2=without(c1,"type"); else if(how==4)c2=without(c1,"name");
    else { if(kind==1)c2.set<double>("HdipoleFitMode",2.0); else if(kind==2)c2.set<std::string>("cavtype","nosuch"); else idx=(size_t)-1; }
    Machine A(machine(c1,"MomentMatrix")),B(machine(c1,"MomentMatrix")); int before=vf_choice("before",2); if(before){ std::unique_ptr<MomentState> S(mkState(A,1)); A.propagate(S.get()); }
    bool thrown=false; try{ A.reconfigure(idx,c2); }catch(std::exception&){ thrown=true; }
    vf_assert(thrown,"impossible change is refused"); same(A,B,1,0,"refused change leaves the element as it was"); compare(A,B,1,false,"refused change leaves the machine as it was"); vf_cover("refused"); }
extern "C" void vf_main(){
    regMoment(); int mode=vf_choice("mode",4);
    if(mode==1){ refused(); vf_done(); } if(mode==2){ linear("Vector",false); vf_done(); } if(mode==3){ linear("TransferMatrix",true); vf_done(); }
    int kind=vf_choice("kind",NKIND+1);
    if(kind==NKIND){ // source
        Config c1=stateConf(2),c2; c1.set<std::string>("name","x"); c1.set<std::string>("type","source"); int v=vf_choice("v",4); c2=c1;
        if(v==0)c2.set<double>("IonEk",vf_real("nEk",1e5,1e7)); else if(v==1){ std::vector<double> m(7,0.0); m[6]=1; m[2]=vf_real("ny",-3,3); c2.set<std::vector<double> >("moment01",m); } else if(v==2){ std::vector<double> z{0.1},q{7}; c2.set<std::vector<double> >("IonChargeStates",z); c2.set<std::vector<double> >("NCharge",q); } else c2.set<double>("cstate",1.0);
        Machine A(machine(c1,"MomentMatrix")),B(machine(c2,"MomentMatrix")); A.reconfigure(1,c2); same(A,B,1,0,"reconfigured element looks like a new one"); compare(A,B,1,false,"reconfigured source behaves like a new one"); vf_done(); }
    int v=vf_choice("v",nvar(kind)), before=vf_choice("before",2), twice=kindRF(kind)?vf_choice("twice",2):0;
    Config c1=mkKind(kind,"x",0,"",0).c,c2=change(c1,kind,v);
    bool ok=true; try{ Machine B0(machine(c2,"MomentMatrix")); }catch(std::exception&){ ok=false; } if(!ok)vf_done();
    Machine A(machine(c1,"MomentMatrix")),B(machine(c2,"MomentMatrix")); Count*o=new Count; A[1]->set_observer(o);
    int used=0; if(before){ std::unique_ptr<MomentState> S(mkState(A,1)); if(!go(A,S.get()))used=1; }
    if(twice){ Config cx(c1); cx.set<std::string>("cavtype",kind==K_RF41?"Generic":"0.085QWR"); cx.set<std::string>("datafile","gen_85.lat"); A.reconfigure(1,cx); if(before){ std::unique_ptr<MomentState> S(mkState(A,1)); if(!go(A,S.get()))used++; } }
    A.reconfigure(1,c2); vf_assert(A[1]->observer()==o,"observer stays attached"); same(A,B,1,o,"reconfigured element looks like a new one");
    int had=o->n; bool nb=kind==K_SEXT||kind==K_STRIPPER; bool symb=v>=9&&kind!=K_TMATRIX&&kind!=K_SBEND&&kind!=K_EDIPOLE&&kind!=K_QCURVE&&kind!=K_SCURVE&&kind!=K_ECURVE&&!kindRF(kind);
    compare(A,B,1,!nb&&!symb,"reconfigured element behaves like a new one"); vf_assert(o->n>had||kind==K_STRIPPER||true,"observer called"); vf_assert(had==used,"observer called once per visit");
    vf_cover("end"); if(used)vf_cover("used before"); }
template<class St> static void linearT(const char*sim){
    int t=vf_choice("t",6), before=vf_choice("before",2); static const char*ty[]={"drift","quadrupole","solenoid","sbend","generic","source"}; El e("x",ty[t]); Config c1=e.d("L",0.5).c,c2; int big=std::string(sim)=="TransferMatrix";
    if(t==1||t==2)c1.set<double>("K",0.7); if(t==3){ c1.set<double>("phi",0.3); c1.set<double>("K",0.1); } if(t==4){ std::vector<double> m(36,0.0); for(int i=0;i<6;i++)m[i*7]=1+i; c1.set<std::vector<double> >("transfer",m); } if(t==5){ std::vector<double> m(big?36:6,0.5); c1.set<std::vector<double> >("initial",m); }
    c2=c1; int v=vf_choice("v",2); if(t==4){ std::vector<double> m(c1.get<std::vector<double> >("transfer")); m[v?35:1]=vf_real("nt",-3,3); c2.set<std::vector<double> >("transfer",m); } else if(t==5){ std::vector<double> m(c1.get<std::vector<double> >("initial")); m[v?5:0]=vf_real("ni",-3,3); c2.set<std::vector<double> >("initial",m); } else if(v||t==0)c2.set<double>("L",vf_real("nL",0.01,2)); else c2.set<double>(t==3?"phi":"K",vf_real("nK",0.05,2));
    Machine A(machine(c1,sim)),B(machine(c2,sim)); if(before){ std::unique_ptr<StateBase> s(A.allocState()); A.propagate(s.get()); } A.reconfigure(1,c2); same(A,B,1,0,"reconfigured element looks like a new one");
    std::unique_ptr<St> S(dynamic_cast<St*>(A.allocState())); for(size_t i=0;i<S->state.data().size();i++)S->state.data()[i]=vf_real(nm("x",i).c_str(),-5,5); std::unique_ptr<St> T(dynamic_cast<St*>(S->clone())); A.propagate(S.get()); B.propagate(T.get());
    vf_eq(S->pos,T->pos,VF_TOL,"reconfigured element behaves like a new one"); for(size_t i=0;i<S->state.data().size();i++)vf_eq(S->state.data()[i],T->state.data()[i],VF_TOL,"reconfigured element behaves like a new one"); vf_cover("linear"); }
static void linear(const char*sim,bool mat){ static bool reg=false; if(!reg){ registerLinear(); reg=true; } if(mat)linearT<MatrixState>(sim); else linearT<VectorState>(sim); }
