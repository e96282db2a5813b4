// P25: the Vector and TransferMatrix simulations apply the documented maps and agree with each other
#include "mom.h"
#include "flame/linear.h"
#include "flame/state/vector.h"
#include "flame/state/matrix.h"
static const int N=6;
struct M7 { double a[N][N]; M7(){ for(int i=0;i<N;i++)for(int j=0;j<N;j++)a[i][j]=i==j; } };
static M7 mul(const M7&x,const M7&y){ M7 r; for(int i=0;i<N;i++)for(int j=0;j<N;j++){ double s=0; for(int k=0;k<N;k++)s+=x.a[i][k]*y.a[k][j]; r.a[i][j]=s; } return r; }
static void plane(M7&m,double k,double L,int o){ if(k>0){ double s=sqrt(k); m.a[o][o]=m.a[o+1][o+1]=cos(s*L); m.a[o][o+1]=sin(s*L)/s; m.a[o+1][o]=-s*sin(s*L); } else if(k<0){ double s=sqrt(-k); m.a[o][o]=m.a[o+1][o+1]=cosh(s*L); m.a[o][o+1]=sinh(s*L)/s; m.a[o+1][o]=s*sinh(s*L); } else m.a[o][o+1]=L; }
static El mk(int kind,const char*name,int zero,M7&X,double&len){ static const char*T[]={"marker","drift","quadrupole","solenoid","sbend","generic"}; El e(name,T[kind]); std::string p(name); len=0;
    double L=0; if(kind>=1&&kind<=4){ L=zero==2?0.0:vf_real((p+"L").c_str(),0.05,3); e.d("L",L); len=L; } L*=1e3;
    if(kind==1)X.a[0][1]=X.a[2][3]=L;
    if(kind==2){ double K=zero==1?0.0:vf_real((p+"K").c_str(),-9,9); if(zero==3)K=0.0; else e.d("K",K); plane(X,K/1e6,L,0); plane(X,-(K/1e6),L,2); }
    if(kind==3){ double K=zero==1?0.0:vf_real((p+"K").c_str(),-9,9); if(zero==3)K=0.0; else e.d("K",K); double k=K/1e3,c=cos(k*L),s=sin(k*L),sk=k!=0?s/k:L; double F[2][2]={{c,sk},{-k*s,c}}; for(int a=0;a<2;a++)for(int b=0;b<2;b++){ X.a[a][b]=c*F[a][b]; X.a[2+a][2+b]=c*F[a][b]; X.a[a][2+b]=s*F[a][b]; X.a[2+a][b]=-s*F[a][b]; } }
    if(kind==4){ double phi=vf_real((p+"phi").c_str(),0.1,1.5); if(zero==2){ X=M7(); L=len=0.5; e.d("L",L); L=500; } e.d("phi",phi); double h=phi/L,K=0; if(zero==1)K=vf_real((p+"K").c_str(),0.1,5)/1e6; if(zero==3){ double kx=vf_real((p+"kx").c_str(),-5,-0.1)/1e6; K=kx-h*h; } if(zero==1||zero==3)e.d("K",K*1e6); plane(X,K+h*h,L,0); plane(X,-K,L,2); }
    if(kind==5){ int n=zero==0?36:zero==1?8:zero==2?0:31; std::vector<double> v(n); for(int i=0;i<n;i++){ v[i]=i<6||zero==1?vf_real((p+std::to_string(i)).c_str(),-2,2):0.01*(i%9)-0.02; X.a[i/N][i%N]=v[i]; } e.v("transfer",v); }
    return e; }
extern "C" void vf_main(){
    registerLinear(); 
    if(vf_choice("bad",2)){ int w=vf_choice("what",5); const char*sim=vf_choice("sim",2)?"Vector":"TransferMatrix"; bool mat=sim[0]=='T'; bool thrown=false; Lat l(sim); El e("x",w==0?"generic":w==1?"sbend":w==3?"nosuch":"drift"); if(w==0)e.v("transfer",std::vector<double>(37,1.0)); if(w==4)e.d("L",0.1); l<<e; 
        if(w==2){ Lat l2(sim); El d("x","drift"); d.d("L",0.1); l2<<d; Config c=l2.conf(); Machine M(c); Config sc; sc.set<std::vector<double> >("initial",std::vector<double>(mat?37:7,1.0)); try{ std::unique_ptr<StateBase> S(M.allocState(sc)); }catch(std::exception&){ thrown=true; } vf_assert(thrown,"oversized initial state is refused"); }
        else { try{ Machine M(l.conf()); }catch(std::exception&){ thrown=true; } vf_assert(thrown==(w!=4),"invalid element is refused"); } vf_cover("refused"); vf_done(); }
    int k1=vf_choice("k1",6),z1=vf_choice("z1",4),k2=z1==0?vf_choice("k2",6):1,src=vf_choice("source",2); double L1,L2; M7 A,B; El e1=mk(k1,"p",z1,A,L1),e2=mk(k2,"q",0,B,L2); M7 T=mul(B,A);
    int n=vf_choice("len",3); int nv=n==0?6:n==1?3:0, nm_=n==0?36:n==1?9:0; if(n&&(k1||k2!=1))vf_done(); // initial values given completely, in part, or not at all
    std::vector<double> iv(nv),im(nm_); for(int i=0;i<nv;i++)iv[i]=vf_real(nm("v",i).c_str(),-5,5); for(int i=0;i<nm_;i++)im[i]=i<14?vf_real(nm("m",i).c_str(),-5,5):0.1*(i%5);
    Lat l1("Vector"),l2("TransferMatrix"); Config c1,c2; c1.set<std::vector<double> >("initial",iv); if(n<2)c2.set<std::vector<double> >("initial",im);
    if(src){ El s1("S","source"),s2("S","source"); s1.v("initial",iv); if(n<2)s2.v("initial",im); l1<<s1; l2<<s2; c1=Config(); c2=Config(); }
    l1<<e1<<e2; l2<<e1<<e2; Machine V(l1.conf()),M(l2.conf()); std::unique_ptr<StateBase> s(V.allocState(c1)),m(M.allocState(c2)); 
    V.propagate(s.get()); M.propagate(m.get()); VectorState*S=dynamic_cast<VectorState*>(s.get()); MatrixState*Q=dynamic_cast<MatrixState*>(m.get());
    M7 I; for(int i=0;i<nm_;i++)I.a[i/N][i%N]=im[i]; double v0[N]={0}; for(int i=0;i<nv;i++)v0[i]=iv[i]; M7 X=mul(T,I);
    for(int i=0;i<N;i++){ double t=0; for(int j=0;j<N;j++)t+=T.a[i][j]*v0[j]; vf_eq(S->state(i),t,VF_TOL,"vector"); for(int j=0;j<N;j++)vf_eq(Q->state(i,j),X.a[i][j],VF_TOL,"matrix"); }
    vf_eq(S->pos,L1+L2,VF_TOL,"position"); vf_eq(Q->pos,L1+L2,VF_TOL,"position");
    vf_cover("end"); if(src)vf_cover("source"); }
