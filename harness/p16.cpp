// P16: the magnetic and electrostatic elements apply the textbook linear map
#include "mom.h"
static const double C0_=2.99792458e8;
struct Q { double L,lam,Es,beta,gamma,bg,Brho; };
static void long_(Mat&m,const Q&q,double L){ m(4,5)=-2.0*M_PI/(q.lam*(q.Es/1e6)*q.bg*q.bg*q.bg)*L; }
static void quad(Mat&m,double k,double L,int o){ // k>0 focuses the plane starting at o
    if(k>0){ double s=sqrt(k); m(o,o)=m(o+1,o+1)=cos(s*L); m(o,o+1)=sin(s*L)/s; m(o+1,o)=-s*sin(s*L); }
    else if(k<0){ double s=sqrt(-k); m(o,o)=m(o+1,o+1)=cosh(s*L); m(o,o+1)=sinh(s*L)/s; m(o+1,o)=s*sinh(s*L); }
    else { m(o,o)=m(o+1,o+1)=1; m(o,o+1)=L; m(o+1,o)=0; } }
static void sol(Mat&m,double k,double L){ double c=cos(k*L),s=sin(k*L),sk=k!=0?s/k:L; // rotation by kL times focusing in the rotating frame
    double F[2][2]={{c,sk},{-k*s,c}}; for(int a=0;a<2;a++)for(int b=0;b<2;b++){ m(a,b)=c*F[a][b]; m(2+a,2+b)=c*F[a][b]; m(a,2+b)=s*F[a][b]; m(2+a,b)=-s*F[a][b]; } }
extern "C" void vf_main(){
    regMoment(); int kind=vf_choice("kind",9), zero=vf_choice("zero",3); // zero: 0 general, 1 no field, 2 no length
    static const int K[]={K_DRIFT,K_QUAD,K_SOL,K_EQUAD,K_ORBTRIM,K_SEXT,K_QCURVE,K_SCURVE,K_ECURVE}; int kd=K[kind];
    int realpara=0,rot=0,n=1; std::vector<double> cv[2],sc; double L=0,B=0,R=0.075,tx=0,ty=0; El e("x",kindType(kd));
    if(kd==K_ORBTRIM){ realpara=vf_choice("realpara",2); rot=vf_choice("rot",3); }
    int ncurve=0,npt=0,use=0; if(kind>=6){ ncurve=1+vf_choice("nc",2); npt=1+vf_choice("np",2); use=vf_choice("use",2); } int zs=ncurve==2&&!use&&!zero?vf_choice("zscale",2):0;
    n=kind<6?1+vf_choice("n",2):1; int kick=kd==K_SEXT?vf_choice("kick",2):0,steps=kd==K_SEXT?1+vf_choice("steps",2):1;
    if(kd!=K_ORBTRIM){ L=zero==2?0.0:vf_real("L",0.01,3.0); e.d("L",L); }
    double Bm=kd==K_EQUAD?2e4:kd==K_SOL?9:40; if(kd!=K_DRIFT&&kind<6&&kd!=K_ORBTRIM)B=zero==1?0.0:vf_real("B",-Bm,Bm);
    switch(kd){ case K_QUAD: e.d("B2",B); break; case K_SOL: e.d("B",B); break; case K_EQUAD: if(zero!=1)R=vf_real("R",0.02,0.2); e.d("V",B).d("radius",R); break; case K_SEXT: e.d("B3",B).d("thinlens",1).d("dstkick",kick).d("step",steps); break;
    case K_ORBTRIM: tx=zero==1?0.0:vf_real("tx",-0.01,0.01); ty=zero==1?0.0:vf_real("ty",-0.01,0.01); if(realpara)e.d("realpara",1.0).d("tm_xkick",tx).d("tm_ykick",ty); else e.d("theta_x",tx).d("theta_y",ty); if(rot)e.d("xyrotate",rot==1?30.0:-40.0); break;
    case K_QCURVE: case K_SCURVE: case K_ECURVE: e.d("ncurve",ncurve); for(int i=0;i<ncurve;i++){ cv[i].resize(npt+use); for(int j=0;j<npt+use;j++)cv[i][j]=zero==1?0.0:(j%2?-0.7:1.3)*(i+1); sc.push_back(zero==1?0.0:i&&zs?0.0:vf_real(nm("s",i).c_str(),i?0.1:-4.0,4)); e.v(nm("curve",i).c_str(),cv[i]).d(nm("scl_fac",i).c_str(),sc[i]); } if(use)e.v("use_range",std::vector<double>{1.0,double(npt+1)}); break; default: break; }
    Lat l; l<<e; Machine M(l.conf()); std::unique_ptr<MomentState> S(mkState(M,n)); double z0=vf_real("Zr",0.1,0.5); S->ref.IonZ=z0; S->ref.IonEk=vf_real("Ekr",2e5,2e8); for(int k=0;k<n;k++){ S->real[k].IonZ=vf_real(nm("Z",k).c_str(),0.1,0.5); S->real[k].IonEk=vf_real(nm("Ek",k).c_str(),2e5,2e8); } S->recalc();
    std::vector<Vec> in; std::vector<Mat> in1; if(kd==K_SEXT){ for(int k=0;k<n;k++)for(int i=0;i<4;i++)S->moment0[k](i)=vf_real(nm("m",k,i).c_str(),-5,5); for(int k=0;k<n;k++)S->moment1[k](0,2)=S->moment1[k](2,0)=vf_real(nm("c",k).c_str(),-.1,.1); } in=S->moment0; in1=S->moment1;
    std::vector<Particle> P(S->real); Particle ref(S->ref);
    M.propagate(S.get());
    for(int k=0;k<n;k++){ Mat X=ident(); Q q; q.L=L*1e3; q.Es=P[k].IonEs; q.gamma=(P[k].IonEs+P[k].IonEk)/P[k].IonEs; q.beta=sqrt(1-1/(q.gamma*q.gamma)); q.bg=q.beta*q.gamma; q.lam=C0_/P[k].SampleFreq*1e3; q.Brho=q.beta*(P[k].IonEs+P[k].IonEk)/(C0_*P[k].IonZ);
        switch(kd){
        case K_DRIFT: X(0,1)=X(2,3)=q.L; long_(X,q,q.L); break;
        case K_QUAD: { double kk=B/q.Brho/1e6; quad(X,kk,q.L,0); quad(X,-kk,q.L,2); long_(X,q,q.L); break; }
        case K_EQUAD: { double kk=2*B/(C0_*q.beta*R*R)/q.Brho/1e6; quad(X,kk,q.L,0); quad(X,-kk,q.L,2); long_(X,q,q.L); break; }
        case K_SOL: sol(X,B/(2*q.Brho)/1e3,q.L); long_(X,q,q.L); break;
        case K_ORBTRIM: { double ax=tx,ay=ty; if(realpara){ double W=ref.IonEs+ref.IonEk; double f=z0*C0_/sqrt(W*W-ref.IonEs*ref.IonEs); ax=tx*f; ay=ty*f; } ax*=P[k].IonZ/z0; ay*=P[k].IonZ/z0;
            if(rot){ double ra=(rot==1?30.0:-40.0)*M_PI/180.0,c=cos(ra),s=sin(ra); for(int i=0;i<2;i++){ X(i,i)=X(2+i,2+i)=c; X(i,2+i)=s; X(2+i,i)=-s; } } X(1,6)=ax; X(3,6)=ay; break; }
        case K_SEXT: { // kick in the middle of each of the equal steps
            double k3=B/q.Brho/1e9,dl=q.L/steps; Vec m0=in[k]; Mat m1=in1[k]; for(int s=0;s<steps;s++){ Mat D=ident(),Kk=ident(); D(0,1)=D(2,3)=dl/2; Kk(1,0)=-k3*dl*m0(0); Kk(1,2)=k3*dl*m0(2); Kk(3,0)=k3*dl*m0(2); Kk(3,2)=k3*dl*m0(0); Mat T=mmul(D,mmul(Kk,D)); long_(T,q,dl); if(kick){ T(1,6)=-k3*dl*(m1(0,0)-m1(2,2)); T(3,6)=2*k3*dl*m1(0,2); } X=mmul(T,X); m0=mvec(T,m0); if(s+1<steps)m1=mmul(mmul(T,m1),mtrans(T)); } break; }
        default: { double dl=q.L/npt; for(int j=0;j<npt;j++){ double f=0; for(int i=0;i<ncurve;i++)f+=sc[i]*cv[i][j+use]; Mat T=ident(); if(kd==K_QCURVE){ quad(T,f/q.Brho/1e6,dl,0); quad(T,-f/q.Brho/1e6,dl,2); } else if(kd==K_ECURVE){ double kk=2*f/(C0_*q.beta)/q.Brho/1e6; quad(T,kk,dl,0); quad(T,-kk,dl,2); } else sol(T,f/(2*q.Brho)/1e3,dl); long_(T,q,dl); X=mmul(T,X); } } }
        eqMat(S->transmat[k],X,VF_TOL,"map"); }
    vf_eq(S->pos,L,VF_TOL,"position advances by the length"); vf_cover("end"); if(n>1)vf_cover("several"); }
