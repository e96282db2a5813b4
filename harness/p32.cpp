// P32: the four built-in cavity types, on small field and element tables
#include "mom.h"
#include "bi_tab.h"
static const double c0=2.99792458e8,mu0=4e0*M_PI*1e-7,au=931.49432;
static const double Z[4]={-60,-20,20,60},E[4]={-300000,-2000000,1100000,250000};
static const double MZ[4]={0,2,4,6},MF[7][4]={{-3100,-2900,-1200,-100},{10,40,900,1500},{11,-17,-23,-9},{74,69,-30,-60},{7,14,-22,-19},{16,31,12,-14},{-5.5,-9,8,21}}; // EFocus1 EFocus2 EDipole EQuad HMono HDipole HQuad
static double poly(double x,const double*a,int n=10){ double f=a[0],p=x; for(int k=1;k<n;k++){ if(a[k]!=0)f=f+a[k]*std::pow(x,k); p=p*x; } return f; }
static void gain(Particle&p,double f,double scl,double fy0,double&fy1){ double W=p.IonEk+p.IonEs,g=W/p.IonEs,b=std::sqrt(1-1/(g*g)),fy=fy0,k=2*M_PI*f/(b*c0*1e3); for(int i=0;i<3;i++){ double dz=Z[i+1]-Z[i],nx=fy+k*dz; W=W+p.IonZ*scl*(E[i]+E[i+1])/2*std::cos((fy+nx)/2)*dz/1e3; g=W/p.IonEs; b=std::sqrt(1-1/(g*g)); k=2*M_PI/(b*(c0/f*1e3)); fy=nx; } p.IonEk=W-p.IonEs; fy1=fy; }
struct TF { double c,T,Tp,S,Sp,V; };
// transit time factors by integration over n points
static TF integ(const double*z,const double*F,int n,double k){ double a=0,m=0,dz=(z[n-1]-z[0])/(n-1); TF r={0,0,0,0,0,0}; for(int i=0;i+1<n;i++){ double w=(std::fabs(F[i])+std::fabs(F[i+1]))/2; a+=w*dz; m+=((z[i]-z[0])+(z[i+1]-z[0]))/2*(std::fabs(F[i])+std::fabs(F[i+1]))/2*dz; } r.c=m/a;
    for(int i=0;i+1<n;i++){ double q=((z[i]-z[0]-r.c)+(z[i+1]-z[0]-r.c)),w=(F[i]+F[i+1])/2; r.T+=w*std::cos(k*q/2)*dz; r.S+=w*std::sin(k*q/2)*dz; r.Tp-=(q/2)*(F[i]+F[i+1])/2*std::sin(k*q/2)*dz; r.Sp+=q/2*(F[i]+F[i+1])/2*std::cos(k*q/2)*dz; } r.T/=a; r.S/=a; r.Tp/=a; r.Sp/=a; r.V=a/1e6/1e3; return r; }
static TF gap(int t,int g,double b,double k,double scl,bool force){ static const double lo[4]={.025,.05,.15,.3},hi[4]={.08,.25,.4,.6}; TF r; double s=g==1?1:-1;
    if(force||b<lo[t]||b>hi[t]){ r=integ(Z,E,2,k); r.V*=scl; if(g==2){ r.c=Z[3]-r.c; r.T=-r.T; r.Tp=-r.Tp; } return r; }
    r.S=0; switch(t){
    case 0: { static const double T[]={0.9232,-123.2,3570,-5.476e4,4.316e5,-1.377e6},P[]={1.699,924.7,-4.062e4,7.528e5,-6.631e6,2.277e7},Q[]={-1.571,25.59,806.6,-2.98e4,3.385e5,-1.335e6}; r.c=s*0.0006384*std::pow(b,-1.884)+(g==1?86.69:33.31); r.T=s*poly(b,T,6); r.Tp=s*poly(b,P,6); r.Sp=poly(b,Q,6); r.V=.492385*scl; break; }
    case 1: { static const double P[]={24.44,-334,2468,-1.017e4,2.195e4,-1.928e4}; r.c=s*0.0002838*std::pow(b,-2.13)+(g==1?76.5:73.5); r.T=s*(0.0009467*std::pow(b,-1.855)-1.002); r.Tp=s*poly(b,P,6); r.Sp=-0.0009751*std::pow(b,-1.898)+0.001568; r.V=.9838574*scl; break; }
    case 2: { static const double P[]={-11.25,534.7,-3917,1.313e4,-2.147e4,1.389e4},Q[]={-0.8283,-4.409,78.77,-343.9,645.1,-454.4}; r.c=s*0.01163*std::pow(b,-2.001)+(g==1?91.77:58.23); r.T=s*(0.02166*std::pow(b,-1.618)-1.022); r.Tp=s*poly(b,P,6); r.Sp=poly(b,Q,6); r.V=1.242518*scl; break; }
    default: { static const double P[]={-3.612,422.8,-1973,4081,-4109,1641}; r.c=s*0.01219*std::pow(b,-2.348)+(g==1?137.8:112.2); r.T=s*(0.04856*std::pow(b,-1.68)-1.018); r.Tp=s*poly(b,P,6); r.Sp=-0.03969*std::pow(b,-1.775)+0.009034; r.V=2.12878493*scl; break; } }
    return r; }
static void mlp(int t,int p,double k,bool force,double&T,double&S){ static const double lo[4]={.025,.006,.01687155,.0112477},hi[4]={.055,.035,.0449908,.0224954}; if(force||k<lo[t]||k>hi[t]){ TF r=integ(MZ,MF[p],4,k); T=r.T; S=r.S; } else { T=poly(k,MLP[p][t][0]); S=poly(k,MLP[p][t][1]); } }
extern "C" void vf_main(){ regMoment(); static const char*PO[]={"EFocus1","EFocus2","EDipole","EQuad","HMono","HDipole","HQuad"}; static const char*TY[]={"0.041QWR","0.085QWR","0.29HWR","0.53HWR"}; static const double V[7][2]={{.109,.1},{.098,.11},{.0025,.002},{.014,.013},{1.9e-5,1.8e-5},{1.7e-4,1.5e-4},{1.6e-5,1.7e-5}};
    int t=vf_choice("cavity",4),po=vf_choice("pole",7); if(t>=2&&(po==2||po==5))vf_done(); int mode=vf_choice("factors",3),var=vf_choice("vary",5),lev=3,sync; if(var==3){ lev=vf_choice("level",4); sync=vf_choice("sync",2); } else { if(t==0&&mode==0&&(!vf_tier()||var!=1))vf_done(); if(var==4&&mode!=1)vf_done(); if(vf_tier())sync=vf_choice("sync",2); else sync=(po+mode)%2; }
    static const double EK[4]={.95e6,6.8e6,41e6,112e6},EO[4]={8e6,.8e6,4e6,20e6}; double f=t<2?80.5e6:322e6,phi=-32,scl=.64; bool force=mode==1; El e("c","rfcavity"); e.s("cavtype",TY[t]).s("Eng_Data_Dir",(std::string(VF_DATA)+"/bi/"+PO[po]).c_str()).d("L",.12).d("f",f); if(lev<3)e.d("MpoleLevel",lev); else lev=2; if(force)e.d("forcettfcalc",1);
    double Es=ES,zr=33./238,z=34./238,Er=(mode==2?EO:EK)[t],Ek=Er*1.02,pr=.3,p=.25; if(var==0||var==4){ scl=vf_real("scl",0,1); phi=vf_real("phi",-180,180); } if(var==1||var==4){ pr=vf_real("pr",-10,10); p=vf_real("p",-10,10); } if(var==2||var==4){ zr=vf_real("Zr",.1,.3); z=vf_real("Z",.1,.3); } if(var==4){ Er=vf_real("Er",EK[t]*.7,EK[t]*1.5); Ek=vf_real("Ek",EK[t]*.7,EK[t]*1.5); }
    e.d("scl_fac",scl).d("phi",phi); if(!sync)e.d("syncflag",0);
    Lat l; l<<e; Machine M(l.conf()); std::unique_ptr<MomentState> S(mkState(M,2)); S->ref.IonEk=Er; S->ref.phis=pr; S->ref.IonZ=zr; S->ref.SampleFreq=f; S->real[0].SampleFreq=f; S->real[0].IonEk=Ek; S->real[0].phis=p; S->real[0].IonZ=z; S->real[1]=S->ref; S->real[1].IonQ=50; S->recalc();
    Particle R=S->ref,P=S->real[0]; for(int i=0;i<4;i++)S->moment0[0](i)=vf_real(nm("m",0,i).c_str(),-5,5); M.propagate(S.get());
    double cf=phi*M_PI/180; if(sync){ static const double A[4]={4.394,5.428,22.35,41.43},B[4]={-.4965,-.5008,-.5348,-.5775},C[4]={-4.731,1.6,2.026,2.59839}; cf=cf-(A[t]*std::pow(Er/1e6,B[t])+C[t])-pr; }
    double o,i0=pr+cf; gain(R,f,scl,i0,o); R.phis=pr+(o-i0); vf_eq(S->ref.IonEk,R.IonEk,VF_TOL,"energy of the reference"); vf_eq(S->ref.phis,R.phis,VF_TOL,"phase of the reference"); double i1=p+cf; gain(P,f,scl,i1,o); P.phis=p+(o-i1); vf_eq(S->real[0].IonEk,P.IonEk,VF_TOL,"energy of a charge state"); vf_eq(S->real[0].phis,P.phis,VF_TOL,"phase of a charge state"); vf_eq(S->real[1].IonEk,R.IonEk,VF_TOL,"a charge state like the reference goes with it");
    vf_eq(S->moment0[0](4),P.phis-R.phis,VF_TOL,"centroid phase is the charge state's"); vf_eq(S->moment0[0](5),(P.IonEk-R.IonEk)/1e6,VF_TOL,"centroid energy is the charge state's"); vf_eq(S->pos,.12,VF_TOL,"position");
    // speeds before, between and after the gaps
    double la=c0/f*1e3,dis=60,W[3],g[3],b[3],k[3],fy[2]; TF G[2]; W[0]=Ek+Es; fy[0]=i1; for(int i=0;i<3;i++){ g[i]=W[i]/Es; b[i]=std::sqrt(1-1/(g[i]*g[i])); k[i]=2*M_PI/(b[i]*la); if(i==2)break; G[i]=gap(t,i+1,b[i],k[i],scl,force); double a=fy[i]+k[i]*G[i].c; W[i+1]=W[i]+z*G[i].V*G[i].T*std::cos(a)*1e6-z*G[i].V*G[i].S*std::sin(a)*1e6;
        if(i==0){ double g1=W[1]/Es,b1=std::sqrt(1-1/(g1*g1)),k1=2*M_PI/(b1*la); fy[1]=fy[0]+k[0]*G[0].c+k1*(dis-G[0].c)+z*G[0].V*k[0]*(G[0].Tp*std::sin(a)+G[0].Sp*std::cos(a))/(2*(W[0]-Es)/1e6); } }
    Mat Q=ident(),T=ident(); auto ld=[&](double L,int i){ Mat D=ident(); double bg=b[i]*g[i]; D(4,5)=-2*M_PI/la*(1/(bg*bg*bg)*1e6/Es*L); Q=mmul(D,Q); }; auto lk=[&](int i,double ph){ Mat D=ident(); D(5,4)=-z*G[i].V*G[i].T*std::sin(ph)-z*G[i].V*G[i].S*std::cos(ph); Q=mmul(D,Q); };
    double e0=G[0].c-dis,e1=G[1].c,L1=dis+e0; ld(L1,0); lk(0,fy[0]+(k[0]+k[1])/2*L1); ld(e1-e0,1); lk(1,fy[1]+(k[1]+k[2])/2*e1); ld(dis-e1,2);
    double ph=i1,kk=k[0]; auto drift=[&](double L){ Mat D=ident(); D(0,1)=D(2,3)=L; ph=ph+kk*L; T=mmul(D,T); }; auto acc=[&](int i){ Mat D=ident(); D(1,1)=D(3,3)=b[i]*g[i]/(b[i+1]*g[i+1]); kk=k[i+1]; T=mmul(D,T); };
    auto pole=[&](int h){ Mat D=ident(); int i=h?2:0; double K=(k[h]+k[h+1])/2,TT,SS,B=b[i],GG=g[i],Rm=t<2?17:20,v=V[po][h]*scl; if(po==6){ B=(b[h]+b[h+1])/2; GG=(g[h]+g[h+1])/2; } bool on=po<2||lev>=(po==2||po==5?1:2); if(!on)return; int q=po<2&&!h?1-po:po; mlp(t,q,K,force,TT,SS); if(!h){ if(po<4)SS=-SS; else TT=-TT; }
        if(po<4){ double x=z*v/(B*B)/GG/au*(TT*std::cos(ph)-SS*std::sin(ph)); if(po==2)D(3,6)=x; else { D(1,0)=x/Rm; D(3,2)=po==3?-x/Rm:x/Rm; } } else { double x=-mu0*c0*z*v/B/GG/au*(TT*std::cos(ph+M_PI/2)-SS*std::sin(ph+M_PI/2)); if(po==5)D(3,6)=x; else { D(1,0)=x/Rm; D(3,2)=po==6?-x/Rm:x/Rm; } } T=mmul(D,T); };
    drift(18); pole(0); drift(15); acc(0); drift(55); acc(1); drift(14); pole(1); drift(18);
    for(int i=4;i<6;i++)for(int j=4;j<6;j++)T(i,j)=Q(i,j);
    const Mat&X=S->transmat[0]; for(int i=0;i<7;i++)for(int j=0;j<7;j++)if(!((i==4||i==5)&&j==6))vf_eq(X(i,j),T(i,j),1e-8,"map of the cavity");
    vf_cover("end"); if(sync)vf_cover("synchronous"); }
