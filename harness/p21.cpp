// P21: cavities described by a field map and a list of thin multipoles
#include "mom.h"
#include "mix_tab.h"
static const double c0=2.99792458e8,mu0=4e0*M_PI*1e-7,au=931.49432;
static const double Z[3]={-50,0,50},E[3]={0,900000,300000};
static void gain(Particle&p,double f,double scl,double fy0,double&fy1){ double W=p.IonEk+p.IonEs,g=W/p.IonEs,b=std::sqrt(1-1/(g*g)),fy=fy0,k=2*M_PI*f/(b*c0*1e3); for(int i=0;i<2;i++){ double dz=Z[i+1]-Z[i],nx=fy+k*dz; W=W+p.IonZ*scl*(E[i]+E[i+1])/2*std::cos((fy+nx)/2)*dz/1e3; g=W/p.IonEs; b=std::sqrt(1-1/(g*g)); k=2*M_PI/(b*(c0/f*1e3)); fy=nx; } p.IonEk=W-p.IonEs; fy1=fy; }
extern "C" void vf_main(){ regMoment(); static const char*TY[]={"EFocus","EDipole","EQuad","HMono","HDipole","HQuad","Mix"}; static const double V[6]={0.11,0.0025,0.014,1.9e-5,1.7e-4,1.6e-5},V2[6]={0.1,0.002,0.013,1.8e-5,1.5e-4,1.7e-5};
    int t=vf_choice("type",7),lev=vf_choice("level",4),var=vf_choice("vary",6),sync=vf_choice("sync",2),mul=1+vf_choice("mul",2);
    
    if(!vf_tier()&&t==6&&(var<4||(var==5&&(lev!=3||mul!=1||sync))))vf_done();
    double f=80.5e6*mul,phi=-32,scl=.64; El e("c","rfcavity"); e.s("cavtype","Generic").s("Eng_Data_Dir",VF_DATA).s("datafile",(std::string("gs_")+TY[t]+".lat").c_str()).d("L",.1).d("f",f); if(lev<3)e.d("MpoleLevel",lev); else lev=2; if(t==2)e.d("Rm",17);
    double Es=ES,zr=33./238,z=34./238,Er=5e5,Ek=5.2e5,pr=.3,p=.25; if(var==0||var==5){ scl=vf_real("scl",0,2); phi=vf_real("phi",-180,180); } if(var==1||var==5){ Er=vf_real("Er",4e5,5e6); Ek=vf_real("E",4e5,5e6); } if(var==2||var==5){ pr=vf_real("pr",-10,10); p=vf_real("p",-10,10); } if(var==3||var==5){ zr=vf_real("Zr",.1,.3); z=vf_real("Z",.1,.3); }
    int grow=(var==4&&mul==1&&lev==2&&t<2)?vf_choice("growth",2):0; if(grow)e.d("EmitGrowth",1);
    e.d("scl_fac",scl).d("phi",phi); double fs=sync?1.0:0.0; if(!sync)e.d("syncflag",0); else if(t==3&&lev==1){ e.d("syncflag",2); fs=2; }
    Lat l; l<<e; Machine M(l.conf()); std::unique_ptr<MomentState> S(mkState(M,2)); S->ref.IonEk=Er; S->ref.phis=pr; S->ref.IonZ=zr; S->real[0].IonEk=Ek; S->real[0].phis=p; S->real[0].IonZ=z; S->real[1]=S->ref; S->real[1].IonQ=50; S->recalc();
    Particle R=S->ref,P=S->real[0]; for(int i=0;i<4;i++)S->moment0[0](i)=vf_real(nm("m",0,i).c_str(),-5,5); Mat CV(7,7); if(grow){ for(int i=0;i<7;i++)for(int j=0;j<7;j++)S->moment1[0](i,j)=0; S->moment1[0](0,0)=vf_real("c00",.1,9); S->moment1[0](1,1)=vf_real("c11",1e-6,1e-4); S->moment1[0](2,2)=vf_real("c22",.1,9); S->moment1[0](3,3)=vf_real("c33",1e-6,1e-4); S->moment1[0](4,4)=vf_real("c44",1e-4,1e-2); S->moment1[0](5,5)=vf_real("c55",1e-6,1e-4); S->moment1[0](0,1)=S->moment1[0](1,0)=vf_real("c01",-1e-4,1e-4); CV=S->moment1[0]; } Vec m0=S->moment0[0]; Particle P0=P; M.propagate(S.get());
    // driven phase
    double m=f/R.SampleFreq,cf=phi*M_PI/180; if(sync){ double x=Er/1e6; if(t==3&&fs==1){ double n=scl*zr/.15; cf=cf-((2.1*std::pow(x,-.4)+.3*std::log(x)+.2*std::exp(-x)-1.5)+(.4*std::pow(x,.3)-.2*std::log(x)+.1*std::exp(-x)+.05)*n)-pr*m; } else if(t==3)cf=cf-(4.4*std::pow(x,-.5)-4.7)-pr*m; else cf=cf-(4.4*std::pow(x,-.5)-4.7)-pr*m; }
    // reference and charge state
    double o; double i0=m*pr+cf; gain(R,f,scl,i0,o); R.phis=pr+(o-i0)/m; vf_eq(S->ref.IonEk,R.IonEk,VF_TOL,"energy of the reference"); vf_eq(S->ref.phis,R.phis,VF_TOL,"phase of the reference"); double i1=m*p+cf; gain(P,f,scl,i1,o); P.phis=p+(o-i1)/m; vf_eq(S->real[0].IonEk,P.IonEk,VF_TOL,"energy of a charge state"); vf_eq(S->real[0].phis,P.phis,VF_TOL,"phase of a charge state"); vf_eq(S->real[1].IonEk,R.IonEk,VF_TOL,"a charge state like the reference goes with it"); vf_eq(S->real[1].phis,R.phis,VF_TOL,"a charge state like the reference goes with it");
    vf_eq(S->moment0[0](4),P.phis-R.phis,VF_TOL,"centroid phase is the charge state's"); vf_eq(S->moment0[0](5),(P.IonEk-R.IonEk)/1e6,VF_TOL,"centroid energy is the charge state's"); vf_eq(S->pos,.1,VF_TOL,"position");
    // transverse and longitudinal map
    double W=Ek+Es,g=W/Es,b=std::sqrt(1-1/(g*g)),la=c0/f*1e3,k=2*M_PI/(b*la),fy=i1; Mat T=ident(),Q=ident();
    auto drift=[&](double L){ Mat D=ident(); D(0,1)=D(2,3)=L; fy=fy+k*L; T=mmul(D,T); D=ident(); double bg=b*g; D(4,5)=-2*M_PI/la*(1/(bg*bg*bg)*1e6/Es*L); Q=mmul(D,Q); };
    double Rm=t==6?23:17; auto thin=[&](int t,double v,double TT,double SS){ Mat D=ident(); double c=std::cos(fy),s=std::sin(fy),V0=v*scl; double el=z*V0/(b*b)/g/au*(TT*c-SS*s),mg=-mu0*c0*z*V0/b/g/au*(TT*std::cos(fy+M_PI/2)-SS*std::sin(fy+M_PI/2));
        switch(t){ case 0: D(1,0)=el/Rm; D(3,2)=el/Rm; break; case 1: if(lev>=1)D(3,6)=el; break; case 2: if(lev>=2){ D(1,0)=el/Rm; D(3,2)=-el/Rm; } break; case 3: if(lev>=2){ D(1,0)=mg/Rm; D(3,2)=mg/Rm; } break; case 4: if(lev>=1)D(3,6)=mg; break; case 5: if(lev>=2){ D(1,0)=mg/Rm; D(3,2)=-mg/Rm; } break; } T=mmul(D,T); }; auto pole=[&](double v,double t1,double t0,double s1,double s0){ thin(t,v,t1*k+t0,s1*k+s0); };
    auto gap=[&](double vv,double TT,double SS){ double v=vv*scl,c=std::cos(fy),s=std::sin(fy); Mat D=ident(); double W2=W+z*v*1e6*TT*c-z*v*1e6*SS*s,g2=W2/Es,b2=std::sqrt(1-1/(g2*g2)); D(1,1)=D(3,3)=b*g/(b2*g2); T=mmul(D,T); D=ident(); D(5,4)=-z*v*TT*s-z*v*SS*c; Q=mmul(D,Q); W=W2; g=g2; b=b2; k=2*M_PI/(b*la); }; auto fit=[&](const double*a){ double r=0; for(int i=0;i<10;i++){ double q=a[i]; for(int j=i;j<9;j++)q=q*k; r=r+q; } return r; };
    if(t==6)for(const MixEl&m:MIX){ if(m.t==7)drift(m.v); else if(m.t==6)gap(m.v,fit(m.T),fit(m.S)); else thin(m.t,m.v,fit(m.T),fit(m.S)); } else {
    drift(30); pole(V[t],1.5,.9,-2,.15); drift(20); gap(.05,-1.2*k+.8,2.5*k-.1); drift(25); pole(V2[t],.7,-.8,1,.25); drift(25); }
    for(int i=4;i<6;i++)for(int j=4;j<6;j++)T(i,j)=Q(i,j);
    if(mul!=1)for(int i=0;i<7;i++){ T(i,4)*=mul; T(4,i)/=mul; }
    if(var==1)vf_cover("energy");
    const Mat&X=S->transmat[0]; for(int i=0;i<7;i++)for(int j=0;j<7;j++)if(!((i==4||i==5)&&j==6))vf_eq(X(i,j),T(i,j),1e-8,"map of the cavity");
    if(grow){ vf_cover("growth"); Mat K=mmul(mmul(X,CV),mtrans(X)); double dW=P.IonEk-P0.IonEk,gi=(P0.IonEk+Es)/Es,go=(P.IonEk+Es)/Es,bi=std::sqrt(1-1/(gi*gi)),bo=std::sqrt(1-1/(go*go)),ab=(bo+bi)/2,ag=(go+gi)/2,ps=phi*M_PI/180,sp=std::sin(ps),cp=std::cos(ps); double E0=dW/cp/R.IonZ,D=std::sqrt(K(4,4)),kp=-M_PI*R.IonZ*E0/Es/((ab*ag)*(ab*ag))/bo/go/la;
        auto F=[&](double d){ return 15/(d*d)*(3/(d*d)*(std::sin(d)/d-std::cos(d))-std::sin(d)/d); }; double G=.5*(1+(sp*sp-cp*cp)*F(2*D)),h=sp*F(D),u=G-h*h; double x2=kp*kp*u*(CV(0,0)+m0(0)*m0(0)),y2=kp*kp*u*(CV(2,2)+m0(2)*m0(2)),kz=-2*kp*ag*ag,ik=2*M_PI/(ab*la),z2=(kz*D)*(kz*D)*(D*D/(ik*ik))*(cp*cp/8+D*sp/576),lf=1/(ag-1)/Es*1e6;
        double gx=x2+K(1,1),gy=y2+K(3,3),gz=z2+K(5,5)*(lf*lf); const Mat&N=S->moment1[0]; if(gx>0)vf_eq(N(1,1),gx,1e-7,"growth of the horizontal angle"); if(gy>0)vf_eq(N(3,3),gy,1e-7,"growth of the vertical angle"); if(gz>0)vf_eq(N(5,5)*(lf*lf),gz,1e-7,"growth of the energy spread"); static const int keep[]={0,2,4}; for(int a:keep)for(int b:keep)vf_eq(N(a,b),K(a,b),1e-8,"positions do not grow"); if(gx>0){ vf_eq(N(0,1)*N(0,1)*K(1,1),K(0,1)*K(0,1)*gx,1e-7,"correlation is kept"); } }
    vf_cover("end"); if(sync)vf_cover("synchronous"); }
