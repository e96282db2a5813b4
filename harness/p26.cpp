// P26: bending magnets, electrostatic bends and the thick sextupole solve the linear equations of motion
#include "mom.h"
static double sq(double x){ return x*x; }
// transport of u''+k u=0 over L; c,s and the integrals needed for dispersion: dk=(1-c)/k, lk=(L-s)/k
static void cs(double k,double L,double&c,double&s,double&dk,double&lk){
    if(k>0){ double q=sqrt(k); c=cos(q*L); s=sin(q*L)/q; dk=(1-c)/k; lk=(L-s)/k; }
    else if(k<0){ double q=sqrt(-k); c=cosh(q*L); s=sinh(q*L)/q; dk=(1-c)/k; lk=(L-s)/k; }
    else { c=1; s=L; dk=L*L/2; lk=L*L*L/6; } }
extern "C" void vf_main(){
    regMoment(); int kind=vf_choice("kind",3), n=1+vf_choice("n",2); El e("b",kind==0?"sbend":kind==1?"edipole":"sextupole");
    int gr=0,fit=1,edge=0,zero=0,ver=0,sph=0,fr=0,on=0,steps=1,kick=0; double L,phi=0,K=0,bg=0.15,fx=0,fy=0,kap=0,B3=0;
    if(kind==0){ gr=vf_choice("grad",5); fit=vf_choice("fit",3); edge=vf_choice("edge",2); zero=vf_choice("zero",3); }
    if(kind==1){ fit=vf_choice("fit",3); ver=vf_choice("ver",2); sph=vf_choice("spher",2); fr=vf_choice("fringe",2); zero=vf_choice("zero",2); }
    if(kind==2){ on=vf_choice("offset",5); kick=vf_choice("kick",2); steps=1; zero=vf_choice("zero",3); }
    if(kind<2){ L=zero==1?0.0:vf_real("L",0.1,3); phi=vf_choice("side",2)?vf_real("phi",-60,-2):vf_real("phi",2,60); }else L=vf_real("L",0.01,1);
    if(kind==0){ if(gr==3){ L=1; phi=phi>0?57.29577951308232:-57.29577951308232; K=-1; } if(zero==2&&gr!=3)phi=0; if(gr==1)K=vf_real("K",0.01,5);
        if(gr==2||gr==4){ double kx=gr==2?vf_real("kx",-5,-0.01):vf_real("kx",0.01,5), h=zero==1?0.0:phi*M_PI/180/L; K=kx-h*h; } // the gradient that leaves this net horizontal focusing
        e.d("L",L).d("phi",phi).d("phi1",edge?7.0:0.0).d("phi2",edge?-5.0:0.0); if(gr)e.d("K",K); if(fit==0)e.s("HdipoleFitMode","0").d("bg",bg); if(fit==1)e.d("HdipoleFitMode",1.0); }
    if(kind==1){ if(fr){ fx=0.3; fy=-0.2; kap=0.01; e.d("fringe_x",fx).d("fringe_y",fy).d("asym_fac",kap); } e.d("L",L).d("phi",phi).d("ver",ver).d("spher",sph); if(fit==0)e.d("HdipoleFitMode",0.0).d("beta",0.12); if(fit==1)e.s("HdipoleFitMode","1").d("beta",0.12); }
    if(kind==2){ B3=zero==1?0.0:zero==2?vf_real("B3",-40,-0.1):vf_real("B3",0.1,40); e.d("L",L).d("B3",B3).d("thinlens",0.0).d("dstkick",kick).d("step",steps); }
    Lat l; l<<e; Machine M(l.conf()); std::unique_ptr<MomentState> S(mkState(M,n)); S->ref.IonZ=0.3; if(kind==2)S->ref.IonEk=5e6; else S->ref.IonEk=vf_real("Ekr",1e6,2e8);
    for(int k=0;k<n;k++){ S->real[k].IonZ=k?0.31:vf_real("Z",0.1,0.5); S->real[k].IonEk=kind==1?vf_real(nm("Ek",k).c_str(),1e6,2e8):5e6+k*1e5; } S->recalc();
    if(kind==2)for(int k=0;k<n;k++){ double x=vf_real(nm("x",k).c_str(),0.1,5),y=vf_real(nm("y",k).c_str(),0.1,5); S->moment0[k](0)=on==2?0.0:on==3?-x:x; S->moment0[k](2)=on==0?x:on==1||on==3?-x:y; S->moment1[k](0,2)=S->moment1[k](2,0)=vf_real(nm("c",k).c_str(),-.05,.05); }
    std::unique_ptr<MomentState> I(dynamic_cast<MomentState*>(S->clone()));
    M.propagate(S.get());
    const Particle&R=I->ref; double lam=2.99792458e8/R.SampleFreq*1e3, gr_=(R.IonEs+R.IonEk)/R.IonEs, br=sqrt(1-1/sq(gr_)); double Lm=L*1e3;
    for(int k=0;k<n;k++){ const Particle&P=I->real[k]; Mat X=ident(); double g=(P.IonEs+P.IonEk)/P.IonEs, b=sqrt(1-1/sq(g)); const char*id="map";
        if(kind==0){ if(L!=0){ double ph=phi*M_PI/180,h=ph/Lm,q=(P.IonZ-R.IonZ)/R.IonZ, db=br,dg=gr_,dd=-q; if(fit==0){ dg=sqrt(bg*bg+1); db=sqrt(1-1/sq(dg)); dd=(gr_-dg)/(db*db*dg)-q; }
            double kk=K/1e6,c,s,dk,lk,cy,sy,t1,t2; cs(kk+h*h,Lm,c,s,dk,lk); cs(-kk,Lm,cy,sy,t1,t2); double p=1/(db*db*dg*R.IonEs/1e6), w=2*M_PI/(db*lam);
            X(0,0)=X(1,1)=c; X(0,1)=s; X(1,0)=-(kk+h*h)*s; X(2,2)=X(3,3)=cy; X(2,3)=sy; X(3,2)=kk*sy;
            X(0,5)=h*dk*p; X(1,5)=h*s*p; X(4,0)=h*s*w; X(4,1)=h*dk*w; X(4,5)=(h*h*lk-Lm/sq(gr_))*w*p; X(0,6)=h*dk*dd; X(1,6)=h*s*dd; X(4,6)=(h*h*lk*dd-Lm/sq(gr_)*(dd+q))*w;
            Mat E1=ident(),E2=ident(); if(edge){ double a=tan(7.0*M_PI/180)*h,z=tan(-5.0*M_PI/180)*h; E1(1,0)=a; E1(3,2)=-a; E2(1,0)=z; E2(3,2)=-z; } X=mmul(E2,mmul(X,E1)); } id=gr==3?"bend without net horizontal focusing":gr==2?"defocusing gradient bend":gr==4?"gradient bend":"bend"; }
        if(kind==1){ if(L!=0){ double db=fit==0?0.12:br, dg=1/sqrt(1-db*db), eta=(dg-1)/2, er=(b*b/P.IonZ)/(db*db/R.IonZ), Le=er*Lm, h=phi*M_PI/180/Le, kx=(1-sph+sq(1+2*eta))*h*h, ky=sph*h*h, c,s,dk,lk,cy,sy,t1,t2; cs(kx,Le,c,s,dk,lk); cs(ky,Le,cy,sy,t1,t2);
            double nk=(sq(1+2*eta)+1)/(2*(1+eta)*(1+2*eta)), nt=1+1/sq(1+2*eta), ct=-g/(1+g), nz=2*eta/(2*(1+eta)*(1+2*eta)), ek=(g-1)*R.IonEs/1e6, w=2*M_PI/(b*lam), dK=er-1-(P.IonEk-R.IonEk)/P.IonEk, dZ=R.IonZ/P.IonZ-1;
            X(0,0)=X(1,1)=c; X(0,1)=s; X(1,0)=-kx*s; X(2,2)=X(3,3)=cy; X(2,3)=sy; X(3,2)=-ky*sy; X(0,5)=h*dk*nk/ek; X(1,5)=h*s*nk/ek; X(4,0)=-h*s*nt*ct*w; X(4,1)=-h*dk*nt*ct*w; X(4,5)=-(-Le/(2*(1+eta)*(1+2*eta))+h*h*lk*nk*nt)*ct*w/ek; X(0,6)=h*dk*(nk*dK+nz*dZ); X(1,6)=h*s*(nk*dK+nz*dZ);
            Mat E=ident(); E(1,0)=fx/1e3; E(1,1)=sqrt(1+kap); E(3,2)=fy/1e3; E(5,5)=1+kap; X=mmul(E,mmul(X,E)); if(ver){ Mat Q=ident(); for(int i=0;i<4;i++)Q(i,i)=0; Q(0,2)=Q(1,3)=-1; Q(2,0)=Q(3,1)=1; X=mmul(Q,mmul(X,mtrans(Q))); } } id="electrostatic bend"; }
        if(kind==2){ double W=P.IonEs+P.IonEk, rig=b*W/(2.99792458e8*P.IonZ), k3=B3/rig/1e9, x=I->moment0[k](0),y=I->moment0[k](2); bool diag=on<=1||on==3; double r=sqrt(x*x+y*y); // |offset|
            if(k3==0){ X(0,1)=X(2,3)=Lm; } else { double ak=k3>0?k3:-k3,sg=k3>0?1:-1, q=sqrt(ak*r), C=cos(q*Lm),Sn=sin(q*Lm)/q,Ch=cosh(q*Lm),Sh=sinh(q*Lm)/q, a=sg*x/r,bb=-sg*y/r; // offset matrix/|offset| = [[a,bb],[bb,-a]]: eigenvalue +1 oscillates, -1 grows
              double Pp[2][2]={{(1+a)/2,bb/2},{bb/2,(1-a)/2}},Pm[2][2]={{(1-a)/2,-bb/2},{-bb/2,(1+a)/2}};
              for(int i=0;i<2;i++)for(int j=0;j<2;j++){ X(2*i,2*j)=X(2*i+1,2*j+1)=Pp[i][j]*C+Pm[i][j]*Ch; X(2*i,2*j+1)=Pp[i][j]*Sn+Pm[i][j]*Sh; X(2*i+1,2*j)=-ak*r*Pp[i][j]*Sn+ak*r*Pm[i][j]*Sh; } }
            X(4,5)=-2*M_PI/(lam*(P.IonEs/1e6)*b*g*b*g*b*g)*Lm; if(kick){ X(1,6)=-k3*Lm*(I->moment1[k](0,0)-I->moment1[k](2,2)); X(3,6)=2*k3*Lm*I->moment1[k](0,2); } id=k3==0?"sextupole without field":diag?"thick sextupole, offset with |x|=|y|":"thick sextupole, offset with |x| != |y|"; }
        eqMat(S->transmat[k],X,VF_TOL,id); }
    vf_eq(S->pos,L,VF_TOL,"position"); vf_cover("end"); if(kind==1)vf_cover("electrostatic"); if(kind==2)vf_cover("sextupole"); }
