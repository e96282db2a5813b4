// P17: a misaligned element acts like the aligned one in its own displaced and rotated frame
#include "mom.h"
struct Fr { Mat in,out; };
// frame change about the element's centre: positions (x,y,z) and directions (x',y',1+dp/p), in mm and rad
static Fr frame(const Particle&P,double Es,double L,double dx,double dy,double px,double py,double pz){
    double g=(P.IonEs+P.IonEk)/P.IonEs,b=sqrt(1-1/(g*g)),lam=2.99792458e8/P.SampleFreq*1e3,kz=-(2*M_PI/(b*lam)),kp=b*b*g*Es/1e6; // S = kz*z, PS = kp*(dp/p)
    double cx=cos(px),sx=sin(px),cy=cos(py),sy=-sin(py),cz=cos(pz),sz=sin(pz); // yaw counts the other way round
    double R[3][3]={{cy*cz, sx*sy*cz+cx*sz, -cx*sy*cz+sx*sz},{-cy*sz, -sx*sy*sz+cx*cz, cx*sy*sz+sx*cz},{sy,-sx*cy,cx*cy}}; double h=L*1e3/2,o[3]={dx*1e3,dy*1e3,0};
    Fr f; f.in=ident(); f.out=ident(); static const int q[3]={0,2,4},p[3]={1,3,5}; double sq[3]={1,1,kz},sp[3]={1,1,kp};
    for(int i=0;i<3;i++){ for(int j=0;j<3;j++){ f.in(q[i],q[j])=sq[i]*R[i][j]/sq[j]; f.in(p[i],p[j])=sp[i]*R[i][j]/sp[j]; f.out(q[i],q[j])=sq[i]*R[j][i]/sq[j]; f.out(p[i],p[j])=sp[i]*R[j][i]/sp[j]; }
        double ci=0; for(int j=0;j<3;j++)ci+=R[i][j]*((j==2?-h:0)-o[j]); f.in(q[i],6)=sq[i]*(ci-(i==2?-h:0)); f.in(p[i],6)=sp[i]*(R[i][2]-(i==2?1:0)); // entrance plane lies half the length before the centre
        double co=R[2][i]*h+o[i]; f.out(q[i],6)=sq[i]*(co-(i==2?h:0)); f.out(p[i],6)=sp[i]*(R[2][i]-(i==2?1:0)); }
    return f; }
extern "C" void vf_main(){
    regMoment(); static const int K[]={K_QUAD,K_SOL,K_EQUAD,K_ORBTRIM,K_SBEND,K_EDIPOLE,K_QCURVE,K_SCURVE,K_ECURVE,K_SEXT,K_RF41,K_DRIFT,K_MARKER,K_BPM,K_TMATRIX};
    int kd=K[vf_choice("kind",15)], ang=vf_choice("angle",6), rot=kd==K_ORBTRIM?vf_choice("rot",2):0, n=1+vf_choice("n",2); bool rf=kindRF(kd); if(rf&&(ang==1||ang==2||ang>=4))vf_done();
    if(n==2&&ang>=4)vf_done();
    bool sa=ang>=1&&ang<=3&&n==1&&!rf&&kd!=K_SEXT&&kd<K_MARKER; double dx=sa?(ang==3?0.003:0.0):n==2?vf_real("dx",-.01,-.0001):vf_real("dx",.0001,.01),dy=sa?(ang==2?-0.007:0.0):n==2?vf_real("dy",.0001,.01):vf_real("dy",-.01,-.0001),a[3]={0,0,0}; if(ang>=1&&ang<=3)a[ang-1]=sa?vf_real("a",.001,.1):-0.03; if(ang==4){ a[0]=0.011; a[1]=-0.023; a[2]=0.4; } if(ang==5){ a[0]=-0.3; a[1]=0.2; a[2]=-2.1; }
    El e=mkKind(kd,"x",0,"",0), m=mkKind(kd,"x",0,"",0); if(rot){ e.d("xyrotate",0.0); m.d("xyrotate",n==1?25.0:-25.0); } bool hasL=kd!=K_ORBTRIM&&kd!=K_MARKER&&kd!=K_BPM&&kd!=K_TMATRIX; double L=hasL?e.c.get<double>("L"):0.0;
    m.d("dx",dx).d("dy",dy); if(a[0]!=0)m.d("pitch",a[0]); if(a[1]!=0)m.d("yaw",a[1]); if(a[2]!=0)m.d("roll",a[2]);
    Lat l1,l2; l1<<e; l2<<m; Machine A(l1.conf()),B(l2.conf()); std::unique_ptr<MomentState> S(mkState(A,n)); S->ref.IonEk=rf?5e5:8e6; for(int k=0;k<n;k++){ S->real[k].IonEk=rf?5e5+k*1e3:sa||ang==4||ang==5?9e6:vf_real(nm("Ek",k).c_str(),5e6,2e7); }
    if(kd==K_SEXT)for(int k=0;k<n;k++)S->moment0[k](0)=vf_real(nm("x",k).c_str(),-5,5); S->recalc();
    std::unique_ptr<MomentState> T(dynamic_cast<MomentState*>(S->clone())); bool aff=kd!=K_DRIFT&&kd!=K_MARKER&&kd!=K_BPM&&kd!=K_TMATRIX; std::vector<Fr> F; Mat Q=ident(); if(rot){ double ra=(n==1?25.0:-25.0)*M_PI/180,c=cos(ra),s=sin(ra); for(int i=0;i<2;i++){ Q(i,i)=Q(2+i,2+i)=c; Q(i,2+i)=s; Q(2+i,i)=-s; } }
    for(int k=0;k<n;k++){ if(aff)F.push_back(frame(S->real[k],S->ref.IonEs,L,dx,dy,a[0],a[1],a[2])); else { Fr f; f.in=f.out=ident(); F.push_back(f); }
        Mat in=mmul(F[k].in,Q); T->moment0[k]=mvec(in,T->moment0[k]); T->moment1[k]=mmul(mmul(in,T->moment1[k]),mtrans(in)); }
    A.propagate(T.get()); B.propagate(S.get());
    for(int k=0;k<n;k++){ Mat X=mmul(F[k].out,mmul(T->transmat[k],mmul(F[k].in,Q))); const char*id=aff?"map":"unaffected kind"; for(int i=0;i<7;i++)for(int j=0;j<7;j++){ if(rf&&j==6&&(i==4||i==5))continue; vf_eq(S->transmat[k](i,j),X(i,j),VF_TOL,id); }
        eqVec(S->moment0[k],mvec(F[k].out,T->moment0[k]),VF_TOL,"centroid"); Mat M1=mmul(mmul(F[k].out,T->moment1[k]),mtrans(F[k].out)); if(!rf&&(ang>=4||sa)&&kd!=K_SEXT)eqMat(S->moment1[k],M1,VF_TOL,"covariance"); eqParticle(S->real[k],T->real[k],kd==K_SBEND?1e300:VF_TOL,"energy and phase"); }
    vf_eq(S->pos,T->pos,VF_TOL,"position"); vf_cover("end"); if(aff&&ang)vf_cover("tilted"); }
