// P03: moments are transported by the linear map the element reports
#include "mom.h"
extern "C" void vf_main(){
    regMoment();
    int kind=vf_choice("kind",NKIND); if(kind==K_STRIPPER)vf_done();
    int mis=vf_choice("mis",4);
    int back=(kind==K_SEXT||kindRF(kind))?0:vf_choice("back",2);
    // backward maps need a matrix inverse whose pivoting forks on every symbolic entry: element and energy are fixed numbers there
    int sym=!back||kind<=K_DRIFT||kind==K_MARKER||kind==K_BPM;
    int n=1+(mis<2||vf_tier()?vf_choice("n",vf_tier()?3:2):0);
    El e=mkKind(kind,"x",mis,"",sym); Lat l; l<<e; Machine M(l.conf());
    std::unique_ptr<MomentState> S(mkState(M,n));
    if(!kindRF(kind)&&sym)symEnergy(*S,2e5,2e7,true);
    symM0(*S); symM1(*S);
    std::vector<Vec> v; std::vector<Mat> m; for(int k=0;k<n;k++){ v.push_back(S->moment0[k]); m.push_back(S->moment1[k]); }
    M.propagate(S.get(),0,back?-1:1);
    vf_assert(S->size()==(size_t)n&&S->moment0.size()==(size_t)n&&S->moment1.size()==(size_t)n&&S->transmat.size()==(size_t)n,"charge states kept");
    for(int k=0;k<n;k++){ const Mat&T=S->transmat[k];
        eqVec(S->moment0[k],mvec(T,v[k]),VF_TOL,"m0=T*m0"); eqMat(S->moment1[k],mmul(mmul(T,m[k]),mtrans(T)),VF_TOL,"m1=T*m1*Tt");
        for(int i=0;i<7;i++)for(int j=i+1;j<7;j++)vf_eq(S->moment1[k](i,j),S->moment1[k](j,i),VF_TOL,"m1 symmetric");
        for(int j=0;j<7;j++)vf_eq(T(6,j),j==6?1.0:0.0,VF_TOL,"constant row"); }
    vf_cover("end"); if(back)vf_cover("backward"); if(mis)vf_cover("misaligned");
}
