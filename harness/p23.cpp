// P23: stepping through an array description reaches every element exactly once
#include "vf.h"
#include "flame/base.h"
#include "flame/util.h"
extern "C" void vf_main(){
    int nd=vf_choice("ndim",4); size_t lim[3]={1,1,1}; const long MX=vf_tier()?5:4; size_t total=1;
    for(int i=0;i<nd;i++){ static const char*n[]={"l0","l1","l2"}; lim[i]=vf_long(n[i],0,MX); total*=lim[i]; }
    ndindex_iterate<3> it(nd,lim); size_t cnt=0; static bool seen[5*5*5+1];
    for(;!it.done&&cnt<200;it.next()){ bool in=true; for(int i=0;i<nd;i++)in=in&&it.index[i]<lim[i]; vf_assert(in,"every index is inside the limits"); if(!in)break; size_t f=0; for(int i=nd-1;i>=0;i--)f=f*lim[i]+it.index[i]; vf_assert(f<=125&&!seen[f],"no index twice"); seen[f]=true; cnt++; }
    vf_assert(cnt==total,"every index visited"); vf_assert(it.next(),"stays finished"); vf_assert(it.done,"stays finished");
    // address arithmetic of a description
    StateBase::ArrayInfo a; a.ndim=nd; double buf[256]; a.ptr=buf; a.type=StateBase::ArrayInfo::Double; size_t st=1; for(int i=0;i<nd;i++){ a.dim[i]=lim[i]; a.stride[i]=st*sizeof(double); st*=lim[i]?lim[i]:1; }
    size_t d[3]={0,0,0}; bool in=true; size_t off=0; for(int i=0;i<nd;i++){ static const char*n[]={"d0","d1","d2"}; d[i]=vf_long(n[i],0,MX+1); in=in&&d[i]<lim[i]; off+=d[i]*(a.stride[i]/sizeof(double)); }
    vf_assert(a.inbounds(d)==in,"index validity"); if(in){ vf_assert(a.get<double>(d)==buf+off,"address of an index"); vf_assert(a.raw(d)==(void*)(buf+off),"address of an index"); }
    vf_cover("end"); if(total==0)vf_cover("empty");
}
