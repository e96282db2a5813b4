// Native side of vf.h: replays one input assignment on the real, compiled code.
// exit 0: every assertion held; 1: assertion failed; 2: assumption not met by these inputs; 3: usage
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <map>
#include <new>
#include <algorithm>
#include <exception>
#include "../harness/vf.h"
static std::map<std::string,std::string> *vals; static std::map<std::string,int> *cnt; static int failed=0; static const char*want=0;
static const std::string* get(const char*n){ int k=(*cnt)[n]++; std::string u=n; if(k)u+="#"+std::to_string(k); auto it=vals->find(u); return it==vals->end()?nullptr:&it->second; }
extern "C" {
double vf_real(const char*n,double lo,double hi){ auto*s=get(n); if(lo==hi)return lo; double v=s?atof(s->c_str()):lo+(hi-lo)*0.37; if(!(v>=lo&&v<=hi)){ if(v<lo)v=lo; else v=hi; } return v; }
int vf_int(const char*n,int lo,int hi){ auto*s=get(n); return s?(int)atoll(s->c_str()):lo; }
long vf_long(const char*n,long lo,long hi){ auto*s=get(n); return s?atoll(s->c_str()):lo; }
signed char vf_byte(const char*n){ auto*s=get(n); return s?(signed char)atoll(s->c_str()):'a'; }
int vf_choice(const char*n,int k){ auto*s=get(n); return s?(int)atoll(s->c_str()):0; }
int vf_concrete_int(int v){return v;}
static void bye(int rc){ fflush(stdout); fflush(stderr); _Exit(rc); }
void vf_assume(int c){ if(!c){ printf("REPLAY assumption not met\n"); bye(failed?1:2); } }
void vf_assert(int c,const char*id){ if(!c){ printf("REPLAY FAIL %s\n",id); failed=1; } }
void vf_eq(double a,double b,double tol,const char*id){ if(a==b||(std::isnan(a)&&std::isnan(b)))return; double m=std::max(1.0,std::max(std::fabs(a),std::fabs(b))); if(!(std::fabs(a-b)<=tol*m)){ printf("REPLAY FAIL %s: %.17g != %.17g\n",id,a,b); failed=1; } }
int vf_symbolic(){return 0;}
int vf_issym(double){return 0;}
void vf_cover(const char*){}
void vf_done(){ bye(failed); }
void vf_trace(const char*m,double v){ if(getenv("VF_TRACE"))printf("[trace] %s %.17g\n",m,v); }
int vf_tier(){ const char*t=getenv("VF_TIER"); return t&&*t=='1'; }
}
#ifndef VF_ASAN
// uninitialised heap memory is filled with the same pattern the interpreter uses
void* operator new(size_t n){ if(n>(1ull<<32))throw std::bad_alloc(); void*p=malloc(n?n:1); if(!p)throw std::bad_alloc(); unsigned long long ps=0x7ffbadbadbadbad5ull; for(size_t i=0;i+8<=n;i+=8)memcpy((char*)p+i,&ps,8); for(size_t i=n&~(size_t)7;i<n;i++)((char*)p)[i]=((char*)&ps)[i&7]; return p; }
void* operator new[](size_t n){ return operator new(n); }
void operator delete(void*p)noexcept{ free(p); }
void operator delete[](void*p)noexcept{ free(p); }
void operator delete(void*p,size_t)noexcept{ free(p); }
void operator delete[](void*p,size_t)noexcept{ free(p); }
#endif
int main(int argc,char**argv){
    vals=new std::map<std::string,std::string>; cnt=new std::map<std::string,int>;
    if(argc<2)return 3; FILE*f=fopen(argv[1],"r"); if(!f)return 3; char line[4096];
    while(fgets(line,sizeof line,f)){ if(line[0]=='#')continue; char n[2048],t[8],v[1024]; if(sscanf(line,"%2047s %7s %1023s",n,t,v)==3)(*vals)[n]=v; }
    try{ vf_main(); }catch(std::exception&e){ printf("REPLAY FAIL uncaught-exception: %s\n",e.what()); failed=1; }catch(...){ printf("REPLAY FAIL uncaught-exception\n"); failed=1; }
    bye(failed); }
