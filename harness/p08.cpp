// P08: configurations are values: changing one never shows in another
#include "vf.h"
#include "flame/config.h"
#include <map>
#include <vector>
#include <string>
#include <sstream>
// reference model: two scopes, deep copies everywhere
struct Mod { std::map<std::string,double> in; bool hasOut; std::map<std::string,double> out; Mod():hasOut(false){}
    void flat(){ if(hasOut){ in.insert(out.begin(),out.end()); hasOut=false; out.clear(); } }
    Mod scope()const{ Mod r; r.out=out; r.hasOut=true; for(auto&p:in)r.out[p.first]=p.second; return r; }
    bool get(const std::string&k,double&v)const{ auto i=in.find(k); if(i!=in.end()){v=i->second;return true;} if(hasOut){ i=out.find(k); if(i!=out.end()){v=i->second;return true;} } return false; } };
static const char*KEY[2]={"a","b"};
static void same(const Config&c,const Mod&m,const char*id){
    for(int k=0;k<2;k++){ double v=0,w=0; bool p=c.tryGet<double>(KEY[k],v),q=m.get(KEY[k],w); vf_assert(p==q,id); if(p&&q)vf_eq(v,w,0,id);
        Config::value_t any; vf_assert(c.tryGetAny(KEY[k],any)==q,id); }
    size_t n=0; for(Config::const_iterator i=c.begin();i!=c.end();++i){ n++; auto j=m.in.find(i->first); vf_assert(j!=m.in.end(),id); if(j!=m.in.end())vf_eq(boost::get<double>(i->second),j->second,0,id); }
    vf_assert(n==m.in.size(),id); }
extern "C" void vf_main(){
    const int N=3,K=vf_tier()?4:3; Config C[N]; Mod M[N]; int serial=0;
    auto val=[&](){ return vf_real((std::string("v")+std::to_string(serial++)).c_str(),-1e6,1e6); };
    // start: C0 has a, C1 is an inner scope of C0 with its own b, C2 a copy of C1
    double v0=val(),v1=val(); C[0].set<double>("a",v0); M[0].in["a"]=v0; C[1]=C[0].new_scope(); M[1]=M[0].scope(); C[1].set<double>("b",v1); M[1].in["b"]=v1; C[2]=C[1]; M[2]=M[1];
    for(int s=0;s<K;s++){
        // one symbolic operation code; the first step is one that makes configurations share storage
        static const struct{int op,i,j,k;} T[]={ {0,0,1,0},{0,0,2,0},{0,1,0,0},{0,1,2,0},{0,2,0,0},{0,2,1,0}, {3,0,0,0},{3,1,0,0},{3,2,0,0},{4,0,0,0},{4,1,0,0},{4,2,0,0},
            {5,0,0,0},{5,0,1,0},{5,0,2,0},{5,1,0,0},{5,1,1,0},{5,1,2,0},{5,2,0,0},{5,2,1,0},{5,2,2,0},{6,0,1,0},{6,0,2,0},{6,1,2,0},
            {1,0,0,0},{1,0,0,1},{1,1,0,0},{1,1,0,1},{1,2,0,0},{1,2,0,1},{2,0,0,0},{2,0,0,1},{2,1,0,0},{2,1,0,1},{2,2,0,0},{2,2,0,1},{7,0,0,0},{7,1,0,1},{7,2,0,0} };
        int t=vf_choice((std::string("op")+std::to_string(s)).c_str(),s==0&&!vf_tier()?24:39), op=T[t].op,i=T[t].i,j=T[t].j,k=T[t].k;
        switch(op){
        case 0: C[i]=C[j]; M[i]=Mod(M[j]); break;
        case 1: { double v=val(); C[i].set<double>(KEY[k],v); M[i].in[KEY[k]]=v; break; }
        case 2: { double v=val(); Config::value_t x(v); C[i].swapAny(KEY[k],x); auto it=M[i].in.find(KEY[k]); if(it!=M[i].in.end())vf_eq(boost::get<double>(x),it->second,0,"swap returns the old value"); M[i].in[KEY[k]]=v; break; }
        case 3: C[i].push_scope(); M[i]=(M[i].flat(),M[i]).scope(); break;
        case 4: C[i].flatten(); M[i].flat(); break;
        case 5: C[i]=C[j].new_scope(); M[i]=M[j].scope(); break;
        case 6: C[i].swap(C[j]); if(i!=j)std::swap(M[i],M[j]); break;
        case 7: { double v=val(); C[i].setAny(KEY[k],Config::value_t(v)); M[i].in[KEY[k]]=v; break; }
        }
        for(int q=0;q<N;q++)same(C[q],M[q],"each configuration keeps its own contents");
    }
    // nested lists of configurations are copied with their owner
    { Config in; double a=val(),b=val(); in.set<double>("a",a); std::vector<Config> l(2,in); Config o; o.set<std::vector<Config> >("l",l); Config p(o); in.set<double>("a",b); l[0].set<double>("a",b);
      vf_eq(o.get<std::vector<Config> >("l")[0].get<double>("a"),a,0,"nested configuration unaffected"); vf_eq(o.get<std::vector<Config> >("l")[1].get<double>("a"),a,0,"nested configuration unaffected");
      std::vector<Config> m2(o.get<std::vector<Config> >("l")); m2[1].set<double>("a",b); p.set<std::vector<Config> >("l",m2);
      vf_eq(o.get<std::vector<Config> >("l")[1].get<double>("a"),a,0,"nested configuration unaffected"); vf_eq(p.get<std::vector<Config> >("l")[1].get<double>("a"),b,0,"nested configuration updated"); }
    vf_cover("end");
}
