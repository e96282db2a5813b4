// P09: parameter lookup: inner scope first, exact type, defaults and errors
#include "vf.h"
#include "flame/config.h"
#include "flame/util.h"
#include <string>
#include <vector>
enum {T_NONE,T_NUM,T_VEC,T_STR,T_LIST};
static double num[2],vec[2][2];
static void put(Config&c,const char*k,int t,int who){
    switch(t){ case T_NUM: c.set<double>(k,num[who]); break; case T_VEC: c.set<std::vector<double> >(k,std::vector<double>(vec[who],vec[who]+2)); break; case T_STR: c.set<std::string>(k,who?"outer":"inner"); break;
        case T_LIST: { Config x; x.set<double>("id",num[who]); c.set<std::vector<Config> >(k,std::vector<Config>(who+1,x)); break; } } }
template<class T> static int tget(const Config&c,const char*k,T&out){ try{ out=c.get<T>(k); return 1; }catch(key_error&){ return 0; }catch(...){ return 2; } }
extern "C" void vf_main(){
    int ti=vf_choice("inner",5),to=vf_choice("outer",5),tq=1+vf_choice("query",4),how=vf_choice("how",6);
    for(int i=0;i<2;i++){ num[i]=vf_real(i?"numO":"numI",-1e9,1e9); for(int j=0;j<2;j++)vec[i][j]=vf_real((std::string(i?"vo":"vi")+std::to_string(j)).c_str(),-1e9,1e9); }
    Config o; o.set<double>("other",5.0); put(o,"k",to,1); Config c;
    if(how==0)c=o.new_scope(); else if(how==1){ c=o; c.push_scope(); } else { c=o; } // how 2: same scope, later definition replaces
    if(how==5)c=o.new_scope(); else if(how==3||how==4){ c=o; c.push_scope(); }
    put(c,"k",ti,0);
    if(how==3)c=c.new_scope(); else if(how==4)c.push_scope(); else if(how==5){ Config d=c.new_scope(); d.push_scope(); d.set<double>("k2",1.0); c=d; } // three and four scopes: the innermost empty, or with a parameter of its own
    int eff=ti!=T_NONE?ti:to, who=ti!=T_NONE?0:1; int expect=eff==tq?1:0;
    vf_eq(c.get<double>("other"),5.0,0,"outer parameter visible");
    double dd=vf_real("def",-1e9,1e9);
    if(tq==T_NUM){ double v=dd; int r=tget<double>(c,"k",v); vf_assert(r==expect,"typed lookup succeeds exactly on the right type"); if(r==1)vf_eq(v,num[who],0,"value found");
        double w=c.get<double>("k",dd); vf_eq(w,expect?num[who]:dd,0,"default used exactly when absent or of another type"); double z=dd; bool t=c.tryGet<double>("k",z); vf_assert(t==(expect==1),"try lookup"); vf_eq(z,expect?num[who]:dd,0,"try lookup leaves the target alone on failure"); }
    else if(tq==T_VEC){ std::vector<double> v(1,dd),d(1,dd); int r=tget<std::vector<double> >(c,"k",v); vf_assert(r==expect,"typed lookup succeeds exactly on the right type"); if(expect){ vf_assert(v.size()==2,"value found"); if(v.size()==2)for(int j=0;j<2;j++)vf_eq(v[j],vec[who][j],0,"value found"); }
        std::vector<double> w=c.get<std::vector<double> >("k",d); vf_assert(w.size()==(expect?2u:1u),"default used exactly when absent or of another type"); if(!expect&&w.size()==1)vf_eq(w[0],dd,0,"default used exactly when absent or of another type");
        std::vector<double> z(3,dd); bool t=c.tryGet<std::vector<double> >("k",z); vf_assert(t==(expect==1),"try lookup"); vf_assert(z.size()==(expect?2u:3u),"try lookup leaves the target alone on failure"); }
    else if(tq==T_STR){ std::string v("x"); int r=tget<std::string>(c,"k",v); vf_assert(r==expect,"typed lookup succeeds exactly on the right type"); if(expect)vf_assert(v==(who?"outer":"inner"),"value found");
        vf_assert(c.get<std::string>("k","dflt")==(expect?(who?"outer":"inner"):"dflt"),"default used exactly when absent or of another type"); std::string z("keep"); bool t=c.tryGet<std::string>("k",z); vf_assert(t==(expect==1),"try lookup"); vf_assert(z==(expect?(who?"outer":"inner"):"keep"),"try lookup leaves the target alone on failure"); }
    else { std::vector<Config> v; int r=tget<std::vector<Config> >(c,"k",v); vf_assert(r==expect,"typed lookup succeeds exactly on the right type"); if(expect){ vf_assert(v.size()==(size_t)who+1,"value found"); vf_eq(v[0].get<double>("id"),num[who],0,"value found"); } std::vector<Config> z; bool t=c.tryGet<std::vector<Config> >("k",z); vf_assert(t==(expect==1),"try lookup"); }
    bool thrown=false; try{ c.getAny("k"); }catch(key_error&){ thrown=true; } vf_assert(thrown==(eff==T_NONE),"untyped lookup fails exactly when absent");
    // iteration lists the inner scope only; flattening exposes everything with the same effective values
    size_t n=0; for(Config::const_iterator i=c.begin();i!=c.end();++i)n++; size_t en=how==2?1u+(eff!=T_NONE):how==5?1u:how>2?0u:(ti!=T_NONE); vf_assert(n==en,"iteration covers the innermost scope");
    Config f(c); f.flatten(); Config::value_t a; vf_assert(f.tryGetAny("k",a)==(eff!=T_NONE),"flattening keeps lookups"); if(eff!=T_NONE)vf_assert(a.which()==eff-1,"flattening keeps lookups"); n=0; for(Config::const_iterator i=f.begin();i!=f.end();++i)n++; vf_assert(n==1u+(eff!=T_NONE)+(how==5),"flattening exposes all scopes");
    if(eff==T_NUM)vf_eq(boost::get<double>(a),num[who],0,"flattening keeps lookups");
    vf_cover("end"); if(ti&&to&&how!=2)vf_cover("shadowed");
}
