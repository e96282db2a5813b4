// P28: data files are used as they are now, not as they were when first read.
// The file system is a stand-in: version k of every file is what the folder ver/k holds, reached through the
// working directory, and its time stamp is a symbolic number.
#include "mom.h"
#include <unistd.h>
#include <boost/filesystem.hpp>
#include "flame/util.h"
static int cur,act[8],nact,ncall; static long tm_[4]; static const char*D=VF_DATA "/ver/";
static void go(int v){ cur=v; if(chdir((std::string(D)+std::to_string(v)).c_str()))vf_done(); }
static int at_=-1,to_; // another process replaces the file around call number at_
namespace boost{namespace filesystem{namespace detail{ std::time_t last_write_time(path const&,boost::system::error_code*){ int k=ncall; ncall+=2; if(k==at_)go(to_); std::time_t t=tm_[cur]; if(k+1==at_)go(to_); return t; } }}}
static void same(const numeric_table&t,int v){ vf_assert(t.table.size1()==2&&t.table.size2()==2,"current table"); vf_eq(t.table(0,0),1,0,"current table"); vf_eq(t.table(0,1),v*7+2,0,"current table"); vf_eq(t.table(1,0),v+3,0,"current table"); }
extern "C" void vf_main(){ regMoment(); int part=vf_choice("part",2);
    if(part==0){ for(int i=0;i<3;i++)tm_[i]=vf_long(nm("time",i).c_str(),0,4000000000L); vf_assume(tm_[0]!=tm_[1]&&tm_[0]!=tm_[2]&&tm_[1]!=tm_[2]); // a replacement has another time stamp, earlier or later
        numeric_table_cache*c=numeric_table_cache::get(); c->clear(); std::string P="/proc/self/cwd/t.txt"; numeric_table_cache::table_pointer old; int n=2+vf_choice("fetches",vf_tier()?3:2); go(0);
        for(int i=0;i<n;i++){ int v=vf_choice(nm("version",i).c_str(),3); go(v); if(vf_choice(nm("clear",i).c_str(),2))c->clear(); ncall=0; int r=vf_choice(nm("race",i).c_str(),i<n-1?4:1); if(r){ to_=(v+1)%3; at_=r; } else at_=-1; bool th=false; numeric_table_cache::table_pointer p; try{ p=c->fetch(P); }catch(std::exception&){ th=true; } vf_assert(!th,"readable file read"); if(th)vf_done(); if(at_<0)same(*p,v); else vf_cover("race"); at_=-1; if(!old)old=p; }
        bool th=false; try{ c->fetch("t.txt"); }catch(std::exception&){ th=true; } vf_assert(th,"relative path refused"); vf_cover("table"); }
    else { at_=-1; int a=vf_choice("first",3),b=vf_choice("second",3),order=vf_choice("order",2),how=vf_choice("how",3),ran=vf_choice("ran",2),sync=vf_choice("syncflag",3); if(a==b)vf_done(); for(int i=0;i<3;i++)tm_[i]=1000+(order?i:3-i);
        double phi=-25; El e("c","rfcavity"); e.s("cavtype","Generic").s("Eng_Data_Dir","/proc/self/cwd").s("datafile","c.lat").d("L",.1).d("f",80.5e6).d("phi",-30).d("scl_fac",.6); if(sync!=1)e.d("syncflag",sync); El o=e; o.d("phi",phi); El o2=o; o2.s("Eng_Data_Dir",(std::string(D)+std::to_string(b)).c_str());
        go(a); Lat l; l<<e; Machine M(l.conf()); Machine*N=&M; std::unique_ptr<Machine> own; if(ran){ std::unique_ptr<MomentState> S(mkState(M,1)); M.propagate(S.get()); vf_cover("used before"); } go(b);
        if(how==0)M.reconfigure(0,o.c); else if(how==1){ Lat k; k<<o; own.reset(new Machine(k.conf())); N=own.get(); } else { El q=o; q.d("L",.2); M.reconfigure(0,q.c); M.reconfigure(0,o.c); }
        Lat k; k<<o2; Machine F(k.conf()); std::unique_ptr<MomentState> S(mkState(*N,1)),T(mkState(F,1)); double x=vf_real("x",-5,5); S->moment0[0](0)=T->moment0[0](0)=x; N->propagate(S.get()); F.propagate(T.get()); eqState(*S,*T,VF_TOL,"cavity follows its data file"); vf_cover("cavity"); } }
