// P15: elements are found by name, type and index, also after reconfiguration
#include "mom.h"
static const char*NM[3]={"a","b","ab"}; static const char*TY[2]={"marker","drift"};
static int name[6],type[6];
static void checkAll(Machine&M,int N){
    vf_assert(M.size()==(size_t)N,"size");
    for(int i=0;i<N;i++){ vf_assert(M[i]->name==NM[name[i]],"name at index"); vf_assert(std::string(M[i]->type_name())==TY[type[i]],"type at index"); vf_assert(M[i]->index==(size_t)i,"index"); vf_assert(M.at(i)==M[i]&&*(M.begin()+i)==M[i],"indexed access agrees with iteration"); }
    for(int q=0;q<3;q++){
        // the nth element of that name, for every nth
        long nth=vf_long((std::string("nth")+NM[q]).c_str(),0,1000000); int k=0; ElementVoid*exp=0; for(int i=0;i<N;i++)if(name[i]==q){ if(k==nth)exp=M[i]; k++; }
        vf_assert(M.find(NM[q],nth)==exp,"nth element of a name");
        std::pair<Machine::lookup_iterator,Machine::lookup_iterator> r=M.equal_range(NM[q]); int i=0; for(;r.first!=r.second;++r.first){ while(i<N&&name[i]!=q)i++; vf_assert(i<N&&*r.first==M[i],"range of a name in beamline order"); i++; } while(i<N&&name[i]!=q)i++; vf_assert(i>=N,"range of a name is complete"); }
    vf_assert(M.find("nosuch")==0,"unknown name"); { std::pair<Machine::lookup_iterator,Machine::lookup_iterator> r=M.equal_range("nosuch"); vf_assert(r.first==r.second,"unknown name range"); }
    for(int q=0;q<2;q++){ std::pair<Machine::lookup_iterator,Machine::lookup_iterator> r=M.equal_range_type(TY[q]); int i=0; for(;r.first!=r.second;++r.first){ while(i<N&&type[i]!=q)i++; vf_assert(i<N&&*r.first==M[i],"range of a type in beamline order"); i++; } while(i<N&&type[i]!=q)i++; vf_assert(i>=N,"range of a type is complete"); }
    { std::pair<Machine::lookup_iterator,Machine::lookup_iterator> r=M.all_range(); int n=0; unsigned seen=0; for(;r.first!=r.second;++r.first){ n++; seen|=1u<<(*r.first)->index; } vf_assert(n==N&&seen==(1u<<N)-1,"all elements listed once"); } }
extern "C" void vf_main(){
    regMoment(); int N=1+vf_choice("n",vf_tier()?4:3);
    Lat l; for(int i=0;i<N;i++){ name[i]=vf_choice(nm("name",i).c_str(),3); type[i]=vf_choice(nm("type",i).c_str(),2); El e(NM[name[i]],TY[type[i]]); e.d("L",0.5); l<<e; }
    int rec=vf_choice("reconf",2), at=0,to=0; if(rec){ at=vf_choice("at",N); to=vf_choice("to",3); }
    Machine M(l.conf()); std::vector<ElementVoid*> ptr(M.begin(),M.end());
    if(rec){ Config c(M[at]->conf()); c.set<std::string>("name",NM[to]); c.set<double>("L",0.25); M.reconfigure(at,c); if(to!=name[at])vf_cover("renamed"); name[at]=to; for(int i=0;i<N;i++)vf_assert(M[i]==ptr[i],"elements stay in place"); }
    checkAll(M,N);
    vf_cover("end");
}
