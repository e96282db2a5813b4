// P12: beamlines are composed by concatenation, nesting, reversal and repetition
#include "mom.h"
#include "flame/config.h"
typedef std::vector<std::string> L; static L operator+(L a,const L&b){ a.insert(a.end(),b.begin(),b.end()); return a; } static L rev(const L&a){ return L(a.rbegin(),a.rend()); } static L rep(const L&a,int n){ L r; for(int i=0;i<n;i++)r=r+a; return r; }
static std::unique_ptr<Config> parse(const std::string&s){ GLPSParser P; P.setPrinter(NULL); return std::unique_ptr<Config>(P.parse_byte(s)); }
static const char*HEAD="e1: drift, L=1; e2: quadrupole, L=2, B2=3; e3: marker;\n";
static void check(const Config&C,const L&want,const char*line){ const std::vector<Config>&E=C.get<std::vector<Config> >("elements"); vf_assert(E.size()==want.size(),"number of elements"); if(E.size()!=want.size())return; vf_assert(C.get<std::string>("name")==line,"name of the beamline");
    for(size_t i=0;i<E.size();i++){ vf_assert(E[i].get<std::string>("name")==want[i],"order of elements"); char k=want[i][1]; vf_assert(E[i].get<std::string>("type")==(k=='1'?"drift":k=='2'?"quadrupole":"marker"),"type of each occurrence"); double v=-1; bool has=E[i].tryGet<double>("L",v); vf_assert(has==(k!='3'),"properties of each occurrence"); if(has)vf_eq(v,k-'0',VF_TOL,"properties of each occurrence"); vf_assert(E[i].tryGet<double>("B2",v)==(k=='2'),"properties of each occurrence"); } }
// one item of a beamline over an element and a beamline
static L item(int id,std::string&t,const char*bn,const L&b){ static const int NI=12; int k=vf_choice(nm("item",id).c_str(),vf_tier()||id==0?NI:6); std::string B(bn); L e(1,"e3");
    switch(k){ case 0: t="e3"; return e; case 1: t=B; return b; case 2: t="-"+B; return rev(b); case 3: t="2*"+B; return rep(b,2); case 4: t="-("+B+"*3)"; return rev(rep(b,3)); case 5: t="2*e3"; return rep(e,2); case 6: t="-"+B+"*2"; return rep(rev(b),2); case 7: t="0*"+B; return L(); case 8: t="("+B+")"; return b; case 9: t="-e3"; return e; case 10: t="2 * 2 * "+B; return rep(b,4); default: t="--"+B; return b; } }
extern "C" void vf_main(){ int mode=vf_choice("mode",4);
    if(mode==0){ // two levels of nesting
        std::string i1,i2,i3,i4; L l1; int n1=vf_choice("n1",3),fst=vf_choice("first",2); if(n1)n1++; std::string t1; static const char*EN[]={"e1","e2"}; for(int i=0;i<n1;i++){ int e=(i+fst)%2; if(i)t1+=", "; t1+=EN[e]; l1.push_back(EN[e]); }
        L a=item(0,i1,"l1",l1),b=item(1,i2,"l1",l1),l2=a+b; L c=item(2,i3,"l2",l2),l3=c+L(1,"e1"); int use=vf_choice("use",4);
        std::string f=std::string(HEAD)+"l1: LINE = ("+t1+");\nl2: line = ("+i1+","+i2+");\nl3: Line=("+i3+" , e1);\n"; if(use)f+="USE: l"+std::to_string(use)+";\n"; const L&w=use==1?l1:use==2?l2:l3;
        bool th=false; try{ std::unique_ptr<Config> C=parse(f); if(!w.empty())check(*C,w,use==1?"l1":use==2?"l2":"l3"); }catch(std::runtime_error&){ th=true; } vf_assert(th==w.empty(),"exactly an empty beamline is refused"); vf_cover("nested");
    } else if(mode==1){ // any repetition count
        double n=vf_real("n",-10,5); bool left=vf_choice("left",2); GLPSParser P; P.setPrinter(NULL); P.setVar("n",n); int empty=vf_choice("len",3); L b; std::string t; if(empty>0){ b.push_back("e1"); t="e1"; } if(empty>1){ b.push_back("e3"); t+=",e3"; } bool th=false;
        try{ std::unique_ptr<Config> C(P.parse_byte(std::string(HEAD)+"l1: LINE=("+t+"); l2: LINE = (e2, "+(left?"n*l1":"l1*n")+");")); vf_assert(!(n<0),"negative repetition is refused"); size_t got=C->get<std::vector<Config> >("elements").size(); int k=n>=5?5:n>=4?4:n>=3?3:n>=2?2:n>=1?1:0; vf_assert(got==1+k*b.size(),"repetition count"); check(*C,L(1,"e2")+rep(b,k),"l2"); }catch(std::runtime_error&){ th=true; } if(th)vf_assert(n<0,"only negative counts are refused"); else vf_cover("repeated");
    } else if(mode==2){ // out of range repetition
        double n=vf_real("n",4294967296.0,1e300); GLPSParser P; P.setPrinter(NULL); P.setVar("n",n); bool th=false; try{ std::unique_ptr<Config> C(P.parse_byte(std::string(HEAD)+"l1: LINE=(); l2: LINE = (e2, n*l1);")); }catch(std::runtime_error&){ th=true; } vf_assert(th,"repetition beyond the range is refused");
    } else { // invalid definitions
        static const char*T[]={"l: LINE = (e4);","l: LINE = (e1, l);","l: LINE = (e1); l: LINE = (e2);","e1: marker; l: LINE=(e1);","l: LINE = (1);","l: LINE=(\"e1\");","l: LINE = (e1); USE: m;","l: ROW = (e1);","","USE: l;","l: LINE = (e1","l: LINE = ([1]);","l: LINE = (l2); l2: LINE=(e1);","l: LINE = (e1*e2);","l: LINE = (e1+e2);","l: LINE = (e1 e2);","l: LINE = (e1,e2); USE: l;","l: LINE = (e1); l: LINE = (); m: LINE = (e2);"}; int k=vf_choice("t",18); bool th=false; try{ std::unique_ptr<Config> C=parse(std::string(HEAD)+T[k]); }catch(std::runtime_error&){ th=true; } vf_assert(th==(k!=16),"invalid definitions are refused"); vf_cover("refused"); }
    vf_cover("end"); }
