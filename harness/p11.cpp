// P11: expressions in a lattice file have the value of ordinary arithmetic
#include "mom.h"
#include "flame/config.h"
static double A[4]; static const char*VN[4]={"a","b_1","c:x","pi"};
// reference: a flat token list evaluated by recursive descent.  Tokens: 'v' operand, '~' unary minus, operators, parentheses
struct Tok { char c; double v; }; static std::vector<Tok> tk; static size_t tp;
static double eSum();
static double eUn(){ if(tk[tp].c=='~'){ tp++; return -eUn(); } if(tk[tp].c=='('){ tp++; double v=eSum(); tp++; return v; } return tk[tp++].v; }
static double eProd(){ double v=eUn(); while(tp<tk.size()&&(tk[tp].c=='*'||tk[tp].c=='/')){ char o=tk[tp++].c; double w=eUn(); if(o=='/'){ vf_assume(w>1e-3||w<-1e-3); v=v/w; } else v=v*w; } return v; }
static double eSum(){ double v=eProd(); while(tp<tk.size()&&(tk[tp].c=='+'||tk[tp].c=='-')){ char o=tk[tp++].c; double w=eProd(); v=o=='-'?v-w:v+w; } return v; }
static std::string F; static void add(char c,double v,const std::string&s){ Tok t={c,v}; tk.push_back(t); F+=s; }
static std::unique_ptr<Config> parse(const std::string&s){ GLPSParser P; P.setPrinter(NULL); for(int i=0;i<3;i++)P.setVar(VN[i],A[i]); return std::unique_ptr<Config>(vf_choice("api",2)?P.parse_byte(s):P.parse_byte(s.c_str(),s.size())); }
static const std::string TAIL="\ne: drift, L=1;\nl: LINE = (e);\n";
extern "C" void vf_main(){
    for(int i=0;i<3;i++)A[i]=vf_real(nm("v",i).c_str(),-5,5); A[3]=3.14159265358979323846; int mode=vf_choice("mode",6);
    if(mode==0){ // operators, signs and parentheses
        static const char OPS[]="+-*/"; int N=vf_choice("n",3)+2; static const int PF[7]={-1,0,1,2,0,1,0},PT[7]={-1,1,2,3,2,3,3}; int p=vf_choice("paren",7); if(p&&PT[p]>N-1)vf_done(); int neg=vf_choice("neg",4); bool sp=vf_choice("space",2);
        for(int i=0;i<N;i++){ if(i){ char o=OPS[vf_choice(nm("op",i).c_str(),4)]; add(o,0,sp?std::string(" ")+o+" ":std::string(1,o)); } bool ng=neg==1?i==0:neg==2?i==1:neg==3?i==2:false; bool open=p&&PF[p]==i; if(ng&&open&&N>2){ add('~',0,"-"); ng=false; } if(open)add('(',0,sp?"( ":"("); if(ng)add('~',0,"-"); add('v',A[i],VN[i]); if(p&&PT[p]==i)add(')',0,")"); }
        tp=0; double v=eSum(); std::unique_ptr<Config> C=parse("x = "+F+";\ne: drift, L = "+F+", w=[1,"+F+", 7];\nl: LINE = (e);\n"); vf_eq(C->get<double>("x"),v,VF_TOL,"value of the expression");
        const std::vector<Config>&E=C->get<std::vector<Config> >("elements"); vf_assert(E.size()==1,"one element"); vf_eq(E[0].get<double>("L"),v,VF_TOL,"value of the property"); const std::vector<double>&w=E[0].get<std::vector<double> >("w"); vf_assert(w.size()==3,"vector size"); vf_eq(w[0],1,VF_TOL,"vector entry"); vf_eq(w[1],v,VF_TOL,"vector entry"); vf_eq(w[2],7,VF_TOL,"vector entry"); vf_eq(E[0].get<double>("x"),v,VF_TOL,"variables are visible in elements"); vf_cover("operators");
    } else if(mode==1){ // functions
        static const char*FN[]={"sin","cos","tan","asin","acos","atan","arcsin","arccos","arctan","deg2rad","rad2deg"}; int k=vf_choice("fn",11); double x=A[0]; std::string in="a"; if(k>=3&&k<9&&k!=5&&k!=8){ in="a/5"; x=x/5; } int wr=vf_choice("wr",3); if(wr==1){ in="-("+in+")"; x=-x; }
        double v=k==0?std::sin(x):k==1?std::cos(x):k==2?std::tan(x):k==3||k==6?std::asin(x):k==4||k==7?std::acos(x):k==5||k==8?std::atan(x):k==9?x*3.14159265358979323846/180:x*180/3.14159265358979323846; std::string t=std::string(FN[k])+"("+in+")"; if(wr==2){ t="b_1*"+t+"-2"; v=A[1]*v-2; }
        std::unique_ptr<Config> C=parse("x = "+t+";"+TAIL); vf_eq(C->get<double>("x"),v,VF_TOL,"value of a function"); vf_cover("function");
    } else if(mode==2){ // a division without finite result is reported
        static const char*T[]={"a/0","1/0","0/0","-1/(2-2)","a/(a-a)","1e300/1e-300","b_1*3/0.0","-(1/0)","1+1/0","1e300/1e-5"}; static const bool bad[]={1,1,1,1,1,1,1,1,1,0}; int k=vf_choice("t",10); bool th=false; try{ std::unique_ptr<Config> C=parse(std::string("x = ")+T[k]+";"+TAIL); }catch(std::runtime_error&){ th=true; } vf_assert(th==bad[k],"division without finite result is reported"); vf_cover("division");
    } else if(mode==3){ // number formats
        static const struct{ const char*t; double v; } N[]={{"1",1},{"1.",1},{"1.5",1.5},{"1e3",1000},{"1.5E-3",.0015},{"2e+2",200},{"007",7},{"-3",-3},{"--3",3},{"3-2",1},{"3 -2",1},{"3--2",5},{"1e3e:3",0},{".5",0},{"1e999",0},{"1.2.3",0},{"0x10",0},{"3 2",0},{"1e",0},{"pi",3.14159265358979323846},{"12345678.25",12345678.25},{"1e-310",1e-310},{"0.1e1",1},{"1e-400",0}}; int k=vf_choice("num",24); bool bad=k>=12&&k!=19&&k!=20&&k!=21&&k!=22; bool th=false; try{ std::unique_ptr<Config> C=parse(std::string("x = ")+N[k].t+";"+TAIL); if(!bad)vf_eq(C->get<double>("x"),N[k].v,1e-15,"number format"); }catch(std::runtime_error&){ th=true; } if(k!=21)vf_assert(th==bad,"malformed numbers are reported"); vf_cover("numbers");
    } else if(mode==4){ // errors leave no configuration
        static const char*T[]={"x = y;","x = 1; x = 2;","a = 1;","x = foo(1);","x = \"s\"+1;","x = sin(\"s\");","x = [1,\"s\"];","x = [[1]];","STOP;","x = \"abc;","x = 1","x = $;","x = (1;","x = 1);","x = 1+;","x = *1;","x == 1;","= 1;","x = -\"s\";","x = [1,2]+1;","x = y; y = 1;","x = x;","x = sin();","x = sin(1,2);","x = \"a\nb\";","x = 1 2;","x = [1 2];","x = [1,;","foo(1);","x: drift, L;","x: drift, L=;","x: drift L=1;","x: drift, L=1, ;","x: = 1;","x = \xe9;","x: drift, L=y;","x = 1; #","x = [1]; x = [2];","x = \"a\"; x = \"b\";","x = 1; x = \"a\";","x = [1]; x = 2;","x = []; x = [];","a = [1];","x = 1; y = 2; x = 1;"}; int k=vf_choice("t",sizeof(T)/sizeof(T[0])); bool th=false; try{ std::unique_ptr<Config> C=parse(std::string(T[k])+TAIL); }catch(std::runtime_error&){ th=true; } bool good=k==36; vf_assert(th!=good,"errors are reported"); vf_cover("errors");
    } else { // definitions: evaluated where they stand, visible everywhere, shadowed by properties
        int o=vf_choice("o",4); std::unique_ptr<Config> C=parse(std::string(o==0?"":"# comment x = 9;\n")+"x = a*2; y = x+b_1;\n s = \"a \tb#\"; v=[]; e: drift, L=x, "+(o==1?"x=3":"q=y")+", s=\"\"; z = y - x; # done\n m: marker;\n l1: LINE = (e,m); "+(o==2?"E1 = z; END;":"")+(o==1?" pi = a+1; w = pi*2; ":"")+"\n"+(o==3?"\n\n  l2 : line = ( m , e ) ;":"")); vf_eq(C->get<double>("x"),A[0]*2,VF_TOL,"variable"); vf_eq(C->get<double>("y"),A[0]*2+A[1],VF_TOL,"variable"); vf_eq(C->get<double>("z"),A[1],VF_TOL,"variable"); vf_eq(C->get<double>("a"),A[0],VF_TOL,"predefined variable"); vf_assert(C->get<std::string>("s")=="a \tb#","string variable"); if(o==1)vf_eq(C->get<double>("w"),(A[0]+1)*2,VF_TOL,"own definition of a predefined name"); vf_assert(C->get<std::vector<double> >("v").empty(),"empty vector");
        const std::vector<Config>&E=C->get<std::vector<Config> >("elements"); vf_assert(E.size()==2,"elements"); const Config&e=E[o==3?1:0],&m=E[o==3?0:1]; vf_assert(e.get<std::string>("name")=="e"&&e.get<std::string>("type")=="drift"&&m.get<std::string>("name")=="m"&&m.get<std::string>("type")=="marker","element name and type"); vf_eq(e.get<double>("L"),A[0]*2,VF_TOL,"property"); vf_eq(e.get<double>("x"),o==1?3:A[0]*2,VF_TOL,"property shadows variable"); vf_eq(m.get<double>("x"),A[0]*2,VF_TOL,"shadowing stays in its element"); vf_eq(e.get<double>("z"),A[1],VF_TOL,"later variables are visible"); vf_assert(e.get<std::string>("s").empty()&&m.get<std::string>("s")=="a \tb#","string property"); vf_cover("definitions"); }
    vf_cover("end"); }
