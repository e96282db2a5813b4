// P14: data tables and cavity files are used exactly as written or refused
#include "mom.h"
#include <fstream>
#include <sstream>
#include <cstdlib>
#include "flame/util.h"
static std::string num(int i){ static const char*t[]={"12","-3.5","4e-3",".25","+7","1e2","0"}; return t[i%7]; }
static double val(int i){ static const double t[]={12,-3.5,4e-3,.25,7,100,0}; return t[i%7]; }
static void vectors(){ // a flat list cut into rows
    int n=vf_choice("n",vf_tier()?13:9),c=vf_concrete_int(vf_int("columns",-2,5)); std::vector<double> v; for(int i=0;i<n;i++)v.push_back(vf_real(nm("v",i).c_str(),-9,9)); numeric_table t; t.table.resize(1,1); t.table(0,0)=77; bool thrown=false; try{ t.readvec(v,c); }catch(std::exception&){ thrown=true; }
    if(c<=0||n%c){ vf_assert(thrown,"list that does not fill its rows refused"); vf_assert(t.table.size1()==1&&t.table.size2()==1,"refused leaves the table"); vf_cover("ragged list"); return; }
    vf_assert(!thrown,"list accepted"); vf_assert((int)t.table.size1()==n/c&&(!n||(int)t.table.size2()==c),"rows and columns"); for(int i=0;i<n;i++)vf_eq(t.table(i/c,i%c),v[i],0,"value"); vf_cover("list"); }
static void texts(){ // rows and columns of numbers with decoration
    int r=vf_choice("rows",4),c=1+vf_choice("cols",3),sep=vf_choice("sep",3),eol=vf_choice("eol",2),blank=vf_choice("blank",4),head=vf_choice("head",3),bad=vf_choice("bad",10),used=vf_choice("used",2); const char*S=sep==0?" ":sep==1?"\t":"  \t ",*N=eol?"\r\n":"\n"; if(bad&&!r)vf_done(); int at=bad?vf_choice("at",r):0; if(bad>=8&&(r<2||c<2))vf_done(); if(at!=r-1&&(sep||blank||used))vf_done(); // at: the row with the defect
    std::string s; auto gap=[&]{ if(blank==1)s+=N; else if(blank==2){ s+=" \t"; s+=N; } }; gap(); if(head){ s+="%"; if(head==2)s+=" "; for(int j=0;j<c;j++){ if(j)s+=S; s+="h"+std::to_string(j); } s+=N; } gap(); bool throws=bad!=0;
    for(int i=0;i<r;i++){ if(blank==3)s+=S; for(int j=0;j<c;j++){ bool last=i==at&&j==c-1; if(bad==8&&last)continue; if(bad==9&&i!=at&&j==c-1)continue; if(j)s+=S; if(last&&bad==1)s+="hello"; else if(last&&bad==2)s+="-"; else if(last&&bad==3)s+="1e"; else if(last&&bad==4)s+="3x"; else if(last&&bad==7)s+="1,"; else s+=num(i*c+j); if(last&&bad==5){ s+=S; s+="5"; if(r==1)throws=false; } if(last&&bad==6){ s+=S; s+="."; } } if(blank==3)s+=" "; if(i<r-1||blank!=3)s+=N; gap(); }
    if(bad==5&&r==1)vf_done(); std::istringstream st(s); numeric_table t; if(used){ t.table.resize(2,2); t.table(1,1)=5; } bool th=false; try{ t.read(st); }catch(std::exception&){ th=true; }
    if(throws){ vf_assert(th,"malformed table refused"); vf_cover("malformed table"); return; } vf_assert(!th,"well-formed table read"); vf_assert((int)t.table.size1()==r,"rows"); if(r)vf_assert((int)t.table.size2()==c,"columns"); for(int i=0;i<r;i++)for(int j=0;j<c;j++)vf_eq(t.table(i,j),val(i*c+j),0,"value");
    if(head){ vf_assert((int)t.colnames.size()==c,"column names"); for(int j=0;j<c;j++)vf_assert(t.colnames.count(nm("h",j))&&(int)t.colnames[nm("h",j)]==j,"column names"); } vf_cover("table"); }
static std::string list(int n,int k){ std::string s="["; for(int i=0;i<n;i++){ if(i)s+=", "; s+=k==0?std::to_string(.01*(i%10+1)):std::to_string((i&1)?40.0*i:10.0*i); } return s+"]"; }
static std::string put(const std::string&name,const std::string&text){ const char*w=getenv("VF_WORK"); std::string d=w?w:"."; std::ofstream f((d+"/"+name).c_str()); f<<text; f.close(); return d; }
static void run(El&e,bool good,bool either,bool sym){ // the cavity works or is refused; either way within its own data
    double E=sym?vf_real("E",4e5,2e6):6e5,x=vf_real("x",-5,5); bool th=false; Lat l; l<<e; std::unique_ptr<MomentState> S; Particle p; try{ Machine M(l.conf()); S.reset(mkState(M,1)); S->ref.IonEk=E; S->real[0].IonEk=E; S->moment0[0](0)=x; S->recalc(); p=S->real[0]; M.propagate(S.get()); }catch(std::exception&){ th=true; }
    if(either){ vf_cover("unused part missing"); return; } if(!good){ vf_assert(th,"incomplete cavity data refused"); vf_cover("refused"); return; } vf_assert(!th,"complete cavity data accepted"); vf_assert(S->size()==1,"one charge state"); vf_cover("accepted"); }
static void generic(){ int what=vf_choice("what",14),k=0,a=20,g=23,ez=6,sf=10,el=2,nl=2; bool good=true; switch(what){ case 1:a=vf_choice("k",25);good=a>=20;k=a;break; case 2:g=vf_choice("k",27);good=g>=23;k=g;break; case 3:ez=vf_choice("k",10);good=ez%2==0&&ez>=2;k=ez;break; case 4:sf=vf_choice("k",16);good=sf%5==0;k=sf;break; case 5:el=vf_choice("k",4);good=el>=2;k=el;break; case 6:nl=vf_choice("k",4);good=nl>=2;k=nl;break; default:if(what)good=false; }
    int sync=vf_choice("sync",3); if(what==4||what==6)if(sync!=1)good=sync==1?good:true; 
    std::string s; if(what!=7)s+="Ez = "+list(ez,1)+";\n"; s+="Rm = 17.0;\n"; if(what!=13){ s+="RefNorm = 0.15;\nSyncFit = "+list(sf,0)+";\n"; } s+="EnergyLimit = "+(el==2?std::string("[0.1, 1000]"):list(el,1))+";\nNormLimit = "+(nl==2?std::string("[0, 100]"):list(nl,1))+";\n";
    s+=what==9?"d0: drift;\n":"d0: drift, L=30.0;\n"; s+=what==10?"m0: EFocus, L=0.0, attr="+list(a,0)+";\n":what==1&&a==24?"m0: EFocus, L=0.0, V0=0.1;\n":"m0: EFocus, L=0.0, V0=0.1, attr="+list(a,0)+";\n"; if(what==1&&a==24)good=false;
    s+=what==12?"ac: Other, L=0.0, V0=0.05, attr="+list(g,0)+";\n":"ac: AccGap, L=0.0, V0=0.05, attr="+list(g,0)+";\n"; s+=what==11?"cell: LINE = (d0, m0, zz);\n":what==13?"cell: LINE = (d0, m0);\n":"cell: LINE = (d0, m0, ac);\n"; if(what==13)good=sync==0; if(what==2&&(g==25||g==26))good=true;
    if(what==8)s+="this is not a lattice";
    std::string f="g"+std::to_string(what)+"_"+std::to_string(k)+"_"+std::to_string(sync)+".lat",d=put(f,s); if(what==13&&vf_choice("missing",2)){ f="none.lat"; good=false; }
    if((what==5&&el>2)||(what==6&&nl>2))good=true; El e("c","rfcavity"); e.s("cavtype","Generic").s("Eng_Data_Dir",d.c_str()).s("datafile",f.c_str()).d("L",.1).d("f",80.5e6).d("phi",-30).d("scl_fac",.6); if(sync==0)e.d("syncflag",0); if(sync==2)e.d("syncflag",2); run(e,good,what==6&&nl<2&&sync!=1,what==0); }
extern "C" void vf_main(){ regMoment(); switch(vf_choice("part",3)){ case 0:vectors(); break; case 1:texts(); break; case 2:generic(); } vf_cover("end"); }
