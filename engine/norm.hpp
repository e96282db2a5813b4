// Rational-function normal forms for real-valued terms (preprocessing for the SMT queries):
// polynomials with exact rational coefficients over atoms (inputs, sin/cos/sqrt/... of canonical arguments).
#pragma once
#include "expr.hpp"
#include <gmpxx.h>
#include <charconv>

static mpq_class dblToQ(double d){
    // shortest decimal that reads back as this double: 0.1 means 1/10, M_PI its printed decimals
    char buf[64]; auto r=std::to_chars(buf,buf+63,d,std::chars_format::scientific); *r.ptr=0;
    std::string s(buf); bool neg=false; size_t i=0; if(s[0]=='-'){neg=true;i=1;}
    size_t e=s.find('e'); std::string man=s.substr(i,e-i); int ex=std::stoi(s.substr(e+1));
    std::string digs; int frac=0; bool dot=false; for(char ch:man){ if(ch=='.'){dot=true;continue;} digs+=ch; if(dot)frac++; }
    mpz_class m(digs,10); int p=ex-frac; mpz_class t; mpz_ui_pow_ui(t.get_mpz_t(),10,std::abs(p)); mpq_class q;
    if(p>=0)q=mpq_class(m*t); else { q=mpq_class(m,t); q.canonicalize(); }
    return neg?mpq_class(-q):q; }

typedef std::vector<std::pair<int,int>> Mono; // (atom,exp>0) sorted by atom
struct TooBig : std::runtime_error { TooBig():std::runtime_error("normal form too big"){} };
struct Poly {
    std::map<Mono,mpq_class> t;
    bool zero()const{return t.empty();}
    void add(const Mono&m,const mpq_class&c){ if(c==0)return; auto it=t.find(m); if(it==t.end())t.emplace(m,c); else { it->second+=c; if(it->second==0)t.erase(it);} }
    bool isConst(mpq_class*c=nullptr)const{ if(t.empty()){if(c)*c=0;return true;} if(t.size()==1&&t.begin()->first.empty()){if(c)*c=t.begin()->second;return true;} return false; }
};
static Mono mmul(const Mono&a,const Mono&b){ Mono r; r.reserve(a.size()+b.size()); size_t i=0,j=0; while(i<a.size()||j<b.size()){ if(j>=b.size()||(i<a.size()&&a[i].first<b[j].first))r.push_back(a[i++]); else if(i>=a.size()||b[j].first<a[i].first)r.push_back(b[j++]); else { r.push_back({a[i].first,a[i].second+b[j].second}); i++;j++; } } return r; }
static size_t POLYCAP=60000;
static size_t WORKCAP=40000000; static size_t polyWork=0;
static Poly padd(const Poly&a,const Poly&b,int s=1){ Poly r=a; polyWork+=b.t.size(); for(auto&x:b.t)r.add(x.first,s>0?x.second:mpq_class(-x.second)); if(r.t.size()>POLYCAP)throw TooBig(); return r; }
static Poly pmul(const Poly&a,const Poly&b){ Poly r; polyWork+=a.t.size()*b.t.size(); if(polyWork>WORKCAP)throw TooBig(); if(a.t.size()*b.t.size()>8*POLYCAP)throw TooBig(); for(auto&x:a.t)for(auto&y:b.t){ r.add(mmul(x.first,y.first),mpq_class(x.second*y.second)); } if(r.t.size()>POLYCAP)throw TooBig(); return r; }
static Poly pconst(const mpq_class&c){ Poly p; p.add({},c); return p; }
static Poly patom(int a){ Poly p; p.add(Mono{{a,1}},1); return p; }
// coefficients read to 11 significant digits: function arguments that differ only by rounding of constants are identified
static std::string pkeyR(const Poly&p){ std::string s; char b[40]; for(auto&x:p.t){ snprintf(b,40,"%.11g",x.second.get_d()); s+=b; for(auto&m:x.first){ s+="*a"+std::to_string(m.first)+"^"+std::to_string(m.second);} s+="+"; } return s; }
static std::string pkey(const Poly&p){ std::string s; for(auto&x:p.t){ s+=x.second.get_str(); for(auto&m:x.first){ s+="*a"+std::to_string(m.first)+"^"+std::to_string(m.second);} s+="+"; } return s; }

// lexicographic monomial order (admissible), needed for division
struct LexGreater { bool operator()(const Mono&a,const Mono&b)const{ size_t i=0; for(;;){ if(i>=a.size())return false; if(i>=b.size())return true; if(a[i].first!=b[i].first)return a[i].first<b[i].first; if(a[i].second!=b[i].second)return a[i].second>b[i].second; i++; } } };
static bool mdiv(const Mono&a,const Mono&b,Mono&q){ q.clear(); size_t i=0; for(auto&x:b){ while(i<a.size()&&a[i].first<x.first)q.push_back(a[i++]); if(i>=a.size()||a[i].first!=x.first||a[i].second<x.second)return false; if(a[i].second>x.second)q.push_back({x.first,a[i].second-x.second}); i++; } while(i<a.size())q.push_back(a[i++]); return true; }
// exact division p = f*q (remainders at rounding level of the coefficients count as zero)
static bool pdiv(const Poly&p,const Poly&f,Poly&q){
    typedef std::map<Mono,mpq_class,LexGreater> LP; LP r(p.t.begin(),p.t.end()),g(f.t.begin(),f.t.end()); q.t.clear(); if(r.empty()||g.empty())return false; Mono m; if(!mdiv(r.begin()->first,g.begin()->first,m)||!mdiv(r.rbegin()->first,g.rbegin()->first,m))return false;
    std::map<Mono,double> scale; for(auto&x:p.t)scale[x.first]=std::fabs(x.second.get_d());
    size_t steps=0; while(!r.empty()){ if(++steps>p.t.size()+8||r.size()>4*p.t.size()+64)return false; if(!mdiv(r.begin()->first,g.begin()->first,m))return false; mpq_class c=r.begin()->second/g.begin()->second; q.add(m,c);
        for(auto&x:g){ Mono y=mmul(m,x.first); mpq_class t=c*x.second; auto it=r.find(y); if(it==r.end())r.emplace(y,-t); else { double&sc=scale[y]; sc=std::max(sc,std::fabs(t.get_d())); it->second-=t; if(std::fabs(it->second.get_d())<=1e-12*sc)r.erase(it); } } }
    return true; }

// num / prod(factor_i ^ e_i); factor = atom (>=0) or interned polynomial (encoded as -1-idx)
struct Rat { Poly num; std::map<int,int> den; };

struct Norm {
    Exprs&E;
    enum AK{A_VAR,A_FN,A_ABS,A_POW,A_OPAQUE};
    struct Atom{ AK k; int node; int fn; Rat arg; std::string key; Exprs::Iv iv; int partner; double pw; double v[2]; };
    std::vector<Atom> atoms; std::unordered_map<std::string,int> atomTab;
    std::vector<Poly> factors; std::unordered_map<std::string,int> facTab;
    std::unordered_map<int,Rat> memo;
    std::unordered_map<int,int> subst; // FVAR node -> node, from path-condition equalities
    int coarse; // coarse: functions, and divisors that are sums, are opaque (identified by the normal form of their argument); 2: long sums, too
    Norm(Exprs&e,int co=0):E(e),coarse(co){}
    static const int FN_IDENT=100; int identAtom(Poly p,mpq_class&lead){ lead=p.t.begin()->second; for(auto&x:p.t)x.second/=lead; Rat r; r.num=p; return mkAtom(A_FN,FN_IDENT,r,0,Exprs::Iv{-INFINITY,INFINITY}); }
    void addSubst(int var,int node){ subst[var]=node; memo.clear(); }
    bool contains(int node,int var){ std::vector<int> st{node}; std::set<int> seen; while(!st.empty()){int x=st.back();st.pop_back(); if(x==var)return true; if(!seen.insert(x).second)continue; if(subst.count(x))st.push_back(subst[x]); for(int i=0;i<3;i++)if(E.n[x].k[i])st.push_back(E.n[x].k[i]);} return false; }
    static std::string rkey(const Rat&r){ std::string s=pkey(r.num)+"/"; for(auto&d:r.den)s+=std::to_string(d.first)+"^"+std::to_string(d.second)+","; return s; }
    static std::string rkeyR(const Rat&r){ std::string s=pkeyR(r.num)+"/"; for(auto&d:r.den)s+=std::to_string(d.first)+"^"+std::to_string(d.second)+","; return s; }
    int mkAtom(AK k,int fn,const Rat&arg,int node,Exprs::Iv iv,double pw=0){
        std::string key=std::to_string(k)+":"+std::to_string(fn)+":"; if(k==A_VAR||k==A_OPAQUE)key+=std::to_string(node); else { key+=rkeyR(arg); if(k==A_POW)key+="^"+std::to_string(pw);} 
        auto it=atomTab.find(key); if(it!=atomTab.end())return it->second;
        if(k==A_FN&&fn>=FN_SIN&&fn<=FN_COSH){ Exprs::Iv t=fnIv(fn,ivR(arg)); iv.lo=std::max(iv.lo,t.lo); iv.hi=std::min(iv.hi,t.hi); }
        Atom A{k,node,fn,arg,key,iv,-1,pw,{0,0}};
        for(int j=0;j<2;j++){ if(k==A_VAR||k==A_OPAQUE){ unsigned h=node*2654435761u+j*40503u+17u; h^=h>>13; h*=0x5bd1e995u; h^=h>>15; double u=(h%100003)/100003.0, lo=iv.lo,hi=iv.hi; if(!std::isfinite(lo))lo=std::isfinite(hi)?hi-3:-1.5; if(!std::isfinite(hi))hi=lo+3; A.v[j]=lo+u*(hi-lo); }
            else { double x=evalR(arg,j); A.v[j]=k==A_ABS?std::fabs(x):k==A_POW?std::pow(x,pw):fn==FN_IDENT?x:fnEval(fn,x); } }
        // the same function of an argument that is equal but written over other denominators: candidates by value at two points, then exact subtraction
        if(k!=A_VAR&&k!=A_OPAQUE&&std::isfinite(A.v[0])&&std::isfinite(A.v[1])&&arg.num.t.size()<=200){ size_t save=polyWork; for(size_t i=0;i<atoms.size();i++){ Atom&B=atoms[i]; if(B.k!=k||B.fn!=fn||B.pw!=pw||!near(A.v[0],B.v[0])||!near(A.v[1],B.v[1]))continue;
            try{ polyWork=0; bool dr=false; Rat ba=B.arg; if(ba.num.t.size()>200)continue; Rat d=diffR(arg,ba,dr); if(d.num.zero()){ polyWork=save; atomTab[key]=i; return i; } }catch(TooBig&){} } polyWork=save; }
        int id=atoms.size(); atoms.push_back(A); atomTab[key]=id; return id; }
    typedef Exprs::Iv Iv;
    static Iv im(Iv a,Iv b){ double p[]={a.lo*b.lo,a.lo*b.hi,a.hi*b.lo,a.hi*b.hi}; double lo=p[0],hi=p[0]; for(double x:p){ if(std::isnan(x))return Iv{-INFINITY,INFINITY}; lo=std::min(lo,x);hi=std::max(hi,x);} return Iv{lo,hi}; }
    static Iv ip(Iv i,int e){ Iv r{1,1}; for(int k=0;k<e;k++)r=im(r,i); if(e%2==0&&r.lo<0)r.lo=0; return r; }
    Iv ivP(const Poly&p){ Iv r{0,0}; for(auto&x:p.t){ double c0=x.second.get_d(); Iv m{c0,c0}; for(auto&q:x.first)m=im(m,ip(atoms[q.first].iv,q.second)); r.lo+=m.lo; r.hi+=m.hi; } return r; }
    Iv ivR(const Rat&r){ Iv n=ivP(r.num); for(auto&d:r.den){ Iv f=d.first>=0?atoms[d.first].iv:ivP(factors[-1-d.first]); if(f.lo<=0&&f.hi>=0)return Iv{-INFINITY,INFINITY}; Iv q{1/f.hi,1/f.lo}; for(int i=0;i<d.second;i++)n=im(n,q); } double e=1e-12*std::max(std::fabs(n.lo),std::fabs(n.hi)); if(std::isfinite(e)){ n.lo-=e; n.hi+=e; } return n; }
    static Iv fnIv(int f,Iv a){ const double E=1e-12; double m=std::max(std::fabs(a.lo),std::fabs(a.hi)); switch(f){
        case FN_SIN: if(m<1.57)return Iv{std::sin(a.lo)-E,std::sin(a.hi)+E}; return Iv{-1,1};
        case FN_COS: if(m<3.14){ double l=std::cos(m)-E; double h=(a.lo<=0&&a.hi>=0)?1.0:std::min(1.0,std::cos(std::min(std::fabs(a.lo),std::fabs(a.hi)))+E); return Iv{l,h}; } return Iv{-1,1};
        case FN_SINH: { double l=std::sinh(a.lo),h=std::sinh(a.hi); return Iv{l-E*std::fabs(l)-E,h+E*std::fabs(h)+E}; }
        case FN_COSH: { double h=std::cosh(m); double l=(a.lo<=0&&a.hi>=0)?1.0:std::cosh(std::min(std::fabs(a.lo),std::fabs(a.hi))); return Iv{std::max(1.0,l*(1-E)),h*(1+E)}; }
        default: return Iv{-INFINITY,INFINITY}; } }
    static bool near(double a,double b){ return std::fabs(a-b)<=1e-7*std::max(std::fabs(a),std::fabs(b)); }
    double evalP(const Poly&p,int j){ double s=0; for(auto&x:p.t){ double t=x.second.get_d(); for(auto&m:x.first)for(int i=0;i<m.second;i++)t*=atoms[m.first].v[j]; s+=t; } return s; }
    double evalR(const Rat&r,int j){ double d=1; for(auto&x:r.den){ double f=x.first>=0?atoms[x.first].v[j]:evalP(factors[-1-x.first],j); for(int i=0;i<x.second;i++)d*=f; } return evalP(r.num,j)/d; }
    // reduced form of a function argument: divide out denominator factors, split denominators that are products of known ones
    Rat simp(const Rat&r0){ Rat r=r0; if(r.num.t.size()>400)return r;
        for(int pass=0;pass<2;pass++){ 
            for(auto it=r.den.begin();it!=r.den.end();){ bool gone=false; if(it->first<0){ Poly f=factors[-1-it->first],q; if(f.t.size()<=60){ while(it->second>0&&pdiv(r.num,f,q)){ r.num=q; it->second--; } if(it->second>0&&pass==0)for(size_t g=0;g<factors.size()&&!gone;g++)if((int)g!=-1-it->first&&factors[g].t.size()<f.t.size()&&factors[g].t.size()>1&&pdiv(f,factors[g],q)){ int e=it->second,gi=-1-(int)g; r.den.erase(it); gone=true; mpq_class c; r.den[gi]+=e; if(q.isConst(&c)){ for(int i=0;i<e;i++)for(auto&x:r.num.t)x.second/=c; } else { Rat z; z.num=q; Rat iv=inv(z); for(int i=0;i<e;i++)r=mul(r,iv); } } } }
                if(gone){ it=r.den.begin(); continue; } if(it->second==0)it=r.den.erase(it); else ++it; } }
        cancel(r); return r; }
    static Rat rconst(const mpq_class&c){ Rat r; r.num=pconst(c); return r; }
    static Rat ratom(int a){ Rat r; r.num=patom(a); return r; }
    int facId(Poly p,mpq_class&lead){ // normalise leading coeff
        lead=p.t.begin()->second; for(auto&x:p.t)x.second/=lead; std::string k=pkeyR(p); auto it=facTab.find(k); if(it!=facTab.end())return it->second; int id=-1-(int)factors.size(); factors.push_back(p); facTab[k]=id; return id; }
    Poly facPoly(int f){ return f>=0?patom(f):factors[-1-f]; }
    void cancel(Rat&r){ // cancel atom powers common to all numerator monomials; whole-factor equality
        if(r.num.zero()){r.den.clear();return;}
        for(auto it=r.den.begin();it!=r.den.end();){
            if(it->first>=0){ int mn=it->second; for(auto&x:r.num.t){ int e=0; for(auto&m:x.first)if(m.first==it->first)e=m.second; mn=std::min(mn,e); if(!mn)break; }
                if(mn){ Poly p; for(auto&x:r.num.t){ Mono m; for(auto&q:x.first){ if(q.first==it->first){ if(q.second>mn)m.push_back({q.first,q.second-mn}); } else m.push_back(q);} p.add(m,x.second);} r.num=p; it->second-=mn; } }
            else if(r.num.t.size()==factors[-1-it->first].t.size()){ const Poly&f=factors[-1-it->first]; mpq_class c=r.num.t.begin()->second/f.t.begin()->second; bool eq=true; auto a=r.num.t.begin(); for(auto b=f.t.begin();b!=f.t.end();++a,++b){ if(a->first!=b->first||a->second!=c*b->second){eq=false;break;} } if(eq){ r.num=pconst(c); it->second--; } }
            if(it->second==0)it=r.den.erase(it); else ++it; } }
    Rat add(const Rat&a,const Rat&b,int s=1){
        Rat r; std::map<int,int> l=a.den; for(auto&d:b.den)l[d.first]=std::max(l.count(d.first)?l[d.first]:0,d.second);
        Poly x=a.num,y=b.num; for(auto&d:l){ int ea=a.den.count(d.first)?a.den.at(d.first):0, eb=b.den.count(d.first)?b.den.at(d.first):0; Poly f=facPoly(d.first); for(int i=ea;i<d.second;i++)x=pmul(x,f); for(int i=eb;i<d.second;i++)y=pmul(y,f);} 
        r.num=padd(x,y,s); r.den=l; cancel(r); return reduce(r); }
    // a-b with coefficients compared to 11 digits: what is left of a monomial after cancellation to rounding level is dropped
    Rat diffR(const Rat&a,const Rat&b,bool&dropped){
        Rat r; std::map<int,int> l=a.den; for(auto&d:b.den)l[d.first]=std::max(l.count(d.first)?l[d.first]:0,d.second);
        Rat x,y; x.num=a.num; y.num=b.num; for(auto&d:l){ int ea=a.den.count(d.first)?a.den.at(d.first):0, eb=b.den.count(d.first)?b.den.at(d.first):0; Poly f=facPoly(d.first); for(int i=ea;i<d.second;i++)x.num=pmul(x.num,f); for(int i=eb;i<d.second;i++)y.num=pmul(y.num,f);} 
        x=reduce(x); y=reduce(y); if(x.den!=y.den)return add(a,b,-1);
        r.num=padd(x.num,y.num,-1); for(auto it=r.num.t.begin();it!=r.num.t.end();){ auto p=x.num.t.find(it->first),q=y.num.t.find(it->first); if(p!=x.num.t.end()&&q!=y.num.t.end()&&std::fabs(it->second.get_d())<=1e-11*std::max(std::fabs(p->second.get_d()),std::fabs(q->second.get_d()))){ it=r.num.t.erase(it); dropped=true; } else ++it; }
        r.den=l; for(auto&d:x.den)r.den[d.first]+=d.second; cancel(r); return reduce(r); }
    Rat mul(const Rat&a,const Rat&b){ Rat r; r.num=pmul(a.num,b.num); r.den=a.den; for(auto&d:b.den)r.den[d.first]+=d.second; cancel(r); return reduce(r); }
    Rat inv(const Rat&a){ if(a.num.zero())throw std::runtime_error("division by zero in normal form"); Rat r; Poly n=pconst(1); for(auto&d:a.den){Poly f=facPoly(d.first);for(int i=0;i<d.second;i++)n=pmul(n,f);} r.num=n;
        // factor numerator: common monomial + rest
        Poly p=a.num; std::map<int,int> common; bool first=true; for(auto&x:p.t){ std::map<int,int> m; for(auto&q:x.first)m[q.first]=q.second; if(first){common=m;first=false;} else { for(auto it=common.begin();it!=common.end();){ auto f=m.find(it->first); if(f==m.end())it=common.erase(it); else { it->second=std::min(it->second,f->second); ++it;} } } }
        if(!common.empty()){ Poly q; for(auto&x:p.t){ Mono m; for(auto&y:x.first){ auto f=common.find(y.first); int e=y.second-(f==common.end()?0:f->second); if(e)m.push_back({y.first,e}); } q.add(m,x.second);} p=q; for(auto&c:common)r.den[c.first]+=c.second; }
        mpq_class c; if(p.isConst(&c)){ for(auto&x:r.num.t)x.second/=c; }
        else { mpq_class lead; int f=coarse?identAtom(p,lead):facId(p,lead); r.den[f]+=1; for(auto&x:r.num.t)x.second/=lead; }
        cancel(r); return reduce(r); }
    // algebraic reductions: sqrt(t)^2=t, sin^2=1-cos^2, sinh^2=cosh^2-1, |t|^2=t^2
    bool reducible(int a,Rat&sq){ if(coarse)return false; Atom&A=atoms[a]; if(A.k==A_FN){ if(A.fn==FN_SQRT){sq=A.arg;return true;} if(A.fn==FN_SIN){ int p=partner(a); Rat c=ratom(p); Rat cc; cc.num=pmul(c.num,c.num); Rat o=rconst(1); sq.num=padd(o.num,cc.num,-1); return true;} if(A.fn==FN_SINH){int p=partner(a); Rat c=ratom(p); sq.num=padd(pmul(c.num,c.num),pconst(1),-1); return true;} } if(A.k==A_ABS){ Rat g=A.arg; sq=mul(g,g); return true; } return false; }
    int partner(int a){ if(atoms[a].partner>=0)return atoms[a].partner; int f=atoms[a].fn; int g=f==FN_SIN?FN_COS:f==FN_COS?FN_SIN:f==FN_SINH?FN_COSH:FN_SINH; Rat arg=atoms[a].arg; Exprs::Iv iv{-1,1}; if(f==FN_SINH||f==FN_COSH){iv.lo=-INFINITY;iv.hi=INFINITY; if(g==FN_COSH)iv.lo=1;} int p=mkAtom(A_FN,g,arg,0,iv); atoms[a].partner=p; atoms[p].partner=a; return p; }
    Rat reduce(const Rat&r0){
        // find reducible atom with exponent >=2
        for(auto&x:r0.num.t)for(auto&m:x.first)if(m.second>=2){ Rat sq; if(reducible(m.first,sq)){
            int at=m.first; std::map<int,Poly> by; for(auto&y:r0.num.t){ int e=0; Mono rest; for(auto&q:y.first){ if(q.first==at)e=q.second; else rest.push_back(q);} by[e].add(rest,y.second);} 
            Rat acc=rconst(0); for(auto&b:by){ int h=b.first/2,l=b.first%2; Rat t; t.num=b.second; if(l)t.num=pmul(t.num,patom(at)); Rat cur=t; for(int i=0;i<h;i++)cur=mul(cur,sq); acc=add(acc,cur); }
            Rat d; d.num=pconst(1); d.den=r0.den; return mul(acc,d); } }
        if(!coarse)for(auto&d:r0.den)if(d.first>=0&&d.second>=2){ Rat sq; if(atoms[d.first].k==A_FN&&atoms[d.first].fn==FN_SQRT){ reducible(d.first,sq); Rat r=r0; int h=d.second/2,l=d.second%2; int at=d.first; if(l)r.den[at]=1; else r.den.erase(at); Rat is=inv(sq); for(int i=0;i<h;i++)r=mul(r,is); return r; } }
        return r0; }
    // function application with argument splitting
    Rat fn(int f,const Rat&arg0,int node){ Rat arg=coarse?arg0:simp(arg0);
        if(arg.num.zero()){ return rconst((f==FN_COS||f==FN_COSH||f==FN_EXP)?1:0); }
        if(f==FN_SIN||f==FN_COS||f==FN_SINH||f==FN_COSH){
            size_t nt=arg.num.t.size(); 
            if(!coarse&&nt>=2&&nt<=4){ Rat a,b; a.den=b.den=arg.den; auto it=arg.num.t.begin(); a.num.add(it->first,it->second); ++it; for(;it!=arg.num.t.end();++it)b.num.add(it->first,it->second); cancel(a);cancel(b);
                bool h=f==FN_SINH||f==FN_COSH; int S=h?FN_SINH:FN_SIN,C=h?FN_COSH:FN_COS; Rat sa=fn(S,a,0),ca=fn(C,a,0),sb=fn(S,b,0),cb=fn(C,b,0);
                if(f==S)return add(mul(sa,cb),mul(ca,sb)); return h?add(mul(ca,cb),mul(sa,sb)):add(mul(ca,cb),mul(sa,sb),-1); }
            Rat g=arg; int s=1; if(g.num.t.begin()->second<0){ for(auto&x:g.num.t)x.second=-x.second; s=-1; }
            Exprs::Iv iv{-1,1}; if(f==FN_SINH||f==FN_COSH){ iv.lo=f==FN_COSH?1:-INFINITY; iv.hi=INFINITY; if(node){Exprs::Iv q=E.iv(node); iv=q; if(s<0&&f==FN_SINH){iv.lo=-q.hi;iv.hi=-q.lo;}} }
            int a=mkAtom(A_FN,f,g,node,iv); Rat r=ratom(a); if(s<0&&(f==FN_SIN||f==FN_SINH))for(auto&x:r.num.t)x.second=-x.second; return r; }
        if(f==FN_SQRT){ mpq_class c; if(arg.den.empty()&&arg.num.isConst(&c)){ mpz_class nn=c.get_num(),dd=c.get_den(); if(nn>=0&&mpz_perfect_square_p(nn.get_mpz_t())&&mpz_perfect_square_p(dd.get_mpz_t())){ mpz_class a,b; mpz_sqrt(a.get_mpz_t(),nn.get_mpz_t());mpz_sqrt(b.get_mpz_t(),dd.get_mpz_t()); mpq_class q(a,b); q.canonicalize(); return rconst(q);} } }
        Exprs::Iv iv{-INFINITY,INFINITY}; if(node)iv=E.iv(node); if((f==FN_SQRT||f==FN_EXP)&&iv.lo<0)iv.lo=0;
        return ratom(mkAtom(A_FN,f,arg,node,iv)); }
    static const size_t CUT=60;
    const Rat& norm(int id){
        auto it=memo.find(id); if(it!=memo.end())return it->second;
        std::vector<std::pair<int,int>> st; st.push_back({id,0});
        while(!st.empty()){ auto&[x,ph]=st.back(); if(memo.count(x)){st.pop_back();continue;} const Node&N=E.n[x];
            if(ph==0){ ph=1; auto s=subst.find(x); if(s!=subst.end()){ if(!memo.count(s->second)){st.push_back({s->second,0});} continue; } 
                if(N.op==O_FITE||N.op==O_ITOF)continue; int k0=N.k[0],k1=N.k[1]; if(k0&&!memo.count(k0))st.push_back({k0,0}); if(k1&&!memo.count(k1))st.push_back({k1,0}); continue; }
            int xx=x; st.pop_back(); Rat r=norm1(xx); memo[xx]=r; }
        return memo[id]; }
    Rat norm1(int x){ Node N=E.n[x]; auto s=subst.find(x); if(s!=subst.end())return memo[s->second];
        auto K=[&](int i)->const Rat&{return memo[N.k[i]];};
        if(coarse==2&&(N.op==O_FADD||N.op==O_FSUB)){ Rat r=add(K(0),K(1),N.op==O_FADD?1:-1); if(r.num.t.size()<=CUT)return r; mpq_class lead; int a=identAtom(r.num,lead); Rat q; q.num=patom(a); for(auto&x:q.num.t)x.second*=lead; q.den=r.den; return q; }
        switch(N.op){
        case O_FCONST:{ if(Exprs::bad(N.d))throw std::runtime_error("nan/inf in normal form"); return rconst(dblToQ(N.d)); }
        case O_FVAR:return ratom(mkAtom(A_VAR,0,Rat(),x,E.iv(x)));
        case O_FADD:return add(K(0),K(1)); case O_FSUB:return add(K(0),K(1),-1); case O_FMUL:return mul(K(0),K(1));
        case O_FDIV:return mul(K(0),inv(K(1))); case O_FNEG:return mul(rconst(-1),K(0));
        case O_FABS:{ mpq_class c; if(K(0).den.empty()&&K(0).num.isConst(&c))return rconst(abs(c)); Exprs::Iv i=E.iv(N.k[0]); if(i.lo>=0)return K(0); if(i.hi<=0)return mul(rconst(-1),K(0)); return ratom(mkAtom(A_ABS,0,K(0),x,E.iv(x))); }
        case O_FFN:return fn(N.aux,K(0),x);
        case O_FPOW:{ double y; if(E.isFC(N.k[1],&y))return ratom(mkAtom(A_POW,0,K(0),x,E.iv(x),y)); return ratom(mkAtom(A_OPAQUE,0,Rat(),x,E.iv(x))); }
        default: return ratom(mkAtom(A_OPAQUE,0,Rat(),x,E.iv(x))); }
    }
};
