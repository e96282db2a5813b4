// Hash-consed symbolic expressions over bit-vectors (BV) and "reals" (doubles read as exact reals).
#pragma once
#include <cstdint>
#include <cmath>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <set>
#include <algorithm>
#include <stdexcept>
#include <limits>

enum Op : uint8_t {
    O_NULL=0, O_CONST, O_VAR,
    O_ADD,O_SUB,O_MUL,O_UDIV,O_SDIV,O_UREM,O_SREM,O_AND,O_OR,O_XOR,O_SHL,O_LSHR,O_ASHR,
    O_EQ,O_ULT,O_ULE,O_SLT,O_SLE,O_ITE,O_ZEXT,O_SEXT,O_EXTRACT,O_CONCAT,
    // real sort
    O_FCONST,O_FVAR,O_FADD,O_FSUB,O_FMUL,O_FDIV,O_FNEG,O_FABS,O_FITE,O_FFN,O_FPOW,O_ITOF,
    // real -> bool
    O_FLT,O_FLE,O_FEQ,
    // real -> bv
    O_FTOI, O_FBITS
};
enum Fn : uint8_t { FN_NONE, FN_SIN, FN_COS, FN_SINH, FN_COSH, FN_SQRT, FN_EXP, FN_LOG, FN_ATAN, FN_ASIN, FN_ACOS, FN_TANH, FN_FLOOR, FN_CBRT, FN_LOG10 };
static const char* fnName(int f){ static const char* n[]={"?","sin","cos","sinh","cosh","sqrt","exp","log","atan","asin","acos","tanh","floor","cbrt","log10"}; return n[f]; }
static double fnEval(int f,double x){ switch(f){
 case FN_SIN:return sin(x);case FN_COS:return cos(x);case FN_SINH:return sinh(x);case FN_COSH:return cosh(x);case FN_SQRT:return sqrt(x);
 case FN_EXP:return exp(x);case FN_LOG:return log(x);case FN_ATAN:return atan(x);case FN_ASIN:return asin(x);case FN_ACOS:return acos(x);
 case FN_TANH:return tanh(x);case FN_FLOOR:return floor(x);case FN_CBRT:return cbrt(x);case FN_LOG10:return log10(x);} return NAN; }

struct Node {
    Op op; uint8_t aux;      // aux: Fn for O_FFN
    bool isF; uint16_t w;    // width for BV (1 == bool)
    int k[3];
    uint64_t imm;            // BV const / extract lo / var index
    double d;                // F const
};
struct VarInfo { std::string name; bool isF; int width; double lo,hi; int64_t ilo,ihi; int node; };

struct Exprs {
    std::vector<Node> n;
    std::vector<VarInfo> vars;
    struct KH { size_t operator()(const Node&a)const{
        uint64_t h=a.op*0x9E3779B97F4A7C15ull; auto mix=[&](uint64_t v){h^=v+0x9E3779B97F4A7C15ull+(h<<6)+(h>>2);};
        mix(a.aux);mix(a.isF);mix(a.w);mix(a.k[0]);mix(a.k[1]);mix(a.k[2]);mix(a.imm);uint64_t b;memcpy(&b,&a.d,8);mix(b);return h;}};
    struct KE { bool operator()(const Node&a,const Node&b)const{ return a.op==b.op&&a.aux==b.aux&&a.isF==b.isF&&a.w==b.w&&a.k[0]==b.k[0]&&a.k[1]==b.k[1]&&a.k[2]==b.k[2]&&a.imm==b.imm&&!memcmp(&a.d,&b.d,8);} };
    std::unordered_map<Node,int,KH,KE> tab;
    Exprs(){ n.push_back(Node{O_NULL,0,false,0,{0,0,0},0,0}); }
    int mk(Node x){ auto it=tab.find(x); if(it!=tab.end())return it->second; int id=n.size(); n.push_back(x); tab.emplace(x,id); return id; }
    static uint64_t mask(unsigned w){ return w>=64?~0ull:((1ull<<w)-1); }
    static int64_t sx(uint64_t v,unsigned w){ if(w>=64)return (int64_t)v; uint64_t m=1ull<<(w-1); v&=mask(w); return (int64_t)((v^m)-m); }

    int cst(uint64_t v,unsigned w){ return mk(Node{O_CONST,0,false,(uint16_t)w,{0,0,0},v&mask(w),0}); }
    int fcst(double d){ if(d==0)d=0.0; return mk(Node{O_FCONST,0,true,64,{0,0,0},0,d}); }
    bool isC(int a,uint64_t*v=nullptr){ if(n[a].op!=O_CONST)return false; if(v)*v=n[a].imm; return true; }
    bool isFC(int a,double*v=nullptr){ if(n[a].op!=O_FCONST)return false; if(v)*v=n[a].d; return true; }
    bool isAnyC(int a){ return n[a].op==O_CONST||n[a].op==O_FCONST; }

    int newVar(const std::string&name,bool isF,int w,double lo,double hi,int64_t ilo,int64_t ihi){
        int vi=vars.size();
        int id=mk(Node{isF?O_FVAR:O_VAR,0,isF,(uint16_t)w,{0,0,0},(uint64_t)vi,0});
        vars.push_back(VarInfo{name,isF,w,lo,hi,ilo,ihi,id}); return id; }

    static bool foldBV(Op op,unsigned w,uint64_t a,uint64_t b,uint64_t&r){
        a&=mask(w);b&=mask(w);
        switch(op){
        case O_ADD:r=a+b;break;case O_SUB:r=a-b;break;case O_MUL:r=a*b;break;
        case O_UDIV:if(!b)return false;r=a/b;break;
        case O_SDIV:if(!b)return false; if(sx(b,w)==-1){r=0-a;break;} r=sx(a,w)/sx(b,w);break;
        case O_UREM:if(!b)return false;r=a%b;break;
        case O_SREM:if(!b)return false; if(sx(b,w)==-1){r=0;break;} r=sx(a,w)%sx(b,w);break;
        case O_AND:r=a&b;break;case O_OR:r=a|b;break;case O_XOR:r=a^b;break;
        case O_SHL:r=b>=w?0:a<<b;break;case O_LSHR:r=b>=w?0:a>>b;break;
        case O_ASHR:r=b>=w?(sx(a,w)<0?~0ull:0):(uint64_t)(sx(a,w)>>b);break;
        case O_EQ:r=a==b;return true;case O_ULT:r=a<b;return true;case O_ULE:r=a<=b;return true;
        case O_SLT:r=sx(a,w)<sx(b,w);return true;case O_SLE:r=sx(a,w)<=sx(b,w);return true;
        default:return false;}
        r&=mask(w); return true; }

    int bin(Op op,int a,int b){
        unsigned w=n[a].w; uint64_t ca,cb; bool A=isC(a,&ca),B=isC(b,&cb);
        bool cmp=op>=O_EQ&&op<=O_SLE;
        if(A&&B){ uint64_t r; if(foldBV(op,w,ca,cb,r)) return cst(r,cmp?1:w); }
        if(n[a].op==O_FBITS||n[b].op==O_FBITS){
            // integer view of a real value: only sign-bit masks are understood
            if(op==O_AND&&n[a].op==O_FBITS&&B&&cb==0x7fffffffffffffffull) return fbits(fabs_(n[a].k[0]));
            if(op==O_XOR&&n[a].op==O_FBITS&&B&&cb==0x8000000000000000ull) return fbits(fneg(n[a].k[0]));
            if(op==O_EQ&&n[a].op==O_FBITS&&n[b].op==O_FBITS) return fcmp(O_FEQ,n[a].k[0],n[b].k[0]);
            throw std::runtime_error("integer operation on the bits of a symbolic double");
        }
        switch(op){
        case O_ADD: if(A&&!B)return bin(op,b,a); if(B&&cb==0)return a;
            if(B&&n[a].op==O_ADD){uint64_t c2; if(isC(n[a].k[1],&c2))return bin(O_ADD,n[a].k[0],cst(cb+c2,w));} break;
        case O_SUB: if(B&&cb==0)return a; if(a==b)return cst(0,w); if(B)return bin(O_ADD,a,cst(0-cb,w)); break;
        case O_MUL: if(A&&!B)return bin(op,b,a); if(B&&cb==0)return b; if(B&&cb==1)return a; break;
        case O_AND: if(A&&!B)return bin(op,b,a); if(B&&cb==0)return b; if(B&&cb==mask(w))return a; if(a==b)return a; break;
        case O_OR: if(A&&!B)return bin(op,b,a); if(B&&cb==0)return a; if(B&&cb==mask(w))return b; if(a==b)return a; break;
        case O_XOR: if(A&&!B)return bin(op,b,a); if(B&&cb==0)return a; if(a==b)return cst(0,w);
            if(B&&n[a].op==O_XOR){uint64_t c2; if(isC(n[a].k[1],&c2))return bin(O_XOR,n[a].k[0],cst(cb^c2,w));} break;
        case O_SHL:case O_LSHR:case O_ASHR: if(B&&cb==0)return a; break;
        case O_EQ: if(a==b)return cst(1,1); if(A&&!B)return bin(op,b,a);
            if(B){
                if(w==1) return cb?a:notb(a);
                const Node&x=n[a];
                if(x.op==O_ZEXT){ int in=x.k[0]; unsigned iw=n[in].w; if(cb>>iw) return cst(0,1); return bin(O_EQ,in,cst(cb,iw)); }
                if(x.op==O_SEXT){ int in=x.k[0]; unsigned iw=n[in].w; if((uint64_t)(sx(cb,iw))!=(uint64_t)sx(cb,w)) return cst(0,1); return bin(O_EQ,in,cst(cb,iw)); }
                if(x.op==O_ITE){ uint64_t t,f; int c=x.k[0],k1=x.k[1],k2=x.k[2]; if(isC(k1,&t)&&isC(k2,&f)){ bool et=t==cb,ef=f==cb; if(et&&ef)return cst(1,1); if(et)return c; if(ef)return notb(c); return cst(0,1);} }
                if(x.op==O_ADD){ uint64_t c2; int k0=x.k[0]; if(isC(x.k[1],&c2)) return bin(O_EQ,k0,cst(cb-c2,w)); }
            } break;
        case O_ULT: if(a==b)return cst(0,1); if(B&&cb==0)return cst(0,1); break;
        case O_ULE: if(a==b)return cst(1,1); if(A&&ca==0)return cst(1,1); break;
        case O_SLT: if(a==b)return cst(0,1); break;
        case O_SLE: if(a==b)return cst(1,1); break;
        default: break;}
        return mk(Node{op,0,false,(uint16_t)(cmp?1:w),{a,b,0},0,0}); }
    int notb(int a){ return bin(O_XOR,a,cst(1,1)); }
    int andb(int a,int b){ return bin(O_AND,a,b); }
    int orb(int a,int b){ return bin(O_OR,a,b); }
    int ite(int c,int a,int b){ uint64_t v; if(isC(c,&v))return v?a:b; if(a==b)return a;
        if(n[a].op==O_FBITS||n[b].op==O_FBITS) throw std::runtime_error("select on the bits of a symbolic double");
        if(n[a].w==1){ uint64_t x,y; if(isC(a,&x)&&isC(b,&y)) return x?c:notb(c); if(isC(a,&x)) return x?orb(c,b):andb(notb(c),b); if(isC(b,&y)) return y?orb(notb(c),a):andb(c,a); }
        return mk(Node{O_ITE,0,false,n[a].w,{c,a,b},0,0}); }
    int zext(int a,unsigned w){ uint64_t v; if(n[a].w==w)return a; if(isC(a,&v))return cst(v,w); if(n[a].op==O_ZEXT)return zext(n[a].k[0],w); return mk(Node{O_ZEXT,0,false,(uint16_t)w,{a,0,0},0,0}); }
    int sext(int a,unsigned w){ uint64_t v; if(n[a].w==w)return a; if(isC(a,&v))return cst(sx(v,n[a].w),w); if(n[a].op==O_ZEXT)return zext(n[a].k[0],w); return mk(Node{O_SEXT,0,false,(uint16_t)w,{a,0,0},0,0}); }
    int extract(int a,unsigned lo,unsigned w){ uint64_t v; if(lo==0&&n[a].w==w)return a; if(isC(a,&v))return cst(v>>lo,w);
        if(n[a].op==O_FBITS) throw std::runtime_error("partial access to a symbolic double");
        if(n[a].op==O_ZEXT||n[a].op==O_SEXT){ int in=n[a].k[0]; unsigned iw=n[in].w; if(lo+w<=iw)return extract(in,lo,w); if(n[a].op==O_ZEXT&&lo>=iw)return cst(0,w); if(lo==0){ return n[a].op==O_ZEXT?zext(in,w):sext(in,w);} }
        if(n[a].op==O_CONCAT){ int hi=n[a].k[0],l=n[a].k[1]; unsigned lw=n[l].w; if(lo+w<=lw)return extract(l,lo,w); if(lo>=lw)return extract(hi,lo-lw,w); }
        if(n[a].op==O_EXTRACT) return extract(n[a].k[0],n[a].imm+lo,w);
        return mk(Node{O_EXTRACT,0,false,(uint16_t)w,{a,0,0},lo,0}); }
    int concat(int hi,int lo){ uint64_t a,b; unsigned w=n[hi].w+n[lo].w; if(isC(hi,&a)&&isC(lo,&b)) return cst((a<<n[lo].w)|b,w);
        if(isC(hi,&a)&&a==0) return zext(lo,w);
        if(n[hi].op==O_EXTRACT&&n[lo].op==O_EXTRACT&&n[hi].k[0]==n[lo].k[0]&&n[hi].imm==n[lo].imm+n[lo].w) return extract(n[hi].k[0],n[lo].imm,w);
        return mk(Node{O_CONCAT,0,false,(uint16_t)w,{hi,lo,0},0,0}); }
    int fbits(int f){ double d; if(isFC(f,&d)){uint64_t b;memcpy(&b,&d,8);return cst(b,64);} return mk(Node{O_FBITS,0,false,64,{f,0,0},0,0}); }
    int bitsf(int b){ uint64_t v; if(isC(b,&v)){double d;memcpy(&d,&v,8);return fcst_raw(d);} if(n[b].op==O_FBITS)return n[b].k[0]; throw std::runtime_error("reinterpretation of symbolic integer as double"); }
    int fcst_raw(double d){ return mk(Node{O_FCONST,0,true,64,{0,0,0},0,d}); }

    static bool bad(double d){ return std::isnan(d)||std::isinf(d); }
    int fbin(Op op,int a,int b){
        double x,y; bool A=isFC(a,&x),B=isFC(b,&y);
        if(A&&B){ double r=0; switch(op){case O_FADD:r=x+y;break;case O_FSUB:r=x-y;break;case O_FMUL:r=x*y;break;case O_FDIV:r=x/y;break;default:;} return fcst_raw(r); }
        if(A&&std::isnan(x))return a; if(B&&std::isnan(y))return b;
        if((A&&std::isinf(x))||(B&&std::isinf(y))){
            if(op==O_FADD)return A?a:b; if(op==O_FSUB)return A?a:fcst_raw(-y); if(op==O_FDIV&&B)return fcst(0);
            throw std::runtime_error("infinity times symbolic value"); }
        switch(op){
        case O_FADD: if(A&&x==0)return b; if(B&&y==0)return a; if(n[b].op==O_FNEG)return fbin(O_FSUB,a,n[b].k[0]); if(n[a].op==O_FNEG)return fbin(O_FSUB,b,n[a].k[0]); if(a>b)std::swap(a,b); break;
        case O_FSUB: if(B&&y==0)return a; if(A&&x==0)return fneg(b); if(a==b)return fcst(0); if(n[b].op==O_FNEG)return fbin(O_FADD,a,n[b].k[0]); break;
        case O_FMUL: if(n[a].op==O_FDIV&&n[a].k[1]==b)return n[a].k[0]; if(n[b].op==O_FDIV&&n[b].k[1]==a)return n[b].k[0]; // divisors are non-zero (domain assumption)
            if(A&&x==0)return fcst(0); if(B&&y==0)return fcst(0); if(A&&x==1)return b; if(B&&y==1)return a; if(A&&x==-1)return fneg(b); if(B&&y==-1)return fneg(a);
            if(n[a].op==O_FNEG&&n[b].op==O_FNEG)return fbin(O_FMUL,n[a].k[0],n[b].k[0]);
            if(n[a].op==O_FNEG)return fneg(fbin(O_FMUL,n[a].k[0],b)); if(n[b].op==O_FNEG)return fneg(fbin(O_FMUL,a,n[b].k[0])); if(a>b)std::swap(a,b); break;
        case O_FDIV: if(A&&x==0)return fcst(0); if(B&&y==1)return a; if(B&&y==-1)return fneg(a); if(a==b)return fcst(1); { double q; if(n[b].op==O_FDIV&&isFC(n[b].k[0],&q)&&q==1)return fbin(O_FMUL,a,n[b].k[1]); }
            if(n[a].op==O_FNEG)return fneg(fbin(O_FDIV,n[a].k[0],b)); if(n[b].op==O_FNEG)return fneg(fbin(O_FDIV,a,n[b].k[0])); break;
        default:;}
        return mk(Node{op,0,true,64,{a,b,0},0,0}); }
    int fneg(int a){ double x; if(isFC(a,&x))return fcst_raw(-x); if(n[a].op==O_FNEG)return n[a].k[0]; if(n[a].op==O_FSUB)return fbin(O_FSUB,n[a].k[1],n[a].k[0]); return mk(Node{O_FNEG,0,true,64,{a,0,0},0,0}); }
    int fabs_(int a){ double x; if(isFC(a,&x))return fcst_raw(std::fabs(x)); if(n[a].op==O_FNEG)return fabs_(n[a].k[0]); if(n[a].op==O_FABS)return a; if(n[a].op==O_FFN&&n[a].aux==FN_SQRT)return a; return mk(Node{O_FABS,0,true,64,{a,0,0},0,0}); }
    int ffn(int f,int a){ double x; if(isFC(a,&x))return fcst_raw(fnEval(f,x));
        if(n[a].op==O_FNEG){ if(f==FN_COS||f==FN_COSH)return ffn(f,n[a].k[0]); if(f==FN_SIN||f==FN_SINH||f==FN_ATAN||f==FN_ASIN||f==FN_TANH||f==FN_CBRT)return fneg(ffn(f,n[a].k[0])); }
        if(n[a].op==O_FABS&&(f==FN_COS||f==FN_COSH))return ffn(f,n[a].k[0]);
        return mk(Node{O_FFN,(uint8_t)f,true,64,{a,0,0},0,0}); }
    int fpow(int a,int b){ double x,y; if(isFC(a,&x)&&isFC(b,&y))return fcst_raw(pow(x,y));
        if(isFC(b,&y)){ if(y==0)return fcst(1); if(y==0.5)return ffn(FN_SQRT,a);
            if(y==std::floor(y)&&std::fabs(y)<=64){ int m=std::abs((int)y); int r=a; for(int i=1;i<m;i++)r=fbin(O_FMUL,r,a); return y<0?fbin(O_FDIV,fcst(1),r):r; } }
        return mk(Node{O_FPOW,0,true,64,{a,b,0},0,0}); }
    int fite(int c,int a,int b){ uint64_t v; if(isC(c,&v))return v?a:b; if(a==b)return a; return mk(Node{O_FITE,0,true,64,{c,a,b},0,0}); }
    int itof(int a,bool sgn){ uint64_t v; if(isC(a,&v))return fcst(sgn?(double)sx(v,n[a].w):(double)v); return mk(Node{O_ITOF,(uint8_t)sgn,true,64,{a,0,0},0,0}); }
    int fcmp(Op op,int a,int b){ double x,y; bool A=isFC(a,&x),B=isFC(b,&y);
        if(A&&B)return cst(op==O_FLT?x<y:op==O_FLE?x<=y:x==y,1);
        if((A&&std::isnan(x))||(B&&std::isnan(y)))return cst(0,1);
        if(A&&std::isinf(x))return cst(op==O_FEQ?0:x<0,1); if(B&&std::isinf(y))return cst(op==O_FEQ?0:y>0,1);
        if(a==b)return cst(op!=O_FLT,1);
        if(op==O_FEQ&&a>b)std::swap(a,b);
        return mk(Node{op,0,false,1,{a,b,0},0,0}); }

    // numeric evaluation under an assignment (by var index)
    struct Asg { std::vector<double> d; std::vector<uint64_t> b; };
    struct EV { double d; uint64_t b; };
    EV eval(int id,const Asg&A,std::unordered_map<int,EV>&memo){
        auto it=memo.find(id); if(it!=memo.end())return it->second;
        // iterative post-order: DAGs get deep
        std::vector<std::pair<int,int>> st; st.push_back({id,0});
        while(!st.empty()){
            auto&[x,ph]=st.back(); if(memo.count(x)){st.pop_back();continue;}
            const Node&N=n[x];
            if(ph<3){ int k=N.k[ph]; ph++; if(k&&!memo.count(k))st.push_back({k,0}); continue; }
            int xx=x; st.pop_back(); memo[xx]=eval1(xx,A,memo);
        }
        return memo[id]; }
    EV eval1(int x,const Asg&A,std::unordered_map<int,EV>&memo){
        const Node&N=n[x]; EV r{0,0}; auto D=[&](int i){return memo[N.k[i]].d;}; auto Bv=[&](int i){return memo[N.k[i]].b;};
        switch(N.op){
        case O_CONST:r.b=N.imm;break; case O_VAR:r.b=A.b[N.imm]&mask(N.w);break;
        case O_FCONST:r.d=N.d;break; case O_FVAR:r.d=A.d[N.imm];break;
        case O_ITE:r.b=Bv(0)?Bv(1):Bv(2);break; case O_FITE:r.d=Bv(0)?D(1):D(2);break;
        case O_ZEXT:r.b=Bv(0);break; case O_SEXT:r.b=sx(Bv(0),n[N.k[0]].w)&mask(N.w);break;
        case O_EXTRACT:r.b=(Bv(0)>>N.imm)&mask(N.w);break; case O_CONCAT:r.b=((Bv(0)<<n[N.k[1]].w)|Bv(1))&mask(N.w);break;
        case O_FADD:r.d=D(0)+D(1);break;case O_FSUB:r.d=D(0)-D(1);break;case O_FMUL:r.d=D(0)*D(1);break;case O_FDIV:r.d=D(0)/D(1);break;
        case O_FNEG:r.d=-D(0);break;case O_FABS:r.d=std::fabs(D(0));break;case O_FFN:r.d=fnEval(N.aux,D(0));break;case O_FPOW:r.d=pow(D(0),D(1));break;
        case O_ITOF:r.d=N.aux?(double)sx(Bv(0),n[N.k[0]].w):(double)Bv(0);break;
        case O_FLT:r.b=D(0)<D(1);break;case O_FLE:r.b=D(0)<=D(1);break;case O_FEQ:r.b=D(0)==D(1);break;
        case O_FTOI:r.b=(uint64_t)(int64_t)D(0)&mask(N.w);break;
        case O_FBITS:{double d=D(0);memcpy(&r.b,&d,8);break;}
        default:{ uint64_t v=0; unsigned w=n[N.k[0]].w; if(!foldBV(N.op,w,Bv(0),Bv(1),v)) v=(N.op==O_UDIV||N.op==O_SDIV)?mask(w):Bv(0); r.b=v; }
        }
        return r; }

    // interval of a real node given the declared ranges of the inputs (outward slack, may be infinite)
    struct Iv{double lo,hi;};
    std::unordered_map<int,Iv> ivmemo;
    Iv iv(int id){
        auto it=ivmemo.find(id); if(it!=ivmemo.end())return it->second;
        const double INF=std::numeric_limits<double>::infinity();
        Node N=n[id]; Iv r{-INF,INF};
        auto out=[&](double lo,double hi){ if(std::isnan(lo)||std::isnan(hi))return Iv{-INF,INF}; return Iv{lo-1e-12*std::fabs(lo)-1e-300,hi+1e-12*std::fabs(hi)+1e-300}; };
        switch(N.op){
        case O_FCONST:r=Iv{N.d,N.d};break; case O_FVAR:r=Iv{vars[N.imm].lo,vars[N.imm].hi};break;
        case O_FADD:{Iv a=iv(N.k[0]),b=iv(N.k[1]);r=out(a.lo+b.lo,a.hi+b.hi);break;}
        case O_FSUB:{Iv a=iv(N.k[0]),b=iv(N.k[1]);r=out(a.lo-b.hi,a.hi-b.lo);break;}
        case O_FMUL:{Iv a=iv(N.k[0]),b=iv(N.k[1]); if(N.k[0]==N.k[1]){ double m=std::max(std::fabs(a.lo),std::fabs(a.hi)); double l=(a.lo<=0&&a.hi>=0)?0:std::min(std::fabs(a.lo),std::fabs(a.hi)); r=out(l*l,m*m); if(r.lo<0)r.lo=0; break;}
            double p[]={a.lo*b.lo,a.lo*b.hi,a.hi*b.lo,a.hi*b.hi}; double lo=p[0],hi=p[0]; bool nan=false; for(double q:p){if(std::isnan(q))nan=true;lo=std::min(lo,q);hi=std::max(hi,q);} if(!nan)r=out(lo,hi);break;}
        case O_FDIV:{Iv a=iv(N.k[0]),b=iv(N.k[1]); if(b.lo>0||b.hi<0){double p[]={a.lo/b.lo,a.lo/b.hi,a.hi/b.lo,a.hi/b.hi};double lo=p[0],hi=p[0]; bool nan=false; for(double q:p){if(std::isnan(q))nan=true;lo=std::min(lo,q);hi=std::max(hi,q);} if(!nan)r=out(lo,hi);}break;}
        case O_FNEG:{Iv a=iv(N.k[0]);r=Iv{-a.hi,-a.lo};break;}
        case O_FABS:{Iv a=iv(N.k[0]);double m=std::max(std::fabs(a.lo),std::fabs(a.hi));double l=(a.lo<=0&&a.hi>=0)?0:std::min(std::fabs(a.lo),std::fabs(a.hi));r=Iv{l,m};break;}
        case O_FFN:{Iv a=iv(N.k[0]); switch(N.aux){
            case FN_SIN:case FN_COS:r=Iv{-1,1};break; case FN_TANH:r=Iv{-1,1};break;
            case FN_SQRT:r=out(std::sqrt(std::max(0.0,a.lo)),std::sqrt(std::max(0.0,a.hi))); if(r.lo<0)r.lo=0; break;
            case FN_EXP:r=out(std::exp(a.lo),std::exp(a.hi)); if(r.lo<0)r.lo=0;break;
            case FN_SINH:r=out(std::sinh(a.lo),std::sinh(a.hi));break;
            case FN_COSH:{double m=std::max(std::fabs(a.lo),std::fabs(a.hi));r=out(1,std::cosh(m));r.lo=1;break;}
            case FN_ATAN:r=Iv{-1.5707963267948968,1.5707963267948968};break;
            case FN_LOG: if(a.lo>0)r=out(std::log(a.lo),std::log(a.hi));break;
            default:break;} break;}
        case O_FPOW:{Iv a=iv(N.k[0]);double y; if(isFC(N.k[1],&y)&&a.lo>0){double p=std::pow(a.lo,y),q=std::pow(a.hi,y);r=out(std::min(p,q),std::max(p,q));}break;}
        case O_FITE:{Iv a=iv(N.k[1]),b=iv(N.k[2]);r=Iv{std::min(a.lo,b.lo),std::max(a.hi,b.hi)};break;}
        default:break;}
        ivmemo[id]=r; return r; }
};
