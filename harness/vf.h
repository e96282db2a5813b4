// Interface between a harness and the checker.  Under the symbolic interpreter these calls are
// intercepted; in a native replay build they are implemented by native/vf_native.cpp.
#ifndef VF_H
#define VF_H
extern "C" {
double vf_real(const char*name,double lo,double hi);
int    vf_int(const char*name,int lo,int hi);
long   vf_long(const char*name,long lo,long hi);
signed char vf_byte(const char*name);
int    vf_choice(const char*name,int n);
int    vf_concrete_int(int v);
void   vf_assume(int c);
void   vf_assert(int c,const char*id);
void   vf_eq(double a,double b,double tol,const char*id);
int    vf_symbolic(void);
int    vf_issym(double v);
void   vf_cover(const char*name);
void   vf_done(void) __attribute__((noreturn));
void   vf_trace(const char*msg,double v);
int    vf_tier(void);            // 0 quick, 1 thorough
void vf_main();
}
// default relative tolerance: exact in real arithmetic, replay runs in IEEE double
#define VF_TOL 1e-9
#endif
