// C15: automatic differentiation: value, gradient and Hessian of every operation follow the chain rule
#include "vf.h"
#include "anifem++/autodiff/autodiff.h"
#include <vector>
#include <string>
using namespace Ani;
#ifndef ST
#define ST 0
#endif
#if ST==0
typedef PhysArrStorageSet<2> S; static const int M=2;
template<class G> static double gg(const G&g,int k){ return g[k]; } template<class H> static double hh(const H&h,int k,int l){ return h(k,l); }
template<class H> static void hs(H&h,int k,int l,double x){ h(k,l)=x; }
#elif ST==1
typedef PhysSymTensorStorageSet<3> S; static const int M=6; static const int I6[6][2]={{0,0},{0,1},{0,2},{1,1},{1,2},{2,2}};
template<class G> static double gg(const G&g,int k){ return g(I6[k][1],I6[k][0]); } template<class H> static double hh(const H&h,int k,int l){ return h(I6[k][0],I6[k][1],I6[l][1],I6[l][0]); }
template<class H> static void hs(H&h,int k,int l,double x){ h(I6[k][0],I6[k][1],I6[l][0],I6[l][1])=x; }
#else
typedef PhysTensorStorageSet<2> S; static const int M=4;
template<class G> static double gg(const G&g,int k){ return g(k/2,k%2); } template<class H> static double hh(const H&h,int k,int l){ return h(k/2,k%2,l/2,l%2); }
template<class H> static void hs(H&h,int k,int l,double x){ h(k/2,k%2,l/2,l%2)=x; }
#endif
typedef S::GradientType GT; typedef S::HessianType HT;
template<bool a,bool b> using AD=ADVal<ADState<true,a,b>,S>;
typedef AD<true,true> A2; typedef AD<true,false> A1; typedef AD<false,false> A0; typedef Var<S> V; typedef Param<S> Pm;
struct W { double v; double g[M]; double h[M][M]; int dif; };
static W lift(const W&a,double f,double f1,double f2){ W r; r.v=f; r.dif=a.dif; for(int k=0;k<M;k++){ r.g[k]=f1*a.g[k]; for(int l=0;l<M;l++) r.h[k][l]=f2*a.g[k]*a.g[l]+f1*a.h[k][l]; } return r; }
static W lift2(const W&a,const W&b,double f,double fa,double fb,double faa,double fab,double fbb){ W r; r.v=f; r.dif=std::max(a.dif,b.dif); for(int k=0;k<M;k++){ r.g[k]=fa*a.g[k]+fb*b.g[k]; for(int l=0;l<M;l++) r.h[k][l]=faa*a.g[k]*a.g[l]+fab*(a.g[k]*b.g[l]+b.g[k]*a.g[l])+fbb*b.g[k]*b.g[l]+fa*a.h[k][l]+fb*b.h[k][l]; } return r; }
static W cst(double c){ W r; r.v=c; r.dif=0; for(int k=0;k<M;k++){ r.g[k]=0; for(int l=0;l<M;l++) r.h[k][l]=0; } return r; }
static W zeroDif(const W&a){ W r=cst(a.v); r.dif=a.dif; return r; }
static std::string op; // name of the operation in progress
template<class E> static void sameRaw(const E&e,const W&w,const char*how){ std::string m=op+how; vf_close(e(),w.v,1e-9,("value of "+m).c_str()); int d=w.dif; if (d<1) return; auto g=e.D(); for(int k=0;k<M;k++) vf_close(gg(g,k),w.g[k],1e-9,("gradient of "+m).c_str()); if (d<2) return; auto h=e.DD(); for(int k=0;k<M;k++) for(int l=k;l<M;l++) vf_close((k+l)%2?hh(h,l,k):hh(h,k,l),w.h[k][l],1e-9,("Hessian of "+m).c_str()); }
// also through operations that trust the static knowledge about vanishing derivatives
template<class E> static void same(const E&e,const W&w){ sameRaw(e,w,""); sameRaw(make_shell(e),w," after make_shell"); W t=lift(w,-w.v,-1,0); sameRaw(-e,t," after change of sign"); }
// operands: kinds 0 Var, 1 Param, 2 general, 3 without Hessian, 4 without derivatives
static double box(const char*n,double lo,double hi){ return vf_real(n,lo,hi); }
struct In { W w; };
static In mk(int kind,const char*n,double lo,double hi,int dif,int iv){ In r; r.w=cst(box(n,lo,hi)); r.w.dif=dif; std::string s(n); if (kind==0){ if (dif>=1) for(int k=0;k<M;k++) r.w.g[k]= k==iv?1:0; } if (kind==1) r.w.dif=0; if (kind==2||kind==3) for(int k=0;k<M;k++) r.w.g[k]=dif>=1?vf_real((s+"'").c_str(),-1,1):0; if (kind==2) for(int k=0;k<M;k++) for(int l=k;l<M;l++) r.w.h[k][l]=r.w.h[l][k]=dif>=2?vf_real((s+"''").c_str(),-1,1):0; return r; }
template<class E> static E ad(const W&w){ GT g; for(int k=0;k<M;k++) g[k]=w.g[k]; HT h; for(int k=0;k<M;k++) for(int l=k;l<M;l++) hs(h,k,l,w.h[k][l]); E e; e.Init(w.dif,w.v,g,h); return e; }
template<class F> static void with(int kind,const In&i,int iv,F f){ switch(kind){ case 0: f(V(iv,i.w.v,i.w.dif)); break; case 1: f(Pm(i.w.v)); break; case 2: f(ad<A2>(i.w)); break; case 3: f(ad<A1>(i.w)); break; case 4: f(ad<A0>(i.w)); break; } }
#define KIND(nm) vf_pick(nm " kind",0,4)
#define DIF vf_pick("derivatives",0,2)
// ---------------------------------------------------------------- unary functions
static const int NU=22;
template<class F> static void unary(int k,F f){ using namespace std; switch(k){
 case 0: f(0.2,0.8,[](auto a){ return exp(a); },[](double x,double*d){ d[0]=d[1]=d[2]=std::exp(x); },"exp"); break;
 case 1: f(0.2,0.8,[](auto a){ return expm1(a); },[](double x,double*d){ d[1]=d[2]=std::exp(x); d[0]=d[1]-1; },"expm1"); break;
 case 2: f(0.2,1.8,[](auto a){ return log(a); },[](double x,double*d){ d[0]=std::log(x); d[1]=1/x; d[2]=-1/(x*x); },"log"); break;
 case 3: f(-0.5,0.8,[](auto a){ return log1p(a); },[](double x,double*d){ d[0]=std::log(1+x); d[1]=1/(1+x); d[2]=-1/((1+x)*(1+x)); },"log1p"); break;
 case 4: f(0.2,1.8,[](auto a){ return sqrt(a); },[](double x,double*d){ double s=std::sqrt(x); d[0]=s; d[1]=0.5/s; d[2]=-0.25/(x*s); },"sqrt"); break;
 case 5: f(0.2,1.8,[](auto a){ return cbrt(a); },[](double x,double*d){ double s=std::cbrt(x); d[0]=s; d[1]=1/(3*s*s); d[2]=-2/(9*s*s*x); },"cbrt"); break;
 case 6: f(-1.2,1.2,[](auto a){ return sin(a); },[](double x,double*d){ d[0]=std::sin(x); d[1]=std::cos(x); d[2]=-std::sin(x); },"sin"); break;
 case 7: f(-1.2,1.2,[](auto a){ return cos(a); },[](double x,double*d){ d[0]=std::cos(x); d[1]=-std::sin(x); d[2]=-std::cos(x); },"cos"); break;
 case 8: f(-1.2,1.2,[](auto a){ return tan(a); },[](double x,double*d){ double s=std::sin(x),c=std::cos(x); d[0]=s/c; d[1]=1/(c*c); d[2]=2*s/(c*c*c); },"tan"); break;
 case 9: f(-1.2,1.2,[](auto a){ return atan(a); },[](double x,double*d){ d[0]=std::atan(x); d[1]=1/(1+x*x); d[2]=-2*x/((1+x*x)*(1+x*x)); },"atan"); break;
 case 10: f(-0.8,0.8,[](auto a){ return asin(a); },[](double x,double*d){ double t=std::sqrt(1-x*x); d[0]=std::asin(x); d[1]=1/t; d[2]=x/((1-x*x)*t); },"asin"); break;
 case 11: f(-0.8,0.8,[](auto a){ return acos(a); },[](double x,double*d){ double t=std::sqrt(1-x*x); d[0]=std::acos(x); d[1]=-1/t; d[2]=-x/((1-x*x)*t); },"acos"); break;
 case 12: f(-1.2,1.2,[](auto a){ return sinh(a); },[](double x,double*d){ d[0]=d[2]=std::sinh(x); d[1]=std::cosh(x); },"sinh"); break;
 case 13: f(-1.2,1.2,[](auto a){ return cosh(a); },[](double x,double*d){ d[0]=d[2]=std::cosh(x); d[1]=std::sinh(x); },"cosh"); break;
 case 14: f(-1.2,1.2,[](auto a){ return tanh(a); },[](double x,double*d){ double s=std::sinh(x),c=std::cosh(x); d[0]=s/c; d[1]=1/(c*c); d[2]=-2*s/(c*c*c); },"tanh"); break;
 case 15: f(-1.2,1.2,[](auto a){ return sq(a); },[](double x,double*d){ d[0]=x*x; d[1]=2*x; d[2]=2; },"sq"); break;
 case 16: f(-1.2,1.2,[](auto a){ return cube(a); },[](double x,double*d){ d[0]=x*x*x; d[1]=3*x*x; d[2]=6*x; },"cube"); break;
 case 17: f(-1.2,1.2,[](auto a){ return -a; },[](double x,double*d){ d[0]=-x; d[1]=-1; d[2]=0; },"minus"); break;
 case 18: f(-1.2,1.2,[](auto a){ return abs(a); },[](double x,double*d){ d[0]=x>=0?x:-x; d[1]=x>=0?1:-1; d[2]=0; },"abs"); break;
 case 19: f(-1.2,1.2,[](auto a){ return sign(a); },[](double x,double*d){ d[0]=x>0?1:x<0?-1:0; d[1]=d[2]=0; },"sign"); break;
 case 20: f(-1.2,1.2,[](auto a){ return make_ADVal(a); },[](double x,double*d){ d[0]=x; d[1]=1; d[2]=0; },"make_ADVal"); break;
 case 21: f(-1.2,1.2,[](auto a){ return unary_operation(a,[](unsigned,double x){ return std::array<double,3>{x*x*x+2*x,3*x*x+2,6*x}; }); },[](double x,double*d){ d[0]=x*x*x+2*x; d[1]=3*x*x+2; d[2]=6*x; },"user function"); break; } }
VF_CASES(unary,22,k){ unary(k,[&](double lo,double hi,auto fn,auto der,const char*nm){ op=nm; int kd=KIND("x"), dif=DIF, iv=M-1; In i=mk(kd,"x",lo,hi,dif,iv); double d[3]; der(i.w.v,d); W w=lift(i.w,d[0],d[1],d[2]); with(kd,i,iv,[&](auto a){ same(fn(a),w); }); }); }
// ---------------------------------------------------------------- binary functions
template<class F> static void binary(int k,F f){ switch(k){
 case 0: f(-1,1,-1,1,[](auto a,auto b){ return a+b; },[](double x,double y,double*d){ d[0]=x+y; d[1]=d[2]=1; d[3]=d[4]=d[5]=0; },"+"); break;
 case 1: f(-1,1,-1,1,[](auto a,auto b){ return a-b; },[](double x,double y,double*d){ d[0]=x-y; d[1]=1; d[2]=-1; d[3]=d[4]=d[5]=0; },"-"); break;
 case 2: f(-1,1,-1,1,[](auto a,auto b){ return a*b; },[](double x,double y,double*d){ d[0]=x*y; d[1]=y; d[2]=x; d[3]=d[5]=0; d[4]=1; },"*"); break;
 case 3: f(-1,1,0.4,1.4,[](auto a,auto b){ return a/b; },[](double x,double y,double*d){ d[0]=x/y; d[1]=1/y; d[2]=-x/(y*y); d[3]=0; d[4]=-1/(y*y); d[5]=2*x/(y*y*y); },"/"); break;
 case 4: f(0.3,1.7,0.2,1.6,[](auto a,auto b){ return pow(a,b); },[](double x,double y,double*d){ double p=std::pow(x,y),L=std::log(x); d[0]=p; d[1]=y*p/x; d[2]=p*L; d[3]=y*(y-1)*p/(x*x); d[4]=p/x+y*p*L/x; d[5]=p*L*L; },"pow"); break;
 case 5: f(-1,1,0.3,1.2,[](auto a,auto b){ return atan2(a,b); },[](double y,double x,double*d){ double r=x*x+y*y; d[0]=std::atan2(y,x); d[1]=x/r; d[2]=-y/r; d[3]=-2*x*y/(r*r); d[4]=(y*y-x*x)/(r*r); d[5]=2*x*y/(r*r); },"atan2"); break;
 case 6: f(-1,1,-1,1,[](auto a,auto b){ return min(a,b); },[](double x,double y,double*d){ bool c=x<=y; d[0]=c?x:y; d[1]=c; d[2]=!c; d[3]=d[4]=d[5]=0; },"min"); break;
 case 7: f(-1,1,-1,1,[](auto a,auto b){ return max(a,b); },[](double x,double y,double*d){ bool c=x>=y; d[0]=c?x:y; d[1]=c; d[2]=!c; d[3]=d[4]=d[5]=0; },"max"); break; } }
template<class F> static void operands(double la,double ha,double lb,double hb,F f){ int ka=KIND("a"),kb=KIND("b"),dif=DIF; int jv=vf_pick("same variable",0,1)?0:M-1; In a=mk(ka,"a",la,ha,dif,0),b=mk(kb,"b",lb,hb,dif,jv); with(ka,a,0,[&](auto x){ with(kb,b,jv,[&](auto y){ f(x,a.w,y,b.w); }); }); }
VF_CASES(binary,8,k){ binary(k,[&](double la,double ha,double lb,double hb,auto fn,auto der,const char*nm){ op=nm; operands(la,ha,lb,hb,[&](auto x,const W&a,auto y,const W&b){ double d[6]; der(a.v,b.v,d); W w=lift2(a,b,d[0],d[1],d[2],d[3],d[4],d[5]); if (k>=6&&w.dif>0){ w.dif=d[1]>0.5?a.dif:b.dif; } same(fn(x,y),w); }); }); }
// ---------------------------------------------------------------- with numbers
template<class F> static void mixed(int k,F f){ switch(k){
 case 0: f(-1,1,[](auto a,double c){ return a+c; },[](double x,double c,double*d){ d[0]=x+c; d[1]=1; d[2]=0; },"+ number"); break;
 case 1: f(-1,1,[](auto a,double c){ return c+a; },[](double x,double c,double*d){ d[0]=x+c; d[1]=1; d[2]=0; },"number +"); break;
 case 2: f(-1,1,[](auto a,double c){ return a-c; },[](double x,double c,double*d){ d[0]=x-c; d[1]=1; d[2]=0; },"- number"); break;
 case 3: f(-1,1,[](auto a,double c){ return c-a; },[](double x,double c,double*d){ d[0]=c-x; d[1]=-1; d[2]=0; },"number -"); break;
 case 4: f(-1,1,[](auto a,double c){ return a*c; },[](double x,double c,double*d){ d[0]=x*c; d[1]=c; d[2]=0; },"* number"); break;
 case 5: f(-1,1,[](auto a,double c){ return c*a; },[](double x,double c,double*d){ d[0]=x*c; d[1]=c; d[2]=0; },"number *"); break;
 case 6: f(-1,1,[](auto a,double c){ return a/c; },[](double x,double c,double*d){ d[0]=x/c; d[1]=1/c; d[2]=0; },"/ number"); break;
 case 7: f(0.4,1.4,[](auto a,double c){ return c/a; },[](double x,double c,double*d){ d[0]=c/x; d[1]=-c/(x*x); d[2]=2*c/(x*x*x); },"number /"); break; } }
VF_CASES(number,8,k){ mixed(k,[&](double lo,double hi,auto fn,auto der,const char*nm){ op=nm; int kd=KIND("x"), dif=DIF; In i=mk(kd,"x",lo,hi,dif,0); double c=vf_real("number",0.3,2), d[3]; der(i.w.v,c,d); W w=lift(i.w,d[0],d[1],d[2]); with(kd,i,0,[&](auto a){ same(fn(a,c),w); }); }); }
// powers
VF_CASE(powint){ int q=vf_pick("exponent",-4,6), ty=vf_pick("type",0,1), kd=KIND("x"), dif=DIF; bool z=vf_pick("at zero",0,1); if (z&&q<0) return; op="pow with integer exponent"; In i=mk(kd,"x",0.3,1.7,dif,0); if (z) i.w.v=0; double x=i.w.v, p[3]={1,0,0}; for(int k=0;k<3;k++){ double c=1; for(int j=0;j<k;j++) c*=q-j; if (c==0){ p[k]=0; continue; } double v=1; int e=q-k; for(int j=0;j<(e<0?-e:e);j++) v*=x; p[k]=c*(e<0?1/v:v); } W w=lift(i.w,p[0],p[1],p[2]); with(kd,i,0,[&](auto a){ if (ty) same(pow(a,q),w); else same(pow(a,(long)q),w); }); }
VF_CASE(powreal){ static const double Q[]={-2.5,-1,-0.5,0,0.5,1,1.5,2,2.25,3,3.5}; double q=Q[vf_pick("exponent",0,10)]; int kd=KIND("x"), dif=DIF; bool z=vf_pick("at zero",0,1); if (z && !(q==0||q==1||q>=2)) return; op="pow with real exponent"; In i=mk(kd,"x",0.3,1.7,dif,0); if (z) i.w.v=0; double x=i.w.v; double p0=std::pow(x,q),p1=q==0?0:q*std::pow(x,q-1),p2=q*(q-1)==0?0:q*(q-1)*std::pow(x,q-2); W w=lift(i.w,p0,p1,p2); with(kd,i,0,[&](auto a){ same(pow(a,q),w); }); }
VF_CASE(powbase){ int kd=KIND("x"), dif=DIF; op="power of a number"; In i=mk(kd,"x",-1,1,dif,0); double c=vf_real("base",0.4,1.6), L=std::log(c), p=std::pow(c,i.w.v); W w=lift(i.w,p,p*L,p*L*L); auto f=[&](auto a){ same(pow(c,a),w); }; switch(kd){ case 0: f(V(0,i.w.v,i.w.dif)); break; case 1: f(Pm(i.w.v)); break; case 2: f(ad<A2>(i.w)); break; case 3: f(ad<A1>(i.w)); break; case 4: f(ad<A0>(i.w)); } }
// several arguments
VF_CASES(hypot,5,k){ int n=vf_pick("arguments",1,4), dif=DIF; op="hypot"; std::vector<In> v; double s=0; for(int i=0;i<n;i++){ v.push_back(mk(k,"x",i==0&&n==1?-1.2:0.2,1.2,dif,i%M)); s+=v[i].w.v*v[i].w.v; } double r=std::sqrt(s); if (n==1){ r=v[0].w.v<0?-v[0].w.v:v[0].w.v; s=r*r; } W w=cst(r); w.dif=v[0].w.dif; for(int i=0;i<n;i++){ double x=v[i].w.v; for(int p=0;p<M;p++){ w.g[p]+=x/r*v[i].w.g[p]; for(int q=0;q<M;q++){ w.h[p][q]+=x/r*v[i].w.h[p][q]; for(int j=0;j<n;j++) w.h[p][q]+=((i==j?1/r:0)-(n==1?1/r:x*v[j].w.v/(r*s)))*v[i].w.g[p]*v[j].w.g[q]; } } }
    switch(k){
#define HY(T,MK) { T e[4]={MK(0),MK(1),MK(2),MK(3)}; same(hypot(e,n),w); if (n==2) same(hypot({e[0],e[1]}),w); if (n==3) same(hypot({e[0],e[1],e[2]}),w); } break;
#define GET(i) v[(i)<n?(i):0].w
#define MV(i) V((i)%M,GET(i).v,GET(i).dif)
#define MP(i) Pm(GET(i).v)
#define MA2(i) ad<A2>(GET(i))
#define MA1(i) ad<A1>(GET(i))
#define MA0(i) ad<A0>(GET(i))
    case 0: { V e[4]={MV(0),MV(1),MV(2),MV(3)}; same(hypot(e,n),w); if (n==3) same(hypot({e[0],e[1],e[2]}),w); } break; case 1: { same(hypot(std::vector<Pm>{MP(0),MP(1),MP(2),MP(3)}.data(),n),w); } break; case 2: HY(A2,MA2) case 3: HY(A1,MA1) case 4: HY(A0,MA0) } }
// assignment operations
VF_CASES(assign,4,k){ int dif=DIF; static const char*N[]={"+=","-=","*=","/="}; op=N[k]; In a=mk(2,"a",-1,1,dif,0), b=mk(2,"b",0.4,1.4,dif,0); double x=a.w.v,y=b.w.v; A2 u=ad<A2>(a.w), v=ad<A2>(b.w); W w; switch(k){ case 0: u+=v; w=lift2(a.w,b.w,x+y,1,1,0,0,0); break; case 1: u-=v; w=lift2(a.w,b.w,x-y,1,-1,0,0,0); break; case 2: u*=v; w=lift2(a.w,b.w,x*y,y,x,0,1,0); break; default: u/=v; w=lift2(a.w,b.w,x/y,1/y,-x/(y*y),0,-1/(y*y),2*x/(y*y*y)); } same(u,w); sameRaw(v,b.w," (right operand)"); 
    W s=k==0?lift(a.w,2*x,2,0):k==1?lift(a.w,0,0,0):k==2?lift(a.w,x*x,2*x,2):lift(a.w,1,0,0); if (k<3){ u=ad<A2>(a.w); u=k==0?u+=u:k==1?u-=u:u*=u; op+=" of a variable with itself"; same(u,s); } }
// comparisons
VF_CASE(compare){ operands(-1,1,-1,1,[&](auto x,const W&a,auto y,const W&b){ vf_check((x<y)==(a.v<b.v),"<"); vf_check((x>y)==(a.v>b.v),">"); vf_check((x<=y)==(a.v<=b.v),"<="); vf_check((x>=y)==(a.v>=b.v),">="); vf_check((x==y)==(a.v==b.v),"=="); vf_check((x!=y)==(a.v!=b.v),"!="); }); }
// expressions of several operations
static W wadd(const W&a,const W&b){ return lift2(a,b,a.v+b.v,1,1,0,0,0); } static W wmul(const W&a,const W&b){ return lift2(a,b,a.v*b.v,b.v,a.v,0,1,0); } static W wdiv(const W&a,const W&b){ double x=a.v,y=b.v; return lift2(a,b,x/y,1/y,-x/(y*y),0,-1/(y*y),2*x/(y*y*y)); } static W wexp(const W&a){ double e=std::exp(a.v); return lift(a,e,e,e); } static W wlog(const W&a){ return lift(a,std::log(a.v),1/a.v,-1/(a.v*a.v)); } static W wneg(const W&a){ return lift(a,-a.v,-1,0); } static W wpow(const W&a,double q){ return lift(a,std::pow(a.v,q),q*std::pow(a.v,q-1),q*(q-1)*std::pow(a.v,q-2)); } static W wsin(const W&a){ return lift(a,std::sin(a.v),std::cos(a.v),-std::sin(a.v)); }
VF_CASES(chain,8,k){ op="expression"; operands(0.4,1.2,0.4,1.2,[&](auto x,const W&a,auto y,const W&b){ W one=cst(1), two=cst(2); switch(k){
    case 0: same((x+y)*(x-y)+x*y, wadd(wmul(wadd(a,b),wadd(a,wneg(b))),wmul(a,b))); break;
    case 1: same(exp(x*y)/(x+y), wdiv(wexp(wmul(a,b)),wadd(a,b))); break;
    case 2: same(sq(1./x)+y/x, wadd(wpow(wdiv(one,a),2),wdiv(b,a))); break;
    case 3: same(log(x/y)*sin(1./y), wmul(wlog(wdiv(a,b)),wsin(wdiv(one,b)))); break;
    case 4: same(2.*(x-1.)*(x-1.)-pow(y,-2)*x, wadd(wmul(two,wpow(wadd(a,cst(-1)),2)),wneg(wmul(wpow(b,-2),a)))); break;
    case 5: same(sqrt(x+y/x)*exp(-y), wmul(wpow(wadd(a,wdiv(b,a)),0.5),wexp(wneg(b)))); break;
    case 6: same(abs(-x)*sign(y)+max(x*y,x*y*0.5), wadd(a,wmul(a,b))); break;
    case 7: same((1./x)*(1./y)-1./(x*y), lift2(a,b,0,0,0,0,0,0)); break; } }); }
