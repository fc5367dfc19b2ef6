// Common oracle for the finite element harnesses: an independent description of every space
// (basis functions as polynomials in the barycentric coordinates) and of composite spaces.
#pragma once
#include "vf.h"
#include <vector>
#include <array>
#include <memory>
#include <stdexcept>
#include <functional>
#include "anifem++/fem/fem_space.h"
#include "anifem++/fem/spaces/spaces.h"
#include "anifem++/fem/operations/operations.h"
namespace orc {
typedef std::vector<double> Vec;
static const int E0[6]={0,0,0,1,1,2}, E1[6]={1,2,3,2,3,3};
static const int FN[4][3]={{0,1,2},{1,2,3},{2,3,0},{3,0,1}};
struct Tt { double P[4][3]; double g[4][3]; double det; };
static inline void crossp(const double*a,const double*b,double*c){ c[0]=a[1]*b[2]-a[2]*b[1]; c[1]=a[2]*b[0]-a[0]*b[2]; c[2]=a[0]*b[1]-a[1]*b[0]; }
static inline double dot3(const double*a,const double*b){ return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
static inline void sub3(const double*a,const double*b,double*c){ for(int i=0;i<3;i++) c[i]=a[i]-b[i]; }
static inline double dist(const double*a,const double*b){ double d[3]; sub3(a,b,d); return std::sqrt(dot3(d,d)); }
static inline double triArea(const double*a,const double*b,const double*c){ double u[3],v[3],n[3]; sub3(b,a,u); sub3(c,a,v); crossp(u,v,n); return std::sqrt(dot3(n,n))/2; }
static inline void geom(Tt&t){
    double e[4][3]; for(int i=1;i<4;i++) sub3(t.P[i],t.P[0],e[i]);
    double c[3]; crossp(e[2],e[3],c); t.det=dot3(e[1],c);
    for(int k=0;k<3;k++) t.g[1][k]=c[k]/t.det; crossp(e[3],e[1],c); for(int k=0;k<3;k++) t.g[2][k]=c[k]/t.det; crossp(e[1],e[2],c); for(int k=0;k<3;k++) t.g[3][k]=c[k]/t.det;
    for(int k=0;k<3;k++) t.g[0][k]=-t.g[1][k]-t.g[2][k]-t.g[3][k];
}
// reference, general, negatively oriented, thin and far from the origin, negatively oriented general, small
static const int NTET=6;
static inline Tt concreteTet(int n){
    static const double D[NTET][12]={ {0,0,0, 1,0,0, 0,1,0, 0,0,1},
        {0.25,-0.5,1.0, 1.5,0.25,1.25, 0.5,1.75,0.5, 0.75,0.5,3.0},
        {0,0,0, 0,1,0, 1,0,0, 0.125,0.25,1.5},
        {10.0,-20.0,30.0, 10.5,-20.0,30.125, 10.25,-19.25,30.0, 10.125,-19.875,30.0625+0.125},
        {-1.0,0.5,0.25, 0.5,2.0,-0.75, 1.25,-0.5,0.5, 0.125,0.375,-2.0},
        {0.0625,0,0, 0.125,0.0625,0, 0.0625,0.125,-0.03125, 0.03125,0.0625,0.09375} };
    Tt t; for(int i=0;i<4;i++) for(int k=0;k<3;k++) t.P[i][k]=D[n][3*i+k]; geom(t); return t;
}
static inline Tt pickTet(const char*nm="tet",int lo=0,int hi=NTET-1){ return concreteTet(vf_pick(nm,lo,hi)); }
// vertices are symbolic in a box around a general tetrahedron (orientation fixed by the box)
static inline Tt symTet(double r, int base=1){ Tt t=concreteTet(base); for(int i=0;i<4;i++) for(int k=0;k<3;k++) t.P[i][k]=vf_real("vertex",t.P[i][k]-r,t.P[i][k]+r); geom(t); return t; }
static inline void point(const Tt&t,const double*l,double*x){ for(int k=0;k<3;k++) x[k]=l[0]*t.P[0][k]+l[1]*t.P[1][k]+l[2]*t.P[2][k]+l[3]*t.P[3][k]; }
static inline void symBary(double*l){ for(int i=1;i<4;i++) l[i]=vf_real("bary",0,1); l[0]=1-l[1]-l[2]-l[3]; }
// --- primitive spaces
static inline int pdim(int f){ return (f==Ani::FEM_RT0||f==Ani::FEM_ND0)?3:1; }
static inline int pnfa(int f){ switch(f){ case Ani::FEM_P0: return 1; case Ani::FEM_P1: return 4; case Ani::FEM_P2: return 10; case Ani::FEM_P3: return 20; case Ani::FEM_RT0: return 4; case Ani::FEM_ND0: return 6; case Ani::FEM_CR1: return 4; case Ani::FEM_B2: return 6; case Ani::FEM_B4: return 1; } return 0; }
// scalar polynomial in lambda: value and derivatives by lambda_m
static inline void pscal(int f,int i,const double*l,double&v,double*d){
    for(int m=0;m<4;m++) d[m]=0; v=0;
    switch(f){
    case Ani::FEM_P0: v=1; break;
    case Ani::FEM_P1: v=l[i]; d[i]=1; break;
    case Ani::FEM_P2: if (i<4){ v=l[i]*(2*l[i]-1); d[i]=4*l[i]-1; } else { int a=E0[i-4],b=E1[i-4]; v=4*l[a]*l[b]; d[a]=4*l[b]; d[b]=4*l[a]; } break;
    case Ani::FEM_P3: if (i<4){ double x=l[i]; v=0.5*x*(3*x-1)*(3*x-2); d[i]=0.5*(27*x*x-18*x+2); }
        else if (i<16){ int e=(i-4)/2; int a=E0[e],b=E1[e]; if ((i-4)%2){ int c=a;a=b;b=c; } v=4.5*l[a]*l[b]*(3*l[a]-1); d[a]=4.5*l[b]*(6*l[a]-1); d[b]=4.5*l[a]*(3*l[a]-1); }
        else { const int*F=FN[i-16]; v=27*l[F[0]]*l[F[1]]*l[F[2]]; d[F[0]]=27*l[F[1]]*l[F[2]]; d[F[1]]=27*l[F[0]]*l[F[2]]; d[F[2]]=27*l[F[0]]*l[F[1]]; } break;
    case Ani::FEM_CR1: { int o=(i+3)%4; v=1-3*l[o]; d[o]=-3; } break;
    case Ani::FEM_B2: { int a=E0[i],b=E1[i]; v=4*l[a]*l[b]; d[a]=4*l[b]; d[b]=4*l[a]; } break;
    case Ani::FEM_B4: v=256*l[0]*l[1]*l[2]*l[3]; for(int m=0;m<4;m++){ double p=256; for(int s=0;s<4;s++) if (s!=m) p*=l[s]; d[m]=p; } break;
    }
}
// val[dim], grad[k+3*j] = d val_j / d x_k
static inline void pbasis(const Tt&t,int f,int i,const double*l,double*val,double*grad){
    if (f==Ani::FEM_RT0){ int o=(i+3)%4; double S=triArea(t.P[FN[i][0]],t.P[FN[i][1]],t.P[FN[i][2]]); double c=S*2/std::fabs(t.det); // S/(3V), V=|det|/6
        double x[3]; point(t,l,x); for(int j=0;j<3;j++){ val[j]=c*(x[j]-t.P[o][j]); for(int k=0;k<3;k++) grad[k+3*j]=(k==j?c:0); } return; }
    if (f==Ani::FEM_ND0){ int a=E0[i],b=E1[i]; double L=dist(t.P[a],t.P[b]);
        for(int j=0;j<3;j++){ val[j]=L*(l[a]*t.g[b][j]-l[b]*t.g[a][j]); for(int k=0;k<3;k++) grad[k+3*j]=L*(t.g[a][k]*t.g[b][j]-t.g[b][k]*t.g[a][j]); } return; }
    double v,d[4]; pscal(f,i,l,v,d); val[0]=v; for(int k=0;k<3;k++) grad[k]=d[0]*t.g[0][k]+d[1]*t.g[1][k]+d[2]*t.g[2][k]+d[3]*t.g[3][k];
}
// --- space trees
struct Nd { int kind=0; int fem=0; int n=0; std::vector<Nd> ch; // kind 0 primitive, 1 vector, 2 product, 3 union
    int dim() const { if (kind==0) return pdim(fem); if (kind==1) return n*ch[0].dim(); if (kind==3) return ch[0].dim(); int s=0; for(auto&c:ch) s+=c.dim(); return s; }
    int nfa() const { if (kind==0) return pnfa(fem); if (kind==1) return n*ch[0].nfa(); int s=0; for(auto&c:ch) s+=c.nfa(); return s; }
    void basis(const Tt&t,int i,const double*l,double*val,double*grad) const {
        if (kind==0){ pbasis(t,fem,i,l,val,grad); return; }
        int D=dim(); for(int j=0;j<D;j++) val[j]=0; for(int j=0;j<3*D;j++) grad[j]=0;
        if (kind==1){ int b=ch[0].nfa(), d=ch[0].dim(), c=i/b; ch[0].basis(t,i%b,l,val+c*d,grad+3*c*d); return; }
        int off=0; for(auto&c:ch){ if (i<c.nfa()){ c.basis(t,i,l,val+(kind==2?off:0),grad+3*(kind==2?off:0)); return; } i-=c.nfa(); off+=c.dim(); }
    } };
static inline Nd prim(int f){ Nd n; n.fem=f; return n; }
static inline Nd vec(int d,Nd b){ Nd n; n.kind=1; n.n=d; n.ch={b}; return n; }
static inline Nd com(std::vector<Nd> c){ Nd n; n.kind=2; n.ch=c; return n; }
static inline Nd uni(std::vector<Nd> c){ Nd n; n.kind=3; n.ch=c; return n; }
static inline int opDim(int op,int dim){ switch(op){ case Ani::GRAD: return 3*dim; case Ani::DIV: return dim/3; case Ani::CURL: return dim; } return dim; }
static inline void opBasis(const Nd&s,const Tt&t,int op,int i,const double*l,double*out){
    int D=s.dim(); std::vector<double> v(D),g(3*D); s.basis(t,i,l,v.data(),g.data());
    switch(op){
    case Ani::IDEN: for(int j=0;j<D;j++) out[j]=v[j]; break;
    case Ani::GRAD: for(int j=0;j<3*D;j++) out[j]=g[j]; break;
    case Ani::DUDX: case Ani::DUDY: case Ani::DUDZ: for(int j=0;j<D;j++) out[j]=g[(op-Ani::DUDX)+3*j]; break;
    case Ani::DIV: for(int j=0;j<D/3;j++) out[j]=g[0+3*(3*j)]+g[1+3*(3*j+1)]+g[2+3*(3*j+2)]; break;
    case Ani::CURL: for(int j=0;j<D/3;j++){ const double*q=&g[9*j]; out[3*j]=q[1+3*2]-q[2+3*1]; out[3*j+1]=q[2+3*0]-q[0+3*2]; out[3*j+2]=q[0+3*1]-q[1+3*0]; } break;
    } }
// --- library types
template<int F> struct SpaceOf; 
template<> struct SpaceOf<Ani::FEM_P0>{ typedef Ani::P0Space T; }; template<> struct SpaceOf<Ani::FEM_P1>{ typedef Ani::P1Space T; }; template<> struct SpaceOf<Ani::FEM_P2>{ typedef Ani::P2Space T; };
template<> struct SpaceOf<Ani::FEM_P3>{ typedef Ani::P3Space T; }; template<> struct SpaceOf<Ani::FEM_RT0>{ typedef Ani::RT0Space T; }; template<> struct SpaceOf<Ani::FEM_ND0>{ typedef Ani::ND0Space T; };
template<> struct SpaceOf<Ani::FEM_CR1>{ typedef Ani::CR1Space T; }; template<> struct SpaceOf<Ani::FEM_B2>{ typedef Ani::Bubble2Space T; }; template<> struct SpaceOf<Ani::FEM_B4>{ typedef Ani::Bubble4Space T; };
template<class T> struct Desc;
template<int F> struct Desc<std::integral_constant<int,F>>{ static Nd nd(){ return prim(F); } static Ani::FemSpace sp(){ return Ani::FemSpace(typename SpaceOf<F>::T()); } };
template<int N,int F> struct Desc<Ani::FemVec<N,F>>{ static Nd nd(){ return vec(N,prim(F)); } static Ani::FemSpace sp(){ return Desc<Ani::FemFix<F>>::sp()^N; } };
static inline Ani::FemSpace primSpace(int f){ using namespace Ani; switch(f){ case FEM_P0: return FemSpace(P0Space()); case FEM_P1: return FemSpace(P1Space()); case FEM_P2: return FemSpace(P2Space()); case FEM_P3: return FemSpace(P3Space()); case FEM_RT0: return FemSpace(RT0Space()); case FEM_ND0: return FemSpace(ND0Space()); case FEM_CR1: return FemSpace(CR1Space()); case FEM_B2: return FemSpace(Bubble2Space()); case FEM_B4: return FemSpace(Bubble4Space()); } return FemSpace(); }
static const int PR[9]={Ani::FEM_P0,Ani::FEM_P1,Ani::FEM_P2,Ani::FEM_P3,Ani::FEM_RT0,Ani::FEM_ND0,Ani::FEM_CR1,Ani::FEM_B2,Ani::FEM_B4};
// runtime space (structure kept as written)
static inline Ani::FemSpace build(const Nd&n){ using namespace Ani; if (n.kind==0) return primSpace(n.fem); if (n.kind==1) return FemSpace(VectorFemSpace(n.n,build(n.ch[0]).base())); std::vector<std::shared_ptr<BaseFemSpace>> v; for(auto&c:n.ch) v.push_back(build(c).base()); if (n.kind==2) return FemSpace(ComplexFemSpace(v)); return FemSpace(UnionFemSpace(v)); }
}
