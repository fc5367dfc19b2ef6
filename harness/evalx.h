// shared by the composite / evaluation harnesses
#pragma once
#include "fem.h"
namespace orc {
using namespace Ani;
template<bool B,int N,class T> struct Desc<FemComDetails::FemVecTImpl<B,N,T>>{ static Nd nd(){ return vec(N,Desc<T>::nd()); } };
template<class...T> struct Desc<FemComDetails::FemComImpl<true,T...>>{ static Nd nd(){ return com({Desc<T>::nd()...}); } };
template<class...T> struct Desc<FemComDetails::FemUnionTImpl<true,T...>>{ static Nd nd(){ return uni({Desc<T>::nd()...}); } };
// values of op(u) in q points on f tetrahedra for dofs, by the oracle; L has 4*q barycentric coordinates (the same for every tetrahedron)
static void expect(const Nd&s,const std::vector<Tt>&t,int op,const std::vector<double>&dofs,const double*L,int q,double*out){
    int N=s.nfa(), D=opDim(op,s.dim()); std::vector<double> b(D);
    for(size_t r=0;r<t.size();r++) for(int n=0;n<q;n++){ double*o=out+D*(n+q*r); for(int k=0;k<D;k++) o[k]=0;
        for(int i=0;i<N;i++){ opBasis(s,t[r],op,i,L+4*n,b.data()); for(int k=0;k<D;k++) o[k]+=dofs[i+N*r]*b[k]; } }
}
struct In { std::vector<Tt> t; std::vector<double> XY[4], dofs, L; int f,q;
    Tetras<DenseMatrix<const double>> tets() const { return make_tetras((const double*)XY[0].data(),(const double*)XY[1].data(),(const double*)XY[2].data(),(const double*)XY[3].data(),f); } };
static In tetsIn(int f,int lo=0,int hi=NTET-1){ In in; in.f=f; in.q=0; int b=vf_pick("tet",lo,hi); for(int r=0;r<f;r++){ in.t.push_back(concreteTet((b+r)%NTET)); for(int i=0;i<4;i++) for(int k=0;k<3;k++) in.XY[i].push_back(in.t[r].P[i][k]); } return in; }
static void symDofs(In&in,int N){ in.dofs.resize(N*in.f); for(auto&d:in.dofs) d=vf_real("dof",-1,1); }
static const double CB[3][4]={{.5,.25,.125,.125},{.0625,.1875,.5,.25},{.125,.375,.0625,.4375}};
static In input(const Nd&s,int f,int q,bool symL=true,int lo=0,int hi=NTET-1){
    In in=tetsIn(f,lo,hi); in.q=q; symDofs(in,s.nfa()); in.L.resize(4*q);
    for(int n=0;n<q;n++) if (symL && n==0) symBary(&in.L[0]); else for(int i=0;i<4;i++) in.L[4*n+i]=CB[n%3][i];
    return in;
}
}
