#pragma once
#include "evalx.h"
#include <algorithm>
using namespace Ani; using namespace orc;
// tensor function with symbolic coefficients: D(x)=(c0 + c1*x[dir])*(1+iTet/2)
struct DT { int kind=TENSOR_GENERAL; bool cst=false; int dir=0; int n=0,m=0; std::vector<double> c0,c1; int magic=4711; int q=0;
    void init(int n_,int m_,int kind_,bool cst_){ n=n_; m=m_; kind=kind_; cst=cst_; c0.assign(n*m,0); c1.assign(n*m,0);
        if (kind==TENSOR_NULL) return; int cnt=kind==TENSOR_SCALAR?1:n*m;
        for(int i=0;i<cnt;i++){ c0[i]=vf_real("d0",-1,1); if (!cst) c1[i]=vf_real("d1",-1,1); }
        if (kind==TENSOR_SYMMETRIC) for(int k=0;k<n;k++) for(int l=0;l<k;l++){ c0[l+n*k]=c0[k+n*l]; c1[l+n*k]=c1[k+n*l]; } }
    double fac(int r) const { return cst?1.0:1.0+0.5*r; }
    void fill(const double*x,double*D,int r) const { if (kind==TENSOR_NULL) return; int cnt=kind==TENSOR_SCALAR?1:n*m; for(int i=0;i<cnt;i++) D[i]=cst?c0[i]:(c0[i]+c1[i]*x[dir])*fac(r); } };
struct Fn { const DT*d; TensorType operator()(const std::array<double,3>&x,double*D,std::pair<std::size_t,std::size_t> dims,void*user,int iTet) const {
    vf_check((int)dims.first==d->n && (int)dims.second==d->m,"dimensions of the tensor given to the user function"); vf_check(user==(void*)d,"user data is passed to the user function");
    d->fill(x.data(),D,iTet); return (TensorType)d->kind; } };
struct FnF { const DT*d; TensorType operator()(ArrayView<> X,ArrayView<> D,std::pair<std::size_t,std::size_t> dims,void*user,const AniMemory<double,int>&mem) const {
    vf_check((int)dims.first==d->n && (int)dims.second==d->m,"dimensions of the tensor given to the user function"); vf_check(user==(void*)d,"user data is passed to the user function");
    int s=d->n*d->m; for(int r=0;r<(int)mem.f;r++) for(int n=0;n<(int)mem.q;n++) d->fill(X.data+3*(n+mem.q*r),D.data+s*(n+mem.q*r),r); return (TensorType)d->kind; } };
template<int AGG> struct FunOf { typedef Fn T; }; template<> struct FunOf<FusiveTensor>{ typedef FnF T; };
