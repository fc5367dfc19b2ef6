// C06: evaluation of op(u) and D*op(u) in points given by barycentric or Cartesian coordinates, through every entry point
#include "tensor.h"
static const double TOL=1e-7; static const double G=7.0;
struct Out { std::vector<double> v; int n; Out(int n_):v(n_+2,G),n(n_){} DenseMatrix<> m(int r,int c){ return DenseMatrix<>(v.data(),r,c,n); } };
static void same(const Out&o,const std::vector<double>&ex,const char*msg){ vf_check((int)ex.size()==o.n,"size"); for(int i=0;i<o.n;i++) vf_close(o.v[i],ex[i],TOL,msg); vf_check(o.v[o.n]==G&&o.v[o.n+1]==G,"nothing is written past the result"); }
struct Wk { std::vector<double> d; std::vector<int> i; std::vector<DenseMatrix<>> m;
    template<class R> void fit(R&r){ d.assign(r.dSize,-1e300); i.assign(r.iSize,-77); r.ddata=d.data(); r.idata=i.data(); }
    void fitX(PlainMemoryX<>&r){ fit(r); m.resize(r.mSize); r.mdata=m.data(); } };
static ArrayView<> av(std::vector<double>&v){ return ArrayView<>(v.data(),v.size()); }
static ArrayView<const double> cav(const std::vector<double>&v){ return ArrayView<const double>(v.data(),v.size()); }
static In prep(const Nd&s,int f,int q){ int b=vf_tier()?vf_pick("tet",0,NTET-1):(f*5+q*3+s.nfa())%NTET; In in; in.f=f; in.q=q; for(int r=0;r<f;r++){ in.t.push_back(concreteTet((b+r)%NTET)); for(int i=0;i<4;i++) for(int k=0;k<3;k++) in.XY[i].push_back(in.t[r].P[i][k]); }
    symDofs(in,s.nfa()); in.L.resize(4*q); for(int n=0;n<q;n++) if (n==0) symBary(&in.L[0]); else for(int i=0;i<4;i++) in.L[4*n+i]=CB[n%3][i]; return in; }
static std::vector<double> want(const Nd&s,const In&in,int op){ std::vector<double> e(opDim(op,s.dim())*in.q*in.f); expect(s,in.t,op,in.dofs,in.L.data(),in.q,e.data()); return e; }
// compile-time entry points
template<int OP,class FT> static void ct(){
    typedef Operator<OP,FT> O; Nd s=Desc<FT>::nd(); int mode=vf_pick("entry",0,7); bool X=mode>=4; int q=vf_pick("q",1,2), f=X?1:vf_pick("f",1,2); In in=prep(s,f,q); int D=opDim(OP,s.dim()); std::vector<double> ex=want(s,in,OP); Out o(D*q*f); DenseMatrix<> U=o.m(D*q,f), dofs(in.dofs.data(),s.nfa(),f); Wk w;
    const double*p0=in.XY[0].data(),*p1=in.XY[1].data(),*p2=in.XY[2].data(),*p3=in.XY[3].data(); std::vector<double> xs(3*q); for(int n=0;n<q;n++) point(in.t[0],&in.L[4*n],&xs[3*n]);
    ArrayView<> ua(o.v.data(),o.n); Tetra<const double> T(p0,p1,p2,p3);
    DenseMatrix<const double> X0(p0,3,f),X1(p1,3,f),X2(p2,3,f),X3(p3,3,f);
    switch(mode){
    case 0: fem3DapplyL<O,2,3>(in.tets(),av(in.L),dofs,U); break;
    case 1: { auto r=fem3DapplyL_memory_requirements<O>(q,f); w.fit(r); fem3DapplyL<O>(in.tets(),av(in.L),dofs,U,r); break; }
    case 2: { DynMem<> wm; fem3DapplyL<O>(in.tets(),av(in.L),dofs,U,wm); break; }
    case 3: { auto r=fem3DapplyL_memory_requirements<O>(q,f); w.fit(r); fem3DapplyL<O>(X0,X1,X2,X3,av(in.L),dofs,U,r); break; }
    case 4: fem3DapplyX<O,3>(T,cav(xs),av(in.dofs),ua); break;
    case 5: { auto r=fem3DapplyX_memory_requirements<O>(q,1); w.fit(r); fem3DapplyX<O>(T,cav(xs),av(in.dofs),ua,r); break; }
    case 6: { DynMem<> wm; fem3DapplyX<O>(T,cav(xs),av(in.dofs),ua,wm); break; }
    case 7: { auto r=fem3DapplyX_memory_requirements<O>(q,1); w.fit(r); fem3DapplyX<O>(p0,p1,p2,p3,cav(xs),av(in.dofs),ua,r); break; }
    }
    if (!X) vf_check((int)U.nRow==D*q && (int)U.nCol==f,"shape of the result"); same(o,ex,X?"op(u) in Cartesian points":"op(u) in barycentric points");
}
typedef FemFix<FEM_P0> P0; typedef FemFix<FEM_P1> P1; typedef FemFix<FEM_P2> P2; typedef FemFix<FEM_P3> P3; typedef FemFix<FEM_RT0> RT; typedef FemFix<FEM_ND0> ND; typedef FemFix<FEM_B4> B4; typedef FemFix<FEM_CR1> CR; typedef FemFix<FEM_B2> B2;
typedef FemVec<3,FEM_P1> V1; typedef FemVec<3,FEM_P2> V2; typedef FemCom<FemVec<2,FEM_P1>,P0> C1; typedef FemUnionT<P1,B4> U1; typedef FemCom<FemVecT<3,U1>,P1> MINI;
VF_CASES(compiletime,14,k){ switch(k){ case 0: ct<IDEN,P1>(); break; case 1: ct<GRAD,P2>(); break; case 2: ct<DIV,V1>(); break; case 3: ct<CURL,V2>(); break; case 4: ct<IDEN,C1>(); break; case 5: ct<IDEN,RT>(); break; case 6: ct<CURL,ND>(); break; case 7: ct<GRAD,U1>(); break; case 8: ct<IDEN,MINI>(); break; case 9: ct<DUDY,P3>(); break; case 10: ct<GRAD,V1>(); break; case 11: ct<IDEN,P0>(); break; case 12: ct<GRAD,CR>(); break; case 13: ct<DUDZ,B2>(); break; } }
// memory-less entry points refuse more points or tetrahedra than their capacity
VF_CASE(capacity){ int q=vf_pick("q",1,9), f=vf_pick("f",1,3); int x=vf_pick("entry",0,1); Nd s=prim(FEM_P1); if (x&&f>1) return; In in=prep(s,f,q); std::vector<double> ex=want(s,in,GRAD); Out o(3*q*f); DenseMatrix<> U=o.m(3*q,f), dofs(in.dofs.data(),4,f); typedef Operator<GRAD,P1> O; bool thrown=false; std::vector<double> xs(3*q); for(int n=0;n<q;n++) point(in.t[0],&in.L[4*n],&xs[3*n]); ArrayView<> ua(o.v.data(),o.n);
    try { if (x) fem3DapplyX<O,2>(Tetra<const double>(in.XY[0].data(),in.XY[1].data(),in.XY[2].data(),in.XY[3].data()),cav(xs),av(in.dofs),ua); else fem3DapplyL<O,2,2>(in.tets(),av(in.L),dofs,U); } catch (const std::runtime_error&){ thrown=true; }
    vf_check(thrown || (f<=2),"more fused tetrahedra than the capacity are refused"); if (q<=2&&f<=2) vf_check(!thrown,"a request within the capacity is served"); if (!thrown) same(o,ex,"op(u) from the memory-less function"); }
// run-time entry points
#define P(x) prim(FEM_##x)
struct RC { Nd a; int op; };
static RC rc(int k){ switch(k){ case 0: return {P(P1),GRAD}; case 1: return {vec(3,P(P1)),DIV}; case 2: return {vec(3,P(P2)),GRAD}; case 3: return {com({vec(2,P(P1)),P(P0)}),IDEN}; case 4: return {P(ND0),CURL}; case 5: return {P(RT0),IDEN}; case 6: return {vec(2,uni({P(P1),P(B4)})),IDEN}; case 7: return {com({vec(3,uni({P(P1),P(B4)})),P(P1)}),IDEN}; case 8: return {P(P3),DUDX}; case 9: return {vec(3,vec(1,P(P2))),CURL}; case 10: return {com({P(P2),vec(2,P(CR1))}),IDEN}; case 11: return {P(P0),IDEN}; } return RC(); }
static void rt(const Nd&s,int op,const ApplyOpBase&A){
    int mode=vf_pick("entry",0,3); bool X=mode>=2; int q=vf_pick("q",1,2), f=X?1:vf_pick("f",1,2); In in=prep(s,f,q); int D=opDim(op,s.dim()); vf_check((int)A.Dim()==D && (int)A.Nfa()==s.nfa(),"dimensions of the operator"); std::vector<double> ex=want(s,in,op); Out o(D*q*f); DenseMatrix<> U=o.m(D*q,f), dofs(in.dofs.data(),s.nfa(),f); Wk w; std::vector<double> xs(3*q); for(int n=0;n<q;n++) point(in.t[0],&in.L[4*n],&xs[3*n]);
    Tetra<const double> T(in.XY[0].data(),in.XY[1].data(),in.XY[2].data(),in.XY[3].data());
    switch(mode){ case 0: { auto r=fem3DapplyL_memory_requirements(A,q,f); w.fitX(r); fem3DapplyL(in.tets(),av(in.L),dofs,A,U,r); break; } case 1: { DynMem<> wm; fem3DapplyL(in.tets(),av(in.L),dofs,A,U,wm); break; }
    case 2: { auto r=fem3DapplyX_memory_requirements(A,q,1); w.fitX(r); fem3DapplyX(T,cav(xs),dofs,A,U,r); break; } case 3: { DynMem<> wm; fem3DapplyX(T,cav(xs),dofs,A,U,wm); break; } }
    vf_check((int)U.nRow==D*q && (int)U.nCol==f,"shape of the result"); same(o,ex,X?"run-time op(u) in Cartesian points":"run-time op(u) in barycentric points");
}
VF_CASES(runtime,12,k){ RC c=rc(k); FemSpace S=build(c.a); rt(c.a,c.op,S.getOP((OperatorType)c.op)); }
VF_CASES(fromtemplate,3,k){ switch(k){ case 0: { ApplyOpFromTemplate<GRAD,V2> A; rt(Desc<V2>::nd(),GRAD,A); break; } case 1: { ApplyOpFromTemplate<IDEN,MINI> A; rt(Desc<MINI>::nd(),IDEN,A); break; } case 2: { ApplyOpFromTemplate<DIV,V1> A; rt(Desc<V1>::nd(),DIV,A); break; } } }
// D * op(u)
template<class TR,int TI> static void rd(const Nd&s,int op,const ApplyOpBase&A){
    int D=opDim(op,s.dim()); int sp=TR::TensorSparsity::value; int kind= sp>0? sp : vf_pick("kind",1,4); int n=D; if (kind==TENSOR_GENERAL && TI%2==0) n=D==3?2:D+1; if ((kind==TENSOR_SYMMETRIC||kind==TENSOR_GENERAL) && D>6) return;
    int mode=vf_pick("entry",0,3); bool X=mode>=2; int q=vf_pick("q",1,2), f=X?1:vf_pick("f",1,2); In in=prep(s,f,q); DT d; d.init(n,D,kind,TR::IsConstant::value); d.dir=(TI+q)%3; std::vector<double> u=want(s,in,op), ex(n*q*f,0.0);
    for(int r=0;r<f;r++) for(int p=0;p<q;p++){ double x[3]; point(in.t[r],&in.L[4*p],x); std::vector<double> m(n*D,0.0); d.fill(x,m.data(),r); const double*v=&u[D*(p+q*r)]; double*o=&ex[n*(p+q*r)];
        for(int i=0;i<n;i++) if (kind==TENSOR_NULL) o[i]=v[i]; else if (kind==TENSOR_SCALAR) o[i]=m[0]*v[i]; else { double a=0; for(int j=0;j<D;j++) a+=m[i+n*j]*v[j]; o[i]=a; } }
    Out o(n*q*f); DenseMatrix<> U=o.m(n*q,f), dofs(in.dofs.data(),s.nfa(),f); Wk w; std::vector<double> xs(3*q); for(int p=0;p<q;p++) point(in.t[0],&in.L[4*p],&xs[3*p]); Tetra<const double> T(in.XY[0].data(),in.XY[1].data(),in.XY[2].data(),in.XY[3].data()); typename FunOf<TR::AggregateType::value>::T fn{&d}; void*ud=(void*)&d;
    switch(mode){ case 0: { auto r=fem3DapplyL_memory_requirements<TR>(n,A,q,f); w.fitX(r); fem3DapplyL<TR>(in.tets(),av(in.L),dofs,A,n,fn,U,r,ud); break; } case 1: { DynMem<> wm; fem3DapplyL<TR>(in.tets(),av(in.L),dofs,A,n,fn,U,wm,ud); break; }
    case 2: { auto r=fem3DapplyX_memory_requirements<TR>(n,A,q,1); w.fitX(r); fem3DapplyX<TR>(T,cav(xs),dofs,A,n,fn,U,r,ud); break; } case 3: { DynMem<> wm; fem3DapplyX<TR>(T,cav(xs),dofs,A,n,fn,U,wm,ud); break; } }
    vf_check((int)U.nRow==n*q && (int)U.nCol==f,"shape of the result"); same(o,ex,X?"D*op(u) in Cartesian points":"D*op(u) in barycentric points");
}
VF_CASES(tensor,9,k){ RC c=rc(k); FemSpace S=build(c.a); auto A=S.getOP((OperatorType)c.op); switch(vf_pick("traits",0,6)){ case 0: rd<DfuncTraits<>,0>(c.a,c.op,A); break; case 1: rd<DfuncTraits<PerTetra,false>,1>(c.a,c.op,A); break; case 2: rd<DfuncTraits<TENSOR_GENERAL,true>,2>(c.a,c.op,A); break; case 3: rd<DfuncTraits<TENSOR_SCALAR,false>,3>(c.a,c.op,A); break; case 4: rd<DfuncTraits<TENSOR_NULL,true>,4>(c.a,c.op,A); break; case 5: rd<DfuncTraits<PerSelection,false>,5>(c.a,c.op,A); break; case 6: rd<DfuncTraitsFusive<>,6>(c.a,c.op,A); break; } }
