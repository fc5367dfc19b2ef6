// C02: basis functions of the elementary spaces and their derivative operators (compile-time operators and runtime spaces)
#include "fem.h"
using namespace Ani; using namespace orc;
static const double TOL=1e-7;
// values of op(u) in q points on f tetrahedra for dofs, by the oracle
static void expect(const Nd&s,const std::vector<Tt>&t,int op,const std::vector<double>&dofs,const double*L,int q,double*out){
    int N=s.nfa(), D=opDim(op,s.dim()); std::vector<double> b(D);
    for(size_t r=0;r<t.size();r++) for(int n=0;n<q;n++){ double*o=out+D*(n+q*r); for(int k=0;k<D;k++) o[k]=0;
        for(int i=0;i<N;i++){ opBasis(s,t[r],op,i,L+4*n,b.data()); for(int k=0;k<D;k++) o[k]+=dofs[i+N*r]*b[k]; } }
}
struct In { std::vector<Tt> t; std::vector<double> XY[4], dofs, L; int f,q; };
static In input(const Nd&s,int f,int q){
    In in; in.f=f; in.q=q; int b=vf_pick("tet",0,NTET-1);
    for(int r=0;r<f;r++){ in.t.push_back(concreteTet((b+r)%NTET)); for(int i=0;i<4;i++) for(int k=0;k<3;k++) in.XY[i].push_back(in.t[r].P[i][k]); }
    in.dofs.resize(s.nfa()*f); for(auto&d:in.dofs) d=vf_real("dof",-1,1);
    in.L.resize(4*q); for(int n=0;n<q;n++) symBary(&in.L[4*n]);
    return in;
}
template<class FT,int OP,int F> static void ct(){
    Nd s=Desc<FT>::nd(); In in=input(s,F,2); typedef Operator<OP,FT> Op;
    const int D=opDim(OP,s.dim()), N=s.nfa();
    vf_check(Op::Nfa::value==N && Op::Dim::value==D,"number of basis functions and dimension of the operator");
    std::vector<double> ex(D*2*F), got(D*2*F+2,7.0);
    auto XYZ=make_tetras((const double*)in.XY[0].data(),(const double*)in.XY[1].data(),(const double*)in.XY[2].data(),(const double*)in.XY[3].data(),F);
    DenseMatrix<> dm(in.dofs.data(),N,F), om(got.data(),D*2,F,D*2*F);
    fem3DapplyL<Op,F>(XYZ,ArrayView<>(in.L.data(),in.L.size()),dm,om);
    expect(s,in.t,OP,in.dofs,in.L.data(),2,ex.data());
    for(int i=0;i<D*2*F;i++) vf_close(got[i],ex[i],TOL,"operator applied to the basis functions");
    vf_check(got[D*2*F]==7.0 && got[D*2*F+1]==7.0,"nothing is written past the result");
}
static void rt(int fem,int op){
    Nd s=prim(fem); FemSpace sp=primSpace(fem); int f=vf_pick("fusion",1,2); In in=input(s,f,2); const int D=opDim(op,s.dim()), N=s.nfa();
    auto ao=sp.getOP((OperatorType)op);
    vf_check((int)ao.Nfa()==N && (int)ao.Dim()==D && (int)sp.dim()==s.dim() && (int)sp.dofMap().NumDofOnTet()==N,"number of basis functions and dimension of the runtime operator");
    std::vector<double> ex(D*2*f), got(D*2*f+2,7.0);
    auto XYZ=make_tetras((const double*)in.XY[0].data(),(const double*)in.XY[1].data(),(const double*)in.XY[2].data(),(const double*)in.XY[3].data(),f);
    DenseMatrix<> dm(in.dofs.data(),N,f), om(got.data(),D*2,f,D*2*f); DynMem<> wm;
    fem3DapplyL(XYZ,ArrayView<>(in.L.data(),in.L.size()),dm,ao,om,wm);
    expect(s,in.t,op,in.dofs,in.L.data(),2,ex.data());
    for(int i=0;i<D*2*f;i++) vf_close(got[i],ex[i],TOL,"runtime operator applied to the basis functions");
    vf_check(got[D*2*f]==7.0,"nothing is written past the result");
}
// declared polynomial order bounds the real one: the (order+1)-th difference along any line vanishes
static void orders(int fem,int op){
    Nd s=prim(fem); FemSpace sp=primSpace(fem); const int D=opDim(op,s.dim()), N=s.nfa(); int o=sp.orderOP((OperatorType)op);
    vf_check(o>=0 && o<=4,"declared order is finite"); if (o<0||o>4) return; Tt t=pickTet();
    std::vector<double> dof(N); for(auto&d:dof) d=vf_real("dof",-1,1);
    // evaluation by the library on o+2 equally spaced points of a line inside of the tetrahedron
    int q=o+2; std::vector<double> L(4*q); int ln=vf_pick("line",0,4); static const double A[5][4]={{.7,.1,.1,.1},{.1,.6,.2,.1},{.1,.2,.1,.6},{.05,.05,.1,.8},{.25,.25,.25,.25}}, B[5][4]={{.1,.6,.2,.1},{.2,.1,.6,.1},{.4,.1,.4,.1},{.3,.4,.2,.1},{.1,.2,.3,.4}};
    for(int n=0;n<q;n++) for(int i=0;i<4;i++) L[4*n+i]=A[ln][i]+(B[ln][i]-A[ln][i])*n/(q-1);
    std::vector<double> got(D*q); DenseMatrix<> dm(dof.data(),N,1), om(got.data(),D*q,1); DynMem<> wm;
    fem3DapplyL(Tetra<const double>(t.P[0],t.P[1],t.P[2],t.P[3]),ArrayView<>(L.data(),L.size()),dm,sp.getOP((OperatorType)op),om,wm);
    for(int k=0;k<D;k++){ double d=0,c=1; for(int n=0;n<q;n++){ d+=(((q-1-n)&1)?-c:c)*got[k+D*n]; c=c*(q-1-n)/(n+1); } vf_close(d,0,1e-6,"declared polynomial order bounds the order of the result"); }
}
// partition of unity / face flux / edge circulation: functionals of the basis functions, exact in the vertices
template<int FEM> static void spaceCase(){
    typedef FemFix<FEM> FT; int m=vf_pick("mode",0,2); static const int OPS[5]={IDEN,GRAD,DUDX,DUDY,DUDZ};
    if (m==1){ rt(FEM,OPS[vf_pick("op",0,4)]); return; }
    if (m==2){ orders(FEM,OPS[vf_pick("op",0,1)]); return; }
    switch(vf_pick("op",0,9)){
    case 0: ct<FT,IDEN,1>(); break; case 1: ct<FT,GRAD,1>(); break; case 2: ct<FT,DUDX,1>(); break; case 3: ct<FT,DUDY,1>(); break; case 4: ct<FT,DUDZ,1>(); break;
    case 5: ct<FT,IDEN,2>(); break; case 6: ct<FT,GRAD,3>(); break; case 7: ct<FT,DUDX,2>(); break; case 8: ct<FT,DUDY,2>(); break; case 9: ct<FT,DUDZ,2>(); break; }
}
template<int FEM> static void vecCase(){ typedef FemFix<FEM> FT;
    int m=vf_pick("mode",0,5); switch(m){ case 0: ct<FT,DIV,1>(); break; case 1: ct<FT,CURL,1>(); break; case 2: ct<FT,DIV,2>(); break; case 3: ct<FT,CURL,2>(); break; case 4: rt(FEM,vf_pick("op",DIV,CURL)); break; case 5: orders(FEM,vf_pick("op",DIV,CURL)); } }
VF_CASES(elementary,9,k){ switch(k){ case 0: spaceCase<FEM_P0>(); break; case 1: spaceCase<FEM_P1>(); break; case 2: spaceCase<FEM_P2>(); break; case 3: spaceCase<FEM_P3>(); break; case 4: spaceCase<FEM_RT0>(); break; case 5: spaceCase<FEM_ND0>(); break; case 6: spaceCase<FEM_CR1>(); break; case 7: spaceCase<FEM_B2>(); break; case 8: spaceCase<FEM_B4>(); break; } }
VF_CASES(divcurl,2,k){ if (k==0) vecCase<FEM_RT0>(); else vecCase<FEM_ND0>(); }
// vertices of the tetrahedron symbolic as well (box of half-width 1/8 around general tetrahedra of both orientations)
template<class FT,int OP> static void symv(){
    Nd s=Desc<FT>::nd(); Tt t=symTet(0.125,vf_pick("base",0,1)?4:1); typedef Operator<OP,FT> Op; const int D=opDim(OP,s.dim()), N=s.nfa();
    std::vector<double> L(4); symBary(L.data()); std::vector<double> got(D), dof(N), ex(D);
    int i=vf_pick("function",0,N-1); for(int j=0;j<N;j++) dof[j]= j==i; DenseMatrix<> dm(dof.data(),N,1), om(got.data(),D,1);
    fem3DapplyL<Op>(Tetra<const double>(t.P[0],t.P[1],t.P[2],t.P[3]),ArrayView<>(L.data(),4),dm,om);
    opBasis(s,t,OP,i,L.data(),ex.data()); for(int k=0;k<D;k++) vf_close(got[k],ex[k],TOL,"operator on a tetrahedron with arbitrary vertices");
}
VF_CASES(vertices,6,k){ switch(k){ case 0: symv<FemFix<FEM_P1>,GRAD>(); break; case 1: symv<FemFix<FEM_P2>,GRAD>(); break; case 2: symv<FemFix<FEM_CR1>,DUDY>(); break; case 3: symv<FemFix<FEM_B4>,GRAD>(); break; case 4: symv<FemFix<FEM_RT0>,IDEN>(); break; case 5: symv<FemFix<FEM_ND0>,IDEN>(); break; } }
