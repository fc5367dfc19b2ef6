// C03: composite spaces (vector, product, union): operators act blockwise; compile-time and runtime spaces agree
#include "evalx.h"
using namespace Ani; using namespace orc;
static const double TOL=1e-7;
template<class FT,int OP,int F> static void ct(int q){
    Nd s=Desc<FT>::nd(); In in=input(s,F,q,true,(F==1&&q==1)?0:1,vf_tier()||(F==1&&q==1)?5:2); typedef Operator<OP,FT> Op; const int D=opDim(OP,s.dim()), N=s.nfa();
    vf_check(Op::Nfa::value==N && Op::Dim::value==D,"number of basis functions and dimension of the operator");
    std::vector<double> ex(D*q*F), got(D*q*F+2,7.0); DenseMatrix<> dm(in.dofs.data(),N,F), om(got.data(),D*q,F,D*q*F);
    int w=vf_pick("memory",0,2); ArrayView<> L(in.L.data(),in.L.size()); DynMem<> wm;
    if (w==0) fem3DapplyL<Op,F>(in.tets(),L,dm,om); else if (w==1) fem3DapplyL<Op>(in.tets(),L,dm,om,wm);
    else { ApplyOpFromTemplate<OP,FT> ao; vf_check((int)ao.Nfa()==N && (int)ao.Dim()==D,"wrapped operator has the same sizes"); fem3DapplyL(in.tets(),L,dm,ao,om,wm); }
    expect(s,in.t,OP,in.dofs,in.L.data(),q,ex.data());
    for(int i=0;i<D*q*F;i++) vf_close(got[i],ex[i],TOL,"compile-time operator on a composite space");
    vf_check(got[D*q*F]==7.0 && got[D*q*F+1]==7.0,"nothing is written past the result");
}
static void rt(const Nd&s,int op,int f,int q,int hi){
    FemSpace sp=build(s); In in=input(s,f,q,true,hi==1?1:0,vf_tier()?5:(hi==1?2:5)); const int D=opDim(op,s.dim()), N=s.nfa(); auto ao=sp.getOP((OperatorType)op);
    vf_check((int)ao.Nfa()==N && (int)ao.Dim()==D && (int)sp.dim()==s.dim() && (int)sp.dofMap().NumDofOnTet()==N,"number of basis functions and dimension of the runtime operator");
    std::vector<double> ex(D*q*f), got(D*q*f+2,7.0); DenseMatrix<> dm(in.dofs.data(),N,f), om(got.data(),D*q,f,D*q*f); DynMem<> wm;
    fem3DapplyL(in.tets(),ArrayView<>(in.L.data(),in.L.size()),dm,ao,om,wm);
    expect(s,in.t,op,in.dofs,in.L.data(),q,ex.data());
    for(int i=0;i<D*q*f;i++) vf_close(got[i],ex[i],TOL,"runtime operator on a composite space");
    vf_check(got[D*q*f]==7.0 && got[D*q*f+1]==7.0,"nothing is written past the result");
}
template<class FT> static void cts(bool vec3=false){ int q=vf_pick("points",1,3); switch(vf_pick("op",0,vec3?7:5)){ case 0: ct<FT,IDEN,1>(q); break; case 1: ct<FT,IDEN,2>(q); break; case 2: ct<FT,GRAD,1>(q); break; case 3: ct<FT,GRAD,2>(q); break; case 4: ct<FT,DUDY,1>(q); break; case 5: ct<FT,DUDX,2>(q); break; default: break; } }
template<class FT> static void ctv(){ int q=vf_pick("points",1,3); switch(vf_pick("op",0,3)){ case 0: ct<FT,DIV,1>(q); break; case 1: ct<FT,DIV,2>(q); break; case 2: ct<FT,CURL,1>(q); break; case 3: ct<FT,CURL,2>(q); break; } }
typedef FemFix<FEM_P0> P0; typedef FemFix<FEM_P1> P1; typedef FemFix<FEM_P2> P2; typedef FemFix<FEM_RT0> RT; typedef FemFix<FEM_ND0> ND; typedef FemFix<FEM_B4> B4; typedef FemFix<FEM_CR1> CR; typedef FemFix<FEM_B2> B2;
#ifdef RUNTIME
#define P(x) prim(FEM_##x)
static Nd tree(int k){ switch(k){
    case 0: return vec(3,P(P1)); case 1: return vec(2,P(P2)); case 2: return vec(3,P(CR1)); case 3: return com({vec(3,P(P2)),P(P1)}); case 4: return com({P(P1),P(P2),P(P0)}); case 5: return com({P(RT0),P(P0)});
    case 6: return uni({P(P1),P(B4)}); case 7: return vec(3,uni({P(P1),P(B4)})); case 8: return com({vec(3,uni({P(P1),P(B4)})),P(P1)}); case 9: return vec(2,vec(2,P(P1))); case 10: return com({vec(2,P(P1)),P(P2)});
    case 11: return com({P(P2),vec(2,P(P1))}); case 12: return vec(1,P(ND0)); case 13: return com({P(ND0)}); case 14: return com({com({P(P1),P(P0)}),vec(2,P(B2))}); case 15: return uni({vec(3,P(B4)),P(RT0)}); case 16: return uni({P(P1),P(B2),P(B4)});
    case 17: return com({P(P1),com({P(CR1),P(P0)})}); case 18: return vec(3,P(P3)); case 19: return vec(2,com({P(P1),P(P0)})); case 20: return vec(3,vec(1,P(P2))); case 21: return vec(2,P(RT0)); case 22: return uni({P(P1)}); case 23: return com({uni({vec(2,P(P1)),vec(2,P(B4))}),P(P1)}); }
    return Nd(); }
static const int NTREE=24;
VF_CASES(runtime,24,k){ Nd s=tree(k); static const int OPS[4]={IDEN,GRAD,DUDX,DUDZ}; int op=OPS[vf_pick("op",0,3)]; int f=vf_pick("fusion",1,2), q=vf_pick("points",1,2); rt(s,op,f,q,f==1&&q==1?5:1); }
// divergence and curl of three-dimensional composite spaces
static const int D3[]={0,2,4,7,10,11,12,13,15,17,18,20};
static bool has(const Nd&s,int op){ FemSpace sp=build(s); try { sp.memOP((OperatorType)op,1,1); } catch(std::runtime_error&){ return false; } return true; }
VF_CASES(rtdivcurl,12,k){ Nd s=tree(D3[k]); int op=vf_pick("op",DIV,CURL); vf_check(s.dim()==3,"three-dimensional"); bool h=has(s,op); vf_note(h?"defined":"refused"); if (op==DIV || k!=8) vf_check(h,"operator is available on three-dimensional spaces"); if (!h) return; int f=vf_pick("fusion",1,2), q=vf_pick("points",1,2); rt(s,op,f,q,f==1&&q==1?5:1); }
#else
VF_CASES(vectors,6,k){ switch(k){ case 0: cts<FemVec<3,FEM_P1>>(); break; case 1: cts<FemVec<2,FEM_P2>>(); break; case 2: cts<FemVec<3,FEM_CR1>>(); break; case 3: cts<FemVecT<2,RT>>(); break; case 4: cts<FemVecT<3,FemVec<2,FEM_P1>>>(); break; case 5: cts<FemVecT<2,FemCom<P1,P0>>>(); break; } }
VF_CASES(products,5,k){ switch(k){ case 0: cts<FemCom<FemVec<3,FEM_P2>,P1>>(); break; case 1: cts<FemCom<P1,P2,P0>>(); break; case 2: cts<FemCom<RT,P0>>(); break; case 3: cts<FemCom<FemCom<P1,P0>,FemVec<2,FEM_B2>>>(); break; case 4: cts<FemCom<FemVecT<3,FemUnionT<P1,B4>>,P1>>(); break; } }
VF_CASES(unions,4,k){ switch(k){ case 0: cts<FemUnionT<P1,B4>>(); break; case 1: cts<FemUnionT<P1,B2,B4>>(); break; case 2: cts<FemUnionT<FemVec<3,FEM_B4>,RT>>(); break; case 3: cts<FemVecT<3,FemUnionT<P1,B4>>>(); break; } }
VF_CASES(divcurl,5,k){ switch(k){ case 0: ctv<FemVec<3,FEM_P1>>(); break; case 1: ctv<FemVec<3,FEM_P2>>(); break; case 2: ctv<FemVec<3,FEM_P3>>(); break; case 3: ctv<FemVec<3,FEM_CR1>>(); break; case 4: ctv<FemUnionT<RT,FemVec<3,FEM_B4>>>(); break; } }
// declared orders of composite operators
template<class FT,int OP> static int ordOf(){ return Operator<OP,FT>::Order::value; }
VF_CASE(orders){
    vf_check(ordOf<FemCom<P1,P2>,IDEN>()==2 && ordOf<FemCom<P2,P1>,IDEN>()==2 && ordOf<FemCom<P2,P1>,GRAD>()==1,"order of a product is the largest order");
    vf_check(ordOf<FemCom<P1,P2,P0>,IDEN>()==2 && ordOf<FemCom<P0,P1,P0,P2>,IDEN>()==2 && ordOf<FemCom<FemVec<3,FEM_P2>,P1>,IDEN>()==2,"order of a product of several spaces is the largest order");
    vf_check(ordOf<FemCom<P0,P0>,IDEN>()==0 && ordOf<FemCom<FemVec<3,FEM_P1>,P1,P1>,IDEN>()==1 && ordOf<FemVec<3,FEM_P2>,IDEN>()==2 && ordOf<FemUnionT<P1,B4>,IDEN>()==4 && ordOf<FemUnionT<P1,B2,B4>,GRAD>()==3,"orders of composite spaces");
}
#endif
