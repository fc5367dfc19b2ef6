// C04 (DOM 0) / C05 (DOM 1..6): elemental matrices  A[i + NB*(j + NA*r)] = sum or integral of (D OpA(phi_j)) . OpB(phi_i)
// DOM: 0 volume, 1 face, 2 face with the normal, 3 edge, 4 node, 5 points given by barycentric coordinates, 6 points given by coordinates
#include "tensor.h"
#ifndef DOM
#define DOM 0
#endif
#ifndef GRP
#define GRP 0
#endif
using namespace Ani; using namespace orc;
static const double TOL=1e-7; static const int ND_=(DOM==2?3:1);
static int primDeg(int f){ switch(f){ case FEM_P0: return 0; case FEM_P2: case FEM_B2: return 2; case FEM_P3: return 3; case FEM_B4: return 4; } return 1; }
static int degree(const Nd&s){ if (s.kind==0) return primDeg(s.fem); int d=0; for(auto&c:s.ch) d=std::max(d,degree(c)); return d; }
static int opDeg(const Nd&s,int op){ int d=degree(s); return op==IDEN?d:std::max(0,d-1); }
// integration points of the oracle: Gauss-Legendre product rules in collapsed coordinates
static void gauss(int n,double*x,double*w){ for(int i=0;i<n;i++){ double z=std::cos(3.14159265358979323846*(i+0.75)/(n+0.5)),p1=0,p2,dp=1; for(int it=0;it<40;it++){ p1=1;p2=0; for(int j=0;j<n;j++){ double p3=p2;p2=p1;p1=((2*j+1)*z*p2-j*p3)/(j+1); } dp=n*(z*p1-p2)/(z*z-1); double z1=z; z=z1-p1/dp; if (std::fabs(z-z1)<1e-16) break; } x[i]=0.5*(1-z); w[i]=1/((1-z*z)*dp*dp); } }
struct Ip { double l[4]; double w; };
static std::vector<Ip> volPts(int deg){ int n=(deg+2)/2+1; std::vector<double> x(n),w(n); gauss(n,x.data(),w.data()); std::vector<Ip> r; for(int a=0;a<n;a++) for(int b=0;b<n;b++) for(int c=0;c<n;c++){ Ip p; double u=x[a],v=x[b],s=x[c]; p.l[1]=u; p.l[2]=(1-u)*v; p.l[3]=(1-u)*(1-v)*s; p.l[0]=1-p.l[1]-p.l[2]-p.l[3]; p.w=6*w[a]*w[b]*w[c]*(1-u)*(1-u)*(1-v); r.push_back(p); } return r; }
static std::vector<Ip> facePts(int fc,int deg){ int n=(deg+1)/2+1; std::vector<double> x(n),w(n); gauss(n,x.data(),w.data()); std::vector<Ip> r; for(int a=0;a<n;a++) for(int b=0;b<n;b++){ Ip p; for(int i=0;i<4;i++) p.l[i]=0; double u=x[a],v=x[b]; p.l[FN[fc][1]]=u; p.l[FN[fc][2]]=(1-u)*v; p.l[FN[fc][0]]=1-u-(1-u)*v; p.w=2*w[a]*w[b]*(1-u); r.push_back(p); } return r; }
static std::vector<Ip> edgePts(int e,int deg){ int n=deg/2+1; std::vector<double> x(n),w(n); gauss(n,x.data(),w.data()); std::vector<Ip> r; for(int a=0;a<n;a++){ Ip p; for(int i=0;i<4;i++) p.l[i]=0; p.l[E0[e]]=1-x[a]; p.l[E1[e]]=x[a]; p.w=w[a]; r.push_back(p); } return r; }
static void outNormal(const Tt&t,int fc,double*n){ double u[3],v[3],o[3]; sub3(t.P[FN[fc][1]],t.P[FN[fc][0]],u); sub3(t.P[FN[fc][2]],t.P[FN[fc][0]],v); crossp(u,v,n); double L=std::sqrt(dot3(n,n)); sub3(t.P[(fc+3)%4],t.P[FN[fc][0]],o); double s=dot3(n,o)>0?-1/L:1/L; for(int k=0;k<3;k++) n[k]*=s; }
// expected matrix
static void oracle(const Nd&sa,int oa,const Nd&sb,int ob,const std::vector<Tt>&T,const std::vector<Ip>&pts,int ent,const DT&dt,double*A){
    const int NA=sa.nfa(), NB=sb.nfa(), da=opDim(oa,sa.dim()), db=opDim(ob,sb.dim()), P=pts.size(); const bool id=dt.kind==TENSOR_NULL||dt.kind==TENSOR_SCALAR; const bool bc=id&&da!=db*ND_;
    std::vector<double> UA(P*NA*da), UB(P*NB*db);
    for(size_t r=0;r<T.size();r++){ const Tt&t=T[r]; double mes= DOM==0?std::fabs(t.det)/6: (DOM==1||DOM==2)?triArea(t.P[FN[ent][0]],t.P[FN[ent][1]],t.P[FN[ent][2]]): DOM==3?dist(t.P[E0[ent]],t.P[E1[ent]]):1.0; double nrm[3]={1,0,0}; if (DOM==2) outNormal(t,ent,nrm);
        for(int p=0;p<P;p++){ for(int j=0;j<NA;j++) opBasis(sa,t,oa,j,pts[p].l,&UA[(p*NA+j)*da]); for(int i=0;i<NB;i++) opBasis(sb,t,ob,i,pts[p].l,&UB[(p*NB+i)*db]); }
        std::vector<double> xp(P),wp(P); for(int p=0;p<P;p++){ double x[3]; point(t,pts[p].l,x); xp[p]=x[dt.dir]; wp[p]=pts[p].w*mes; }
        for(int j=0;j<NA;j++) for(int i=0;i<NB;i++){ double s=0;
            for(int k=0;k<db*ND_;k++) for(int l=0;l<da;l++){ // tensor entry (k,l); row k = d + ND*(component)
                if (id && !bc && k!=l) continue; int kb=k/ND_; double nv=DOM==2?nrm[k%3]:1.0; double m0=0,m1=0;
                for(int p=0;p<P;p++){ double v=UA[(p*NA+j)*da+l]*UB[(p*NB+i)*db+kb]*wp[p]; m0+=v; if (!dt.cst) m1+=v*xp[p]; }
                m0*=nv; m1*=nv; double f=dt.fac(r);
                if (dt.kind==TENSOR_NULL) s+=m0; else if (id) s+=(dt.c0[0]*m0+dt.c1[0]*m1)*f; else s+=(dt.c0[k+dt.n*l]*m0+dt.c1[k+dt.n*l]*m1)*f; }
            A[i+NB*(j+NA*r)]=s; } }
}
static ArrayView<> av(std::vector<double>&v){ return ArrayView<>(v.data(),v.size()); }
struct Args { In*in; int ent; std::vector<double> L,W,X; int order; };
#if DOM==0
#define FN_ fem3Dtet
#define PRE
#define POST ,a.order,(void*)&d
#define RQ(f) (a.order,f)
#elif DOM==1
#define FN_ fem3Dface
#define PRE a.ent,
#define POST ,a.order,(void*)&d
#define RQ(f) (a.order,f)
#elif DOM==2
#define FN_ fem3DfaceN
#define PRE a.ent,
#define POST ,a.order,(void*)&d
#define RQ(f) (a.order,f)
#elif DOM==3
#define FN_ fem3Dedge
#define PRE a.ent,
#define POST ,a.order,(void*)&d
#define RQ(f) (a.order,f)
#elif DOM==4
#define FN_ fem3Dnode
#define PRE a.ent,
#define POST ,(void*)&d
#define RQ(f) (f)
#elif DOM==5
#define FN_ fem3DpntL
#define PRE av(a.L),av(a.W),
#define POST ,(void*)&d
#define RQ(f) ((int)a.W.size(),f)
#else
#define FN_ fem3DpntX
#define PRE ArrayView<const double>(a.X.data(),a.X.size()),av(a.W),
#define POST ,(void*)&d
#define RQ(f) ((int)a.W.size(),f)
#endif
#define CAT_(a,b) a##b
#define CAT(a,b) CAT_(a,b)
#define REQ CAT(FN_,_memory_requirements)
static const double* XYP(const In&in,int i){ return in.XY[i].data(); }
#if DOM==6
#define XYZ_ Tetra<const double>(XYP(*a.in,0),XYP(*a.in,1),XYP(*a.in,2),XYP(*a.in,3))
#else
#define XYZ_ a.in->tets()
#endif
// exact-size work memory: every access outside is a violation, content is garbage
template<class M> struct Wm { M r; std::vector<double> d; std::vector<int> i; std::vector<DenseMatrix<>> m; };
template<class OA,class OB,class TR,int FUS> static void callCT(int mode,const Args&a0,const DT&d,DenseMatrix<>&A){
    Args a=a0; typename FunOf<TR::AggregateType::value>::T fn{&d}; const int f=a.in->f;
    if (mode==0) {
#if DOM==6
        FN_<OA,OB,TR>(XYZ_,PRE fn,A POST);
#else
        FN_<OA,OB,TR,FUS>(XYZ_,PRE fn,A POST);
#endif
    } else if (mode==1){ auto r=REQ<OA,OB> RQ(f); std::vector<double> dm(r.dSize); std::vector<int> im(r.iSize+1); std::fill(dm.begin(),dm.end(),-1e300); r.ddata=dm.data(); r.idata=im.data(); FN_<OA,OB,TR>(XYZ_,PRE fn,A,r POST); }
    else { DynMem<> wm; FN_<OA,OB,TR>(XYZ_,PRE fn,A,wm POST); }
}
template<class TR> static void callRT(int mode,const ApplyOpBase&oa,const ApplyOpBase&ob,const Args&a0,const DT&d,DenseMatrix<>&A){
    Args a=a0; typename FunOf<TR::AggregateType::value>::T fn{&d}; const int f=a.in->f;
    if (mode==0){ DynMem<> wm; FN_<TR>(XYZ_,PRE oa,ob,fn,A,wm POST); }
    else {
#if DOM==4
        auto r=REQ<TR>(oa,ob,f);
#elif DOM==5||DOM==6
        auto r=REQ<TR>(oa,ob,(int)a.W.size(),f);
#else
        auto r=REQ<TR>(oa,ob,a.order,f);
#endif
        std::vector<double> dm(r.dSize); std::vector<int> im(r.iSize); std::vector<DenseMatrix<>> mm(r.mSize); std::fill(dm.begin(),dm.end(),-1e300); r.ddata=dm.data(); r.idata=im.data(); r.mdata=mm.data(); FN_<TR>(XYZ_,PRE oa,ob,fn,A,r POST); }
}
static int NENT(){ return DOM==0?1:(DOM==1||DOM==2)?4:DOM==3?6:DOM==4?4:1; }
template<class TR> static int pickKind(int n,int m,int nfa){
    int s=TR::TensorSparsity::value; bool id=n==m||(nfa==1&&m==1);
    if (s>0){ if ((s==TENSOR_NULL||s==TENSOR_SCALAR)&&!id) return 0; if (s==TENSOR_SYMMETRIC&&n!=m) return 0; return s; }
    int k=vf_pick("kind",1,4); if ((k==TENSOR_NULL||k==TENSOR_SCALAR)&&!id) return 0; if (k==TENSOR_SYMMETRIC&&n!=m) return 0; return k;
}
struct Prep { Nd sa,sb; int oa,ob; In in; Args a; DT d; std::vector<Ip> pts; std::vector<double> ex,got; };
// h: number derived from the other choices that selects tetrahedron, direction, entity and order in the quick tier
static bool prepare(Prep&p,const Nd&sa,int oa,const Nd&sb,int ob,int kind,bool cst,int f,int h,int maxorder,bool pickEnt){
    p.sa=sa; p.sb=sb; p.oa=oa; p.ob=ob; bool th=vf_tier()!=0; int b=th?vf_pick("tet",0,NTET-1):h%NTET; int ent=NENT()>1?(th||pickEnt?vf_pick("entity",0,NENT()-1):h%NENT()):0; p.in=In(); p.in.f=f; p.in.q=0; for(int r=0;r<f;r++){ p.in.t.push_back(concreteTet((b+ent+r)%NTET)); for(int i=0;i<4;i++) for(int k=0;k<3;k++) p.in.XY[i].push_back(p.in.t[r].P[i][k]); }
    p.d.init(opDim(ob,sb.dim())*ND_,opDim(oa,sa.dim()),kind,cst); p.d.dir=(h/2+ent)%3; p.a.in=&p.in; p.a.ent=ent;
    int deg=opDeg(sa,oa)+opDeg(sb,ob)+(cst||kind==TENSOR_NULL?0:1); p.a.order=deg+(h/3%2); if (p.a.order>maxorder) p.a.order=deg; if (deg>maxorder) return false;
#if DOM==0
    p.pts=volPts(deg);
#elif DOM==1||DOM==2
    p.pts=facePts(ent,deg);
#elif DOM==3
    p.pts=edgePts(ent,deg);
#elif DOM==4
    p.pts.resize(1); for(int i=0;i<4;i++) p.pts[0].l[i]= i==ent; p.pts[0].w=1;
#else
    int q=1+h%3; p.pts.resize(q); p.a.L.resize(4*q); p.a.W.resize(q); p.a.X.resize(3*q);
    for(int n=0;n<q;n++){ if (n==0 && kind<=TENSOR_SCALAR) symBary(&p.a.L[0]); else for(int i=0;i<4;i++) p.a.L[4*n+i]=CB[n][i]; p.a.W[n]=n==0?vf_real("weight",-2,2):0.25*n+0.5; for(int i=0;i<4;i++) p.pts[n].l[i]=p.a.L[4*n+i]; p.pts[n].w=p.a.W[n]; point(p.in.t[0],&p.a.L[4*n],&p.a.X[3*n]); }
#endif
    int N=sa.nfa()*sb.nfa()*f; p.ex.assign(N,0); p.got.assign(N+2,7.0); oracle(sa,oa,sb,ob,p.in.t,p.pts,ent,p.d,p.ex.data()); return true;
}
static void compare(Prep&p,const DenseMatrix<>&A,const char*msg){ int NA=p.sa.nfa(),NB=p.sb.nfa(),f=p.in.f; vf_check((int)A.nRow==NB && (int)A.nCol==NA*f,"shape of the elemental matrix"); for(int i=0;i<NA*NB*f;i++) vf_close(p.got[i],p.ex[i],TOL,msg); vf_check(p.got[NA*NB*f]==7.0 && p.got[NA*NB*f+1]==7.0,"nothing is written past the elemental matrix"); }
static const int FMAX=(DOM==6?1:2);
template<int O1,class F1,int O2,class F2,class TR,int TI> static void run(){
    typedef Operator<O1,F1> OA; typedef Operator<O2,F2> OB; Nd sa=Desc<F1>::nd(), sb=Desc<F2>::nd(); int n=opDim(O2,sb.dim())*ND_, m=opDim(O1,sa.dim());
    if (!vf_tier() && n*m>100) return; int kind=pickKind<TR>(n,m,sa.nfa()); if (!kind) return; int mode=vf_pick("memory",0,4); int f=vf_pick("fusion",1,FMAX); int h=TI*7+kind*5+mode*3+f+O1+O2;
    Prep p; if (!prepare(p,sa,O1,sb,O2,kind,TR::IsConstant::value,f,h,mode==0?(DOM==0?6:9):20,GRP==1&&(mode==0||mode==3))) return;
    
    DenseMatrix<> A(p.got.data(),sb.nfa(),sa.nfa()*f,sa.nfa()*sb.nfa()*f);
    if (mode<3) callCT<OA,OB,TR,2>(mode,p.a,p.d,A); else { ApplyOpFromTemplate<O1,F1> oa; ApplyOpFromTemplate<O2,F2> ob; callRT<TR>(mode-3,oa,ob,p.a,p.d,A); }
    compare(p,A,"elemental matrix of compile-time operators");
}
template<int TI> struct TRn; 
#define TRN(i,...) template<> struct TRn<i>{ typedef __VA_ARGS__ T; };
TRN(0,DfuncTraits<PerPoint,false>) TRN(1,DfuncTraits<PerTetra,false>) TRN(2,DfuncTraits<PerSelection,false>) TRN(3,DfuncTraits<TENSOR_GENERAL,false>) TRN(4,DfuncTraits<TENSOR_SCALAR,false>) TRN(5,DfuncTraits<TENSOR_NULL,false>) TRN(6,DfuncTraits<TENSOR_SYMMETRIC,false>)
TRN(7,DfuncTraits<PerPoint,true>) TRN(8,DfuncTraits<TENSOR_GENERAL,true>) TRN(9,DfuncTraits<TENSOR_SCALAR,true>) TRN(10,DfuncTraits<TENSOR_NULL,true>) TRN(11,DfuncTraits<TENSOR_SYMMETRIC,true>) TRN(12,DfuncTraitsFusive<>)
template<int O1,class F1,int O2,class F2,int TI> static void runT(){ run<O1,F1,O2,F2,typename TRn<TI>::T,TI>(); }
template<int O1,class F1,int O2,class F2> static void full(){ switch(vf_pick("traits",0,12)){ case 0: runT<O1,F1,O2,F2,0>(); break; case 1: runT<O1,F1,O2,F2,1>(); break; case 2: runT<O1,F1,O2,F2,2>(); break; case 3: runT<O1,F1,O2,F2,3>(); break; case 4: runT<O1,F1,O2,F2,4>(); break; case 5: runT<O1,F1,O2,F2,5>(); break; case 6: runT<O1,F1,O2,F2,6>(); break; case 7: runT<O1,F1,O2,F2,7>(); break; case 8: runT<O1,F1,O2,F2,8>(); break; case 9: runT<O1,F1,O2,F2,9>(); break; case 10: runT<O1,F1,O2,F2,10>(); break; case 11: runT<O1,F1,O2,F2,11>(); break; case 12: runT<O1,F1,O2,F2,12>(); break; } }
template<int O1,class F1,int O2,class F2> static void lite(){ switch(vf_pick("traits",0,1)){ case 0: runT<O1,F1,O2,F2,0>(); break; case 1: runT<O1,F1,O2,F2,8>(); break; } }
typedef FemFix<FEM_P0> P0; typedef FemFix<FEM_P1> P1; typedef FemFix<FEM_P2> P2; typedef FemFix<FEM_P3> P3; typedef FemFix<FEM_RT0> RT; typedef FemFix<FEM_ND0> ND; typedef FemFix<FEM_B4> B4; typedef FemFix<FEM_CR1> CR; typedef FemFix<FEM_B2> B2;
typedef FemVec<3,FEM_P1> V1; typedef FemVec<3,FEM_P2> V2; typedef FemCom<FemVec<2,FEM_P1>,P0> C1;
#if GRP==0
VF_CASES(traits,4,k){ switch(k){ case 0: full<GRAD,P1,GRAD,P1>(); break; case 1: full<IDEN,P0,IDEN,V1>(); break; case 2: full<IDEN,V1,IDEN,C1>(); break; case 3: full<IDEN,P2,IDEN,P1>(); break; } }
#elif GRP==1
VF_CASES(spaces,12,k){ switch(k){ case 0: lite<IDEN,P2,IDEN,P2>(); break; case 1: lite<DIV,V2,IDEN,P1>(); break; case 2: lite<CURL,ND,CURL,ND>(); break; case 3: lite<IDEN,RT,IDEN,RT>(); break; case 4: lite<DUDX,CR,IDEN,B4>(); break; case 5: lite<GRAD,P3,GRAD,P1>(); break; case 6: lite<IDEN,C1,IDEN,C1>(); break; case 7: lite<GRAD,P2,IDEN,ND>(); break; case 8: lite<IDEN,FemCom<V1,FemUnionT<P1,B4>>,IDEN,P0>(); break; case 9: lite<GRAD,V1,GRAD,V1>(); break; case 10: lite<IDEN,P3,DUDZ,B2>(); break; case 11: lite<IDEN,FemVecT<2,FemUnionT<P1,B4>>,IDEN,FemVec<2,FEM_P2>>(); break; } }
#else
// runtime spaces
#define P(x) prim(FEM_##x)
struct RC { Nd a; int oa; Nd b; int ob; };
static RC rc(int k){ switch(k){ case 0: return {P(P1),GRAD,P(P1),GRAD}; case 1: return {vec(3,P(P1)),IDEN,P(P2),GRAD}; case 2: return {vec(3,P(P2)),DIV,P(P1),IDEN}; case 3: return {com({vec(2,P(P1)),P(P0)}),IDEN,com({vec(2,P(P1)),P(P0)}),IDEN}; case 4: return {P(ND0),CURL,P(RT0),IDEN}; case 5: return {vec(3,P(CR1)),GRAD,P(P0),IDEN};
    case 6: return {vec(2,uni({P(P1),P(B4)})),IDEN,vec(2,P(P1)),IDEN}; case 7: return {P(P0),IDEN,vec(3,P(P2)),IDEN}; case 8: return {uni({P(P1),P(B4)}),GRAD,vec(3,P(P1)),IDEN}; case 9: return {P(P3),DUDY,P(B2),IDEN}; case 10: return {P(RT0),DIV,P(P0),IDEN}; case 11: return {vec(3,vec(1,P(P1))),CURL,vec(3,P(P1)),IDEN}; case 12: return {com({P(P2),P(P1)}),IDEN,vec(2,P(P0)),IDEN}; case 13: return {vec(3,P(P1)),GRAD,vec(3,P(P1)),GRAD}; } return RC(); }
template<class TR,int TI> static void rrun(int c){ RC k=rc(c); FemSpace A=build(k.a),B=build(k.b); int n=opDim(k.ob,k.b.dim())*ND_, m=opDim(k.oa,k.a.dim()); if (!vf_tier() && n*m>100) return; int kind=pickKind<TR>(n,m,k.a.nfa()); if (!kind) return;
    int mode=vf_pick("memory",0,1); int f=vf_pick("fusion",1,FMAX); Prep p; if (!prepare(p,k.a,k.oa,k.b,k.ob,kind,TR::IsConstant::value,f,TI*7+kind*5+mode*3+f+c,20,mode==0)) return;
    DenseMatrix<> M(p.got.data(),k.b.nfa(),k.a.nfa()*f,k.a.nfa()*k.b.nfa()*f); callRT<TR>(mode,A.getOP((OperatorType)k.oa),B.getOP((OperatorType)k.ob),p.a,p.d,M); compare(p,M,"elemental matrix of runtime operators"); }
VF_CASES(runtime,14,c){ switch(vf_pick("traits",0,3)){ case 0: rrun<DfuncTraits<>,0>(c); break; case 1: rrun<DfuncTraits<TENSOR_GENERAL,true>,8>(c); break; case 2: rrun<DfuncTraits<TENSOR_NULL,true>,10>(c); break; case 3: rrun<DfuncTraitsFusive<>,12>(c); break; } }
#endif
