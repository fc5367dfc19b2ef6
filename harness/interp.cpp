// C13: interpolation on degrees of freedom.  C14 (-DREGION): projection on an element of the tetrahedron.
#include "fem.h"
#include <cstring>
using namespace Ani; using namespace orc;
static const double TOL=1e-7;
static int UD=0;
static double bary(const Tt&t,const double*x,double*l){ double s=0; for(int m=1;m<4;m++){ double d[3]; sub3(x,t.P[0],d); l[m]=dot3(t.g[m],d); s+=l[m]; } l[0]=1-s; return 0; }
static const int NE[4]={4,6,4,1};
// geometric element of every d.o.f. of a space (independent of the maps): dimension and number
struct El { int d,e; };
static void primEl(int f,std::vector<El>&r){ int per[4]={0,0,0,0}; switch(f){ case FEM_P0: case FEM_B4: per[3]=1; break; case FEM_P1: per[0]=1; break; case FEM_P2: per[0]=1; per[1]=1; break; case FEM_P3: per[0]=1; per[1]=2; per[2]=1; break; case FEM_RT0: case FEM_CR1: per[2]=1; break; case FEM_ND0: case FEM_B2: per[1]=1; break; } for(int d=0;d<4;d++) for(int e=0;e<NE[d];e++) for(int k=0;k<per[d];k++) r.push_back(El{d,e}); }
static void elems(const Nd&s,std::vector<El>&r){ if (s.kind==0){ primEl(s.fem,r); return; } if (s.kind==1){ for(int i=0;i<s.n;i++) elems(s.ch[0],r); return; } for(auto&c:s.ch) elems(c,r); }
struct Sel { bool s[4][6]; DofT::TetGeomSparsity sp; Sel(){ for(int d=0;d<4;d++) for(int e=0;e<6;e++) s[d][e]=false; } void add(int d,int i){ sp.set((unsigned char)d,i); s[d][i]=true; } void all(){ for(int d=0;d<4;d++) for(int e=0;e<NE[d];e++) add(d,e); } };
static void closure(Sel&S,int d,int e){ S.add(d,e); if (d==1){ S.add(0,E0[e]); S.add(0,E1[e]); } if (d==2){ for(int k=0;k<3;k++) S.add(0,FN[e][k]); for(int q=0;q<6;q++){ int o=(e+3)%4; if (E0[q]!=o && E1[q]!=o) S.add(1,q); } } if (d==3) S.all(); }
static Sel pickSel(){ Sel S; switch(vf_pick("parts",0,5)){ case 0: S.all(); break; case 1: S.add(0,vf_pick("node",0,3)); S.add(2,0); break; case 2: closure(S,1,vf_pick("edge",0,5)); break; case 3: closure(S,2,vf_pick("face",0,3)); break; case 4: S.add(3,0); S.add(1,4); S.add(1,1); break; case 5: break; } return S; }
// function of the space with symbolic coefficients (fusion: r-th function has its own)
struct Fun { const Nd*s; const Tt*t; int F; std::vector<double> c; int calls=0; int want; bool plain=false;
    int operator()(const std::array<double,3>&X,double*res,unsigned dim,void*ud) const { vf_check((int)dim==want,"expected dimension of the interpolated function"); vf_check(ud==&UD,"data of the user reach the function"); double l[4]; bary(*t,X.data(),l); int D=s->dim(), N=s->nfa(); std::vector<double> v(D),g(3*D); for(int r=0;r<F;r++) for(int d=0;d<D;d++) res[d+D*r]=0; for(int i=0;i<N;i++){ s->basis(*t,i,l,v.data(),g.data()); for(int r=0;r<F;r++) for(int d=0;d<D;d++) res[d+D*r]+=c[i+N*r]*v[d]; } return 0; } };
static Fun*cur=nullptr;
static int callCur(const std::array<double,3>&X,double*r,unsigned d,void*q){ return (*cur)(X,r,d,q); }
static BaseFemSpace::EvalFunc ef=callCur;
static std::vector<double> sym(const char*n,int k){ std::vector<double> v(k); for(auto&x:v) x=vf_real(n,-2,2); return v; }
static Tetra<const double> XYZ(const Tt&t){ return Tetra<const double>(t.P[0],t.P[1],t.P[2],t.P[3]); }
static void expect(const Nd&s,const Sel&S,const std::vector<double>&c,const double*old,const double*got,const char*m){ std::vector<El> el; elems(s,el); for(size_t i=0;i<el.size();i++){ double e=S.s[el[i].d][el[i].e]?c[i]:old[i]; vf_close(got[i],e,TOL,m); } }
typedef FemFix<FEM_P0> P0; typedef FemFix<FEM_P1> P1; typedef FemFix<FEM_P2> P2; typedef FemFix<FEM_P3> P3; typedef FemFix<FEM_RT0> RT; typedef FemFix<FEM_ND0> ND; typedef FemFix<FEM_B4> B4; typedef FemFix<FEM_CR1> CR; typedef FemFix<FEM_B2> B2;
#define P(x) prim(FEM_##x)
// exact work memory filled with garbage
struct Mem { std::vector<double> d; std::vector<int> i; std::vector<DenseMatrix<>> m; PlainMemoryX<> p; Mem(PlainMemoryX<> req):d(req.dSize,1e3),i(req.iSize,77),m(req.mSize){ p=req; p.ddata=d.data(); p.idata=i.data(); p.mdata=m.data(); } };
struct Quad { std::vector<double> c; int D; void*ud=nullptr; // D components, quadratic in x
    int operator()(const std::array<double,3>&x,double*r,unsigned dim,void*p) const { vf_check(p==ud,"data of the user reach the function"); vf_check((int)dim==D,"expected dimension of the interpolated function"); for(int d=0;d<D;d++){ const double*a=&c[10*d]; r[d]=a[0]+a[1]*x[0]+a[2]*x[1]+a[3]*x[2]+a[4]*x[0]*x[0]+a[5]*x[1]*x[1]+a[6]*x[2]*x[2]+a[7]*x[0]*x[1]+a[8]*x[1]*x[2]+a[9]*x[2]*x[0]; } return 0; } };
#ifndef REGION
template<class FT> static void ct(Nd s){ Tt t=pickTet("tet",0,vf_tier()?5:2); int N=s.nfa(); std::vector<double> c=sym("coefficient",N), u=sym("old",N+1), o=u; Sel S=pickSel(); Fun f{&s,&t,1,c}; f.want=s.dim(); interpolateByDOFs<FT>(XYZ(t),f,ArrayView<>(u.data(),N),S.sp,&UD); expect(s,S,c,o.data(),u.data(),"interpolation reproduces a function of the space on the selected parts and leaves the rest"); vf_close(u[N],o[N],0,"nothing is written behind");
    u=o; double v=vf_real("constant",-2,2); interpolateConstant<FT>(v,ArrayView<>(u.data(),N),S.sp); std::vector<double> cv(N,v); expect(s,S,cv,o.data(),u.data(),"constant on the selected parts"); vf_close(u[N],o[N],0,"nothing is written behind"); }
VF_CASES(prims,9,k){ switch(k){ case 0: ct<P0>(P(P0)); break; case 1: ct<P1>(P(P1)); break; case 2: ct<P2>(P(P2)); break; case 3: ct<P3>(P(P3)); break; case 4: ct<RT>(P(RT0)); break; case 5: ct<ND>(P(ND0)); break; case 6: ct<CR>(P(CR1)); break; case 7: ct<B2>(P(B2)); break; case 8: ct<B4>(P(B4)); break; } }
VF_CASES(composite,12,k){ switch(k){ case 0: ct<FemVec<3,FEM_P2>>(vec(3,P(P2))); break; case 1: ct<FemVec<2,FEM_CR1>>(vec(2,P(CR1))); break; case 2: ct<FemVecT<2,RT>>(vec(2,P(RT0))); break; case 3: ct<FemVecT<2,FemVec<2,FEM_P1>>>(vec(2,vec(2,P(P1)))); break; case 4: ct<FemCom<FemVec<3,FEM_P1>,P1>>(com({vec(3,P(P1)),P(P1)})); break; case 5: ct<FemCom<P1,RT,P0>>(com({P(P1),P(RT0),P(P0)})); break; case 6: ct<FemCom<FemCom<ND,P0>,FemVec<2,FEM_B2>>>(com({com({P(ND0),P(P0)}),vec(2,P(B2))})); break;
    case 7: ct<FemUnionT<P1,B4>>(uni({P(P1),P(B4)})); break; case 8: ct<FemUnionT<P1,B2,B4>>(uni({P(P1),P(B2),P(B4)})); break; case 9: ct<FemVecT<3,FemUnionT<P1,B4>>>(vec(3,uni({P(P1),P(B4)}))); break; case 10: ct<FemCom<FemVecT<2,FemUnionT<P1,B4>>,P2>>(com({vec(2,uni({P(P1),P(B4)})),P(P2)})); break; case 11: ct<FemVecT<2,FemCom<P0,P1>>>(vec(2,com({P(P0),P(P1)}))); break; } }
// union of a space mapped by the Piola transformation and bubbles mapped by components: duality between functionals and functions is computed once
static void nonaff(int t0,int t1,bool rt,const char*msg){ Nd s=uni({P(RT0),vec(3,P(B4))}); Tt t=pickTet("tet",t0,t1); int N=s.nfa(); std::vector<double> c=sym("coefficient",N), u=sym("old",N+1), o=u; Sel S; S.all(); Fun f{&s,&t,1,c}; f.want=3; if (!rt) interpolateByDOFs<FemUnionT<RT,FemVec<3,FEM_B4>>>(XYZ(t),f,ArrayView<>(u.data(),N),S.sp,&UD); else { FemSpace sp=build(s); Mem m(sp.interpolateByDOFs_mem_req(5)); sp.interpolateByDOFs(XYZ(t),f,ArrayView<>(u.data(),N),S.sp,m.p,&UD,5); } for(int i=0;i<N;i++) vf_close(u[i],c[i],TOL,i<4?"d.o.f.s of RT0 in the union":msg); vf_close(u[N],o[N],0,"nothing is written behind"); }
VF_CASES(pioladual,4,k){ nonaff(k/2?1:0,k/2?2:0,k%2,k/2?"bubble coefficients of a union with RT0 away from the reference tetrahedron":"bubble coefficients of a union with RT0 on the reference tetrahedron"); }
// several functions at once, one d.o.f. at a time
template<class FT,unsigned F> static void fus(Nd s){ Tt t=pickTet("tet",0,2); int N=s.nfa(); std::vector<double> c=sym("coefficient",N*F), u=sym("old",N*F), o=u; int i=vf_pick("dof",0,N-1); Fun f{&s,&t,(int)F,c}; f.want=s.dim()*F; std::array<ArrayView<>,F> uu; for(unsigned r=0;r<F;r++) uu[r]=ArrayView<>(u.data()+N*r,N); Dof<FT>::template interpolate<F>(XYZ(t),f,uu,i,&UD,5); for(unsigned r=0;r<F;r++) for(int k=0;k<N;k++) vf_close(u[k+N*r],k==i?c[k+N*r]:o[k+N*r],TOL,"fused interpolation of one d.o.f."); }
VF_CASES(fused,14,k){ switch(k){ case 0: fus<P0,2>(P(P0)); break; case 1: fus<P1,3>(P(P1)); break; case 2: fus<P2,2>(P(P2)); break; case 3: fus<P3,2>(P(P3)); break; case 4: fus<RT,2>(P(RT0)); break; case 5: fus<ND,3>(P(ND0)); break; case 6: fus<CR,2>(P(CR1)); break; case 7: fus<B2,2>(P(B2)); break; case 8: fus<B4,2>(P(B4)); break; case 9: fus<FemVec<2,FEM_P1>,2>(vec(2,P(P1))); break; case 10: fus<FemCom<P1,RT>,2>(com({P(P1),P(RT0)})); break; case 11: fus<FemVecT<2,FemCom<P0,P1>>,2>(vec(2,com({P(P0),P(P1)}))); break; case 12: fus<FemUnionT<P1,B4>,3>(uni({P(P1),P(B4)})); break; case 13: fus<FemVecT<2,FemUnionT<P1,B4>>,2>(vec(2,uni({P(P1),P(B4)}))); break; } }
// run-time spaces
static Nd tree(int k){ switch(k){ case 0: return P(P0); case 1: return P(P1); case 2: return P(P2); case 3: return P(P3); case 4: return P(RT0); case 5: return P(ND0); case 6: return P(CR1); case 7: return P(B2); case 8: return P(B4); case 9: return vec(3,P(P2)); case 10: return vec(2,vec(2,P(P1))); case 11: return com({vec(3,P(P1)),P(P1)}); case 12: return com({P(P1),P(RT0),P(P0)}); case 13: return com({com({P(ND0),P(P0)}),vec(2,P(B2))});
    case 14: return uni({P(P1),P(B4)}); case 15: return uni({P(P1),P(B2),P(B4)}); case 16: return vec(3,uni({P(P1),P(B4)})); case 17: return com({vec(2,uni({P(P1),P(B4)})),P(P2)}); case 18: return vec(2,com({P(P0),P(P1)})); case 19: return uni({vec(2,P(P1)),vec(2,P(B4))}); case 20: return uni({P(P1)}); case 21: return vec(2,P(RT0)); case 22: return uni({com({P(P1),P(P1)}),vec(2,P(B4))}); } return Nd(); }
static const int NTR=23;
VF_CASES(runtime,23,k){ Nd s=tree(k); FemSpace sp=build(s); Tt t=pickTet("tet",0,vf_tier()?5:1); int N=s.nfa(); std::vector<double> c=sym("coefficient",N), u=sym("old",N+1), o=u; Sel S=pickSel(); Fun f{&s,&t,1,c}; f.want=s.dim(); int way=vf_pick("way",0,2); unsigned ord=vf_pick("order",4,5); ArrayView<> uv(u.data(),N); DynMem<> wm;
    cur=&f;
    switch(way){ case 0: { Mem m(sp.interpolateByDOFs_mem_req(ord)); sp.interpolateByDOFs(XYZ(t),f,uv,S.sp,m.p,&UD,ord); break; } case 1: sp.interpolateByDOFs(XYZ(t),f,uv,S.sp,wm,&UD,ord); break; case 2: { Mem m(sp.interpolateByDOFs_mem_req(ord)); sp.interpolateByDOFs(XYZ(t),ef,uv,S.sp,m.p,&UD,ord); break; } }
    expect(s,S,c,o.data(),u.data(),"run-time interpolation reproduces a function of the space on the selected parts and leaves the rest"); vf_close(u[N],o[N],0,"nothing is written behind");
    if (way==0){ u=o; double v=vf_real("constant",-2,2); sp.interpolateConstant(v,uv,S.sp); std::vector<double> cv(N,v); expect(s,S,cv,o.data(),u.data(),"constant on the selected parts"); } }
// one d.o.f. of several functions through the run-time interface
VF_CASES(rtfused,23,k){ Nd s=tree(k); FemSpace sp=build(s); Tt t=pickTet("tet",0,1); int N=s.nfa(), F=vf_pick("functions",1,2); std::vector<double> c=sym("coefficient",N*F), u=sym("old",N*F), o=u; int i=vf_pick("dof",0,N-1); Fun f{&s,&t,F,c}; f.want=s.dim()*F; ArrayView<> uu[2]; for(int r=0;r<F;r++) uu[r]=ArrayView<>(u.data()+N*r,N); int way=vf_pick("way",0,1); DynMem<> wm;
    if (way==0){ Mem m(sp.interpolateOnDOF_mem_req(i,F,5)); sp.interpolateOnDOF(XYZ(t),f,uu,i,F,m.p,&UD,5); } else sp.interpolateOnDOF(XYZ(t),f,uu,i,F,wm,&UD,5);
    for(int r=0;r<F;r++){ vf_check(uu[r].data==u.data()+N*r && (int)uu[r].size==N,"views of the results are given back unchanged"); for(int q=0;q<N;q++) vf_close(u[q+N*r],q==i?c[q+N*r]:o[q+N*r],TOL,"run-time fused interpolation of one d.o.f."); } }
// part of a space
VF_CASES(part,6,kk){ static const int T[6]={9,10,11,13,17,18}; Nd s=tree(T[kk]); FemSpace sp=build(s); Tt t=pickTet("tet",0,1); int N=s.nfa(); std::vector<double> c=sym("coefficient",N), u=sym("old",N+1), o=u; Sel S=pickSel(); Fun f{&s,&t,1,c}; f.want=s.dim(); ArrayView<> uv(u.data(),N);
    std::vector<int> path; const Nd*q=&s; int off=0; int depth=vf_pick("depth",1,2); for(int d=0;d<depth && (q->kind==1||q->kind==2);d++){ int n=q->kind==1?q->n:(int)q->ch.size(); int j=vf_pick("part",0,n-1); for(int i=0;i<j;i++) off+=(q->kind==1?q->ch[0]:q->ch[i]).nfa(); q=q->kind==1?&q->ch[0]:&q->ch[j]; path.push_back(j); }
    auto view=sp.dofMap().GetNestedDofMapView(path.data(),(int)path.size()); int way=vf_pick("way",0,2); DynMem<> wm; double v=vf_real("constant",-2,2); switch(way){ case 0: { Mem m(sp.interpolateByDOFs_mem_req(5)); sp.interpolateByDOFs(XYZ(t),f,uv,S.sp,view,m.p,&UD); break; } case 1: sp.interpolateByDOFs(XYZ(t),f,uv,S.sp,view,wm,&UD); break; case 2: sp.interpolateConstant(v,uv,S.sp,view); break; }
    std::vector<El> el; elems(s,el); for(int i=0;i<N;i++){ bool in=i>=off && i<off+q->nfa() && S.s[el[i].d][el[i].e]; vf_close(u[i],in?(way==2?v:c[i]):o[i],TOL,"interpolation of a part of a space"); } vf_close(u[N],o[N],0,"nothing is written behind"); }
// the functionals themselves, on functions that are not in the space
static void at(const Quad&q,const Tt&t,const double*l,double*r){ double x[3]; point(t,l,x); q({x[0],x[1],x[2]},r,q.D,nullptr); }
// means by the exact formulas for quadratics: midpoints of edges (triangle, segment: Simpson), vertices and edges (tetrahedron)
static void meanEdge(const Quad&q,const Tt&t,int a,int b,double*r){ double l[3][4]={{0},{0},{0}}, v[3][3]; l[0][a]=1; l[1][b]=1; l[2][a]=l[2][b]=0.5; for(int i=0;i<3;i++) at(q,t,l[i],v[i]); for(int d=0;d<q.D;d++) r[d]=(v[0][d]+v[1][d]+4*v[2][d])/6; }
static void meanFace(const Quad&q,const Tt&t,int f,double*r){ for(int d=0;d<q.D;d++) r[d]=0; for(int i=0;i<3;i++){ double l[4]={0,0,0,0}, v[3]; l[FN[f][i]]=l[FN[f][(i+1)%3]]=0.5; at(q,t,l,v); for(int d=0;d<q.D;d++) r[d]+=v[d]/3; } }
static void meanTet(const Quad&q,const Tt&t,double*r){ for(int d=0;d<q.D;d++) r[d]=0; for(int i=0;i<4;i++){ double l[4]={0,0,0,0}, v[3]; l[i]=1; at(q,t,l,v); for(int d=0;d<q.D;d++) r[d]-=v[d]/20; } for(int e=0;e<6;e++){ double l[4]={0,0,0,0}, v[3]; l[E0[e]]=l[E1[e]]=0.5; at(q,t,l,v); for(int d=0;d<q.D;d++) r[d]+=v[d]/5; } }
static void functional(int f,const Tt&t,const Quad&q,int i,double&r){ double v[3]; double l[4]={0,0,0,0};
    switch(f){ case FEM_P0: meanTet(q,t,&r); return; case FEM_CR1: meanFace(q,t,i,&r); return; case FEM_RT0: { meanFace(q,t,i,v); double a[3],b[3],n[3],c[3]; sub3(t.P[FN[i][1]],t.P[FN[i][0]],a); sub3(t.P[FN[i][2]],t.P[FN[i][0]],b); crossp(a,b,n); sub3(t.P[FN[i][0]],t.P[(i+3)%4],c); double s=std::sqrt(dot3(n,n)); if (dot3(n,c)<0) s=-s; r=dot3(v,n)/s; return; } case FEM_ND0: { meanEdge(q,t,E0[i],E1[i],v); double e[3]; sub3(t.P[E1[i]],t.P[E0[i]],e); r=dot3(v,e)/std::sqrt(dot3(e,e)); return; }
    case FEM_B4: for(int k=0;k<4;k++) l[k]=0.25; break; case FEM_B2: l[E0[i]]=l[E1[i]]=0.5; break; case FEM_P1: l[i]=1; break; case FEM_P2: if (i<4) l[i]=1; else l[E0[i-4]]=l[E1[i-4]]=0.5; break; case FEM_P3: if (i<4) l[i]=1; else if (i<16){ int e=(i-4)/2, w=(i-4)%2; l[w?E1[e]:E0[e]]=2.0/3; l[w?E0[e]:E1[e]]=1.0/3; } else for(int k=0;k<3;k++) l[FN[i-16][k]]=1.0/3; break; }
    at(q,t,l,&r); }
VF_CASES(functionals,9,k){ int fm=PR[k]; Tt t=pickTet("tet",0,5); Quad q; q.D=pdim(fm); q.c=sym("polynomial",10*q.D); int N=pnfa(fm), ord=vf_pick("order",2,6); std::vector<double> u(N,7.0); Sel S; S.all(); FemSpace sp=primSpace(fm); Mem m(sp.interpolateByDOFs_mem_req(ord)); sp.interpolateByDOFs(XYZ(t),q,ArrayView<>(u.data(),N),S.sp,m.p,nullptr,ord); for(int i=0;i<N;i++){ double e; functional(fm,t,q,i,e); vf_close(u[i],e,TOL,"degree of freedom of a quadratic function"); } }
// points of the d.o.f.s
template<class FT> static void coord(Nd s){ Tt t=pickTet("tet",0,5); double n[12], x[3]; for(int i=0;i<12;i++) n[i]=t.P[i/3][i%3]; int N=s.nfa(), i=vf_pick("dof",0,N-1); for(int k=0;k<3;k++) x[k]=vf_real("garbage",-5,5); DOF_coord<FT>::at(i,n,x); const Nd*c=&s; int j=i; while(c->kind){ if (c->kind==1){ j%=c->ch[0].nfa(); c=&c->ch[0]; } else { int q=0; while(j>=c->ch[q].nfa()){ j-=c->ch[q].nfa(); q++; } c=&c->ch[q]; } }
    double l[4]={0,0,0,0}; switch(c->fem){ case FEM_P0: for(int k=0;k<4;k++) l[k]=0.25; break; case FEM_CR1: for(int k=0;k<3;k++) l[FN[j][k]]=1.0/3; break; case FEM_B2: l[E0[j]]=l[E1[j]]=0.5; break; case FEM_P1: l[j]=1; break; case FEM_P2: if (j<4) l[j]=1; else l[E0[j-4]]=l[E1[j-4]]=0.5; break; case FEM_P3: if (j<4) l[j]=1; else if (j<16){ int e=(j-4)/2, w=(j-4)%2; l[w?E1[e]:E0[e]]=2.0/3; l[w?E0[e]:E1[e]]=1.0/3; } else for(int k=0;k<3;k++) l[FN[j-16][k]]=1.0/3; break; }
    double y[3]; point(t,l,y); for(int k=0;k<3;k++) vf_close(x[k],y[k],1e-9,"point of the d.o.f."); }
VF_CASES(coords,10,k){ switch(k){ case 0: coord<P0>(P(P0)); break; case 1: coord<P1>(P(P1)); break; case 2: coord<P2>(P(P2)); break; case 3: coord<P3>(P(P3)); break; case 4: coord<CR>(P(CR1)); break; case 5: coord<B2>(P(B2)); break; case 6: coord<FemVec<3,FEM_P2>>(vec(3,P(P2))); break; case 7: coord<FemVecT<2,FemVec<2,FEM_P1>>>(vec(2,vec(2,P(P1)))); break;
#ifdef COMCOORD
    case 8: coord<FemCom<FemVec<2,FEM_P2>,P1,P0>>(com({vec(2,P(P2)),P(P1),P(P0)})); break; case 9: coord<FemUnionT<P1,B2>>(uni({P(P1),P(B2)})); break;
#endif
    } }
#else
static void gauss(int n,double*x,double*w){ for(int i=0;i<n;i++){ double z=std::cos(3.14159265358979323846*(i+0.75)/(n+0.5)),p1=0,p2,dp=1; for(int it=0;it<40;it++){ p1=1;p2=0; for(int j=0;j<n;j++){ double p3=p2;p2=p1;p1=((2*j+1)*z*p2-j*p3)/(j+1); } dp=n*(z*p1-p2)/(z*z-1); double z1=z; z=z1-p1/dp; if (std::fabs(z-z1)<1e-16) break; } x[i]=0.5*(1-z); w[i]=1/((1-z*z)*dp*dp); } }
struct Ip { double l[4]; double w; };
static std::vector<Ip> volPts(int deg){ int n=(deg+2)/2+1; std::vector<double> x(n),w(n); gauss(n,x.data(),w.data()); std::vector<Ip> r; for(int a=0;a<n;a++) for(int b=0;b<n;b++) for(int c=0;c<n;c++){ Ip p; double u=x[a],v=x[b],s=x[c]; p.l[1]=u; p.l[2]=(1-u)*v; p.l[3]=(1-u)*(1-v)*s; p.l[0]=1-p.l[1]-p.l[2]-p.l[3]; p.w=6*w[a]*w[b]*w[c]*(1-u)*(1-u)*(1-v); r.push_back(p); } return r; }
static std::vector<Ip> facePts(int fc,int deg){ int n=(deg+1)/2+1; std::vector<double> x(n),w(n); gauss(n,x.data(),w.data()); std::vector<Ip> r; for(int a=0;a<n;a++) for(int b=0;b<n;b++){ Ip p; for(int i=0;i<4;i++) p.l[i]=0; double u=x[a],v=x[b]; p.l[FN[fc][1]]=u; p.l[FN[fc][2]]=(1-u)*v; p.l[FN[fc][0]]=1-u-(1-u)*v; p.w=2*w[a]*w[b]*(1-u); r.push_back(p); } return r; }
static std::vector<Ip> edgePts(int e,int deg){ int n=deg/2+1; std::vector<double> x(n),w(n); gauss(n,x.data(),w.data()); std::vector<Ip> r; for(int a=0;a<n;a++){ Ip p; for(int i=0;i<4;i++) p.l[i]=0; p.l[E0[e]]=1-x[a]; p.l[E1[e]]=x[a]; p.w=w[a]; r.push_back(p); } return r; }
// Sum over the integration points of phi_i . phi_j and of phi_i . (monomial): concrete; the solution must make the residual vanish.
static double mono(int m,const double*x){ switch(m){ case 0: return 1; case 1: return x[0]; case 2: return x[1]; case 3: return x[2]; case 4: return x[0]*x[0]; case 5: return x[1]*x[1]; case 6: return x[2]*x[2]; case 7: return x[0]*x[1]; case 8: return x[1]*x[2]; } return x[2]*x[0]; }
static int deg(const Nd&s){ if (s.kind==0) switch(s.fem){ case FEM_P0: return 0; case FEM_P2: case FEM_B2: return 2; case FEM_P3: return 3; case FEM_B4: return 4; default: return 1; } int r=0; for(auto&c:s.ch) r=std::max(r,deg(c)); return r; }
static int ordOf(const Nd&s){ return std::max(2*deg(s),deg(s)+2); }
struct Reg { int d,e; unsigned char type; };
static Reg pickReg(){ Reg r; int k=vf_pick("region",0,vf_tier()?15:9); static const int D[16]={0,1,1,2,2,3,1,2,2,1,0,1,1,2,1,0}; static const int E[16]={2,0,5,1,3,0,2,0,2,4,0,1,3,1,5,3}; r.d=D[k]; r.e=E[k]; switch(r.d){ case 0: r.type=DofT::NODE; break; case 3: r.type=DofT::CELL; break; case 1: r.type=k%3==0?DofT::EDGE_ORIENT:k%3==1?DofT::EDGE_UNORIENT:DofT::EDGE; break; case 2: r.type=k%3==0?DofT::FACE_UNORIENT:k%3==1?DofT::FACE_ORIENT:DofT::FACE; break; } return r; }
static void verify(const Nd&s,const Tt&t,const Reg&g,const Quad&q,const double*old,const double*got){
    int N=s.nfa(), D=s.dim(); std::vector<El> el; elems(s,el); Sel S; closure(S,g.d,g.e); std::vector<int> id; for(int i=0;i<N;i++){ if (S.s[el[i].d][el[i].e]) id.push_back(i); else vf_close(got[i],old[i],0,"degrees of freedom off the element keep their values"); }
    vf_close(got[N],old[N],0,"nothing is written behind"); if (id.empty()) return;
    if (g.d==0){ for(int i:id){ std::vector<double> v(D),gr(3*D); double l[4]={0,0,0,0}; l[g.e]=1; s.basis(t,i,l,v.data(),gr.data()); double r=0,x[3]; point(t,l,x); std::vector<double> f(D); q({x[0],x[1],x[2]},f.data(),D,&UD); for(int d=0;d<D;d++) r+=v[d]*f[d]; vf_close(got[i],r,TOL,"on a node the degree of freedom is the value of the function"); } return; }
    int dg=ordOf(s); std::vector<Ip> pt=g.d==1?edgePts(g.e,dg):g.d==2?facePts(g.e,dg):volPts(dg);
    size_t n=id.size(); std::vector<double> M(n*n,0.0), B(n*D*10,0.0), v(D),gr(3*D); std::vector<std::vector<double>> ph(n,std::vector<double>(D)); double scale=0;
    for(auto&p:pt){ double x[3]; point(t,p.l,x); for(size_t a=0;a<n;a++){ s.basis(t,id[a],p.l,v.data(),gr.data()); ph[a]=v; } for(size_t a=0;a<n;a++){ for(size_t b=0;b<n;b++) for(int d=0;d<D;d++) M[a+n*b]+=p.w*ph[a][d]*ph[b][d]; for(int d=0;d<D;d++) for(int m=0;m<10;m++) B[(a*D+d)*10+m]+=p.w*ph[a][d]*mono(m,x); } }
    for(size_t a=0;a<n;a++) scale=std::max(scale,M[a+n*a]);
    for(size_t a=0;a<n;a++){ double r=0; for(size_t b=0;b<n;b++) r+=M[a+n*b]/scale*got[id[b]]; for(int d=0;d<D;d++) for(int m=0;m<10;m++) if (B[(a*D+d)*10+m]!=0) r-=B[(a*D+d)*10+m]/scale*q.c[10*d+m]; vf_close(r,0,TOL,"the equations of the projection hold on the element"); } }
template<class FT> static void reg(Nd s){ Tt t=pickTet("tet",0,vf_tier()?4:2); int N=s.nfa(); Quad q; q.D=s.dim(); q.ud=&UD; q.c=sym("polynomial",10*q.D); std::vector<double> u=sym("old",N+1), o=u; Reg g=pickReg(); int ord=ordOf(s)+vf_pick("extra order",0,1); int way=vf_pick("way",0,1);
    if (way==0){ auto r=interpolateByRegion_memory_requirements<FT>(g.type,ord); std::vector<double> d(r.dSize+1,1e3); std::vector<int> i(r.iSize+1,77); d.resize(r.dSize); i.resize(r.iSize); r.ddata=d.data(); r.idata=i.data(); interpolateByRegion<FT>(XYZ(t),q,ArrayView<>(u.data(),N),g.type,g.e,r,&UD,ord); }
    else interpolateByRegion<FT>(XYZ(t),q,ArrayView<>(u.data(),N),g.type,g.e,&UD,ord);
    verify(s,t,g,q,o.data(),u.data()); }
VF_CASES(region,18,k){ switch(k){ case 0: reg<P0>(P(P0)); break; case 1: reg<P1>(P(P1)); break; case 2: reg<P2>(P(P2)); break; case 3: reg<P3>(P(P3)); break; case 4: reg<RT>(P(RT0)); break; case 5: reg<ND>(P(ND0)); break; case 6: reg<CR>(P(CR1)); break; case 7: reg<B2>(P(B2)); break; case 8: reg<B4>(P(B4)); break; case 9: reg<FemVec<2,FEM_P1>>(vec(2,P(P1))); break; case 10: reg<FemVecT<2,RT>>(vec(2,P(RT0))); break; case 11: reg<FemVecT<2,FemVec<2,FEM_P1>>>(vec(2,vec(2,P(P1)))); break; case 12: reg<FemCom<FemVec<2,FEM_P2>,P1>>(com({vec(2,P(P2)),P(P1)})); break; case 13: reg<FemCom<P1,RT,P0>>(com({P(P1),P(RT0),P(P0)})); break; case 14: reg<FemUnionT<P1,B4>>(uni({P(P1),P(B4)})); break; case 15: reg<FemCom<ND,P0>>(com({P(ND0),P(P0)})); break; case 16: reg<FemVecT<2,FemUnionT<P1,B4>>>(vec(2,uni({P(P1),P(B4)}))); break; case 17: reg<FemCom<FemCom<CR,P0>,B2>>(com({com({P(CR1),P(P0)}),P(B2)})); break; } }
static Nd tree(int k){ switch(k){ case 0: return P(P0); case 1: return P(P1); case 2: return P(P2); case 3: return P(P3); case 4: return P(RT0); case 5: return P(ND0); case 6: return P(CR1); case 7: return P(B2); case 8: return P(B4); case 9: return vec(2,P(P1)); case 10: return vec(2,P(RT0)); case 11: return vec(2,vec(2,P(P1))); case 12: return com({vec(2,P(P2)),P(P1)}); case 13: return com({P(P1),P(RT0),P(P0)}); case 14: return uni({P(P1),P(B4)}); case 15: return com({P(ND0),P(P0)}); case 16: return vec(2,uni({P(P1),P(B4)})); case 17: return com({com({P(CR1),P(P0)}),P(B2)}); } return Nd(); }
static const Quad*curQ=nullptr;
static int callQ(const std::array<double,3>&X,double*r,unsigned d,void*p){ return (*curQ)(X,r,d,p); }
VF_CASES(rtregion,18,k){ Nd s=tree(k); FemSpace sp=build(s); Tt t=pickTet("tet",0,vf_tier()?4:2); int N=s.nfa(); Quad q; q.D=s.dim(); q.ud=&UD; q.c=sym("polynomial",10*q.D); std::vector<double> u=sym("old",N+1), o=u; Reg g=pickReg(); int ord=ordOf(s)+vf_pick("extra order",0,1); curQ=&q; Mem m(sp.interpolateOnRegion_mem_req(g.type,ord)); if (vf_pick("way",0,1)) sp.interpolateOnRegion(XYZ(t),q,ArrayView<>(u.data(),N),g.type,g.e,m.p,&UD,ord); else sp.base()->interpolateOnRegion(XYZ(t),BaseFemSpace::EvalFunctor(callQ),ArrayView<>(u.data(),N),g.type,g.e,m.p,&UD,ord); verify(s,t,g,q,o.data(),u.data()); }
#endif
