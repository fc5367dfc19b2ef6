// C12: Dirichlet conditions on elemental matrices
#include "dofmap.h"
#include "anifem++/fem/operations/dc_on_dof.h"
#include <algorithm>
using namespace dm;
typedef std::vector<double> Vec;
static double val(const char*n){ return vf_real(n,-2,2); }
static Vec sym(const char*n,int k){ Vec v(k); for(auto&x:v) x=val(n); return v; }
static void same(const Vec&a,const Vec&b,const char*m,double tol=1e-9){ for(size_t i=0;i<a.size();i++) vf_close(a[i],b[i],tol,m); }
// oracle: pairs (test row, trial column) and values
struct Pr { int i,j; };
static void oracle(int nr,int nc,Vec&A,Vec*F,const std::vector<Pr>&D,const Vec&bc,double diag,int mode){ // mode 0: eliminate with values, 1: zero the rhs
    std::vector<char> ri(nr,0), cj(nc,0); for(auto&p:D){ ri[p.i]=1; cj[p.j]=1; }
    if (F){ Vec G(*F); for(int i=0;i<nr;i++) if (ri[i]) G[i]=0; else if (mode==0) for(size_t k=0;k<D.size();k++) G[i]-=A[i+nr*D[k].j]*bc[k]; if (mode==0) for(size_t k=0;k<D.size();k++) G[D[k].i]=bc[k]; *F=G; }
    for(int j=0;j<nc;j++) for(int i=0;i<nr;i++) if (ri[i]||cj[j]) A[i+nr*j]=0; for(auto&p:D) A[p.i+nr*p.j]=diag; }
// one d.o.f.
VF_CASES(single,4,k){ int n=vf_pick("size",1,6), d=vf_pick("dof",0,n-1); Vec a=sym("matrix",n*n), f=sym("rhs",n), b={val("value")}; Vec a0=a,f0=f; DenseMatrix<double> A(a.data(),n,n), F(f.data(),n,1); std::vector<Pr> D={{d,d}};
    switch(k){ case 0: applyDir(A,F,d,b[0]); oracle(n,n,a0,&f0,D,b,1,0); break; case 1: applyDirMatrix(A,d); oracle(n,n,a0,nullptr,D,b,1,0); break; case 2: applyDirNonExists(A,F,d); oracle(n,n,a0,&f0,D,b,0,1); break; case 3: if (vf_pick("residual",0,1)){ applyDirResidual(F,d); f0[d]=0; } else { applyDirNonExists(A,d); oracle(n,n,a0,nullptr,D,b,0,0); } break; }
    same(a,a0,"matrix after a condition on one d.o.f."); same(f,f0,"right-hand side after a condition on one d.o.f."); }
// several d.o.f.s one after another: the order is irrelevant
VF_CASE(order){ int n=6; Vec a=sym("matrix",n*n), f=sym("rhs",n), b=sym("value",3); Vec a0=a,f0=f; int i=vf_pick("first",0,n-1), j=vf_pick("second",0,n-1), k=vf_pick("third",0,n-1); if (i==j||i==k||j==k) return; DenseMatrix<double> A(a.data(),n,n), F(f.data(),n,1); applyDir(A,F,i,b[0]); applyDir(A,F,j,b[1]); applyDir(A,F,k,b[2]); oracle(n,n,a0,&f0,{{i,i},{j,j},{k,k}},b,1,0); same(a,a0,"matrix after several conditions"); same(f,f0,"right-hand side after several conditions"); }
// conditions on parts of the tetrahedron
static const int NE[4]={4,6,4,1};
static std::vector<Lf> LS(const M&m,std::vector<Lf>&k){ k=leaves(m); return k; }
struct DofE { int t,e; unsigned leid; int gid; };
static std::vector<DofE> all(const M&m){ std::vector<DofE> r; for(auto&l:leaves(m)){ unsigned g=l.off; for(int t=0;t<6;t++) for(int e=0;e<NEL[t];e++) for(unsigned k=0;k<l.m->n[t];k++) r.push_back(DofE{t,e,l.eo[t]+k,(int)g++}); } return r; }
struct Sel { bool s[4][6]; TetGeomSparsity sp; Sel(){ for(int d=0;d<4;d++) for(int e=0;e<6;e++) s[d][e]=false; } void add(int d,int i){ sp.set((uchar)d,i); s[d][i]=true; } };
static Sel pickSel(){ Sel S; int k=vf_pick("parts",0,11); switch(k){ case 0: break; case 1: S.add(0,vf_pick("node",0,3)); break; case 2: S.add(1,vf_pick("edge",0,5)); break; case 3: S.add(2,vf_pick("face",0,3)); break; case 4: S.add(3,0); break; case 5: S.add(0,1); S.add(0,3); S.add(1,vf_pick("edge",0,5)); break; case 6: for(int i=0;i<4;i++) S.add(0,i); break; case 7: S.add(2,0); S.add(1,1); S.add(0,2); S.add(0,0); break; case 8: for(int e=0;e<6;e++) S.add(1,e); S.add(3,0); break; case 9: { int f=vf_pick("face",0,3); S.add(2,f); for(int q=0;q<3;q++) S.add(0,(f+q)%4); for(int e=0;e<6;e++){ static const int X[6][2]={{0,1},{0,2},{0,3},{1,2},{1,3},{2,3}}; int o=(f+3)%4; if (X[e][0]!=o && X[e][1]!=o) S.add(1,e); } break; } case 10: for(int d=0;d<4;d++) for(int e=0;e<NE[d];e++) S.add(d,e); break; case 11: S.add(1,0); S.add(1,5); S.add(2,1); S.add(2,3); break; } return S; }
static std::vector<Pr> pairs(const std::vector<DofE>&T,const std::vector<DofE>&S,const Sel&s){ std::vector<Pr> r; for(auto&x:S) if (s.s[GD[x.t]][x.e]) for(auto&y:T) if (y.t==x.t && y.e==x.e && y.leid==x.leid) r.push_back(Pr{x.gid,y.gid}); return r; } // test, trial
static M Lp(int p){ return leaf(pat(p)); }
static M P1(){ return leaf({1,0,0,0,0,0}); } static M P2(){ return leaf({1,1,0,0,0,0}); } static M MINI(){ return com({P1(),leaf({0,0,0,0,0,1})}); }
static M treeOne(int k){ switch(k){ case 0: return P2(); case 1: return leaf({0,0,1,1,0,0}); case 2: return vec(2,P1()); case 3: return com({P1(),leaf({0,0,0,0,1,1})}); case 4: return leaf({1,0,2,0,0,0}); } return com({vec(2,P1()),leaf({0,0,0,0,0,1})}); }
// maps with the same number of d.o.f.s on every element but another numbering
static void treeTwo(int k,M&tr,M&te){ switch(k){ case 0: tr=vec(2,P1()); te=com({P1(),P1()}); break; case 1: tr=vec(2,MINI()); te=com({vec(2,P1()),vec(2,leaf({0,0,0,0,0,1}))}); break; case 2: tr=leaf({1,1,0,0,0,0}); te=com({leaf({0,1,0,0,0,0}),P1()}); break; case 3: tr=com({P1(),leaf({0,0,0,1,0,0})}); te=com({leaf({0,0,0,1,0,0}),P1()}); break; case 4: tr=com({leaf({0,0,1,0,0,0}),leaf({1,0,0,0,0,1})}); te=leaf({1,0,1,0,0,1}); break; case 5: tr=leaf({2,0,0,1,0,0}); te=vec(2,P1()); te=com({te,leaf({0,0,0,1,0,0})}); break; } }
static const int OP=6;
static void runOne(int op,const BaseDofMap&B,const M&m,int n,int off,const Sel&S){ // matrix of size n, d.o.f.s of the map start at off
    Vec a=sym("matrix",n*n), f=sym("rhs",n), b=sym("dofs",n); double c=val("constant"); Vec a0=a,f0=f; DenseMatrix<double> A(a.data(),n,n), F(f.data(),n,1); auto D=pairs(all(m),all(m),S); for(auto&p:D){ p.i+=off; p.j+=off; } Vec bc; for(auto&p:D) bc.push_back(op==0?b[p.j]:c);
    switch(op){ case 0: applyDirByDofs(B,A,F,S.sp,ArrayView<const double>(b.data(),b.size())); oracle(n,n,a0,&f0,D,bc,1,0); break; case 1: applyConstantDirByDofs(B,A,F,S.sp,c); oracle(n,n,a0,&f0,D,bc,1,0); break; case 2: applyDirMatrix(B,A,S.sp); oracle(n,n,a0,nullptr,D,bc,1,0); break; case 3: applyDirResidual(B,F,S.sp); { Vec t=a0; oracle(n,n,t,&f0,D,bc,1,1); } break; case 4: applyDirResidual(B,A,F,S.sp); oracle(n,n,a0,&f0,D,bc,1,1); break; case 5: applyDirNonExists(B,A,F,S.sp); oracle(n,n,a0,&f0,D,bc,0,1); break; }
    same(a,a0,"matrix after conditions on parts"); same(f,f0,"right-hand side after conditions on parts"); }
VF_CASES(parts,6,k){ M m=treeOne(k); auto B=build(m); int op=vf_pick("operation",0,OP-1); Sel S=pickSel(); runOne(op,*B,m,(int)m.tet(),0,S); }
// condition on one component of a product through its view
VF_CASES(component,4,k){ M m; std::vector<int> path; switch(k){ case 0: m=com({vec(2,P1()),P1()}); break; case 1: m=vec(3,P1()); break; case 2: m=com({P1(),leaf({0,0,0,1,0,0})}); break; default: m=com({leaf({0,0,0,0,0,1}),vec(2,P1())}); } auto B=build(m); auto ls=leaves(m); auto&l=ls[vf_pick("leaf",0,(int)ls.size()-1)]; int dep=vf_pick("depth",1,(int)l.path.size()); unsigned off=0; const M*c=&m; for(int q=0;q<dep;q++){ int i=l.path[q]; for(int j=0;j<i;j++) off+=(c->kind==1?c->ch[0]:c->ch[j]).tet(); c=c->kind==1?&c->ch[0]:&c->ch[i]; }
    NestedDofMapView V=B->GetNestedDofMapView(l.path.data(),dep); int op=vf_pick("operation",0,OP-1); Sel S=pickSel(); runOne(op,V,*c,(int)m.tet(),(int)off,S); }
// different numbering of test and trial functions
static void runTwo(int op,const BaseDofMap&tr,const BaseDofMap&te,const M&mt,const M&ms,const Sel&S){ int n=(int)mt.tet(); Vec a=sym("matrix",n*n), f=sym("rhs",n), b=sym("dofs",n); double c=val("constant"); Vec a0=a,f0=f; DenseMatrix<double> A(a.data(),n,n), F(f.data(),n,1); auto D=pairs(all(mt),all(ms),S); Vec bc; for(auto&p:D) bc.push_back(op==0?b[p.j]:c);
    switch(op){ case 0: applyDirByDofs(tr,te,A,F,S.sp,ArrayView<const double>(b.data(),b.size())); oracle(n,n,a0,&f0,D,bc,1,0); break; case 1: applyConstantDirByDofs(tr,te,A,F,S.sp,c); oracle(n,n,a0,&f0,D,bc,1,0); break; case 2: applyDirMatrix(tr,te,A,S.sp); oracle(n,n,a0,nullptr,D,bc,1,0); break; case 3: applyDirResidual(tr,te,A,F,S.sp); oracle(n,n,a0,&f0,D,bc,1,1); break; case 4: applyDirNonExists(tr,te,A,S.sp); oracle(n,n,a0,nullptr,D,bc,0,0); break; case 5: applyDirNonExists(tr,te,A,F,S.sp); oracle(n,n,a0,&f0,D,bc,0,1); break; }
    same(a,a0,"matrix after conditions with different numberings"); same(f,f0,"right-hand side after conditions with different numberings"); }
VF_CASES(two,6,k){ M tr,te; treeTwo(k,tr,te); if (vf_pick("swap",0,1)) std::swap(tr,te); auto T=build(tr), S=build(te); int op=vf_pick("operation",0,OP-1); Sel s=pickSel(); runTwo(op,*T,*S,tr,te,s); }
VF_CASES(twosame,3,k){ M m=treeOne(k); auto T=build(m), S=build(m); int op=vf_pick("operation",0,OP-1); Sel s=pickSel(); runTwo(op,*T,vf_pick("copy",0,1)?*S:*T,m,m,s); }
// oblique conditions V u = b on a vector unknown
static Vec orth(int d,int p){ if (d==1) return {p%2?-1.0:1.0}; if (d==2){ double c[3]={0.6,0,-0.28},s[3]={0.8,1,0.96}; double q=p%2?-1:1; return {c[p%3],q*-s[p%3],s[p%3],q*c[p%3]}; }
    switch(p%4){ case 0: return {0,1,0,0,0,1,1,0,0}; case 1: { double t=1.0/3; return {2*t,-1*t,2*t, 2*t,2*t,-1*t, -1*t,2*t,2*t}; } case 2: { double t=1.0/7; return {2*t,3*t,6*t, 3*t,-6*t,2*t, 6*t,2*t,-3*t}; } } double t=1.0/9; return {1*t,8*t,4*t, 4*t,-4*t,7*t, -8*t,-1*t,4*t}; }
struct VC { int d,n,ndc; Vec V; std::vector<unsigned> dof,id; bool given; };
static VC pickV(int d){ VC c; c.d=d; c.n=d+2; bool symV=vf_pick("matrix symbolic",0,1)!=0; c.ndc=symV?1:vf_pick("conditions",1,d); if (symV){ c.V.resize(d*d); for(auto&x:c.V) x=vf_real("V",-1,1); } else c.V=orth(d,vf_pick("rotation",0,3)); static const unsigned X[3][3]={{1,3,4},{2,0,3},{4,1,0}}; static const unsigned X2[2][2]={{0,2},{3,1}}; int w=vf_pick("positions",0,1); for(int q=0;q<d;q++) c.dof.push_back(d==3?X[w+1][q]:d==2?X2[w][q]:(w?2:0)); c.given=vf_pick("choice of rows",0,1)!=0; int s=c.given?vf_pick("shift",0,d-1):0; for(int k=0;k<c.ndc;k++) c.id.push_back((s+k*(d>2&&s%2?2:1))%d); return c; }
static Vec rows(const VC&c,const Vec&a,int nr,int nc){ Vec r(a); for(int j=0;j<nc;j++) for(int m=0;m<c.d;m++){ double s=0; for(int p=0;p<c.d;p++) s+=c.V[m+c.d*p]*a[c.dof[p]+nr*j]; r[c.dof[m]+nr*j]=s; } return r; }
VF_CASES(oblique,6,k){ int d=1+k/2; bool full=k%2; VC c=pickV(d); int n=c.n; Vec a=sym("matrix",n*n), f=sym("rhs",n), b=sym("value",c.ndc), V=c.V; Vec a0=rows(c,a,n,n), f0=full?rows(c,f,n,1):f; DenseMatrix<double> A(a.data(),n,n), F(f.data(),n,1), Vm(V.data(),d,d); Vec mem(d*n,1e3); ArrayView<double> W(mem.data(),mem.size());
    if (full) applyVectorDir(A,F,c.dof.data(),Vm,ArrayView<double>(b.data(),b.size()),W,c.ndc,c.given?c.id.data():nullptr); else applyVectorDirMatrix(A,c.dof.data(),Vm,W,c.ndc,c.given?c.id.data():nullptr);
    Vec ae(a0), fe(f0); for(int q=0;q<c.ndc;q++) for(int i=0;i<n;i++){ double s=0; for(int p=0;p<d;p++) s+=a0[i+n*c.dof[p]]*c.V[c.id[q]+d*p]; for(int l=0;l<d;l++) ae[i+n*c.dof[l]]-=s*c.V[c.id[q]+d*l]; if (full) fe[i]-=s*b[q]; }
    for(int q=0;q<c.ndc;q++){ int r=c.dof[c.id[q]]; for(int j=0;j<n;j++) ae[r+n*j]=0; for(int l=0;l<d;l++) ae[r+n*c.dof[l]]=c.V[c.id[q]+d*l]; if (full) fe[r]=b[q]; }
    same(a,ae,"matrix after an oblique condition"); same(f,fe,"right-hand side after an oblique condition"); same(V,c.V,"the given directions are not changed"); }
VF_CASES(extra,9,kk){ int d=1+kk/3, k=kk%3; VC c=pickV(d); int n=c.n; Vec f=sym("vector",n), V=c.V, f0=rows(c,f,n,1); Vec fe; DenseMatrix<double> Vm(V.data(),d,d); Vec mem(d,1e3); ArrayView<double> W(mem.data(),mem.size()), Fv(f.data(),f.size()); DenseMatrix<double> F(f.data(),n,1); unsigned*id=c.given?c.id.data():nullptr; std::vector<unsigned> dof=c.dof;
    if (k<2){ fe=f0; for(int q=0;q<c.ndc;q++) fe[c.dof[c.id[q]]]=0; if (k==0) applyVectorDirResidual(F,dof,Vm,W,c.ndc,id); else applyVectorDirMatrixExtCol(Fv,dof,Vm,W,c.ndc,id); }
    else { fe=f; for(int q=0;q<c.ndc;q++){ double s=0; for(int p=0;p<d;p++) s+=f[c.dof[p]]*c.V[c.id[q]+d*p]; for(int l=0;l<d;l++) fe[c.dof[l]]-=s*c.V[c.id[q]+d*l]; } applyVectorDirMatrixExtRow(Fv,dof,Vm,c.ndc,id); }
    same(f,fe,"residual, extra column or extra row after an oblique condition"); }
