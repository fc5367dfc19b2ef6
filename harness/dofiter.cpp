// C09: iteration over the d.o.f.s of selected parts of the tetrahedron
#include "dofmap.h"
using namespace dm;
static int P0=-1;
static M L(){ static const int start[4]={6,3,9,1}; if (P0<0) P0=vf_tier()?vf_pick("pattern",0,NPAT-1):start[vf_pick("pattern",0,1)]; M m=leaf(pat(P0)); P0=(P0*5+3)%NPAT; return m; }
static M Lp(int p){ return leaf(pat(p)); }
// trees, the last ones chosen so that a component has no d.o.f.s where its neighbours have, or only oriented ones
static const int NT=18;
static M tree(int k){ switch(k){ case 0: return L(); case 1: return vec(2,L()); case 2: return com({L(),L()}); case 3: return com({L(),vec(2,L())}); case 4: return com({vec(2,L()),L(),L()}); case 5: return vec(2,com({L(),L()})); case 6: return vec(2,vec(2,L())); case 7: return com({com({L(),L()}),L()}); case 8: return com({vec(2,com({L(),L()})),L()});
    case 9: return com({Lp(0),Lp(5),Lp(0)}); case 10: return com({Lp(2),Lp(7)}); case 11: return vec(2,com({Lp(2),Lp(1)})); case 12: return com({Lp(4),Lp(9),Lp(3)}); case 13: return com({Lp(11),Lp(1),Lp(11),Lp(10)}); case 14: return com({vec(2,Lp(5)),Lp(8),vec(2,Lp(2))}); case 15: return com({com({Lp(5),Lp(2)}),vec(2,com({Lp(4),Lp(1)})),Lp(6)}); case 16: return com({Lp(5),Lp(10),Lp(4),Lp(0)}); case 17: return vec(2,com({Lp(5),Lp(0),Lp(2)})); } return M(); }
static const int NE[4]={4,6,4,1};
struct Sel { bool s[4][6]; TetGeomSparsity sp; Sel(){ for(int d=0;d<4;d++) for(int e=0;e<6;e++) s[d][e]=false; } void add(int d,int i){ sp.set((uchar)d,i); for(int e=0;e<NE[d];e++) s[d][e]=s[d][e]|(i==e); } };
struct Dof { int t,e; unsigned leid; };
static std::vector<Dof> all(const M&m){ std::vector<Dof> r; for(auto&l:leaves(m)) for(int t=0;t<6;t++) for(int e=0;e<NEL[t];e++) for(unsigned k=0;k<l.m->n[t];k++) r.push_back(Dof{t,e,l.eo[t]+k}); return r; }
static void iterate(const M&m,const BaseDofMap&B,const Sel&S,bool geom){
    auto D=all(m); std::vector<int> seen(D.size(),0); bool ordered=true, grouped=true; int pd=-1,pe=-1; size_t n=0; bool done[4][6]={};
    for(auto it=B.beginBySparsity(S.sp,geom); it!=B.endBySparsity(); ++it){
        if (++n>D.size()){ vf_check(false,"the iteration ends after the last d.o.f."); return; }
        LocalOrder lo=*it; if (!(lo.gid<D.size())){ vf_check(false,"index of a visited d.o.f. is valid"); return; }
        const Dof&d=D[lo.gid]; vf_check(it->gid==lo.gid && lo.etype==ET[d.t] && lo.nelem==d.e && lo.leid==d.leid,"locus of a visited d.o.f."); seen[lo.gid]++;
        auto sym=B.TetDofIDExt(LocGeomOrder(ET[d.t],d.e,d.leid)).second; vf_check(lo.stype==sym.stype && lo.lsid==sym.lsid,"symmetry group of a visited d.o.f.");
        int dd=GD[d.t]; if (dd<pd || (dd==pd && d.e<pe)) ordered=false; if ((dd!=pd || d.e!=pe)){ if (done[dd][d.e]) grouped=false; done[dd][d.e]=true; } pd=dd; pe=d.e; }
    bool once=true, exact=true; for(size_t g=0;g<D.size();g++){ once&=seen[g]<=1; exact&=(seen[g]>0)==S.s[GD[D[g].t]][D[g].e]; } vf_check(once,"no d.o.f. is visited twice"); vf_check(exact,"exactly the d.o.f.s on the selected parts are visited");
    if (geom) vf_check(ordered && grouped,"geometric ordering goes through the elements one after another"); }
static Sel pairSel(){ static const int A[6]={0,0,0,1,1,2}, C[6]={1,2,3,2,3,3}; int p=vf_pick("dimensions",0,5); Sel S; S.add(C[p],C[p]==3?0:(int)vf_int("second",0,NE[C[p]]-1)); S.add(A[p],(int)vf_int("first",0,NE[A[p]]-1)); if (vf_tier()) S.add(A[p],(int)vf_int("third",0,NE[A[p]]-1)); return S; }
VF_CASES(iter,18,k){ M m=tree(k); auto b=build(m); int geom=vf_pick("geometric ordering",0,1); Sel S=pairSel(); iterate(m,*b,S,geom); }
// every subset of the elements of one dimension
VF_CASES(subsets,6,k){ static const int T[6]={9,10,12,14,15,5}; M m=tree(T[k]); auto b=build(m); int geom=vf_pick("geometric ordering",0,1), d=vf_pick("dimension",0,3); Sel S; for(int e=0;e<NE[d];e++) if (vf_int("selected",0,1)) S.add(d,e); iterate(m,*b,S,geom); }
// nested parts: the d.o.f.s of the part are visited with their indices in the whole
VF_CASES(nested,9,kk){ static const int T[9]={1,3,5,7,8,9,11,14,15}; M m=tree(T[kk]); auto b=build(m); int geom=vf_pick("geometric ordering",0,1); auto ls=leaves(m); auto&l=ls[vf_pick("leaf",0,(int)ls.size()-1)]; int n=1+(l.path.size()>1?vf_pick("depth",0,(int)l.path.size()-1):0);
    const M*c=&m; unsigned off=0; std::array<unsigned,6> eo; eo.fill(0); for(int q=0;q<n;q++){ int i=l.path[q]; for(int j=0;j<i;j++){ const M&x=c->kind==1?c->ch[0]:c->ch[j]; off+=x.tet(); for(int t=0;t<6;t++) eo[t]+=x.cnt(t); } c=c->kind==1?&c->ch[0]:&c->ch[i]; }
    Sel S; int d=vf_pick("dimension",0,3); S.add(d,d==3?0:(int)vf_int("element",0,NE[d]-1)); if (d<3) S.add(3,0);
    auto D=all(*c); std::vector<int> seen(D.size(),0); size_t cnt=0; NestedDofMapView v=b->GetNestedDofMapView(l.path.data(),n);
    for(auto it=v.beginBySparsity(S.sp,geom); it!=v.endBySparsity(); ++it){ if (++cnt>D.size()){ vf_check(false,"the iteration ends after the last d.o.f."); return; } LocalOrder lo=*it; if (!(lo.gid>=off && lo.gid<off+D.size())){ vf_check(false,"index of a visited d.o.f. lies in the part"); return; } const Dof&q=D[lo.gid-off]; vf_check(lo.etype==ET[q.t] && lo.nelem==q.e && lo.leid==q.leid+eo[q.t],"locus of a visited d.o.f. of a part"); seen[lo.gid-off]++; }
    bool exact=true; for(size_t g=0;g<D.size();g++) exact&=(seen[g]==(S.s[GD[D[g].t]][D[g].e]?1:0)); vf_check(exact,"exactly the d.o.f.s of the part on the selected elements are visited once"); }
// compile-time maps
typedef UniteDofMap U; typedef VectorDofMapC<U> VU; typedef ComplexDofMapC<U,U> CU;
VF_CASES(compiletime,6,k){ int geom=vf_pick("geometric ordering",0,1); Sel S=pairSel(); M a=L(), c=L(); U ua(a.n), ub(c.n), u0(pat(0)), u2(pat(2)), u1(pat(1)), u5(pat(5));
    switch(k){ case 0: iterate(vec(3,a),VU(3,ua),S,geom); break; case 1: iterate(com({a,c}),CU(ua,ub),S,geom); break; case 2: iterate(com({a,vec(2,c)}),ComplexDofMapC<U,VU>(ua,VU(2,ub)),S,geom); break; case 3: iterate(vec(2,com({Lp(2),Lp(1)})),VectorDofMapC<CU>(2,CU(u2,u1)),S,geom); break;
    case 4: iterate(com({Lp(0),Lp(5),Lp(0)}),ComplexDofMapC<U,U,U>(u0,u5,u0),S,geom); break; case 5: iterate(com({vec(2,Lp(5)),a,vec(2,Lp(2))}),ComplexDofMapC<VU,U,VU>(VU(2,u5),ua,VU(2,u2)),S,geom); break; } }
