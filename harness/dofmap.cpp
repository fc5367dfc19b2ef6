// C08: numbering of degrees of freedom: counts, both directions of the numbering, components, nested views, products, compile-time maps
#include "dofmap.h"
using namespace dm;
static const int HI=2;
static bool SYM=false; static int P0=-1, PN=0;
// counts on a leaf: symbolic in [0,HI], or one of the patterns (chosen per path; further leaves take other patterns)
static M L(){ if (SYM) return leaf(symCounts(HI)); if (P0<0){ static const int start[2]={6,3}; if (vf_tier()){ P0=vf_pick("pattern",0,NPAT-1); PN=vf_pick("shift",0,3); } else P0=start[vf_pick("pattern",0,1)]; } M m=leaf(pat(P0)); P0=(P0*5+3+PN)%NPAT; return m; }
static const int NT=10;
static M tree(int k){ switch(k){ case 0: return L(); case 1: return vec(2,L()); case 2: return vec(3,L()); case 3: return com({L(),L()}); case 4: return com({L(),vec(2,L())}); case 5: return com({vec(2,L()),L(),L()}); case 6: return vec(2,com({L(),L()})); case 7: return vec(2,vec(2,L())); case 8: return com({com({L(),L()}),L()}); case 9: return com({vec(2,com({L(),L()})),L()}); } return M(); }
static void counts(const M&m,const BaseDofMap&B){
    auto nd=B.NumDofs(), nt=B.NumDofsOnTet(); unsigned all=0, mask=0;
    for(int t=0;t<6;t++){ unsigned c=m.cnt(t); vf_check(B.NumDof(ET[t])==c,"number of d.o.f.s on an element of the type"); vf_check(nd[t]==c,"NumDofs"); vf_check(nt[t]==NEL[t]*c,"NumDofsOnTet"); vf_check(B.NumDofOnTet(ET[t])==NEL[t]*c,"d.o.f.s of the type on the tetrahedron"); vf_check(B.DefinedOn(ET[t])==(c>0),"DefinedOn"); all+=NEL[t]*c; mask|= c>0?ET[t]:0; }
    vf_check(B.NumDofOnTet()==all,"d.o.f.s on the tetrahedron"); vf_check(B.GetGeomMask()==mask,"mask of the types with d.o.f.s");
    uchar M4[4]={EDGE,FACE,(uchar)(NODE|CELL),(uchar)(NODE|EDGE|FACE|CELL)}; for(int a=0;a<4;a++){ unsigned s=0; for(int t=0;t<6;t++) if (M4[a]&ET[t]) s+=NEL[t]*m.cnt(t); vf_check(B.NumDofOnTet(M4[a])==s,"d.o.f.s of several types on the tetrahedron"); } }
// a symbolic d.o.f. of a chosen leaf
struct Df { Lf l; int t,e; unsigned k, gid, leid, lgid; };
static Df symDof(const M&m){ auto ls=leaves(m); Df d; d.l=ls[ls.size()>1?vf_pick("leaf",0,(int)ls.size()-1):0]; if (SYM) d.t=vf_pick("type",0,5); else { std::vector<int> ty; for(int t=0;t<6;t++) if (d.l.m->n[t]) ty.push_back(t); vf_assume(!ty.empty()); d.t=ty[ty.size()>1?vf_pick("type",0,(int)ty.size()-1):0]; } unsigned n=d.l.m->n[d.t]; d.e=(int)vf_int("element",0,NEL[d.t]-1); d.k=(unsigned)vf_int("number",0,HI); vf_assume(d.k<n);
    unsigned o=0; for(int t=0;t<d.t;t++) o+=NEL[t]*d.l.m->n[t]; d.lgid=o+d.e*n+d.k; d.gid=d.l.off+d.lgid; d.leid=d.l.eo[d.t]+d.k; return d; }
static void isDof(const LocalOrder&lo,const Df&d,unsigned gid,unsigned leid,const char*msg){ vf_check(lo.gid==gid && lo.etype==ET[d.t] && lo.nelem==d.e && lo.leid==leid, msg); }
static void numbering(const M&m,const BaseDofMap&B,const Df&d){
    LocGeomOrder g(ET[d.t],d.e,d.leid);
    isDof(B.LocalOrderOnTet(TetOrder(d.gid)),d,d.gid,d.leid,"locus of a tetrahedron index"); vf_check(B.TetDofID(g)==d.gid,"tetrahedron index of a locus"); vf_check(B.TetDofIDExt(g).first==d.gid,"tetrahedron index of a locus (ext)");
    vf_check(B.TypeOnTet(d.gid)==ET[d.t],"type of a d.o.f."); vf_check(B.isValidIndex(TetOrder(d.gid)) && B.isValidIndex(g),"index of a d.o.f. is valid");
    isDof(B.at(TetOrder(d.gid)),d,d.gid,d.leid,"at(index)"); isDof(B.at(g),d,d.gid,d.leid,"at(locus)"); isDof(B[d.gid],d,d.gid,d.leid,"operator[]");
    auto it=B.begin()+(int)d.gid; vf_check(it!=B.end() && it-B.begin()==(int)d.gid && it<B.end(),"position of the iterator"); isDof(*it,d,d.gid,d.leid,"iterator"); }
VF_CASES(counts_sym,2,k){ SYM=true; M m=tree(k); auto b=build(m); counts(m,*b); }
VF_CASES(numbering_sym,1,k){ SYM=true; M m=tree(k); auto b=build(m); Df d=symDof(m); numbering(m,*b,d); }
VF_CASES(counts,10,k){ M m=tree(k); auto b=build(m); counts(m,*b); }
VF_CASES(numbering,10,k){ M m=tree(k); auto b=build(m); Df d=symDof(m); numbering(m,*b,d); }
// indices outside are recognised
VF_CASES(invalid,10,k){ M m=tree(k); DofMap B(build(m)); unsigned g=(unsigned)vf_int("index",0,0xffffffffLL); bool in=g<m.tet(); vf_check(B.isValidIndex(TetOrder(g))==in,"valid tetrahedron index"); bool th=false; try { B.at(TetOrder(g)); } catch (const std::out_of_range&){ th=true; } vf_check(th==!in,"at() rejects an index outside");
    int t=vf_pick("type",0,5); unsigned e=(unsigned)vf_int("element",0,255), l=(unsigned)vf_int("number",0,0xffffffffLL); bool ok=e<(unsigned)NEL[t] && l<m.cnt(t); LocGeomOrder lg(ET[t],e,l); vf_check(B.isValidIndex(lg)==ok,"valid locus"); if (!ok){ th=false; try { B.at(lg); } catch (const std::out_of_range&){ th=true; } vf_check(th,"at() rejects a locus outside"); } }
// components and nested parts
static void sub(const M&m,const BaseDofMap&B,const Df&d){
    const std::vector<int>&p=d.l.path; const M*c=&m; unsigned off=0; std::array<unsigned,6> eo; eo.fill(0);
    for(size_t n=1;n<=p.size();n++){ // descend to the component p[0..n)
        int i=p[n-1]; for(int q=0;q<i;q++){ const M&b=c->kind==1?c->ch[0]:c->ch[q]; off+=b.tet(); for(int t=0;t<6;t++) eo[t]+=b.cnt(t); } c=c->kind==1?&c->ch[0]:&c->ch[i];
        LocGeomOrder in(ET[d.t],d.e,d.leid-eo[d.t]);
        NestedDofMapView v=B.GetNestedDofMapView(p.data(),(int)n); NestedDofMap w=B.GetNestedDofMap(p.data(),(int)n);
        for(int kind=0;kind<2;kind++){ if ((int)(n%2)!=kind && !vf_tier()) continue; const NestedDofMapBase*x=kind?(const NestedDofMapBase*)&v:(const NestedDofMapBase*)&w; vf_check(x->NumDofOnTet()==c->tet() && x->NumDof(ET[d.t])==c->cnt(d.t),"counts of a nested part"); isDof(x->LocalOrderOnTet(TetOrder(d.gid-off)),d,d.gid,d.leid,"d.o.f. of a nested part in the whole"); vf_check(x->TetDofID(in)==d.gid,"index in the whole of a locus of the nested part"); isDof(x->LocalOrderOnTet(in),d,d.gid,d.leid,"locus of a nested part in the whole"); vf_check(x->isValidOutputIndex(TetOrder(d.gid)) && x->isValidOutputIndex(LocGeomOrder(ET[d.t],d.e,d.leid)) && x->isValidOutputIndex(B.LocalOrderOnTet(TetOrder(d.gid))),"index of the whole lies in the nested part");
            unsigned g=(unsigned)vf_int("other",0,4095); vf_assume(g<m.tet()); vf_check(x->isValidOutputIndex(TetOrder(g))==(g>=off && g<off+c->tet()),"which indices lie in the nested part");
            int z[2]={0,0}; NestedDofMapView vv=x->GetNestedDofMapView(z,1); isDof(vv.LocalOrderOnTet(TetOrder(d.gid-off)),d,d.gid,d.leid,"nested part of a nested part"); }
        auto s=B.GetSubDofMap(p.data(),(int)n); vf_check(s!=nullptr && s->NumDofOnTet()==c->tet(),"stored part"); isDof(s->LocalOrderOnTet(TetOrder(d.gid-off)),d,d.gid-off,d.leid-eo[d.t],"d.o.f. of the stored part");
    }
    if (!p.empty()){ int bad[1]={m.kind==1?m.d:(int)m.ch.size()}; vf_check(B.GetNestedDofMapView(bad,1).base()==nullptr && B.GetSubDofMap(bad,1)==nullptr,"a part that does not exist"); } }
VF_CASES(parts,9,kk){ M m=tree(kk+1); auto b=build(m); Df d=symDof(m); sub(m,*b,d);
    unsigned off=0,eo=0; int i=d.l.path[0]; for(int q=0;q<i;q++){ const M&c=m.kind==1?m.ch[0]:m.ch[q]; off+=c.tet(); eo+=c.cnt(d.t); }
    ComponentTetOrder ct; ComponentElemOrder ce; if (m.kind==1){ auto&v=static_cast<VectorDofMap&>(*b); ct=v.ComponentID(TetOrder(d.gid)); ce=v.ComponentID(ElemOrder(ET[d.t],d.leid)); vf_check(v.TetDofID(i,TetOrder(d.gid-off))==d.gid,"index of a d.o.f. of a component"); } else { auto&v=static_cast<ComplexDofMap&>(*b); ct=v.ComponentID(TetOrder(d.gid)); ce=v.ComponentID(ElemOrder(ET[d.t],d.leid)); vf_check(v.TetDofID(i,TetOrder(d.gid-off))==d.gid,"index of a d.o.f. of a component"); }
    vf_check((int)ct.part_id==i && ct.gid.gid==d.gid && ct.cgid.gid==d.gid-off,"component of a tetrahedron index"); vf_check((int)ce.part_id==i && ce.etype==ET[d.t] && ce.gid==d.leid && ce.cgid==d.leid-eo,"component of an index on the element"); }
// products with and without simplification keep the component-major numbering
VF_CASES(products,9,k){ M a=L(), b=L(); DofMap A(build(a)), B(build(b)), R; M m; switch(k){ case 0: R=A*B; m=com({a,b}); break; case 1: R=A*A*B; m=com({a,a,b}); break; case 2: R=(A^2)*A; m=vec(3,a); break; case 3: R=A*(A^2)*B; m=com({vec(3,a),b}); break; case 4: R=(A*B)*(B*A); m=com({a,b,b,a}); break; case 5: R=(A^2)^2; m=vec(4,a); break; case 6: R=merge_with_simplifications({A,B,B,A}); m=com({a,b,b,a}); break; case 7: R=merge({pow(A,2),B,B}); m=com({vec(2,a),b,b}); break; case 8: R=DofMap(std::make_shared<ComplexDofMap>(ComplexDofMap::makeCompressed({A.base(),A.base(),B.base(),A.base()}))); m=com({a,a,b,a}); break; }
    counts(m,*R.base()); Df d=symDof(m); numbering(m,*R.base(),d); }
VF_CASE(pushback){ M a=L(), b=L(); ComplexDofMap c; c.PushBack(build(a)); c.PushBack(std::make_shared<VectorDofMap>(2,build(b))); c.PushBack(build(a)); M m=com({a,vec(2,b),a}); counts(m,c); Df d=symDof(m); numbering(m,c,d); sub(m,c,d); }
// compile-time maps
template<class T> static void tmpl(const M&m,const T&B){ counts(m,B); Df d=symDof(m); numbering(m,B,d); sub(m,B,d); }
typedef UniteDofMap U; typedef VectorDofMapC<U> VU; typedef ComplexDofMapC<U,U> CU;
VF_CASES(compiletime,5,k){ M a=L(), b=L(); U ua(a.n), ub(b.n); switch(k){ case 0: tmpl(vec(3,a),VU(3,ua)); break; case 1: tmpl(com({a,b}),CU(ua,ub)); break; case 2: tmpl(com({a,vec(2,b)}),ComplexDofMapC<U,VU>(ua,VU(2,ub))); break; case 3: tmpl(vec(2,com({a,b})),VectorDofMapC<CU>(2,CU(ua,ub))); break; case 4: { ComplexDofMapC<VU,U,U> c; c.set<0>(VU(2,ua)); c.set<1>(ub); c.set<2>(ua); tmpl(com({vec(2,a),b,a}),c); break; } } }
// equality: equal maps have equal numbering; same construction gives equal maps
VF_CASES(equality,10,k){ M m=tree(k); auto b=build(m), c=build(m); vf_check(*b==*c && *b==*b->Copy(),"equal construction gives equal maps"); M m2=tree(k); auto e=build(m2); if (*b==*e){ for(int t=0;t<6;t++) vf_check(m.cnt(t)==m2.cnt(t),"equal maps have equal counts"); } int j=vf_pick("other tree",0,9); if (j!=k){ auto f=build(tree(j)); vf_check(!(*b==*f) || b->NumDofOnTet()==f->NumDofOnTet(),"equal maps have the same number of d.o.f.s"); } }
