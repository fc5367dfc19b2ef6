// C11: symmetry groups of d.o.f.s and renumbering of the nodes
#include "dofmap.h"
using namespace dm;
static const int OFF[7]={0,1,3,5,8,11,16}, VOL[16]={1,1,2,1,2,1,3,6,1,3,6,1,4,6,12,24};
static const int EV[6][2]={{0,1},{0,2},{0,3},{1,2},{1,3},{2,3}};
// arrangements of barycentric values in the order of the documentation (fem_space.h)
static const char* const ARR[16][24]={ {"a"}, {"aa"},{"ab","ba"}, {"aa"},{"ab","ba"}, {"aaa"},{"abb","bab","bba"},{"abc","bca","cab","acb","cba","bac"}, {"aaa"},{"abb","bab","bba"},{"abc","bca","cab","acb","cba","bac"},
  {"aaaa"},{"abbb","babb","bbab","bbba"},{"aabb","abab","baab","abba","baba","bbaa"},{"abcc","bcac","cabc","acbc","cbac","bacc","bcca","cacb","accb","cbca","ccba","ccab"},
  {"abcd","bcad","cabd","acbd","cbad","bacd","abdc","bcda","cadb","acdb","cbda","badc","adbc","bdca","cdab","adcb","cdba","bdac","dabc","dbca","dcab","dacb","dcba","dbac"} };
static std::array<uchar,4> symPerm(){ std::array<uchar,4> p; for(int i=0;i<4;i++) p[i]=(uchar)vf_int("number of node",0,3); for(int i=0;i<4;i++) for(int j=0;j<i;j++) vf_assume(p[i]!=p[j]); return p; }
// the d.o.f. of the reordered element sees the same barycentric values on the same nodes
VF_CASES(reorder,16,g){ int t=0; while(OFF[t+1]<=g) t++; int st=g-OFF[t], vol=VOL[g]; auto p=symPerm(); int e=NEL[t]>1?vf_pick("element",0,NEL[t]-1):0; int i=vol>1?vf_pick("index",0,vol-1):0;
    int r=DofSymmetries::index_on_reorderd_elem(ET[t],(uchar)e,(uchar)st,(uchar)i,p.data()); vf_check(r>=0 && r<vol,"index in the group"); if (!(r>=0&&r<vol)) return;
    int nv=GD[t]+1, v[4]; for(int k=0;k<nv;k++) v[k]=GD[t]==0?e:GD[t]==1?EV[e][k]:GD[t]==2?(e+k)%4:k;
    bool ok=true; for(int k=0;k<nv;k++){ int rank=0; for(int l=0;l<nv;l++) rank+=p[v[l]]<p[v[k]]; bool f=false; for(int j=0;j<vol;j++) for(int q=0;q<nv;q++) f|=(r==j)&(rank==q)&(ARR[g][j][q]==ARR[g][i][k]); ok&=f; } vf_check(ok,"the same barycentric value on every node"); }
// groups declared by a set of symmetries: counts, masks, group and position of a d.o.f.
static DofSymmetries symSet(std::array<unsigned,16>&n,bool sym){ static const unsigned D[8][16]={ {1,1,0,0,0,0,0,0,0,0,0,0,0,0,0,0},{1,0,1,0,0,1,0,0,0,0,0,0,0,0,0,0},{0,0,0,1,1,0,0,0,1,0,0,1,0,0,0,0},{2,1,2,1,0,1,1,1,0,1,0,1,1,0,0,0},{0,0,0,0,0,0,2,1,0,0,1,0,0,1,0,0},{0,0,0,0,0,0,0,0,1,1,1,1,0,0,1,0},{1,0,2,2,1,2,1,0,0,2,0,0,2,0,0,1},{0,2,0,0,0,0,0,2,0,0,0,2,1,2,0,0} };
    int p=sym?0:vf_pick("groups",0,7); for(int i=0;i<16;i++) n[i]=sym?(unsigned)vf_int("groups",0,2):D[p][i]; return DofSymmetries({n[0]},{n[1],n[2]},{n[3],n[4]},{n[5],n[6],n[7]},{n[8],n[9],n[10]},{n[11],n[12],n[13],n[14],n[15]}); }
VF_CASE(groups){ std::array<unsigned,16> n; DofSymmetries S=symSet(n,vf_pick("symbolic",0,1)); DofSymmetries T; vf_check(!T.isInited() && S.isInited(),"initialised"); vf_check(T.GetSymMask(CELL)==DofSymmetries::MASK_UNDEF,"mask of undefined groups"); bool ok=true; for(int t=0;t<6;t++){ vf_check(DofSymmetries::symmetries_amount(ET[t])==OFF[t+1]-OFF[t],"number of groups of a type"); unsigned mask=0; for(int s=0;s<OFF[t+1]-OFF[t];s++){ unsigned c=n[OFF[t]+s]; ok&=S.get(ET[t],s)==c; vf_check(DofSymmetries::symmetry_volume(ET[t],s)==VOL[OFF[t]+s],"size of a group"); mask|= c>0?1u<<s:0; T.add(ET[t],s,c); } ok&=S.GetSymMask(ET[t])==mask && S.GetSymMask_by_geom_num(t)==mask; } vf_check(ok,"number of groups and mask"); ok=true; for(int t=0;t<6;t++) for(int s=0;s<OFF[t+1]-OFF[t];s++) ok&=T.get(ET[t],s)==n[OFF[t]+s]; vf_check(ok,"groups added one by one"); 
    UniteDofMap U(S); ok=true; for(int t=0;t<6;t++){ unsigned c=0; for(int s=OFF[t];s<OFF[t+1];s++) c+=n[s]*VOL[s]; ok&=U.NumDof(ET[t])==c; ok&=U.SymComponents(ET[t])==S.GetSymMask(ET[t]); } vf_check(ok,"numbers of d.o.f.s by symmetry groups"); }
// position in the groups, also through vectors and products
VF_CASES(position,5,k){ std::array<unsigned,16> n; DofSymmetries S=symSet(n,false); auto U=std::make_shared<UniteDofMap>(S); auto O=std::make_shared<UniteDofMap>(std::array<unsigned,6>{1,0,1,2,0,1}); std::shared_ptr<BaseDofMap> B; unsigned add[6]={0,0,0,0,0,0}, off=0;
    std::array<unsigned,6> c; for(int t=0;t<6;t++){ c[t]=0; for(int s=OFF[t];s<OFF[t+1];s++) c[t]+=n[s]*VOL[s]; } unsigned tot=0; for(int t=0;t<6;t++) tot+=NEL[t]*c[t]; static const unsigned oc[6]={1,0,1,2,0,1}; unsigned otot=0; for(int t=0;t<6;t++) otot+=NEL[t]*oc[t];
    switch(k){ case 0: B=U; break; case 1: { B=std::make_shared<VectorDofMap>(3,U); unsigned d=vf_pick("component",0,2); off=d*tot; for(int t=0;t<6;t++) add[t]=d*c[t]; break; } case 2: B=std::make_shared<ComplexDofMap>(std::vector<std::shared_ptr<BaseDofMap>>{O,U}); off=otot; for(int t=0;t<6;t++) add[t]=oc[t]; break; case 3: B=std::make_shared<VectorDofMapC<UniteDofMap>>(2,*U); off=tot; for(int t=0;t<6;t++) add[t]=c[t]; break; case 4: B=std::make_shared<ComplexDofMapC<UniteDofMap,UniteDofMap>>(*O,*U); off=otot; for(int t=0;t<6;t++) add[t]=oc[t]; break; }
    std::vector<int> ty; for(int t=0;t<6;t++) if (c[t]) ty.push_back(t); int t=ty[ty.size()>1?vf_pick("type",0,(int)ty.size()-1):0]; unsigned e=(unsigned)vf_int("element",0,NEL[t]-1), l=(unsigned)vf_int("number",0,c[t]-1);
    std::vector<std::pair<int,int>> order; for(int s=OFF[t];s<OFF[t+1];s++) for(unsigned q=0;q<n[s];q++) for(int i=0;i<VOL[s];i++) order.push_back({s-OFF[t],i}); int gs=0,gi=0; for(size_t x=0;x<order.size();x++) if (l==x){ gs=order[x].first; gi=order[x].second; }
    if (k==0){ auto lso=S.GetLocSymOrder(ET[t],l); vf_check(lso.stype==gs && lso.lsid==gi && lso.isValid(),"group and position of a d.o.f."); }
    auto x=B->TetDofIDExt(LocGeomOrder(ET[t],e,l+add[t])); vf_check(x.second.stype==gs && x.second.lsid==gi,"group and position with the tetrahedron index"); unsigned o=0; for(int q=0;q<t;q++) o+=NEL[q]*c[q]; unsigned gid=off+o+e*c[t]+l; vf_check(x.first==gid,"tetrahedron index"); LocalOrder lo=B->LocalOrderOnTet(TetOrder(gid)); vf_check(lo.stype==gs && lo.lsid==gi && lo.etype==ET[t] && lo.nelem==e && lo.leid==l+add[t],"group and position in the d.o.f. of the tetrahedron"); vf_check(lo.isValid() && lo.isValid(true) && B->isValidIndex(lo) && B->isValidIndex(lo,true),"a d.o.f. of the map is valid"); { LocalOrder w=lo; w.lsid=(uchar)VOL[OFF[t]+gs]; vf_check(!B->isValidIndex(w,true),"position outside its group is not valid"); w=lo; w.stype=(uchar)(OFF[t+1]-OFF[t]); vf_check(!B->isValidIndex(w,true),"a group that does not exist is not valid"); w=lo; w.nelem=(uchar)NEL[t]; vf_check(!w.isValid() && !B->isValidIndex(w),"an element that does not exist is not valid"); }
    LocalOrder l2=B->LocalOrderOnTet(LocGeomOrder(ET[t],e,l+add[t])); vf_check(l2.stype==gs && l2.lsid==gi && l2.gid==gid,"group and position in the d.o.f. of a locus"); }
// the group of permutations of the tetrahedron
VF_CASE(perm){ int f=(int)vf_int("face",0,3), e=(int)vf_int("edge",0,5); int a=S4::edge_vertex(e,0), b=S4::edge_vertex(e,1); bool ok=false; for(int x=0;x<6;x++) ok|=(e==x)&(a==EV[x][0])&(b==EV[x][1]); vf_check(ok,"vertices of an edge"); vf_check(S4::find_edge_elem(a,b)==e && S4::find_edge_elem(b,a)==e,"edge by its vertices"); int v[3]; for(int k=0;k<3;k++) v[k]=S4::face_vertex(f,k); unsigned m=(1u<<v[0])|(1u<<v[1])|(1u<<v[2]); ok=false; for(int x=0;x<4;x++) ok|=(f==x)&(m==((1u<<x)|(1u<<(x+1)%4)|(1u<<(x+2)%4))); vf_check(ok,"vertices of a face"); auto p=symPerm(); int q[3]={0,0,0}; for(int k=0;k<3;k++) for(int x=0;x<3;x++){ int less=0; for(int y=0;y<3;y++) less+=p[y]<p[x]; q[k]= less==k?v[x]:q[k]; } vf_check(S4::find_face_elem(q[0],q[1],q[2])==f,"face by its vertices in any order");
    std::array<std::array<uchar,4>,24> all; S4::all_permutations(all); int cnt=0; for(auto&w:all) cnt+=(w[0]==p[0])&(w[1]==p[1])&(w[2]==p[2])&(w[3]==p[3]); vf_check(cnt==1,"every permutation is listed once"); auto id=S4::identity_perm(); vf_check(id[0]==0&&id[1]==1&&id[2]==2&&id[3]==3,"identity"); }
// action on the d.o.f.s: signed permutation, composition
static UniteDofMap actMap(int k){ switch(k){ case 0: return UniteDofMap(DofSymmetries({1})); case 1: return UniteDofMap(DofSymmetries({1},{1,0})); case 2: return UniteDofMap(DofSymmetries({0},{0,1})); case 3: return UniteDofMap(DofSymmetries({0},{0},{1,0})); case 4: return UniteDofMap(DofSymmetries({0},{0},{0},{1,0,0})); case 5: return UniteDofMap(DofSymmetries({0},{0},{0},{0},{1,0,0})); case 6: return UniteDofMap(DofSymmetries({0},{0},{0},{0},{0},{1,1,0,0,0})); case 7: return UniteDofMap(DofSymmetries({0},{0},{0},{0},{0},{0,0,1,0,0})); } return UniteDofMap(DofSymmetries({0},{0},{0},{0},{0},{0,0,0,1,0})); }
static const double SGN(double x){ return x; }
VF_CASES(action,9,k){ UniteDofMap B=actMap(k); const int n=(int)B.NumDofOnTet(); std::array<std::array<uchar,4>,24> all; S4::all_permutations(all); int i=vf_pick("first",0,23), j=vf_pick("second",0,23); uchar*s=all[i].data(),*t=all[j].data(); uchar st[4]; for(int x=0;x<4;x++) st[x]=s[t[x]];
    std::vector<double> P(n*n+1,7.0),Q(n*n+1,7.0),R(n*n+1,7.0); S4::build_dof_permutation(B,s,P.data(),n); S4::build_dof_permutation(B,t,Q.data(),n); S4::build_dof_permutation(B,st,R.data(),n); bool perm=true, comp=true; for(int c=0;c<n;c++){ int nz=0, nr=0; for(int r=0;r<n;r++){ double x=P[r+c*n]; if (x==1||x==-1) nz++; else if (x!=0) perm=false; double y=P[c+r*n]; if (y!=0) nr++; double z=0; for(int q=0;q<n;q++) z+=P[r+q*n]*Q[q+c*n]; if (z!=R[r+c*n]) comp=false; } if (nz!=1||nr!=1) perm=false; } vf_check(perm,"a permutation of the nodes acts by a signed permutation of the d.o.f.s"); vf_check(comp,"composition of permutations acts by the product"); vf_check(P[n*n]==7.0,"nothing is written outside"); }
// stabilizers
VF_CASE(stabilizer){ int t=vf_pick("type",0,5), e=NEL[t]>1?vf_pick("element",0,NEL[t]-1):0; LocalOrder lo; lo.etype=ET[t]; lo.nelem=e; auto sd=S4::stabilizer_data(lo); vf_check(sd.generators.size()==2,"generators"); for(auto&g:sd.generators){ LocalOrder r=S4::remap_local_order(lo,g.data()); vf_check(r.nelem==e,"a generator keeps the element"); bool id=true, bij=true; for(int x=0;x<4;x++){ if (g[x]!=x) id=false; for(int y=0;y<x;y++) if (g[x]==g[y]) bij=false; } vf_check(!id && bij,"generator is a non-trivial permutation"); }
    auto p=S4::perm_vertex_to_repr(LocalOrder(0,ET[t],0,0),lo); vf_check(S4::remap_local_order(LocalOrder(0,ET[t],0,0),p.data()).nelem==e,"permutation from the first element to any"); bool bij=true; for(int x=0;x<4;x++) for(int y=0;y<x;y++) if (p[x]==p[y]) bij=false; vf_check(bij,"it is a permutation"); 
    auto key=S4::symmetry_type_key(lo); vf_check(key.etype==(GD[t]==0?NODE:GD[t]==1?EDGE:GD[t]==2?FACE:CELL) && key.oriented==(t==2||t==4),"kind of symmetry"); }
