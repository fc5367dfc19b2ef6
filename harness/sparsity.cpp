// C10: selections of parts of the tetrahedron behave as sets
#include "dofmap.h"
using namespace dm;
static const int NE[4]={4,6,4,1};
static const int EV[6][2]={{0,1},{0,2},{0,3},{1,2},{1,3},{2,3}}, FV[4][3]={{0,1,2},{1,2,3},{2,3,0},{3,0,1}};
typedef TetGeomSparsity SP;
struct Set { bool s[4][6]; Set(){ for(auto&r:s) for(auto&x:r) x=false; } };
struct Both { Set m; SP sp; };
// membership seen through the public interface: intersection with a single part
static bool has(const SP&a,int d,int e){ SP one; one.set((uchar)d,e); SP x=a&one; return (int)!x.empty((uchar)d) & (int)!x.empty(); }
// a symbolic subset: union of as many symbolic parts as the dimension has (dimensions chosen empty by "which")
static Both symSet(int which,int n=6){ Both b; for(int d=0;d<4;d++) if (which>>d&1) for(int q=0;q<NE[d] && q<n;q++){ int i=NE[d]==1?0:(int)vf_int("part",0,NE[d]-1); switch(d){ case 0: b.sp.setNode(i); break; case 1: b.sp.setEdge(i); break; case 2: b.sp.setFace(i); break; case 3: b.sp.setCell(); } for(int e=0;e<NE[d];e++) b.m.s[d][e]=b.m.s[d][e]|(i==e); } return b; }
static void same(const SP&a,const Set&m,const char*msg){ bool ok=true, any=false; for(int d=0;d<4;d++){ bool ad=false; for(int e=0;e<NE[d];e++){ ok&=has(a,d,e)==m.s[d][e]; ad|=m.s[d][e]; } ok&=a.empty((uchar)d)==!ad; any|=ad; } ok&=a.empty()==!any; vf_check(ok,msg); }
static bool edgeHas(int e,int v){ return EV[e][0]==v||EV[e][1]==v; }
static bool faceHas(int f,int v){ return FV[f][0]==v||FV[f][1]==v||FV[f][2]==v; }
// parts in the closure of part (d,i), i possibly symbolic
static Set closure(int d,int i,bool with){ Set m; for(int e=0;e<NE[d];e++){ bool is=i==e; m.s[d][e]=is; if (with) for(int c=0;c<d;c++) for(int x=0;x<NE[c];x++){ bool in=d==3 || (d==1&&edgeHas(e,x)) || (d==2&&c==0&&faceHas(e,x)) || (d==2&&c==1&&faceHas(e,EV[x][0])&&faceHas(e,EV[x][1])); if (in) m.s[c][x]=m.s[c][x]|is; } } return m; }
static Set uni(Set a,const Set&b){ for(int d=0;d<4;d++) for(int e=0;e<6;e++) a.s[d][e]|=b.s[d][e]; return a; }
static Set dif(Set a,const Set&b){ for(int d=0;d<4;d++) for(int e=0;e<6;e++) a.s[d][e]=a.s[d][e]&!b.s[d][e]; return a; }
VF_CASE(change){ Both b=symSet(vf_pick("dimensions",0,3)*5%16|vf_pick("more",0,1)*2,3); int d=vf_pick("dimension",0,3), i=d==3?0:(int)vf_int("element",0,NE[d]-1); bool cl=d>0 && vf_pick("closure",0,1), un=vf_pick("unset",0,1), gen=vf_pick("generic",0,1); SP s=b.sp; SP*r=nullptr;
    if (gen) r=un?&s.unset((uchar)d,i,cl):&s.set((uchar)d,i,cl);
    else switch(d){ case 0: r=un?&s.unsetNode(i):&s.setNode(i); break; case 1: r=un?&s.unsetEdge(i,cl):&s.setEdge(i,cl); break; case 2: r=un?&s.unsetFace(i,cl):&s.setFace(i,cl); break; case 3: r=un?&s.unsetCell(cl):&s.setCell(cl); break; }
    vf_check(r==&s,"the selection itself is returned"); Set c=closure(d,i,cl); same(s,un?dif(b.m,c):uni(b.m,c),un?"removal of a part (with closure)":"selection of a part (with closure)"); same(b.sp,b.m,"a copy is not changed"); }
VF_CASE(whole){ Both b=symSet(vf_pick("dimensions",0,15),2); int d=vf_pick("dimension",0,3); bool un=vf_pick("unset",0,1), gen=vf_pick("generic",0,1); SP s=b.sp; if (gen) un?s.unset((uchar)d):s.set((uchar)d); else switch(d){ case 0: un?s.unsetNodes():s.setNodes(); break; case 1: un?s.unsetEdges():s.setEdges(); break; case 2: un?s.unsetFaces():s.setFaces(); break; case 3: un?s.unsetCell():s.setCell(); break; } Set m=b.m; for(int e=0;e<NE[d];e++) m.s[d][e]=!un; same(s,m,"all parts of a dimension"); s.clear(); same(s,Set(),"cleared selection is empty"); }
VF_CASE(algebra){ int w=vf_pick("dimensions",0,3); static const int A[4]={15,3,12,6}, B[4]={15,15,9,6}; Both a=symSet(A[w],3), b=symSet(B[w],3); Set r; int op=vf_pick("operation",0,5); SP s;
    for(int d=0;d<4;d++) for(int e=0;e<NE[d];e++){ bool x=a.m.s[d][e], y=b.m.s[d][e]; r.s[d][e]=op==0?(x&y):op==1?(x|y):op==2?(x!=y):op==3?!x:op==4?(x|y):(x&!y); }
    switch(op){ case 0: s=a.sp&b.sp; break; case 1: s=a.sp|b.sp; break; case 2: s=a.sp^b.sp; break; case 3: s=~a.sp; break; case 4: s=a.sp; s.set(b.sp); break; case 5: s=a.sp; s.unset(b.sp); break; } same(s,r,"set operation");
    SP all; all.setCell(true); same(~all,Set(),"complement of everything is empty"); same(~SP(),closure(3,0,true),"complement of nothing is everything"); }
// walking through the parts
static void walk(const SP&s,const Set&m,int d0){ // parts of dimension d0, or of all (-1), in increasing order, each once
    std::vector<std::pair<int,int>> seq; SP::Pos p=d0<0?s.beginPos():s.beginPos((uchar)d0); int n=0; while(p!=s.endPos() && p.isValid() && n++<20){ seq.push_back({p.elem_dim,p.elem_num}); p=d0<0?s.nextPos(p):s.nextPosOnDim(p); } vf_check(n<=15,"walk ends"); vf_check(!p.isValid(),"walk ends at endPos");
    size_t q=0; bool ok=true; for(int d=0;d<4;d++) if (d0<0||d==d0) for(int e=0;e<NE[d];e++){ bool here=q<seq.size()&&seq[q].first==d&&seq[q].second==e; ok&=here==m.s[d][e]; if (here) q++; } vf_check(ok && q==seq.size(),"walk visits exactly the selected parts in order"); }
VF_CASE(positions){ int w=vf_pick("dimensions",0,6); static const int W[7]={1,2,4,8,9,12,15}; int n=W[w]==15?1:6; bool inv=vf_pick("complement",0,1); Both b=symSet(W[w],n); if (inv){ b.sp=~b.sp; for(int d=0;d<4;d++) for(int e=0;e<NE[d];e++) b.m.s[d][e]=!b.m.s[d][e]; } if (inv){ for(int d=0;d<4;d++) if (!(W[w]>>d&1)){ b.sp.unset((uchar)d); for(int e=0;e<6;e++) b.m.s[d][e]=false; } } int d0=vf_pick("walk",-1,3); walk(b.sp,b.m,d0);
    if (d0>=0){ auto ids=b.sp.getElemsIds((uchar)d0); int q=0; bool ok=true; for(int e=0;e<NE[d0];e++){ bool here=q<ids.second && ids.first[q]==e; ok&=here==b.m.s[d0][e]; if (here) q++; } vf_check(ok && q==ids.second,"list of the selected parts of a dimension"); } }
