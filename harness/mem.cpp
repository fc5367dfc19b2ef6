// C19: storage: views, layout of work memory in raw blocks, memory pools
#include "vf.h"
#include "anifem++/fem/fem_memory.h"
#include <vector>
#include <cstring>
using namespace Ani;
typedef std::vector<double> Vec; typedef std::size_t sz;
static void eq(double a,double b,const char*m){ vf_close(a,b,1e-9,m); }
static sz N(const char*n,int lo,int hi){ return (sz)vf_pick(n,lo,hi); }
// ------------------------------------------------ layout in a raw block
struct Blk { const char*p; sz n, al; };
static void disjoint(const std::vector<Blk>&b,const char*lo,const char*hi,const char*end){ for(size_t i=0;i<b.size();i++) if (b[i].n){ vf_check(b[i].p!=nullptr,"block is placed"); vf_check(b[i].p>=lo&&b[i].p+b[i].n<=hi&&b[i].p+b[i].n<=end,"block lies inside of the given memory"); vf_check(((uintptr_t)b[i].p)%b[i].al==0,"block is aligned"); for(size_t j=0;j<i;j++) if (b[j].n) vf_check(b[i].p+b[i].n<=b[j].p||b[j].p+b[j].n<=b[i].p,"blocks do not overlap"); } }
template<class R,class I> static void raw2(){ sz d=N("reals",0,3),i=N("integers",0,3), off=N("offset",0,9); alignas(16) static char buf[256]; PlainMemory<R,I> m; m.dSize=d; m.iSize=i; sz need=m.enoughRawSize(); vf_check(need>=d*sizeof(R)+i*sizeof(I),"size is not less than the data"); sz cap=(sz)vf_int("size",0,need); bool own=vf_pick("sizes are given",0,1); PlainMemory<R,I> t; void*e; if (own) e=t.allocateFromRaw(buf+off,cap,d,i); else { t.dSize=d; t.iSize=i; e=t.allocateFromRaw(buf+off,cap); } if (cap>=need) vf_check(e!=nullptr,"the size asked for is enough"); if (!e){ vf_check(t.ddata==nullptr&&t.idata==nullptr,"nothing is placed when memory is not enough"); return; } vf_check(t.dSize==d&&t.iSize==i,"sizes of the blocks"); disjoint({{(char*)t.ddata,d*sizeof(R),alignof(R)},{(char*)t.idata,i*sizeof(I),alignof(I)}},buf+off,buf+off+cap,(char*)e); }
VF_CASES(raw,4,k){ switch(k){ case 0: raw2<double,int>(); break; case 1: raw2<float,long>(); break; case 2: raw2<double,char>(); break; case 3: raw2<float,short>(); } }
template<class R,class I> static void raw3(){ typedef DenseMatrix<R> D; sz d=N("reals",0,2),i=N("integers",0,3),n=N("matrices",0,2), off=N("offset",0,9); alignas(16) static char buf[512]; PlainMemoryX<R,I> m; m.dSize=d; m.iSize=i; m.mSize=n; sz need=m.enoughRawSize(); sz cap=(sz)vf_int("size",0,need); bool own=vf_pick("sizes are given",0,1); PlainMemoryX<R,I> t; void*e; if (own) e=t.allocateFromRaw(buf+off,cap,d,i,n); else { t.dSize=d; t.iSize=i; t.mSize=n; e=t.allocateFromRaw(buf+off,cap); } if (cap>=need) vf_check(e!=nullptr,"the size asked for is enough"); if (!e){ vf_check(t.ddata==nullptr&&t.idata==nullptr&&t.mdata==nullptr,"nothing is placed when memory is not enough"); return; } vf_check(t.dSize==d&&t.iSize==i&&t.mSize==n,"sizes of the blocks"); disjoint({{(char*)t.ddata,d*sizeof(R),alignof(R)},{(char*)t.idata,i*sizeof(I),alignof(I)},{(char*)t.mdata,n*sizeof(D),alignof(D)}},buf+off,buf+off+cap,(char*)e); }
VF_CASES(rawx,3,k){ switch(k){ case 0: raw3<double,int>(); break; case 1: raw3<float,long>(); break; case 2: raw3<double,char>(); } }
template<class R,class I> static void plainx(){ typedef DenseMatrix<R> D; sz d=N("reals",0,2),i=N("integers",0,2),n=N("matrices",0,2); bool fr=vf_pick("matrices are taken from reals",0,1); sz od=N("offset of reals",0,1), oi=N("offset of integers",0,3); PlainMemoryX<R,I> m; m.dSize=d; m.iSize=i; m.mSize=n; PlainMemory<R,I> p=m.enoughPlainMemory(fr); alignas(16) static char rb[256], ib[256]; sz cd=(sz)vf_int("reals given",0,p.dSize), ci=(sz)vf_int("integers given",0,p.iSize); PlainMemory<R,I> g; g.ddata=reinterpret_cast<R*>(rb)+od; g.idata=reinterpret_cast<I*>(ib)+oi; g.dSize=cd; g.iSize=ci; PlainMemoryX<R,I> t=m; bool ok=t.allocateFromPlainMemory(g,fr); if (cd>=p.dSize&&ci>=p.iSize) vf_check(ok,"the size asked for is enough"); if (!ok){ vf_check(t.ddata==nullptr&&t.idata==nullptr&&t.mdata==nullptr,"nothing is placed when memory is not enough"); return; } vf_check(t.dSize==d&&t.iSize==i&&t.mSize==n,"sizes of the blocks"); const char*md=(const char*)t.mdata; if (d) vf_check((char*)t.ddata==(char*)g.ddata&&d<=cd,"reals are placed"); if (i) vf_check((char*)t.idata==(char*)g.idata&&i<=ci,"integers are placed"); if (n){ const char*lo=fr?(const char*)(g.ddata+d):(const char*)(g.idata+i),*hi=fr?(const char*)(g.ddata+cd):(const char*)(g.idata+ci); vf_check(((uintptr_t)md)%alignof(D)==0,"block is aligned"); vf_check(md>=lo&&md+n*sizeof(D)<=hi,"matrices lie in the rest of the given memory"); } }
VF_CASES(plainx,3,k){ switch(k){ case 0: plainx<double,int>(); break; case 1: plainx<float,long>(); break; case 2: plainx<double,char>(); } }
VF_CASES(sizes,2,k){ sz a[6]; for(auto&x:a) x=(sz)vf_int("size",0,1000000); if (k==0){ PlainMemory<double,int> p,q; p.dSize=a[0]; p.iSize=a[1]; q.dSize=a[2]; q.iSize=a[3]; vf_check(p.ge(q)==((a[0]>=a[2])&(a[1]>=a[3])),"comparison of sizes"); auto e=p; e.extend_size(q); vf_check((e.dSize==std::max(a[0],a[2]))&(e.iSize==std::max(a[1],a[3])),"greatest of the sizes"); vf_check(e.ge(p)&&e.ge(q),"extended memory suffices for both"); e=p; e.append_size(q); vf_check((e.dSize==a[0]+a[2])&(e.iSize==a[1]+a[3]),"sum of the sizes"); }
  else { PlainMemoryX<double,int> p,q; p.dSize=a[0]; p.iSize=a[1]; p.mSize=a[4]; q.dSize=a[2]; q.iSize=a[3]; q.mSize=a[5]; vf_check(p.ge(q)==((a[0]>=a[2])&(a[1]>=a[3])&(a[4]>=a[5])),"comparison of sizes"); auto e=p; e.extend_size(q); vf_check((e.dSize==std::max(a[0],a[2]))&(e.iSize==std::max(a[1],a[3]))&(e.mSize==std::max(a[4],a[5])),"greatest of the sizes"); e=p; e.append_size(q); vf_check((e.dSize==a[0]+a[2])&(e.iSize==a[1]+a[3])&(e.mSize==a[4]+a[5]),"sum of the sizes"); } }
// ------------------------------------------------ matrices and views
static Vec sym(int n){ Vec v(n); for(auto&x:v) x=vf_real("x",-2,2); return v; }
VF_CASES(dense,7,k){ sz n=N("rows",1,3),m=N("columns",1,3),ex=N("excess",0,2); Vec a=sym(n*m+ex),b=sym(n*m),a0=a; DenseMatrix<> A(a.data(),n,m,n*m+ex); DenseMatrix<const double> B(b.data(),n,m); if (ex==0){ A=DenseMatrix<>(a.data(),n,m); vf_check(A.size==n*m,"size of the memory"); } double c=vf_real("c",0.5,2); const DenseMatrix<>&C=A; 
  for(sz i=0;i<n;i++) for(sz j=0;j<m;j++){ eq(C(i,j),a0[i+n*j],"element of a matrix"); eq(A(i,j),a0[i+n*j],"element of a matrix"); eq(C[i+n*j],a0[i+n*j],"element of the storage"); }
  Vec r=a0; switch(k){ case 0: A+=B; for(sz i=0;i<n*m;i++) r[i]+=b[i]; break; case 1: A-=B; for(sz i=0;i<n*m;i++) r[i]-=b[i]; break; case 2: A*=c; for(sz i=0;i<n*m;i++) r[i]*=c; break; case 3: A/=c; for(sz i=0;i<n*m;i++) r[i]/=c; break; case 4: A.SetZero(); for(sz i=0;i<n*m;i++) r[i]=0; break; case 5: A.SetEye(c); for(sz i=0;i<n*m;i++) r[i]=(i%n==i/n)?c:0; break; case 6: A.SetEye(); A+=A; for(sz i=0;i<n*m;i++) r[i]=(i%n==i/n)?2:0; break; }
  for(sz i=0;i<n*m+ex;i++) eq(a[i],r[i],i<n*m?"result of an operation on a matrix":"memory after the matrix is unchanged"); }
VF_CASES(norm,2,k){ sz n=N("rows",1,2),m=N("columns",1,2); Vec a=sym(n*m),b=sym(n*m); double p=vf_real("a",-2,2), q=vf_real("b",-2,2); DenseMatrix<> A(a.data(),n,m),B(b.data(),n,m); double s=0; if (k==0){ vf_assume(q!=0); double t=DenseMatrix<>::ScalNorm(p,A,q,B); for(sz i=0;i<n*m;i++) s+=(p*a[i]+q*b[i])*(p*a[i]+q*b[i]); eq(t*t,s,"norm of a combination of matrices"); } else { double t=DenseMatrix<>::ScalNorm(p,A), u=DenseMatrix<>::ScalNorm(p,A,0,B); for(sz i=0;i<n*m;i++) s+=p*p*a[i]*a[i]; eq(t*t,s,"norm of a multiple of a matrix"); eq(u*u,s,"norm of a multiple of a matrix"); } }
VF_CASE(views){ sz n=N("size",0,3); Vec a=sym(n+1),a0=a; ArrayView<> v(a.data(),n), w; w.Init(a.data(),n); ArrayView<const double> c(v); vf_check(v.empty()==(n==0)&&w.size==n&&c.size==n&&c.data==a.data(),"view of an array"); sz q=0; for(auto&x:v){ eq(x,a0[q],"element under an iterator"); q++; } vf_check(q==n,"number of elements visited"); q=0; const ArrayView<>&cv=v; for(auto&x:cv){ eq(x,a0[q],"element under an iterator"); eq(cv[q],a0[q],"element of a view"); eq(c[q],a0[q],"element of a constant view"); q++; } vf_check(q==n,"number of elements visited"); w.SetZero(); for(sz i=0;i<=n;i++) eq(a[i],i<n?0:a0[i],"zeroed view"); v.clear(); vf_check(v.empty()&&v.begin()==v.end(),"cleared view"); }
VF_CASE(band){ double x[3][6]; for(auto&p:x) for(auto&y:p) y=vf_real("x",-1,1); BandDenseMatrix<3> b; for(int i=0;i<3;i++){ b.data[i]=DenseMatrix<>(x[i],2,3); b.stRow[i+1]=b.stRow[i]+2; b.stCol[i+1]=b.stCol[i]+3+i; } BandDenseMatrixX<> X(b); vf_check(X.nparts==3,"number of parts"); BandDenseMatrix<3> c(X); for(int i=0;i<3;i++){ vf_check(X.data[i].nRow==2&&X.data[i].nCol==3&&c.data[i].nRow==2&&c.data[i].nCol==3,"sizes of a part"); for(int q=0;q<6;q++){ eq(X.data[i](q%2,q/2),x[i][q],"element of a part"); eq(c.data[i](q%2,q/2),x[i][q],"element of a part"); } } for(int i=0;i<=3;i++) vf_check(X.stRow[i]==b.stRow[i]&&X.stCol[i]==b.stCol[i]&&c.stRow[i]==b.stRow[i]&&c.stCol[i]==b.stCol[i],"position of a part"); auto d=convToBendMx(b,1,1); for(int i=0;i<=3;i++) vf_check(d.stRow[i]==b.stRow[i]&&d.stCol[i]==b.stCol[i],"position of a part"); auto e=convToBendMx(DenseMatrix<>(x[0],2,3),5,7); vf_check(e.stRow[0]==0&&e.stRow[1]==5&&e.stCol[0]==0&&e.stCol[1]==7&&e.data[0].data==x[0],"matrix of one part"); }
// ------------------------------------------------ pools: blocks that are alive at the same time do not overlap and keep their contents, in every order of requests and releases
template<class R,class I> struct Pool { typedef DynMem<R,I> DM; typedef typename DM::MemPart Part; struct Ent { Part p; sz d,i,m; Vec r; std::vector<long> n; std::vector<sz> q; };
  static void fill(Ent&e,int tag){ auto x=e.p.getPlainMemoryX(); auto y=e.p.getPlainMemory(); vf_check(x.dSize==e.d&&x.iSize==e.i&&x.mSize==e.m&&y.dSize==e.d&&y.iSize==e.i&&y.ddata==x.ddata&&y.idata==x.idata,"size of a block"); vf_check((e.d==0||x.ddata)&&(e.i==0||x.idata)&&(e.m==0||x.mdata),"block is given"); for(sz k=0;k<e.d;k++){ double v=k==0?vf_real("contents",-1,1):tag*10.0+k; x.ddata[k]=v; e.r.push_back(x.ddata[k]); } for(sz k=0;k<e.i;k++){ x.idata[k]=tag*10+k; e.n.push_back(tag*10+k); } for(sz k=0;k<e.m;k++){ x.mdata[k]=DenseMatrix<R>(nullptr,tag+1,k+1); e.q.push_back(k+1); } }
  static void same(Ent&e,int tag){ auto x=e.p.getPlainMemoryX(); bool ok=true; for(sz k=0;k<e.d;k++) ok&=x.ddata[k]==e.r[k]; for(sz k=0;k<e.i;k++) ok&=x.idata[k]==e.n[k]; for(sz k=0;k<e.m;k++) ok&=(x.mdata[k].nRow==(sz)tag+1&&x.mdata[k].nCol==e.q[k]); vf_check(ok,"block that is alive keeps its contents"); }
  static void overlap(std::vector<Ent>&v){ for(size_t a=0;a<v.size();a++) if (v[a].p.getPlainMemoryX().dSize||v[a].p.getPlainMemoryX().iSize||v[a].p.getPlainMemoryX().mSize) for(size_t b=0;b<a;b++){ auto x=v[a].p.getPlainMemoryX(), y=v[b].p.getPlainMemoryX(); bool o=false; if (x.dSize&&y.dSize) o|=x.ddata<y.ddata+y.dSize&&y.ddata<x.ddata+x.dSize; if (x.iSize&&y.iSize) o|=x.idata<y.idata+y.iSize&&y.idata<x.idata+x.iSize; if (x.mSize&&y.mSize) o|=x.mdata<y.mdata+y.mSize&&y.mdata<x.mdata+x.mSize; vf_check(!o,"blocks that are alive do not overlap"); } }
  static void size(int w,sz&d,sz&i,sz&m){ static const sz S[5][3]={{2,0,0},{1,2,1},{3,1,0},{0,2,1},{5,3,2}}; d=S[w][0]; i=S[w][1]; m=S[w][2]; }
  static void run(DM&mem,int steps,int nsz,bool fin){ if (vf_pick("used before",0,1)){ auto p=mem.alloc(6,5,4); } { std::vector<Ent> v; int live=0; for(int s=0;s<steps;s++){ int op=vf_pick("action",0,nsz-1+live); if (op<nsz){ v.push_back(Ent()); Ent&e=v.back(); size(op,e.d,e.i,e.m); e.p=mem.alloc(e.d,e.i,e.m); overlap(v); fill(e,(int)v.size()); live++; } else { int w=op-nsz; for(auto&e:v) if (e.d+e.i+e.m){ if (w--==0){ e.p.clear(); e.d=e.i=e.m=0; auto x=e.p.getPlainMemoryX(); vf_check(!x.ddata&&!x.idata&&!x.mdata&&!x.dSize&&!x.iSize&&!x.mSize,"released block is empty"); break; } } live--; } for(size_t i=0;i<v.size();i++) same(v[i],i+1); }
      if (fin){ bool th=false; try { mem.defragment(); } catch(std::runtime_error&){ th=true; } for(size_t i=0;i<v.size();i++) same(v[i],i+1); } }
    if (fin){ mem.defragment(); auto a=mem.alloc(2,2,2); auto x=a.getPlainMemoryX(); for(int i=0;i<2;i++){ x.ddata[i]=1; x.idata[i]=1; x.mdata[i].nRow=1; } vf_check(x.dSize==2&&x.iSize==2&&x.mSize==2,"pool works after defragmentation"); } } };
#ifndef STEPS
#define STEPS 5
#endif
VF_CASES(pool,3,k){ DynMem<double,int> mem; if (k==0) Pool<double,int>::run(mem,STEPS+1,2,false); else if (k==1) Pool<double,int>::run(mem,STEPS,4,false); else Pool<double,int>::run(mem,STEPS-1,4,true); }
VF_CASE(adaptor){ DynMem<double,long> base; auto mem=makeAdaptor<float,int>(base); Pool<float,int>::run(mem,STEPS,2,false); }
static void movecase(DynMem<>&mem){ typedef DynMem<>::MemPart P; int w=vf_pick("what",0,4); P a=mem.alloc(2,1,1), b=mem.alloc(3,2,1); auto xa=a.getPlainMemoryX(), xb=b.getPlainMemoryX(); double v=vf_real("v",-1,1); xb.ddata[0]=v; xb.ddata[2]=2; xa.ddata[0]=v;
  if (w==0){ P c(std::move(b)); vf_check(c.getPlainMemoryX().ddata==xb.ddata&&b.getPlainMemoryX().ddata==nullptr,"moved block"); P d=mem.alloc(4,1,1); auto y=d.getPlainMemoryX(); for(int i=0;i<4;i++) y.ddata[i]=9; eq(c.getPlainMemoryX().ddata[0],v,"moved block keeps its contents"); eq(c.getPlainMemoryX().ddata[2],2,"moved block keeps its contents"); b.clear(); P e=mem.alloc(3,1,1); for(int i=0;i<3;i++) e.getPlainMemoryX().ddata[i]=9; eq(c.getPlainMemoryX().ddata[0],v,"moved block keeps its contents"); }
  else if (w==1){ a=std::move(b); vf_check(a.getPlainMemoryX().ddata==xb.ddata&&b.getPlainMemoryX().ddata==nullptr,"moved block"); P d=mem.alloc(2,1,1), e=mem.alloc(3,2,1); for(int i=0;i<2;i++) d.getPlainMemoryX().ddata[i]=9; for(int i=0;i<3;i++) e.getPlainMemoryX().ddata[i]=9; eq(a.getPlainMemoryX().ddata[0],v,"moved block keeps its contents"); eq(a.getPlainMemoryX().ddata[2],2,"moved block keeps its contents"); }
  else if (w==2){ a=std::move(a); vf_check(a.getPlainMemoryX().ddata==xa.ddata&&a.getPlainMemoryX().dSize==2,"block moved to itself"); eq(a.getPlainMemoryX().ddata[0],v,"block moved to itself"); }
  else if (w==3){ std::vector<P> q; q.push_back(std::move(a)); q.push_back(std::move(b)); for(int i=0;i<3;i++) q.push_back(mem.alloc(1,1,1)); for(int i=2;i<5;i++) q[i].getPlainMemoryX().ddata[0]=9; eq(q[0].getPlainMemoryX().ddata[0],v,"moved block keeps its contents"); eq(q[1].getPlainMemoryX().ddata[0],v,"moved block keeps its contents"); eq(q[1].getPlainMemoryX().ddata[2],2,"moved block keeps its contents"); q.erase(q.begin()); q.push_back(mem.alloc(2,1,1)); q.back().getPlainMemoryX().ddata[0]=9; q.back().getPlainMemoryX().ddata[1]=9; eq(q[0].getPlainMemoryX().ddata[0],v,"moved block keeps its contents"); eq(q[0].getPlainMemoryX().ddata[2],2,"moved block keeps its contents"); }
  else { { P c; c.clear(); P d(std::move(c)); d=std::move(c); } a.clear(); b.clear(); a.clear(); P c=mem.alloc(2,1,1); vf_check(c.getPlainMemoryX().dSize==2,"pool works after releases"); } }
template<class M> static void freed(M&mem){ bool th=false; try { mem.defragment(); } catch(std::runtime_error&){ th=true; } vf_check(!th,"pool is free after all blocks are released"); auto a=mem.alloc(2,1,1); auto x=a.getPlainMemoryX(); x.ddata[0]=1; x.ddata[1]=2; x.idata[0]=3; vf_check(x.dSize==2&&x.iSize==1&&x.mSize==1,"pool works after all blocks are released"); }
VF_CASE(moves){ DynMem<> mem; movecase(mem); freed(mem); }
// histories of requests, releases and moves between three handles: a block lives until its handle dies, is cleared or gets another block
VF_CASE(handles){ DynMem<> mem; { DynMem<>::MemPart h[3]; int tag[3]={0,0,0}; int steps=vf_tier()?5:4, next=0; static const sz D[3]={2,3,5};
  for(int s=0;s<steps;s++){ int a=vf_pick("handle",0,s<2?s:2), w=vf_pick("action",0,4); if (w<3){ int b=w; h[a]=std::move(h[b]); if (a!=b){ tag[a]=tag[b]; tag[b]=0; } } else if (w==3){ h[a].clear(); tag[a]=0; } else { int z=next%3; h[a]=mem.alloc(D[z],1,1); tag[a]=++next; auto x=h[a].getPlainMemoryX(); vf_check(x.dSize==D[z]&&x.iSize==1&&x.mSize==1,"size of a block"); for(sz i=0;i<x.dSize;i++) x.ddata[i]=tag[a]*10.0+i; x.idata[0]=tag[a]; }
    for(int q=0;q<3;q++){ auto x=h[q].getPlainMemoryX(); if (!tag[q]) vf_check(!x.ddata&&!x.dSize&&!x.idata&&!x.iSize&&!x.mSize,"released handle is empty"); else { bool ok=x.dSize==D[(tag[q]-1)%3]&&x.iSize==1&&x.idata[0]==tag[q]; if (ok) for(sz i=0;i<x.dSize;i++) ok&=x.ddata[i]==tag[q]*10.0+i; vf_check(ok,"block that is alive keeps its contents"); } } } }
  freed(mem); }
