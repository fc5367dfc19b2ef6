// C20: pools of memory for threads, parallel loops
#include "vf.h"
#include <vector>
#include <functional>
#include <mutex>
#include <thread>
#include <cassert>
#include <algorithm>
#include "anifem++/fem/fem_memory_parallel.h"
using namespace Ani;
// in the engine: a thread that cannot enter waits, which is the same as running after the owner leaves
struct Mutex { std::mutex m; int held=0; void lock(){ if (vf_is_symbolic()){ vf_assume(!held); held=1; } else { vf_sync(); m.lock(); } } void unlock(){ if (vf_is_symbolic()){ vf_check(held,"mutex is released by its owner"); held=0; } else { m.unlock(); vf_sync(); } } bool try_lock(){ if (vf_is_symbolic()){ if (held) return false; held=1; return true; } return m.try_lock(); } };
typedef DynMemParallel<double,int,Mutex> Pools;
// ------------------------------------------------ two threads
struct Sh { Pools p; int pre=0, keep=0, keepA=0, idA=-1, idB=-1; double *a=nullptr,*b=nullptr; DynMem<double,int>::MemPart ma,mb; }; static Sh*S=nullptr;
static void work(int who){ int id=S->p.alloc(); auto*m=S->p.get(id); auto t=m->alloc(3,1,0); double*d=t.getPlainMemory().ddata; for(int i=0;i<3;i++) d[i]=who*10+i; bool ok=true; for(int i=0;i<3;i++) ok&=d[i]==who*10+i; vf_check(ok,"memory of a thread keeps its contents"); vf_check(S->p.get(id)==m,"pool of a thread"); if (who==2&&S->keep){ S->idB=id; S->b=d; S->mb=std::move(t); return; } t.clear(); S->p.release(id); }
static void threadA(){ int id=S->p.alloc(); S->idA=id; auto*m=S->p.get(id); auto t=m->alloc(3,1,0); double*d=t.getPlainMemory().ddata; for(int i=0;i<3;i++) d[i]=10+i; auto m2=S->p.get(id); vf_check(m2==m,"pool of a thread"); bool ok=true; for(int i=0;i<3;i++) ok&=d[i]==10+i; vf_check(ok,"memory of a thread keeps its contents"); if (S->keepA){ S->a=d; S->ma=std::move(t); return; } t.clear(); S->idA=-2; S->p.release(id); }
static void threadB(){ work(2); if (S->idA>=0&&S->idB>=0) vf_check(S->idA!=S->idB,"threads at work have different pools"); }
static void threadG(){ auto*m=S->p.get(0); auto t=m->alloc(2,0,0); double*d=t.getPlainMemory().ddata; d[0]=1; d[1]=2; vf_check(d[0]==1&&d[1]==2,"memory of a thread keeps its contents"); }
static void threadH(){ for(int i=0;i<3;i++) work(1); }
static void setup(){ S=new Sh; int n=vf_pick("pools before",0,2); std::vector<int> q; for(int i=0;i<n;i++) q.push_back(S->p.alloc()); for(int i:q) S->p.release(i); S->keep=vf_pick("second thread keeps its memory",0,1); S->keepA=vf_pick("first thread keeps its memory",0,1); }
static void finish(){ bool ok=true; if (S->keep) for(int i=0;i<3;i++) ok&=S->b[i]==20+i; if (S->keepA) for(int i=0;i<3;i++) ok&=S->a[i]==10+i; vf_check(ok,"memory of a thread keeps its contents"); if (S->keep&&S->keepA){ vf_check(S->idA!=S->idB,"threads at work have different pools"); vf_check(S->p.get(S->idA)!=S->p.get(S->idB),"threads at work have different pools"); } S->ma.clear(); S->mb.clear(); delete S; S=nullptr; }
VF_CASE(twothreads){ setup(); vf_concurrently(threadA,threadB); finish(); }
VF_CASE(getalloc){ S=new Sh; int a=S->p.alloc(); vf_check(a==0,"first pool"); vf_concurrently(threadG,threadH); delete S; S=nullptr; }
VF_CASE(allocget){ S=new Sh; int a=S->p.alloc(); vf_check(a==0,"first pool"); vf_concurrently(threadH,threadG); delete S; S=nullptr; }
// ------------------------------------------------ histories of requests
#ifndef STEPS
#define STEPS (vf_tier()?6:5)
#endif
VF_CASE(history){ DynMemParallel<double,int,mutex_std> p; struct L { int lo,hi; std::vector<DynMem<double,int>*> m; }; std::vector<L> v; int live=0;
  for(int s=0;s<STEPS;s++){ int op=vf_pick("action",0,2+live); if (op<=2){ L l; if (op==0){ l.lo=p.alloc(); l.hi=l.lo+1; } else { auto r=p.alloc_range(op); l.lo=r.first; l.hi=r.second; vf_check(l.hi-l.lo==op,"number of pools in a range"); } vf_check(l.lo>=0,"number of a pool"); for(int i=l.lo;i<l.hi;i++){ auto*m=p.get(i); vf_check(m!=nullptr,"pool exists"); l.m.push_back(m); } for(auto&o:v) if (o.hi>o.lo){ vf_check(l.hi<=o.lo||o.hi<=l.lo,"pools in use have different numbers"); for(auto*x:o.m) for(auto*y:l.m) vf_check(x!=y,"pools in use are different"); } v.push_back(l); live++; } else { int w=op-3; for(auto&l:v) if (l.hi>l.lo&&w--==0){ if (l.hi-l.lo==1&&vf_pick("one",0,1)==0) p.release(l.lo); else p.release_range({l.lo,l.hi}); l.lo=l.hi=0; break; } live--; } for(auto&l:v) for(int i=l.lo;i<l.hi;i++) vf_check(p.get(i)==l.m[i-l.lo],"pool in use stays the same"); }
  int how=vf_pick("end",0,1); if (how) p.release_all(); else p.clear(); std::vector<int> ids; for(int i=0;i<3;i++){ int id=p.alloc(); for(int o:ids) vf_check(o!=id,"pools in use have different numbers"); ids.push_back(id); vf_check(p.get(id)!=nullptr,"pool exists"); } }
// ------------------------------------------------ parallel loops
template<ThreadPar::Type T> static void loop(){ int n=vf_pick("iterations",0,7), th=vf_pick("threads",0,6); vf_schedule=vf_pick("schedule",0,3); if (vf_schedule==2) vf_schedule=0x55; if (vf_schedule==3) vf_schedule=-1; if (th==0) th=-1; std::vector<double> x(n+1,0); std::vector<int> cnt(n+1,0), num(n+1,-1), run(n+1,-1); for(int i=0;i<n;i++) x[i]=vf_real("x",-1,1); std::vector<double> x0=x; double a=vf_real("a",-1,1); double*b=x.data();
  ThreadPar::parallel_for<T>(th,[&](double*it,int t,double f){ int i=it-b; if (i<0||i>=n){ vf_check(0,"iteration lies inside of the range"); return; } *it+=f; cnt[i]++; num[i]=t; run[i]=vf_thread(); },x.data(),x.data()+n,a);
  for(int i=0;i<=n;i++){ vf_check(cnt[i]==(i<n),"every iteration is performed once"); vf_close(x[i],i<n?x0[i]+a:0,1e-12,"result of an iteration"); if (i<n){ vf_check(num[i]>=0&&(th<0||num[i]<th),"number of a thread is less than the number of threads"); for(int j=0;j<i;j++) vf_check(run[i]==run[j]||num[i]!=num[j],"threads have different numbers"); } } }
VF_CASES(loop,2,k){ if (k==0) loop<ThreadPar::Type::NONE>(); else loop<ThreadPar::Type::STD>(); }
VF_CASE(threadcount){ int n=vf_pick("n",-2,5); vf_check(ThreadPar::get_num_threads<ThreadPar::Type::NONE>(n)==1,"number of threads without parallelism"); int m=ThreadPar::get_num_threads<ThreadPar::Type::STD>(n); vf_check(n<0?m>0:m==n,"number of threads"); }
