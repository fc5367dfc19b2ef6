// Native side of the harness API: replays one recorded assignment against the real build.
// usage: replay CASE K VALUES        VALUES: lines "r <hexdouble>" / "i <int>" in creation order
#include "vf.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <vector>
#include <string>
#include <exception>
#include <dlfcn.h>
#include <thread>
#include <atomic>
static const std::thread::id vf_main=std::this_thread::get_id();
static std::vector<std::pair<char,std::string>> vals; static size_t pos=0; static int fails=0;
static std::pair<char,std::string> next(char t){ if (pos>=vals.size()){ printf("VF-EXHAUSTED\n"); fflush(stdout); _Exit(fails?1:76); } auto v=vals[pos++]; if (v.first!=t){ printf("VF-MISMATCH\n"); fflush(stdout); _Exit(fails?1:76);} return v; }
extern "C" {
int64_t vf_int(const char*, int64_t lo, int64_t hi){ int64_t v=atoll(next('i').second.c_str()); if (v<lo||v>hi){ printf("VF-RANGE\n"); fflush(stdout); _Exit(fails?1:77);} return v; }
int vf_pick(const char*n, int lo, int hi){ return (int)vf_int(n,lo,hi); }
double vf_real(const char*, double lo, double hi){ double v=strtod(next('r').second.c_str(),0); if (v<lo) v=lo; if (v>hi) v=hi; return v; }
void vf_assume(int c){ if (!c){ printf("VF-ASSUME\n"); fflush(stdout); _Exit(fails?1:77);} }
void vf_check(int c, const char*m){ if (!c){ printf("VF-FAIL %s\n",m); fflush(stdout); fails++; } }
void vf_close(double a,double b,double tol,const char*m){ if (!(std::fabs(a-b)<=tol)){ printf("VF-FAIL %s [%.17g vs %.17g]\n",m,a,b); fflush(stdout); fails++; } }
void vf_note(const char*){} int vf_is_symbolic(void){ return 0; } int vf_tier(void){ const char*t=getenv("VERIF_TIER"); return t&&!strcmp(t,"thorough"); }
int vf_schedule=0; static thread_local int vf_me=0; static std::atomic<int> vf_cnt{0}; int vf_thread(void){ if (std::this_thread::get_id()==vf_main) return 0; if (!vf_me) vf_me=++vf_cnt; return vf_me; } 
// VF_SWITCH=n: the second thread runs as a whole at the n-th entry to or exit from the lock of the first
static void (*vf_second)()=nullptr; static int vf_left=0; void vf_sync(void){ if (!vf_second||std::this_thread::get_id()!=vf_main||vf_left-->0) return; auto f=vf_second; vf_second=nullptr; std::thread t(f); t.join(); }
void vf_concurrently(void (*a)(), void (*b)()){ if (const char*e=getenv("VF_SWITCH")){ vf_second=b; vf_left=atoi(e); a(); if (vf_second){ vf_second=nullptr; std::thread t(b); t.join(); } return; } std::thread t(b); a(); t.join(); }
void vf_dump(const char*n,double d){ printf("dump %s = %.17g\n",n,d); } void vf_poison(void*,uint64_t){} void vf_unpoison(void*,uint64_t){}
}
int main(int argc,char**argv){
    std::string cs=argv[1]; int k=atoi(argv[2]); std::ifstream f(argv[3]); char t; std::string s; while(f>>t>>s) vals.push_back({t,s});
    try {
        if (k<0){ auto fn=(void(*)())dlsym(RTLD_DEFAULT,("vfcase_"+cs).c_str()); if (!fn){ printf("VF-NOCASE\n"); return 78; } fn(); }
        else { void(*fn)(int)=0; for (int n=1;n<=4096&&!fn;n++) fn=(void(*)(int))dlsym(RTLD_DEFAULT,("vfcaseN_"+std::to_string(n)+"_"+cs).c_str()); if (!fn){ printf("VF-NOCASE\n"); return 78; } fn(k); }
    } catch (std::exception&e){ printf("VF-EXCEPTION %s\n",e.what()); fflush(stdout); return 1; }
    printf(fails?"VF-RESULT fail\n":"VF-RESULT pass\n"); return fails?1:0;
}
