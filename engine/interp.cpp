#include "interp.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/IR/PassManager.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/Scalar/Scalarizer.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/StringExtras.h>
#include <ffi.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <semaphore.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <cxxabi.h>
#include <exception>
#include <chrono>
#include <sstream>
#include <fstream>
#include <iostream>
#include <atomic>
#include <set>
#include <regex>
using namespace llvm;
static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
const char* StatusName[]={"ok","infeasible","violation","unsupported","blowup","timeout","limit","crash"};
// ------------------------------------------------------------------ shared state
struct Shared { std::atomic<uint64_t> forks, viols, liveProcs; double deadline; sem_t slots; std::atomic<uint8_t> funSeen[1<<16]; };
static Shared* SH; static std::string OUT; static uint64_t MAXFORKS=60000; static bool VERB=false;
// ------------------------------------------------------------------ memory
static const uint64_t ABASE=0x100000000000ull; static const uint64_t ASIZE=3ull<<30; static const uint64_t STK0=ABASE, STKSZ=256ull<<20, HEAP0=ABASE+STKSZ;
static uint8_t* POIS;        // 1 bit per byte: 1 = inaccessible
struct SymPage { E e[4096]; uint8_t ix[4096]; uint32_t cnt; };
static SymPage** SP;         // per arena page
static uint64_t heapTop=HEAP0, stackTop=STK0;
static inline bool inA(uint64_t a){ return a-ABASE<ASIZE; }
static inline void poison(uint64_t a, uint64_t n, bool p){ uint64_t o=a-ABASE; while(n&&(o&7)){ if (p) POIS[o>>3]|=1<<(o&7); else POIS[o>>3]&=~(1<<(o&7)); o++;n--; } memset(POIS+(o>>3),p?0xff:0,n>>3); o+=n&~7ull; n&=7; while(n){ if (p) POIS[o>>3]|=1<<(o&7); else POIS[o>>3]&=~(1<<(o&7)); o++;n--; } }
static std::unordered_map<uint64_t,uint64_t> heapSize;
static inline uint64_t poisWord(uint64_t a){ uint64_t o=a-ABASE; uint64_t w; memcpy(&w,POIS+(o>>3),8); return w>>(o&7); }
[[noreturn]] static void violation(const std::string&kind, const std::string&msg, const Model*m=nullptr);
static void chk(uint64_t a, uint64_t n, bool wr){
    if (!inA(a)){ if (a<65536 || a+n<a) violation("memory",std::string(wr?"write to":"read from")+" null or invalid address"); return; }
    if (!inA(a+n)) violation("memory","access beyond guest memory");
    uint64_t o=0; while(o<n){ uint64_t k=std::min<uint64_t>(56,n-o); if (poisWord(a+o)&((1ull<<k)-1)) violation("memory",std::string(wr?"out-of-bounds write of ":"out-of-bounds read of ")+std::to_string(n)+" bytes"); o+=k; }
}
static inline SymPage* spage(uint64_t a){ return SP[(a-ABASE)>>12]; }
static void symClear(uint64_t a, uint64_t n){ if (!inA(a)) return; while(n){ uint64_t in=4096-(a&4095); uint64_t k=std::min(n,in); SymPage*p=spage(a); if (p&&p->cnt) for (uint64_t i=0;i<k;i++){ E&e=p->e[(a&4095)+i]; if (e){ e=0; p->cnt--; } } a+=k;n-=k; } }
static inline bool symAny(uint64_t a, uint64_t n){ if (!inA(a)) return false; while(n){ uint64_t in=4096-(a&4095); uint64_t k=std::min(n,in); SymPage*p=spage(a); if (p&&p->cnt) for (uint64_t i=0;i<k;i++) if (p->e[(a&4095)+i]) return true; a+=k;n-=k; } return false; }
static void symSet(uint64_t a, uint8_t i, E e){ if (!inA(a)) throw Unsupported{"symbolic store outside guest memory"}; SymPage*&p=SP[(a-ABASE)>>12]; if (!p) p=(SymPage*)calloc(1,sizeof(SymPage)); E&x=p->e[a&4095]; if (!x) p->cnt++; x=e; p->ix[a&4095]=i; }
static uint64_t galloc(uint64_t n, uint64_t al=16){ heapTop=(heapTop+al-1)/al*al; uint64_t a=heapTop+ (al>64?al:64); a=(a+al-1)/al*al; uint64_t e=a+n; if (e+64>ABASE+ASIZE) throw Unsupported{"guest heap exhausted"}; poison(a,n,false); heapTop=(e+64+15)&~15ull; heapSize[a]=n; memset((void*)a,0xFE,n); return a; }
static void gfree(uint64_t a){ if (!a) return; auto it=heapSize.find(a); if (it==heapSize.end()) violation("memory","free of an address that is not a live allocation"); poison(a,it->second,true); symClear(a,it->second); heapSize.erase(it); }
// native libstdc++ may release guest memory and vice versa
static bool engineReady=false;
void operator delete(void*p) noexcept { if (inA((uint64_t)p)){ if (engineReady) gfree((uint64_t)p); return; } free(p); }
void operator delete(void*p, size_t) noexcept { operator delete(p); }
void operator delete[](void*p) noexcept { operator delete(p); }
void operator delete[](void*p, size_t) noexcept { operator delete(p); }
// ------------------------------------------------------------------ per-path state
static std::string CASE; static long CASEK=-1;
struct Counters { uint64_t checks=0, symChecks=0, proved=0, undecided=0, conc=0, insts=0, forks=0, divAssumed=0, unkBranch=0; };
static Counters CN; static std::vector<std::string> NOTES; static std::set<std::string> REPORTED; static int violsOnPath=0; static double caseStart;
static std::vector<pid_t> kids; static bool holdSlot=true;
static Module* M; static const DataLayout* DL;
static std::unordered_map<const Function*,Fun*> FM; static std::unordered_map<uint64_t,Fun*> FA; static std::unordered_map<const GlobalValue*,uint64_t> GA;
static uint64_t fnRegion=0, fnNext=0;
static std::vector<Val> REG; static size_t regTop=0; static std::vector<Frame> FR;
static std::string jesc(const std::string&s){ std::string r; for (char c:s){ if (c=='"'||c=='\\'){ r+='\\'; r+=c; } else if ((unsigned char)c<32){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r; }
static void appendLine(const std::string&file, const std::string&l){ int fd=open((OUT+"/"+file).c_str(),O_WRONLY|O_CREAT|O_APPEND,0644); if (fd>=0){ std::string s=l+"\n"; ssize_t k=write(fd,s.data(),s.size()); (void)k; close(fd); } }
static std::string stackTrace(){ std::string r; int n=0; for (int i=(int)FR.size()-1;i>=0&&n<14;i--,n++){ auto&f=FR[i]; std::string ln; int pc=std::max(0,f.pc-1); if (pc<(int)f.f->code.size()&&f.f->code[pc].I){ DILocation* d=f.f->code[pc].I->getDebugLoc(); int depth=0; while(d&&depth<4){ ln+=" "+d->getFilename().str().substr(d->getFilename().rfind('/')==StringRef::npos?0:d->getFilename().rfind('/')+1)+":"+std::to_string(d->getLine()); d=d->getInlinedAt(); depth++; } } r+=demangle(f.f->name).substr(0,160)+" @"+ln+"\n"; } return r; }
static std::string hexd(double d){ char b[64]; snprintf(b,64,"%a",d); return b; }
static void writeRecord(int status, const std::string&msg){
    std::ostringstream o; o<<"{\"case\":\""<<CASE<<"\",\"k\":"<<CASEK<<",\"status\":\""<<StatusName[status]<<"\",\"msg\":\""<<jesc(msg)<<"\",\"checks\":"<<CN.checks<<",\"sym_checks\":"<<CN.symChecks<<",\"proved\":"<<CN.proved<<",\"undecided\":"<<CN.undecided<<",\"concretised\":"<<CN.conc<<",\"div_assumed\":"<<CN.divAssumed<<",\"unknown_branches\":"<<CN.unkBranch<<",\"insts\":"<<CN.insts<<",\"witness\":"<<(P.hasModel?"true":"false")<<",\"pc\":"<<P.pc.size()<<",\"nvars\":"<<X.vars.size()<<",\"queries\":"<<SS.queries<<",\"unsat\":"<<SS.unsat<<",\"sat\":"<<SS.sat<<",\"unknown\":"<<SS.unknown<<",\"solver_s\":"<<SS.seconds<<",\"viols\":"<<violsOnPath<<",\"notes\":[";
    for (size_t i=0;i<NOTES.size();i++) o<<(i?",":"")<<"\""<<jesc(NOTES[i])<<"\""; o<<"]}"; appendLine("paths.jsonl",o.str());
}
static void reap(){ for (pid_t p:kids){ int st; if (waitpid(p,&st,0)==p && (WIFSIGNALED(st) || (WIFEXITED(st)&&WEXITSTATUS(st)==99))){ std::ostringstream o; o<<"{\"case\":\""<<CASE<<"\",\"k\":"<<CASEK<<",\"status\":\"crash\",\"msg\":\"path process died\",\"checks\":0,\"sym_checks\":0,\"proved\":0,\"undecided\":0,\"concretised\":0,\"div_assumed\":0,\"unknown_branches\":0,\"insts\":0,\"witness\":false,\"pc\":0,\"nvars\":0,\"queries\":0,\"unsat\":0,\"sat\":0,\"unknown\":0,\"solver_s\":0,\"viols\":0,\"notes\":[]}"; appendLine("paths.jsonl",o.str()); } } kids.clear(); }
static void recordViolation(const std::string&kind, const std::string&msg, const Model&m){
    std::string key=kind+"|"+msg; if (REPORTED.count(key)) return; REPORTED.insert(key); violsOnPath++; uint64_t n=SH->viols++; if (n>400) return;
    std::ostringstream o; o<<"{\"case\":\""<<CASE<<"\",\"k\":"<<CASEK<<",\"kind\":\""<<kind<<"\",\"msg\":\""<<jesc(msg)<<"\",\"underapprox\":"<<CN.conc<<",\"stack\":\""<<jesc(stackTrace())<<"\",\"vars\":[";
    for (size_t i=0;i<X.vars.size();i++){ auto&v=X.vars[i]; o<<(i?",":"")<<"{\"n\":\""<<jesc(v.name)<<"\","; if (v.real) o<<"\"r\":\""<<hexd(i<m.re.size()?m.re[i].get_d():0)<<"\"}"; else o<<"\"i\":"<<(int64_t)Ctx::sx(i<m.iv.size()?m.iv[i]:0,v.w)<<"}"; }
    o<<"]}"; appendLine("viol.jsonl",o.str());
}
[[noreturn]] static void violation(const std::string&kind, const std::string&msg, const Model*m){ modelExtend(); recordViolation(kind,msg,m?*m:P.model); throw PathEnd{ST_VIOLATION,kind+": "+msg}; }
// ------------------------------------------------------------------ branching
static bool childMode=false;
static void flushClose();
static int forkPath(){  // returns 1 in the child
    flushClose();
    if (++SH->forks>MAXFORKS) throw PathEnd{ST_LIMIT,"path limit"};
    if (now()>SH->deadline) throw PathEnd{ST_TIMEOUT,"time budget"};
    bool conc= sem_trywait(&SH->slots)==0; fflush(nullptr);
    pid_t p=fork(); if (p<0){ if (conc) sem_post(&SH->slots); throw PathEnd{ST_LIMIT,"fork failed"}; }
    if (p==0){ kids.clear(); holdSlot=conc; childMode=true; CN=Counters(); SS=SolverStats(); NOTES.clear(); violsOnPath=0; return 1; }
    CN.forks++;
    if (conc) kids.push_back(p); else { int st; waitpid(p,&st,0); if (WIFSIGNALED(st)){ kids.push_back(p); reap(); } }
    return 0;
}
static void flushClose();
static void addPc(E c){ flushClose(); P.pc.push_back(c); X.learn(c); }
static bool decide(E c){
    c=X.subst(c);
    uint64_t v; if (X.isC(c,v)) return v;
    if (now()>SH->deadline) throw PathEnd{ST_TIMEOUT,"time budget"};
    E nc=X.notb(c); modelExtend();
    for (E e:P.pc){ if (e==c) return true; if (e==nc) return false; }
    if (P.hasModel){
        int r=evalBool(c,P.model); bool side= r>0; E other= side? nc:c; Model m2; R q=query({other},&m2);
        if (q==R::UNSAT) { addPc(side?c:nc); return side; }
        if (q==R::UNKNOWN) CN.unkBranch++;
        if (forkPath()){ addPc(other); if (q==R::SAT) P.model=m2; else P.hasModel=false; return !side; }
        addPc(side?c:nc); return side;
    }
    Model mt,mf; R qt=query({c},&mt), qf=query({nc},&mf);
    if (qt==R::UNSAT&&qf==R::UNSAT) throw PathEnd{ST_INFEASIBLE,""};
    if (qf==R::UNSAT){ addPc(c); if (qt==R::SAT){ P.model=mt; P.hasModel=true;} return true; }
    if (qt==R::UNSAT){ addPc(nc); if (qf==R::SAT){ P.model=mf; P.hasModel=true;} return false; }
    CN.unkBranch++;
    if (forkPath()){ addPc(nc); if (qf==R::SAT){ P.model=mf; P.hasModel=true; } return false; }
    addPc(c); if (qt==R::SAT){ P.model=mt; P.hasModel=true; } return true;
}
static void assumeE(E c){
    uint64_t v; if (X.isC(c,v)){ if (!v) throw PathEnd{ST_INFEASIBLE,"assume"}; return; }
    modelExtend(); if (P.hasModel && evalBool(c,P.model)>0){ addPc(c); return; }
    Model m; R q=query({c},&m,3); if (q==R::UNSAT) throw PathEnd{ST_INFEASIBLE,"assume"};
    addPc(c); if (q==R::SAT){ P.model=m; P.hasModel=true; } else P.hasModel=false;
}
static E toE(const Val&v, uint8_t w){ if (v.s){ if (X.isPoly(v.s)) throw Unsupported{"poly as bv"}; return X.nodes[v.s].w==w? v.s : X.extract(v.s,0,w); } return X.bv(v.c,w); }
static double asD(uint64_t c){ double d; memcpy(&d,&c,8); return d; } static uint64_t ofD(double d){ uint64_t c; memcpy(&c,&d,8); return c; }
static void simp(Val&v){ if (!v.s) return; uint64_t k; v.s=X.subst(v.s); if (X.isC(v.s,k)){ v.c=k; v.s=0; } else if (X.isPoly(v.s)){ mpq_class q; if (X.pisconst(X.polyOf(v.s),q)){ v.c=ofD(q.get_d()); v.s=0; } } }
static uint64_t conc(Val&v){
    if (!v.s) return v.c; modelExtend();
    if (X.isPoly(v.s)){ const Poly p=X.polyOf(v.s); bool ex=true; mpq_class q=evalPoly(p,P.model,ex); CN.conc++; addPc(X.rcmp(Op::REQ,X.padd(p,X.pconst(q),-1))); v.c=ofD(q.get_d()); v.s=0; return v.c; }
    for (int n=0;n<4096;n++){ bool ex=true; if (!P.hasModel){ Model m; R q=query({},&m); if (q==R::SAT){ P.model=m; P.hasModel=true; } else throw PathEnd{ST_LIMIT,"no model to concretise"}; }
        uint64_t m=evalBV(v.s,P.model,ex); if (decide(X.cmp(Op::EQ,v.s,X.bv(m,X.nodes[v.s].w)))){ v.c=m; v.s=0; return m; } }
    throw PathEnd{ST_LIMIT,"concretisation fan-out"};
}
static uint64_t concNoConstraint(const Val&v){ if (!v.s) return v.c; modelExtend(); bool ex=true; if (X.isPoly(v.s)) return ofD(evalPoly(X.polyOf(v.s),P.model,ex).get_d()); return evalBV(v.s,P.model,ex); }
static void needBV(Val&v){ if (v.s){ if (X.isPoly(v.s)) conc(v); else if (!X.sub.empty()) simp(v); } }
static bool toPoly(Val&v, Poly&p){ // double operand -> polynomial; false when it is inf/nan
    if (v.s){ if (X.isPoly(v.s)){ p=X.polyOf(v.s); return true; } conc(v); }
    double d=asD(v.c); if (!std::isfinite(d)) return false; p=X.pconst(q_of(d)); return true; }
static Val fromPoly(const Poly&p){ Val v; mpq_class q; if (X.pisconst(p,q)){ v.c=ofD(q.get_d()); return v; } v.s=X.polyE(p); return v; }
// ------------------------------------------------------------------ loads and stores
static Val loadLeaf(uint64_t a, const Leaf&l){
    chk(a,l.bytes,false); Val v;
    if (inA(a) && symAny(a,l.bytes)){
        SymPage*p0=spage(a); E e0= p0?p0->e[a&4095]:0; bool whole=e0!=0; 
        for (unsigned i=0;i<l.bytes&&whole;i++){ SymPage*p=spage(a+i); if (!p||p->e[(a+i)&4095]!=e0||p->ix[(a+i)&4095]!=i) whole=false; }
        if (whole){ if (X.isPoly(e0)){ if (l.bytes==8){ v.s=e0; return v; } } else if (X.nodes[e0].w==l.bytes*8){ v.s=e0; if (l.w && l.w<X.nodes[e0].w){ v.s=X.extract(e0,0,l.w);} simp(v); return v; } }
        // byte-wise
        for (unsigned i=0;i<l.bytes;i++){ SymPage*p=spage(a+i); E e= p?p->e[(a+i)&4095]:0; if (e&&X.isPoly(e)){ Val t; t.s=e; uint64_t st=a+i-p->ix[(a+i)&4095]; uint64_t c=conc(t); symClear(st,8); memcpy((void*)st,&c,8); } }
        E acc=0; for (unsigned i=0;i<l.bytes;i++){ SymPage*p=spage(a+i); E e=p?p->e[(a+i)&4095]:0; E b= e? X.extract(e,8*p->ix[(a+i)&4095],8) : X.bv(*(uint8_t*)(a+i),8); acc= i? X.concat(b,acc):b; }
        v.s=acc; if (l.w && l.w<l.bytes*8) v.s=X.extract(acc,0,l.w); simp(v); if (v.s && l.kind>=2) conc(v); return v;
    }
    switch(l.kind){ case 3: { uint32_t x; memcpy(&x,(void*)a,4); v.c=x; break; } case 4: { long double d; memset(&d,0,16); memcpy(&d,(void*)a,10); v.c=ofD((double)d); break; }
    default: v.c=0; memcpy(&v.c,(void*)a,l.bytes); if (l.kind==0&&l.w<64) v.c=Ctx::mask(v.c,l.w); }
    return v;
}
static void storeLeaf(uint64_t a, const Leaf&l, const Val&v){
    chk(a,l.bytes,true);
    if (v.s && !inA(a)) { Val t=v; conc(t); storeLeaf(a,l,t); return; }
    if (v.s){ E e=v.s; if (!X.isPoly(e)&&X.nodes[e].w<l.bytes*8) e=X.ext(Op::ZEXT,e,l.bytes*8); uint64_t z=concNoConstraint(v); memcpy((void*)a,&z,l.bytes); for (unsigned i=0;i<l.bytes;i++) symSet(a+i,i,e); return; }
    symClear(a,l.bytes); if (l.kind==4){ long double d=asD(v.c); memcpy((void*)a,&d,10); } else memcpy((void*)a,&v.c,l.bytes);
}
static void gmemmove(uint64_t d, uint64_t s, uint64_t n){
    if (!n) return; chk(s,n,false); chk(d,n,true);
    bool ss=symAny(s,n); if (!ss){ symClear(d,n); memmove((void*)d,(void*)s,n); return; }
    std::vector<std::pair<E,uint8_t>> t(n); for (uint64_t i=0;i<n;i++){ SymPage*p=spage(s+i); t[i]= p? std::make_pair(p->e[(s+i)&4095],p->ix[(s+i)&4095]) : std::make_pair(0u,(uint8_t)0); }
    memmove((void*)d,(void*)s,n); symClear(d,n); for (uint64_t i=0;i<n;i++) if (t[i].first) symSet(d+i,t[i].second,t[i].first);
}
static uint64_t addrOf(Val&v){ return conc(v); }
// symbolic load through a symbolic integer address: if-then-else over all feasible addresses when every candidate is an integer
static bool symLoad(Val a, const Leaf&l, Val&out){
    if (l.kind>=2) return false; std::vector<uint64_t> cand; std::vector<E> ex; modelExtend(); Model m; 
    for (int i=0;i<64;i++){ Model mm; R q=query(ex,&mm); if (q==R::UNSAT) break; if (q==R::UNKNOWN) return false; bool e=true; uint64_t x=evalBV(a.s,mm,e); cand.push_back(x); ex.push_back(X.notb(X.cmp(Op::EQ,a.s,X.bv(x,64)))); if (i==63) return false; }
    if (cand.empty()) return false; std::vector<Val> vs; for (uint64_t x:cand){ if (!inA(x)||!inA(x+l.bytes)) return false; bool pz=poisWord(x)&((1ull<<l.bytes)-1); if (pz) return false; if (l.kind==1) return false; vs.push_back(loadLeaf(x,l)); if (vs.back().s&&X.isPoly(vs.back().s)) return false; }
    E r=toE(vs[0],l.w); for (size_t i=1;i<cand.size();i++) r=X.ite(X.cmp(Op::EQ,a.s,X.bv(cand[i],64)),toE(vs[i],l.w),r);
    out=Val(); out.s=r; simp(out); return true;
}
// ------------------------------------------------------------------ decoding
static void leaves(Type*t, uint64_t off, std::vector<Leaf>&o){
    if (t->isIntegerTy()){ unsigned w=t->getIntegerBitWidth(); if (w>64) throw Unsupported{"integer wider than 64 bits"}; o.push_back({t,off,(w+7)/8,0,(uint8_t)w}); if (o.back().bytes==3) o.back().bytes=4; return; }
    if (t->isPointerTy()){ o.push_back({t,off,8,1,64}); return; } if (t->isDoubleTy()){ o.push_back({t,off,8,2,64}); return; } if (t->isFloatTy()){ o.push_back({t,off,4,3,32}); return; }
    if (t->isX86_FP80Ty()){ o.push_back({t,off,10,4,64}); return; }
    if (auto*s=dyn_cast<StructType>(t)){ auto*sl=DL->getStructLayout(s); for (unsigned i=0;i<s->getNumElements();i++) leaves(s->getElementType(i),off+sl->getElementOffset(i),o); return; }
    if (auto*a=dyn_cast<ArrayType>(t)){ uint64_t sz=DL->getTypeAllocSize(a->getElementType()); for (uint64_t i=0;i<a->getNumElements();i++) leaves(a->getElementType(),off+i*sz,o); return; }
    if (auto*v=dyn_cast<FixedVectorType>(t)){ uint64_t sz=DL->getTypeAllocSize(v->getElementType()); for (unsigned i=0;i<v->getNumElements();i++) leaves(v->getElementType(),off+i*sz,o); return; }
    if (t->isVoidTy()||t->isTokenTy()||t->isMetadataTy()) return;
    std::string s; raw_string_ostream os(s); t->print(os); throw Unsupported{"type "+s};
}
static std::vector<Leaf> leavesOf(Type*t){ std::vector<Leaf> o; leaves(t,0,o); return o; }
static Fun* funOf(const Function*F);
static uint64_t globalAddr(const GlobalValue*g);
static void evalConst(const Constant*c, std::vector<Val>&out);
static uint64_t evalConst1(const Constant*c){ std::vector<Val> v; evalConst(c,v); return v[0].c; }
static void evalConst(const Constant*c, std::vector<Val>&out){
    Val v;
    if (auto*i=dyn_cast<ConstantInt>(c)){ if (i->getBitWidth()>64) throw Unsupported{"wide constant"}; v.c=i->getZExtValue(); out.push_back(v); return; }
    if (auto*f=dyn_cast<ConstantFP>(c)){ if (f->getType()->isX86_FP80Ty()){ APFloat x=f->getValueAPF(); bool li; x.convert(APFloat::IEEEdouble(),APFloat::rmNearestTiesToEven,&li); v.c=ofD(x.convertToDouble()); } else v.c=f->getValueAPF().bitcastToAPInt().getZExtValue(); out.push_back(v); return; }
    if (isa<ConstantPointerNull>(c)){ out.push_back(v); return; }
    if (isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)){ size_t n=leavesOf(c->getType()).size(); for (size_t i=0;i<n;i++) out.push_back(v); return; }
    if (auto*a=dyn_cast<ConstantDataSequential>(c)){ for (unsigned i=0;i<a->getNumElements();i++) evalConst(a->getElementAsConstant(i),out); return; }
    if (isa<ConstantAggregate>(c)){ for (unsigned i=0;i<c->getNumOperands();i++) evalConst(cast<Constant>(c->getOperand(i)),out); return; }
    if (auto*g=dyn_cast<GlobalValue>(c)){ v.c=globalAddr(g); out.push_back(v); return; }
    if (auto*e=dyn_cast<ConstantExpr>(c)){
        switch(e->getOpcode()){
        case Instruction::GetElementPtr: { auto*gp=cast<GEPOperator>(e); APInt off(64,0); gp->accumulateConstantOffset(*DL,off); v.c=evalConst1(cast<Constant>(gp->getPointerOperand()))+off.getSExtValue(); out.push_back(v); return; }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: { evalConst(e->getOperand(0),out); if (e->getType()->isIntegerTy()) out.back().c=Ctx::mask(out.back().c,e->getType()->getIntegerBitWidth()); return; }
        case Instruction::Trunc: v.c=Ctx::mask(evalConst1(e->getOperand(0)),e->getType()->getIntegerBitWidth()); out.push_back(v); return;
        case Instruction::Sub: v.c=evalConst1(e->getOperand(0))-evalConst1(e->getOperand(1)); if (e->getType()->getIntegerBitWidth()<64) v.c=Ctx::mask(v.c,e->getType()->getIntegerBitWidth()); out.push_back(v); return;
        case Instruction::Add: v.c=evalConst1(e->getOperand(0))+evalConst1(e->getOperand(1)); out.push_back(v); return;
        case Instruction::ICmp: { uint64_t a=evalConst1(e->getOperand(0)),b=evalConst1(e->getOperand(1)); auto p=(CmpInst::Predicate)e->getPredicate(); v.c= p==CmpInst::ICMP_EQ? a==b : p==CmpInst::ICMP_NE? a!=b : p==CmpInst::ICMP_ULT? a<b : a>b; out.push_back(v); return; }
        default: break; } }
    std::string s; raw_string_ostream os(s); c->print(os); throw Unsupported{"constant "+s.substr(0,200)};
}
static void initGlobal(const GlobalVariable*g, uint64_t a){ std::vector<Leaf> l=leavesOf(g->getValueType()); if (isa<ConstantAggregateZero>(g->getInitializer())) return; std::vector<Val> v; evalConst(g->getInitializer(),v); for (size_t i=0;i<l.size();i++) storeLeaf(a+l[i].off,l[i],v[i]); }
static uint64_t globalAddr(const GlobalValue*g){
    auto it=GA.find(g); if (it!=GA.end()) return it->second;
    if (auto*al=dyn_cast<GlobalAlias>(g)){ uint64_t a=evalConst1(al->getAliasee()); GA[g]=a; return a; }
    if (auto*F=dyn_cast<Function>(g)){ Fun*f=funOf(F); uint64_t a; 
        if (f->ext && f->native && !f->icpt) a=(uint64_t)f->native; else { a=fnNext; fnNext+=16; } GA[g]=a; FA[a]=f; return a; }
    auto*v=cast<GlobalVariable>(g);
    if (v->isDeclaration()){ if (v->hasExternalWeakLinkage()){ void*p=dlsym(RTLD_DEFAULT,v->getName().str().c_str()); GA[g]=(uint64_t)p; return (uint64_t)p; }
        void*p=dlsym(RTLD_DEFAULT,v->getName().str().c_str()); if (!p){ if (v->getName()=="__dso_handle"){ static int dso; p=&dso; } else throw Unsupported{"external global "+v->getName().str()}; } GA[g]=(uint64_t)p; return (uint64_t)p; }
    uint64_t sz=DL->getTypeAllocSize(v->getValueType()); uint64_t al=std::max<uint64_t>(16,v->getAlign()?v->getAlign()->value():1); al=std::max<uint64_t>(al,DL->getABITypeAlign(v->getValueType()).value());
    uint64_t a=galloc(sz?sz:1,al); heapSize.erase(a); memset((void*)a,0,sz); GA[g]=a; initGlobal(v,a); return a;
}
extern std::unordered_map<std::string,Icpt> ICPT;
static Fun* funOf(const Function*F){
    auto it=FM.find(F); if (it!=FM.end()) return it->second; Fun*f=new Fun; f->F=const_cast<Function*>(F); f->name=F->getName().str(); FM[F]=f;
    auto ic=ICPT.find(f->name); if (ic!=ICPT.end()){ f->icpt=ic->second; f->ext=true; return f; }
    if (F->isDeclaration()){ f->ext=true; if (!F->isIntrinsic()){ f->native=dlsym(RTLD_DEFAULT,f->name.c_str()); } }
    return f;
}
enum { I_BIN=1, I_FBIN, I_FNEG, I_ICMP, I_FCMP, I_CAST, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_SELECT, I_EXTRACTV, I_INSERTV, I_UNREACH, I_LPAD, I_RESUME, I_COPY, I_INTR, I_RMW, I_CMPXCHG, I_EXTE, I_INSE, I_NOP, I_SHUF };
struct GepX { std::vector<std::pair<int,std::pair<uint64_t,uint8_t>>> idx; };
struct MemX { std::vector<Leaf> l; };
struct BrX { Edge t,f; };
struct SwX { std::vector<std::pair<uint64_t,Edge>> cs; Edge def; };
struct ShX { std::vector<int> ops; };
static void noteFunc(Fun*f);
static void decode(Fun*f){
    f->decoded=true; Function&F=*f->F; std::unordered_map<const Value*,int> slot; int ns=0;
    auto alloc=[&](const Value*v){ size_t n=leavesOf(v->getType()).size(); slot[v]=ns; ns+=n; return n; };
    for (auto&a:F.args()) f->nargs+=alloc(&a);
    for (auto&B:F) for (auto&I:B) if (!I.getType()->isVoidTy()) alloc(&I);
    std::unordered_map<const Value*,int> cslot;
    auto opnd=[&](const Value*v)->int{ auto it=slot.find(v); if (it!=slot.end()) return it->second; auto ct=cslot.find(v); if (ct!=cslot.end()) return ~ct->second;
        if (auto*c=dyn_cast<Constant>(v)){ int id=f->consts.size(); std::vector<Val> o; evalConst(c,o); f->consts.insert(f->consts.end(),o.begin(),o.end()); cslot[v]=id; return ~id; }
        if (isa<MetadataAsValue>(v)||isa<InlineAsm>(v)) return 0; throw Unsupported{"operand"}; };
    std::unordered_map<const BasicBlock*,int> bpc; struct Fix { Edge*e; const BasicBlock*from,*to; }; std::vector<Fix> fix;
    auto edge=[&](Edge*e,const BasicBlock*from,const BasicBlock*to){ fix.push_back({e,from,to}); };
    auto WI=[&](Type*t)->uint8_t{ if (t->isPointerTy()) return 64; if (t->isIntegerTy()){ if (t->getIntegerBitWidth()>64) throw Unsupported{"i128"}; return t->getIntegerBitWidth(); } if (t->isDoubleTy()||t->isX86_FP80Ty()) return 64; if (t->isFloatTy()) return 32; throw Unsupported{"scalar type"}; };
    for (auto&B:F){ bpc[&B]=f->code.size();
        for (auto&I:B){ if (isa<PHINode>(I)||isa<DbgInfoIntrinsic>(I)) continue; Inst n; n.I=&I; n.op=I_NOP; if (!I.getType()->isVoidTy()) n.dst=slot[&I];
            unsigned oc=I.getOpcode();
            if (I.getType()->isVectorTy() && (I.isBinaryOp()||I.isCast()||isa<CmpInst>(I)||I.getOpcode()==Instruction::FNeg)){
                // element-wise
                std::vector<Leaf> dl=leavesOf(I.getType()), sl=leavesOf(I.getOperand(0)->getType()); int a=opnd(I.getOperand(0)), b= I.getNumOperands()>1? opnd(I.getOperand(1)):0; int base=n.dst;
                for (size_t i=0;i<dl.size();i++){ Inst m=n; m.dst=base+i; m.a= a>=0? a+(int)i : a-(int)i; m.b= b>=0? b+(int)i : b-(int)i; m.w=sl[i].kind==1?64:sl[i].w; m.w2=dl[i].w; m.imm=oc;
                    if (I.isBinaryOp()) m.op=I.getType()->isFPOrFPVectorTy()? I_FBIN:I_BIN; else if (auto*c=dyn_cast<CmpInst>(&I)){ m.op=isa<ICmpInst>(I)?I_ICMP:I_FCMP; m.imm=c->getPredicate(); } else if (oc==Instruction::FNeg) m.op=I_FNEG; else { m.op=I_CAST; m.x=nullptr; if (oc==Instruction::BitCast && sl.size()!=dl.size()) throw Unsupported{"vector bitcast"}; }
                    if (m.op==I_CAST){ m.x=(void*)(uintptr_t)((sl[i].kind)|(dl[i].kind<<8)); }
                    f->code.push_back(m); }
                continue; }
            switch(oc){
            case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
                n.op=I_BIN; n.imm=oc; n.w=WI(I.getType()); n.a=opnd(I.getOperand(0)); n.b=opnd(I.getOperand(1)); break;
            case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: n.op=I_FBIN; n.imm=oc; n.w=WI(I.getType()); n.a=opnd(I.getOperand(0)); n.b=opnd(I.getOperand(1)); break;
            case Instruction::FNeg: n.op=I_FNEG; n.w=WI(I.getType()); n.a=opnd(I.getOperand(0)); break;
            case Instruction::ICmp: n.op=I_ICMP; n.w=WI(I.getOperand(0)->getType()); n.imm=cast<CmpInst>(I).getPredicate(); n.a=opnd(I.getOperand(0)); n.b=opnd(I.getOperand(1)); break;
            case Instruction::FCmp: n.op=I_FCMP; n.w=WI(I.getOperand(0)->getType()); n.imm=cast<CmpInst>(I).getPredicate(); n.a=opnd(I.getOperand(0)); n.b=opnd(I.getOperand(1)); break;
            case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: {
                auto sl=leavesOf(I.getOperand(0)->getType()), dl=leavesOf(I.getType()); if (sl.size()!=1||dl.size()!=1) throw Unsupported{"aggregate cast"};
                n.op=I_CAST; n.imm=oc; n.w=sl[0].w; n.w2=dl[0].w; n.a=opnd(I.getOperand(0)); n.x=(void*)(uintptr_t)((sl[0].kind)|(dl[0].kind<<8)); break; }
            case Instruction::Freeze: { n.op=I_COPY; n.a=opnd(I.getOperand(0)); n.imm=leavesOf(I.getType()).size(); break; }
            case Instruction::Load: { n.op=I_LOAD; n.a=opnd(I.getOperand(0)); n.x=new MemX{leavesOf(I.getType())}; break; }
            case Instruction::Store: { n.op=I_STORE; n.a=opnd(I.getOperand(1)); n.b=opnd(I.getOperand(0)); n.x=new MemX{leavesOf(I.getOperand(0)->getType())}; break; }
            case Instruction::GetElementPtr: { auto&g=cast<GetElementPtrInst>(I); n.op=I_GEP; n.a=opnd(g.getPointerOperand()); auto*gx=new GepX; uint64_t off=0; if (I.getType()->isVectorTy()) throw Unsupported{"vector gep"};
                for (auto gi=gep_type_begin(g),ge=gep_type_end(g);gi!=ge;++gi){ Value*ix=gi.getOperand(); if (auto*st=gi.getStructTypeOrNull()){ off+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
                    uint64_t sz=gi.getSequentialElementStride(*DL); if (auto*ci=dyn_cast<ConstantInt>(ix)){ off+=sz*ci->getSExtValue(); } else gx->idx.push_back({opnd(ix),{sz,WI(ix->getType())}}); }
                n.imm=off; n.x=gx; break; }
            case Instruction::Alloca: { auto&al=cast<AllocaInst>(I); n.op=I_ALLOCA; n.a=opnd(al.getArraySize()); n.imm=DL->getTypeAllocSize(al.getAllocatedType()); n.b=(int)al.getAlign().value(); break; }
            case Instruction::Br: { auto&br=cast<BranchInst>(I); auto*bx=new BrX; if (br.isUnconditional()){ n.op=I_BR; edge(&bx->t,&B,br.getSuccessor(0)); } else { n.op=I_CBR; n.a=opnd(br.getCondition()); edge(&bx->t,&B,br.getSuccessor(0)); edge(&bx->f,&B,br.getSuccessor(1)); } n.x=bx; break; }
            case Instruction::Switch: { auto&sw=cast<SwitchInst>(I); auto*sx=new SwX; n.op=I_SWITCH; n.a=opnd(sw.getCondition()); n.w=WI(sw.getCondition()->getType()); sx->cs.resize(sw.getNumCases()); int k=0; for (auto&c:sw.cases()){ sx->cs[k].first=c.getCaseValue()->getZExtValue(); edge(&sx->cs[k].second,&B,c.getCaseSuccessor()); k++; } edge(&sx->def,&B,sw.getDefaultDest()); n.x=sx; break; }
            case Instruction::Ret: { n.op=I_RET; if (I.getNumOperands()){ n.a=opnd(I.getOperand(0)); n.imm=leavesOf(I.getOperand(0)->getType()).size(); } break; }
            case Instruction::Unreachable: n.op=I_UNREACH; break;
            case Instruction::Select: { n.op=I_SELECT; n.a=opnd(I.getOperand(0)); n.b=opnd(I.getOperand(1)); n.c=opnd(I.getOperand(2)); auto ls=leavesOf(I.getType()); n.imm=ls.size(); n.w=ls[0].w; n.w2=ls[0].kind; if (I.getOperand(0)->getType()->isVectorTy()) throw Unsupported{"vector select"}; break; }
            case Instruction::ExtractValue: { auto&ev=cast<ExtractValueInst>(I); Type*t=ev.getAggregateOperand()->getType(); int off=0; for (unsigned ix:ev.indices()){ if (auto*st=dyn_cast<StructType>(t)){ for (unsigned j=0;j<ix;j++) off+=leavesOf(st->getElementType(j)).size(); t=st->getElementType(ix); } else { auto*at=cast<ArrayType>(t); off+=ix*leavesOf(at->getElementType()).size(); t=at->getElementType(); } }
                int a=opnd(ev.getAggregateOperand()); n.op=I_COPY; n.a= a>=0? a+off : a-off; n.imm=leavesOf(I.getType()).size(); break; }
            case Instruction::InsertValue: { auto&iv=cast<InsertValueInst>(I); Type*t=iv.getAggregateOperand()->getType(); int off=0; for (unsigned ix:iv.indices()){ if (auto*st=dyn_cast<StructType>(t)){ for (unsigned j=0;j<ix;j++) off+=leavesOf(st->getElementType(j)).size(); t=st->getElementType(ix); } else { auto*at=cast<ArrayType>(t); off+=ix*leavesOf(at->getElementType()).size(); t=at->getElementType(); } }
                n.op=I_INSERTV; n.a=opnd(iv.getAggregateOperand()); n.b=opnd(iv.getInsertedValueOperand()); n.c=off; n.imm=leavesOf(I.getType()).size(); n.x=(void*)(uintptr_t)leavesOf(iv.getInsertedValueOperand()->getType()).size(); break; }
            case Instruction::ExtractElement: { n.op=I_EXTE; n.a=opnd(I.getOperand(0)); n.b=opnd(I.getOperand(1)); break; }
            case Instruction::InsertElement: { n.op=I_INSE; n.a=opnd(I.getOperand(0)); n.b=opnd(I.getOperand(1)); n.c=opnd(I.getOperand(2)); n.imm=leavesOf(I.getType()).size(); break; }
            case Instruction::ShuffleVector: { auto&sv=cast<ShuffleVectorInst>(I); n.op=I_SHUF; auto*sx=new ShX; int a=opnd(I.getOperand(0)), b=opnd(I.getOperand(1)); int na=cast<FixedVectorType>(I.getOperand(0)->getType())->getNumElements(); for (int m:sv.getShuffleMask()){ if (m<0) m=0; int base= m<na? a:b; int off= m<na? m:m-na; sx->ops.push_back(base>=0?base+off:base-off); } n.x=sx; break; }
            case Instruction::LandingPad: { auto&lp=cast<LandingPadInst>(I); auto*l=new LPad; l->cleanup=lp.isCleanup(); l->dst=n.dst; for (unsigned i=0;i<lp.getNumClauses();i++){ l->isCatch.push_back(lp.isCatch(i)); l->catches.push_back(lp.isCatch(i)? evalConst1(lp.getClause(i)):0); } n.op=I_LPAD; n.x=l; break; }
            case Instruction::Resume: n.op=I_RESUME; n.a=opnd(I.getOperand(0)); break;
            case Instruction::Fence: n.op=I_NOP; break;
            case Instruction::AtomicRMW: { auto&r=cast<AtomicRMWInst>(I); n.op=I_RMW; n.imm=r.getOperation(); n.a=opnd(r.getPointerOperand()); n.b=opnd(r.getValOperand()); n.x=new MemX{leavesOf(I.getType())}; n.w=WI(I.getType()); break; }
            case Instruction::AtomicCmpXchg: { auto&r=cast<AtomicCmpXchgInst>(I); n.op=I_CMPXCHG; n.a=opnd(r.getPointerOperand()); n.b=opnd(r.getCompareOperand()); n.c=opnd(r.getNewValOperand()); n.x=new MemX{leavesOf(r.getCompareOperand()->getType())}; break; }
            case Instruction::Call: case Instruction::Invoke: {
                auto&cb=cast<CallBase>(I); Function*cf=cb.getCalledFunction(); auto*ci=new CallInfo; ci->invoke=isa<InvokeInst>(I);
                if (cf && cf->isIntrinsic()){ 
                    auto id=cf->getIntrinsicID();
                    if (id==Intrinsic::lifetime_start||id==Intrinsic::lifetime_end||id==Intrinsic::assume||id==Intrinsic::experimental_noalias_scope_decl||id==Intrinsic::donothing||id==Intrinsic::prefetch||id==Intrinsic::invariant_start||id==Intrinsic::invariant_end||id==Intrinsic::sideeffect){ delete ci; n.op=I_NOP; n.dst=-1; break; }
                    if (I.getType()->isVectorTy() && (id==Intrinsic::fmuladd||id==Intrinsic::sqrt||id==Intrinsic::fabs||id==Intrinsic::maxnum||id==Intrinsic::minnum)){ size_t cnt=leavesOf(I.getType()).size(); int base=n.dst; std::vector<int> as; for (auto&a:cb.args()) as.push_back(opnd(a)); for (size_t i=0;i<cnt;i++){ auto*c2=new CallInfo; for (int a:as){ c2->args.push_back(a>=0?a+(int)i:a-(int)i); c2->argLeaf.push_back(leavesOf(I.getType())[i]); } Inst m=n; m.op=I_INTR; m.imm=id; m.x=c2; m.dst=base+i; m.w=64; f->code.push_back(m); } n.op=I_NOP; n.dst=-1; break; }
                    n.op=I_INTR; n.imm=id; for (auto&a:cb.args()){ if (a->getType()->isMetadataTy()) continue; auto ls=leavesOf(a->getType()); int o=opnd(a); for (size_t i=0;i<ls.size();i++){ ci->args.push_back(o>=0?o+(int)i:o-(int)i); ci->argLeaf.push_back(ls[i]); } }
                    if (!I.getType()->isVoidTy()){ ci->retLeaf=leavesOf(I.getType()); n.w=ci->retLeaf.empty()?0:ci->retLeaf[0].w; }
                    if (ci->invoke) throw Unsupported{"invoke of intrinsic"};
                    n.x=ci; break; }
                n.op=I_CALL; n.x=ci; ci->ft=cb.getFunctionType(); ci->vararg=ci->ft->isVarArg();
                if (isa<InlineAsm>(cb.getCalledOperand())){ auto*ia=cast<InlineAsm>(cb.getCalledOperand()); if (ia->getAsmString().empty()||(I.getType()->isVoidTy()&&ia->getAsmString()[0]=='#'&&ia->getAsmString().find('\n')==std::string::npos)){ // optimisation barrier
                        n.op=I_NOP; if (n.dst>=0&&cb.arg_size()){ n.op=I_COPY; n.a=opnd(cb.getArgOperand(0)); n.imm=1; } break; } throw Unsupported{"inline asm "+ia->getAsmString()}; }
                if (cf) ci->direct=funOf(cf); else { auto*co=cb.getCalledOperand()->stripPointerCasts(); if (auto*F2=dyn_cast<Function>(co)) ci->direct=funOf(F2); else if (auto*ga=dyn_cast<GlobalAlias>(co)){ if (auto*F3=dyn_cast<Function>(ga->getAliasee()->stripPointerCasts())) ci->direct=funOf(F3); else ci->callee=opnd(cb.getCalledOperand()); } else ci->callee=opnd(cb.getCalledOperand()); }
                unsigned ai=0; for (auto&a:cb.args()){ auto ls=leavesOf(a->getType()); int o=opnd(a);
                    if (cb.isByValArgument(ai)){ // copy made by callee side: record size in leaf.bytes via kind 7
                        Leaf l{a->getType(),0,(uint32_t)DL->getTypeAllocSize(cb.getParamByValType(ai)),7,64}; ci->args.push_back(o); ci->argLeaf.push_back(l); ai++; continue; }
                    for (size_t i=0;i<ls.size();i++){ ci->args.push_back(o>=0?o+(int)i:o-(int)i); ci->argLeaf.push_back(ls[i]); } ai++; }
                if (!I.getType()->isVoidTy()) ci->retLeaf=leavesOf(I.getType());
                if (ci->invoke){ auto&iv=cast<InvokeInst>(I); edge(&ci->normal,&B,iv.getNormalDest()); edge(&ci->unwind,&B,iv.getUnwindDest()); }
                break; }
            default: throw Unsupported{std::string("instruction ")+I.getOpcodeName()};
            }
            f->code.push_back(n); } }
    for (auto&x:fix){ x.e->pc=bpc[x.to]; for (auto&ph:x.to->phis()){ int d=slot[&ph]; Value*v=ph.getIncomingValueForBlock(x.from); if (isa<UndefValue>(v)) { } int o=opnd(v); size_t n=leavesOf(ph.getType()).size(); for (size_t i=0;i<n;i++) x.e->copies.push_back({d+(int)i,o>=0?o+(int)i:o-(int)i}); } }
    f->nslots=ns; noteFunc(f);
}
static void noteFunc(Fun*f){
    std::set<const DISubprogram*> seen; auto add=[&](const DISubprogram*sp){ if (sp&&seen.insert(sp).second){ std::string fn=sp->getFile()?sp->getFilename().str():""; std::string nm=sp->getLinkageName().empty()?sp->getName().str():sp->getLinkageName().str(); size_t h=std::hash<std::string>()(nm+fn)&0xffff; uint8_t z=0; if (SH->funSeen[h].compare_exchange_strong(z,1)) appendLine("funcs.txt",fn+"\t"+std::to_string(sp->getLine())+"\t"+demangle(nm)); } };
    add(f->F->getSubprogram()); for (auto&B:*f->F) for (auto&I:B) if (DILocation*d=I.getDebugLoc()) while(d){ if (auto*s=d->getScope()) add(s->getSubprogram()); d=d->getInlinedAt(); }
}
// ------------------------------------------------------------------ exceptions
struct Exc { uint64_t obj, ti; }; static std::unordered_map<uint64_t,uint64_t> excType; static std::vector<uint64_t> caught; static std::map<uint64_t,int> typeIds; static std::vector<std::exception_ptr> keepAlive;
static int typeIdOf(uint64_t ti){ auto it=typeIds.find(ti); if (it!=typeIds.end()) return it->second; int n=typeIds.size()+1; typeIds[ti]=n; return n; }
static bool excMatch(uint64_t catchTi, uint64_t thrTi, void**obj){ if (!catchTi) return true; return ((const std::type_info*)catchTi)->__do_catch((const std::type_info*)thrTi,obj,1); }
static inline Val& R_(Frame&fr,int o){ return o>=0? REG[fr.base+o] : fr.f->consts[~o]; }
static void popFrame(){ Frame&f=FR.back(); poison(f.sp,stackTop-f.sp,true); symClear(f.sp,stackTop-f.sp); stackTop=f.sp; regTop=f.base; FR.pop_back(); }
static void takeEdge(Frame&fr, Edge&e){
    if (!e.copies.empty()){ static std::vector<Val> tmp; tmp.clear(); for (auto&c:e.copies) tmp.push_back(R_(fr,c.second)); for (size_t i=0;i<e.copies.size();i++) REG[fr.base+e.copies[i].first]=tmp[i]; }
    fr.pc=e.pc;
}
static size_t baseDepth=0;
struct GuestThrow { uint64_t obj, ti; };
static void unwind(uint64_t obj, uint64_t ti, bool popFirst){
    if (popFirst) popFrame();
    while(true){
        if (FR.size()<=baseDepth) throw GuestThrow{obj,ti};
        Frame&fr=FR.back(); Inst&in=fr.f->code[fr.pc-1];
        if (in.op==I_CALL && ((CallInfo*)in.x)->invoke){
            CallInfo*ci=(CallInfo*)in.x; int pc=ci->unwind.pc; Inst&lp=fr.f->code[pc]; if (lp.op!=I_LPAD) throw Unsupported{"landing pad"}; LPad*l=(LPad*)lp.x;
            int sel=0; bool enter=l->cleanup; for (size_t i=0;i<l->catches.size();i++) if (l->isCatch[i]){ void*o=(void*)obj; if (excMatch(l->catches[i],ti,&o)){ sel=typeIdOf(l->catches[i]); enter=true; break; } } else { enter=true; sel=-1; break; }
            if (enter){ takeEdge(fr,ci->unwind); REG[fr.base+l->dst]=Val{obj,0}; REG[fr.base+l->dst+1]=Val{(uint64_t)(uint32_t)sel,0}; fr.pc++; return; }
        }
        popFrame();
    }
}
static std::string excDescribe(uint64_t obj, uint64_t ti){ int st; const char*nm=((const std::type_info*)ti)->name(); char*d=abi::__cxa_demangle(nm,0,0,&st); std::string r=d?d:nm; free(d); void*o=(void*)obj; if (excMatch((uint64_t)&typeid(std::exception),ti,&o)) r+=std::string(": ")+((std::exception*)o)->what(); return r; }
// ------------------------------------------------------------------ native calls
static void nativeCall(Fun*f, CallInfo&ci, std::vector<Val>&args, Val*ret, void*addr){
    if (!addr) throw Unsupported{"undefined external "+f->name};
    bool io= f && (f->name.compare(0,5,"_ZNSo")==0 || f->name.find("basic_ostream")!=std::string::npos || f->name.find("_ostream_")!=std::string::npos || f->name.find("_M_insertI")!=std::string::npos || f->name.compare(0,5,"_ZStl")==0 || f->name=="printf" || f->name=="puts");
    size_t n=args.size(); std::vector<ffi_type*> ty(n); std::vector<uint64_t> sv(n); std::vector<float> fl(n); std::vector<long double> ld(n); std::vector<void*> pv(n);
    for (size_t i=0;i<n;i++){ auto&l=ci.argLeaf[i]; uint64_t c= io? concNoConstraint(args[i]) : conc(args[i]); sv[i]=c; pv[i]=&sv[i];
        switch(l.kind){ case 0: ty[i]= l.w<=8? &ffi_type_uint8 : l.w<=16? &ffi_type_uint16 : l.w<=32? &ffi_type_uint32 : &ffi_type_uint64; break; case 1: ty[i]=&ffi_type_pointer; break; case 2: ty[i]=&ffi_type_double; break; case 3: ty[i]=&ffi_type_float; break; case 4: ld[i]=asD(c); pv[i]=&ld[i]; ty[i]=&ffi_type_longdouble; break; default: throw Unsupported{"byval to native "+(f?f->name:"")}; } }
    ffi_type rs; ffi_type* el[5]={0}; ffi_type*rt=&ffi_type_void; std::vector<uint8_t> rb(64,0);
    auto lt=[&](Leaf&l)->ffi_type*{ switch(l.kind){ case 0: return l.w<=8?&ffi_type_uint8:l.w<=16?&ffi_type_uint16:l.w<=32?&ffi_type_uint32:&ffi_type_uint64; case 1: return &ffi_type_pointer; case 2: return &ffi_type_double; case 3: return &ffi_type_float; default: return &ffi_type_longdouble; } };
    if (ci.retLeaf.size()==1) rt=lt(ci.retLeaf[0]); else if (ci.retLeaf.size()>1){ if (ci.retLeaf.size()>4) throw Unsupported{"native struct return"}; for (size_t i=0;i<ci.retLeaf.size();i++) el[i]=lt(ci.retLeaf[i]); rs.size=rs.alignment=0; rs.type=FFI_TYPE_STRUCT; rs.elements=el; rt=&rs; }
    ffi_cif cif; if (ci.vararg) ffi_prep_cif_var(&cif,FFI_DEFAULT_ABI,ci.ft->getNumParams(),n,rt,ty.data()); else ffi_prep_cif(&cif,FFI_DEFAULT_ABI,n,rt,ty.data());
    bool thr=false; uint64_t eobj=0,eti=0;
    try { ffi_call(&cif,(void(*)())addr,rb.data(),pv.data()); }
    catch (PathEnd&){ throw; } catch (Unsupported&){ throw; } catch (Blowup&){ throw; }
    catch (...){ thr=true; eti=(uint64_t)abi::__cxa_current_exception_type(); auto ep=std::current_exception(); memcpy(&eobj,&ep,8); keepAlive.push_back(ep); }
    if (thr){ excType[eobj]=eti; throw GuestThrow{eobj,eti}; }
    for (size_t i=0;i<ci.retLeaf.size();i++){ auto&l=ci.retLeaf[i]; ret[i]=Val(); if (l.kind==4){ long double d; memcpy(&d,rb.data(),16); ret[i].c=ofD((double)d); } else { uint64_t c=0; memcpy(&c,rb.data()+(ci.retLeaf.size()>1? l.off:0),l.bytes>8?8:l.bytes); ret[i].c= l.kind==0? Ctx::mask(c,l.w):c; } }
}
// ------------------------------------------------------------------ floating point
static Val fbin(unsigned op, Val a, Val b){
    if (!a.s&&!b.s){ double x=asD(a.c),y=asD(b.c),r=0; switch(op){ case Instruction::FAdd:r=x+y;break; case Instruction::FSub:r=x-y;break; case Instruction::FMul:r=x*y;break; case Instruction::FDiv:r=x/y;break; case Instruction::FRem:r=fmod(x,y);break; } return Val{ofD(r),0}; }
    Poly p,q; if (op==Instruction::FRem || !toPoly(a,p) || !toPoly(b,q)){
        // infinite or NaN constant meets a symbolic finite value
        if (op!=Instruction::FRem){ double x= a.s? 0 : asD(a.c), y= b.s? 0: asD(b.c); if (!a.s&&!std::isfinite(x)&&(op==Instruction::FAdd||op==Instruction::FSub)) return a; if (!b.s&&!std::isfinite(y)&&op==Instruction::FAdd) return b; if (std::isnan(x)||std::isnan(y)) return Val{ofD(NAN),0}; }
        conc(a); conc(b); return fbin(op,a,b); }
    switch(op){ case Instruction::FAdd: return fromPoly(X.padd(p,q)); case Instruction::FSub: return fromPoly(X.padd(p,q,-1)); case Instruction::FMul: return fromPoly(X.pmul(p,q));
    case Instruction::FDiv: { mpq_class c; if (X.pisconst(q,c)){ if (sgn(c)==0){ conc(a); return fbin(op,a,b); } return fromPoly(X.pscale(p,mpq_class(1/c))); }
        E nz=X.notb(X.rcmp(Op::REQ,q)); uint64_t k; if (!(X.isC(nz,k)&&k)){ bool have=false; for (E e:P.pc) if (e==nz) have=true; if (!have){ Model m; modelExtend(); if (!P.hasModel||evalBool(nz,P.model)<=0) assumeE(nz); else addPc(nz); CN.divAssumed++; } }
        return fromPoly(X.pmul(p,X.inverse(q))); } }
    throw Unsupported{"fp op"};
}
static Val fcmp(unsigned pred, Val a, Val b){
    Val r; if (!a.s&&!b.s){ double x=asD(a.c),y=asD(b.c); bool u=std::isnan(x)||std::isnan(y); bool v=false; switch(pred){ case FCmpInst::FCMP_OEQ: v=!u&&x==y;break; case FCmpInst::FCMP_OGT: v=!u&&x>y;break; case FCmpInst::FCMP_OGE:v=!u&&x>=y;break; case FCmpInst::FCMP_OLT:v=!u&&x<y;break; case FCmpInst::FCMP_OLE:v=!u&&x<=y;break; case FCmpInst::FCMP_ONE:v=!u&&x!=y;break; case FCmpInst::FCMP_ORD:v=!u;break; case FCmpInst::FCMP_UNO:v=u;break; case FCmpInst::FCMP_UEQ:v=u||x==y;break; case FCmpInst::FCMP_UGT:v=u||x>y;break; case FCmpInst::FCMP_UGE:v=u||x>=y;break; case FCmpInst::FCMP_ULT:v=u||x<y;break; case FCmpInst::FCMP_ULE:v=u||x<=y;break; case FCmpInst::FCMP_UNE:v=u||x!=y;break; case FCmpInst::FCMP_TRUE:v=true;break; default: v=false; } r.c=v; return r; }
    if (pred==FCmpInst::FCMP_ORD||pred==FCmpInst::FCMP_UNO){ bool nan=(!a.s&&std::isnan(asD(a.c)))||(!b.s&&std::isnan(asD(b.c))); r.c= (pred==FCmpInst::FCMP_UNO)==nan; return r; }
    Poly p,q; bool fa=toPoly(a,p), fb=toPoly(b,q);
    if (!fa||!fb){ Val x=a,y=b; if (x.s) { x.s=0; x.c=ofD(0); } if (y.s){ y.s=0; y.c=ofD(0); } return fcmp(pred,x,y); }
    Poly d=X.padd(p,q,-1); E e;
    switch(pred){ case FCmpInst::FCMP_OEQ: case FCmpInst::FCMP_UEQ: e=X.rcmp(Op::REQ,d); break; case FCmpInst::FCMP_ONE: case FCmpInst::FCMP_UNE: e=X.notb(X.rcmp(Op::REQ,d)); break;
    case FCmpInst::FCMP_OLT: case FCmpInst::FCMP_ULT: e=X.rcmp(Op::RLT,d); break; case FCmpInst::FCMP_OLE: case FCmpInst::FCMP_ULE: e=X.rcmp(Op::RLE,d); break;
    case FCmpInst::FCMP_OGT: case FCmpInst::FCMP_UGT: e=X.rcmp(Op::RLT,X.pscale(d,mpq_class(-1))); break; case FCmpInst::FCMP_OGE: case FCmpInst::FCMP_UGE: e=X.rcmp(Op::RLE,X.pscale(d,mpq_class(-1))); break;
    case FCmpInst::FCMP_TRUE: e=X.bv(1,1); break; default: e=X.bv(0,1); }
    r.s=e; simp(r); return r;
}
static Val fabsV(Val a){ if (!a.s){ a.c&=~(1ull<<63); return a; } Poly p; if (!toPoly(a,p)) { a.c&=~(1ull<<63); return a; } E neg=X.rcmp(Op::RLT,p); if (decide(neg)) return fromPoly(X.pscale(p,mpq_class(-1))); return a; }
static Val sqrtV(Val a){ if (!a.s) return Val{ofD(std::sqrt(asD(a.c))),0}; Poly p; toPoly(a,p); E ok=X.rcmp(Op::RLE,X.pscale(p,mpq_class(-1))); uint64_t k; if (!(X.isC(ok,k)&&k)){ bool have=false; for (E e:P.pc) if (e==ok) have=true; if (!have){ CN.divAssumed++; assumeE(ok);} } 
    if (p.size()==1 && !X.monos[p[0].m].f.empty()){ bool sq=true; for (auto&f:X.monos[p[0].m].f) sq&=f.second%2==0; mpz_class nu=p[0].c.get_num(), de=p[0].c.get_den(); if (sq && mpz_perfect_square_p(nu.get_mpz_t()) && mpz_perfect_square_p(de.get_mpz_t())){ std::vector<std::pair<uint32_t,uint32_t>> h; for (auto&f:X.monos[p[0].m].f) h.push_back({f.first,f.second/2}); mpz_class a1=sqrt(nu), b1=sqrt(de); Poly q; q.push_back({X.mono(h),mpq_class(a1,b1)}); return fabsV(fromPoly(q)); } }   // sqrt(c^2 m^2) = |c m|
    return fromPoly(X.psqrt(p)); }
static Val fn1(uint8_t fn, Val a, double(*nat)(double)){ if (!a.s) return Val{ofD(nat(asD(a.c))),0}; Poly p; toPoly(a,p);
    if (fn==F_LOG){ E ok=X.rcmp(Op::RLT,X.pscale(p,mpq_class(-1))); uint64_t k; if (!(X.isC(ok,k)&&k)){ CN.divAssumed++; assumeE(ok);} }
    return fromPoly(X.pfn(fn,p)); }
static Val powV(Val a, Val b){ if (!a.s&&!b.s) return Val{ofD(pow(asD(a.c),asD(b.c))),0}; Poly p,q; toPoly(a,p); toPoly(b,q); if (!b.s){ double c=asD(b.c); if (c!=std::floor(c)||c<0){ E ok=X.rcmp(Op::RLT,X.pscale(p,mpq_class(-1))); if (c==std::floor(c)) ok=X.notb(X.rcmp(Op::REQ,p)); uint64_t k; if (!(X.isC(ok,k)&&k)){ CN.divAssumed++; assumeE(ok);} } return fromPoly(X.ppowc(p,c)); }
    E ok=X.rcmp(Op::RLT,X.pscale(p,mpq_class(-1))); uint64_t k; if (!(X.isC(ok,k)&&k)){ CN.divAssumed++; assumeE(ok);} return fromPoly(X.ppow2(p,q)); }
static Val mxmn(Val a, Val b, bool mx){ if (!a.s&&!b.s) return Val{ofD(mx?fmax(asD(a.c),asD(b.c)):fmin(asD(a.c),asD(b.c))),0}; Val c=fcmp(FCmpInst::FCMP_OLT,a,b); bool lt= c.s? decide(c.s) : c.c; return (lt==mx)? b : a; }
// ------------------------------------------------------------------ property API and checks
static void checkCond(Val c, const std::string&msg){
    CN.checks++; if (!c.s){ if (c.c&1) { CN.proved++; return; } modelExtend(); if (!P.hasModel){ Model m; if (query({},&m,4)==R::SAT){ P.model=m; P.hasModel=true; } } recordViolation("check",msg,P.model); return; }
    CN.symChecks++; E nc=X.notb(toE(c,1)); Model m; modelExtend();
    if (P.hasModel && evalBool(nc,P.model)==1){ recordViolation("check",msg,P.model); return; }
    R q=query({nc},&m,4); if (q==R::UNSAT){ CN.proved++; return; } if (q==R::SAT){ recordViolation("check",msg,m); return; } CN.undecided++; NOTES.push_back("undecided: "+msg);
}
// obligations |d|<=tol without denominators are collected and decided by one incremental solver before the path condition changes;
// those it does not discharge are decided again on their own without rounding of the coefficients
struct PendClose { E o; Poly d; mpq_class bound; double tol; std::string msg; };
static std::vector<PendClose> PEND; static bool inFlush=false;
static void decideClose(const Poly&d, const Poly&n, const mpq_class&bound, bool den, double tol, const std::string&msg);
static void flushClose(){
    if (PEND.empty()||inFlush) return; inFlush=true; std::vector<PendClose> v; v.swap(PEND); modelExtend();
    std::vector<const Poly*> ps; std::vector<mpq_class> bs; for (auto&p:v){ ps.push_back(&p.d); bs.push_back(p.bound); } std::vector<char> pr; allWithin(ps,bs,pr);
    for (size_t i=0;i<v.size();i++) if (pr[i]) CN.proved++; else decideClose(v[i].d,v[i].d,v[i].bound,false,v[i].tol,v[i].msg);
    inFlush=false;
}
static void checkClose(Val a, Val b, double tol, const std::string&msg){
    CN.checks++; modelExtend();
    if (!a.s&&!b.s){ double x=asD(a.c),y=asD(b.c); if (std::fabs(x-y)<=tol){ CN.proved++; return; } if (!P.hasModel){ Model m; if (query({},&m,4)==R::SAT){ P.model=m; P.hasModel=true; } } recordViolation("check",msg+" ["+std::to_string(x)+" vs "+std::to_string(y)+"]",P.model); return; }
    CN.symChecks++; Poly p,q; if (!toPoly(a,p)||!toPoly(b,q)){ recordViolation("check",msg+" [not finite]",P.model); return; }
    Poly d=X.padd(p,q,-1); std::vector<std::pair<uint32_t,unsigned>> den; Poly n=X.clear(d,den,false); if (n.empty()){ CN.proved++; return; }
    mpq_class bound=q_of(tol); for (auto&t:den){ mpq_class L; if (!polyLowerBoundAbs(t.first,L)){ mpq_class lo,hi; bool fin; interval(n,lo,hi,fin); if (n.empty()) L=1; else { L=q_of(1e-9); } } for (unsigned i=0;i<t.second;i++) bound*=L; }
    if (P.hasModel){ bool ex=true; mpq_class v=evalPoly(d,P.model,ex); if (abs(v)>q_of(2*tol)+ (ex?mpq_class(0):q_of(1e-7))){ recordViolation("check",msg+" [diff "+std::to_string(v.get_d())+": "+X.pstr(d)+"]",P.model); return; } }
    if (den.empty()){ E a1=X.rcmp(Op::RLT,X.padd(X.pconst(bound),n,-1)), c1=X.rcmp(Op::RLT,X.padd(X.pconst(bound),n,1)); E o=X.bin(Op::OR,1,a1,c1); uint64_t k; if (X.isC(o,k)&&!k){ CN.proved++; return; } PEND.push_back({o,d,bound,tol,msg}); if (PEND.size()>=64) flushClose(); return; }
    decideClose(d,n,bound,true,tol,msg);
}
static void decideClose(const Poly&d, const Poly&n, const mpq_class&bound, bool den, double tol, const std::string&msg){
    Model m; R r=queryAbsGreater(n,bound,&m); if (r==R::UNSAT){ CN.proved++; return; }
    if (r==R::SAT){ bool ex=true; mpq_class v=evalPoly(d,m,ex); if (abs(v)>q_of(tol)){ recordViolation("check",msg+" [diff "+std::to_string(v.get_d())+": "+X.pstr(d)+"]",m); return; }
        if (!den&&ex) { recordViolation("check",msg,m); return; } }
    CN.undecided++; NOTES.push_back("undecided: "+msg+" "+X.pstr(d,4));
}
static std::string gstr(uint64_t a){ std::string s; for (int i=0;i<300;i++){ char c=*(char*)(a+i); if (!c) break; s+=c; } return s; }
#define IC(nm) static void nm(CallInfo&ci, std::vector<Val>&a, Val*r)
IC(ic_int){ std::string n=gstr(a[0].c); int64_t lo=conc(a[1]), hi=conc(a[2]); if (lo==hi){ X.newVar(n,false,0,0,lo,hi); modelExtend(); r[0].c=(uint64_t)lo; return; } uint32_t v=X.newVar(n,false,0,0,lo,hi); modelExtend(); E e=X.vars[v].e; uint8_t w=X.vars[v].w; 
    // bounds are side conditions of the variable; when they are not the full range of the type add them to the path for slicing
    addPc(X.cmp(Op::SLE,X.bv(lo,w),e)); addPc(X.cmp(Op::SLE,e,X.bv(hi,w))); r[0].s=X.ext(Op::SEXT,e,64); }
IC(ic_real){ std::string n=gstr(a[0].c); double lo=asD(conc(a[1])),hi=asD(conc(a[2])); uint32_t v=X.newVar(n,true,lo,hi,0,0); modelExtend(); r[0].s=X.vars[v].e; }
IC(ic_pick){ std::string n=gstr(a[0].c); int lo=(int)conc(a[1]), hi=(int)conc(a[2]); int v=lo; for (;v<hi;v++) if (forkPath()) break; X.newVar(n,false,0,0,v,v); modelExtend(); r[0].c=(uint32_t)v; }
IC(ic_assume){ if (!a[0].s){ if (!(a[0].c&0xffffffff)) throw PathEnd{ST_INFEASIBLE,"assume"}; return; } needBV(a[0]); assumeE(X.notb(X.cmp(Op::EQ,a[0].s,X.bv(0,X.nodes[a[0].s].w)))); }
IC(ic_check){ needBV(a[0]); Val c; if (!a[0].s) c.c=(a[0].c&0xffffffff)!=0; else { c.s=X.notb(X.cmp(Op::EQ,a[0].s,X.bv(0,X.nodes[a[0].s].w))); simp(c);} checkCond(c,gstr(conc(a[1]))); }
IC(ic_close){ checkClose(a[0],a[1],asD(conc(a[2])),gstr(conc(a[3]))); }
// one switch to another thread: fn runs as a whole at a chosen access to the heap between vf_race and vf_race_end
static struct { bool armed=false, done=false; uint64_t fn=0; } PRE;
IC(ic_race){ PRE.fn=conc(a[0]); PRE.armed=true; PRE.done=false; }
IC(ic_race_end){ r[0].c=PRE.done?1:0; PRE.armed=false; }
IC(ic_note){ NOTES.push_back(gstr(a[0].c)); }
IC(ic_issym){ r[0].c=1; }
IC(ic_tier){ const char*t=getenv("VERIF_TIER"); r[0].c= t&&!strcmp(t,"thorough")?1:0; }
IC(ic_dump){ std::string n=gstr(a[0].c); std::string s; if (a[1].s&&X.isPoly(a[1].s)) s=X.pstr(X.polyOf(a[1].s),40); else s=std::to_string(asD(concNoConstraint(a[1]))); fprintf(stderr,"[dump] %s = %s\n",n.c_str(),s.c_str()); }
IC(ic_poison){ poison(conc(a[0]),conc(a[1]),true); }
IC(ic_unpoison){ poison(conc(a[0]),conc(a[1]),false); }
IC(ic_malloc){ r[0].c=galloc(conc(a[0])); }
IC(ic_calloc){ uint64_t n=conc(a[0])*conc(a[1]); r[0].c=galloc(n); memset((void*)r[0].c,0,n); }
IC(ic_alnew){ uint64_t n=conc(a[0]); r[0].c=galloc(n,std::max<uint64_t>(16,conc(a[1]))); }
IC(ic_memalign){ uint64_t al=conc(a[0]); r[0].c=galloc(conc(a[1]),std::max<uint64_t>(16,al)); }
IC(ic_posixmemalign){ uint64_t p=conc(a[0]); uint64_t m=galloc(conc(a[2]),std::max<uint64_t>(16,conc(a[1]))); Leaf l{nullptr,0,8,1,64}; storeLeaf(p,l,Val{m,0}); r[0].c=0; }
IC(ic_free){ uint64_t p=conc(a[0]); if (!p) return; if (inA(p)) gfree(p); else free((void*)p); }
IC(ic_realloc){ uint64_t p=conc(a[0]),n=conc(a[1]); uint64_t q=galloc(n); if (p){ uint64_t o=heapSize.count(p)?heapSize[p]:0; gmemmove(q,p,std::min(o,n)); gfree(p); } r[0].c=q; }
IC(ic_memcpy){ uint64_t d=addrOf(a[0]),s=addrOf(a[1]),n=conc(a[2]); gmemmove(d,s,n); if (!ci.retLeaf.empty()) r[0].c=d; }
IC(ic_memset){ uint64_t d=addrOf(a[0]),n=conc(a[2]); if (n) chk(d,n,true); symClear(d,n); memset((void*)d,(int)conc(a[1]),n); if (!ci.retLeaf.empty()) r[0].c=d; }
IC(ic_memcmp){ uint64_t d=addrOf(a[0]),s=addrOf(a[1]),n=conc(a[2]); if (!n){ r[0].c=0; return; } chk(d,n,false); chk(s,n,false); Leaf l{nullptr,0,1,0,8};
    if (symAny(d,n)||symAny(s,n)){ for (uint64_t i=0;i<n;i++){ Val x=loadLeaf(d+i,l),y=loadLeaf(s+i,l); if (x.s) conc(x); if (y.s) conc(y); if (x.c!=y.c){ r[0].c=Ctx::mask((uint64_t)(int64_t)(x.c<y.c?-1:1),32); return; } } r[0].c=0; return; }
    r[0].c=Ctx::mask((uint64_t)(int64_t)memcmp((void*)d,(void*)s,n),32); }
IC(ic_strlen){ uint64_t s=addrOf(a[0]); r[0].c=strlen((char*)s); }
IC(ic_assertfail){ std::string m=gstr(conc(a[0]))+" at "+gstr(conc(a[1]))+":"+std::to_string(conc(a[2])); if (!P.hasModel){ Model mm; R q=query({},&mm,4); if (q==R::UNSAT) throw PathEnd{ST_INFEASIBLE,""}; if (q==R::SAT){ P.model=mm; P.hasModel=true; } } size_t sl=m.find("/anifem"); violation("assert", sl==std::string::npos? m : gstr(conc(a[0]))); }
IC(ic_abort){ violation("abort","abort called"); }
IC(ic_terminate){ violation("terminate","std::terminate"); }
IC(ic_purevirt){ violation("abort","pure virtual call"); }
IC(ic_cxaalloc){ r[0].c=galloc(conc(a[0])+64); }
IC(ic_cxafree){ }
IC(ic_throw){ uint64_t o=conc(a[0]),t=conc(a[1]); excType[o]=t; throw GuestThrow{o,t}; }
IC(ic_begincatch){ uint64_t o=conc(a[0]); caught.push_back(o); r[0].c=o; /* adjusted pointer only differs for multiple inheritance */ }
IC(ic_endcatch){ if (!caught.empty()) caught.pop_back(); }
IC(ic_rethrow){ if (caught.empty()) violation("terminate","rethrow without exception"); uint64_t o=caught.back(); throw GuestThrow{o,excType[o]}; }
IC(ic_getexcptr){ r[0].c=conc(a[0]); }
IC(ic_guardacq){ uint8_t*g=(uint8_t*)conc(a[0]); r[0].c= g[0]?0:1; }
IC(ic_guardrel){ uint8_t*g=(uint8_t*)conc(a[0]); g[0]=1; }
IC(ic_nop0){ if (!ci.retLeaf.empty()) r[0].c=0; }
IC(ic_sqrt){ r[0]=sqrtV(a[0]); } IC(ic_fabs){ r[0]=fabsV(a[0]); }
IC(ic_exp){ r[0]=fn1(F_EXP,a[0],exp);} IC(ic_log){ r[0]=fn1(F_LOG,a[0],log);} IC(ic_sin){ r[0]=fn1(F_SIN,a[0],sin);} IC(ic_cos){ r[0]=fn1(F_COS,a[0],cos);} IC(ic_asin){ r[0]=fn1(F_ASIN,a[0],asin);} IC(ic_acos){ r[0]=fn1(F_ACOS,a[0],acos);} IC(ic_atan){ r[0]=fn1(F_ATAN,a[0],atan);} IC(ic_sinh){ r[0]=fn1(F_SINH,a[0],sinh);} IC(ic_cosh){ r[0]=fn1(F_COSH,a[0],cosh);} IC(ic_erf){ r[0]=fn1(F_ERF,a[0],erf);}
IC(ic_tan){ if (!a[0].s){ r[0]=Val{ofD(tan(asD(a[0].c))),0}; return; } r[0]=fbin(Instruction::FDiv,fn1(F_SIN,a[0],sin),fn1(F_COS,a[0],cos)); }
IC(ic_tanh){ if (!a[0].s){ r[0]=Val{ofD(tanh(asD(a[0].c))),0}; return; } r[0]=fbin(Instruction::FDiv,fn1(F_SINH,a[0],sinh),fn1(F_COSH,a[0],cosh)); }
IC(ic_pow){ r[0]=powV(a[0],a[1]); } IC(ic_powi){ Val b{ofD((double)(int32_t)conc(a[1])),0}; r[0]=powV(a[0],b); }
IC(ic_cbrt){ if (!a[0].s){ r[0]=Val{ofD(cbrt(asD(a[0].c))),0}; return; } r[0]=powV(a[0],Val{ofD(1.0/3),0}); }
IC(ic_expm1){ if (!a[0].s){ r[0]=Val{ofD(expm1(asD(a[0].c))),0}; return; } r[0]=fbin(Instruction::FSub,fn1(F_EXP,a[0],exp),Val{ofD(1.0),0}); }
IC(ic_log1p){ if (!a[0].s){ r[0]=Val{ofD(log1p(asD(a[0].c))),0}; return; } r[0]=fn1(F_LOG,fbin(Instruction::FAdd,a[0],Val{ofD(1.0),0}),log); }
IC(ic_atan2){ if (!a[0].s&&!a[1].s){ r[0]=Val{ofD(atan2(asD(a[0].c),asD(a[1].c))),0}; return; } Poly p,q; toPoly(a[0],p); toPoly(a[1],q); r[0]=fromPoly(X.pfn2(F_ATAN2,p,q)); }
IC(ic_fmax){ r[0]=mxmn(a[0],a[1],true); } IC(ic_fmin){ r[0]=mxmn(a[0],a[1],false); }
IC(ic_hypot){ Val s=fbin(Instruction::FAdd,fbin(Instruction::FMul,a[0],a[0]),fbin(Instruction::FMul,a[1],a[1])); r[0]=sqrtV(s); }
std::unordered_map<std::string,Icpt> ICPT={
 {"vf_int",ic_int},{"vf_real",ic_real},{"vf_pick",ic_pick},{"vf_assume",ic_assume},{"vf_check",ic_check},{"vf_close",ic_close},{"vf_note",ic_note},{"vf_race",ic_race},{"vf_race_end",ic_race_end},{"vf_is_symbolic",ic_issym},{"vf_tier",ic_tier},{"vf_dump",ic_dump},{"vf_poison",ic_poison},{"vf_unpoison",ic_unpoison},
 {"malloc",ic_malloc},{"_Znwm",ic_malloc},{"_Znam",ic_malloc},{"calloc",ic_calloc},{"realloc",ic_realloc},{"free",ic_free},{"_ZdlPv",ic_free},{"_ZdaPv",ic_free},{"_ZdlPvm",ic_free},{"_ZdaPvm",ic_free},{"_ZnwmSt11align_val_t",ic_alnew},{"_ZnamSt11align_val_t",ic_alnew},{"_ZdlPvSt11align_val_t",ic_free},{"_ZdlPvmSt11align_val_t",ic_free},{"_ZdaPvSt11align_val_t",ic_free},{"aligned_alloc",ic_memalign},{"memalign",ic_memalign},{"posix_memalign",ic_posixmemalign},
 {"memcpy",ic_memcpy},{"memmove",ic_memcpy},{"memset",ic_memset},{"memcmp",ic_memcmp},{"bcmp",ic_memcmp},{"strlen",ic_strlen},
 {"__assert_fail",ic_assertfail},{"abort",ic_abort},{"_ZSt9terminatev",ic_terminate},{"__cxa_pure_virtual",ic_purevirt},{"__clang_call_terminate",ic_terminate},
 {"__cxa_allocate_exception",ic_cxaalloc},{"__cxa_free_exception",ic_cxafree},{"__cxa_throw",ic_throw},{"__cxa_begin_catch",ic_begincatch},{"__cxa_end_catch",ic_endcatch},{"__cxa_rethrow",ic_rethrow},{"__cxa_get_exception_ptr",ic_getexcptr},
 {"__cxa_guard_acquire",ic_guardacq},{"__cxa_guard_release",ic_guardrel},{"__cxa_guard_abort",ic_nop0},{"__cxa_atexit",ic_nop0},{"__gxx_personality_v0",ic_nop0},
 {"sqrt",ic_sqrt},{"fabs",ic_fabs},{"exp",ic_exp},{"log",ic_log},{"sin",ic_sin},{"cos",ic_cos},{"tan",ic_tan},{"asin",ic_asin},{"acos",ic_acos},{"atan",ic_atan},{"sinh",ic_sinh},{"cosh",ic_cosh},{"tanh",ic_tanh},{"erf",ic_erf},{"pow",ic_pow},{"cbrt",ic_cbrt},{"fmax",ic_fmax},{"fmin",ic_fmin},{"hypot",ic_hypot},{"expm1",ic_expm1},{"log1p",ic_log1p},{"atan2",ic_atan2},
 {"_ZNSt6localeD1Ev",nullptr}};
// ------------------------------------------------------------------ integers
static Op opOf(unsigned oc){ switch(oc){ case Instruction::Add:return Op::ADD; case Instruction::Sub:return Op::SUB; case Instruction::Mul:return Op::MUL; case Instruction::UDiv:return Op::UDIV; case Instruction::SDiv:return Op::SDIV; case Instruction::URem:return Op::UREM; case Instruction::SRem:return Op::SREM; case Instruction::And:return Op::AND; case Instruction::Or:return Op::OR; case Instruction::Xor:return Op::XOR; case Instruction::Shl:return Op::SHL; case Instruction::LShr:return Op::LSHR; default:return Op::ASHR; } }
static Val ibin(unsigned oc, uint8_t w, Val a, Val b){
    Op op=opOf(oc);
    if (!a.s&&!b.s){ bool ok; uint64_t r=Ctx::fold(op,w,a.c,b.c,ok); if (!ok) violation("arith","integer division by zero or overflow"); return Val{r,0}; }
    // sign-bit masking of a real (fabs / copysign idioms)
    if (oc==Instruction::And && w==64 && a.s && X.isPoly(a.s) && !b.s && b.c==0x7fffffffffffffffull) return fabsV(a);
    if (oc==Instruction::Xor && w==64 && a.s && X.isPoly(a.s) && !b.s && b.c==0x8000000000000000ull) return fromPoly(X.pscale(X.polyOf(a.s),mpq_class(-1)));
    needBV(a); needBV(b); if (!a.s&&!b.s) return ibin(oc,w,a,b);
    if (op==Op::UDIV||op==Op::SDIV||op==Op::UREM||op==Op::SREM) if (b.s){ if (decide(X.cmp(Op::EQ,toE(b,w),X.bv(0,w)))) violation("arith","integer division by zero"); }
    Val r; r.s=X.bin(op,w,toE(a,w),toE(b,w)); simp(r); return r;
}
static Val icmp(unsigned pred, uint8_t w, Val a, Val b){
    needBV(a); needBV(b); Val r;
    if (!a.s&&!b.s){ uint64_t x=Ctx::mask(a.c,w),y=Ctx::mask(b.c,w); int64_t sx=Ctx::sx(x,w),sy=Ctx::sx(y,w); switch(pred){ case CmpInst::ICMP_EQ:r.c=x==y;break; case CmpInst::ICMP_NE:r.c=x!=y;break; case CmpInst::ICMP_UGT:r.c=x>y;break; case CmpInst::ICMP_UGE:r.c=x>=y;break; case CmpInst::ICMP_ULT:r.c=x<y;break; case CmpInst::ICMP_ULE:r.c=x<=y;break; case CmpInst::ICMP_SGT:r.c=sx>sy;break; case CmpInst::ICMP_SGE:r.c=sx>=sy;break; case CmpInst::ICMP_SLT:r.c=sx<sy;break; case CmpInst::ICMP_SLE:r.c=sx<=sy;break; default:break; } return r; }
    E x=toE(a,w),y=toE(b,w); switch(pred){ case CmpInst::ICMP_EQ:r.s=X.cmp(Op::EQ,x,y);break; case CmpInst::ICMP_NE:r.s=X.notb(X.cmp(Op::EQ,x,y));break; case CmpInst::ICMP_UGT:r.s=X.cmp(Op::ULT,y,x);break; case CmpInst::ICMP_UGE:r.s=X.cmp(Op::ULE,y,x);break; case CmpInst::ICMP_ULT:r.s=X.cmp(Op::ULT,x,y);break; case CmpInst::ICMP_ULE:r.s=X.cmp(Op::ULE,x,y);break; case CmpInst::ICMP_SGT:r.s=X.cmp(Op::SLT,y,x);break; case CmpInst::ICMP_SGE:r.s=X.cmp(Op::SLE,y,x);break; case CmpInst::ICMP_SLT:r.s=X.cmp(Op::SLT,x,y);break; case CmpInst::ICMP_SLE:r.s=X.cmp(Op::SLE,x,y);break; default:break; }
    simp(r); return r;
}
static bool isTrue(Val&c){ if (!c.s) return c.c&1; return decide(toE(c,1)); }
static Val selectV(Val&c, Val a, Val b, uint8_t w, uint8_t kind){
    if (!c.s) return (c.c&1)? a:b; if (!a.s&&!b.s&&a.c==b.c) return a; if (a.s&&a.s==b.s) return a;
    if (kind==0 && !(a.s&&X.isPoly(a.s)) && !(b.s&&X.isPoly(b.s))){ Val r; r.s=X.ite(toE(c,1),toE(a,w),toE(b,w)); simp(r); return r; }
    return isTrue(c)? a:b;
}
static Val castV(Inst&in, Val a){
    unsigned sk=(uintptr_t)in.x&0xff, dk=((uintptr_t)in.x>>8)&0xff; Val r;
    switch(in.imm){
    case Instruction::Trunc: needBV(a); if (!a.s){ r.c=Ctx::mask(a.c,in.w2); return r; } r.s=X.extract(toE(a,in.w),0,in.w2); simp(r); return r;
    case Instruction::ZExt: needBV(a); if (!a.s){ r.c=Ctx::mask(a.c,in.w); return r; } r.s=X.ext(Op::ZEXT,toE(a,in.w),in.w2); simp(r); return r;
    case Instruction::SExt: needBV(a); if (!a.s){ r.c=Ctx::mask((uint64_t)Ctx::sx(a.c,in.w),in.w2); return r; } r.s=X.ext(Op::SEXT,toE(a,in.w),in.w2); simp(r); return r;
    case Instruction::PtrToInt: if (a.s){ if (in.w2<64){ needBV(a);} r=a; if (in.w2<64){ r.s=X.extract(a.s,0,in.w2);} return r; } r.c=Ctx::mask(a.c,in.w2); return r;
    case Instruction::IntToPtr: if (a.s&&in.w<64) { needBV(a); if (a.s) a.s=X.ext(Op::ZEXT,a.s,64); } return a;
    case Instruction::BitCast: if (sk==3||dk==3) conc(a); return a;
    case Instruction::SIToFP: conc(a); { double d=(double)Ctx::sx(a.c,in.w); if (dk==3){ float f=(float)d; uint32_t u; memcpy(&u,&f,4); r.c=u; } else r.c=ofD(d); return r; }
    case Instruction::UIToFP: conc(a); { double d=(double)Ctx::mask(a.c,in.w); if (dk==3){ float f=(float)d; uint32_t u; memcpy(&u,&f,4); r.c=u; } else r.c=ofD(d); return r; }
    case Instruction::FPToSI: case Instruction::FPToUI: { double d; conc(a); if (sk==3){ float f; uint32_t u=(uint32_t)a.c; memcpy(&f,&u,4); d=f; } else d=asD(a.c); uint64_t v= in.imm==Instruction::FPToSI? (uint64_t)(int64_t)d : (d>=9.2e18? (uint64_t)d : (uint64_t)(int64_t)d); r.c=Ctx::mask(v,in.w2); return r; }
    case Instruction::FPExt: if (sk==3){ conc(a); float f; uint32_t u=(uint32_t)a.c; memcpy(&f,&u,4); r.c=ofD(f); return r; } return a;
    case Instruction::FPTrunc: if (dk==3){ conc(a); float f=(float)asD(a.c); uint32_t u; memcpy(&u,&f,4); r.c=u; return r; } return a; }
    throw Unsupported{"cast"};
}
static void intrinsic(Frame&fr, Inst&in){
    CallInfo&ci=*(CallInfo*)in.x; std::vector<Val> a; a.reserve(ci.args.size()); for (int o:ci.args) a.push_back(R_(fr,o)); Val r[4]; uint8_t w=in.w; size_t nr=ci.retLeaf.empty()?1:ci.retLeaf.size();
    auto E2=[&](Op op){ return X.bin(op,w,toE(a[0],w),toE(a[1],w)); };
    switch(in.imm){
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t d=addrOf(a[0]),s=addrOf(a[1]),n=conc(a[2]); gmemmove(d,s,n); return; }
    case Intrinsic::memset: case Intrinsic::memset_inline: ic_memset(ci,a,r); return;
    case Intrinsic::fabs: if (ci.argLeaf[0].kind==3){ r[0].c=a[0].c&0x7fffffff; break; } r[0]=fabsV(a[0]); break; case Intrinsic::sqrt: r[0]=sqrtV(a[0]); break;
    case Intrinsic::exp: ic_exp(ci,a,r); break; case Intrinsic::log: ic_log(ci,a,r); break; case Intrinsic::sin: ic_sin(ci,a,r); break; case Intrinsic::cos: ic_cos(ci,a,r); break; case Intrinsic::pow: ic_pow(ci,a,r); break; case Intrinsic::powi: ic_powi(ci,a,r); break;
    case Intrinsic::maxnum: case Intrinsic::maximum: r[0]=mxmn(a[0],a[1],true); break; case Intrinsic::minnum: case Intrinsic::minimum: r[0]=mxmn(a[0],a[1],false); break;
    case Intrinsic::fmuladd: case Intrinsic::fma: r[0]=fbin(Instruction::FAdd,fbin(Instruction::FMul,a[0],a[1]),a[2]); break;
    case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::round: { double d=asD(conc(a[0])); d= in.imm==Intrinsic::floor?floor(d):in.imm==Intrinsic::ceil?ceil(d):in.imm==Intrinsic::trunc?trunc(d):in.imm==Intrinsic::round?round(d):rint(d); r[0].c=ofD(d); break; }
    case Intrinsic::copysign: { if (!a[0].s&&!a[1].s){ r[0].c=ofD(copysign(asD(a[0].c),asD(a[1].c))); break; } Val m=fabsV(a[0]); Val c=fcmp(FCmpInst::FCMP_OLT,a[1],Val{ofD(0),0}); if (isTrue(c)) r[0]=fbin(Instruction::FMul,m,Val{ofD(-1),0}); else r[0]=m; break; }
    case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: { unsigned p= in.imm==Intrinsic::smax?CmpInst::ICMP_SGT:in.imm==Intrinsic::smin?CmpInst::ICMP_SLT:in.imm==Intrinsic::umax?CmpInst::ICMP_UGT:CmpInst::ICMP_ULT; Val c=icmp(p,w,a[0],a[1]); needBV(a[0]); needBV(a[1]); r[0]=selectV(c,a[0],a[1],w,0); break; }
    case Intrinsic::abs: { Val z; Val c=icmp(CmpInst::ICMP_SLT,w,a[0],z); Val n=ibin(Instruction::Sub,w,z,a[0]); r[0]=selectV(c,n,a[0],w,0); break; }
    case Intrinsic::usub_sat: { Val c=icmp(CmpInst::ICMP_ULT,w,a[0],a[1]); Val z; r[0]=selectV(c,z,ibin(Instruction::Sub,w,a[0],a[1]),w,0); break; }
    case Intrinsic::uadd_sat: { Val s=ibin(Instruction::Add,w,a[0],a[1]); Val c=icmp(CmpInst::ICMP_ULT,w,s,a[0]); r[0]=selectV(c,Val{Ctx::mask(~0ull,w),0},s,w,0); break; }
    case Intrinsic::expect: r[0]=a[0]; break; case Intrinsic::expect_with_probability: r[0]=a[0]; break;
    case Intrinsic::is_constant: r[0].c=0; break; case Intrinsic::objectsize: r[0].c=~0ull; if (w<64) r[0].c=Ctx::mask(~0ull,w); break;
    case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: { needBV(a[0]); if (a[0].s){
            if (in.imm==Intrinsic::ctpop){ E s=X.bv(0,w); for (unsigned i=0;i<w;i++) s=X.bin(Op::ADD,w,s, w==1?a[0].s:X.ext(Op::ZEXT,X.extract(a[0].s,i,1),w)); r[0].s=s; }
            else { E s=X.bv(w,w); if (in.imm==Intrinsic::cttz) for (int i=w-1;i>=0;i--) s=X.ite(X.extract(a[0].s,i,1),X.bv(i,w),s); else for (int i=0;i<w;i++) s=X.ite(X.extract(a[0].s,i,1),X.bv(w-1-i,w),s); r[0].s=s; }
            simp(r[0]); break; }
        uint64_t x=Ctx::mask(a[0].c,w); if (in.imm==Intrinsic::ctpop) r[0].c=__builtin_popcountll(x); else if (in.imm==Intrinsic::cttz) r[0].c= x?__builtin_ctzll(x):w; else r[0].c= x? __builtin_clzll(x)-(64-w) : w; break; }
    case Intrinsic::bswap: { uint64_t x=conc(a[0]); r[0].c= w==16?__builtin_bswap16(x):w==32?__builtin_bswap32(x):__builtin_bswap64(x); break; }
    case Intrinsic::fshl: case Intrinsic::fshr: { uint64_t s=conc(a[2])%w; Val hi=a[0],lo=a[1]; if (s==0){ r[0]= in.imm==Intrinsic::fshl? hi:lo; break; } unsigned l= in.imm==Intrinsic::fshl? s : w-s; Val x=ibin(Instruction::Shl,w,hi,Val{l,0}), y=ibin(Instruction::LShr,w,lo,Val{(uint64_t)w-l,0}); r[0]=ibin(Instruction::Or,w,x,y); break; }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        needBV(a[0]); needBV(a[1]);
        if (a[0].s||a[1].s){ 
            if (in.imm==Intrinsic::uadd_with_overflow){ r[0]=ibin(Instruction::Add,w,a[0],a[1]); r[1]=icmp(CmpInst::ICMP_ULT,w,r[0],a[0]); break; }
            if (in.imm==Intrinsic::usub_with_overflow){ r[0]=ibin(Instruction::Sub,w,a[0],a[1]); r[1]=icmp(CmpInst::ICMP_ULT,w,a[0],a[1]); break; }
            conc(a[0]); conc(a[1]); }
        __int128 x,y,z; bool sg= in.imm==Intrinsic::sadd_with_overflow||in.imm==Intrinsic::ssub_with_overflow||in.imm==Intrinsic::smul_with_overflow; if (sg){ x=Ctx::sx(a[0].c,w); y=Ctx::sx(a[1].c,w);} else { x=a[0].c; y=a[1].c; }
        if (in.imm==Intrinsic::uadd_with_overflow||in.imm==Intrinsic::sadd_with_overflow) z=x+y; else if (in.imm==Intrinsic::usub_with_overflow||in.imm==Intrinsic::ssub_with_overflow) z=x-y; else { if (!sg){ unsigned __int128 u=(unsigned __int128)a[0].c*a[1].c; r[0].c=Ctx::mask((uint64_t)u,w); r[1].c= (w<64? (u>>w)!=0 : (u>>64)!=0); break; } z=x*y; }
        r[0].c=Ctx::mask((uint64_t)z,w); if (sg) r[1].c= z!=(__int128)Ctx::sx(r[0].c,w); else r[1].c= z<0 || (w<64? (z>>w)!=0 : (z>>64)!=0); break; }
    case Intrinsic::eh_typeid_for: r[0].c=typeIdOf(a[0].c); break;
    case Intrinsic::stacksave: r[0].c=stackTop; break; case Intrinsic::stackrestore: break;
    case Intrinsic::threadlocal_address: r[0]=a[0]; break; case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptrmask: r[0]=a[0]; break;
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: violation("abort","trap");
    default: throw Unsupported{"intrinsic "+cast<CallBase>(in.I)->getCalledFunction()->getName().str()};
    }
    if (in.dst>=0) for (size_t i=0;i<nr;i++) REG[fr.base+in.dst+i]=r[i];
    (void)E2;
}
// ------------------------------------------------------------------ main loop
static void pushFrame(Fun*f, std::vector<Val>&args, int retDst, CallInfo*ci){
    if (!f->decoded) decode(f); if (FR.size()>4000) violation("stack","unbounded recursion");
    if (regTop+f->nslots+8>REG.size()) throw Unsupported{"register stack exhausted"};
    Frame fr; fr.f=f; fr.pc=0; fr.base=regTop; fr.sp=stackTop; fr.ci=ci; fr.retDst=retDst; 
    for (size_t i=0;i<args.size()&&(int)i<f->nargs;i++) REG[fr.base+i]=args[i];
    regTop+=f->nslots; FR.push_back(fr);
}
static uint64_t salloc(uint64_t n, uint64_t al){ uint64_t a=stackTop+32; al=std::max<uint64_t>(al,16); a=(a+al-1)/al*al; if (a+n+64>STK0+STKSZ) violation("stack","stack exhausted"); poison(a,n,false); memset((void*)a,0xFE,n); stackTop=(a+n+32+15)&~15ull; return a; }
static Fun* byAddr(uint64_t a){ auto it=FA.find(a); return it==FA.end()?nullptr:it->second; }
static void doCall(Frame&fr, Inst&in){
    CallInfo&ci=*(CallInfo*)in.x; Fun*f=ci.direct; void*nat=nullptr;
    if (!f){ uint64_t t=conc(R_(fr,ci.callee)); f=byAddr(t); if (!f){ if (t<65536||(t>=fnRegion&&t<fnRegion+(16<<20))) violation("memory","call through an invalid function pointer"); nat=(void*)t; } }
    static thread_local std::vector<Val> args; args.clear(); for (int o:ci.args) args.push_back(R_(fr,o));
    for (size_t i=0;i<args.size();i++) if (ci.argLeaf[i].kind==7 && f && !f->ext){ uint64_t sz=ci.argLeaf[i].bytes; uint64_t d=salloc(sz,16); gmemmove(d,conc(args[i]),sz); args[i].c=d; }
    Val ret[8];
    if (f && !f->ext){ std::vector<Val> av=args; pushFrame(f,av,in.dst,&ci); return; }
    try { std::vector<Val> av=args; if (f && f->icpt) f->icpt(ci,av,ret); else nativeCall(f,ci,av,ret,f?f->native:nat); }
    catch (GuestThrow&g){ unwind(g.obj,g.ti,false); return; }
    Frame&fr2=FR.back(); if (in.dst>=0) for (size_t i=0;i<ci.retLeaf.size();i++) REG[fr2.base+in.dst+i]=ret[i];
    if (ci.invoke) takeEdge(fr2,ci.normal);
}
static uint64_t instBudget=4000000000ull;
static void run(Fun*entry, std::vector<Val> args){
    size_t saveBase=baseDepth; baseDepth=FR.size(); pushFrame(entry,args,-1,nullptr);
    while(FR.size()>baseDepth){
        Frame&fr=FR.back(); Inst&in=fr.f->code[fr.pc++]; CN.insts++;
        if ((CN.insts&0xfffff)==0){ if (now()>SH->deadline) throw PathEnd{ST_TIMEOUT,"time budget"}; if (CN.insts>instBudget) throw PathEnd{ST_TIMEOUT,"instruction budget"}; }
        if (PRE.armed && (in.op==I_LOAD||in.op==I_STORE)){ Val p=R_(fr,in.a); if (!p.s && p.c>=HEAP0 && p.c<heapTop && forkPath()){ PRE.armed=false; PRE.done=true; Fun*g=byAddr(PRE.fn); if (!g) throw Unsupported{"thread function"}; fr.pc--; std::vector<Val> none; pushFrame(g,none,-1,nullptr); continue; } }
        switch(in.op){
        case I_NOP: break;
        case I_BIN: { Val&a=R_(fr,in.a),&b=R_(fr,in.b); REG[fr.base+in.dst]=ibin(in.imm,in.w,a,b); break; }
        case I_FBIN: { Val&a=R_(fr,in.a),&b=R_(fr,in.b); if (in.w==32){ Val x=a,y=b; conc(x);conc(y); float p,q,r=0; uint32_t u=x.c,v=y.c; memcpy(&p,&u,4); memcpy(&q,&v,4); switch(in.imm){ case Instruction::FAdd:r=p+q;break; case Instruction::FSub:r=p-q;break; case Instruction::FMul:r=p*q;break; case Instruction::FDiv:r=p/q;break; default:r=fmodf(p,q);} memcpy(&u,&r,4); REG[fr.base+in.dst]=Val{u,0}; } else { Val x=a,y=b; REG[fr.base+in.dst]=fbin(in.imm,x,y); } break; }
        case I_FNEG: { Val a=R_(fr,in.a); if (in.w==32){ conc(a); a.c^=0x80000000u; } else if (!a.s) a.c^=1ull<<63; else { Poly p; toPoly(a,p); if (a.s) a=fromPoly(X.pscale(p,mpq_class(-1))); else a.c^=1ull<<63; } REG[fr.base+in.dst]=a; break; }
        case I_ICMP: { REG[fr.base+in.dst]=icmp(in.imm,in.w,R_(fr,in.a),R_(fr,in.b)); break; }
        case I_FCMP: { Val a=R_(fr,in.a),b=R_(fr,in.b); if (in.w==32){ conc(a);conc(b); float p,q; uint32_t u=a.c,v=b.c; memcpy(&p,&u,4); memcpy(&q,&v,4); a.c=ofD(p); b.c=ofD(q); } Val r=fcmp(in.imm,a,b); REG[fr.base+in.dst]=r; break; }
        case I_CAST: { Val a=R_(fr,in.a); Val r=castV(in,a); REG[fr.base+in.dst]=r; break; }
        case I_COPY: { for (uint64_t i=0;i<in.imm;i++) REG[fr.base+in.dst+i]=R_(fr,in.a>=0?in.a+(int)i:in.a-(int)i); break; }
        case I_LOAD: { Val p=R_(fr,in.a); MemX*m=(MemX*)in.x; if (p.s && m->l.size()==1){ Val o; if (!X.isPoly(p.s)&&symLoad(p,m->l[0],o)){ REG[fr.base+in.dst]=o; break; } } uint64_t a=addrOf(p); for (size_t i=0;i<m->l.size();i++) REG[fr.base+in.dst+i]=loadLeaf(a+m->l[i].off,m->l[i]); break; }
        case I_STORE: { Val p=R_(fr,in.a); MemX*m=(MemX*)in.x; uint64_t a=addrOf(p); for (size_t i=0;i<m->l.size();i++) storeLeaf(a+m->l[i].off,m->l[i],R_(fr,in.b>=0?in.b+(int)i:in.b-(int)i)); break; }
        case I_GEP: { GepX*g=(GepX*)in.x; Val p=R_(fr,in.a); p.c+=in.imm; if (p.s){ needBV(p); if (p.s) p.s=X.bin(Op::ADD,64,p.s,X.bv(in.imm,64)); }
            for (auto&ix:g->idx){ Val i=R_(fr,ix.first); needBV(i); if (!i.s&&!p.s) p.c+=(uint64_t)Ctx::sx(i.c,ix.second.second)*ix.second.first; else { E ie= i.s? X.ext(Op::SEXT,toE(i,ix.second.second),64) : X.bv((uint64_t)Ctx::sx(i.c,ix.second.second),64); E pe= p.s? p.s : X.bv(p.c,64); p.s=X.bin(Op::ADD,64,pe,X.bin(Op::MUL,64,ie,X.bv(ix.second.first,64))); simp(p); } }
            REG[fr.base+in.dst]=p; break; }
        case I_ALLOCA: { Val n=R_(fr,in.a); uint64_t k=conc(n); REG[fr.base+in.dst]=Val{salloc(std::max<uint64_t>(1,in.imm*k),in.b),0}; break; }
        case I_BR: takeEdge(fr,((BrX*)in.x)->t); break;
        case I_CBR: { Val c=R_(fr,in.a); bool t=isTrue(c); BrX*b=(BrX*)in.x; takeEdge(FR.back(),t?b->t:b->f); break; }
        case I_SWITCH: { Val v=R_(fr,in.a); SwX*s=(SwX*)in.x; needBV(v); Edge*e=&s->def;
            if (!v.s){ for (auto&c:s->cs) if (c.first==v.c){ e=&c.second; break; } }
            else { // prefer the case of the current model first so that every feasible case is forked once
                for (auto&c:s->cs) if (decide(X.cmp(Op::EQ,toE(v,in.w),X.bv(c.first,in.w)))){ e=&c.second; break; } }
            takeEdge(FR.back(),*e); break; }
        case I_RET: { Val t[16]; size_t n=in.imm; if (n>16) throw Unsupported{"large aggregate return"}; for (size_t i=0;i<n;i++) t[i]=R_(fr,in.a>=0?in.a+(int)i:in.a-(int)i); int rd=fr.retDst; CallInfo*ci=fr.ci; popFrame(); if (FR.size()>baseDepth||ci){ if (!FR.empty()){ Frame&p=FR.back(); if (ci){ if (rd>=0) for (size_t i=0;i<n;i++) REG[p.base+rd+i]=t[i]; if (ci->invoke) takeEdge(p,ci->normal); } } } break; }
        case I_CALL: doCall(fr,in); break;
        case I_INTR: intrinsic(fr,in); break;
        case I_SELECT: { Val c=R_(fr,in.a); if (in.imm==1){ Val a=R_(fr,in.b),b=R_(fr,in.c); Val r=selectV(c,a,b,in.w,in.w2); REG[fr.base+in.dst]=r; } else { bool t=isTrue(c); int o=t?in.b:in.c; for (uint64_t i=0;i<in.imm;i++) REG[fr.base+in.dst+i]=R_(fr,o>=0?o+(int)i:o-(int)i); } break; }
        case I_INSERTV: { size_t k=(uintptr_t)in.x; std::vector<Val> t; for (uint64_t i=0;i<in.imm;i++) t.push_back(R_(fr,in.a>=0?in.a+(int)i:in.a-(int)i)); for (size_t i=0;i<k;i++) t[in.c+i]=R_(fr,in.b>=0?in.b+(int)i:in.b-(int)i); for (uint64_t i=0;i<in.imm;i++) REG[fr.base+in.dst+i]=t[i]; break; }
        case I_EXTE: { Val i=R_(fr,in.b); uint64_t k=conc(i); REG[fr.base+in.dst]=R_(fr,in.a>=0?in.a+(int)k:in.a-(int)k); break; }
        case I_INSE: { Val i=R_(fr,in.c); uint64_t k=conc(i); std::vector<Val> t; for (uint64_t j=0;j<in.imm;j++) t.push_back(R_(fr,in.a>=0?in.a+(int)j:in.a-(int)j)); t[k]=R_(fr,in.b); for (uint64_t j=0;j<in.imm;j++) REG[fr.base+in.dst+j]=t[j]; break; }
        case I_SHUF: { ShX*s=(ShX*)in.x; std::vector<Val> t; for (int o:s->ops) t.push_back(R_(fr,o)); for (size_t i=0;i<t.size();i++) REG[fr.base+in.dst+i]=t[i]; break; }
        case I_UNREACH: violation("unreachable","unreachable code reached");
        case I_RESUME: { uint64_t o=R_(fr,in.a).c; unwind(o,excType[o],true); break; }
        case I_RMW: { Val p=R_(fr,in.a); uint64_t a=addrOf(p); MemX*m=(MemX*)in.x; Val old=loadLeaf(a,m->l[0]); Val v=R_(fr,in.b),nv; switch(in.imm){ case AtomicRMWInst::Xchg:nv=v;break; case AtomicRMWInst::Add:nv=ibin(Instruction::Add,in.w,old,v);break; case AtomicRMWInst::Sub:nv=ibin(Instruction::Sub,in.w,old,v);break; case AtomicRMWInst::And:nv=ibin(Instruction::And,in.w,old,v);break; case AtomicRMWInst::Or:nv=ibin(Instruction::Or,in.w,old,v);break; default: throw Unsupported{"atomicrmw"}; } storeLeaf(a,m->l[0],nv); REG[fr.base+in.dst]=old; break; }
        case I_CMPXCHG: { Val p=R_(fr,in.a); uint64_t a=addrOf(p); MemX*m=(MemX*)in.x; Val old=loadLeaf(a,m->l[0]); Val e=R_(fr,in.b); conc(old); conc(e); bool ok=old.c==e.c; if (ok) storeLeaf(a,m->l[0],R_(fr,in.c)); REG[fr.base+in.dst]=old; REG[fr.base+in.dst+1]=Val{ok,0}; break; }
        case I_LPAD: throw Unsupported{"fell into landing pad"};
        default: throw Unsupported{"decoded op"};
        }
    }
    baseDepth=saveBase;
}
static void segv(int sig){ static bool in=false; if (!in){ in=true; try { modelExtend(); recordViolation("memory","invalid memory access (signal "+std::to_string(sig)+")",P.model); writeRecord(ST_VIOLATION,"signal"); reap(); } catch(...){} } _exit(99); }
// run a case; the process (and every forked path) ends here
[[noreturn]] static void runCase(Function*F, const std::string&nm, long k){
    CASE=nm; CASEK=k; caseStart=now(); int status=ST_OK; std::string msg;
    try { Fun*f=funOf(F); std::vector<Val> a; if (k>=0) a.push_back(Val{(uint64_t)k,0}); 
        run(f,a); flushClose(); if (violsOnPath) status=ST_VIOLATION; }
    catch (PathEnd&e){ status=e.status; msg=e.msg; }
    catch (Unsupported&e){ status=ST_UNSUPPORTED; msg=e.what+"\n"+stackTrace(); }
    catch (Blowup&e){ status=ST_BLOWUP; msg=std::string(e.what)+"\n"+stackTrace(); }
    catch (GuestThrow&g){ status=ST_VIOLATION; msg="uncaught exception "+excDescribe(g.obj,g.ti); try { modelExtend(); recordViolation("exception",msg,P.model);} catch(...){} }
    catch (std::bad_alloc&){ status=ST_LIMIT; msg="memory"; }
    catch (std::exception&e){ status=ST_UNSUPPORTED; msg=std::string("engine: ")+e.what(); }
    if (status!=ST_INFEASIBLE) try { flushClose(); } catch(...){}
    if (childMode && holdSlot){ sem_post(&SH->slots); }
    if (status!=ST_INFEASIBLE||CN.checks||violsOnPath) writeRecord(status,msg); else writeRecord(status,msg);
    reap(); fflush(nullptr); _exit(0);
}
int main(int argc, char**argv){
    std::vector<std::string> files; std::string cases=".*"; int jobs=8; double tmo=600; bool list=false;
    for (int i=1;i<argc;i++){ std::string a=argv[i]; if (a=="--out") OUT=argv[++i]; else if (a=="--cases") cases=argv[++i]; else if (a=="--jobs") jobs=atoi(argv[++i]); else if (a=="--timeout") tmo=atof(argv[++i]); else if (a=="--list") list=true; else if (a=="--maxforks") MAXFORKS=strtoull(argv[++i],0,10); else if (a=="--maxterms") X.maxTerms=strtoull(argv[++i],0,10); else if (a=="--verbose") VERB=true; else if (a=="--rlimit") RLIMIT=strtoul(argv[++i],0,10); else files.push_back(a); }
    LLVMContext C; SMDiagnostic D; std::unique_ptr<Module> mod;
    for (auto&f:files){ auto m=parseIRFile(f,D,C); if (!m){ D.print("engine",errs()); return 3; } if (!mod) mod=std::move(m); else if (Linker::linkModules(*mod,std::move(m))){ fprintf(stderr,"link failure %s\n",f.c_str()); return 3; } }
    if (!mod) return 3; M=mod.get(); DL=&M->getDataLayout();
    SH=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); sem_init(&SH->slots,1,jobs>1?jobs:1);
    void*ar=mmap((void*)ABASE,ASIZE,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0); if (ar==MAP_FAILED){ perror("mmap"); return 3; }
    POIS=(uint8_t*)mmap(0,ASIZE/8+16,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
    // everything is inaccessible until allocated; pages of the bitmap are materialised lazily, so invert lazily per region
    SP=(SymPage**)mmap(0,(ASIZE>>12)*8,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
    memset(POIS,0xff,(STKSZ+(512ull<<20))/8);
    fnRegion=(uint64_t)mmap(0,16<<20,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); fnNext=fnRegion+16;
    REG.resize(2000000);
    struct Case { Function*F; std::string nm; long k; }; std::vector<Case> cs; std::regex re(cases);
    for (auto&F:*M){ if (F.isDeclaration()) continue; std::string n=F.getName().str(); if (n.compare(0,7,"vfcase_")==0){ std::string s=n.substr(7); if (std::regex_search(s,re)) cs.push_back({&F,s,-1}); }
        else if (n.compare(0,8,"vfcaseN_")==0){ size_t u=n.find('_',8); int N=atoi(n.substr(8,u-8).c_str()); std::string s=n.substr(u+1); for (int k=0;k<N;k++) if (std::regex_search(s+"#"+std::to_string(k),re)) cs.push_back({&F,s,k}); } }
    if (list){ for (auto&c:cs) printf("%s %ld\n",c.nm.c_str(),c.k); return 0; }
    if (OUT.empty()){ fprintf(stderr,"--out required\n"); return 3; }
    struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=segv; sigaction(SIGSEGV,&sa,0); sigaction(SIGBUS,&sa,0); sigaction(SIGFPE,&sa,0);
    SH->deadline=now()+tmo; engineReady=true;
    // scalarise whatever vector code the front end produced
    try {
        // static initialisers of the program under analysis
        CASE="<init>"; if (auto*gv=M->getNamedGlobal("llvm.global_ctors")) if (auto*ca=dyn_cast<ConstantArray>(gv->getInitializer())) { std::vector<std::pair<uint64_t,Function*>> v; for (auto&o:ca->operands()){ auto*st=cast<ConstantStruct>(o); if (auto*F=dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(),F}); } std::stable_sort(v.begin(),v.end(),[](auto&a,auto&b){return a.first<b.first;}); for (auto&p:v) run(funOf(p.second),{}); }
    } catch (Unsupported&u){ fprintf(stderr,"init: unsupported %s\n%s\n",u.what.c_str(),stackTrace().c_str()); return 3; } catch (PathEnd&e){ fprintf(stderr,"init: %s\n%s",e.msg.c_str(),stackTrace().c_str()); return 3; } catch (GuestThrow&g){ fprintf(stderr,"init: exception %s\n",excDescribe(g.obj,g.ti).c_str()); return 3; }
    CN=Counters();
    std::vector<std::pair<pid_t,size_t>> live; size_t next=0; std::map<pid_t,size_t> who;
    while(next<cs.size()||!who.empty()){
        if (next<cs.size()){ if (sem_trywait(&SH->slots)==0){ pid_t p=fork(); if (p==0){ holdSlot=true; childMode=true; runCase(cs[next].F,cs[next].nm,cs[next].k); } if (p>0) who[p]=next; next++; continue; } }
        int st; pid_t p=waitpid(-1,&st,next<cs.size()?WNOHANG:0); if (p>0){ if (WIFSIGNALED(st)){ sem_post(&SH->slots); CASE=cs[who[p]].nm; CASEK=cs[who[p]].k; writeRecord(ST_CRASH,"case process died from signal "+std::to_string(WTERMSIG(st))); } who.erase(p); } else if (p==0) usleep(2000); else break;
    }
    return 0;
}
