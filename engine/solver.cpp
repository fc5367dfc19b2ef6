#include <unistd.h>
#include "solver.h"
#include <z3++.h>
#include <chrono>
#include <random>
#include <sstream>
SolverStats SS; PathState P; unsigned long RLIMIT=20000000;
static z3::context* Z=nullptr;
static z3::context& ctx(){ if (!Z){ Z=new z3::context(); } return *Z; }
void modelExtend(){
    while (P.model.re.size()<X.vars.size()){ size_t i=P.model.re.size(); auto&v=X.vars[i]; mpq_class r=0; uint64_t b=0;
        if (v.real){ // a generic interior point, different for every variable
            double t=0.5+0.37*std::sin(1.0+2.39996*(double)i); double x=v.lo+(v.hi-v.lo)*t; x=std::round(x*4096)/4096; if (x<v.lo) x=v.lo; if (x>v.hi) x=v.hi; r=q_of(x); }
        else b=(uint64_t)v.ilo;
        P.model.re.push_back(r); P.model.iv.push_back(b); }
}
// ---------------------------------------------------------------- evaluation
static mpq_class evalAtom(uint32_t a, const Model&m, bool&exact){
    const Atom t=X.atoms[a];
    switch(t.k){
    case AK::VAR: return m.re[t.a];
    case AK::INV: { mpq_class d=evalPoly(X.polys[t.a],m,exact); if (sgn(d)==0){ exact=false; return 0; } return 1/d; }
    case AK::SQRT: { mpq_class d=evalPoly(X.polys[t.a],m,exact); exact=false; double x=d.get_d(); return q_of(std::sqrt(x<0?0:x)); }
    default: { exact=false; double x=evalPoly(X.polys[t.a],m,exact).get_d(), r=0; double y= t.fn==F_POW2||t.fn==F_ATAN2? evalPoly(X.polys[t.b],m,exact).get_d():0;
        switch(t.fn){ case F_EXP:r=exp(x);break; case F_LOG:r=log(x);break; case F_SIN:r=sin(x);break; case F_COS:r=cos(x);break; case F_POW:r=pow(x,t.par);break; case F_ASIN:r=asin(x);break; case F_ACOS:r=acos(x);break; case F_ATAN:r=atan(x);break; case F_SINH:r=sinh(x);break; case F_COSH:r=cosh(x);break; case F_ERF:r=erf(x);break; case F_POW2:r=pow(x,y);break; case F_ATAN2:r=atan2(x,y);break; }
        if (!std::isfinite(r)) r=0; return q_of(r); } }
}
mpq_class evalPoly(const Poly&p, const Model&m, bool&exact){
    mpq_class s=0; std::unordered_map<uint32_t,mpq_class> cache;
    for (auto&t:p){ mpq_class x=t.c; for (auto&f:X.monos[t.m].f){ auto it=cache.find(f.first); if (it==cache.end()) it=cache.emplace(f.first,evalAtom(f.first,m,exact)).first; for (unsigned i=0;i<f.second;i++) x*=it->second; } s+=x; }
    return s;
}
uint64_t evalBV(E e, const Model&m, bool&exact){
    Node n=X.nodes[e];
    switch(n.op){
    case Op::CONST: return n.k;
    case Op::VAR: return Ctx::mask(m.iv[n.k],n.w);
    case Op::ZEXT: return evalBV(n.a,m,exact);
    case Op::SEXT: return Ctx::mask((uint64_t)Ctx::sx(evalBV(n.a,m,exact),X.nodes[n.a].w),n.w);
    case Op::EXTRACT: return Ctx::mask(evalBV(n.a,m,exact)>>n.k,n.w);
    case Op::CONCAT: return (evalBV(n.a,m,exact)<<X.nodes[n.b].w)|evalBV(n.b,m,exact);
    case Op::ITE: return evalBV(n.a,m,exact)? evalBV(n.b,m,exact):evalBV(n.c,m,exact);
    case Op::RLT: case Op::RLE: case Op::REQ: { mpq_class v=evalPoly(X.polyOf(n.a),m,exact); int s=sgn(v); return n.op==Op::RLT? s<0 : n.op==Op::RLE? s<=0 : s==0; }
    case Op::POLY: exact=false; return 0;
    default: { bool ok; uint8_t w= (n.op==Op::EQ||n.op==Op::ULT||n.op==Op::ULE||n.op==Op::SLT||n.op==Op::SLE)? X.nodes[n.a].w : n.w;
        uint64_t r=Ctx::fold(n.op,w,evalBV(n.a,m,exact),evalBV(n.b,m,exact),ok); if (!ok) exact=false; return r; } }
}
int evalBool(E e, const Model&m){ bool ex=true; uint64_t v=evalBV(e,m,ex); if (!ex) return v? 2:-1; return v?1:0; }  // 2: probably true, -1: probably false
// ---------------------------------------------------------------- intervals
struct Iv { mpq_class lo,hi; bool fl,fh; };   // finite flags
static Iv ivAtom(uint32_t a);
static Iv ivMul(const Iv&x,const Iv&y){ Iv r; if (x.fl&&x.fh&&y.fl&&y.fh){ mpq_class c[4]={x.lo*y.lo,x.lo*y.hi,x.hi*y.lo,x.hi*y.hi}; r.lo=*std::min_element(c,c+4); r.hi=*std::max_element(c,c+4); r.fl=r.fh=true; return r; }
    bool xp=x.fl&&sgn(x.lo)>=0, yp=y.fl&&sgn(y.lo)>=0; r.fl=r.fh=false; r.lo=r.hi=0; if (xp&&yp){ r.fl=true; r.lo=x.lo*y.lo; if (x.fh&&y.fh){ r.fh=true; r.hi=x.hi*y.hi; } } return r; }
static Iv ivPow(const Iv&x, unsigned e){ if (e==1) return x; if (x.fl&&x.fh){ mpq_class a=1,b=1; for(unsigned i=0;i<e;i++){a*=x.lo;b*=x.hi;} Iv r; r.fl=r.fh=true; if (e%2==0){ r.hi=std::max(a,b); r.lo= (sgn(x.lo)<=0&&sgn(x.hi)>=0)? mpq_class(0): std::min(a,b);} else { r.lo=a;r.hi=b; } return r; }
    Iv r=x; for (unsigned i=1;i<e;i++) r=ivMul(r,x); if (e%2==0 && !r.fl){ r.fl=true; r.lo=0; } return r; }
static Iv ivMono(Mono m){ Iv r{1,1,true,true}; auto f=X.monos[m].f; for (auto&p:f) r=ivMul(r,ivPow(ivAtom(p.first),p.second)); return r; }
static Iv ivPoly(const Poly&p){ Iv s{0,0,true,true}; for (auto&t:p){ Iv m=ivMono(t.m); if (sgn(t.c)>=0){ if (m.fl) s.lo+=t.c*m.lo; else s.fl=false; if (m.fh) s.hi+=t.c*m.hi; else s.fh=false; } else { if (m.fh) s.lo+=t.c*m.hi; else s.fl=false; if (m.fl) s.hi+=t.c*m.lo; else s.fh=false; } } return s; }
static mpq_class dn(double d){ return std::isfinite(d)? q_of(d-std::fabs(d)*1e-12-1e-300):mpq_class(0); } static mpq_class up(double d){ return std::isfinite(d)? q_of(d+std::fabs(d)*1e-12+1e-300):mpq_class(0); }
static Iv ivAtom(uint32_t a){
    const Atom t=X.atoms[a]; Iv r{0,0,false,false};
    switch(t.k){
    case AK::VAR: { auto&v=X.vars[t.a]; r.lo=q_of(v.lo); r.hi=q_of(v.hi); r.fl=r.fh=true; return r; }
    case AK::INV: { Iv p=ivPoly(X.polys[t.a]); if (p.fl&&sgn(p.lo)>0){ r.fl=true; r.lo= p.fh? mpq_class(1/p.hi):mpq_class(0); r.fh=true; r.hi=1/p.lo; } else if (p.fh&&sgn(p.hi)<0){ r.fh=true; r.hi= p.fl? mpq_class(1/p.lo):mpq_class(0); r.fl=true; r.lo=1/p.hi; } return r; }
    case AK::SQRT: { Iv p=ivPoly(X.polys[t.a]); r.fl=true; r.lo= p.fl&&sgn(p.lo)>0? dn(std::sqrt(p.lo.get_d())):mpq_class(0); if (p.fh){ r.fh=true; r.hi= sgn(p.hi)>0? up(std::sqrt(p.hi.get_d())):mpq_class(0);} return r; }
    default: { Iv p=ivPoly(X.polys[t.a]); auto mono=[&](double(*f)(double)){ if (p.fl){ double d=f(p.lo.get_d()); if (std::isfinite(d)){ r.fl=true; r.lo=dn(d);} } if (p.fh){ double d=f(p.hi.get_d()); if (std::isfinite(d)){ r.fh=true; r.hi=up(d);} } };
        switch(t.fn){ case F_EXP: mono(exp); if (!r.fl){ r.fl=true; r.lo=0; } break; case F_LOG: mono(log); break; case F_SIN: case F_COS: case F_ERF: r={-1,1,true,true}; break; case F_SINH: mono(sinh); break; case F_COSH: r.fl=true; r.lo=1; if (p.fl&&p.fh){ r.fh=true; r.hi=up(std::max(cosh(p.lo.get_d()),cosh(p.hi.get_d()))); } break;
            case F_ASIN: case F_ACOS: case F_ATAN: case F_ATAN2: r={-4,4,true,true}; break;
            case F_POW: if (p.fl&&sgn(p.lo)>=0){ double a1=pow(p.lo.get_d(),t.par); if (t.par>0){ r.fl=true; r.lo=dn(a1); if (sgn(r.lo)<0) r.lo=0; if (p.fh){ r.fh=true; r.hi=up(pow(p.hi.get_d(),t.par)); } } else { if (std::isfinite(a1)){ r.fh=true; r.hi=up(a1);} r.fl=true; r.lo=0; } } break;
            case F_POW2: { Iv q=ivPoly(X.polys[t.b]); r.fl=true; r.lo=0; if (p.fl&&p.fh&&q.fl&&q.fh&&sgn(p.lo)>0){ double c[4]={pow(p.lo.get_d(),q.lo.get_d()),pow(p.lo.get_d(),q.hi.get_d()),pow(p.hi.get_d(),q.lo.get_d()),pow(p.hi.get_d(),q.hi.get_d())}; double mx=*std::max_element(c,c+4); if (std::isfinite(mx)){ r.fh=true; r.hi=up(mx*2);} } break; }
            default: break; }
        return r; } }
}
void interval(const Poly&p, mpq_class&lo, mpq_class&hi, bool&fin){ Iv v=ivPoly(p); lo=v.lo; hi=v.hi; fin=v.fl&&v.fh; }
// ---------------------------------------------------------------- z3 translation
struct Tr {
    bool abstr; z3::context& c; std::unordered_map<E,z3::expr> memo; std::unordered_map<uint32_t,z3::expr> am; std::unordered_map<Mono,z3::expr> mm;
    std::vector<z3::expr> side; bool nonlinear=false, hasFn=false, hasBV=false; std::set<uint32_t> usedVars;
    Tr(bool a): abstr(a), c(ctx()) {}
    z3::expr num(const mpq_class&q){ return c.real_val(q.get_str().c_str()); }
    void bounds(const z3::expr&e, const Iv&iv){ if (iv.fl) side.push_back(e>=num(iv.lo)); if (iv.fh) side.push_back(e<=num(iv.hi)); }
    z3::expr atomE(uint32_t a){
        auto it=am.find(a); if (it!=am.end()) return it->second; const Atom t=X.atoms[a];
        z3::expr v=c.real_const(("a"+std::to_string(a)).c_str()); am.emplace(a,v);
        if (t.k==AK::VAR){ usedVars.insert(t.a); bounds(v,ivAtom(a)); }
        else { bounds(v,ivAtom(a));
            if (t.k==AK::SQRT||t.k==AK::INV){ if (!abstr){ z3::expr p=poly(X.polys[t.a]); nonlinear=true; if (t.k==AK::SQRT) side.push_back(v*v==p); else side.push_back(v*p==c.real_val(1)); } else { Mono m2=X.mono({{a,2}}); (void)m2; } }
            else hasFn=true; }
        return v; }
    z3::expr monoE(Mono m){
        auto it=mm.find(m); if (it!=mm.end()) return it->second; auto f=X.monos[m].f;
        if (f.size()==1&&f[0].second==1){ z3::expr e=atomE(f[0].first); mm.emplace(m,e); return e; }
        nonlinear=true;
        if (abstr){ z3::expr v=c.real_const(("m"+std::to_string(m)).c_str()); bounds(v,ivMono(m)); mm.emplace(m,v); for (auto&p:f) atomE(p.first); return v; }
        z3::expr r=atomE(f[0].first); bool first=true; for (auto&p:f) for (unsigned i=0;i<p.second;i++){ if (first){ first=false; continue;} r=r*atomE(p.first); }
        mm.emplace(m,r); return r; }
    z3::expr poly(const Poly&p){ if (p.empty()) return c.real_val(0); z3::expr_vector v(c); for (auto&t:p){ if (t.m==0) v.push_back(num(t.c)); else if (t.c==1) v.push_back(monoE(t.m)); else v.push_back(num(t.c)*monoE(t.m)); } return v.size()==1? v[0] : z3::sum(v); }
    z3::expr b2bv(z3::expr b){ return z3::ite(b,c.bv_val(1,1),c.bv_val(0,1)); }
    z3::expr tbool(E e){   // width-1 term as Bool
        auto it=memo.find(e|0x80000000u); if (it!=memo.end()) return it->second; Node n=X.nodes[e]; z3::expr r(c);
        switch(n.op){
        case Op::CONST: r=c.bool_val(n.k!=0); break;
        case Op::EQ: if (X.nodes[n.a].w==1) r=(tbool(n.a)==tbool(n.b)); else r=(bv(n.a)==bv(n.b)); break;
        case Op::ULT: r= X.nodes[n.a].w==1? (!tbool(n.a)&&tbool(n.b)) : z3::ult(bv(n.a),bv(n.b)); break; case Op::ULE: r=z3::ule(bv(n.a),bv(n.b)); break;
        case Op::SLT: r=z3::slt(bv(n.a),bv(n.b)); break; case Op::SLE: r=z3::sle(bv(n.a),bv(n.b)); break;
        case Op::AND: r=tbool(n.a)&&tbool(n.b); break; case Op::OR: r=tbool(n.a)||tbool(n.b); break;
        case Op::XOR: r=(tbool(n.a)!=tbool(n.b)); break; case Op::ITE: r=z3::ite(tbool(n.a),tbool(n.b),tbool(n.c)); break;
        case Op::RLT: r=poly(X.polyOf(n.a))<0; break; case Op::RLE: r=poly(X.polyOf(n.a))<=0; break; case Op::REQ: r=poly(X.polyOf(n.a))==0; break;
        default: r=(bv(e)==c.bv_val(1,1)); }
        memo.emplace(e|0x80000000u,r); return r; }
    z3::expr bv(E e){
        auto it=memo.find(e); if (it!=memo.end()) return it->second; Node n=X.nodes[e]; z3::expr r(c); hasBV=true;
        switch(n.op){
        case Op::CONST: r=c.bv_val((uint64_t)n.k,n.w); break;
        case Op::VAR: { auto&v=X.vars[n.k]; r=c.bv_const(("v"+std::to_string(n.k)).c_str(),n.w); usedVars.insert(n.k);
            side.push_back(z3::sge(r,c.bv_val((int64_t)v.ilo,n.w))); side.push_back(z3::sle(r,c.bv_val((int64_t)v.ihi,n.w))); break; }
        case Op::ADD: r=bv(n.a)+bv(n.b); break; case Op::SUB: r=bv(n.a)-bv(n.b); break; case Op::MUL: r=bv(n.a)*bv(n.b); break;
        case Op::UDIV: r=z3::udiv(bv(n.a),bv(n.b)); break; case Op::SDIV: r=bv(n.a)/bv(n.b); break; case Op::UREM: r=z3::urem(bv(n.a),bv(n.b)); break; case Op::SREM: r=z3::srem(bv(n.a),bv(n.b)); break;
        case Op::SHL: r=z3::shl(bv(n.a),bv(n.b)); break; case Op::LSHR: r=z3::lshr(bv(n.a),bv(n.b)); break; case Op::ASHR: r=z3::ashr(bv(n.a),bv(n.b)); break;
        case Op::AND: if (n.w==1) r=b2bv(tbool(e)); else r=bv(n.a)&bv(n.b); break; case Op::OR: if (n.w==1) r=b2bv(tbool(e)); else r=bv(n.a)|bv(n.b); break; case Op::XOR: if (n.w==1) r=b2bv(tbool(e)); else r=bv(n.a)^bv(n.b); break;
        case Op::ZEXT: r=z3::zext(bv(n.a),n.w-X.nodes[n.a].w); break; case Op::SEXT: r=z3::sext(bv(n.a),n.w-X.nodes[n.a].w); break;
        case Op::EXTRACT: r=bv(n.a).extract(n.k+n.w-1,n.k); break; case Op::CONCAT: r=z3::concat(bv(n.a),bv(n.b)); break;
        case Op::ITE: r=z3::ite(tbool(n.a),bv(n.b),bv(n.c)); break;
        default: r=b2bv(tbool(e)); }
        memo.emplace(e,r); return r; }
};
static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static bool numeral(const z3::expr&e, mpq_class&q){
    if (e.is_numeral()){ std::string s=Z3_get_numeral_string(ctx(),e); q=mpq_class(s); q.canonicalize(); return true; }
    if (e.is_algebraic()){ z3::expr a(ctx(),Z3_get_algebraic_number_lower(ctx(),e,40)); std::string s=Z3_get_numeral_string(ctx(),a); q=mpq_class(s); q.canonicalize(); return true; }
    return false;
}
static void getModel(Tr&t, z3::model&m, Model&out){
    out=P.model; while (out.re.size()<X.vars.size()){ out.re.push_back(0); out.iv.push_back(0); }
    for (uint32_t v:t.usedVars){ auto&vi=X.vars[v];
        if (vi.real){ auto it=t.am.find(vi.atom); if (it==t.am.end()) continue; z3::expr e=m.eval(it->second,true); mpq_class q; if (numeral(e,q)){ // prefer a double
                mpq_class qd=q_of(q.get_d()); (void)qd; out.re[v]=q; } }
        else { auto it=t.memo.find(vi.e); if (it==t.memo.end()) continue; z3::expr e=m.eval(it->second,true); uint64_t u=0; if (e.is_numeral_u64(u)) out.iv[v]=u; } }
}
static std::vector<E> slice(const std::vector<E>&extra){
    std::vector<E> res; std::set<uint32_t> vs; for (E e:extra){ auto&s=X.varsOf(e); vs.insert(s.begin(),s.end()); }
    std::vector<char> used(P.pc.size(),0); bool ch=true;
    while(ch){ ch=false; for (size_t i=0;i<P.pc.size();i++) if (!used[i]){ auto&s=X.varsOf(P.pc[i]); bool hit=false; for (uint32_t v:s) if (vs.count(v)){ hit=true; break; } if (hit){ used[i]=1; ch=true; vs.insert(s.begin(),s.end()); } } }
    for (size_t i=0;i<P.pc.size();i++) if (used[i]) res.push_back(P.pc[i]); return res;
}
static bool satisfies(const std::vector<E>&cs, const Model&m, bool approxOk){ for (E e:cs){ int r=evalBool(e,m); if (r==0||r==-1) return false; if (r==2&&!approxOk) return false; } return true; }
static z3::solver mkSolver(Tr&t, bool nl){
    z3::context&c=ctx(); z3::params p(c); p.set("rlimit",(unsigned)RLIMIT);
    if (nl && !t.hasBV){ z3::solver s=z3::tactic(c,"qfnra-nlsat").mk_solver(); s.set(p); return s; }
    if (t.hasBV && t.am.empty()){ z3::solver s(c,"QF_BV"); s.set(p); return s; }
    z3::solver s(c,z3::solver::simple()); s.set(p); return s;
}
static R runOnce(Tr&t, z3::solver&s, Model*m){
    double t0=now(); SS.queries++; z3::check_result r; try { r=s.check(); } catch (z3::exception&){ r=z3::unknown; } SS.seconds+=now()-t0;
    if (r==z3::unsat){ SS.unsat++; return R::UNSAT; } if (r==z3::unknown){ SS.unknown++; return R::UNKNOWN; }
    SS.sat++; if (m){ z3::model zm=s.get_model(); getModel(t,zm,*m); } return R::SAT;
}
#include <unistd.h>
#include <sys/wait.h>
#include <poll.h>
#include <signal.h>
double NLWALL=6.0;
static R runForked(Tr&t, z3::solver&s, Model*m){
    double t0=now(); SS.queries++; int fd[2]; if (pipe(fd)) return R::UNKNOWN; pid_t c=fork();
    if (c==0){ close(fd[0]); signal(SIGALRM,SIG_DFL); alarm((unsigned)NLWALL+1); Model mm; SolverStats sv=SS; R r=runOnce(t,s,&mm); SS=sv; std::ostringstream o; o<<(int)r<<"\n";
        if (r==R::SAT) for (uint32_t v:t.usedVars){ if (X.vars[v].real) o<<v<<" r "<<mm.re[v].get_str()<<"\n"; else o<<v<<" i "<<mm.iv[v]<<"\n"; } o<<"end\n";
        std::string b=o.str(); size_t off=0; while(off<b.size()){ ssize_t k=write(fd[1],b.data()+off,b.size()-off); if (k<=0) break; off+=k; } _exit(0); }
    close(fd[1]); if (c<0){ close(fd[0]); SS.unknown++; return R::UNKNOWN; }
    std::string buf; bool dead=false; while(now()-t0<NLWALL){ struct pollfd p{fd[0],POLLIN,0}; int k=poll(&p,1,200); if (k>0){ char b[4096]; ssize_t n=read(fd[0],b,4096); if (n<=0){ dead=true; break; } buf.append(b,n); } }
    if (!dead) kill(c,SIGKILL); close(fd[0]); int st; waitpid(c,&st,0); SS.seconds+=now()-t0;
    R r=R::UNKNOWN; if (buf.size()>4 && buf.compare(buf.size()-4,4,"end\n")==0){ std::istringstream in(buf); int k; in>>k; r=(R)k;
        if (r==R::SAT&&m){ *m=P.model; while (m->re.size()<X.vars.size()){ m->re.push_back(0); m->iv.push_back(0);} std::string id,ty,val; while(in>>id&&id!="end"){ in>>ty>>val; size_t v=std::stoul(id); if (ty=="r"){ m->re[v]=mpq_class(val); m->re[v].canonicalize(); } else m->iv[v]=std::stoull(val); } } }
    if (r==R::UNSAT) SS.unsat++; else if (r==R::SAT) SS.sat++; else SS.unknown++; return r;
}
static std::mt19937_64 RNG(12345);
static bool sample(const std::vector<E>&cs, Model&m, int tries){
    std::set<uint32_t> vs; for (E e:cs){ auto&s=X.varsOf(e); vs.insert(s.begin(),s.end()); } Model base=m;
    for (int k=0;k<tries;k++){ Model t=base; for (uint32_t v:vs){ auto&vi=X.vars[v]; if (vi.real){ double u=(RNG()>>11)*0x1p-53; int mode=RNG()%8; double x= mode==0? vi.lo : mode==1? vi.hi : mode==2? (vi.lo<=0&&vi.hi>=0?0:vi.lo) : vi.lo+(vi.hi-vi.lo)*u; if (k%3==0 && (RNG()&1)) continue; t.re[v]=q_of(x); } else { if (RNG()%3==0) continue; uint64_t range=(uint64_t)(vi.ihi-vi.ilo)+1; t.iv[v]=(uint64_t)(vi.ilo+(int64_t)(range? RNG()%range : RNG())); } }
        if (satisfies(cs,t,true)){ m=t; return true; } }
    return false;
}
R query(const std::vector<E>& extra, Model* model, unsigned effort){
    for (E e:extra){ uint64_t v; if (X.isC(e,v)&&!v) return R::UNSAT; }
    std::vector<E> cs=slice(extra); cs.insert(cs.end(),extra.begin(),extra.end()); modelExtend();
    bool nonlin=false;
    { Tr t(true); z3::expr_vector ev(ctx()); for (E e:cs) ev.push_back(t.tbool(e)); nonlin=t.nonlinear||t.hasFn; SS.abstr++;
      z3::solver s=mkSolver(t,false); for (unsigned i=0;i<ev.size();i++) s.add(ev[i]); for (auto&x:t.side) s.add(x);
      Model mm; R r=runOnce(t,s,&mm);
      if (r==R::UNSAT) return r;
      if (r==R::SAT && satisfies(cs,mm,true)){ if (model) *model=mm; return R::SAT; }
      if (r==R::SAT && !nonlin){ // linear and sat, but evaluation imprecise
          if (model) *model=mm; return R::SAT; }
    }
    { Model mm=P.model; if (sample(cs,mm,effort*60)){ if (model) *model=mm; return R::SAT; } }
    { Tr t(false); z3::expr_vector ev(ctx()); size_t sz=0; for (E e:cs) ev.push_back(t.tbool(e)); (void)sz; SS.exact++;
      z3::solver s=mkSolver(t,t.nonlinear); for (unsigned i=0;i<ev.size();i++) s.add(ev[i]); for (auto&x:t.side) s.add(x);
      Model mm; R r= t.nonlinear? runForked(t,s,&mm) : runOnce(t,s,&mm); if (r==R::UNSAT) return r; if (r==R::SAT && (t.hasFn? satisfies(cs,mm,true):true)){ if (model) *model=mm; return R::SAT; }
    }
    return R::UNKNOWN;
}
bool allWithin(const std::vector<const Poly*>&ps, const std::vector<mpq_class>&bs, std::vector<char>&proved){
    Tr t(true); z3::context&c=ctx(); std::set<uint32_t> vs; std::vector<z3::expr> up,dn; std::vector<size_t> id; proved.assign(ps.size(),0); std::vector<E> all; double t0=now();
    std::unordered_map<Mono,mpq_class> mag; bool ok=true;
    for (size_t i=0;i<ps.size();i++){ // quantum: bound * 2^-40
        const Poly&p=*ps[i]; double bd=bs[i].get_d(); int ex; frexp(bd,&ex); mpq_class inv=1; int sh=40-ex; if (sh>0) mpq_mul_2exp(inv.get_mpq_t(),inv.get_mpq_t(),sh); else mpq_div_2exp(inv.get_mpq_t(),inv.get_mpq_t(),-sh);
        mpq_class slack=0; z3::expr_vector v(c); bool good=true;
        for (auto&tm:p){ mpq_class x=tm.c*inv; mpz_class k; mpz_fdiv_q(k.get_mpz_t(),x.get_num_mpz_t(),x.get_den_mpz_t()); mpq_class r=x-k;
            mpq_class M=1; if (tm.m){ auto it=mag.find(tm.m); if (it==mag.end()){ Iv iv=ivMono(tm.m); if (!iv.fl||!iv.fh){ good=false; break; } mpq_class a=abs(iv.lo),b=abs(iv.hi); it=mag.emplace(tm.m,a>b?a:b).first; } M=it->second; }
            slack+=r*M; if (sgn(k)==0) continue; z3::expr num=c.real_val(k.get_str().c_str()); if (tm.m==0) v.push_back(num); else v.push_back(num*t.monoE(tm.m)); }
        if (!good){ ok=false; continue; } mpq_class b=bs[i]*inv-slack; if (sgn(b)<=0){ ok=false; continue; } mpz_class bf; mpz_fdiv_q(bf.get_mpz_t(),b.get_num_mpz_t(),b.get_den_mpz_t()); z3::expr B=c.real_val(bf.get_str().c_str()), S= v.empty()? c.real_val(0) : v.size()==1? v[0] : z3::sum(v);
        up.push_back(S>B); dn.push_back(S<-B); id.push_back(i); }
    for (uint32_t a: t.usedVars) vs.insert(a);
    // path condition restricted to the variables involved
    std::vector<char> used(P.pc.size(),0); bool ch=true; while(ch){ ch=false; for (size_t i=0;i<P.pc.size();i++) if (!used[i]){ auto&s=X.varsOf(P.pc[i]); bool hit=false; for (uint32_t v:s) if (vs.count(v)){ hit=true; break; } if (hit){ used[i]=1; ch=true; vs.insert(s.begin(),s.end()); } } }
    z3::solver s(c,z3::solver::simple()); z3::params p(c); p.set("rlimit",(unsigned)RLIMIT); s.set(p); for (size_t i=0;i<P.pc.size();i++) if (used[i]) s.add(t.tbool(P.pc[i])); for (auto&x:t.side) s.add(x);
    for (size_t k=0;k<id.size();k++){ bool u=true; for (int w=0;w<2&&u;w++){ s.push(); s.add(w?dn[k]:up[k]); SS.queries++; z3::check_result r; try { r=s.check(); } catch (z3::exception&){ r=z3::unknown; } s.pop(); if (r==z3::unsat) SS.unsat++; else { u=false; if (r==z3::sat) SS.sat++; else SS.unknown++; } } if (u) proved[id[k]]=1; else ok=false; }
    SS.seconds+=now()-t0; return ok;
}
bool polyLowerBoundAbs(uint32_t pid, mpq_class&L){
    const Poly p=X.polys[pid]; 
    for (double l : {4.0,1.0,0.25,0.0625,0.015625,1.0/256,1.0/1024,1.0/16384,1.0/1048576}){
        E a=X.rcmp(Op::RLT,X.padd(p,X.pconst(q_of(l)),-1)), b=X.rcmp(Op::RLT,X.padd(X.pscale(p,mpq_class(-1)),X.pconst(q_of(l)),-1));
        E both=X.bin(Op::AND,1,a,b); uint64_t v; if (X.isC(both,v)){ if (!v){ L=q_of(l); return true; } continue; }
        std::vector<E> cs=slice({both}); cs.push_back(both); Tr t(true); z3::expr_vector ev(ctx()); for (E e:cs) ev.push_back(t.tbool(e));
        z3::solver s=mkSolver(t,false); for (unsigned i=0;i<ev.size();i++) s.add(ev[i]); for (auto&x:t.side) s.add(x); SS.abstr++;
        if (runOnce(t,s,nullptr)==R::UNSAT){ L=q_of(l); return true; } }
    // interval
    Iv v=ivPoly(p); if (v.fl&&sgn(v.lo)>0){ L=v.lo; return true; } if (v.fh&&sgn(v.hi)<0){ L=-v.hi; return true; }
    return false;
}
R queryAbsGreater(const Poly&p, const mpq_class&b, Model*model){
    E a=X.rcmp(Op::RLT,X.padd(X.pconst(b),p,-1)), c=X.rcmp(Op::RLT,X.padd(X.pconst(b),p,1));   // b-p<0 or b+p<0
    E o=X.bin(Op::OR,1,a,c); uint64_t v; if (X.isC(o,v)){ if (!v) return R::UNSAT; if (model) *model=P.model; return R::SAT; }
    return query({o},model,4);
}
std::string dumpSMT(const std::vector<E>& extra){
    std::vector<E> cs=slice(extra); cs.insert(cs.end(),extra.begin(),extra.end()); Tr t(false); z3::solver s(ctx()); for (E e:cs) s.add(t.tbool(e)); for (auto&x:t.side) s.add(x); return s.to_smt2();
}
