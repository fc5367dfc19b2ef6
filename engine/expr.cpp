#include "expr.h"
#include <sstream>
Ctx X;
Ctx::Ctx(){ nodes.push_back({Op::NONE,0,0,0,0,0}); rng.push_back({0,~0ull}); monos.push_back({}); monoCons[{}]=0; atoms.reserve(256); }

E Ctx::mk(Op op, uint8_t w, E a, E b, E c, uint64_t k){
    NK key{op,w,a,b,c,k}; auto it=cons.find(key); if (it!=cons.end()) return it->second;
    nodes.push_back({op,w,a,b,c,k}); rng.push_back(range(nodes.back())); E id=nodes.size()-1; cons.emplace(key,id); return id;
}
std::pair<uint64_t,uint64_t> Ctx::range(const Node&n) const {
    uint64_t top=mask(~0ull,n.w); std::pair<uint64_t,uint64_t> full{0,top}; typedef unsigned __int128 W;
    switch(n.op){
    case Op::CONST: return {n.k,n.k};
    case Op::VAR: { auto&v=vars[n.k]; if (!v.real && v.ilo>=0 && (uint64_t)v.ihi<=top) return {(uint64_t)v.ilo,(uint64_t)v.ihi}; return full; }
    case Op::ADD: { auto x=rng[n.a],y=rng[n.b]; if ((W)x.second+y.second<=top) return {x.first+y.first,x.second+y.second}; uint64_t k; // a + (-c)
        if (isC(n.b,k)){ uint64_t c=mask(0-k,n.w); if (c<=x.first) return {x.first-c,x.second-c}; } return full; }
    case Op::SUB: { auto x=rng[n.a],y=rng[n.b]; if (y.second<=x.first) return {x.first-y.second,x.second-y.first}; return full; }
    case Op::MUL: { auto x=rng[n.a],y=rng[n.b]; if ((W)x.second*y.second<=top) return {x.first*y.first,x.second*y.second}; return full; }
    case Op::UDIV: { auto x=rng[n.a],y=rng[n.b]; if (y.first>0) return {x.first/y.second,x.second/y.first}; return full; }
    case Op::UREM: { auto x=rng[n.a],y=rng[n.b]; if (y.first>0) return {0,std::min<uint64_t>(x.second,y.second-1)}; return {0,x.second}; }
    case Op::AND: return {0,std::min<uint64_t>(rng[n.a].second,rng[n.b].second)};
    case Op::OR: case Op::XOR: { unsigned k=bits(rng[n.a].second|rng[n.b].second); return {0,k>=64?~0ull:std::min<uint64_t>(top,(1ull<<k)-1)}; }
    case Op::LSHR: { uint64_t k; if (isC(n.b,k)&&k<64) return {rng[n.a].first>>k,rng[n.a].second>>k}; return {0,rng[n.a].second}; }
    case Op::SHL: { uint64_t k; if (isC(n.b,k)&&k<n.w&&k<64&&((W)rng[n.a].second<<k)<=top) return {rng[n.a].first<<k,rng[n.a].second<<k}; return full; }
    case Op::ZEXT: return rng[n.a];
    case Op::SEXT: { uint8_t iw=nodes[n.a].w; if (rng[n.a].second<(1ull<<(iw-1))) return rng[n.a]; return full; }
    case Op::EXTRACT: if (rng[n.a].second<=top && n.k==0) return rng[n.a]; if (n.k<64) return {0,std::min<uint64_t>(top,rng[n.a].second>>n.k)}; return full;
    case Op::CONCAT: { uint8_t lw=nodes[n.b].w; return {(rng[n.a].first<<lw)|rng[n.b].first,(rng[n.a].second<<lw)|rng[n.b].second}; }
    case Op::ITE: return {std::min<uint64_t>(rng[n.b].first,rng[n.c].first),std::max(rng[n.b].second,rng[n.c].second)};
    default: return full; } }
void Ctx::learn(E c){ Node n=nodes[c]; uint64_t k; if (n.op==Op::EQ && isC(n.b,k)){ E a=n.a; uint8_t w=nodes[a].w; sub[a]=bv(k,w); } }
E Ctx::bv(uint64_t v, uint8_t w){ return mk(Op::CONST,w,0,0,0,mask(v,w)); }
uint64_t Ctx::fold(Op op, uint8_t w, uint64_t a, uint64_t b, bool&ok){
    ok=true; a=mask(a,w); b=mask(b,w);
    switch(op){
    case Op::ADD: return mask(a+b,w); case Op::SUB: return mask(a-b,w); case Op::MUL: return mask(a*b,w);
    case Op::UDIV: if(!b){ok=false;return 0;} return a/b;
    case Op::UREM: if(!b){ok=false;return 0;} return a%b;
    case Op::SDIV: { int64_t x=sx(a,w),y=sx(b,w); if(!y||(y==-1&&x==INT64_MIN)){ok=false;return 0;} return mask((uint64_t)(x/y),w);}
    case Op::SREM: { int64_t x=sx(a,w),y=sx(b,w); if(!y){ok=false;return 0;} if(y==-1) return 0; return mask((uint64_t)(x%y),w);}
    case Op::AND: return a&b; case Op::OR: return a|b; case Op::XOR: return a^b;
    case Op::SHL: return b>=w?0:mask(a<<b,w); case Op::LSHR: return b>=w?0:a>>b;
    case Op::ASHR: return b>=w? mask((uint64_t)(sx(a,w)>>63),w) : mask((uint64_t)(sx(a,w)>>b),w);
    case Op::EQ: return a==b; case Op::ULT: return a<b; case Op::ULE: return a<=b;
    case Op::SLT: return sx(a,w)<sx(b,w); case Op::SLE: return sx(a,w)<=sx(b,w);
    default: ok=false; return 0; }
}
E Ctx::bin(Op op, uint8_t w, E a, E b){
    a=subst(a); b=subst(b);
    uint64_t x,y; bool ca=isC(a,x), cb=isC(b,y);
    if (ca&&cb){ bool ok; uint64_t r=fold(op,w,x,y,ok); if (ok) return bv(r,w); }
    if (ca && !cb && (op==Op::ADD||op==Op::MUL||op==Op::AND||op==Op::OR||op==Op::XOR)){ std::swap(a,b); std::swap(x,y); std::swap(ca,cb); }
    uint64_t ones=mask(~0ull,w);
    if (cb) switch(op){
        case Op::ADD: case Op::SUB: case Op::OR: case Op::XOR: case Op::SHL: case Op::LSHR: case Op::ASHR: if (y==0) return a; break;
        case Op::MUL: if (y==0) return bv(0,w); if (y==1) return a; break;
        case Op::UDIV: case Op::SDIV: if (y==1) return a; break;
        case Op::AND: if (y==0) return bv(0,w); if (y==ones) return a; break;
        default: break; }
    if (cb && op==Op::OR && y==ones) return bv(ones,w);
    if (cb && op==Op::ADD && nodes[a].op==Op::ADD){ uint64_t z; if (isC(nodes[a].b,z)) return bin(Op::ADD,w,nodes[a].a,bv(y+z,w)); }
    if (cb && op==Op::SUB) return bin(Op::ADD,w,a,bv(0-y,w));
    if (a==b) switch(op){ case Op::AND: case Op::OR: return a; case Op::XOR: case Op::SUB: return bv(0,w); default: break; }
    if (w==1 && op==Op::XOR && cb && y==1) return notb(a);
    if (w>1 && w<=64){ uint64_t ha=rng[a].second, hb=rng[b].second, sg=1ull<<(w-1);
        if ((op==Op::SDIV||op==Op::SREM) && ha<sg && hb<sg) return bin(op==Op::SDIV?Op::UDIV:Op::UREM,w,a,b);
        if ((op==Op::UDIV||op==Op::UREM) && rng[b].first>ha) return op==Op::UDIV? bv(0,w) : a;
        if (op==Op::ASHR && ha<sg) return bin(Op::LSHR,w,a,b);
        unsigned k=0; if (op==Op::UDIV||op==Op::UREM) k=bits(ha|hb); else if (op==Op::MUL && (unsigned __int128)ha*hb<=mask(~0ull,w)) k=bits(ha*hb); else if (op==Op::ADD && (unsigned __int128)ha+hb<=mask(~0ull,w)) k=bits(ha+hb); else if (op==Op::SUB && hb<=rng[a].first) k=bits(ha);
        if (k && k+4<=w) return ext(Op::ZEXT,mk(op,k,extract(a,0,k),extract(b,0,k)),w); }
    return mk(op,w,a,b);
}
E Ctx::notb(E a){
    a=subst(a);
    uint64_t x; if (isC(a,x)) return bv(!x,1);
    Node n=nodes[a];
    if (n.op==Op::XOR && n.w==1){ uint64_t y; if (isC(n.b,y)&&y==1) return n.a; }
    if (n.op==Op::RLT) return rcmp(Op::RLE, pscale(polyOf(n.a),mpq_class(-1)));
    if (n.op==Op::RLE) return rcmp(Op::RLT, pscale(polyOf(n.a),mpq_class(-1)));
    return mk(Op::XOR,1,a,bv(1,1));
}
E Ctx::cmp(Op op, E a, E b){
    a=subst(a); b=subst(b);
    uint64_t x,y; bool ca=isC(a,x), cb=isC(b,y); uint8_t w=nodes[a].w;
    if (ca&&cb){ bool ok; uint64_t r=fold(op,w,x,y,ok); return bv(r,1); }
    if (a==b) return bv(op==Op::EQ||op==Op::ULE||op==Op::SLE,1);
    if (op==Op::EQ){
        if (ca){ std::swap(a,b); std::swap(x,y); std::swap(ca,cb); }
        if (w==1 && cb) return y? a : notb(a);
        if (cb && (nodes[a].op==Op::ZEXT||nodes[a].op==Op::SEXT)){
            uint8_t iw=nodes[nodes[a].a].w; bool z=nodes[a].op==Op::ZEXT;
            uint64_t t=mask(y,iw); uint64_t back= z? t : mask((uint64_t)sx(t,iw),w);
            if (back!=y) return bv(0,1);
            return cmp(Op::EQ,nodes[a].a,bv(t,iw));
        }
        if (cb && nodes[a].op==Op::ITE){ Node n=nodes[a]; uint64_t p,q; if (isC(n.b,p)&&isC(n.c,q)){ if (p==y&&q==y) return bv(1,1); if (p==y) return n.a; if (q==y) return notb(n.a); return bv(0,1);} }
        if (cb && nodes[a].op==Op::ADD){ uint64_t z; if (isC(nodes[a].b,z)) return cmp(Op::EQ,nodes[a].a,bv(y-z,w)); }
    }
    if (w>1 && w<=64){ auto ra=rng[a], rb=rng[b]; uint64_t sg=1ull<<(w-1);
        if ((op==Op::SLT||op==Op::SLE) && ra.second<sg && rb.second<sg) op= op==Op::SLT?Op::ULT:Op::ULE;
        if (op==Op::ULT){ if (ra.second<rb.first) return bv(1,1); if (ra.first>=rb.second) return bv(0,1); }
        if (op==Op::ULE){ if (ra.second<=rb.first) return bv(1,1); if (ra.first>rb.second) return bv(0,1); }
        if (op==Op::EQ){ if (ra.second<rb.first||rb.second<ra.first) return bv(0,1); }
        unsigned k=bits(ra.second|rb.second); if ((op==Op::ULT||op==Op::ULE||op==Op::EQ) && k+4<=w){ E xa=extract(a,0,k), xb=extract(b,0,k); if (nodes[xa].w==k && k>1) return cmp(op,xa,xb); } }
    return mk(op,1,a,b);
}
E Ctx::ite(E c, E a, E b){
    c=subst(c); a=subst(a); b=subst(b);
    uint64_t x; if (isC(c,x)) return x?a:b; if (a==b) return a;
    uint64_t p,q; if (nodes[a].w==1 && isC(a,p)&&isC(b,q)) return p? c : notb(c);
    return mk(Op::ITE,nodes[a].w,c,a,b);
}
E Ctx::ext(Op op, E a, uint8_t w){
    a=subst(a);
    uint8_t iw=nodes[a].w; if (iw==w) return a; uint64_t x;
    if (isC(a,x)) return bv(op==Op::ZEXT? x : (uint64_t)sx(x,iw), w);
    if (nodes[a].op==op) return ext(op,nodes[a].a,w);
    if (op==Op::SEXT && nodes[a].op==Op::ZEXT) return ext(Op::ZEXT,nodes[a].a,w);
    return mk(op,w,a);
}
E Ctx::extract(E a, unsigned lo, uint8_t w){
    a=subst(a);
    uint8_t iw=nodes[a].w; if (lo==0&&iw==w) return a; uint64_t x; if (isC(a,x)) return bv(x>>lo,w);
    Node n=nodes[a];
    if ((n.op==Op::ZEXT||n.op==Op::SEXT)){ uint8_t jw=nodes[n.a].w; if (lo+w<=jw) return extract(n.a,lo,w); if (lo==0 && w>jw) return ext(n.op,n.a,w); if (n.op==Op::ZEXT && lo>=jw) return bv(0,w); }
    if (n.op==Op::EXTRACT) return extract(n.a,lo+(unsigned)n.k,w);
    if (n.op==Op::CONCAT){ uint8_t lw=nodes[n.b].w; if (lo+w<=lw) return extract(n.b,lo,w); if (lo>=lw) return extract(n.a,lo-lw,w); }
    if (lo==0 && (n.op==Op::ADD||n.op==Op::SUB||n.op==Op::MUL||n.op==Op::AND||n.op==Op::OR||n.op==Op::XOR)) return bin(n.op,w,extract(n.a,0,w),extract(n.b,0,w));
    if (n.op==Op::ITE) { uint64_t p,q; if (isC(n.b,p)||isC(n.c,q)) return ite(n.a,extract(n.b,lo,w),extract(n.c,lo,w)); }
    return mk(Op::EXTRACT,w,a,0,0,lo);
}
E Ctx::concat(E hi, E lo){
    hi=subst(hi); lo=subst(lo);
    uint64_t x,y; uint8_t w=nodes[hi].w+nodes[lo].w; if (isC(hi,x)&&isC(lo,y)) return bv((x<<nodes[lo].w)|y,w);
    if (isC(hi,x)&&x==0) return ext(Op::ZEXT,lo,w);
    Node h=nodes[hi], l=nodes[lo];
    if (h.op==Op::EXTRACT && l.op==Op::EXTRACT && h.a==l.a && h.k==l.k+l.w) return extract(h.a,(unsigned)l.k,w);
    if (h.op==Op::EXTRACT && h.a==lo && h.k==l.w) return extract(h.a,0,w);
    return mk(Op::CONCAT,w,hi,lo);
}
// ---------------------------------------------------------------- polynomials
Mono Ctx::mono(std::vector<std::pair<uint32_t,uint32_t>> f){
    auto it=monoCons.find(f); if (it!=monoCons.end()) return it->second;
    MonoRec r; for (auto&p:f){ if (atoms[p.first].k==AK::INV) r.hasInv=true;
        if (p.second>=2 && (atoms[p.first].k==AK::SQRT || (atoms[p.first].k==AK::FN && (atoms[p.first].fn==F_SIN||atoms[p.first].fn==F_COSH)))) r.hasSqrt=true; r.deg+=p.second; }
    r.f=f; monos.push_back(r); Mono id=monos.size()-1; monoCons.emplace(std::move(f),id); return id;
}
Mono Ctx::monoMul(Mono a, Mono b){
    if (!a) return b; if (!b) return a; if (a>b) std::swap(a,b);
    uint64_t key=((uint64_t)a<<32)|b; auto it=monoMulC.find(key); if (it!=monoMulC.end()) return it->second;
    std::vector<std::pair<uint32_t,uint32_t>> r; const auto&x=monos[a].f; const auto&y=monos[b].f; size_t i=0,j=0;
    while(i<x.size()||j<y.size()){
        if (j==y.size()||(i<x.size()&&x[i].first<y[j].first)) r.push_back(x[i++]);
        else if (i==x.size()||y[j].first<x[i].first) r.push_back(y[j++]);
        else { r.push_back({x[i].first,x[i].second+y[j].second}); i++;j++; } }
    Mono m=mono(std::move(r)); monoMulC.emplace(key,m); return m;
}
Poly Ctx::padd(const Poly&a, const Poly&b, int sb) const {
    Poly r; r.reserve(a.size()+b.size()); size_t i=0,j=0;
    while(i<a.size()||j<b.size()){
        if (j==b.size()||(i<a.size()&&a[i].m<b[j].m)) r.push_back(a[i++]);
        else if (i==a.size()||b[j].m<a[i].m){ r.push_back(b[j++]); if (sb<0) r.back().c=-r.back().c; }
        else { mpq_class c= sb>0? mpq_class(a[i].c+b[j].c) : mpq_class(a[i].c-b[j].c); if (sgn(c)!=0) r.push_back({a[i].m,c}); i++;j++; } }
    return r;
}
Poly Ctx::pscale(const Poly&a, const mpq_class&c) const { Poly r; if (sgn(c)==0) return r; r=a; for (auto&t:r) t.c*=c; return r; }
static void reduceMono(Ctx&x, const MonoRec&r, const mpq_class&c, std::unordered_map<Mono,mpq_class>&acc);
static void accPoly(Ctx&x, const Poly&p, std::unordered_map<Mono,mpq_class>&acc){ for (auto&t:p) acc[t.m]+=t.c; }
Poly Ctx::pmul(const Poly&a, const Poly&b){
    if (a.empty()||b.empty()) return {};
    if (a.size()==1&&a[0].m==0) return pscale(b,a[0].c);
    if (b.size()==1&&b[0].m==0) return pscale(a,b[0].c);
    if (a.size()*b.size()>40ull*maxTerms) throw Blowup{"polynomial product"};
    std::unordered_map<Mono,mpq_class> acc; acc.reserve(a.size()*2+b.size()*2);
    std::vector<std::pair<Mono,mpq_class>> red;
    for (auto&s:a) for (auto&t:b){ Mono m=monoMul(s.m,t.m); if (monos[m].hasSqrt) red.push_back({m,s.c*t.c}); else { auto &v=acc[m]; v+=s.c*t.c; } if (acc.size()>maxTerms) throw Blowup{"polynomial terms"}; }
    for (auto&pr:red){ MonoRec r=monos[pr.first]; reduceMono(*this,r,pr.second,acc); }
    Poly r; r.reserve(acc.size()); for (auto&kv:acc) if (sgn(kv.second)!=0) r.push_back({kv.first,kv.second});
    std::sort(r.begin(),r.end(),[](const Term&p,const Term&q){return p.m<q.m;}); return r;
}
static void reduceMono(Ctx&x, const MonoRec&r, const mpq_class&c, std::unordered_map<Mono,mpq_class>&acc){
    std::vector<std::pair<uint32_t,uint32_t>> f; Poly mult=x.pconst(c);
    for (auto&p:r.f){ const Atom a=x.atoms[p.first];
        if (p.second>=2 && a.k==AK::SQRT){ mult=x.pmul(mult,x.ppow(x.polys[a.a],p.second/2)); if (p.second&1) f.push_back({p.first,1}); }
        else if (p.second>=2 && a.k==AK::FN && (a.fn==F_SIN||a.fn==F_COSH)){
            uint32_t o=x.atom(AK::FN,a.fn==F_SIN?F_COS:F_SINH,a.a,0,0); Poly sq=x.patom(o,2);
            Poly one=x.pconst(1); Poly rep= a.fn==F_SIN? x.padd(one,sq,-1) : x.padd(one,sq,1);
            mult=x.pmul(mult,x.ppow(rep,p.second/2)); if (p.second&1) f.push_back({p.first,1}); }
        else f.push_back(p); }
    Poly base; base.push_back({x.mono(f),mpq_class(1)}); Poly res=x.pmul(mult,base); accPoly(x,res,acc);
}
Poly Ctx::ppow(const Poly&a, unsigned n){ Poly r=pconst(1); for (unsigned i=0;i<n;i++) r=pmul(r,a); return r; }
uint32_t Ctx::internPoly(const Poly&p){
    uint64_t h=p.size(); for (auto&t:p){ h^=t.m*0x9E3779B97F4A7C15ull+(h<<6)+(h>>2); h^=std::hash<double>()(t.c.get_d())+(h<<5); }
    auto&v=polyCons[h]; for (uint32_t id:v){ const Poly&o=polys[id]; if (o.size()!=p.size()) continue; bool eq=true; for (size_t i=0;i<p.size()&&eq;i++) if (o[i].m!=p[i].m||o[i].c!=p[i].c) eq=false; if (eq) return id; }
    polys.push_back(p); v.push_back(polys.size()-1); return polys.size()-1;
}
E Ctx::polyE(const Poly&p){ return mk(Op::POLY,64,0,0,0,internPoly(p)); }
uint32_t Ctx::atom(AK k, uint8_t fn, uint32_t a, uint32_t b, double par){
    uint64_t pb; memcpy(&pb,&par,8);
    for (uint32_t i=0;i<atoms.size();i++){ auto&t=atoms[i]; uint64_t qb; memcpy(&qb,&t.par,8); if (t.k==k&&t.fn==fn&&t.a==a&&t.b==b&&pb==qb) return i; }
    atoms.push_back({k,fn,a,b,par}); return atoms.size()-1;
}
Poly Ctx::clear(const Poly&p0, std::vector<std::pair<uint32_t,unsigned>>& den, bool even){
    Poly p=p0;
    for (int guard=0; guard<64; guard++){
        // highest INV atom id present (outermost are created later)
        uint32_t best=0; bool any=false; unsigned maxe=0;
        for (auto&t:p) if (monos[t.m].hasInv) for (auto&f:monos[t.m].f) if (atoms[f.first].k==AK::INV){ if (!any||f.first>best){ best=f.first; maxe=f.second; any=true; } else if (f.first==best) maxe=std::max(maxe,f.second); }
        if (!any) return p;
        unsigned K=maxe; if (even&&(K&1)) K++;
        uint32_t dp=atoms[best].a; std::vector<Poly> pw(K+1); pw[0]=pconst(1); for (unsigned i=1;i<=K;i++) pw[i]=pmul(pw[i-1],polys[dp]);
        std::vector<Poly> byexp(maxe+1);
        for (auto&t:p){ unsigned e=0; std::vector<std::pair<uint32_t,uint32_t>> rest; for (auto&f:monos[t.m].f){ if (f.first==best) e=f.second; else rest.push_back(f);} byexp[e].push_back({mono(rest),t.c}); }
        Poly r; for (unsigned e=0;e<=maxe;e++) if (!byexp[e].empty()){ std::sort(byexp[e].begin(),byexp[e].end(),[](const Term&p,const Term&q){return p.m<q.m;}); r=padd(r,pmul(byexp[e],pw[K-e])); }
        den.push_back({dp,K}); p=r;
    }
    throw Blowup{"denominator clearing"};
}
Poly Ctx::inverse(const Poly&p0){
    std::vector<std::pair<uint32_t,unsigned>> den; Poly num=clear(p0,den,false);
    Poly mult=pconst(1); for (auto&d:den) mult=pmul(mult,ppow(polys[d.first],d.second));
    mpq_class c; if (pisconst(num,c)) return pscale(mult,mpq_class(1/c));
    // monomial: split factors
    if (num.size()==1){ Poly r=pscale(mult,mpq_class(1/num[0].c));
        std::vector<std::pair<uint32_t,uint32_t>> f=monos[num[0].m].f;
        for (auto&pr:f){ const Atom a=atoms[pr.first];
            if (a.k==AK::SQRT){ Poly s=patom(pr.first); Poly iv=inverse(polys[a.a]); for (unsigned i=0;i<pr.second;i++) r=pmul(r,pmul(s,iv)); }
            else if (a.k==AK::FN && a.fn==F_EXP){ Poly iv=pfn(F_EXP,pscale(polys[a.a],mpq_class(-1))); for (unsigned i=0;i<pr.second;i++) r=pmul(r,iv); }
            else { Poly one; one.push_back({mono({{pr.first,1}}),mpq_class(1)}); uint32_t at=atom(AK::INV,0,internPoly(one),0,0); r=pmul(r,patom(at,pr.second)); } }
        return r; }
    mpq_class lead=num[0].c; Poly nn=pscale(num,mpq_class(1/lead)); uint32_t at=atom(AK::INV,0,internPoly(nn),0,0);
    return pscale(pmul(mult,patom(at)),mpq_class(1/lead));
}
Poly Ctx::psqrt(const Poly&p){
    // take out inverse squares: sqrt(N/D) = sqrt(N*D)/D is sign dependent, keep as is.
    mpq_class c; if (pisconst(p,c)) return pconst(q_of(std::sqrt(c.get_d())));
    if (p.size()==1){ bool ok=true; for (auto&f:monos[p[0].m].f) if (f.second&1) ok=false; (void)ok; }
    mpq_class lead=p[0].c; if (sgn(lead)<0) lead=-lead;
    // normalise scale by powers of four only (keeps the square root of the factor exact)
    double l2=std::floor(std::log2(std::fabs(lead.get_d()))/2); mpq_class s=q_of(std::ldexp(1.0,(int)l2)); mpq_class s2=s*s;
    Poly nn=pscale(p,mpq_class(1/s2)); uint32_t at=atom(AK::SQRT,0,internPoly(nn),0,0); return pscale(patom(at),s);
}
Poly Ctx::pfn(uint8_t fn, const Poly&a){
    mpq_class c; if (pisconst(a,c)){ double d=c.get_d(),r; switch(fn){ case F_EXP:r=exp(d);break; case F_LOG:r=log(d);break; case F_SIN:r=sin(d);break; case F_COS:r=cos(d);break; case F_ASIN:r=asin(d);break; case F_ACOS:r=acos(d);break; case F_ATAN:r=atan(d);break; case F_SINH:r=sinh(d);break; case F_COSH:r=cosh(d);break; case F_ERF:r=erf(d);break; default:r=0; } return pconst(q_of(r)); }
    return patom(atom(AK::FN,fn,internPoly(a),0,0));
}
Poly Ctx::ppowc(const Poly&a, double c){
    if (c==0) return pconst(1);
    double k=std::floor(c), fr=c-k; if (std::fabs(k)>24) return patom(atom(AK::FN,F_POW,internPoly(a),0,c));
    Poly r= k>=0? ppow(a,(unsigned)k) : ppow(inverse(a),(unsigned)-k);
    if (fr==0) return r; if (fr==0.5) return pmul(r,psqrt(a));
    return pmul(r,patom(atom(AK::FN,F_POW,internPoly(a),0,fr)));
}
Poly Ctx::pfn2(uint8_t fn, const Poly&a, const Poly&b){ return patom(atom(AK::FN,fn,internPoly(a),internPoly(b),0)); }
Poly Ctx::ppow2(const Poly&a, const Poly&b){
    mpq_class c; if (pisconst(b,c)) return ppowc(a,c.get_d());
    mpq_class k=0; Poly bb=b; for (auto it=bb.begin();it!=bb.end();++it) if (it->m==0){ k=it->c; bb.erase(it); break; }
    Poly r=pfn(F_EXP,pmul(bb,pfn(F_LOG,a))); if (sgn(k)!=0) r=pmul(r,ppowc(a,k.get_d())); return r;
}
E Ctx::rcmp(Op op, const Poly&p0){
    std::vector<std::pair<uint32_t,unsigned>> den; Poly p=clear(p0,den,true);
    mpq_class c; if (pisconst(p,c)){ int s=sgn(c); bool v= op==Op::RLT? s<0 : op==Op::RLE? s<=0 : s==0; return bv(v,1); }
    mpq_class sc=p[0].c; if (sgn(sc)<0 && op!=Op::REQ) sc=-sc; p=pscale(p,mpq_class(1/sc));
    return mk(op,1,polyE(p));
}
uint32_t Ctx::newVar(const std::string&n, bool real, double lo, double hi, int64_t ilo, int64_t ihi){
    VarInfo v; v.name=n; v.real=real; v.lo=lo; v.hi=hi; v.ilo=ilo; v.ihi=ihi; v.atom=0; uint32_t id=vars.size();
    if (real){ v.w=64; v.atom=atom(AK::VAR,0,id,0,0); v.e=0; vars.push_back(v); vars[id].e=polyE(patom(v.atom)); }
    else { v.w= (ilo>=-128&&ihi<=127)?8:(ilo>=-32768&&ihi<=32767)?16:(ilo>=INT32_MIN&&ihi<=INT32_MAX)?32:64; vars.push_back(v); vars[id].e=mk(Op::VAR,v.w,0,0,0,id); }
    return id;
}
void Ctx::collectPolyVars(const Poly&p, std::vector<uint32_t>&out, std::vector<char>&seen){
    for (auto&t:p) for (auto&f:monos[t.m].f){ if (seen.size()<atoms.size()) seen.resize(atoms.size()); if (seen[f.first]) continue; seen[f.first]=1; const Atom a=atoms[f.first];
        if (a.k==AK::VAR) out.push_back(a.a); else { collectPolyVars(polys[a.a],out,seen); if (a.k==AK::FN&&(a.fn==F_POW2||a.fn==F_ATAN2)) collectPolyVars(polys[a.b],out,seen); } }
}
const std::vector<uint32_t>& Ctx::varsOf(E e){
    if (varSets.size()<nodes.size()){ varSets.resize(nodes.size()+256); varSetDone.resize(nodes.size()+256,0); }
    if (varSetDone[e]) return varSets[e];
    std::vector<uint32_t> r; Node n=nodes[e];
    if (n.op==Op::VAR) r.push_back((uint32_t)n.k);
    else if (n.op==Op::POLY){ std::vector<char> seen; collectPolyVars(polys[n.k],r,seen); }
    else for (E x:{n.a,n.b,n.c}) if (x){ auto s=varsOf(x); r.insert(r.end(),s.begin(),s.end()); }
    std::sort(r.begin(),r.end()); r.erase(std::unique(r.begin(),r.end()),r.end());
    if (varSets.size()<nodes.size()){ varSets.resize(nodes.size()+256); varSetDone.resize(nodes.size()+256,0); }
    varSets[e]=std::move(r); varSetDone[e]=1; return varSets[e];
}
std::string Ctx::pstr(const Poly&p, size_t lim){
    std::ostringstream o; size_t n=0; if (p.empty()) o<<"0"; for (auto&t:p){ if (n++>=lim){ o<<" + ...("<<p.size()<<" terms)"; break; } if (n>1) o<<" + "; o<<t.c.get_d(); for (auto&f:monos[t.m].f){ auto&a=atoms[f.first]; o<<"*"; if (a.k==AK::VAR) o<<vars[a.a].name; else if (a.k==AK::INV) o<<"inv"<<a.a; else if (a.k==AK::SQRT) o<<"sqrt"<<a.a; else o<<"fn"<<(int)a.fn<<"_"<<a.a; if (f.second>1) o<<"^"<<f.second; } }
    return o.str();
}
