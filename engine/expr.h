// Symbolic values: bit-vector terms and exact real polynomials over variables and
// algebraic / uninterpreted atoms.  Everything is hash-consed.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <vector>
#include <string>
#include <unordered_map>
#include <map>
#include <deque>
#include <algorithm>
#include <functional>
#include <gmpxx.h>

typedef uint32_t E;            // expression id; 0 means "concrete / absent"

enum class Op : uint8_t { NONE, CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
    ZEXT, SEXT, EXTRACT, CONCAT, EQ, ULT, ULE, SLT, SLE, ITE, RLT, RLE, REQ, POLY };

struct Node { Op op; uint8_t w; E a, b, c; uint64_t k; };

enum class AK : uint8_t { VAR, INV, SQRT, FN };
enum Fn : uint8_t { F_EXP, F_LOG, F_SIN, F_COS, F_POW, F_ASIN, F_ACOS, F_ATAN, F_SINH, F_COSH, F_ERF, F_POW2, F_ATAN2, F_MAXN };
struct Atom { AK k; uint8_t fn; uint32_t a, b; double par; };   // VAR: a=var; INV,SQRT: a=poly; FN: a,b polys, par for pow

struct VarInfo { std::string name; bool real; double lo, hi; int64_t ilo, ihi; uint8_t w; uint32_t atom; E e; };

typedef uint32_t Mono;
struct MonoRec { std::vector<std::pair<uint32_t,uint32_t>> f; bool hasInv=false, hasSqrt=false; uint32_t deg=0; };
struct Term { Mono m; mpq_class c; };
typedef std::vector<Term> Poly;         // sorted by mono id, no zero coefficients

struct Blowup { const char* what; };

struct Ctx {
    std::vector<Node> nodes; std::vector<VarInfo> vars; std::vector<Atom> atoms;
    std::deque<MonoRec> monos; std::deque<Poly> polys; std::vector<E> polyNode;
    struct NK { Op op; uint8_t w; E a,b,c; uint64_t k; bool operator==(const NK&o) const { return op==o.op&&w==o.w&&a==o.a&&b==o.b&&c==o.c&&k==o.k; } };
    struct NH { size_t operator()(const NK&n) const { uint64_t h=(uint64_t)n.op*0x9E3779B97F4A7C15ull ^ n.w; for (uint64_t x : {(uint64_t)n.a,(uint64_t)n.b,(uint64_t)n.c,n.k}) { h^=x+0x9E3779B97F4A7C15ull+(h<<6)+(h>>2);} return h; } };
    std::unordered_map<NK,E,NH> cons;
    struct VH { size_t operator()(const std::vector<std::pair<uint32_t,uint32_t>>&v) const { uint64_t h=v.size(); for (auto&p:v){ h^=p.first*0x9E3779B97F4A7C15ull+(h<<6)+(h>>2); h^=p.second+(h<<5);} return h; } };
    std::unordered_map<std::vector<std::pair<uint32_t,uint32_t>>,Mono,VH> monoCons;
    std::unordered_map<uint64_t,Mono> monoMulC;
    std::unordered_map<uint64_t,std::vector<uint32_t>> polyCons;
    std::unordered_map<uint64_t,uint32_t> atomCons;   // (kind,fn,a,b,par) hashed -> verified
    std::deque<std::vector<uint32_t>> varSets; std::vector<uint8_t> varSetDone;
    size_t maxTerms = 60000;

    std::unordered_map<E,E> sub;             // terms the path condition fixes to a constant
    void learn(E c);
    E subst(E e) const { if (sub.empty()) return e; auto it=sub.find(e); return it==sub.end()? e : it->second; }
    Ctx();
    // ---- bit-vectors
    E mk(Op op, uint8_t w, E a=0, E b=0, E c=0, uint64_t k=0);
    std::vector<std::pair<uint64_t,uint64_t>> rng;   // unsigned range of every bit-vector term
    std::pair<uint64_t,uint64_t> range(const Node&n) const;
    static unsigned bits(uint64_t v){ unsigned k=0; while(v){ k++; v>>=1; } return k?k:1; }
    E bv(uint64_t v, uint8_t w);
    bool isC(E e, uint64_t&v) const { if (nodes[e].op==Op::CONST){ v=nodes[e].k; return true; } return false; }
    E bin(Op op, uint8_t w, E a, E b);
    E cmp(Op op, E a, E b);
    E ite(E c, E a, E b);
    E notb(E a);
    E ext(Op op, E a, uint8_t w);            // ZEXT/SEXT
    E extract(E a, unsigned lo, uint8_t w);
    E concat(E hi, E lo);
    static uint64_t mask(uint64_t v, uint8_t w){ return w>=64? v : v & ((1ull<<w)-1); }
    static int64_t sx(uint64_t v, uint8_t w){ if (w>=64) return (int64_t)v; uint64_t m=1ull<<(w-1); return (int64_t)((mask(v,w)^m)-m); }
    static uint64_t fold(Op op, uint8_t w, uint64_t a, uint64_t b, bool&ok);
    // ---- polynomials
    Mono mono(std::vector<std::pair<uint32_t,uint32_t>> f);
    Mono monoMul(Mono a, Mono b);
    Poly pconst(const mpq_class& c) const { Poly p; if (sgn(c)!=0) p.push_back({0,c}); return p; }
    Poly padd(const Poly&a, const Poly&b, int sb=1) const;
    Poly pscale(const Poly&a, const mpq_class&c) const;
    Poly pmul(const Poly&a, const Poly&b);
    Poly ppow(const Poly&a, unsigned n);
    Poly patom(uint32_t atom, uint32_t e=1){ Poly p; p.push_back({mono({{atom,e}}),mpq_class(1)}); return p; }
    bool pisconst(const Poly&p, mpq_class&v) const { if (p.empty()){ v=0; return true;} if (p.size()==1&&p[0].m==0){ v=p[0].c; return true;} return false; }
    uint32_t internPoly(const Poly&p);
    E polyE(const Poly&p);
    const Poly& polyOf(E e) const { return polys[nodes[e].k]; }
    bool isPoly(E e) const { return nodes[e].op==Op::POLY; }
    uint32_t atom(AK k, uint8_t fn, uint32_t a, uint32_t b, double par);
    // p with all INV atoms multiplied out: p*Prod d_i^{k_i}; returns list of (poly id of d, power)
    Poly clear(const Poly&p, std::vector<std::pair<uint32_t,unsigned>>& den, bool evenPowers);
    Poly inverse(const Poly&p);              // may create INV atom
    Poly psqrt(const Poly&p);
    Poly pfn(uint8_t fn, const Poly&a);
    Poly ppowc(const Poly&a, double c);
    Poly pfn2(uint8_t fn, const Poly&a, const Poly&b); Poly ppow2(const Poly&a, const Poly&b);
    E rcmp(Op op, const Poly&a);             // a < 0, a <= 0, a == 0
    uint32_t newVar(const std::string&n, bool real, double lo, double hi, int64_t ilo, int64_t ihi);
    const std::vector<uint32_t>& varsOf(E e);
    void collectPolyVars(const Poly&p, std::vector<uint32_t>&out, std::vector<char>&seenAtoms);
    std::string pstr(const Poly&p, size_t lim=12);
};
extern Ctx X;
inline mpq_class q_of(double d){ mpq_class q; mpq_set_d(q.get_mpq_t(), d); return q; }
