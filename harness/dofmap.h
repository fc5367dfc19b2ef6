// Description of d.o.f. maps independent of the library: a tree of leaves (counts per geometric type), vectors and products;
// numbering is component-major, inside a leaf by type, element, number on the element.
#pragma once
#include "vf.h"
#include <vector>
#include <array>
#include <memory>
#include <stdexcept>
#include <tuple>
#include "anifem++/fem/tetdofmap.h"
namespace dm {
using namespace Ani; using namespace Ani::DofT;
static const int NEL[6]={4,6,6,4,4,1}, GD[6]={0,1,1,2,2,3};
static const uchar ET[6]={NODE,EDGE_UNORIENT,EDGE_ORIENT,FACE_UNORIENT,FACE_ORIENT,CELL};
struct M { int kind=0, d=0; std::vector<M> ch; std::array<unsigned,6> n; // 0 leaf, 1 vector, 2 product
    unsigned cnt(int t) const { if (kind==0) return n[t]; if (kind==1) return d*ch[0].cnt(t); unsigned s=0; for(auto&c:ch) s+=c.cnt(t); return s; }
    unsigned tet() const { unsigned s=0; for(int t=0;t<6;t++) s+=NEL[t]*cnt(t); return s; } };
static inline M leaf(std::array<unsigned,6> n){ M m; m.n=n; return m; }
static inline M vec(int d,M b){ M m; m.kind=1; m.d=d; m.ch={b}; return m; }
static inline M com(std::vector<M> c){ M m; m.kind=2; m.ch=c; return m; }
static inline std::shared_ptr<BaseDofMap> build(const M&m){ if (m.kind==0) return std::make_shared<UniteDofMap>(m.n); if (m.kind==1) return std::make_shared<VectorDofMap>(m.d,build(m.ch[0])); std::vector<std::shared_ptr<BaseDofMap>> v; for(auto&c:m.ch) v.push_back(build(c)); return std::make_shared<ComplexDofMap>(v); }
// one leaf occurrence: path of component numbers, offset of tetrahedron indices and of indices on elements
struct Lf { std::vector<int> path; const M*m; unsigned off; std::array<unsigned,6> eo; };
static inline void leaves(const M&m,std::vector<int> path,unsigned off,std::array<unsigned,6> eo,std::vector<Lf>&out){
    if (m.kind==0){ out.push_back(Lf{path,&m,off,eo}); return; }
    int k=m.kind==1?m.d:(int)m.ch.size(); for(int i=0;i<k;i++){ const M&c=m.kind==1?m.ch[0]:m.ch[i]; auto p=path; p.push_back(i); leaves(c,p,off,eo,out); off+=c.tet(); for(int t=0;t<6;t++) eo[t]+=c.cnt(t); } }
static inline std::vector<Lf> leaves(const M&m){ std::vector<Lf> r; std::array<unsigned,6> z; z.fill(0); leaves(m,{},0,z,r); return r; }
static inline std::array<unsigned,6> symCounts(int hi){ std::array<unsigned,6> n; for(int t=0;t<6;t++) n[t]=(unsigned)vf_int("count",0,hi); return n; }
// concrete count patterns
static const int NPAT=12;
static inline std::array<unsigned,6> pat(int p){ static const unsigned D[NPAT][6]={ {1,0,0,0,0,0},{1,1,0,0,0,0},{0,0,1,0,0,0},{1,2,0,1,0,0},{0,0,0,0,1,0},{0,0,0,0,0,1},{1,1,2,1,2,1},{0,1,1,0,0,0},{2,0,0,0,0,1},{0,0,0,2,1,1},{0,0,0,1,0,0},{0,0,0,0,0,0} }; std::array<unsigned,6> n; for(int t=0;t<6;t++) n[t]=D[p][t]; return n; }
}
