// C21: containers of intervals
#include "vf.h"
#include <iostream>
#include <sstream>
#include <string>
#include <typeinfo>
#include <vector>
#include <array>
#include <map>
#include <limits>
#include <stdexcept>
#include "anifem++/interval/interval_map.h"
#include "anifem++/interval/interval_enum.h"
#include "anifem++/interval/ext_array_enum.h"
using namespace Ani;
static std::string nm(const char*s,int i){ return std::string(s)+char('0'+i/10)+char('0'+i%10); }
static const int64_t B=int64_t(1)<<20;
// ------------------------------------------------ map of intervals: history of insertions
#ifndef INS
#define INS (vf_tier()?3:2)
#endif
struct Less { bool operator()(long a,long b) const { return a<b; } }; struct Greater { bool operator()(long a,long b) const { return a>b; } };
struct I { int li=0, ri=0; long a=0,b=0; int v=0; bool ok=false; };
template<class M,bool REV> struct Hist { M m; std::vector<I> h;
  static bool lt(long x,long y){ return REV? y<x : x<y; }
  static int in(const I&o,long k){ return int(o.li|!lt(k,o.a)) & int(o.ri|lt(k,o.b)); }
  void insert(int s,int kinds){ I o; int k=vf_pick(nm("kind",s).c_str(),0,kinds); o.li=k==2||k==3; o.ri=k==1||k==3; o.v=s==0?1:vf_pick(nm("value",s).c_str(),1,2); if (!o.li) o.a=vf_int(nm("begin",s).c_str(),-B,B); if (!o.ri) o.b=vf_int(nm("end",s).c_str(),-B,B);
    auto r=k==0?m.insert(o.a,o.b,o.v):k==1?m.insert(o.a,M::tag_inf,o.v):k==2?m.insert(M::tag_inf,o.b,o.v):m.insert(M::tag_inf,M::tag_inf,o.v);
    int want=o.li|o.ri|lt(o.a,o.b); for(auto&p:h) if (p.ok&&p.v!=o.v) want&=!(int(o.li|p.ri|lt(o.a,p.b))&int(p.li|o.ri|lt(p.a,o.b)));
    vf_check(int(r.second)==want,"an interval is accepted unless it is empty or meets an interval with another value"); o.ok=r.second;
    if (r.second){ vf_check(r.first->second==o.v,"value of the inserted interval"); vf_check(r.first.is_left_infinite()|!o.li,"inserted interval is infinite to the left"); vf_check(r.first.is_right_infinite()|!o.ri,"inserted interval is infinite to the right"); if (!o.li) vf_check(r.first.contains(o.a),"inserted interval contains its begin"); if (!o.ri&&!o.li) vf_check(r.first.contains(REV?o.b+1:o.b-1),"inserted interval contains its end"); }
    h.push_back(o); }
  void query(){ long k=vf_int("key",-B,B); int want=0,val=0; for(auto&o:h) if (o.ok){ int c=in(o,k); want|=c; val=c?o.v:val; } 
    const M&c=m; bool has=m.contains(k); vf_check(int(has)==want,"a key is contained iff it lies in an inserted interval"); auto it=m.find(k); auto ct=c.find(k); vf_check(m.count(k)==std::size_t(has)&&(it!=m.end())==has&&(ct!=c.end())==has,"count and find agree with contains"); bool thrown=false; int v=0; try { v=m.at(k); } catch(const std::out_of_range&){ thrown=true; } vf_check(thrown==!has,"at throws iff the key is absent");
    if (has){ vf_check(v==val,"value of a key"); vf_check(it->second==v&&ct->second==v&&c[k]==v,"value of a key by find and []"); vf_check(it.contains(k),"found interval contains the key"); }
    int n=0, hit=0; bool left=true, merged=true, inf=true; long pe=0; int pv=0; for(auto q=c.begin();q!=c.end();++q,n++){ bool li=q.is_left_infinite(), ri=q.is_right_infinite(); hit+=q.contains(k); if (li) inf&=n==0; if (ri) inf&=n+1==int(c.size()); if (n){ if (lt(q->first.m_start,pe)) left=false; if (q->first.m_start==pe&&q->second==pv) merged=false; } if (!li&&!ri&&!lt(q->first.m_start,q->first.m_end)) left=false; pe=q->first.m_end; pv=q->second; }
    vf_check(n==int(c.size()),"size"); vf_check(c.empty()==(n==0),"empty"); vf_check(hit==int(has),"exactly one interval contains a contained key"); vf_check(left,"intervals are sorted and do not meet"); vf_check(merged,"adjacent intervals with one value are merged"); vf_check(inf,"only the outer intervals are infinite"); } 
  void bounds(){ long k=vf_int("key",-B,B); const M&c=m; auto lo=m.lower_bound(k), hi=m.upper_bound(k); auto clo=c.lower_bound(k), chi=c.upper_bound(k); int il=lo-m.begin(), iu=hi-m.begin(); vf_check(clo-c.begin()==il,"lower_bound of a constant map"); vf_check(chi-c.begin()==iu,"upper_bound of a constant map"); int wl=0,wu=0,stop=0,stopu=0; for(auto q=c.begin();q!=c.end();++q){ bool ri=q.is_right_infinite(); long e=q->first.m_end; bool fl=ri||lt(k,e), fu=ri||lt(k,REV?e+1:e-1); if (!fl&&!stop) wl++; else stop=1; if (!fu&&!stopu) wu++; else stopu=1; }
    vf_check(il==wl,"lower_bound: first interval with a key not less than the given one"); vf_check(iu==wu,"upper_bound: first interval with a key greater than the given one"); } };
typedef interval_map<long,int> Map; typedef interval_map<long,int,Greater> RMap;
VF_CASE(map_history){ Hist<Map,false> t; for(int s=0;s<2;s++) t.insert(s,3); t.query(); }
VF_CASE(map_history_inf){ Hist<Map,false> t; for(int s=0;s<3;s++) t.insert(s,3); t.query(); }
VF_CASE(map_history3){ Hist<Map,false> t; for(int s=0;s<3;s++) t.insert(s,0); t.query(); }
VF_CASE(map_reversed){ Hist<RMap,true> t; for(int s=0;s<2;s++) t.insert(s,3); t.query(); }
VF_CASE(map_bounds){ Hist<Map,false> t; for(int s=0;s<2;s++) t.insert(s,3); t.bounds(); }
VF_CASE(map_clear){ Hist<Map,false> t; t.insert(0,3); Map o; o.swap(t.m); vf_check(t.m.empty(),"swapped map is empty"); long k=vf_int("other",-B,B); vf_check(!t.m.contains(k),"empty map contains nothing"); I f=t.h[0]; vf_check(int(o.contains(k))==(f.ok?Hist<Map,false>::in(f,k):0),"swap keeps the keys"); o.clear(); vf_check(o.empty()&&!o.contains(k),"cleared map is empty"); t.m.swap(o); t.h.clear(); t.insert(1,3); t.query(); }
// ------------------------------------------------ text of a map
#ifndef PL
#define PL 3
#endif
struct ToInt { long operator()(const std::string&s) const { std::size_t i=0; bool neg=i<s.size()&&s[i]=='-'; if (neg) i++; vf_check(i<s.size(),"a number in the text is not empty"); long r=0; for(;i<s.size();i++){ vf_check(s[i]>='0'&&s[i]<='9',"a number in the text has only digits"); r=r*10+(s[i]-'0'); } return neg?-r:r; } };
static void put(std::string&s,long x){ if (x<0){ s+='-'; x=-x; } if (x>=10) s+=char('0'+x/10); s+=char('0'+x%10); }
VF_CASE(parse){ std::string s; std::vector<I> h; int n=vf_pick("intervals",0,PL), d=vf_pick("delimiters",0,1); ParseIvlMapTraits tr; if (d) tr.setIntervalDelim("..").setMapDelim("=>").setElemDelim(","); int sp=vf_pick("spaces",0,2); const char*b=sp==2?" \t":sp?" ":""; s+=b; long c=-11;
  for(int i=0;i<n;i++){ I o; o.v=i==1?12:i+1; o.a=c; c+=9+i; o.b=c; c+=vf_pick(nm("gap",i).c_str(),0,1); o.li=i==0&&vf_pick("left infinite",0,1); o.ri=i==n-1&&vf_pick("right infinite",0,1); if (!o.li) put(s,o.a); s+=b; s+=d?"..":":"; s+=b; if (!o.ri) put(s,o.b); s+=b; s+=d?"=>":"->"; s+=b; put(s,o.v); s+=b; if (i<n-1||vf_pick("last delimiter",0,1)){ s+=d?",":";"; s+=b; } h.push_back(o); }
  std::size_t pos=0; if (vf_pick("part of a text",0,1)){ s="3:4->5;"+s; pos=7; }
  auto m=parse_interval_map<long,long,ToInt,ToInt>(s,pos,std::string::npos,ToInt(),ToInt(),tr); vf_check(int(m.size())==n,"number of intervals in the text"); long k=vf_int("key",-B,B); int want=0; for(auto&o:h) want=Hist<Map,false>::in(o,k)?o.v:want; auto it=m.find(k); vf_check((it!=m.end()?it->second:0)==want,"value of a key of the text"); }
// ------------------------------------------------ enumerator of intervals
static const int NI=3; static const long EB=1000, VB=6;
struct Enum { int n; long first[NI+1], val[NI+1]; };
static Enum make(long B2,int maxn){ Enum e; e.n=vf_pick("intervals",0,maxn); long c=0, v=0; for(int i=0;i<e.n;i++){ e.first[i]=c; v= i? v+vf_int(nm("gap",i).c_str(),1,B2) : vf_int("first value",-B2,B2); e.val[i]=v; long l=vf_int(nm("length",i).c_str(),1,B2); c+=l; v+=l; } e.first[e.n]=c; e.val[e.n]=v; return e; }
template<class Mem> Mem memory(const Enum&e,std::vector<long>&d);
template<> interval_own_memory<long,long> memory(const Enum&e,std::vector<long>&){ interval_own_memory<long,long> m; if (e.n) for(int i=0;i<=e.n;i++) m.m_dat.push_back({e.first[i],e.val[i]}); return m; }
template<> interval_external_memory<long> memory(const Enum&e,std::vector<long>&d){ interval_external_memory<long> m; if (e.n){ for(int i=0;i<=e.n;i++){ d.push_back(e.first[i]); d.push_back(e.val[i]); } m.m_dat_st=d.data(); m.m_dat_end=d.data()+d.size(); } return m; }
template<class Mem> static void en_find(){ Enum e=make(EB,NI); std::vector<long> d; interval_enum<Mem> t(memory<Mem>(e,d)); long size=e.n?e.first[e.n]:0; vf_check(long(t.size())==size,"number of enumerated values"); vf_check(t.empty()==(size==0),"enumerator is empty");
  long l=vf_int("number",-2,6*EB); auto it=t.find_left(l); bool in=(l>=0)&(l<size); vf_check((it!=t.end())==in,"number is enumerated"); vf_check(t.contains_left(l)==in,"number is contained"); if (in){ long w=0; for(int i=0;i<e.n;i++) w=(l>=e.first[i])&(l<e.first[i+1])? e.val[i]+(l-e.first[i]) : w; auto x=*it; vf_check(x.first==l,"number found"); vf_check(x.second==w,"value of a number"); vf_check(it->first==l&&it->second==w,"access to a found pair"); auto rt=t.find_right(w); vf_check(rt==it,"value leads back to its number"); vf_check(it-t.begin()==l,"distance from the begin"); auto nx=it; ++nx; vf_check((nx==t.end())==(l+1==size),"next number"); if (l+1<size){ vf_check((*nx).first==l+1,"next number"); vf_check((*nx).second>w,"values grow"); vf_check((nx>it)&(it<nx)&(nx>=it)&(it<=nx)&!(nx<it)&!(it>nx)&!(it>=nx)&!(nx<=it),"order of iterators"); } --nx; vf_check(nx==it,"previous number"); } auto lb=t.lower_bound_left(l), ub=t.upper_bound_left(l); long wl=l<0?0:l, wu=l+1<0?0:l+1; vf_check((lb==t.end())==(wl>=size),"lower bound of a number"); if (wl<size) vf_check((*lb).first==wl,"lower bound of a number"); vf_check((ub==t.end())==(wu>=size),"upper bound of a number"); if (wu<size) vf_check((*ub).first==wu,"upper bound of a number"); }
template<class Mem> static void en_value(){ Enum e=make(VB,NI); std::vector<long> d; interval_enum<Mem> t(memory<Mem>(e,d)); long r=vf_int("value",-9*VB,9*VB); int in=0; long w=-1, lb=e.n?e.first[e.n]:0; for(int i=e.n-1;i>=0;i--){ long len=e.first[i+1]-e.first[i]; int c=(r>=e.val[i])&(r<e.val[i]+len); in|=c; w=c?e.first[i]+(r-e.val[i]):w; lb= r<e.val[i]?e.first[i] : c?w:lb; } auto it=t.find_right(r); vf_check((it!=t.end())==(in!=0),"value is enumerated"); vf_check(t.contains_right(r)==(in!=0),"value is contained"); if (in){ vf_check((*it).first==w,"number of a value"); vf_check((*it).second==r,"value found"); }
  auto l=t.lower_bound_right(r), u=t.upper_bound_right(r); long size=e.n?e.first[e.n]:0, ub=lb+(in?1:0); vf_check((l==t.end())==(lb>=size),"lower bound of a value"); if (lb<size) vf_check((*l).first==lb,"lower bound of a value"); vf_check((u==t.end())==(ub>=size),"upper bound of a value"); if (ub<size) vf_check((*u).first==ub,"upper bound of a value"); t.clear(); vf_check(t.empty()&&t.begin()==t.end(),"cleared enumerator"); }
template<class Mem> static void en_walk(){ Enum e=make(3,NI); std::vector<long> d; interval_enum<Mem> t(memory<Mem>(e,d)); long k=0; auto it=t.begin(); std::vector<long> v; for(int i=0;i<e.n;i++) for(long j=0;j<e.first[i+1]-e.first[i];j++) v.push_back(e.val[i]+j); for(;it!=t.end()&&k<=long(v.size());++it,k++) vf_check(k<long(v.size())&&(*it).first==k&&(*it).second==v[k],"walk through the values"); vf_check(k==long(v.size()),"length of the walk"); while(k>0){ --it; --k; vf_check((*it).first==k&&(*it).second==v[k],"walk back"); } vf_check(it==t.begin(),"end of the walk back"); }
VF_CASES(enum_number,2,k){ if (k) en_find<interval_external_memory<long>>(); else en_find<interval_own_memory<long,long>>(); }
VF_CASES(enum_value,2,k){ if (k) en_value<interval_external_memory<long>>(); else en_value<interval_own_memory<long,long>>(); }
VF_CASES(enum_walk,2,k){ if (k) en_walk<interval_external_memory<long>>(); else en_walk<interval_own_memory<long,long>>(); }
VF_CASE(raw_iterator){ std::vector<long> d(8); for(int i=0;i<8;i++) d[i]=vf_int(nm("x",i).c_str(),-B,B); interval_external_memory<long> m; m.m_dat_st=d.data(); m.m_dat_end=d.data()+8; int i=vf_pick("i",0,4), j=vf_pick("j",0,4); auto a=m.begin(), b=m.begin(); a+=i; b+=j; vf_check((a<b)==(i<j),"<"); vf_check((a<=b)==(i<=j),"<="); vf_check((a>b)==(i>j),">"); vf_check((a>=b)==(i>=j),">="); vf_check((a==b)==(i==j),"=="); vf_check((a!=b)==(i!=j),"!="); const auto ca=a; vf_check(b-a==j-i,"difference"); vf_check(ca+(j-i)==b,"+"); vf_check((j-i)+ca==b,"+ from the left"); vf_check(b-(j-i)==ca,"-"); auto c=a; c-=i; vf_check(c==m.begin(),"-="); if (i<4){ vf_check((*a).first==d[2*i]&&(*a).second==d[2*i+1],"element"); vf_check(m.begin()[i].second==d[2*i+1],"[]"); auto p=a++; vf_check(p==ca,"++"); vf_check(--a==ca,"--"); } else vf_check(a==m.end(),"end"); }
// ------------------------------------------------ enumerator of extended arrays
#ifndef NA_
#define NA_ (vf_tier()?4:3)
#endif
struct Rg { std::vector<int> r; unsigned operator()(unsigned v) const { return v<r.size()?r[v]:0; } };
template<unsigned N> struct Ext { typedef std::array<unsigned,N> A; typedef std::array<unsigned,N+1> E; typedef ext_range_array_enum<N,Rg,unsigned,unsigned> T; T t; std::vector<A> a; std::vector<E> b; unsigned n,m; Rg rg;
  Ext(int na,int hi,int rlo,int rhi){ n=vf_pick("position",0,N); m=vf_pick("depends",0,N-1); for(int v=0;v<=hi;v++) rg.r.push_back(N==3&&v&&!vf_tier()?rlo+rhi-rg.r[0]:vf_pick(nm("range",v).c_str(),rlo,rhi)); for(int i=0;i<na;i++){ A x; for(unsigned j=0;j<N;j++) x[j]=vf_int(nm("a",i*N+j).c_str(),0,hi); if (i) vf_assume(!std::lexicographical_compare(x.begin(),x.end(),a.back().begin(),a.back().end())); a.push_back(x); }
    t=T(a,rg,n,m); t.setup(); std::vector<A> u; for(auto&x:a) if (u.empty()||u.back()!=x) u.push_back(x); for(auto&x:u) for(unsigned s=0;s<rg(x[m]);s++){ E y; for(unsigned k=0;k<n;k++) y[k]=x[k]; y[n]=s; for(unsigned k=n;k<N;k++) y[k+1]=x[k]; b.push_back(y); } std::sort(b.begin(),b.end()); a=u; } };
template<unsigned N> static void ext_map(int na,int hi,int rlo,int rhi){ Ext<N> e(na,hi,rlo,rhi); auto&t=e.t; unsigned size=e.b.size(); vf_check(t.size()==size,"number of extended arrays"); vf_check(t.empty()==(size==0),"enumerator is empty"); if (t.size()!=size) return; auto it=t.begin(); for(unsigned i=0;i<size;i++){ vf_check(t[e.b[i]]==i,"number of an array"); vf_check(t[i]==e.b[i],"array of a number"); vf_check(it->first==i&&it->second==e.b[i],"walk through the arrays"); ++it; } vf_check(it==t.end(),"end of the walk"); for(unsigned i=size;i-->0;){ --it; vf_check((*it).first==i&&(*it).second==e.b[i],"walk back"); } }
template<unsigned N> static void ext_find(int na,int hi,int rlo,int rhi){ Ext<N> e(na,hi,rlo,rhi); auto&t=e.t; typename Ext<N>::E y; for(unsigned j=0;j<=N;j++) y[j]=vf_int(nm("y",j).c_str(),0,3); unsigned size=e.b.size(), lb=0, ub=0; bool in=false; for(auto&x:e.b){ lb+=x<y; ub+=x<=y; in|=x==y; } vf_check(t.contains(y)==in,"array is contained"); vf_check(t.count(y)==(in?1u:0u),"count"); auto it=t.find(y); vf_check((it!=t.end())==in,"array is found"); if (in) vf_check(it->second==y&&it->first==lb,"found array"); auto l=t.lower_bound(y); vf_check(l->first==lb,"lower bound of an array"); if (lb<size) vf_check(l->second==e.b[lb],"array of the lower bound"); auto u=t.upper_bound(y); vf_check(u->first==ub,"upper bound of an array"); if (ub<size) vf_check(u->second==e.b[ub],"array of the upper bound"); }
template<unsigned N> static void ext_iter(int na,int hi,int rlo,int rhi){ Ext<N> e(na,hi,rlo,rhi); auto&t=e.t; unsigned size=e.b.size(); if (size==0) return; int i=vf_pick("i",0,3), j=vf_pick("j",0,3); if (i>int(size)||j>int(size)) return; auto a=t.begin(); a+=i; auto b=t.begin(j); vf_check((a<b)==(i<j),"<"); vf_check((a<=b)==(i<=j),"<="); vf_check((a>b)==(i>j),">"); vf_check((a>=b)==(i>=j),">="); vf_check((a==b)==(i==j),"=="); vf_check((a!=b)==(i!=j),"!="); vf_check(int(a->first)==i&&int(b->first)==j,"number of an iterator"); if (i<int(size)) vf_check(a->second==e.b[i],"+="); if (j<=i){ auto c=a; c-=i-j; vf_check(int(c->first)==j,"-="); if (j<int(size)) vf_check(c->second==e.b[j],"-="); c=a-(i-j); vf_check(int(c->first)==j,"-"); } else { auto c=a+(j-i); vf_check(int(c->first)==j,"+"); if (j<int(size)) vf_check(c->second==e.b[j],"+"); c=(j-i)+a; vf_check(int(c->first)==j,"+ from the left"); } auto f=t.find(unsigned(i)); vf_check(int(f->first)==i,"find by a number"); if (i<int(size)) vf_check(f->second==e.b[i],"find by a number"); t.clear(); vf_check(t.empty(),"cleared enumerator"); }
VF_CASES(ext_map,3,k){ int t=vf_tier(); if (k==0) ext_map<1>(3,t?3:2,1,t?3:2); else if (k==1) ext_map<2>(3,t?2:1,1,2); else ext_map<3>(t?4:3,1,1,2); }
VF_CASES(ext_find,2,k){ int t=vf_tier(); if (k==0) ext_find<1>(2,2,1,2); else ext_find<2>(2,t?2:1,1,2); }
VF_CASES(ext_iter,2,k){ if (k==0) ext_iter<1>(2,vf_tier()?2:1,1,2); else ext_iter<2>(2,1,1,2); }
