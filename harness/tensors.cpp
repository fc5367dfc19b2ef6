// C16: physical tensors: storage maps, algebra, contractions, inverses and conversions
#include "vf.h"
#include "anifem++/autodiff/physical_tensors.h"
#include <vector>
#include <functional>
#include <limits>
using namespace Ani;
#ifndef NDIM
#define NDIM 3
#endif
static const int N=NDIM; typedef std::size_t sz; typedef std::vector<double> Vec;
typedef PhysArr<N> PA; typedef SymMtx<N> SM; typedef PhysMtx<N> PM; typedef Tensor4Rank<N> T4; typedef SymTensor4Rank<N> S4; typedef BiSymTensor4Rank<N> B4;
static double val(const char*n){ return vf_real(n,-1,1); }
template<class T> static T sym(const char*n){ T t; for(sz i=0;i<t.continuous_size();i++) t[i]=val(n); return t; }
static void eq(double a,double b,const char*m){ vf_close(a,b,1e-9,m); }
// documented storage
static int triPos(int n,int i,int j){ if (i>j) std::swap(i,j); int p=0; for(int a=0;a<i;a++) p+=n-a; return p+j-i; }
static const int NS=N*(N+1)/2;
// ------------------------------------------------ storage of components
VF_CASES(storage,5,k){ int i=vf_pick("i",0,N-1), j=vf_pick("j",0,N-1);
  if (k==0){ SM a=sym<SM>("a"); sz p=triPos(N,i,j); vf_check(SM::continuous_index(SM::Index(i,j))==p,"position of a component of a symmetric matrix"); auto q=SM::index(p); vf_check(q.i==(sz)std::min(i,j)&&q.j==(sz)std::max(i,j)&&q[0]==q.i&&q[1]==q.j,"index of a component of a symmetric matrix"); vf_check(q==SM::Index(j,i),"comparison of indices"); eq(a(i,j),a[p],"component of a symmetric matrix"); eq(a(j,i),a[p],"component of a symmetric matrix"); eq(a[q],a[p],"component by index"); std::array<sz,2> ij{(sz)i,(sz)j}; std::array<sz,1> i1{(sz)i},j1{(sz)j}; eq(a(ij),a[p],"component by array"); eq(a(i1,j1),a[p],"component by two arrays"); vf_check(a.index_duplication(p)==(sz)(i==j?1:2),"multiplicity of a component"); const SM b=a; a(i,j)=5; eq(a(j,i),5,"assignment to a component"); for(sz s=0;s<a.continuous_size();s++) if (s!=p) eq(a[s],b[s],"other components are unchanged"); vf_check(a.rank()==2&&a.continuous_size()==(sz)NS,"size of a symmetric matrix"); }
  if (k==1){ PM a=sym<PM>("a"); eq(a(i,j),a[j+N*i],"component of a matrix"); std::array<sz,2> ij{(sz)i,(sz)j}; std::array<sz,1> i1{(sz)i},j1{(sz)j}; eq(a(ij),a[j+N*i],"component by array"); eq(a(i1,j1),a[j+N*i],"component by two arrays"); PM b(a.m_dat.data(),false), c(a.m_dat.data(),true), d(a.m_dat), e(a.m_dat,false); eq(b(i,j),a[i+N*j],"column major data"); eq(c(i,j),a(i,j),"row major data"); eq(d(i,j),a(i,j),"row major data"); eq(e(i,j),a(j,i),"column major data"); eq(a.Transpose()(i,j),a(j,i),"transpose"); vf_check(a.rank()==2&&a.continuous_size()==N*N&&a.index_duplication(j+N*i)==1,"size of a matrix"); }
  if (k>=2){ int m=vf_pick("k",0,N-1), l=vf_pick("l",0,N-1); std::array<sz,4> q4{(sz)i,(sz)j,(sz)m,(sz)l}; std::array<sz,2> a2{(sz)i,(sz)j},b2{(sz)m,(sz)l};
    if (k==2){ T4 a; sz p=l+N*(m+N*(j+N*i)); a(i,j,m,l)=val("a"); eq(a[p],a(i,j,m,l),"component of a tensor"); eq(a(q4),a[p],"component by array"); eq(a(a2,b2),a[p],"component by two arrays"); for(sz s=0;s<a.continuous_size();s++) if (s!=p) eq(a[s],0,"other components are unchanged"); vf_check(a.rank()==4&&a.continuous_size()==N*N*N*N,"size of a tensor"); }
    if (k==3){ S4 a; sz p=triPos(N*N,j+N*i,l+N*m); a(i,j,m,l)=val("a"); eq(a[p],a(i,j,m,l),"position of a component of a symmetric tensor"); eq(a(m,l,i,j),a[p],"symmetry of a tensor"); eq(a(q4),a[p],"component by array"); eq(a(a2,b2),a[p],"component by two arrays"); auto q=S4::index(p); vf_check(S4::continuous_index(q)==p,"index of a position"); eq(a[q],a[p],"component by index"); bool dir=j+N*i<=l+N*m; vf_check(q.i==(sz)(dir?i:m)&&q.j==(sz)(dir?j:l)&&q.k==(sz)(dir?m:i)&&q.l==(sz)(dir?l:j)&&q[0]==q.i&&q[1]==q.j&&q[2]==q.k&&q[3]==q.l,"index of a component of a symmetric tensor"); for(sz s=0;s<a.continuous_size();s++) if (s!=p) eq(a[s],0,"other components are unchanged"); vf_check(a.continuous_size()==N*N*(N*N+1)/2&&a.index_duplication(p)==(sz)(i==m&&j==l?1:2),"multiplicity of a component"); }
    if (k==4){ B4 a; int I=triPos(N,i,j),J=triPos(N,m,l); sz p=triPos(NS,I,J); a(i,j,m,l)=val("a"); eq(a[p],a(i,j,m,l),"position of a component of a bisymmetric tensor"); double v=a[p]; int X[2][2]={{i,j},{m,l}}; for(int s=0;s<8;s++){ int u=s&1; int A=X[u][(s>>1)&1],B=X[u][1-((s>>1)&1)],C=X[1-u][(s>>2)&1],D=X[1-u][1-((s>>2)&1)]; eq(a(A,B,C,D),v,"symmetries of a bisymmetric tensor"); } eq(a(q4),v,"component by array"); eq(a(a2,b2),v,"component by two arrays"); auto q=B4::index(p); vf_check(B4::continuous_index(q)==p,"index of a position"); eq(a[q],v,"component by index"); vf_check(triPos(N,q.i,q.j)==std::min(I,J)&&triPos(N,q.k,q.l)==std::max(I,J)&&q.i<=q.j&&q.k<=q.l&&q[0]==q.i&&q[1]==q.j&&q[2]==q.k&&q[3]==q.l,"index of a component of a bisymmetric tensor"); for(sz s=0;s<a.continuous_size();s++) if (s!=p) eq(a[s],0,"other components are unchanged"); vf_check(a.continuous_size()==(sz)(NS*(NS+1)/2)&&a.index_duplication(p)==(sz)((i==j?1:2)*(m==l?1:2)*(I==J?1:2)),"multiplicity of a component"); } } }
// iterators
template<class T> static void iter(){ T t=sym<T>("t"); const T&c=t; sz n=t.continuous_size(), p=0; for(auto it=t.begin();it!=t.end();++it){ vf_check(it.continuous_index()==p,"position of an iterator"); vf_check(T::continuous_index(it.index())==p,"index of an iterator"); eq(*it,t[p],"value under an iterator"); eq(*(it.operator->()),t[p],"value under an iterator"); p++; } vf_check(p==n,"number of components visited"); p=0; for(auto it=c.cbegin();it!=c.cend();it++){ eq(*it,t[p++],"value under a constant iterator"); } vf_check(p==n,"number of components visited"); p=n; for(auto it=c.end();it!=c.begin();){ if (p%2) --it; else it--; eq(*it,t[--p],"value under a constant iterator"); }
  int a=vf_pick("a",0,(int)std::min<sz>(n,7)), b=vf_pick("b",0,3)*(int)n/3; auto x=t.begin()+a, y=(long)b+t.begin(); vf_check(y-x==(long)(b-a),"distance of iterators"); vf_check((x<y)==(a<b)&&(x>y)==(a>b)&&(x<=y)==(a<=b)&&(x>=y)==(a>=b)&&(x==y)==(a==b)&&(x!=y)==(a!=b),"order of iterators"); auto z=y; z-=b; vf_check(z==t.begin(),"-="); z+=a; vf_check(z==x,"+="); vf_check(y-b==t.begin(),"- number"); if (a<(int)n){ eq(*x,t[a],"value after a step"); eq(y[a-b],t[a],"value at a distance"); } }
VF_CASES(iterator,3,k){ if (k==0) iter<SM>(); else if (k==1) iter<S4>(); else iter<B4>(); }
VF_CASE(plainiter){ PM a=sym<PM>("a"); int p=0; for(auto&x:a) eq(x,a[p++],"value under an iterator"); vf_check(p==N*N&&a.cend()-a.cbegin()==N*N,"number of components visited"); T4 t; p=0; for(auto&x:t) x=p++; const T4&c=t; for(int q=0;q<N*N*N*N;q++) eq(c[q],q,"value under an iterator"); vf_check(c.end()-c.begin()==N*N*N*N&&c.cend()-c.cbegin()==N*N*N*N,"number of components visited"); }
// ------------------------------------------------ linear structure
template<class T> static void lin(){ T a=sym<T>("a"), b=sym<T>("b"); const T a0=a,b0=b; double c=vf_real("c",0.5,2); sz n=a.continuous_size(); T s=a0+b0,d=a0-b0,m=-a0,p=a0*c,q=c*a0,r=a0/c; for(sz i=0;i<n;i++){ eq(s[i],a0[i]+b0[i],"sum"); eq(d[i],a0[i]-b0[i],"difference"); eq(m[i],-a0[i],"opposite"); eq(p[i],c*a0[i],"multiple"); eq(q[i],c*a0[i],"multiple"); eq(r[i],a0[i]/c,"quotient"); }
  a+=b; for(sz i=0;i<n;i++) eq(a[i],a0[i]+b0[i],"+="); a=a0; a-=b; for(sz i=0;i<n;i++) eq(a[i],a0[i]-b0[i],"-="); a=a0; a*=c; for(sz i=0;i<n;i++) eq(a[i],a0[i]*c,"*="); a=a0; a/=c; for(sz i=0;i<n;i++) eq(a[i],a0[i]/c,"/="); a=a0; a+=a; for(sz i=0;i<n;i++) eq(a[i],2*a0[i],"+= itself"); a=a0; a-=a; for(sz i=0;i<n;i++) eq(a[i],0,"-= itself"); T z; for(sz i=0;i<n;i++) eq(z[i],0,"a new tensor is zero"); }
VF_CASES(linear,6,k){ switch(k){ case 0: lin<PA>(); break; case 1: lin<SM>(); break; case 2: lin<PM>(); break; case 3: lin<T4>(); break; case 4: lin<S4>(); break; case 5: lin<B4>(); } }
// ------------------------------------------------ contractions
template<class T,class F> static void contr(F at,int rank){ T a=sym<T>("a"), b=sym<T>("b"); double s=0,n=0; int M=1; for(int r=0;r<rank;r++) M*=N; for(int p=0;p<M;p++){ double x=at(a,p),y=at(b,p); s+=x*y; n+=x*x; } eq(a.Dot(b),s,"scalar product"); eq(a.SquareFrobNorm(),n,"square of the norm"); }
VF_CASES(dot,6,k){ auto m2=[](const auto&a,int p){ return a(p/N,p%N); }; auto m4=[](const auto&a,int p){ return a(p/(N*N*N),p/(N*N)%N,p/N%N,p%N); }; switch(k){ case 0: contr<PA>([](const PA&a,int p){ return a[p]; },1); break; case 1: contr<SM>(m2,2); break; case 2: contr<PM>(m2,2); break; case 3: contr<T4>(m4,4); break; case 4: contr<S4>(m4,4); break; case 5: contr<B4>(m4,4); } }
template<class T> static void vecs(){ T a=sym<T>("a"); PA f=sym<PA>("f"), s=sym<PA>("s"); std::array<double,N> g=f; double d=0,tr=0; PA r=a.Mul(f); std::array<double,N> r1=a.Mul(g); for(int i=0;i<N;i++){ double x=0; for(int j=0;j<N;j++){ x+=a(i,j)*f[j]; d+=f[i]*a(i,j)*s[j]; } eq(r[i],x,"product with a vector"); eq(r1[i],x,"product with a vector"); tr+=a(i,i); } eq(a.Dot(f,s),d,"bilinear form"); eq(a.Trace(),tr,"trace"); double c=val("c"); T I=T::Identity(c), E=T::Identity(); for(int i=0;i<N;i++) for(int j=0;j<N;j++){ eq(I(i,j),i==j?c:0,"multiple of the identity"); eq(E(i,j),i==j,"identity"); } T t=a.Transpose(); for(int i=0;i<N;i++) for(int j=0;j<N;j++) eq(t(i,j),a(j,i),"transpose"); 
  T q=T::TensorSquare(f), w=T::TensorSymMul2(f,s); for(int i=0;i<N;i++) for(int j=0;j<N;j++){ eq(q(i,j),f[i]*f[j],"tensor square of a vector"); eq(w(i,j),f[i]*s[j]+s[i]*f[j],"symmetric tensor product of vectors"); } }
VF_CASES(vectors,2,k){ if (k==0) vecs<SM>(); else vecs<PM>(); }
template<class T,class V> static void sq4(){ V f=sym<V>("f"), s=sym<V>("s"); T q=T::TensorSquare(f), w=T::TensorSymMul2(f,s); for(int i=0;i<N;i++) for(int j=0;j<N;j++) for(int k=0;k<N;k++) for(int l=0;l<N;l++){ eq(q(i,j,k,l),f(i,j)*f(k,l),"tensor square of a matrix"); eq(w(i,j,k,l),f(i,j)*s(k,l)+s(i,j)*f(k,l),"symmetric tensor product of matrices"); } }
VF_CASES(products4,5,k){ switch(k){ case 0: sq4<T4,PM>(); break; case 1: sq4<T4,SM>(); break; case 2: sq4<S4,PM>(); break; case 3: sq4<S4,SM>(); break; case 4: sq4<B4,SM>(); } }
// ------------------------------------------------ products and sums of matrices
template<class A,class B> static void mm(bool sums){ A a=sym<A>("a"); B b=sym<B>("b"); PM p(a*b); for(int i=0;i<N;i++) for(int j=0;j<N;j++){ double s=0; for(int k=0;k<N;k++) s+=a(i,k)*b(k,j); eq(p(i,j),s,"product of matrices"); } if (sums){ PM u(a+b), v(a-b); for(int i=0;i<N;i++) for(int j=0;j<N;j++){ eq(u(i,j),a(i,j)+b(i,j),"sum of matrices"); eq(v(i,j),a(i,j)-b(i,j),"difference of matrices"); } } }
VF_CASES(matmul,4,k){ switch(k){ case 0: mm<PM,PM>(true); break; case 1: mm<PM,SM>(true); break; case 2: mm<SM,PM>(true); break; case 3: { SM a=sym<SM>("a"); double x=val("x"),y=val("y"); SM b=x*SM::Identity()+y*a; SM p=a*b; for(int i=0;i<N;i++) for(int j=0;j<N;j++){ double s=0; for(int q=0;q<N;q++) s+=a(i,q)*b(q,j); eq(p(i,j),s,"product of commuting symmetric matrices"); } } } }
VF_CASE(symm){ PM a=sym<PM>("a"); SM s=a.Sym(), c=tensor_convert<SM>(PM(s)); PM b(s); for(int i=0;i<N;i++) for(int j=0;j<N;j++){ eq(s(i,j),(a(i,j)+a(j,i))/2,"symmetric part"); eq(b(i,j),s(i,j),"matrix made of a symmetric matrix"); eq(c(i,j),s(i,j),"symmetric matrix restored"); } 
#if NDIM!=3
  Vec d; std::array<double,N*(N+1)/2> u; for(auto&x:u) x=val("u"); SM p(u), q(u,true), r(u,false); int n=0; for(int i=0;i<N;i++) for(int j=i;j<N;j++){ eq(p(i,j),u[n],"upper triangle by rows"); eq(q(i,j),u[n++],"upper triangle by rows"); } n=0; for(int i=0;i<N;i++) for(int j=0;j<=i;j++) eq(r(i,j),u[n++],"lower triangle by rows");
#endif
}
// ------------------------------------------------ determinant and inverse
static double minorDet(const std::function<double(int,int)>&a,int n,std::vector<int> rows,std::vector<int> cols){ if (rows.empty()) return 1; double s=0; int r=rows[0]; std::vector<int> rr(rows.begin()+1,rows.end()); for(size_t c=0;c<cols.size();c++){ std::vector<int> cc; for(size_t q=0;q<cols.size();q++) if (q!=c) cc.push_back(cols[q]); s+=(c%2?-1:1)*a(r,cols[c])*minorDet(a,n,rr,cc); } return s; }
static double det(const std::function<double(int,int)>&a){ std::vector<int> r; for(int i=0;i<N;i++) r.push_back(i); return minorDet(a,N,r,r); }
#if NDIM==3
VF_CASES(det,2,k){ if (k==0){ SM a=sym<SM>("a"); eq(a.Det(),det([&](int i,int j){ return a(i,j); }),"determinant"); SM b=a.Adj(); for(int i=0;i<3;i++) for(int j=0;j<3;j++){ double s=0; for(int q=0;q<3;q++) s+=a(i,q)*b(q,j); eq(s,i==j?a.Det():0,"adjugate matrix"); } } else { PM a=sym<PM>("a"); eq(a.Det(),det([&](int i,int j){ return a(i,j); }),"determinant"); PM b=a.Adj(); for(int i=0;i<3;i++) for(int j=0;j<3;j++){ double s=0; for(int q=0;q<3;q++) s+=a(i,q)*b(q,j); eq(s,i==j?a.Det():0,"adjugate matrix"); } } }
VF_CASES(inv,2,k){ if (k==0){ SM a=sym<SM>("a"); for(int i=0;i<3;i++) a(i,i)+=4; SM b=a.Inv(); PM p(b); for(int i=0;i<3;i++) for(int j=0;j<3;j++){ double s=0; for(int q=0;q<3;q++) s+=a(i,q)*b(q,j); eq(s,i==j,"inverse matrix"); } } else { PM a=sym<PM>("a"); a(0,1)+=4; a(1,2)+=4; a(2,0)-=4; PM b=a.Inv(); for(int i=0;i<3;i++) for(int j=0;j<3;j++){ double s=0; for(int q=0;q<3;q++) s+=a(i,q)*b(q,j); eq(s,i==j,"inverse matrix"); } } }
VF_CASE(ident4){ double c=val("c"); B4 I=B4::Identity(c), E=B4::Identity(); for(int i=0;i<3;i++) for(int j=0;j<3;j++) for(int k=0;k<3;k++) for(int l=0;l<3;l++){ double v=((i==k&&j==l)+(i==l&&j==k))/2.0; eq(I(i,j,k,l),c*v,"identity tensor"); eq(E(i,j,k,l),v,"identity tensor"); } }
#endif
// matrices whose elimination needs pivoting, of several magnitudes; one entry is symbolic
static const int NP=10;
static double entry(int pat,bool s,int i,int j){ if (s&&i>j) std::swap(i,j); switch(pat){ case 0: return i==j?4+i:1.0/(1+i+2*j); case 1: return i==j?0:1+i+(s?0:3*j)+j*0.5; case 2: return (i+1)%N==j||(s&&(j+1)%N==i)?2+i:0; case 3: return i+j==N-1?1+(s?1:i):0; case 4: return i==j?(i%2?-3:3):(i<j?1:(s?1:-2)); case 5: return i==0&&j==0?0:1.0/(1+i+j); case 6: return i==j?1e-3*(i+1):(s?1:(i<j?1:0.5)); case 7: return ((i*3+j*5+(s?0:i*j))%7)-3+(i==j?0.5:0); case 8: return (i+2)%N==j?3+i+(s?0:j):0.25*(i==j); default: return i==N-1-j?0:(s?i+j+1:i-2*j+1); } }
static void small(bool s,double*a,double&scale){ int p=vf_pick("pattern",0,NP-1); 
#ifdef LIGHT
  static const double SC[]={1,1e14}; scale=SC[vf_pick("scale",0,1)];
#else
  static const double SC[]={1,1e8,1e-8,1e14,1e-14}; scale=SC[vf_pick("scale",0,4)];
#endif
  for(int i=0;i<N;i++) for(int j=0;j<N;j++) a[i*N+j]=entry(p,s,i,j); 
#ifdef LIGHT
  static const int QR[2][2]={{N-1,N-1},{0,1}}; int w=vf_pick("symbolic entry",0,1), q=QR[w][0], r=QR[w][1];
#else
  int q=vf_pick("row of the symbolic entry",0,N-1), r=vf_pick("column of the symbolic entry",0,N-1);
#endif
  double t=vf_real("t",-0.1,0.1); a[q*N+r]+=t; if (s&&q!=r) a[r*N+q]+=t; }
VF_CASES(elim,2,k){ double a[N*N], sc; small(k==0,a,sc); double d=det([&](int i,int j){ return a[i*N+j]; }); double f=1; for(int i=0;i<N;i++) f*=sc; if (k==0){ SM m; for(int i=0;i<N;i++) for(int j=i;j<N;j++) m(i,j)=sc*a[i*N+j]; vf_close(m.Det()/f,d,1e-7,"determinant of a symmetric matrix"); } else { PM m; for(int i=0;i<N;i++) for(int j=0;j<N;j++) m(i,j)=sc*a[i*N+j]; vf_close(m.Det()/f,d,1e-7,"determinant of a matrix"); } }
VF_CASES(inverse,2,k){ double a[N*N], sc; small(k==0,a,sc); double d=det([&](int i,int j){ return a[i*N+j]; }); vf_assume((d>0.05)|(d<-0.05)); double b[N*N]; if (k==0){ SM m; for(int i=0;i<N;i++) for(int j=i;j<N;j++) m(i,j)=sc*a[i*N+j]; SM r=m.Inv(); for(int i=0;i<N;i++) for(int j=0;j<N;j++) b[i*N+j]=r(i,j); } else { PM m; for(int i=0;i<N;i++) for(int j=0;j<N;j++) m(i,j)=sc*a[i*N+j]; PM r=m.Inv(); for(int i=0;i<N;i++) for(int j=0;j<N;j++) b[i*N+j]=r(i,j); } for(int i=0;i<N;i++) for(int j=0;j<N;j++){ double s=0; for(int q=0;q<N;q++) s+=a[i*N+q]*(sc*b[q*N+j]); vf_close(s,i==j,1e-7,"inverse matrix"); } }
// ------------------------------------------------ conversions
template<class A,class B,class F> static void conv(F f){ A a=sym<A>("a"); B b=tensor_convert<B>(a); f(a,b); }
VF_CASES(convert,14,k){ auto same2=[](const auto&a,const auto&b){ for(int i=0;i<N;i++) for(int j=0;j<N;j++) eq(b(i,j),a(i,j),"converted matrix"); }; auto up2=[](const auto&a,const auto&b){ for(int i=0;i<N;i++) for(int j=i;j<N;j++){ eq(b(i,j),a(i,j),"symmetric matrix of the upper triangle"); } }; auto same4=[](const auto&a,const auto&b){ for(int i=0;i<N;i++) for(int j=0;j<N;j++) for(int m=0;m<N;m++) for(int l=0;l<N;l++) eq(b(i,j,m,l),a(i,j,m,l),"converted tensor"); }; auto flat=[](const auto&a,const auto&b){ for(sz i=0;i<a.continuous_size();i++) eq(b[i],a[i],"converted storage"); };
  switch(k){ case 0: conv<SM,PM>(same2); break; case 1: conv<PM,SM>(up2); break; case 2: conv<PM,PhysArr<N*N>>(flat); conv<PhysArr<N*N>,PM>(flat); break; case 3: conv<SM,PhysArr<N*N>>([](const SM&a,const PhysArr<N*N>&b){ for(int i=0;i<N;i++) for(int j=0;j<N;j++) eq(b[j+N*i],a(i,j),"symmetric matrix as a full array"); }); break; case 4: conv<PhysArr<N*N>,SM>([](const PhysArr<N*N>&a,const SM&b){ for(int i=0;i<N;i++) for(int j=i;j<N;j++) eq(b(i,j),a[j+N*i],"symmetric matrix of a full array"); }); break; case 5: conv<SM,PhysArr<NS>>(flat); conv<PhysArr<NS>,SM>(flat); break;
   case 6: conv<S4,T4>(same4); break; case 7: conv<B4,T4>(same4); break; case 8: conv<B4,S4>(same4); break; case 9: { S4 a=sym<S4>("a"); S4 b=tensor_convert<S4>(tensor_convert<T4>(a)); flat(a,b); } break; case 10: { B4 a=sym<B4>("a"); B4 b=tensor_convert<B4>(tensor_convert<T4>(a)), c=tensor_convert<B4>(tensor_convert<S4>(a)); flat(a,b); flat(a,c); } break;
   case 11: conv<T4,PhysArr<N*N*N*N>>(flat); conv<PhysArr<N*N*N*N>,T4>(flat); break; case 12: conv<S4,PhysArr<N*N*(N*N+1)/2>>(flat); conv<PhysArr<N*N*(N*N+1)/2>,S4>(flat); conv<B4,PhysArr<NS*(NS+1)/2>>(flat); conv<PhysArr<NS*(NS+1)/2>,B4>(flat); break; case 13: conv<B4,SymMtx<NS>>(flat); conv<SymMtx<NS>,B4>(flat); conv<SM,SM>(same2); break; } }
VF_CASE(arrays){ PA a{1.0}, b{}; std::array<double,N> c; for(auto&x:c) x=val("c"); PA d(c), e(std::move(c)); eq(a[0],1,"initialiser list"); for(int i=1;i<N;i++) eq(a[i],0,"missing initial values are zero"); for(int i=0;i<N;i++){ eq(b[i],0,"a new vector is zero"); eq(d[i],e[i],"vector of an array"); std::array<sz,1> q{(sz)i}; eq(d(q),d[i],"component by array"); } PA f{1,2,3,4,5,6,7}; for(int i=0;i<N;i++) eq(f[i],i+1,"initialiser list"); vf_check(a.rank()==1&&a.continuous_size()==N&&a.index_duplication(0)==1,"size of a vector"); }
