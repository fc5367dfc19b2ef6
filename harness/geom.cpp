// C18: geometry of tetrahedra and dense linear algebra kernels
#include "vf.h"
#include "anifem++/fem/geometry.h"
#include <vector>
#include <array>
#include <stdexcept>
using namespace Ani;
typedef std::vector<double> Vec; static const double EPS=1e-9;
static void eq(double a,double b,const char*m){ vf_close(a,b,EPS,m); }
static void crs(const double*a,const double*b,double*c){ c[0]=a[1]*b[2]-a[2]*b[1]; c[1]=a[2]*b[0]-a[0]*b[2]; c[2]=a[0]*b[1]-a[1]*b[0]; }
static double dt(const double*a,const double*b){ return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
struct Tt { double P[4][3]; };
static Tt tet(bool sy){ static const double D[4][12]={ {0,0,0, 1,0,0, 0,1,0, 0,0,1}, {0.25,-0.5,1.0, 1.5,0.25,1.25, 0.5,1.75,0.5, 0.75,0.5,3.0}, {0,0,0, 0,1,0, 1,0,0, 0.125,0.25,1.5}, {-1.0,0.5,0.25, 0.5,2.0,-0.75, 1.25,-0.5,0.5, 0.125,0.375,-2.0} }; int n=vf_pick("tet",0,3); Tt t; for(int i=0;i<4;i++) for(int k=0;k<3;k++) t.P[i][k]=D[n][3*i+k]; if (sy){ int i=vf_pick("moved vertex",0,3); for(int k=0;k<3;k++) t.P[i][k]+=vf_real("vertex",-0.1,0.1); } return t; }
// ------------------------------------------------ vectors, triangles and tetrahedra
VF_CASE(vecprod){ double a[3],b[3],c[3],x[3],y[3],z[3]; for(auto p:{a,b,c}) for(int i=0;i<3;i++) p[i]=vf_real("x",-2,2); crs(a,b,x); cross(a,b,y); for(int i=0;i<3;i++) eq(y[i],x[i],"vector product"); double u[3],v[3]; for(int i=0;i<3;i++){ u[i]=a[i]-c[i]; v[i]=b[i]-c[i]; } crs(u,v,x); cross(a,b,c,z); for(int i=0;i<3;i++) eq(z[i],x[i],"vector product of sides"); }
VF_CASES(inv3,6,k){ static const double D[6][9]={{4,0,0,0,4,0,0,0,4},{0,4,0,0,0,4,4,0,0},{0,0,-4,4,0,0,0,4,0},{4,1,2,-1,5,1,0.5,2,-6},{0,3,1,3,0,-2,1,-2,0},{2,0,0,0,0,3,0,3,0}}; double m[9],r[9]; for(int i=0;i<9;i++) m[i]=D[k][i]+vf_real("m",-0.2,0.2); double d=inverse3x3(m,r), e=m[0]*(m[4]*m[8]-m[7]*m[5])-m[3]*(m[1]*m[8]-m[7]*m[2])+m[6]*(m[1]*m[5]-m[4]*m[2]); eq(d,e,"determinant"); for(int i=0;i<3;i++) for(int j=0;j<3;j++){ double s=0,t=0; for(int q=0;q<3;q++){ s+=m[i+3*q]*r[q+3*j]; t+=r[i+3*q]*m[q+3*j]; } eq(s,i==j,"inverse matrix on the right"); eq(t,i==j,"inverse matrix on the left"); } }
VF_CASE(area){ double p[3][3]; for(auto&x:p) for(int i=0;i<3;i++) x[i]=vf_real("x",-2,2); double u[3],v[3],n[3]; for(int i=0;i<3;i++){ u[i]=p[1][i]-p[0][i]; v[i]=p[2][i]-p[0][i]; } crs(u,v,n); double d=dt(n,n); vf_assume(d>0.01); double s=tri_area(p[0],p[1],p[2]); eq(4*s*s,d,"area of a triangle"); vf_check(s>0,"area is positive"); }
static void outward(const Tt&t,const int*f,int o,const double*n,double len2,const char*m){ double u[3],v[3],w[3],nn[3]; for(int i=0;i<3;i++){ u[i]=t.P[f[1]][i]-t.P[f[0]][i]; v[i]=t.P[f[2]][i]-t.P[f[0]][i]; w[i]=t.P[o][i]-t.P[f[0]][i]; } crs(u,v,nn); vf_close(dt(n,u),0,EPS,m); vf_close(dt(n,v),0,EPS,m); vf_check(dt(n,w)<0,"normal is directed outwards"); if (len2>0) vf_close(dt(n,n),len2,EPS,m); else vf_close(dt(n,n),dt(nn,nn),EPS,m); }
VF_CASES(facenormal,1,k){ Tt t=tet(k==0); int o=vf_pick("opposite",0,3), pm=vf_pick("order",0,5); static const int PM[6][3]={{1,2,3},{2,3,1},{3,1,2},{2,1,3},{1,3,2},{3,2,1}}; int f[3]; for(int i=0;i<3;i++) f[i]=(o+PM[pm][i])%4; double n[3]; double s=face_normal(t.P[f[0]],t.P[f[1]],t.P[f[2]],t.P[o],n); outward(t,f,o,n,1,"unit normal of a face"); double u[3],v[3],nn[3]; for(int i=0;i<3;i++){ u[i]=t.P[f[1]][i]-t.P[f[0]][i]; v[i]=t.P[f[2]][i]-t.P[f[0]][i]; } crs(u,v,nn); eq(4*s*s,dt(nn,nn),"area of a face"); vf_check(s>0,"area is positive"); }
template<class S> static void tetra(bool sy){ Tt t=tet(sy); Tetra<S> T(t.P[0],t.P[1],t.P[2],t.P[3]); vf_check(T.fusion==1,"number of tetrahedra"); int w=vf_pick("what",0,2), o=w?vf_pick("node",0,3):0; int f[3]={(o+1)%4,(o+2)%4,(o+3)%4};
  if (w==0){ auto c=T.centroid(); for(int k=0;k<3;k++) eq(c[k],(t.P[0][k]+t.P[1][k]+t.P[2][k]+t.P[3][k])/4,"centroid"); 
    double d=T.diameter(), best=0; int some=0; vf_check(d>0,"diameter"); for(int i=0;i<4;i++) for(int j=0;j<i;j++){ double e[3]; for(int k=0;k<3;k++) e[k]=t.P[i][k]-t.P[j][k]; double l=dt(e,e); vf_check(l<=d*d+EPS,"diameter is not less than every edge"); some|=((l-d*d<=EPS)&(d*d-l<=EPS)); } vf_check(some,"diameter is the length of an edge"); }
  else if (w==1){ auto n=T.normal(o); outward(t,f,o,n.data(),1,"normal of a face"); }
  else { auto n=T.normal_direction(o); outward(t,f,o,n.data(),-1,"normal direction of a face"); } }
VF_CASES(tetra,2,k){ if (k==0) tetra<double>(true); else tetra<const double>(false); }
VF_CASES(batch,2,k){ int q=vf_pick("count",1,3); Vec X[4]; for(auto&x:X){ x.resize(3*q); for(auto&v:x) v=vf_real("x",-1,1); } auto T=[&](auto&&t){ vf_check(t.fusion==q,"number of tetrahedra"); for(int c=0;c<q;c++) for(int k=0;k<3;k++){ eq(t.XY0(k,c),X[0][k+3*c],"coordinates of the first node"); eq(t.XY1(k,c),X[1][k+3*c],"coordinates of the second node"); eq(t.XY2(k,c),X[2][k+3*c],"coordinates of the third node"); eq(t.XY3(k,c),X[3][k+3*c],"coordinates of the fourth node"); } }; if (k==0) T(make_tetras(X[0].data(),X[1].data(),X[2].data(),X[3].data(),q)); else { const double*p[4]={X[0].data(),X[1].data(),X[2].data(),X[3].data()}; T(make_tetras(p[0],p[1],p[2],p[3],q)); } }
// ------------------------------------------------ linear solvers
static const int NP=10;
static double entry(int N,int pat,int i,int j){ switch(pat){ case 0: return i==j?4+i:1.0/(1+i+2*j); case 1: return i==j?(N==1):1+i+3*j+j*0.5; case 2: return (i+1)%N==j?2+i:0; case 3: return i+j==N-1?1+i:0; case 4: return i==j?(i%2?-3:3):(i<j?1:-2); case 5: return i==0&&j==0?(N==1):1.0/(1+i+j); case 6: return i==j?1e-3*(i+1):(i<j?1:0.5); case 7: return ((i*3+j*5+i*j)%7)-3+(i==j?0.5:0); case 8: return (i+2)%N==j?3+i+j:0.25*(i==j); default: return i==N-1-j?(N==1):i-2*j+1; } }
static double detm(int n,const Vec&a,std::vector<int> c,int r){ if (r==n) return 1; double s=0; for(size_t i=0;i<c.size();i++){ auto d=c; d.erase(d.begin()+i); s+=(i%2?-1:1)*a[r+n*c[i]]*detm(n,a,d,r+1); } return s; }
static double detm(int n,const Vec&a){ std::vector<int> c; for(int i=0;i<n;i++) c.push_back(i); return detm(n,a,c,0); }
static double pickScale(int N){ static const double SC[]={1e-20,1e14,1,1e8,1e-9}; return SC[vf_pick("scale",0,N<=3?4:1)]; }
// symmetric positive definite: A = G^T G + I/8 with one symbolic change
static Vec spd(int N,int pat,bool sy){ Vec a(N*N); for(int i=0;i<N;i++) for(int j=0;j<N;j++){ double s=i==j?0.125:0; for(int k=0;k<N;k++) s+=entry(N,pat,k,i)*entry(N,pat,k,j); a[i+N*j]=s; } if (sy){ int q=vf_pick("row of the symbolic entry",0,N-1), r=vf_pick("column of the symbolic entry",0,q); double t=vf_real("t",-0.05,0.05); a[q+N*r]+=t; if (q!=r) a[r+N*q]+=t; } return a; }
static bool same(const Vec&a,const double*b,int n){ bool s=true; for(int i=0;i<n;i++) s&=a[i]==b[i]; return s; }
VF_CASES(cholrhs,5,k){ int N=k+1, M=vf_pick("columns",1,3), pat=vf_pick("pattern",0,4); double sc=pickScale(N); Vec a=spd(N,pat,false); for(auto&x:a) x*=sc; Vec a0=a,b(N*M); for(auto&x:b) x=vf_real("b",-1,1); Vec b0=b,x(N*M,7),mem(N*(N+1)/2); int al=vf_pick("aliasing",0,3); double*X=(al&1)?b.data():x.data(),*W=(al&2)?a.data():mem.data(); cholesky_solve(a.data(),b.data(),N,M,X,W); if (!(al&1)) vf_check(same(b0,b.data(),N*M),"right-hand side is unchanged"); if (!(al&2)) vf_check(same(a0,a.data(),N*N),"matrix is unchanged"); for(int l=0;l<M;l++) for(int i=0;i<N;i++){ double s=0; for(int j=0;j<N;j++) s+=a0[i+N*j]*X[j+N*l]; vf_close(s,b0[i+N*l],1e-6,"solution of a symmetric system"); } }
VF_CASES(cholsym,3,k){ int N=k+1, pat=vf_pick("pattern",0,4); Vec a=spd(N,pat,true),a0=a,b(N),mem(N*(N+1)/2); double dd=detm(N,a); vf_assume(dd>0.05); for(int i=1;i<N;i++){ Vec m; for(int q=0;q<i;q++) for(int r=0;r<i;r++) m.push_back(a[r+N*q]); double d=detm(i,m); vf_assume(d>0.05); } for(int i=0;i<N;i++) b[i]=1-0.75*i; Vec b0=b; cholesky_solve(a.data(),b.data(),N,1,b.data(),mem.data()); for(int i=0;i<N;i++){ double s=0; for(int j=0;j<N;j++) s+=a0[i+N*j]*b[j]; vf_close(s,b0[i],1e-6,"solution of a symmetric system"); } }
VF_CASES(cholinv,5,k){ int N=k+1, pat=vf_pick("pattern",0,4); bool sy=N<=2&&vf_pick("symbolic",0,1); Vec a=spd(N,pat,sy); if (sy){ vf_assume(a[0]>0.05); if (N==2){ double d=detm(2,a); vf_assume(d>0.05); } } Vec a0=a,r(N*N,7),mem(N*(N+1)/2); int al=vf_pick("aliasing",0,1); cholesky_inverse(a.data(),r.data(),N,al?a.data():mem.data()); for(int i=0;i<N;i++) for(int j=0;j<N;j++){ double s=0; for(int q=0;q<N;q++) s+=a0[i+N*q]*r[q+N*j]; vf_close(s,i==j,1e-6,"inverse of a symmetric matrix"); } }
#ifndef WITH_EIGEN
VF_CASES(cholbad,3,k){ int N=k+1; int w=vf_pick("where",0,N-1); Vec a(N*N,0),b(N,1),mem(N*(N+1)/2); for(int i=0;i<N;i++) a[i+N*i]=2; double t=vf_real("t",-1,1); a[w+N*w]=t; bool th=false; try { cholesky_solve(a.data(),b.data(),N,1,b.data(),mem.data()); } catch(std::runtime_error&){ th=true; } vf_check(th==(t<=0),"a matrix that is not positive definite is refused"); }
#endif
static Vec mat(int N,bool sy,double&sc,bool few){ int p=vf_pick("pattern",0,NP-1); sc=pickScale(N); Vec a(N*N); for(int i=0;i<N;i++) for(int j=0;j<N;j++) a[i+N*j]=entry(N,p,i,j); if (sy){ int q,r; if (few){ static const int Q[3]={0,1,2}; int w=vf_pick("symbolic entry",0,N>3&&!vf_tier()?0:2); q=w==0?0:w==1?N-1:N/2; r=w==0?0:w==1?N-1:0; } else { q=vf_pick("row of the symbolic entry",0,N-1); r=vf_pick("column of the symbolic entry",0,N-1); } a[q+N*r]+=vf_real("t",-0.1,0.1); } return a; }
VF_CASES(lu,4,k){ int N=k+1; double sc; Vec a=mat(N,true,sc,N==4), w(N*N); for(int i=0;i<N*N;i++) w[i]=sc*a[i]; int p[4],q[4]; for(int i=0;i<N;i++) p[i]=q[i]=i; fullPivLU(w.data(),N,p,q); int sp=0,sq=0; for(int i=0;i<N;i++){ vf_check(p[i]>=0&&p[i]<N&&q[i]>=0&&q[i]<N,"permutation"); sp|=1<<p[i]; sq|=1<<q[i]; } vf_check(sp==(1<<N)-1&&sq==sp,"permutation"); for(int i=0;i<N;i++) for(int j=0;j<N;j++){ double s=0; for(int m=0;m<=std::min(i,j);m++) s+=(m==i?1:w[i+N*m])*(w[m+N*j]/sc); vf_close(s,a[p[i]+N*q[j]],1e-7,"product of the factors"); if (i>j) vf_check((w[i+N*j]<=1+1e-9)&(w[i+N*j]>=-1-1e-9),"multipliers are not greater than one"); else vf_check((w[i+N*j]*w[i+N*j])<=(w[i+N*i]*w[i+N*i])*(1+1e-9),"pivot is the greatest"); } }
VF_CASES(lurhs,5,k){ int N=k+1, M=vf_pick("columns",1,2); double sc; Vec a=mat(N,false,sc,false); double d=detm(N,a); if (N>1) vf_assume(d>1e-6||d<-1e-6); else vf_assume(d!=0); Vec A(N*N); for(int i=0;i<N*N;i++) A[i]=sc*a[i]; Vec b(N*M); for(auto&x:b) x=vf_real("b",-1,1); 
  Vec b0=b,A0=A,x(N*M,7),mem(N*(N+M)); std::vector<int> im(2*N); int al=vf_pick("aliasing",0,2); double*X=al==1?b.data():x.data(); if (al<2) fullPivLU_solve(A.data(),b.data(),N,M,X,mem.data(),im.data()); else { int p[5],q[5]; for(int i=0;i<N;i++) p[i]=q[i]=i; Vec L=A; fullPivLU(L.data(),N,p,q); LU_solve(L.data(),N,p,q,b.data(),X,M); } if (al==0) vf_check(same(b0,b.data(),N*M),"right-hand side is unchanged"); vf_check(same(A0,A.data(),N*N),"matrix is unchanged"); for(int l=0;l<M;l++) for(int i=0;i<N;i++){ double s=0; for(int j=0;j<N;j++) s+=a[i+N*j]*(sc*X[j+N*l]); vf_close(s,b0[i+N*l],1e-6,"solution of a linear system"); } }
VF_CASES(luinv,4,k){ int N=k+1; double sc; bool sy=
#ifdef WITH_EIGEN
  false;
#else
  true;
#endif
  Vec a=mat(N,sy,sc,N>=3); double d=detm(N,a); vf_assume((d>0.05)|(d<-0.05)); Vec A(N*N); for(int i=0;i<N*N;i++) A[i]=sc*a[i]; Vec A0=A,R(N*N,7),mem(2*N*N); std::vector<int> im(2*N); int al=vf_pick("aliasing",0,1); double*r=al?A.data():R.data(); fullPivLU_inverse(A.data(),r,N,mem.data(),im.data()); if (!al) vf_check(same(A0,A.data(),N*N),"matrix is unchanged"); for(int i=0;i<N;i++) for(int j=0;j<N;j++){ double s=0; for(int q=0;q<N;q++) s+=a[i+N*q]*(sc*r[q+N*j]); vf_close(s,i==j,1e-7,"inverse matrix"); } }
// ------------------------------------------------ orthogonal decompositions
static double rentry(int N,int M,int pat,int i,int j){ switch(pat){ case 0: return i==j?2+i:1.0/(1+i+2*j); case 1: return i==0?0:(i==j?-1:0.5*i-j); case 2: return (i+1)%N==j?2:0.25*(i==j); case 3: return i==j?-3:0; case 4: return j==M-1&&M>1?2.0*(1+i):1+i; case 5: return i==j&&j<M-1?1+j:0; case 6: return 0; default: return ((i*3+j*5+i*j)%7)-3; } }
static void checkQR(int N,int M,const Vec&a,double sc,const Vec&Q,const Vec&R,double tol){ for(int i=0;i<N;i++) for(int j=0;j<=i;j++){ double s=0; for(int k=0;k<N;k++) s+=Q[k+N*i]*Q[k+N*j]; vf_close(s,i==j,tol,"columns of Q are orthonormal"); } for(int i=0;i<N;i++) for(int j=0;j<M;j++){ double s=0; for(int k=0;k<M;k++) s+=Q[i+N*k]*(R[k+M*j]/sc); vf_close(s,a[i+N*j],tol,"product of the factors"); } for(int j=0;j<M;j++) for(int i=j+1;i<M;i++) vf_check(R[i+M*j]==0,"R is upper triangular"); }
VF_CASES(qr,15,k){ int N=1,M=k+1; while(M>N){ M-=N; N++; } int pat=vf_pick("pattern",0,7); double sc=pickScale(N); Vec a(N*M),A(N*M); for(int i=0;i<N;i++) for(int j=0;j<M;j++) a[i+N*j]=rentry(N,M,pat,i,j); for(int i=0;i<N*M;i++) A[i]=sc*a[i]; Vec A0=A,Q(N*N,7),R(M*M,7),mem(N*M+N+M); householderQR(A.data(),N,M,Q.data(),R.data(),mem.data()); vf_check(same(A0,A.data(),N*M),"matrix is unchanged"); checkQR(N,M,a,sc,Q,R,1e-8); }
#ifndef WITH_EIGEN
VF_CASES(qrsym,4,k){ int N=k<2?k+1:k, M=k<2?1:(k==2?2:1); if (k==3) N=3; int pat=vf_pick("pattern",0,3); Vec a(N*M); for(int i=0;i<N;i++) for(int j=0;j<M;j++) a[i+N*j]=rentry(N,M,pat,i,j); int w=vf_pick("symbolic entry",0,N*M-1); a[w]+=vf_real("t",-0.1,0.1); if (M==1){ double s=0; for(int i=0;i<N;i++) s+=a[i]*a[i]; vf_assume(s>0.01); } else { double s=a[0]*a[0]+a[1]*a[1], d=detm(2,a); vf_assume((s>0.01)&((d>0.05)|(d<-0.05))); } Vec Q(N*N,7),R(M*M,7),mem(N*M+N+M); householderQR(a.data(),N,M,Q.data(),R.data(),mem.data()); checkQR(N,M,a,1,Q,R,1e-7); }
#endif
static void checkSVD(int N,int M,const Vec&a,double sc,const double*U,const Vec&S,const double*V,double tol){ int K=std::min(N,M); for(int i=0;i<K;i++){ vf_check(S[i]>=0,"singular values are not negative"); if (i) vf_check(S[i]<=S[i-1],"singular values decrease"); } double f=0,g=0; for(int i=0;i<N*M;i++) f+=a[i]*a[i]; for(int i=0;i<K;i++) g+=(S[i]/sc)*(S[i]/sc); vf_close(f,g,tol,"sum of squares of the singular values"); for(int w=0;w<2;w++){ const double*q=w?V:U; int n=w?M:N; if (q) for(int i=0;i<n;i++) for(int j=0;j<=i;j++){ double s=0; for(int k=0;k<n;k++) s+=q[k+n*i]*q[k+n*j]; vf_close(s,i==j,tol,w?"columns of V are orthonormal":"columns of U are orthonormal"); } } if (U&&V) for(int i=0;i<N;i++) for(int j=0;j<M;j++){ double s=0; for(int k=0;k<K;k++) s+=U[i+N*k]*(S[k]/sc)*V[j+M*k]; vf_close(s,a[i+N*j],tol,"product of the factors"); } else if (U) for(int k=0;k<K;k++){ double s=0; for(int j=0;j<M;j++){ double t=0; for(int i=0;i<N;i++) t+=a[i+N*j]*U[i+N*k]; s+=t*t; } vf_close(s,(S[k]/sc)*(S[k]/sc),tol,"left singular vectors"); } else if (V) for(int k=0;k<K;k++){ double s=0; for(int i=0;i<N;i++){ double t=0; for(int j=0;j<M;j++) t+=a[i+N*j]*V[j+M*k]; s+=t*t; } vf_close(s,(S[k]/sc)*(S[k]/sc),tol,"right singular vectors"); } }
static void svd(int N,int M,const Vec&a,double sc,double tol){ Vec A(N*M); for(int i=0;i<N*M;i++) A[i]=sc*a[i]; Vec A0=A; int K=std::min(N,M), o=vf_pick("parts",0,3); Vec U(N*N,7),S(K,7),V(M*M,7),mem(2*K*K+K); double*u=(o&1)?U.data():nullptr,*v=(o&2)?V.data():nullptr; int e=jacobiSVD(A.data(),N,M,u,S.data(),v,mem.data()); vf_check(e==0,"decomposition converged"); vf_check(same(A0,A.data(),N*M),"matrix is unchanged"); checkSVD(N,M,a,sc,u,S,v,tol); }
VF_CASES(svd,16,k){ int N=k/4+1,M=k%4+1; int pat=vf_pick("pattern",0,7); double sc=pickScale(N); Vec a(N*M); for(int i=0;i<N;i++) for(int j=0;j<M;j++) a[i+N*j]=rentry(N,M,pat,i,j); svd(N,M,a,sc,1e-6); }
#ifndef WITH_EIGEN
// orthogonal columns: one symbolic value per column, zero included
VF_CASES(svdsym,5,k){ static const int NM[5][2]={{1,1},{2,2},{3,2},{2,3},{1,2}}; int N=NM[k][0],M=NM[k][1],K=std::min(N,M); Vec a(N*M,0); int sh=vf_pick("shift",0,std::max(N,M)-1); int w=vf_pick("symbolic column",0,K-1), z=vf_pick("other value",0,2); for(int c=0;c<K;c++){ double t; if (c==w){ t=vf_real("t",-2,2); vf_assume((t==0)|(t>0.01)|(t<-0.01)); } else t=z==0?0.5:z==1?-1.5:0; if (N>=M) a[(c+sh)%N+N*c]=t; else a[c+N*((c+sh)%M)]=t; } svd(N,M,a,1,1e-6); }
#endif
