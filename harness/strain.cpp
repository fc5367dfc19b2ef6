// C17: strain invariants of finite elasticity: values, first and second derivatives, stresses and their tangents
#include "vf.h"
#include "anifem++/autodiff/cauchy_strain_autodiff.h"
#include <string>
using namespace Ani; using namespace Ani::Mech;
typedef SymMtx<3> SM; typedef PhysMtx<3> PM; typedef BiSymTensor4Rank<3> B4; typedef std::array<double,3> A3;
struct M { double a[3][3]; double*operator[](int i){ return a[i]; } const double*operator[](int i) const { return a[i]; } };
static const double EPS=1e-9;
static void eq(double a,double b,const char*m){ vf_close(a,b,EPS,m); }
static M symM(const char*n,double r){ M m; for(int i=0;i<3;i++) for(int j=i;j<3;j++) m[i][j]=m[j][i]=vf_real(n,-r,r); return m; }
static M genM(const char*n,double r){ M m; for(int i=0;i<3;i++) for(int j=0;j<3;j++) m[i][j]=vf_real(n,-r,r); return m; }
static SM sm(const M&m){ SM s; for(int i=0;i<3;i++) for(int j=i;j<3;j++) s(i,j)=m[i][j]; return s; }
static PM pm(const M&m){ PM s; for(int i=0;i<3;i++) for(int j=0;j<3;j++) s(i,j)=m[i][j]; return s; }
static A3 vec(const char*n){ A3 a; for(auto&x:a) x=vf_real(n,-1,1); return a; }
static M Id(){ M m; for(int i=0;i<3;i++) for(int j=0;j<3;j++) m[i][j]=i==j; return m; }
static M add(const M&x,const M&y,double c=1){ M m; for(int i=0;i<3;i++) for(int j=0;j<3;j++) m[i][j]=x[i][j]+c*y[i][j]; return m; }
static M mul(const M&x,const M&y){ M m; for(int i=0;i<3;i++) for(int j=0;j<3;j++){ m[i][j]=0; for(int k=0;k<3;k++) m[i][j]+=x[i][k]*y[k][j]; } return m; }
static M tr(const M&x){ M m; for(int i=0;i<3;i++) for(int j=0;j<3;j++) m[i][j]=x[j][i]; return m; }
static double trace(const M&x){ return x[0][0]+x[1][1]+x[2][2]; }
static double det(const M&x){ return x[0][0]*(x[1][1]*x[2][2]-x[1][2]*x[2][1])-x[0][1]*(x[1][0]*x[2][2]-x[1][2]*x[2][0])+x[0][2]*(x[1][0]*x[2][1]-x[1][1]*x[2][0]); }
static double dot(const A3&f,const M&x,const A3&s){ double r=0; for(int i=0;i<3;i++) for(int j=0;j<3;j++) r+=f[i]*x[i][j]*s[j]; return r; }
// definitions by the right Cauchy-Green tensor C = I + 2E; numbers: 0 I0fs, 1 I1, 2 I2, 3 I3, 4 I4fs, 5 I5fs
static double def(int k,const M&E,const A3&f,const A3&s){ M C=add(Id(),E,2); switch(k){ case 0: return dot(f,Id(),s); case 1: return trace(C); case 2: { double t=trace(C); return (t*t-trace(mul(C,C)))/2; } case 3: return det(C); case 4: return dot(f,C,s); default: return dot(f,mul(C,C),s); } }
static const char*NM[]={"I0fs","I1","I2","I3","I4fs","I5fs"};
static double val(int k,int o,const SM&E,const A3&f,const A3&s){ switch(k){ case 0: return o?C_I0fs(E,f,s):C_I0fs(f,s); case 1: return C_I1(E); case 2: return C_I2(E); case 3: return C_I3(E); case 4: return C_I4fs(E,f,s); default: return C_I5fs(E,f,s); } }
static SM der(int k,int o,const SM&E,const A3&f,const A3&s){ switch(k){ case 0: return o?C_I0fs_dE(E,f,s):C_I0fs_dE<double>(); case 1: return o?C_I1_dE(E):C_I1_dE<double>(); case 2: return C_I2_dE(E); case 3: return C_I3_dE(E); case 4: return o?C_I4fs_dE(E,f,s):C_I4fs_dE(f,s); default: return C_I5fs_dE(E,f,s); } }
static B4 hes(int k,int o,const SM&E,const A3&f,const A3&s){ switch(k){ case 0: return o?C_I0fs_ddE(E,f,s):C_I0fs_ddE<double>(); case 1: return o?C_I1_ddE(E):C_I1_ddE<double>(); case 2: return o?C_I2_ddE(E):C_I2_ddE<double>(); case 3: return C_I3_ddE(E); case 4: return o==0?C_I4fs_ddE<double>():o==1?C_I4fs_ddE(E,f,s):C_I4fs_ddE(f,s); default: return o?C_I5fs_ddE(E,f,s):C_I5fs_ddE(f,s); } }
static double con(const SM&S,const M&d){ double r=0; for(int i=0;i<3;i++) for(int j=0;j<3;j++) r+=S(i,j)*d[i][j]; return r; }
static double con(const B4&H,const M&d,const M&e){ double r=0; for(int i=0;i<3;i++) for(int j=0;j<3;j++) for(int k=0;k<3;k++) for(int l=0;l<3;l++) r+=H(i,j,k,l)*d[i][j]*e[k][l]; return r; }
static double rest(int k,const M&d){ return k==3?8*det(d):0; } // the invariants are polynomials of degree <= 3
// Taylor expansion around a symbolic strain in a symbolic direction, for a whole set of derivatives
static void taylor(int k,const M&E,const A3&f,const A3&s,double v,const SM&S,const B4&H){ std::string n=NM[k]; eq(v,def(k,E,f,s),("value of "+n).c_str()); M d=symM("d",1); eq(v+con(S,d)+con(H,d,d)/2+rest(k,d),def(k,add(E,d),f,s),("expansion of "+n).c_str()); }
VF_CASES(invariant,6,k){ int o=vf_pick("overload",0,2); M E=symM("E",1); A3 f=vec("f"),s=vec("s"); SM e=sm(E); taylor(k,E,f,s,val(k,o,e,f,s),der(k,o,e,f,s),hes(k,o,e,f,s)); }
template<class T> static void variable(int k,const T&x,int dif,const M&E,const A3&f,const A3&s){ vf_check(x.m_dif==dif,"stored order of derivatives"); taylor(k,E,f,s,x(),dif>=1?x.D():der(k,0,sm(E),f,s),dif>=2?x.DD():hes(k,0,sm(E),f,s)); if (!T::State::NotTrivialSecondDeriv && dif>=2) { B4 h=x.DD(); for(int i=0;i<21;i++) eq(h[i],0,"a variable declared linear has no second derivatives"); } if (!T::State::NotTrivialDeriv && dif>=1){ SM g=x.D(); for(int i=0;i<6;i++) eq(g[i],0,"a variable declared constant has no derivatives"); } }
VF_CASES(variables,6,k){ int dif=vf_pick("derivatives",0,2), late=vf_pick("late initialisation",0,1); M E=symM("E",1); A3 f=vec("f"),s=vec("s"); SM e=sm(E); switch(k){
#define MKV(T,...) { T<> x(dif,__VA_ARGS__), y; y.Init(dif,__VA_ARGS__); variable(k,late?y:x,dif,E,f,s); } break;
  case 0: MKV(I0fs,f,s) case 1: MKV(I1,e) case 2: MKV(I2,e) case 3: MKV(I3,e) case 4: MKV(I4fs,e,f,s) default: MKV(I5fs,e,f,s) } }
// J = sqrt(I3): strains around zero
static void jac(double J,const SM&S,const B4&H,const M&E){ M C=add(Id(),E,2); vf_close(J*J,det(C),1e-9,"value of J"); SM e=sm(E), S3=C_I3_dE(e); B4 H3=C_I3_ddE(e); for(int i=0;i<3;i++) for(int j=i;j<3;j++){ vf_close(2*J*S(i,j),S3(i,j),1e-9,"derivative of J"); for(int k=0;k<3;k++) for(int l=k;l<3;l++) vf_close(2*J*H(i,j,k,l)+2*S(i,j)*S(k,l),H3(i,j,k,l),1e-8,"second derivative of J"); } }
VF_CASE(jacobian){ int w=vf_pick("variable",0,1); M E; for(int i=0;i<3;i++) for(int j=i;j<3;j++) E[i][j]=E[j][i]=vf_real("E",-0.1,0.1); SM e=sm(E); if (w){ J<> x(2,e); jac(x(),x.D(),x.DD(),E); J<> y(1,e),z(0,e); eq(y(),x(),"value of J"); eq(z(),x(),"value of J"); for(int i=0;i<6;i++) eq(y.D()[i],x.D()[i],"derivative of J"); } else jac(C_J(e),C_J_dE(e),C_J_ddE(e),E); }
// determinant of the deformation gradient
VF_CASE(detF){ M g; for(int i=0;i<3;i++) for(int j=0;j<3;j++) g[i][j]=vf_real("u",-0.2,0.2); M F=add(Id(),g); double J=C_J(grU_to_E(pm(g))), d=det(F); vf_close(J*J,d*d,1e-9,"J is the determinant of the deformation gradient"); }
// strains
VF_CASES(strain,4,k){ M g=genM("u",1), d=genM("du",1); M F=add(Id(),g); M E=add(mul(tr(F),F),Id(),-1), dE=add(mul(tr(d),F),mul(tr(F),d)); SM r; switch(k){ case 0: r=F_to_E(pm(F)); break; case 1: r=grU_to_E(pm(g)); break; case 2: r=F_and_dF_to_dE(pm(F),pm(d)); break; default: r=grU_and_dgrU_to_dE(pm(g),pm(d)); } for(int i=0;i<3;i++) for(int j=0;j<3;j++) eq(r(i,j),(k<2?E:dE)[i][j]/2,k<2?"Green strain":"variation of the Green strain"); }
// stresses
VF_CASE(stress){ M g=genM("u",1), S=symM("S",1); M P=mul(add(Id(),g),S); PM r=S_to_P(pm(g),sm(S)); for(int i=0;i<3;i++) for(int j=0;j<3;j++) eq(r(i,j),P[i][j],"first Piola-Kirchhoff stress"); }
VF_CASE(tangent){ M g=genM("u",1), S=symM("S",1), d=genM("du",1); M F=add(Id(),g); B4 T; for(std::size_t i=0;i<T.continuous_size();i++) T[i]=vf_real("dS",-1,1); auto D=dS_to_dP(pm(g),sm(S),T); M dE=add(mul(tr(d),F),mul(tr(F),d)), dS; for(int i=0;i<3;i++) for(int j=0;j<3;j++){ dS[i][j]=0; for(int k=0;k<3;k++) for(int l=0;l<3;l++) dS[i][j]+=T(i,j,k,l)*dE[k][l]/2; } M dP=add(mul(d,S),mul(F,dS)); for(int i=0;i<3;i++) for(int j=0;j<3;j++){ double x=0; for(int k=0;k<3;k++) for(int l=0;l<3;l++) x+=D(i,j,k,l)*d[k][l]; eq(x,dP[i][j],"variation of the first Piola-Kirchhoff stress"); } }
// potentials: the chain rule over the invariants
VF_CASES(potential,6,k){ int dif=vf_pick("derivatives",1,2); M E; for(int i=0;i<3;i++) for(int j=i;j<3;j++) E[i][j]=E[j][i]=k<2?vf_real("E",-1,1):k==3&&j!=i+1?0.05*(i-j+1):vf_real("E",-0.1,0.1); A3 f={0.6,0,0.8}, s={0,1,0}; double c=vf_real("c",0.5,2); SM e=sm(E); struct T { double v; SM d; B4 h; };
  auto at=[&](int n){ return T{val(n,0,e,f,s),der(n,0,e,f,s),hes(n,0,e,f,s)}; }; auto atJ=[&](){ return T{C_J(e),C_J_dE(e),C_J_ddE(e)}; };
  auto cmp=[&](auto W,const T&a,const T&b,double v,double wa,double wb,double waa,double wab,double wbb){ vf_close(W(),v,1e-8,"potential"); SM g=W.D(); for(int i=0;i<3;i++) for(int j=i;j<3;j++) vf_close(g(i,j),wa*a.d(i,j)+wb*b.d(i,j),1e-8,"stress of a potential"); if (dif<2) return; B4 h=W.DD(); for(int i=0;i<3;i++) for(int j=i;j<3;j++) for(int m=0;m<3;m++) for(int l=m;l<3;l++) vf_close(h(i,j,m,l),wa*a.h(i,j,m,l)+wb*b.h(i,j,m,l)+waa*a.d(i,j)*a.d(m,l)+wab*(a.d(i,j)*b.d(m,l)+b.d(i,j)*a.d(m,l))+wbb*b.d(i,j)*b.d(m,l),1e-8,"tangent of a potential"); };
  switch(k){ case 0: { T a=at(1),b=at(2); cmp(c*(I1<>(dif,e)-3)*(I2<>(dif,e)-3),a,b,c*(a.v-3)*(b.v-3),c*(b.v-3),c*(a.v-3),0,c,0); } break;
  case 1: { T a=at(4),b=at(5); cmp(sq(I4fs<>(dif,e,f,s)-I0fs<>(dif,f,s))*c+I5fs<>(dif,e,f,s),a,b,c*a.v*a.v+b.v,2*c*a.v,1,2*c,0,0); } break;
  case 2: { T a=at(1),b=atJ(); cmp(c*(I1<>(dif,e)-3-2*log(J<>(dif,e))),a,b,c*(a.v-3-2*std::log(b.v)),c,-2*c/b.v,0,0,2*c/(b.v*b.v)); } break;
  case 3: { T a=at(1),b=atJ(); cmp(I1<>(dif,e)*pow(J<>(dif,e),-2),a,b,a.v/(b.v*b.v),1/(b.v*b.v),-2*a.v/(b.v*b.v*b.v),0,-2/(b.v*b.v*b.v),6*a.v/(b.v*b.v*b.v*b.v)); } break;
  case 4: { T b=at(3); cmp(exp(c*sq(I4fs<>(dif,e,f,f)-1)),T{val(4,0,e,f,f),der(4,0,e,f,f),hes(4,0,e,f,f)},b,std::exp(c*(val(4,0,e,f,f)-1)*(val(4,0,e,f,f)-1)),2*c*(val(4,0,e,f,f)-1)*std::exp(c*(val(4,0,e,f,f)-1)*(val(4,0,e,f,f)-1)),0,(2*c+4*c*c*(val(4,0,e,f,f)-1)*(val(4,0,e,f,f)-1))*std::exp(c*(val(4,0,e,f,f)-1)*(val(4,0,e,f,f)-1)),0,0); } break;
  case 5: { T a=at(3),b=at(2); cmp(sq(I3<>(dif,e)-1)*c-I2<>(dif,e)/2,a,b,c*(a.v-1)*(a.v-1)-b.v/2,2*c*(a.v-1),-0.5,2*c,0,0); } break; } }
