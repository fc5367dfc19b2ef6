// C01: quadrature rules on the segment, the triangle and the tetrahedron
#include "vf.h"
#include "anifem++/fem/quadrature_formulas.h"
#include <stdexcept>
#include <vector>
#include <algorithm>
using namespace std;
struct Seg{ enum{D=1}; typedef SegmentQuadFormula Q; static const int lo=1, hi=20, top=21; static Q get(int o){ return segment_quadrature_formulas(o); } };
struct Tri{ enum{D=2}; typedef TriangleQuadFormula Q; static const int lo=1, hi=20, top=20; static Q get(int o){ return triangle_quadrature_formulas(o); } };
struct Tet{ enum{D=3}; typedef TetraQuadFormula Q; static const int lo=1, hi=20, top=20; static Q get(int o){ return tetrahedron_quadrature_formulas(o); } };
static double fact(int n){ double r=1; for(int i=2;i<=n;i++) r*=i; return r; }
// exact mean value of x1^a x2^b x3^c over the unit simplex of dimension d:  d! a! b! c!/(a+b+c+d)!
static double exactMoment(int d, const int*a){ double r=fact(d); int s=d; for(int i=0;i<d;i++){ r*=fact(a[i]); s+=a[i]; } return r/fact(s); }
template<class T> static int pickOrder(bool& thrown, typename T::Q& q){
    int o=vf_pick("order",-6,T::top+6);
    thrown=false; try { q=T::get(o); } catch(std::runtime_error&){ thrown=true; }
    return o;
}
// quadrature of an arbitrary polynomial of degree <= order equals its exact integral; nothing is returned outside of the range
template<class T> static void exactness(){
    typename T::Q q; bool thrown; int o=pickOrder<T>(thrown,q);
    if (o>=T::lo && o<=T::hi) vf_check(!thrown,"a rule exists for every documented order");
    if (o<0 || o>T::top) vf_check(thrown,"an order outside of the tabulated range is refused");
    if (thrown || o<0) return;
    const int D=T::D; int n=q.GetNumPoints(); vf_check(n>0,"rule has points"); if (n<=0) return;
    // powers of every coordinate in every point
    vector<double> pw(size_t(n)*D*(o+1)), w(n);
    for(int i=0;i<n;i++){ auto g=q.template GetPointWeight<>(i); w[i]=g.w; for(int d=0;d<D;d++){ double t=1; for(int k=0;k<=o;k++){ pw[(size_t(i)*D+d)*(o+1)+k]=t; t*=g.p[d+1]; } } }
    double num=0, ex=0;
    for (int a=0;a<=o;a++) for(int b=0;b<=(D>1?o-a:0);b++) for(int c=0;c<=(D>2?o-a-b:0);c++){
        double cf=vf_real("coef",-1,1); int al[3]={a,b,c}; double m=0;
        for(int i=0;i<n;i++){ const double*p=&pw[size_t(i)*D*(o+1)]; double t=p[a]; if (D>1) t*=p[(o+1)+b]; if (D>2) t*=p[2*(o+1)+c]; m+=w[i]*t; }
        num+=cf*m; ex+=cf*exactMoment(D,al);
    }
    vf_close(num,ex,1e-12,"the rule integrates every polynomial of its order exactly");
}
// points inside, coordinates consistent, point set invariant under all vertex permutations, partition numbers meaningful
static int orbit1(int*s,const int*){ return s[0]; }
template<class T> static void shape(){
    typename T::Q q; bool thrown; int o=pickOrder<T>(thrown,q); if (thrown || o<0) return;
    const int D=T::D, V=D+1; int n=q.GetNumPoints(); const qReal*P=q.GetPointData(), *W=q.GetWeightData();
    int i=vf_pick("point",0,n-1);
    auto g=q.template GetPointWeight<>(i);
    double s=0; for(int d=0;d<V;d++){ vf_check(g.p[d]>0 && g.p[d]<1,"quadrature points lie strictly inside"); s+=g.p[d]; vf_close(g.p[d],P[V*i+d],1e-14,"point data agree with the accessor"); }
    vf_close(s,1,1e-14,"barycentric coordinates sum to one"); vf_close(g.w,W[i],0,"weights agree with the accessor");
    // adjacent transpositions generate the symmetric group
    for(int t=0;t<D;t++){ bool found=false;
        for(int j=0;j<n&&!found;j++){ bool eq=fabs(W[j]-W[i])<=1e-15; for(int d=0;d<V&&eq;d++){ int e= d==t? t+1 : d==t+1? t : d; eq=fabs(P[V*j+d]-g.p[e])<=1e-14; } found=eq; }
        vf_check(found,"the rule is invariant under renumbering of the vertices"); }
    for(int j=0;j<n;j++) if (j!=i){ bool eq=true; for(int d=0;d<V;d++) eq=eq&&fabs(P[V*j+d]-P[V*i+d])<1e-13; vf_check(!eq,"no point is repeated"); }
    // symmetry partition
    auto sp=q.GetSymmetryPartition(); vf_check(q.IsSymmetric(),"the rule declares itself symmetric");
    static const int sz[4][5]={{0},{1,2,0,0,0},{1,3,6,0,0},{1,4,6,12,24}};
    int tot=0, cls=-1; for(size_t k=0;k<sp.size();k++){ int nb=sp[k]*sz[D][k]; if (i>=tot && i<tot+nb && cls<0) cls=sz[D][k]; tot+=nb; }
    vf_check(tot==n,"symmetry partition accounts for every point");
    // number of distinct permutations of the point's coordinates is the size of its declared orbit
    double c[4]; for(int d=0;d<V;d++) c[d]=g.p[d]; sort(c,c+V); int perms=1; for(int k=2;k<=V;k++) perms*=k; int run=1; for(int d=1;d<V;d++){ if (fabs(c[d]-c[d-1])<1e-13){ run++; perms/=run; } else run=1; }
    vf_check(cls==perms,"points are grouped by the declared symmetry type");
}
#ifdef WITH_EIGEN
template<class T> static void views(){
    typename T::Q q; bool thrown; int o=pickOrder<T>(thrown,q); if (thrown || o<0) return;
    const int V=T::D+1; int n=q.GetNumPoints(); int i=vf_pick("point",0,n-1);
    vf_check((uintptr_t)q.GetPointData()%128==0 && (uintptr_t)q.GetWeightData()%128==0,"tables are aligned as the views claim");
    auto w=q.WeightView(); auto b=q.BaryView(); auto g=q.template GetPointWeight<>(i);
    vf_check(w.cols()==n && b.cols()==n && b.rows()==V,"views have one column per point");
    vf_close(w(0,i),g.w,0,"weight view"); for(int d=0;d<V;d++) vf_close(b(d,i),g.p[d],1e-14,"point view");
}
VF_CASES(views,3,k){ if (k==0) views<Seg>(); else if (k==1) views<Tri>(); else views<Tet>(); }
#else
VF_CASES(exact,3,k){ if (k==0) exactness<Seg>(); else if (k==1) exactness<Tri>(); else exactness<Tet>(); }
VF_CASES(shape,3,k){ if (k==0) shape<Seg>(); else if (k==1) shape<Tri>(); else shape<Tet>(); }
#endif
