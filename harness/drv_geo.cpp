// Geometry in isolation.  mode=tree: radius and nearest-point queries on all subsets of small lattices.
// mode=elem: volumes, centroids and sphere decisions of elements with all node placements from small sets.
#include "common.hpp"
#include "Peridigm_JAMSearchTree.hpp"
#include "Peridigm_ZoltanSearchTree.hpp"
#include "Peridigm_GeometryUtils.hpp"
#include "kdtree.h"
#include <algorithm>

using namespace PeridigmNS;
typedef std::vector<double> V;
static chk::Reporter R;
#define EXPECT(ok,msg) (++R.checks, (ok) ? true : (R.fail(msg), false))
using chk::str;

// ------------------------------------------------------------------------------------------------ searches
static std::string list(const std::vector<int>& v){ std::string s; for(int x:v) s+=(s.empty()?"":" ")+str(x); return "{"+s+"}"; }

static void queries(V x){
  int n=x.size()/3;
  V q; // places to search around: the points, the centre of each pair of consecutive points, outside
  for(int i=0;i<n;++i) for(int d=0;d<3;++d) q.push_back(x[3*i+d]);
  for(int i=0;i+1<n;++i) for(int d=0;d<3;++d) q.push_back(0.5*(x[3*i+d]+x[3*i+3+d]));
  double lo[3],hi[3]; for(int d=0;d<3;++d){ lo[d]=1e300; hi[d]=-1e300; for(int i=0;i<n;++i){ lo[d]=std::min(lo[d],x[3*i+d]); hi[d]=std::max(hi[d],x[3*i+d]); } }
  for(int c=0;c<8;++c) for(int d=0;d<3;++d) q.push_back((c>>d)&1 ? hi[d]+0.45 : lo[d]-0.45);
  for(int d=0;d<3;++d) q.push_back(hi[d]+7.3);
  const double radii[]={0.3,0.6,0.8,1.0,1.05,1.3,1.45,1.8,2.2,3.1,20.0};
  JAMSearchTree jam(n,x.data()); ZoltanSearchTree zol(n,x.data());
  SearchTree* trees[2]={&jam,&zol}; const char* names[2]={"first","second"};
  femanica::kdtree<double,int> kd=femanica::kdtree<double,int>::get_tree(x.data(),n);
  std::vector<int> got, want, open;
  for(size_t k=0;k<q.size()/3;++k){
    const double* p=&q[3*k]; V d2(n); double best=1e300;
    for(int i=0;i<n;++i){ double s=0; for(int d=0;d<3;++d) s+=(x[3*i+d]-p[d])*(x[3*i+d]-p[d]); d2[i]=std::sqrt(s); best=std::min(best,d2[i]); }
    for(double r : radii){
      want.clear(); open.clear();
      for(int i=0;i<n;++i){ if(std::fabs(d2[i]-r)<1e-9) open.push_back(i); else if(d2[i]<r) want.push_back(i); }
      for(int t=0;t<2;++t){
        got.clear(); trees[t]->FindPointsWithinRadius(p,r,got); R.step();
        std::sort(got.begin(),got.end());
        std::vector<int> g; for(int i:got) if(!std::binary_search(open.begin(),open.end(),i)) g.push_back(i);
        bool twice=std::adjacent_find(got.begin(),got.end())!=got.end();
        EXPECT(g==want && !twice,std::string(names[t])+" structure around ("+str(p[0])+","+str(p[1])+","+str(p[2])+") radius "+str(r)+" gives "+list(got)+" instead of "+list(want)+(open.empty()?"":" with or without "+list(open)));
      }
    }
    int b=kd.nearest_neighbor_search(V(p,p+3)); R.step();
    EXPECT(b>=0 && b<n && d2[b]<=best+1e-12,"nearest to ("+str(p[0])+","+str(p[1])+","+str(p[2])+") is said to be "+str(b)+" at distance "+(b>=0&&b<n?str(d2[b]):"?")+", nearest is at "+str(best));
  }
  R.outcomeD(x.data(),x.size());
}

static void trees(){
  struct Lat { const char* name; int a,b,c; double h[3],o[3]; };
  const Lat lats[]={{"line-x",8,1,1,{1,1,1},{0,0,0}},{"line-z",1,1,8,{1,1,0.7},{3,-2,-2.1}},{"square",3,3,1,{1,1,1},{-1,-1,0}},{"upright",1,3,3,{1,0.8,1.1},{0.5,-1.7,100}},
                    {"block",2,2,2,{1,1,1},{-0.5,-0.5,-0.5}},{"slab",2,3,2,{1,1.2,0.9},{0,0,0}},{"tower",2,2,4,{1,1.1,0.9},{0.3,-0.2,-2}}};
  for(auto& L : lats){
    int n=L.a*L.b*L.c; V all;
    for(int k=0;k<L.c;++k) for(int j=0;j<L.b;++j) for(int i=0;i<L.a;++i){ all.push_back(L.o[0]+i*L.h[0]); all.push_back(L.o[1]+j*L.h[1]); all.push_back(L.o[2]+k*L.h[2]); }
    for(int order=0;order<(n>12?1:3);++order) for(int sub=1;sub<(1<<n);++sub){
      std::string key=std::string("subset/")+L.name+"/order="+str(order)+"/"+str(sub);
      if(!R.want(key)) continue;
      std::vector<int> ids; for(int i=0;i<n;++i) if((sub>>i)&1) ids.push_back(i);
      if(order==1) std::reverse(ids.begin(),ids.end());
      if(order==2) std::sort(ids.begin(),ids.end(),[n](int a,int b){ return (a*5)%13<(b*5)%13 || ((a*5)%13==(b*5)%13 && a<b); });
      V x; for(int i:ids) for(int d=0;d<3;++d) x.push_back(all[3*i+d]);
      queries(x);
    }
  }
  // points that coincide
  for(int code=1;code<729;++code){
    std::string key="repeat/"+str(code);
    if(!R.want(key)) continue;
    V x; int c=code; for(int i=0;i<6;++i,c/=3) for(int m=0;m<c%3;++m){ x.push_back(i%3); x.push_back(i/3); x.push_back(0.5); }
    queries(x);
  }
  // larger arrangements: regular, sheared, graded, clustered, on a line askew, on a sphere
  for(int kind=0;kind<7;++kind) for(int n=2;n<=(R.opt.thorough?7:5);++n){
    std::string key="cloud/"+str(kind)+"/"+str(n);
    if(!R.want(key)) continue;
    V x;
    for(int i=0;i<n;++i) for(int j=0;j<n;++j) for(int k=0;k<n;++k){
      double a=i,b=j,c=k; int q=(i*n+j)*n+k;
      switch(kind){
      case 1: a+=0.3*j; b+=0.2*k; break;
      case 2: a=0.1*std::pow(1.9,i); b=0.2*std::pow(1.7,j); c=std::pow(2.1,k)*0.05; break;
      case 3: a=10*(i%2)+0.1*i; b=10*(j%2)+0.1*j; c=0.1*k; break;
      case 4: a=0.11*q; b=-0.07*q; c=0.02*q; break;
      case 5: a=3*std::sin(1.0+q)*std::cos(0.7*q); b=3*std::sin(1.0+q)*std::sin(0.7*q); c=3*std::cos(1.0+q); break;
      case 6: a+=0.31*std::sin(17.0*q); b+=0.31*std::sin(31.0*q+1); c+=0.31*std::sin(53.0*q+2); break;
      }
      x.push_back(a); x.push_back(b); x.push_back(c);
    }
    queries(x);
  }
}

// ------------------------------------------------------------------------------------------------ elements
struct P3 { double v[3]; };
static P3 sub(const double* a,const double* b){ return {{a[0]-b[0],a[1]-b[1],a[2]-b[2]}}; }
static double dt(const P3& a,const P3& b){ return a.v[0]*b.v[0]+a.v[1]*b.v[1]+a.v[2]*b.v[2]; }
static P3 cr(const P3& a,const P3& b){ return {{a.v[1]*b.v[2]-a.v[2]*b.v[1],a.v[2]*b.v[0]-a.v[0]*b.v[2],a.v[0]*b.v[1]-a.v[1]*b.v[0]}}; }
static double vol6(const double* a,const double* b,const double* c,const double* d){ return dt(sub(b,a),cr(sub(c,a),sub(d,a))); }
static double segment(const double* p,const double* a,const double* b){
  P3 d=sub(b,a), q=sub(p,a); double t=dt(q,d)/dt(d,d); t=std::min(1.0,std::max(0.0,t));
  P3 r={{q.v[0]-t*d.v[0],q.v[1]-t*d.v[1],q.v[2]-t*d.v[2]}}; return std::sqrt(dt(r,r));
}
static double triangle(const double* p,const double* a,const double* b,const double* c){ // distance to the triangle
  double best=std::min(segment(p,a,b),std::min(segment(p,b,c),segment(p,c,a)));
  P3 u=sub(b,a), v=sub(c,a), w=sub(p,a); double uu=dt(u,u),uv=dt(u,v),vv=dt(v,v),wu=dt(w,u),wv=dt(w,v),D=uu*vv-uv*uv;
  double s=(vv*wu-uv*wv)/D, t=(uu*wv-uv*wu)/D;
  if(s>=0 && t>=0 && s+t<=1){ P3 n=cr(u,v); best=std::min(best,std::fabs(dt(w,n))/std::sqrt(dt(n,n))); }
  return best;
}
static bool insideTet(const double* p,const double* a,const double* b,const double* c,const double* d){
  double e=-1e-10; return vol6(a,b,c,p)>=e && vol6(a,c,d,p)>=e && vol6(a,d,b,p)>=e && vol6(b,d,c,p)>=e;   // for positively oriented tetrahedra
}
static const char* said(SphereIntersection s){ return s==INSIDE_SPHERE?"inside":s==OUTSIDE_SPHERE?"outside":s==INTERSECTS_SPHERE?"intersecting":"nonsense"; }
// Judges a decision given the greatest node distance and the least distance of the body.
static void judge(SphereIntersection got,double far,double near,double r,const std::string& what){
  if(std::fabs(far-r)<1e-9*(1+r) || std::fabs(near-r)<1e-9*(1+r)){ ++R.skipped; return; }
  SphereIntersection want = far<r ? INSIDE_SPHERE : near>r ? OUTSIDE_SPHERE : INTERSECTS_SPHERE;
  EXPECT(got==want,what+" radius "+str(r)+" said to be "+said(got)+", is "+said(want)+" (nearest "+str(near)+", farthest "+str(far)+")");
}
static double far(const double* p,const double* x,int n){ double m=0; for(int i=0;i<n;++i){ P3 d=sub(x+3*i,p); m=std::max(m,std::sqrt(dt(d,d))); } return m; }

// Placements: identity, translation, scaling, rotations.
static void place(int k,double* x,int n){
  static const double c=std::cos(0.7), s=std::sin(0.7), e=std::cos(1.9), f=std::sin(1.9);
  for(int i=0;i<n;++i){ double* p=x+3*i; double a=p[0],b=p[1],g=p[2];
    switch(k){
    case 1: p[0]=a-17.25; p[1]=b+5.5; p[2]=g+40; break;
    case 2: p[0]=0.01*a; p[1]=0.01*b; p[2]=0.01*g; break;
    case 3: { double u=c*a-s*b, v=s*a+c*b; p[0]=u; p[1]=e*v-f*g; p[2]=f*v+e*g; break; }
    case 4: { double u=e*a-f*g, v=f*a+e*g; p[0]=3*(c*u-s*b)+1; p[1]=3*(s*u+c*b)-2; p[2]=3*v+0.5; break; }
    case 5: p[0]=b; p[1]=g; p[2]=a; break;
    } }
}
static double scale(int k){ return k==2?0.01:k==4?3.0:1.0; }

static void tets(){
  // all tetrahedra with nodes on a 3x3x3 lattice
  for(int a=0;a<27;++a) for(int b=0;b<27;++b) for(int pl=0;pl<6;++pl){
    if(a==b) continue;
    std::string key="tet/"+str(a)+"/"+str(b)+"/place="+str(pl);
    if(!R.want(key)) continue;
    for(int c=0;c<27;++c) for(int d=0;d<27;++d){
      int id[4]={a,b,c,d}; double x[12]; for(int i=0;i<4;++i){ x[3*i]=id[i]%3; x[3*i+1]=(id[i]/3)%3; x[3*i+2]=id[i]/9; }
      double v6=vol6(x,x+3,x+6,x+9); if(v6<0.5) continue;
      double cen[3]={0,0,0}; for(int i=0;i<4;++i) for(int k=0;k<3;++k) cen[k]+=x[3*i+k]/4;
      place(pl,x,4); place(pl,cen,1);
      double s=scale(pl), V0=v6/6*s*s*s, tol=1e-11*s*s*s*(pl==1?100:1);
      double vol=-1, cc[3]={0,0,0}; tetCentroidAndVolume(x,cc,&vol); R.step();
      std::vector<double*> nodes={x,x+3,x+6,x+9};
      double v2=tetVolume(nodes), v3=-1; tetVolume(x,&v3); V c2(3); tetCentroid(nodes,c2);
      bool ok=std::fabs(vol-V0)<tol && std::fabs(v2-V0)<tol && std::fabs(v3-V0)<tol;
      for(int k=0;k<3;++k) ok=ok && std::fabs(cc[k]-cen[k])<1e-12*(1+std::fabs(cen[k])) && std::fabs(c2[k]-cen[k])<1e-12*(1+std::fabs(cen[k]));
      EXPECT(ok,"nodes "+str(a)+","+str(b)+","+str(c)+","+str(d)+": volume "+str(vol)+"/"+str(v2)+"/"+str(v3)+" instead of "+str(V0)+", centroid ("+str(cc[0])+","+str(cc[1])+","+str(cc[2])+") instead of ("+str(cen[0])+","+str(cen[1])+","+str(cen[2])+")");
      // spheres
      if(pl==0 || pl==3){
        if(b<a || c<b) continue;
        for(int q=0;q<27;++q) for(double r : {0.12,0.35,0.8,1.3,2.1,3.0}){
          double p[3]={-0.35+1.27*(q%3),-0.41+1.31*((q/3)%3),-0.38+1.23*(q/9)}; place(pl,p,1);
          double near=1e300; int F[4][3]={{0,1,2},{0,1,3},{0,2,3},{1,2,3}};
          for(auto& f:F) near=std::min(near,triangle(p,x+3*f[0],x+3*f[1],x+3*f[2]));
          if(insideTet(p,x,x+3,x+6,x+9)) near=0;
          SphereIntersection got=tetrahedronSphereIntersection(x,V(p,p+3),r); R.step();
          judge(got,far(p,x,4),near,r,"tetrahedron "+str(a)+","+str(b)+","+str(c)+","+str(d)+" sphere "+str(q));
        }
      }
    }
  }
}
static void triangles(){
  for(int a=0;a<18;++a) for(int b=0;b<18;++b) for(int pl=0;pl<6;++pl){
    if(a==b) continue;
    std::string key="triangle/"+str(a)+"/"+str(b)+"/place="+str(pl);
    if(!R.want(key)) continue;
    for(int c=0;c<18;++c){
      int id[3]={a,b,c}; double x[9]; for(int i=0;i<3;++i){ x[3*i]=id[i]%3; x[3*i+1]=(id[i]/3)%3; x[3*i+2]=id[i]/9; }
      P3 n=cr(sub(x+3,x),sub(x+6,x)); if(dt(n,n)<0.5) continue;
      place(pl,x,3);
      for(int q=0;q<64;++q) for(double r : {0.12,0.35,0.8,1.3,2.1,3.0}){
        double p[3]={-0.35+0.87*(q%4),-0.41+0.93*((q/4)%4),-0.78+0.83*(q/16)}; place(pl,p,1); double rr=r*scale(pl);
        std::vector<double*> nodes={x,x+3,x+6};
        SphereIntersection got=triangleSphereIntersection(nodes,V(p,p+3),rr); R.step();
        judge(got,far(p,x,3),triangle(p,x,x+3,x+6),rr,"triangle "+str(a)+","+str(b)+","+str(c)+" sphere "+str(q));
      }
    }
  }
}
// Exact integrals over the trilinear hexahedron (two-point Gauss is exact for volume and first moments).
static void trilinear(const double* x,double& vol,double* cen){
  vol=0; cen[0]=cen[1]=cen[2]=0; const double g=1/std::sqrt(3.0); static const int S[8][3]={{-1,-1,-1},{1,-1,-1},{1,1,-1},{-1,1,-1},{-1,-1,1},{1,-1,1},{1,1,1},{-1,1,1}};
  for(int q=0;q<8;++q){ double xi[3]={g*S[q][0],g*S[q][1],g*S[q][2]}, J[3][3]={{0}}, p[3]={0,0,0};
    for(int n=0;n<8;++n){ double f[3]; for(int k=0;k<3;++k) f[k]=1+S[n][k]*xi[k];
      for(int i=0;i<3;++i){ p[i]+=x[3*n+i]*f[0]*f[1]*f[2]/8; J[i][0]+=x[3*n+i]*S[n][0]*f[1]*f[2]/8; J[i][1]+=x[3*n+i]*S[n][1]*f[0]*f[2]/8; J[i][2]+=x[3*n+i]*S[n][2]*f[0]*f[1]/8; } }
    double D=J[0][0]*(J[1][1]*J[2][2]-J[1][2]*J[2][1])-J[0][1]*(J[1][0]*J[2][2]-J[1][2]*J[2][0])+J[0][2]*(J[1][0]*J[2][1]-J[1][1]*J[2][0]);
    vol+=D; for(int i=0;i<3;++i) cen[i]+=D*p[i]; }
  for(int i=0;i<3;++i) cen[i]/=vol;
}
static const int FACES[6][4]={{0,1,5,4},{1,2,6,5},{2,3,7,6},{3,0,4,7},{3,2,1,0},{4,5,6,7}};   // outward
static bool planar(const double* x){
  for(auto& f:FACES){ if(std::fabs(vol6(x+3*f[0],x+3*f[1],x+3*f[2],x+3*f[3]))>1e-9) return false; } return true;
}
static void hexOne(double* x,int pl,const std::string& what,bool spheres){
  bool flat=planar(x); double V0,c0[3]; trilinear(x,V0,c0); place(pl,x,8); place(pl,c0,1);
  double s=scale(pl); V0*=s*s*s;
  double vol=-1,c[3]={0,0,0},v2=-1; hexCentroidAndVolume(x,c,&vol); hexVolume(x,&v2); R.step();
  std::vector<double*> nodes; for(int i=0;i<8;++i) nodes.push_back(x+3*i); double v3=hexVolume(nodes);
  double tol=1e-10*s*s*s*(pl==1?100:1);
  bool ok=std::fabs(vol-V0)<tol && std::fabs(v2-V0)<tol && std::fabs(v3-V0)<tol;
  double ct=(flat?1e-9*(pl==1?100:1):4e-3)*s; for(int k=0;k<3;++k) ok=ok && std::fabs(c[k]-c0[k])<ct;
  EXPECT(ok,what+": volume "+str(vol)+"/"+str(v2)+"/"+str(v3)+" instead of "+str(V0)+", centroid ("+str(c[0])+","+str(c[1])+","+str(c[2])+") instead of ("+str(c0[0])+","+str(c0[1])+","+str(c0[2])+")");
  R.outcomeD(c,3);
  double m=maxDistanceToNode(8,x,c0); EXPECT(std::fabs(m-far(c0,x,8))<1e-12*(1+m),what+": farthest node");
  if(!spheres || !flat) return;
  double cen[3]={0,0,0}; for(int i=0;i<8;++i) for(int k=0;k<3;++k) cen[k]+=x[3*i+k]/8;
  for(int q=0;q<64;++q) for(double r : {0.08,0.2,0.45,0.9,1.4,2.2}){
    double p[3]={-0.55+0.71*(q%4),-0.61+0.73*((q/4)%4),-0.58+0.72*(q/16)}; place(pl,p,1); double rr=r*s;
    double near=1e300; bool in=false;
    for(auto& f:FACES) for(int h=0;h<2;++h){ int i=f[0],j=f[1+h],k=f[2+h]; near=std::min(near,triangle(p,x+3*i,x+3*j,x+3*k)); in=in||insideTet(p,x+3*i,x+3*k,x+3*j,cen)||insideTet(p,x+3*i,x+3*j,x+3*k,cen); }
    if(in) near=0;
    SphereIntersection got=hexahedronSphereIntersection(x,V(p,p+3),rr); R.step();
    judge(got,far(p,x,8),near,rr,what+" sphere "+str(q));
  }
}
static void hexes(){
  static const double U[24]={0,0,0, 1,0,0, 1,1,0, 0,1,0, 0,0,1, 1,0,1, 1,1,1, 0,1,1};
  static const double D[3][3]={{0,0,0},{0.13,-0.09,0.11},{-0.12,0.07,-0.08}};
  for(int code=0;code<6561;++code) for(int pl=0;pl<6;++pl){
    if(!R.opt.thorough && pl!=0 && pl!=4) continue;
    std::string key="hex/moved/"+str(code)+"/place="+str(pl);
    if(!R.want(key)) continue;
    double x[24]; int c=code; for(int i=0;i<8;++i){ for(int k=0;k<3;++k) x[3*i+k]=U[3*i+k]+D[c%3][k]; c/=3; }
    hexOne(x,pl,"hexahedron",false);
  }
  // flat faces: affine images and tapered boxes
  for(int sx=0;sx<3;++sx) for(int sy=0;sy<3;++sy) for(int sz=0;sz<3;++sz) for(int sh=0;sh<8;++sh) for(int tp=0;tp<4;++tp) for(int pl=0;pl<6;++pl){
    std::string key="hex/flat/"+str(sx)+str(sy)+str(sz)+"/shear="+str(sh)+"/taper="+str(tp)+"/place="+str(pl);
    if(!R.want(key)) continue;
    const double L[3]={1.0,0.6,1.7}; double x[24];
    for(int i=0;i<8;++i){ double a=U[3*i]*L[sx], b=U[3*i+1]*L[sy], g=U[3*i+2]*L[sz], w=U[3*i+2];
      if(tp&1) a*=1-0.4*w; if(tp&2) b*=1-0.3*w; if(tp==3){ a=U[3*i]*L[sx]*(1-0.4*w); b=U[3*i+1]*L[sy]*(1-0.4*w); }
      if(sh&1) a+=0.3*g; if(sh&2) b+=0.25*g; if(sh&4) a+=0.2*b;
      x[3*i]=a; x[3*i+1]=b; x[3*i+2]=g; }
    hexOne(x,pl,"hexahedron",pl<5);
  }
}
static void algebra(){
  for(int lead=0;lead<27;++lead){
    if(!R.want("determinant3/"+str(lead))) continue;
    for(int code=0;code<729;++code){ double m[9]; int c=lead; for(int i=0;i<3;++i){ m[i]=(c%3==2?2.5:c%3-1); c/=3; } c=code; for(int i=3;i<9;++i){ m[i]=(c%3==2?2.5:c%3-1); c/=3; }
      double d=m[0]*(m[4]*m[8]-m[5]*m[7])-m[1]*(m[3]*m[8]-m[5]*m[6])+m[2]*(m[3]*m[7]-m[4]*m[6]);
      double g=determinant3x3(m[0],m[1],m[2],m[3],m[4],m[5],m[6],m[7],m[8]), t=scalarTripleProduct(V(m,m+3),V(m+3,m+6),V(m+6,m+9)); R.step();
      EXPECT(std::fabs(d-g)<1e-12,"determinant of matrix "+str(code)+" is "+str(g)+" instead of "+str(d));
      EXPECT(std::fabs(d-t)<1e-12,"triple product of matrix "+str(code)+" is "+str(t)+" instead of "+str(d)); }
  }
  for(int hi=0;hi<256;++hi){
    if(!R.want("determinant4/"+str(hi))) continue;
    for(int lo=0;lo<256;++lo){ double m[16]; for(int i=0;i<16;++i) m[i]=((((hi<<8)|lo)>>i)&1)?1.0+0.5*(i%3):-0.25*(i%2);
      double a[16]; std::copy(m,m+16,a); double d=1; // elimination with pivoting
      for(int k=0;k<4;++k){ int p=k; for(int i=k;i<4;++i) if(std::fabs(a[4*i+k])>std::fabs(a[4*p+k])) p=i; if(a[4*p+k]==0){ d=0; break; } if(p!=k){ for(int j=0;j<4;++j) std::swap(a[4*p+j],a[4*k+j]); d=-d; } d*=a[4*k+k]; for(int i=k+1;i<4;++i){ double f=a[4*i+k]/a[4*k+k]; for(int j=k;j<4;++j) a[4*i+j]-=f*a[4*k+j]; } }
      double g=determinant4x4(m[0],m[1],m[2],m[3],m[4],m[5],m[6],m[7],m[8],m[9],m[10],m[11],m[12],m[13],m[14],m[15]); R.step();
      EXPECT(std::fabs(d-g)<1e-10,"determinant of matrix "+str(lo)+" is "+str(g)+" instead of "+str(d)); }
  }
}

int main(int argc,char** argv){
  MPI_Init(&argc,&argv);
  R.init(argc,argv);
  { float v; Zoltan_Initialize(argc,argv,&v); }
  std::string mode=R.get("mode");
  if(mode=="tree") trees();
  if(mode=="elem"){ algebra(); triangles(); tets(); hexes(); }
  R.finish();
  MPI_Finalize();
  return 0;
}
