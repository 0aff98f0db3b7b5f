// Bond network of a text-file discretization, enumerated layouts, brute-force oracle.
//   mode=horizon : bonds are exactly the points inside the horizon            (P01)
//   mode=filter  : cut surfaces and block separation remove exactly their bonds (P02)
#include "common.hpp"
#include "geom.hpp"
#include <fstream>
#include <algorithm>
#include <Epetra_MpiComm.h>
#include <Epetra_Vector.h>
#include <Teuchos_ParameterList.hpp>
#include "Peridigm_TextFileDiscretization.hpp"
#include "Peridigm_HorizonManager.hpp"
#include "BondFilter.h"

using namespace std; using namespace chk;
typedef array<double,3> V3;
static Reporter R;

struct Horizon {              // horizon of block b at position x
  string name;
  vector<string> spec;        // per block (0,1): constant or function text
  vector<bool> constant;
  function<double(int,const V3&)> f;
  vector<vector<int>> names={};  // blocks each specification is given for (-1: default), one block each if empty
};
struct Layout { string name; vector<V3> x; vector<int> block; };

static const int BLK[2][3]={{1,2,3},{2,7,11}};
struct Surface;
static vector<double> gatherD(const vector<double>& v){ int n=v.size(); vector<int> c(R.size),d(R.size); MPI_Gather(&n,1,MPI_INT,c.data(),1,MPI_INT,0,MPI_COMM_WORLD); int t=0; for(int i=0;i<R.size;++i){d[i]=t;t+=c[i];} vector<double> o(R.rank==0?t:0); MPI_Gatherv((void*)v.data(),n,MPI_DOUBLE,o.data(),c.data(),d.data(),MPI_DOUBLE,0,MPI_COMM_WORLD); return o; }

// Build the discretization and compare it on rank 0 with the wanted relation.
// relation(i,j): 1 bonded, 0 not bonded, -1 not decided (borderline)
static void evaluate(const Layout& L,const Horizon& H,const vector<int>& ids,const vector<int>& order,
                     function<void(Teuchos::ParameterList&)> extra,function<int(int,int)> relation,int style=0){
  int n=L.x.size();
  string file="mesh.txt";
  if(R.rank==0){ ofstream f(file); f.precision(17);
    if(style) f<<"# comment\n\n";
    for(int k=0;k<n;++k){ int i=order[k]; f<<(style?"   ":"")<<L.x[i][0]<<" "<<L.x[i][1]<<"  "<<L.x[i][2]<<" "<<ids[L.block[i]]<<" "<<0.25+0.125*k<<"\n"; if(style&&k%3==1) f<<"\n# x\n"; } }
  MPI_Barrier(MPI_COMM_WORLD);
  set<int> used(L.block.begin(),L.block.end());
  Teuchos::ParameterList blocks;
  for(int b=0;b<(int)H.spec.size();++b){
    Teuchos::ParameterList& s=blocks.sublist("B"+to_string(b));
    string nm=b==(int)H.spec.size()-1 && H.spec.size()==1?"default":"block_"+to_string(ids[b]);
    if(!H.names.empty()){ nm=""; for(int q:H.names[b]) nm+=string(nm.empty()?"":" ")+(q<0?"default":"block_"+to_string(ids[q])); }
    s.set<string>("Block Names",nm);
    if(H.constant[b]) s.set<double>("Horizon",atof(H.spec[b].c_str())); else s.set<string>("Horizon",H.spec[b]);
  }
  // the store of horizons keeps old entries: overwrite every id that may be in use
  if(H.spec.size()==1) for(int b=0;b<3;++b) for(int v=0;v<2;++v){ Teuchos::ParameterList& s=blocks.sublist("O"+to_string(b)+to_string(v)); s.set<string>("Block Names","block_"+to_string(BLK[v][b])); if(H.constant[0]) s.set<double>("Horizon",atof(H.spec[0].c_str())); else s.set<string>("Horizon",H.spec[0]); }
  vector<double> mine, head;
  {
    Quiet q;
    PeridigmNS::HorizonManager::self().loadHorizonInformationFromBlockParameters(blocks);
    Teuchos::RCP<Teuchos::ParameterList> p=Teuchos::rcp(new Teuchos::ParameterList);
    p->set<string>("Type","Text File"); p->set<string>("Input Mesh File",file);
    if(extra) extra(*p);
    Teuchos::RCP<Epetra_Comm> comm=Teuchos::rcp(new Epetra_MpiComm(MPI_COMM_WORLD));
    PeridigmNS::TextFileDiscretization disc(comm,p);
    Teuchos::RCP<const Epetra_BlockMap> own=disc.getGlobalOwnedMap(1),ovl=disc.getGlobalOverlapMap(1);
    Teuchos::RCP<PeridigmNS::NeighborhoodData> nd=disc.getNeighborhoodData();
    Epetra_Vector &X=*disc.getInitialX(),&Vv=*disc.getCellVolume(),&B=*disc.getBlockID(),&Hh=*disc.getHorizon();
    int idx=0; int nb=0; int maxb=0;
    R.expect(nd->NumOwnedPoints()==own->NumMyElements(),"number of owned points");
    for(int k=0;k<nd->NumOwnedPoints();++k){
      int lid=nd->OwnedIDs()[k]; int gid=ovl->GID(lid); int ol=own->LID(gid);
      R.expect(ol>=0,"owned point not in the owned map");
      if(ol<0) ol=0;
      R.expect(nd->NeighborhoodPtr()[k]==idx,"neighborhood pointer");
      int nn=nd->NeighborhoodList()[idx++];
      double r[8]={(double)gid,X[3*ol],X[3*ol+1],X[3*ol+2],Vv[ol],B[ol],Hh[ol],(double)nn};
      mine.insert(mine.end(),r,r+8);
      for(int m=0;m<nn;++m) mine.push_back(ovl->GID(nd->NeighborhoodList()[idx++]));
      nb+=nn; maxb=max(maxb,nn);
    }
    R.expect((int)disc.getNumBonds()==nb,"reported number of bonds");
    R.expect((int)disc.getMaxNumBondsPerElem()==maxb,"reported maximum number of bonds");
    R.expect(disc.getNumBlocks()==(int)used.size(),"number of blocks");
    for(auto& kv:*disc.getElementBlocks()) for(int g:kv.second){ int ol=own->LID(g); R.expect(ol>=0 && kv.first=="block_"+to_string((int)B[ol]),"block element lists"); }
    R.expect(disc.getGlobalBondMap()->NumMyPoints()==nb,"bond map size");
  }
  vector<double> all=gatherD(mine);
  R.step(n);
  if(R.rank!=0) return;
  vector<set<int>> got(n); vector<int> seen(n,0); bool ok=true;
  for(size_t o=0;o<all.size();){
    int g=(int)all[o]; int nn=(int)all[o+7];
    if(!R.expect(g>=0&&g<n,"global id out of range")) return;
    int i=order[g]; seen[g]++;
    for(int c=0;c<3;++c) ok&=(all[o+1+c]==L.x[i][c]);
    ok&=(fabs(all[o+4]-(0.25+0.125*g))<1e-13)&&(all[o+5]==ids[L.block[i]]);
    ok&=fabs(all[o+6]-H.f(L.block[i],L.x[i]))<=1e-12*fabs(all[o+6]);
    for(int m=0;m<nn;++m){ int q=(int)all[o+8+m]; if(!R.expect(q>=0&&q<n,"neighbor id out of range")) return; R.expect(got[i].insert(order[q]).second,"a bond is listed twice"); }
    o+=8+nn;
  }
  R.expect(ok,"coordinates, volume, block or horizon of a point");
  for(int g=0;g<n;++g) R.expect(seen[g]==1,"point owned "+to_string(seen[g])+" times");
  uint64_t h=n; string bad; int nbad=0;
  for(int i=0;i<n;++i) for(int j=0;j<n;++j){
    int w=(i==j)?0:relation(i,j); int g=got[i].count(j);
    h=h*1099511628211ull+g;
    if(w>=0 && w!=g){ ++nbad; if(nbad==1) bad=string(g?"extra":"missing")+" bond from ("+str(L.x[i][0])+","+str(L.x[i][1])+","+str(L.x[i][2])+") to ("+str(L.x[j][0])+","+str(L.x[j][1])+","+str(L.x[j][2])+")"; }
    if(w<0) R.counters["borderline pairs"]++;
  }
  R.checks+=n*n;
  R.outcome(h);
  if(nbad) R.fail(bad+" ("+to_string(nbad)+" wrong)");
}

static double dist(const V3&a,const V3&b){ return sqrt((a[0]-b[0])*(a[0]-b[0])+(a[1]-b[1])*(a[1]-b[1])+(a[2]-b[2])*(a[2]-b[2])); }

static vector<vector<int>> orders(int n){ vector<vector<int>> o(3,vector<int>(n)); for(int i=0;i<n;++i){ o[0][i]=i; o[1][i]=n-1-i; } int k=0; for(int s=0;s<3;++s) for(int i=s;i<n;i+=3) o[2][k++]=i; return o; }

static vector<V3> grid(int a,int b,int c,V3 h={1,1,1},V3 o={0,0,0}){ vector<V3> x; for(int k=0;k<c;++k) for(int j=0;j<b;++j) for(int i=0;i<a;++i) x.push_back({o[0]+i*h[0],o[1]+j*h[1],o[2]+k*h[2]}); return x; }

static Horizon hconst(double a){ return {"c"+str(a),{str(a)},{true},[a](int,const V3&){return a;}}; }
static Horizon hblock(double a,double b){ return {"b"+str(a)+"_"+str(b),{str(a),str(b)},{true,true},[a,b](int k,const V3&){return k?b:a;}}; }
static Horizon hfun(int w){
  if(w==0) return {"f+x",{"0.6 + 0.45*x"},{false},[](int,const V3&x){return 0.6+0.45*x[0];}};
  if(w==1) return {"f-x",{"2.6 - 0.55*x"},{false},[](int,const V3&x){return max(2.6-0.55*x[0],2.6-0.55*x[0]);}};
  if(w==2) return {"fyz",{"value = 0.55; if(y > 0.5) { value = 1.6; } if(z > 0.5) { value = 2.3; }"},{false},[](int,const V3&x){double v=0.55; if(x[1]>0.5)v=1.6; if(x[2]>0.5) v=2.3; return v;}};
  return {"fmix",{"1.05","0.7 + 0.3*x"},{true,false},[](int k,const V3&x){return k?0.7+0.3*x[0]:1.05;}};
}

static string lng(double a){ char b[40]; snprintf(b,40,"%.15g",a); return b; }
static Horizon hfine(double a){ return {"c"+lng(a),{lng(a)},{true},[a](int,const V3&){return a;}}; }
static Horizon hthree(double a,double b,double c){ return {"t"+str(a)+"_"+str(b)+"_"+str(c),{str(a),str(b),str(c)},{true,true,true},[a,b,c](int k,const V3&){return k==0?a:k==1?b:c;}}; }

static void one(const string& key,const Layout& L,const Horizon& H,int idv,int ord,int style=0){
  if(!R.want(key)) return;
  int n=L.x.size();
  vector<int> ids(BLK[idv],BLK[idv]+3);
  evaluate(L,H,ids,orders(n)[ord],nullptr,[&](int i,int j){ double h=H.f(L.block[i],L.x[i]),d=dist(L.x[i],L.x[j]); if(fabs(d-h)<1e-9*h) return -1; return d<h?1:0; },style);
}

static void runHorizon(){
  int np=R.size; bool T=R.opt.thorough;
  // all subsets of small lattices, one block
  struct Lat{string nm; vector<V3> x;}; vector<Lat> lats={{"2x2x2",grid(2,2,2)},{"3x3x1",grid(3,3,1)},{"6x1x1",grid(6,1,1,{0.7,1,1},{-1,2,0})},{"1x2x4",grid(1,2,4,{1,0.5,1.5},{0,-3,1})}};
  if(T){ lats.push_back({"3x2x2",grid(3,2,2)}); lats.push_back({"2x5x1",grid(2,5,1,{1,0.8,1})}); }
  for(auto&la:lats){ int m=la.x.size();
    for(int s=1;s<(1<<m);++s){ int n=__builtin_popcount(s); if(n<np||n<2) continue;
      if(!T && m==9 && np>1 && (n%2==0) && n<8) continue;      // quick tier: odd sizes only for the larger lattice in parallel
      Layout L; for(int i=0;i<m;++i) if(s>>i&1){ L.x.push_back(la.x[i]); L.block.push_back(0); }
      int hi=0; for(double h:{0.6,1.01,1.5,2.3}){ one("sub/"+la.nm+"/"+to_string(s)+"/h"+str(h),L,hconst(h),0,(s+hi)%3,(s%5)==0); ++hi; } } }
  // full bodies, all block splittings and horizon specifications
  vector<Lat> bodies={{"4x4x1",grid(4,4,1)},{"3x3x3",grid(3,3,3)},{"8x2x1",grid(8,2,1)},{"12x1x1",grid(12,1,1,{0.5,1,1})},{"4x2x3",grid(4,2,3,{0.75,1.25,1})},{"1x1x10",grid(1,1,10,{1,1,0.6},{5,5,-3})}};
  { // graded spacing and an irregular cloud
    vector<V3> g; double x=0; for(int i=0;i<7;++i){ for(int j=0;j<2;++j) g.push_back({x,0.3*j+0.05*i,0.1*((i*j)%3)}); x+=0.2*(i+1)*0.6; } bodies.push_back({"graded",g});
    vector<V3> c; for(int i=0;i<20;++i) c.push_back({fmod(i*0.618034,1.0)*3,fmod(i*0.754878,1.0)*2,fmod(i*0.569840,1.0)*2.5}); bodies.push_back({"cloud",c});
    vector<V3> two; for(auto&p:grid(3,3,1)) two.push_back(p); for(auto&p:grid(3,3,1,{1,1,1},{0,0,1.2})) two.push_back(p); bodies.push_back({"layers",two});
    vector<V3> far; for(auto&p:grid(2,2,2)) far.push_back(p); for(auto&p:grid(2,2,2,{1,1,1},{20,0,0})) far.push_back(p); bodies.push_back({"far",far});
  }
  if(T){ bodies.push_back({"5x5x5",grid(5,5,5)}); bodies.push_back({"10x4x2",grid(10,4,2,{0.9,1.1,1})}); }
  for(auto&b:bodies){ int n=b.x.size(); if(n<np) continue;
    for(int split=0;split<5;++split) for(int perm=0;perm<3;++perm) for(int ord=0;ord<3;++ord) for(int idv=0;idv<2;++idv){
      Layout L; L.x=b.x; L.block.assign(n,0);
      for(auto&p:L.x){ V3 q=p; for(int c=0;c<3;++c) p[(c+perm)%3]=q[c]; }
      double mx=0,c0=1e9,c1=-1e9; int ax=perm%3; for(auto&p:L.x){ c0=min(c0,p[ax]); c1=max(c1,p[ax]); } (void)mx;
      for(int i=0;i<n;++i){ double f=(L.x[i][ax]-c0)/max(1e-9,c1-c0);
        L.block[i]= split==0?0: split==1?(f>0.5): split==2?(i%2): split==3?(i==n/2): (i<n-2); }
      bool two=set<int>(L.block.begin(),L.block.end()).size()==2;
      vector<Horizon> hs={hconst(1.01),hconst(1.6),hconst(3.05),hfun(0),hfun(1),hfun(2)};
      if(b.nm=="far"){ hs.erase(hs.begin()+4); hs.erase(hs.begin()+3); }
      if(two){ hs.clear(); for(double a:{0.55,1.05,2.6}) for(double c:{0.55,1.05,2.6}) if(a!=c) hs.push_back(hblock(a,c)); hs.push_back(hblock(1.1,4.2)); hs.push_back(hfun(3)); }
      if(split==0 && idv) continue;
      for(auto&H:hs){
        bool pos=true; for(int i=0;i<n;++i) pos&=H.f(L.block[i],L.x[i])>0.05;
        if(!pos) continue;
        one("body/"+b.nm+"/s"+to_string(split)+"/p"+to_string(perm)+"/o"+to_string(ord)+"/i"+to_string(idv)+"/"+H.name,L,H,idv,ord);
      }
    } }
}

static void runHorizon2(){
  int np=R.size; bool T=R.opt.thorough;
  // horizons that separate distances differing in the seventh digit and beyond
  { vector<pair<string,vector<V3>>> B={{"3x3x3",grid(3,3,3)},{"4x3x1",grid(4,3,1)},{"7x1x1",grid(7,1,1)}};
    for(auto&b:B) for(double d:{1.0,sqrt(2.0),sqrt(3.0),2.0,sqrt(5.0),3.0}) for(double e:{-1e-4,-3e-6,-1e-7,-2e-8,2e-8,1e-7,3e-6,1e-4}) for(int sp=0;sp<2;++sp){
      Layout L; L.x=b.second; int n=L.x.size(); if(n<np) continue; L.block.assign(n,0); for(int i=0;i<n;++i) if(sp) L.block[i]=i%2;
      double h=d+e; Horizon H=hfine(h); if(sp) H={"b"+lng(h),{lng(h),lng(3.0-e)},{true,true},[h,e](int k,const V3&){return k?3.0-e:h;}};
      one("fine/"+b.first+"/s"+to_string(sp)+"/"+H.name,L,H,0,0); } }
  // small and large bodies, far from the origin
  for(double s:{1e-6,1e-3,40.0,1e5}) for(double o:{0.0,-3.0,250.0}) for(int w=0;w<3;++w){
    Layout L; L.x= w==0?grid(3,3,2):w==1?grid(9,1,1):grid(2,4,2); int n=L.x.size(); if(n<np) continue;
    for(int i=0;i<n;++i) for(int c=0;c<3;++c) L.x[i][c]=s*(L.x[i][c]+o*(c+1)+0.07*((i*(c+3))%5));
    for(double h:{0.7,1.03,1.61,2.45}) for(int sp=0;sp<2;++sp){ L.block.assign(n,0); if(sp) for(int i=0;i<n;++i) L.block[i]=i>n/2;
      double a=h*s,b=1.37*h*s; Horizon H=hfine(a); if(sp) H={"b"+lng(a),{lng(a),lng(b)},{true,true},[a,b](int k,const V3&){return k?b:a;}};
      one("scale/"+lng(s)+"/"+lng(o)+"/"+to_string(w)+"/s"+to_string(sp)+"/"+lng(h),L,H,0,w); } }
  // three blocks; specifications for one block each, for several together, for the rest by default
  vector<vector<vector<int>>> groups={{{0},{1},{2}},{{2},{0},{1}},{{0,1},{2}},{{0,2},{1}},{{1,2},{0}},{{1},{-1}},{{2},{-1}},{{0},{1},{-1}},{{2,0},{-1}},{{0,1,2}}};
  vector<double> val={0.8,1.3,2.2};
  for(int w=0;w<3;++w) for(int sp=0;sp<4;++sp) for(int idv=0;idv<2;++idv) for(int g=0;g<(int)groups.size();++g) for(int rot=0;rot<3;++rot){
    Layout L; L.x= w==0?grid(3,3,2):w==1?grid(9,1,1,{0.7,1,1}):grid(4,4,1); int n=L.x.size(); if(n<np) continue;
    L.block.resize(n); for(int i=0;i<n;++i) L.block[i]= sp==0?i%3: sp==1?i*3/n: sp==2?(i==0?1:i==n-1?2:0):(i%2?2:i%4?1:0);
    vector<double> hb(3,0.0); Horizon H; H.name="g"+to_string(g)+"r"+to_string(rot); H.names=groups[g];
    for(int k=0;k<(int)groups[g].size();++k){ double v=val[(k+rot)%3]; H.spec.push_back(str(v)); H.constant.push_back(true); for(int q:groups[g][k]) if(q<0){ for(auto&x:hb) if(x==0.0) x=v; } else hb[q]=v; }
    H.f=[hb](int k,const V3&){return hb[k];};
    if(any_of(groups[g].begin(),groups[g].end(),[](const vector<int>&q){return q[0]<0;})){
      // the store of horizons keeps old entries, so that the default cannot be seen for names used before
      vector<int> fresh; static int next=100; for(int b=0;b<3;++b) fresh.push_back(next++);
      if(!R.want("three/"+to_string(w)+"/s"+to_string(sp)+"/i"+to_string(idv)+"/"+H.name)) continue;
      evaluate(L,H,fresh,orders(n)[rot],nullptr,[&](int i,int j){ double h=hb[L.block[i]],d=dist(L.x[i],L.x[j]); if(fabs(d-h)<1e-9*h) return -1; return d<h?1:0; });
      continue;
    }
    one("three/"+to_string(w)+"/s"+to_string(sp)+"/i"+to_string(idv)+"/"+H.name,L,H,idv,rot); }
  // many neighbors
  for(int w=0;w<(T?4:2);++w) for(double h:{2.6,4.1,9.0}) for(int sp=0;sp<2;++sp){
    Layout L; L.x= w==0?grid(5,5,5):w==1?grid(30,2,2):w==2?grid(7,6,6):grid(60,3,2); int n=L.x.size(); L.block.assign(n,0); if(sp) for(int i=0;i<n;++i) L.block[i]=(i/7)%2;
    Horizon H= sp?hblock(h,1.1):hconst(h); one("many/"+to_string(w)+"/s"+to_string(sp)+"/"+str(h),L,H,0,2); }
}

// ------------------------------------------------------------------ cut surfaces
struct Surf { int kind; V3 c,n,u; double a,b; };   // kind 0 rectangle (c corner,u bottom dir,a bottom length,b side length), 1 disk (c centre,a radius)
static V3 cr(const V3&a,const V3&b){ return {a[1]*b[2]-a[2]*b[1],a[2]*b[0]-a[0]*b[2],a[0]*b[1]-a[1]*b[0]}; }
static double dt(const V3&a,const V3&b){ return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
static V3 sub(const V3&a,const V3&b){ return {a[0]-b[0],a[1]-b[1],a[2]-b[2]}; }
// 1 cut, 0 not cut, -1 borderline
static int cuts(const Surf&s,const V3&p,const V3&q){
  double dp=dt(sub(p,s.c),s.n),dq=dt(sub(q,s.c),s.n); const double e=1e-7;
  if((dp>e&&dq>e)||(dp<-e&&dq<-e)) return 0;
  if(fabs(dp-dq)<e){ return -1; }
  bool edgeP=fabs(dp)<e||fabs(dq)<e;
  double t=dp/(dp-dq); V3 x={p[0]+t*(q[0]-p[0]),p[1]+t*(q[1]-p[1]),p[2]+t*(q[2]-p[2])}; V3 r=sub(x,s.c);
  if(s.kind==1){ double d=sqrt(dt(r,r)); if(fabs(d-s.a)<e) return -1; if(d>s.a) return 0; return edgeP?-1:1; }
  V3 v=cr(s.u,s.n); double bb=dt(r,s.u),aa=dt(r,v);
  if(bb<-e||bb>s.a+e||aa<-e||aa>s.b+e) return 0;
  if(bb<e||bb>s.a-e||aa<e||aa>s.b-e) return -1;
  return edgeP?-1:1;
}
static void addSurf(Teuchos::ParameterList& p,const Surf&s,int k){
  Teuchos::ParameterList& f=p.sublist("Bond Filters").sublist("F"+to_string(k));
  const char*ax[3]={"X","Y","Z"};
  if(s.kind==0){ f.set<string>("Type","Rectangular_Plane"); for(int c=0;c<3;++c){ f.set<double>(string("Normal_")+ax[c],s.n[c]); f.set<double>(string("Lower_Left_Corner_")+ax[c],s.c[c]); f.set<double>(string("Bottom_Unit_Vector_")+ax[c],s.u[c]); } f.set<double>("Bottom_Length",s.a); f.set<double>("Side_Length",s.b); }
  else { f.set<string>("Type","Disk"); for(int c=0;c<3;++c){ f.set<double>(string("Center_")+ax[c],s.c[c]); f.set<double>(string("Normal_")+ax[c],s.n[c]); } f.set<double>("Radius",s.a); }
}
static void filterCase(const string& key,const Layout& L,double h,const vector<Surf>& ss,int omit,int ord,int idv=0){
  if(!R.want(key)) return;
  vector<int> ids(BLK[idv],BLK[idv]+3);
  Horizon H=hconst(h);
  evaluate(L,H,ids,orders(L.x.size())[ord],[&](Teuchos::ParameterList& p){ int k=0; for(auto&s:ss) addSurf(p,s,k++); if(omit) p.set<string>("Omit Bonds Between Blocks",omit==1?"All":"None"); },
    [&](int i,int j){ double d=dist(L.x[i],L.x[j]); if(d>h) return 0; if(omit==1&&L.block[i]!=L.block[j]) return 0; bool u=false; for(auto&s:ss){ int c=cuts(s,L.x[i],L.x[j]); if(c==1) return 0; if(c<0) u=true; } return u?-1:1; });
}
static void runFilter(){
  int np=R.size; bool T=R.opt.thorough;
  vector<pair<string,vector<V3>>> bodies={{"3x3x3",grid(3,3,3)},{"4x3x2",grid(4,3,2,{1,0.9,1.2},{-0.3,0.2,0.1})}};
  vector<pair<V3,V3>> frames; // normal, bottom direction (orthonormal)
  for(int a=0;a<3;++a) for(int sg=-1;sg<=1;sg+=2) for(int b=0;b<3;++b) if(b!=a) for(int s2=-1;s2<=1;s2+=2){ V3 n={0,0,0},u={0,0,0}; n[a]=sg; u[b]=s2; frames.push_back({n,u}); }
  { double r=sqrt(0.5),q=sqrt(1.0/3),w=sqrt(1.0/6); frames.push_back({{r,r,0},{r,-r,0}}); frames.push_back({{r,-r,0},{0,0,1}}); frames.push_back({{0,r,r},{1,0,0}}); frames.push_back({{q,q,q},{r,-r,0}}); frames.push_back({{-q,q,q},{2*w,w,w}}); }
  vector<double> pos={-0.6,0.37,0.52,1.43,2.7};
  for(auto&b:bodies) for(double h:{1.55,2.3}) {
    int fi=0;
    for(auto&fr:frames){ ++fi; V3 n=fr.first,u=fr.second,v=cr(u,n);
      int pi=0;
      for(double off:pos) for(double cu:{-0.47,0.63}) for(double cv:{-0.41,0.57}) for(double la:{0.71,5.0}) for(double lb:{0.83,5.0}){ ++pi;
        if(!T && (np>1) && ((pi+fi)%4)) continue;
        Surf s{0,{},n,u,la,lb}; for(int c=0;c<3;++c) s.c[c]=off*n[c]+cu*u[c]+cv*v[c];
        // shift so that negative normals still meet the body
        V3 ctr={1,1,1}; double cn=dt(ctr,n); if(cn<0) for(int c=0;c<3;++c) s.c[c]+=(-2.13)*n[c]; double cu_=dt(ctr,u); if(cu_<0) for(int c=0;c<3;++c) s.c[c]-=2.07*u[c]; double cv_=dt(ctr,v); if(cv_<0) for(int c=0;c<3;++c) s.c[c]-=1.91*v[c];
        Layout L; L.x=b.second; L.block.assign(L.x.size(),0);
        filterCase("plane/"+b.first+"/h"+str(h)+"/f"+to_string(fi)+"/"+to_string(pi),L,h,{s},0,(fi+pi)%3);
      }
      for(double off:pos) for(double rad:{0.45,1.05,3.0}) for(int ci=0;ci<3;++ci){ ++pi;
        if(!T && np>1 && ((pi+fi)%4)) continue;
        Surf s{1,{},n,u,rad,0}; V3 base[3]={{0.93,1.07,1.03},{0.31,0.58,0.44},{1.7,0.2,1.1}}; for(int c=0;c<3;++c) s.c[c]=base[ci][c]+(off-1)*n[c];
        Layout L; L.x=b.second; L.block.assign(L.x.size(),0);
        filterCase("disk/"+b.first+"/h"+str(h)+"/f"+to_string(fi)+"/"+to_string(pi),L,h,{s},0,(fi+pi)%3);
      } } }
  // combinations of surfaces with block separation
  vector<Surf> pool={{0,{0.48,-1,-1},{1,0,0},{0,1,0},1.9,6},{0,{-1,1.55,-1},{0,1,0},{0,0,1},9,9},{1,{1.1,0.9,0.45},{0,0,1},{1,0,0},0.8,0},{1,{1.5,1.5,1.5},{sqrt(0.5),0,sqrt(0.5)},{0,1,0},1.3,0}};
  pool[0].c={0.48,-1,4}; pool[1].c={4,1.55,-1};
  for(auto&b:bodies) for(double h:{1.05,1.8}) for(int m=0;m<16;++m) for(int omit=0;omit<3;++omit) for(int split=0;split<4;++split) for(int ord=0;ord<3;++ord) for(int idv=0;idv<2;++idv){
    Layout L; L.x=b.second; int n=L.x.size(); L.block.assign(n,0);
    for(int i=0;i<n;++i) L.block[i]= split==0?0: split==1?(i>=n/2): split==2?(i%3): (L.x[i][0]>1.5?2:(L.x[i][1]>0.9));
    if(split<2 && idv && split==0) continue;
    vector<Surf> ss; for(int k=0;k<4;++k) if(m>>k&1) ss.push_back(pool[k]);
    filterCase("combo/"+b.first+"/h"+str(h)+"/m"+to_string(m)+"/omit"+to_string(omit)+"/s"+to_string(split)+"/o"+to_string(ord)+"/i"+to_string(idv),L,h,ss,omit,ord,idv);
  }
}

// Bonds that meet a surface at a small angle or close to its rim; small, large and remote bodies.
// Whether a bond is cut is decided before scaling and shifting.
static void placed(const string& key,const Layout& L,double h,const vector<Surf>& ss,double sc,const V3& o,int ord){
  if(!R.want(key)) return;
  Layout M=L; for(auto&p:M.x) for(int c=0;c<3;++c) p[c]=sc*p[c]+o[c];
  double H0=h*sc; Horizon H=hfine(H0);
  evaluate(M,H,{1,2,3},orders(L.x.size())[ord],[&](Teuchos::ParameterList& p){ int k=0; for(auto s:ss){ for(int c=0;c<3;++c) s.c[c]=sc*s.c[c]+o[c]; s.a*=sc; s.b*=sc; addSurf(p,s,k++); } },
    [&](int i,int j){ double d=dist(L.x[i],L.x[j]); if(fabs(d-h)<1e-6*h) return -1; if(d>h) return 0; bool u=false; for(auto&s:ss){ int c=cuts(s,L.x[i],L.x[j]); if(c==1) return 0; if(c<0) u=true; } return u?-1:1; });
}
static void runFilter2(){
  int np=R.size;
  auto turn=[](V3 p,int perm){ V3 q=p; for(int c=0;c<3;++c) q[(c+perm)%3]=p[c]; return q; };
  for(int perm=0;perm<3;++perm) for(int sg=-1;sg<=1;sg+=2) for(int kind=0;kind<2;++kind){
    string P="/p"+to_string(perm)+(sg<0?"-":"+")+(kind?"disk":"rect");
    V3 n=turn({0,0,(double)sg},perm),u=turn({1,0,0},perm),v=cr(u,n);
    // points just above and below the surface: bonds nearly parallel to it
    for(double d:{2e-2,4e-3,1e-4,3e-6}) for(double tilt:{0.0,1e-3}) for(int w=0;w<2;++w){
      Layout L; for(auto p:grid(4,3,1)){ int i=L.x.size(); p[2]=((i+i/4)%2?d:-d)+tilt*p[0]*d; L.x.push_back(turn(p,perm)); } L.block.assign(L.x.size(),0);
      Surf s{kind,turn({1.33,0.91,0},perm),n,u,kind?0.9:1.3,kind?0.0:1.6};
      if(!kind){ for(int c=0;c<3;++c) s.c[c]-=0.6*u[c]+0.7*v[c]; }
      if(w){ s.a*=3; s.b*=3; if(!kind) for(int c=0;c<3;++c) s.c[c]-=2*u[c]+2*v[c]; }
      if((int)L.x.size()<np) continue;
      placed("shallow"+P+"/"+str(d)+"/t"+str(tilt)+"/w"+to_string(w),L,1.6,{s},1,{0,0,0},0); }
    // rim of the surface close to where bonds cross it
    Layout L; for(auto&p:grid(3,3,2)) L.x.push_back(turn(p,perm)); L.block.assign(L.x.size(),0);
    for(double e:{-1e-2,-1e-4,-1e-6,1e-6,1e-4,1e-2}) for(int w=0;w<4;++w){
      Surf s{kind,{},n,u,0,0};
      if(kind){ s.c=turn({w&1?0.0:2.0,w&2?0.0:2.0,0.5},perm); s.a=(w==3?sqrt(2.0):1.0)+e; }
      else { // one side at 1+e, the others beyond the body
        double lo=-0.63,hi=2.71; double x0=w==0?1+e:lo,x1=w==1?1+e:hi,y0=w==2?1+e:lo,y1=w==3?1+e:hi; V3 v0=turn({0,1,0},perm); bool along=dt(v,v0)>0; s.c=turn({x0,along?y0:y1,0.5},perm); s.a=x1-x0; s.b=y1-y0; }
      placed("rim"+P+"/"+str(e)+"/w"+to_string(w),L,1.5,{s},1,{0,0,0},w%3);
      if(fabs(e)>1e-5) for(double sc:{1e-3,1e4}) placed("rim"+P+"/"+str(e)+"/w"+to_string(w)+"/x"+str(sc),L,1.5,{s},sc,{-3*sc,11*sc,5*sc},w%3);
    }
    // surface close to a layer of points
    for(double e:{-1e-2,-1e-4,-1e-6,1e-6,1e-4,1e-2}) for(double z:{0.0,1.0}){
      Surf s{kind,turn({1.07,0.96,z+e},perm),n,u,kind?0.8:1.2,1.1}; if(!kind) for(int c=0;c<3;++c) s.c[c]-=0.5*u[c]+0.55*v[c];
      placed("layer"+P+"/"+str(e)+"/z"+str(z),L,1.8,{s},1,{0,0,0},0);
      if(fabs(e)>1e-5) for(double sc:{1e-3,1e4}) placed("layer"+P+"/"+str(e)+"/z"+str(z)+"/x"+str(sc),L,1.8,{s},sc,{70*sc,-2*sc,0},1);
    } }
}

// ------------------------------------------------------------------ triangles and quadrilaterals, bond by bond
static int inTri(const V3&x,const V3&a,const V3&b,const V3&c,const V3&n){ double mn=1e9; const V3*v[3]={&a,&b,&c}; for(int k=0;k<3;++k){ V3 e=sub(*v[(k+1)%3],*v[k]); double l=sqrt(dt(e,e)); double d=dt(cr(n,e),sub(x,*v[k]))/l; mn=min(mn,d);} if(fabs(mn)<1e-7) return -1; return mn>0; }
static int cutsPoly(const vector<V3>&P,const V3&p,const V3&q){
  V3 n=cr(sub(P[1],P[0]),sub(P[2],P[0])); double l=sqrt(dt(n,n)); for(auto&c:n) c/=l;
  double dp=dt(sub(p,P[0]),n),dq=dt(sub(q,P[0]),n); const double e=1e-7;
  if((dp>e&&dq>e)||(dp<-e&&dq<-e)) return 0; if(fabs(dp-dq)<e) return -1;
  bool edge=fabs(dp)<e||fabs(dq)<e; double t=dp/(dp-dq); V3 x={p[0]+t*(q[0]-p[0]),p[1]+t*(q[1]-p[1]),p[2]+t*(q[2]-p[2])};
  int r=inTri(x,P[0],P[1],P[2],n);
  if(P.size()==4){ int r2=inTri(x,P[0],P[2],P[3],n); // the diagonal is interior
    V3 d=sub(P[2],P[0]); double dd=fabs(dt(cr(n,d),sub(x,P[0])))/sqrt(dt(d,d));
    if(r==1||r2==1) r=1; else if(r==0&&r2==0) r=0; else if(dd<1e-7 && inTri(x,P[0],P[1],P[2],n)<0 && r2<0){ double s=dt(sub(x,P[0]),d)/dt(d,d); r=(s>1e-6&&s<1-1e-6)?1:-1; } else r=-1; }
  if(r==0) return 0; if(r<0) return -1; return edge?-1:1;
}
static void runPoly(){
  bool T=R.opt.thorough;
  vector<V3> pts=grid(3,3,3,{1,1,1},{-1,-1,-1}); for(auto&p:grid(2,2,2,{0.9,0.8,1.1},{-0.45,-0.35,-0.6})) pts.push_back(p);
  const vector<V3> pts0=pts;
  vector<vector<array<double,2>>> shapes={{{{-0.3,-0.2}},{{0.9,-0.1}},{{0.1,0.8}}},{{{-2,-2}},{{2,-2}},{{0.2,1.4}}},{{{-0.6,-0.5}},{{0.7,-0.55}},{{0.8,0.65}},{{-0.45,0.75}}},{{{-0.6,-0.6}},{{0.6,-0.6}},{{0.6,0.6}},{{-0.6,0.6}}},{{{-1.6,0}},{{0,-0.35}},{{1.6,0.1}},{{0,0.4}}},{{{-0.2,-1.4}},{{0.2,-1.4}},{{1.4,1.2}},{{-1.1,0.3}}}};
  double r=sqrt(0.5),q=sqrt(1.0/3),w=sqrt(1.0/6);
  vector<pair<V3,V3>> fr={{{1,0,0},{0,1,0}},{{0,1,0},{0,0,1}},{{0,0,1},{1,0,0}},{{0,0,-1},{1,0,0}},{{r,r,0},{r,-r,0}},{{q,q,q},{r,-r,0}},{{-q,q,q},{2*w,w,w}},{{0.6,0,0.8},{0,1,0}}};
  int si=0;
  for(auto&s:shapes){ ++si; int fi=0; for(auto&f:fr){ ++fi; V3 n=f.first,u=f.second,v=cr(n,u); int oi=0;
    for(double off:{-0.52,0.03,0.41}) for(double sx:{-0.33,0.0,0.27}) for(double sc:{0.7,1.0,1.6}) for(int rev=0;rev<2;++rev) for(int rot=0;rot<(T?4:2);++rot){ ++oi;
      string key="poly/s"+to_string(si)+"/f"+to_string(fi)+"/"+to_string(oi); if(!R.want(key)) continue;
      vector<V3> P; for(auto&c:s){ V3 p; for(int k=0;k<3;++k) p[k]=off*n[k]+(sx+sc*c[0])*u[k]+(0.5*sx+sc*c[1])*v[k]; P.push_back(p);} if(rev) reverse(P.begin(),P.end()); rotate(P.begin(),P.begin()+(rot%P.size()),P.end());
      shared_ptr<PdBondFilter::BondFilter> flt; if(P.size()==3) flt.reset(new PdBondFilter::TriangleFilter(P[0].data(),P[1].data(),P[2].data())); else flt.reset(new PdBondFilter::QuadFilter(P[0].data(),P[1].data(),P[2].data(),P[3].data()));
      // scaled and shifted after the decision; two points near the surface on its two sides
      double S[3]={1,1e-3,2e3}; double sc2=S[(oi/2)%3]; pts=pts0; for(double d:{1e-2,1e-3,1e-5}) for(int g=-1;g<=1;g+=2){ V3 p; for(int k=0;k<3;++k) p[k]=(off+g*d)*n[k]+(0.11+0.13*g)*u[k]+(0.07*g)*v[k]; pts.push_back(p); }
      const vector<V3> base=pts; const vector<V3> P0=P;
      if(sc2!=1){ for(auto&p:pts) for(int k=0;k<3;++k) p[k]=sc2*(p[k]+0.5*k); for(auto&p:P) for(int k=0;k<3;++k) p[k]=sc2*(p[k]+0.5*k); flt.reset(P.size()==3?(PdBondFilter::BondFilter*)new PdBondFilter::TriangleFilter(P[0].data(),P[1].data(),P[2].data()):new PdBondFilter::QuadFilter(P[0].data(),P[1].data(),P[2].data(),P[3].data())); }
      int N=pts.size(); vector<int> list(N); for(int i=0;i<N;++i) list[i]=i; vector<vector<char>> res(N,vector<char>(N,0)); uint64_t h=7;
      for(int i=0;i<N;++i){ bool fl[64]; memset(fl,0,sizeof fl); flt->filterBonds(list,pts[i].data(),i,&pts[0][0],fl); for(int j=0;j<N;++j){ res[i][j]=fl[j]; h=h*31+fl[j]; } R.step(); }
      R.outcome(h); int nb=0;
      for(int i=0;i<N;++i) for(int j=0;j<N;++j){ int want=i==j?1:cutsPoly(P0,base[i],base[j]); ++R.checks; if(want<0){ R.counters["borderline pairs"]++; continue; } if(want!=res[i][j]&&!nb++) R.fail(string(want?"uncut":"wrongly cut")+" segment "+to_string(i)+"-"+to_string(j)); }
    } } }
}

int main(int argc,char**argv){
  MPI_Init(&argc,&argv); R.init(argc,argv);
  string m=R.get("mode","horizon");
  if(m=="horizon"){ runHorizon(); runHorizon2(); } else if(m=="filter"){ runFilter(); runFilter2(); } else if(m=="poly") runPoly();
  R.finish(); MPI_Finalize(); return 0;
}
