// Generated grids (mode=grid) and migration of points between processes (mode=move).
#include "common.hpp"
#include "QuickGrid.h"
#include "PdZoltan.h"
#include "Peridigm_PdQuickGridDiscretization.hpp"
#include "Peridigm_HorizonManager.hpp"
#include "Peridigm_NeighborhoodData.hpp"
#include <Epetra_MpiComm.h>
#include <Teuchos_ParameterList.hpp>
#include <algorithm>

typedef std::vector<double> V;
typedef std::vector<int> I;
static chk::Reporter R;
#define EXPECT(ok,msg) (++R.checks, (ok) ? true : (R.fail(msg), false))
using chk::str;

struct Point { double x[3], vol; I near; int times=0; };
typedef std::map<int,Point> Cloud;

static std::string list(const I& v){ std::string s; for(int x:v) s+=(s.empty()?"":" ")+str(x); return "{"+s+"}"; }

// Brings all points together on the first process: number, coordinates, volume, neighbors, one entry per occurrence.
static Cloud collect(const I& gid,const V& x,const V& vol,const std::vector<I>& near){
  I n; V d; for(size_t i=0;i<gid.size();++i){ n.push_back(gid[i]); n.push_back(near[i].size()); n.insert(n.end(),near[i].begin(),near[i].end()); for(int k=0;k<3;++k) d.push_back(x[3*i+k]); d.push_back(vol[i]); }
  int a[2]={(int)n.size(),(int)d.size()}; I all(2*R.size); MPI_Gather(a,2,MPI_INT,all.data(),2,MPI_INT,0,MPI_COMM_WORLD);
  I nc(R.size),nd(R.size),dc(R.size),dd(R.size); int N=0,D=0; for(int p=0;p<R.size;++p){ nc[p]=all[2*p]; nd[p]=N; N+=nc[p]; dc[p]=all[2*p+1]; dd[p]=D; D+=dc[p]; }
  I gn(N+1); V gd(D+1);
  MPI_Gatherv(n.data(),a[0],MPI_INT,gn.data(),nc.data(),nd.data(),MPI_INT,0,MPI_COMM_WORLD);
  MPI_Gatherv(d.data(),a[1],MPI_DOUBLE,gd.data(),dc.data(),dd.data(),MPI_DOUBLE,0,MPI_COMM_WORLD);
  Cloud c; if(R.rank) return c;
  for(int i=0,j=0;i<N;j+=4){ int g=gn[i++], m=gn[i++]; Point& p=c[g]; ++p.times; for(int k=0;k<3;++k) p.x[k]=gd[j+k]; p.vol=gd[j+3]; p.near.assign(gn.begin()+i,gn.begin()+i+m); i+=m; }
  return c;
}
static std::string unsound;   // inconsistencies within one process's data
static Cloud collect(const QUICKGRID::QuickGridData& d){
  I g; V x,v; std::vector<I> near; int total=0; unsound="";
  int n=(int)d.numPoints; if(n<0 || n>1000000){ unsound="claims "+str(n)+" points"; n=0; }
  for(int i=0;i<n;++i){ g.push_back(d.myGlobalIDs.get()[i]); for(int k=0;k<3;++k) x.push_back(d.myX.get()[3*i+k]); v.push_back(d.cellVolume.get()[i]);
    int p=d.neighborhoodPtr.get()[i], m=d.neighborhood.get()[p]; if(p!=total) unsound="the list of point "+str(i)+" starts at "+str(p)+" instead of "+str(total);
    near.push_back(I(d.neighborhood.get()+p+1,d.neighborhood.get()+p+1+m)); total+=m+1; }
  if(n>0 && d.sizeNeighborhoodList!=total) unsound="neighbor lists have length "+str(total)+", said to be "+str(d.sizeNeighborhoodList);
  if(!unsound.empty()) R.fail("process "+str(R.rank)+": "+unsound);
  return collect(g,x,v,near);
}
// Compares on the first process.
static void compare(const Cloud& want,const Cloud& got,const std::string& what,double tol,bool sorted){
  if(R.rank) return; R.step();
  for(auto& w:want){ auto g=got.find(w.first);
    if(!EXPECT(g!=got.end(),what+": point "+str(w.first)+" is missing")) continue;
    EXPECT(g->second.times==1,what+": point "+str(w.first)+" exists "+str(g->second.times)+" times");
    bool at=true; for(int k=0;k<3;++k) at=at && std::fabs(w.second.x[k]-g->second.x[k])<=tol;
    EXPECT(at,what+": point "+str(w.first)+" is at ("+str(g->second.x[0])+","+str(g->second.x[1])+","+str(g->second.x[2])+") instead of ("+str(w.second.x[0])+","+str(w.second.x[1])+","+str(w.second.x[2])+")");
    EXPECT(std::fabs(w.second.vol-g->second.vol)<=tol,what+": point "+str(w.first)+" has volume "+str(g->second.vol)+" instead of "+str(w.second.vol));
    I a=w.second.near,b=g->second.near; if(sorted){ std::sort(a.begin(),a.end()); std::sort(b.begin(),b.end()); }
    EXPECT(a==b,what+": point "+str(w.first)+" lists "+list(b)+" instead of "+list(a)); }
  for(auto& g:got) EXPECT(want.count(g.first),what+": there is a point "+str(g.first)+" that should not exist");
  uint64_t h=0; for(auto& g:got) h=h*1000003+g.first*31+g.second.near.size(); R.outcome(h);
}

// ---------------------------------------------------------------------------------------------- migration
static QUICKGRID::QuickGridData part(const Cloud& c,const std::map<int,int>& owner,int order){
  I mine; for(auto& p:c) if(owner.at(p.first)==R.rank) mine.push_back(p.first);
  if(order==1) std::reverse(mine.begin(),mine.end());
  QUICKGRID::QuickGridData d=QUICKGRID::allocatePdGridData(mine.size(),3); d.globalNumPoints=c.size();
  I lists; int i=0;
  for(int g:mine){ const Point& p=c.at(g); d.myGlobalIDs.get()[i]=g; for(int k=0;k<3;++k) d.myX.get()[3*i+k]=p.x[k]; d.cellVolume.get()[i]=p.vol; d.neighborhoodPtr.get()[i]=lists.size(); lists.push_back(p.near.size()); lists.insert(lists.end(),p.near.begin(),p.near.end()); ++i; }
  if(!mine.empty()){ UTILITIES::Array<int> l(lists.size()); std::copy(lists.begin(),lists.end(),l.get()); d.neighborhood=l.get_shared_ptr(); d.sizeNeighborhoodList=lists.size(); }
  return d;
}
static const int IDS[8]={0,1,2,3,4,5,6,7}, GAPS[8]={3,10,11,40,7,100,101,5};
static Cloud cloud(int n,int kind,int lists){
  Cloud c; const int* id = lists==2 ? GAPS : IDS;
  for(int i=0;i<n;++i){ Point p; double a=i;
    switch(kind){ case 0: p.x[0]=a; p.x[1]=0; p.x[2]=0; break; case 1: p.x[0]=(i%2)*1.5; p.x[1]=(i/2%2)*1.0; p.x[2]=(i/4)*0.7; break; case 2: p.x[0]=0.3*std::sin(3*a+1); p.x[1]=-2.0*a; p.x[2]=std::cos(5*a); break; default: p.x[0]=i<n/2?0.0:1.0; p.x[1]=0.001*i; p.x[2]=-5; }
    p.vol=0.5+0.125*i;
    int len = lists==0 ? 0 : lists==1 ? i : (i*5+2)%4;
    for(int k=0;k<len;++k) p.near.push_back(id[(i+1+k)%n]);
    c[id[i]]=p; }
  return c;
}
static void moves(){
  int np=R.size, maxn= np==1?7 : np==2?(R.opt.thorough?8:7) : np==3?(R.opt.thorough?8:6) : (R.opt.thorough?7:5);
  for(int n=1;n<=maxn;++n) for(int kind=0;kind<4;++kind) for(int lists=0;lists<3;++lists) for(int order=0;order<2;++order){
    int total=1; for(int i=0;i<n;++i) total*=np;
    for(int a=0;a<total;++a){
      std::string key="n="+str(n)+"/shape="+str(kind)+"/lists="+str(lists)+"/order="+str(order)+"/owners="+str(a);
      if(!R.want(key)) continue;
      Cloud c=cloud(n,kind,lists); std::map<int,int> owner; int q=a; for(auto& p:c){ owner[p.first]=q%np; q/=np; }
      QUICKGRID::QuickGridData d=part(c,owner,order);
      d=PDNEIGH::getLoadBalancedDiscretization(d);
      compare(c,collect(d),"after the first balancing",0,false);
      d=PDNEIGH::getLoadBalancedDiscretization(d);
      compare(c,collect(d),"after the second balancing",0,false);
      // the points move: mirrored, then turned
      for(int turn=0;turn<2;++turn){
        for(auto& p:c){ double x=p.second.x[0],y=p.second.x[1],z=p.second.x[2]; if(turn==0){ p.second.x[0]=-x; p.second.x[1]=-y; p.second.x[2]=-z; } else { p.second.x[0]=y; p.second.x[1]=z; p.second.x[2]=x; } }
        for(size_t i=0;i<d.numPoints;++i) for(int k=0;k<3;++k) d.myX.get()[3*i+k]=c[d.myGlobalIDs.get()[i]].x[k];
        d=PDNEIGH::getLoadBalancedDiscretization(d);
        compare(c,collect(d),turn==0?"after mirroring and balancing":"after turning and balancing",0,false);
      }
      EXPECT(d.globalNumPoints==c.size(),"global number of points is "+str((int)d.globalNumPoints));
    } }
}

// ---------------------------------------------------------------------------------------------- grids
static bool close(double d,double h){ return std::fabs(d-h)<1e-9; }
static Cloud fromDisc(PeridigmNS::Discretization& disc){
  I g; V x,v; std::vector<I> near;
  auto one=disc.getGlobalOwnedMap(1), over=disc.getGlobalOverlapMap(1); auto X=disc.getInitialX(); auto vol=disc.getCellVolume(); auto nd=disc.getNeighborhoodData();
  EXPECT(nd->NumOwnedPoints()==one->NumMyElements(),"neighborhoods and map disagree on the number of owned points");
  int* l=nd->NeighborhoodList();
  for(int i=0;i<nd->NumOwnedPoints();++i){ g.push_back(over->GID(nd->OwnedIDs()[i])); int loc=one->LID(g.back());
    for(int k=0;k<3;++k) x.push_back((*X)[3*loc+k]); v.push_back((*vol)[loc]);
    EXPECT(nd->NeighborhoodPtr()[i]==(int)(l-nd->NeighborhoodList()),"start of a neighbor list");
    int m=*l++; near.push_back(I()); for(int k=0;k<m;++k) near.back().push_back(over->GID(*l++)); }
  unsigned bonds=0; for(auto& n:near) bonds+=n.size();
  EXPECT(disc.getNumBonds()==bonds,"number of bonds is said to be "+str((int)disc.getNumBonds())+", is "+str((int)bonds));
  auto b=disc.getBlockID(); bool ok=true; for(int i=0;i<b->MyLength();++i) ok=ok && (*b)[i]==1.0; EXPECT(ok,"block numbers");
  auto h=disc.getHorizon(); EXPECT(h->MyLength()==one->NumMyElements(),"horizons");
  return collect(g,x,v,near);
}
static Teuchos::RCP<PeridigmNS::PdQuickGridDiscretization> discretize(Teuchos::ParameterList p,double horizon){
  Teuchos::ParameterList blocks; blocks.sublist("B").set("Block Names","block_1"); blocks.sublist("B").set("Horizon",horizon);
  PeridigmNS::HorizonManager::self().loadHorizonInformationFromBlockParameters(blocks);
  Teuchos::RCP<Epetra_Comm> comm=Teuchos::rcp(new Epetra_MpiComm(MPI_COMM_WORLD));
  std::stringstream quiet; auto* old=std::cout.rdbuf(quiet.rdbuf());
  auto d=Teuchos::rcp(new PeridigmNS::PdQuickGridDiscretization(comm,Teuchos::rcp(new Teuchos::ParameterList(p))));
  std::cout.rdbuf(old); return d;
}
static void boxes(){
  int top=R.opt.thorough?5:4; const double HZ[]={0.3,0.7,1.2,1.6,2.2,3.3,9.0};   // in units of the smallest cell
  const double O[3][3]={{0,0,0},{-1.5,2.25,100.0},{0.1,-0.2,-0.7}}, C[3][3]={{1,1,1},{0.5,0.8,0.6},{0.01,0.02,0.013}};
  for(int nx=1;nx<=top;++nx) for(int ny=1;ny<=top;++ny) for(int nz=1;nz<=top;++nz) for(int g=0;g<3;++g) for(int h=0;h<7;++h) for(int norm=0;norm<2;++norm){
    if(nx*ny*nz<R.size) continue;
    std::string key="box/"+str(nx)+"x"+str(ny)+"x"+str(nz)+"/geometry="+str(g)+"/horizon="+str(h)+(norm?"/spherical":"/block");
    if(!R.want(key)) continue;
    int n[3]={nx,ny,nz}; double L[3]; for(int k=0;k<3;++k) L[k]=n[k]*C[g][k];
    double H=HZ[h]*C[g][0];
    Cloud c; bool tie=false;
    for(int k=0;k<nz;++k) for(int j=0;j<ny;++j) for(int i=0;i<nx;++i){ Point p; int q[3]={i,j,k};
      for(int d=0;d<3;++d) p.x[d]=O[g][d]+(q[d]+0.5)*C[g][d]; p.vol=C[g][0]*C[g][1]*C[g][2];
      for(int kk=0;kk<nz;++kk) for(int jj=0;jj<ny;++jj) for(int ii=0;ii<nx;++ii){ int r[3]={ii,jj,kk}; bool in=true; double s=0;
        for(int d=0;d<3;++d){ double o=(r[d]-q[d])*C[g][d]; s+=o*o; double w=H/C[g][d]; if(std::fabs(w-std::floor(w)-0.5)<1e-6) tie=true; if(std::abs(r[d]-q[d])>std::floor(w+0.5)) in=false; }
        if(norm){ if(close(std::sqrt(s)/C[g][0],HZ[h])) tie=true; in=std::sqrt(s)<H; }
        if(in && s>0) p.near.push_back(ii+nx*(jj+ny*kk)); }
      c[i+nx*(j+ny*k)]=p; }
    if(tie){ ++R.skipped; continue; }
    QUICKGRID::TensorProduct3DMeshGenerator gen(R.size,H,QUICKGRID::Spec1D(nx,O[g][0],L[0]),QUICKGRID::Spec1D(ny,O[g][1],L[1]),QUICKGRID::Spec1D(nz,O[g][2],L[2]),norm?QUICKGRID::SphericalNorm:QUICKGRID::NoOpNorm);
    QUICKGRID::QuickGridData d=QUICKGRID::getDiscretization(R.rank,gen);
    EXPECT((int)gen.getNumGlobalCells()==nx*ny*nz && (int)d.globalNumPoints==nx*ny*nz,"number of cells");
    double tol=1e-12*(1+std::fabs(O[g][2]));
    compare(c,collect(d),"as generated",tol,true);
    Teuchos::ParameterList p; p.set("Type","PdQuickGrid"); if(norm) p.set("NeighborhoodType","Spherical");
    Teuchos::ParameterList& t=p.sublist("TensorProduct3DMeshGenerator"); const char* ax="XYZ";
    for(int k=0;k<3;++k){ std::string a(1,ax[k]); t.set(a+" Origin",O[g][k]); t.set(a+" Length",L[k]); t.set("Number Points "+a,n[k]); }
    auto disc=discretize(p,H);
    compare(c,fromDisc(*disc),"as distributed",tol,true);
    double rad=std::pow(3*C[g][0]*C[g][1]*C[g][2]/(4*M_PI),1.0/3), diag=std::sqrt(C[g][0]*C[g][0]+C[g][1]*C[g][1]+C[g][2]*C[g][2]);
    EXPECT(std::fabs(disc->getMinElementRadius()-rad)<1e-9*rad && std::fabs(disc->getMaxElementRadius()-rad)<1e-9*rad && std::fabs(disc->getMaxElementDimension()-diag)<1e-9*diag,"cell radius "+str(disc->getMinElementRadius())+", "+str(disc->getMaxElementRadius())+" instead of "+str(rad)+" or cell diagonal "+str(disc->getMaxElementDimension())+" instead of "+str(diag));
    int most=0; for(auto& q:c) most=std::max(most,(int)q.second.near.size());
    int mine=disc->getMaxNumBondsPerElem(), all; MPI_Allreduce(&mine,&all,1,MPI_INT,MPI_MAX,MPI_COMM_WORLD); if(R.rank==0) EXPECT(all==most,"largest number of bonds of a point is said to be "+str(all)+", is "+str(most));
    auto blocks=disc->getElementBlocks(); size_t inb=blocks->count("block_1")?(*blocks)["block_1"].size():0; EXPECT((int)inb==nx*ny*nz && blocks->size()==1,"block lists "+str((int)inb)+" points");
  }
}
static void cylinders(){
  struct Ring { double in,out,len; int rings; };
  const Ring RG[]={{0.5,1.5,0.8,2},{1.0,1.3,0.55,1},{1.0,1.6,1.05,2},{2.0,2.4,0.65,1},{0.2,1.0,0.37,3},{3.0,3.9,1.0,3},{0.9,1.0,0.33,1}};
  const double O[3][3]={{0,0,0},{0.75,-2.0,-1.0},{-10,4,0.3}}, HZ[]={0.4,1.3,2.2,3.4,6.3,25.0,80.0};
  for(int s=0;s<7;++s) for(int o=0;o<3;++o) for(int h=0;h<7;++h) for(int norm=0;norm<2;++norm){
    const Ring& r=RG[s]; double dr=(r.out-r.in)/r.rings, mean=(r.in+r.out)/2, H=HZ[h]*dr;
    int rays=(int)(2*M_PI*mean/dr)+1, lay=(int)(r.len/dr)+1; if(rays*lay*r.rings<R.size) continue;
    std::string key="cylinder/"+str(s)+"/origin="+str(o)+"/horizon="+str(h)+(norm?"/spherical":"/block");
    if(!R.want(key)) continue;
    double dt=2*M_PI/rays, dz=r.len/lay; Cloud c; bool tie=false;
    int wr=(int)std::floor(H/dr+0.5), wt=(int)std::floor(H/(dt*mean)+0.5), wz=(int)std::floor(H/dz+0.5);
    for(double w : {H/dr,H/(dt*mean),H/dz}) if(std::fabs(w-std::floor(w)-0.5)<1e-6) tie=true;
    auto at=[&](int i,int j,int k,double* x){ double q=r.in+(i+0.5)*dr, t=(j+0.5)*dt; x[0]=O[o][0]+q*std::cos(t); x[1]=O[o][1]+q*std::sin(t); x[2]=O[o][2]+(k+0.5)*dz; return q; };
    double total=0;
    for(int k=0;k<lay;++k) for(int j=0;j<rays;++j) for(int i=0;i<r.rings;++i){ Point p; double q=at(i,j,k,p.x); p.vol=q*dr*dt*dz; total+=p.vol;
      for(int kk=0;kk<lay;++kk) for(int jj=0;jj<rays;++jj) for(int ii=0;ii<r.rings;++ii){ if(ii==i&&jj==j&&kk==k) continue;
        int dj=std::abs(jj-j); dj=std::min(dj,rays-dj); bool in=std::abs(ii-i)<=wr && dj<=wt && std::abs(kk-k)<=wz;
        if(norm){ double y[3]; at(ii,jj,kk,y); double d=std::sqrt((p.x[0]-y[0])*(p.x[0]-y[0])+(p.x[1]-y[1])*(p.x[1]-y[1])+(p.x[2]-y[2])*(p.x[2]-y[2])); if(close(d,H)) tie=true; in=in && d<H; }
        if(in) p.near.push_back(ii+r.rings*(jj+rays*kk)); }
      c[i+r.rings*(j+rays*k)]=p; }
    if(tie){ ++R.skipped; continue; }
    EXPECT(std::fabs(total-M_PI*(r.out*r.out-r.in*r.in)*r.len)<1e-9*total,"volume of the reference");
    Teuchos::ParameterList p; p.set("Type","PdQuickGrid"); if(norm) p.set("NeighborhoodType","Spherical");
    Teuchos::ParameterList& t=p.sublist("TensorProductCylinderMeshGenerator");
    t.set("Inner Radius",r.in); t.set("Outer Radius",r.out); t.set("Cylinder Length",r.len); t.set("Number Points Radius",r.rings); t.set("Ring Center x",O[o][0]); t.set("Ring Center y",O[o][1]); t.set("Z Origin",O[o][2]);
    auto disc=discretize(p,H);
    compare(c,fromDisc(*disc),"as distributed",1e-11,true);
  }
}

int main(int argc,char** argv){
  MPI_Init(&argc,&argv);
  R.init(argc,argv);
  std::string mode=R.get("mode");
  if(mode=="move") moves();
  if(mode=="grid"){ boxes(); cylinders(); }
  R.finish();
  MPI_Finalize();
  return 0;
}
