// A small body with one material model on one process, driven through the public
// interfaces of the material, damage and data classes exactly as the solvers drive them.
#ifndef CHECK_WORLD_HPP
#define CHECK_WORLD_HPP
#include "common.hpp"
#include "geom.hpp"
#include <algorithm>
#include <functional>
#include <memory>
#include <Epetra_MpiComm.h>
#include <Epetra_Vector.h>
#include <Epetra_FECrsMatrix.h>
#include <Epetra_Map.h>
#include <Teuchos_ParameterList.hpp>
#include "Peridigm_DataManager.hpp"
#include "Peridigm_Field.hpp"
#include "Peridigm_Material.hpp"
#include "Peridigm_MaterialFactory.hpp"
#include "Peridigm_DamageModel.hpp"
#include "Peridigm_DamageModelFactory.hpp"
#include "Peridigm_InfluenceFunction.hpp"
#include "Peridigm_SerialMatrix.hpp"
#include "Peridigm_DegreesOfFreedomManager.hpp"

namespace wld {
using namespace geo;
using PeridigmNS::FieldManager;
namespace PF = PeridigmNS::PeridigmField;

struct Body { std::string name; std::vector<V3> x; std::vector<double> vol; double horizon; std::vector<std::vector<int>> nb; };

inline std::vector<V3> lattice(int a,int b,int c,V3 h={1,1,1},V3 o={0,0,0}){ std::vector<V3> x; for(int k=0;k<c;++k) for(int j=0;j<b;++j) for(int i=0;i<a;++i) x.push_back({o[0]+i*h[0],o[1]+j*h[1],o[2]+k*h[2]}); return x; }
inline void findNeighbors(Body& b){ b.nb.assign(b.x.size(),{}); for(size_t i=0;i<b.x.size();++i) for(size_t j=0;j<b.x.size();++j) if(i!=j && norm(sub(b.x[i],b.x[j]))<=b.horizon) b.nb[i].push_back(j); }
inline Body body(const std::string& n,const std::vector<V3>& x,double h,const std::vector<double>& v={}){ Body b; b.name=n; b.x=x; b.horizon=h; b.vol=v.empty()?std::vector<double>(x.size(),1.0):v; findNeighbors(b); return b; }
// deterministic irregular numbers in (-1,1)
inline double jit(int i,int k){ double t=std::sin(12.9898*(i+1)+78.233*(k+1))*43758.5453; return 2*(t-std::floor(t))-1; }
inline Body jittered(Body b,double a,bool vols=true){ b.name+="j"; for(size_t i=0;i<b.x.size();++i){ for(int c=0;c<3;++c) b.x[i][c]+=a*jit(i,c); if(vols) b.vol[i]*=1+0.4*jit(i,3); } findNeighbors(b); return b; }

struct MatSpec {
  std::string key, name;
  std::function<void(Teuchos::ParameterList&)> set;
  bool finiteRotation=true;   // response follows finite rotations
  bool torqueDamaged=true;    // no net torque with broken bonds too
  bool isotropic=true;        // no directions singled out by the model
  bool cubic=true;            // the coordinate axes are interchangeable
  bool six=false;             // needs six independent bond dyads
  bool damage=true;           // looks at bond damage
  bool energy=false;          // reports a stored energy
  bool history=false;         // carries state from step to step
  bool rate=false;            // driven by velocities
  bool full3d=false;          // needs bonds that span space
  bool thermal=false;
  double amp=1;               // size of the deformations it is driven through
};

inline Teuchos::ParameterList baseParams(double K,double G,double rho,double horizon){ Teuchos::ParameterList p; p.set("Bulk Modulus",K); p.set("Shear Modulus",G); p.set("Density",rho); p.set("Horizon",horizon); return p; }

class World {
public:
  Body b; MatSpec m; double dt;
  Teuchos::RCP<PeridigmNS::Material> mat;
  Teuchos::RCP<const PeridigmNS::DamageModel> dmg;
  std::shared_ptr<PeridigmNS::DataManager> dm;
  Teuchos::RCP<Epetra_BlockMap> map1,map3,bmap;
  std::vector<int> list, owned; int n,nbonds;
  std::vector<int> fids;
  Teuchos::ParameterList params;

  World(const Body& body_,const MatSpec& m_,double dt_=1.0,double K=10,double G=6,const Teuchos::ParameterList* dparams=nullptr,std::vector<int> extra={}) : b(body_),m(m_),dt(dt_){
    FieldManager& fm=FieldManager::self();
    params=baseParams(K,G,2.0,b.horizon);
    if(m.set) m.set(params);
    params.set<std::string>("Material Model",m.name); params.set("Finite Difference Probe Length",1e-6);
    PeridigmNS::MaterialFactory mf; mat=mf.create(params);
    if(dparams){ PeridigmNS::DamageModelFactory df; dmg=df.create(*dparams); }
    // fields that the program always provides
    std::vector<int> ids=mat->FieldIds();
    ids.push_back(fm.getFieldId(PF::ELEMENT,PF::SCALAR,PF::CONSTANT,"Volume"));
    ids.push_back(fm.getFieldId(PF::ELEMENT,PF::SCALAR,PF::CONSTANT,"Horizon"));
    ids.push_back(fm.getFieldId(PF::NODE,PF::VECTOR,PF::CONSTANT,"Model_Coordinates"));
    ids.push_back(fm.getFieldId(PF::NODE,PF::VECTOR,PF::TWO_STEP,"Coordinates"));
    ids.push_back(fm.getFieldId(PF::NODE,PF::VECTOR,PF::TWO_STEP,"Displacement"));
    ids.push_back(fm.getFieldId(PF::NODE,PF::VECTOR,PF::TWO_STEP,"Velocity"));
    ids.push_back(fm.getFieldId(PF::NODE,PF::VECTOR,PF::TWO_STEP,"Force_Density"));
    ids.push_back(fm.getFieldId(PF::BOND,PF::SCALAR,PF::TWO_STEP,"Bond_Damage"));
    ids.push_back(fm.getFieldId(PF::ELEMENT,PF::SCALAR,PF::TWO_STEP,"Damage"));
    if(m.energy) ids.push_back(fm.getFieldId(PF::ELEMENT,PF::SCALAR,PF::CONSTANT,"Stored_Elastic_Energy_Density"));
    if(dmg!=Teuchos::null) for(int f:dmg->FieldIds()) ids.push_back(f);
    for(int f:extra) ids.push_back(f);
    std::sort(ids.begin(),ids.end()); ids.erase(std::unique(ids.begin(),ids.end()),ids.end());
    fids=ids;
    n=b.x.size(); owned.resize(n); for(int i=0;i<n;++i) owned[i]=i;
    std::vector<int> gid,len; nbonds=0;
    for(int i=0;i<n;++i){ list.push_back(b.nb[i].size()); for(int j:b.nb[i]) list.push_back(j); nbonds+=b.nb[i].size(); if(b.nb[i].size()){ gid.push_back(i); len.push_back(b.nb[i].size()); } }
    Epetra_MpiComm comm(MPI_COMM_SELF);
    map1=Teuchos::rcp(new Epetra_BlockMap(n,n,owned.data(),1,0,comm));
    map3=Teuchos::rcp(new Epetra_BlockMap(n,n,owned.data(),3,0,comm));
    bmap=Teuchos::rcp(new Epetra_BlockMap(-1,(int)gid.size(),gid.data(),len.data(),0,comm));
    dm=std::make_shared<PeridigmNS::DataManager>();
    dm->setMaps(map1,map1,map3,map3,bmap);
    dm->allocateData(fids);
    put("Horizon",PF::STEP_NONE,std::vector<double>(n,b.horizon));
    put("Volume",PF::STEP_NONE,b.vol);
    put("Model_Coordinates",PF::STEP_NONE,flat(b.x));
    put("Coordinates",PF::STEP_N,flat(b.x)); put("Coordinates",PF::STEP_NP1,flat(b.x));
    mat->initialize(dt,n,owned.data(),list.data(),*dm);
    if(dmg!=Teuchos::null) dmg->initialize(dt,n,owned.data(),list.data(),*dm);
  }
  static std::vector<double> flat(const std::vector<V3>& v){ std::vector<double> r; for(auto&p:v) for(double c:p) r.push_back(c); return r; }
  bool has(const std::string& f){ return FieldManager::self().hasField(f) && std::binary_search(fids.begin(),fids.end(),FieldManager::self().getFieldId(f)); }
  Epetra_Vector& vec(const std::string& f,PF::Step s){ return *dm->getData(FieldManager::self().getFieldId(f),s); }
  void put(const std::string& f,PF::Step s,const std::vector<double>& v){ Epetra_Vector& e=vec(f,s); for(int i=0;i<e.MyLength();++i) e[i]=v[i]; }
  std::vector<double> get(const std::string& f,PF::Step s){ Epetra_Vector& e=vec(f,s); std::vector<double> r(e.MyLength()); for(int i=0;i<e.MyLength();++i) r[i]=e[i]; return r; }
  void fill(const std::string& f,PF::Step s,double v){ vec(f,s).PutScalar(v); }
  // every stored number of one step
  std::vector<double> snapshot(PF::Step s,bool bondsToo=true){ std::vector<double> r; for(int f:fids){ if(!dm->hasData(f,s)) continue; (void)bondsToo; Epetra_Vector& e=*dm->getData(f,s); for(int i=0;i<e.MyLength();++i) r.push_back(e[i]); } return r; }
  std::vector<std::pair<std::string,std::vector<double>>> named(PF::Step s){ std::vector<std::pair<std::string,std::vector<double>>> r; for(int f:fids){ if(!dm->hasData(f,s)) continue; Epetra_Vector& e=*dm->getData(f,s); std::vector<double> v(e.MyLength()); for(int i=0;i<e.MyLength();++i) v[i]=e[i]; r.push_back({FieldManager::self().getFieldSpec(f).getLabel(),v}); } return r; }

  // place the points at y for the coming evaluation, velocity consistent with the step
  void place(const std::vector<V3>& y){
    std::vector<double> yn=get("Coordinates",PF::STEP_N),v(3*n),u(3*n); std::vector<double> yf=flat(y),xf=flat(b.x);
    for(int i=0;i<3*n;++i){ v[i]=(yf[i]-yn[i])/dt; u[i]=yf[i]-xf[i]; }
    put("Coordinates",PF::STEP_NP1,yf); put("Velocity",PF::STEP_NP1,v); put("Displacement",PF::STEP_NP1,u);
  }
  // temperature change and pore pressure: 0 none, 1 irregular
  void ambient(int k){
    for(const char* f:{"Temperature_Change","Temperature","Fluid_Pressure_Y"}) if(has(f)){ std::vector<double> v(n); for(int i=0;i<n;++i) v[i]=k?(k==2?-1:1)*(0.5+0.5*jit(i,f[0])):0; put(f,PF::STEP_NP1,v); if(k==0) put(f,PF::STEP_N,v); }
  }
  void damageStep(){ if(dmg!=Teuchos::null) dmg->computeDamage(dt,n,owned.data(),list.data(),*dm); }
  void force(){ mat->precompute(dt,n,owned.data(),list.data(),*dm); mat->computeForce(dt,n,owned.data(),list.data(),*dm); }
  std::vector<double> evaluate(const std::vector<V3>& y){ place(y); damageStep(); force(); return get("Force_Density",PF::STEP_NP1); }
  void accept(){ dm->updateState(); }
  void setBondDamage(const std::vector<double>& d){ put("Bond_Damage",PF::STEP_N,d); put("Bond_Damage",PF::STEP_NP1,d); put("Damage",PF::STEP_NP1,pointDamage(d)); }
  std::vector<double> pointDamage(const std::vector<double>& d){ std::vector<double> r(n); int k=0; for(int i=0;i<n;++i){ double s=0; for(size_t j=0;j<b.nb[i].size();++j) s+=d[k++]; r[i]=b.nb[i].empty()?0:s/b.nb[i].size(); } return r; }
  double energy(){ mat->computeStoredElasticEnergyDensity(dt,n,owned.data(),list.data(),*dm); std::vector<double> w=get("Stored_Elastic_Energy_Density",PF::STEP_NONE); double s=0; for(int i=0;i<n;++i) s+=w[i]*b.vol[i]; return s; }
  std::vector<double> energies(){ mat->computeStoredElasticEnergyDensity(dt,n,owned.data(),list.data(),*dm); return get("Stored_Elastic_Energy_Density",PF::STEP_NONE); }
};

inline void setInfluence(const std::string& s){ PeridigmNS::InfluenceFunction::self().setInfluenceFunction(s); }

// ------------------------------------------------------------------ families of bodies
inline double det6(const Body& b,int i){ // Gram determinant of the bond dyads, 0 when they do not span
  double A[6][6]={}; for(int j:b.nb[i]){ V3 d=sub(b.x[j],b.x[i]); double l=norm(d); for(double&c:d) c/=l; double q[6]={d[0]*d[0],d[1]*d[1],d[2]*d[2],d[0]*d[1],d[0]*d[2],d[1]*d[2]}; for(int r=0;r<6;++r) for(int c=0;c<6;++c) A[r][c]+=q[r]*q[c]; }
  double det=1; for(int c=0;c<6;++c){ int p=c; for(int r=c;r<6;++r) if(std::fabs(A[r][c])>std::fabs(A[p][c])) p=r; if(std::fabs(A[p][c])<1e-9) return 0; if(p!=c){ for(int k=0;k<6;++k) std::swap(A[p][k],A[c][k]); det=-det; } det*=A[c][c]; for(int r=c+1;r<6;++r){ double f=A[r][c]/A[c][c]; for(int k=c;k<6;++k) A[r][k]-=f*A[c][k]; } }
  return std::fabs(det); }
inline double span3(const Body& b,int i){ M3 K={}; double t=0; for(int j:b.nb[i]){ V3 d=sub(b.x[j],b.x[i]); double l2=dot(d,d); for(int r=0;r<3;++r) for(int c=0;c<3;++c) K[3*r+c]+=d[r]*d[c]/l2; t+=1; } return t>0?det(K)/(t*t*t/27):0; }
inline bool suits(const Body& b,const MatSpec& m){
  for(size_t i=0;i<b.x.size();++i){ if(m.full3d && span3(b,i)<0.05) return false; if(m.six && det6(b,i)<1e-4) return false; }
  return true; }
inline std::vector<Body> smallBodies(bool all){
  std::vector<Body> r; std::vector<V3> c=lattice(2,2,2);
  for(int mask=3;mask<256;++mask){ if(__builtin_popcount(mask)<2) continue;
    std::vector<V3> x; for(int i=0;i<8;++i) if(mask>>i&1) x.push_back(c[i]);
    const double hs[3]={1.25,1.58,1.95};
    for(int k=0;k<3;++k) for(int j=0;j<2;++j){ if(!all && (k==1 || j==0)) continue; Body b=body("c"+std::to_string(mask)+"h"+std::to_string(k),x,hs[k]); if(j) b=jittered(b,0.07); r.push_back(b); } }
  r.push_back(jittered(body("l5",lattice(5,1,1),2.1),0.06)); r.push_back(jittered(body("s33",lattice(3,3,1),1.6),0.06));
  r.push_back(body("l322",lattice(3,2,2),1.9)); r.push_back(jittered(body("l322",lattice(3,2,2),1.9),0.06));
  r.push_back(jittered(body("l333",lattice(3,3,3),1.9),0.06));
  if(all) r.push_back(jittered(body("l443",lattice(4,4,3),3.1),0.06));
  return r; }
struct Def { std::string name; std::function<V3(const V3&,int)> f; };
inline std::vector<Def> defs(){
  return {{"exp",[](const V3&x,int){ return V3{1.1*x[0],1.1*x[1],1.1*x[2]}; }},
          {"comp",[](const V3&x,int){ return V3{0.85*x[0],0.85*x[1],0.85*x[2]}; }},
          {"uni",[](const V3&x,int){ return V3{1.15*x[0],x[1],x[2]}; }},
          {"shear",[](const V3&x,int){ return V3{x[0]+0.15*x[1],x[1]-0.1*x[2],x[2]}; }},
          {"jit",[](const V3&x,int i){ return V3{x[0]+0.05*jit(i,11),x[1]+0.05*jit(i,12),x[2]+0.05*jit(i,13)}; }},
          {"bigjit",[](const V3&x,int i){ return V3{x[0]+0.12*jit(i,14),x[1]+0.12*jit(i,15),x[2]+0.12*jit(i,16)}; }},
          {"pull",[](const V3&x,int i){ return i==0?V3{x[0]-0.2,x[1]+0.1,x[2]-0.15}:x; }},
          {"bend",[](const V3&x,int){ return V3{x[0]+0.06*x[1]*x[1],x[1]+0.05*x[0]*x[2],x[2]-0.07*x[0]*x[0]}; }}};
}
inline std::vector<V3> apply(const Body& b,const Def& d,double amp=1){ std::vector<V3> y; for(size_t i=0;i<b.x.size();++i){ V3 u=sub(d.f(b.x[i],i),b.x[i]); for(double&c:u) c*=amp; y.push_back(add(b.x[i],u)); } return y; }

// ------------------------------------------------------------------ the material models
// Models are grouped so that no two of a group disagree about a shared field.
inline std::vector<MatSpec> materials(const std::string& group){
  typedef Teuchos::ParameterList PL; std::vector<MatSpec> r;
  auto add=[&](MatSpec m){ r.push_back(m); };
  if(group=="lps"){
    { MatSpec m; m.key="elastic"; m.name="Elastic"; m.energy=true; add(m); }
    { MatSpec m; m.key="elasticPS"; m.name="Elastic"; m.energy=true; m.set=[](PL&p){ p.set("Compute Partial Stress",true); }; add(m); }
    { MatSpec m; m.key="multi"; m.name="Multiphysics Elastic"; m.energy=true; m.set=[](PL&p){ p.set("Permeability",0.3); p.set("Fluid density",1.1); p.set("Fluid compressibility",0.2); p.set("Fluid dynamic viscosity",0.7); p.set("Fluid linear thermal expansion",0.0); p.set("Fluid Reynolds viscosity temperature effect",0.0); p.set("Permeability curve inflection damage",0.5); p.set("Max permeability",2.0); p.set("Permeability alpha",1.5); }; add(m); }
    { MatSpec m; m.key="bondbased"; m.name="Elastic Bond Based"; m.set=[](PL&p){ p.remove("Shear Modulus"); }; add(m); }
    { MatSpec m; m.key="ep"; m.name="Elastic Plastic"; m.set=[](PL&p){ p.set("Yield Stress",0.3); }; m.history=true; add(m); }
    { MatSpec m; m.key="epflat"; m.name="Elastic Plastic"; m.set=[](PL&p){ p.set("Yield Stress",0.3); p.set("Planar Problem",true); p.set("Thickness",1.0); }; m.history=true; add(m); }
    { MatSpec m; m.key="epoff"; m.name="Elastic Plastic"; m.set=[](PL&p){ p.set("Yield Stress",0.3); p.set("Disable Plasticity",true); }; m.history=true; add(m); }
    { MatSpec m; m.key="ephard"; m.name="Elastic Plastic Hardening"; m.set=[](PL&p){ p.set("Yield Stress",0.3); p.set("Hardening Modulus",1.5); }; m.history=true; m.isotropic=m.cubic=false; add(m); }
    { MatSpec m; m.key="ephardS"; m.name="Elastic Plastic Hardening"; m.set=[](PL&p){ p.set("Yield Stress",0.3); p.set("Hardening Modulus",0.2); p.set("Apply Shear Correction Factor",true); }; m.history=true; m.isotropic=m.cubic=false; m.full3d=true; add(m); }
    { MatSpec m; m.key="visco"; m.name="Viscoelastic"; m.set=[](PL&p){ p.set("lambda_i",0.6); p.set("tau b",2.0); }; m.history=true; add(m); }
    { MatSpec m; m.key="lpspv"; m.name="Linear LPS Partial Volume"; m.finiteRotation=false; add(m); }
    { MatSpec m; m.key="pals"; m.name="Pals"; m.isotropic=false; m.full3d=true; m.damage=false; m.energy=true; m.six=true; add(m); }
  } else if(group=="thermal"){
    { MatSpec m; m.key="elasticT"; m.name="Elastic"; m.energy=true; m.thermal=true; m.set=[](PL&p){ p.set("Thermal Expansion Coefficient",0.02); }; add(m); }
    { MatSpec m; m.key="multiT"; m.name="Multiphysics Elastic"; m.energy=true; m.thermal=true; m.set=[](PL&p){ p.set("Thermal Expansion Coefficient",0.02); p.set("Permeability",0.3); p.set("Fluid density",1.1); p.set("Fluid compressibility",0.2); p.set("Fluid dynamic viscosity",0.7); p.set("Fluid linear thermal expansion",0.01); p.set("Fluid Reynolds viscosity temperature effect",0.05); p.set("Permeability curve inflection damage",0.5); p.set("Max permeability",2.0); p.set("Permeability alpha",1.5); }; add(m); }
  } else if(group=="corr"){
    auto corr=[&](const char*k,const char*n,std::function<void(PL&)> f){ MatSpec m; m.key=k; m.name=n; m.full3d=true; m.damage=false; m.history=true; m.rate=true; m.set=[f](PL&p){ p.set("Hourglass Coefficient",0.1); if(f) f(p); }; add(m); };
    corr("corr","Elastic Correspondence",nullptr);
    corr("corrEP","Elastic Plastic Correspondence",[](PL&p){ p.set("Yield Stress",0.5); });
    corr("corrIH","Isotropic Hardening Correspondence",[](PL&p){ p.set("Yield Stress",0.5); p.set("Hardening Modulus",2.0); });
    corr("corrVP","Viscoplastic Needleman Correspondence",[](PL&p){ p.set("Yield Stress",0.5); p.set("Strain Hardening Exponent",0.2); p.set("Rate Hardening Exponent",0.1); p.set("Reference Strain Rate",0.01); p.set("Reference Strain 0",0.05); p.set("Reference Strain 1",0.5); });
  } else if(group=="hypo"){
    auto h=[&](const char*k,const char*n,std::function<void(PL&)> f){ MatSpec m; m.key=k; m.name=n; m.full3d=true; m.history=true; m.rate=true; m.torqueDamaged=false; m.set=[f](PL&p){ p.set("Actual Horizon",p.get<double>("Horizon")); if(f) f(p); }; add(m); };
    h("hypo","Elastic Hypoelastic Correspondence",nullptr);
    h("hypoEP","Elastic Plastic Hypoelastic Correspondence",[](PL&p){ p.set("Yield Stress",0.5); });
    h("hypoIH","Isotropic Hardening Hypoelastic Correspondence",[](PL&p){ p.set("Bulk Modulus",200.0); p.set("Yield Stress",0.5); p.set("Hardening Characteristic Strain",0.05); p.set("Hardening Exponent",0.2); });
  } else if(group=="ba"){
    auto h=[&](const char*k,const char*n,std::function<void(PL&)> f){ MatSpec m; m.key=k; m.name=n; m.full3d=true; m.history=true; m.rate=true; m.torqueDamaged=false; m.set=[f](PL&p){ if(f) f(p); }; add(m); };
    h("ba","Elastic Bond Associated Correspondence",nullptr);
    h("baEP","Elastic Plastic Bond Associated Correspondence",[](PL&p){ p.set("Yield Stress",0.5); });
    h("baIP","Isotropic Hardening Bond Associated Correspondence",[](PL&p){ p.set<std::string>("Hardening Rule","Power-law"); PL& q=p.sublist("Hardening Parameters"); q.set("Yield Stress",0.015); q.set("Hardening Characteristic Strain",0.05); q.set("Hardening Exponent",0.2); p.set("Bulk Modulus",200.0); });
    h("baIS","Isotropic Hardening Bond Associated Correspondence",[](PL&p){ p.set<std::string>("Hardening Rule","Saturation type exponential"); PL& q=p.sublist("Hardening Parameters"); q.set("Initial Yield Stress",0.015); q.set("Saturated Yield Stress",0.027); q.set("Exponential Constant",5.0); q.set("Linear Constant",0.4); p.set("Bulk Modulus",200.0); });
    for(auto&m:r) if(m.key=="baIP"||m.key=="baIS") m.amp=0.03;
  }
  return r;
}
} // namespace wld
#endif
