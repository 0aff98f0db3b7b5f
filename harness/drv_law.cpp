// Material models against independent statements of what they compute:
// tangents, diffusion, inelastic reference models, affine deformations, published force laws.
#include "world.hpp"
#include "Peridigm_BoundaryAndInitialConditionManager.hpp"
using namespace std; using namespace chk; using namespace wld;
typedef Teuchos::ParameterList PL;
static Reporter R;
static const char* INFL[4]={"One","Parabolic Decay","Gaussian","1.2 - 0.5*zeta/horizon"};
static int infl(){ return atoi(R.get("infl","0").c_str()); }
static double omega(double z,double h){
  switch(infl()){ case 0: return 1; case 1: { if(z>h) return 0; double s=z/h; return s<0.5?1:4*s*(1-s); } case 2: return exp(-z*z/(0.16*h*h)); default: return 1.2-0.5*z/h; } }
static double maxabs(const vector<double>& v){ double m=0; for(double c:v){ if(!(fabs(c)<=1e300)) return 1e300; m=max(m,fabs(c)); } return m; }
static bool compare(const vector<double>& got,const vector<double>& ref,double tol,const string& what,double floor=1e-3){
  if(got.size()!=ref.size()){ R.fail(what+": "+str(got.size())+" values instead of "+str(ref.size())); return false; }
  double sc=tol*(floor+maxabs(ref)); for(size_t i=0;i<ref.size();++i) if(!R.near(got[i],ref[i],sc,what+" entry "+str(i))) return false; return true; }
static vector<vector<double>> damagePatterns(World& w,bool all){
  vector<vector<double>> r; r.push_back(vector<double>(w.nbonds,0.0));
  if(!w.m.damage) return r;
  if(w.nbonds<=6&&all){ for(int m=1;m<(1<<w.nbonds);++m){ vector<double> d; for(int i=0;i<w.nbonds;++i) d.push_back(m>>i&1); r.push_back(d); } }
  else for(int k=0;k<(all?3:1);++k){ vector<double> d; for(int i=0;i<w.nbonds;++i) d.push_back((i+k)%3==0); r.push_back(d); }
  vector<double> d; for(int i=0;i<w.nbonds;++i) d.push_back(0.25*(i%5)); r.push_back(d);
  return r;
}
// ------------------------------------------------------------------ geometry of a body in the reference models
struct Geo { const Body& b; int n; vector<double> m; 
  Geo(const Body& b_,bool useInfluence):b(b_),n(b_.x.size()),m(n,0.0){ for(int i=0;i<n;++i) for(int j:b.nb[i]){ double z=zeta(i,j); m[i]+=(useInfluence?omega(z,b.horizon):1)*z*z*b.vol[j]; } }
  double zeta(int i,int j) const { return norm(sub(b.x[j],b.x[i])); }
  double ext(const vector<V3>& y,int i,int j) const { return norm(sub(y[j],y[i]))-zeta(i,j); }
  vector<double> theta(const vector<V3>& y,const vector<double>& d,bool useInfluence,double al=0,const vector<double>& dT={}) const {
    vector<double> t(n,0.0); int k=0; for(int i=0;i<n;++i){ for(int j:b.nb[i]){ double z=zeta(i,j),e=ext(y,i,j); if(al!=0) e-=al*dT[i]*z; t[i]+=3*(useInfluence?omega(z,b.horizon):1)*(1-d[k])*z*e*b.vol[j]; ++k; } if(b.nb[i].size()) t[i]/=m[i]; } return t; }
};
static void bondForce(const Body& b,const vector<V3>& y,int i,int j,double t,vector<double>& f){ V3 e=sub(y[j],y[i]); double l=norm(e); for(int c=0;c<3;++c){ f[3*i+c]+=t*e[c]/l*b.vol[j]; f[3*j+c]-=t*e[c]/l*b.vol[i]; } }

// ------------------------------------------------------------------ P28: published force laws
static void p28(const string& group){
  auto D=defs(); const double K=10,G=6,pi=acos(-1.0);
  for(auto&m:materials(group)) for(auto&b:smallBodies(true)){
    if(!suits(b,m)) continue; if(infl()&&b.name.back()!='j') continue;
    if(!R.want(m.key+"/w"+str(infl())+"/"+b.name)) continue;
    World w(b,m,0.5); int n=w.n;
    if(m.key=="elastic"||m.key=="elasticPS"||m.key=="elasticT"||m.key=="multi"||m.key=="multiT"||m.key=="bondbased"||m.key=="lpspv"||m.key=="epoff"||m.key=="visco"){
      bool flat=m.key=="epoff"||m.key=="visco"; if(flat&&infl()) continue;
      Geo g(b,!flat); double al=m.thermal?0.02:0;
      auto pats=damagePatterns(w,true);
      if(w.has("Weighted_Volume")) compare(w.get("Weighted_Volume",PF::STEP_NONE),g.m,1e-12,"weighted volume");
      const double AMP[3]={1,1e-5,2.3};
      for(size_t p=0;p<pats.size();++p) for(auto&def:D) for(int q3=0;q3<3;++q3) for(int amb=0;amb<(m.thermal?3:1);++amb){
        const auto&d=pats[p]; if(m.key=="visco"&&p) continue; if(q3&&p>1) continue; const double fl=q3==1?(amb?1e-3:1e-6):1e-3,loose=q3==1?1e3:1; w.setBondDamage(d);
        w.ambient(amb); if(w.has("Fluid_Pressure_Y")) w.fill("Fluid_Pressure_Y",PF::STEP_NP1,0);
        vector<V3> y=apply(b,def,m.amp*AMP[q3]); vector<double> f=w.evaluate(y); R.step(); vector<double> dT(n,0.0); if(m.thermal) dT=w.get("Temperature_Change",PF::STEP_NP1);
        vector<double> ref(3*n,0.0); string what=def.name+" x "+str(AMP[q3])+" damage "+str(p)+" ambient "+str(amb);
        vector<double> th;
        if(m.key!="bondbased"){
          if(m.key=="lpspv"){ th.assign(n,0.0); int k=0; for(int i=0;i<n;++i){ for(int j:b.nb[i]){ V3 z=sub(b.x[j],b.x[i]),du=sub(sub(y[j],y[i]),z); th[i]+=3*omega(norm(z),b.horizon)*(1-d[k++])*dot(z,du)*b.vol[j]; } if(b.nb[i].size()) th[i]/=g.m[i]; } }
          else th=g.theta(y,d,!flat,al,dT);
          compare(w.get("Dilatation",PF::STEP_NP1),th,1e-10*loose,what+" dilatation",fl); }
        int k=0; vector<double> ps(9*n,0.0);
        for(int i=0;i<n;++i) for(int j:b.nb[i]){ double z=g.zeta(i,j),e=g.ext(y,i,j),o=flat?1:omega(z,b.horizon),q=1-d[k++];
          if(m.key=="bondbased") bondForce(b,y,i,j,0.5*q*18*K/(pi*pow(b.horizon,4))*e/z,ref);
          else if(m.key=="lpspv"){ V3 zv=sub(b.x[j],b.x[i]),du=sub(sub(y[j],y[i]),zv); double t1=(9*K-15*G)*o*th[i]/(3*g.m[i]),t2=15*G*o/(g.m[i]*z*z)*dot(zv,du); for(int c=0;c<3;++c){ double f1=q*(t1+t2)*zv[c]; ref[3*i+c]+=f1*b.vol[j]; ref[3*j+c]-=f1*b.vol[i]; } }
          else { double a=15*G/g.m[i]; e-=al*dT[i]*z; double t;
            if(m.key=="epoff"){ double ed=e-th[i]*z/3; t=q*(3*K*th[i]*z/g.m[i]+q*a*ed); }
            else if(m.key=="visco"){ double ed=e-th[i]*z/3; double c1=2.0/0.5,be=1-c1*(1-exp(-1/c1)); t=3*K*th[i]*z/g.m[i]+0.4*a*ed+0.6*a*(ed-be*ed); }
            else t=q*(o*th[i]*(3*K/g.m[i]-a/3)*z+q*o*a*e);
            bondForce(b,y,i,j,t,ref);
            if(m.key=="elasticPS"){ V3 yv=sub(y[j],y[i]),zv=sub(b.x[j],b.x[i]); double l=norm(yv); for(int r=0;r<3;++r) for(int c=0;c<3;++c) ps[9*i+3*r+c]+=t*yv[r]/l*zv[c]*b.vol[j]; } } }
        compare(f,ref,1e-9*loose,what+" force",fl); if(m.key=="elasticPS") compare(w.get("Partial_Stress",PF::STEP_NP1),ps,1e-9*loose,what+" partial stress",fl);
        if(m.energy){ vector<double> we=w.energies(),rw(n,0.0); int kk=0; for(int i=0;i<n;++i){ rw[i]=0.5*K*th[i]*th[i]; for(int j:b.nb[i]){ const double q=1-d[kk++]; double z=g.zeta(i,j),ed=g.ext(y,i,j)-al*dT[i]*z-th[i]*z/3; rw[i]+=0.5*q*15*G/g.m[i]*omega(z,b.horizon)*ed*ed*b.vol[j]; } } compare(we,rw,1e-9*loose,what+" energy",fl); }
        R.outcomeD(f.data(),f.size()); w.setBondDamage(pats[0]);
      }
    } else if(m.rate){ // stress from the strain increment, no rotation
      double Kb=w.params.get<double>("Bulk Modulus"),Gs=w.params.get<double>("Shear Modulus");
      M3 Fs[5]={{1.1,0,0,0,1,0,0,0,1},{1.02,0,0,0,1.02,0,0,0,1.02},{0.97,0,0,0,1.02,0,0,0,1.01},{1,0,0,0,0.9,0,0,0,1.05},{1.001,0,0,0,1,0,0,0,0.999}};
      for(int k=0;k<5;++k){ World v(b,m,0.5); M3 F=Fs[k]; for(int c=0;c<9;++c) F[c]=(c%4==0)+m.amp*(F[c]-(c%4==0));
        vector<V3> y; for(auto&p:b.x) y.push_back(mul(F,p)); v.evaluate(y); R.step();
        // strain increment of the step: rate (F-1)F^-1 over the step
        double e[3],tr=0; for(int c=0;c<3;++c){ e[c]=(F[4*c]-1)/F[4*c]; tr+=e[c]; }
        double s[3],vm=0; for(int c=0;c<3;++c) s[c]=2*Gs*(e[c]-tr/3); vm=sqrt(1.5*(s[0]*s[0]+s[1]*s[1]+s[2]*s[2]));
        bool elasticModel=m.key=="corr"||m.key=="hypo"||m.key=="ba"; double pr=Kb*tr;
        string f="Unrotated_Cauchy_Stress"; if(!v.has(f)) continue; vector<double> st=v.get(f,PF::STEP_NP1);
        for(int i=0;i<n;++i){ double p=(st[9*i]+st[9*i+4]+st[9*i+8])/3; if(!R.near(p,pr,1e-9*(1e-3+fabs(Kb*tr)+vm),"map "+str(k)+" pressure of point "+str(i))) break;
          for(int c=0;c<9;++c) if(c%4) R.near(st[9*i+c],0,1e-9*(1e-3+fabs(pr)+vm),"map "+str(k)+" shear stress");
          if(elasticModel) for(int c=0;c<3;++c) R.near(st[9*i+4*c],pr+s[c],1e-9*(1e-3+fabs(pr)+vm),"map "+str(k)+" stress "+str(c)+" of point "+str(i)); }
        R.outcomeD(st.data(),st.size()); }
    }
  }
}
// any two elastic constants of the same material
static void p28constants(const string& group){
  auto D=defs();
  for(auto&m:materials(group)) for(auto&b:smallBodies(false)){
    if(b.name!="c255h2j"&&b.name!="c107h2j"&&b.name!="l322j"&&b.name!="c3h2j") continue; if(!suits(b,m)) continue;
    World w(b,m,0.5); bool bb=m.key=="bondbased"; double K=w.params.get<double>("Bulk Modulus"),G=bb?0.6*K:w.params.get<double>("Shear Modulus"); double E=9*K*G/(3*K+G),nu=(3*K-2*G)/(2*(3*K+G));
    const char* nm[4]={"Bulk Modulus","Shear Modulus","Young's Modulus","Poisson's Ratio"}; double v[4]={K,G,E,nu};
    for(int i=0;i<4;++i) for(int j=i+1;j<4;++j){ if(bb) continue; if(!R.want(m.key+"/constants/"+b.name+"/"+str(i)+str(j))) continue;
      MatSpec mm=m; auto f=m.set; mm.set=[f,i,j,&nm,&v](PL&p){ if(f) f(p); p.remove("Bulk Modulus"); p.remove("Shear Modulus"); p.set(nm[i],v[i]); p.set(nm[j],v[j]); };
      World a(b,m,0.5),c(b,mm,0.5); for(size_t d=0;d<D.size();++d){ vector<V3> y=apply(b,D[d],m.amp); vector<double> fa=a.evaluate(y),fc=c.evaluate(y); R.step(2); compare(fc,fa,1e-6,string(nm[i])+" and "+nm[j]+" "+D[d].name); if(m.history){ a.accept(); c.accept(); } R.outcomeD(fa.data(),fa.size()); } } }
}
static const double SPAN=1e-2; // the models regularise flatter weighted neighborhoods
// ------------------------------------------------------------------ P26: affine deformations
static vector<M3> affine(){ return {{1,0,0,0,1,0,0,0,1},{1.2,0,0,0,1,0,0,0,1},{1,0.3,0,0,1,0,0,0,1},{1,0,0,0.2,1,0.1,0,-0.2,1},{1.1,0.05,-0.04,0.02,0.95,0.07,-0.03,0.06,1.04},{0.8,0,0,0,0.8,0,0,0,0.8},{1,0,0.4,0,1,0,0,0,1},{0.9,0.1,0.2,-0.1,1.1,0.15,-0.05,0.2,1.2}}; }
static void p26(const string& group){
  auto A=affine(); { M3 Q=rotation({1,2,3},0.7); A.push_back(Q); A.push_back(mul(Q,A[4])); }
  for(auto&m:materials(group)) for(auto&b:smallBodies(true)){
    if(!suits(b,m)) continue; if(infl()==2&&b.name.back()!='j') continue;
    if(!R.want(m.key+"/w"+str(infl())+"/"+b.name)) continue;
    World probe(b,m,0.5); int n=probe.n;
    if(m.rate){
      vector<vector<double>> pats; pats.push_back(vector<double>(probe.nbonds,0.0));
      if(m.damage){ // every single broken bond and every pair at one point that leaves the neighborhoods spanning
        vector<vector<int>> own; int k=0; for(int i=0;i<n;++i){ own.push_back({}); for(size_t j=0;j<b.nb[i].size();++j) own[i].push_back(k++); }
        for(int i=0;i<n;++i) for(size_t j=0;j<own[i].size();++j) for(size_t l=j;l<own[i].size();++l){ if(probe.nbonds>60 && (i+j+l)%7) continue; if(probe.nbonds>500 && (37*i+11*j+l)%499) continue; vector<double> d(probe.nbonds,0.0); d[own[i][j]]=d[own[i][l]]=1;
          Body t=b; t.nb[i].clear(); for(size_t q=0;q<b.nb[i].size();++q) if(q!=j&&q!=l) t.nb[i].push_back(b.nb[i][q]); if(suits(t,m)) pats.push_back(d); } }
      for(size_t p=0;p<pats.size();++p) for(size_t k=0;k<A.size();++k){
        if(p&&k!=4&&k!=7) continue;
        World w(b,m,0.5); w.setBondDamage(pats[p]); M3 F=A[k]; for(int c=0;c<9;++c) F[c]=(c%4==0)+m.amp*(F[c]-(c%4==0));
        if(m.key!="corr"&&m.key!="hypo"&&m.key!="ba"&&k>4) continue;
        V3 t={0.3,-0.2,0.1}; vector<V3> y; for(auto&x:b.x) y.push_back(add(mul(F,x),t)); if(m.key.substr(0,4)=="hypo"&&infl()==1){ bool past=false; for(int i=0;i<n;++i) for(int j:b.nb[i]) if(norm(sub(y[j],y[i]))>0.99*b.horizon) past=true; if(past){ R.counters["bonds past the support"]++; continue; } }
        w.evaluate(y); R.step(); string what="map "+str(k)+" broken "+str(p);
        M3 Fd=F; for(int c=0;c<9;++c) Fd[c]=(F[c]-(c%4==0))/0.5; M3 L=mul(Fd,inverse(F));
        if(m.key.substr(0,4)=="hypo"&&infl()){ bool weak=false; int q=0; for(int i=0;i<n;++i){ M3 S={}; for(int j:b.nb[i]){ V3 e=sub(y[j],y[i]); double o=(1-pats[p][q++])*omega(norm(e),b.horizon); for(int r=0;r<3;++r) for(int c=0;c<3;++c) S[3*r+c]+=o*e[r]*e[c]; } double t=(S[0]+S[4]+S[8])/3; if(det(S)<SPAN*t*t*t) weak=true; } if(weak){ R.counters["nearly flat weighted neighborhoods"]++; continue; } }
        // all bonded points, or those with intact neighborhoods in the damaged case of models that keep a record of the loss
        auto tensor=[&](const string& f,PF::Step s,const M3& ref){ if(!w.has(f)||!w.dm->hasData(FieldManager::self().getFieldId(f),s)) return; if(FieldManager::self().getFieldSpec(f).getRelation()==PF::BOND) return; vector<double> v=w.get(f,s); for(int i=0;i<n;++i) for(int c=0;c<9;++c) if(!R.near(v[9*i+c],ref[c],1e-8,what+" "+f+" of point "+str(i)+" component "+str(c))) return; };
        auto rows=[&](const string& f,PF::Step s,const M3& ref){ for(int r=0;r<3;++r){ string q=f+"_"+string(1,'X'+r); if(!w.has(q)||!w.dm->hasData(FieldManager::self().getFieldId(q),s)) continue; vector<double> v=w.get(q,s); for(int i=0;i<n;++i) for(int c=0;c<3;++c) if(!R.near(v[3*i+c],ref[3*r+c],1e-8,what+" "+q+" of point "+str(i)+" component "+str(c))) return; } };
        if(m.key.substr(0,4)=="corr"){ tensor("Deformation_Gradient",PF::STEP_NONE,F); }
        if(m.key.substr(0,2)=="ba"){ tensor("Deformation_Gradient",PF::STEP_NONE,F); tensor("Deformation_Gradient",PF::STEP_NP1,F); rows("Deformation_Gradient",PF::STEP_NONE,F); rows("Deformation_Gradient",PF::STEP_NP1,F); rows("Deformation_Gradient_Dot",PF::STEP_NONE,Fd); rows("Deformation_Gradient_Dot",PF::STEP_NP1,Fd); tensor("Velocity_Gradient",PF::STEP_NONE,L); }
        if(m.key.substr(0,4)=="hypo"){ rows("Velocity_Gradient",PF::STEP_NONE,L); rows("Velocity_Gradient",PF::STEP_NP1,L); }
        if(k==4) R.outcomeD(pats[p].data(),pats[p].size());
      }
    } else if(probe.has("Dilatation")){
      Geo g(b,true);
      for(double a:{-0.3,-0.1,-0.001,0.0,0.001,0.1,0.5}) for(int q=0;q<2;++q){ World w(b,m,0.5); w.ambient(q&&m.thermal?1:0); if(w.has("Fluid_Pressure_Y")) w.fill("Fluid_Pressure_Y",PF::STEP_NP1,0);
        M3 Q=(m.finiteRotation&&q)?rotation({2,-1,1},1.3):ident(); vector<V3> y; for(auto&x:b.x){ V3 t=mul(Q,x); for(double&c:t) c*=1+a; y.push_back(add(t,V3{1,2,3})); } w.evaluate(y); R.step();
        vector<double> th=w.get("Dilatation",PF::STEP_NP1),dT(n,0.0); if(m.thermal) dT=w.get("Temperature_Change",PF::STEP_NP1);
        for(int i=0;i<n;++i) R.near(th[i],b.nb[i].empty()?0:3*(a-(m.thermal?0.02*dT[i]:0)),1e-9,"expansion "+str(a)+" turned "+str(q)+" point "+str(i)); R.outcomeD(th.data(),th.size()); }
    }
  }
}
// ------------------------------------------------------------------ P09: tangents
static void p09(const string& group){
  auto D=defs(); PL sp; PeridigmNS::DegreesOfFreedomManager::self().initialize(sp);
  vector<MatSpec> ms; for(auto m:materials(group)){ ms.push_back(m); for(const char* k:{"elastic","elasticPS","elasticT","ep","ephard","epflat","epoff"}) if(m.key==k){ MatSpec a=m; a.key+="AD"; auto f=m.set; a.set=[f](PL&p){ if(f) f(p); p.set("Apply Automatic Differentiation Jacobian",true); }; ms.push_back(a); MatSpec c=m; c.key+="FD"; c.set=[f](PL&p){ if(f) f(p); p.set("Apply Automatic Differentiation Jacobian",false); }; ms.push_back(c); } }
  for(auto&m:ms) for(auto&b:smallBodies(true)){
    if(m.key.substr(0,5)=="multi") continue; // needs the pressure unknowns
    if(b.x.size()>12 && !R.opt.thorough) continue;
    if(b.name[0]=='c' && b.name.back()!='j' && !R.opt.thorough) continue;
    if(b.x.size()<2 || !suits(b,m)) continue;
    bool lone=false; for(auto&q:b.nb) if(q.empty()) lone=true;
    if(!R.want(m.key+"/w"+str(infl())+"/"+b.name)) continue;
    int n=b.x.size();
    World w0(b,m,0.5); auto pats=damagePatterns(w0,b.x.size()<=3);
    for(size_t p=0;p<pats.size();++p) for(size_t d=0;d<D.size();++d){
      if(p && d!=5 && d!=2) continue;
      World w(b,m,0.5);
      auto start=[&](World& v){ v.setBondDamage(pats[p]); if(m.history&&d%2){ v.evaluate(apply(b,D[(d+2)%8],m.amp)); v.accept(); v.setBondDamage(pats[p]); } if(m.thermal) v.ambient(1); };
      start(w); vector<V3> y=apply(b,D[d],m.amp); vector<double> f=w.evaluate(y);
      Epetra_MpiComm comm(MPI_COMM_SELF); vector<int> g(3*n); for(int i=0;i<3*n;++i) g[i]=i; Epetra_Map rm(3*n,3*n,g.data(),0,comm);
      auto matrix=[&](){ Teuchos::RCP<Epetra_FECrsMatrix> A=Teuchos::rcp(new Epetra_FECrsMatrix(Copy,rm,3*n)); vector<double> z(3*n,0.0); for(int i=0;i<3*n;++i) A->InsertGlobalValues(i,3*n,z.data(),g.data()); A->GlobalAssemble(); A->PutScalar(0); return A; };
      auto dense=[&](Teuchos::RCP<Epetra_FECrsMatrix> A){ vector<double> r(9*n*n,0.0); vector<double> v(3*n); vector<int> c(3*n); int k; for(int i=0;i<3*n;++i){ A->ExtractGlobalRowCopy(i,3*n,k,v.data(),c.data()); for(int q=0;q<k;++q) r[i*3*n+c[q]]+=v[q]; } return r; };
      auto A=matrix(),B=matrix();
      { PeridigmNS::SerialMatrix s(A); w.mat->computeJacobian(w.dt,n,w.owned.data(),w.list.data(),*w.dm,s,PeridigmNS::Material::FULL_MATRIX); A->GlobalAssemble(); }
      { PeridigmNS::SerialMatrix s(B); w.mat->computeJacobian(w.dt,n,w.owned.data(),w.list.data(),*w.dm,s,PeridigmNS::Material::BLOCK_DIAGONAL); B->GlobalAssemble(); }
      R.step(2); vector<double> a=dense(A),bd=dense(B); double sc=1e-3+maxabs(a); string what=D[d].name+" damage "+str(p);
      // the force the next evaluation finds must not have been disturbed
      vector<double> f2=w.evaluate(y); compare(f2,f,1e-10,what+" force after the tangent");
      vector<double> ref(9*n*n); double h=1e-6; bool kink=false;
      for(int j=0;j<n;++j) for(int c=0;c<3;++c){ vector<double> q[6]; int k=0; for(double s:{-4.,-2.,-1.,1.,2.,4.}){ vector<V3> z=y; z[j][c]+=s*h; q[k++]=w.evaluate(z); R.step(); }
        for(int i=0;i<3*n;++i){ double d1=(q[3][i]-q[2][i])/(2*h),d2=(q[4][i]-q[1][i])/(4*h),d3=(q[5][i]-q[0][i])/(8*h); ref[i*3*n+3*j+c]=d1*b.vol[i/3]; if(max(fabs(d1-d2),fabs(d1-d3))*b.vol[i/3]>4e-6*sc || fabs(q[3][i]+q[2][i]-2*f[i])/h*b.vol[i/3]>2e-5*sc) kink=true; } }
      if(kink){ R.counters["kinks"]++; continue; }
      bool ok=true; for(int i=0;i<3*n&&ok;++i) for(int j=0;j<3*n&&ok;++j) ok=R.near(a[i*3*n+j],ref[i*3*n+j],2e-5*sc,what+" row "+str(i)+" column "+str(j));
      for(int i=0;i<3*n&&ok;++i) for(int j=0;j<3*n&&ok;++j) ok=R.near(bd[i*3*n+j],i/3==j/3?a[i*3*n+j]:0,1e-10*sc,what+" block diagonal row "+str(i)+" column "+str(j));
      R.outcomeD(a.data(),a.size()); (void)lone;
    }
  }
}
// ------------------------------------------------------------------ P21: inelastic reference models
struct Inel { // reference state-based plasticity and viscoelasticity
  vector<double> scf; const Body& b; Geo g; string kind; double K,G,sy,H,li,tau,dt; vector<double> lam,edp,yN,dm; vector<V3> yPrev; vector<double> f,lamT,edpT; vector<V3> yT;
  Inel(const Body& b_,const string& k,double K_,double G_,double sy_,double H_,double li_,double tau_,double dt_):b(b_),g(b_,false),kind(k),K(K_),G(G_),sy(sy_),H(H_),li(li_),tau(tau_),dt(dt_){ int nb=0; for(auto&q:b.nb) nb+=q.size(); lam.assign(b.x.size(),0.0); edp.assign(nb,0.0); dm.assign(nb,0.0); yPrev=b.x; }
  void eval(const vector<V3>& y){ int n=b.x.size(); f.assign(3*n,0.0); lamT=lam; edpT=edp; yT=y; vector<double> th=g.theta(y,dm,false),thN=g.theta(yPrev,dm,false);
    const double pi=acos(-1.0); double psi0=kind=="epflat"?75*sy*sy/(8*pi*pow(b.horizon,4)):25*sy*sy/(8*pi*pow(b.horizon,5)); int k0=0;
    for(int i=0;i<n;++i){ if(b.nb[i].empty()) continue; double c=scf.empty()?1:scf[i],a=c*15*G/g.m[i],psi=c*c*psi0; int nb=b.nb[i].size(); vector<double> ed(nb); 
      for(int q=0;q<nb;++q){ int j=b.nb[i][q]; ed[q]=(kind=="visco"?1-dm[k0+q]:1)*g.ext(y,i,j)-th[i]*g.zeta(i,j)/3; }
      vector<double> td(nb); 
      if(kind=="visco"){ double c1=tau/dt,dec=exp(-1/c1),be=1-c1*(1-dec); for(int q=0;q<nb;++q){ int j=b.nb[i][q]; double edN=(1-dm[k0+q])*g.ext(yPrev,i,j)-thN[i]*g.zeta(i,j)/3; edpT[k0+q]=edN*(1-dec)+edp[k0+q]*dec+be*(ed[q]-edN); td[q]=(1-li)*a*ed[q]+li*a*(ed[q]-edpT[k0+q]); } }
      else { double nrm=0; for(int q=0;q<nb;++q){ td[q]=(1-dm[k0+q])*a*(ed[q]-edp[k0+q]); nrm+=td[q]*td[q]*b.vol[b.nb[i][q]]; } nrm=sqrt(nrm);
        double dl=0; if(kind=="ephard"){ auto F=[&](double x){ double s=nrm/(1+a*x); return s*s/2-psi-H*(lam[i]+x); }; if(nrm*nrm/2>psi && F(0)>0){ double lo=0,hi=1; while(F(hi)>0) hi*=2; for(int it=0;it<200;++it){ double mid=(lo+hi)/2; (F(mid)>0?lo:hi)=mid; } dl=(lo+hi)/2; } }
        else if(nrm*nrm/2>psi) dl=(nrm/sqrt(2*psi)-1)/a;
        if(dl>0){ lamT[i]=lam[i]+dl; for(int q=0;q<nb;++q){ td[q]/=1+a*dl; edpT[k0+q]=edp[k0+q]+td[q]*dl; } } }
      for(int q=0;q<nb;++q){ int j=b.nb[i][q]; bondForce(b,y,i,j,(1-dm[k0+q])*(3*K*th[i]*g.zeta(i,j)/g.m[i]+td[q]),f); }
      k0+=nb; } }
  void accept(){ lam=lamT; edp=edpT; yPrev=yT; }
};
// One step of a plasticity model with a yield limit on the equivalent stress: the pressure is elastic,
// the deviatoric stress is the elastic trial scaled back to the yield limit when it lies outside.
static bool j2(const string& key,const string& what,double ty,double dt,double K,double G,const vector<double>& D,const vector<double>& sN,const vector<double>& s,const vector<double>& vm,const vector<double>& eN,const vector<double>& e,const vector<double>& tx){
  bool small=key=="baIP"||key=="baIS"; double sy=(small?0.015:0.5)*ty;
  for(size_t i=0;i<vm.size();++i){ double tr=dt*(D[9*i]+D[9*i+4]+D[9*i+8]),pN=(sN[9*i]+sN[9*i+4]+sN[9*i+8])/3,p=(s[9*i]+s[9*i+4]+s[9*i+8])/3; string wh=what+str(i);
    double t[9],qt=0,q=0,qN=0,se=0; for(int c=0;c<9;++c){ double de=dt*D[9*i+c]-(c%4==0?tr/3:0),dN=sN[9*i+c]-(c%4==0?pN:0); t[c]=dN+2*G*de; qt+=t[c]*t[c]; qN+=dN*dN; double d=s[9*i+c]-(c%4==0?p:0); q+=d*d; se+=t[c]*de; } double mt=sqrt(qt); se=mt>0?se/mt:0; qt=sqrt(1.5*qt); q=sqrt(1.5*q);
    double sc=1e-3*sy+qt+K*fabs(tr)+fabs(pN);
    if(!R.near(p,pN+K*tr,1e-9*sc,wh+" pressure")) return false; if(!R.near(vm[i],q,1e-9*sc,wh+" reported equivalent stress")) return false;
    if(tx.size()&&q>1e-3*sy&&!R.near(tx[i],p/q,1e-7*(1+fabs(p/q)),wh+" triaxiality")) return false;
    double fac=qt>0?q/qt:1; for(int c=0;c<9;++c) if(!R.near(s[9*i+c]-(c%4==0?p:0),fac*t[c],1e-8*sc,wh+" stress direction "+str(c))) return false;
    if(!R.expect(q<=qt+1e-9*sc,wh+" stress beyond the elastic trial")) return false; if(!R.expect(e[i]>=eN[i]-1e-14,wh+" plastic strain fell from "+str(eN[i])+" to "+str(e[i]))) return false;
    if(qt<sy*(1-1e-9)){ if(!R.near(q,qt,1e-9*sc,wh+" elastic stress")) return false; if(!R.near(e[i],eN[i],1e-14,wh+" plastic strain below the yield limit")) return false; }
    bool plastic=q<qt-1e-7*sc; if(plastic&&key!="corrVP"&&!R.expect(q>=sy*(1-1e-7),wh+" stress "+str(q)+" returned below the yield limit "+str(sy))) return false;
    if(plastic){ double al=0; for(int c=0;c<9;++c) al+=t[c]*(sN[9*i+c]-(c%4==0?pN:0)); if(qN>1e-6*sy*sy && al>(1-1e-12)*mt*sqrt(qN) && !R.near(e[i]-eN[i],(qt-q)/(3*G),1e-6*qt/G,wh+" plastic strain increment")) return false; }
    double lim=-1; auto power=[&](double x){ return sy*pow(1+x/0.05,0.2); };
    if(key.find("EP")!=string::npos) lim=sy; else if(key=="baIP") lim=power(e[i]); else if(key=="baIS") lim=0.4*e[i]+0.027*ty+(0.015-0.027)*ty*exp(-5*e[i]);
    else if(key=="corrIH"&&qt>=sy){ double dl=(6*se*G+3*sqrt(qN)-sqrt(6.0)*sy)/(2*(2.0+3*G)); lim=sy+2.0*(eN[i]+sqrt(2./3)*dl); }
    else if(key=="hypoIH"&&qt>=power(eN[i])){ auto slope=[&](double x){ return sy*0.2/0.05*pow(1+x/0.05,0.2-1); }; double num=6*se*G-sqrt(6.0)*power(eN[i])+3*sqrt(qN),h0=slope(eN[i]),dl=num/(2*(h0+3*G)); double h1=slope(eN[i]+sqrt(2./3)*dl); dl=num/(h0+h1+6*G); lim=power(eN[i]+sqrt(2./3)*dl); }
    else if(key=="corrVP") continue; else lim=max(qt,sy);
    if(!R.expect(q<=lim*(1+1e-7)+1e-12,wh+" equivalent stress "+str(q)+" exceeds "+str(lim))) return false;
    if(plastic&&!R.near(q,lim,1e-6*lim,wh+" equivalent stress off the yield limit")) return false; }
  return true; }
static void p21(const string& group){
  vector<Body> bs; for(auto&b:smallBodies(false)){ int c=b.x.size(); if(c>=2 && (b.name[0]!='c' || b.name=="c3h2j"||b.name=="c7h2j"||b.name=="c11h0j"||b.name=="c23h2j"||b.name=="c107h2j"||b.name=="c255h2j"||b.name=="c255h0j")) bs.push_back(b); }
  auto D=defs(); vector<Def> L={D[0],D[2],D[3],D[5],{"rest",[](const V3&x,int){ return x; }},{"tiny",[](const V3&x,int){ return V3{x[0]*1.0004,x[1]-0.0003*x[0],x[2]}; }},{"rev",[](const V3&x,int){ return V3{0.9*x[0],x[1]+0.1*x[2],x[2]*1.02}; }},{"more",[](const V3&x,int){ return V3{1.35*x[0],x[1],x[2]}; }}};
  int depth=R.opt.thorough?4:3;
  for(auto&m:materials(group)) for(auto&b:bs){
    if(!m.history || !suits(b,m)) continue; if(b.x.size()>12 && m.rate) continue;
    bool ref=m.key=="ep"||m.key=="epflat"||m.key=="ephard"||m.key=="visco"||m.key=="epoff"; if(m.key=="ephardS") continue;
    MatSpec el; el.key="twin"; el.amp=m.amp; if(group=="corr"){ el.name="Elastic Correspondence"; } else if(group=="hypo") el.name="Elastic Hypoelastic Correspondence"; else if(group=="ba") el.name="Elastic Bond Associated Correspondence"; else el.name="Elastic";
    for(double ty:{1.0,1e4}) for(int dmg=0;dmg<(ref&&m.damage?3:1);++dmg) for(double dt:{0.5,0.015}){ MatSpec mm=m; double yield=0.3*ty; if(dt<0.1&&m.key!="visco") continue; if(dmg&&ty>1) continue;
      if(m.key=="visco"&&ty>1) continue; if((m.key=="corr"||m.key=="hypo"||m.key=="ba")) continue;
      if(ty>1){ auto f=m.set; mm.set=[f](PL&p){ f(p); if(p.isParameter("Yield Stress")) p.set("Yield Stress",p.get<double>("Yield Stress")*1e4); if(p.isSublist("Hardening Parameters")){ PL&q=p.sublist("Hardening Parameters"); for(const char*s:{"Yield Stress","Initial Yield Stress","Saturated Yield Stress"}) if(q.isParameter(s)) q.set(s,q.get<double>(s)*1e4); } }; }
      function<void(vector<int>)> rec=[&](vector<int> h){
        if((int)h.size()==depth){
          string key=m.key+(ty>1?"-strong":"")+(dmg?"-broken"+str(dmg):"")+(dt<0.1?"-short":"")+"/"+b.name+"/"; for(int c:h) key+=char('0'+c); if(!R.want(key)) return;
          World w(b,mm,dt); unique_ptr<World> tw; unique_ptr<Inel> in;
          if(ref) in.reset(new Inel(b,m.key=="epoff"?"ep":m.key,10,6,m.key=="epoff"?1e6:yield,1.5,0.6,2.0,dt));
          if((ty>1&&m.key!="ephard")||m.rate){ MatSpec e2=el; auto f=mm.set; if(m.rate) e2.set=[f](PL&p){ PL q=p; f(q); p.set("Bulk Modulus",q.get<double>("Bulk Modulus")); if(q.isParameter("Hourglass Coefficient")) p.set("Hourglass Coefficient",q.get<double>("Hourglass Coefficient")); if(q.isParameter("Actual Horizon")) p.set("Actual Horizon",q.get<double>("Actual Horizon")); }; tw.reset(new World(b,e2,dt)); }
          if(in&&m.key=="ephard") in->scf=w.get("Surface_Correction_Factor",PF::STEP_NONE);
          if(dmg){ vector<double> d; for(int i=0;i<w.nbonds;++i) d.push_back(dmg==1?i%3==0:i%2==1); w.setBondDamage(d); in->dm=d; }
          vector<double> last;
          for(size_t s=0;s<h.size();++s){ vector<V3> y=apply(b,L[h[s]],m.amp); vector<double> f=w.evaluate(y); R.step(); string what="step "+str(s);
            if(in){ in->eval(y); if(!compare(f,in->f,1e-8,what+" force")) return;
              if(w.has("Lambda")) if(!compare(w.get("Lambda",PF::STEP_NP1),in->lamT,1e-8,what+" plastic multiplier")) return;
              auto whole=[&](vector<double> v){ for(size_t k=0;k<v.size();++k) if(in->dm[k]>=1) v[k]=0; return v; }; // what a broken bond remembers has no effect
              if(w.has("Deviatoric_Plastic_Extension")) if(!compare(whole(w.get("Deviatoric_Plastic_Extension",PF::STEP_NP1)),whole(in->edpT),1e-8,what+" plastic extension")) return;
              if(w.has("Deviatoric_Back_Extension")) if(!compare(whole(w.get("Deviatoric_Back_Extension",PF::STEP_NP1)),whole(in->edpT),1e-8,what+" back extension")) return; }
            if(tw){ vector<double> ft=tw->evaluate(y); if(ty>1) if(!compare(f,ft,1e-8,what+" force against the elastic model")) return; }
            if(m.rate){ auto at=[&](const string& f){ return w.get(f,w.dm->hasData(FieldManager::self().getFieldId(f),PF::STEP_NP1)?PF::STEP_NP1:PF::STEP_NONE); };
              double Kb=w.params.get<double>("Bulk Modulus"),Gs=w.params.get<double>("Shear Modulus");
              vector<double> st=at("Unrotated_Cauchy_Stress");
              if(!j2(m.key,what+" point ",ty,dt,Kb,Gs,at("Unrotated_Rate_Of_Deformation"),w.get("Unrotated_Cauchy_Stress",PF::STEP_N),st,at("Von_Mises_Stress"),w.get("Equivalent_Plastic_Strain",PF::STEP_N),w.get("Equivalent_Plastic_Strain",PF::STEP_NP1),w.has("Stress_Triaxiality")?at("Stress_Triaxiality"):vector<double>())) return;
              if(w.has("Bond_Equivalent_Plastic_Strain")){ auto tensor=[&](const string& f,PF::Step q){ vector<double> r(9*w.nbonds); for(int a=0;a<3;++a) for(int c=0;c<3;++c){ string nm=f+"_"+char('X'+a)+char('X'+c); vector<double> v=w.get(nm,q); for(int k=0;k<w.nbonds;++k) r[9*k+3*a+c]=v[k]; } return r; };
                if(!j2(m.key,what+" bond ",ty,dt,Kb,Gs,tensor("Unrotated_Rate_Of_Deformation",PF::STEP_NONE),tensor("Unrotated_Cauchy_Stress",PF::STEP_N),tensor("Unrotated_Cauchy_Stress",PF::STEP_NP1),at("Bond_Von_Mises_Stress"),w.get("Bond_Equivalent_Plastic_Strain",PF::STEP_N),w.get("Bond_Equivalent_Plastic_Strain",PF::STEP_NP1),w.has("Bond_Stress_Triaxiality")?at("Bond_Stress_Triaxiality"):vector<double>())) return; }
              if(ty>1){ vector<double> se=tw->get("Unrotated_Cauchy_Stress",PF::STEP_NP1); if(!compare(st,se,1e-8,what+" stress against the elastic model")) return; } }
            last=f; w.accept(); if(in) in->accept(); if(tw) tw->accept(); }
          R.outcomeD(last.data(),last.size()); return; }
        for(size_t c=0;c<L.size();++c){ auto q=h; q.push_back(c); rec(q); } };
      rec({}); }
  }
}
// ------------------------------------------------------------------ P20: diffusion
static void p20(){
  const double pi=acos(-1.0); MatSpec m; m.key="diffusion"; m.name="Diffusion"; m.set=[](PL&p){ p.set("Coefficient",0.7); };
  for(auto&b:smallBodies(true)){ if(!R.want("diffusion/"+b.name)) continue;
    World w(b,m,0.5); PL bc; w.mat->setBCManager(Teuchos::rcp(new PeridigmNS::BoundaryAndInitialConditionManager(bc,nullptr))); int n=w.n;
    vector<vector<double>> T; T.push_back(vector<double>(n,0.0)); T.push_back(vector<double>(n,-37.5)); for(int k=0;k<3;++k){ vector<double> v; for(int i=0;i<n;++i) v.push_back(5*jit(i,40+k)); T.push_back(v); }
    if(n<=8) for(int s=1;s<(1<<n);++s){ vector<double> v; for(int i=0;i<n;++i) v.push_back(s>>i&1?2.5:-1.0); T.push_back(v); }
    for(size_t k=0;k<T.size();++k){ w.put("Temperature",PF::STEP_NP1,T[k]); w.put("Temperature",PF::STEP_N,vector<double>(n,7.0)); w.fill("Flux_Divergence",PF::STEP_NP1,99.0);
      w.mat->precompute(w.dt,n,w.owned.data(),w.list.data(),*w.dm); w.mat->computeFluxDivergence(w.dt,n,w.owned.data(),w.list.data(),*w.dm); R.step(); vector<double> q=w.get("Flux_Divergence",PF::STEP_NP1),ref(n,0.0);
      double s=0,sc=1e-3; for(int i=0;i<n;++i){ s+=q[i]*b.vol[i]; sc+=fabs(q[i]*b.vol[i]); for(int j:b.nb[i]) ref[i]+=0.7*6/(pi*pow(b.horizon,4)*norm(sub(b.x[j],b.x[i])))*(T[k][j]-T[k][i])*b.vol[j]; }
      R.near(s,0,1e-11*sc,"field "+str(k)+" total"); compare(q,ref,1e-11,"field "+str(k)); 
      double hi=*max_element(T[k].begin(),T[k].end()),lo=*min_element(T[k].begin(),T[k].end()); for(int i=0;i<n;++i){ if(T[k][i]==hi) R.expect(q[i]<=1e-12*sc,"field "+str(k)+": the hottest point "+str(i)+" gains"); if(T[k][i]==lo) R.expect(q[i]>=-1e-12*sc,"field "+str(k)+": the coldest point "+str(i)+" loses"); if(b.nb[i].empty()) R.near(q[i],0,0,"lone point"); }
      R.outcomeD(q.data(),n); } }
}
// pore fluid in the multiphysics model
static void p20fluid(const string& group){
  auto D=defs();
  for(auto&m:materials(group)){ if(m.key.substr(0,5)!="multi") continue;
    for(auto&b:smallBodies(true)){ if(!R.want(m.key+"/w"+str(infl())+"/"+b.name)) continue;
      World w(b,m,0.5); int n=w.n; auto pats=damagePatterns(w,false);
      vector<vector<double>> T; T.push_back(vector<double>(n,0.0)); T.push_back(vector<double>(n,3.5)); for(int k=0;k<2;++k){ vector<double> v; for(int i=0;i<n;++i) v.push_back(5*jit(i,40+k)); T.push_back(v); }
      if(n<=5) for(int s=1;s<(1<<n);++s){ vector<double> v; for(int i=0;i<n;++i) v.push_back(s>>i&1?2.5:-1.0); T.push_back(v); }
      for(size_t p=0;p<pats.size();++p) for(size_t k=0;k<T.size();++k) for(int d:{-1,4,2}){ w.setBondDamage(pats[p]); w.ambient(d==2); w.put("Fluid_Pressure_Y",PF::STEP_NP1,T[k]);
        vector<V3> y=d<0?b.x:apply(b,D[d]); w.evaluate(y); R.step(); vector<double> q=w.get("Flux_Density",PF::STEP_NP1); double s=0,sc=1e-3; for(int i=0;i<n;++i){ s+=q[i]*b.vol[i]; sc+=fabs(q[i]*b.vol[i]); }
        R.near(s,0,1e-10*sc,"pressure "+str(k)+" damage "+str(p)+" deformation "+str(d)+" total"); if(k<2) R.near(maxabs(q),0,1e-11,"uniform pressure "+str(k)+" flux");
        for(int i=0;i<n;++i) if(b.nb[i].empty()) R.near(q[i],0,0,"lone point");
        double hi=*max_element(T[k].begin(),T[k].end()),lo=*min_element(T[k].begin(),T[k].end()); if(d!=2) for(int i=0;i<n;++i){ if(T[k][i]==hi) R.expect(q[i]<=1e-11*sc,"pressure "+str(k)+": highest point gains"); if(T[k][i]==lo) R.expect(q[i]>=-1e-11*sc,"pressure "+str(k)+": lowest point loses"); }
        R.outcomeD(q.data(),n); } } }
}
int main(int argc,char**argv){
  MPI_Init(&argc,&argv); R.init(argc,argv);
  string m=R.get("mode","p28"),g=R.get("group","lps"); setInfluence(INFL[infl()]);
  if(m=="p28"){ p28(g); if(infl()==0) p28constants(g); } else if(m=="p26") p26(g); else if(m=="p09") p09(g); else if(m=="p21") p21(g); else if(m=="p20"){ if(g=="diffusion") p20(); else p20fluid(g); }
  int rc=R.finish(); MPI_Finalize(); return rc;
}
