// Damage models: every load history up to a depth against an independent account of
// which bonds are broken.
#include "world.hpp"
#include "Peridigm_BoundaryAndInitialConditionManager.hpp"
#include "Peridigm_InterfaceAwareDamageModel.hpp"
#include "Peridigm_UserDefinedTimeDependentCriticalStretchDamageModel.hpp"
using namespace std; using namespace chk; using namespace wld;
typedef Teuchos::ParameterList PL;
static Reporter R;
static const char* INFL[3]={"One","Parabolic Decay","Gaussian"};
static double omega(int k,double z,double h){ switch(k){ case 0: return 1; case 1: { if(z>h) return 0; double s=z/h; return s<0.5?1:4*s*(1-s); } default: return exp(-z*z/(0.16*h*h)); } }

struct Sets : PeridigmNS::BoundaryAndInitialConditionManager { Sets():PeridigmNS::BoundaryAndInitialConditionManager(PL(),nullptr){ nodeSets=Teuchos::rcp(new map<string,vector<int>>()); (*nodeSets)["RANK_DEFICIENT_NODES"]=vector<int>(); } };
static vector<Body> shapes(){
  vector<Body> r;
  r.push_back(body("pair",{{0,0,0},{1,0,0}},1.5));
  r.push_back(body("lone",{{0,0,0},{1,0,0},{9,0,0}},1.5));
  r.push_back(body("chain3",lattice(3,1,1),1.1));
  r.push_back(body("chain4",lattice(4,1,1),2.1));
  r.push_back(body("tri",{{0,0,0},{1,0,0},{0.3,0.8,0.2}},1.5));
  r.push_back(jittered(body("sq",lattice(2,2,1),1.6),0.05));
  r.push_back(jittered(body("cube",lattice(2,2,2),1.9),0.05));
  r.push_back(jittered(body("slab",lattice(3,3,1),1.6),0.05));
  return r; }
// placements: letters of the load histories
static const int NP=7;
static vector<V3> placement(const Body& b,int k){
  vector<V3> y=b.x; int n=y.size();
  switch(k){
    case 0: break;
    case 1: for(auto&p:y) for(auto&c:p) c*=1.08; break;                 // below the limit
    case 2: for(auto&p:y) for(auto&c:p) c*=1.13; break;                 // above the limit everywhere
    case 3: y[0][0]-=0.2; y[0][1]-=0.05; break;                         // one point pulled away
    case 4: y[n-1][0]+=0.2; y[n-1][1]+=0.05; y[n-1][2]+=0.04; break;    // another one
    case 5: for(auto&p:y){ p[0]*=1.25; p[1]*=0.7; } break;              // some bonds longer, some shorter
    case 6: for(auto&p:y) for(auto&c:p) c*=0.6; break;                  // all shorter
  }
  return y; }
// temperature patterns
static double temp(int k,int i,int step){ switch(k){ case 0: return 0; case 1: return 4; case 2: return -4; case 3: return 4*jit(i,5); default: return (step&1)?5.0:-3.0; } }

// A step of a history: an optional rejected trial placement followed by the accepted one.
struct Step { int trial,fin; };
static vector<Step> alphabet(bool trials){ vector<Step> r; for(int f=0;f<NP;++f) r.push_back({-1,f}); if(trials) for(int t:{0,2,3}) for(int f:{0,1,4}) r.push_back({t,f}); return r; }
static string word(const vector<Step>& h){ string s; for(auto&p:h){ if(p.trial>=0) s+="("+str(p.trial)+")"; s+=str(p.fin); } return s; }

static void all(const vector<Step>& A,int depth,function<void(const vector<Step>&)> f){ vector<Step> h(depth); vector<int> ix(depth,0); for(;;){ for(int d=0;d<depth;++d) h[d]=A[ix[d]]; f(h); int d=depth-1; while(d>=0&&++ix[d]==(int)A.size()) ix[d--]=0; if(d<0) break; } }

static void stretchHistories(){
  const double al=0.01;
  struct Model { string key; PL p; function<double(double)> crit; bool thermal,ia,td; };
  vector<Model> M;
  auto cs=[&](const string& k,double c,bool th){ PL p; p.set<string>("Damage Model","Critical Stretch"); p.set("Critical Stretch",c); if(th) p.set("Thermal Expansion Coefficient",al); M.push_back({k,p,[c](double){ return c; },th,false,false}); };
  cs("cs",0.1,false); cs("csBig",0.3,false); cs("csZero",0.0,false); cs("csT",0.1,true);
  auto td=[&](const string& k,const string& f,function<double(double)> c,bool th){ PL p; p.set<string>("Damage Model","Time Dependent Critical Stretch"); p.set<string>("Time Dependent Critical Stretch",f); if(th) p.set("Thermal Expansion Coefficient",al); M.push_back({k,p,c,th,false,true}); };
  td("tdConst","0.1",[](double){ return 0.1; },false);
  td("tdUp","0.05 + 0.04*t",[](double t){ return 0.05+0.04*t; },false);
  td("tdDown","0.15 - 0.05*t",[](double t){ return 0.15-0.05*t; },false);
  td("tdIf","if(t < 1.5){ value = 0.2; } else { value = 0.05; }",[](double t){ return t<1.5?0.2:0.05; },false);
  td("tdT","0.1",[](double){ return 0.1; },true);
  { PL p; p.set<string>("Damage Model","Interface Aware"); p.set("Critical Stretch",0.1); M.push_back({"ia",p,[](double){ return 0.1; },false,true,false}); }
  MatSpec ms=materials("lps")[0]; ms.energy=false;
  bool th=R.opt.thorough;
  for(auto&m:M) for(auto&b:shapes()) for(int tp=0;tp<(m.thermal?5:1);++tp) for(int tr=0;tr<2;++tr){
    auto A=alphabet(tr); int depth=tr?(th?4:3):(th?5:4);
    // a family is one case per leading letter, so that a replay stays small
    for(size_t a0=0;a0<A.size();++a0){
      string key=m.key+"/"+b.name+"/t"+str(tp)+"/"+(tr?"trial":"plain")+"/"+str(a0);
      if(!R.want(key)) continue;
      Teuchos::RCP<PeridigmNS::BoundaryAndInitialConditionManager> bc; 
      World w(b,ms,1.0,10,6,&m.p); int n=w.n;
      all(A,depth-1,[&](const vector<Step>& rest){
        vector<Step> h={A[a0]}; h.insert(h.end(),rest.begin(),rest.end());
        // start over: undamaged accepted state
        w.fill("Bond_Damage",PF::STEP_N,0); w.fill("Bond_Damage",PF::STEP_NP1,0); w.fill("Damage",PF::STEP_N,0); w.fill("Damage",PF::STEP_NP1,0);
        auto df=Teuchos::rcp_const_cast<PeridigmNS::DamageModel>(w.dmg);
        vector<double> cs2(n,0.0);
        if(m.ia){ bc=Teuchos::rcp(new Sets);
          Teuchos::rcp_dynamic_cast<PeridigmNS::InterfaceAwareDamageModel>(df)->setBCManager(bc);
          for(int i=0;i<n;++i) cs2[i]=(i%3==0)?0.1:(i%3==1)?0.07:0.0; w.put("Critical_Stretch",PF::STEP_NONE,cs2); }
        vector<double> acc(w.nbonds,0.0);
        for(size_t s=0;s<h.size();++s){
          double t=0.5*(s+1);
          if(m.td){ double cur=0,prev=0,tc=t,tprev=t-0.5; Teuchos::rcp_dynamic_cast<PeridigmNS::UserDefinedTimeDependentCriticalStretchDamageModel>(df)->evaluateParserDmg(cur,prev,tc,tprev); }
          vector<double> dT(n,0.0); if(m.thermal){ for(int i=0;i<n;++i) dT[i]=temp(tp,i,s); w.put("Temperature_Change",PF::STEP_NP1,dT); }
          vector<double> now;
          for(int e=0;e<2;++e){ int k=e?h[s].fin:h[s].trial; if(k<0) continue;
            vector<V3> y=placement(b,k); w.place(y); w.damageStep(); R.step();
            now=acc; int q=0; bool edge=false;
            for(int i=0;i<n;++i) for(int j:b.nb[i]){ double z=norm(sub(b.x[j],b.x[i])),l=norm(sub(y[j],y[i])); double st=(l-z)/z-(m.thermal?al*dT[i]:0); double c=m.crit(t);
              if(m.ia){ if(cs2[j]==0){ ++q; continue; } c=min(c,cs2[j]); }
              if(fabs(st-c)<1e-9) edge=true; if(st>c) now[q]=1; ++q; }
            if(m.ia){ int q2=0; for(int i=0;i<n;++i){ int nn=b.nb[i].size(); double tot=0; for(int x=0;x<nn;++x) tot+=now[q2+x]; if(tot>=nn-2) for(int x=0;x<nn;++x) now[q2+x]=1; q2+=nn; } }
            if(edge){ R.counters["edge"]++; return; }
            vector<double> got=w.get("Bond_Damage",PF::STEP_NP1),gd=w.get("Damage",PF::STEP_NP1),pd=w.pointDamage(now);
            for(int x=0;x<w.nbonds;++x) if(!R.expect(got[x]==now[x],"history "+word(h)+" step "+str(s)+(e?"":" trial")+": bond "+str(x)+" has damage "+str(got[x])+" instead of "+str(now[x]))) return;
            for(int i=0;i<n;++i) if(!R.near(gd[i],pd[i],1e-13,"history "+word(h)+" step "+str(s)+": damage of point "+str(i))) return;
          }
          acc=now; w.accept();
          vector<double> got=w.get("Bond_Damage",PF::STEP_N); for(int x=0;x<w.nbonds;++x) if(!R.expect(got[x]==acc[x],"history "+word(h)+" after step "+str(s)+": accepted damage of bond "+str(x)+" is "+str(got[x])+" instead of "+str(acc[x]))) return;
        }
        R.outcomeD(acc.data(),acc.size()); R.counters["histories"]++;
      });
    }
  }
}

// Stress and strain driven models: the bond quantities they read are prescribed.
static void fieldHistories(){
  MatSpec ms=materials("ba")[0]; bool th=R.opt.thorough;
  struct Model { string key; PL p; bool jc; double thr,crit,neglect; };
  vector<Model> M;
  auto vm=[&](const string& k,double thr,double crit,double neg){ PL p; p.set<string>("Damage Model","Von Mises Stress"); p.set("Critical Von Mises Stress",2.0); if(thr>=0) p.set("Threshold Damage",thr); if(crit>=0) p.set("Critical Damage",crit); if(neg>0) p.set("Critical Damage To Neglect Material Point",neg); M.push_back({k,p,false,thr>=0?thr:0.99,crit>=0?crit:1.0,neg>0?neg:0.95}); };
  vm("vm",-1,-1,-1); vm("vmRamp",0.4,1.2,0.5); vm("vmStep",1.0,1.0,0.3);
  auto jc=[&](const string& k,double thr,double crit,double neg){ PL p; p.set<string>("Damage Model","Johnson Cook"); p.set("Damage Parameter 1",0.05); p.set("Damage Parameter 2",0.1); p.set("Damage Parameter 3",1.5); p.set("Threshold Damage",thr); p.set("Critical Damage",crit); if(neg>0) p.set("Critical Damage To Neglect Material Point",neg); M.push_back({k,p,true,thr,crit,neg>0?neg:0.95}); };
  jc("jc",0.3,0.9,-1); jc("jcLow",0.0,0.5,0.4);
  vector<Body> B={body("pair",{{0,0,0},{1,0,0}},1.5),jittered(body("sq",lattice(2,2,1),1.6),0.05),jittered(body("cube",lattice(2,2,2),1.9),0.05)};
  const int A=7,inf=atoi(R.get("infl","0").c_str()); int depth=th?6:4;
  for(auto&m:M) for(auto&b:B) for(int a0=0;a0<A;++a0){
    if(!R.want(m.key+"/"+b.name+"/w"+str(inf)+"/"+str(a0))) continue;
    MatSpec plain=materials("lps")[0]; plain.energy=false; (void)ms;
    World w(b,plain,1.0,10,6,&m.p); int n=w.n;
    vector<double> J(n),U(n); for(int i=0;i<n;++i){ J[i]=1+0.2*jit(i,21); U[i]=2+0.5*jit(i,22); }
    vector<int> ix(depth-1,0);
    for(;;){
      vector<int> h={a0}; for(int d:ix) h.push_back(d);
      string nm; for(int d:h) nm+=str(d);
      for(const char* f:{"Bond_Damage","Damage","Broken_Bond_Volume_Averaged","Bond_Damage_Parameter","Bond_Equivalent_Plastic_Strain","Flying_Point_Flag"}) if(w.has(f)) for(auto s:{PF::STEP_N,PF::STEP_NP1}) w.fill(f,s,0);
      w.put("Jacobian_Determinant",PF::STEP_N,J); w.put("Jacobian_Determinant",PF::STEP_NP1,J); w.put("Undamaged_Weighted_Volume",PF::STEP_NONE,U);
      vector<double> bd(w.nbonds,0.0),D(w.nbonds,0.0),eq(w.nbonds,0.0); bool bad=false;
      for(size_t s=0;s<h.size()&&!bad;++s){
        int k=h[s]; vector<V3> y=placement(b,s%2?1:3); w.place(y);
        vector<double> drive(w.nbonds),tri(w.nbonds);
        for(int x=0;x<w.nbonds;++x){ const double lev[A]={0.0,0.5,1.0,1.6,1.985,2.2,3.0}; drive[x]=lev[(k+(k>=4?x:0))%A]; tri[x]=0.8*jit(x,31+k); }
        if(m.jc){ // the strain of the step just accepted is the older copy's successor
          vector<double> old=eq; for(int x=0;x<w.nbonds;++x) eq[x]+=(k==1?1e-8:0.03)*drive[x]*(k==6&&x%2?-1:1);
          w.put("Bond_Equivalent_Plastic_Strain",PF::STEP_N,eq); w.put("Bond_Equivalent_Plastic_Strain",PF::STEP_NP1,old); w.put("Bond_Stress_Triaxiality",PF::STEP_NONE,tri);
          for(int x=0;x<w.nbonds;++x){ double dq=eq[x]-old[x]; if(dq>0) D[x]+=dq/(0.05+0.1*exp(-1.5*tri[x])); D[x]=min(D[x],1.0); bd[x]=D[x]>m.thr?(D[x]-m.thr)/(1-m.thr):0; }
        } else {
          w.put("Bond_Von_Mises_Stress",PF::STEP_NONE,drive);
          for(int x=0;x<w.nbonds;++x){ double r=drive[x]/2.0,t=r>=m.crit?1:r<=m.thr?0:(r-m.thr)/(m.crit-m.thr); bd[x]=max(bd[x],t); }
        }
        w.damageStep(); R.step();
        vector<double> got=w.get("Bond_Damage",PF::STEP_NP1),br=w.get("Broken_Bond_Volume_Averaged",PF::STEP_NP1),fl=w.get("Flying_Point_Flag",PF::STEP_NP1),dp=m.jc?w.get("Bond_Damage_Parameter",PF::STEP_NP1):got,pd=w.get("Damage",PF::STEP_NP1);
        for(int x=0;x<w.nbonds&&!bad;++x){ if(!R.near(got[x],bd[x],1e-12,"history "+nm+" step "+str(s)+" bond damage "+str(x))) bad=true; if(!R.expect(got[x]>=0&&got[x]<=1,"history "+nm+": bond damage outside 0..1")) bad=true; if(m.jc&&!R.near(dp[x],D[x],1e-12,"history "+nm+" step "+str(s)+" damage parameter "+str(x))) bad=true; }
        int q=0; for(int i=0;i<n&&!bad;++i){ double a=0,c=0; for(int j:b.nb[i]){ double o=omega(inf,norm(sub(y[j],y[i])),b.horizon)/U[i]*J[j]*b.vol[j]; a+=bd[q]*o; c+=D[q]*o; ++q; }
          if(!R.near(br[i],a,1e-12,"history "+nm+" step "+str(s)+" broken volume of point "+str(i))) bad=true;
          if(m.jc&&!R.near(pd[i],c,1e-12,"history "+nm+" step "+str(s)+" damage of point "+str(i))) bad=true;
          if(fabs(a-m.neglect)>1e-9&&!R.expect((fl[i]>0)==(a>m.neglect),"history "+nm+" step "+str(s)+": point "+str(i)+(fl[i]>0?" is dropped":" is kept")+" with broken fraction "+str(a))) bad=true; }
        w.accept(); w.put("Jacobian_Determinant",PF::STEP_N,J);
      }
      R.outcomeD(bd.data(),bd.size()); R.counters["histories"]++;
      int d=depth-2; while(d>=0&&++ix[d]==A) ix[d--]=0; if(d<0) break;
    }
  }
}

// Bonds cut at the start stay cut, all others stay whole.
static void initialCuts(){
  vector<Body> B; for(auto&b:shapes()) B.push_back(b); B.push_back(body("l333",lattice(3,3,3),1.9));
  MatSpec plain=materials("lps")[0]; plain.energy=false;
  for(auto&b:B) for(int ax=0;ax<3;++ax) for(int pos=0;pos<4;++pos) for(int ext=0;ext<3;++ext) for(int two=0;two<2;++two){
    if(!R.want("cut/"+b.name+"/a"+str(ax)+"p"+str(pos)+"e"+str(ext)+(two?"two":""))) continue;
    double at=-0.37+0.71*pos; int u=(ax+1)%3,v=(ax+2)%3; double half=ext==0?9.0:ext==1?0.83:0.31; V3 mid={0.47,0.53,0.41};
    PL p; p.set<string>("Damage Model","Initial Damage"); PL& fs=p.sublist("Bond Filters");
    auto put=[&](const string& nm,int ax_,double at_,double h){ int u_=(ax_+1)%3; PL& f=fs.sublist(nm); f.set<string>("Type","Rectangular_Plane"); V3 nrm={0,0,0},ll={0,0,0},bu={0,0,0}; nrm[ax_]=1; bu[u_]=1; int v_=(ax_+2)%3; ll[ax_]=at_; ll[u_]=mid[u_]-h; ll[v_]=mid[v_]+h;
      const char* X[3]={"X","Y","Z"}; for(int c=0;c<3;++c){ f.set(string("Normal_")+X[c],nrm[c]); f.set(string("Lower_Left_Corner_")+X[c],ll[c]); f.set(string("Bottom_Unit_Vector_")+X[c],bu[c]); } f.set("Bottom_Length",2*h); f.set("Side_Length",2*h); };
    put("A",ax,at,half); int ax2=(ax+1)%3; double at2=0.61; if(two) put("B",ax2,at2,9.0);
    World w(b,plain,1.0,10,6,&p);
    auto cutBy=[&](const V3& a,const V3& c,int x_,double at_,double h,bool& edge){ double s=a[x_]-at_,t=c[x_]-at_; if(fabs(s)<1e-9||fabs(t)<1e-9) edge=true; if(s*t>=0) return false; double q=s/(s-t); int u_=(x_+1)%3,v_=(x_+2)%3; double du=fabs(a[u_]+q*(c[u_]-a[u_])-mid[u_]),dv=fabs(a[v_]+q*(c[v_]-a[v_])-mid[v_]); if(fabs(du-h)<1e-6||fabs(dv-h)<1e-6) edge=true; return du<h&&dv<h; };
    vector<double> ref; bool edge=false; for(size_t i=0;i<b.x.size();++i) for(int j:b.nb[i]){ bool c=cutBy(b.x[i],b.x[j],ax,at,half,edge); if(two) c|=cutBy(b.x[i],b.x[j],ax2,at2,9.0,edge); ref.push_back(c); }
    (void)u; (void)v;
    if(edge){ R.counters["edge"]++; continue; }
    for(int s=0;s<3;++s){ w.place(placement(b,2+s)); w.damageStep(); R.step();
      for(auto st:{PF::STEP_NP1,PF::STEP_N}){ vector<double> got=w.get("Bond_Damage",st),pd=w.pointDamage(ref),gd=w.get("Damage",st);
        for(int x=0;x<w.nbonds;++x) if(!R.expect(got[x]==ref[x],"step "+str(s)+": bond "+str(x)+" damage "+str(got[x])+" instead of "+str(ref[x]))) break;
        for(int i=0;i<w.n;++i) if(!R.near(gd[i],pd[i],1e-13,"step "+str(s)+": damage of point "+str(i))) break; }
      w.accept(); }
    R.outcomeD(ref.data(),ref.size());
  }
}

int main(int argc,char** argv){
  MPI_Init(&argc,&argv); R.init(argc,argv); Quiet q;
  string mode=R.get("mode"); setInfluence(INFL[atoi(R.get("infl","0").c_str())]);
  if(mode=="stretch") stretchHistories(); else if(mode=="field") fieldHistories(); else if(mode=="cuts") initialCuts(); else return 2;
  int rc=R.finish(); MPI_Finalize(); return rc;
}
