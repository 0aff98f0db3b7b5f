// All short operation sequences on the per-point field store, on every distribution of a few points over the
// processes, compared with a plain map from (field, step, point) to the value last stored.
#include "common.hpp"
#include "Peridigm_DataManager.hpp"
#include "Peridigm_Field.hpp"
#include <Epetra_MpiComm.h>
#include <Epetra_SerialComm.h>
#include <algorithm>
#include <limits>

using namespace PeridigmNS;
using Teuchos::RCP; using Teuchos::rcp;
typedef std::vector<double> V;
typedef RCP<const Epetra_BlockMap> Map;

static chk::Reporter R;
static const double NONE = std::numeric_limits<double>::quiet_NaN();   // not known

#define EXPECT(ok,msg) (++R.checks, (ok) ? true : (R.fail(msg), false))

struct F { int id; PeridigmField::Relation rel; PeridigmField::Length len; bool two; int dim; std::string label; };

// How the points are spread: owner of each point, points each process holds copies of, bonds per point.
struct Layout { int np; std::vector<int> owner, bonds; std::vector<std::vector<int>> own, copies; };

static Layout layout(int np, const std::vector<int>& owner, const std::vector<int>& bonds, int ghosts, bool reversed){
  Layout L; L.np=np; L.owner=owner; L.bonds=bonds; L.own.resize(np); L.copies.resize(np);
  int n=owner.size();
  for(int g=0;g<n;++g) L.own[owner[g]].push_back(g);
  for(int p=0;p<np;++p){
    if(reversed) std::reverse(L.own[p].begin(),L.own[p].end());
    L.copies[p]=L.own[p];
    for(int g=0;g<n;++g) if(owner[g]!=p){
      bool want = ghosts==2;
      if(ghosts==1) want = owner[(g+1)%n]==p || owner[(g+n-1)%n]==p;
      if(want) L.copies[p].push_back(g);
    }
  }
  return L;
}

struct Maps { Map own1, over1, own3, over3, bond; };

static Map map(const std::vector<int>& ids, int size, const Epetra_Comm& comm){
  static int none=0;
  return rcp(new Epetra_BlockMap(-1,(int)ids.size(),ids.empty()?&none:ids.data(),size,0,comm));
}
static Map bondMap(const std::vector<int>& ids, const std::vector<int>& bonds, const Epetra_Comm& comm){
  static int none=0; std::vector<int> i, s;
  for(int g : ids) if(bonds[g]>0){ i.push_back(g); s.push_back(bonds[g]); }
  return rcp(new Epetra_BlockMap(-1,(int)i.size(),i.empty()?&none:i.data(),s.empty()?&none:s.data(),0,comm));
}

// The plain store: value[step][field][process][point].
struct Plain {
  std::map<int,V> v[3][40][4];
};

static const PeridigmField::Step STEPS[3]={PeridigmField::STEP_NONE,PeridigmField::STEP_N,PeridigmField::STEP_NP1};

struct World {
  std::vector<F> fields; Layout L; Epetra_MpiComm comm; Epetra_SerialComm self; int rank, np;
  RCP<DataManager> A, B;      // B: a second store with the same points in another order
  Plain a, b;
  // whole-model values live in one place for all stores: [step][field][process]
  V globals[3][40][4];
  int counter=0, rebalances=0;
  World():comm(MPI_COMM_WORLD){ rank=comm.MyPID(); np=comm.NumProc(); }

  bool at(const F& f,int s){ return f.two ? s>0 : s==0; }
  int size(const F& f,int g){ return f.rel==PeridigmField::BOND ? L.bonds[g] : f.dim; }
  std::vector<int> where(const F& f,int p){
    std::vector<int> r; for(int g : (f.rel==PeridigmField::BOND?L.own[p]:L.copies[p])) if(size(f,g)>0) r.push_back(g); return r;
  }
  Maps maps(const std::vector<int>& own,const std::vector<int>& over,const Epetra_Comm& c){
    Maps m; m.own1=map(own,1,c); m.over1=map(over,1,c); m.own3=map(own,3,c); m.over3=map(over,3,c); m.bond=bondMap(own,L.bonds,c); return m;
  }
  void make(RCP<DataManager>& D,const Maps& m){
    D=rcp(new DataManager); D->setMaps(m.own1,m.over1,m.own3,m.over3,m.bond);
    std::vector<int> ids; for(auto& f:fields) ids.push_back(f.id);
    std::vector<int> r(ids.rbegin(),ids.rend()); r.insert(r.end(),ids.begin(),ids.end());   // any order, with repetitions
    D->allocateData(r);
  }
  void makeB(){
    std::vector<int> own(L.own[rank].rbegin(),L.own[rank].rend()), over(L.copies[rank].rbegin(),L.copies[rank].rend());
    make(B,maps(own,over,self));
    for(size_t i=0;i<fields.size();++i) for(int s=0;s<3;++s) for(int p=0;p<np;++p){
      b.v[s][i][p].clear();
      if(at(fields[i],s) && fields[i].rel!=PeridigmField::GLOBAL) for(int g : where(fields[i],p)) b.v[s][i][p][g]=V(size(fields[i],g),0.0);
    }
  }
  void start(const Layout& l){
    L=l; counter=0; rebalances=0;
    make(A,maps(L.own[rank],L.copies[rank],comm));
    for(size_t i=0;i<fields.size();++i) for(int s=0;s<3;++s) for(int p=0;p<np;++p){
      a.v[s][i][p].clear();
      if(!at(fields[i],s)) continue;
      if(fields[i].rel==PeridigmField::GLOBAL){ globals[s][i][p]=V(fields[i].dim,NONE); continue; }
      for(int g : where(fields[i],p)) a.v[s][i][p][g]=V(size(fields[i],g),0.0);
    }
    makeB();
  }
  double value(int what,size_t i,int s,int p,int g,int k){ return 1+counter+0.1*what+1e-2*(i+1)+1e-4*(s+1)+1e-5*(p+1)+1e-6*(g+1)+1e-7*(k+1); }

  // which: 0 owned values at the new step and stateless ones, 1 owned values at the old step, 2 copies of others' points everywhere
  void write(RCP<DataManager>& D,Plain& m,int which){
    for(size_t i=0;i<fields.size();++i){
      F& f=fields[i];
      for(int s=0;s<3;++s){
        if(!at(f,s)) continue;
        if(which==0 && s==1) continue;
        if(which==1 && s!=1) continue;
        if(f.rel==PeridigmField::GLOBAL){
          if(which==2) continue;
          for(int p=0;p<np;++p) for(int k=0;k<f.dim;++k) globals[s][i][p][k]=value(which,i,s,p,0,k);
          RCP<Epetra_Vector> d=D->getData(f.id,STEPS[s]);
          for(int k=0;k<f.dim;++k) (*d)[k]=globals[s][i][rank][k];
          continue;
        }
        for(int p=0;p<np;++p) for(auto& e : m.v[s][i][p]){
          bool own = L.owner[e.first]==p;
          if(own!=(which!=2)) continue;
          for(size_t k=0;k<e.second.size();++k) e.second[k]=value(which,i,s,p,e.first,k);
        }
        RCP<Epetra_Vector> d=D->getData(f.id,STEPS[s]);
        for(auto& e : m.v[s][i][rank]){
          bool own = L.owner[e.first]==rank;
          if(own!=(which!=2)) continue;
          int lid=d->Map().LID(e.first); if(lid<0) continue;
          int first=d->Map().FirstPointInElement(lid);
          for(size_t k=0;k<e.second.size();++k) (*d)[first+k]=e.second[k];
        }
      }
    }
    ++counter;
  }
  void accepted(Plain& m){
    for(size_t i=0;i<fields.size();++i) if(fields[i].two){
      if(fields[i].rel==PeridigmField::GLOBAL){ continue; }
      for(int p=0;p<np;++p){ m.v[1][i][p]=m.v[2][i][p]; for(auto& e:m.v[2][i][p]) for(double& x:e.second) x=NONE; }
    }
    for(size_t i=0;i<fields.size();++i) if(fields[i].two && fields[i].rel==PeridigmField::GLOBAL) for(int p=0;p<np;++p) globals[1][i][p]=globals[2][i][p];
  }
  void ghosts(){
    for(size_t i=0;i<fields.size();++i) for(int s=0;s<3;++s) for(int p=0;p<np;++p) for(auto& e:a.v[s][i][p]) e.second=a.v[s][i][L.owner[e.first]][e.first];
  }
  void move(const Layout& to){
    Layout from=L; L=to;
    Maps m=maps(L.own[rank],L.copies[rank],comm);
    A->rebalance(m.own1,m.over1,m.own3,m.over3,m.bond); ++rebalances;
    for(size_t i=0;i<fields.size();++i) for(int s=0;s<3;++s){
      if(fields[i].rel==PeridigmField::GLOBAL || !at(fields[i],s)) continue;
      std::map<int,V> all;
      for(size_t g=0;g<from.owner.size();++g){ auto it=a.v[s][i][from.owner[g]].find(g); if(it!=a.v[s][i][from.owner[g]].end()) all[g]=it->second; }
      for(int p=0;p<np;++p){ a.v[s][i][p].clear(); for(int g : where(fields[i],p)) a.v[s][i][p][g]=all[g]; }
    }
    makeB();
  }
  bool compare(RCP<DataManager>& D,Plain& m,const char* who,const std::string& after){
    for(size_t i=0;i<fields.size();++i){
      F& f=fields[i];
      for(int s=0;s<3;++s){
        bool has=at(f,s);
        if(!EXPECT(D->hasData(f.id,STEPS[s])==has, std::string(who)+" after "+after+": presence of "+f.label+" at step "+chk::str(s))) return false;
        if(!has) continue;
        RCP<Epetra_Vector> d=D->getData(f.id,STEPS[s]);
        if(f.rel==PeridigmField::GLOBAL){
          for(int k=0;k<f.dim;++k){ double x=globals[s][i][rank][k]; if(x==x && !EXPECT((*d)[k]==x,std::string(who)+" after "+after+": "+f.label+" step "+chk::str(s)+" component "+chk::str(k)+" is "+chk::str((*d)[k])+", stored "+chk::str(x))) return false; }
          continue;
        }
        std::vector<int> w=where(f,rank);
        if(!EXPECT(d->Map().NumMyElements()==(int)w.size(),std::string(who)+" after "+after+": "+f.label+" holds "+chk::str(d->Map().NumMyElements())+" points instead of "+chk::str(w.size()))) return false;
        for(int g : w){
          int lid=d->Map().LID(g);
          if(!EXPECT(lid>=0 && d->Map().ElementSize(lid)==size(f,g),std::string(who)+" after "+after+": "+f.label+" lacks point "+chk::str(g)+" or has another length there")) return false;
          int first=d->Map().FirstPointInElement(lid); const V& x=m.v[s][i][rank][g];
          for(int k=0;k<size(f,g);++k) if(x[k]==x[k] && !EXPECT((*d)[first+k]==x[k],std::string(who)+" after "+after+": "+f.label+" step "+chk::str(s)+" point "+chk::str(g)+(L.owner[g]==rank?"":" (copy)")+" component "+chk::str(k)+" is "+chk::str((*d)[first+k])+", stored "+chk::str(x[k]))) return false;
        }
      }
    }
    std::vector<int> ids=D->getFieldIds(); std::set<int> got(ids.begin(),ids.end());
    for(auto& f:fields) if(!EXPECT(got.count(f.id)==1,std::string(who)+" does not list "+f.label)) return false;
    return true;
  }
};

typedef PeridigmField::Length Len;
static std::vector<F> fieldSet(const std::string& set){
  std::vector<F> r; FieldManager& M=FieldManager::self();
  auto add=[&](PeridigmField::Relation rel,Len len,bool two,const char* tag){
    std::string label=std::string("Store_")+tag+"_"+chk::str((int)rel)+"_"+chk::str(PeridigmField::variableDimension(len))+(two?"_two":"_one");
    F f{M.getFieldId(rel,len,two?PeridigmField::TWO_STEP:PeridigmField::CONSTANT,label),rel,len,two,PeridigmField::variableDimension(len),label}; r.push_back(f);
  };
  const Len all[9]={PeridigmField::SCALAR,PeridigmField::LENGTH_2,PeridigmField::VECTOR,PeridigmField::LENGTH_4,PeridigmField::LENGTH_5,PeridigmField::SYMMETRIC_TENSOR,PeridigmField::LENGTH_7,PeridigmField::LENGTH_8,PeridigmField::FULL_TENSOR};
  auto N=PeridigmField::NODE, E=PeridigmField::ELEMENT, B=PeridigmField::BOND, G=PeridigmField::GLOBAL;
  if(set=="typical"){
    add(N,PeridigmField::VECTOR,true,"x"); add(E,PeridigmField::SCALAR,false,"v"); add(N,PeridigmField::VECTOR,true,"y"); add(B,PeridigmField::SCALAR,true,"d");
    add(E,PeridigmField::SCALAR,true,"w"); add(E,PeridigmField::FULL_TENSOR,true,"t"); add(B,PeridigmField::SCALAR,false,"c"); add(G,PeridigmField::SCALAR,true,"e"); add(N,PeridigmField::VECTOR,false,"m");
  } else if(set=="all"){
    for(int two=0;two<2;++two){
      for(Len l:all){ add(E,l,two,"p"); }
      add(N,PeridigmField::SCALAR,two,"q"); add(N,PeridigmField::VECTOR,two,"q"); add(N,PeridigmField::FULL_TENSOR,two,"q");
      add(B,PeridigmField::SCALAR,two,"r"); add(B,PeridigmField::SCALAR,two,"s"); add(G,PeridigmField::SCALAR,two,"g"); add(G,PeridigmField::VECTOR,two,"g"); add(G,PeridigmField::SCALAR,two,"h");
    }
  } else if(set=="points"){
    add(E,PeridigmField::SCALAR,false,"a"); add(E,PeridigmField::SCALAR,true,"a"); add(N,PeridigmField::VECTOR,true,"a"); add(E,PeridigmField::LENGTH_5,false,"a");
  } else if(set=="stateless"){
    add(E,PeridigmField::SCALAR,false,"a2"); add(N,PeridigmField::VECTOR,false,"a2"); add(B,PeridigmField::SCALAR,false,"a2");
  } else if(set=="stateful"){
    add(E,PeridigmField::SCALAR,true,"a3"); add(N,PeridigmField::VECTOR,true,"a3"); add(B,PeridigmField::SCALAR,true,"a3");
  } else if(set=="bonds"){
    add(B,PeridigmField::SCALAR,true,"a4"); add(B,PeridigmField::SCALAR,false,"a4");
  }
  return r;
}

int main(int argc,char** argv){
  MPI_Init(&argc,&argv);
  { R.init(argc,argv);
    World w;
    struct Space { const char* set; int depth; bool every; };   // every: all distributions, else two of them
    std::vector<Space> spaces={{"typical",2,true},{"typical",R.opt.thorough?5:4,false},{"all",R.opt.thorough?4:3,false},{"points",R.opt.thorough?4:3,false},{"stateless",3,false},{"stateful",3,false},{"bonds",3,false}};
    const std::string ops="pngus012cwx";
    const std::vector<int> bonds={2,0,3,1};
    const int n=4;
    for(auto& sp : spaces){
      w.fields=fieldSet(sp.set);
      int total=1; for(int i=0;i<n;++i) total*=w.np;
      for(int code=0;code<total;++code){
        std::vector<int> owner(n); int c=code; for(int i=0;i<n;++i){ owner[i]=c%w.np; c/=w.np; }
        if(!sp.every){ bool mixed=true; for(int i=0;i<n;++i) if(owner[i]!=(i*5/3)%w.np) mixed=false; if(!mixed && code!=total-1) continue; if(w.np==1 && code) continue; }
        for(int ghosts=0;ghosts<3;++ghosts){
          if(w.np==1 && ghosts) continue;
          if(!sp.every && ghosts==0 && w.np>1) continue;
          Layout L=layout(w.np,owner,bonds,ghosts,false);
          std::vector<int> rot(n), zero(n,0), rev(owner);
          for(int i=0;i<n;++i) rot[i]=(owner[i]+1)%w.np;
          std::reverse(rev.begin(),rev.end());
          Layout to[3]={layout(w.np,rot,bonds,ghosts,false),layout(w.np,zero,bonds,2,true),layout(w.np,rev,bonds,1,true)};
          std::vector<int> seq(sp.depth,0);
          while(true){
            std::string key=std::string(sp.set)+"/owners="; for(int o:owner) key+=char('0'+o); key+="/copies="+chk::str(ghosts)+"/"; for(int o:seq) key+=ops[o];
            if(R.want(key)){
              w.start(L); w.write(w.A,w.a,0); w.write(w.A,w.a,1); w.write(w.A,w.a,2);
              bool ok=w.compare(w.A,w.a,"store","filling");
              std::string done;
              for(int o : seq){
                // all processes go on or stop together
                int go=ok, all; MPI_Allreduce(&go,&all,1,MPI_INT,MPI_MIN,MPI_COMM_WORLD); if(!all) break;
                done+=ops[o]; R.step();
                switch(ops[o]){
                case 'p': w.write(w.A,w.a,0); break;
                case 'n': w.write(w.A,w.a,1); break;
                case 'g': w.write(w.A,w.a,2); break;
                case 'u': w.A->updateState(); w.accepted(w.a); break;
                case 's': w.A->scatterToGhosts(); w.ghosts(); break;
                case 'c': w.B->copyLocallyOwnedDataFromDataManager(*w.A); for(size_t i=0;i<w.fields.size();++i) for(int s=0;s<3;++s) for(int p=0;p<w.np;++p) w.b.v[s][i][p]=w.a.v[s][i][p]; break;
                case 'x': w.A->copyLocallyOwnedDataFromDataManager(*w.B); for(size_t i=0;i<w.fields.size();++i) for(int s=0;s<3;++s) for(int p=0;p<w.np;++p) w.a.v[s][i][p]=w.b.v[s][i][p]; break;
                case 'w': w.write(w.B,w.b,0); w.write(w.B,w.b,1); break;
                default: w.move(to[ops[o]-'0']); ok=R.expect(w.A->getRebalanceCount()==w.rebalances,"number of re-partitionings")&&ok;
                }
                ok = w.compare(w.A,w.a,"store",done) && ok;
                ok = w.compare(w.B,w.b,"second store",done) && ok;
              }
              R.outcome(std::hash<std::string>()(done));
            }
            int k=0; while(k<sp.depth && ++seq[k]==(int)ops.size()){ seq[k]=0; ++k; }
            if(k==sp.depth) break;
          }
        }
      }
    }
    R.finish();
  }
  MPI_Finalize();
  return 0;
}
