// Shared bookkeeping of the in-process drivers: case selection, counting, reporting.
#ifndef CHECK_COMMON_HPP
#define CHECK_COMMON_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cstdint>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <sstream>
#include <functional>
#include <iostream>
#include <unistd.h>
#include <fcntl.h>
#include <mpi.h>

namespace chk {

struct Options {
  std::string only;            // replay exactly this case
  std::string prefix;          // explore only cases starting with this
  int shard = 0, nshards = 1;
  bool thorough = false;
  std::string progress;        // file that names the case being evaluated
  std::map<std::string,std::string> kv;
};

class Reporter {
public:
  Options opt;
  int rank = 0, size = 1;
  uint64_t states = 0, transitions = 0, checks = 0, skipped = 0;
  std::map<std::string,uint64_t> counters;
  std::set<uint64_t> outcomes;
  std::vector<std::string> samples;
  uint64_t nfail = 0;
  uint64_t seq = 0;
  int pfd = -1;
  std::string current;

  void init(int argc, char** argv){
    MPI_Comm_rank(MPI_COMM_WORLD,&rank); MPI_Comm_size(MPI_COMM_WORLD,&size);
    for(int i=1;i<argc;++i){
      std::string a=argv[i];
      if(a=="--case") opt.only=argv[++i];
      else if(a=="--prefix") opt.prefix=argv[++i];
      else if(a=="--shard"){ sscanf(argv[++i],"%d/%d",&opt.shard,&opt.nshards); }
      else if(a=="--thorough") opt.thorough=true;
      else if(a=="--progress") opt.progress=argv[++i];
      else { size_t e=a.find('='); if(e!=std::string::npos) opt.kv[a.substr(0,e)]=a.substr(e+1); }
    }
    if(!opt.progress.empty() && rank==0) pfd=open(opt.progress.c_str(),O_CREAT|O_RDWR|O_TRUNC,0644);
  }
  std::string get(const std::string& k,const std::string& d=""){ auto i=opt.kv.find(k); return i==opt.kv.end()?d:i->second; }

  // Should this case be evaluated?  Every case belongs to exactly one shard.
  bool want(const std::string& key){
    uint64_t n = seq++;
    if(!opt.only.empty()) { if(key!=opt.only) return false; }
    else {
      if(!opt.prefix.empty() && key.compare(0,opt.prefix.size(),opt.prefix)!=0) return false;
      if((int)(n % opt.nshards) != opt.shard) return false;
    }
    current = key;
    if(pfd>=0){ char buf[512]; memset(buf,' ',512); size_t l=key.size()<511?key.size():511; memcpy(buf,key.data(),l); buf[511]='\n'; if(pwrite(pfd,buf,512,0)!=512) abort(); }
    ++states;
    if(samples.size()<5 || (states & (states-1))==0) { if(samples.size()<40) samples.push_back(key); }
    return true;
  }
  void step(uint64_t n=1){ transitions+=n; }
  void fail(const std::string& msg){
    ++nfail;
    if(nfail<=200){ std::ostringstream s; s<<"FAIL\t"<<current<<"\t"; for(char c:msg) s<<((c=='\n'||c=='\t')?' ':c); s<<"\n"; out(s.str()); }
  }
  bool expect(bool ok,const std::string& msg){ ++checks; if(!ok) fail(msg); return ok; }
  bool near(double a,double b,double tol,const std::string& what){
    ++checks;
    if(std::fabs(a-b)<=tol) return true;
    std::ostringstream s; s.precision(12); s<<what<<": got "<<a<<" expected "<<b<<" tol "<<tol; fail(s.str()); return false;
  }
  void outcome(uint64_t h){ outcomes.insert(h); }
  void outcomeD(const double* v,size_t n){ // rounded hash of a result vector
    uint64_t h=1469598103934665603ull;
    for(size_t i=0;i<n;++i){ double x=v[i]; if(x==0) x=0; char b[40]; snprintf(b,40,"%.5e",x); for(char*c=b;*c;++c){h^=(unsigned char)*c;h*=1099511628211ull;} }
    outcomes.insert(h);
  }
  void out(const std::string& s){ size_t o=0; while(o<s.size()){ ssize_t w=::write(resfd(),s.data()+o,s.size()-o); if(w<=0) break; o+=w; } }
  int rfd=-1;
  int resfd(){ if(rfd<0){ std::string r=get("result",""); rfd = r.empty()?1:open((r+(size>1?"."+std::to_string(rank):"")).c_str(),O_CREAT|O_WRONLY|O_TRUNC,0644);} return rfd; }
  int finish(){
    std::ostringstream s;
    s<<"RESULT\t{\"states\":"<<states<<",\"transitions\":"<<transitions<<",\"checks\":"<<checks<<",\"skipped\":"<<skipped<<",\"fails\":"<<nfail<<",\"rank\":"<<rank<<",\"outcomes\":[";
    size_t k=0; for(uint64_t h:outcomes){ if(k>=200000) break; s<<(k++?",":"")<<'"'<<std::hex<<h<<std::dec<<'"'; }
    s<<"],\"counters\":{"; k=0; for(auto&c:counters) s<<(k++?",":"")<<'"'<<c.first<<"\":"<<c.second;
    s<<"},\"samples\":["; k=0; for(auto&x:samples) s<<(k++?",":"")<<'"'<<x<<'"';
    s<<"]}\n"; out(s.str());
    return nfail?1:0;
  }
};

template<class T> std::string str(const T& v){ std::ostringstream s; s.precision(10); s<<v; return s.str(); }

// Silences std::cout of the code under test.
struct Quiet { std::ostringstream sink; std::streambuf* o; std::streambuf* e; Quiet():o(std::cout.rdbuf(sink.rdbuf())),e(std::cerr.rdbuf(sink.rdbuf())){} ~Quiet(){ std::cout.rdbuf(o); std::cerr.rdbuf(e);} };

} // namespace chk
#endif
