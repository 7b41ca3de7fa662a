// Independent reader of the state-file format and the executable reference model of what the daemon must learn.
#pragma once
#include "world.h"

struct MapKey { string path; u64 off,len; bool operator<(const MapKey&o)const{ return path!=o.path?path<o.path:off!=o.off?off<o.off:len<o.len; } bool operator==(const MapKey&o)const{ return path==o.path&&off==o.off&&len==o.len; } };
struct VNode { i64 count=0; map<string,VNode> ch; };
struct MExe { i64 time=0, upd=-1; vector<MapKey> maps; i64 ct=-1; bool running=false; int id=0; };      // maps sorted, with repetitions
struct MPair { i64 time=0; double ttl[4]={0,0,0,0}; i64 w[4][4]={{0}}; int state=0; i64 ct=0; };      // bit 0: the lexicographically smaller path
typedef std::pair<string,string> PKey;
static inline PKey pkey(const string&a,const string&b){ return a<b?PKey(a,b):PKey(b,a); }

// The configuration as documented
struct Conf { i64 cycle=20; bool usecorrelation=true; i64 minsize=2000000,memtotal=-10,memfree=50,memcached=0,membuffers=50; bool doscan=true,dopredict=true; i64 autosave=3600; vector<string> mapprefix,exeprefix; bool has_map=false,has_exe=false; string algo="VOMM"; i64 maxprocs=30; i64 sort=3;
  bool vomm() const { return algo.find("VOMM")!=string::npos; } };
bool conf_parse(const string&text,Conf&c);       // false: malformed
string conf_diff(const Conf&a,const Conf&b);
bool accept_path(const string&p,const vector<string>&rules);
bool sanitize_path(string&p);                     // false: not a recordable file name

struct PState { bool valid=false; string why; i64 time=0; map<string,MExe> exes; map<PKey,MPair> pairs; VNode vomm; bool has_vomm=false, odd=false; /* odd: numbers no daemon writes */ set<string> bad; set<MapKey> maps; map<MapKey,i64> mapupd; };
bool state_parse(const string&bytes,PState&s);

struct Model {
  PState s; Conf c; bool exact=true; string why_inexact;
  vector<string> ctx; std::deque<string> hist; bool vomm_on=false;      // ctx: path of names from the root
  i64 last_acc=0; vector<string> changed; map<string,int> newq; vector<string> neworder; map<string,int> newres; // 1 registered 0 failed 2 bad(small)
  bool dirty=false; bool tick2_pending=false, tick2_model=false, tick2_seen=false; set<string> badset; map<string,vector<MapKey>> pending; i64 last_run=0; i64 T=0;
  void inexact(const string&w){ if(exact){ exact=false; why_inexact=w; } }
  void load(const PState&p); void reset(){ Conf k=c; *this=Model(); c=k; }
  void vomm_update(const string&e); void vomm_ensure(); void forget(const string&e); int depth(){ return (int)ctx.size(); }
  void add_exe(const string&path,const vector<MapKey>&maps); void apply_tick2();
  void pair_change(MPair&p,const PKey&k); int pstate(const PKey&k){ return (s.exes[k.first].running?1:0)|(s.exes[k.second].running?2:0); }
};
VNode* vwalk(VNode&root,const vector<string>&path);
// differences between the model and a written state: (kind, text)
vector<std::pair<string,string>> state_diff(const PState&want,const PState&got);
// predicted need of every region: lnprob per region
void predict(Model&m,map<MapKey,double>&ln,map<string,double>*exeln=nullptr);
