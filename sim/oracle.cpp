// The property oracles: an executable reference model fed with what the daemon could observe, plus invariants checked
// while the run proceeds. Everything lives in the shared arena, so it survives the lifetimes of the daemon.
#include "oracle.h"
#include "model.h"
#include <algorithm>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <dlfcn.h>

static const i64 S=1000000;                       // one second

struct Prediction {                               // what one prediction cycle had to work with
  bool active=false, exact=false; map<MapKey,double> ln; vector<string> mem; Conf c; vector<Req> reqs; int faults=0; bool order_unknown=false, ioprio_fault=false, stat_gap=false; };
struct PerLife {
  bool bad_args=false, help=false; int nice=15, verb=4; bool conf_read=false; bool usr1_any=false; size_t logged=0; bool conf_bad=false, startup_fault=false, damaged=false, must_refuse=false, saw_error_text=false; bool log_bad=false, fork_bad=false;
  bool ensured=false; set<int> load_running; vector<std::pair<int,string>> entries; bool in_scan=false,listed=false; bool scan_fault=false; bool idled=false;
  bool tick_in_wake=false, tick_since_rest=false, tick_open=false, tick_scanned=false, tick_predicted=false, tick_battery=false, battery_fault=false, prev_battery=false, had_tick=false, poll_fault=false; i64 tick_t=0, tick_end=0, busy=0, idle_t=0, wake_t=0; i64 cmin=0,cmax=0;
  set<int> bats, bats_failed; /* batteries that discharge at this tick, that could not be read */ bool fault_since_scan=false; map<int,int> maps_opens; set<string> unlucky;
  int hups=0,reloads=0; i64 pend[65]={0}; bool have_pend[65]={false};
  // saving
  bool save_in_wake=false, wake_installed=false, wake_fault=false, tick2_fault=false; bool fsync_failed=false; i64 last_attempt=-1, dirty_since=-1, last_unrequested=-1; i64 auto_max=0,auto_min=0; set<string> stated, stale, everbad; i64 t2gap=0; bool usr2_in_wake=false; u64 attempts=0, installs=0; int pre_installs=0; bool failed_last=false; bool conf_bad_reload=false; bool final_fault=false;
  bool save_ambiguous=false; u64 dirty_seam=0; // when there was something new again
  // configuration
  bool have_before=false; Model model_before; string dump; bool dumping=false;
  bool scan_partial=false, load_seen=false, had_state=false; string sdump; bool want_sdump=false, want_cdump=false, saves_asked=false, reloaded=false; i64 want_seam=0;
  // resources
  bool base=false; size_t b_fd=0; int b_files=0,b_dirs=0; size_t b_maps=0; map<string,vector<i64>> mem_samples; i64 cyc_min=-1;
  // log
  bool log_fault=false, log_check=false, log_verified=false; u64 log_ino=0; bool log_moved=false;
  // attribution under churn
  map<string,int> good; map<string,int> sole; i64 scan_t=0; bool conf_changed=false; i64 minsize_lo=0,minsize_hi=0; set<string> loaded_exes, loaded_maps; vector<Conf> confs;
  Prediction p; map<string,set<u64>> created; bool order_changed=false; bool started_ok=false; set<string> tick_stats; set<string> uninstalled; };
struct Version { bool have=false; string data; bool operator==(const Version&o)const{ return have==o.have&&data==o.data; } string text()const{ return have?fmt("%zu bytes",data.size()):"missing"; } };
struct Oracle { Model m; PerLife L; Version cur, prev; bool has_prev=false; bool order_unknown=false; set<string> ever_maps;
  void install(const string&c){ prev=cur; has_prev=true; cur.have=true; cur.data=c; } void others(const Version&v){ cur=v; has_prev=false; } };
#define O (*W->orc)
#define M (W->orc->m)
#define L (W->orc->L)

// ---------------------------------------------------------------- which check a finding belongs to
static bool is_content(const string&k){ static const set<string> s={"clock","exe-missing","exe-extra","exe-time","exe-upd","map-upd","exe-maps","pair-missing","pair-extra","pair-time","pair-weight","pair-ttl","vomm"}; return s.count(k)>0; }
bool kind_applies(const string&k,const string&owner,const string&prop){
  if(owner==prop) return true;
  static const set<string> fatal={"crash","abort","hang","deadlock","spin","unexpected-exit","helper-crash"}; if(fatal.count(k)) return prop!="C23"||k=="crash";
  auto in=[&](std::initializer_list<const char*> l){ for(auto x:l) if(prop==x) return true; return false; };
  if(is_content(k)&&in({"C01","C02","C12","C25"})) return true;
  if(prop=="C25"&&(k=="setting"||k=="too-slow"||k=="too-fast"||k=="no-scan"||k=="stopped-cycling"||k=="no-prediction")) return true;
  if(k=="clock"||k=="exe-time") return in({"C05","C03"});
  if(k=="pair-time") return in({"C05","C06","C03"});
  if(k=="pair-weight"||k=="pair-ttl"||k=="pair-missing"||k=="pair-extra") return in({"C06","C03","C16"});
  if(k=="vomm") return in({"C07","C03","C16","C13"});
  if(k=="exe-missing"||k=="exe-extra") return in({"C15","C03","C14","C16","C13"});
  if(k=="exe-maps") return in({"C15","C14","C03","C13"});
  if(k=="exe-upd"||k=="map-upd") return in({"C03"});
  if(k=="incomplete-save"||k=="state-file-changed") return in({"C01","C02","C19","C04","C12"});
  if(k=="save-skipped"||k=="unsaved-exit") return in({"C01","C02","C12","C03","C04"});
  if(k=="order-of-need"||k=="left-out"||k=="bytes-outside"||k=="not-covered") return in({"C09","C10"});
  if(k=="scan-though-off"||k=="predict-though-off") return in({"C22","C13"});
  if(k=="left-out"||k=="not-covered"||k=="no-prediction"||k=="too-slow"||k=="too-fast"||k=="stopped-cycling"||k=="over-budget"||k=="not-predicted"||k=="no-scan"){ if(prop=="C13") return true; if(k!="left-out"&&k!="not-covered"&&k!="over-budget"&&k!="not-predicted"&&in({"C04","C11","C12"})) return true; }
  if((k=="too-slow"||k=="stopped-cycling"||k=="no-scan")&&in({"C02","C05","C06","C07","C15","C23"})) return true;
  if(k=="reload-unasked") return in({"C12","C13","C20","C25"});
  if(k=="shipped-conf") return in({"C13","C22"});
  if(k=="foreign-file") return in({"C20","C22","C14"});
  if(k=="unknown-path") return in({"C10","C14"});
  if(k=="state-not-loaded") return in({"C01","C22","C05"});
  if(k=="state-open-error-ignored") return in({"C03","C04","C22"});
  if(k=="signal-lost") return in({"C12","C13","C22","C20","C25"});
  return false; }

// ---------------------------------------------------------------- small helpers
static Inode* disk(const string&p){ return p.empty()?nullptr:W->fs.get(p); }
static Version disk_state(){ Version v; Inode*n=disk(W->state_path); if(!n||n->type!='f') return v; v.have=true; v.data=n->data; return v; }
static bool daemon_pid(int pid){ for(int i=0;i<40;i++) if(W->vp_used[i]&&W->vp[i].pid==pid) return true; return false; }
static bool in_main(){ return !CUR().helper&&!CUR().launcher; }
static bool running(){ return W->life.active&&W->life.polls>0; }
static i64 secs(i64 n){ return n*S; }
static void ensure(){ if(L.ensured) return; L.ensured=true; M.vomm_ensure(); }
static vector<MapKey> regions_of(const MM&mm,const Conf&c,u64&total){ vector<MapKey> v; total=0; for(auto&m:mm.maps){ string p=m.path; if(p.find('\n')!=string::npos){ string q; for(char ch:p) if(ch=='\n') q+="\\012"; else q+=ch; p=q; } if(p.empty()||!sanitize_path(p)||!accept_path(p,c.mapprefix)) continue; total+=m.end-m.start; v.push_back({p,m.off,m.end-m.start}); } return v; }
static void set_dirty(){ if(!M.dirty){ L.dirty_since=W->now; L.dirty_seam=W->seam; } M.dirty=true; }
static void check_content(const PState&got,const string&when){
  if(M.exact){ PState want=M.s; auto d=state_diff(want,got); 
    if(!d.empty()&&M.tick2_pending&&M.newq.empty()){ Model a=M; a.apply_tick2(); if(a.s.time==got.time){ auto d2=state_diff(a.s,got); if(d2.empty()||want.time!=got.time){ d=d2; M.apply_tick2(); } } }
    static const map<string,string> owner={{"clock","C05"},{"exe-time","C05"},{"pair-time","C05"},{"pair-weight","C06"},{"pair-ttl","C06"},{"pair-missing","C06"},{"pair-extra","C06"},{"vomm","C07"},{"exe-missing","C15"},{"exe-extra","C15"},{"exe-maps","C15"},{"exe-upd","C03"},{"map-upd","C03"}};
    for(auto&x:d) violation(owner.at(x.first),x.first,when+": "+x.second);
    stat_inc("check.content");
    u64 h=hstr(fmt("%zu/%zu/%zu/%d",got.exes.size(),got.pairs.size(),got.maps.size(),(int)M.ctx.size())); for(auto&p:got.pairs) for(auto&r:p.second.w) for(i64 w:r) h=hcomb(h,w>3?3:w); if(W->statehashes.size()<400) W->statehashes.insert(h);
  } else {
    stat_inc("check.content_weak");
    for(auto&e:got.exes) if(e.second.time>got.time) violation("C05","exe-time",when+": running time of "+esc(e.first)+" exceeds the model clock");
    for(auto&p:got.pairs){ auto a=got.exes.find(p.first.first),b=got.exes.find(p.first.second); if(p.second.time>a->second.time||p.second.time>b->second.time) if(!L.loaded_exes.count(p.first.first)||!L.loaded_exes.count(p.first.second)) violation("C05","pair-time",when+": joint time of "+esc(p.first.first)+" and "+esc(p.first.second)+" exceeds a running time"); }
    for(auto&e:got.exes){ if(L.loaded_exes.count(e.first)) continue; bool ran=false; set<MapKey> own; bool big=false; bool acc=false;
      for(auto&h:W->phist){ string p=h.exe; if(h.mm<0||!sanitize_path(p)||p!=e.first) continue; if(h.t1>=0&&h.t1<W->life.t0) continue; ran=true; for(auto&c:L.confs){ u64 t; for(auto&k:regions_of(W->mms[h.mm],c,t)) own.insert(k); if((i64)t>=c.minsize) big=true; if(accept_path(p,c.exeprefix)) acc=true; } }
      if(e.first=="/usr/sbin/preload") { violation("C14","learned-self",when+": the daemon recorded itself"); continue; }
      if(!ran){ violation("C15","never-ran",when+": application "+esc(e.first)+" was never seen running"); continue; }
      if(!acc) violation("C14","excluded",when+": application "+esc(e.first)+" is excluded by the configuration");
      if(!big) violation("C15","too-small",when+": application "+esc(e.first)+" maps less than the configured minimum");
      for(auto&k:e.second.maps) if(!own.count(k)){ violation("C15","foreign-region",when+": region "+esc(k.path)+fmt(" at %llu length %llu",(unsigned long long)k.off,(unsigned long long)k.len)+" recorded for "+esc(e.first)+" was never mapped by it"); break; } }
    for(auto&g:L.good) if(g.second>=2&&!got.exes.count(g.first)) violation("C15","never-learned",when+": application "+esc(g.first)+fmt(" kept running through %d scans and updates without faults and is not known",g.second));
    for(auto&e:L.loaded_exes) if(!got.exes.count(e)&&!L.uninstalled.count(e)) violation("C16","exe-missing",when+": application "+esc(e)+" was forgotten although its file exists or it is running"); } }

// ---------------------------------------------------------------- start and end of a lifetime
void orc_init(){ W->orc=new Oracle; W->model=&W->orc->m; }
void orc_life_start(){ L=PerLife(); string c,s,l; bool fg; parse_args(W->life.argv,c,s,l,fg,L.bad_args); L.nice=std::max(-20,std::min(19,pa_nice)); L.help=pa_help; L.verb=pa_verb; { Version d=disk_state(); if(!(d==O.cur)) O.others(d); L.had_state=!s.empty()&&d.have; } M=Model(); if(c.empty()) L.confs.push_back(M.c); if(!W->exact) M.inexact("events may fall between the daemon's own steps"); }
static void refuse_if(bool cond,const string&why){ if(cond) violation("C22","started-anyway","the daemon started although "+why); }
void orc_life_end(){ Life&l=W->life; Version d=disk_state(); auto same=[&](){ return d==O.cur; };
  if(l.unexpected){ return; }
  bool refused=l.end==E_EXIT&&l.polls==0;
  switch(l.end){
    case E_KILL: case E_SIGNAL: case E_PLANEND: 
      if(l.end==E_SIGNAL&&l.handlers&&(l.loaded||l.note.find("signal 13 ")==string::npos)) violation("C12","killed-by-signal",l.note+" although its handlers were installed");
      if(!same()) violation("C01","state-file-changed","after the daemon was killed the state file is not the last version it finished: "+d.text()+" instead of "+O.cur.text()); else stat_inc("check.kill"); break;
    case E_POWER: break; // judged after the lost writes are dropped
    case E_ABORT: if(l.note=="abort() called") { violation(W->plan.prop,"abort","the daemon aborted: "+l.note+" "+W->console.substr(W->console.size()>200?W->console.size()-200:0)); } break;
    case E_STUCK: violation(W->plan.prop,"hang","the daemon "+l.note); break;
    case E_DEADLOCK: violation("C12","deadlock","the daemon "+l.note); break;
    case E_SPIN: violation(W->plan.prop,"spin","the daemon makes "+l.note); break;
    case E_EXIT: {
      bool asked=false; for(int s:{SIGTERM,SIGINT,SIGQUIT}) if(L.have_pend[s]) asked=true;
      if(refused){ bool excuse=L.bad_args||L.conf_bad||L.log_bad||L.startup_fault||L.damaged||L.must_refuse||asked; 
        if(!excuse) violation("C22","unexpected-exit",fmt("the daemon gave up at start-up with status %d without reason",l.code));
        if(!L.bad_args&&!asked&&l.code==0) violation("C22","refusal-status","the daemon could not start and exited with status 0"); if(L.bad_args&&!asked&&(l.code==0)!=L.help) violation("C22","refusal-status",fmt(L.help?"asked for help or its version, the daemon exited with status %d":"the daemon refused its command line with status %d",l.code));
        if(!asked&&!same()) violation("C04","state-file-changed","the daemon refused to start but changed the state file");
        bool mute=false; for(size_t i=0;i<l.argv.size();i++){ const string&x=l.argv[i]; if(x=="-V0"||x=="--verbose=0"||((x=="-V"||x=="--verbose")&&i+1<l.argv.size()&&l.argv[i+1]=="0")) mute=true; } // level 0 asks for silence
        if(W->plan.geti("nofd")&4) mute=true; /* nowhere to say it */ if(!L.bad_args&&!asked&&!mute&&!L.saw_error_text) violation("C22","silent-refusal","the daemon refused to start without saying why");
        stat_inc("refusals"); }
      else { if(!asked) violation("C12","unexpected-exit",fmt("the daemon exited with status %d although nobody asked it to",l.code));
        else { if(l.code!=0) violation("C12","exit-status",fmt("asked to terminate, the daemon exited with status %d",l.code));
          if(M.dirty&&!L.final_fault&&!W->state_path.empty()) violation("C12","unsaved-exit","asked to terminate, the daemon exited without saving what it had learned");
          if(!same()) violation("C01","state-file-changed","the state file after exit is not the version last saved"); stat_inc("orderly_exits"); } }
      break; }
    default: break; }
  if(!l.fg&&l.parent_exit_seen&&l.polls>0&&l.parent_code!=0) violation("C22","launcher-status",fmt("the launcher exited with status %d",l.parent_code));
  if(!l.fg&&l.polls>0&&!l.parent_exit_seen&&l.end!=E_ABORT) violation("C22","not-detached","asked to run in the background, the daemon did not detach");
  if(l.polls>0){ L.started_ok=true; refuse_if(L.bad_args,"its command line was wrong"); } }
void orc_power(bool){ Version d=disk_state(); if(!(d==O.cur)&&!(O.has_prev&&d==O.prev)) violation("C01","state-file-changed","after power loss the state file is neither of the two last versions: "+d.text()+", expected "+O.cur.text()+(O.has_prev?" or "+O.prev.text():"")); else stat_inc(d==O.cur?"check.power":"check.power_older"); O.others(d); }
void orc_run_end(){}

// ---------------------------------------------------------------- loading
void orc_load_bytes(bool opened,const string&bytes,const string&err){ if(!in_main()||W->life.polls>0||CUR().launcher) return; L.load_seen=true; Conf c=M.c; W->life.loaded=W->life.handlers=true;
  if(!opened){ if(err!=strerror(ENOENT)){ L.must_refuse=true; M.inexact("the state file could not be read"); } return; }
  PState s; if(state_parse(bytes,s)&&!s.odd){ M.load(s); M.c=c; for(auto&e:s.exes){ L.loaded_exes.insert(e.first); for(auto&k:e.second.maps) L.loaded_maps.insert(k.path); } stat_inc("loads"); } else { L.damaged=true; M.inexact("damaged state file: "+s.why); for(auto&m:s.maps) L.loaded_maps.insert(m.path); for(auto&e:s.exes) L.loaded_exes.insert(e.first); stat_inc("damaged_loads"); }
  if(!W->exact) M.inexact("events may fall between the daemon's own steps"); }

// ---------------------------------------------------------------- prediction
static i64 tag(const string&t,const string&name){ size_t i=0; string x=t.substr(0,4095); while(i<x.size()){ size_t e=x.find('\n',i); if(e==string::npos) e=x.size(); if(!x.compare(i,name.size(),name)&&i+name.size()<e&&x[i+name.size()]==' '){ return strtoll(x.c_str()+i+name.size(),0,10); } i=e+1; } return 0; }
static double budget_kb(const string&t,const Conf&c,double&slack){ auto pc=[](i64 v){ return (double)(v>100?100:v<-100?-100:v); }; double tot=tag(t,"MemTotal:"),fr=tag(t,"MemFree:"),av=tag(t,"MemAvailable:"),bu=tag(t,"Buffers:"),ca=tag(t,"Cached:"); if(av==0&&fr!=0) av=fr+ca*80/100+bu*75/100; double base=av>0?av:fr;
  slack=fabs(pc(c.memtotal))+fabs(pc(c.memfree))+fabs(pc(c.memcached))+fabs(pc(c.membuffers))+4; double b=pc(c.memtotal)*tot/100+pc(c.memfree)*base/100; if(b<0) b=0; return b+pc(c.memcached)*ca/100+pc(c.membuffers)*bu/100; }
typedef std::pair<i64,i64> Iv;
static vector<Iv> merged(vector<Iv> v){ std::sort(v.begin(),v.end()); vector<Iv> r; for(auto&x:v){ if(x.first>=x.second) continue; if(!r.empty()&&x.first<=r.back().second){ if(x.second>r.back().second) r.back().second=x.second; } else r.push_back(x); } return r; }
static bool covers(const vector<Iv>&v,i64 a,i64 b){ if(a>=b) return true; for(auto&x:v) if(x.first<=a&&x.second>=b) return true; return false; }
static i64 up(i64 x){ return (x+4095)/4096*4096; } static i64 down(i64 x){ return x/4096*4096; }
static void check_order(Prediction&p){ i64 st=p.c.sort; if(st<0||st>3||p.order_unknown||O.order_unknown) return; const Req*prev=nullptr; i64 pb=-1; double pl=-1e300; stat_inc("check.order");
  for(auto&r:p.reqs){ if(r.how!='r') continue; Inode*n=W->fs.get(r.path); if(!n) return; string where=esc(r.path)+fmt(" at %lld",(long long)r.off);
    if(st==1&&prev){ if(prev->path>r.path||(prev->path==r.path&&prev->off>r.off)) { violation("C21","order","requests are not in path order: "+where+" comes after "+esc(prev->path)+fmt(" at %lld",(long long)prev->off)); return; } }
    if(st>=2){ i64 b=(i64)ino_shown(n->ino); if(st==3&&n->blk&&!W->plan.geti("nofibmap")) b=(i64)phys_block(*n,r.off/blksize()); if(b<pb){ violation("C21","order",string("requests are not in ")+(st==2?"inode":"block")+" order: "+where+fmt(" (%lld) comes after %lld",(long long)b,(long long)pb)); return; } pb=b; }
    if(st==0&&p.exact){ double best=1e300; bool any=false; for(auto&k:p.ln) if(k.first.path==r.path&&(i64)k.first.off==r.off&&(i64)(k.first.off+k.first.len)<=r.off+r.len&&k.second<1e-7){ if(k.second>=pl-1e-6*(1+fabs(k.second))){ any=true; if(k.second<best) best=k.second; } else if(best==1e300) best=1e301; } if(!any&&best>=1e301){ violation("C21","order-of-need","requests are not in order of predicted need: "+where); return; } if(any&&best>pl) pl=best; }
    prev=&r; } }
static void eval_prediction(){ Prediction p=L.p; L.p=Prediction(); if(!p.active) return; stat_inc("check.prediction");
  auto neg=[](i64 v){ return v<0?(double)(v<-100?100:-v):0.0; }; double budget=-1e300, lo=1e300, slack=0, over=neg(p.c.memtotal)+neg(p.c.memfree)+neg(p.c.memcached)+neg(p.c.membuffers)+2; for(auto&t:p.mem){ double s; double b=budget_kb(t,p.c,s); if(b>budget) budget=b; if(b<lo) lo=b; slack=s; }
  map<string,vector<Iv>> all,got; double reqkb=0; for(auto&r:p.reqs){ i64 a=r.off,b=r.off+r.len; all[r.path].push_back({a,b}); if(r.ok) got[r.path].push_back({a,b}); }
  i64 mapped=0; for(auto&r:p.reqs) if(r.how=='m') mapped++;
  for(auto&f:all){ f.second=merged(f.second); for(auto&x:f.second) reqkb+=(x.second-x.first)/1024.0; } for(auto&f:got) f.second=merged(f.second);
  if(!p.mem.empty()){ double cap=budget>0?budget:0; if(reqkb>cap+over+mapped*8) violation("C08","over-budget",fmt("%.0f kB were requested with a budget of %.0f kB",reqkb,cap)); else if(!p.reqs.empty()) stat_inc("check.budget"); }
  for(auto&r:p.reqs){ if((r.ioprio>>13)!=3&&!p.ioprio_fault){ violation("C21","priority","read-ahead of "+esc(r.path)+" was requested outside the idle I/O class"); break; } }
  for(auto&r:p.reqs){ if(!O.ever_maps.count(r.path)&&!L.loaded_maps.count(r.path)){ bool known=false; for(auto&mm:W->mms) for(auto&m:mm.maps){ string q=m.path; if(sanitize_path(q)&&q==r.path) known=true; } if(!known){ violation("C14","unknown-path","read-ahead was requested for "+esc(r.path)+", which no application maps"); break; } O.ever_maps.insert(r.path); } }
  check_order(p);
  if(p.c.sort==1&&!p.order_unknown&&!O.order_unknown&&!mapped&&!p.faults){ bool plain=true; double sum=0; for(auto&r:p.reqs){ if(!r.ok||r.how!='r') plain=false; sum+=r.len/1024.0; } if(plain){ stat_inc("check.combined"); if(sum>reqkb+8+1e-6*sum) violation("C10","requested-twice",fmt("%.0f kB were requested for %.0f kB of distinct file ranges: overlapping regions were not combined",sum,reqkb)); } }
  if(!p.exact) return;
  // candidates and what was covered
  struct C { MapKey k; double ln; bool cov; i64 kb; }; vector<C> cand; for(auto&x:p.ln) if(x.second<1e-7){ Inode*n=W->fs.get(x.first.path); C c{x.first,x.second,false,(i64)((x.first.len+1023)/1024)}; auto g=got.find(x.first.path); c.cov=g!=got.end()&&covers(g->second,(i64)x.first.off,(i64)(x.first.off+x.first.len)); (void)n; cand.push_back(c); }
  for(auto&f:all){ vector<Iv> ex; for(auto&c:cand) if(c.k.path==f.first){ auto&u=f.second; if(covers(u,(i64)c.k.off,(i64)(c.k.off+c.k.len))) ex.push_back({down(c.k.off),up(c.k.off+c.k.len)}); } ex=merged(ex); for(auto&x:f.second) if(!covers(ex,x.first,x.second)){ bool inany=false; for(auto&c:p.ln) if(c.first.path==f.first&&(i64)c.first.off<x.second&&(i64)(c.first.off+c.first.len)>x.first&&c.second<1e-7) inany=true; 
      violation(inany?"C10":"C09",inany?"bytes-outside":"not-predicted",fmt("bytes %lld to %lld of ",(long long)x.first,(long long)x.second)+esc(f.first)+" were requested but belong to no selected region"+(inany?"":" (no region there is predicted to be needed)")); return; } }
  std::sort(cand.begin(),cand.end(),[](const C&a,const C&b){ return a.ln<b.ln; });
  if(p.mem.empty()||p.stat_gap) return;
  auto eps=[](double x){ return 1e-6*(1+fabs(x)); }; auto gone=[&](const C&c){ Inode*n=W->fs.get(c.k.path); return !n||n->type!='f'||c.k.len==0; };
  vector<double> pre(cand.size()+1,0); for(size_t i=0;i<cand.size();i++) pre[i+1]=pre[i]+((cand[i].cov||p.faults||gone(cand[i]))?cand[i].kb:0);
  auto sum_le=[&](double v){ size_t i=std::upper_bound(cand.begin(),cand.end(),v,[](double x,const C&c){ return x<c.ln; })-cand.begin(); return pre[i]; };
  vector<const C*> unjust; bool cut=false; 
  for(size_t i=0;i<cand.size();i++){ // first region that may have exhausted the budget
    C&c=cand[i]; 
    if(!cut){ bool may=(!c.cov||p.faults||gone(c))&&sum_le(c.ln+eps(c.ln))-((c.cov||p.faults||gone(c))?c.kb:0)+c.kb>lo-slack; if(may){ cut=true; double lim=c.ln-eps(c.ln); vector<const C*> keep; for(auto x:unjust) if(x->ln<lim) keep.push_back(x); unjust=keep; break; } }
    if(c.cov||gone(c)||c.ln>-1e-7) continue; unjust.push_back(&c); }
  // a region lost to a failed call excuses only its own group
  map<string,vector<Iv>> comp; for(auto x:unjust) comp[x->k.path].push_back({(i64)x->k.off,(i64)(x->k.off+x->k.len)}); int groups=0; for(auto&c:comp) groups+=(int)merged(c.second).size();
  stat_inc("check.selection"); if(!p.reqs.empty()) stat_inc("check.requests");
  if(groups>p.faults){ const C*x=unjust[0]; bool part=all.count(x->k.path)>0; violation(part?"C10":"C09",part?"not-covered":"left-out","region "+esc(x->k.path)+fmt(" at %llu length %llu (need %.6g) was not requested although the budget of %.0f kB was not used up by more needed regions",(unsigned long long)x->k.off,(unsigned long long)x->k.len,x->ln,lo)); } }
static void start_prediction(){ L.p=Prediction(); L.p.active=true; L.p.c=M.c; L.p.exact=M.exact; L.tick_predicted=true; if(M.exact) predict(M,L.p.ln); stat_inc("predictions"); }
void orc_req(const Req&r){ stat_inc(string("req.")+r.how); stat_inc("prefetch_kb",(u64)(r.len/1024));
  if(!L.p.active&&W->exact&&running()&&L.tick_open&&M.c.dopredict){ start_prediction(); L.p.mem.push_back(meminfo_text()); } // no look at the memory was taken: the budget is that of the memory there is
  if(L.p.active) L.p.reqs.push_back(r); else if(running()){ if(!M.c.dopredict) violation("C22","predict-though-off","read-ahead was requested although prediction is switched off"); else violation("C17","work-out-of-cycle","read-ahead was requested outside a prediction cycle"); } }
void orc_ioprio(int,int err){ if(err) L.p.ioprio_fault=true; }

// ---------------------------------------------------------------- the cycle
static void scan_flush();
static void settle(){ scan_flush(); if(!L.tick_open) return; L.tick_open=false; L.tick_end=W->now;
  bool bat=L.tick_battery; if(W->exact&&L.battery_fault) for(int b:L.bats) if(!L.bats_failed.count(b)) L.battery_fault=false; // one that can be read is enough
  if(L.battery_fault){ if(M.c.doscan) bat=!L.tick_scanned; else if(M.c.dopredict&&L.tick_predicted) bat=false; else M.inexact("battery state could not be read"); }
  if(bat){ if(L.tick_scanned) violation("C17","work-on-battery","a scan was made on battery"); if(!L.p.reqs.empty()) violation("C17","work-on-battery","files were prefetched on battery"); stat_inc("ticks_battery"); }
  else { if(M.c.doscan&&!L.tick_scanned&&!L.scan_fault) violation("C17","no-scan","a cycle on mains passed without a scan"); if(M.c.dopredict&&!L.tick_predicted&&M.exact&&!L.scan_fault){ map<MapKey,double> ln; predict(M,ln); for(auto&k:ln) if(k.second<-1e-6){ violation("C17","no-prediction","a cycle on mains passed without a prediction although "+esc(k.first.path)+" may be needed"); break; } } stat_inc("ticks"); }
  M.s.time+= bat? 2*M.c.cycle : M.c.cycle/2; M.tick2_pending=true; if(L.tick_scanned) M.tick2_model=true; L.prev_battery=bat; L.t2gap=bat?2*M.c.cycle:M.c.cycle/2; L.tick2_fault=false; eval_prediction(); }
static void apply_tick2(){ if(!M.tick2_pending) return; bool md=M.tick2_model,wd=M.dirty; M.apply_tick2(); if(M.dirty&&!wd) L.dirty_seam=W->seam; if(md&&L.dirty_since<0) L.dirty_since=W->now; }
static void range_of_gap(i64&lo,i64&hi){ i64 a=L.cmin,b=L.cmax; if(L.prev_battery){ lo=secs(2*a-1); hi=secs(3*b+2); } else { lo=secs(a)-6*S/10; hi=secs(b)+2*S; } if(lo<0) lo=0; hi+=L.busy; }
static void churn_account(){ // applications that sat through a whole scan and update without any fault
  if(!L.had_tick||L.fault_since_scan||!L.tick_scanned){ L.sole.clear(); return; }
  for(auto&x:L.sole){ auto i=W->procs.find(x.second); if(i==W->procs.end()||i->second.kind!='n') continue; string p=i->second.exe; if(!sanitize_path(p)||p!=x.first) continue; int n=0; for(auto&h:W->phist){ string q=h.exe; if(h.mm>=0&&sanitize_path(q)&&q==x.first&&(h.t1<0||h.t1>=L.scan_t)) n++; } if(n!=1) continue; u64 t; regions_of(W->mms[i->second.mm],M.c,t); if((i64)t>=M.c.minsize&&t>0&&accept_path(p,M.c.exeprefix)) L.good[x.first]++; } L.sole.clear(); }
// a program rejected before may be left alone as long as it would be rejected again
static bool still_small(int pid){ auto i=W->procs.find(pid); if(i==W->procs.end()||i->second.kind!='n') return true; u64 t; regions_of(W->mms[i->second.mm],M.c,t); return (i64)t<M.c.minsize; }
static void tick_start(){ scan_flush(); if(!running()||!in_main()||L.tick_in_wake) return; settle(); L.tick_in_wake=L.tick_since_rest=true;
  if(M.exact&&M.tick2_pending&&M.tick2_model&&!L.tick2_fault) for(auto&q:M.newq) if(!M.newres.count(q.first)&&!(L.everbad.count(q.first)&&still_small(q.second))) violation("C15","not-examined","new application "+esc(q.first)+" was seen in a scan but not examined");
  if(!W->exact) churn_account();
  apply_tick2(); ensure();
  if(L.had_tick){ i64 lo,hi; range_of_gap(lo,hi); hi+=W->now-L.wake_t; i64 gap=W->now-L.tick_t; if(gap<lo) violation("C17","too-fast",fmt("two cycles started %.2f s apart with a cycle of %lld s",gap/1e6,(long long)M.c.cycle)); if(gap>hi) violation("C17","too-slow",fmt("two cycles started %.2f s apart with a cycle of %lld s",gap/1e6,(long long)M.c.cycle)); stat_inc("check.cadence"); }
  else if(W->now-W->life.main_t>3*S+L.busy+W->now-L.wake_t) violation("C17","too-slow","the first cycle started late");
  W->life.ticks++; W->cycle_no++; L.tick_open=true; L.tick_scanned=L.tick_predicted=false; L.tick_battery=on_battery_world(); L.bats.clear(); L.bats_failed.clear(); for(auto&b:W->battery) if(b.second.compare(0,11,"Discharging")==0&&b.second.find_first_not_of(" \n",11)==string::npos&&b.first>=0&&b.first<10) L.bats.insert(b.first); L.battery_fault=false; L.scan_fault=false; L.had_tick=true; L.tick_t=W->now; L.busy=0; L.cmin=L.cmax=M.c.cycle; L.fault_since_scan=false; L.unlucky.clear(); L.tick_stats.clear(); }
void orc_battery_probe(const string&,const string&text,bool ok){ if(!in_main()) return; tick_start(); if(!L.tick_open) return; if(!ok&&text!="-") L.battery_fault=true; if(!W->exact&&on_battery_world()!=L.tick_battery) L.battery_fault=true; }
void orc_scan_begin(){ if(!in_main()) return; tick_start(); L.in_scan=true; L.listed=L.scan_partial=false; if(!running()) L.scan_t=W->now; L.entries.clear(); W->life.scans++; if(running()){ W->last_scan=W->now; L.scan_t=W->now; L.tick_scanned=true; if(!M.c.doscan) violation("C22","scan-though-off","the process table was scanned although scanning is switched off"); stat_inc("scans"); } else W->life.load_scan=true; }
void orc_scan_failed(){ if(!in_main()) return; tick_start(); if(running()){ L.scan_fault=true; L.tick_scanned=true; W->life.scans++; M.changed.clear(); M.newq.clear(); M.neworder.clear(); M.newres.clear(); M.pending.clear(); L.maps_opens.clear(); L.sole.clear(); M.tick2_model=true; set_dirty(); stat_inc("blind_scans"); } else { M.last_run=M.s.time; for(auto&p:M.s.pairs) p.second.state=M.pstate(p.first); W->life.load_scan=true; } } // what was running is taken to run on
void orc_proc_entry(int pid,const string&exe,const string&res){ if(!in_main()) return;
  if(L.in_scan){ for(auto&e:L.entries) if(e.first==pid){ e.second=res; return; } L.entries.push_back({pid,res}); if(exe.size()>500) M.inexact("very long program name"); return; }
  for(auto&q:M.newq) if(q.second==pid&&M.tick2_pending){ string p=res; bool same=res!="err"&&sanitize_path(p)&&p==q.first; if(!same&&!M.newres.count(q.first)){ M.newres[q.first]=0; M.tick2_seen=true; } else if(!same&&M.newres[q.first]==1){ M.newres[q.first]=0; } } }
// the list may be complete before its entries are looked at: the scan ends with whatever is done next
void orc_scan_end(){ if(in_main()&&L.in_scan) L.listed=true; }
void orc_scan_cut(){ if(in_main()) L.scan_partial=true; }
static void scan_flush(){ if(!in_main()||!L.in_scan||!L.listed) return; map<string,int> missed; L.in_scan=L.listed=false; set<string> seen;
  if(!L.scan_partial){ set<int> looked; for(auto&e:L.entries) looked.insert(e.first); for(auto&x:W->procs) if(x.second.kind=='n'&&!looked.count(x.first)&&x.second.exe.size()<=500&&(W->exact||x.second.t0<L.scan_t)){ if(W->exact) L.entries.push_back({x.first,x.second.exe}); else if(running()){ string q=x.second.exe; if(sanitize_path(q)&&accept_path(q,M.c.exeprefix)&&!M.s.exes.count(q)&&!M.badset.count(q)) missed[q]=x.first; } stat_inc("unseen_processes"); } }
  if(!running()){ for(auto&e:L.entries){ string p=e.second; if(p=="err"||daemon_pid(e.first)||!sanitize_path(p)||!accept_path(p,M.c.exeprefix)) continue; auto i=M.s.exes.find(p); if(i!=M.s.exes.end()) i->second.running=true; } M.last_run=M.s.time; for(auto&p:M.s.pairs) p.second.state=M.pstate(p.first); return; }
  M.changed.clear(); M.newq.clear(); M.neworder.clear(); M.newres.clear(); M.pending.clear(); L.maps_opens.clear(); L.sole.clear(); vector<string> started;
  for(auto&m:missed) L.sole[m.first]=m.second;
  for(auto&e:L.entries){ string p=e.second; if(p=="err"||daemon_pid(e.first)||!sanitize_path(p)||!accept_path(p,M.c.exeprefix)) continue;
    auto i=M.s.exes.find(p); if(i!=M.s.exes.end()){ seen.insert(p); if(!i->second.running){ i->second.running=true; started.push_back(p); M.changed.push_back(p); M.vomm_update(p); stat_inc("launches"); } } else if(!M.badset.count(p)) M.newq[p]=e.first; if(!W->exact&&!L.sole.count(p)) L.sole[p]=e.first; }
  for(auto&e:M.s.exes) if(e.second.running&&!seen.count(e.first)){ e.second.running=false; M.changed.push_back(e.first); stat_inc("stops"); }
  if(M.changed.size()>1) stat_inc("multi_change_cycles");
  M.last_run=M.s.time; M.tick2_model=true; set_dirty(); }
void orc_maps_open(int pid,int mm,const string&err){ scan_flush(); if(!in_main()||L.in_scan) return; if(mm<0&&err.empty()) { violation("C14","learned-self","the daemon examined its own mappings"); return; }
  if(!M.exact) return; if(!M.tick2_pending) return; string path; for(auto&q:M.newq) if(q.second==pid) path=q.first;
  if(path.empty()){ auto i=W->procs.find(pid); if(i!=W->procs.end()){ string p=i->second.exe; if(sanitize_path(p)&&(M.badset.count(p)||L.everbad.count(p))){ M.newq[p]=pid; path=p; } } if(path.empty()) return; }
  M.tick2_seen=true; bool fresh=!M.newres.count(path); if(fresh) M.neworder.push_back(path);
  if(!err.empty()){ M.newres[path]=0; return; }
  if(mm>=0){ string q=W->mms[mm].exe; if(!sanitize_path(q)||q!=path){ M.newres[path]=0; return; } }
  u64 t; vector<MapKey> v=regions_of(W->mms[mm],M.c,t); if(!t) M.newres[path]=0; else if((i64)t<M.c.minsize) M.newres[path]=2; else { M.newres[path]=1; M.pending[path]=v; } }
void orc_maps_read_fault(){ L.fault_since_scan=true; M.inexact("a mapping table could not be read completely"); }
void orc_meminfo(const string&text,const string&which){ scan_flush(); if(which!="/proc/meminfo"||!in_main()||!running()) return; tick_start(); if(!L.tick_open) return;
  if(!M.c.dopredict) return;
  if(!L.p.active) start_prediction();
  L.p.mem.push_back(text); if(text.empty()) L.p.stat_gap=true; }
void orc_poll_return(){ if(!in_main()) return; settle(); if(!L.idled) L.busy+=W->now-L.wake_t; L.idled=false; L.wake_t=W->now; L.tick_in_wake=false; }
i64 orc_defer_until(){ if(!running()) return 0; if(L.tick_open) return W->now+1; if(!M.tick2_pending||M.tick2_seen) return 0; return L.tick_end+secs(L.t2gap)+76*S/100; }

// ---------------------------------------------------------------- saving
void orc_save_open(bool ok,const string&err){ scan_flush(); if(!in_main()) return; if(!running()){ return; } settle(); if(M.tick2_seen) apply_tick2(); ensure();
  if(!ok&&err==strerror(EEXIST)) return; L.save_in_wake=true; L.attempts++; L.fsync_failed=false; L.stale.clear(); if(M.exact&&!M.tick2_pending) for(auto&e:M.s.exes) if(!e.second.running) L.stale.insert(e.first);  
  bool asked=L.have_pend[SIGUSR2]||L.usr2_in_wake||L.have_pend[SIGTERM]||L.have_pend[SIGINT]||L.have_pend[SIGQUIT]; if(L.have_pend[SIGUSR2]) L.usr2_in_wake=true; L.have_pend[SIGUSR2]=false;
  if(!asked&&!L.wake_installed){ i64 since=L.last_unrequested<0?W->life.main_t:L.last_unrequested; if(W->now-since<secs(L.auto_min?L.auto_min:M.c.autosave)-6*S/10) violation("C17","save-too-often",fmt("an automatic save was made %.2f s after the last with an interval of %lld s",(W->now-since)/1e6,(long long)M.c.autosave)); L.last_unrequested=W->now; L.auto_min=L.auto_max=M.c.autosave; }
  L.last_attempt=W->now; L.everbad.insert(M.badset.begin(),M.badset.end()); M.badset.clear(); if(!ok) { L.wake_fault=true; L.final_fault=true; } }
void orc_tmp_stuck(){ if(in_main()&&running()&&!L.save_in_wake) orc_save_open(false,"leftover cannot be removed"); } // a leftover temporary file that cannot be removed: a failed attempt
void orc_save_step(const string&what,const string&err){ L.wake_fault=true; L.final_fault=true; if(what=="fsync"||what=="close") L.fsync_failed=true; (void)err; stat_inc("save_step_failed."+what); }
void orc_state_renamed(const string&content,const string&from){ (void)from; if(!in_main()) return; O.install(content); L.installs++; L.wake_installed=true; stat_inc("saves"); L.final_fault=false;
  if(L.fsync_failed) violation("C02","install-after-failed-sync","the new state file was installed although writing it out had failed");
  PState got; if(!state_parse(content,got)){ violation("C02","incomplete-save","the state file put in place is not complete: "+got.why); return; }
  if(L.tick_open) settle();
  if(!M.exact&&M.tick2_pending&&M.tick2_model){ i64 due=L.tick_end+secs(L.t2gap); if(W->now>=due+3*S/4) apply_tick2(); else if(W->now>=due-S/10) M.tick2_model=false; } // whether the update came before this save cannot be seen
  check_content(got,fmt("save at %.0f s",W->now/1e6)); Inode*n=disk(W->state_path); if(n&&(n->mode&07)) violation("C19","state-exposed",fmt("the state file is accessible to other users (mode %o)",n->mode));
  if(L.failed_last){ stat_inc("check.save_after_failure"); L.failed_last=false; } M.dirty=false; L.dirty_since=-1; }
void orc_stat(const string&path,int err,bool regular){ if(!in_main()||!running()) return; L.stated.insert(path); if(L.tick_open){ L.tick_stats.insert(path); return; }
  auto i=M.s.exes.find(path); bool gone=err==ENOENT||err==ENOTDIR||(!err&&!regular); if(gone) L.uninstalled.insert(path); if(i!=M.s.exes.end()&&!i->second.running&&gone){ M.forget(path); stat_inc("forgotten"); L.good.erase(path); } else if(gone) L.good.erase(path); }

// ---------------------------------------------------------------- going to sleep: most invariants
static void check_cadence_now(i64 timeout){ if(L.poll_fault) return; i64 until=W->now+std::max<i64>(timeout,0);
  if(!L.had_tick){ if((M.c.doscan||M.c.dopredict)&&until-W->life.main_t>3*S+L.busy) violation("C17","too-slow",fmt("the daemon has run for %.2f s, sleeps for another %.1f s, and no cycle has started",(W->now-W->life.main_t)/1e6,timeout/1e6)); return; }
  i64 lo,hi; range_of_gap(lo,hi); if(until-L.tick_t>hi) violation("C17","too-slow",fmt("no cycle was started for %.2f s, and the daemon sleeps for another %.1f s, with a cycle of %lld s",(W->now-L.tick_t)/1e6,timeout/1e6,(long long)M.c.cycle)); }
static string signature(){ i64 nodes=0; vector<const VNode*> st={&M.s.vomm}; while(!st.empty()){ auto v=st.back(); st.pop_back(); nodes++; for(auto&c:v->ch) st.push_back(&c.second); } set<MapKey> maps; for(auto&e:M.s.exes) for(auto&k:e.second.maps) maps.insert(k); int r=0; for(auto&e:M.s.exes) r+=e.second.running; return fmt("%zu %zu %zu %lld %zu %d",M.s.exes.size(),M.s.pairs.size(),maps.size(),(long long)nodes,M.hist.size(),r); }
static void check_resources(){ VProc&v=CUR(); size_t files=0; for(auto&m:v.maps) if(!m.path.empty()||m.file>=0) files++;
  if(!L.base){ L.base=true; L.b_fd=v.fdt.size(); L.b_files=v.nfiles; L.b_dirs=v.ndirs; L.b_maps=files; return; }
  stat_inc("check.resources");
  if(v.fdt.size()>L.b_fd){ string l; for(auto&f:v.fdt) l+=fmt(" %d:%s",f.first,W->ofd[f.second].path.c_str()); violation("C18","leak-fd",fmt("%zu descriptors are open between cycles instead of %zu:",v.fdt.size(),L.b_fd)+l); }
  if(v.nfiles>L.b_files) violation("C18","leak-stream",fmt("%d more streams are open between cycles than after start-up",v.nfiles-L.b_files));
  if(v.ndirs>L.b_dirs) violation("C18","leak-dir","a directory is still open between cycles"); if(files>L.b_maps) violation("C18","leak-map","a file is still mapped between cycles");
  if(!M.exact||W->plan.prop!="C18") return; string sig=signature();
  if(!L.tick_since_rest) return; L.tick_since_rest=false; auto&ms=L.mem_samples[sig]; ms.push_back(W->live_allocs); size_t n=ms.size(); if(n>=24){ stat_inc("check.memory"); // lowest number of live blocks in consecutive windows of six cycles
    i64 mn[4]; for(int w=0;w<4;w++){ mn[w]=LLONG_MAX; for(int j=0;j<6;j++) mn[w]=std::min(mn[w],ms[n-24+w*6+j]); } if(mn[0]<mn[1]&&mn[1]<mn[2]&&mn[2]<mn[3]) violation("C18","leak-memory",fmt("memory grows while the same activity repeats: %lld, %lld, %lld, %lld blocks",(long long)mn[0],(long long)mn[1],(long long)mn[2],(long long)mn[3])); } }
void orc_idle(i64 timeout){ if(!in_main()) return; settle(); if(M.tick2_seen) apply_tick2(); ensure(); L.busy+=W->now-L.wake_t; L.idled=true; Life&l=W->life;
  if(l.polls<=1||!L.base){ if(!l.fg){ VProc&v=CUR(); if(v.sid!=v.pid) violation("C22","not-detached","the background daemon did not leave its session"); if(v.cwd!="/"&&!W->fault_fired.count("chdir=EACCES")&&!W->fault_fired.count("chdir=EIO")) violation("C22","not-detached","the background daemon keeps the directory it was started from busy"); }
    if(CUR().nice!=L.nice&&!W->fault_fired.count("nice=EPERM")) violation("C22","nice-level",fmt("the daemon runs at nice level %d, %d was asked for",CUR().nice,L.nice));
    if(!W->log_path.empty()&&!L.log_bad&&!L.log_moved&&!L.log_fault){ Inode*n=disk(W->log_path); if(!n) violation("C22","log-not-used","the daemon runs without having opened its log file "+esc(W->log_path)); else if(n->type=='f'){ stat_inc("check.log_at_start"); for(int fd:{1,2}){ auto i=CUR().fdt.find(fd); if(i==CUR().fdt.end()||W->ofd[i->second].ino!=n->ino){ violation("C22","log-not-used",fmt("descriptor %d is not the log file ",fd)+esc(W->log_path)); break; } } } }
    if(!W->conf_path.empty()&&!L.conf_read&&!L.startup_fault) violation("C22","conf-not-used","the daemon runs without having read its configuration file "+esc(W->conf_path));
    if(L.verb>=5&&!L.logged&&!L.log_bad&&!W->plan.geti("nofd")) violation("C22","not-told","at the highest verbosity the daemon starts without a word");
    refuse_if(L.bad_args,"its command line was wrong"); refuse_if(L.conf_bad,"its configuration file could not be used"); refuse_if(L.log_bad,"its log file could not be opened"); refuse_if(L.fork_bad&&!l.fg,"it could not detach"); if(L.had_state&&!L.load_seen&&!L.startup_fault) violation("C03","state-not-loaded","the daemon started without reading its state file"); if(L.must_refuse) violation("C03","state-open-error-ignored","the state file exists but could not be opened, and the daemon carries on with an empty model"); L.auto_min=L.auto_max=M.c.autosave; if(L.confs.empty()) L.confs.push_back(M.c); }
  // signals
  static const int sg[]={SIGHUP,SIGUSR1,SIGUSR2,SIGTERM,SIGINT,SIGQUIT}; if(L.have_pend[SIGUSR2]&&(!M.dirty||L.pend[SIGUSR2]<=(i64)L.dirty_seam)){ L.have_pend[SIGUSR2]=false; }
  if(timeout<0||timeout>50000) for(int s:sg) if(L.have_pend[s]&&L.pend[s]<(i64)W->seam){ L.have_pend[s]=false; if(s==SIGUSR2) violation("C02","save-skipped","a save was asked for while there was something new, and none was attempted"); else violation("C12","signal-lost",fmt("the daemon goes to sleep for %.1f s without having honoured signal %d",timeout/1e6,s)); }
  if((L.want_sdump||L.want_cdump)&&L.want_seam<(i64)W->seam&&(timeout<0||timeout>50000)){ violation("C25","dump-missing",string("the ")+(L.want_sdump?"figures of the model":"settings")+" asked for are not in the log"); L.want_sdump=L.want_cdump=false; }
  // the state file
  Version d=disk_state(); if(!W->state_path.empty()&&!(d==O.cur)){ PState s; if(d.have&&L.save_in_wake&&state_parse(d.data,s)){ O.install(d.data); check_content(s,"save in place"); M.dirty=false; L.dirty_since=-1; } else { violation("C02","state-file-changed","the state file is no longer the last complete version: "+d.text()+" instead of "+O.cur.text()); O.others(d); } }
  if(L.save_in_wake){ if(!L.wake_installed){ L.failed_last=true; stat_inc("failed_saves"); if(!L.wake_fault) violation("C02","incomplete-save","a save was attempted, nothing failed, and no new state file was put in place"); } else if(!L.wake_fault) stat_inc("clean_saves"); }
  if(L.save_in_wake&&M.exact) for(auto&e:M.s.exes) if(!e.second.running&&L.stale.count(e.first)&&!L.stated.count(e.first)){ Inode*n=W->fs.get(e.first); if(!n||n->type!='f'){ violation("C16","stale-application-kept","application "+esc(e.first)+" is not running, its file is gone, and the save did not forget it"); break; } }
  // cadence
  check_cadence_now(timeout); if(timeout<0) violation("C17","stopped-cycling","the daemon sleeps without a timer");
  if(M.dirty&&L.dirty_since>=0&&L.had_tick&&!W->state_path.empty()&&!L.poll_fault){ i64 from=std::max(L.dirty_since,std::max(L.last_attempt,l.main_t)); i64 iv=std::max(L.auto_max,M.c.autosave); if(W->now-from>secs(iv)+3*S+L.busy+W->io_delay*50) violation("C17","no-autosave",fmt("nothing was saved for %.1f s with an interval of %lld s",(W->now-from)/1e6,(long long)M.c.autosave)); }
  // helpers and resources
  if(!W->kids.empty()) violation("C11","helper-left",fmt("%zu helper processes are left when the cycle is over",W->kids.size()));
  check_resources();
  // log
  if(L.log_check){ L.log_check=false; Inode*n=disk(W->log_path); if(!L.log_fault&&n&&n->type=='f'){ stat_inc("check.log_switch"); for(int fd:{1,2}){ auto i=CUR().fdt.find(fd); u64 ino=i==CUR().fdt.end()?0:W->ofd[i->second].ino; if(ino!=n->ino){ violation("C20","log-not-switched",fmt("after the reload descriptor %d is not the file at the log path",fd)); break; } } L.log_verified=true; L.log_ino=n->ino; L.log_moved=false; } L.log_fault=false; }
  L.stated.clear(); L.save_in_wake=L.wake_installed=L.wake_fault=L.usr2_in_wake=false; L.poll_fault=false; L.idle_t=W->now; }

// ---------------------------------------------------------------- configuration, signals, log
void orc_conf_written(const string&,const string&){}
void orc_conf_read(bool ok,const string&text){ L.conf_read=true; if(!in_main()) return; Conf c; bool valid=ok&&conf_parse(text,c);
  if(!running()){ if(valid){ M.c=c; L.confs.push_back(c); } else { L.conf_bad=true; if(ok&&W->plan.geti("shipped")&&text==W->plan.get("conf")) violation("C22","shipped-conf","the configuration that is installed by default is not valid"); } return; }
  if(++L.reloads>2*L.hups) violation("C13","reload-unasked",fmt("the configuration was loaded %d times while running, a reload was asked for %d times",L.reloads,L.hups));
  settle(); if(M.tick2_seen) apply_tick2(); L.have_pend[SIGHUP]=false; L.log_check=true; L.have_before=true; stat_inc(valid?"reloads_good":"reloads_bad");
  if(!valid){ L.have_before=false; L.everbad.insert(M.badset.begin(),M.badset.end()); // rejected programs may be examined again after a reload that failed, too
    if(M.c.vomm()&&M.s.vomm.ch.empty()){ if(M.tick2_pending&&M.newq.empty()&&W->now>=L.tick_end+secs(L.t2gap)+3*S/4) apply_tick2(); M.vomm_ensure(); } return; } // an empty launch tree is derived anew

  if(M.tick2_pending&&M.newq.empty()){ // whether the update half of the cycle already ran is visible only later; operations are deferred so that it did
    i64 due=L.tick_end+secs(L.t2gap); if(W->now>=due+3*S/4) apply_tick2(); }
  L.model_before=M; M.c=c; L.confs.push_back(c); L.everbad.insert(M.badset.begin(),M.badset.end()); M.badset.clear(); L.good.clear(); L.sole.clear(); L.cmin=std::min(L.cmin,c.cycle); L.cmax=std::max(L.cmax,c.cycle); L.auto_min=std::min(L.auto_min,c.autosave); L.auto_max=std::max(L.auto_max,c.autosave); M.vomm_ensure(); }
void orc_signal(int sig,bool handled){ if(!handled||sig<1||sig>64) return; if(sig==SIGCHLD||sig==SIGPIPE) return; L.hups+=sig==SIGHUP; L.usr1_any|=sig==SIGUSR1; if((sig==SIGHUP&&W->conf_path.empty())||(sig==SIGUSR2&&W->state_path.empty())) return; if(sig==SIGUSR2) L.saves_asked=true; if(sig==SIGHUP) L.reloaded=true; if(sig==SIGUSR1){ L.want_sdump=L.want_cdump=true; L.want_seam=(i64)W->seam; } L.pend[sig]=(i64)W->seam; L.have_pend[sig]=true; if(W->life.term_at<0&&(sig==SIGTERM||sig==SIGINT||sig==SIGQUIT)) W->life.term_at=W->now; }
static void parse_dump(){ static const string end="# loaded configuration - end"; size_t a=L.dump.find("# loaded configuration at"); if(a==string::npos) return; size_t e=L.dump.find(end,a); if(e==string::npos) return; string t=L.dump.substr(a,e-a); L.dump.clear(); Conf&c=M.c; string grp; stat_inc("check.conf_dump");
  auto want=[&](const string&k,string&w){ if(k=="cycle") w=fmt("%lld",(long long)c.cycle); else if(k=="usecorrelation") w=c.usecorrelation?"true":"false"; else if(k=="minsize") w=fmt("%lld",(long long)c.minsize); else if(k=="memtotal") w=fmt("%lld",(long long)c.memtotal); else if(k=="memfree") w=fmt("%lld",(long long)c.memfree); else if(k=="memcached") w=fmt("%lld",(long long)c.memcached); else if(k=="membuffers") w=fmt("%lld",(long long)c.membuffers); else if(k=="doscan") w=c.doscan?"true":"false"; else if(k=="dopredict") w=c.dopredict?"true":"false"; else if(k=="autosave") w=fmt("%lld",(long long)c.autosave); else if(k=="prediction_algorithm") w=c.algo; else if(k=="maxprocs") w=fmt("%lld",(long long)c.maxprocs); else if(k=="sortstrategy"){ if(c.sort<0||c.sort>3) return false; w=fmt("%lld",(long long)c.sort); } else if(k=="mapprefix"||k=="exeprefix"){ for(auto&x:k=="mapprefix"?c.mapprefix:c.exeprefix) w+=(w.empty()?"":";")+x; } else return false; return true; };
  set<string> got; L.want_cdump=false; for(auto&l:split(t,'\n')){ size_t q=l.find(" = "); if(q==string::npos) continue; string k=l.substr(0,q),v=l.substr(q+3),w; got.insert(k); if(want(k,w)&&w!=v) violation("C13","setting","setting "+k+" is "+v+" instead of "+w); }
  for(auto k:{"cycle","usecorrelation","minsize","memtotal","memfree","memcached","doscan","dopredict","autosave","mapprefix","exeprefix","prediction_algorithm","maxprocs","sortstrategy"}) if(!got.count(k)){ violation("C25","dump-setting-missing",string("the dump does not tell setting ")+k); break; } }
static bool tells_more(){ for(auto&a:W->life.argv) if(!a.compare(0,2,"-V")||!a.compare(0,2,"-d")||!a.compare(0,5,"--ver")||!a.compare(0,5,"--deb")) return true; return false; }
static void state_dump_complete(){ string t=L.sdump; L.sdump.clear(); if(!running()) return; bool open=L.tick_open; if(open&&tells_more()) return; L.want_sdump=false; if(open) settle(); if(M.tick2_seen) apply_tick2(); ensure(); if(!M.exact){ stat_inc("check.dump_inexact"); return; }
  map<string,i64> v; for(auto&l:split(t,'\n')){ size_t q=l.find(" = "); if(q!=string::npos) v[l.substr(0,q)]=atoll(l.c_str()+q+3); }
  bool cleared=L.saves_asked||L.reloaded||W->now-W->life.main_t>=secs(L.auto_min?std::min(L.auto_min,M.c.autosave):M.c.autosave)-S; // a save, also one with nothing to save, starts the list of rejected programs anew
  auto diff=[&](Model&m)->string{ i64 run=0; set<MapKey> k; for(auto&e:m.s.exes){ run+=e.second.running; for(auto&x:e.second.maps) k.insert(x); } set<string> bad=m.badset; bad.insert(L.everbad.begin(),L.everbad.end()); string r;
    auto cmp=[&](const char*key,i64 lo,i64 hi){ auto i=v.find(key); if(!r.empty()) return; if(i==v.end()) r=string("does not tell \"")+key+"\""; else if(i->second<lo||i->second>hi) r=fmt("tells \"%s = %lld\" instead of %lld",key,(long long)i->second,(long long)lo); };
    cmp("preload time",m.s.time,m.s.time); cmp("num exes",(i64)m.s.exes.size(),(i64)m.s.exes.size()); cmp("num bad exes",cleared?0:(i64)m.badset.size(),(i64)bad.size()); cmp("num maps",(i64)k.size(),(i64)k.size()); cmp("num running exes",run,run); return r; };
  string d=diff(M); if(!d.empty()&&M.tick2_pending&&M.newq.empty()){ Model a=M; a.apply_tick2(); if(diff(a).empty()){ d.clear(); apply_tick2(); } }
  if(!d.empty()) violation("C25","dump-wrong","the dump "+d); stat_inc("check.state_dump"); }
void orc_log(u64 ino,const string&text,bool lost){ if(text.find("rror")!=string::npos||text.find("annot")!=string::npos||text.find("ailed")!=string::npos||text.find("Unknown")!=string::npos||text.find("ERROR")!=string::npos||text.find("sage")!=string::npos) L.saw_error_text=true; if(!in_main()) return; L.logged+=text.size(); if(running()&&L.verb<=0&&!L.usr1_any) violation("C22","not-silent","at verbosity 0 the daemon says: "+text.substr(0,80));
  if(L.have_pend[SIGUSR1]&&(text.find("dump")!=string::npos||text.find("preload time")!=string::npos||text.find("loaded configuration")!=string::npos)) L.have_pend[SIGUSR1]=false;
  if(lost){ bool excuse=false; for(auto&f:W->fault_fired) if(!f.first.compare(0,9,"write:log")) excuse=true; if(W->stat.count("fault.disk_full")) excuse=true; L.have_pend[SIGUSR1]=L.want_sdump=L.want_cdump=false; L.dump.clear(); L.sdump.clear(); if(!excuse) violation("C20","message-lost","a log message was written nowhere: "+text.substr(0,80)); return; }
  stat_inc("log_writes"); if(L.dump.size()<20000&&running()){ if(!L.dump.empty()||text.find("#")!=string::npos) L.dump+=text; if(L.dump.find("configuration - end")!=string::npos) parse_dump(); } else L.dump.clear();
  if(L.sdump.size()<4000&&(!L.sdump.empty()||text.find("persistent state stats")!=string::npos)){ L.sdump+=text; size_t q=L.sdump.find("num running exes = "); if(q!=string::npos&&L.sdump.find('\n',q)!=string::npos) state_dump_complete(); } else L.sdump.clear();
  if(ino&&L.log_verified&&!L.log_check&&!L.log_moved&&ino!=L.log_ino) violation("C20","log-wrong-file","a message went to another file than the one at the log path after it had been reopened"); }
void orc_handler_done(int){}
void orc_after_op(const Op&o){ static const set<string> fsops={"rm","uninstall","install","todir","put","symlink","mv"}; if(fsops.count(o.kind)){ O.order_unknown=true; for(auto&a:o.a) if(a==W->log_path) L.log_moved=true; if(o.kind=="put"||o.kind=="rm"||o.kind=="todir"||o.kind=="symlink"||o.kind=="mv"||o.kind=="install") for(auto&a:o.a) if(a==W->state_path) O.others(disk_state()); }
  if(o.kind=="bat"&&!W->exact&&L.tick_open) L.battery_fault=true; if(o.kind=="suspend"||o.kind=="wall") return; if(o.kind=="delay") L.log_fault=L.log_fault; }

// ---------------------------------------------------------------- faults
void orc_fault(const string&cls,const string&eff){ string k=cls.substr(0,cls.find(':')); string t=cls.find(':')==string::npos?"":cls.substr(cls.find(':')+1);
  L.fault_since_scan=true; L.tick2_fault=true; if(!running()){ L.startup_fault=true; if(k=="fork"&&!W->life.loaded) L.fork_bad=true; }
  if(cls=="read:conf"||cls=="fstat:conf"){ if(!running()){ if(eff!="EINTR"&&eff!="short") L.conf_bad=true; } else if(eff!="EINTR"&&eff!="short"&&L.have_before){ { bool x=M.exact; string y=M.why_inexact; M=L.model_before; if(!x) M.inexact(y); } if(L.confs.size()) L.confs.pop_back(); L.have_before=false; } }
  if(t=="log"&&(k=="open"||k=="write")) L.log_fault=true; if(k=="dup2"||k=="dup") L.log_fault=true;
  if(t=="st"){ if(!running()){ M.inexact("reading the state file failed"); L.damaged=true; } }
  if(t=="tmp"||cls=="rename:tmp"||cls=="unlink:tmp"||cls=="fsync:tmp"||k=="rename") { L.wake_fault=true; L.final_fault=true; }
  if(t=="meminfo"){ if(running()) orc_meminfo("","/proc/meminfo"); L.p.stat_gap=true; }
  if(t=="bat"){ tick_start(); L.battery_fault=true; size_t x=W->fault_path.find("/BAT"); if(x!=string::npos) L.bats_failed.insert(atoi(W->fault_path.c_str()+x+4)); }
  if(k=="readdir"||(k=="opendir"&&!W->exact)) M.inexact("the process table could not be read completely");
  if(L.p.active){ if(k=="fork"||cls=="open:app"||k=="readahead"||cls=="mmap:app"||cls=="madvise:app") L.p.faults++; if(k=="fibmap"||cls=="fstat:app"||cls=="open:app"||cls=="stat:app"){ L.p.order_unknown=true; O.order_unknown=true; } if(k=="ioprio") L.p.ioprio_fault=true; }
  if(k=="poll") L.poll_fault=true; }

// ---------------------------------------------------------------- what the daemon touches
static bool own_path(const string&p){ if(p==W->log_path&&!p.empty()) return true; if(W->state_path.empty()) return false; if(p==W->state_path) return true; string d=dirname_of(W->state_path); if(dirname_of(p)!=d) return false; string b=p.substr(p.rfind('/')+1), s=W->state_path.substr(W->state_path.rfind('/')+1); return b.size()>s.size()&&(b.find(s)!=string::npos); }
void orc_mod(const string&kind,const string&path,int flags,u64 ino){ if(CUR().helper){ violation("C11","helper-modifies","a prefetch helper did "+kind+" on "+esc(path)); return; }
  if(kind=="mkdir"&&!W->state_path.empty()&&dirname_of(W->state_path)==path) return; if(path=="/dev/null") return;
  if(!own_path(path)){ violation("C19","foreign-file","the daemon did "+kind+" on "+esc(path)); return; } stat_inc("check.file_access");
  if(kind=="create"&&path!=W->log_path&&path!=W->state_path) L.created[path].insert(ino);
  if(kind=="open-write"&&path!=W->log_path&&path!=W->state_path&&!L.created[path].count(ino)) violation("C19","planted-file","the daemon opened an existing file at its temporary name "+esc(path)+" for writing");
  if(kind=="rename-to"&&path==W->state_path){ Inode*n=W->fs.byino(ino); if(n&&n->type!='f') violation("C19","planted-file","the state file was replaced by something that is not a regular file"); }
  if(kind=="truncate"&&path==W->log_path&&W->exact) violation("C20","log-truncated","the daemon cut off the log it had written so far");
  if(kind=="chmod"&&(flags&07)&&path!=W->log_path) violation("C19","state-exposed",fmt("mode %o is set on ",flags)+esc(path));
  if((kind=="write")&&path!=W->log_path){ Inode*n=W->fs.byino(ino); if(n&&(n->mode&07)) violation("C19","state-exposed",fmt("state is written to a file with mode %o",n->mode)); } }
void orc_open(const string&path,int flags,int res){ if(CUR().launcher) return; if(!running()&&!W->log_path.empty()&&path==W->log_path) L.log_bad=res<0; if(CUR().helper||L.p.active){ if(path==W->state_path||path==W->conf_path||path==W->log_path||!path.compare(0,6,"/proc/")||!path.compare(0,5,"/sys/")||own_path(path)) return; if((flags&O_ACCMODE)!=O_RDONLY) violation("C19","opened-for-writing","application file "+esc(path)+" was opened for writing"); } }
void orc_helper_call(const string&what,const string&path){ if(what=="open"){ size_t k=path.rfind(" flags="); int fl=(int)strtol(path.c_str()+k+7,0,8); if((fl&O_ACCMODE)!=O_RDONLY||(fl&(O_CREAT|O_TRUNC))) violation("C11","helper-modifies","a prefetch helper opened "+esc(path)); else if(!(fl&O_NOATIME)&&!W->plan.rates.count("open:app")&&!W->fault_fired.size()) violation("C19","access-time","an application file is opened without asking to leave its access time alone"); return; } if(what=="stat") return; if(what=="readahead") return; violation("C11","helper-does-more","a prefetch helper did "+what+" "+esc(path)); }
void orc_fork(int pid,bool ok,const string&){ scan_flush(); (void)pid; if(!ok) return; int live=0; for(auto&k:W->kids) if(k.exit_at>W->now) live++; if(M.c.maxprocs<=0) violation("C11","helper-though-none","a helper process was started although none is allowed"); else if(live+1>M.c.maxprocs) violation("C11","too-many-helpers",fmt("%d helper processes are alive with %lld allowed",live+1,(long long)M.c.maxprocs)); stat_inc("check.helpers"); }
void orc_kid_reaped(int){}
void orc_kill_other(int pid,int sig){ violation("C19","kills","the daemon sent signal "+fmt("%d to process %d",sig,pid)); }
void orc_exec(const string&p){ violation("C19","executes","the daemon tried to run "+p); }

// ---------------------------------------------------------------- direct calls of the elapsed-time functions
bool direct_call_mode(){ return W->plan.mode=="direct"; }
extern void* daemon_lib;
void direct_main(){ // only called while the daemon's code counts as running
  g_in_daemon=false; auto sup=(int(*)())dlsym(daemon_lib,"preload_check_boottime_support"); auto sec=(int64_t(*)())dlsym(daemon_lib,"preload_get_boottime"); auto ms=(int64_t(*)())dlsym(daemon_lib,"preload_get_boottime_ms"); if(!sup||!sec||!ms){ stat_inc("direct.missing"); return; }
  bool unavailable=W->plan.geti("noboottime"); int choice=-1; bool ever=false; i64 last_s=-1,last_ms=-1; W->life.polls=1;
  while(W->opi<W->plan.ops.size()&&!W->done){ Op op=W->plan.ops[W->opi++]; if(op.t>W->now) advance_to(op.t,false); if(op.kind!="call"){ run_op(op); continue; }
    string f=op.a[0]; u64 f0=W->cls_count["clock.fired"]; u64 before=W->fired.size(); i64 lo0=W->now+5000000, lob=lo0+W->boot_off; g_in_daemon=true; i64 r=f=="sec"?sec():f=="ms"?ms():sup(); g_in_daemon=false; (void)f0; i64 hi0=W->now+5000000, hib=hi0+W->boot_off; bool failed=W->fired.size()>before; ever|=failed; trace("call %s -> %lld",f.c_str(),(long long)r); stat_inc("direct."+f);
    auto within=[&](i64 v,bool boot,i64 unit){ i64 a=boot?lob:lo0,b=boot?hib:hi0; return v>=a/unit&&v<=b/unit; };
    if(f=="sup"){ if(r!=0&&r!=1) violation("C23","support-value",fmt("the check returned %lld",(long long)r)); if(choice<0){ if(!ever&&(r!=0)==unavailable) violation("C23","wrong-clock","the wrong clock was chosen"); choice=(int)r; } else if((int)(r!=0)!=choice) violation("C23","choice-changed","the choice of clock changed during the life of the process"); continue; }
    i64 unit=f=="sec"?1000000:1000; i64&last=f=="sec"?last_s:last_ms;
    if(r==-1){ if(!failed) violation("C23","spurious-failure","a reading failed although the clock works"); else stat_inc("direct.failed"); continue; }
    if(r<0){ violation("C23","negative",fmt("a reading of %lld was returned",(long long)r)); continue; }
    bool asb=within(r,true,unit)&&!unavailable, asm_=within(r,false,unit); if(!asb&&!asm_){ violation("C23","wrong-reading",fmt("reading %lld does not match any clock (%lld suspended us)",(long long)r,(long long)W->boot_off)); continue; }
    if(choice<0){ if(asb&&!asm_) choice=1; else if(asm_&&!asb){ if(!unavailable&&!ever) violation("C23","wrong-clock","suspended time is not counted although the kernel counts it"); choice=0; } }
    else if(choice==1&&!asb) violation("C23","choice-changed","a reading does not include suspended time, unlike the ones before"); else if(choice==0&&!asm_) violation("C23","choice-changed","a reading includes suspended time, unlike the ones before");
    if(r<last) violation("C23","backwards",fmt("reading %lld follows %lld",(long long)r,(long long)last)); last=r; stat_inc("check.clock"); }
  W->life.end=E_NONE; W->done=true; L.have_pend[SIGTERM]=true; }
