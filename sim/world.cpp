// The simulated machine: processes, memory figures, batteries, scripted events, and the flow of virtual time.
#include "world.h"
#include "oracle.h"
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <dlfcn.h>
void setup_stdio();
void stat_inc(const string&k,u64 n){ if(W) W->stat[k]+=n; }
void trace(const char*f,...){ char b[1600]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); W->hash=hcomb(W->hash,hstr(b)^(u64)W->now); W->evseq++; if(W->logging) W->log.push_back(fmt("%12.6f s%-6llu ",W->now/1e6,(unsigned long long)W->seam)+(CUR().helper?"[helper] ":CUR().launcher?"[launcher] ":"")+b); }
void violation(const string&prop,const string&kind,const string&msg){ bool mine=kind_applies(kind,prop,W->plan.prop); trace("VIOLATION %s %s%s: %s",prop.c_str(),kind.c_str(),mine?"":" (not this check's property)",msg.c_str()); if(!mine){ stat_inc("other."+prop+"."+kind); return; } for(auto&v:W->viol) if(v.kind==kind) return; W->viol.push_back({W->plan.prop,kind,msg}); W->done=true; }

// ---------------------------------------------------------------- processes
string maps_text(const vector<Mapping>&v){ string r; for(auto&m:v){ string p; for(char c:m.path) if(c=='\n') p+="\\012"; else p+=c; string h=fmt("%08llx-%08llx %s %08llx %s %llu ",(unsigned long long)m.start,(unsigned long long)m.end,m.perm.c_str(),(unsigned long long)m.off,m.dev.c_str(),(unsigned long long)m.inode); while(h.size()<73&&!p.empty()) h+=' '; r+=h+p+"\n"; } return r; }
static int new_mm(int app,const string&exe,int pid){ MM m; m.exe=exe; m.pid=pid; m.app=app; if(app>=0){ m.maps=W->apps[app].maps; m.text=maps_text(m.maps);} W->mms.push_back(m); return (int)W->mms.size()-1; }
static void hist_close(int pid){ for(size_t i=W->phist.size();i--;) if(W->phist[i].pid==pid&&W->phist[i].t1<0){ W->phist[i].t1=W->now; W->phist[i].s1=W->seam; return; } }
void start_proc(int app,int pid,char kind,const string&exe){ if(pid<0){ pid=W->next_pid++; } Proc p; p.pid=pid; p.kind=kind; p.t0=W->now; p.app=app; p.exe=exe.empty()?W->apps[app].exe:exe; p.mm=new_mm(app,p.exe,pid); W->procs[pid]=p; W->phist.push_back({pid,p.mm,p.exe,W->now,-1,W->seam,0}); trace("process %d runs %s",pid,esc(p.exe).c_str()); stat_inc("procs"); }
void stop_proc(int pid){ auto i=W->procs.find(pid); if(i==W->procs.end()) return; W->mms[i->second.mm].alive=false; hist_close(pid); trace("process %d ends",pid); W->procs.erase(i); }
void exec_proc(int pid,int app){ auto i=W->procs.find(pid); if(i==W->procs.end()) return; W->mms[i->second.mm].alive=false; hist_close(pid); i->second.exe=W->apps[app].exe; i->second.app=app; i->second.mm=new_mm(app,i->second.exe,pid); W->phist.push_back({pid,i->second.mm,i->second.exe,W->now,-1,W->seam,0}); trace("process %d execs %s",pid,esc(i->second.exe).c_str()); stat_inc("execs"); }
static vector<int> pids_of(int app){ vector<int> v; for(auto&p:W->procs) if(p.second.app==app) v.push_back(p.first); return v; }
string meminfo_text(){ if(W->mem_use_raw) return W->mem_raw; static const char*order[]={"MemTotal","MemFree","MemAvailable","Buffers","Cached","SwapCached","Active","Inactive","Active(anon)","Inactive(anon)","Active(file)","Inactive(file)","Unevictable","Mlocked","SwapTotal","SwapFree","Dirty","Writeback","AnonPages","Mapped","Shmem","KReclaimable","Slab","SReclaimable","SUnreclaim","KernelStack","PageTables","CommitLimit","Committed_AS","VmallocTotal"}; string r; for(auto k:order){ auto i=W->mem.find(k); if(i!=W->mem.end()){ string h=string(k)+":"; r+=fmt("%-16s%8lld kB\n",h.c_str(),(long long)i->second); } } for(i64 n=W->plan.geti("longmem");(i64)r.size()<n;) r+=fmt("Node%d:%*s%d kB\n",(int)r.size(),n-(i64)r.size()>40?8:1,"",(int)r.size()); return r; }
static string strip(const string&s){ size_t a=0,b=s.size(); while(a<b&&isspace((unsigned char)s[a])) a++; while(b>a&&isspace((unsigned char)s[b-1])) b--; return s.substr(a,b-a); }
bool on_battery_world(){ for(auto&b:W->battery) if(b.first>=0&&b.first<10&&strip(b.second)=="Discharging") return true; return false; }

// ---------------------------------------------------------------- events
static bool defers(const Op&o){ const string&k=o.kind; if(k=="sig") return o.a[0]=="1"; return k=="run"||k=="stop"||k=="stop1"||k=="exec"||k=="reuse"||k=="conf"||k=="confrm"||k=="grow"; }
void run_op(const Op&o){ const string&k=o.kind; auto A=[&](size_t i){ return i<o.a.size()?o.a[i]:string(); }; auto N=[&](size_t i){ return strtoll(A(i).c_str(),0,10); }; stat_inc("op."+k+(k=="sig"?A(0):""));
  if(k=="start"||k=="nop") return;
  else if(k=="run"){ int n=o.a.size()>1?(int)N(1):1; for(int i=0;i<n;i++) start_proc((int)N(0),-1,A(2).empty()?'n':A(2)[0],A(3)); }
  else if(k=="stop"){ for(int p:pids_of((int)N(0))) stop_proc(p); }
  else if(k=="stop1"){ auto v=pids_of((int)N(0)); if(!v.empty()) stop_proc(v[0]); }
  else if(k=="exec"){ auto v=pids_of((int)N(0)); if(!v.empty()) exec_proc(v[0],(int)N(1)); }
  else if(k=="reuse"){ auto v=pids_of((int)N(0)); if(!v.empty()){ stop_proc(v[0]); start_proc((int)N(1),v[0]); } }
  else if(k=="grow"){ int a=(int)N(0); if(a>=0&&a<(int)W->apps.size()){ Mapping m=W->apps[a].maps.empty()?Mapping():W->apps[a].maps.back(); if(m.path.empty()||m.path[0]!='/') return; m.start=m.end+0x100000; m.end=m.start+N(1)/4096*4096; m.off=(u64)N(2)/4096*4096; if(m.end==m.start) return; W->apps[a].maps.push_back(m); for(int p:pids_of(a)){ MM&x=W->mms[W->procs[p].mm]; x.maps.push_back(m); x.text=maps_text(x.maps); } } }
  else if(k=="sig") send_signal((int)N(0));
  else if(k=="kill"){ if(W->life.active) end_life(E_KILL,9); }
  else if(k=="power"){ if(W->life.active) end_life(E_POWER,0); }
  else if(k=="conf"){ W->fs.put(W->conf_path,A(1)); orc_conf_written(A(0),A(1)); }
  else if(k=="confrm"){ W->fs.remove(W->conf_path,true); orc_conf_written("missing",""); }
  else if(k=="mem"){ W->mem_use_raw=false; for(size_t i=0;i+1<o.a.size();i+=2) if(A(i+1)=="-") W->mem.erase(A(i)); else W->mem[A(i)]=N(i+1); }
  else if(k=="memraw"){ W->mem_use_raw=true; W->mem_raw=A(0); }
  else if(k=="vmraw") W->vmstat_raw=A(0);
  else if(k=="bat"){ if(A(1)=="-") W->battery.erase((int)N(0)); else W->battery[(int)N(0)]=A(1); }
  else if(k=="rm"||k=="uninstall"){ W->fs.remove(A(0),true); }
  else if(k=="install"){ W->fs.mkdirs(dirname_of(A(0))); u64 id=W->fs.create(A(0),'f',"",0755,true); Inode&n=W->fs.in[id]; n.big=true; n.size=o.a.size()>1?N(1):8000000; n.blk=1000+hstr(A(0))%100000*8; }
  else if(k=="todir"){ W->fs.remove(A(0),true); W->fs.create(A(0),'d',"",0755,true); }
  else if(k=="put"){ W->fs.put(A(0),A(1),o.a.size()>2?(u32)strtol(A(2).c_str(),0,8):0644); }
  else if(k=="symlink"){ if(W->fs.ns.count(A(1))&&W->life.active){ trace("symlink: name taken"); return; } W->fs.remove(A(1),true); u64 id=W->fs.create(A(1),'l',"",0777,true); W->fs.in[id].link=A(0); }
  else if(k=="mv"){ auto i=W->fs.ns.find(A(0)); if(i!=W->fs.ns.end()){ u64 id=i->second; W->fs.ns.erase(A(0)); W->fs.dns.erase(A(0)); W->fs.ns[A(1)]=id; W->fs.dns[A(1)]=id; } }
  else if(k=="wall"){ W->wall_off+=N(0); stat_inc("fault.wall_jump"); }
  else if(k=="suspend"){ W->boot_off+=N(0); W->wall_off+=N(0); stat_inc("fault.suspend"); }
  else if(k=="cap"){ W->fs.capacity=N(0); }
  else if(k=="rate"){ if(N(1)) W->plan.rates[A(0)]=N(1); else W->plan.rates.erase(A(0)); if(A(0)=="*") W->plan.rates.clear(); }
  else if(k=="delay"){ W->io_delay=N(0); if(N(0)) stat_inc("fault.slow_io"); }
  else if(k=="end"){ W->done=true; }
  trace("op %s %s",k.c_str(),o.a.empty()?"":esc(o.a[0]).substr(0,80).c_str()); orc_after_op(o); }
void do_action(const vector<string>&a){ if(a.empty()) return; Op o; o.t=W->now; o.kind=a[0]; o.a.assign(a.begin()+1,a.end()); run_op(o); }
bool run_due_ops(){ bool any=false; while(W->opi<W->plan.ops.size()&&W->plan.ops[W->opi].t<=W->now){ const Op&o=W->plan.ops[W->opi]; if(W->exact&&W->life.active&&defers(o)&&W->now<orc_defer_until()){ W->need_defer=true; break; } W->need_defer=false; W->opi++; any=true; if(o.kind=="start"){ stat_inc("op.start.skipped"); continue; } run_op(o); if(W->done) break; }
  if((W->opi>=W->plan.ops.size()&&W->now>=W->end_time)||W->now>=W->end_time+3600000000ll){ if(W->opi<W->plan.ops.size()) stat_inc("plan.cut_short"); W->done=true; } return any; }
static void setnow(i64 t){ if(t<=W->now) return; if(t-W->now>=1000) W->seams_at_t=0; W->now=t; W->fs.background(t); }
void advance_to(i64 t,bool ops){ if(ops&&!W->exact){ while(W->opi<W->plan.ops.size()&&W->plan.ops[W->opi].t<=t&&!W->done){ setnow(W->plan.ops[W->opi].t); run_due_ops(); } } setnow(t); }

// ---------------------------------------------------------------- building the world from the plan
static void auto_file(const string&p,u64 need){ if(p.empty()||p[0]!='/'||p.find("(deleted)")!=string::npos) return; string q=p; size_t k=q.find(".#prelink#."); if(k!=string::npos) q=q.substr(0,k); if(!q.compare(0,6,"/proc/")||!q.compare(0,5,"/sys/")||!q.compare(0,5,"/dev/")||!q.compare(0,6,"/SYSV0")) return; auto i=W->fs.ns.find(q); if(i==W->fs.ns.end()){ W->fs.mkdirs(dirname_of(q)); u64 id=W->fs.create(q,'f',"",0755,true); Inode&n=W->fs.in[id]; n.big=true; n.size=need; n.blk=W->plan.geti("noblk")?0:1000+(hstr(q)^W->plan.seed)%100000*8; if(hstr(q,W->plan.seed)%1000<(u64)W->plan.geti("nora",0)) n.noreadahead=true; } else { Inode&n=W->fs.in[i->second]; if(n.big&&n.size<need) n.size=need; } }
void init_world(){ W->rng=Rng(W->plan.seed); W->exact=W->plan.mode=="exact"; 
  for(const char*d:{"/","/proc","/sys","/dev","/tmp","/root","/home/user","/etc","/var/lib/preload","/var/log","/usr/sbin","/usr/bin","/usr/lib","/srv/data"}) W->fs.mkdirs(d);
  W->fs.next=1000+W->plan.seed%50; // inode numbers of files are shuffled by creating them in seed order below
  W->wall0=1700000000000000ll+(i64)(W->plan.seed%86400)*1000000;
  vector<string> names; vector<u64> need;
  for(int i=0;;i++){ string t=W->plan.get(fmt("app%d",i)); if(t.empty()) break; App a; a.id=i; vector<string> L=split(t,'\n'); a.exe=L[0]; for(char&ch:a.exe) if(ch=='\x1e') ch='\n'; u64 addr=0x400000; for(size_t j=1;j<L.size();j++){ if(L[j].empty()) continue; // len off perm path
      size_t x=L[j].find(' '),y=L[j].find(' ',x+1),z=L[j].find(' ',y+1); Mapping m; u64 len=strtoull(L[j].c_str(),0,10); m.off=strtoull(L[j].c_str()+x+1,0,10); m.perm=L[j].substr(y+1,z-y-1); m.path=L[j].substr(z+1); if(j==4) addr=0x7f0000000000ull; m.start=addr; m.end=addr+len; addr=m.end+0x1000*(1+j%3); m.dev="08:01"; m.inode=m.path.empty()||m.path[0]!='/'?0:100+hstr(m.path)%100000; a.maps.push_back(m); a.total+=len; if(!m.path.empty()){ names.push_back(m.path); need.push_back(m.off+len);} } names.push_back(a.exe); need.push_back(100000); W->apps.push_back(a); }
  { vector<size_t> ix; for(size_t i=0;i<names.size();i++) ix.push_back(i); Rng r(W->plan.seed^0xF11E5); for(size_t i=ix.size();i>1;i--) std::swap(ix[i-1],ix[r.below(i)]); for(size_t i:ix) auto_file(names[i],need[i]); }
  for(auto s:{"MemTotal=8000000","MemFree=4000000","MemAvailable=6000000","Buffers=100000","Cached=1500000","SwapCached=1000","Active=1800000","Inactive=1100000","Active(anon)=900000","Inactive(anon)=400000","Active(file)=900000","Inactive(file)=700000","SwapTotal=2000000","SwapFree=1900000","Dirty=500","AnonPages=1200000","Mapped=300000","Shmem=90000","KReclaimable=150000","Slab=250000","SReclaimable=150000","SUnreclaim=100000","CommitLimit=6000000","VmallocTotal=34359738367"}) { string t=s; size_t k=t.find('='); W->mem[t.substr(0,k)]=strtoll(t.c_str()+k+1,0,10); }
  W->vmstat_raw=W->plan.get("vmstat","nr_free_pages 100\npgpgin 123456\npgpgout 654321\n"); for(i64 n=W->plan.geti("longmem");(i64)W->vmstat_raw.size()<n;) W->vmstat_raw+=fmt("nr_x%d 0\n",(int)W->vmstat_raw.size()); // more than fits into one buffer
  if(W->plan.set.count("conf")) W->fs.put("/etc/preload.conf",W->plan.get("conf"));
  if(W->plan.set.count("state")) W->fs.put("/var/lib/preload/preload.state",W->plan.get("state"),0640);
  for(auto&s:W->plan.set) if(!s.first.compare(0,4,"file")&&isdigit((unsigned char)s.first[4])){ size_t k=s.second.find('\n'); W->fs.put(s.second.substr(0,k),s.second.substr(k+1)); }
  if(W->plan.geti("pid0")) W->next_pid=(int)W->plan.geti("pid0");
  // a few processes that are always there
  for(int i=0;i<2;i++) start_proc(-1,2+i,'k',"?");
  for(auto&f:W->plan.faults) W->fault_at[f.cls][f.nth]=f.eff;
  i64 last=W->plan.ops.empty()?0:W->plan.ops.back().t; W->end_time=W->plan.geti("end",last+1000000); }

// ---------------------------------------------------------------- one lifetime of the daemon
extern int (*daemon_main)(int,char**); extern void*daemon_lib;
int pa_nice, pa_verb; bool pa_help; // the nice level asked for; whether only help or the version was asked for
void parse_args(const vector<string>&a,string&conf,string&state,string&log,bool&fg,bool&bad){ pa_nice=15; pa_verb=4; pa_help=false; conf="/etc/preload.conf"; state="/var/lib/preload/preload.state"; log="/var/log/preload.log"; fg=false; bad=false;
  for(size_t i=0;i<a.size();i++){ auto val=[&](const string&s,const string&l,string&out){ if(a[i]==s||a[i]==l){ if(i+1<a.size()) out=a[++i]; else bad=true; return true; } if(!a[i].compare(0,l.size()+1,l+"=")){ out=a[i].substr(l.size()+1); return true; } if(!a[i].compare(0,s.size(),s)&&a[i].size()>s.size()&&a[i][1]!='-'){ out=a[i].substr(s.size()); return true; } return false; }; string nl;
    if(val("-c","--conffile",conf)||val("-s","--statefile",state)||val("-l","--logfile",log)) continue;
    if(val("-V","--verbose",nl)){ pa_verb=(int)strtol(nl.c_str(),0,10); continue; }
    if(val("-n","--nice",nl)){ pa_nice=(int)strtol(nl.c_str(),0,10); continue; }
    if(a[i]=="-f"||a[i]=="--foreground") fg=true; else if(a[i]=="-d"||a[i]=="--debug"){ fg=true; log=""; pa_verb=9; } else if(a[i]=="-h"||a[i]=="--help"||a[i]=="-v"||a[i]=="--version"||a[i]=="-H") { bad=pa_help=true; return; } else if(!a[i].empty()&&a[i][0]=='-') { bad=true; return; } } }
void life_main(){ VProc&v=W->vp[0]; v=VProc(); W->vp_used[0]=true; W->main_vp=0; g_cur=0; v.pid=W->next_pid++; v.ppid=50; v.sid=50; v.cwd=W->plan.get("cwd","/"); if(W->plan.get("sigchld")=="ign") v.sa[SIGCHLD].h=(void*)SIG_IGN; v.umask=(int)W->plan.geti("umask",022); v.nice=0;
  for(int i=0;i<3;i++){ if(W->plan.geti("nofd")>>i&1) continue; W->ofd.emplace_back(); Ofd&o=W->ofd.back(); o.kind='t'; o.refs=1; o.flags=i?1:0; v.fdt[i]=(int)W->ofd.size()-1; }
  setup_stdio(); static vector<string> keep; static vector<char*> av; keep.clear(); keep.push_back("preload"); for(auto&s:W->life.argv) keep.push_back(s); av.clear(); for(auto&s:keep) av.push_back(strdup(s.c_str())); av.push_back(nullptr);
  anchor("LIFE_START"); orc_life_start(); 
  if(direct_call_mode()){ g_in_daemon=true; direct_main(); g_in_daemon=false; end_life(E_EXIT,0); }
  g_in_daemon=true; int rc=daemon_main((int)av.size()-1,av.data()); exit(rc); }
