// Deterministic simulator of the machine around the preload daemon: shared declarations.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <signal.h>
#include <sys/types.h>
#include <sys/stat.h>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32;
using std::string; using std::vector; using std::map; using std::set;

// ---------------------------------------------------------------- deterministic randomness
static inline u64 mix64(u64 x){ x+=0x9E3779B97F4A7C15ull; x=(x^(x>>30))*0xBF58476D1CE4E5B9ull; x=(x^(x>>27))*0x94D049BB133111EBull; return x^(x>>31); }
static inline u64 hcomb(u64 a,u64 b){ return mix64(a*0x100000001B3ull ^ mix64(b)); }
u64 hstr(const string&s, u64 h=0xcbf29ce484222325ull);
struct Rng { u64 s; explicit Rng(u64 seed=1):s(mix64(seed)){} u64 next(){ s+=0x9E3779B97F4A7C15ull; return mix64(s);} 
  u64 below(u64 n){ return n? next()%n:0; } i64 range(i64 a,i64 b){ return a+(i64)below((u64)(b-a+1)); } bool chance(double p){ return (next()>>11)*(1.0/9007199254740992.0) < p; }
  template<class T> const T& pick(const vector<T>&v){ return v[below(v.size())]; } };

// ---------------------------------------------------------------- arena (shared by all processes of one run)
void arena_init();           // maps a fresh shared arena; operator new uses it afterwards
size_t arena_used();

// ---------------------------------------------------------------- plan: everything a run depends on
struct Op { i64 t; string kind; vector<string> a; };              // at virtual time t (us)
struct Trig { int life; string anchor; int occ; string unit; int off; vector<string> act; bool done=false; }; // at the off-th unit after the occ-th anchor of life
struct Fault { string cls; u64 nth; string eff; };
struct Plan {
  string prop; u64 seed=0; string mode="exact";
  map<string,string> set;            // settings
  vector<Op> ops; vector<Trig> trigs; vector<Fault> faults; map<string,u64> rates; // ppm per class
  string get(const string&k,const string&d="") const { auto i=set.find(k); return i==set.end()?d:i->second; }
  i64 geti(const string&k,i64 d=0) const { auto i=set.find(k); return i==set.end()?d:strtoll(i->second.c_str(),0,10); }
};
string esc(const string&); string unesc(const string&);
string plan_text(const Plan&); bool plan_parse(const string&, Plan&);
bool plan_generate(const string&prop,u64 seed,Plan&,int variant); // generators per property
vector<string> split(const string&s,char c);
string fmt(const char*f,...) __attribute__((format(printf,1,2)));

// ---------------------------------------------------------------- simulated file system
struct WriteRec { i64 off; string data; i64 trunc; };  // trunc>=0: truncation to that size
struct Inode { u64 ino; char type='f'; /* f,d,l,s(special) */ string data; u32 mode=0644; string link; i64 mtime=0, atime=0; u32 uid=0,gid=0;
  string dur; vector<WriteRec> un; i64 dirty_since=-1; bool hot=true; int nlink=0; u64 size=0; bool big=false; // big: only a size, no content
  u64 nwrites=0; u64 blk=0; bool noreadahead=false; };
struct MetaRec { char k; string a,b; u64 ino; i64 t; };  // c create a->ino, r rename a->b, u unlink a
struct Fs {
  map<u64,Inode> in; map<string,u64> ns, dns; vector<MetaRec> journal; u64 next=100; i64 capacity=-1; i64 used=0; i64 last_commit=0;
  Inode* get(const string&p,bool follow=true,string*real=nullptr); Inode* byino(u64 i){ auto x=in.find(i); return x==in.end()?nullptr:&x->second; }
  u64 create(const string&p,char type,const string&data,u32 mode,bool durable);
  void put(const string&p,const string&data,u32 mode=0644);    // durable instantaneous write by "someone else"
  void mkdirs(const string&p); void remove(const string&p,bool durable);
  void wr(Inode&,i64 off,const char*b,size_t n,i64 now); void trunc(Inode&,i64 n,i64 now);
  void rename(const string&a,const string&b,i64 now); void unlink(const string&a,i64 now);
  void sync_inode(Inode&); void commit(size_t n); void commit_all(){ commit(journal.size()); }
  void background(i64 now); void power_loss(Rng&);
  void gc(); bool isdir(const string&p){ auto i=ns.find(p); return i!=ns.end()&&in[i->second].type=='d'; }
};
string dirname_of(const string&p); string normpath(const string&cwd,const string&p);

// ---------------------------------------------------------------- applications (other processes)
struct Mapping { u64 start,end,off; string perm,dev; u64 inode; string path; };
struct App { int id; string exe; vector<Mapping> maps; u64 total=0; };    // a program that can be run
struct Proc { int pid; string exe; int mm; char kind='n'; i64 t0=0; int app=-1; }; // kind: n normal, k kernel thread, d denied, z zombie
struct MM { string exe; string text; bool alive=true; int pid; int app=-1; vector<Mapping> maps; };
struct ProcHist { int pid; int mm; string exe; i64 t0,t1; u64 s0,s1; };     // which program a pid ran, when (time, seam)

// ---------------------------------------------------------------- the simulated daemon process(es)
struct Ofd { char kind='f'; /* f file, p pipe-r, P pipe-w, e eventfd, n null, s static content, m maps, d dir, t console, u unknown */ string path; u64 ino=0; i64 off=0; int flags=0; string content; int mm=-1; int refs=0; int pipe=-1; u64 ev=0; bool closed_err=false; };
struct Pipe { std::string buf; int r=0,w=0; };
struct SigAct { void*h=nullptr; int flags=0; u64 mask=0; };
struct MapReg { u64 addr,len; int file; string path; i64 off; bool advised=false; };
struct VProc { int pid=0,ppid=0,sid=0; bool helper=false; bool launcher=false; map<int,int> fdt; string cwd="/"; int umask=022; int nice=0; int ioprio=-1; SigAct sa[65]; u64 mask=0, pending=0; vector<MapReg> maps; int nfiles=0,ndirs=0; int in_handler=0; map<int,bool> cloexec; };
struct Child { int pid; i64 exit_at; int status; bool reaped=false; int cycle; };
struct Req { int life,cycle; int pid; bool helper; string path; i64 off,len; char how; bool ok; u64 seq; i64 t; int ioprio; };  // how: r readahead, m mmap+madvise, f fadvise
enum EndReason { E_NONE=0, E_EXIT, E_KILL, E_POWER, E_SIGNAL, E_ABORT, E_STUCK, E_DEADLOCK, E_SPIN, E_PLANEND };
struct Life { int idx=0; bool active=false; EndReason end=E_NONE; int code=0; i64 t0=0,t1=0; bool fg=true; vector<string> argv; int polls=0; int scans=0; int ticks=0; bool loaded=false; bool load_scan=false;
  u64 seam0=0; u64 seams=0, allocs=0, pcs=0; i64 term_at=-1; bool handlers=false; string note; int helpers_total=0; i64 main_t=0; bool parent_exit_seen=false; int parent_code=-1; bool unexpected=false; bool refuse_ok=false; };

struct Violation { string prop,kind,msg; };
struct Model; struct Oracle;

struct World {
  Plan plan; Rng rng{1};
  i64 now=0;  i64 wall0=1700000000000000ll; i64 wall_off=0, boot_off=0; u64 seam=0; u64 hash=0; u64 evseq=0;
  Fs fs; map<int,Proc> procs; vector<MM> mms; vector<ProcHist> phist; vector<App> apps; int next_pid=300; set<string> dentries;
  // memory figures (kB)
  map<string,i64> mem; string mem_raw; bool mem_use_raw=false; string vmstat_raw; map<int,string> battery; // BATn -> status text
  // daemon
  VProc vp[40]; bool vp_used[40]={0}; vector<Ofd> ofd; vector<Pipe> pipes; vector<Child> kids; bool sigchld_ign=false; int main_vp=-1;
  Life life; vector<Life> lives; size_t opi=0; bool done=false; bool dead=false;
  map<string,u64> cls_count; vector<Fault> fired; map<string,u64> fault_fired; map<string,std::map<u64,string>> fault_at; 
  map<string,int> anchor_count; struct Armed { size_t trig; i64 left; string unit; }; vector<Armed> armed;
  vector<Req> reqs; vector<Violation> viol; map<string,u64> stat; vector<string> log; bool logging=false;
  i64 io_delay=0; bool nodeadlock=false; bool need_defer=false; i64 last_scan=-1000000000; i64 last_seam_t=0; u64 seams_at_t=0;
  bool exact=true; string state_path="/var/lib/preload/preload.state", conf_path="/etc/preload.conf", log_path="/var/log/preload.log"; 
  int cycle_no=0; string console; i64 end_time=0; bool handler_in_alloc=false; u64 unmodelled=0; string fault_path; /* what the call being faulted is about */
  unsigned char cov[65536]; u64 pc_since_seam=0; 
  i64 live_bytes=0, live_allocs=0; u64 statehash_n=0; set<u64> statehashes;
  Model*model=nullptr; Oracle*orc=nullptr;
  World(){ for(auto&c:cov)c=0; }
};
extern char g_shipped[20000]; // the configuration file that is installed by default
extern World*W; extern int g_cur;   // current VProc of this real process
inline i64 blksize(){ i64 b=W->plan.geti("blksize"); return b?b:4096; }
// where block i of a file lies on the disk; with "frag" a file is in two pieces
// inode numbers: with "ino64" those of a large file system (XFS, btrfs), beyond 32 bits
inline u64 ino_shown(u64 ino){ return W->plan.geti("ino64")? ((hstr(fmt("%llu",(unsigned long long)ino))%61)<<31|ino):ino; }
inline i64 phys_block(const Inode&n,i64 i){ i64 f=W->plan.geti("frag"); if(!f||i<f) return (i64)n.blk+i; return n.blk%16? (i64)n.blk+3000000+i-f : (i64)n.blk/2+i-f; }
static inline VProc& CUR(){ return W->vp[g_cur]; }
void violation(const string&prop,const string&kind,const string&msg);
void stat_inc(const string&k,u64 n=1);
void trace(const char*f,...) __attribute__((format(printf,1,2)));  // event log line, also hashed
bool fault(const string&cls,const vector<string>&effs,string&eff);  // should the nth call of this class fail, and how
void anchor(const string&name); 
void run_op(const Op&op); void do_action(const vector<string>&a);
void advance_to(i64 t,bool run_ops); bool run_due_ops();
[[noreturn]] void end_life(EndReason r,int code); 
void send_signal(int sig); void deliver_pending();
void start_proc(int app,int pid=-1,char kind='n',const string&exe=""); void stop_proc(int pid); void exec_proc(int pid,int app);
string maps_text(const vector<Mapping>&); string meminfo_text(); bool on_battery_world();
[[noreturn]] void raw_exit(int c); int raw_fork(); int raw_waitpid(int pid,int*st,int fl); void raw_write(int fd,const char*p,size_t n); i64 raw_read(int fd,void*p,size_t n); i64 raw_clock_us();
extern volatile bool g_in_daemon;
void life_main(); // runs the daemon in this process (never returns)
