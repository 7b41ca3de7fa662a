// The seams: every libc entry point through which the daemon (and GLib on its behalf) touches the outside world.
// They are defined in the simulator's executable and so take precedence over libc for the daemon library and GLib.
#include "world.h"
#include "oracle.h"
#include <errno.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <dirent.h>
#include <poll.h>
#include <time.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sys/uio.h>
#include <sys/ioctl.h>
#include <sys/eventfd.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/sysinfo.h>
#include <linux/futex.h>
#include <linux/fs.h>
#ifdef stdin
#endif

volatile bool g_in_daemon=false; int g_cur=0; World*W=nullptr;
static long rs(long n,long a=0,long b=0,long c=0,long d=0,long e=0,long f=0){ long r; register long r10 asm("r10")=d; register long r8 asm("r8")=e; register long r9 asm("r9")=f;
  asm volatile("syscall":"=a"(r):"a"(n),"D"(a),"S"(b),"d"(c),"r"(r10),"r"(r8),"r"(r9):"rcx","r11","memory"); return r; }
static long rse(long n,long a=0,long b=0,long c=0,long d=0,long e=0,long f=0){ long r=rs(n,a,b,c,d,e,f); if(r<0&&r>-4096){ errno=(int)-r; return -1;} return r; }
[[noreturn]] void raw_exit(int c){ rs(SYS_exit_group,c); __builtin_unreachable(); }
typedef pid_t (*fork_fn)(void);
int raw_fork(){ static fork_fn f=(fork_fn)dlsym(RTLD_NEXT,"fork"); return f(); }
int raw_waitpid(int pid,int*st,int fl){ long r; do r=rs(SYS_wait4,pid,(long)st,fl,0); while(r==-EINTR); return (int)r; }
void raw_write(int fd,const char*p,size_t n){ while(n){ long r=rs(SYS_write,fd,(long)p,n); if(r<=0){ if(r==-EINTR) continue; break;} p+=r; n-=r; } }
i64 raw_read(int fd,void*p,size_t n){ long r; do r=rs(SYS_read,fd,(long)p,n); while(r==-EINTR); return r; }
i64 raw_clock_us(){ struct timespec t; rs(SYS_clock_gettime,CLOCK_MONOTONIC,(long)&t); return t.tv_sec*1000000ll+t.tv_nsec/1000; }
template<class F> static F nxt(const char*n){ return (F)dlsym(RTLD_NEXT,n); }
#define IND (g_in_daemon && W)
#define SETE(e) (errno=(e),-1)

// ------------------------------------------------------------------ errno names
static const struct { const char*n; int e; } EN[]={{"EIO",EIO},{"ENOSPC",ENOSPC},{"EACCES",EACCES},{"ENOENT",ENOENT},{"EMFILE",EMFILE},{"ENFILE",ENFILE},{"EINTR",EINTR},{"EAGAIN",EAGAIN},{"ENOMEM",ENOMEM},{"EPERM",EPERM},{"EINVAL",EINVAL},{"ENOSYS",ENOSYS},{"EOPNOTSUPP",EOPNOTSUPP},{"ESRCH",ESRCH},{"EROFS",EROFS},{"EDQUOT",EDQUOT},{"EBUSY",EBUSY},{"ENOTDIR",ENOTDIR},{"ESTALE",ESTALE},{"ELOOP",ELOOP},{"EBADF",EBADF},{"ECHILD",ECHILD},{"ENODEV",ENODEV},{"ETXTBSY",ETXTBSY},{0,0}};
static int errno_of(const string&s){ for(int i=0;EN[i].n;i++) if(s==EN[i].n) return EN[i].e; return EIO; }

// ------------------------------------------------------------------ seam entry and exit
static void fire_units(const char*unit);
static void check_spin(){ if(W->seams_at_t>500000){ W->life.note="system calls without end and without waiting"; end_life(E_SPIN,0);} }
struct Enter { int e; bool light; Enter(const char*name,bool light_=false):light(light_){ g_in_daemon=false; e=errno; W->seam++; W->life.seams++; W->pc_since_seam=0; W->seams_at_t++; W->hash=hcomb(W->hash,hstr(name)); 
    VProc&c=CUR(); if(!c.helper&&!c.launcher){ if(!light){ W->now+=1+(i64)(mix64(W->seam)%9)+ (W->io_delay? (i64)(mix64(W->seam*31)%(u64)W->io_delay):0); } fire_units("seam"); if(!W->exact) run_due_ops(); } else fire_units("seam"); check_spin(); errno=e; }
  ~Enter(){ int x=errno; g_in_daemon=true; errno=x; if(!CUR().helper&&!CUR().launcher) deliver_pending(); } };
#define SEAM(n) Enter _en(n)

static void fire_units(const char*unit){ if(W->armed.empty()) return; for(size_t i=0;i<W->armed.size();i++){ auto&a=W->armed[i]; if(a.left<0||a.unit!=unit) continue; if(a.left--==0){ vector<string> act=W->plan.trigs[a.trig].act; a.left=-1; trace("trigger %s",act.empty()?"":act[0].c_str()); stat_inc("trig."+W->plan.trigs[a.trig].anchor+"."+unit+"."+act[0]); do_action(act); } } }
void anchor(const string&name){ int n=++W->anchor_count[name]; for(size_t i=0;i<W->plan.trigs.size();i++){ Trig&t=W->plan.trigs[i]; if(t.done||t.anchor!=name) continue; if(t.life!=-1&&t.life!=W->life.idx) continue; if(t.occ!=n) continue; t.done=true; W->armed.push_back({i,t.off,t.unit}); } }
extern "C" void __sanitizer_cov_trace_pc(void){ if(!IND) return; u64 pc=(u64)__builtin_return_address(0); unsigned h=(unsigned)((pc*0x9E3779B97F4A7C15ull)>>48); W->cov[h]=1; 
  if(++W->pc_since_seam>30000000){ g_in_daemon=false; W->life.note="computes without end"; end_life(E_STUCK,0);} 
  W->life.pcs++; if(!W->armed.empty()){ g_in_daemon=false; fire_units("pc"); g_in_daemon=true; if(!CUR().helper&&!CUR().launcher&&CUR().pending) deliver_pending(); } }
void seam_alloc(){ // called from the allocator, daemon context only
  if(CUR().helper||CUR().launcher) return; 
  if(W->handler_in_alloc){ g_in_daemon=false; violation("C12","handler-reenters-allocator","a signal handler that interrupted the memory allocator calls the allocator again"); W->handler_in_alloc=false; g_in_daemon=true; }
  W->life.allocs++; if(!W->armed.empty()){ int e=errno; g_in_daemon=false; fire_units("alloc"); g_in_daemon=true; if(CUR().pending){ W->handler_in_alloc=true; deliver_pending(); W->handler_in_alloc=false; } errno=e; } }

// ------------------------------------------------------------------ faults
bool fault(const string&cls,const vector<string>&effs,string&eff){ u64 n=++W->cls_count[cls]; auto f=W->fault_at.find(cls); bool hit=false; if(f!=W->fault_at.end()){ auto g=f->second.find(n); if(g!=f->second.end()){ eff=g->second; hit=true; } }
  if(!hit&&!W->plan.rates.empty()){ auto r=W->plan.rates.find(cls); if(r!=W->plan.rates.end()&&r->second){ u64 h=hcomb(hcomb(W->plan.seed,hstr(cls)),n); if(h%1000000<r->second){ eff=effs[(h>>32)%effs.size()]; hit=true; } } }
  if(hit){ W->fired.push_back({cls,n,eff}); W->fault_fired[cls+"="+eff]++; trace("fault %s #%llu %s",cls.c_str(),(unsigned long long)n,eff.c_str()); orc_fault(cls,eff); }
  return hit; }
static bool ffail(const string&cls,const vector<string>&effs){ string e; if(!fault(cls,effs,e)) return false; errno=errno_of(e); return true; }

// ------------------------------------------------------------------ life cycle
[[noreturn]] void end_life(EndReason r,int code){ if(W->life.end==E_NONE){ W->life.end=r; W->life.code=code; trace("life %d ends reason=%d code=%d %s",W->life.idx,(int)r,code,W->life.note.c_str()); } W->dead=true; raw_exit(0); }
static void main_exit(int code){ g_in_daemon=false; VProc&c=CUR(); if(c.helper||c.launcher){ trace("helper exit %d",code); c.nice=code; if(c.launcher){ W->life.parent_exit_seen=true; W->life.parent_code=code; } raw_exit(0);} end_life(E_EXIT,code); }
extern "C" void exit(int code){ if(!IND){ if(W&&W->life.active) raw_exit(code); fflush(nullptr); raw_exit(code); } fflush(stdout); main_exit(code); __builtin_unreachable(); }
extern "C" void _exit(int code){ if(!IND) raw_exit(code); main_exit(code); __builtin_unreachable(); }
extern "C" void _Exit(int code){ if(!IND) raw_exit(code); main_exit(code); __builtin_unreachable(); }
extern "C" void quick_exit(int code){ if(!IND) raw_exit(code); main_exit(code); __builtin_unreachable(); }
extern "C" void abort(void){ if(!IND){ rs(SYS_kill,rs(SYS_getpid),SIGABRT); raw_exit(134);} g_in_daemon=false; if(CUR().helper) { violation("C11","helper-abort","a prefetch helper aborted"); raw_exit(0);} W->life.note="abort() called"; end_life(E_ABORT,0); }

// ------------------------------------------------------------------ signals
static bool deliverable(VProc&c,int s){ return (c.pending>>s&1)&&!(c.mask>>s&1); }
void send_signal(int sig){ if(!W->life.active) return; VProc&c=W->vp[W->main_vp]; void*h=c.sa[sig].h; trace("signal %d %s",sig,h==(void*)SIG_IGN?"ignored":h==nullptr?"default":"handled"); stat_inc(fmt("signal.%d",sig)); orc_signal(sig,h&&h!=(void*)SIG_IGN);
  if(sig==SIGKILL) end_life(E_KILL,9); if(h==(void*)SIG_IGN) return; if(h==nullptr&&!(c.mask>>sig&1)){ if(sig==SIGCHLD||sig==SIGCONT||sig==SIGWINCH||sig==SIGURG) return; W->life.note=fmt("terminated by signal %d (default action)",sig); end_life(E_SIGNAL,sig);} c.pending|=1ull<<sig; }
void deliver_pending(){ VProc&c=CUR(); if(!c.pending||c.helper||c.launcher) return; for(int s=1;s<64;s++) if(deliverable(c,s)){ c.pending&=~(1ull<<s); SigAct a=c.sa[s]; if(!a.h||a.h==(void*)SIG_IGN) continue; if(c.in_handler>6) { c.pending|=1ull<<s; return; } u64 om=c.mask; c.mask|=a.mask|(a.flags&SA_NODEFER?0:(1ull<<s)); c.in_handler++; trace("handler %d",s); g_in_daemon=true; if(a.flags&SA_SIGINFO){ siginfo_t si; memset(&si,0,sizeof si); si.si_signo=s; ((void(*)(int,siginfo_t*,void*))a.h)(s,&si,nullptr);} else ((void(*)(int))a.h)(s); c.in_handler--; c.mask=om; orc_handler_done(s); if(a.flags&SA_RESETHAND) c.sa[s].h=nullptr; s=0; } }
static bool wants_eintr(VProc&c){ for(int s=1;s<64;s++) if(deliverable(c,s)&&!(c.sa[s].flags&SA_RESTART)) return true; return false; }
static bool any_deliverable(VProc&c){ for(int s=1;s<64;s++) if(deliverable(c,s)) return true; return false; }
// every signal the daemon is driven by has its handler
static void note_handlers(){ VProc&c=CUR(); for(int q:{SIGINT,SIGQUIT,SIGTERM,SIGHUP,SIGUSR1,SIGUSR2}) if(!c.sa[q].h) return; W->life.handlers=true; }
extern "C" sighandler_t signal(int s,sighandler_t h) noexcept { if(!IND){ struct{ void*h; unsigned long fl; void*rest; unsigned long m;} a; (void)a; static auto f=nxt<sighandler_t(*)(int,sighandler_t)>("signal"); return f(s,h);} SEAM("signal"); VProc&c=CUR(); sighandler_t o=(sighandler_t)c.sa[s].h; c.sa[s].h=(void*)h; c.sa[s].flags=SA_RESTART; c.sa[s].mask=0; note_handlers(); return o; }
extern "C" sighandler_t __sysv_signal(int s,sighandler_t h) noexcept { return signal(s,h); }
extern "C" sighandler_t bsd_signal(int s,sighandler_t h) noexcept { return signal(s,h); }
static u64 set2mask(const sigset_t*s){ u64 m=0; for(int i=1;i<64;i++) if(sigismember(s,i)==1) m|=1ull<<i; return m; }
static void mask2set(u64 m,sigset_t*s){ sigemptyset(s); for(int i=1;i<64;i++) if(m>>i&1) sigaddset(s,i); }
extern "C" int sigaction(int s,const struct sigaction*n,struct sigaction*o) noexcept { if(!IND){ static auto f=nxt<int(*)(int,const struct sigaction*,struct sigaction*)>("sigaction"); return f(s,n,o);} SEAM("sigaction"); VProc&c=CUR(); if(o){ memset(o,0,sizeof *o); o->sa_handler=(sighandler_t)c.sa[s].h; o->sa_flags=c.sa[s].flags; mask2set(c.sa[s].mask,&o->sa_mask);} if(n){ c.sa[s].h=(n->sa_flags&SA_SIGINFO)?(void*)n->sa_sigaction:(void*)n->sa_handler; c.sa[s].flags=n->sa_flags; c.sa[s].mask=set2mask(&n->sa_mask); note_handlers(); } return 0; }
static int do_mask(int how,const sigset_t*n,sigset_t*o){ VProc&c=CUR(); if(o) mask2set(c.mask,o); if(n){ u64 m=set2mask(n); if(how==SIG_BLOCK) c.mask|=m; else if(how==SIG_UNBLOCK) c.mask&=~m; else c.mask=m; } return 0; }
extern "C" int sigprocmask(int how,const sigset_t*n,sigset_t*o) noexcept { if(!IND) return (int)rse(SYS_rt_sigprocmask,how,(long)n,(long)o,8); SEAM("sigprocmask"); return do_mask(how,n,o); }
extern "C" int pthread_sigmask(int how,const sigset_t*n,sigset_t*o) noexcept { if(!IND){ long r=rs(SYS_rt_sigprocmask,how,(long)n,(long)o,8); return (int)-r; } SEAM("sigprocmask"); return do_mask(how,n,o); }
extern "C" int kill(pid_t p,int s) noexcept { if(!IND) return (int)rse(SYS_kill,p,s); SEAM("kill"); if(p==CUR().pid||p==0){ send_signal(s); return 0;} for(auto&k:W->kids) if(k.pid==p){ if(s) k.exit_at=W->now; return 0; } orc_kill_other(p,s); return SETE(EPERM); }
extern "C" int raise(int s) noexcept { if(!IND) return (int)rse(SYS_kill,rs(SYS_getpid),s); SEAM("raise"); send_signal(s); return 0; }

// ------------------------------------------------------------------ paths and classification
static string absp(const char*p){ return normpath(CUR().cwd,p); }
static string kind_of(const string&p){ if(p==W->state_path) return "st"; if(p==W->state_path+".tmp") return "tmp"; if(p==W->conf_path) return "conf"; if(p==W->log_path) return "log"; if(p=="/proc") return "proc"; if(p=="/proc/meminfo") return "meminfo"; if(p=="/proc/vmstat"||p=="/proc/stat") return "vmstat"; if(!p.compare(0,6,"/proc/")) return p.size()>5&&p.substr(p.size()-5)=="/maps"?"maps":"procx"; if(!p.compare(0,5,"/sys/")) return "bat"; if(p=="/dev/null") return "null"; if(!p.compare(0,dirname_of(W->state_path).size()+1,dirname_of(W->state_path)+"/")) return "tmp"; return "app"; }
static Ofd& OF(int i){ return W->ofd[i]; }
static int newofd(){ for(size_t i=0;i<W->ofd.size();i++) if(!W->ofd[i].refs){ W->ofd[i]=Ofd(); W->ofd[i].refs=1; return (int)i; } W->ofd.emplace_back(); W->ofd.back().refs=1; return (int)W->ofd.size()-1; }
static int newfd(int o,int from=0){ int f=from; while(CUR().fdt.count(f)) f++; if(f>1000){ return -1; } CUR().fdt[f]=o; return f; }
static void putofd(int o){ Ofd&f=OF(o); if(--f.refs==0){ if(f.kind=='p'&&f.pipe>=0) W->pipes[f.pipe].r--; if(f.kind=='P'&&f.pipe>=0) W->pipes[f.pipe].w--; f.content.clear(); } }
static Ofd* ofd_of(int fd){ auto i=CUR().fdt.find(fd); return i==CUR().fdt.end()?nullptr:&OF(i->second); }
static string pidpart(const string&p,int&pid){ // /proc/<pid>[/rest]
  size_t k=6,j=k; while(j<p.size()&&p[j]!='/') j++; string d=p.substr(k,j-k); if(d=="self") { pid=CUR().pid; } else { for(char c:d) if(c<'0'||c>'9'){ pid=-1; return ""; } pid=d.empty()?-1:atoi(d.c_str()); } return j<p.size()?p.substr(j+1):""; }
static bool is_daemon_pid(int pid){ for(int i=0;i<40;i++) if(W->vp_used[i]&&W->vp[i].pid==pid) return true; return false; }
static string self_maps(){ return "55d000000000-55d000400000 r-xp 00000000 08:01 77 /usr/sbin/preload\n7f0000000000-7f0000300000 r-xp 00000000 08:01 78 /usr/lib/libglib-2.0.so.0\n"; }

static int v_open(const char*path,int flags,int mode){ if(!path) return SETE(EFAULT); string p=absp(path), k=kind_of(p); VProc&c=CUR(); int acc=flags&O_ACCMODE; 
  if(!*path) return SETE(ENOENT);
  if(k=="st"&&acc==O_RDONLY&&!c.helper) anchor("LOAD"); if(k=="tmp"&&acc!=O_RDONLY) anchor("SAVE"); if(k=="conf"&&W->life.polls) anchor("RELOAD"); if(k=="meminfo"&&W->life.ticks) anchor("PREDICT"); if(k=="maps") anchor("MAPS");
  string real; Ofd o; o.path=p; o.flags=flags; int err=0;
  vector<string> effs={"EACCES","EMFILE","EIO"}; if(k=="tmp") effs={"EACCES","ENOSPC","EROFS","EMFILE","EINTR"}; if(k=="app") effs={"EACCES","ENOENT","EMFILE","EIO","ETXTBSY"}; if(k=="maps") effs={"EACCES","ESRCH","EMFILE"}; if(k=="st") effs={"EIO","EMFILE"};
  if(c.helper) orc_helper_call("open",p+fmt(" flags=%o",flags));
  W->fault_path=p; if(ffail("open:"+k,effs)){ err=errno; if(k=="maps"){ int mp; pidpart(p,mp); if(mp>0&&!is_daemon_pid(mp)) orc_maps_open(mp,-1,"err"); else orc_maps_open(mp,-1,""); } }
  else if(p=="/dev/null"){ o.kind='n'; }
  else if(p=="/dev/tty"){ err=ENXIO; }
  else if(k=="meminfo"||k=="vmstat"){ o.kind='s'; if(p=="/proc/meminfo") o.content=meminfo_text(); else if(p=="/proc/vmstat") o.content=W->vmstat_raw; else o.content="cpu 1 2 3 4\npage 5741 1808\nswap 1 0\n"; if(p!="/proc/meminfo"&&W->vmstat_raw.empty()&&p=="/proc/vmstat") err=ENOENT; if(!err) orc_meminfo(o.content,p); }
  else if(k=="maps"||k=="procx"){ int pid; string rest=pidpart(p,pid); if(k=="maps"){ auto i=W->procs.find(pid); if(pid>0&&is_daemon_pid(pid)){ o.kind='s'; o.content=self_maps(); orc_maps_open(pid,-1,""); } else if(pid<=0||i==W->procs.end()) err=ENOENT; else if(i->second.kind=='d') err=EACCES; else { o.kind='m'; o.mm=i->second.mm; o.content=i->second.kind=='n'?W->mms[o.mm].text:""; } if(!(pid>0&&is_daemon_pid(pid))) orc_maps_open(pid,err?-1:o.mm,err?"err":""); }
    else if(rest=="comm"||rest=="cmdline"||rest=="stat"||rest=="status"||rest=="statm"){ auto i=W->procs.find(pid); if(i==W->procs.end()) err=ENOENT; else { o.kind='s'; o.content=fmt("%d (prog) S 1 1 1 0\n",pid);} }
    else err=ENOENT; if(acc!=O_RDONLY) err=EACCES; }
  else if(k=="bat"){ string b=p; size_t x=b.find("/BAT"); if(x==string::npos||b.size()<7||b.substr(b.size()-7)!="/status") err=ENOENT; else { int n=atoi(b.c_str()+x+4); auto i=W->battery.find(n); if(i==W->battery.end()) err=ENOENT; else { o.kind='s'; o.content=i->second; o.mm=-100-n; } } }
  else if(p=="/proc"||!p.compare(0,4,"/sys")){ if(acc!=O_RDONLY) err=EISDIR; else { o.kind='d'; } }
  else { Inode*n=W->fs.get(p,!(flags&O_NOFOLLOW),&real); 
    if((flags&O_CREAT)&&(flags&O_EXCL)&&W->fs.ns.count(p)) err=EEXIST;
    else if(n&&(flags&O_NOFOLLOW)&&n->type=='l') err=ELOOP;
    else if(!n){ if(!(flags&O_CREAT)) { err= ENOENT; string par=dirname_of(real.empty()?p:real); Inode*pd=W->fs.get(par); if(pd&&pd->type!='d') err=ENOTDIR; }
      else { string par=dirname_of(real); if(!W->fs.isdir(par)) err=ENOENT; else { u64 id=W->fs.create(real,'f',"",mode&~c.umask&07777,false); n=W->fs.byino(id); n->dirty_since=W->now; orc_mod("create",real,flags,id); n->mode=mode&~c.umask&07777; } } }
    else if(n->type=='d'&&acc!=O_RDONLY) err=EISDIR;
    else if(n->type!='d'&&(flags&O_DIRECTORY)) err=ENOTDIR;
    if(!err){ o.ino=n->ino; o.kind=n->type=='d'?'d':'f'; o.path=real; if(acc!=O_RDONLY) orc_mod("open-write",real,flags,n->ino); if((flags&O_TRUNC)&&acc!=O_RDONLY&&!n->big&&n->data.size()){ orc_mod("truncate",real,flags,n->ino); W->fs.trunc(*n,0,W->now);} } }
  int fd=-1; if(!err){ int oi=newofd(); int r=W->ofd[oi].refs; W->ofd[oi]=o; W->ofd[oi].refs=r; fd=newfd(oi); if(fd<0){ putofd(oi); err=EMFILE; } else c.cloexec[fd]=flags&O_CLOEXEC; }
  trace("open %s %o -> %d %s",esc(p).c_str(),flags,fd,err?strerror(err):"");
  if(k=="tmp"&&acc!=O_RDONLY) orc_save_open(!err,err?strerror(err):""); if(k=="st"&&acc==O_RDONLY&&err) orc_load_bytes(false,"",strerror(err)); if(k=="conf"&&err) orc_conf_read(false,""); if(k=="bat"&&err) orc_battery_probe(p,"-",false); orc_open(p,flags,err?-err:fd);
  if(err) return SETE(err); if(k=="st"&&acc==O_RDONLY){ Inode*n=W->fs.byino(o.ino); orc_load_bytes(true,n?n->data:"",""); } if(k=="conf"){ Inode*n=W->fs.byino(o.ino); orc_conf_read(true,n?n->data:""); } if(k=="bat") { /* reported on read */ }
  return fd; }
static int openmode(int fl,va_list ap){ if(fl&(O_CREAT|__O_TMPFILE)) return va_arg(ap,int); return 0; }
extern "C" int open(const char*p,int fl,...){ va_list ap; va_start(ap,fl); int m=openmode(fl,ap); va_end(ap); if(!IND) return (int)rse(SYS_openat,AT_FDCWD,(long)p,fl,m); SEAM("open"); return v_open(p,fl,m); }
extern "C" int open64(const char*p,int fl,...){ va_list ap; va_start(ap,fl); int m=openmode(fl,ap); va_end(ap); if(!IND) return (int)rse(SYS_openat,AT_FDCWD,(long)p,fl,m); SEAM("open"); return v_open(p,fl,m); }
extern "C" int __open_2(const char*p,int fl){ if(!IND) return (int)rse(SYS_openat,AT_FDCWD,(long)p,fl,0); SEAM("open"); return v_open(p,fl,0); }
extern "C" int __open64_2(const char*p,int fl){ return __open_2(p,fl); }
static string atpath(int dfd,const char*p){ if(p&&*p!='/'&&dfd!=AT_FDCWD){ Ofd*o=ofd_of(dfd); if(o) return o->path+"/"+p; } return p?p:""; }
extern "C" int openat(int d,const char*p,int fl,...){ va_list ap; va_start(ap,fl); int m=openmode(fl,ap); va_end(ap); if(!IND) return (int)rse(SYS_openat,d,(long)p,fl,m); SEAM("open"); return v_open(atpath(d,p).c_str(),fl,m); }
extern "C" int openat64(int d,const char*p,int fl,...){ va_list ap; va_start(ap,fl); int m=openmode(fl,ap); va_end(ap); if(!IND) return (int)rse(SYS_openat,d,(long)p,fl,m); SEAM("open"); return v_open(atpath(d,p).c_str(),fl,m); }
extern "C" int creat(const char*p,mode_t m){ return open(p,O_CREAT|O_WRONLY|O_TRUNC,m); }
extern "C" int creat64(const char*p,mode_t m){ return open(p,O_CREAT|O_WRONLY|O_TRUNC,m); }
static int mkst(char*t,int suf,int fl){ size_t n=strlen(t); if(n<6+(size_t)suf) return SETE(EINVAL); u64 h=mix64(W->seam+W->plan.seed); const char*cs="abcdefghijklmnopqrstuvwxyz0123456789"; for(int i=0;i<6;i++){ t[n-suf-6+i]=cs[h%36]; h/=36; } return v_open(t,O_RDWR|O_CREAT|O_EXCL|fl,0600); }
extern "C" int mkstemp(char*t){ if(!IND){ static auto f=nxt<int(*)(char*)>("mkstemp"); return f(t);} SEAM("open"); return mkst(t,0,0); }
extern "C" int mkstemp64(char*t){ return mkstemp(t); }
extern "C" int mkostemp(char*t,int fl){ if(!IND){ static auto f=nxt<int(*)(char*,int)>("mkostemp"); return f(t,fl);} SEAM("open"); return mkst(t,0,fl); }
extern "C" int mkostemp64(char*t,int fl){ return mkostemp(t,fl); }

static int v_close(int fd){ auto i=CUR().fdt.find(fd); if(i==CUR().fdt.end()){ trace("close %d EBADF",fd); stat_inc("close.ebadf"); return SETE(EBADF);} int oi=i->second; string k=OF(oi).path.empty()?"x":kind_of(OF(oi).path); char kd=OF(oi).kind; bool wr=(OF(oi).flags&O_ACCMODE)!=O_RDONLY; CUR().fdt.erase(i); trace("close %d",fd); bool f=(kd=='f'&&wr&&k=="tmp")&&ffail("close:tmp",{"EIO","EINTR"}); int e=errno; Inode*x=f?W->fs.byino(OF(oi).ino):nullptr; bool lost=x&&x->un.size(); putofd(oi); if(f) { if(lost) orc_save_step("close","err"); return SETE(e);} return 0; }
extern "C" int close(int fd){ if(!IND) return (int)rse(SYS_close,fd); SEAM("close"); return v_close(fd); }
extern "C" int close_range(unsigned a,unsigned b,int fl) noexcept { if(!IND) return (int)rse(SYS_close_range,a,b,fl); SEAM("close"); vector<int> v; for(auto&x:CUR().fdt) if((unsigned)x.first>=a&&(unsigned)x.first<=b) v.push_back(x.first); for(int x:v) v_close(x); return 0; }

static ssize_t v_read_at(Ofd&o,int fd,char*b,size_t n,i64 off,bool adv){ string e; W->fault_path=o.path;
  if(o.kind=='f'||o.kind=='d'){ if(o.kind=='d') return SETE(EISDIR); if((o.flags&O_ACCMODE)==O_WRONLY) return SETE(EBADF); string k=kind_of(o.path); size_t lim=n; if(k=="st"||k=="conf"||k=="log"||k=="app"){ if(fault("read:"+k,{"EIO","EINTR","short"},e)){ if(e=="short") lim=n>1?1+(mix64(W->seam)%(n-1)):n; else { return SETE(errno_of(e)); } } }
    Inode*x=W->fs.byino(o.ino); if(!x) return SETE(EIO); i64 sz=x->big?(i64)x->size:(i64)x->data.size(); if(off>=sz) return 0; size_t m=(size_t)(sz-off)<lim?(size_t)(sz-off):lim; if(x->big) memset(b,0,m); else memcpy(b,x->data.data()+off,m); if(adv) o.off=off+m; return m; }
  if(o.kind=='s'||o.kind=='m'){ string k=kind_of(o.path); size_t lim=n; if(fault("read:"+k,{"EIO","EINTR","ESRCH"},e)){ if(k=="maps") orc_maps_read_fault(); if(o.mm<=-100) orc_battery_probe(o.path,"",false); if(k=="meminfo"||k=="vmstat") orc_meminfo("",o.path); return SETE(errno_of(e)); }
    if(o.kind=='m'){ if(!W->mms[o.mm].alive) return 0; if(lim>4096) lim=4096; if(off<(i64)o.content.size()){ // whole lines only, like the kernel
        size_t m=o.content.size()-off<lim?o.content.size()-off:lim; if(off+m<o.content.size()){ size_t nl=o.content.rfind('\n',off+m-1); if(nl!=string::npos&&(i64)nl>=off) m=nl-off+1; } memcpy(b,o.content.data()+off,m); if(adv)o.off=off+m; return m; } return 0; }
    if(o.mm<=-100&&off==0) orc_battery_probe(o.path,o.content,true);
    if(off>=(i64)o.content.size()) return 0; size_t m=o.content.size()-off<lim?o.content.size()-off:lim; memcpy(b,o.content.data()+off,m); if(adv)o.off=off+m; return m; }
  if(o.kind=='n') return 0; if(o.kind=='t') return 0;
  if(o.kind=='e'){ if(n<8) return SETE(EINVAL); if(!o.ev) return SETE(EAGAIN); memcpy(b,&o.ev,8); o.ev=0; return 8; }
  if(o.kind=='p'){ Pipe&p=W->pipes[o.pipe]; if(p.buf.empty()){ if(!p.w) return 0; if(o.flags&O_NONBLOCK) return SETE(EAGAIN); W->life.note="blocking read on an empty pipe"; end_life(E_DEADLOCK,0);} size_t m=p.buf.size()<n?p.buf.size():n; memcpy(b,p.buf.data(),m); p.buf.erase(0,m); return m; }
  return SETE(EBADF); }
static ssize_t v_read(int fd,void*b,size_t n){ Ofd*o=ofd_of(fd); if(!o) return SETE(EBADF); if(o->kind=='t'&&fd==0) return 0; ssize_t r=v_read_at(*o,fd,(char*)b,n,o->off,true); int e=errno; trace("read %d %zu -> %zd",fd,n,r); errno=e; return r; }
extern "C" ssize_t read(int fd,void*b,size_t n){ if(!IND) return rse(SYS_read,fd,(long)b,n); SEAM("read"); return v_read(fd,b,n); }
extern "C" ssize_t __read_chk(int fd,void*b,size_t n,size_t){ return read(fd,b,n); }
extern "C" ssize_t pread(int fd,void*b,size_t n,off_t off){ if(!IND) return rse(SYS_pread64,fd,(long)b,n,off); SEAM("read"); Ofd*o=ofd_of(fd); if(!o) return SETE(EBADF); return v_read_at(*o,fd,(char*)b,n,off,false); }
extern "C" ssize_t pread64(int fd,void*b,size_t n,off64_t off){ return pread(fd,b,n,off); }

static i64 disk_free(){ if(W->fs.capacity<0) return 1ll<<60; i64 u=0; for(auto&i:W->fs.ns){ Inode*n=W->fs.byino(i.second); if(n&&n->type=='f'&&!n->big&&(!i.first.compare(0,5,"/var/")||!i.first.compare(0,5,"/srv/"))) u+=(n->data.size()+511)/512*512; } return W->fs.capacity-u; }
static ssize_t v_write_at(Ofd&o,int fd,const char*b,size_t n,i64 off,bool adv){ string e;
  if(o.kind=='f'){ if((o.flags&O_ACCMODE)==O_RDONLY) return SETE(EBADF); string k=kind_of(o.path); size_t m=n; Inode*x=W->fs.byino(o.ino); if(!x) return SETE(EIO); 
    if(fault("write:"+k,k=="log"?vector<string>{"ENOSPC","EIO","EINTR"}:vector<string>{"ENOSPC","EIO","EINTR","short","EDQUOT"},e)){ if(e=="short") m=n>1?1+(mix64(W->seam*7)%(n-1)):n; else { int en=errno_of(e); if(k=="tmp") orc_save_step("write",e); if(k=="log") orc_log(o.ino,string(b,n),true); return SETE(en);} }
    if(o.flags&O_APPEND) off=x->data.size(); i64 grow=off+(i64)m-(i64)x->data.size(); if(grow>0){ i64 fr=disk_free(); if(grow>fr){ i64 can=(i64)m-(grow-fr); if(can<=0){ stat_inc("fault.disk_full"); orc_fault("write:"+k,"ENOSPC"); if(k=="tmp") orc_save_step("write","ENOSPC"); if(k=="log") orc_log(o.ino,string(b,n),true); return SETE(ENOSPC);} m=(size_t)can; stat_inc("fault.disk_full_short"); orc_fault("write:"+k,"short"); } }
    if(k=="log"||fd==1||fd==2){ if(off!=(i64)x->data.size()) violation("C20","log-overwrite","a log message overwrites earlier log contents instead of being appended"); orc_log(o.ino,string(b,m),false); } else orc_mod("write",o.path,o.flags,o.ino);
    W->fs.wr(*x,off,b,m,W->now); if(adv) o.off=off+m; return m; }
  if(o.kind=='n') return n; if(o.kind=='t'){ W->console.append(b,n); if(W->console.size()>400000) W->console.erase(0,200000); orc_log(0,string(b,n),false); return n; }
  if(o.kind=='e'){ u64 v=0; memcpy(&v,b,n<8?n:8); o.ev+=v; return 8; }
  if(o.kind=='P'){ Pipe&p=W->pipes[o.pipe]; if(!p.r){ send_signal(SIGPIPE); return SETE(EPIPE);} if(p.buf.size()+n>65536){ if(o.flags&O_NONBLOCK) return SETE(EAGAIN); W->life.note="blocking write to a full pipe nobody reads"; end_life(E_DEADLOCK,0);} p.buf.append(b,n); return n; }
  return SETE(EBADF); }
static ssize_t v_write(int fd,const void*b,size_t n){ Ofd*o=ofd_of(fd); if(!o){ if(fd==1||fd==2) orc_log(0,string((const char*)b,n),true); return SETE(EBADF);} ssize_t r=v_write_at(*o,fd,(const char*)b,n,o->off,true); int e=errno; if(W->logging&&(fd==1||fd==2)) W->log.push_back("      | "+esc(string((const char*)b,n))); trace("write %d %zu -> %zd %llx",fd,n,r,(unsigned long long)(fd==1||fd==2?0:hstr(string((const char*)b,n)))); errno=e; return r; }
extern "C" ssize_t write(int fd,const void*b,size_t n){ if(!IND) return rse(SYS_write,fd,(long)b,n); SEAM("write"); return v_write(fd,b,n); }
extern "C" ssize_t pwrite(int fd,const void*b,size_t n,off_t off){ if(!IND) return rse(SYS_pwrite64,fd,(long)b,n,off); SEAM("write"); Ofd*o=ofd_of(fd); if(!o) return SETE(EBADF); return v_write_at(*o,fd,(const char*)b,n,off,false); }
extern "C" ssize_t pwrite64(int fd,const void*b,size_t n,off64_t off){ return pwrite(fd,b,n,off); }
extern "C" ssize_t writev(int fd,const struct iovec*v,int c){ if(!IND) return rse(SYS_writev,fd,(long)v,c); SEAM("write"); ssize_t t=0; for(int i=0;i<c;i++){ ssize_t r=v_write(fd,v[i].iov_base,v[i].iov_len); if(r<0) return t?t:r; t+=r; if((size_t)r<v[i].iov_len) break; } return t; }
static i64 v_lseek(int fd,i64 off,int wh){ Ofd*o=ofd_of(fd); if(!o) return SETE(EBADF); if(o->kind=='p'||o->kind=='P'||o->kind=='e'||o->kind=='t') return SETE(ESPIPE); i64 sz=0; if(o->kind=='f'){ Inode*x=W->fs.byino(o->ino); sz=x->big?x->size:x->data.size(); } else sz=o->content.size(); i64 n=wh==SEEK_SET?off:wh==SEEK_CUR?o->off+off:sz+off; if(n<0) return SETE(EINVAL); o->off=n; return n; }
extern "C" off_t lseek(int fd,off_t o,int w) noexcept { if(!IND) return rse(SYS_lseek,fd,o,w); SEAM("lseek"); return v_lseek(fd,o,w); }
extern "C" off64_t lseek64(int fd,off64_t o,int w) noexcept { return lseek(fd,o,w); }
static int v_fsync(int fd,const char*nm){ Ofd*o=ofd_of(fd); if(!o) return SETE(EBADF); string k=kind_of(o->path); if(o->kind=='p'||o->kind=='e'||o->kind=='t'||o->kind=='n') return SETE(EINVAL); if(ffail("fsync:"+k,{"EIO","ENOSPC"})){ int e=errno; if(k=="tmp") orc_save_step("fsync","err"); Inode*x=W->fs.byino(o->ino); if(x) { x->un.clear(); x->dirty_since=-1; } trace("%s failed",nm); return SETE(e);} Inode*x=W->fs.byino(o->ino); if(o->kind=='f'&&x){ W->fs.sync_inode(*x);} else W->fs.commit_all(); stat_inc("fsyncs"); trace("%s %d",nm,fd); return 0; }
extern "C" int fsync(int fd){ if(!IND) return (int)rse(SYS_fsync,fd); SEAM("fsync"); return v_fsync(fd,"fsync"); }
extern "C" int fdatasync(int fd){ if(!IND) return (int)rse(SYS_fdatasync,fd); SEAM("fsync"); return v_fsync(fd,"fdatasync"); }
extern "C" void sync(void) noexcept { if(!IND){ return;} SEAM("sync"); for(auto&i:W->fs.in) if(i.second.type=='f'&&!i.second.big){ i.second.dur=i.second.data; i.second.un.clear(); i.second.dirty_since=-1; } W->fs.commit_all(); }
extern "C" int syncfs(int fd) noexcept { sync(); return 0; }
extern "C" int ftruncate(int fd,off_t n) noexcept { if(!IND) return (int)rse(SYS_ftruncate,fd,n); SEAM("ftruncate"); Ofd*o=ofd_of(fd); if(!o||o->kind!='f') return SETE(EBADF); Inode*x=W->fs.byino(o->ino); orc_mod("truncate",o->path,0,o->ino); W->fs.trunc(*x,n,W->now); return 0; }
extern "C" int ftruncate64(int fd,off64_t n) noexcept { return ftruncate(fd,n); }
extern "C" int truncate(const char*p,off_t n) noexcept { if(!IND) return (int)rse(SYS_truncate,(long)p,n); SEAM("truncate"); string q=absp(p); Inode*x=W->fs.get(q); if(!x) return SETE(ENOENT); orc_mod("truncate",q,0,x->ino); W->fs.trunc(*x,n,W->now); return 0; }
extern "C" int fallocate64(int fd,int m,off64_t a,off64_t l){ if(!IND) return (int)rse(SYS_fallocate,fd,m,a,l); return SETE(EOPNOTSUPP); }
extern "C" int fallocate(int fd,int m,off_t a,off_t l){ return fallocate64(fd,m,a,l); }
extern "C" int posix_fallocate(int,off_t,off_t){ return EOPNOTSUPP; }

// ------------------------------------------------------------------ names
static int v_rename(const char*a0,const char*b0){ string a=absp(a0),b=absp(b0); string k=kind_of(b); int err=0; anchor("RENAME"); if(ffail("rename:"+(kind_of(a)=="tmp"?string("tmp"):k),{"EIO","ENOSPC","EACCES","EBUSY","EROFS"})) err=errno; else if(!W->fs.ns.count(a)) err=ENOENT; else if(!W->fs.isdir(dirname_of(b))) err=ENOENT; else if(W->fs.isdir(b)) err=EISDIR;
  trace("rename %s %s %s",esc(a).c_str(),esc(b).c_str(),err?strerror(err):""); if(err){ orc_save_step("rename",strerror(err)); return SETE(err);} u64 ino=W->fs.ns[a]; orc_mod("rename-from",a,0,ino); orc_mod("rename-to",b,0,ino); W->fs.rename(a,b,W->now); if(k=="st"){ Inode*n=W->fs.byino(ino); orc_state_renamed(n->type=='l'?"":n->data,a); anchor("RENAMED"); } return 0; }
extern "C" int rename(const char*a,const char*b) noexcept { if(!IND) return (int)rse(SYS_rename,(long)a,(long)b); SEAM("rename"); return v_rename(a,b); }
extern "C" int renameat(int d,const char*a,int e,const char*b) noexcept { if(!IND) return (int)rse(SYS_renameat,d,(long)a,e,(long)b); SEAM("rename"); return v_rename(atpath(d,a).c_str(),atpath(e,b).c_str()); }
extern "C" int renameat2(int d,const char*a,int e,const char*b,unsigned f) noexcept { if(!IND) return (int)rse(SYS_renameat2,d,(long)a,e,(long)b,f); SEAM("rename"); return v_rename(atpath(d,a).c_str(),atpath(e,b).c_str()); }
static int v_unlink(const string&p){ string k=kind_of(p); int err=0; if(ffail("unlink:"+k,{"EIO","EACCES","EBUSY"})) err=errno; else if(!W->fs.ns.count(p)) err=ENOENT; else if(W->fs.isdir(p)) err=EISDIR; trace("unlink %s %s",esc(p).c_str(),err?strerror(err):""); if(err&&err!=ENOENT&&k=="tmp") orc_tmp_stuck(); if(err) return SETE(err); orc_mod("unlink",p,0,W->fs.ns[p]); W->fs.unlink(p,W->now); return 0; }
extern "C" int unlink(const char*p) noexcept { if(!IND) return (int)rse(SYS_unlink,(long)p); SEAM("unlink"); return v_unlink(absp(p)); }
extern "C" int unlinkat(int d,const char*p,int f) noexcept { if(!IND) return (int)rse(SYS_unlinkat,d,(long)p,f); SEAM("unlink"); return v_unlink(absp(atpath(d,p).c_str())); }
extern "C" int remove(const char*p) noexcept { if(!IND) return (int)rse(SYS_unlink,(long)p); SEAM("unlink"); return v_unlink(absp(p)); }
extern "C" int link(const char*a,const char*b) noexcept { if(!IND) return (int)rse(SYS_link,(long)a,(long)b); SEAM("link"); string x=absp(a),y=absp(b); if(!W->fs.ns.count(x)) return SETE(ENOENT); if(W->fs.ns.count(y)) return SETE(EEXIST); orc_mod("link",y,0,W->fs.ns[x]); W->fs.ns[y]=W->fs.ns[x]; W->fs.journal.push_back({'c',y,"",W->fs.ns[x],W->now}); return 0; }
extern "C" int symlink(const char*a,const char*b) noexcept { if(!IND) return (int)rse(SYS_symlink,(long)a,(long)b); SEAM("symlink"); string y=absp(b); orc_mod("symlink",y,0,0); u64 i=W->fs.create(y,'l',"",0777,false); W->fs.in[i].link=a; return 0; }
extern "C" int mkdir(const char*p,mode_t m) noexcept { if(!IND) return (int)rse(SYS_mkdir,(long)p,m); SEAM("mkdir"); string y=absp(p); if(W->fs.ns.count(y)) return SETE(EEXIST); orc_mod("mkdir",y,0,0); W->fs.create(y,'d',"",m,false); return 0; }
extern "C" int rmdir(const char*p) noexcept { if(!IND) return (int)rse(SYS_rmdir,(long)p); SEAM("rmdir"); orc_mod("rmdir",absp(p),0,0); return SETE(ENOTEMPTY); }
static int v_chmod(const string&p,u32 m){ Inode*n=W->fs.get(p); if(!n) return SETE(ENOENT); orc_mod("chmod",p,(int)m,n->ino); n->mode=m&07777; return 0; }
extern "C" int chmod(const char*p,mode_t m) noexcept { if(!IND) return (int)rse(SYS_chmod,(long)p,m); SEAM("chmod"); return v_chmod(absp(p),m); }
extern "C" int fchmod(int fd,mode_t m) noexcept { if(!IND) return (int)rse(SYS_fchmod,fd,m); SEAM("chmod"); Ofd*o=ofd_of(fd); if(!o) return SETE(EBADF); return v_chmod(o->path,m); }
extern "C" int chown(const char*p,uid_t,gid_t) noexcept { if(!IND) return SETE(EPERM); SEAM("chown"); orc_mod("chown",absp(p),0,0); return 0; }
extern "C" int fchown(int fd,uid_t,gid_t) noexcept { if(!IND) return SETE(EPERM); SEAM("chown"); Ofd*o=ofd_of(fd); orc_mod("chown",o?o->path:"?",0,0); return 0; }
extern "C" mode_t umask(mode_t m) noexcept { if(!IND) return (mode_t)rs(SYS_umask,m); SEAM("umask"); int o=CUR().umask; CUR().umask=m&0777; return o; }
extern "C" int chdir(const char*p) noexcept { if(!IND) return (int)rse(SYS_chdir,(long)p); SEAM("chdir"); string q=absp(p); if(ffail("chdir",{"EACCES","EIO"})) return -1; if(!W->fs.isdir(q)) return SETE(ENOENT); CUR().cwd=q; trace("chdir %s",q.c_str()); return 0; }
extern "C" char* getcwd(char*b,size_t n) noexcept { if(!IND){ long r=rse(SYS_getcwd,(long)b,n); return r<0?nullptr:b; } SEAM("getcwd"); string c=CUR().cwd; if(!b){ if(!n) n=c.size()+1; g_in_daemon=true; b=(char*)malloc(n); g_in_daemon=false; } if(c.size()+1>n){ errno=ERANGE; return nullptr;} memcpy(b,c.c_str(),c.size()+1); return b; }
extern "C" char* __getcwd_chk(char*b,size_t n,size_t) { return getcwd(b,n); }
extern "C" char* get_current_dir_name(void) noexcept { return getcwd(nullptr,0); }
extern "C" char* realpath(const char*p,char*out) noexcept { if(!IND){ static auto f=nxt<char*(*)(const char*,char*)>("realpath"); return f(p,out);} SEAM("realpath"); string q=absp(p),real; Inode*n=W->fs.get(q,true,&real); if(!n){ errno=ENOENT; return nullptr; } if(!out){ g_in_daemon=true; out=(char*)malloc(real.size()+1); g_in_daemon=false; } strcpy(out,real.c_str()); return out; }
extern "C" char* canonicalize_file_name(const char*p) noexcept { return realpath(p,nullptr); }

// ------------------------------------------------------------------ stat family
static int fill(const string&p,Inode*n,struct stat*s){ memset(s,0,sizeof *s); s->st_dev=0x801; s->st_ino=ino_shown(n->ino); s->st_mode=n->mode|(n->type=='d'?S_IFDIR:n->type=='l'?S_IFLNK:n->type=='s'?S_IFCHR:n->type=='p'?S_IFIFO:S_IFREG); s->st_nlink=1; s->st_uid=n->uid; s->st_size=n->big?n->size:n->data.size(); s->st_blksize=blksize(); s->st_blocks=(s->st_size+511)/512; s->st_mtime=(W->wall0+n->mtime)/1000000; s->st_atime=s->st_ctime=s->st_mtime; return 0; }
static int v_stat(const string&p,struct stat*s,bool follow){ string k=kind_of(p); int err=0; memset(s,0,sizeof *s);
  if(CUR().helper) orc_helper_call("stat",p);
  if(k=="bat"){ string b=p; size_t x=b.find("/BAT"); if(x!=string::npos&&b.size()>7&&b.substr(b.size()-7)=="/status"&&W->battery.count(atoi(b.c_str()+x+4))){ s->st_mode=S_IFREG|0444; s->st_size=4096; s->st_nlink=1; orc_battery_probe(p,"",true); trace("stat %s",p.c_str()); return 0; } orc_battery_probe(p,"-",false); trace("stat %s enoent",p.c_str()); return SETE(ENOENT); }
  if(k=="meminfo"||k=="vmstat"){ s->st_mode=S_IFREG|0444; s->st_nlink=1; return 0; } if(p=="/proc"){ s->st_mode=S_IFDIR|0555; return 0; }
  if(k=="procx"||k=="maps"){ int pid; string rest=pidpart(p,pid); if(pid>0&&(W->procs.count(pid)||is_daemon_pid(pid))){ s->st_mode=rest.empty()?S_IFDIR|0555:S_IFREG|0444; s->st_nlink=1; return 0;} return SETE(ENOENT); }
  if(p=="/dev/null"){ s->st_mode=S_IFCHR|0666; s->st_nlink=1; return 0; }
  if(p.size()>=4096) err=ENAMETOOLONG; else if(ffail("stat:"+k,k=="app"?vector<string>{"EACCES","EIO","ESTALE","ELOOP","ENOMEM"}:vector<string>{"EACCES","EIO"})) err=errno; else { string real; Inode*n=W->fs.get(p,follow,&real); if(!n){ err=ENOENT; string d=dirname_of(real); while(d.size()>1&&!W->fs.ns.count(d)) d=dirname_of(d); Inode*dn=W->fs.get(d); if(dn&&dn->type!='d') err=ENOTDIR; } else { fill(p,n,s);} }
  trace("stat %s %s",esc(p).c_str(),err?strerror(err):""); { bool reg=!err&&S_ISREG(s->st_mode); int te=err; if(!follow&&!err&&S_ISLNK(s->st_mode)){ Inode*n=W->fs.get(p,true); te=n?0:ENOENT; reg=n&&n->type=='f'; } orc_stat(p,te,reg); } if(err) return SETE(err); return 0; }
extern "C" int stat(const char*p,struct stat*s) noexcept { if(!IND) return (int)rse(SYS_stat,(long)p,(long)s); SEAM("stat"); return v_stat(absp(p),s,true); }
extern "C" int stat64(const char*p,struct stat64*s) noexcept { return stat(p,(struct stat*)s); }
extern "C" int lstat(const char*p,struct stat*s) noexcept { if(!IND) return (int)rse(SYS_lstat,(long)p,(long)s); SEAM("stat"); return v_stat(absp(p),s,false); }
extern "C" int lstat64(const char*p,struct stat64*s) noexcept { return lstat(p,(struct stat*)s); }
static int v_fstat(int fd,struct stat*s){ Ofd*o=ofd_of(fd); if(!o) return SETE(EBADF); memset(s,0,sizeof *s); if(o->kind=='f'||o->kind=='d'){ if(o->ino==0){ s->st_mode=S_IFDIR|0555; return 0; } string k=kind_of(o->path); if(ffail("fstat:"+k,{"EIO","ESTALE"})) return -1; Inode*n=W->fs.byino(o->ino); return fill(o->path,n,s);} if(o->kind=='s'||o->kind=='m'){ s->st_mode=S_IFREG|0444; s->st_size=o->mm<=-100?4096:0; s->st_nlink=1; return 0; } s->st_mode=o->kind=='p'||o->kind=='P'?S_IFIFO:S_IFCHR; return 0; }
extern "C" int fstat(int fd,struct stat*s) noexcept { if(!IND) return (int)rse(SYS_fstat,fd,(long)s); SEAM("fstat"); return v_fstat(fd,s); }
extern "C" int fstat64(int fd,struct stat64*s) noexcept { return fstat(fd,(struct stat*)s); }
extern "C" int fstatat(int d,const char*p,struct stat*s,int f) noexcept { if(!IND) return (int)rse(SYS_newfstatat,d,(long)p,(long)s,f); SEAM("stat"); if((f&AT_EMPTY_PATH)&&!*p) return v_fstat(d,s); return v_stat(absp(atpath(d,p).c_str()),s,!(f&AT_SYMLINK_NOFOLLOW)); }
extern "C" int fstatat64(int d,const char*p,struct stat64*s,int f) noexcept { return fstatat(d,p,(struct stat*)s,f); }
extern "C" int statx(int d,const char*p,int f,unsigned m,struct statx*x) noexcept { if(!IND) return (int)rse(SYS_statx,d,(long)p,f,m,(long)x); SEAM("stat"); struct stat s; int r=(f&AT_EMPTY_PATH)&&!*p? v_fstat(d,&s): v_stat(absp(atpath(d,p).c_str()),&s,!(f&AT_SYMLINK_NOFOLLOW)); if(r<0) return r; memset(x,0,sizeof *x); x->stx_mask=STATX_BASIC_STATS; x->stx_mode=s.st_mode; x->stx_ino=s.st_ino; x->stx_size=s.st_size; x->stx_nlink=1; x->stx_blksize=blksize(); x->stx_mtime.tv_sec=s.st_mtime; return 0; }
static int v_access(const string&p,int m){ struct stat s; return v_stat(p,&s,true); }
extern "C" int access(const char*p,int m) noexcept { if(!IND) return (int)rse(SYS_access,(long)p,m); SEAM("access"); return v_access(absp(p),m); }
extern "C" int euidaccess(const char*p,int m) noexcept { return access(p,m); }
extern "C" int faccessat(int d,const char*p,int m,int f) noexcept { if(!IND) return (int)rse(SYS_faccessat,d,(long)p,m); SEAM("access"); return v_access(absp(atpath(d,p).c_str()),m); }
static ssize_t v_readlink(const string&p,char*b,size_t n){ string k=kind_of(p); if(k=="procx"){ int pid; string rest=pidpart(p,pid); string t; int err=0; if(rest!="exe"){ if(p=="/proc/self"){ t=fmt("%d",CUR().pid);} else err=ENOENT; } else { anchor("READLINK"); if(ffail("readlink:exe",{"EACCES","ENOENT","ESRCH"})) err=errno; else if(is_daemon_pid(pid)) t="/usr/sbin/preload"; else { auto i=W->procs.find(pid); if(i==W->procs.end()) err=ENOENT; else if(i->second.kind=='k'||i->second.kind=='z') err=ENOENT; else if(i->second.kind=='d') err=EACCES; else t=i->second.exe; } if(!err&&t.size()>4095) err=ENAMETOOLONG; }
    string res=err?"":t.substr(0,n); if(rest=="exe") orc_proc_entry(pid,t,err?"err":res); trace("readlink %s -> %s",p.c_str(),err?strerror(err):esc(res).c_str()); if(err) return SETE(err); memcpy(b,res.data(),res.size()); return res.size(); }
  Inode*x=W->fs.get(p,false); if(!x) return SETE(ENOENT); if(x->type!='l') return SETE(EINVAL); size_t m=x->link.size()<n?x->link.size():n; memcpy(b,x->link.data(),m); return m; }
extern "C" ssize_t readlink(const char*p,char*b,size_t n) noexcept { if(!IND) return rse(SYS_readlink,(long)p,(long)b,n); SEAM("readlink"); return v_readlink(absp(p),b,n); }
extern "C" ssize_t readlinkat(int d,const char*p,char*b,size_t n) noexcept { if(!IND) return rse(SYS_readlinkat,d,(long)p,(long)b,n); SEAM("readlink"); return v_readlink(absp(atpath(d,p).c_str()),b,n); }
extern "C" ssize_t __readlink_chk(const char*p,char*b,size_t n,size_t) { return readlink(p,b,n); }

// ------------------------------------------------------------------ directories
struct FakeDir { u64 magic; char path[512]; int stage; int lastpid; size_t idx; int fd; struct dirent de; };
static const u64 FDM=0xD1D1D1D1F00DFEEDull;
static void* dmalloc(size_t n){ g_in_daemon=true; void*p=malloc(n); g_in_daemon=false; return p; }
static void dfree(void*p){ g_in_daemon=true; free(p); g_in_daemon=false; }
static DIR* v_opendir(const string&p,int fd){ if(p=="/proc") { anchor("SCAN"); } if(ffail("opendir:"+kind_of(p),{"EMFILE","ENOMEM","EACCES","ENFILE"})){ int e=errno; trace("opendir failed"); if(p=="/proc") orc_scan_failed(); errno=e; return nullptr; } Inode*n=W->fs.get(p); if(p!="/proc"&&p.compare(0,4,"/sys")&&(!n||n->type!='d')){ errno=n?ENOTDIR:ENOENT; return nullptr; }
  FakeDir*d=(FakeDir*)dmalloc(sizeof *d); memset(d,0,sizeof *d); d->magic=FDM; snprintf(d->path,sizeof d->path,"%s",p.c_str()); d->fd=fd; CUR().ndirs++; trace("opendir %s",p.c_str()); if(p=="/proc") orc_scan_begin(); if(!p.compare(0,4,"/sys")) orc_battery_probe(p,"-",false); return (DIR*)d; }
extern "C" DIR* opendir(const char*p){ if(!IND){ static auto f=nxt<DIR*(*)(const char*)>("opendir"); return f(p);} SEAM("opendir"); return v_opendir(absp(p),-1); }
extern "C" DIR* fdopendir(int fd){ if(!IND){ static auto f=nxt<DIR*(*)(int)>("fdopendir"); return f(fd);} SEAM("opendir"); Ofd*o=ofd_of(fd); if(!o){ errno=EBADF; return nullptr;} return v_opendir(o->path,fd); }
static struct dirent* v_readdir(FakeDir*d){ string p=d->path; string name; int type=DT_DIR; if(p=="/proc"){ static const char*pre[]={".","..","acpi","cpuinfo","fb","meminfo","self","thread-self","version","7up","sys"}; 
    if(d->stage<11){ name=pre[d->stage++]; } else { // next live pid, in numerical order, as the kernel does
      int best=-1; for(auto&x:W->procs) if(x.first>d->lastpid){ best=x.first; break; } for(int i=0;i<40;i++) if(W->vp_used[i]&&W->vp[i].pid>d->lastpid&&(best<0||W->vp[i].pid<best)) best=W->vp[i].pid; 
      string e; if(best>=0&&fault("readdir:proc",{"EIO"},e)){ orc_scan_cut(); errno=errno_of(e); return nullptr; }
      if(best<0){ orc_scan_end(); return nullptr; } d->lastpid=best; name=fmt("%d",best); } }
  else { vector<string> v={".",".."}; string pre=p=="/"?"/":p+"/"; if(!p.compare(0,4,"/sys")){ for(auto&b:W->battery) v.push_back(fmt("BAT%d",b.first)); } else for(auto&x:W->fs.ns) if(x.first.size()>pre.size()&&!x.first.compare(0,pre.size(),pre)&&x.first.find('/',pre.size())==string::npos) v.push_back(x.first.substr(pre.size())); if(d->idx>=v.size()) return nullptr; name=v[d->idx++]; type=DT_UNKNOWN; }
  memset(&d->de,0,sizeof d->de); d->de.d_ino=1+hstr(name)%100000; d->de.d_type=type; d->de.d_reclen=sizeof d->de; snprintf(d->de.d_name,sizeof d->de.d_name,"%s",name.c_str()); return &d->de; }
extern "C" struct dirent* readdir(DIR*d){ if(!IND){ static auto f=nxt<struct dirent*(*)(DIR*)>("readdir"); return f(d);} SEAM("readdir"); if(((FakeDir*)d)->magic!=FDM){ errno=EBADF; return nullptr;} return v_readdir((FakeDir*)d); }
extern "C" struct dirent64* readdir64(DIR*d){ return (struct dirent64*)readdir(d); }
extern "C" int closedir(DIR*d){ if(!IND){ static auto f=nxt<int(*)(DIR*)>("closedir"); return f(d);} SEAM("closedir"); FakeDir*x=(FakeDir*)d; if(x->magic!=FDM) return SETE(EBADF); x->magic=0; CUR().ndirs--; if(x->fd>=0) v_close(x->fd); if(!strcmp(x->path,"/proc")){ trace("closedir"); orc_scan_end(); } dfree(x); return 0; }
extern "C" void rewinddir(DIR*d) noexcept { if(!IND){ static auto f=nxt<void(*)(DIR*)>("rewinddir"); f(d); return;} SEAM("rewinddir"); FakeDir*x=(FakeDir*)d; x->stage=0; x->lastpid=0; x->idx=0; }
extern "C" int dirfd(DIR*d) noexcept { if(!IND){ static auto f=nxt<int(*)(DIR*)>("dirfd"); return f(d);} FakeDir*x=(FakeDir*)d; if(x->fd<0){ SEAM("dirfd"); x->fd=v_open(x->path,O_RDONLY|O_DIRECTORY,0); } return x->fd; }

// ------------------------------------------------------------------ stdio on virtual descriptors
struct Ck { int fd; FILE*f; };
static ssize_t ck_read(void*c,char*b,size_t n){ bool d=g_in_daemon; if(!d) return 0; SEAM("read"); return v_read(((Ck*)c)->fd,b,n); }
static ssize_t ck_write(void*c,const char*b,size_t n){ if(!g_in_daemon){ raw_write(2,b,n); return n; } SEAM("write"); ssize_t r=v_write(((Ck*)c)->fd,b,n); return r<0?0:r; }
static int ck_seek(void*c,off64_t*o,int w){ if(!g_in_daemon) return -1; SEAM("lseek"); i64 r=v_lseek(((Ck*)c)->fd,*o,w); if(r<0) return -1; *o=r; return 0; }
static int ck_close(void*c){ if(!g_in_daemon) return 0; SEAM("close"); int fd=((Ck*)c)->fd; CUR().nfiles--; g_in_daemon=true; free(c); g_in_daemon=false; return v_close(fd); }
static vector<Ck*>*ckl=nullptr;
static FILE* ck_open(int fd,const char*mode){ cookie_io_functions_t io={ck_read,ck_write,ck_seek,ck_close}; g_in_daemon=true; Ck*c=(Ck*)malloc(sizeof *c); c->fd=fd; FILE*f=fopencookie(c,mode,io); g_in_daemon=false; c->f=f; if(!f) return nullptr; CUR().nfiles++; if(ckl){ for(auto&x:*ckl) if(x==c){ x=c; return f; } ckl->push_back(c);} return f; }
static int modeflags(const char*m){ int fl=0; bool plus=strchr(m,'+'); switch(*m){ case 'r': fl=plus?O_RDWR:O_RDONLY; break; case 'w': fl=(plus?O_RDWR:O_WRONLY)|O_CREAT|O_TRUNC; break; case 'a': fl=(plus?O_RDWR:O_WRONLY)|O_CREAT|O_APPEND; break; } if(strchr(m,'x')) fl|=O_EXCL; if(strchr(m,'e')) fl|=O_CLOEXEC; return fl; }
extern "C" FILE* fopen(const char*p,const char*m){ if(!IND){ static auto f=nxt<FILE*(*)(const char*,const char*)>("fopen"); return f(p,m);} SEAM("fopen"); int fd=v_open(p,modeflags(m),0666); if(fd<0) return nullptr; return ck_open(fd,m); }
extern "C" FILE* fopen64(const char*p,const char*m){ return fopen(p,m); }
extern "C" FILE* fdopen(int fd,const char*m) noexcept { if(!IND){ static auto f=nxt<FILE*(*)(int,const char*)>("fdopen"); return f(fd,m);} SEAM("fdopen"); if(!ofd_of(fd)){ errno=EBADF; return nullptr; } return ck_open(fd,m); }
static int ck_fd(FILE*f){ if(f==stdin) return 0; if(f==stdout) return 1; if(f==stderr) return 2; if(ckl) for(size_t i=ckl->size();i--;) if((*ckl)[i]->f==f) return (*ckl)[i]->fd; return -1; }
extern "C" int fileno(FILE*f) noexcept { if(!IND){ static auto g=nxt<int(*)(FILE*)>("fileno"); return g(f);} int r=ck_fd(f); if(r<0) errno=EBADF; return r; }
extern "C" int fileno_unlocked(FILE*f) noexcept { return fileno(f); }
extern "C" FILE* freopen(const char*p,const char*m,FILE*f){ if(!IND){ static auto g=nxt<FILE*(*)(const char*,const char*,FILE*)>("freopen"); return g(p,m,f);} g_in_daemon=true; fflush(f); SEAM("freopen"); int t=ck_fd(f); if(!p) return f; int fd=v_open(p,modeflags(m),0666); if(fd<0){ return nullptr; } if(t>=0&&fd!=t){ if(CUR().fdt.count(t)) v_close(t); CUR().fdt[t]=CUR().fdt[fd]; CUR().fdt.erase(fd);} return f; }
extern "C" FILE* freopen64(const char*p,const char*m,FILE*f){ return freopen(p,m,f); }
extern "C" int isatty(int fd) noexcept { if(!IND) return 0; return 0; }
void setup_stdio(){ cookie_io_functions_t io={ck_read,ck_write,ck_seek,ck_close}; static Ck c0{0,0},c1{1,0},c2{2,0}; ckl=new vector<Ck*>; FILE*i=fopencookie(&c0,"r",io),*o=fopencookie(&c1,"w",io),*e=fopencookie(&c2,"w",io); setvbuf(e,nullptr,_IONBF,0); setvbuf(o,nullptr,_IOFBF,4096); stdin=i; stdout=o; stderr=e; }
void restore_stderr_raw(){}

// ------------------------------------------------------------------ descriptors
static int v_dup(int fd,int from){ auto i=CUR().fdt.find(fd); if(i==CUR().fdt.end()) return SETE(EBADF); int n=newfd(i->second,from); if(n<0) return SETE(EMFILE); OF(i->second).refs++; return n; }
extern "C" int dup(int fd) noexcept { if(!IND) return (int)rse(SYS_dup,fd); SEAM("dup"); if(ffail("dup",{"EMFILE"})) return -1; return v_dup(fd,0); }
static int v_dup2(int a,int b){ auto i=CUR().fdt.find(a); if(i==CUR().fdt.end()) return SETE(EBADF); if(ffail("dup2",{"EBUSY","EINTR","EMFILE"})) return -1; if(a==b) return b; int o=i->second; if(CUR().fdt.count(b)){ int ob=CUR().fdt[b]; CUR().fdt.erase(b); putofd(ob);} CUR().fdt[b]=o; OF(o).refs++; trace("dup2 %d %d",a,b); return b; }
extern "C" int dup2(int a,int b) noexcept { if(!IND) return (int)rse(SYS_dup2,a,b); SEAM("dup2"); return v_dup2(a,b); }
extern "C" int dup3(int a,int b,int f) noexcept { if(!IND) return (int)rse(SYS_dup3,a,b,f); SEAM("dup2"); return v_dup2(a,b); }
static int v_pipe(int*p,int fl){ if(ffail("pipe",{"EMFILE","ENFILE"})) return -1; W->pipes.push_back(Pipe()); int id=(int)W->pipes.size()-1; W->pipes[id].r=W->pipes[id].w=1; int a=newofd(); OF(a).kind='p'; OF(a).pipe=id; OF(a).flags=fl; int fa=newfd(a); int b=newofd(); OF(b).kind='P'; OF(b).pipe=id; OF(b).flags=fl|O_WRONLY; int fb=newfd(b); p[0]=fa; p[1]=fb; trace("pipe %d %d",fa,fb); return 0; }
extern "C" int pipe(int*p) noexcept { if(!IND) return (int)rse(SYS_pipe,(long)p); SEAM("pipe"); return v_pipe(p,0); }
extern "C" int pipe2(int*p,int f) noexcept { if(!IND) return (int)rse(SYS_pipe2,(long)p,f); SEAM("pipe"); return v_pipe(p,f&O_NONBLOCK); }
extern "C" int eventfd(unsigned v,int f) noexcept { if(!IND) return (int)rse(SYS_eventfd2,v,f); SEAM("eventfd"); int o=newofd(); OF(o).kind='e'; OF(o).ev=v; OF(o).flags=f; return newfd(o); }
extern "C" int signalfd(int,const sigset_t*,int) noexcept { stat_inc("unmodelled.signalfd"); return SETE(ENOSYS); }
static int v_fcntl(int fd,int cmd,long arg){ Ofd*o=ofd_of(fd); if(!o) return SETE(EBADF); switch(cmd){ case F_GETFL: return o->flags; case F_SETFL: o->flags=(o->flags&(O_ACCMODE|O_CREAT))|((int)arg&~(O_ACCMODE|O_CREAT)); return 0; case F_GETFD: return CUR().cloexec[fd]?FD_CLOEXEC:0; case F_SETFD: CUR().cloexec[fd]=arg&FD_CLOEXEC; return 0; case F_DUPFD: case F_DUPFD_CLOEXEC: return v_dup(fd,(int)arg); case F_SETLK: case F_SETLKW: case F_OFD_SETLK: return 0; } return 0; }
extern "C" int fcntl(int fd,int cmd,...){ va_list ap; va_start(ap,cmd); long a=va_arg(ap,long); va_end(ap); if(!IND) return (int)rse(SYS_fcntl,fd,cmd,a); SEAM("fcntl"); return v_fcntl(fd,cmd,a); }
extern "C" int fcntl64(int fd,int cmd,...){ va_list ap; va_start(ap,cmd); long a=va_arg(ap,long); va_end(ap); if(!IND) return (int)rse(SYS_fcntl,fd,cmd,a); SEAM("fcntl"); return v_fcntl(fd,cmd,a); }
extern "C" int flock(int fd,int) noexcept { if(!IND) return 0; SEAM("flock"); return 0; }
extern "C" int ioctl(int fd,unsigned long rq,...) noexcept { va_list ap; va_start(ap,rq); long a=va_arg(ap,long); va_end(ap); if(!IND) return (int)rse(SYS_ioctl,fd,rq,a); SEAM("ioctl"); Ofd*o=ofd_of(fd); if(!o) return SETE(EBADF); if(rq==FIBMAP){ if(ffail("fibmap",{"EPERM","EINVAL","EIO"})) return -1; Inode*n=W->fs.byino(o->ino); if(!n) return SETE(EINVAL); if(W->plan.geti("nofibmap")) return SETE(EINVAL); int*b=(int*)a; *b=n->blk? (int)phys_block(*n,*b):0; trace("fibmap %s -> %d",esc(o->path).c_str(),*b); return 0; } if(rq==FIGETBSZ){ *(int*)a=(int)blksize(); return 0; } return SETE(ENOTTY); }

// ------------------------------------------------------------------ memory mapping and read-ahead
static int next_req_cycle(){ return W->cycle_no; }
static void add_req(Ofd&o,i64 off,i64 len,char how,bool ok){ Req r; r.life=W->life.idx; r.cycle=next_req_cycle(); r.pid=CUR().pid; r.helper=CUR().helper; r.path=o.path; r.off=off; r.len=len; r.how=how; r.ok=ok; r.seq=W->evseq++; r.t=W->now; r.ioprio=CUR().ioprio; W->reqs.push_back(r); trace("req %c %s %lld %lld %s",how,esc(o.path).c_str(),(long long)off,(long long)len,ok?"ok":"failed"); orc_req(r); }
extern "C" ssize_t readahead(int fd,off64_t off,size_t n) noexcept { if(!IND) return rse(SYS_readahead,fd,off,n); SEAM("readahead"); Ofd*o=ofd_of(fd); if(!o) return SETE(EBADF); anchor("READAHEAD"); if(CUR().helper&&o->kind!='f') orc_helper_call("readahead",o->path); if(o->kind!='f'){ return SETE(EINVAL);} Inode*n2=W->fs.byino(o->ino); if(n2&&n2->noreadahead){ const char*es[]={"EINVAL","ENOSYS","EOPNOTSUPP"}; int e=errno_of(es[o->ino%3]); trace("readahead unsupported"); stat_inc("fault.readahead_unsupported"); return SETE(e);} if(ffail("readahead",{"EIO","EINTR","EBADF","EINVAL"})){ int e=errno; trace("readahead failed"); if(e!=EINVAL) add_req(*o,off,(i64)n,'r',false); return SETE(e);} add_req(*o,off,(i64)n,'r',true); return 0; }
extern "C" void* mmap(void*a,size_t n,int pr,int fl,int fd,off_t off) noexcept { if(!IND||(fl&MAP_ANONYMOUS)){ long r=rse(SYS_mmap,(long)a,n,pr,fl,fd,off); if(IND&&r!=-1){ SEAM("mmap"); CUR().maps.push_back({(u64)r,n,-1,"",0,false}); } return (void*)r; } SEAM("mmap"); Ofd*o=ofd_of(fd); if(!o){ errno=EBADF; return MAP_FAILED; } if(off&4095||!n){ errno=EINVAL; return MAP_FAILED; } if(o->kind!='f'){ errno=ENODEV; return MAP_FAILED;} if(pr&PROT_WRITE&&(fl&MAP_SHARED)) orc_mod("mmap-write",o->path,0,o->ino); if(ffail("mmap:app",{"ENOMEM","ENODEV","EACCES"})){ trace("mmap failed"); return MAP_FAILED; } long r=rs(SYS_mmap,0,n,PROT_READ,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(r<0&&r>-4096){ errno=ENOMEM; return MAP_FAILED; } Inode*x=W->fs.byino(o->ino); if(x&&!x->big&&(u64)off<x->data.size()){ rs(SYS_mprotect,r,n,PROT_READ|PROT_WRITE); size_t m=x->data.size()-off<n?x->data.size()-off:n; memcpy((void*)r,x->data.data()+off,m); } CUR().maps.push_back({(u64)r,n,(int)CUR().fdt[fd],o->path,off,false}); trace("mmap %s %lld %zu",esc(o->path).c_str(),(long long)off,n); return (void*)r; }
extern "C" void* mmap64(void*a,size_t n,int pr,int fl,int fd,off64_t off) noexcept { return mmap(a,n,pr,fl,fd,off); }
extern "C" int munmap(void*a,size_t n) noexcept { if(!IND) return (int)rse(SYS_munmap,(long)a,n); SEAM("munmap"); auto&v=CUR().maps; for(size_t i=0;i<v.size();i++) if(v[i].addr==(u64)a){ u64 len=v[i].len; u64 rn=(n+4095)/4096*4096, rl=(len+4095)/4096*4096; if(rn>=rl) v.erase(v.begin()+i); else { v[i].addr+=rn; v[i].len-=rn; } break; } return (int)rse(SYS_munmap,(long)a,n); }
static int v_madvise(void*a,size_t n,int adv){ auto&v=CUR().maps; for(auto&m:v) if((u64)a>=m.addr&&(u64)a<m.addr+m.len&&!m.path.empty()){ if((u64)a&4095) return SETE(EINVAL); if(adv==MADV_WILLNEED||adv==MADV_POPULATE_READ){ Ofd o; o.path=m.path; bool bad=ffail("madvise:app",{"EIO","EAGAIN","ENOMEM"}); int e=errno; u64 end=(u64)a+n; if(end>m.addr+((m.len+4095)&~4095ull)) { bad=true; e=ENOMEM; } add_req(o,m.off+((u64)a-m.addr),(i64)n,'m',!bad); m.advised=true; if(bad) return SETE(e);} else orc_helper_call(fmt("madvise %d",adv),m.path); return 0; }
  string e; if(fault("madvise:anon",{"EINVAL"},e)) return SETE(errno_of(e)); trace("madvise anon %d",adv); stat_inc(fmt("madvise.%d",adv)); return (int)rse(SYS_madvise,(long)a,n,adv); }
extern "C" int madvise(void*a,size_t n,int adv) noexcept { if(!IND) return (int)rse(SYS_madvise,(long)a,n,adv); SEAM("madvise"); return v_madvise(a,n,adv); }
extern "C" int posix_madvise(void*a,size_t n,int adv) noexcept { if(!IND) return 0; SEAM("madvise"); return v_madvise(a,n,adv)<0?errno:0; }
extern "C" int posix_fadvise(int fd,off_t off,off_t n,int adv) noexcept { if(!IND) return (int)-rs(SYS_fadvise64,fd,off,n,adv); SEAM("fadvise"); Ofd*o=ofd_of(fd); if(!o) return EBADF; string e; if(fault("fadvise",{"EINVAL","ESPIPE"},e)) return errno_of(e); if(adv==POSIX_FADV_WILLNEED) add_req(*o,off,n,'f',true); else trace("fadvise %d %lld %lld",adv,(long long)off,(long long)n); return 0; }
extern "C" int posix_fadvise64(int fd,off64_t off,off64_t n,int adv) noexcept { return posix_fadvise(fd,off,n,adv); }

// ------------------------------------------------------------------ processes
extern "C" pid_t getpid(void) noexcept { if(!IND) return (pid_t)rs(SYS_getpid); return CUR().pid; }
extern "C" pid_t getppid(void) noexcept { if(!IND) return (pid_t)rs(SYS_getppid); return CUR().ppid; }
extern "C" uid_t getuid(void) noexcept { if(!IND) return (uid_t)rs(SYS_getuid); return 0; }
extern "C" uid_t geteuid(void) noexcept { if(!IND) return (uid_t)rs(SYS_geteuid); return 0; }
extern "C" pid_t setsid(void) noexcept { if(!IND) return (pid_t)rse(SYS_setsid); SEAM("setsid"); CUR().sid=CUR().pid; trace("setsid"); return CUR().sid; }
extern "C" int nice(int n) noexcept { if(!IND) return (int)rse(SYS_setpriority,0,0,n); SEAM("nice"); if(ffail("nice",{"EPERM"})) return -1; CUR().nice+=n; if(CUR().nice>19) CUR().nice=19; if(CUR().nice<-20) CUR().nice=-20; trace("nice %d",CUR().nice); errno=0; return CUR().nice; }
extern "C" int setpriority(__priority_which_t w,id_t,int n) noexcept { if(!IND) return (int)rse(SYS_setpriority,w,0,n); SEAM("nice"); CUR().nice=n; return 0; }
static int vslot(){ for(int i=0;i<40;i++) if(!W->vp_used[i]) return i; return -1; }
static void drop_vp(int s){ for(auto&f:W->vp[s].fdt) putofd(f.second); W->vp[s]=VProc(); W->vp_used[s]=false; }
static int v_fork(){ VProc&c=CUR(); anchor("FORK"); if(c.helper||c.launcher){ orc_helper_call("fork",""); return SETE(EAGAIN); } if(ffail("fork",{"EAGAIN","ENOMEM"})){ int e=errno; orc_fork(-1,false,strerror(e)); trace("fork failed"); return SETE(e);} int s=vslot(); if(s<0||W->kids.size()>=2000){ orc_fork(-1,false,"EAGAIN"); return SETE(EAGAIN);} 
  int pid=W->next_pid++; W->vp[s]=c; W->vp_used[s]=true; for(auto&f:W->vp[s].fdt) OF(f.second).refs++; W->vp[s].ppid=c.pid; W->vp[s].pending=0;
  if(W->life.polls==0&&!W->life.loaded&&W->life.scans==0){ // detaching: the copy plays the launcher, this process goes on as the daemon
    W->vp[s].launcher=true; W->vp[s].pid=c.pid; trace("fork (detach) -> %d",pid); int old=g_cur; g_cur=s; int r=raw_fork(); if(r==0) return pid; g_cur=old; int st; raw_waitpid(r,&st,0); if(W->life.end!=E_NONE) raw_exit(0); if(st) W->life.note="launcher crashed"; c.ppid=1; c.pid=pid; drop_vp(s); return 0; }
  trace("fork -> %d",pid); W->vp[s].pid=pid; W->vp[s].helper=true; W->vp[s].maps.clear(); orc_fork(pid,true,""); W->life.helpers_total++; int old=g_cur; g_cur=s; int r=raw_fork(); if(r==0){ return 0; } g_cur=old; int st=0; raw_waitpid(r,&st,0); if(W->life.end!=E_NONE) raw_exit(0); if(r<0){ W->life.note="real fork failed"; raw_exit(5); }
  if(st!=0){ violation("C11","helper-crash",fmt("a prefetch helper died (real wait status %x)",st)); }
  int code=W->vp[s].nice; drop_vp(s); i64 dur=(i64)(mix64(hcomb(W->plan.seed,W->seam))%(u64)(W->plan.geti("helper_us",20000)+1))+10; Child k; k.pid=pid; k.exit_at=W->now+dur; k.status=(code&0xff)<<8; k.cycle=W->cycle_no; string e; if(fault("helper",{"killed","stall"},e)){ if(e=="killed") k.status=9; else k.exit_at+=3000000; } W->kids.push_back(k); int live=0; for(auto&x:W->kids) if(x.exit_at>W->now) live++; stat_inc("helpers"); if((u64)live>W->stat["max_live_helpers"]) W->stat["max_live_helpers"]=live; return pid; }
extern "C" pid_t fork(void) noexcept { if(!IND) return raw_fork(); SEAM("fork"); int r=v_fork(); return r; }
extern "C" pid_t _Fork(void) noexcept { return fork(); }
extern "C" pid_t vfork(void) noexcept { return fork(); }
static int v_wait(int want,int*st,int opt){ VProc&c=CUR(); if(c.helper||c.launcher){ return SETE(ECHILD);} for(int guard=0;;guard++){ 
    bool ign=c.sa[SIGCHLD].h==(void*)SIG_IGN||(c.sa[SIGCHLD].flags&SA_NOCLDWAIT); i64 best=-1; int bi=-1; for(size_t i=0;i<W->kids.size();i++){ auto&k=W->kids[i]; if(want>0&&k.pid!=want) continue; if(bi<0||k.exit_at<best||(k.exit_at==best&&mix64(W->seam+i)&1)){ best=k.exit_at; bi=(int)i; } }
    if(ign){ for(size_t i=0;i<W->kids.size();) if(W->kids[i].exit_at<=W->now){ orc_kid_reaped(W->kids[i].pid); W->kids.erase(W->kids.begin()+i);} else i++; if(W->kids.empty()){ trace("wait ECHILD"); return SETE(ECHILD);} best=-1; bi=-1; i64 last=0; for(auto&k:W->kids) if(k.exit_at>last) last=k.exit_at; advance_to(last,!W->exact); continue; }
    if(bi<0){ trace("wait ECHILD"); return SETE(ECHILD); }
    if(guard==0&&ffail("wait",{"EINTR"})) return -1;
    if(best<=W->now){ int pid=W->kids[bi].pid; if(st)*st=W->kids[bi].status; W->kids.erase(W->kids.begin()+bi); trace("wait -> %d",pid); orc_kid_reaped(pid); return pid; }
    if(opt&WNOHANG) return 0;
    if(wants_eintr(c)) return SETE(EINTR); if(any_deliverable(c)){ deliver_pending(); g_in_daemon=false; }
    // sleep until the next exit or world event
    i64 t=best; advance_to(t,!W->exact); } }
extern "C" pid_t wait(int*st){ if(!IND) return (pid_t)rse(SYS_wait4,-1,(long)st,0,0); SEAM("wait"); return v_wait(-1,st,0); }
extern "C" pid_t waitpid(pid_t p,int*st,int o){ if(!IND) return (pid_t)rse(SYS_wait4,p,(long)st,o,0); SEAM("wait"); return v_wait(p,st,o); }
extern "C" pid_t wait3(int*st,int o,struct rusage*) noexcept { SEAM("wait"); return v_wait(-1,st,o); }
extern "C" pid_t wait4(pid_t p,int*st,int o,struct rusage*r) noexcept { if(!IND) return (pid_t)rse(SYS_wait4,p,(long)st,o,(long)r); SEAM("wait"); return v_wait(p,st,o); }
extern "C" int waitid(idtype_t t,id_t id,siginfo_t*si,int o){ if(!IND) return (int)rse(SYS_waitid,t,id,(long)si,o,0); SEAM("wait"); int st=0; int r=v_wait(t==P_PID?(int)id:-1,&st,o&WNOHANG); if(r<0) return -1; if(si){ memset(si,0,sizeof *si); si->si_pid=r; si->si_signo=SIGCHLD; si->si_status=st>>8; si->si_code=CLD_EXITED; } return 0; }
static int no_exec(const char*p){ SEAM("exec"); orc_exec(p?p:""); return SETE(ENOENT); }
extern "C" int execv(const char*p,char*const*a) noexcept { if(!IND){ return (int)rse(SYS_execve,(long)p,(long)a,(long)environ);} return no_exec(p); }
extern "C" int execve(const char*p,char*const*a,char*const*e) noexcept { if(!IND){ return (int)rse(SYS_execve,(long)p,(long)a,(long)e);} return no_exec(p); }
extern "C" int execvp(const char*p,char*const*a) noexcept { if(!IND) return SETE(ENOSYS); return no_exec(p); }
extern "C" int execl(const char*p,const char*,...) noexcept { if(!IND) return SETE(ENOSYS); return no_exec(p); }
extern "C" int execlp(const char*p,const char*,...) noexcept { if(!IND) return SETE(ENOSYS); return no_exec(p); }
extern "C" int system(const char*p){ if(!IND) return -1; return no_exec(p); }
extern "C" FILE* popen(const char*p,const char*){ if(IND) no_exec(p); errno=ENOSYS; return nullptr; }
extern "C" int posix_spawn(pid_t*,const char*p,const void*,const void*,char*const*,char*const*) noexcept { if(IND) no_exec(p); return ENOSYS; }
extern "C" int posix_spawnp(pid_t*,const char*p,const void*,const void*,char*const*,char*const*) noexcept { if(IND) no_exec(p); return ENOSYS; }
extern "C" int setrlimit64(__rlimit_resource_t,const struct rlimit64*) noexcept { return 0; }
extern "C" int prctl(int op,...) noexcept { if(!IND) { va_list ap; va_start(ap,op); long a=va_arg(ap,long),b=va_arg(ap,long),c=va_arg(ap,long),d=va_arg(ap,long); va_end(ap); return (int)rse(SYS_prctl,op,a,b,c,d);} return 0; }

extern "C" long syscall(long n,...) noexcept { va_list ap; va_start(ap,n); long a=va_arg(ap,long),b=va_arg(ap,long),c=va_arg(ap,long),d=va_arg(ap,long),e=va_arg(ap,long),f=va_arg(ap,long); va_end(ap); if(!IND) return rse(n,a,b,c,d,e,f);
  SEAM("syscall"); switch(n){
   case SYS_ioprio_set: { if(ffail("ioprio",{"EPERM","ENOSYS"})){ int x=errno; orc_ioprio(-1,x); return SETE(x);} if(a==1&&(b==0||b==CUR().pid)) CUR().ioprio=(int)c; trace("ioprio %lx",c); orc_ioprio((int)c,0); return 0; }
   case SYS_ioprio_get: return CUR().ioprio<0?0:CUR().ioprio;
   case SYS_futex: { int op=(int)b&FUTEX_CMD_MASK; if(op==FUTEX_WAIT||op==FUTEX_WAIT_BITSET){ if(*(volatile int*)a!=(int)c) return SETE(EAGAIN); if(d){ struct timespec*ts=(struct timespec*)d; i64 us=ts->tv_sec*1000000+ts->tv_nsec/1000; advance_to(W->now+us,true); return SETE(ETIMEDOUT);} W->life.note="waits for a lock that the interrupted code itself holds"; end_life(E_DEADLOCK,0);} if(op==FUTEX_WAKE) return 0; return 0; }
   case SYS_gettid: return CUR().pid; case SYS_getpid: return CUR().pid; case SYS_getrandom: { for(long i=0;i<b;i++) ((char*)a)[i]=(char)mix64(W->plan.seed+i); return b; }
   case SYS_readahead: return readahead((int)a,b,c); case SYS_close: return v_close((int)a); case SYS_fsync: return v_fsync((int)a,"fsync");
   case SYS_fork: case SYS_vfork: return v_fork();
   default: stat_inc(fmt("unmodelled.syscall%ld",n)); return SETE(ENOSYS); } }

// ------------------------------------------------------------------ time and waiting
static void now_ts(clockid_t c,struct timespec*t){ i64 u=W->now+5000000; if(c==CLOCK_REALTIME||c==CLOCK_REALTIME_COARSE) u=W->wall0+W->now+W->wall_off; else if(c==CLOCK_BOOTTIME) u=W->now+5000000+W->boot_off; t->tv_sec=u/1000000; t->tv_nsec=u%1000000*1000; }
extern "C" int clock_gettime(clockid_t c,struct timespec*t) noexcept { if(!IND) return (int)rse(SYS_clock_gettime,c,(long)t); Enter _en("clock",false); if(c==CLOCK_BOOTTIME&&W->plan.geti("noboottime")) return SETE(EINVAL); if(direct_call_mode()&&ffail("clock",{"EINVAL","EPERM"})) return -1; now_ts(c,t); return 0; }
extern "C" int clock_getres(clockid_t,struct timespec*t) noexcept { if(t){ t->tv_sec=0; t->tv_nsec=1; } return 0; }
extern "C" int gettimeofday(struct timeval*v,void*) noexcept { struct timespec t; if(!IND){ int r=(int)rse(SYS_clock_gettime,CLOCK_REALTIME,(long)&t); v->tv_sec=t.tv_sec; v->tv_usec=t.tv_nsec/1000; return r; } Enter _en("clock",false); now_ts(CLOCK_REALTIME,&t); v->tv_sec=t.tv_sec; v->tv_usec=t.tv_nsec/1000; return 0; }
extern "C" time_t time(time_t*p) noexcept { struct timespec t; if(!IND){ rse(SYS_clock_gettime,CLOCK_REALTIME,(long)&t); } else { Enter _en("clock",false); now_ts(CLOCK_REALTIME,&t);} if(p)*p=t.tv_sec; return t.tv_sec; }
static void v_sleep(i64 us){ i64 dl=W->now+us; while(W->now<dl){ advance_to(dl,true); if(any_deliverable(CUR())) return; } }
extern "C" unsigned sleep(unsigned s){ if(!IND) return 0; SEAM("sleep"); v_sleep((i64)s*1000000); return 0; }
extern "C" int usleep(useconds_t u){ if(!IND) return 0; SEAM("sleep"); v_sleep(u); return 0; }
extern "C" int nanosleep(const struct timespec*t,struct timespec*) { if(!IND) return (int)rse(SYS_nanosleep,(long)t,0); SEAM("sleep"); v_sleep(t->tv_sec*1000000ll+t->tv_nsec/1000); return 0; }
extern "C" int clock_nanosleep(clockid_t,int,const struct timespec*t,struct timespec*) { if(!IND) return 0; SEAM("sleep"); v_sleep(t->tv_sec*1000000ll+t->tv_nsec/1000); return 0; }
extern "C" unsigned alarm(unsigned) noexcept { stat_inc("unmodelled.alarm"); return 0; }
extern "C" int setitimer(__itimer_which_t w,const struct itimerval*a,struct itimerval*b) noexcept { if(!IND) return (int)rse(SYS_setitimer,w,(long)a,(long)b); stat_inc("unmodelled.setitimer"); return 0; }
extern "C" int sched_yield(void) noexcept { if(!IND) return 0; SEAM("yield"); return 0; }
static int v_poll(struct pollfd*p,nfds_t n,i64 timeout_us){ VProc&c=CUR(); if(c.helper){ violation("C11","helper-runs-daemon","a prefetch helper entered the daemon's main loop"); raw_exit(0);} if(c.launcher){ raw_exit(0);} 
  if(!W->life.polls++){ W->life.main_t=W->now; } 
  string e; if(timeout_us!=0&&fault("poll",{"EINTR"},e)) return SETE(EINTR);
  i64 dl=timeout_us<0?-1:W->now+timeout_us; bool idle=false; for(;;){
    int r=0; for(nfds_t i=0;i<n;i++){ p[i].revents=0; Ofd*o=ofd_of(p[i].fd); if(!o){ if(p[i].fd>=0){ p[i].revents=POLLNVAL; r++; } continue; } short ev=0; if(o->kind=='e'){ if(o->ev) ev|=POLLIN; ev|=POLLOUT; } else if(o->kind=='p'){ Pipe&q=W->pipes[o->pipe]; if(!q.buf.empty()) ev|=POLLIN; if(!q.w) ev|=POLLHUP; } else if(o->kind=='P') ev|=POLLOUT; else ev|=POLLIN|POLLOUT; p[i].revents=ev&(p[i].events|POLLHUP|POLLERR); if(p[i].revents) r++; }
    if(any_deliverable(c)) return SETE(EINTR);
    if(r){ return r; } if(timeout_us==0) return 0; if(dl>=0&&W->now>=dl) return 0;
    if(!idle){ idle=true; anchor("IDLE"); orc_idle(timeout_us); if(any_deliverable(c)) continue; }
    // jump to the next thing that happens
    bool more=run_due_ops(); if(W->done) end_life(E_PLANEND,0); if(any_deliverable(c)) continue; (void)more;
    i64 t=dl; i64 on=-1; if(W->opi<W->plan.ops.size()){ on=W->plan.ops[W->opi].t; i64 df=W->exact?orc_defer_until():0; if(on<W->now) on=W->now+1; if(W->need_defer&&on<df) on=df; }
    if(on>=0&&(t<0||on<t)) t=on; if(t<0){ end_life(E_PLANEND,0);} advance_to(t,true); } }
extern "C" int poll(struct pollfd*p,nfds_t n,int to){ if(!IND) return (int)rse(SYS_poll,(long)p,n,to); SEAM("poll"); trace("poll %d",to); int r=v_poll(p,n,to<0?-1:(i64)to*1000); orc_poll_return(); return r; }
extern "C" int __poll_chk(struct pollfd*p,nfds_t n,int to,size_t){ return poll(p,n,to); }
extern "C" int ppoll(struct pollfd*p,nfds_t n,const struct timespec*t,const sigset_t*m){ if(!IND) return (int)rse(SYS_ppoll,(long)p,n,(long)t,(long)m,8); SEAM("poll"); u64 om=CUR().mask; if(m) CUR().mask=set2mask(m); i64 us=t?t->tv_sec*1000000ll+(t->tv_nsec+999)/1000:-1; trace("ppoll %lld",(long long)us); int r=v_poll(p,n,us); int x=errno; if(m){ if(r<0&&x==EINTR) deliver_pending(); g_in_daemon=false; CUR().mask=om; } errno=x; orc_poll_return(); return r; }
extern "C" int select(int n,fd_set*r,fd_set*w,fd_set*e,struct timeval*tv){ if(!IND) return (int)rse(SYS_select,n,(long)r,(long)w,(long)e,(long)tv); SEAM("poll"); vector<struct pollfd> v; for(int i=0;i<n;i++){ short ev=0; if(r&&FD_ISSET(i,r)) ev|=POLLIN; if(w&&FD_ISSET(i,w)) ev|=POLLOUT; if(ev) v.push_back({i,ev,0}); } int x=v_poll(v.data(),v.size(),tv?tv->tv_sec*1000000ll+tv->tv_usec:-1); if(x<0) return x; if(r) FD_ZERO(r); if(w) FD_ZERO(w); for(auto&q:v){ if(r&&(q.revents&(POLLIN|POLLHUP))) FD_SET(q.fd,r); if(w&&(q.revents&POLLOUT)) FD_SET(q.fd,w);} return x; }
extern "C" int pause(void){ if(!IND) return (int)rse(SYS_pause); SEAM("poll"); return v_poll(nullptr,0,-1); }
extern "C" int sigsuspend(const sigset_t*m){ if(!IND) return (int)rse(SYS_rt_sigsuspend,(long)m,8); return ppoll(nullptr,0,nullptr,m); }
extern "C" int pthread_create(pthread_t*t,const pthread_attr_t*a,void*(*f)(void*),void*x) noexcept { if(!IND){ static auto g=nxt<int(*)(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*)>("pthread_create"); return g(t,a,f,x);} stat_inc("unmodelled.pthread_create"); return EAGAIN; }

// ------------------------------------------------------------------ rarely used relatives of the calls above
extern "C" int vdprintf(int fd,const char*f,va_list ap){ if(!IND){ char b[4096]; int n=vsnprintf(b,sizeof b,f,ap); if(n>0) raw_write(fd,b,n<(int)sizeof b?n:sizeof b-1); return n; } char b[8192]; g_in_daemon=true; int n=vsnprintf(b,sizeof b,f,ap); SEAM("write"); if(n<0) return n; return (int)v_write(fd,b,n<(int)sizeof b?n:sizeof b-1); }
extern "C" int dprintf(int fd,const char*f,...){ va_list ap; va_start(ap,f); int r=vdprintf(fd,f,ap); va_end(ap); return r; }
extern "C" int __dprintf_chk(int fd,int,const char*f,...){ va_list ap; va_start(ap,f); int r=vdprintf(fd,f,ap); va_end(ap); return r; }
extern "C" int __vdprintf_chk(int fd,int,const char*f,va_list ap){ return vdprintf(fd,f,ap); }
extern "C" ssize_t readv(int fd,const struct iovec*v,int c){ if(!IND) return rse(SYS_readv,fd,(long)v,c); SEAM("read"); ssize_t t=0; for(int i=0;i<c;i++){ ssize_t r=v_read(fd,v[i].iov_base,v[i].iov_len); if(r<0) return t?t:r; t+=r; if((size_t)r<v[i].iov_len) break; } return t; }
extern "C" int scandir(const char*p,struct dirent***out,int(*sel)(const struct dirent*),int(*cmp)(const struct dirent**,const struct dirent**)){ if(!IND){ static auto f=nxt<int(*)(const char*,struct dirent***,int(*)(const struct dirent*),int(*)(const struct dirent**,const struct dirent**))>("scandir"); return f(p,out,sel,cmp);} 
  DIR*d=opendir(p); if(!d) return -1; struct dirent**v=nullptr; int n=0; while(struct dirent*e=readdir(d)){ if(sel&&!sel(e)) continue; v=(struct dirent**)realloc(v,(n+1)*sizeof *v); v[n]=(struct dirent*)malloc(sizeof *e); memcpy(v[n],e,sizeof *e); n++; } closedir(d); if(n&&cmp) qsort(v,n,sizeof *v,(int(*)(const void*,const void*))cmp); *out=v; return n; }
extern "C" int msync(void*a,size_t n,int f){ if(!IND) return (int)rse(SYS_msync,(long)a,n,f); SEAM("msync"); return 0; }
extern "C" int utimensat(int d,const char*p,const struct timespec t[2],int f) noexcept { if(!IND) return (int)rse(SYS_utimensat,d,(long)p,(long)t,f); SEAM("utime"); orc_mod("utime",absp(atpath(d,p).c_str()),0,0); return 0; }
extern "C" int futimens(int fd,const struct timespec t[2]) noexcept { if(!IND) return (int)rse(SYS_utimensat,fd,0,(long)t,0); SEAM("utime"); Ofd*o=ofd_of(fd); orc_mod("utime",o?o->path:"?",0,0); return 0; }
extern "C" int symlinkat(const char*,int d,const char*p) noexcept { if(!IND) return SETE(EPERM); SEAM("symlink"); orc_mod("symlink",absp(atpath(d,p).c_str()),0,0); return SETE(EPERM); }
extern "C" int linkat(int,const char*,int d,const char*p,int) noexcept { if(!IND) return SETE(EPERM); SEAM("link"); orc_mod("link",absp(atpath(d,p).c_str()),0,0); return SETE(EPERM); }
extern "C" int mkdirat(int d,const char*p,mode_t m) noexcept { if(!IND) return (int)rse(SYS_mkdirat,d,(long)p,m); return mkdir(atpath(d,p).c_str(),m); }
extern "C" int fchmodat(int d,const char*p,mode_t m,int) noexcept { if(!IND) return (int)rse(SYS_fchmodat,d,(long)p,m); return chmod(atpath(d,p).c_str(),m); }
extern "C" int setpgid(pid_t,pid_t) noexcept { if(!IND) return 0; SEAM("setpgid"); return 0; }
extern "C" pid_t getpgrp(void) noexcept { return IND?CUR().pid:(pid_t)rs(SYS_getpgrp); }
extern "C" pid_t getsid(pid_t p) noexcept { return IND?CUR().sid:(pid_t)rs(SYS_getsid,p); }
extern "C" int killpg(pid_t p,int s) noexcept { return kill(-p,s); }
extern "C" pid_t gettid(void) noexcept { return IND?CUR().pid:(pid_t)rs(SYS_gettid); }
extern "C" int getpriority(__priority_which_t,id_t) noexcept { if(!IND) return 0; return CUR().nice; }
extern "C" int sysinfo(struct sysinfo*s) noexcept { if(!IND) return (int)rse(SYS_sysinfo,(long)s); SEAM("sysinfo"); memset(s,0,sizeof *s); s->mem_unit=1024; s->totalram=W->mem["MemTotal"]; s->freeram=W->mem["MemFree"]; s->bufferram=W->mem["Buffers"]; s->uptime=(W->now+5000000+W->boot_off)/1000000; s->procs=(unsigned short)W->procs.size(); return 0; }
extern "C" int daemon(int nochdir,int noclose) noexcept { if(!IND) return SETE(ENOSYS); int r=fork(); if(r<0) return -1; if(r>0) _exit(0); if(setsid()<0) return -1; if(!nochdir&&chdir("/")<0) return -1;
  if(!noclose){ int fd=open("/dev/null",O_RDWR); if(fd<0) return -1; for(int i=0;i<3;i++) dup2(fd,i); if(fd>2) close(fd); } return 0; }
// GLib delivers signals through a thread of its own; the same service without one
#include <glib-unix.h>
static int us_pipe[2]={-1,-1}; static volatile sig_atomic_t us_pend[65]; static void us_handler(int s){ int e=errno; us_pend[s]=1; ssize_t r=write(us_pipe[1],"",1); (void)r; errno=e; }
struct UsSource { GSource s; int sig; }; 
static gboolean us_drain(gint fd,GIOCondition,gpointer){ char b[64]; while(read(fd,b,sizeof b)>0); return TRUE; }
static gboolean us_prepare(GSource*s,gint*t){ *t=-1; return us_pend[((UsSource*)s)->sig]; } static gboolean us_check(GSource*s){ return us_pend[((UsSource*)s)->sig]; }
static gboolean us_dispatch(GSource*s,GSourceFunc f,gpointer d){ us_pend[((UsSource*)s)->sig]=0; return f?f(d):FALSE; }
static GSourceFuncs us_funcs={us_prepare,us_check,us_dispatch,nullptr,nullptr,nullptr};
extern "C" GSource* g_unix_signal_source_new(gint sig){ if(us_pipe[0]<0){ if(pipe2(us_pipe,O_CLOEXEC|O_NONBLOCK)<0) return nullptr; guint id=g_unix_fd_add(us_pipe[0],G_IO_IN,us_drain,nullptr); g_source_set_priority(g_main_context_find_source_by_id(nullptr,id),G_PRIORITY_HIGH); }
  struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=us_handler; sa.sa_flags=SA_RESTART|SA_NOCLDSTOP; sigaction(sig,&sa,nullptr); GSource*s=g_source_new(&us_funcs,sizeof(UsSource)); ((UsSource*)s)->sig=sig; return s; }
extern "C" guint g_unix_signal_add_full(gint prio,gint sig,GSourceFunc f,gpointer d,GDestroyNotify n){ GSource*s=g_unix_signal_source_new(sig); if(prio!=G_PRIORITY_DEFAULT) g_source_set_priority(s,prio); g_source_set_callback(s,f,d,n); guint id=g_source_attach(s,nullptr); g_source_unref(s); return id; }
extern "C" guint g_unix_signal_add(gint sig,GSourceFunc f,gpointer d){ return g_unix_signal_add_full(G_PRIORITY_DEFAULT,sig,f,d,nullptr); }
