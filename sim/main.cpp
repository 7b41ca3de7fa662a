// Driver: a zygote process with the daemon's code loaded forks one process per simulated run; inside a run every
// lifetime of the daemon is a fork of its own, so that it starts from a pristine image.
#include "world.h"
#include "oracle.h"
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
int (*daemon_main)(int,char**)=nullptr; void*daemon_lib=nullptr;
char g_shipped[20000];
static unsigned char*g_covmap; static char g_lib[512],g_out[512],g_plan[512],g_logf[512],g_prop[32]; static int g_variant=0; static bool g_gen=false;
static int rawopen(const char*p,int fl){ return open(p,fl,0644); }
static void raw_close(int fd){ close(fd); }
static string slurp(const char*p){ string s; int fd=rawopen(p,O_RDONLY); if(fd<0) return s; char b[65536]; i64 n; while((n=raw_read(fd,b,sizeof b))>0) s.append(b,n); raw_close(fd); return s; }
static void spill(const char*p,const string&s,int fl=O_TRUNC){ int fd=rawopen(p,O_WRONLY|O_CREAT|fl); if(fd<0) return; raw_write(fd,s.data(),s.size()); raw_close(fd); }
static string jstr(const string&s){ string r="\""; for(unsigned char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if(c<32||c>=127) r+=fmt("\\u%04x",c); else r+=c; } return r+"\""; }
static int g_errfd=-1;
static string err_text(){ string s; char b[65536]; i64 off=0; for(;;){ ssize_t n=pread(g_errfd,b,sizeof b,off); if(n<=0) break; s.append(b,n); off+=n; if(s.size()>200000) break; } return s; }
static string err_summary(){ string s=err_text(); size_t k=s.find("SUMMARY:"); if(k==string::npos) k=s.find("ERROR: AddressSanitizer"); if(k==string::npos) return s.substr(0,160); size_t e=s.find('\n',k); string r=s.substr(k,e==string::npos?e:e-k); k=s.find("ERROR: AddressSanitizer"); return r.substr(0,220); }

static void new_life(const Op&op){ Life L; L.idx=(int)W->lives.size(); L.active=true; L.t0=W->now; L.seam0=W->seam; for(auto&a:op.a) if(!a.empty()) L.argv.push_back(a=="<empty>"?"":a); W->life=L; W->dead=false; string c,s,l; bool fg,bad; parse_args(W->life.argv,c,s,l,fg,bad); string cwd=W->plan.get("cwd","/"); W->life.fg=fg; if(!c.empty()) W->conf_path=normpath(cwd,c); else W->conf_path=c; if(!s.empty()) W->state_path=normpath(cwd,s); else W->state_path=s; W->log_path=l.empty()?l:normpath(cwd,l);
  for(int i=0;i<40;i++){ W->vp[i]=VProc(); W->vp_used[i]=false; } W->ofd.clear(); W->pipes.clear(); W->kids.clear(); W->armed.clear(); W->anchor_count.clear(); W->live_allocs=W->live_bytes=0; W->handler_in_alloc=false; W->cycle_no=0; W->last_scan=-1000000000; W->seams_at_t=0; W->pc_since_seam=0; stat_inc("lives");
  trace("life %d starts",W->life.idx);
  int pid=raw_fork(); if(pid==0){ struct rlimit r={60,60}; syscall(SYS_prlimit64,0,RLIMIT_CPU,&r,nullptr); struct rlimit c0={0,0}; syscall(SYS_prlimit64,0,RLIMIT_CORE,&c0,nullptr); life_main(); raw_exit(0); }
  int st=0; raw_waitpid(pid,&st,0); g_in_daemon=false; g_cur=0;
  if(W->life.end==E_NONE){ string why; if(WIFSIGNALED(st)) why=fmt("the daemon was killed by real signal %d (%s)",WTERMSIG(st),WTERMSIG(st)==SIGSEGV?"invalid memory access":WTERMSIG(st)==SIGXCPU||WTERMSIG(st)==SIGKILL?"used up its CPU allowance":strsignal(WTERMSIG(st))); else if(WEXITSTATUS(st)==99) why="memory error: "; else why=fmt("the daemon process ended unexpectedly with status %x",st); string e=err_summary(); if(!e.empty()) why+=" "+e; bool hang=WIFSIGNALED(st)&&(WTERMSIG(st)==SIGXCPU||WTERMSIG(st)==SIGKILL);
    W->life.end=hang?E_STUCK:E_ABORT; W->life.note=why; violation(W->plan.prop,hang?"hang":"crash",why); }
  W->life.t1=W->now; orc_life_end(); W->life.active=false; W->lives.push_back(W->life);
  for(int i=0;i<40;i++){ W->vp[i]=VProc(); W->vp_used[i]=false; } W->ofd.clear(); W->pipes.clear(); W->kids.clear(); W->armed.clear();
  if(W->life.end==E_POWER){ Rng r(hcomb(W->plan.seed,W->seam)); W->fs.power_loss(r); orc_power(true); }
  W->life.end=W->life.end; }
static string result_line(i64 t0){ u64 covn=0; for(int i=0;i<65536;i++) if(W->cov[i]){ covn++; if(g_covmap) g_covmap[i]=1; }
  string r=fmt("{\"seed\":%llu,\"hash\":\"%016llx\",\"sim_us\":%lld,\"lives\":%zu,\"seams\":%llu,\"events\":%llu,\"cov\":%llu,\"real_us\":%lld,\"arena\":%zu,\"ops\":%zu",(unsigned long long)W->plan.seed,(unsigned long long)W->hash,(long long)W->now,W->lives.size(),(unsigned long long)W->seam,(unsigned long long)W->evseq,(unsigned long long)covn,(long long)(raw_clock_us()-t0),arena_used(),W->plan.ops.size());
  r+=",\"states\":["; { bool f=false; int n=0; for(u64 x:W->statehashes){ if(n++>60) break; r+=(f?",":"")+fmt("\"%08llx\"",(unsigned long long)(x&0xffffffffull)); f=true; } } r+="]";
  r+=",\"viol\":["; { bool f=false; for(auto&v:W->viol){ r+=(f?",":"")+string("{\"kind\":")+jstr(v.kind)+",\"msg\":"+jstr(v.msg.substr(0,1500))+"}"; f=true; } } r+="]";
  r+=",\"stat\":{"; { bool f=false; for(auto&s:W->stat){ r+=(f?",":"")+jstr(s.first)+fmt(":%llu",(unsigned long long)s.second); f=true; } } r+="}";
  r+=",\"faults\":{"; { bool f=false; for(auto&s:W->fault_fired){ r+=(f?",":"")+jstr(s.first)+fmt(":%llu",(unsigned long long)s.second); f=true; } } r+="}}\n"; return r; }
// The plan with every fault that fired made explicit, so that it can be minimised.
static string explicit_plan(){ Plan p=W->plan; p.rates.clear(); p.faults.clear(); p.faults=W->fired; vector<Op> o; for(auto&x:p.ops) if(x.kind!="rate") o.push_back(x); p.ops=o; return plan_text(p); }
static void run_one(u64 seed){ i64 t0=raw_clock_us(); arena_init(); g_errfd=(int)syscall(SYS_memfd_create,"err",0); dup2(g_errfd,2);
  Plan p; if(g_plan[0]){ string t=slurp(g_plan); if(!plan_parse(t,p)){ const char m[]="cannot read the plan\n"; raw_write(1,m,sizeof m-1); raw_exit(4);} } else { if(!plan_generate(g_prop,seed,p,g_variant)){ raw_exit(4);} p.prop=g_prop; p.seed=seed; }
  if(g_gen){ string t=plan_text(p); raw_write(1,t.data(),t.size()); raw_exit(0); }
  W=new World; W->plan=p; W->logging=g_logf[0]; W->hash=mix64(p.seed); init_world(); orc_init(); g_cur=0;
  while(W->opi<W->plan.ops.size()&&!W->done){ Op op=W->plan.ops[W->opi]; if(op.t>W->now) advance_to(op.t,false); W->opi++; if(op.kind=="start"){ new_life(op); if(W->life.end==E_PLANEND) break; } else run_op(op); }
  orc_run_end();
  string r=result_line(t0);
  if(!W->viol.empty()){ string ep=explicit_plan(); string path=fmt("%s.viol.%llu",g_out,(unsigned long long)seed); if(!g_plan[0]){ spill((path+".plan").c_str(),plan_text(W->plan)); spill((path+".explicit").c_str(),ep); } }
  if(g_logf[0]){ string l; for(auto&x:W->log) l+=x+"\n"; l+="---- console ----\n"+W->console; l+="\n---- real stderr ----\n"+err_text(); spill(g_logf,l); }
  if(g_plan[0]&&!g_out[0]){ raw_write(1,r.data(),r.size()); } else spill(g_out,r,O_APPEND);
  raw_exit(W->viol.empty()?0:1); }
static void copyarg(char*d,size_t n,const char*s){ size_t k=strlen(s); if(k>=n) k=n-1; memcpy(d,s,k); d[k]=0; }
int main(int argc,char**argv){
  if(!getenv("SIM_INNER")){ personality(ADDR_NO_RANDOMIZE); char*env[]={(char*)"SIM_INNER=1",(char*)"PATH=/usr/bin:/bin",(char*)"TZ=UTC0",(char*)"LC_ALL=C",(char*)"G_SLICE=always-malloc",(char*)"ASAN_OPTIONS=exitcode=99:detect_leaks=0:symbolize=1:handle_abort=0:detect_odr_violation=0:allocator_may_return_null=1:max_allocation_size_mb=600:quarantine_size_mb=8:handle_segv=1:use_sigaltstack=0:detect_stack_use_after_return=0",(char*)"ASAN_SYMBOLIZER_PATH=/nonexistent",nullptr}; execve("/proc/self/exe",argv,env); return 4; }
  u64 seed0=1,step=1,count=1; i64 secs=3600; 
  for(int i=2;i+1<argc;i+=2){ const char*k=argv[i],*v=argv[i+1]; if(!strcmp(k,"--lib")) copyarg(g_lib,sizeof g_lib,v); else if(!strcmp(k,"--prop")) copyarg(g_prop,sizeof g_prop,v); else if(!strcmp(k,"--seed0")) seed0=strtoull(v,0,10); else if(!strcmp(k,"--step")) step=strtoull(v,0,10); else if(!strcmp(k,"--count")) count=strtoull(v,0,10); else if(!strcmp(k,"--secs")) secs=strtoll(v,0,10); else if(!strcmp(k,"--out")) copyarg(g_out,sizeof g_out,v); else if(!strcmp(k,"--plan")) copyarg(g_plan,sizeof g_plan,v); else if(!strcmp(k,"--log")) copyarg(g_logf,sizeof g_logf,v); else if(!strcmp(k,"--variant")) g_variant=atoi(v); }
  { char p[600]; copyarg(p,sizeof p,g_lib); char*sl=strrchr(p,'/'); strcpy(sl?sl+1:p,"shipped.conf"); int fd=open(p,O_RDONLY); if(fd>=0){ ssize_t n=read(fd,g_shipped,sizeof g_shipped-1); g_shipped[n>0?n:0]=0; close(fd); } }
  if(argc<2){ return 4; } g_gen=!strcmp(argv[1],"gen"); if(!strcmp(argv[1],"work")) g_plan[0]=0;
  if(!g_gen){ daemon_lib=dlopen(g_lib,RTLD_NOW|RTLD_GLOBAL); if(!daemon_lib){ const char*e=dlerror(); raw_write(2,e,strlen(e)); raw_write(2,"\n",1); return 4; } daemon_main=(int(*)(int,char**))dlsym(daemon_lib,"main"); if(!daemon_main) return 4; 
    // warm up lazily allocating parts of libc in the zygote, identically for every mode
    (void)dlsym(RTLD_NEXT,"fork");
    if(auto gs=(const char*(*)(int))dlsym(RTLD_DEFAULT,"g_strerror")) for(int e=0;e<140;e++) (void)gs(e); } // GLib keeps each message it ever made; that is not growth of the daemon
  alloc_init(); g_covmap=(unsigned char*)mmap(0,65536,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  i64 end=raw_clock_us()+secs*1000000; int worst=0; int nviol=0;
  for(u64 k=0;k<count;k++){ if(raw_clock_us()>end) break; u64 seed=seed0+k*step; int pid=raw_fork(); if(pid==0) run_one(seed); int st=0; raw_waitpid(pid,&st,0); int c=WIFEXITED(st)?WEXITSTATUS(st):100; if(c>1){ char b[160]; int n=snprintf(b,sizeof b,"simulator error: seed %llu status %x\n",(unsigned long long)seed,st); raw_write(2,b,n); return 3; } if(c>worst) worst=c; if(c==1&&++nviol>=20) break; }
  if(g_out[0]){ char p[600]; int n=snprintf(p,sizeof p,"%s.cov",g_out); (void)n; int fd=rawopen(p,O_WRONLY|O_CREAT|O_TRUNC); raw_write(fd,(char*)g_covmap,65536); raw_close(fd); }
  return worst; }
