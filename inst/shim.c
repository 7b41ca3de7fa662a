// shim.c -- preloaded into every process of a simulated installation: decides, from the seed alone, which step fails or
// is interrupted, and records the steps. A process is named by its place in the tree of forks, so that names (and with
// them all decisions) do not depend on scheduling.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
static char id[512]="0", tracef[]="/sim/trace"; static int nfork, inited; static struct { char cls[12]; int n; } cnt[32];
static char *faults; static uint64_t seed; static int r_kill,r_err; static int nullfd=200;
#define NX(ret,name,...) static ret(*f)(__VA_ARGS__); if(!f) f=(ret(*)(__VA_ARGS__))dlsym(RTLD_NEXT,name)
static int ropen(const char*p,int fl,int m){ return (int)syscall(SYS_openat,AT_FDCWD,p,fl,m); }
static void init(void){ if(inited) return; inited=1; char*e=getenv("ISIM_ID"); if(e) snprintf(id,sizeof id,"%s",e); int fd=ropen("/sim/faults",O_RDONLY|O_CLOEXEC,0); if(fd<0) return; size_t cap=65536,n=0; faults=calloc(1,cap); for(;;){ ssize_t r=syscall(SYS_read,fd,faults+n,cap-1-n); if(r<=0) break; n+=r; } syscall(SYS_close,fd); char*p=strstr(faults,"rand "); if(p) sscanf(p,"rand %lu %d %d",&seed,&r_kill,&r_err); }
static void tr(const char*fmt,...){ char b[1400]; va_list a; va_start(a,fmt); int n=snprintf(b,sizeof b,"%s ",id); int m=vsnprintf(b+n,sizeof b-n-2,fmt,a); va_end(a); n+=m; if(n>(int)sizeof b-2) n=sizeof b-2; for(int i=0;i<n;i++) if(b[i]=='\n') b[i]='~'; b[n++]='\n'; int e=errno; int fd=ropen(tracef,O_WRONLY|O_APPEND|O_CLOEXEC,0); if(fd>=0){ syscall(SYS_write,fd,b,n); syscall(SYS_close,fd); } errno=e; }
static uint64_t mix(uint64_t x){ x^=x>>33; x*=0xff51afd7ed558ccdULL; x^=x>>33; x*=0xc4ceb9fe1a85ec53ULL; return x^(x>>33); }
// 0: go on; >0: errno to return; -1: short; -2: only the exit status says it failed
int isim_step(const char*cls,const char*what){ init(); int n=0; for(int i=0;i<32;i++){ if(!cnt[i].cls[0]) snprintf(cnt[i].cls,sizeof cnt[i].cls,"%s",cls); if(!strcmp(cnt[i].cls,cls)){ n=cnt[i].n++; break; } }
  char key[640]; snprintf(key,sizeof key,"%s:%s:%d",id,cls,n); char act[16]=""; 
  if(faults){ char pat[700]; snprintf(pat,sizeof pat,"fault %s ",key); char*p=strstr(faults,pat); if(p) sscanf(p+strlen(pat),"%15s",act); }
  if(!act[0]&&seed){ uint64_t h=seed; for(char*k=key;*k;k++) h=mix(h*31+(unsigned char)*k); int x=h%10000; h=mix(h+7); if(x<r_kill) strcpy(act,h%4?"kill":"int"); else if(x<r_kill+r_err*(strcmp(cls,"svc")?1:4)&&strcmp(cls,"exec")){ static const char*file[]={"ENOSPC","EIO","EACCES","EROFS"}; if(!strcmp(cls,"svc")) strcpy(act,h%3?"fail":"failafter"); else if(!strcmp(cls,"write")) strcpy(act,h%3==0?"short":file[h/8%2]); else strcpy(act,file[h%4]); } }
  tr("%s %d %s%s%s",cls,n,what,act[0]?" ! ":"",act); if(!act[0]) return 0; tr("FAULT %s %s",key,act);
  if(!strcmp(act,"kill")){ kill(-1,SIGKILL); kill(getpid(),SIGKILL); for(;;) pause(); }
  if(!strcmp(act,"int")){ kill(-1,SIGINT); kill(getpid(),SIGINT); return 0; }
  if(!strcmp(act,"short")) return -1; if(!strcmp(act,"failafter")) return -2; if(!strcmp(act,"ENOSPC")) return ENOSPC; if(!strcmp(act,"EACCES")) return EACCES; if(!strcmp(act,"EROFS")) return EROFS; return EIO; }
void isim_note(const char*s){ init(); tr("note %s",s); }
#define STEP(cls,what,fail) do{ int e_=isim_step(cls,what); if(e_>0){ errno=e_; return fail; } }while(0)
static const char* strip(const char*p){ return p?p:"?"; }
// processes
pid_t fork(void){ NX(pid_t,"fork",void); init(); int n=nfork++; pid_t p=f(); if(p==0){ size_t l=strlen(id); snprintf(id+l,sizeof id-l,".%d",n); nfork=0; memset(cnt,0,sizeof cnt); } return p; }
pid_t vfork(void){ return fork(); }
static int do_exec(const char*p,char*const a[],char*const e[]){ init(); int n=0; while(e&&e[n]) n++; char**v=malloc((n+4)*sizeof*v); int m=0; char b[560]; snprintf(b,sizeof b,"ISIM_ID=%s",id); for(int i=0;i<n;i++) if(strncmp(e[i],"ISIM_ID=",8)&&strncmp(e[i],"LD_PRELOAD=",11)) v[m++]=e[i]; v[m++]=b; v[m++]="LD_PRELOAD=/sim/shim.so"; v[m]=0; 
  if(access(p,X_OK)==0){ char w[400]=""; for(int i=0;a[i]&&strlen(w)<300;i++){ strncat(w,a[i],90); strcat(w," "); } isim_step("exec",w); } int r=(int)syscall(SYS_execve,p,a,v); free(v); return r; }
int execve(const char*p,char*const a[],char*const e[]){ return do_exec(p,a,e); }
extern char**environ;
int execv(const char*p,char*const a[]){ return do_exec(p,a,environ); }
int execvpe(const char*p,char*const a[],char*const e[]){ if(strchr(p,'/')) return do_exec(p,a,e); const char*path=getenv("PATH"); if(!path) path="/usr/bin"; char b[1024]; int er=ENOENT; while(*path){ size_t l=strcspn(path,":"); snprintf(b,sizeof b,"%.*s/%s",(int)l,path,p); if(access(b,X_OK)==0){ do_exec(b,a,e); er=errno; } path+=l; if(*path) path++; } errno=er; return -1; }
int execvp(const char*p,char*const a[]){ return execvpe(p,a,environ); }
int posix_spawn(pid_t*pid,const char*p,const void*x,const void*y,char*const a[],char*const e[]){ (void)x; (void)y; pid_t c=fork(); if(c<0) return errno; if(!c){ do_exec(p,a,e); _exit(127); } *pid=c; return 0; }
int posix_spawnp(pid_t*pid,const char*p,const void*x,const void*y,char*const a[],char*const e[]){ (void)x; (void)y; pid_t c=fork(); if(c<0) return errno; if(!c){ execvpe(p,a,e); _exit(127); } *pid=c; return 0; }
// files
static int sys_path(const char*p){ return p&&!strncmp(p,"/sim/",5); }
static int v_open(int d,const char*p,int fl,mode_t m){ if(p&&!strcmp(p,"/dev/null")){ int r=fcntl(nullfd,(fl&O_CLOEXEC)?F_DUPFD_CLOEXEC:F_DUPFD,0); if(r>=0) return r; } if((fl&(O_WRONLY|O_RDWR|O_CREAT|O_TRUNC))&&!sys_path(p)) STEP("openw",strip(p),-1); return (int)syscall(SYS_openat,d,p,fl,m); }
#define MODE mode_t m=0; if(fl&(O_CREAT|O_TMPFILE)){ va_list a; va_start(a,fl); m=va_arg(a,mode_t); va_end(a); }
int open(const char*p,int fl,...){ MODE return v_open(AT_FDCWD,p,fl,m); }
int open64(const char*p,int fl,...){ MODE return v_open(AT_FDCWD,p,fl,m); }
int openat(int d,const char*p,int fl,...){ MODE return v_open(d,p,fl,m); }
int openat64(int d,const char*p,int fl,...){ MODE return v_open(d,p,fl,m); }
int __open_2(const char*p,int fl){ return v_open(AT_FDCWD,p,fl,0); }
int __open64_2(const char*p,int fl){ return v_open(AT_FDCWD,p,fl,0); }
int __openat_2(int d,const char*p,int fl){ return v_open(d,p,fl,0); }
int __openat64_2(int d,const char*p,int fl){ return v_open(d,p,fl,0); }
int creat(const char*p,mode_t m){ return v_open(AT_FDCWD,p,O_CREAT|O_WRONLY|O_TRUNC,m); }
FILE* fopen(const char*p,const char*mode){ NX(FILE*,"fopen",const char*,const char*); if(mode[0]!='r'||strchr(mode,'+')){ if(!sys_path(p)) STEP("openw",strip(p),NULL); } return f(p,mode); }
FILE* fopen64(const char*p,const char*mode){ return fopen(p,mode); }
ssize_t write(int fd,const void*b,size_t n){ struct stat s; if(n&&inited&&syscall(SYS_fstat,fd,&s)==0&&S_ISREG(s.st_mode)){ int e=isim_step("write",""); if(e>0){ errno=e; return -1; } if(e<0&&n>1) n/=2; else if(n>40000) n=32768; } return syscall(SYS_write,fd,b,n); }
ssize_t copy_file_range(int a,off64_t*x,int b,off64_t*y,size_t n,unsigned f){ (void)a;(void)x;(void)b;(void)y;(void)n;(void)f; errno=EXDEV; return -1; }
ssize_t sendfile(int a,int b,off_t*o,size_t n){ (void)a;(void)b;(void)o;(void)n; errno=EINVAL; return -1; }
int mkdir(const char*p,mode_t m){ STEP("mkdir",strip(p),-1); return (int)syscall(SYS_mkdir,p,m); }
int mkdirat(int d,const char*p,mode_t m){ STEP("mkdir",strip(p),-1); return (int)syscall(SYS_mkdirat,d,p,m); }
int rmdir(const char*p){ STEP("unlink",strip(p),-1); return (int)syscall(SYS_rmdir,p); }
int unlink(const char*p){ if(!sys_path(p)) STEP("unlink",strip(p),-1); return (int)syscall(SYS_unlink,p); }
int unlinkat(int d,const char*p,int fl){ STEP("unlink",strip(p),-1); return (int)syscall(SYS_unlinkat,d,p,fl); }
int remove(const char*p){ struct stat s; if(lstat(p,&s)) return -1; return S_ISDIR(s.st_mode)?rmdir(p):unlink(p); }
int rename(const char*a,const char*b){ STEP("rename",strip(b),-1); return (int)syscall(SYS_rename,a,b); }
int renameat(int d,const char*a,int e,const char*b){ STEP("rename",strip(b),-1); return (int)syscall(SYS_renameat2,d,a,e,b,0); }
int renameat2(int d,const char*a,int e,const char*b,unsigned fl){ STEP("rename",strip(b),-1); return (int)syscall(SYS_renameat2,d,a,e,b,fl); }
int isatty(int fd){ return fd==0||fd==2; }
int chmod(const char*p,mode_t m){ STEP("chmod",strip(p),-1); return (int)syscall(SYS_chmod,p,m); }
int fchmod(int fd,mode_t m){ STEP("chmod","fd",-1); return (int)syscall(SYS_fchmod,fd,m); }
int fchmodat(int d,const char*p,mode_t m,int fl){ STEP("chmod",strip(p),-1); (void)fl; return (int)syscall(SYS_fchmodat,d,p,m); }
int symlink(const char*a,const char*b){ STEP("link",strip(b),-1); return (int)syscall(SYS_symlink,a,b); }
int symlinkat(const char*a,int d,const char*b){ STEP("link",strip(b),-1); return (int)syscall(SYS_symlinkat,a,d,b); }
int link(const char*a,const char*b){ STEP("link",strip(b),-1); return (int)syscall(SYS_link,a,b); }
int linkat(int d,const char*a,int e,const char*b,int fl){ STEP("link",strip(b),-1); return (int)syscall(SYS_linkat,d,a,e,b,fl); }
int fsync(int fd){ STEP("fsync","",-1); return (int)syscall(SYS_fsync,fd); }
// clocks and randomness
static time_t vt(void){ return 1700000000; }
time_t time(time_t*t){ if(t) *t=vt(); return vt(); }
int gettimeofday(struct timeval*t,void*z){ (void)z; t->tv_sec=vt(); t->tv_usec=0; return 0; }
int clock_gettime(clockid_t c,struct timespec*t){ (void)c; t->tv_sec=vt(); t->tv_nsec=0; return 0; }
ssize_t getrandom(void*b,size_t n,unsigned fl){ (void)fl; static int k; init(); uint64_t h=77; for(char*p=id;*p;p++) h=mix(h*31+(unsigned char)*p); for(size_t i=0;i<n;i++) ((unsigned char*)b)[i]=mix(h+i+1000*(uint64_t)k); k++; return n; }
int getentropy(void*b,size_t n){ getrandom(b,n,0); return 0; }
int nanosleep(const struct timespec*a,struct timespec*b){ (void)a;(void)b; return 0; }
unsigned sleep(unsigned s){ (void)s; return 0; }
__attribute__((constructor)) static void start(void){ init(); }
