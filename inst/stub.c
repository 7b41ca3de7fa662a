// stub.c -- stand-ins for the commands around the scripts: service managers (with the state they keep), compiler driver,
// privilege switch, benchmark tools. Which one is meant is seen from the name it is called by. The program copied
// to bin/preload of the simulated tree is this one too: run by hand it only checks that it could work.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
extern int isim_step(const char*,const char*) __attribute__((weak)); extern void isim_note(const char*) __attribute__((weak));
static int step(const char*w){ return isim_step?isim_step("svc",w):0; }
static void note(const char*w){ if(isim_note) isim_note(w); }
static char*slurp(const char*p,size_t*len){ int fd=(int)syscall(SYS_openat,AT_FDCWD,p,O_RDONLY,0); if(fd<0) return 0; size_t cap=4<<20,n=0; char*b=malloc(cap); for(;;){ ssize_t r=syscall(SYS_read,fd,b+n,cap-1-n); if(r<=0) break; n+=r; } syscall(SYS_close,fd); b[n]=0; if(len)*len=n; return b; }
static void spit(const char*p,const char*d,size_t n,int mode){ int fd=(int)syscall(SYS_openat,AT_FDCWD,p,O_WRONLY|O_CREAT|O_TRUNC,mode); if(fd<0) return; while(n){ ssize_t r=syscall(SYS_write,fd,d,n); if(r<=0) break; d+=r; n-=r; } syscall(SYS_close,fd); }
static void del(const char*p){ syscall(SYS_unlink,p); }
static int is(const char*p,int t){ struct stat s; return !stat(p,&s)&&(s.st_mode&S_IFMT)==(mode_t)t; }
static unsigned long hash(const char*p){ size_t n; char*b=slurp(p,&n); if(!b) return 0; unsigned long h=1469598103934665603ul; for(size_t i=0;i<n;i++) h=(h^(unsigned char)b[i])*1099511628211ul; free(b); return h; }
static char U[200]; static void unit(const char*a){ snprintf(U,sizeof U,"%s",a); size_t l=strlen(U); if(l>8&&!strcmp(U+l-8,".service")) U[l-8]=0; }
static char P[600]; static char*path(const char*f){ snprintf(P,sizeof P,f,U); return P; }
static char Q[600]; static char*disk(void){ static const char*d[]={"/etc/systemd/system/%s.service","/usr/local/lib/systemd/system/%s.service","/usr/lib/systemd/system/%s.service","/lib/systemd/system/%s.service"}; for(int i=0;i<4;i++){ snprintf(Q,sizeof Q,d[i],U); if(is(Q,S_IFREG)) return Q; } return 0; }
static void load(void){ char*d=disk(); char c[600]; snprintf(c,sizeof c,"/sim/svc/loaded.%s",U); if(!d){ del(c); return; } size_t n; char*b=slurp(d,&n); spit(c,b,n,0644); free(b); }
static void reload_all(void){ DIR*d=opendir("/sim/svc"); struct dirent*e; char keep[200]; strcpy(keep,U); while(d&&(e=readdir(d))) if(!strncmp(e->d_name,"loaded.",7)){ unit(e->d_name+7); load(); } if(d) closedir(d); strcpy(U,keep); }
static int has(const char*list,const char*w){ size_t l=strlen(w); while(*list){ while(*list==' ') list++; size_t n=strcspn(list," "); if(n==l&&!strncmp(list,w,l)) return 1; list+=n; } return 0; }
// the values of KEY in an ini-like or shell-like text, joined by blanks
static void key(const char*t,const char*k,char*out,size_t n){ out[0]=0; size_t kl=strlen(k); for(const char*p=t;p&&*p;){ const char*e=strchr(p,'\n'); size_t l=e?(size_t)(e-p):strlen(p); const char*q=p; while(*q==' '||*q=='\t') q++; if(!strncmp(q,k,kl)&&q[kl]=='='){ q+=kl+1; l-=q-p; if(l&&*q=='"'){ q++; l--; const char*z=memchr(q,'"',l); if(z) l=z-q; } if(out[0]) strncat(out," ",n-strlen(out)-1); size_t o=strlen(out); if(l>n-o-1) l=n-o-1; memcpy(out+o,q,l); out[o+l]=0; } p=e?e+1:0; } }
static char why[300],conf[300],st[300],lg[300];
static int under(const char*p,const char*list){ char w[400]; while(*list){ while(*list==' ') list++; size_t n=strcspn(list," "); if(n&&n<sizeof w){ snprintf(w,sizeof w,"%.*s",(int)n,list); char*x=w; if(*x=='-'||*x=='+') x++; size_t l=strlen(x); while(l>1&&x[l-1]=='/') x[--l]=0; if(!strncmp(p,x,l)&&(p[l]==0||p[l]=='/'||l==1)) return 1; } list+=n; } return 0; }
// could the daemon work with these arguments? writable: space-separated prefixes it may write to ("/" everything)
static int works(const char*bin,const char*args,const char*writable,int want_fg){ char a[1000]; snprintf(a,sizeof a," %s ",args); snprintf(conf,300,"/etc/preload.conf"); snprintf(st,300,"/var/lib/preload/preload.state"); snprintf(lg,300,"/var/log/preload.log"); int fg=0; char*sv=0; char b[1000]; snprintf(b,sizeof b,"%s",args);
  for(char*t=strtok_r(b," \t",&sv);t;t=strtok_r(0," \t",&sv)){ char*v=0; int which=0; if(!strcmp(t,"-f")||!strcmp(t,"--foreground")||!strcmp(t,"-d")||!strcmp(t,"--debug")) fg=1; else if(!strcmp(t,"-c")||!strcmp(t,"--conffile")) which=1; else if(!strcmp(t,"-s")||!strcmp(t,"--statefile")) which=2; else if(!strcmp(t,"-l")||!strcmp(t,"--logfile")) which=3; else if(!strcmp(t,"-V")||!strcmp(t,"--verbose")||!strcmp(t,"-n")||!strcmp(t,"--nice")) which=4; else if(!strncmp(t,"--conffile=",11)){ which=1; v=t+11; } else if(!strncmp(t,"--statefile=",12)){ which=2; v=t+12; } else if(!strncmp(t,"--logfile=",10)){ which=3; v=t+10; } if(which&&!v) v=strtok_r(0," \t",&sv); if(v&&which>0&&which<4) snprintf(which==1?conf:which==2?st:lg,300,"%s",v); }
  struct stat s; if(stat(bin,&s)||!S_ISREG(s.st_mode)||access(bin,X_OK)){ snprintf(why,sizeof why,"no executable at %s",bin); return 0; }
  size_t n=0; char*t=slurp(bin,&n); int whole=t&&n>200&&memmem(t,n,"PRELOAD-END",11); free(t); if(!whole){ snprintf(why,sizeof why,"the program at %s is not complete",bin); return 0; }
  if(fg!=want_fg){ snprintf(why,sizeof why,fg?"stays in the foreground where it must not":"goes to the background where it must not"); return 0; }
  if(!is(conf,S_IFREG)){ snprintf(why,sizeof why,"no configuration at %s",conf); return 0; } t=slurp(conf,0); int ok=t&&strstr(t,"[model]"); free(t); if(!ok){ snprintf(why,sizeof why,"the configuration at %s has no content",conf); return 0; }
  char d[300]; snprintf(d,sizeof d,"%s",st); *strrchr(d,'/')=0; if(!is(d,S_IFDIR)){ snprintf(why,sizeof why,"no directory %s for the state",d); return 0; } if(!under(d,writable)){ snprintf(why,sizeof why,"%s is not writable for the service",d); return 0; }
  snprintf(d,sizeof d,"%s",lg); *strrchr(d,'/')=0; if(!is(d,S_IFDIR)){ snprintf(why,sizeof why,"no directory %s for the log",d); return 0; } if(!under(d,writable)){ snprintf(why,sizeof why,"%s is not writable for the service",d); return 0; } return 1; }
static void set_active(const char*bin){ char b[400]; int n=snprintf(b,sizeof b,"active %lx\n",hash(bin)); spit(path("/sim/svc/active.%s"),b,n,0644); }
static void set_failed(void){ char b[400]; int n=snprintf(b,sizeof b,"failed %s\n",why); spit(path("/sim/svc/active.%s"),b,n,0644); note(b); }
static int active(void){ char*b=slurp(path("/sim/svc/active.%s"),0); int r=b&&!strncmp(b,"active",6); free(b); return r; }
static void stop_it(void){ if(active()&&!strcmp(U,"preload")&&is("/var/lib/preload",S_IFDIR)&&!is("/var/lib/preload/preload.state",S_IFREG)) spit("/var/lib/preload/preload.state","learned\n",8,0600); del(path("/sim/svc/active.%s")); }
static int sd_start(void){ if(active()) return 0; char c[600]; snprintf(c,sizeof c,"/sim/svc/loaded.%s",U); if(!is(c,S_IFREG)) load(); char*t=slurp(c,0); if(!t) return 5; char ex[800],rw[800],sd[200],ld[200],ps[50],ty[50],us[50],w[2000]; key(t,"ExecStart",ex,sizeof ex); key(t,"ReadWritePaths",rw,sizeof rw); key(t,"StateDirectory",sd,sizeof sd); key(t,"LogsDirectory",ld,sizeof ld); key(t,"ProtectSystem",ps,sizeof ps); key(t,"Type",ty,sizeof ty); key(t,"User",us,sizeof us); char ph[50],du[50]; key(t,"ProtectHome",ph,sizeof ph); key(t,"DynamicUser",du,sizeof du); free(t);
  if(strcmp("preload",U)){ set_active("/sim/stub"); return 0; }
  if(!ex[0]){ fprintf(stderr,"unit has no ExecStart\n"); return 1; }
  char d[300]; if(sd[0]){ snprintf(d,sizeof d,"/var/lib/%s",sd); syscall(SYS_mkdir,d,0755); } if(ld[0]){ snprintf(d,sizeof d,"/var/log/%s",ld); syscall(SYS_mkdir,d,0755); }
  char*sv=0,b[800]; snprintf(b,sizeof b,"%s",rw); for(char*x=strtok_r(b," ",&sv);x;x=strtok_r(0," ",&sv)){ if(*x=='-') continue; if(*x=='+') x++; struct stat s; if(stat(x,&s)){ snprintf(why,sizeof why,"name space: no %s",x); set_failed(); return 0; } }
  if(!strcmp(ps,"strict")) snprintf(w,sizeof w,"%s /dev /proc /sys%s%s%s%s",rw,sd[0]?" /var/lib/":"",sd,ld[0]?" /var/log/":"",ld); else if(!strcmp(ps,"full")||!strcmp(ps,"true")||!strcmp(ps,"yes")) snprintf(w,sizeof w,"/var /run /tmp /root /home%s",strcmp(ps,"full")?" /etc":""); else strcpy(w,"/");
  if((us[0]&&strcmp(us,"root"))||!strcmp(du,"yes")||!strcmp(du,"true")){ snprintf(why,sizeof why,"cannot see the programs of others as user %s",us); set_failed(); return 0; }
  if(!strcmp(ph,"yes")||!strcmp(ph,"true")||!strcmp(ph,"tmpfs")){ snprintf(why,sizeof why,"cannot see programs in home directories"); set_failed(); return 0; }
  char*p=ex; while(*p&&strchr("-@:+!",*p)) p++; char*sp=strchr(p,' '); char bin[400]; snprintf(bin,sizeof bin,"%.*s",sp?(int)(sp-p):(int)strlen(p),p); int fgw=!(ty[0]&&!strcmp(ty,"forking")); if(!works(bin,sp?sp+1:"",w,fgw)) set_failed(); else set_active(bin); return 0; }
static int sd_enabled(void){ struct stat s; return !lstat(path("/etc/systemd/system/multi-user.target.wants/%s.service"),&s); }
static int sd_verb(const char*v,const char*u){ unit(u); char*d=disk(); char link[600]; snprintf(link,sizeof link,"/etc/systemd/system/multi-user.target.wants/%s.service",U);
  if(!strcmp(v,"enable")){ if(!d){ fprintf(stderr,"Unit file %s.service does not exist.\n",U); return 1; } syscall(SYS_mkdir,"/etc/systemd/system/multi-user.target.wants",0755); char*t=slurp(d,0); char wb[200]; key(t,"WantedBy",wb,sizeof wb); free(t); if(!has(wb,"multi-user.target")){ fprintf(stderr,"no installation config\n"); return 0; } syscall(SYS_symlink,d,link); reload_all(); return 0; }
  if(!strcmp(v,"disable")){ struct stat s; int en=!lstat(link,&s); if(!d&&!en){ fprintf(stderr,"Unit file %s.service does not exist.\n",U); return 1; } del(link); reload_all(); return 0; }
  if(!strcmp(v,"start")) return sd_start();
  if(!strcmp(v,"stop")){ char c[600]; snprintf(c,sizeof c,"/sim/svc/loaded.%s",U); if(!d&&!is(c,S_IFREG)&&!active()) return 5; stop_it(); return 0; }
  if(!strcmp(v,"restart")||!strcmp(v,"reload-or-restart")){ stop_it(); return sd_start(); }
  if(!strcmp(v,"try-restart")||!strcmp(v,"condrestart")){ if(!active()) return 0; stop_it(); return sd_start(); }
  if(!strcmp(v,"reset-failed")){ if(!active()) del(path("/sim/svc/active.%s")); return 0; }
  return 0; }
static int openrc_start(void){ if(active()) return 0; char f[600]; snprintf(f,sizeof f,"/etc/init.d/%s",U); if(!is(f,S_IFREG)||access(f,X_OK)) return 1; if(strcmp("preload",U)){ set_active("/sim/stub"); return 0; } char*t=slurp(f,0); char cmd[400],args[800],bg[50],pf[200],a2[400]; key(t,"command",cmd,sizeof cmd); key(t,"command_args",args,sizeof args); key(t,"command_background",bg,sizeof bg); key(t,"pidfile",pf,sizeof pf); key(t,"command_args_foreground",a2,sizeof a2); int whole=!strncmp(t,"#!",2); free(t); if(!whole||!cmd[0]) return 1; int b=!strcmp(bg,"yes")||!strcmp(bg,"true"); if(b&&!pf[0]){ snprintf(why,sizeof why,"no pidfile"); set_failed(); return 1; } if(!works(cmd,args,"/",b)){ set_failed(); return 1; } set_active(cmd); return 0; }
static int fails(const char*w,int*after){ int e=step(w); *after=0; if(e==0) return 0; if(e==-2||e==-1){ *after=1; return 0; } return 1; }
int main(int c,char**v){ char*me=strrchr(v[0],'/'); me=me?me+1:v[0]; char w[600]=""; for(int i=0;i<c;i++){ if(i) strncat(w," ",sizeof w-strlen(w)-1); strncat(w,i?v[i]:me,sizeof w-strlen(w)-1); } note(w); int after=0;
  if(!strcmp(me,"systemctl")){ if(is("/sim/nosystemd",S_IFREG)) { fprintf(stderr,"System has not been booted with systemd as init system\n"); if(!(c>1&&!strcmp(v[1],"--version")&&!is("/sim/nosystemd_hard",S_IFREG))) return 1; } const char*verb=0; char*u[20]; int nu=0,now=0; for(int i=1;i<c;i++){ if(!strcmp(v[i],"--version")){ puts("systemd 255 (255.4)"); return 0; } if(!strcmp(v[i],"--now")) now=1; if(v[i][0]=='-') continue; if(!verb) verb=v[i]; else if(nu<20) u[nu++]=v[i]; }
    if(!verb) return 0; if(!strcmp(verb,"is-active")){ int r=3; for(int i=0;i<nu;i++){ unit(u[i]); if(active()) r=0; } if(!strstr(w,"-q")) puts(r?"inactive":"active"); return r; }
    if(!strcmp(verb,"is-enabled")){ int r=1; for(int i=0;i<nu;i++){ unit(u[i]); if(sd_enabled()) r=0; } if(!strstr(w,"-q")) puts(r?"disabled":"enabled"); return r; }
    if(!strcmp(verb,"is-failed")||!strcmp(verb,"status")){ if(nu) unit(u[0]); return strcmp(verb,"status")?1:active()?0:disk()?3:4; }
    if(!strcmp(verb,"list-unit-files")||!strcmp(verb,"list-units")||!strcmp(verb,"cat")||!strcmp(verb,"show")){ for(int i=0;i<nu;i++){ unit(u[i]); if(disk()){ printf("%s.service %s\n",U,sd_enabled()?"enabled":"disabled"); } else if(!strcmp(verb,"cat")) return 1; } return 0; }
    if(fails(w,&after)){ fprintf(stderr,"Failed to connect to bus\n"); return 1; }
    int r=0; if(!strcmp(verb,"daemon-reload")||!strcmp(verb,"daemon-reexec")) reload_all(); else if(!strcmp(verb,"enable")||!strcmp(verb,"disable")||!strcmp(verb,"start")||!strcmp(verb,"stop")||!strcmp(verb,"restart")||!strcmp(verb,"try-restart")||!strcmp(verb,"condrestart")||!strcmp(verb,"reload-or-restart")||!strcmp(verb,"reset-failed")) for(int i=0;i<nu;i++){ int q=sd_verb(verb,u[i]); if(q) r=q; if(now&&!q&&!strcmp(verb,"enable")){ q=sd_verb("start",u[i]); if(q) r=q; } if(now&&!strcmp(verb,"disable")) sd_verb("stop",u[i]); } else note("unmodelled"); return after?1:r; }
  if(!strcmp(me,"rc-service")){ const char*a[3]={0}; int n=0; for(int i=1;i<c&&n<3;i++) if(v[i][0]!='-') a[n++]=v[i]; if(n<2) return n==1&&is("/etc/init.d",S_IFDIR)?0:1; unit(a[0]); char f[600]; snprintf(f,sizeof f,"/etc/init.d/%s",U); if(!is(f,S_IFREG)&&!active()) return 1; if(!strcmp(a[1],"status")) return active()?0:3; if(fails(w,&after)) return 1; int r=0; if(!strcmp(a[1],"start")) r=openrc_start(); else if(!strcmp(a[1],"stop")){ if(!is(f,S_IFREG)) return 1; stop_it(); } else if(!strcmp(a[1],"restart")){ stop_it(); r=openrc_start(); } return after?1:r; }
  if(!strcmp(me,"rc-update")){ const char*a[4]={0}; int n=0; for(int i=1;i<c&&n<4;i++) if(v[i][0]!='-') a[n++]=v[i]; if(!n||!strcmp(a[0],"show")||!strcmp(a[0],"-s")){ DIR*d=opendir("/etc/runlevels/default"); struct dirent*e; while(d&&(e=readdir(d))) if(e->d_name[0]!='.') printf("%20s | default\n",e->d_name); return 0; } if(n<2) return 1; unit(a[1]); char f[600],l[600]; snprintf(f,sizeof f,"/etc/init.d/%s",U); snprintf(l,sizeof l,"/etc/runlevels/%s/%s",n>2?a[2]:"default",U); struct stat s; if(!strcmp(a[0],"add")){ if(fails(w,&after)) return 1; if(!is(f,S_IFREG)||access(f,X_OK)){ fprintf(stderr,"rc-update: service `%s' does not exist\n",U); return 1; } syscall(SYS_symlink,f,l); return after; } if(!strcmp(a[0],"del")||!strcmp(a[0],"delete")){ if(lstat(l,&s)){ fprintf(stderr,"rc-update: service `%s' is not in the runlevel\n",U); return 1; } if(fails(w,&after)) return 1; del(l); return after; } return 0; }
  if(!strcmp(me,"sudo")){ int i=1; while(i<c&&v[i][0]=='-') i++; if(i>=c) return 1; execvp(v[i],v+i); fprintf(stderr,"sudo: %s: command not found\n",v[i]); return 1; }
  if(!strcmp(me,"make")){ char*t="all"; for(int i=1;i<c;i++) if(v[i][0]!='-'&&!strchr(v[i],'=')) t=v[i]; for(int i=1;i+1<c;i++) if(!strcmp(v[i],"-C")&&chdir(v[i+1])) return 2; if(!is("Makefile",S_IFREG)) return 2; if(!strcmp(t,"distclean")||(strcmp(t,"all")&&strcmp(t,"clean")&&strcmp(t,"preload")&&strcmp(t,"test"))){ fprintf(stderr,"make: *** No rule to make target '%s'.  Stop.\n",t); return 2; } if(fails(w,&after)) return 2; if(!strcmp(t,"clean")){ del("preload"); del("preload.conf"); del("preload.state"); del("preload.log"); } else if(strcmp(t,"test")){ size_t n; char*b=slurp("/sim/built",&n); spit("preload",b,n,0755); if(!strcmp(t,"all")){ b=slurp("/sim/built.conf",&n); spit("preload.conf",b,n,0644); } } return after?2:0; }
  if(!strcmp(me,"nproc")){ puts("8"); return 0; }
  if(!strcmp(me,"hyperfine")){ unit("preload"); note(active()?"bench-active":"bench-inactive"); return fails(w,&after)?1:0; }
  if(!strncmp(me,"preload",7)){ char d[300]="/",a[1000]=""; (void)d; for(int i=1;i<c;i++){ strncat(a,v[i],200); strcat(a," "); } int ok=works(v[0],a,"/",1); note(ok?"run-ok":why); if(ok){ spit(st,"run by hand\n",12,0600); spit(lg,"log\n",4,0600); } return ok?0:1; }
  return 0; }
