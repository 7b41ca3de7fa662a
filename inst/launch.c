// launch.c ROOT UID CWD PROG ARGS... -- runs a program as an unprivileged user inside its own user and process name space
// (UID may be followed by a colon and the umask) with ROOT as file system root: to the program its user is UID (0: root), outside it is "nobody" and can reach nothing real.
#define _GNU_SOURCE
#include <fcntl.h>
#include <grp.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <sys/stat.h>
static void put(const char*p,const char*t){ int fd=open(p,O_WRONLY); if(fd<0||write(fd,t,strlen(t))<0){ perror(p); _exit(99); } close(fd); }
int main(int c,char**v){ if(c<5) return 99; int nul=open("/dev/null",O_RDWR); dup2(nul,200); close(nul); personality(ADDR_NO_RANDOMIZE); struct rlimit r={64<<20,64<<20}; setrlimit(RLIMIT_FSIZE,&r); r.rlim_cur=r.rlim_max=0; setrlimit(RLIMIT_CORE,&r);
  if(chdir(v[1])){ perror(v[1]); return 99; }
  if(geteuid()==0){ setgroups(0,0); if(setresgid(65534,65534,65534)||setresuid(65534,65534,65534)){ perror("setuid"); return 99; } prctl(PR_SET_DUMPABLE,1); }
  int um=022; char*cm=strchr(v[2],':'); if(cm){ *cm=0; um=(int)strtol(cm+1,0,8); } int g=getgid(),u=getuid(); if(u==0){ fprintf(stderr,"still root\n"); return 99; } if(unshare(CLONE_NEWUSER|CLONE_NEWPID|CLONE_NEWNET|CLONE_NEWIPC)){ perror("unshare"); return 99; } char b[80]; put("/proc/self/setgroups","deny"); snprintf(b,80,"%s %d 1",v[2],g); put("/proc/self/gid_map",b); snprintf(b,80,"%s %d 1",v[2],u); put("/proc/self/uid_map",b);
  if(chroot(".")||chdir(v[3])){ perror("chroot"); return 99; }
  pid_t p=fork(); if(p<0) return 99; if(p){ int s; while(waitpid(p,&s,0)<0); return WIFEXITED(s)?WEXITSTATUS(s):98; }
  prctl(PR_SET_PDEATHSIG,SIGKILL); // the first process of the name space: its end ends all others
  signal(SIGINT,SIG_IGN); pid_t q=fork(); if(q<0) _exit(99); if(!q){ signal(SIGINT,SIG_DFL); setsid(); char path[600]; snprintf(path,sizeof path,"PATH=/sim/bin:/usr/bin"); char*e[]={path,"HOME=/root","LC_ALL=C","TERM=dumb","ISIM_ID=0","LD_PRELOAD=/sim/shim.so",0}; umask(um); execve(v[4],v+4,e); perror("exec"); _exit(99); }
  int s; for(;;){ pid_t w=waitpid(q,&s,0); if(w==q) break; } _exit(WIFEXITED(s)?WEXITSTATUS(s):128+WTERMSIG(s)); }
