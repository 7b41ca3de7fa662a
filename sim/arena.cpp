// Shared arena: every C++ object of a run lives here, so that the daemon's lifetimes and helper processes
// (real forks) all act on the same simulated world.
#include "world.h"
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <stdlib.h>
#include <string.h>
#include <new>
static char*const ABASE=(char*)0x200000000000ull; static const size_t ASIZE=1ull<<31;
struct AHdr { size_t bump; void*freel[64]; };
static AHdr*A=nullptr;
static long rawsys(long n,long a,long b,long c,long d,long e,long f){ long r; register long r10 asm("r10")=d; register long r8 asm("r8")=e; register long r9 asm("r9")=f;
  asm volatile("syscall":"=a"(r):"a"(n),"D"(a),"S"(b),"d"(c),"r"(r10),"r"(r8),"r"(r9):"rcx","r11","memory"); return r; }
void arena_init(){
  if(A) rawsys(SYS_munmap,(long)ABASE,ASIZE,0,0,0,0);
  long r=rawsys(SYS_mmap,(long)ABASE,ASIZE,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_FIXED|MAP_NORESERVE,-1,0);
  if(r!=(long)ABASE){ const char m[]="arena mmap failed\n"; rawsys(SYS_write,2,(long)m,sizeof m-1,0,0,0); rawsys(SYS_exit_group,3,0,0,0,0,0);} 
  A=(AHdr*)ABASE; A->bump=sizeof(AHdr);
}
size_t arena_used(){ return A?A->bump:0; }
// size classes: 16-byte steps to 1 KiB, then powers of two
static inline int cls(size_t n,size_t&sz){ if(n<=512){ int c=(int)((n+15)/16); if(!c)c=1; sz=(size_t)c*16; return c; } int c=33; sz=1024; while(sz<n){ sz<<=1; c++; } return c; }
static void* aalloc(size_t n){ size_t sz; int c=cls(n,sz); void*p=A->freel[c]; if(p){ A->freel[c]=*(void**)p; return p; }
  size_t need=sz+16; if(A->bump+need>ASIZE){ const char m[]="arena exhausted\n"; rawsys(SYS_write,2,(long)m,sizeof m-1,0,0,0); rawsys(SYS_exit_group,3,0,0,0,0,0);} 
  char*q=ABASE+A->bump; A->bump+=(need+15)&~15ull; *(size_t*)q=n; ((int*)q)[2]=c; return q+16; }
static void afree(void*p){ int c=((int*)((char*)p-16))[2]; *(void**)p=A->freel[c]; A->freel[c]=p; }
void* operator new(size_t n){ if(A) return aalloc(n); void*p=malloc(n); if(!p) abort(); return p; }
void* operator new[](size_t n){ return operator new(n); }
void* operator new(size_t n,const std::nothrow_t&) noexcept { return operator new(n); }
void* operator new[](size_t n,const std::nothrow_t&) noexcept { return operator new(n); }
void operator delete(void*p) noexcept { if(!p) return; if((char*)p>=ABASE&&(char*)p<ABASE+ASIZE){ if(A) afree(p); } else free(p); }
void operator delete[](void*p) noexcept { operator delete(p); }
void operator delete(void*p,size_t) noexcept { operator delete(p); }
void operator delete[](void*p,size_t) noexcept { operator delete(p); }
