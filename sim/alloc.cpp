// The allocator seam: every allocation of the daemon (and of GLib for it) is counted, may carry a trigger
// (a signal in the middle of malloc), and is poisoned so that use of uninitialised or freed memory shows.
#include "world.h"
#include <errno.h>
#include <string.h>
#include <malloc.h>
void seam_alloc();
#define COUNTING (g_in_daemon && W && W->life.active && !CUR().helper && !CUR().launcher)
#ifndef SIM_ASAN
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t,size_t); void* __libc_realloc(void*,size_t); void* __libc_memalign(size_t,size_t); }
static inline void acct(void*p,int sign){ if(!p) return; i64 n=(i64)malloc_usable_size(p); W->live_bytes+=sign*n; W->live_allocs+=sign; }
extern "C" void* malloc(size_t n){ bool c=COUNTING; if(c) seam_alloc(); void*p=__libc_malloc(n); if(c&&p){ memset(p,0xA5,n); acct(p,1); } return p; }
extern "C" void free(void*p){ if(!p) return; int e=errno; if(COUNTING){ seam_alloc(); acct(p,-1); memset(p,0xDD,malloc_usable_size(p)); } __libc_free(p); errno=e; }
extern "C" void* calloc(size_t a,size_t b){ bool c=COUNTING; if(c) seam_alloc(); void*p=__libc_calloc(a,b); if(c&&p) acct(p,1); return p; }
extern "C" void* realloc(void*q,size_t n){ bool c=COUNTING; if(c){ seam_alloc(); if(q) acct(q,-1);} void*p=__libc_realloc(q,n); if(c&&p) acct(p,1); return p; }
extern "C" void* memalign(size_t a,size_t n){ bool c=COUNTING; if(c) seam_alloc(); void*p=__libc_memalign(a,n); if(c&&p) acct(p,1); return p; }
extern "C" void* aligned_alloc(size_t a,size_t n){ return memalign(a,n); }
extern "C" int posix_memalign(void**o,size_t a,size_t n){ void*p=memalign(a,n); if(!p) return ENOMEM; *o=p; return 0; }
extern "C" void* valloc(size_t n){ return memalign(4096,n); }
void alloc_init(){}
#else
extern "C" int __sanitizer_install_malloc_and_free_hooks(void(*)(const volatile void*,size_t),void(*)(const volatile void*));
static void on_malloc(const volatile void*,size_t n){ if(!COUNTING) return; W->live_allocs++; W->live_bytes+=n; seam_alloc(); }
static void on_free(const volatile void*p){ if(!p||!COUNTING) return; W->live_allocs--; seam_alloc(); }
void alloc_init(){ __sanitizer_install_malloc_and_free_hooks(on_malloc,on_free); }
#endif
