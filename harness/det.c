/* det.c - preload library: addresses grow with every allocation and are never reused, fresh memory has a chosen content;
   the n-th allocation can fail (once or for good) or raise a signal.
   VERIF_FILL=byte  VERIF_FAIL=n[+]  VERIF_SIG=n:signal  VERIF_COUNT=file (8 bytes, number of allocations) */
#define _GNU_SOURCE
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <signal.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
static char*base,*cur,*lim; static long count,failAt=-1,sigAt=-1; static int persist,sig,fill=0; static volatile long*shared;
static void init(void){ size_t n=(size_t)6<<30; base=mmap((void*)0x200000000000UL,n,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(base==MAP_FAILED) _exit(99); cur=base; lim=base+n;
  char*e; if((e=getenv("VERIF_FILL"))) fill=atoi(e); if((e=getenv("VERIF_FAIL"))){ failAt=atol(e); persist=strchr(e,'+')!=NULL; } if((e=getenv("VERIF_SIG"))){ sigAt=atol(e); e=strchr(e,':'); sig=e?atoi(e+1):15; }
  if((e=getenv("VERIF_COUNT"))){ int fd=open(e,O_RDWR|O_CREAT,0600); if(fd>=0){ if(ftruncate(fd,8)==0){ void*p=mmap(NULL,8,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); if(p!=MAP_FAILED) shared=p; } close(fd); } } }
static void*get(size_t n,size_t al,int zero){ if(!base) init(); long c=count++; if(shared) *shared=count; if(c==sigAt){ raise(sig); } if(failAt>=0&&(persist?c>=failAt:c==failAt)){ errno=ENOMEM; return NULL; }
  if(al<16) al=16; uintptr_t p=((uintptr_t)cur+16+al-1)/al*al; if(n>(size_t)(lim-(char*)p)-64){ errno=ENOMEM; return NULL; } cur=(char*)p+n; ((size_t*)p)[-1]=n; if(!zero&&fill&&n<((size_t)64<<20)) memset((void*)p,fill,n); return (void*)p; }
void*malloc(size_t n){ return get(n,16,0); }
void*calloc(size_t a,size_t b){ if(b&&a>SIZE_MAX/b){ errno=ENOMEM; return NULL; } return get(a*b,16,1); }
void free(void*p){ (void)p; }
void*realloc(void*p,size_t n){ if(!p) return malloc(n); size_t o=((size_t*)p)[-1]; void*q=get(n,16,0); if(!q) return NULL; memcpy(q,p,o<n?o:n); return q; }
void*memalign(size_t a,size_t n){ return get(n,a,0); }
void*aligned_alloc(size_t a,size_t n){ return get(n,a,0); }
int posix_memalign(void**r,size_t a,size_t n){ void*p=get(n,a,0); if(!p) return ENOMEM; *r=p; return 0; }
size_t malloc_usable_size(void*p){ return p?((size_t*)p)[-1]:0; }
