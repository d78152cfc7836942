#include "alloc.h"
#include <sys/mman.h>
#include <errno.h>
AllocMon*am;
static AllocMon local_;              // used until alloc_init
static inline AllocMon*A(){ return am?am:&local_; }
void alloc_init(){ if(am) return; AllocMon*p=(AllocMon*)mmap(0,sizeof *p,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); if(p==MAP_FAILED) _exit(98); *p=local_; am=p; }
void alloc_reset_faults(){ A()->fail_at=A()->fail_from=0; A()->n=0; A()->failed=0; }
#ifdef VARIANT_ALLOC
namespace {
struct Hd { u64 magic; size_t n; void*orig; u64 pad; };
const u64 MAGIC=0x616C6C6F63210000ull;
bool fault(void*site){
  AllocMon*a=A(); a->n++; bool known=false; for(long i=0;i<a->sites;i++) if(a->site[i]==site) known=true; if(!known&&a->sites<256) a->site[a->sites++]=site;
  if((a->fail_at&&a->n==a->fail_at)||(a->fail_from&&a->n>=a->fail_from)){ a->failed++; errno=ENOMEM; return true; } return false; }
void*get(size_t n,size_t al){ size_t h=al>sizeof(Hd)?al:sizeof(Hd); void*o=0; if(posix_memalign(&o,al<16?16:al,h+n)) _exit(99); unsigned char*u=(unsigned char*)o+h; Hd*d=(Hd*)(u-sizeof(Hd)); d->magic=MAGIC; d->n=n; d->orig=o; A()->live++; A()->bytes+=(long)n; memset(u,0xA7,n); return u; }
Hd*head(void*p){ Hd*d=(Hd*)((unsigned char*)p-sizeof(Hd)); if(d->magic!=MAGIC){ viol("bad-free","the library releases a block it does not own or has released before"); } return d; }
void put(void*p){ Hd*d=head(p); d->magic=0xDEAD; A()->live--; A()->bytes-=(long)d->n; memset(p,0xDB,d->n); free(d->orig); }
}
#define SITE __builtin_return_address(0)
extern "C" {
void*vfa_malloc(size_t n){ return fault(SITE)?0:get(n,16); }
void*vfa_calloc(size_t a,size_t b){ size_t n; if(__builtin_mul_overflow(a,b,&n)||fault(SITE)) return 0; void*p=get(n,16); memset(p,0,n); return p; }
void vfa_free(void*p){ if(p) put(p); }
void*vfa_realloc(void*p,size_t n){ if(fault(SITE)) return 0; void*q=get(n,16); if(p){ Hd*d=head(p); memcpy(q,p,d->n<n?d->n:n); put(p); } return q; }
void*vfa_reallocarray(void*p,size_t a,size_t b){ size_t n; if(__builtin_mul_overflow(a,b,&n)||fault(SITE)) return 0; void*q=get(n,16); if(p){ Hd*d=head(p); memcpy(q,p,d->n<n?d->n:n); put(p); } return q; }
char*vfa_strdup(const char*s){ if(fault(SITE)) return 0; size_t n=strlen(s)+1; return (char*)memcpy(get(n,16),s,n); }
char*vfa_strndup(const char*s,size_t k){ if(fault(SITE)) return 0; size_t n=strnlen(s,k); char*p=(char*)get(n+1,16); memcpy(p,s,n); p[n]=0; return p; }
void*vfa_aligned_alloc(size_t al,size_t n){ return fault(SITE)?0:get(n,al); }
void*vfa_memalign(size_t al,size_t n){ return fault(SITE)?0:get(n,al); }
void*vfa_valloc(size_t n){ return fault(SITE)?0:get(n,4096); }
int vfa_posix_memalign(void**r,size_t al,size_t n){ if(fault(SITE)) return ENOMEM; *r=get(n,al); return 0; }
}
#endif
