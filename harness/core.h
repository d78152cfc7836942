// Shared runtime of the monitors: seeded randomness, verdict reporting, event
// counters, guarded buffers and guarded argument cells.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <vector>
#include <deque>
#include <algorithm>
#include <unistd.h>
#include <fcntl.h>

#if defined(__SANITIZE_ADDRESS__)
#define MON_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MON_ASAN 1
#endif
#endif
#ifndef MON_ASAN
#define MON_ASAN 0
#endif

typedef int64_t i64;
typedef uint64_t u64;

static inline u64 mix64(u64 z){ z+=0x9E3779B97F4A7C15ull; z=(z^(z>>30))*0xBF58476D1CE4E5B9ull;
  z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }

struct Rng {
  u64 s;
  explicit Rng(u64 seed=1):s(mix64(seed^0xA5A5A5A5DEADBEEFull)){}
  u64 next(){ s+=0x9E3779B97F4A7C15ull; u64 z=s; z=(z^(z>>30))*0xBF58476D1CE4E5B9ull;
    z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
  u64 below(u64 n){ return n? next()%n:0; }
  i64 range(i64 a,i64 b){ return a+(i64)below((u64)(b-a+1)); }   // inclusive
  i64 magic(i64 top){ static const i64 M[]={1,2,127,128,129,255,256,257,511,512,513,768,1023,1024,1025,2048,4095,4096,4097,8192,16384,32767,32768,32769,65535,65536,65537}; int k=0; while(k<27&&M[k]<=top) k++; return k?M[k-1-(int)below(k<4?k:4+below(k-3))%k]:0; } // a count at which narrow integers wrap
  bool chance(int permille){ return (int)below(1000)<permille; }
  void fill(void*p,size_t n){ unsigned char*c=(unsigned char*)p; while(n){ u64 v=next();
    size_t k=n<8?n:8; memcpy(c,&v,k); c+=k; n-=k; } }
  template<class T> T pick(const std::vector<T>&v){ return v[below(v.size())]; }
  int weighted(const int*w,int n){ int t=0; for(int i=0;i<n;i++)t+=w[i]; int x=(int)below(t);
    for(int i=0;i<n;i++){ if(x<w[i])return i; x-=w[i]; } return n-1; }
};

// n distinct legal tags: small ones, or tags that look alike in some part of their bits
inline std::vector<int> tag_pool(Rng&r,int n){
  const i64 UB=1681915906; std::vector<int> v; int mode=(int)r.below(10); i64 b=r.range(0,UB);
  for(int t=0;(int)v.size()<n;t++){ i64 x; i64 i=t>400?t:(i64)v.size();
    if(t>400&&t>2*n) mode=0;
    switch(mode){ case 1: x=(b&0xffff)+(r.range(0,UB>>16)<<16); break; case 2: x=(b&0xff)+(r.range(0,UB>>8)<<8); break; case 3: x=(b&0xffffff)+(r.range(0,UB>>24)<<24); break;
     case 4: x=b^((i64)1<<r.below(31)); break; case 5: x=UB-i; break; case 6:{ static const i64 e[]={0,1,127,128,255,256,32767,32768,65535,65536,65537,131072,16777215,16777216,0x40000000,0x3fffffff,UB}; x=e[r.below(17)]; break; }
     case 7: x=r.range(0,UB); break; case 8: x=i*1000003; break; default: x=i; }
    if(x<0||x>UB) continue; bool dup=false; for(int y:v) if(y==(int)x) dup=true; if(!dup) v.push_back((int)x); }
  return v; }
// ---- reporting -----------------------------------------------------------
extern int g_out;               // result channel
extern u64 g_case;              // index of the running case
extern u64 g_seed;              // batch seed
extern char g_what[512];        // description of the running case / step
[[noreturn]] void viol(const char*key,const char*fmt,...) __attribute__((format(printf,2,3)));
[[noreturn]] void inconclusive(const char*fmt,...) __attribute__((format(printf,1,2)));
void out_line(const char*fmt,...) __attribute__((format(printf,1,2)));
void sample(const char*fmt,...) __attribute__((format(printf,1,2)));   // keeps the first few per process
void mark_case(u64 idx);
void step(const char*fmt,...) __attribute__((format(printf,1,2)));     // rewrites g_what and the crash marker
void note_distinct(u64 h);      // one distinct, non-trivial case
void finish_stats();

// ---- event counters ------------------------------------------------------
int ev_id(const char*name);
struct EvTab { int n; char name[512][56]; long count[512]; };
extern EvTab*ev_tab;            // in shared memory: forked children count too
#define ev_count ev_tab->count
#define EV(name) do{ static int _id=ev_id(name); ev_count[_id]++; }while(0)
#define EVN(name,n) do{ static int _id=ev_id(name); ev_count[_id]+=(n); }while(0)
#define EVMAX(name,n) do{ static int _id=ev_id("max:" name); if(ev_count[_id]<(long)(n)) ev_count[_id]=(n); }while(0)

// ---- guarded memory ------------------------------------------------------
// With ASan every block has exactly the needed size; otherwise pattern-filled guard
// zones on both sides are verified whenever the block is checked or released.
struct GMem {
  unsigned char*raw; size_t n; size_t g;
  GMem():raw(0),n(0),g(0){}
  void alloc(size_t bytes,size_t guard=256){
    n=bytes; g=MON_ASAN?0:guard;
    raw=(unsigned char*)malloc(n+2*g?n+2*g:1);
    if(!raw){ fprintf(stderr,"harness: out of memory\n"); _exit(99); }
    for(size_t i=0;i<g;i++){ raw[i]=(unsigned char)(0xC3^i); raw[g+n+i]=(unsigned char)(0x3C^i); }
  }
  unsigned char*p()const{ return raw+g; }
  void check(const char*key,const char*what)const{
    for(size_t i=0;i<g;i++){
      if(raw[i]!=(unsigned char)(0xC3^i)) viol(key,"%s: byte %ld before the buffer was overwritten",what,(long)(g-i));
      if(raw[g+n+i]!=(unsigned char)(0x3C^i)) viol(key,"%s: byte %ld past the buffer was overwritten",what,(long)i);
    }
  }
  void release(){ free(raw); raw=0; }
};

// An exactly sized, guarded array of T used for a call's arguments.
template<class T> struct Cell {
  GMem m; size_t n;
  explicit Cell(size_t k):n(k){ m.alloc(k*sizeof(T),32); if(k) memset(m.p(),0x5A,k*sizeof(T)); }
  Cell(const T*src,size_t k):n(k){ m.alloc(k*sizeof(T),32); if(k) memcpy(m.p(),src,k*sizeof(T)); }
  ~Cell(){ m.check("arg-overrun","call argument"); if(n) memset(m.p(),0xA7,n*sizeof(T)); m.release(); } // what the library keeps of an argument is lost
  T*p(){ return (T*)m.p(); }
  T get(size_t i=0){ T t; memcpy(&t,m.p()+i*sizeof(T),sizeof(T)); return t; }
  void set(T v,size_t i=0){ memcpy(m.p()+i*sizeof(T),&v,sizeof(T)); }
  Cell(const Cell&)=delete; Cell&operator=(const Cell&)=delete;
};

static inline u64 hcomb(u64 h,u64 v){ return mix64(h^(v+0x9E3779B97F4A7C15ull+(h<<6)+(h>>2))); }

struct Opts {
  const char*engine; u64 seed; u64 from,to; int lang; const char*profile; const char*arg; int verbose;
};
extern Opts g_opt;

// ---- forked cases ----------------------------------------------------------
// A case that may end its process runs in a child; the user data it could harm lives in a
// shared arena, copied to a second one at the moment that matters.
struct Shared { volatile int phase, expect_die, check_data, need_stderr; size_t used; char what[512]; char key[64]; u64 hash; i64 made; };
extern Shared*sh; extern unsigned char*sh_arena,*sh_copy; const size_t SH_SIZE=1<<20;
extern int g_child;
void*arena(size_t n,Rng&r);            // random contents, guarded by the comparison of the whole arena
void arena_free_to(size_t mark);
struct ChildEnd { int status; bool timeout; std::vector<char> out,err; };
typedef void (*child_fn)(u64 seed);
ChildEnd run_child(child_fn f,u64 seed,int cpu_s=40,int wall_s=150);   // propagates verdicts reached inside the child
void judge_child(const ChildEnd&e);    // applies the rules for calls that must (not) end the process
void about_to(bool die,bool check_data,bool need_stderr,const char*fmt,...) __attribute__((format(printf,4,5)));
void survived();
const char*first_line(const ChildEnd&e);
