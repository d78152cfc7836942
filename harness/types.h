// Executable model of MPI datatypes (typemap rules), a generator of random nested types,
// and layout-aware guarded buffers.
#pragma once
#include "api.h"

struct Basic { const char*name; int h; int nel; int esize[2]; int ealign[2]; int edisp[2]; int ext; int cls[2]; bool fort; };
extern std::vector<Basic> g_basic;         // every named datatype except the bound markers
void basics_init();

struct Elem { i64 disp; int size; int align; int cls; };
struct MT {                                 // model of one datatype
  int h=0; std::vector<Elem> map; i64 lb=0,ub=0; bool olb=false,oub=false; bool committed=false,named=false;
  int units=0;                              // how many signature units one item holds
  i64 extent()const{ return ub-lb; }
  i64 size()const{ i64 s=0; for(auto&e:map)s+=e.size; return s; }
  void span(i64 count,i64&lo,i64&hi)const;   // bytes touched by count items; lo==hi when none
  bool overlaps(i64 count)const;
  char desc[160];
  MT(){ desc[0]=0; }
};
MT mt_named(const Basic&b);
struct Block { int bl; i64 disp; const MT*t; int marker; };   // marker: 0 type, 1 LB, 2 UB
// typemap rules; ambiguous=true when only the lower bound is overridden (padding unspecified)
MT mt_struct(const std::vector<Block>&b,bool&ambiguous);
// asks the library for the geometry of t and compares; resolves the ambiguous case
void mt_verify(MT&t,bool ambiguous,const char*how);

struct TypeGen {
  Rng&r; std::vector<int> unit; // basic indices
  int max_el=48; i64 max_span=1<<16; bool markers=true, verify=true, allow_empty=true;
  bool free_inner=true, negative=false, wide=false;  // wide: long blocks, far displacements
  // negative: upper bounds below lower bounds
  explicit TypeGen(Rng&rr):r(rr){}
  void pick_unit(bool pairs_ok,bool single);
  MT base();                    // the unit itself as a type (possibly a named type)
  MT derive(const MT&old);      // one random constructor over old
  MT mixture(const MT&old); MT gen(int depth);            // nested; inner types are freed at random moments
  std::vector<int> garbage;     // inner handles to be freed later
  void collect(){ for(int h:garbage) api::type_free(&h); garbage.clear(); }
};

// Buffer shaped for count items of a type: exact span, guarded, shadowed.
struct LBuf {
  GMem m; i64 lo=0,hi=0; std::vector<unsigned char> shadow;
  void make(const MT&t,i64 count,Rng&r,i64 extra=0);     // random contents
  void make_span(i64 lo_,i64 hi_,Rng&r);
  void*user()const{ return (void*)((uintptr_t)m.p()-(uintptr_t)lo); }
  unsigned char*at(i64 off)const{ return m.p()+(off-lo); }
  unsigned char*sh(i64 off){ return shadow.data()+(off-lo); }
  void check(const char*key,const char*what);            // whole buffer equals shadow, guards intact
  void scribble_release(Rng&r){ if(m.raw){ r.fill(m.p(),m.n); m.release(); } }
  void release(){ if(m.raw) m.release(); }
};
static inline const Elem&el_at(const MT&t,i64 i,i64&off){ i64 n=(i64)t.map.size(); const Elem&e=t.map[i%n]; off=e.disp+(i/n)*t.extent(); return e; }
// the model's copy of the first n elements of (src buffer,type) into the shadow of (dst,type)
void model_read(const LBuf&b,const MT&t,i64 n,std::vector<unsigned char>&out,i64 base=0);
void model_write(LBuf&b,const MT&t,i64 n,const unsigned char*in,i64 base=0);

// item counts that give both types the same signature; false when there are none within the limit
bool pair_counts(const MT&a,const MT&b,Rng&r,i64 maxel,i64&ca,i64&cb);
// commits t through its handle unless it is already usable
void ensure_committed(MT&t);
void free_type_h(MT&t);
// the address calls give the address
inline void check_address(const void*a){ i64 x=api::address(a); if(x!=(i64)(intptr_t)a) viol("address","the address of %p is given as %lx",a,(long)x); EV("addresses checked"); }
