// Layouts beyond 32 bits: sparse buffers of which only the pages the typemap names are
// mapped, so a misplaced access faults or shows up in the compared pages.
#include "types.h"
#include <sys/mman.h>
namespace {
i64 G=1ll<<30; const i64 PG=4096; bool gaps=false;
// Profile "gaps" (address sanitizer only): the same layouts at a small scale, with every byte
// the typemap does not name poisoned while the library works.
#if MON_ASAN
extern "C" { void __asan_poison_memory_region(void const volatile*,size_t); void __asan_unpoison_memory_region(void const volatile*,size_t); }
#endif
i64 half(){ return gaps?40*PG:36*G; }
struct Sparse {
  unsigned char*mid=0; unsigned char*user=0; std::vector<i64> pages; std::vector<unsigned char> shadow; bool open_=false;
  void reserve(){ if(mid) return;
    if(gaps){ mid=(unsigned char*)malloc(2*half()); if(!mid) _exit(99); mid+=half(); return; }
    i64 HALF=half(); unsigned char*p=(unsigned char*)mmap(0,2*HALF,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(p==MAP_FAILED){ inconclusive("cannot reserve address space"); } mid=p+HALF; }
  void begin(Rng&r){ reserve(); pages.clear(); shadow.clear(); user=mid+(gaps?0:(i64)r.range(-64,64)*16*PG)+(i64)r.below(PG/16)*16; el.clear(); }
  std::vector<std::pair<i64,i64>> el; void want(i64 off,i64 n){ el.push_back({off,n}); i64 a=(user-mid)+off; for(i64 p=fl(a);p<=fl(a+n-1);p++) pages.push_back(p); }
  static i64 fl(i64 a){ return a>=0?a/PG:-((-a+PG-1)/PG); }
  void map(Rng&r){ std::sort(pages.begin(),pages.end()); pages.erase(std::unique(pages.begin(),pages.end()),pages.end()); shadow.resize(pages.size()*PG);
    for(size_t i=0;i<pages.size();i++){ if(!gaps&&mprotect(mid+pages[i]*PG,PG,PROT_READ|PROT_WRITE)) inconclusive("cannot map a page"); r.fill(&shadow[i*PG],PG); memcpy(mid+pages[i]*PG,&shadow[i*PG],PG); } EVN("sparse pages mapped",pages.size());
#if MON_ASAN
    if(gaps){ i64 in=0; __asan_poison_memory_region(mid-half(),2*half()); for(auto&e:el){ __asan_unpoison_memory_region(user+e.first,e.second); in+=e.second; } EVN("gap bytes poisoned",pages.size()*PG-in); }
#endif
  }
  unsigned char*sh(i64 off){ i64 a=(user-mid)+off,p=fl(a); size_t i=std::lower_bound(pages.begin(),pages.end(),p)-pages.begin(); if(i>=pages.size()||pages[i]!=p) abort(); return &shadow[i*PG+(a-p*PG)]; }
  // an element may straddle pages that are not neighbours in the shadow
  void rd(i64 off,int n,unsigned char*o){ for(int i=0;i<n;i++) o[i]=*sh(off+i); }
  void wr(i64 off,int n,const unsigned char*o){ for(int i=0;i<n;i++) *sh(off+i)=o[i]; }
  void check(const char*what){
#if MON_ASAN
    if(gaps) __asan_unpoison_memory_region(mid-half(),2*half());
#endif
    for(size_t i=0;i<pages.size();i++) if(memcmp(mid+pages[i]*PG,&shadow[i*PG],PG)){ i64 k=0; while(mid[pages[i]*PG+k]==shadow[i*PG+k]) k++; viol("big-data","%s: byte at offset %ld of the buffer is %02x, expected %02x",what,(long)(mid+pages[i]*PG+k-user),mid[pages[i]*PG+k],shadow[i*PG+k]); } }
  void end(){ if(gaps){ pages.clear(); return; } for(i64 p:pages){ void*q=mmap(mid+p*PG,PG,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0); if(q==MAP_FAILED) inconclusive("cannot unmap"); } pages.clear(); }
};
Sparse A,B;
i64 dist(Rng&r,i64 lim){ // a distance at or beyond a limit of 32-bit arithmetic
  i64 v; switch(r.below(6)){ case 0: v=2*G; break; case 1: v=4*G; break; case 2: v=3*G; break; case 3: v=G; break; case 4: v=r.range(2*G,lim); break; default: v=6*G; }
  v+=r.chance(500)?r.range(-64,64)*16:r.chance(500)?r.range(-3,3):r.range(0,G/2); if(v>lim) v=lim-(i64)r.below(PG); return v; }
MT big_derive(Rng&r,const MT&old,i64 lim){
  i64 ext=old.extent(),lo,hi; old.span(1,lo,hi); bool nr=old.ub>=G||old.lb<=-G||ext>=G; MT t; bool amb=false; std::vector<Block> bs; int h=0; char nm[24]; int n=(int)r.range(1,3); if(n==1&&r.chance(700)) n=2;
  int k=(int)r.below(9); if((k==1||k==4||k==5)&&(ext<=0||lim/ext<2||dist(r,lim)/ext>INT32_MAX)) k=6; i64 sg=r.chance(350)?-1:1; auto blk=[&](){ return nr?(r.chance(400)?2:1):(int)r.range(1,3); };
  // one block may itself be wide when the old type is
  switch(k){
   case 0:{ n=(int)r.range(1,nr?3:4); snprintf(nm,sizeof nm,"contig"); for(int i=0;i<n;i++) bs.push_back(Block{1,i*ext,&old,0}); api::type_contiguous(n,old.h,&h); break; }
   case 1:{ int bl=blk(); i64 st=sg*std::min<i64>(INT32_MAX,std::max<i64>(bl,dist(r,lim)/ext/(n>1?n-1:1))); if(st*ext*(n-1)>lim||st*ext*(n-1)<-lim) st=sg*std::max<i64>(bl,lim/ext/n); snprintf(nm,sizeof nm,"vector"); for(int i=0;i<n;i++) bs.push_back(Block{bl,i*st*ext,&old,0}); api::type_vector(n,bl,(int)st,old.h,&h); break; }
   case 2: case 3:{ int bl=blk(); i64 st=sg*(dist(r,lim)/(r.chance(500)&&n>1?n-1:1)); snprintf(nm,sizeof nm,"hvector"); for(int i=0;i<n;i++) bs.push_back(Block{bl,i*st,&old,0}); api::type_hvector(n,bl,st,old.h,&h,k==3); break; }
   case 4: case 5:{ snprintf(nm,sizeof nm,k==4?"indexed":"iblock"); std::vector<int> bl(n,blk()),d(n); for(int i=0;i<n;i++){ if(k==4) bl[i]=blk(); i64 x=i==0&&r.chance(500)?(i64)r.below(3):(r.chance(350)?-1:1)*std::min<i64>(INT32_MAX,dist(r,lim)/ext); d[i]=(int)x; bs.push_back(Block{bl[i],x*ext,&old,0}); }
     if(k==4) api::type_indexed(n,bl.data(),d.data(),old.h,&h); else api::type_indexed_block(n,bl[0],d.data(),old.h,&h); break; }
   case 6:{ snprintf(nm,sizeof nm,"hindexed"); std::vector<int> bl(n); std::vector<i64> d(n); for(int i=0;i<n;i++){ bl[i]=blk(); d[i]=i==0&&r.chance(400)?(i64)r.below(64):(r.chance(350)?-1:1)*dist(r,lim); bs.push_back(Block{bl[i],d[i],&old,0}); } api::type_hindexed(n,bl.data(),d.data(),old.h,&h); break; }
   case 7:{ snprintf(nm,sizeof nm,"struct"); std::vector<int> bl,hs; std::vector<i64> d; int mk=(int)r.below(4); 
     for(int i=0;i<n;i++){ int b=blk(); i64 x=i==0&&r.chance(600)?(i64)r.below(64):(r.chance(350)?-1:1)*dist(r,lim); bs.push_back(Block{b,x,&old,0}); bl.push_back(b); d.push_back(x); hs.push_back(old.h); }
     if(mk&1){ i64 x=-(r.chance(500)?(i64)r.below(100):dist(r,lim)); bs.push_back(Block{1,x,0,1}); bl.push_back(1); d.push_back(x); hs.push_back(MPI_LB); EV("LB marker"); }
     if(mk&2){ i64 x=dist(r,lim); bs.push_back(Block{1,x,0,2}); bl.push_back(1); d.push_back(x); hs.push_back(MPI_UB); EV("UB marker"); }
     api::type_struct((int)hs.size(),bl.data(),d.data(),hs.data(),&h); break; }
   default: api::type_dup(old.h,&h); t=old; t.h=h; t.named=false; mt_verify(t,false,"dup"); return t; }
  t=mt_struct(bs,amb); t.h=h; int items=0; for(auto&b:bs) if(!b.marker) items+=b.bl; t.units=items*old.units; snprintf(t.desc,sizeof t.desc,"%s%d(%.100s)",nm,n,old.desc);
  EV("type constructed"); if(t.extent()>INT32_MAX||t.lb<INT32_MIN||t.ub>UINT32_MAX) EV("bounds beyond 32 bits"); mt_verify(t,amb,nm); return t; }
void drop(MT&t){ if(!t.named&&t.h) free_type_h(t); t.h=0; }
MT big_type(Rng&r,TypeGen&g,i64 lim,int maxel){ // never empty
  MT t=g.base(); int depth=(int)r.range(1,3);
  for(int i=0;i<depth;i++){ MT n=big_derive(r,t,lim/(1<<(depth-1-i))); i64 lo,hi; n.span(1,lo,hi); if((int)n.map.size()>maxel||lo<-lim||hi>lim||n.extent()<0||n.extent()>lim){ drop(n); continue; } if(!t.named) drop(t); t=n; }
  return t; }
struct Side { Sparse*b; MT*t; i64 n; i64 base; };
void elems(const Side&s,std::vector<std::pair<i64,int>>&v,i64 maxel=-1){ v.clear(); i64 m=s.n*(i64)s.t->map.size(); if(maxel>=0&&m>maxel) m=maxel; for(i64 i=0;i<m;i++){ i64 o; const Elem&e=el_at(*s.t,i,o); v.push_back({o+s.base,e.size}); } }
bool fits(const Side&s,i64 lim){ i64 lo,hi; s.t->span(s.n,lo,hi); return lo+s.base>=-lim&&hi+s.base<=lim&&!s.t->overlaps(s.n); }
u64 H; void hh(u64 x){ H=hcomb(H,x); }
const char*OPN[]={"isend/irecv","irecv/isend","irecv/send","isend/recv","sendrecv","gather","gatherv","allgather","allgatherv","scatter","scatterv","alltoall","alltoallv","alltoallw","reduce","allreduce","reduce_scatter","scan","pack","unpack"};
void move_case(Rng&r){
  TypeGen g(r); g.verify=true; g.allow_empty=false; MT ta,tb; Side a,b; const i64 LIM=gaps?7*PG:16*G;
  for(int tries=0;;tries++){ g.pick_unit(true,r.chance(500)); ta=big_type(r,g,LIM,24); tb=r.chance(200)?g.base():big_type(r,g,LIM,24); i64 ca,cb; int op=0; (void)op;
    if(ta.units&&tb.units&&pair_counts(ta,tb,r,60,ca,cb)&&ca>0){ a=Side{&A,&ta,ca,0}; b=Side{&B,&tb,cb,0}; if(fits(a,LIM)&&fits(b,LIM)) break; }
    drop(ta); drop(tb); if(tries>200){ EV("no pair found"); return; } }
  ensure_committed(ta); ensure_committed(tb); int op=(int)r.below(20); int comm=MPI_COMM_WORLD; if(r.chance(200)) api::comm_dup(comm,&comm);
  int sd=0,rd=0; auto disp=[&](const MT&t){ if(t.extent()<=0) return (int)r.range(-5,5); if(gaps) return (int)(r.range(-PG,PG)/t.extent()); i64 x=dist(r,LIM)/t.extent(); if(x>INT32_MAX) x=INT32_MAX; return (int)(r.chance(400)?-x:x); };
  bool shorter=op<5&&r.chance(200);
  if(op==6||op==8||op==12) rd=disp(tb); if(op==10||op==12) sd=disp(ta);
  if(op==13&&gaps){ sd=(int)r.range(-PG,PG); rd=(int)r.range(-PG,PG); a.base=sd; b.base=rd; }
  else if(op==13){ sd=(int)(r.chance(500)?r.range(INT32_MIN+1,INT32_MAX):INT32_MAX-(i64)r.below(9)); rd=(int)(r.chance(500)?r.range(INT32_MIN+1,INT32_MAX):INT32_MIN+1+(i64)r.below(9)); a.base=sd; b.base=rd; }
  else { a.base=(i64)sd*ta.extent(); b.base=(i64)rd*tb.extent(); }
  if(op>=14&&op<=17){ if(!tb.named) drop(tb); tb=ta; b=Side{&B,&tb,a.n,0}; } // one type on both sides
  if(shorter&&a.n>1) a.n=(i64)r.range(0,a.n);
  std::vector<std::pair<i64,int>> ea,eb; elems(a,ea); elems(b,eb,(i64)ea.size()); std::vector<std::pair<i64,int>> all; elems(b,all); i64 bytes=0; for(auto&e:ea) bytes+=e.second;
  A.begin(r); B.begin(r); if(op!=19) for(auto&e:ea) A.want(e.first,e.second); if(op!=18) for(auto&e:all) B.want(e.first,e.second); A.map(r); B.map(r);
  void*s=A.user,*q=B.user; int n=(int)a.n,m=(int)b.n; GMem pk; i64 wide=0; for(auto&e:ea) wide=std::max<i64>(wide,std::llabs((long long)e.first)); for(auto&e:all) wide=std::max<i64>(wide,std::llabs((long long)e.first));
  step("%s of %d x %s displ %d into %d x %s displ %d",OPN[op],n,ta.desc,sd,m,tb.desc,rd); int q1,q2,tag=(int)r.below(100); MPI_Status st; bool have=false;
  hh(op); hh(wide); for(auto&e:ea) hh(e.first); for(auto&e:all) hh(e.first);
  if(op<18) for(size_t i=0;i<ea.size();i++){ unsigned char x[64]; A.rd(ea[i].first,ea[i].second,x); B.wr(eb[i].first,eb[i].second,x); }
  std::vector<unsigned char> flat;
  switch(op){
   case 0: api::isend(s,n,ta.h,0,tag,comm,&q1); api::irecv(q,m,tb.h,0,tag,comm,&q2); api::wait(&q2,&st); api::wait(&q1,MPI_STATUS_IGNORE); have=true; break;
   case 1: api::irecv(q,m,tb.h,0,tag,comm,&q2); api::isend(s,n,ta.h,0,tag,comm,&q1); api::wait(&q2,&st); api::wait(&q1,MPI_STATUS_IGNORE); have=true; break;
   case 2: api::irecv(q,m,tb.h,0,tag,comm,&q2); api::send((int)r.below(3),s,n,ta.h,0,tag,comm); api::wait(&q2,&st); have=true; break;
   case 3: api::isend(s,n,ta.h,0,tag,comm,&q1); if(r.chance(500)) api::probe(0,tag,comm,&st); api::recv(q,m,tb.h,0,tag,comm,&st); api::wait(&q1,MPI_STATUS_IGNORE); have=true; break;
   case 4: api::sendrecv(s,n,ta.h,0,tag,q,m,tb.h,0,tag,comm,&st); have=true; break;
   case 5: api::gather(s,n,ta.h,q,m,tb.h,0,comm); break; case 6: api::gatherv(s,n,ta.h,q,&m,&rd,tb.h,0,comm); break;
   case 7: api::allgather(s,n,ta.h,q,m,tb.h,comm); break; case 8: api::allgatherv(s,n,ta.h,q,&m,&rd,tb.h,comm); break;
   case 9: api::scatter(s,n,ta.h,q,m,tb.h,0,comm); break; case 10: api::scatterv(s,&n,&sd,ta.h,q,m,tb.h,0,comm); break;
   case 11: api::alltoall(s,n,ta.h,q,m,tb.h,comm); break; case 12: api::alltoallv(s,&n,&sd,ta.h,q,&m,&rd,tb.h,comm); break; case 13: api::alltoallw(s,&n,&sd,&ta.h,q,&m,&rd,&tb.h,comm); break;
   case 14: api::reduce(s,q,n,ta.h,MPI_SUM,0,comm); break; case 15: api::allreduce(s,q,n,ta.h,MPI_MAX,comm); break; case 16: api::reduce_scatter(s,q,&n,ta.h,MPI_SUM,comm); break; case 17: api::scan(s,q,n,ta.h,MPI_MIN,comm); break;
   case 18:{ pk.alloc(bytes); for(auto&e:ea){ unsigned char x[64]; A.rd(e.first,e.second,x); flat.insert(flat.end(),x,x+e.second); } int pos=0; api::pack(s,n,ta.h,pk.p(),(int)bytes,&pos,comm); if(pos!=bytes) viol("pack-position","pack of %ld bytes ended at %d",(long)bytes,pos); if(bytes&&memcmp(pk.p(),flat.data(),bytes)) viol("big-data","packed bytes differ from the typed data"); pk.check("pack-outside","packed buffer"); pk.release(); break; }
   default:{ i64 by=0; for(auto&e:all) by+=e.second; pk.alloc(by); r.fill(pk.p(),by); i64 o=0; for(auto&e:all){ B.wr(e.first,e.second,pk.p()+o); o+=e.second; } int pos=0; api::unpack(pk.p(),(int)by,&pos,q,m,tb.h,comm); if(pos!=by) viol("pack-position","unpack of %ld bytes ended at %d",(long)by,pos); pk.check("pack-outside","packed buffer"); pk.release(); } }
  A.check("source"); B.check("target"); EV("sparse transfers checked"); EVN("elements placed",op==18?ea.size():all.size()); EVMAX("offset reached, MiB",wide>>20); if(wide>=2*G) EV("transfers beyond 2 GiB"); if(wide>=4*G) EV("transfers beyond 4 GiB");
  if(have){ int c; api::get_elements(&st,ta.h,&c); bool pair=false; for(int u:g.unit) if(g_basic[u].nel==2) pair=true; if(!pair&&c!=(int)ea.size()) viol("count","element count is %d, %zu were sent",c,ea.size());
    if(ta.size()){ api::get_count(&st,ta.h,&c); if(c!=n) viol("count","count is %d, %d were sent",c,n); } }
  A.end(); B.end(); bool same=op>=14&&op<=17; drop(ta); if(!same) drop(tb); if(comm!=MPI_COMM_WORLD) api::comm_free(&comm);
  note_distinct(H); }
void bottom_case(Rng&r){ // absolute addresses over several unrelated objects
  TypeGen g(r); g.pick_unit(false,true); MT u=g.base(); int es=(int)u.extent(); int n=(int)r.range(1,6); A.begin(r); B.begin(r);
  struct Piece { Sparse*s; GMem*m; i64 off; int bl; }; std::vector<Piece> pa,pb; std::vector<GMem> heap(16); int nh=0;
  auto plan=[&](Sparse*s,std::vector<Piece>&v,int total){ while(total){ int bl=(int)r.range(1,std::min(total,4)); total-=bl; Piece p{s,0,0,bl}; if(r.chance(300)&&nh<16){ p.m=&heap[nh++]; p.m->alloc((size_t)bl*es); r.fill(p.m->p(),p.m->n); p.s=0; } else { bool ok; do { p.off=(r.chance(500)?1:-1)*dist(r,10*G); ok=true; for(auto&o:v) if(o.s&&std::llabs((long long)(o.off-p.off))<4*64) ok=false; } while(!ok); s->want(p.off,(i64)bl*es); } v.push_back(p); } };
  plan(&A,pa,n); plan(&B,pb,n); A.map(r); B.map(r);
  auto mk=[&](std::vector<Piece>&v,std::vector<std::pair<unsigned char*,Piece*>>&el){ std::vector<int> bl,hs; std::vector<i64> d; for(auto&p:v){ void*a=p.m?p.m->p():p.s->user+p.off; bl.push_back(p.bl); hs.push_back(u.h); i64 x=api::address(a); if(x!=(i64)(intptr_t)a) viol("address","MPI_Address gives %lx for %p",(long)x,a); d.push_back(x); for(int j=0;j<p.bl;j++) el.push_back({(unsigned char*)a+j*es,&p}); }
    int h; if(r.chance(500)) api::type_struct((int)bl.size(),bl.data(),d.data(),hs.data(),&h); else api::type_hindexed((int)bl.size(),bl.data(),d.data(),u.h,&h); api::type_commit(&h); return h; };
  std::vector<std::pair<unsigned char*,Piece*>> ea,eb; int ha=mk(pa,ea),hb=mk(pb,eb); bool dense=r.chance(200); (void)dense;
  std::vector<std::vector<unsigned char>> keep; for(int i=0;i<n;i++) keep.emplace_back(ea[i].first,ea[i].first+u.size());
  for(int i=0;i<n;i++) if(eb[i].second->s) eb[i].second->s->wr(eb[i].first-eb[i].second->s->user,(int)u.size(),keep[i].data());
  int lang=g_lang; g_lang=LANG_C; // the Fortran MPI_BOTTOM is a named constant, which cannot be passed as a buffer
  int q1,q2; MPI_Status st; void*bot=MPI_BOTTOM; int op=(int)r.below(5); step("bottom-buffer transfer %d of %d x %s",op,n,u.desc);
  switch(op){ case 0: api::isend(bot,1,ha,0,1,MPI_COMM_WORLD,&q1); api::irecv(bot,1,hb,0,1,MPI_COMM_WORLD,&q2); api::wait(&q1,&st); api::wait(&q2,&st); break; case 1: api::irecv(bot,1,hb,0,1,MPI_COMM_WORLD,&q2); api::isend(bot,1,ha,0,1,MPI_COMM_WORLD,&q1); api::wait(&q1,&st); api::wait(&q2,&st); break;
   case 2: api::sendrecv(bot,1,ha,0,1,bot,1,hb,0,1,MPI_COMM_WORLD,&st); break; case 3: api::gather(bot,1,ha,bot,1,hb,0,MPI_COMM_WORLD); break;
   default:{ std::vector<unsigned char> pk((size_t)u.size()*n); int pos=0; api::pack(bot,1,ha,pk.data(),(int)pk.size(),&pos,MPI_COMM_WORLD); pos=0; api::unpack(pk.data(),(int)pk.size(),&pos,bot,1,hb,MPI_COMM_WORLD); } }
  g_lang=lang; for(int i=0;i<n;i++) if(memcmp(eb[i].first,keep[i].data(),u.size())||memcmp(ea[i].first,keep[i].data(),u.size())) viol("big-data","element %d of a bottom-buffer transfer is wrong",i);
  A.check("source"); B.check("target"); for(int i=0;i<nh;i++){ heap[i].check("big-data","heap piece"); heap[i].release(); } A.end(); B.end(); api::type_free(&ha); api::type_free(&hb); EV("bottom-buffer transfers"); EV("sparse transfers checked"); hh(op); hh(n); hh(es); for(auto&p:pa) hh(p.off); note_distinct(H); }
void query_case(Rng&r){ // bounds only: no memory behind them
  TypeGen g(r); g.pick_unit(true,r.chance(600)); MT t=g.base(); int d=(int)r.range(1,4); for(int i=0;i<d;i++){ MT n=big_derive(r,t,i==0?16*G:64*1024*G); if(n.map.size()>200||n.extent()<0||n.extent()>(1ll<<55)||n.lb<-(1ll<<55)){ drop(n); break; } drop(t); t=n; }
  hh(t.lb); hh(t.ub); hh(t.map.size()); EV("bounds compared"); drop(t); note_distinct(H); }
void dense_case(Rng&r){ // a contiguous message longer than 4 GiB; both buffers are windows onto a small file, the tails are real
  const i64 P=257*PG; int fd[2]; unsigned char*base[2]; const i64 N=(1ll<<28)+(i64)r.range(3,9); const i64 bytes=N*16; i64 len=(bytes+P-1)/P*P; 
  for(int k=0;k<2;k++){ fd[k]=memfd_create("dense",0); if(fd[k]<0||ftruncate(fd[k],P)) inconclusive("memfd"); base[k]=(unsigned char*)mmap(0,len+64*PG,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(base[k]==MAP_FAILED) inconclusive("address space");
    for(i64 o=0;o<len-P;o+=P) if(mmap(base[k]+o,P,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_FIXED,fd[k],0)==MAP_FAILED) inconclusive("mapping"); if(mmap(base[k]+len-P,P,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED,-1,0)==MAP_FAILED) inconclusive("mapping");
    r.fill(base[k],P); r.fill(base[k]+len-P,P); }
  std::vector<unsigned char> tail(base[1]+bytes,base[1]+len); int f=(int)r.below(3),q; MPI_Status st; int t=MPI_LONG_DOUBLE,n=(int)N; step("dense transfer %d of %ld bytes",f,(long)bytes);
  if(f==0){ api::irecv(base[1],n,t,0,5,MPI_COMM_WORLD,&q); api::send(0,base[0],n,t,0,5,MPI_COMM_WORLD); api::wait(&q,&st); int c; api::get_count(&st,t,&c); if(c!=n) viol("count","count of a long message is %d, expected %d",c,n); }
  else if(f==1) api::gather(base[0],n,t,base[1],n,t,0,MPI_COMM_WORLD); else { int h; api::type_contiguous(1024,t,&h); api::type_commit(&h); int a=(int)(N/1024); api::isend(base[0],a,h,0,6,MPI_COMM_WORLD,&q); api::recv(base[1],a,h,0,6,MPI_COMM_WORLD,&st); api::type_free(&h); int q1=q; (void)q1; api::wait(&q,&st); }
  i64 done=f==2?N/1024*1024*16:bytes; if(memcmp(base[0],base[1],P)) viol("big-data","a message of %ld bytes arrived wrong",(long)done);
  if(memcmp(base[0]+len-P,base[1]+len-P,done-(len-P))) viol("big-data","the end of a message of %ld bytes arrived wrong",(long)done); if(f!=2&&tail.size()&&memcmp(base[1]+bytes,tail.data(),tail.size())) viol("big-data","bytes past a message of %ld bytes changed",(long)bytes);
  for(int k=0;k<2;k++){ munmap(base[k],len+64*PG); close(fd[k]); } EV("messages longer than 4 GiB"); hh(f); hh(N); note_distinct(H); }
void counts(MPI_Status*st,int bt,int own,i64 total,int n,const char*who){ // what count queries must say about a message of so many elements
  int c=-77,e=-77; api::get_elements(st,own,&e); i64 we=total>INT32_MAX?MPI_UNDEFINED:total; if(e!=we) viol("count","%s: a message of %lld elements: the element query says %d, expected %lld",who,(long long)total,e,(long long)we);
  api::get_count(st,own,&c); if(c!=n) viol("count","%s: a message of %d items, %lld elements: the count query says %d",who,n,(long long)total,c);
  for(int k=1;k<=5;k++){ int h=bt; if(k>1){ api::type_contiguous(k,bt,&h); api::type_commit(&h); } i64 w=total%k?MPI_UNDEFINED:total/k>INT32_MAX?MPI_UNDEFINED:total/k; c=-77; api::get_count(st,h,&c); if(c!=w) viol("count","%s: a message of %lld elements: the count in items of %d elements is %d, expected %lld",who,(long long)total,k,c,(long long)w); if(k>1) api::type_free(&h); }
  EV("count queries"); if(total>INT32_MAX) EV("counts beyond 31 bits"); }
void wide_case(Rng&r){ // messages of up to 2^50 elements that are looked at but never moved as a whole
  static const int bts[]={MPI_BYTE,MPI_CHAR,MPI_SHORT,MPI_INT,MPI_DOUBLE,MPI_LONG_DOUBLE}; int bi=(int)r.below(6),bt=bts[bi]; int bs=api::type_size(bt); int k=r.chance(700)?(int)r.range(1,9):r.chance(900)?(int)r.range(10,400):(int)r.range(1000,50000); int t=bt;
  if(k>1||r.chance(500)){ int f=(int)r.below(3); if(f==0) api::type_contiguous(k,bt,&t); else if(f==1) api::type_vector(1,k,k,bt,&t); else { int one=0,bl=k; api::type_indexed(1,&bl,&one,bt,&t); } api::type_commit(&t); }
  i64 lim=INT32_MAX; int n; switch(r.below(6)){ case 0: n=INT32_MAX-(int)r.below(5); break; case 1: n=(int)std::min<i64>(lim,((1ll<<31)+r.range(-3,3)*k)/k); break; case 2: n=(int)std::min<i64>(lim,((1ll<<32)+r.range(-3,3)*k)/k); break; case 3: n=(int)std::min<i64>(lim,(r.range(1,9)<<31)/k+r.range(0,2)); break; default: n=(int)r.range(1,INT32_MAX); }
  i64 total=(i64)n*k; int m=(int)r.range(0,3); size_t bytes=(size_t)m*k*bs; std::vector<unsigned char> a(bytes+8),b(bytes+8,0xEE); r.fill(a.data(),a.size()); int tag=(int)r.below(100),q,flag=-1; MPI_Status st; memset((void*)&st,0x5A,sizeof st); int comm=MPI_COMM_WORLD; bool dup=r.chance(300); if(dup) api::comm_dup(MPI_COMM_WORLD,&comm);
  { int lang=g_lang; g_lang=LANG_C; i64 ps=api::pack_size(n,t,comm); g_lang=lang; // the Fortran query has an INTEGER only
    if(ps<total*bs) viol("pack-size","%d items of %d elements of %d bytes: the packed size is said to be %lld",n,k,bs,(long long)ps); if(total*bs>INT32_MAX) EV("packed sizes beyond 2 GiB"); }
  step("message of %d items of %d elements of %d bytes, %d received",n,k,bs,m); int want=r.chance(300)?MPI_ANY_TAG:tag, src=r.chance(300)?MPI_ANY_SOURCE:0;
  if(r.chance(600)){ // sent, looked at, received in part
    api::isend(a.data(),n,t,0,tag,comm,&q); int looks=(int)r.range(1,2);
    for(int i=0;i<looks;i++){ if(r.chance(500)) api::probe(src,want,comm,&st); else { api::iprobe(src,want,comm,&flag,&st); if(!flag) viol("probe-missed","a pending message is not seen"); } if(st.MPI_TAG!=tag||st.MPI_SOURCE!=0) viol("status-tag","wrong tag or source in the status of a probe"); counts(&st,bt,t,total,n,"probe"); }
    memset((void*)&st,0x5A,sizeof st); if(r.chance(500)) api::recv(b.data(),m,t,src,want,comm,&st); else { int p; api::irecv(b.data(),m,t,src,want,comm,&p); api::wait(&p,&st); }
    counts(&st,bt,t,(i64)m*k,m,"receive"); api::wait(&q,MPI_STATUS_IGNORE); }
  else { // room for it, a short message
    api::irecv(b.data(),n,t,src,want,comm,&q); api::send((int)r.below(3),a.data(),m,t,0,tag,comm); memset((void*)&st,0x5A,sizeof st); if(r.chance(500)) api::wait(&q,&st); else { api::test(&q,&flag,&st); if(!flag) viol("premature","a matched receive is not complete"); } counts(&st,bt,t,(i64)m*k,m,"receive with much room"); }
  if(bytes&&memcmp(a.data(),b.data(),bytes)) viol("big-data","the part received of a wide message is wrong"); for(int i=0;i<8;i++) if(b[bytes+i]!=0xEE) viol("big-data","bytes past a received part changed");
  if(t!=bt) api::type_free(&t); if(dup) api::comm_free(&comm); hh(n); hh(k); hh(m); hh(bt); note_distinct(H); }
void wide_dense_case(Rng&r){ // more than 2^31 elements really moved, all of them onto the same place
  int t,bl[3]={1,1,1}; i64 d[3]={0,0,0}; int ty[3]={MPI_LB,MPI_BYTE,MPI_UB}; api::type_struct(3,bl,d,ty,&t); api::type_commit(&t); int u,k=(int)r.range(2,4); api::type_contiguous(k,t,&u); api::type_commit(&u);
  i64 total=(1ll<<31)+r.range(0,2)*k; int n=(int)((total+k-1)/k); total=(i64)n*k; unsigned char a=(unsigned char)r.next(),b=(unsigned char)~a; int q; MPI_Status st; step("%d items of %d elements on one place",n,k); api::irecv(&b,n,u,0,4,MPI_COMM_WORLD,&q); api::send(0,&a,n,u,0,4,MPI_COMM_WORLD); api::wait(&q,&st); if(a!=b) viol("big-data","the element did not arrive"); counts(&st,MPI_BYTE,u,total,n,"receive");
  api::type_free(&t); api::type_free(&u); EV("messages of more than 2^31 elements"); hh(n); hh(k); note_distinct(H); }
}
void eng_big(){
  const char*p=g_opt.profile; api::init(); basics_init(); if(!strcmp(p,"gaps")){ gaps=true; G=600; }
  for(u64 i=g_opt.from;i<g_opt.to;i++){ mark_case(i); Rng r(mix64(g_opt.seed*0x1000193+i)^0xB16); H=7; if(!strcmp(p,"dense")) dense_case(r); else if(!strcmp(p,"wide")) wide_case(r); else if(!strcmp(p,"widemoved")) wide_dense_case(r); else { int k=gaps?0:(int)r.below(10); if(k<7) move_case(r); else if(k<8) bottom_case(r); else query_case(r); } sample("case %llu: %s",(unsigned long long)i,g_what); }
  api::finalize();
}
