// Handle stress: many live objects of all kinds, created and released in random order; every
// object carries an identity that is verified when it is used and when it is released.
#include "types.h"
namespace {
struct Ob { int kind; int h; u64 id; i64 val; int comm; int tag; };   // 0 type 1 communicator 2 pending receive 3 pending send
}
void handles_case(u64 idx,u64 seed){
  Rng r(seed); std::vector<Ob*> live; std::vector<int> sorted; int peak_target; const char*a=g_opt.arg; long full=atol(a);
  u64 ntag=0,tag0=r.below(1000000); int steps; if(full){ peak_target=(int)full; steps=peak_target+peak_target/8; } else { peak_target=(int)(r.chance(500)?r.range(20,600):r.range(300,4000)); steps=peak_target*3; }
  // membership of live handle values: bitmap over the value
  std::vector<char> used; int peak=0; long reused=0; static std::vector<char> ever; 
  auto claim=[&](int h,const char*what){ if(h<=0) viol("null-handle","%s has handle %d",what,h); if((size_t)h>=used.size()) used.resize(h*2+16,0); if(used[h]) viol("dup-handle","%s gets handle %d, which is in use",what,h); used[h]=1; if((size_t)h>=ever.size()) ever.resize(h*2+16,0); if(ever[h]) reused++; ever[h]=1; if(h==MPI_COMM_WORLD) viol("dup-handle","%s gets the handle of the world",what); };
  auto create=[&](){
    Ob*o=new Ob; o->id=r.next(); o->comm=MPI_COMM_WORLD; o->val=0x5555; o->tag=(int)((ntag+++tag0)*(u64)7919%0x40000000); int w[4]={5,2,3,3}; if(full){ w[1]=1; w[0]=20; w[2]=w[3]=1; } o->kind=r.weighted(w,4);
    switch(o->kind){
     case 0:{ i64 d=(i64)(o->id&0xffffff)-0x800000; int bl=1; step("create type"); api::type_hindexed(1,&bl,&d,MPI_INT,&o->h); claim(o->h,"a datatype"); break; }
     case 1: { step("create communicator"); api::comm_dup(MPI_COMM_WORLD,&o->h); claim(o->h,"a communicator"); break; }
     default:{ step("create request"); // matched on a tag of its own, so that queues stay searchable; the queue is a private communicator's when there is one
       int c=MPI_COMM_WORLD; for(int t=0;t<4&&!live.empty();t++){ Ob*x=live[r.below(live.size())]; if(x->kind==1){ c=x->h; break; } } o->comm=c;
       if(o->kind==2) api::irecv(&o->val,1,MPI_LONG,0,o->tag,c,&o->h); else { o->val=(i64)o->id; api::isend(&o->val,1,MPI_LONG,0,o->tag,c,&o->h); }
       claim(o->h,"a request"); if(MPI_Request_f2c(MPI_Request_c2f(o->h))!=o->h) viol("f2c","request %d does not survive conversion",o->h); } }
    live.push_back(o); peak=std::max(peak,(int)live.size()); EV("objects created"); };
  auto verify=[&](Ob*o){
    switch(o->kind){ case 0: { i64 d=(i64)(o->id&0xffffff)-0x800000; step("verify type %d",o->h); if(api::type_lb(o->h)!=d||api::type_size(o->h)!=4) viol("handle-identity","datatype %d lost its identity",o->h); break; }
     case 1: if(api::comm_size(o->h)!=1) viol("handle-identity","communicator %d lost its identity",o->h); if(MPI_Comm_f2c(MPI_Comm_c2f(o->h))!=o->h) viol("f2c","communicator %d does not survive conversion",o->h); break;
     default: { int f=1,h=o->h; step("test request %d",h); api::test(&h,&f,MPI_STATUS_IGNORE); if(f||h!=o->h) viol("handle-identity","pending request %d reports completion",o->h); } }
    EV("identities verified"); };
  auto release=[&](size_t i){ Ob*o=live[i];
    if(o->kind==1) for(auto x:live) if(x->kind>=2&&x->comm==o->h) return;       // has pending traffic
    verify(o); int h=o->h;
    switch(o->kind){ case 0: api::type_free(&h); break; case 1: api::comm_free(&h); break;
     case 2:{ i64 v=(i64)o->id; int q; api::isend(&v,1,MPI_LONG,0,o->tag,o->comm,&q); if(used.size()>(size_t)q&&q>0&&used[q]) viol("dup-handle","a request gets handle %d, which is in use",q); api::wait(&h,MPI_STATUS_IGNORE); if(o->val!=v) viol("handle-identity","receive %d got another message",o->h); api::wait(&q,MPI_STATUS_IGNORE); break; }
     default:{ i64 v=0; int q; api::irecv(&v,1,MPI_LONG,0,o->tag,o->comm,&q); if(used.size()>(size_t)q&&q>0&&used[q]) viol("dup-handle","a request gets handle %d, which is in use",q); api::wait(&q,MPI_STATUS_IGNORE); if(v!=(i64)o->id) viol("handle-identity","send %d delivered another message",o->h); api::wait(&h,MPI_STATUS_IGNORE); } }
    if(h!=0) viol("handle-null","released handle variable is %d",h); used[o->h]=0; live[i]=live.back(); live.pop_back(); delete o; EV("objects released"); };
  int full_rounds=0;
 refill:
  for(int s=0;s<steps;s++){
    int up=(int)live.size()<peak_target?700:300; if(full) up=930;
    if(live.empty()||r.chance(up)) create(); else release(r.below(live.size()));
    if(!live.empty()&&r.chance(full?20:200)) verify(live[r.below(live.size())]); }
  // the survivors are all intact
  for(auto o:live) if(!full||r.chance(100)) verify(o);
  // a burst in creation order, reverse order, or random order
  { int order=(int)r.below(3); for(int pass=0;pass<2;pass++) for(size_t k=0;k<live.size();){ size_t i=order==0?k:order==1?live.size()-1-k:r.below(live.size()); size_t n=live.size(); if(pass==0&&live[i]->kind==1){ k++; continue; } release(i); if(live.size()==n) k++; } }
  while(!live.empty()){ size_t n=live.size(); for(size_t i=n;i-->0;) if(i<live.size()&&live[i]->kind!=1) release(i); for(size_t i=live.size();i-->0;) release(i); if(live.size()==n) inconclusive("cannot drain"); }
  if(full&&full_rounds++<1){ EV("tables refilled after being emptied"); steps=peak_target; goto refill; }
  EVMAX("live objects",peak); EVN("handle values reused",reused); note_distinct(hcomb(seed,peak)); sample("case seed %llx: %d steps, up to %d live objects, %ld handle values reused",(unsigned long long)seed,steps,peak,reused);
}
void eng_handles(){ api::init(); for(u64 i=g_opt.from;i<g_opt.to;i++){ mark_case(i); handles_case(i,mix64(g_opt.seed*0x1000193+i)^0x4A4D); } api::finalize(); }
