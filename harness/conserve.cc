// Resource conservation (engine conserve) and allocation faults (engine oom); both need the
// "alloc" build, in which the library's allocator calls are routed to the monitor.
#include "types.h"
#include "alloc.h"
#include <sys/wait.h>
#include <signal.h>
void p2p_run_one(const char*profile,u64 seed); void coll_case(u64); void pack_case(u64); void alg_case(u64,bool); void types_run_one(int kind,u64 seed); void handles_case(u64 idx,u64 seed);
namespace {
const char*KN[]={"p2p mixed","p2p lifetime","p2p complete","p2p matching","p2p status","p2p payload","collectives","pack","datatypes","named datatypes","groups","topologies","handles"};
void history(int k,u64 s){
  switch(k){ case 0: p2p_run_one("mixed",s); break; case 1: p2p_run_one("lifetime",s); break; case 2: p2p_run_one("complete",s); break; case 3: p2p_run_one("matching",s); break; case 4: p2p_run_one("status",s); break; case 5: p2p_run_one("payload",s); break;
   case 6: coll_case(s); break; case 7: pack_case(s); break; case 8: types_run_one(0,s); break; case 9: types_run_one(1,s); break; case 10: alg_case(s,false); break; case 11: alg_case(s,true); break; default: handles_case(0,s); } }
// one balanced use of the interface, small enough to repeat very often
const char*MN[]={"send to a posted receive","ready send","isend and recv","irecv and isend, waitall","send-receive","null process","free a pending send's request","free a pending receive's request","free a complete request","probes","test forms","any forms","some forms","type constructors","type freed while pending","dup of a freed type","communicators","topology","intercommunicators","collectives","pack","operations","groups","truncating lengths","communicator freed before its requests are waited for","named type commit and dup","address queries","truncated message","split undefined","statuses of all forms"};
const int NM=sizeof MN/sizeof*MN;
i64 V[64],U[64];
void mk_type(Rng&r,int*t){
  int bl[4]={1,2,0,1},d[4]={0,2,5,9}; i64 h[4]={0,16,40,72}; int ty[4]={MPI_LONG,MPI_LONG,MPI_INT,MPI_LONG}; int n=(int)r.range(1,4);
  switch(r.below(10)){ case 0: api::type_contiguous(n,MPI_LONG,t); break; case 1: api::type_vector(n,1,2,MPI_LONG,t); break; case 2: api::type_hvector(n,1,24,MPI_LONG,t,false); break; case 3: api::type_hvector(n,1,24,MPI_LONG,t,true); break; case 4: api::type_indexed(n,bl,d,MPI_LONG,t); break; case 5: api::type_indexed_block(n,1,d,MPI_LONG,t); break; case 6: api::type_hindexed(n,bl,h,MPI_LONG,t); break; case 7: api::type_struct(n,bl,h,ty,t); break; case 8: api::type_dup(MPI_LONG,t); break; default:{ int q; api::type_vector(n,1,2,MPI_LONG,&q); api::type_contiguous(1,q,t); api::type_free(&q); } } }
void micro(int k,u64 s){
  Rng r(s); int q[8],c=MPI_COMM_WORLD,t,flag,idx,oc,ix[8]; MPI_Status st,sv[8]; int n=(int)r.range(0,8); int m=(int)r.range(1,4); int tag=(int)r.below(9);
  switch(k){
   case 0: for(int i=0;i<m;i++) api::irecv(U,8,MPI_LONG,0,tag,c,&q[i]); for(int i=0;i<m;i++) api::send(i%2,V,n,MPI_LONG,0,tag,c); api::waitall(m,q,MPI_STATUSES_IGNORE); break;
   case 1: api::irecv(U,8,MPI_LONG,0,tag,c,&q[0]); if(r.chance(500)) api::send(2,V,n,MPI_LONG,0,tag,c); else { api::irsend(V,n,MPI_LONG,0,tag,c,&q[1]); api::wait(&q[1],&st); } api::wait(&q[0],&st); break;
   case 2: for(int i=0;i<m;i++) api::isend(V,n,MPI_LONG,0,tag+i,c,&q[i]); for(int i=m;i-->0;) api::recv(U,8,MPI_LONG,MPI_ANY_SOURCE,tag+i,c,&st); api::waitall(m,q,sv); break;
   case 3: for(int i=0;i<m;i++) api::irecv(U,8,MPI_LONG,0,MPI_ANY_TAG,c,&q[i]); for(int i=0;i<m;i++) api::isend(V,n,MPI_LONG,0,tag+i,c,&q[m+i<8?m+i:7]); api::waitall(2*m<8?2*m:8,q,sv); break;
   case 4: api::sendrecv(V,n,MPI_LONG,0,tag,U,8,MPI_LONG,0,tag,c,&st); api::sendrecv(V,n,MPI_LONG,MPI_PROC_NULL,tag,U,8,MPI_LONG,MPI_PROC_NULL,tag,c,&st); break;
   case 5: api::send((int)r.below(3),V,n,MPI_LONG,MPI_PROC_NULL,tag,c); api::recv(U,n,MPI_LONG,MPI_PROC_NULL,tag,c,&st); api::isend(V,n,MPI_LONG,MPI_PROC_NULL,tag,c,&q[0]); api::irecv(U,n,MPI_LONG,MPI_PROC_NULL,tag,c,&q[1]); api::irsend(V,n,MPI_LONG,MPI_PROC_NULL,tag,c,&q[2]); if(r.chance(500)) api::waitall(3,q,sv); else for(int i=0;i<3;i++) if(r.chance(500)) api::request_free(&q[i]); else api::test(&q[i],&flag,&st); api::probe(MPI_PROC_NULL,tag,c,&st); api::iprobe(MPI_PROC_NULL,tag,c,&flag,&st); break;
   case 6: for(int i=0;i<m;i++){ api::isend(V,n,MPI_LONG,0,tag,c,&q[i]); api::request_free(&q[i]); } for(int i=0;i<m;i++) api::recv(U,8,MPI_LONG,0,tag,c,&st); break;
   case 7: for(int i=0;i<m;i++){ api::irecv(U,8,MPI_LONG,0,tag,c,&q[i]); api::request_free(&q[i]); } for(int i=0;i<m;i++) api::send(0,V,n,MPI_LONG,0,tag,c); break;
   case 8: api::irecv(U,8,MPI_LONG,0,tag,c,&q[0]); api::isend(V,n,MPI_LONG,0,tag,c,&q[1]); api::request_free(&q[0]); api::request_free(&q[1]); break;
   case 9: api::iprobe(MPI_ANY_SOURCE,MPI_ANY_TAG,c,&flag,&st); api::isend(V,n,MPI_LONG,0,tag,c,&q[0]); api::iprobe(0,tag,c,&flag,MPI_STATUS_IGNORE); api::probe(0,MPI_ANY_TAG,c,&st); api::iprobe(0,tag+1,c,&flag,&st); api::recv(U,8,MPI_LONG,0,tag,c,&st); api::wait(&q[0],&st); break;
   case 10: api::irecv(U,8,MPI_LONG,0,tag,c,&q[0]); for(int i=0;i<m;i++){ api::test(&q[0],&flag,&st); if(flag) viol("req-flag","a pending request tests complete"); } q[1]=MPI_REQUEST_NULL; api::testall(2,q,&flag,sv); api::isend(V,n,MPI_LONG,0,tag,c,&q[1]); api::testall(2,q,&flag,sv); if(!flag) viol("req-flag","complete requests do not test complete"); break;
   case 11: api::irecv(U,8,MPI_LONG,0,tag,c,&q[0]); api::testany(1,q,&idx,&flag,&st); api::isend(V,n,MPI_LONG,0,tag,c,&q[1]); api::waitany(2,q,&idx,&st); api::testany(2,q,&idx,&flag,&st); api::testany(2,q,&idx,&flag,&st); break;
   case 12: api::irecv(U,8,MPI_LONG,0,tag,c,&q[0]); api::irecv(U+8,8,MPI_LONG,0,tag,c,&q[1]); api::testsome(2,q,&oc,ix,sv); api::isend(V,n,MPI_LONG,0,tag,c,&q[2]); api::waitsome(3,q,&oc,ix,sv); api::isend(V,n,MPI_LONG,0,tag,c,&q[3]); api::testsome(4,q,&oc,ix,sv); api::testsome(4,q,&oc,ix,sv); api::testsome(4,q,&oc,ix,sv); break;
   case 13: for(int i=0;i<m;i++) mk_type(r,&q[i]); if(r.chance(500)) api::type_commit(&q[0]); for(int i=0;i<m;i++) api::type_free(&q[i]); break;
   case 14: mk_type(r,&t); api::type_commit(&t); api::isend(V,1,t,0,tag,c,&q[0]); api::type_free(&t); api::recv(U,64,MPI_LONG,0,tag,c,&st); api::wait(&q[0],&st); mk_type(r,&t); api::type_commit(&t); api::irecv(U,1,t,0,tag,c,&q[0]); api::type_free(&t); api::send(0,V,0,MPI_LONG,0,tag,c); if(r.chance(500)) api::wait(&q[0],&st); else api::request_free(&q[0]); break;
   case 15:{ int a,b; mk_type(r,&a); api::type_dup(a,&b); api::type_free(&a); int e; api::type_contiguous(2,b,&e); api::type_free(&b); api::type_dup(e,&a); api::type_free(&e); api::type_commit(&a); api::type_free(&a); break; }
   case 16:{ int a,b,g,d; api::comm_dup(c,&a); api::comm_split(a,1,0,&b); api::comm_group(b,&g); api::comm_create(b,g,&d); api::group_free(&g); api::comm_free(&a); api::comm_free(&d); api::comm_free(&b); break; }
   case 17:{ int a,b,nd=(int)r.below(6); int di[6]={1,1,1,1,1,1},pe[6]={0,1,0,1,1,0},x[6],y[6],w[6]; api::cart_create(c,nd,di,pe,0,&a); api::cart_get(a,nd,x,y,w); api::comm_dup(a,&b); api::comm_free(&a); api::cart_coords(b,0,nd,x); api::comm_free(&b); break; }
   case 18:{ int a,b,d; api::comm_dup(c,&a); api::intercomm_create(a,0,c,0,3,&b); api::intercomm_merge(b,0,&d); api::comm_free(&b); api::comm_free(&d); api::comm_free(&a); break; }
   case 19:{ int z=0; api::bcast(V,n,MPI_LONG,0,c); api::gather(V,n,MPI_LONG,U,n,MPI_LONG,0,c); api::gatherv(V,n,MPI_LONG,U,&n,&z,MPI_LONG,0,c); api::allgather(V,n,MPI_LONG,U,n,MPI_LONG,c); api::allgatherv(V,n,MPI_LONG,U,&n,&z,MPI_LONG,c); api::scatter(V,n,MPI_LONG,U,n,MPI_LONG,0,c); api::scatterv(V,&n,&z,MPI_LONG,U,n,MPI_LONG,0,c); api::reduce(V,U,n,MPI_LONG,MPI_SUM,0,c); api::allreduce(V,U,n,MPI_LONG,MPI_MAX,c); api::reduce_scatter(V,U,&n,MPI_LONG,MPI_SUM,c); api::scan(V,U,n,MPI_LONG,MPI_SUM,c); api::alltoall(V,n,MPI_LONG,U,n,MPI_LONG,c); api::alltoallv(V,&n,&z,MPI_LONG,U,&n,&z,MPI_LONG,c); int ty=MPI_LONG; api::alltoallw(V,&n,&z,&ty,U,&n,&z,&ty,c); api::barrier(c); break; }
   case 20:{ char b[512]; int p=0; api::pack(V,n,MPI_LONG,b,512,&p,c); api::pack_size(n,MPI_LONG,c); int z=0; api::unpack(b,p,&z,U,n,MPI_LONG,c); break; }
   case 21: api::op_create(&t,1); api::allreduce(V,U,n,MPI_LONG,t,c); api::op_free(&t); break;
   case 22:{ int g,a,b,z=0; api::comm_group(c,&g); api::group_incl(g,1,&z,&a); api::group_union(a,MPI_GROUP_EMPTY,&b); api::group_free(&b); api::group_intersection(a,g,&b); api::group_free(&b); api::group_difference(a,g,&b); api::group_free(&a); api::group_free(&g); break; }
   case 23: mk_type(r,&t); api::type_size(t); api::type_extent(t); api::type_lb(t); api::type_ub(t); api::type_free(&t); break;
   case 24:{ int a; api::comm_dup(c,&a); api::irecv(U,8,MPI_LONG,0,tag,a,&q[0]); api::isend(V,n,MPI_LONG,0,tag,a,&q[1]); api::comm_free(&a); api::waitall(2,q,sv); break; }
   case 25: t=MPI_DOUBLE; api::type_commit(&t); api::type_dup(MPI_DOUBLE,&t); api::type_free(&t); break;
   case 26: api::address(V); api::isend(V,1,MPI_LONG,0,tag,c,&q[0]); api::recv(U,8,MPI_LONG,0,tag,c,&st); api::get_count(&st,MPI_LONG,&n); api::get_elements(&st,MPI_INT,&n); api::wait(&q[0],&st); break;
   case 27: api::isend(V,8,MPI_LONG,0,tag,c,&q[0]); api::recv(U,(int)r.below(8),MPI_LONG,0,tag,c,&st); api::wait(&q[0],&st); api::irecv(U,(int)r.below(8),MPI_LONG,0,tag,c,&q[0]); api::send(0,V,8,MPI_LONG,0,tag,c); api::wait(&q[0],&st); break;
   case 28: api::comm_split(c,MPI_UNDEFINED,0,&t); api::comm_create(c,MPI_GROUP_EMPTY,&t); break;
   default: for(int i=0;i<4;i++) api::isend(V,n,MPI_LONG,0,tag,c,&q[i]); for(int i=0;i<4;i++) api::irecv(U+8*i,8,MPI_LONG,0,tag,c,&q[4+i]); switch(r.below(5)){ case 0: api::waitall(8,q,MPI_STATUSES_IGNORE); break; case 1: api::testall(8,q,&flag,sv); break; case 2: api::waitsome(8,q,&oc,ix,MPI_STATUSES_IGNORE); break; case 3: for(int i=0;i<8;i++) api::waitany(8,q,&idx,MPI_STATUS_IGNORE); break; default: for(int i=8;i-->0;) api::test(&q[i],&flag,MPI_STATUS_IGNORE); } } }

// how many more handles fit before the library's table grows; measured in a child, so that
// nothing changes here
long slack(u64){
  fflush(0); volatile long*out=(volatile long*)sh_arena; *out=-1; AllocMon keep=*am; pid_t p=fork(); if(p<0) _exit(98);
  if(!p){ g_child=1; g_lang=LANG_C; static int q[70000]; long b0=am->bytes,first=-1; for(int i=0;i<70000;i++){ api::isend(V,1,MPI_LONG,MPI_PROC_NULL,1,MPI_COMM_WORLD,&q[i]); long d=am->bytes-b0; b0=am->bytes; if(first<0) first=d; else if(d!=first){ *out=d>first?i:0; _exit(0); } } *out=70000; _exit(0); }
  int st; if(waitpid(p,&st,0)!=p) _exit(98); *am=keep; if(WIFEXITED(st)&&(WEXITSTATUS(st)==77||WEXITSTATUS(st)>=97)){ finish_stats(); _exit(WEXITSTATUS(st)); }
  if(!WIFEXITED(st)||*out<0) viol("crash","creating requests ended the process (status %x)",st); 
  return *out; }
struct Snap { long live,bytes; };
Snap snap(){ return Snap{am->live,am->bytes}; }
void noop(u64){ _exit(0); }
void conserve_case(u64 seed,bool mic){
  Rng r(seed); int k=mic?(int)r.below(NM):(int)r.below(13); u64 s=r.next(); int reps=mic?(int)r.range(60,300):(k==12?2:(int)r.range(4,24)); const char*nm=mic?MN[k]:KN[k];
  int keep=0,q[40]; keep=mic?(int)r.below(40):0; int dup; api::comm_dup(MPI_COMM_WORLD,&dup); for(int i=0;i<keep;i++) api::irecv(V,1,MPI_LONG,0,5,dup,&q[i]); // live objects around the history
  auto run=[&](int n){ for(int i=0;i<n;i++){ if(mic) micro(k,s); else history(k,s); } };
  run(3); long s0=slack(0); Snap a=snap(); run(reps); long s1=slack(0); Snap b=snap(); run(reps); long s2=slack(0); Snap c=snap(); step("%s, repeated %d times",nm,reps);
  EVN("histories repeated",2*reps); EV("quiescent points compared"); if(am->n) EVN("allocations watched",am->n); am->n=0;
  if(s2<s1&&s1<=s0) viol("handle-leak","%s: %ld handles lost in %d repetitions (free in the table: %ld, %ld, %ld)",nm,s1-s2,reps,s0,s1,s2);
  if(c.live>b.live&&b.live>a.live) viol("block-leak","%s: live blocks go from %ld to %ld to %ld over %d repetitions each",nm,a.live,b.live,c.live,reps);
  if(c.bytes>b.bytes&&b.bytes>a.bytes) viol("byte-leak","%s: live bytes go from %ld to %ld to %ld over %d repetitions each",nm,a.bytes,b.bytes,c.bytes,reps);
  // handles lost so steadily that the table grew in between show as bytes; growth in only one half is not steady
  for(int i=0;i<keep;i++){ api::send(0,U,1,MPI_LONG,0,5,dup); api::wait(&q[i],MPI_STATUS_IGNORE); } api::comm_free(&dup);
  EVMAX("repetitions",reps); note_distinct(hcomb(k*2+mic,s)); sample("%s: %d+%d repetitions, live blocks %ld %ld %ld, bytes %ld %ld %ld, free handles %ld %ld %ld",nm,reps,reps,a.live,b.live,c.live,a.bytes,b.bytes,c.bytes,s0,s1,s2);
}
// --- allocation faults -------------------------------------------------------
u64 o_seed; int o_kind; bool o_micro; long o_at,o_from; int o_lang;
void oom_child(u64){
  alloc_reset_faults(); am->fail_at=o_at; am->fail_from=o_from; Rng r(o_seed); snprintf(sh->what,sizeof sh->what,"%s, allocation %ld%s fails",o_micro?"small operations":KN[o_kind],o_at?o_at:o_from,o_from?" and all later ones":""); step("%s",sh->what);
  sh->phase=1; api::init(); if(o_micro){ for(int i=0;i<6;i++) micro((int)r.below(NM),r.next()); } else history(o_kind,r.next()); 
  // everything still works afterwards when the fault was survived
  if(am->failed&&!o_from){ i64 a=(i64)r.next(),b=0; int q; api::irecv(&b,1,MPI_LONG,0,3,MPI_COMM_WORLD,&q); api::send(0,&a,1,MPI_LONG,0,3,MPI_COMM_WORLD); api::wait(&q,MPI_STATUS_IGNORE); if(a!=b) viol("recv-data","traffic after a survived fault is broken"); }
  api::finalize(); survived(); _exit(0); }
void judge_oom(const ChildEnd&e,bool faulted){
  int sig=WIFSIGNALED(e.status)?WTERMSIG(e.status):0, code=WIFEXITED(e.status)?WEXITSTATUS(e.status):-1; step("%s",sh->what); EV("fault runs");
  if(e.timeout) viol("hang","%s: does not return",sh->what);
  if(sig&&sig!=SIGABRT) viol("crash","%s: the process crashed with signal %d",sh->what,sig);
  if(sh->phase==2&&code==0){ EV(faulted?"faults survived":"runs without a fault"); if(e.err.size()+e.out.size()>2&&!faulted) viol("noise","%s: wrote %s",sh->what,first_line(e)); return; }
  if(!faulted) viol("stopped","%s: a run without faults was ended (signal %d, exit %d): %s",sh->what,sig,code,first_line(e));
  if(code==0) viol("exit-zero","%s: the process ended with exit status 0",sh->what);
  if(e.err.size()+e.out.size()<=2) viol("no-diagnostic","%s: the process ended without a diagnostic",sh->what);
  EV("faults reported"); }
void oom_case(u64 seed){
  Rng r(seed); o_seed=r.next(); o_micro=r.chance(350); o_kind=(int)r.below(13); if(o_kind==12&&r.chance(700)) o_kind=(int)r.below(12); int lang0=g_lang; o_at=o_from=0;
  ChildEnd e=run_child(oom_child,0); long N=am->n; judge_oom(e,false); bool all=N<=160; int runs=0;
  for(long n=1;n<=N;n++){ if(!all&&n>40&&!r.chance((int)(120000/N))) continue; for(int mode=0;mode<2;mode++){ if(mode&&n>6&&!r.chance(250)) continue; o_at=mode?0:n; o_from=mode?n:0; ChildEnd f=run_child(oom_child,0); if(!am->failed) { EV("faults not reached"); } judge_oom(f,am->failed>0); runs++; } }
  g_lang=lang0; EVMAX("allocation sites",am->sites); EVN("allocations failed",runs); note_distinct(hcomb(hcomb(o_kind*2+o_micro,N),o_seed)); sample("%s seed %llx: %ld allocations, %d fault runs%s",o_micro?"small operations":KN[o_kind],(unsigned long long)o_seed,N,runs,all?", every allocation failed once":"");
}
}
void eng_conserve(){
#ifndef VARIANT_ALLOC
  _exit(97);
#endif
  alloc_init(); run_child(noop,0); bool mic=!strcmp(g_opt.profile,"micro"); api::init(); long made=am->live;
  for(u64 i=g_opt.from;i<g_opt.to;i++){ mark_case(i); conserve_case(mix64(g_opt.seed*0x1000193+i)^0xC025,mic); }
  long before=am->live; step("finalisation with nothing left in use"); api::finalize(); EV("finalisations compared");
  if(am->live>made) viol("finalize-leak","%ld blocks were live after initialisation, %ld before and %ld after finalisation, with every object released",made,before,am->live);
}
void eng_oom(){
#ifndef VARIANT_ALLOC
  _exit(97);
#endif
  alloc_init(); for(u64 i=g_opt.from;i<g_opt.to;i++){ mark_case(i); oom_case(mix64(g_opt.seed*0x1000193+i)^0x003); }
}
