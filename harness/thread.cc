// Threads. With MON_THREADS=n every library call an engine makes runs on a randomly chosen
// thread, one at a time. Engine thread: "shared" - several threads with work of their own take
// turns inside the library and talk to each other through it; "levels" - what initialisation
// reports must be supported, by trying it.
#include "api.h"
#include <pthread.h>
#include <atomic>
extern void (*g_hop)(void(*)(void*),void*);
void env_services(u64 seed,bool init); extern void (*g_between_actions)();
void p2p_run_one(const char*profile,u64 seed); void coll_case(u64); void pack_case(u64); void alg_case(u64,bool); void types_run_one(int kind,u64 seed);
extern "C" void mpi_init_thread_(int*,int*,int*);
namespace {
struct Lock { pthread_mutex_t*m; Lock(pthread_mutex_t*q):m(q){ pthread_mutex_lock(m); } ~Lock(){ pthread_mutex_unlock(m); } };
struct Worker { pthread_t t; pthread_mutex_t m; pthread_cond_t c; void(*f)(void*); void*p; int state; int left; };   // state 0 idle, 1 work, 2 done
const int MAXW=16; Worker wk[MAXW]; bool live[MAXW]; pid_t pool_pid; int n_wk; Rng hr(1); int last=-1; long born;
void*work(void*v){ Worker*w=(Worker*)v; for(;;){ Lock l(&w->m); while(w->state!=1) pthread_cond_wait(&w->c,&w->m); if(w->f) w->f(w->p); w->state=2; w->left--; pthread_cond_signal(&w->c); if(!w->f||w->left<=0) return 0; } }
void start(int i){ Worker*w=&wk[i]; pthread_mutex_init(&w->m,0); pthread_cond_init(&w->c,0); w->state=0; w->f=0; w->left=hr.chance(300)?1:(int)hr.range(2,400); if(pthread_create(&w->t,0,work,w)) _exit(98); live[i]=true; born++; }
void reap(int i){ pthread_join(wk[i].t,0); live[i]=false; }
void hop_pool(void(*f)(void*),void*p){
  if(pool_pid!=getpid()){ pool_pid=getpid(); for(int i=0;i<MAXW;i++) live[i]=false; hr=Rng(g_seed*77+g_case); last=-1; }
  int i=(int)hr.below(n_wk+1); if(i!=last) EV("thread switches between calls"); last=i;
  if(i==n_wk){ EV("calls by the main thread"); f(p); return; }
  if(!live[i]) start(i); Worker*w=&wk[i]; EV("calls by other threads"); EVMAX("threads created",born); bool gone;
  { Lock l(&w->m); w->f=f; w->p=p; w->state=1; pthread_cond_signal(&w->c); while(w->state!=2) pthread_cond_wait(&w->c,&w->m); w->state=0; gone=w->left<=0; }
  if(gone) reap(i); }
bool svc_init=true; void services(void*){ env_services(hr.next(),svc_init); }
void services_somewhere(){ if(hr.chance(60)){ EV("services used between calls"); if(g_hop) g_hop(services,0); else services(0); } }
// --- threads with work of their own ------------------------------------------
const int MT=6; const int W=4;                                  // words per message
struct Chan { std::vector<u64> sent; size_t got; };              // one per ordered pair of threads, guarded by the library lock
Chan chan_[MT][MT]; pthread_mutex_t lib=PTHREAD_MUTEX_INITIALIZER; int T, ops; u64 base; int comm[3]; std::atomic<int> senders; bool anytag;
std::atomic<long> n_msgs, n_polls, n_calls; std::atomic<int> prev_thread; std::atomic<long> n_sw;
#define LIB(x) do{ Lock l_(&lib); if(prev_thread.exchange(me)!=me) n_sw++; n_calls++; x; }while(0)
void word(u64 key,u64*w){ for(int i=0;i<W;i++) w[i]=mix64(key+i*0x51ED27); }
void take(int me,int from,const u64*buf){ // called under the lock
  Chan&c=chan_[from][me]; if(c.got>=c.sent.size()) viol("thread-message","thread %d received a message thread %d has not sent",me,from);
  u64 w[W]; word(c.sent[c.got],w); if(memcmp(w,buf,sizeof w)){ for(size_t k=0;k<c.sent.size();k++){ u64 x[W]; word(c.sent[k],x); if(!memcmp(x,buf,sizeof x)) viol("thread-order","thread %d received message %zu of thread %d in place of message %zu",me,k,from,c.got); } viol("thread-data","thread %d received a message from thread %d that was never sent",me,from); }
  c.got++; n_msgs++; }
void*actor(void*v){
  int me=(int)(long)v; Rng r(base*131+me); struct Out { int q; u64*b; }; struct In { int q; u64*b; int from; }; std::vector<Out> outs; std::deque<In> ins[MT]; int type=0;
  LIB({ if(MPI_Type_contiguous(W,MPI_UNSIGNED_LONG,&type)!=MPI_SUCCESS||MPI_Type_commit(&type)!=MPI_SUCCESS) viol("bad-return","type creation failed"); });
  auto tag=[&](int from,int to){ return from*16+to; };
  auto done=[&](In&x,MPI_Status&st){ if(st.MPI_TAG!=tag(x.from,me)||st.MPI_SOURCE!=0) viol("thread-status","status of thread %d: source %d tag %d",me,st.MPI_SOURCE,st.MPI_TAG); int n=-1; MPI_Get_count(&st,type,&n); if(n!=1) viol("thread-status","count is %d",n); take(me,x.from,x.b); delete[] x.b; };
  auto post=[&](int from){ In x; x.from=from; x.b=new u64[W]; LIB({ MPI_Irecv(x.b,1,type,r.chance(500)?0:MPI_ANY_SOURCE,tag(from,me),comm[(from+me)%3],&x.q); ins[from].push_back(x); }); };
  auto poll=[&](int from)->bool{ if(ins[from].empty()) return false; In x=ins[from].front(); int f=0; LIB({ MPI_Status st; memset(&st,0x5a,sizeof st); MPI_Test(&x.q,&f,&st); n_polls++; if(f){ if(x.q!=MPI_REQUEST_NULL) viol("thread-request","completed request kept"); ins[from].pop_front(); done(x,st); } }); return f; };
  for(int i=0;i<ops;i++){
    int o=(int)r.below(T); if(r.chance(300)) sched_yield();
    switch(r.below(6)){
     case 0: case 1:{ Out x; x.b=new u64[W]; u64 key=mix64(base^((u64)me<<40)^((u64)o<<32)^(u64)i); word(key,x.b); LIB({ chan_[me][o].sent.push_back(key); MPI_Isend(x.b,1,type,0,tag(me,o),comm[(me+o)%3],&x.q); }); outs.push_back(x); break; }
     case 2: post(o); if(r.chance(200)) LIB(svc_init=true; env_services(r.next(),true)); break;
     case 3: poll(o); break;
     case 4: if(!ins[o].empty()) break; LIB({ int f=0; MPI_Status st; MPI_Iprobe(0,tag(o,me),comm[(o+me)%3],&f,&st); bool want=chan_[o][me].got<chan_[o][me].sent.size(); if((f!=0)!=want) viol("thread-probe","probe by thread %d says %d, %zu of %zu messages taken",me,f,chan_[o][me].got,chan_[o][me].sent.size()); if(f){ u64 b[W]; MPI_Recv(b,1,type,0,tag(o,me),comm[(o+me)%3],&st); take(me,o,b); } }); break;
     default: if(!outs.empty()){ size_t k=r.below(outs.size()); int f=0; LIB(MPI_Test(&outs[k].q,&f,MPI_STATUS_IGNORE)); if(f){ delete[] outs[k].b; outs[k]=outs.back(); outs.pop_back(); } } } }
  senders--; while(senders>0){ poll((int)r.below(T)); sched_yield(); }
  for(int o=0;o<T;o++) for(;;){ bool more; { Lock l(&lib); more=chan_[o][me].got<chan_[o][me].sent.size(); } if(!more) break; if(ins[o].empty()) post(o); poll(o); }
  // receives nothing will ever match: served by this thread itself
  for(int o=0;o<T;o++) while(!ins[o].empty()){ u64 w[W]={1,2,3,4}; In x=ins[o].front(); int f=0; LIB({ MPI_Send(w,1,type,0,tag(o,me),comm[(o+me)%3]); MPI_Test(&x.q,&f,MPI_STATUS_IGNORE); if(!f||memcmp(x.b,w,sizeof w)) viol("thread-data","a leftover receive of thread %d is not served by the next send",me); ins[o].pop_front(); delete[] x.b; }); }
  { pthread_barrier_t*b; (void)b; } 
  while(!outs.empty()){ int f=0; LIB(MPI_Test(&outs.back().q,&f,MPI_STATUS_IGNORE)); if(f){ delete[] outs.back().b; outs.pop_back(); } else sched_yield(); }
  LIB(MPI_Type_free(&type)); return 0; }
void shared_case(u64 seed){
  Rng r(seed); base=seed; T=(int)r.range(2,MT); ops=(int)r.range(20,160); for(int i=0;i<MT;i++) for(int j=0;j<MT;j++){ chan_[i][j].sent.clear(); chan_[i][j].got=0; } for(int i=0;i<3;i++) api::comm_dup(MPI_COMM_WORLD,&comm[i]); senders=T; n_msgs=0; prev_thread=-1;
  step("%d threads, %d operations each",T,ops); pthread_t t[MT]; for(int i=0;i<T;i++) if(pthread_create(&t[i],0,actor,(void*)(long)i)) _exit(98); for(int i=0;i<T;i++) pthread_join(t[i],0);
  long total=0; for(int i=0;i<T;i++) for(int j=0;j<T;j++) total+=(long)chan_[i][j].sent.size(); if(total!=n_msgs) viol("thread-message","%ld messages sent, %ld received",total,(long)n_msgs);
  for(int i=0;i<3;i++) api::comm_free(&comm[i]); EVN("messages between threads",(long)n_msgs); EVN("thread switches inside the library",(long)n_sw); n_sw=0; EVN("serialised calls",(long)n_calls); n_calls=0; EVMAX("threads at work",T); if(n_msgs>4) note_distinct(hcomb(seed,(u64)n_msgs)); sample("seed %llx: %d threads, %ld messages among them",(unsigned long long)seed,T,(long)n_msgs); }
// --- levels --------------------------------------------------------------------
void*wild(void*v){ // concurrent calls, only when the library says they are supported
  u64 a[8],b[8]; long me=(long)v; for(int i=0;i<3000;i++){ int q,f=0; MPI_Status st; memset(a,(int)(me*31+i),sizeof a); memset(b,0,sizeof b); if(MPI_Irecv(b,8,MPI_UNSIGNED_LONG,0,(int)me,comm[me%3],&q)) viol("thread-multiple","a concurrent call failed"); MPI_Send(a,8,MPI_UNSIGNED_LONG,0,(int)me,comm[me%3]); MPI_Test(&q,&f,&st); if(!f||memcmp(a,b,sizeof a)||st.MPI_TAG!=me) viol("thread-multiple","the library reports MPI_THREAD_MULTIPLE but concurrent calls disturb each other"); } return 0; }
void*in_thread(void*v){ (*(void(**)())v)(); return 0; }
int l_req,l_prov; bool l_f,l_null;
void l_init(){
#ifndef NO_FORTRAN
  if(l_f){ int e=-9,q=l_req; mpi_init_thread_(&q,&l_prov,&e); if(e!=MPI_SUCCESS) viol("bad-return","mpi_init_thread: error %d",e); return; }
#endif
  int ac=1; char a0[]="p"; char*av[]={a0,0}; char**pv=av; if(MPI_Init_thread(l_null?0:&ac,l_null?0:&pv,l_req,&l_prov)!=MPI_SUCCESS) viol("bad-return","MPI_Init_thread failed"); }
void level_child(u64 seed){
  Rng r(seed); l_req=(int)r.range(0,3); l_f=g_lang==LANG_F||(g_lang==LANG_MIX&&r.chance(500)); l_null=r.chance(500); l_prov=-77; n_wk=(int)r.range(1,8); void(*f)()=l_init; bool elsewhere=r.chance(500);
  about_to(false,false,false,"initialisation with level %d (%s)",l_req,l_f?"Fortran":"C");
  if(elsewhere&&l_req>=MPI_THREAD_SERIALIZED){ pthread_t t; if(pthread_create(&t,0,in_thread,&f)) _exit(98); pthread_join(t,0); } else f();
  fortran_side_init(); if(l_prov<MPI_THREAD_SINGLE||l_prov>MPI_THREAD_MULTIPLE) viol("thread-level","initialisation with level %d reports level %d",l_req,l_prov); EV("thread levels checked"); sh->hash=hcomb(hcomb(l_req*8+l_prov,l_f),seed);
  if(l_prov>=MPI_THREAD_MULTIPLE){ // try it
    step("level MULTIPLE reported for %d, concurrent calls",l_req); for(int i=0;i<3;i++) api::comm_dup(MPI_COMM_WORLD,&comm[i]); pthread_t t[8]; for(long i=0;i<8;i++) pthread_create(&t[i],0,wild,(void*)i); for(int i=0;i<8;i++) pthread_join(t[i],0); EV("concurrent calls tried"); }
  if(l_prov>=MPI_THREAD_SERIALIZED){ g_hop=hop_pool; EV("serialised use tried"); }
  hr=Rng(seed); svc_init=true; g_between_actions=services_somewhere; for(int i=0;i<4;i++){ services_somewhere(); if(g_hop) g_hop(services,0); else services(0); }
  int n=(int)r.range(1,4); for(int i=0;i<n;i++) switch(r.below(6)){ case 0: p2p_run_one("mixed",r.next()); break; case 1: coll_case(r.next()); break; case 2: pack_case(r.next()); break; case 3: types_run_one(0,r.next()); break; case 4: alg_case(r.next(),r.chance(500)); break; default: p2p_run_one("complete",r.next()); }
  api::finalize(); svc_init=false; for(int i=0;i<4;i++) if(g_hop) g_hop(services,0); else services(0); survived(); }
}
void threads_on(int n){ n_wk=n<1?1:n>MAXW?MAXW:n; g_hop=hop_pool; }
void eng_thread(){
  bool levels=!strcmp(g_opt.profile,"levels"); if(!levels) api::init();
  for(u64 i=g_opt.from;i<g_opt.to;i++){ mark_case(i); u64 s=mix64(g_opt.seed*0x1000193+i)^0x7EAD; if(levels){ ChildEnd e=run_child(level_child,s,90,300); if(WIFEXITED(e.status)&&WEXITSTATUS(e.status)==76) viol("sanitizer","%s: %s",sh->what,first_line(e)); judge_child(e); sample("%s: granted and used",sh->what); } else shared_case(s); }
  if(!levels) api::finalize();
}
