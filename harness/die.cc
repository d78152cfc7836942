// Calls that must end the process (and near misses that must not), each in a forked child.
// Profiles: deadlock (blocking calls that can never complete), misuse, packover, mismatch
// (type-checking build), limit (more live handles than supported).
#include "types.h"
#include <sys/wait.h>
void p2p_run_one(const char*profile,u64 seed);
namespace {
struct Pend { int cnt=1; bool send; int comm,tag,req; i64*val; i64 id; bool complete=false; Pend*peer=0; };
struct S { Rng r; std::vector<int> tags; bool zero=false; int empty=0; std::vector<int> comms; std::vector<Pend*> all; std::deque<Pend*> q; S(u64 s):r(s){ tags=tag_pool(r,5); for(auto&t:tags) if(t==999||(t>=500&&t<600)) t+=5000; } };
S*Z;
bool tag_ok(int want,int tag){ return want==MPI_ANY_TAG||want==tag; }
Pend*find(bool send,int comm,int tag){ for(auto p:Z->q) if(p->send==send&&p->comm==comm&&(send?tag_ok(tag,p->tag):tag_ok(p->tag,tag))) return p; return 0; }
// what is sent: one long, or nothing (no elements, or elements of a type without contents); a receive always has room for it
struct What { int n,t,cnt; };
What sending(){ What w={1,MPI_LONG,1}; if(!Z->zero&&!Z->r.chance(250)) return w; w.n=w.cnt=0; if(Z->r.chance(300)){ if(!Z->empty){ api::type_contiguous(0,MPI_LONG,&Z->empty); api::type_commit(&Z->empty); } w.t=Z->empty; w.n=(int)Z->r.range(0,3); } return w; }
What receiving(){ What w={1,MPI_LONG,1}; if(Z->zero&&Z->r.chance(500)) w.n=w.cnt=0; return w; }
void match(Pend*s,Pend*x){ x->id=s->cnt?s->id:*x->val; s->complete=x->complete=true; s->peer=x; x->peer=s; }
i64*slot(){ return (i64*)arena(8,Z->r); }
int tagof(){ return Z->tags[Z->r.below(4)]; } int comm_(){ return Z->comms[Z->r.below(Z->comms.size())]; }
void post(bool send){
  Pend*p=new Pend; p->send=send; p->comm=comm_(); p->tag=(!send&&Z->r.chance(200))?MPI_ANY_TAG:tagof(); p->val=slot(); p->id=(i64)Z->r.next();
  if(send) *p->val=p->id; step("pre-post %s tag %d comm %d",send?"send":"receive",p->tag,p->comm);
  What k=send?sending():receiving(); p->cnt=k.cnt; if(send) api::isend(p->val,k.n,k.t,0,p->tag,p->comm,&p->req); else api::irecv(p->val,k.n,k.t,Z->r.chance(500)?0:MPI_ANY_SOURCE,p->tag,p->comm,&p->req);
  Pend*o=find(!send,p->comm,p->tag); if(o){ if(send) match(p,o); else match(o,p); Z->q.erase(std::find(Z->q.begin(),Z->q.end(),o)); } else Z->q.push_back(p);
  Z->all.push_back(p); }
void check_pending(){ for(auto p:Z->all) if(!p->send&&p->complete&&*p->val!=p->id) viol("recv-data","a matched receive holds the wrong value"); }
// the process goes on: traffic still works, and everything posted is still there
void goes_on(){
  check_pending(); i64 a=(i64)Z->r.next(),b=0; int q1,q2; api::irecv(&b,1,MPI_LONG,0,999,MPI_COMM_WORLD,&q1); api::isend(&a,1,MPI_LONG,0,999,MPI_COMM_WORLD,&q2); int n1=q1; (void)n1;
  bool wild=false; for(auto p:Z->q) if(p->comm==MPI_COMM_WORLD&&!p->send&&p->tag==MPI_ANY_TAG) wild=true; // it would have taken the message
  if(!wild){ api::wait(&q1,MPI_STATUS_IGNORE); api::wait(&q2,MPI_STATUS_IGNORE); if(a!=b) viol("recv-data","traffic after the call is broken"); }
  survived(); }
void prelude(){ Rng&r=Z->r; if(r.chance(350)) p2p_run_one("mixed",r.next()); Z->comms.push_back(MPI_COMM_WORLD); int n=(int)r.below(3); for(int i=0;i<n;i++){ int h; api::comm_dup(MPI_COMM_WORLD,&h); Z->comms.push_back(h); } }
i64*x_val(Pend*x){ static i64 none=0; return x?x->val:&none; }
struct Reqs { std::vector<int> h; std::vector<Pend*> p; int active=0,comp=0; };
Reqs some_reqs(){
  Reqs x; std::vector<Pend*> v=Z->all; for(int i=(int)v.size()-1;i>0;i--) std::swap(v[i],v[Z->r.below(i+1)]); int mode=(int)Z->r.below(4); // 0 any mix, 1 complete only, 2 pending only, 3 one pending among complete
  bool had=false; for(auto p:v){ if(mode==1&&!p->complete) continue; if(mode==2&&p->complete) continue; if(mode==3&&!p->complete){ if(had) continue; had=true; } if(x.h.size()<6||Z->r.chance(300)){ x.h.push_back(p->req); x.p.push_back(p); } }
  int nulls=(int)(Z->r.chance(400)?Z->r.below(3):0); for(int i=0;i<nulls;i++){ size_t k=Z->r.below(x.h.size()+1); x.h.insert(x.h.begin()+k,MPI_REQUEST_NULL); x.p.insert(x.p.begin()+k,(Pend*)0); }
  for(auto p:x.p) if(p){ x.active++; if(p->complete) x.comp++; } return x; }

void deadlock_child(u64 seed){
  S z(seed); Z=&z; Rng&r=z.r; api::init(); prelude(); z.zero=r.chance(200); int n=(int)r.below(r.chance(30)?600:14); for(int i=0;i<n;i++) post(r.chance(500));
  static const int OV[]={0,1,2,3,4,5,6,6,6,6,4,12}; int k=!strcmp(g_opt.profile,"overtake")?OV[r.below(12)]:(int)r.below(13); int tag=tagof(),comm=comm_(); bool ign=r.chance(400); MPI_Status st[40]; memset(st,0x5A,sizeof st); i64*v=slot(); MPI_Status*sp=ign?MPI_STATUS_IGNORE:st;
  int src=r.chance(500)?0:MPI_ANY_SOURCE; int want=r.chance(250)?MPI_ANY_TAG:tag;
  // half of the time aim at something that is there
  if(!z.q.empty()&&r.chance(400)){ Pend*p=z.q[r.below(z.q.size())]; if(p->tag!=MPI_ANY_TAG) tag=want=p->tag; if(r.chance(700)) comm=p->comm; }
  What W=sending(),V=receiving(); const char*em=W.cnt?"":"empty "; auto want_val=[&](Pend*x,i64 was){ return x->cnt?x->id:was; };
  sh->hash=hcomb(hcomb(seed,k),n); auto H=[&](bool die){ sh->hash=hcomb(hcomb(k*2+die,z.q.size()*31+n),hcomb(tag,comm)); };
  switch(k){
   case 0: case 1: case 2:{ Pend*x=find(false,comm,tag); bool die=!x; H(die); about_to(die,false,true,"%s%s to self tag %d with %zu operations pending, %s receive posted",em,k==0?"send":k==1?"ssend":"rsend",tag,z.q.size(),x?"matching":"no matching");
     i64 pay=W.cnt?*v:*x_val(x); api::send(k,v,W.n,W.t,0,tag,comm); if(die){ survived(); return; } if(*x->val!=pay) viol("recv-data","the waiting receive got the wrong value"); x->complete=true; x->id=pay; z.q.erase(std::find(z.q.begin(),z.q.end(),x)); break; }
   case 3:{ Pend*x=find(false,comm,tag); bool die=!x; H(die); about_to(die,false,true,"%sirsend to self tag %d, %s receive posted",em,tag,x?"matching":"no matching"); i64 pay=W.cnt?*v:*x_val(x); int q; api::irsend(v,W.n,W.t,0,tag,comm,&q); if(die){ survived(); return; } api::wait(&q,MPI_STATUS_IGNORE); if(*x->val!=pay) viol("recv-data","the waiting receive got the wrong value"); x->complete=true; x->id=pay; z.q.erase(std::find(z.q.begin(),z.q.end(),x)); break; }
   case 4:{ Pend*x=find(true,comm,want); bool die=!x; H(die); about_to(die,false,true,"recv from self tag %d, %s message pending",want,x?"a matching":"no matching"); i64 was=*v; api::recv(v,V.n,V.t,src,want,comm,sp); if(die){ survived(); return; } if(*v!=want_val(x,was)) viol("recv-data","received the wrong message"); if(!ign&&st[0].MPI_TAG!=x->tag) viol("status-tag","wrong tag in the status"); x->complete=true; z.q.erase(std::find(z.q.begin(),z.q.end(),x)); break; }
   case 5:{ Pend*x=find(true,comm,want); bool die=!x; H(die); about_to(die,false,true,"probe tag %d, %s message pending",want,x?"a matching":"no matching"); api::probe(src,want,comm,sp); if(die){ survived(); return; } if(!ign&&st[0].MPI_TAG!=x->tag) viol("status-tag","wrong tag in the status"); break; }
   case 6:{ Pend*a=find(true,comm,want),*b=find(false,comm,tag); int stag=tag; bool die=!((!a&&!b&&tag_ok(want,stag))||(a&&b)); 
     if(r.chance(300)&&!a&&!b){ for(int i=0;i<5;i++) if(Z->tags[i]!=tag){ want=Z->tags[i]; break; } a=find(true,comm,want); die=!((!a&&!b&&tag_ok(want,stag))||(a&&b)); }
     i64*w=slot(); i64 was=*w, pay=W.cnt?*v:was, pay2=W.cnt?*v:b?*b->val:0; H(die); about_to(die,false,true,"%ssendrecv tags %d/%d, %s pending send, %s pending receive",em,stag,want,a?"a":"no",b?"a":"no"); api::sendrecv(v,W.n,W.t,0,stag,w,V.n,V.t,src,want,comm,sp); if(die&&a&&W.cnt&&*w==*v) viol("overtaken","sendrecv received its own message although an earlier one with a fitting tag is pending"); if(die&&b&&W.cnt&&*w==*v&&*b->val!=*v) viol("overtaken","the message of a sendrecv was not given to the earlier matching receive"); if(die){ survived(); return; }
     if(a){ if(*w!=want_val(a,was)||*b->val!=pay2) viol("recv-data","sendrecv exchanged the wrong values"); a->complete=b->complete=true; b->id=pay2; z.q.erase(std::find(z.q.begin(),z.q.end(),a)); z.q.erase(std::find(z.q.begin(),z.q.end(),b)); } else if(*w!=pay) viol("recv-data","sendrecv got the wrong value"); break; }
   case 7: { if(z.all.empty()) post(r.chance(500)); std::vector<Pend*> pd; for(auto p:z.all) if(!p->complete) pd.push_back(p); Pend*p=!pd.empty()&&r.chance(500)?r.pick(pd):r.pick(z.all); bool die=!p->complete; H(die); about_to(die,false,true,"wait for a %s %s",p->complete?"matched":"pending",p->send?"send":"receive"); api::wait(&p->req,sp); if(die){ survived(); return; } break; }
   case 8: case 9: case 10:{ Reqs x=some_reqs(); int m=(int)x.h.size(); std::vector<int> h=x.h; h.push_back(0); bool die= k==9? x.comp<x.active : (x.active&&!x.comp); int idx=-5,oc=-5; std::vector<int> ix(m+1,-5); std::vector<MPI_Status> sv(m+1); memset((void*)sv.data(),0x5A,sizeof(MPI_Status)*(m+1)); H(die);
     about_to(die,false,true,"%s over %d requests, %d active, %d complete",k==8?"waitany":k==9?"waitall":"waitsome",m,x.active,x.comp);
     if(k==8) api::waitany(m,h.data(),&idx,sp); else if(k==9) api::waitall(m,h.data(),ign?MPI_STATUSES_IGNORE:sv.data()); else api::waitsome(m,h.data(),&oc,ix.data(),ign?MPI_STATUSES_IGNORE:sv.data());
     if(die){ survived(); return; }
     for(int i=0;i<m;i++) if(x.p[i]&&!x.p[i]->complete&&h[i]!=x.h[i]) viol("req-changed","a pending request was changed"); break; }
   case 11:{ // null process: always satisfied
     H(false); int m=(int)r.below(5); about_to(false,false,true,"null-process call %d",m); i64 was=*v; switch(m){ case 0: api::send((int)r.below(3),v,W.n,W.t,MPI_PROC_NULL,tag,comm); break; case 1: api::recv(v,1,MPI_LONG,MPI_PROC_NULL,want,comm,sp); break; case 2: api::probe(MPI_PROC_NULL,want,comm,sp); break; case 3: api::sendrecv(v,1,MPI_LONG,MPI_PROC_NULL,tag,v,1,MPI_LONG,MPI_PROC_NULL,want,comm,sp); break; default:{ int q; api::irsend(v,1,MPI_LONG,MPI_PROC_NULL,tag,comm,&q); api::wait(&q,sp); } } if(*v!=was) viol("recv-data","a null-process transfer changed data"); break; }
   default:{ // half a sendrecv is satisfied by the null process, the other half is not
     bool s=r.chance(500); Pend*x=s?find(false,comm,tag):find(true,comm,want); bool die=!x; H(die); i64*w=slot(); i64 was=*w; about_to(die,false,true,"%ssendrecv with a null %s, the other half %s",em,s?"source":"destination",die?"unmatched":"matched");
     i64 pay=W.cnt?*v:s&&x?*x->val:0; if(s) api::sendrecv(v,W.n,W.t,0,tag,w,1,MPI_LONG,MPI_PROC_NULL,want,comm,sp); else api::sendrecv(v,1,MPI_LONG,MPI_PROC_NULL,tag,w,V.n,V.t,src,want,comm,sp); if(die){ survived(); return; }
     if(s? *x->val!=pay : *w!=want_val(x,was)) viol("recv-data","sendrecv exchanged the wrong value"); x->complete=true; if(s) x->id=pay; z.q.erase(std::find(z.q.begin(),z.q.end(),x)); }
  }
  goes_on(); _exit(0);
}
int bad_rank(int m1=0,int m2=0){ if((m1||m2)&&Z->r.chance(150)) return m1&&m2?(Z->r.chance(500)?m1:m2):m1?m1:m2; int v[]={1,2,3,7,255,65536,INT32_MAX,-4,-17,INT32_MIN,1000,256,512,-256,1<<24,-65536}; return v[Z->r.below(16)]; }
struct Buf { void*p; int n; int t; MT m; };
// a typed buffer in the arena holding at least 1 element; elems basic elements of INT in all
int ints_type(int el,int&count,bool commit,bool derived){ // a type over MPI_INT such that count items hold el elements
  if(!derived){ count=el; return MPI_INT; } int t; Rng&r=Z->r; int per=1; for(int d=2;d<=3;d++) if(el%d==0&&r.chance(600)) per=d; count=el/per;
  switch(r.below(3)){ case 0: api::type_contiguous(per,MPI_INT,&t); break; case 1: api::type_vector(per,1,2,MPI_INT,&t); break; default:{ std::vector<int> bl(per,1); std::vector<i64> d(per); std::vector<int> ty(per,MPI_INT); for(int i=0;i<per;i++) d[i]=4*(per-1-i); api::type_struct(per,bl.data(),d.data(),ty.data(),&t); } }
  while(r.chance(350)){ // wrapped in further constructors; what a committed type is made into is not committed, unless duplicated
    int k=(int)r.below(7),u,one=1,nil=0; i64 z=0; if(k&&r.chance(400)) api::type_commit(&t);
    switch(k){ case 0: api::type_dup(t,&u); break; case 1: api::type_contiguous(1,t,&u); break; case 2: api::type_vector(1,1,(int)r.range(-3,3),t,&u); break; case 3: api::type_hvector(1,1,(i64)r.range(-30,30),t,&u,r.chance(500)); break;
     case 4: api::type_indexed(1,&one,&nil,t,&u); break; case 5: api::type_hindexed(1,&one,&z,t,&u); break; default: api::type_struct(1,&one,&z,&t,&u); }
    if(k==0&&!commit) EV("duplicates of uncommitted types"); if(r.chance(500)) api::type_free(&t); t=u; }
  if(commit) api::type_commit(&t); return t; }
void*room(int el){ return arena((size_t)el*16+64,Z->r); }
void call_coll(int kind,const void*s,int sn,int st,void*q,int rn,int rt,int root,int comm){
  int zero=0;
  switch(kind){ case 0: api::gather(s,sn,st,q,rn,rt,root,comm); break; case 1: api::gatherv(s,sn,st,q,&rn,&zero,rt,root,comm); break; case 2: api::allgather(s,sn,st,q,rn,rt,comm); break; case 3: api::allgatherv(s,sn,st,q,&rn,&zero,rt,comm); break;
   case 4: api::scatter(s,sn,st,q,rn,rt,root,comm); break; case 5: api::scatterv(s,&sn,&zero,st,q,rn,rt,root,comm); break; case 6: api::alltoall(s,sn,st,q,rn,rt,comm); break; case 7: api::alltoallv(s,&sn,&zero,st,q,&rn,&zero,rt,comm); break; default: api::alltoallw(s,&sn,&zero,&st,q,&rn,&zero,&rt,comm); } }
const char*cn[]={"gather","gatherv","allgather","allgatherv","scatter","scatterv","alltoall","alltoallv","alltoallw"};
void p2p_pair(const void*s,int sn,int st,void*q,int rn,int rt,int how,int comm){ // one transfer, several call combinations
  int a,b,tag=77; MPI_Status x;
  switch(how){ case 0: api::irecv(q,rn,rt,0,tag,comm,&b); api::isend(s,sn,st,0,tag,comm,&a); break; case 1: api::isend(s,sn,st,0,tag,comm,&a); api::irecv(q,rn,rt,0,tag,comm,&b); break;
   case 2: api::irecv(q,rn,rt,MPI_ANY_SOURCE,tag,comm,&b); api::send(0,s,sn,st,0,tag,comm); break; case 3: api::isend(s,sn,st,0,tag,comm,&a); api::recv(q,rn,rt,0,tag,comm,&x); break;
   case 4: api::sendrecv(s,sn,st,0,tag,q,rn,rt,0,tag,comm,&x); break; default: api::irecv(q,rn,rt,0,tag,comm,&b); api::irsend(s,sn,st,0,tag,comm,&a); } }

void misuse_child(u64 seed){
  S z(seed); Z=&z; Rng&r=z.r;
  if(r.chance(40)){ // initialising when there already is something; once more after an orderly end is valid
    int k=(int)r.below(4),m=(int)r.range(1,4),q=0; z.comms.push_back(MPI_COMM_WORLD);
    if(k==1) for(int i=0;i<m;i++){ if(r.chance(500)) api::type_contiguous((int)r.range(0,3),MPI_INT,&q); else api::type_vector(2,1,m,q>0?q:MPI_DOUBLE,&q); if(i+1<m&&r.chance(300)) api::type_free(&q); }
    else { if(r.chance(200)) api::init_thread(MPI_THREAD_MULTIPLE,&q); else api::init(); if(k!=3&&r.chance(600)){ prelude(); for(int i=0;i<m;i++) post(r.chance(500)); } if(k==3) api::finalize(); }
    bool th=r.chance(400); sh->hash=hcomb(k*2+th,m); about_to(k!=3,k!=3,false,"%s",k==3?"initialising anew after finalising":k==1?"initialising with types already created":"initialising twice");
    if(th) api::init_thread((int)r.range(MPI_THREAD_SINGLE,MPI_THREAD_MULTIPLE),&q); else api::init();
    EV("later initialisations"); if(k==3) goes_on(); else survived(); _exit(0); }
  api::init(); prelude(); int n=(int)r.below(8); for(int i=0;i<n;i++) post(r.chance(500));
  for(size_t i=0;i<z.comms.size();i++){} int comm=comm_(); int el=(int)r.range(1,12); int k=(int)r.below(14); int tag=500+(int)r.below(5); int c1,c2; bool d1=r.chance(500),d2=r.chance(500); int q;
  auto H=[&](u64 a){ sh->hash=hcomb(hcomb(k,a),hcomb(z.q.size(),el)); };
  switch(k){
   case 0:{ int b=bad_rank(MPI_ANY_SOURCE,MPI_ROOT),f=(int)r.below(7); int t=ints_type(el,c1,true,d1); if(r.chance(200)) c1=0; void*s=room(el); void*w=room(el); MPI_Status st; H(f*100003u+b); about_to(true,true,false,"send form %d to rank %d",f,b); if(f<3) api::send(f,s,c1,t,b,tag,comm); else if(f==3) api::isend(s,c1,t,b,tag,comm,&q); else if(f==4) api::irsend(s,c1,t,b,tag,comm,&q); else api::sendrecv(s,c1,t,b,tag,w,c1,t,f==6?MPI_PROC_NULL:0,tag,comm,&st); break; }
   case 1:{ int b=bad_rank(MPI_ROOT),f=(int)r.below(5),fl; int t=ints_type(el,c1,true,d1); if(r.chance(200)) c1=0; void*s=room(el); void*w=room(el); MPI_Status st; bool avail=r.chance(500)&&f!=4; if(avail){ api::isend(s,c1,t,0,tag,comm,&q); } H(f*100003u+b); about_to(true,true,false,"receive form %d from rank %d",f,b); if(f==0) api::irecv(w,c1,t,b,tag,comm,&q); else if(f==1) api::recv(w,c1,t,b,tag,comm,&st); else if(f==2) api::iprobe(b,tag,comm,&fl,&st); else if(f==3) api::probe(b,tag,comm,&st); else api::sendrecv(s,c1,t,MPI_PROC_NULL,tag,w,c1,t,b,tag,comm,&st); break; }
   case 2:{ int b=bad_rank(MPI_ANY_SOURCE,MPI_PROC_NULL); int f=(int)r.below(6); int t=ints_type(el,c1,true,d1); if(r.chance(250)) c1=0; void*s=room(el); void*w=room(el); int ops[]={MPI_SUM,MPI_MAX,MPI_BOR}; H(f*100003u+b); bool inp=r.chance(250); about_to(true,true,false,"%s %d with root %d",inp&&f?"in-place collective":"collective",f,b); const void*s_=inp&&f<4?MPI_IN_PLACE:(const void*)s; void*w_=inp&&f>=4?MPI_IN_PLACE:w;
     if(f==0) api::bcast(s,c1,t,b,comm); else if(f==1) api::reduce(s_,w,c1,t,ops[r.below(3)],b,comm); else call_coll(f==2?0:f==3?1:f==4?4:5,s_,c1,t,w_,c1,t,b,comm); break; }
   case 3:{ bool us=r.chance(500); int t1=ints_type(el,c1,!us,us||d1), t2=ints_type(el,c2,us,!us||d2); void*s=room(el*2),*w=room(el*2); int how=(int)r.below(6); api::comm_dup(comm,&comm); H(how*2+us); about_to(true,true,false,"transfer form %d with an uncommitted %s type",how,us?"send":"receive"); p2p_pair(s,c1,t1,w,c2,t2,how,comm); break; }
   case 4:{ bool us=r.chance(500); int t1=ints_type(el,c1,!us,us||d1), t2=ints_type(el,c2,us,!us||d2); void*s=room(el*2),*w=room(el*2); int f=(int)r.below(13); H(f*2+us);
     if(f>=9) { int t=ints_type(el,c1,false,true); about_to(true,true,false,"reduction %d with an uncommitted type",f-9); if(f==9) api::reduce(s,w,c1,t,MPI_SUM,0,comm); else if(f==10) api::allreduce(s,w,c1,t,MPI_SUM,comm); else if(f==11) api::reduce_scatter(s,w,&c1,t,MPI_SUM,comm); else api::scan(s,w,c1,t,MPI_SUM,comm); }
     else { about_to(true,true,false,"%s with an uncommitted %s type",cn[f],us?"send":"receive"); call_coll(f,s,c1,t1,w,c2,t2,0,comm); } break; }
   case 5:{ int more=(int)r.range(1,8); bool z0=r.chance(150); int t1=ints_type(el,c1,true,d1), t2=ints_type(el+more,c2,true,d2); if(z0) c1=0; void*s=room(el*2),*w=room((el+more)*2); int f=(int)r.below(9); H(f*64+more); if(r.chance(150)){ // room for more than 2^32 elements
       int per=(int)(r.chance(500)?65536:r.range(2,9)*8192), m=(int)(((i64)1<<(r.chance(500)?32:31))/per); c2=m+(int)r.below(r.chance(300)?2:m/1000+1); if(c2<m) c2=m; api::type_contiguous(per,MPI_INT,&t2); api::type_commit(&t2); about_to(true,true,false,"%s of %d elements into %d x %d",cn[f],z0?0:el,c2,per); call_coll(f,s,c1,t1,w,c2,t2,0,comm); break; }
     about_to(true,true,false,"%s of %d elements into %d",cn[f],z0?0:el,el+more); call_coll(f,s,c1,t1,w,c2,t2,0,comm); break; }
   case 6:{ int nd=(int)r.range(1,r.chance(100)?300:6); if(r.chance(40)) nd=(int)r.magic(600); std::vector<int> d(nd,1),p(nd,0); int bg=(int)r.below(nd); d[bg]=(int)r.range(2,r.chance(500)?5:INT32_MAX); if(r.chance(200)){ static const int P[]={256,512,65536,1<<24}; d[bg]=P[r.below(4)]; } if(r.chance(300)) for(int i=0;i<nd;i++) if(i!=bg) d[i]=r.chance(400)?0:r.chance(200)?(int)r.range(2,9):1; if(nd>1&&r.chance(120)){ static const int P[]={1<<16,1<<30,1<<24,1<<28,65537,46341}; for(int i=0;i<nd;i++) d[i]=P[r.below(6)]; } int h; H(nd*977+d[0]); about_to(true,true,false,"grid of %d dimensions with one above one",nd); api::cart_create(comm,nd,d.data(),p.data(),(int)r.below(2),&h); break; }
   case 7:{ int nn=(int)r.range(2,r.chance(500)?8:INT32_MAX),nd=(int)r.range(1,r.chance(100)?300:5); if(r.chance(250)){ static const int P[]={256,512,65536,1<<24}; nn=P[r.below(4)]; } std::vector<int> d(nd,0); if(r.chance(300)) for(int&x:d) x=r.chance(500)?1:0; if(r.chance(200)) d[r.below(nd)]=nn; H(nn*7+nd); about_to(true,true,false,"dims for %d nodes",nn); api::dims_create(nn,nd,d.data()); break; }
   case 8:{ int nd=(int)r.range(0,4); std::vector<int> d(nd+1,1),p(nd+1,0),x(nd+1); int h; api::cart_create(comm,nd,d.data(),p.data(),0,&h); int b=bad_rank(MPI_ANY_SOURCE,MPI_PROC_NULL); H(b); about_to(true,true,false,"coordinates of rank %d",b); api::cart_coords(h,b,nd,x.data()); break; }
   case 9:{ int g; api::comm_group(comm,&g); int f=(int)r.below(6),o,e=MPI_GROUP_EMPTY; int a=MPI_GROUP_NULL,b=MPI_GROUP_NULL; int w=(int)r.below(3); if(w==1) b=r.chance(500)?g:e; if(w==2) a=r.chance(500)?g:e; int rk=0,r2=0; int rg[1][3]={{0,0,1}}; H(f*3+w); about_to(true,true,false,"group operation %d with null group (%d,%d)",f,a,b);
     switch(f){ case 0: api::group_union(a,b,&o); break; case 1: api::group_intersection(a,b,&o); break; case 2: api::group_difference(a,b,&o); break; case 3: api::group_translate(a,r.chance(700)?1:0,&rk,b,&r2); break; case 4: api::group_incl(MPI_GROUP_NULL,(int)r.below(2),&rk,&o); break; default: api::group_range_incl(MPI_GROUP_NULL,(int)r.below(2),rg,&o); } break; }
   case 10:{ int g; api::comm_group(comm,&g); int o; int m=(int)r.range(1,4); std::vector<int> v(m,0); if(m==1) v[0]=bad_rank(MPI_ANY_SOURCE,MPI_ROOT); else v[r.below(m)]=r.chance(500)?0:bad_rank(); H(m*7919+v[0]); about_to(true,true,false,"inclusion of %d ranks beginning with %d",m,v[0]); api::group_incl(g,m,v.data(),&o); break; }
   case 11:{ int g; api::comm_group(comm,&g); int o; int b=r.chance(200)?256<<(int)r.below(9):(int)r.range(1,9); int v[4][3]={{0,0,1},{0,0,1},{0,0,1},{0,0,1}}; int m=1; switch(r.below(5)){ case 3: m=(int)r.range(2,4); b=0; for(int i=0;i<m;i++) v[i][2]=r.chance(700)?1:(int)r.range(-3,-1); break; case 0: v[0][0]=v[0][1]=b; break; case 1: v[0][1]=b; break; case 2: v[0][0]=b; v[0][2]=-1; break; default: { m=(int)r.range(2,4); int k=(int)r.below(m); v[k][0]=v[k][1]=b; } } H(m*7919+b); about_to(true,true,false,"range inclusion reaching rank %d",b); api::group_range_incl(g,m,v,&o); break; }
   case 12:{ int g; api::comm_group(comm,&g); int m=(int)r.range(1,r.chance(100)?300:4); std::vector<int> v(m,0),o(m,0); int g1=g; if(r.chance(300)) g1=MPI_GROUP_EMPTY; else v[r.below(m)]=bad_rank(MPI_ANY_SOURCE,MPI_ROOT); int g2=r.chance(700)?g:MPI_GROUP_EMPTY; H(m*31+v[0]); about_to(true,true,false,"translation of nonexistent ranks"); api::group_translate(g1,m,v.data(),g2,o.data()); break; }
   default:{ // near misses: all valid
     int f=(int)r.below(6); H(f); about_to(false,false,false,"valid counterpart %d",f);
     switch(f){ case 0:{ int t1=ints_type(el,c1,true,d1),t2=ints_type(el,c2,true,d2); void*s=room(el*2),*w=room(el*2); call_coll((int)r.below(9),s,c1,t1,w,c2,t2,0,comm); break; }
      case 1:{ int h,d[3]={1,0,1},p[3]={0,1,0}; api::cart_create(comm,3,d,p,1,&h); int x[3]; api::cart_coords(h,0,3,x); break; } case 2:{ int d[3]={0,0,0}; api::dims_create(1,3,d); break; }
      case 3:{ int t1=ints_type(el,c1,true,d1),t2=ints_type(el,c2,true,d2); void*s=room(el*2),*w=room(el*2); int cc; api::comm_dup(comm,&cc); p2p_pair(s,c1,t1,w,c2,t2,(int)r.below(6),cc); break; }
      case 4:{ int g,o,z0=0; api::comm_group(comm,&g); api::group_incl(g,0,&z0,&o); api::group_incl(g,1,&z0,&o); api::group_union(MPI_GROUP_EMPTY,o,&o); break; } default: { void*s=room(el); api::bcast(s,el,MPI_INT,r.chance(500)?MPI_ROOT:0,comm); } }
     survived(); _exit(0); }
  }
  survived(); _exit(0);
}
void packover_child(u64 seed){
  S z(seed); Z=&z; Rng&r=z.r; api::init(); prelude(); TypeGen g(r); g.max_el=16; g.max_span=512; g.verify=false; g.negative=r.chance(200); g.pick_unit(true,r.chance(400)); MT t; i64 c;
  for(int i=0;;i++){ t=i<8?g.gen((int)r.below(3)):g.base(); c=r.range(1,4); if(t.size()>0&&!t.overlaps(c)&&t.map.size()<100) break; }
  ensure_committed(t); i64 lo,hi; t.span(c,lo,hi); unsigned char*ub=(unsigned char*)arena(hi-lo+64,r); void*user=ub+32-lo; int bytes=(int)(t.size()*c);
  int pos0=r.chance(400)?(int)r.range(1,30):0; int slack; switch(r.below(4)){ case 0: slack=-1; break; case 1: slack=0; break; default: slack=(int)-r.range(1,bytes+pos0); } // missing bytes; 0: an exact fit
  bool exact=slack==0; int size=pos0+bytes+slack; bool unp=r.chance(500); int comm=comm_(); int pos=pos0; bool far=!exact&&r.chance(150); unsigned char*pb=(unsigned char*)arena(pos0+bytes+64,r);
  sh->hash=hcomb(hcomb(bytes,pos0),hcomb(slack,unp*2+far));
  if(far){ // a position so large that position plus element size does not fit an int
    int es=t.map[0].size; pos=INT32_MAX-(int)r.below(es); size=INT32_MAX-(int)r.below(2); if(size-pos>=es) pos=size-es+1; pb-=pos; pb+=32; } // the region starting at that position is inside the arena
  unsigned char*r0=unp?(unsigned char*)user+lo:pb+pos,*r1=unp?(unsigned char*)user+hi:pb+(size>pos?size:pos); snprintf(sh->key,sizeof sh->key,"%zu %zu",(size_t)(r0-sh_arena),(size_t)(r1-sh_arena));
  about_to(!exact,false,false,"%s of %d bytes at position %d with declared size %d (%s)",unp?"unpack":"pack",bytes,pos,size,t.desc);
  if(unp) api::unpack(pb,size,&pos,user,(int)c,t.h,comm); else api::pack(user,(int)c,t.h,pb,size,&pos,comm);
  if(exact&&pos!=size) viol("pack-position","an exact fit ended at %d of %d",pos,size);
  survived(); _exit(0);
}
// what an exceeding pack may have changed: the declared region (pack) or the typemap's bytes (unpack)
void judge_packover(u64 seed,const ChildEnd&e){
  // regenerate the layout to know which bytes were allowed to change: the child left it in key
  size_t a0,a1; if(sscanf(sh->key,"%zu %zu",&a0,&a1)==2) for(size_t i=0;i<sh->used;i++) if(sh_arena[i]!=sh_copy[i]&&(i<a0||i>=a1)) viol("pack-outside","%s: byte %ld %s the declared region changed",sh->what,i<a0?(long)(a0-i):(long)(i-a1),i<a0?"before":"past");
  (void)seed; judge_child(e); }
void mismatch_child(u64 seed){ // type-checking build only
  S z(seed); Z=&z; Rng&r=z.r; basics_init(); api::init(); if(r.chance(200)) p2p_run_one("payload",r.next()); Z->comms.push_back(MPI_COMM_WORLD);
  // two element sequences that agree except perhaps at one place
  auto real=[&](int i){ return g_basic[i].nel==1&&strcmp(g_basic[i].name,"MPI_PACKED"); };
  // (both sides repeat the same elements; a side's type may hold the sequence several times over)
  int n=(int)r.range(1,6); std::vector<int> v(n),a,b; for(auto&x:v) do x=(int)r.below(g_basic.size()); while(!real(x)); int ka=r.chance(600)?1:(int)r.range(1,4),kb=r.chance(600)?1:(int)r.range(1,4); if(r.chance(60)){ ka=(int)r.range(40,150); kb=1; if(r.chance(500)) std::swap(ka,kb); }
  for(int i=0;i<ka;i++) a.insert(a.end(),v.begin(),v.end()); for(int i=0;i<kb;i++) b.insert(b.end(),v.begin(),v.end());
  int bad=-1,was=0,now=0; if(r.chance(700)){ bool ina=r.chance(500); std::vector<int>&t=ina?a:b; bad=(int)r.below(t.size()); was=t[bad]; std::vector<int> same; for(size_t i=0;i<g_basic.size();i++) if(real((int)i)&&(int)i!=was&&g_basic[i].ext==g_basic[was].ext) same.push_back((int)i);
    do now=!same.empty()&&r.chance(700)?r.pick(same):(int)r.below(g_basic.size()); while(!real(now)||g_basic[now].h==g_basic[was].h); t[bad]=now; if(ina) std::swap(was,now); }
  // or: the lengths of the two are unrelated, so where they first differ may lie past the end of both
  bool odd=r.chance(250); if(odd){ int al[3]; for(int&x:al) do x=(int)r.below(g_basic.size()); while(!real(x)); if(r.chance(600)) for(int i=0;i<20;i++){ int x=(int)r.below(g_basic.size()); if(real(x)&&x!=al[0]&&g_basic[x].ext==g_basic[al[0]].ext){ al[1]=x; break; } }
    int na=(int)r.range(1,5),nb=(int)r.range(1,12),let=(int)r.range(1,3); a.clear(); b.clear(); for(int i=0;i<na;i++) a.push_back(al[r.below(let)]); for(int i=0;i<nb;i++) b.push_back(a[i%na]); if(r.chance(200)) b[r.below(nb)]=al[r.below(3)]; if(r.chance(500)) std::swap(a,b); }
  auto mk=[&](const std::vector<int>&v){ if(v.size()==1&&r.chance(700)) return g_basic[v[0]].h; std::vector<int> bl,ty; std::vector<i64> d; i64 p=0; size_t i=0; while(i<v.size()){ int run=1; while(i+run<v.size()&&v[i+run]==v[i]&&r.chance(500)) run++; int al=g_basic[v[i]].ealign[0]; p=(p+al-1)/al*al; bl.push_back(run); ty.push_back(g_basic[v[i]].h); d.push_back(p); p+=run*(i64)g_basic[v[i]].ext; i+=run; }
    int t; api::type_struct((int)bl.size(),bl.data(),d.data(),ty.data(),&t); if(r.chance(300)){ int t2; api::type_contiguous(1,t,&t2); t=t2; } if(r.chance(200)){ int t2; api::type_dup(t,&t2); t=t2; } api::type_commit(&t); return t; };
  int ta=mk(a),tb=mk(b); i64 ea=api::type_extent(ta),eb=api::type_extent(tb); int c=(int)r.range(1,4); int ca=c*kb,cb=c*ka,cs=ca,cr=cb; bool coll=r.chance(500); // as many elements on either side
  if(!coll&&r.chance(350)) cs=(int)r.range(0,ca);         // a shorter message: nothing beyond it is stored
  else if(r.chance(250)) cr=(int)r.range(coll?0:0,cb);    // (a collective may deliver less than contributed)
  if(!coll) cr=cb; if(!coll&&cs==ca&&r.chance(150)) cs=0;
  if(odd){ int na=(int)a.size(),nb=(int)b.size(); if(coll){ cr=(int)r.range(0,9); cs=(cr*nb+na-1)/na+(int)r.below(3); } else { cs=(int)r.range(0,9); cr=(cs*na+nb-1)/nb+(int)r.below(3); } ca=cs; cb=cr; }
  i64 moved=(i64)cs*(i64)a.size()<(i64)cr*(i64)b.size()?(i64)cs*(i64)a.size():(i64)cr*(i64)b.size();
  bool die=bad>=0&&bad<moved; if(odd){ die=false; bad=-1; for(i64 i=0;i<moved;i++) if(g_basic[a[i%a.size()]].h!=g_basic[b[i%b.size()]].h){ die=true; bad=(int)i; was=a[i%a.size()]; now=b[i%b.size()]; break; } if(bad>=(int)a.size()&&bad>=(int)b.size()) EV("first mismatches past the end of both types"); }
  void*s=arena(ea*(ca+1)+64,r),*w=arena(eb*(cb+1)+64,r); int f=(int)r.below(coll?9:6);
  sh->hash=hcomb(hcomb(bad>=0?was*64+now:0,f+coll*16),hcomb(n*8+c,hcomb(bad,ka*8+kb)));
  about_to(die,false,false,"%s of %d x %d elements as %d x %d, %s%s%s%s",coll?cn[f]:"transfer",cs,(int)a.size(),cr,(int)b.size(),bad<0?"types agree":"types differ: ",bad<0?"":g_basic[was].name,bad<0?"":" stored as ",bad<0?"":g_basic[now].name);
  if(coll) call_coll(f,s,cs,ta,w,cr,tb,0,MPI_COMM_WORLD); else p2p_pair(s,cs,ta,w,cr,tb,f,MPI_COMM_WORLD);
  EV(die?"mismatches that returned":bad<0?"agreeing transfers":"mismatches beyond what is stored"); survived(); _exit(0);
}
void limit_child(u64 seed){ sh->made=0; // the process ends in an orderly way when no handle is left, wherever that happens
  S z(seed); Z=&z; Rng&r=z.r; api::init(); int kind=(int)r.below(4); i64*v=slot(); std::vector<char> used(1<<20,0); const long cap=600000;
  long i; int d=1,hc=MPI_COMM_WORLD;
  if(r.chance(500)){ // after a time in which many others came and went
    int m=(int)r.range(100,r.chance(500)?250000:5000),turns=(int)r.range(1,3); step("%d objects made and released %d times before",m,turns); for(int k=0;k<turns;k++){ std::vector<int> hs(m); int ty=(int)r.below(3),ord=(int)r.below(3); if(ty==2&&m>100000) ty=0; for(int&h:hs){ if(ty==0) api::type_contiguous(1,MPI_INT,&h); else if(ty==1) api::isend(v,1,MPI_LONG,MPI_PROC_NULL,3,hc,&h); else api::comm_dup(hc,&h); if(h<=0) viol("null-handle","an object has handle %d",h); if((size_t)h>=used.size()) used.resize(h*2,0); if(used[h]) viol("dup-handle","an object gets handle %d, which is in use",h); used[h]=1; }
      if(ord==1) std::reverse(hs.begin(),hs.end()); if(ord==2) for(int j=m-1;j>0;j--) std::swap(hs[j],hs[r.below(j+1)]); for(int h:hs){ used[h]=0; if(ty==0) api::type_free(&h); else if(ty==1) api::wait(&h,MPI_STATUS_IGNORE); else api::comm_free(&h); } }
    EV("limits reached after earlier use"); }
  about_to(true,true,false,"creating objects of kind %d without end",kind);
  for(i=0;i<cap;i++){ int h=0; int k=kind==3?(i%50==0?1:(int)(i%3==0?0:2)):kind; if(kind==1&&i>=250000) k=1;
    if(k==0){ if(r.chance(500)) api::type_contiguous(1,MPI_INT,&h); else api::type_dup(MPI_INT,&h); } else if(k==1) api::comm_dup(MPI_COMM_WORLD,&h); else { if(d) api::isend(v,1,MPI_LONG,MPI_PROC_NULL,3,hc,&h); else api::irecv(v,1,MPI_LONG,MPI_PROC_NULL,3,hc,&h); d=!d; }
    if(h<=0) viol("null-handle","object %ld has handle %d",i,h); if((size_t)h>=used.size()) used.resize(h*2,0); if(used[h]) viol("dup-handle","object %ld gets handle %d, which is in use",i,h); used[h]=1; EV("objects created"); sh->hash=hcomb(kind,i); sh->made=i+1; }
  sh->expect_die=0; survived(); _exit(0); // supports even more: fine
}
}
void eng_die(){
  const char*p=g_opt.profile; child_fn f=!strcmp(p,"deadlock")||!strcmp(p,"overtake")?deadlock_child:!strcmp(p,"misuse")?misuse_child:!strcmp(p,"packover")?packover_child:!strcmp(p,"mismatch")?mismatch_child:!strcmp(p,"limit")?limit_child:0; if(!f) _exit(97);
  for(u64 i=g_opt.from;i<g_opt.to;i++){ mark_case(i); u64 s=mix64(g_opt.seed*0x1000193+i)^0xD1E; ChildEnd e=run_child(f,s); if(f==packover_child) judge_packover(s,e); else judge_child(e); if(f==limit_child){ EVMAX("live handles at the limit",sh->made); if(sh->made<262000) viol("limit","no more than %lld handles could be live, 256k are documented",(long long)sh->made); } sample("case seed %llx: %s -> %s",(unsigned long long)s,sh->what,sh->phase==2?"returned":first_line(e)); }
}
