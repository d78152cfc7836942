// History engine: random histories of point-to-point, completion, communicator and datatype
// calls against an executable model of matching, delivery, completion and status.
#include "types.h"
void coll_on(Rng&r,int comm);
#include <memory>

namespace {
struct Prof { const char*name; int maxops; int depth; int single; int w[32]; int ncomm; int tags; int maxcount; int freetype; int trunc; int any; };
enum { A_ISEND,A_IRECV,A_SEND,A_RECV,A_SENDRECV,A_IRSEND,A_IPROBE,A_PROBE,A_TEST,A_WAIT,A_TESTANY,A_WAITANY,A_TESTALL,A_WAITALL,
       A_TESTSOME,A_WAITSOME,A_REQFREE,A_COMMNEW,A_COMMFREE,A_TYPENEW,A_TYPEFREE,A_PNSEND,A_PNRECV,A_NOISE,A_N };
const Prof profs[]={
 // name      ops  dep single  is ir se re sr irs ip pr te wa ta wan tal wal ts ws rf cn cf tn tf pns pnr noise  ncomm tags cnt ftype trunc any
 {"payload",   26,  3,  0, { 20,20, 8, 8, 6, 4,  2, 2, 8, 8, 2, 2, 1, 2, 2, 2, 0, 1, 1, 8, 4, 1, 1, 5},  2, 3, 5, 300, 60, 250},
 {"matching",  90,  1,  1, { 34,34, 4, 6, 3, 3,  8, 4, 6, 6, 2, 2, 1, 1, 2, 2, 0, 2, 2, 1, 1, 2, 2, 1},  4, 4, 2, 100,  0, 350},
 {"deep",     400,  0,  1, { 40,40, 2, 3, 1, 2,  6, 3, 3, 4, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 1, 1, 1},  3, 8, 1, 100,  0, 150},
 {"complete",  60,  1,  1, { 20,20, 1, 1, 1, 2,  1, 1,10, 6,14,10,12, 8,14,10, 3, 1, 1, 1, 1, 4, 4, 1},  2, 3, 2, 100,  0, 300},
 {"status",    40,  2,  0, { 18,18, 6,10, 6, 3, 14, 8, 8, 8, 4, 4, 2, 4, 4, 4, 0, 1, 1, 6, 3, 4, 5, 1},  2, 3, 6, 200, 30, 400},
 {"lifetime",  50,  2,  0, { 20,20, 4, 4, 2, 2,  3, 2, 5, 5, 3, 3, 2, 3, 3, 3, 9, 6, 6,10,14, 2, 2, 4},  4, 3, 4, 850, 20, 250},
 {"mixed",     60,  2,  0, { 18,18, 5, 5, 4, 3,  4, 3, 6, 6, 4, 4, 3, 3, 4, 4, 3, 3, 3, 6, 5, 2, 2, 5},  4, 4, 5, 400, 30, 300},
 // a long queue first; communicators freed with operations pending
 {"queue",    200,  0,  1, { 20,20, 8,20, 3, 8, 10, 6, 3, 4, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1},  2, 8, 1, 100,  0, 100},
 {"orphan",    50,  1,  0, { 26,26, 3, 3, 2, 2,  6, 2, 5, 5, 3, 3, 2, 3, 3, 3, 4,14,12, 2, 2, 2, 2, 2},  5, 3, 3, 300,  0, 250},
};
const Prof*P;

struct Op { int id; bool send; bool detached=false; int comm; int tag; int reqvar; // index into reqs or -1
  i64 count; MT t; LBuf buf; i64 nel; bool complete=false, pn=false, observed=false; Op*peer=0; bool orphan=false; int got_tag=0; i64 got_el=0; bool trunc=false; bool data_checked=false;
  std::vector<unsigned char> payload; };
struct Comm_ { int h; std::deque<Op*> sq,rq; bool world; };

struct World {
  Rng r; TypeGen g; std::vector<int> tags; std::vector<Comm_*> comms; std::vector<MT> types; std::vector<int> reqs; std::vector<Op*> byreq; // reqs: request variables
  bool large=false,padded=false; std::vector<Op*> all; std::vector<Op*> detached; u64 hist=0; int nid=0; int delivered=0, maxpend=0, acts=0;
  World(u64 s):r(s),g(r){}
};
World*W;

int pending(){ int n=0; for(auto c:W->comms) n+=(int)(c->sq.size()+c->rq.size()); return n; }
bool tag_ok(int want,int tag){ return want==MPI_ANY_TAG||want==tag; }
Op*find_send(Comm_*c,int want){ for(auto s:c->sq) if(tag_ok(want,s->tag)) return s; return 0; }
Op*find_recv(Comm_*c,int tag){ for(auto x:c->rq) if(tag_ok(x->tag,tag)) return x; return 0; }
template<class D> void erase(D&d,Op*o){ d.erase(std::find(d.begin(),d.end(),o)); }

void deliver(Op*s,Op*rv){
  i64 n=std::min(s->nel,rv->nel);
  if(s->nel>rv->nel) rv->trunc=true;
  model_write(rv->buf,rv->t,n,s->payload.data());
  s->complete=rv->complete=true; s->peer=rv; rv->peer=s; rv->got_tag=s->tag; rv->got_el=n;
  W->delivered++; EV("messages matched"); if(s->nel<rv->nel) EV("short messages"); if(rv->trunc) EV("truncated messages");
  if(s->nel==0) EV("empty messages");
  W->hist=hcomb(W->hist,(u64)(s->id*7919+rv->id));
}
Comm_*comm_of(Op*o){ for(auto c:W->comms) if(c->h==o->comm) return c; return 0; }
// model of a post; returns matched op
Op*post(Op*o,Comm_*c){
  if(o->send){ Op*x=find_recv(c,o->tag); if(x){ erase(c->rq,x); deliver(o,x); return x; } c->sq.push_back(o); }
  else { Op*x=find_send(c,o->tag); if(x){ erase(c->sq,x); deliver(x,o); return x; } c->rq.push_back(o); }
  W->maxpend=std::max(W->maxpend,pending()); EVMAX("pending operations",pending());
  return 0;
}
MT&some_type(){ return W->types[W->r.below(W->types.size())]; }
Op*mk(bool send,Comm_*c,int tag,i64 wantcount=-1){
  Op*o=new Op; o->id=W->nid++; o->send=send; o->comm=c?c->h:0; o->tag=tag; o->reqvar=-1;
  for(int tries=0;;tries++){ o->t=some_type(); o->count=wantcount>=0?wantcount:W->r.range(0,P->maxcount); if(W->r.chance(40)) o->count=0; if(W->large&&wantcount<0&&W->r.chance(300)) o->count=(i64)W->r.below((W->r.chance(300)?24000:3000)/std::max<size_t>(1,o->t.map.size())+1); if(W->large&&wantcount<0&&W->r.chance(60)){ o->count=W->r.magic(70000/(i64)std::max<size_t>(1,o->t.map.size())); EV("counts at a power of two"); } while(o->count>3&&o->count*std::llabs((long long)o->t.extent())>(1<<20)) o->count/=2;
    if(send||!o->t.overlaps(o->count)) break;
    if(tries>20){ o->count=0; break; } }
  o->nel=(i64)o->t.map.size()*o->count;
  o->buf.make(o->t,o->count,W->r,W->r.chance(300)?24:0);
  EVMAX("elements in one message buffer",o->nel); EVMAX("bytes in one message buffer",o->buf.m.n); if(send) model_read(o->buf,o->t,o->nel,o->payload);
  W->all.push_back(o); return o;
}
// without deliberate truncation the receive capacity must be enough for what it will match
bool fits(Op*s,Op*rv){ return s->nel<=rv->nel; }
void drop(Op*o){ o->buf.scribble_release(W->r); W->all.erase(std::find(W->all.begin(),W->all.end(),o)); delete o; }
int newreq(){ for(size_t i=0;i<W->reqs.size();i++) if(!W->byreq[i]&&W->reqs[i]==MPI_REQUEST_NULL) return (int)i; W->reqs.push_back(MPI_REQUEST_NULL); W->byreq.push_back(0); return (int)W->reqs.size()-1; }

void distinct_handles(int h){
  if(h==MPI_REQUEST_NULL) viol("null-handle","a posted operation returned the null request");
  for(size_t i=0;i<W->reqs.size();i++) if(W->byreq[i]&&W->reqs[i]==h) viol("dup-handle","two live requests share handle %d",h);
  for(auto c:W->comms) if(c->h==h) viol("dup-handle","request %d has the handle of a live communicator",h);
  for(auto&t:W->types) if(t.h==h) viol("dup-handle","request %d has the handle of a live datatype",h);
}
void status_canary_ok(const MPI_Status&){}
void check_count(const MPI_Status&st,i64 el,const MT&rt){
  // in units of several datatypes with compatible signatures
  for(int k=0;k<3;k++){
    const MT&q= k==0?rt:(k==1?some_type():W->types[0]);
    if(k==0){ bool live=q.named; for(auto&t:W->types) if(t.h==q.h) live=true; if(!live) continue; }
    int n=-777,e=-777; api::get_count(&st,q.h,&n); api::get_elements(&st,q.h,&e); EV("count queries");
    i64 per=(i64)q.map.size();
    if(per==0){ if(n!=0&&n!=MPI_UNDEFINED) viol("count","count of %ld elements in units of an empty type is %d",(long)el,n); continue; }
    int want=el%per?MPI_UNDEFINED:(int)(el/per); if(el%per) EV("undefined counts");
    if(n!=want) viol("count","received %ld elements; the count in units of %s (%ld elements) is %d, expected %d",(long)el,q.desc,(long)per,n,want);
    if(e!=(int)el) viol("elements","received %ld elements; the element query (type %s) says %d",(long)el,q.desc,e);
  }
}
void check_recv_status(const MPI_Status&st,Op*o){
  EV("statuses checked");
  if(o->pn){ if(st.MPI_SOURCE!=MPI_PROC_NULL||st.MPI_TAG!=MPI_ANY_TAG) viol("status-pn","null-process receive: source %d tag %d",st.MPI_SOURCE,st.MPI_TAG);
    check_count(st,0,o->t); return; }
  if(st.MPI_SOURCE!=0) viol("status-source","status source is %d, expected 0",st.MPI_SOURCE);
  if(st.MPI_TAG!=o->got_tag) viol("status-tag","status tag is %d, the message matched has tag %d",st.MPI_TAG,o->got_tag);
  if(!o->trunc) check_count(st,o->got_el,o->t);
}
void check_empty_status(const MPI_Status&st,const char*who){
  if(st.MPI_SOURCE!=MPI_ANY_SOURCE||st.MPI_TAG!=MPI_ANY_TAG) viol("status-empty","%s: empty status has source %d tag %d",who,st.MPI_SOURCE,st.MPI_TAG);
  int n; api::get_count(&st,W->types[0].h,&n); if(n!=0) viol("status-empty","%s: empty status has count %d",who,n); EV("empty statuses checked");
}
// the library says o is complete (and the model agrees); verify data and forget the operation
void completed(Op*o,const MPI_Status*st,const char*who){
  if(!o->complete) viol("premature","%s reports operation %d (%s tag %d) complete, but nothing matched it",who,o->id,o->send?"send":"receive",o->tag);
  EV("completions observed");
  if(o->send){ o->buf.check("send-buffer","send buffer after completion"); }
  else { if(st) check_recv_status(*st,o);
    o->buf.check("recv-data","receive buffer after completion"); EVN("payload bytes compared",o->buf.m.n); }
  o->observed=true;
  if(o->reqvar>=0){ W->byreq[o->reqvar]=0; o->reqvar=-1; }
  // a detached peer has surely been served by now
  if(o->peer){ Op*p=o->peer; p->peer=0; if(p->detached){ if(!p->send) p->buf.check("recv-data-detached","buffer of a receive whose request was freed"); EV("detached operations served"); W->detached.erase(std::find(W->detached.begin(),W->detached.end(),p)); drop(p); } }
  drop(o);
}
void req_gone(int v,const char*who){ if(W->reqs[v]!=MPI_REQUEST_NULL) viol("req-not-null","%s left request variable at %d after completion",who,W->reqs[v]); }
MPI_Status ST(){ MPI_Status s; memset(&s,0x5A,sizeof s); return s; }
Comm_*anycomm(){ return W->comms[W->r.below(W->comms.size())]; }
int sendtag(){ return W->tags[W->r.below(W->tags.size())]; }
int recvtag(){ return W->r.chance(P->any)?MPI_ANY_TAG:sendtag(); }
int src(){ return W->r.chance(500)?MPI_ANY_SOURCE:0; }

void do_isend(Comm_*c,int tag){
  Op*x=find_recv(c,tag); Op*o=mk(true,c,tag);
  if(x&&!fits(o,x)&&!W->r.chance(P->trunc)){ drop(o); return; }
  int v=newreq(); int h=0x7abcdef1; step("isend op%d comm %d tag %d count %ld type %s",o->id,c->h,tag,(long)o->count,o->t.desc);
  api::isend(o->buf.user(),(int)o->count,o->t.h,0,tag,c->h,&h); distinct_handles(h);
  W->reqs[v]=h; W->byreq[v]=o; o->reqvar=v; post(o,c);
}
void do_irecv(Comm_*c,int tag){
  Op*x=find_send(c,tag); Op*o=mk(false,c,tag);
  if(x&&!fits(x,o)&&!W->r.chance(P->trunc)){ o->buf.release(); // grow instead of giving up, so queues stay matchable
    i64 per=(i64)o->t.map.size(); if(per==0||o->t.overlaps((x->nel+per-1)/per)){ o->t=W->types[0]; per=(i64)o->t.map.size(); }
    o->count=(x->nel+per-1)/per; o->nel=o->count*per; o->buf.make(o->t,o->count,W->r); }
  int v=newreq(); int h=0x7abcdef1; step("irecv op%d comm %d tag %d count %ld type %s",o->id,c->h,tag,(long)o->count,o->t.desc);
  api::irecv(o->buf.user(),(int)o->count,o->t.h,src(),tag,c->h,&h); distinct_handles(h);
  W->reqs[v]=h; W->byreq[v]=o; o->reqvar=v; post(o,c);
}
void do_send(Comm_*c,int tag){ // blocking: only when a receive is waiting
  Op*x=0; if(!c->rq.empty()){ x=c->rq[W->r.below(c->rq.size())]; tag=x->tag==MPI_ANY_TAG?sendtag():x->tag; x=find_recv(c,tag); }
  if(!x) return;
  Op*o=mk(true,c,tag); if(!fits(o,x)&&!W->r.chance(P->trunc)){ drop(o); return; }
  int mode=(int)W->r.below(3); step("blocking send mode %d op%d comm %d tag %d count %ld type %s",mode,o->id,c->h,tag,(long)o->count,o->t.desc);
  post(o,c); api::send(mode,o->buf.user(),(int)o->count,o->t.h,0,tag,c->h); completed(o,0,"blocking send");
}
void do_recv(Comm_*c){
  if(c->sq.empty()) return; Op*x=c->sq[W->r.below(c->sq.size())]; int want=W->r.chance(P->any)?MPI_ANY_TAG:x->tag; x=find_send(c,want);
  Op*o=mk(false,c,want); if(!fits(x,o)&&!W->r.chance(P->trunc)){ drop(o); return; }
  bool ign=W->r.chance(250); MPI_Status st=ST(); step("blocking recv op%d comm %d tag %d count %ld type %s",o->id,c->h,want,(long)o->count,o->t.desc);
  post(o,c); api::recv(o->buf.user(),(int)o->count,o->t.h,src(),want,c->h,ign?MPI_STATUS_IGNORE:&st); completed(o,ign?0:&st,"blocking recv");
}
void do_sendrecv(Comm_*c){
  int stag=sendtag(), want=W->r.chance(500)?stag:recvtag();
  // only when the outcome does not depend on which half is posted first
  Op*S=find_send(c,want),*R=find_recv(c,stag);
  bool ok; // posted receive-first: receive takes S if any; send then goes to R, else to own receive when tags fit
  if(!S&&!R) ok=tag_ok(want,stag); else if(S&&R) ok=true; else ok=false;
  if(S&&R&&false) ok=false;
  if(!ok) return;
  Op*so=mk(true,c,stag); Op*ro=mk(false,c,want);
  Op*in=S?S:so; Op*out=R?R:ro;
  if((!fits(in,ro)||!fits(so,out))&&!W->r.chance(P->trunc)){ drop(so); drop(ro); return; }
  bool ign=W->r.chance(250); MPI_Status st=ST(); step("sendrecv op%d/op%d comm %d tags %d/%d",so->id,ro->id,c->h,stag,want);
  post(ro,c); post(so,c); if(!so->complete||!ro->complete) inconclusive("model error in sendrecv");
  api::sendrecv(so->buf.user(),(int)so->count,so->t.h,0,stag,ro->buf.user(),(int)ro->count,ro->t.h,src(),want,c->h,ign?MPI_STATUS_IGNORE:&st);
  if(so->peer==ro){ so->peer=ro->peer=0; }
  completed(ro,ign?0:&st,"sendrecv"); completed(so,0,"sendrecv");
}
void do_irsend(Comm_*c){
  if(c->rq.empty()) return; Op*x=c->rq[W->r.below(c->rq.size())]; int tag=x->tag==MPI_ANY_TAG?sendtag():x->tag; x=find_recv(c,tag);
  Op*o=mk(true,c,tag); if(!fits(o,x)&&!W->r.chance(P->trunc)){ drop(o); return; }
  int v=newreq(); int h=0x7abcdef1; step("irsend op%d comm %d tag %d",o->id,c->h,tag);
  api::irsend(o->buf.user(),(int)o->count,o->t.h,0,tag,c->h,&h); distinct_handles(h); W->reqs[v]=h; W->byreq[v]=o; o->reqvar=v; post(o,c);
}
void do_iprobe(Comm_*c,bool blocking){
  int want=recvtag(); if(blocking&&!c->sq.empty()&&W->r.chance(700)) want=c->sq[W->r.below(c->sq.size())]->tag;
  Op*x=find_send(c,want); if(blocking&&!x) return;
  bool ign=W->r.chance(200); MPI_Status st=ST(); int flag=0x77; step("%s comm %d tag %d",blocking?"probe":"iprobe",c->h,want);
  if(blocking){ api::probe(src(),want,c->h,ign?MPI_STATUS_IGNORE:&st); flag=1; }
  else api::iprobe(src(),want,c->h,&flag,ign?MPI_STATUS_IGNORE:&st);
  if((flag!=0)!=(x!=0)) viol("probe-flag","probe for tag %d says %d, %s",want,flag,x?"a matching message is pending":"no message matches");
  EV(x?"probe hits":"probe misses");
  if(x&&!ign){ if(st.MPI_SOURCE!=0||st.MPI_TAG!=x->tag) viol("probe-status","probe reports source %d tag %d, the message has tag %d",st.MPI_SOURCE,st.MPI_TAG,x->tag);
    check_count(st,x->nel,x->t); }
}
void do_pnprobe(Comm_*c){ bool ign=W->r.chance(200); MPI_Status st=ST(); int flag=1; bool b=W->r.chance(300);
  step("probe of the null process"); if(b) api::probe(MPI_PROC_NULL,recvtag(),c->h,ign?MPI_STATUS_IGNORE:&st); else api::iprobe(MPI_PROC_NULL,recvtag(),c->h,&flag,ign?MPI_STATUS_IGNORE:&st);
  if(!flag) viol("probe-pn","a probe of the null process reports no message");
  if(!ign){ if(st.MPI_SOURCE!=MPI_PROC_NULL||st.MPI_TAG!=MPI_ANY_TAG) viol("probe-pn","probe of the null process: source %d tag %d",st.MPI_SOURCE,st.MPI_TAG); check_count(st,0,W->types[0]); } }

std::vector<int> pick_array(bool distinct_only_complete=false){ // indices of request variables, with null ones mixed in
  std::vector<int> v; for(size_t i=0;i<W->reqs.size();i++) if(W->byreq[i]) v.push_back((int)i);
  for(int i=(int)v.size()-1;i>0;i--) std::swap(v[i],v[W->r.below(i+1)]);
  size_t n=W->r.below(v.size()+1); if(W->r.chance(300)) n=v.size(); if(n>8&&W->r.chance(700)) n=W->r.below(8); v.resize(n);
  if(distinct_only_complete){ std::vector<int> k; for(int x:v) if(W->byreq[x]->complete) k.push_back(x); v=k; }
  if(W->r.chance(W->padded?200:20)){ std::vector<int> k; for(int x:v) if((W->reqs[x]&0xff)==0) k.push_back(x); if(k.empty()) for(size_t i=0;i<W->reqs.size();i++) if(W->byreq[i]&&(W->reqs[i]&0xff)==0&&(!distinct_only_complete||W->byreq[i]->complete)) k.push_back((int)i); if(k.size()){ v=k; EV("arrays of requests with handles at a multiple of 256"); } }
  int nulls=(int)(W->r.chance(450)?W->r.below(4):0);
  for(int i=0;i<nulls;i++) v.insert(v.begin()+W->r.below(v.size()+1),-1);
  if(W->r.chance(120)) std::stable_partition(v.begin(),v.end(),[](int x){ return x>=0&&!W->byreq[x]->complete; }); // what is complete comes last
  if(W->r.chance(25)) v.insert(W->r.chance(700)?v.begin():v.begin()+W->r.below(v.size()+1),W->r.range(200,700),-1);
  if(v.size()>255) EV("arrays of more than 255 requests");
  return v;
}
struct Arr { std::vector<int> v,h,before; std::vector<MPI_Status> st; int n,active=0,ncomp=0;
  Arr(const std::vector<int>&x):v(x){ n=(int)v.size(); for(int i:v) h.push_back(i<0?MPI_REQUEST_NULL:W->reqs[i]); before=h; st.assign(n?n:1,ST());
    for(int i:v) if(i>=0){ active++; if(W->byreq[i]->complete) ncomp++; } if(h.empty()){ h.push_back(0); before.push_back(0);} }
  void unchanged(int i,const char*who){ if(h[i]!=before[i]) viol("req-changed","%s changed request %d of %d, which it did not report complete (%d -> %d)",who,i,n,before[i],h[i]); }
  void done(int i,const MPI_Status*s,const char*who){ if(h[i]!=MPI_REQUEST_NULL) viol("req-not-null","%s reported request %d complete but left its variable at %d",who,i,h[i]);
    Op*o=W->byreq[v[i]]; W->reqs[v[i]]=MPI_REQUEST_NULL; completed(o,s,who); }
};
void do_test(bool wait){
  std::vector<int> v; for(size_t i=0;i<W->reqs.size();i++) if(W->byreq[i]&&(!wait||W->byreq[i]->complete)) v.push_back((int)i);
  bool ign=W->r.chance(250); MPI_Status st=ST(); int flag=1;
  if(v.empty()||W->r.chance(60)){ int h=MPI_REQUEST_NULL; step("%s null request",wait?"wait":"test"); if(wait) api::wait(&h,ign?MPI_STATUS_IGNORE:&st); else { flag=0; api::test(&h,&flag,ign?MPI_STATUS_IGNORE:&st); }
    if(!flag||h!=MPI_REQUEST_NULL) viol("null-request","test/wait of the null request: flag %d, request %d",flag,h); if(!ign) check_empty_status(st,"null request"); EV("null request completions"); return; }
  int i=W->r.pick(v); Op*o=W->byreq[i]; int before=W->reqs[i]; step("%s op%d",wait?"wait":"test",o->id);
  if(wait) api::wait(&W->reqs[i],ign?MPI_STATUS_IGNORE:&st); else { flag=0x55; api::test(&W->reqs[i],&flag,ign?MPI_STATUS_IGNORE:&st); }
  if(flag){ if(!o->complete) completed(o,0,"test"); req_gone(i,wait?"wait":"test"); completed(o,ign?0:&st,wait?"wait":"test"); }
  else { if(o->complete) viol("not-complete","test says operation %d is pending, but it was matched",o->id); if(W->reqs[i]!=before) viol("req-changed","a failed test changed the request"); EV("failed tests"); }
}
void do_any(bool wait){
  Arr a(pick_array()); bool ign=W->r.chance(300); MPI_Status st=ST(); int idx=-12345,flag=0x55; const char*who=wait?"waitany":"testany";
  if(wait&&a.active&&!a.ncomp) return; step("%s n=%d active=%d complete=%d",who,a.n,a.active,a.ncomp);
  if(wait){ api::waitany(a.n,a.h.data(),&idx,ign?MPI_STATUS_IGNORE:&st); flag=1; } else api::testany(a.n,a.h.data(),&idx,&flag,ign?MPI_STATUS_IGNORE:&st);
  if(!a.active){ EV("any form, no active request"); if(!flag) viol("any-null","%s with no active request says flag=0",who); if(idx!=MPI_UNDEFINED) viol("any-null-index","%s with no active request gives index %d",who,idx); if(!ign) check_empty_status(st,who); return; }
  if(!flag){ if(a.ncomp) viol("not-complete","%s found nothing, %d of %d requests are complete",who,a.ncomp,a.n); for(int i=0;i<a.n;i++) a.unchanged(i,who); EV("any form, none complete"); return; }
  if(!a.ncomp) viol("premature","%s says flag=1, index %d, but no listed request is complete",who,idx);
  if(idx<0||idx>=a.n||a.v[idx]<0) viol("any-index","%s gives index %d (n=%d, null=%d)",who,idx,a.n,idx>=0&&idx<a.n?a.v[idx]<0:0);
  if(!W->byreq[a.v[idx]]->complete) viol("any-index","%s gives the index of a pending request",who);
  for(int i=0;i<a.n;i++) if(i!=idx) a.unchanged(i,who);
  EV("any form, one completed"); a.done(idx,ign?0:&st,who);
}
void do_all(bool wait){
  Arr a(pick_array(wait)); bool ign=W->r.chance(350); int flag=0x55; const char*who=wait?"waitall":"testall";
  step("%s n=%d active=%d complete=%d",who,a.n,a.active,a.ncomp);
  MPI_Status*sp=ign?MPI_STATUSES_IGNORE:a.st.data();
  if(wait){ api::waitall(a.n,a.h.data(),sp); flag=1; } else api::testall(a.n,a.h.data(),&flag,sp);
  bool all=a.ncomp==a.active;
  if((flag!=0)!=all) viol(all?"not-complete":"premature","%s: flag %d, %d of %d active requests are complete",who,flag,a.ncomp,a.active);
  if(!flag){ for(int i=0;i<a.n;i++) a.unchanged(i,who); EV("testall, not all complete"); return; }
  for(int i=0;i<a.n;i++){ if(a.v[i]<0){ if(a.h[i]!=MPI_REQUEST_NULL) viol("req-changed","%s changed a null request",who); if(!ign) check_empty_status(a.st[i],who); } else a.done(i,ign?0:&a.st[i],who); }
  EV("all form, all complete");
}
void do_some(bool wait){
  Arr a(pick_array()); bool ign=W->r.chance(300); int oc=-12345; const char*who=wait?"waitsome":"testsome"; std::vector<int> idx(a.n?a.n:1,-54321);
  if(wait&&a.active&&!a.ncomp) return; step("%s n=%d active=%d complete=%d",who,a.n,a.active,a.ncomp);
  MPI_Status*sp=ign?MPI_STATUSES_IGNORE:a.st.data();
  if(wait) api::waitsome(a.n,a.h.data(),&oc,idx.data(),sp); else api::testsome(a.n,a.h.data(),&oc,idx.data(),sp);
  if(!a.active){ if(oc!=MPI_UNDEFINED) viol("some-null","%s with no active request gives outcount %d",who,oc); EV("some form, no active request"); return; }
  if(oc<0||oc>a.n) viol("some-count","%s gives outcount %d for %d requests",who,oc,a.n);
  if(oc>a.ncomp) viol("premature","%s reports %d completions, only %d requests are complete",who,oc,a.ncomp);
  if(oc!=a.ncomp) viol("not-complete","%s reports %d completions, %d requests are complete",who,oc,a.ncomp);
  std::vector<char> seen(a.n+1,0);
  for(int k=0;k<oc;k++){ int i=idx[k]; if(i<0||i>=a.n||a.v[i]<0||seen[i]) viol("some-index","%s: index %d at position %d (n=%d)",who,i,k,a.n); if(!W->byreq[a.v[i]]->complete) viol("some-index","%s lists a pending request",who); seen[i]=1; }
  for(int i=0;i<a.n;i++) if(!seen[i]) a.unchanged(i,who);
  for(int k=0;k<oc;k++) a.done(idx[k],ign?0:&a.st[k],who);
  EVN("some form, completions",oc); if(!oc) EV("some form, none complete");
}
void do_reqfree(){
  std::vector<int> v; for(size_t i=0;i<W->reqs.size();i++) if(W->byreq[i]) v.push_back((int)i); if(v.empty()) return;
  int i=W->r.pick(v); Op*o=W->byreq[i]; step("request_free op%d (%s, %s)",o->id,o->send?"send":"recv",o->complete?"complete":"pending");
  api::request_free(&W->reqs[i]); req_gone(i,"request_free"); W->byreq[i]=0; o->reqvar=-1; EV(o->complete?"complete request freed":"pending request freed");
  if(o->complete){ // served already: its data must be there
    if(o->send) o->buf.check("send-buffer","send buffer"); else if(o->pn||true) o->buf.check("recv-data","receive buffer of a freed complete request");
    if(o->peer) o->peer->peer=0; drop(o); }
  else { o->detached=true; W->detached.push_back(o); }
}
void do_pn(bool send){
  Op*o=mk(send,0,sendtag()); o->pn=true; o->complete=true; Comm_*c=anycomm(); int form=(int)W->r.below(3); step("null-process %s form %d",send?"send":"recv",form);
  if(form==0||(send&&form==2)){ int v=newreq(); int h=0x7abcdef1; if(send){ if(form==2) api::irsend(o->buf.user(),(int)o->count,o->t.h,MPI_PROC_NULL,o->tag,c->h,&h); else api::isend(o->buf.user(),(int)o->count,o->t.h,MPI_PROC_NULL,o->tag,c->h,&h); }
    else api::irecv(o->buf.user(),(int)o->count,o->t.h,MPI_PROC_NULL,W->r.chance(500)?MPI_ANY_TAG:o->tag,c->h,&h);
    distinct_handles(h); W->reqs[v]=h; W->byreq[v]=o; o->reqvar=v; return; }
  if(send){ api::send((int)W->r.below(3),o->buf.user(),(int)o->count,o->t.h,MPI_PROC_NULL,o->tag,c->h); completed(o,0,"send to the null process"); return; }
  bool ign=W->r.chance(200); MPI_Status st=ST();
  if(form==1) api::recv(o->buf.user(),(int)o->count,o->t.h,MPI_PROC_NULL,o->tag,c->h,ign?0:&st);
  else { Op*s=mk(true,0,sendtag()); s->pn=s->complete=true; api::sendrecv(s->buf.user(),(int)s->count,s->t.h,MPI_PROC_NULL,s->tag,o->buf.user(),(int)o->count,o->t.h,MPI_PROC_NULL,o->tag,c->h,ign?0:&st); completed(s,0,"sendrecv null"); }
  completed(o,ign?0:&st,"receive from the null process");
}
void new_comm(){
  if((int)W->comms.size()>P->ncomm) return; int h=0x7abcdef1; Comm_*p=anycomm(); int k=(int)W->r.below(6);
  if(k==0) api::comm_dup(p->h,&h); else if(k==1) api::comm_split(p->h,(int)W->r.below(5),(int)W->r.range(-5,5),&h);
  else if(k==2){ int g; api::comm_group(p->h,&g); api::comm_create(p->h,g,&h); api::group_free(&g); }
  else if(k==3){ int d[3]={1,1,1},per[3]={0,1,0}; api::cart_create(p->h,(int)W->r.below(4),d,per,0,&h); }
  else if(k==4) api::intercomm_create(p->h,0,MPI_COMM_WORLD,0,3,&h); else api::comm_dup(MPI_COMM_WORLD,&h);
  distinct_handles(h); Comm_*c=new Comm_; c->h=h; c->world=false; W->comms.push_back(c); EV("communicators created");
}
void free_comm(){
  bool orphans=!strcmp(P->name,"orphan")&&W->r.chance(600);
  std::vector<Comm_*> v; for(auto c:W->comms) if(!c->world&&((c->sq.empty()&&c->rq.empty())||orphans)) v.push_back(c); if(v.empty()) return;
  Comm_*c=W->r.pick(v); step("comm_free %d",c->h); api::comm_free(&c->h); if(c->h!=MPI_COMM_NULL) viol("comm-free","freed communicator variable is %d",c->h);
  for(auto*q:{&c->sq,&c->rq}) for(auto o:*q){ o->orphan=true; o->comm=0; EV("operations orphaned"); }
  W->comms.erase(std::find(W->comms.begin(),W->comms.end(),c)); delete c; EV("communicators freed");
}
void new_type(){ if(W->types.size()>10) return; step("new type"); MT t=W->g.gen((int)W->r.range(1,P->depth+1)); if(t.named) return;
  if(t.h==MPI_DATATYPE_NULL) viol("null-handle","a new datatype has the null handle");
  if(!t.committed){ int h=t.h; api::type_commit(&t.h); if(h!=t.h) viol("commit-handle","commit changed the handle"); t.committed=true; }
  for(auto&x:W->types) if(x.h==t.h) viol("dup-handle","two live datatypes share handle %d",t.h);
  for(auto c:W->comms) if(c->h==t.h) viol("dup-handle","a datatype has the handle of a live communicator");
  for(size_t i=0;i<W->reqs.size();i++) if(W->byreq[i]&&W->reqs[i]==t.h) viol("dup-handle","a datatype has the handle of a live request");
  W->types.push_back(t); }
void free_type(){
  std::vector<size_t> v; for(size_t i=1;i<W->types.size();i++) v.push_back(i); if(v.empty()) return;
  size_t i=W->r.pick(v); int h=W->types[i].h; bool used=false; for(auto o:W->all) if(!o->complete&&o->t.h==h) used=true;
  if(used&&!W->r.chance(P->freetype)) return; step("type_free %s%s",W->types[i].desc,used?" (in use by a pending operation)":"");
  if(W->types[i].named){ W->types.erase(W->types.begin()+i); return; }
  api::type_free(&h); if(h!=MPI_DATATYPE_NULL) viol("free-null","MPI_Type_free left the handle at %d",h);
  for(auto o:W->all) if(o->t.h==W->types[i].h) o->t.h=MPI_DATATYPE_NULL;
  W->types.erase(W->types.begin()+i); if(used) EV("type freed under a pending operation"); }
// a message between disjoint elements of one buffer: interleaved, or from one base address
void do_interleaved(Comm_*c){
  if(!c->sq.empty()||!c->rq.empty()) return; MT&u=W->types[0]; i64 e=u.extent(); i64 lo,hi; u.span(1,lo,hi); if(e<=0||hi-lo>e||u.map.empty()) return;
  int n=(int)W->r.range(2,10),k=(int)W->r.range(1,n/2); std::vector<int> pos; for(int i=0;i<n;i++) pos.push_back(i); int how=(int)W->r.below(3);
  if(how==0) for(int i=n-1;i>0;i--) std::swap(pos[i],pos[W->r.below(i+1)]);
  else if(how==1){ pos.clear(); for(int i=0;i+1<n;i+=2) pos.push_back(i); for(int i=1;i<n;i+=2) pos.push_back(i); k=(int)pos.size()/2; }
  MT t[2]; i64 shift[2]={0,0};
  for(int s=0;s<2;s++){ std::vector<int> p(pos.begin()+s*k,pos.begin()+s*k+k); if(how==2) std::sort(p.begin(),p.end()); if(W->r.chance(400)) shift[s]=p[0]*e;
    std::vector<int> bl(k,1); std::vector<i64> d; std::vector<Block> bs; for(int x:p){ d.push_back(x*e-shift[s]); bs.push_back(Block{1,x*e-shift[s],&u,0}); }
    int h=0; api::type_hindexed(k,bl.data(),d.data(),u.h,&h); bool amb; t[s]=mt_struct(bs,amb); t[s].h=h; api::type_commit(&t[s].h); }
  LBuf b; b.make_span(lo,(n-1)*e+hi,W->r); std::vector<unsigned char> p; i64 ne=(i64)t[0].map.size(); model_read(b,t[0],ne,p,shift[0]); model_write(b,t[1],ne,p.data(),shift[1]);
  char*sp=(char*)b.user()+shift[0],*rp=(char*)b.user()+shift[1]; int tag=sendtag(),q,q2; MPI_Status st=ST(); step("message between %d elements of one buffer, order %d, bases %ld %ld",k,how,(long)shift[0],(long)shift[1]);
  switch(W->r.below(7)){
   case 0: api::isend(sp,1,t[0].h,0,tag,c->h,&q); api::recv(rp,1,t[1].h,src(),tag,c->h,&st); api::wait(&q,MPI_STATUS_IGNORE); break;
   case 1: api::irecv(rp,1,t[1].h,src(),tag,c->h,&q); api::send((int)W->r.below(3),sp,1,t[0].h,0,tag,c->h); api::wait(&q,&st); break;
   case 2: api::sendrecv(sp,1,t[0].h,0,tag,rp,1,t[1].h,src(),tag,c->h,&st); break;
   case 3: api::irecv(rp,1,t[1].h,0,tag,c->h,&q); api::isend(sp,1,t[0].h,0,tag,c->h,&q2); api::wait(&q2,MPI_STATUS_IGNORE); api::wait(&q,&st); break;
   case 4: api::gather(sp,1,t[0].h,rp,1,t[1].h,0,c->h); break;
   case 5: api::alltoall(sp,1,t[0].h,rp,1,t[1].h,c->h); break;
   default: api::allgather(sp,1,t[0].h,rp,1,t[1].h,c->h); }
  b.check("recv-data","buffer holding both the elements sent and those received"); EV("messages within one buffer"); W->hist=hcomb(W->hist,(u64)(n*100+k)); b.release(); for(int s=0;s<2;s++) api::type_free(&t[s].h);
}
void noise(){ // unrelated valid calls
  Comm_*c=anycomm(); switch(W->r.below(8)){
   case 5: case 6: case 7: do_interleaved(c); break;
   case 0: if(api::comm_size(c->h)!=1||api::comm_rank(c->h)!=0) viol("comm-size","size/rank wrong"); break;
   case 1: api::barrier(c->h); break;
   case 2: if(W->r.chance(750)){ coll_on(W->r,c->h); break; } else { LBuf a,b; MT&t=W->types[0]; a.make(t,3,W->r); b.make(t,3,W->r); api::allreduce(a.user(),b.user(),3,t.h,MPI_SUM,c->h); std::vector<unsigned char> p; model_read(a,t,3*(i64)t.map.size(),p); model_write(b,t,3*(i64)t.map.size(),p.data()); a.check("coll","allreduce send"); b.check("coll","allreduce recv"); a.release(); b.release(); break; }
   case 3:{ MT&t=some_type(); LBuf a; a.make(t,2,W->r); i64 n=api::pack_size(2,t.h,c->h); GMem m; m.alloc(n); int pos=0; api::pack(a.user(),2,t.h,m.p(),(int)n,&pos,c->h); if(pos>n) viol("pack-pos","packed %d bytes, promised %ld",pos,(long)n); m.check("pack","pack"); a.check("pack","pack input"); m.release(); a.release(); break; }
   default:{ int g; api::comm_group(c->h,&g); int r0=0,o; int r2=-9; api::group_incl(g,1,&r0,&o); api::group_translate(g,1,&r0,o,&r2); if(r2!=0) viol("group","translate gives %d",r2); api::group_free(&g); api::group_free(&o); } }
}
void drain(){
  // match everything that is pending, then complete everything
  for(size_t ci=0;ci<W->comms.size();ci++){ Comm_*c=W->comms[ci]; int guard=0;
    while(!c->sq.empty()||!c->rq.empty()){
      if(++guard>100000) inconclusive("drain does not progress");
      if(!c->sq.empty()&&(c->rq.empty()||W->r.chance(500))) do_irecv(c,W->r.chance(300)?MPI_ANY_TAG:c->sq[W->r.below(c->sq.size())]->tag);
      else { Op*x=c->rq[W->r.below(c->rq.size())]; int tag=x->tag==MPI_ANY_TAG?sendtag():x->tag; x=find_recv(c,tag);
        Op*o=mk(true,c,tag,0); // an empty message always fits; sometimes the full capacity
        if(W->r.chance(600)){ o->buf.release(); o->t=x->t; if(o->t.h==MPI_DATATYPE_NULL){ o->t=W->types[0]; o->count=x->nel/std::max<i64>(1,(i64)o->t.map.size()); } else o->count=x->count; o->nel=o->count*(i64)o->t.map.size(); if(o->nel>x->nel){o->count=0;o->nel=0;} o->buf.make(o->t,o->count,W->r); model_read(o->buf,o->t,o->nel,o->payload); }
        int v=newreq(); int h; step("drain isend op%d tag %d count %ld",o->id,tag,(long)o->count); api::isend(o->buf.user(),(int)o->count,o->t.h,0,tag,c->h,&h); distinct_handles(h); W->reqs[v]=h; W->byreq[v]=o; o->reqvar=v; post(o,c); }
    } }
  // operations of freed communicators never match anything
  for(size_t i=0;i<W->reqs.size();i++) if(W->byreq[i]&&W->byreq[i]->orphan){ Op*o=W->byreq[i]; int f=0x55; step("test of op%d, whose communicator is gone",o->id); api::test(&W->reqs[i],&f,MPI_STATUS_IGNORE);
    if(f) viol("premature","operation %d of a freed communicator is reported complete, but nothing matched it",o->id); o->buf.check("orphan-data","buffer of an operation that nothing matched"); api::request_free(&W->reqs[i]); req_gone((int)i,"request_free"); W->byreq[i]=0; drop(o); EV("orphans checked"); }
  for(auto o:std::vector<Op*>(W->detached)) if(o->orphan){ o->buf.check("orphan-data","buffer of an operation that nothing matched"); erase(W->detached,o); drop(o); EV("orphans checked"); }
  while(true){ bool any=false; for(auto o:W->byreq) if(o) any=true; if(!any) break;
    switch(W->r.below(6)){ case 0: do_test(true); break; case 1: do_any(true); break; case 2: do_some(true); break; case 3: do_all(true); break; case 4: do_all(false); break; default: do_test(false); } }
  for(auto o:std::vector<Op*>(W->detached)){ // both sides detached
    if(!o->complete) viol("lost","a freed request's operation was never matched"); if(!o->send) o->buf.check("recv-data-detached","buffer of a receive whose request was freed"); else o->buf.check("send-buffer","detached send buffer"); drop(o); }
  W->detached.clear();
  for(auto c:W->comms){ int flag=1; step("final iprobe"); api::iprobe(MPI_ANY_SOURCE,MPI_ANY_TAG,c->h,&flag,MPI_STATUS_IGNORE); if(flag) viol("ghost","a message is still pending on communicator %d after all were received",c->h); }
  if(!W->all.empty()) inconclusive("model leak: %zu",W->all.size());
}
}

// optional hook between actions: used to hand the history over to other threads
void (*g_between_actions)()=0;

void p2p_case(const Prof*p,u64 seed){
  P=p; W=new World(seed); World&w=*W; w.g.markers=true; w.g.negative=w.r.chance(200); w.g.max_el=24; w.g.max_span=4096; w.g.verify=w.r.chance(200);
  w.tags=tag_pool(w.r,p->tags+(int)w.r.below(2));
  if(p->maxcount>1&&w.r.chance(60)){ w.large=w.g.wide=true; w.g.max_el=600; w.g.max_span=30000; EV("cases with large messages"); }
  std::vector<int> pad; if(w.r.chance(30)){ w.padded=true; pad.resize(w.r.range(236,256)); for(int&x:pad) api::comm_dup(MPI_COMM_WORLD,&x); EV("cases around the 256th handle"); }
  Comm_*cw=new Comm_; cw->h=MPI_COMM_WORLD; cw->world=true; w.comms.push_back(cw);
  w.g.pick_unit(false,p->single); MT b=w.g.base(); if(!b.named&&!b.committed){ api::type_commit(&b.h); b.committed=true; } w.types.push_back(b);
  for(int i=0;i<3;i++) new_type(); for(int i=0;i<(int)w.r.below(p->ncomm);i++) new_comm();
  if(!strcmp(p->name,"queue")){ // one long queue, or two
    int n=w.r.chance(300)?(int)w.r.range(1500,4000):(int)w.r.range(100,1500); bool snd=w.r.chance(500); w.tags=tag_pool(w.r,(int)w.r.range(8,n<800?n:800)); bool split=w.r.chance(300);
    for(int i=0;i<n;i++){ Comm_*c=split?anycomm():w.comms.back(); if(snd) do_isend(c,sendtag()); else do_irecv(c,w.r.chance(5)?MPI_ANY_TAG:sendtag()); } }
  int n=(int)w.r.range(p->maxops/4,p->maxops);
  // phases bias the mix so that queues grow and shrink
  int phase=(int)w.r.below(3);
  for(int i=0;i<n;i++){
    if(g_between_actions) g_between_actions();
    if(w.r.chance(80)) phase=(int)w.r.below(3);
    int wt[A_N]; memcpy(wt,p->w,sizeof wt); if(phase==1){ wt[A_ISEND]*=3; wt[A_IRECV]/=3; } else if(phase==2){ wt[A_IRECV]*=3; wt[A_ISEND]/=3; }
    int a=w.r.weighted(wt,A_N); w.acts++; w.hist=hcomb(w.hist,a); Comm_*c=anycomm();
    switch(a){
      case A_ISEND: do_isend(c,sendtag()); break; case A_IRECV: do_irecv(c,recvtag()); break; case A_SEND: do_send(c,sendtag()); break; case A_RECV: do_recv(c); break;
      case A_SENDRECV: do_sendrecv(c); break; case A_IRSEND: do_irsend(c); break; case A_IPROBE: if(w.r.chance(80)) do_pnprobe(c); else do_iprobe(c,false); break; case A_PROBE: do_iprobe(c,true); break;
      case A_TEST: do_test(false); break; case A_WAIT: do_test(true); break; case A_TESTANY: do_any(false); break; case A_WAITANY: do_any(true); break;
      case A_TESTALL: do_all(false); break; case A_WAITALL: do_all(true); break; case A_TESTSOME: do_some(false); break; case A_WAITSOME: do_some(true); break;
      case A_REQFREE: do_reqfree(); break; case A_COMMNEW: new_comm(); break; case A_COMMFREE: free_comm(); break; case A_TYPENEW: new_type(); break; case A_TYPEFREE: free_type(); break;
      case A_PNSEND: do_pn(true); break; case A_PNRECV: do_pn(false); break; case A_NOISE: noise(); break; }
  }
  drain(); if(W->r.chance(300)) do_interleaved(anycomm());
  for(size_t i=1;i<w.types.size();i++) if(!w.types[i].named){ int h=w.types[i].h; api::type_free(&h); } if(!w.types[0].named){ int h=w.types[0].h; api::type_free(&h); }
  w.g.collect();
  for(auto c:w.comms){ if(!c->world) api::comm_free(&c->h); delete c; }
  for(int&x:pad) api::comm_free(&x);
  if(w.delivered>=2&&w.maxpend>=2) note_distinct(w.hist);
  sample("profile %s case seed %llx: %d actions, %d messages matched, up to %d pending, unit of %zu basic types (%s)",p->name,(unsigned long long)seed,w.acts,w.delivered,w.maxpend,w.g.unit.size(),w.types[0].desc);
  delete W; W=0;
}
// very many pending operations (or derived types) that use one type, which is freed meanwhile
namespace {
void crowd_case(u64 seed){
  Rng r(seed); TypeGen g(r); g.max_el=8; g.max_span=200; g.verify=false; g.pick_unit(false,r.chance(500)); bool mass=r.chance(25); int n=mass?(int)r.range(65530,66600):(int)r.range(250,r.chance(300)?3000:600); if(r.chance(300)){ static const int P[]={255,256,257,512,1024}; n=mass?65536:P[r.below(5)]; } MT T; LBuf chk;
  for(int k=0;;k++){ T=g.gen(1+(int)r.below(3)); if(!T.named&&T.map.size()&&T.units>0&&!T.overlaps(1)) break; free_type_h(T); if(k>30){ T=mt_named(g_basic[g.unit[0]]); T.units=1; api::type_dup(T.h,&T.h); T.named=false; break; } }
  MT F=g.unit.size()>1||T.units!=1||r.chance(500)?g.base():mt_named(g_basic[g.unit[0]]); if(T.units==1&&g.unit.size()==1){ F=mt_named(g_basic[g.unit[0]]); F.units=1; }
  if(F.overlaps(1)||g.unit.size()==1&&F.named==false){ free_type_h(F); F=T; }
  bool sameF=F.h==T.h; i64 fc=sameF?1:T.units; if(!F.named&&!sameF) ensure_committed(F); ensure_committed(T); i64 tlo,thi,flo,fhi; T.span(1,tlo,thi); F.span(fc,flo,fhi); i64 tw=thi-tlo+r.range(0,3),fw=fhi-flo+r.range(0,3); bool snd=r.chance(500),tags=!mass&&r.chance(500),detach=r.chance(250); int comm=MPI_COMM_WORLD; if(r.chance(400)) api::comm_dup(comm,&comm);
  i64 nel=(i64)T.map.size(); LBuf A,B; A.make_span(0,tw*n,r); B.make_span(0,fw*n,r); LBuf&src=snd?A:B; LBuf&dst=snd?B:A; (void)src; (void)dst;
  std::vector<int> q(n),perm(n); int t0=(int)r.below(1000); for(int i=0;i<n;i++) perm[i]=i;
  if(r.chance(250)&&!mass){ // derived from one type, which is freed
    std::vector<MT> d(n); step("%d types derived from %s, which is freed",n,T.desc); for(int i=0;i<n;i++){ d[i]=T; d[i].committed=false; if(r.chance(500)) { api::type_dup(T.h,&d[i].h); } else { bool amb; std::vector<Block> bs; bs.push_back(Block{1,0,&T,0}); api::type_contiguous(1,T.h,&d[i].h); int h=d[i].h; d[i]=mt_struct(bs,amb); d[i].h=h; if(amb) d[i].ub=d[i].lb+api::type_extent(h); } }
    for(int i=n-1;i>0;i--) std::swap(d[i],d[r.below(i+1)]); if(!sameF||true){ int h=T.h; api::type_free(&h); }
    for(int i=0;i<n;i++){ if(api::type_size(d[i].h)!=T.size()) viol("type-size","a derived type lost its size after %d others were freed",i); api::type_commit(&d[i].h); std::vector<unsigned char> p; LBuf x; x.make(d[i],1,r); LBuf y; y.make(d[i],1,r); model_read(x,d[i],nel,p); model_write(y,d[i],nel,p.data()); api::gather(x.user(),1,d[i].h,y.user(),1,d[i].h,0,comm); y.check("recv-data","data moved through a derived type"); x.release(); y.release(); api::type_free(&d[i].h); }
    EV("crowds of derived types"); EVMAX("types derived from one",n);
  } else {
    step("%d pending %s with one type %s%s",n,snd?"sends":"receives",T.desc,detach?", requests freed":"");
    for(int i=0;i<n;i++){ char*u=(char*)A.m.p()+i*tw-tlo; int tag=tags?t0+i:t0; if(snd) api::isend(u,1,T.h,0,tag,comm,&q[i]); else api::irecv(u,1,T.h,0,tag,comm,&q[i]); }
    if(detach) for(int i=0;i<n;i++) if(r.chance(500)){ api::request_free(&q[i]); }
    int h=T.h; step("freeing the type of %d pending operations",n); if(!sameF) api::type_free(&h); EV("type freed under a pending operation"); EVMAX("operations pending with a freed type",n);
    std::vector<int> others; auto churn=[&](){ for(int k=0;k<3;k++){ int m=(int)r.range(1,9),o; std::vector<int> bl(m,1); std::vector<i64> ds(m); for(auto&x:ds) x=r.range(-900,900); api::type_hindexed(m,bl.data(),ds.data(),MPI_CHAR,&o); if(r.chance(500)) api::type_free(&o); else others.push_back(o); } };
    churn(); if(tags) for(int i=n-1;i>0;i--) if(r.chance(100)) std::swap(perm[i],perm[r.below(i+1)]);
    for(int k=0;k<n;k++){ int i=perm[k]; if(k%(n/4+1)==0||k==n-1||k==254||k==255||k==256||k==65534||k==65535) churn(); std::vector<unsigned char> p; i64 ab=i*tw-tlo,bb=i*fw-flo; if(snd){ model_read(A,T,nel,p,ab); model_write(B,F,nel,p.data(),bb); } else { model_read(B,F,nel,p,bb); model_write(A,T,nel,p.data(),ab); }
      char*v=(char*)B.m.p()+bb; int tag=tags?t0+i:t0; MPI_Status st; if(snd) api::recv(v,(int)fc,F.h,0,tag,comm,&st); else api::send((int)r.below(3),v,(int)fc,F.h,0,tag,comm); EV("messages matched"); }
    for(int i=0;i<n;){ int m=std::min(n-i,(int)r.range(1,200)); api::waitall(m,&q[i],MPI_STATUSES_IGNORE); i+=m; }
    A.check(snd?"send-buffer":"recv-data","buffers of the operations with the freed type"); B.check(snd?"recv-data":"send-buffer","buffers of their partners"); for(int o:others) api::type_free(&o); if(sameF) api::type_free(&h);
  }
  note_distinct(hcomb(n,hcomb(T.map.size(),T.extent()))); sample("case seed %llx: %d uses of %s",(unsigned long long)seed,n,T.desc); A.release(); B.release(); if(!F.named&&!sameF) free_type_h(F); g.collect(); if(comm!=MPI_COMM_WORLD) api::comm_free(&comm);
}
}
const void*p2p_profile(const char*name){ for(auto&p:profs) if(!strcmp(p.name,name)) return &p; fprintf(stderr,"no profile %s\n",name); _exit(97); }
void eng_p2p(){
  if(!strcmp(g_opt.profile,"crowd")){ basics_init(); api::init(); for(u64 i=g_opt.from;i<g_opt.to;i++){ mark_case(i); crowd_case(mix64(g_opt.seed*0x1000193+i)^0xC20); } api::finalize(); return; }
  const Prof*p=(const Prof*)p2p_profile(g_opt.profile); api::init();
  for(u64 i=g_opt.from;i<g_opt.to;i++){ mark_case(i); p2p_case(p,mix64(g_opt.seed*0x1000193+i)); }
  api::finalize();
}
void p2p_run_one(const char*profile,u64 seed){ p2p_case((const Prof*)p2p_profile(profile),seed); }
