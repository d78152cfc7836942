// Generated once from a table of the binding; kept as source.
#include "api.h"
static const int CONST_MARK=0x3C5A7100;
FC fc; int g_lang=LANG_C; static u64 lang_ctr;
extern "C" void vf_side_init_();
extern "C" void vf_side_save_(int*si,int*ssi,int*ip,int*sz,int*a,int*b,int*c){
  fc.status_ignore=si; fc.statuses_ignore=ssi; fc.in_place=ip; fc.status_size=*sz; fc.i_source=*a; fc.i_tag=*b; fc.i_error=*c; fc.ok=1;
  for(int i=0;i<fc.status_size;i++) si[i]=CONST_MARK^i; ssi[0]=CONST_MARK+100; ip[0]=CONST_MARK+200; }
// the variables standing for the special constants belong to nobody: no call may store into them
static void constants_intact(const char*nm){ if(!fc.ok) return;
  for(int i=0;i<fc.status_size;i++) if(fc.status_ignore[i]!=(CONST_MARK^i)) viol("constant-written","%s (Fortran) stored %d into word %d of MPI_STATUS_IGNORE",nm,fc.status_ignore[i],i);
  if(fc.statuses_ignore[0]!=CONST_MARK+100) viol("constant-written","%s (Fortran) stored into MPI_STATUSES_IGNORE",nm); if(fc.in_place[0]!=CONST_MARK+200) viol("constant-written","%s (Fortran) stored into MPI_IN_PLACE",nm); }
void fortran_side_init(){
#ifndef NO_FORTRAN
  vf_side_init_();
  if(fc.status_size<3||fc.status_size>64||fc.i_source<1||fc.i_tag<1) viol("fstatus-layout","Fortran status size %d, source index %d, tag index %d",fc.status_size,fc.i_source,fc.i_tag);
#endif
}
#ifdef NO_FORTRAN
// stands in for the Fortran part of the library, which the memory sanitizer cannot instrument
extern "C" void mpi_save_fort_pointers_(int*,int*,int*) __attribute__((weak));
extern "C" void mpi_get_fort_pointers_(void){ static int cell[64]; if(mpi_save_fort_pointers_) mpi_save_fort_pointers_(cell,cell+16,cell+32); }
#endif
bool useF(){
#ifdef NO_FORTRAN
  return false;
#else
  if(g_lang==LANG_C) return false; if(g_lang==LANG_F) return true;
  return mix64(g_seed*1000003u+lang_ctr++)&1;
#endif
}
// Every library call goes through hop(): inline, or on another thread (see thread.cc).
void (*g_hop)(void(*)(void*),void*)=0;
template<class F> static inline void hop(F f){ if(!g_hop){ f(); return; } g_hop([](void*p){ (*(F*)p)(); },&f); }
#define CALLC(e,n) do{ int rc_=0; hop([&]{ rc_=(e); }); check_ret(rc_,n); }while(0)
#define CALLF(e) hop([&]{ e; })
void check_ret(int rc,const char*name){ if(rc!=MPI_SUCCESS) viol("bad-return","%s returned %d instead of MPI_SUCCESS",name,rc); }

// status cells: n statuses in C layout, or n Fortran status arrays
struct CSt { Cell<MPI_Status> c; MPI_Status*u; size_t n; bool any;
  CSt(MPI_Status*user,size_t k):c(user?k:0),u(user),n(k){ memset((void*)c.p(),0x5A,(user?k:0)*sizeof(MPI_Status)); }
  MPI_Status*p(){ return u?c.p():MPI_STATUS_IGNORE; }
  ~CSt(){ if(u&&n) memcpy((void*)u,(void*)c.p(),n*sizeof(MPI_Status)); } };
struct FSt { Cell<int> c; MPI_Status*u; size_t n; bool arr;
  FSt(MPI_Status*user,size_t k,bool a):c(user?k*fc.status_size:0),u(user),n(k),arr(a){ }
  int*p(){ return u?c.p():(arr?fc.statuses_ignore:fc.status_ignore); }
  ~FSt(){ if(u) for(size_t i=0;i<n;i++){ // read back by field index, the way a Fortran caller does
      MPI_Status t; memset(&t,0x5A,sizeof t); size_t w=fc.status_size*sizeof(int); if(w>sizeof t) w=sizeof t;
      memcpy((void*)&t,c.p()+i*fc.status_size,w);
      t.MPI_SOURCE=c.get(i*fc.status_size+fc.i_source-1); t.MPI_TAG=c.get(i*fc.status_size+fc.i_tag-1);
      u[i]=t; } } };
static const int IERR0=0x71e57;
struct Ierr { Cell<int> c; const char*nm; Ierr(const char*n):c(1),nm(n){ c.set(IERR0); } int*p(){ return c.p(); }
  ~Ierr(){ int v=c.get(); if(v==IERR0) viol("ierror-unset","%s (Fortran) left its error argument unset",nm); check_ret(v,nm); constants_intact(nm); } };
struct I1 { Cell<int> c; int keep; const char*nm; I1(int v,const char*n="?"):c(1),keep(v),nm(n){ c.set(v); } int*p(){ return c.p(); }
  ~I1(){ if(c.get()!=keep) viol("input-modified","%s (Fortran) modified an input argument",nm); } };
// (input arrays the caller passes twice in one call are passed on as one array, too)
struct IA { static IA*live[8]; static int nlive; const IA*same; Cell<int> c; const int*src; size_t n; const char*nm;
  static const IA*find(const int*s,size_t k){ for(int i=0;i<nlive;i++) if(s&&k&&live[i]->src==s&&live[i]->n==k) return live[i]; return 0; }
  IA(const int*s,size_t k,const char*m="?"):same(find(s,k)),c(s,same?0:k),src(s),n(k),nm(m){ if(!same&&nlive<8) live[nlive++]=this; else if(!same) abort(); }
  int*p(){ return same?const_cast<IA*>(same)->p():c.p(); }
  ~IA(){ if(same) return; nlive--; if(n&&memcmp(c.p(),src,n*sizeof(int))) viol("input-modified","%s modified an input array",nm); } };
IA*IA::live[8]; int IA::nlive=0;
struct AA { Cell<i64> c; const i64*src; size_t n; const char*nm; AA(const i64*s,size_t k,const char*m="?"):c(s,k),src(s),n(k),nm(m){} MPI_Aint*p(){ return (MPI_Aint*)c.p(); }
  ~AA(){ if(n&&memcmp(c.p(),src,n*sizeof(i64))) viol("input-modified","%s modified an input array",nm); } };
struct IO { Cell<int> c; int*u; size_t n; IO(int*user,size_t k):c(user,k),u(user),n(k){} int*p(){ return c.p(); } ~IO(){ for(size_t i=0;i<n;i++) u[i]=c.get(i); } };
struct OU { Cell<int> c; int*u; size_t n; OU(int*user,size_t k):c(k),u(user),n(k){} int*p(){ return c.p(); } ~OU(){ for(size_t i=0;i<n;i++) u[i]=c.get(i); } };
struct FL:OU { FL(int*user):OU(user,1){} ~FL(){ int v=c.get(); if(v!=0&&v!=1) viol("logical","a LOGICAL result was set to %d",v); } };   // a Fortran LOGICAL result
struct OA { Cell<i64> c; i64*u; OA(i64*user):c(1),u(user){} MPI_Aint*p(){ return (MPI_Aint*)c.p(); } ~OA(){ *u=c.get(); } };
static void*fin(const void*b){ return b==MPI_IN_PLACE?(void*)fc.in_place:(void*)b; }
static void*vb(const void*b){ return (void*)b; }
extern "C" {
void mpi_isend_(void*,int*,int*,int*,int*,int*,int*,int*);
void mpi_irsend_(void*,int*,int*,int*,int*,int*,int*,int*);
void mpi_send_(void*,int*,int*,int*,int*,int*,int*);
void mpi_ssend_(void*,int*,int*,int*,int*,int*,int*);
void mpi_rsend_(void*,int*,int*,int*,int*,int*,int*);
void mpi_irecv_(void*,int*,int*,int*,int*,int*,int*,int*);
void mpi_recv_(void*,int*,int*,int*,int*,int*,int*,int*);
void mpi_sendrecv_(void*,int*,int*,int*,int*,void*,int*,int*,int*,int*,int*,int*,int*);
void mpi_iprobe_(int*,int*,int*,int*,int*,int*);
void mpi_probe_(int*,int*,int*,int*,int*);
void mpi_test_(int*,int*,int*,int*);
void mpi_wait_(int*,int*,int*);
void mpi_testany_(int*,int*,int*,int*,int*,int*);
void mpi_waitany_(int*,int*,int*,int*,int*);
void mpi_testall_(int*,int*,int*,int*,int*);
void mpi_waitall_(int*,int*,int*,int*);
void mpi_testsome_(int*,int*,int*,int*,int*,int*);
void mpi_waitsome_(int*,int*,int*,int*,int*,int*);
void mpi_request_free_(int*,int*);
void mpi_get_count_(int*,int*,int*,int*);
void mpi_get_elements_(int*,int*,int*,int*);
void mpi_type_contiguous_(int*,int*,int*,int*);
void mpi_type_vector_(int*,int*,int*,int*,int*,int*);
void mpi_type_hvector_(int*,int*,MPI_Aint*,int*,int*,int*);
void mpi_type_create_hvector_(int*,int*,MPI_Aint*,int*,int*,int*);
void mpi_type_indexed_(int*,int*,int*,int*,int*,int*);
void mpi_type_create_indexed_block_(int*,int*,int*,int*,int*,int*);
void mpi_type_hindexed_(int*,int*,MPI_Aint*,int*,int*,int*);
void mpi_type_struct_(int*,int*,MPI_Aint*,int*,int*,int*);
void mpi_type_dup_(int*,int*,int*);
void mpi_type_commit_(int*,int*);
void mpi_type_free_(int*,int*);
void mpi_type_size_(int*,int*,int*);
void mpi_type_extent_(int*,MPI_Aint*,int*);
void mpi_type_lb_(int*,MPI_Aint*,int*);
void mpi_type_ub_(int*,MPI_Aint*,int*);
void mpi_address_(void*,MPI_Aint*,int*);
void mpi_get_address_(void*,MPI_Aint*,int*);
void mpi_pack_(void*,int*,int*,void*,int*,int*,int*,int*);
void mpi_unpack_(void*,int*,int*,void*,int*,int*,int*,int*);
void mpi_comm_dup_(int*,int*,int*);
void mpi_comm_free_(int*,int*);
void mpi_comm_split_(int*,int*,int*,int*,int*);
void mpi_comm_create_(int*,int*,int*,int*);
void mpi_comm_group_(int*,int*,int*);
void mpi_comm_size_(int*,int*,int*);
void mpi_comm_rank_(int*,int*,int*);
void mpi_intercomm_create_(int*,int*,int*,int*,int*,int*,int*);
void mpi_group_incl_(int*,int*,int*,int*,int*);
void mpi_group_range_incl_(int*,int*,int*,int*,int*);
void mpi_group_union_(int*,int*,int*,int*);
void mpi_group_intersection_(int*,int*,int*,int*);
void mpi_group_difference_(int*,int*,int*,int*);
void mpi_group_translate_ranks_(int*,int*,int*,int*,int*,int*);
void mpi_group_free_(int*,int*);
void mpi_cart_create_(int*,int*,int*,int*,int*,int*,int*);
void mpi_cart_get_(int*,int*,int*,int*,int*,int*);
void mpi_cart_coords_(int*,int*,int*,int*,int*);
void mpi_dims_create_(int*,int*,int*,int*);
void mpi_barrier_(int*,int*);
void mpi_bcast_(void*,int*,int*,int*,int*,int*);
void mpi_gather_(void*,int*,int*,void*,int*,int*,int*,int*,int*);
void mpi_gatherv_(void*,int*,int*,void*,int*,int*,int*,int*,int*,int*);
void mpi_allgather_(void*,int*,int*,void*,int*,int*,int*,int*);
void mpi_allgatherv_(void*,int*,int*,void*,int*,int*,int*,int*,int*);
void mpi_scatter_(void*,int*,int*,void*,int*,int*,int*,int*,int*);
void mpi_scatterv_(void*,int*,int*,int*,void*,int*,int*,int*,int*,int*);
void mpi_reduce_(void*,void*,int*,int*,int*,int*,int*,int*);
void mpi_allreduce_(void*,void*,int*,int*,int*,int*,int*);
void mpi_reduce_scatter_(void*,void*,int*,int*,int*,int*,int*);
void mpi_scan_(void*,void*,int*,int*,int*,int*,int*);
void mpi_alltoall_(void*,int*,int*,void*,int*,int*,int*,int*);
void mpi_alltoallv_(void*,int*,int*,int*,void*,int*,int*,int*,int*,int*);
void mpi_alltoallw_(void*,int*,int*,int*,void*,int*,int*,int*,int*,int*);
void mpi_op_free_(int*,int*);
void mpi_init_(int*); void mpi_init_thread_(int*,int*,int*); void mpi_finalize_(int*); void mpi_pack_size_(int*,int*,int*,int*,int*); void mpi_op_create_(void*,int*,int*,int*);
}
namespace api {
void isend(const void*b,int c,int t,int d,int tag,int comm,int*req){
  EV("MPI_Isend");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_isend_"); I1 x1(c,"mpi_isend_"); I1 x2(t,"mpi_isend_"); I1 x3(d,"mpi_isend_"); I1 x4(tag,"mpi_isend_"); I1 x5(comm,"mpi_isend_"); OU x6(req,(size_t)(1)); CALLF(mpi_isend_(vb(b),x1.p(),x2.p(),x3.p(),x4.p(),x5.p(),x6.p(),ie.p())); return; }
#endif
  { OU x6(req,(size_t)(1)); CALLC(MPI_Isend(vb(b),c,t,d,tag,comm,x6.p()),"MPI_Isend"); }
}
void irsend(const void*b,int c,int t,int d,int tag,int comm,int*req){
  EV("MPI_Irsend");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_irsend_"); I1 x1(c,"mpi_irsend_"); I1 x2(t,"mpi_irsend_"); I1 x3(d,"mpi_irsend_"); I1 x4(tag,"mpi_irsend_"); I1 x5(comm,"mpi_irsend_"); OU x6(req,(size_t)(1)); CALLF(mpi_irsend_(vb(b),x1.p(),x2.p(),x3.p(),x4.p(),x5.p(),x6.p(),ie.p())); return; }
#endif
  { OU x6(req,(size_t)(1)); CALLC(MPI_Irsend(vb(b),c,t,d,tag,comm,x6.p()),"MPI_Irsend"); }
}
static void send_0(const void*b,int c,int t,int d,int tag,int comm){
  EV("MPI_Send");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_send_"); I1 x1(c,"mpi_send_"); I1 x2(t,"mpi_send_"); I1 x3(d,"mpi_send_"); I1 x4(tag,"mpi_send_"); I1 x5(comm,"mpi_send_"); CALLF(mpi_send_(vb(b),x1.p(),x2.p(),x3.p(),x4.p(),x5.p(),ie.p())); return; }
#endif
  {  CALLC(MPI_Send(vb(b),c,t,d,tag,comm),"MPI_Send"); }
}
static void send_1(const void*b,int c,int t,int d,int tag,int comm){
  EV("MPI_Ssend");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_ssend_"); I1 x1(c,"mpi_ssend_"); I1 x2(t,"mpi_ssend_"); I1 x3(d,"mpi_ssend_"); I1 x4(tag,"mpi_ssend_"); I1 x5(comm,"mpi_ssend_"); CALLF(mpi_ssend_(vb(b),x1.p(),x2.p(),x3.p(),x4.p(),x5.p(),ie.p())); return; }
#endif
  {  CALLC(MPI_Ssend(vb(b),c,t,d,tag,comm),"MPI_Ssend"); }
}
static void send_2(const void*b,int c,int t,int d,int tag,int comm){
  EV("MPI_Rsend");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_rsend_"); I1 x1(c,"mpi_rsend_"); I1 x2(t,"mpi_rsend_"); I1 x3(d,"mpi_rsend_"); I1 x4(tag,"mpi_rsend_"); I1 x5(comm,"mpi_rsend_"); CALLF(mpi_rsend_(vb(b),x1.p(),x2.p(),x3.p(),x4.p(),x5.p(),ie.p())); return; }
#endif
  {  CALLC(MPI_Rsend(vb(b),c,t,d,tag,comm),"MPI_Rsend"); }
}
void irecv(void*b,int c,int t,int s,int tag,int comm,int*req){
  EV("MPI_Irecv");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_irecv_"); I1 x1(c,"mpi_irecv_"); I1 x2(t,"mpi_irecv_"); I1 x3(s,"mpi_irecv_"); I1 x4(tag,"mpi_irecv_"); I1 x5(comm,"mpi_irecv_"); OU x6(req,(size_t)(1)); CALLF(mpi_irecv_(vb(b),x1.p(),x2.p(),x3.p(),x4.p(),x5.p(),x6.p(),ie.p())); return; }
#endif
  { OU x6(req,(size_t)(1)); CALLC(MPI_Irecv(vb(b),c,t,s,tag,comm,x6.p()),"MPI_Irecv"); }
}
void recv(void*b,int c,int t,int s,int tag,int comm,MPI_Status*st){
  EV("MPI_Recv");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_recv_"); I1 x1(c,"mpi_recv_"); I1 x2(t,"mpi_recv_"); I1 x3(s,"mpi_recv_"); I1 x4(tag,"mpi_recv_"); I1 x5(comm,"mpi_recv_"); FSt x6(st,1,false); CALLF(mpi_recv_(vb(b),x1.p(),x2.p(),x3.p(),x4.p(),x5.p(),x6.p(),ie.p())); return; }
#endif
  { CSt x6(st,1); CALLC(MPI_Recv(vb(b),c,t,s,tag,comm,x6.p()),"MPI_Recv"); }
}
void sendrecv(const void*sb,int sc,int st_,int d,int stag,void*rb,int rc,int rt,int s,int rtag,int comm,MPI_Status*st){
  EV("MPI_Sendrecv");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_sendrecv_"); I1 x1(sc,"mpi_sendrecv_"); I1 x2(st_,"mpi_sendrecv_"); I1 x3(d,"mpi_sendrecv_"); I1 x4(stag,"mpi_sendrecv_"); I1 x6(rc,"mpi_sendrecv_"); I1 x7(rt,"mpi_sendrecv_"); I1 x8(s,"mpi_sendrecv_"); I1 x9(rtag,"mpi_sendrecv_"); I1 x10(comm,"mpi_sendrecv_"); FSt x11(st,1,false); CALLF(mpi_sendrecv_(vb(sb),x1.p(),x2.p(),x3.p(),x4.p(),vb(rb),x6.p(),x7.p(),x8.p(),x9.p(),x10.p(),x11.p(),ie.p())); return; }
#endif
  { CSt x11(st,1); CALLC(MPI_Sendrecv(vb(sb),sc,st_,d,stag,vb(rb),rc,rt,s,rtag,comm,x11.p()),"MPI_Sendrecv"); }
}
void iprobe(int s,int tag,int comm,int*flag,MPI_Status*st){
  EV("MPI_Iprobe");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_iprobe_"); I1 x0(s,"mpi_iprobe_"); I1 x1(tag,"mpi_iprobe_"); I1 x2(comm,"mpi_iprobe_"); FL x3(flag); FSt x4(st,1,false); CALLF(mpi_iprobe_(x0.p(),x1.p(),x2.p(),x3.p(),x4.p(),ie.p())); return; }
#endif
  { OU x3(flag,(size_t)(1)); CSt x4(st,1); CALLC(MPI_Iprobe(s,tag,comm,x3.p(),x4.p()),"MPI_Iprobe"); }
}
void probe(int s,int tag,int comm,MPI_Status*st){
  EV("MPI_Probe");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_probe_"); I1 x0(s,"mpi_probe_"); I1 x1(tag,"mpi_probe_"); I1 x2(comm,"mpi_probe_"); FSt x3(st,1,false); CALLF(mpi_probe_(x0.p(),x1.p(),x2.p(),x3.p(),ie.p())); return; }
#endif
  { CSt x3(st,1); CALLC(MPI_Probe(s,tag,comm,x3.p()),"MPI_Probe"); }
}
void test(int*req,int*flag,MPI_Status*st){
  EV("MPI_Test");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_test_"); IO x0(req,(size_t)(1)); FL x1(flag); FSt x2(st,1,false); CALLF(mpi_test_(x0.p(),x1.p(),x2.p(),ie.p())); return; }
#endif
  { IO x0(req,(size_t)(1)); OU x1(flag,(size_t)(1)); CSt x2(st,1); CALLC(MPI_Test(x0.p(),x1.p(),x2.p()),"MPI_Test"); }
}
void wait(int*req,MPI_Status*st){
  EV("MPI_Wait");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_wait_"); IO x0(req,(size_t)(1)); FSt x1(st,1,false); CALLF(mpi_wait_(x0.p(),x1.p(),ie.p())); return; }
#endif
  { IO x0(req,(size_t)(1)); CSt x1(st,1); CALLC(MPI_Wait(x0.p(),x1.p()),"MPI_Wait"); }
}
static void testany_raw(int n,int*reqs,int*index,int*flag,MPI_Status*st,bool&f){
  EV("MPI_Testany");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_testany_"); I1 x0(n,"mpi_testany_"); IO x1(reqs,(size_t)(n)); OU x2(index,(size_t)(1)); FL x3(flag); FSt x4(st,1,false); CALLF(mpi_testany_(x0.p(),x1.p(),x2.p(),x3.p(),x4.p(),ie.p())); f=true; return; }
#endif
  { IO x1(reqs,(size_t)(n)); OU x2(index,(size_t)(1)); OU x3(flag,(size_t)(1)); CSt x4(st,1); CALLC(MPI_Testany(n,x1.p(),x2.p(),x3.p(),x4.p()),"MPI_Testany"); f=false; }
}
static void waitany_raw(int n,int*reqs,int*index,MPI_Status*st,bool&f){
  EV("MPI_Waitany");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_waitany_"); I1 x0(n,"mpi_waitany_"); IO x1(reqs,(size_t)(n)); OU x2(index,(size_t)(1)); FSt x3(st,1,false); CALLF(mpi_waitany_(x0.p(),x1.p(),x2.p(),x3.p(),ie.p())); f=true; return; }
#endif
  { IO x1(reqs,(size_t)(n)); OU x2(index,(size_t)(1)); CSt x3(st,1); CALLC(MPI_Waitany(n,x1.p(),x2.p(),x3.p()),"MPI_Waitany"); f=false; }
}
void testall(int n,int*reqs,int*flag,MPI_Status*sts){
  EV("MPI_Testall");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_testall_"); I1 x0(n,"mpi_testall_"); IO x1(reqs,(size_t)(n)); FL x2(flag); FSt x3(sts,(size_t)(n),true); CALLF(mpi_testall_(x0.p(),x1.p(),x2.p(),x3.p(),ie.p())); return; }
#endif
  { IO x1(reqs,(size_t)(n)); OU x2(flag,(size_t)(1)); CSt x3(sts,(size_t)(n)); CALLC(MPI_Testall(n,x1.p(),x2.p(),x3.p()),"MPI_Testall"); }
}
void waitall(int n,int*reqs,MPI_Status*sts){
  EV("MPI_Waitall");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_waitall_"); I1 x0(n,"mpi_waitall_"); IO x1(reqs,(size_t)(n)); FSt x2(sts,(size_t)(n),true); CALLF(mpi_waitall_(x0.p(),x1.p(),x2.p(),ie.p())); return; }
#endif
  { IO x1(reqs,(size_t)(n)); CSt x2(sts,(size_t)(n)); CALLC(MPI_Waitall(n,x1.p(),x2.p()),"MPI_Waitall"); }
}
static void testsome_raw(int n,int*reqs,int*outcount,int*idx,MPI_Status*sts,bool&f){
  EV("MPI_Testsome");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_testsome_"); I1 x0(n,"mpi_testsome_"); IO x1(reqs,(size_t)(n)); OU x2(outcount,(size_t)(1)); OU x3(idx,(size_t)(n)); FSt x4(sts,(size_t)(n),true); CALLF(mpi_testsome_(x0.p(),x1.p(),x2.p(),x3.p(),x4.p(),ie.p())); f=true; return; }
#endif
  { IO x1(reqs,(size_t)(n)); OU x2(outcount,(size_t)(1)); OU x3(idx,(size_t)(n)); CSt x4(sts,(size_t)(n)); CALLC(MPI_Testsome(n,x1.p(),x2.p(),x3.p(),x4.p()),"MPI_Testsome"); f=false; }
}
static void waitsome_raw(int n,int*reqs,int*outcount,int*idx,MPI_Status*sts,bool&f){
  EV("MPI_Waitsome");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_waitsome_"); I1 x0(n,"mpi_waitsome_"); IO x1(reqs,(size_t)(n)); OU x2(outcount,(size_t)(1)); OU x3(idx,(size_t)(n)); FSt x4(sts,(size_t)(n),true); CALLF(mpi_waitsome_(x0.p(),x1.p(),x2.p(),x3.p(),x4.p(),ie.p())); f=true; return; }
#endif
  { IO x1(reqs,(size_t)(n)); OU x2(outcount,(size_t)(1)); OU x3(idx,(size_t)(n)); CSt x4(sts,(size_t)(n)); CALLC(MPI_Waitsome(n,x1.p(),x2.p(),x3.p(),x4.p()),"MPI_Waitsome"); f=false; }
}
void request_free(int*req){
  EV("MPI_Request_free");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_request_free_"); IO x0(req,(size_t)(1)); CALLF(mpi_request_free_(x0.p(),ie.p())); return; }
#endif
  { IO x0(req,(size_t)(1)); CALLC(MPI_Request_free(x0.p()),"MPI_Request_free"); }
}
void get_count(const MPI_Status*st,int t,int*n){
  EV("MPI_Get_count");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_get_count_"); Cell<int> x0((size_t)fc.status_size); memcpy(x0.p(),st,std::min(fc.status_size*sizeof(int),sizeof(MPI_Status))); I1 x1(t,"mpi_get_count_"); OU x2(n,(size_t)(1)); CALLF(mpi_get_count_(x0.p(),x1.p(),x2.p(),ie.p())); return; }
#endif
  { Cell<MPI_Status> x0(st,1); OU x2(n,(size_t)(1)); CALLC(MPI_Get_count(x0.p(),t,x2.p()),"MPI_Get_count"); }
}
void get_elements(const MPI_Status*st,int t,int*n){
  EV("MPI_Get_elements");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_get_elements_"); Cell<int> x0((size_t)fc.status_size); memcpy(x0.p(),st,std::min(fc.status_size*sizeof(int),sizeof(MPI_Status))); I1 x1(t,"mpi_get_elements_"); OU x2(n,(size_t)(1)); CALLF(mpi_get_elements_(x0.p(),x1.p(),x2.p(),ie.p())); return; }
#endif
  { Cell<MPI_Status> x0(st,1); OU x2(n,(size_t)(1)); CALLC(MPI_Get_elements(x0.p(),t,x2.p()),"MPI_Get_elements"); }
}
void type_contiguous(int n,int old,int*t){
  EV("MPI_Type_contiguous");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_type_contiguous_"); I1 x0(n,"mpi_type_contiguous_"); I1 x1(old,"mpi_type_contiguous_"); OU x2(t,(size_t)(1)); CALLF(mpi_type_contiguous_(x0.p(),x1.p(),x2.p(),ie.p())); return; }
#endif
  { OU x2(t,(size_t)(1)); CALLC(MPI_Type_contiguous(n,old,x2.p()),"MPI_Type_contiguous"); }
}
void type_vector(int n,int bl,int stride,int old,int*t){
  EV("MPI_Type_vector");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_type_vector_"); I1 x0(n,"mpi_type_vector_"); I1 x1(bl,"mpi_type_vector_"); I1 x2(stride,"mpi_type_vector_"); I1 x3(old,"mpi_type_vector_"); OU x4(t,(size_t)(1)); CALLF(mpi_type_vector_(x0.p(),x1.p(),x2.p(),x3.p(),x4.p(),ie.p())); return; }
#endif
  { OU x4(t,(size_t)(1)); CALLC(MPI_Type_vector(n,bl,stride,old,x4.p()),"MPI_Type_vector"); }
}
static void type_hvector1(int n,int bl,i64 stride,int old,int*t){
  EV("MPI_Type_hvector");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_type_hvector_"); I1 x0(n,"mpi_type_hvector_"); I1 x1(bl,"mpi_type_hvector_"); AA x2(&stride,1,"mpi_type_hvector_"); I1 x3(old,"mpi_type_hvector_"); OU x4(t,(size_t)(1)); CALLF(mpi_type_hvector_(x0.p(),x1.p(),x2.p(),x3.p(),x4.p(),ie.p())); return; }
#endif
  { OU x4(t,(size_t)(1)); CALLC(MPI_Type_hvector(n,bl,stride,old,x4.p()),"MPI_Type_hvector"); }
}
static void type_hvector2(int n,int bl,i64 stride,int old,int*t){
  EV("MPI_Type_create_hvector");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_type_create_hvector_"); I1 x0(n,"mpi_type_create_hvector_"); I1 x1(bl,"mpi_type_create_hvector_"); AA x2(&stride,1,"mpi_type_create_hvector_"); I1 x3(old,"mpi_type_create_hvector_"); OU x4(t,(size_t)(1)); CALLF(mpi_type_create_hvector_(x0.p(),x1.p(),x2.p(),x3.p(),x4.p(),ie.p())); return; }
#endif
  { OU x4(t,(size_t)(1)); CALLC(MPI_Type_create_hvector(n,bl,stride,old,x4.p()),"MPI_Type_create_hvector"); }
}
void type_indexed(int n,const int*bl,const int*d,int old,int*t){
  EV("MPI_Type_indexed");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_type_indexed_"); I1 x0(n,"mpi_type_indexed_"); IA x1(bl,(size_t)(n),"mpi_type_indexed_"); IA x2(d,(size_t)(n),"mpi_type_indexed_"); I1 x3(old,"mpi_type_indexed_"); OU x4(t,(size_t)(1)); CALLF(mpi_type_indexed_(x0.p(),x1.p(),x2.p(),x3.p(),x4.p(),ie.p())); return; }
#endif
  { IA x1(bl,(size_t)(n),"MPI_Type_indexed"); IA x2(d,(size_t)(n),"MPI_Type_indexed"); OU x4(t,(size_t)(1)); CALLC(MPI_Type_indexed(n,x1.p(),x2.p(),old,x4.p()),"MPI_Type_indexed"); }
}
void type_indexed_block(int n,int bl,const int*d,int old,int*t){
  EV("MPI_Type_create_indexed_block");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_type_create_indexed_block_"); I1 x0(n,"mpi_type_create_indexed_block_"); I1 x1(bl,"mpi_type_create_indexed_block_"); IA x2(d,(size_t)(n),"mpi_type_create_indexed_block_"); I1 x3(old,"mpi_type_create_indexed_block_"); OU x4(t,(size_t)(1)); CALLF(mpi_type_create_indexed_block_(x0.p(),x1.p(),x2.p(),x3.p(),x4.p(),ie.p())); return; }
#endif
  { IA x2(d,(size_t)(n),"MPI_Type_create_indexed_block"); OU x4(t,(size_t)(1)); CALLC(MPI_Type_create_indexed_block(n,bl,x2.p(),old,x4.p()),"MPI_Type_create_indexed_block"); }
}
void type_hindexed(int n,const int*bl,const i64*d,int old,int*t){
  EV("MPI_Type_hindexed");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_type_hindexed_"); I1 x0(n,"mpi_type_hindexed_"); IA x1(bl,(size_t)(n),"mpi_type_hindexed_"); AA x2(d,(size_t)(n),"mpi_type_hindexed_"); I1 x3(old,"mpi_type_hindexed_"); OU x4(t,(size_t)(1)); CALLF(mpi_type_hindexed_(x0.p(),x1.p(),x2.p(),x3.p(),x4.p(),ie.p())); return; }
#endif
  { IA x1(bl,(size_t)(n),"MPI_Type_hindexed"); AA x2(d,(size_t)(n),"MPI_Type_hindexed"); OU x4(t,(size_t)(1)); CALLC(MPI_Type_hindexed(n,x1.p(),x2.p(),old,x4.p()),"MPI_Type_hindexed"); }
}
void type_struct(int n,const int*bl,const i64*d,const int*old,int*t){
  EV("MPI_Type_struct");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_type_struct_"); I1 x0(n,"mpi_type_struct_"); IA x1(bl,(size_t)(n),"mpi_type_struct_"); AA x2(d,(size_t)(n),"mpi_type_struct_"); IA x3(old,(size_t)(n),"mpi_type_struct_"); OU x4(t,(size_t)(1)); CALLF(mpi_type_struct_(x0.p(),x1.p(),x2.p(),x3.p(),x4.p(),ie.p())); return; }
#endif
  { IA x1(bl,(size_t)(n),"MPI_Type_struct"); AA x2(d,(size_t)(n),"MPI_Type_struct"); IA x3(old,(size_t)(n),"MPI_Type_struct"); OU x4(t,(size_t)(1)); CALLC(MPI_Type_struct(n,x1.p(),x2.p(),x3.p(),x4.p()),"MPI_Type_struct"); }
}
void type_dup(int old,int*t){
  EV("MPI_Type_dup");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_type_dup_"); I1 x0(old,"mpi_type_dup_"); OU x1(t,(size_t)(1)); CALLF(mpi_type_dup_(x0.p(),x1.p(),ie.p())); return; }
#endif
  { OU x1(t,(size_t)(1)); CALLC(MPI_Type_dup(old,x1.p()),"MPI_Type_dup"); }
}
void type_commit(int*t){
  EV("MPI_Type_commit");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_type_commit_"); IO x0(t,(size_t)(1)); CALLF(mpi_type_commit_(x0.p(),ie.p())); return; }
#endif
  { IO x0(t,(size_t)(1)); CALLC(MPI_Type_commit(x0.p()),"MPI_Type_commit"); }
}
void type_free(int*t){
  EV("MPI_Type_free");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_type_free_"); IO x0(t,(size_t)(1)); CALLF(mpi_type_free_(x0.p(),ie.p())); return; }
#endif
  { IO x0(t,(size_t)(1)); CALLC(MPI_Type_free(x0.p()),"MPI_Type_free"); }
}
static void type_size_(int t,int*r){
  EV("MPI_Type_size");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_type_size_"); I1 x0(t,"mpi_type_size_"); OU x1(r,(size_t)(1)); CALLF(mpi_type_size_(x0.p(),x1.p(),ie.p())); return; }
#endif
  { OU x1(r,(size_t)(1)); CALLC(MPI_Type_size(t,x1.p()),"MPI_Type_size"); }
}
static void type_extent_(int t,i64*r){
  EV("MPI_Type_extent");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_type_extent_"); I1 x0(t,"mpi_type_extent_"); OA x1(r); CALLF(mpi_type_extent_(x0.p(),x1.p(),ie.p())); return; }
#endif
  { OA x1(r); CALLC(MPI_Type_extent(t,x1.p()),"MPI_Type_extent"); }
}
static void type_lb_(int t,i64*r){
  EV("MPI_Type_lb");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_type_lb_"); I1 x0(t,"mpi_type_lb_"); OA x1(r); CALLF(mpi_type_lb_(x0.p(),x1.p(),ie.p())); return; }
#endif
  { OA x1(r); CALLC(MPI_Type_lb(t,x1.p()),"MPI_Type_lb"); }
}
static void type_ub_(int t,i64*r){
  EV("MPI_Type_ub");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_type_ub_"); I1 x0(t,"mpi_type_ub_"); OA x1(r); CALLF(mpi_type_ub_(x0.p(),x1.p(),ie.p())); return; }
#endif
  { OA x1(r); CALLC(MPI_Type_ub(t,x1.p()),"MPI_Type_ub"); }
}
static void address1(const void*p,i64*r){
  EV("MPI_Address");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_address_"); OA x1(r); CALLF(mpi_address_(vb(p),x1.p(),ie.p())); return; }
#endif
  { OA x1(r); CALLC(MPI_Address(vb(p),x1.p()),"MPI_Address"); }
}
static void address2(const void*p,i64*r){
  EV("MPI_Get_address");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_get_address_"); OA x1(r); CALLF(mpi_get_address_(vb(p),x1.p(),ie.p())); return; }
#endif
  { OA x1(r); CALLC(MPI_Get_address(vb(p),x1.p()),"MPI_Get_address"); }
}
void pack(const void*in,int n,int t,void*out,int outsize,int*pos,int comm){
  EV("MPI_Pack");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_pack_"); I1 x1(n,"mpi_pack_"); I1 x2(t,"mpi_pack_"); I1 x4(outsize,"mpi_pack_"); IO x5(pos,(size_t)(1)); I1 x6(comm,"mpi_pack_"); CALLF(mpi_pack_(vb(in),x1.p(),x2.p(),vb(out),x4.p(),x5.p(),x6.p(),ie.p())); return; }
#endif
  { IO x5(pos,(size_t)(1)); CALLC(MPI_Pack(vb(in),n,t,vb(out),outsize,x5.p(),comm),"MPI_Pack"); }
}
void unpack(const void*in,int insize,int*pos,void*out,int n,int t,int comm){
  EV("MPI_Unpack");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_unpack_"); I1 x1(insize,"mpi_unpack_"); IO x2(pos,(size_t)(1)); I1 x4(n,"mpi_unpack_"); I1 x5(t,"mpi_unpack_"); I1 x6(comm,"mpi_unpack_"); CALLF(mpi_unpack_(vb(in),x1.p(),x2.p(),vb(out),x4.p(),x5.p(),x6.p(),ie.p())); return; }
#endif
  { IO x2(pos,(size_t)(1)); CALLC(MPI_Unpack(vb(in),insize,x2.p(),vb(out),n,t,comm),"MPI_Unpack"); }
}
void comm_dup(int c,int*n){
  EV("MPI_Comm_dup");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_comm_dup_"); I1 x0(c,"mpi_comm_dup_"); OU x1(n,(size_t)(1)); CALLF(mpi_comm_dup_(x0.p(),x1.p(),ie.p())); return; }
#endif
  { OU x1(n,(size_t)(1)); CALLC(MPI_Comm_dup(c,x1.p()),"MPI_Comm_dup"); }
}
void comm_free(int*c){
  EV("MPI_Comm_free");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_comm_free_"); IO x0(c,(size_t)(1)); CALLF(mpi_comm_free_(x0.p(),ie.p())); return; }
#endif
  { IO x0(c,(size_t)(1)); CALLC(MPI_Comm_free(x0.p()),"MPI_Comm_free"); }
}
void comm_split(int c,int color,int key,int*n){
  EV("MPI_Comm_split");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_comm_split_"); I1 x0(c,"mpi_comm_split_"); I1 x1(color,"mpi_comm_split_"); I1 x2(key,"mpi_comm_split_"); OU x3(n,(size_t)(1)); CALLF(mpi_comm_split_(x0.p(),x1.p(),x2.p(),x3.p(),ie.p())); return; }
#endif
  { OU x3(n,(size_t)(1)); CALLC(MPI_Comm_split(c,color,key,x3.p()),"MPI_Comm_split"); }
}
void comm_create(int c,int g,int*n){
  EV("MPI_Comm_create");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_comm_create_"); I1 x0(c,"mpi_comm_create_"); I1 x1(g,"mpi_comm_create_"); OU x2(n,(size_t)(1)); CALLF(mpi_comm_create_(x0.p(),x1.p(),x2.p(),ie.p())); return; }
#endif
  { OU x2(n,(size_t)(1)); CALLC(MPI_Comm_create(c,g,x2.p()),"MPI_Comm_create"); }
}
void comm_group(int c,int*g){
  EV("MPI_Comm_group");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_comm_group_"); I1 x0(c,"mpi_comm_group_"); OU x1(g,(size_t)(1)); CALLF(mpi_comm_group_(x0.p(),x1.p(),ie.p())); return; }
#endif
  { OU x1(g,(size_t)(1)); CALLC(MPI_Comm_group(c,x1.p()),"MPI_Comm_group"); }
}
static void comm_size_(int c,int*r){
  EV("MPI_Comm_size");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_comm_size_"); I1 x0(c,"mpi_comm_size_"); OU x1(r,(size_t)(1)); CALLF(mpi_comm_size_(x0.p(),x1.p(),ie.p())); return; }
#endif
  { OU x1(r,(size_t)(1)); CALLC(MPI_Comm_size(c,x1.p()),"MPI_Comm_size"); }
}
static void comm_rank_(int c,int*r){
  EV("MPI_Comm_rank");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_comm_rank_"); I1 x0(c,"mpi_comm_rank_"); OU x1(r,(size_t)(1)); CALLF(mpi_comm_rank_(x0.p(),x1.p(),ie.p())); return; }
#endif
  { OU x1(r,(size_t)(1)); CALLC(MPI_Comm_rank(c,x1.p()),"MPI_Comm_rank"); }
}
void intercomm_create(int lc,int ll,int pc,int rl,int tag,int*n){
  EV("MPI_Intercomm_create");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_intercomm_create_"); I1 x0(lc,"mpi_intercomm_create_"); I1 x1(ll,"mpi_intercomm_create_"); I1 x2(pc,"mpi_intercomm_create_"); I1 x3(rl,"mpi_intercomm_create_"); I1 x4(tag,"mpi_intercomm_create_"); OU x5(n,(size_t)(1)); CALLF(mpi_intercomm_create_(x0.p(),x1.p(),x2.p(),x3.p(),x4.p(),x5.p(),ie.p())); return; }
#endif
  { OU x5(n,(size_t)(1)); CALLC(MPI_Intercomm_create(lc,ll,pc,rl,tag,x5.p()),"MPI_Intercomm_create"); }
}
void intercomm_merge(int c,int high,int*n){
  EV("MPI_Intercomm_merge");
  { OU x2(n,(size_t)(1)); CALLC(MPI_Intercomm_merge(c,high,x2.p()),"MPI_Intercomm_merge"); }
}
void group_incl(int g,int n,const int*r,int*ng){
  EV("MPI_Group_incl");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_group_incl_"); I1 x0(g,"mpi_group_incl_"); I1 x1(n,"mpi_group_incl_"); IA x2(r,(size_t)(n),"mpi_group_incl_"); OU x3(ng,(size_t)(1)); CALLF(mpi_group_incl_(x0.p(),x1.p(),x2.p(),x3.p(),ie.p())); return; }
#endif
  { IA x2(r,(size_t)(n),"MPI_Group_incl"); OU x3(ng,(size_t)(1)); CALLC(MPI_Group_incl(g,n,x2.p(),x3.p()),"MPI_Group_incl"); }
}
void group_range_incl(int g,int n,const int (*r)[3],int*ng){
  EV("MPI_Group_range_incl");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_group_range_incl_"); I1 x0(g,"mpi_group_range_incl_"); I1 x1(n,"mpi_group_range_incl_"); IA x2((const int*)r,3*(size_t)(n),"mpi_group_range_incl_"); OU x3(ng,(size_t)(1)); CALLF(mpi_group_range_incl_(x0.p(),x1.p(),x2.p(),x3.p(),ie.p())); return; }
#endif
  { IA x2((const int*)r,3*(size_t)(n),"MPI_Group_range_incl"); OU x3(ng,(size_t)(1)); CALLC(MPI_Group_range_incl(g,n,(int(*)[3])x2.p(),x3.p()),"MPI_Group_range_incl"); }
}
void group_union(int a,int b,int*n){
  EV("MPI_Group_union");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_group_union_"); I1 x0(a,"mpi_group_union_"); I1 x1(b,"mpi_group_union_"); OU x2(n,(size_t)(1)); CALLF(mpi_group_union_(x0.p(),x1.p(),x2.p(),ie.p())); return; }
#endif
  { OU x2(n,(size_t)(1)); CALLC(MPI_Group_union(a,b,x2.p()),"MPI_Group_union"); }
}
void group_intersection(int a,int b,int*n){
  EV("MPI_Group_intersection");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_group_intersection_"); I1 x0(a,"mpi_group_intersection_"); I1 x1(b,"mpi_group_intersection_"); OU x2(n,(size_t)(1)); CALLF(mpi_group_intersection_(x0.p(),x1.p(),x2.p(),ie.p())); return; }
#endif
  { OU x2(n,(size_t)(1)); CALLC(MPI_Group_intersection(a,b,x2.p()),"MPI_Group_intersection"); }
}
void group_difference(int a,int b,int*n){
  EV("MPI_Group_difference");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_group_difference_"); I1 x0(a,"mpi_group_difference_"); I1 x1(b,"mpi_group_difference_"); OU x2(n,(size_t)(1)); CALLF(mpi_group_difference_(x0.p(),x1.p(),x2.p(),ie.p())); return; }
#endif
  { OU x2(n,(size_t)(1)); CALLC(MPI_Group_difference(a,b,x2.p()),"MPI_Group_difference"); }
}
void group_translate(int g1,int n,const int*r1,int g2,int*r2){
  EV("MPI_Group_translate_ranks");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_group_translate_ranks_"); I1 x0(g1,"mpi_group_translate_ranks_"); I1 x1(n,"mpi_group_translate_ranks_"); IA x2(r1,(size_t)(n),"mpi_group_translate_ranks_"); I1 x3(g2,"mpi_group_translate_ranks_"); OU x4(r2,(size_t)(n)); CALLF(mpi_group_translate_ranks_(x0.p(),x1.p(),x2.p(),x3.p(),x4.p(),ie.p())); return; }
#endif
  { IA x2(r1,(size_t)(n),"MPI_Group_translate_ranks"); OU x4(r2,(size_t)(n)); CALLC(MPI_Group_translate_ranks(g1,n,x2.p(),g2,x4.p()),"MPI_Group_translate_ranks"); }
}
void group_free(int*g){
  EV("MPI_Group_free");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_group_free_"); IO x0(g,(size_t)(1)); CALLF(mpi_group_free_(x0.p(),ie.p())); return; }
#endif
  { IO x0(g,(size_t)(1)); CALLC(MPI_Group_free(x0.p()),"MPI_Group_free"); }
}
void cart_create(int c,int nd,const int*dims,const int*per,int reorder,int*n){
  EV("MPI_Cart_create");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_cart_create_"); I1 x0(c,"mpi_cart_create_"); I1 x1(nd,"mpi_cart_create_"); IA x2(dims,(size_t)(nd),"mpi_cart_create_"); IA x3(per,(size_t)(nd),"mpi_cart_create_"); I1 x4(reorder,"mpi_cart_create_"); OU x5(n,(size_t)(1)); CALLF(mpi_cart_create_(x0.p(),x1.p(),x2.p(),x3.p(),x4.p(),x5.p(),ie.p())); return; }
#endif
  { IA x2(dims,(size_t)(nd),"MPI_Cart_create"); IA x3(per,(size_t)(nd),"MPI_Cart_create"); OU x5(n,(size_t)(1)); CALLC(MPI_Cart_create(c,nd,x2.p(),x3.p(),reorder,x5.p()),"MPI_Cart_create"); }
}
void cart_get(int c,int maxd,int*dims,int*per,int*coords){
  EV("MPI_Cart_get");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_cart_get_"); I1 x0(c,"mpi_cart_get_"); I1 x1(maxd,"mpi_cart_get_"); IO x2(dims,(size_t)(maxd)); IO x3(per,(size_t)(maxd)); IO x4(coords,(size_t)(maxd)); CALLF(mpi_cart_get_(x0.p(),x1.p(),x2.p(),x3.p(),x4.p(),ie.p())); return; }
#endif
  { IO x2(dims,(size_t)(maxd)); IO x3(per,(size_t)(maxd)); IO x4(coords,(size_t)(maxd)); CALLC(MPI_Cart_get(c,maxd,x2.p(),x3.p(),x4.p()),"MPI_Cart_get"); }
}
void cart_coords(int c,int rank,int maxd,int*coords){
  EV("MPI_Cart_coords");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_cart_coords_"); I1 x0(c,"mpi_cart_coords_"); I1 x1(rank,"mpi_cart_coords_"); I1 x2(maxd,"mpi_cart_coords_"); IO x3(coords,(size_t)(maxd)); CALLF(mpi_cart_coords_(x0.p(),x1.p(),x2.p(),x3.p(),ie.p())); return; }
#endif
  { IO x3(coords,(size_t)(maxd)); CALLC(MPI_Cart_coords(c,rank,maxd,x3.p()),"MPI_Cart_coords"); }
}
void dims_create(int nn,int nd,int*dims){
  EV("MPI_Dims_create");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_dims_create_"); I1 x0(nn,"mpi_dims_create_"); I1 x1(nd,"mpi_dims_create_"); IO x2(dims,(size_t)(nd)); CALLF(mpi_dims_create_(x0.p(),x1.p(),x2.p(),ie.p())); return; }
#endif
  { IO x2(dims,(size_t)(nd)); CALLC(MPI_Dims_create(nn,nd,x2.p()),"MPI_Dims_create"); }
}
void barrier(int c){
  EV("MPI_Barrier");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_barrier_"); I1 x0(c,"mpi_barrier_"); CALLF(mpi_barrier_(x0.p(),ie.p())); return; }
#endif
  {  CALLC(MPI_Barrier(c),"MPI_Barrier"); }
}
void bcast(void*b,int n,int t,int root,int c){
  EV("MPI_Bcast");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_bcast_"); I1 x1(n,"mpi_bcast_"); I1 x2(t,"mpi_bcast_"); I1 x3(root,"mpi_bcast_"); I1 x4(c,"mpi_bcast_"); CALLF(mpi_bcast_(vb(b),x1.p(),x2.p(),x3.p(),x4.p(),ie.p())); return; }
#endif
  {  CALLC(MPI_Bcast(vb(b),n,t,root,c),"MPI_Bcast"); }
}
void gather(const void*s,int sn,int st,void*r,int rn,int rt,int root,int c){
  EV("MPI_Gather");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_gather_"); I1 x1(sn,"mpi_gather_"); I1 x2(st,"mpi_gather_"); I1 x4(rn,"mpi_gather_"); I1 x5(rt,"mpi_gather_"); I1 x6(root,"mpi_gather_"); I1 x7(c,"mpi_gather_"); CALLF(mpi_gather_(fin(s),x1.p(),x2.p(),vb(r),x4.p(),x5.p(),x6.p(),x7.p(),ie.p())); return; }
#endif
  {  CALLC(MPI_Gather(vb(s),sn,st,vb(r),rn,rt,root,c),"MPI_Gather"); }
}
void gatherv(const void*s,int sn,int st,void*r,const int*rn,const int*d,int rt,int root,int c){
  EV("MPI_Gatherv");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_gatherv_"); I1 x1(sn,"mpi_gatherv_"); I1 x2(st,"mpi_gatherv_"); IA x4(rn,(size_t)(1),"mpi_gatherv_"); IA x5(d,(size_t)(1),"mpi_gatherv_"); I1 x6(rt,"mpi_gatherv_"); I1 x7(root,"mpi_gatherv_"); I1 x8(c,"mpi_gatherv_"); CALLF(mpi_gatherv_(fin(s),x1.p(),x2.p(),vb(r),x4.p(),x5.p(),x6.p(),x7.p(),x8.p(),ie.p())); return; }
#endif
  { IA x4(rn,(size_t)(1),"MPI_Gatherv"); IA x5(d,(size_t)(1),"MPI_Gatherv"); CALLC(MPI_Gatherv(vb(s),sn,st,vb(r),x4.p(),x5.p(),rt,root,c),"MPI_Gatherv"); }
}
void allgather(const void*s,int sn,int st,void*r,int rn,int rt,int c){
  EV("MPI_Allgather");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_allgather_"); I1 x1(sn,"mpi_allgather_"); I1 x2(st,"mpi_allgather_"); I1 x4(rn,"mpi_allgather_"); I1 x5(rt,"mpi_allgather_"); I1 x6(c,"mpi_allgather_"); CALLF(mpi_allgather_(fin(s),x1.p(),x2.p(),vb(r),x4.p(),x5.p(),x6.p(),ie.p())); return; }
#endif
  {  CALLC(MPI_Allgather(vb(s),sn,st,vb(r),rn,rt,c),"MPI_Allgather"); }
}
void allgatherv(const void*s,int sn,int st,void*r,const int*rn,const int*d,int rt,int c){
  EV("MPI_Allgatherv");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_allgatherv_"); I1 x1(sn,"mpi_allgatherv_"); I1 x2(st,"mpi_allgatherv_"); IA x4(rn,(size_t)(1),"mpi_allgatherv_"); IA x5(d,(size_t)(1),"mpi_allgatherv_"); I1 x6(rt,"mpi_allgatherv_"); I1 x7(c,"mpi_allgatherv_"); CALLF(mpi_allgatherv_(fin(s),x1.p(),x2.p(),vb(r),x4.p(),x5.p(),x6.p(),x7.p(),ie.p())); return; }
#endif
  { IA x4(rn,(size_t)(1),"MPI_Allgatherv"); IA x5(d,(size_t)(1),"MPI_Allgatherv"); CALLC(MPI_Allgatherv(vb(s),sn,st,vb(r),x4.p(),x5.p(),rt,c),"MPI_Allgatherv"); }
}
void scatter(const void*s,int sn,int st,void*r,int rn,int rt,int root,int c){
  EV("MPI_Scatter");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_scatter_"); I1 x1(sn,"mpi_scatter_"); I1 x2(st,"mpi_scatter_"); I1 x4(rn,"mpi_scatter_"); I1 x5(rt,"mpi_scatter_"); I1 x6(root,"mpi_scatter_"); I1 x7(c,"mpi_scatter_"); CALLF(mpi_scatter_(vb(s),x1.p(),x2.p(),fin(r),x4.p(),x5.p(),x6.p(),x7.p(),ie.p())); return; }
#endif
  {  CALLC(MPI_Scatter(vb(s),sn,st,vb(r),rn,rt,root,c),"MPI_Scatter"); }
}
void scatterv(const void*s,const int*sn,const int*d,int st,void*r,int rn,int rt,int root,int c){
  EV("MPI_Scatterv");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_scatterv_"); IA x1(sn,(size_t)(1),"mpi_scatterv_"); IA x2(d,(size_t)(1),"mpi_scatterv_"); I1 x3(st,"mpi_scatterv_"); I1 x5(rn,"mpi_scatterv_"); I1 x6(rt,"mpi_scatterv_"); I1 x7(root,"mpi_scatterv_"); I1 x8(c,"mpi_scatterv_"); CALLF(mpi_scatterv_(vb(s),x1.p(),x2.p(),x3.p(),fin(r),x5.p(),x6.p(),x7.p(),x8.p(),ie.p())); return; }
#endif
  { IA x1(sn,(size_t)(1),"MPI_Scatterv"); IA x2(d,(size_t)(1),"MPI_Scatterv"); CALLC(MPI_Scatterv(vb(s),x1.p(),x2.p(),st,vb(r),rn,rt,root,c),"MPI_Scatterv"); }
}
void reduce(const void*s,void*r,int n,int t,int op,int root,int c){
  EV("MPI_Reduce");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_reduce_"); I1 x2(n,"mpi_reduce_"); I1 x3(t,"mpi_reduce_"); I1 x4(op,"mpi_reduce_"); I1 x5(root,"mpi_reduce_"); I1 x6(c,"mpi_reduce_"); CALLF(mpi_reduce_(fin(s),vb(r),x2.p(),x3.p(),x4.p(),x5.p(),x6.p(),ie.p())); return; }
#endif
  {  CALLC(MPI_Reduce(vb(s),vb(r),n,t,op,root,c),"MPI_Reduce"); }
}
void allreduce(const void*s,void*r,int n,int t,int op,int c){
  EV("MPI_Allreduce");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_allreduce_"); I1 x2(n,"mpi_allreduce_"); I1 x3(t,"mpi_allreduce_"); I1 x4(op,"mpi_allreduce_"); I1 x5(c,"mpi_allreduce_"); CALLF(mpi_allreduce_(fin(s),vb(r),x2.p(),x3.p(),x4.p(),x5.p(),ie.p())); return; }
#endif
  {  CALLC(MPI_Allreduce(vb(s),vb(r),n,t,op,c),"MPI_Allreduce"); }
}
void reduce_scatter(const void*s,void*r,const int*n,int t,int op,int c){
  EV("MPI_Reduce_scatter");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_reduce_scatter_"); IA x2(n,(size_t)(1),"mpi_reduce_scatter_"); I1 x3(t,"mpi_reduce_scatter_"); I1 x4(op,"mpi_reduce_scatter_"); I1 x5(c,"mpi_reduce_scatter_"); CALLF(mpi_reduce_scatter_(fin(s),vb(r),x2.p(),x3.p(),x4.p(),x5.p(),ie.p())); return; }
#endif
  { IA x2(n,(size_t)(1),"MPI_Reduce_scatter"); CALLC(MPI_Reduce_scatter(vb(s),vb(r),x2.p(),t,op,c),"MPI_Reduce_scatter"); }
}
void scan(const void*s,void*r,int n,int t,int op,int c){
  EV("MPI_Scan");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_scan_"); I1 x2(n,"mpi_scan_"); I1 x3(t,"mpi_scan_"); I1 x4(op,"mpi_scan_"); I1 x5(c,"mpi_scan_"); CALLF(mpi_scan_(fin(s),vb(r),x2.p(),x3.p(),x4.p(),x5.p(),ie.p())); return; }
#endif
  {  CALLC(MPI_Scan(vb(s),vb(r),n,t,op,c),"MPI_Scan"); }
}
void alltoall(const void*s,int sn,int st,void*r,int rn,int rt,int c){
  EV("MPI_Alltoall");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_alltoall_"); I1 x1(sn,"mpi_alltoall_"); I1 x2(st,"mpi_alltoall_"); I1 x4(rn,"mpi_alltoall_"); I1 x5(rt,"mpi_alltoall_"); I1 x6(c,"mpi_alltoall_"); CALLF(mpi_alltoall_(fin(s),x1.p(),x2.p(),vb(r),x4.p(),x5.p(),x6.p(),ie.p())); return; }
#endif
  {  CALLC(MPI_Alltoall(vb(s),sn,st,vb(r),rn,rt,c),"MPI_Alltoall"); }
}
void alltoallv(const void*s,const int*sn,const int*sd,int st,void*r,const int*rn,const int*rd,int rt,int c){
  EV("MPI_Alltoallv");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_alltoallv_"); IA x1(sn,(size_t)(1),"mpi_alltoallv_"); IA x2(sd,(size_t)(1),"mpi_alltoallv_"); I1 x3(st,"mpi_alltoallv_"); IA x5(rn,(size_t)(1),"mpi_alltoallv_"); IA x6(rd,(size_t)(1),"mpi_alltoallv_"); I1 x7(rt,"mpi_alltoallv_"); I1 x8(c,"mpi_alltoallv_"); CALLF(mpi_alltoallv_(fin(s),x1.p(),x2.p(),x3.p(),vb(r),x5.p(),x6.p(),x7.p(),x8.p(),ie.p())); return; }
#endif
  { IA x1(sn,(size_t)(1),"MPI_Alltoallv"); IA x2(sd,(size_t)(1),"MPI_Alltoallv"); IA x5(rn,(size_t)(1),"MPI_Alltoallv"); IA x6(rd,(size_t)(1),"MPI_Alltoallv"); CALLC(MPI_Alltoallv(vb(s),x1.p(),x2.p(),st,vb(r),x5.p(),x6.p(),rt,c),"MPI_Alltoallv"); }
}
void alltoallw(const void*s,const int*sn,const int*sd,const int*st,void*r,const int*rn,const int*rd,const int*rt,int c){
  EV("MPI_Alltoallw");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_alltoallw_"); IA x1(sn,(size_t)(1),"mpi_alltoallw_"); IA x2(sd,(size_t)(1),"mpi_alltoallw_"); IA x3(st,(size_t)(1),"mpi_alltoallw_"); IA x5(rn,(size_t)(1),"mpi_alltoallw_"); IA x6(rd,(size_t)(1),"mpi_alltoallw_"); IA x7(rt,(size_t)(1),"mpi_alltoallw_"); I1 x8(c,"mpi_alltoallw_"); CALLF(mpi_alltoallw_(fin(s),x1.p(),x2.p(),x3.p(),vb(r),x5.p(),x6.p(),x7.p(),x8.p(),ie.p())); return; }
#endif
  { IA x1(sn,(size_t)(1),"MPI_Alltoallw"); IA x2(sd,(size_t)(1),"MPI_Alltoallw"); IA x3(st,(size_t)(1),"MPI_Alltoallw"); IA x5(rn,(size_t)(1),"MPI_Alltoallw"); IA x6(rd,(size_t)(1),"MPI_Alltoallw"); IA x7(rt,(size_t)(1),"MPI_Alltoallw"); CALLC(MPI_Alltoallw(vb(s),x1.p(),x2.p(),x3.p(),vb(r),x5.p(),x6.p(),x7.p(),c),"MPI_Alltoallw"); }
}
void op_free(int*op){
  EV("MPI_Op_free");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_op_free_"); IO x0(op,(size_t)(1)); CALLF(mpi_op_free_(x0.p(),ie.p())); return; }
#endif
  { IO x0(op,(size_t)(1)); CALLC(MPI_Op_free(x0.p()),"MPI_Op_free"); }
}

void send(int mode,const void*b,int c,int t,int d,int tag,int comm){ if(mode==0) send_0(b,c,t,d,tag,comm); else if(mode==1) send_1(b,c,t,d,tag,comm); else send_2(b,c,t,d,tag,comm); }
static int nidx(int i,bool f){ return (f&&i!=MPI_UNDEFINED)?i-1:i; }
void testany(int n,int*reqs,int*index,int*flag,MPI_Status*st){ bool f=false; testany_raw(n,reqs,index,flag,st,f); if(*flag) *index=nidx(*index,f); }
void waitany(int n,int*reqs,int*index,MPI_Status*st){ bool f=false; waitany_raw(n,reqs,index,st,f); *index=nidx(*index,f); }
void testsome(int n,int*reqs,int*oc,int*idx,MPI_Status*sts){ bool f=false; testsome_raw(n,reqs,oc,idx,sts,f); if(*oc!=MPI_UNDEFINED) for(int i=0;i<*oc&&i<n;i++) idx[i]=nidx(idx[i],f); }
void waitsome(int n,int*reqs,int*oc,int*idx,MPI_Status*sts){ bool f=false; waitsome_raw(n,reqs,oc,idx,sts,f); if(*oc!=MPI_UNDEFINED) for(int i=0;i<*oc&&i<n;i++) idx[i]=nidx(idx[i],f); }
void type_hvector(int n,int bl,i64 stride,int old,int*t,bool create){ if(create) type_hvector2(n,bl,stride,old,t); else type_hvector1(n,bl,stride,old,t); }
int type_size(int t){ int r; type_size_(t,&r); return r; }
i64 type_extent(int t){ i64 r; type_extent_(t,&r); return r; }
i64 type_lb(int t){ i64 r; type_lb_(t,&r); return r; }
i64 type_ub(int t){ i64 r; type_ub_(t,&r); return r; }
i64 address(const void*p){ static u64 k; i64 r; if(k++&1) address1(p,&r); else address2(p,&r); return r; }
int comm_size(int c){ int r; comm_size_(c,&r); return r; }
int comm_rank(int c){ int r; comm_rank_(c,&r); return r; }
// The C binding of the size query delivers an address-sized integer, the Fortran one an INTEGER.
i64 pack_size(int n,int t,int comm){
  EV("MPI_Pack_size");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_pack_size_"); I1 a(n),b(t),c(comm); Cell<int> r(1); CALLF(mpi_pack_size_(a.p(),b.p(),c.p(),r.p(),ie.p())); return r.get(); }
#endif
  Cell<MPI_Aint> r(1); CALLC(MPI_Pack_size(n,t,comm,r.p()),"MPI_Pack_size"); return (i64)r.get();
}
extern "C" void vf_userop(void*a,void*b,int*n,MPI_Datatype*t){ viol("op-called","a user reduction function was called on a one-process communicator"); }
void op_create(int*op,int commute){
  EV("MPI_Op_create");
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_op_create_"); I1 c(commute); OU o(op,1); CALLF(mpi_op_create_((void*)vf_userop,c.p(),o.p(),ie.p())); return; }
#endif
  OU o(op,1); CALLC(MPI_Op_create(vf_userop,commute,o.p()),"MPI_Op_create");
}
void init(){
  fortran_side_init();
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_init_"); CALLF(mpi_init_(ie.p())); return; }
#endif
  CALLC(MPI_Init(0,0),"MPI_Init");
}
void init_thread(int required,int*provided){
  fortran_side_init(); *provided=-1;
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_init_thread_"); CALLF(mpi_init_thread_(&required,provided,ie.p())); return; }
#endif
  CALLC(MPI_Init_thread(0,0,required,provided),"MPI_Init_thread");
}
void finalize(){
#ifndef NO_FORTRAN
  if(useF()){ EV("fortran calls"); Ierr ie("mpi_finalize_"); CALLF(mpi_finalize_(ie.p())); return; }
#endif
  CALLC(MPI_Finalize(),"MPI_Finalize");
}
}
