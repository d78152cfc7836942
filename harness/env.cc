// Environment services: initialisation state, thread level, names, strings, versions, clock, abort.
// The operating system's answers (host name, clocks) are replaced by interposed functions.
#include "api.h"
#include <sys/time.h>
#include <sys/syscall.h>
#include <sys/utsname.h>
#include <time.h>
#include <errno.h>
#include <sys/wait.h>
#include <math.h>
void p2p_run_one(const char*profile,u64 seed);
#if !MON_ASAN && !defined(VARIANT_TSAN) && !defined(VARIANT_MSAN)
#define INTERPOSE 1
#endif
namespace {
bool host_on=false; char host[400]; int host_mode=0; long host_calls=0, host_got=0;     // mode 0 full, 1 fails with ENAMETOOLONG after partial copy, 2 fails at once
bool clk_on=false; i64 clk_ns=0; long clk_calls=0; bool clk_fail=false;
}
#ifdef INTERPOSE
extern "C" int gethostname(char*b,size_t n) noexcept {
  if(!host_on){ struct utsname u; syscall(SYS_uname,&u); snprintf(b,n,"%s",u.nodename); return 0; }
  host_calls++; if(host_mode==2){ errno=EPERM; return -1; }
  size_t l=strlen(host); size_t k=l+1<n?l+1:n; memcpy(b,host,k); host_got=(long)(k>l?l:k);
  if(l+1>n&&host_mode==1){ errno=ENAMETOOLONG; return -1; } return 0; }
extern "C" int uname(struct utsname*u) noexcept {
  int r=(int)syscall(SYS_uname,u); if(host_on){ host_calls++; if(host_mode==2){ errno=EFAULT; return -1; } memset(u->nodename,0,sizeof u->nodename); strncpy(u->nodename,host,sizeof u->nodename-1); host_got=(long)strlen(u->nodename); } return r; }
extern "C" int gettimeofday(struct timeval*tv,void*tz) noexcept {
  if(!clk_on) return (int)syscall(SYS_gettimeofday,tv,tz); clk_calls++; if(clk_fail){ errno=EFAULT; return -1; }
  if(tv){ tv->tv_sec=clk_ns/1000000000; tv->tv_usec=clk_ns%1000000000/1000; } return 0; }
extern "C" int clock_gettime(clockid_t c,struct timespec*t) noexcept {
  if(!clk_on) return (int)syscall(SYS_clock_gettime,c,t); clk_calls++; if(clk_fail){ errno=EINVAL; return -1; }
  t->tv_sec=clk_ns/1000000000; t->tv_nsec=clk_ns%1000000000; return 0; }
#endif
extern "C" {
double MPI_Wtime(void);
#ifndef NO_FORTRAN
double mpi_wtime_(void); void mpi_initialized_(int*,int*); void mpi_init_(int*); void mpi_init_thread_(int*,int*,int*); void mpi_finalize_(int*);
void mpi_get_processor_name_(char*,int*,int*,size_t); void mpi_error_string_(int*,char*,int*,int*,size_t); void mpi_get_library_version_(char*,int*,int*,size_t);
void mpi_get_version_(int*,int*,int*); void mpi_abort_(int*,int*,int*); void mpi_info_create_(int*,int*); void mpi_info_set_(int*,char*,char*,int*,size_t,size_t); void mpi_info_free_(int*,int*);
void vf_version_(int*,int*,int*,int*,int*); int vf_true_(int*);
#endif
}
namespace {
bool F(Rng&r){
#ifdef NO_FORTRAN
  return false;
#else
  return g_lang==LANG_F||(g_lang==LANG_MIX&&r.chance(500));
#endif
}
struct FI { Cell<int> c; FI():c(1){ c.set(0x71e57); } int*p(){ return c.p(); } ~FI(){ if(c.get()!=MPI_SUCCESS) viol("ierror-unset","the Fortran error argument is %d",c.get()); } };
void expect_initialized(Rng&r,bool want,const char*when){
  Cell<int> f(1); f.set(r.chance(500)?-1:12345); EV("initialised queries");
#ifndef NO_FORTRAN
  if(F(r)){ FI e; mpi_initialized_(f.p(),e.p()); int t=vf_true_(f.p()); if((t!=0)!=want) viol("initialized","MPI_INITIALIZED %s says %s",when,t?"true":"false"); if(f.get()!=0&&f.get()!=1) viol("initialized","MPI_INITIALIZED %s stores %d in a LOGICAL",when,f.get()); return; }
#endif
  check_ret(MPI_Initialized(f.p()),"MPI_Initialized"); if((f.get()!=0)!=want||f.get()==-1) viol("initialized","MPI_Initialized %s says %d",when,f.get());
}
int rc(Rng&r){ int v[]={0,1,2,-1,INT32_MAX,INT32_MIN,15,100,99999}; return r.chance(500)?v[r.below(9)]:(int)r.next(); }
void proc_name(Rng&r){
  bool f=F(r); char*dummy=0; (void)dummy;
#ifdef INTERPOSE
  int n=r.chance(400)?(int)r.range(MPI_MAX_PROCESSOR_NAME-3,MPI_MAX_PROCESSOR_NAME+3):(int)r.range(r.chance(100)?0:1,300); for(int i=0;i<n;i++) host[i]="abcdefghijklmnopqrstuvwxyz0123456789-."[r.below(38)]; host[n]=0; host_mode=r.chance(600)?0:(int)r.range(1,2); host_on=true; host_calls=0; host_got=-1;
  step("processor name, host of %d characters, mode %d, %s",n,host_mode,f?"Fortran":"C");
#endif
  Cell<char> b(MPI_MAX_PROCESSOR_NAME); char was=r.chance(300)?0:r.chance(500)?(char)0xA5:(char)r.range(33,126); memset(b.p(),was,MPI_MAX_PROCESSOR_NAME); Cell<int> l(1); l.set(-7); int len;
#ifndef NO_FORTRAN
  if(f){ FI e; mpi_get_processor_name_(b.p(),l.p(),e.p(),MPI_MAX_PROCESSOR_NAME); }
  else
#endif
  check_ret(MPI_Get_processor_name(b.p(),l.p()),"MPI_Get_processor_name");
  host_on=false; len=l.get(); EV("processor names");
  if(len<0||len>=MPI_MAX_PROCESSOR_NAME+(f?1:0)) viol("name-length","processor name length is %d",len);
  for(int i=0;i<len;i++) if(!b.get(i)) viol("name-length","processor name of reported length %d ends at %d",len,i);
  if(!f){ if(b.get(len)) viol("name-terminator","processor name of length %d is not terminated there",len); }
  else if(len<MPI_MAX_PROCESSOR_NAME&&b.get(len)&&b.get(len)!=' ') viol("name-terminator","processor name of length %d is not ended there",len);
#ifdef INTERPOSE
  if(host_calls&&host_mode==0){ int want=(int)strlen(host); if(want>host_got) want=(int)host_got; if(want>MPI_MAX_PROCESSOR_NAME-1) want=MPI_MAX_PROCESSOR_NAME-1; 
    if(len<want||memcmp(b.p(),host,want)||len>(int)strlen(host)) viol("name-content","processor name is '%.*s', the host is called '%s'",len,b.p(),host); }
  else if(host_mode!=0&&len==0&&(host_mode==2||strlen(host)>=MPI_MAX_PROCESSOR_NAME)) viol("name-content","no processor name at all when the host name is not available");
  else if(host_calls&&host_mode==2&&was){ int k=0; while(k<len&&b.get(k)==was) k++; if(k==len) viol("name-content","the processor name is what the buffer held before, %d times '%c'",len,was); }
#else
  char h[300]; gethostname(h,sizeof h); h[299]=0; if((int)strlen(h)<MPI_MAX_PROCESSOR_NAME&&((int)strlen(h)!=len||memcmp(h,b.p(),len))) viol("name-content","processor name is '%.*s', the host is called '%s'",len,b.p(),h);
#endif
}
void err_string(Rng&r){
  bool f=F(r); int code=rc(r); Cell<char> b(MPI_MAX_ERROR_STRING); Cell<int> l(1); l.set(-7); step("error string of %d, %s",code,f?"Fortran":"C");
#ifndef NO_FORTRAN
  if(f){ FI e; Cell<int> c(1); c.set(code); mpi_error_string_(c.p(),b.p(),l.p(),e.p(),MPI_MAX_ERROR_STRING); }
  else
#endif
  check_ret(MPI_Error_string(code,b.p(),l.p()),"MPI_Error_string");
  int len=l.get(); EV("error strings"); if(len<=0||len>=MPI_MAX_ERROR_STRING) viol("errstr-length","error string length is %d",len);
  for(int i=0;i<len;i++) if(!b.get(i)) viol("errstr-length","error string of reported length %d ends at %d",len,i);
  { char d[16],t[MPI_MAX_ERROR_STRING+1]; memcpy(t,b.p(),len); t[len]=0; snprintf(d,sizeof d,"%d",code); if(!strstr(t,d)) viol("errstr-code","the error string of %d does not name it: %s",code,t); }
  if(b.get(len)&&!(f&&b.get(len)==' ')) viol("errstr-terminator","error string of length %d is not terminated there",len);
#ifndef NO_FORTRAN
  if(f){ Cell<char> b2(MPI_MAX_ERROR_STRING); Cell<int> l2(1); check_ret(MPI_Error_string(code,b2.p(),l2.p()),"MPI_Error_string"); if(l2.get()!=len||memcmp(b.p(),b2.p(),len)) viol("errstr-differs","the error string of %d is '%.*s' in Fortran, '%.*s' in C",code,len,b.p(),l2.get(),b2.p()); }
#endif
}
void lib_version(Rng&r){
  bool nul=r.chance(200); char was=nul?0:r.chance(500)?(char)0xA5:(char)r.range(33,126); step("library version");
  Cell<char> b(MPI_MAX_LIBRARY_VERSION_STRING); memset(b.p(),was,MPI_MAX_LIBRARY_VERSION_STRING); Cell<int> l(1); l.set(-7); check_ret(MPI_Get_library_version(b.p(),l.p()),"MPI_Get_library_version");
  int len=l.get(); EV("library versions"); if(len<=0||len>=MPI_MAX_LIBRARY_VERSION_STRING) viol("libver","library version length is %d",len); if((int)strnlen(b.p(),MPI_MAX_LIBRARY_VERSION_STRING)!=len) viol("libver","library version has %zu characters, reported %d",strnlen(b.p(),MPI_MAX_LIBRARY_VERSION_STRING),len);
  { int k=0; while(k<len&&b.get(k)==was) k++; if(k==len) viol("libver","the library version is what the buffer held before, %d times '%c'",len,was); }
  { Cell<char> b2(MPI_MAX_LIBRARY_VERSION_STRING); Cell<int> l2(1); check_ret(MPI_Get_library_version(b2.p(),l2.p()),"MPI_Get_library_version"); if(l2.get()!=len||memcmp(b2.p(),b.p(),len)) viol("libver","the library version '%.*s' becomes '%.*s' when asked again",len,b.p(),l2.get(),b2.p()); }
#ifndef NO_FORTRAN
  if(g_lang!=LANG_C){ int mv,mn,me,v,s; vf_version_(&v,&s,&mv,&mn,&me); Cell<char> c(mv); Cell<int> k(1); { FI e; mpi_get_library_version_(c.p(),k.p(),e.p(),mv); }
    if(k.get()!=len||memcmp(c.p(),b.p(),len)) viol("libver","the Fortran library version '%.*s' differs from '%s'",k.get(),c.p(),b.p());
    for(int i=len;i<mv;i++) if(c.get(i)!=' ') viol("libver-pad","character %d of the Fortran library version is %d, not a blank",i,c.get(i)); }
#endif
  Cell<int> v1(1),s1(1); check_ret(MPI_Get_Version(v1.p(),s1.p()),"MPI_Get_Version");
#ifndef NO_FORTRAN
  if(g_lang!=LANG_C){ int mv,mn,me,v,s; vf_version_(&v,&s,&mv,&mn,&me); Cell<int> v2(1),s2(1); { FI e; mpi_get_version_(v2.p(),s2.p(),e.p()); }
    if(v2.get()!=v||s2.get()!=s) viol("version","MPI_GET_VERSION says %d.%d, the constants %d.%d",v2.get(),s2.get(),v,s);
    if(v1.get()!=v||s1.get()!=s) viol("version","MPI_Get_Version says %d.%d, the constants %d.%d",v1.get(),s1.get(),v,s);
    if(mn!=MPI_MAX_PROCESSOR_NAME||me!=MPI_MAX_ERROR_STRING||mv!=MPI_MAX_LIBRARY_VERSION_STRING) viol("version","maximum lengths differ between mpi.h and mpif.h"); }
#endif
  EV("version queries");
}
double wt(Rng&r){
  EV("clock readings");
#ifndef NO_FORTRAN
  if(F(r)) return mpi_wtime_();
#endif
  return MPI_Wtime(); }
void clock_(Rng&r){
  double a,b;
#ifdef INTERPOSE
  clk_on=true; clk_calls=0; i64 base=r.chance(300)?(i64)r.range(1,3)*2147483647ll*1000000000ll+(i64)r.below(1000000000):(i64)r.range(1000000000ll,2000000000ll)*1000000000ll+(i64)r.below(1000000000);
  clk_ns=base/1000*1000; wt(r); bool used=clk_calls>0; int steps=(int)r.range(2,20);
  for(int i=0;used&&i<steps;i++){
    if(r.chance(250)){ i64 s=clk_ns/1000000000; clk_ns=s*1000000000+999999000; }      // just before a second
    a=wt(r); i64 d=r.chance(300)?1000:r.chance(300)?(i64)r.below(3000000)*1000:r.chance(300)?(i64)r.below(100)*1000000000ll:(i64)r.below(90000)*1000000000ll+(i64)r.below(1000000)*1000; i64 was=clk_ns; clk_ns+=d; b=wt(r);
    step("clock from %ld.%09ld by %ld ns",(long)(was/1000000000),(long)(was%1000000000),(long)d);
    if(!isfinite(a)||!isfinite(b)) viol("wtime","the clock reads %g, %g",a,b);
    double e=(double)d*1e-9; if(fabs((b-a)-e)>4e-6+e*1e-9) viol("wtime","time advanced by %.6f s, the clock by %.6f s (from %ld.%09ld)",e,b-a,(long)(was/1000000000),(long)(was%1000000000));
    double b2=wt(r); if(b2<b) viol("wtime","the clock went backwards"); EV("clock advances checked"); }
  clk_on=false;
  if(!used)
#endif
  { a=wt(r); usleep(20000); b=wt(r); double c=wt(r); if(!(b-a>0.018)||b-a>60||c<b) viol("wtime","the clock advanced by %.6f s over a sleep of 0.02 s",b-a); EV("clock advances checked"); }
}
void stubs(Rng&r){ // accepted without effect
  bool f=F(r); Cell<int> i(1); i.set(r.chance(500)?-77:(int)r.next()|0x100); int pre=i.get(); step("info and error handler calls");
#ifndef NO_FORTRAN
  if(f){ char k[8]="key",v[8]="value"; { FI e; mpi_info_create_(i.p(),e.p()); } if(i.get()==pre) viol("info","info_create left the handle as it was, %d",pre); { FI e; mpi_info_set_(i.p(),k,v,e.p(),3,5); } int was=i.get(); { FI e; mpi_info_free_(i.p(),e.p()); } if(i.get()!=MPI_INFO_NULL) viol("info","info_free turned handle %d into %d, not the null info",was,i.get()); if(strcmp(k,"key")||strcmp(v,"value")) viol("info","info_set altered its arguments"); EV("info calls"); return; }
#endif
  char k[8]="key",v[8]="value"; check_ret(MPI_Info_create((MPI_Info*)i.p()),"MPI_Info_create"); if(i.get()==pre) viol("info","MPI_Info_create left the handle as it was, %d",pre); check_ret(MPI_Info_set(i.get(),k,v),"MPI_Info_set"); if(strcmp(k,"key")||strcmp(v,"value")) viol("info","MPI_Info_set altered its arguments");
  int was=i.get(); check_ret(MPI_Info_free((MPI_Info*)i.p()),"MPI_Info_free"); if(i.get()!=MPI_INFO_NULL) viol("info","MPI_Info_free turned handle %d into %d, not the null info",was,i.get()); check_ret(MPI_Errhandler_set(MPI_COMM_WORLD,MPI_ERRORS_RETURN),"MPI_Errhandler_set"); EV("info calls"); }
void env_child(u64 seed){
  Rng r(seed); int lang=g_lang; auto early=[&](const char*when,bool want){ int n=(int)r.below(3)+1; for(int i=0;i<n;i++) expect_initialized(r,want,when); };
  step("queries before initialisation"); early("before initialisation",false);
  if(r.chance(300)) lib_version(r); if(r.chance(100)) clock_(r);
  int how=(int)r.below(2); step(how?"Init_thread":"Init");
  if(how){ int req=r.chance(900)?(int)r.range(MPI_THREAD_SINGLE,MPI_THREAD_MULTIPLE):(int)r.range(0,3); Cell<int> q(1),pr(1); q.set(req); pr.set(-9);
#ifndef NO_FORTRAN
    if(F(r)){ FI e; mpi_init_thread_(q.p(),pr.p(),e.p()); } else
#endif
    { int ac=2; char a0[]="prog",a1[]="arg"; char*av[]={a0,a1,0}; char**pv=av; bool null=r.chance(300); check_ret(MPI_Init_thread(null?0:&ac,null?0:&pv,req,pr.p()),"MPI_Init_thread"); if(ac!=2||pv!=av||strcmp(a0,"prog")||strcmp(a1,"arg")) viol("init-args","MPI_Init_thread altered the arguments"); }
    int p=pr.get(); if(p<MPI_THREAD_SINGLE||p>MPI_THREAD_MULTIPLE) viol("thread-level","MPI_Init_thread(%d) reports level %d",req,p);
    if(p<(req<MPI_THREAD_SERIALIZED?req:MPI_THREAD_SERIALIZED)) viol("thread-level","MPI_Init_thread(%d) reports only level %d",req,p); EV("thread levels checked"); }
  else {
#ifndef NO_FORTRAN
    if(F(r)){ FI e; mpi_init_(e.p()); } else
#endif
    { int ac=1; char a0[]="prog"; char*av[]={a0,0}; char**pv=av; bool null=r.chance(300); check_ret(MPI_Init(null?0:&ac,null?0:&pv),"MPI_Init"); if(ac!=1||pv!=av) viol("init-args","MPI_Init altered the arguments"); } }
  early("after initialisation",true);
  fortran_side_init();
  int n=(int)r.range(3,10);
  for(int i=0;i<n;i++){ g_lang=lang; switch(r.below(8)){ case 0: case 1: proc_name(r); break; case 2: err_string(r); break; case 3: lib_version(r); break; case 4: case 5: clock_(r); break; case 6: stubs(r); break; default: p2p_run_one("mixed",r.next()); } early("in between",true); }
  step("finalize");
  if(r.chance(250)){ // abort
    int code=r.chance(300)?(int)r.below(256):rc(r); { int k=code&0xff; if(k==76||k==77||k==78||(k>=97&&k<=99)) code=3; } bool f=F(r); sh->hash=hcomb(seed,0xAB0); snprintf(sh->key,sizeof sh->key,"%d",code);
    int comm=MPI_COMM_WORLD; if(r.chance(300)) api::comm_dup(MPI_COMM_WORLD,&comm);
    about_to(true,false,true,"abort with code %d (%s)",code,f?"Fortran":"C"); EV("aborts");
#ifndef NO_FORTRAN
    if(f){ int c=comm,k=code,e; mpi_abort_(&c,&k,&e); } else
#endif
    MPI_Abort(comm,code);
    survived(); return; }
#ifndef NO_FORTRAN
  if(F(r)){ FI e; mpi_finalize_(e.p()); } else
#endif
  check_ret(MPI_Finalize(),"MPI_Finalize");
  early("after finalisation",false);
  about_to(false,false,false,"program end"); survived(); sh->hash=hcomb(seed,n);
}
#ifdef INTERPOSE
// the operating system's clock stops answering
void clock_fails(u64 seed){ Rng r(seed); api::init(); clk_on=true; clk_ns=(i64)r.range(1000000000ll,1600000000ll)*1000000000ll; step("clock reading"); clk_calls=0; double a=wt(r); if(!clk_calls){ about_to(false,false,false,"no clock to fail"); survived(); return; }
  int n=(int)r.below(3); for(int i=0;i<n;i++) wt(r); clk_ns+=(i64)r.range(100,100000)*1000000000ll; struct timespec t; syscall(SYS_clock_gettime,CLOCK_REALTIME,&t);
  sh->hash=hcomb(0xC10C,(u64)clk_ns%977); about_to(true,false,true,"clock reading when the operating system's clocks fail (before: %.1f)",a); clk_fail=true; double v=wt(r); clk_fail=false;
  if(fabs(v-(double)clk_ns*1e-9)<5||fabs(v-(double)t.tv_sec)<5){ sh->expect_die=0; survived(); return; }   // found another way to tell the time
  viol("wtime-failed","the clock could not be read and MPI_Wtime returned %g",v); }
#endif
}
// one of the services outside message passing, for use by any thread
void env_services(u64 seed,bool init){ Rng r(seed); const char*when=init?"while initialised":"after finalisation"; expect_initialized(r,init,when); if(!init) return;
  switch(r.below(6)){ case 0: proc_name(r); break; case 1: err_string(r); break; case 2: lib_version(r); break; case 3: clock_(r); break; case 4: stubs(r); break; default: break; } expect_initialized(r,init,when); }
void eng_env(){
  for(u64 i=g_opt.from;i<g_opt.to;i++){ mark_case(i); u64 s=mix64(g_opt.seed*0x1000193+i)^0xE417;
#ifdef INTERPOSE
    if(i%16==9){ ChildEnd f=run_child(clock_fails,s); judge_child(f); EV("failing clocks"); continue; }
#endif
    ChildEnd e=run_child(env_child,s);
    if(sh->key[0]&&sh->phase==1&&WIFEXITED(e.status)){ int code=atoi(sh->key); // an abort that ended the process
      snprintf(g_what,sizeof g_what,"%s",sh->what);
      if(WEXITSTATUS(e.status)!=(code&0xff)) viol("abort-code","abort with code %d ended the process with status %d",code,WEXITSTATUS(e.status)); if(e.err.size()<2) viol("abort-diagnostic","abort wrote nothing to standard error"); { char d[16]; snprintf(d,sizeof d,"%d",code); e.err.push_back(0); if(!strstr(e.err.data(),d)) viol("abort-diagnostic","the diagnostic of an abort with code %d does not give the code: %.100s",code,e.err.data()); } note_distinct(sh->hash); EV("aborts judged"); }
    else judge_child(e);
    sample("case seed %llx: %s",(unsigned long long)s,sh->what); }
}
