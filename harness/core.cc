#include "core.h"
#include <sys/mman.h>

int g_out=-1; u64 g_case=0,g_seed=1; char g_what[512];
Opts g_opt;
EvTab*ev_tab;
int g_child=0; Shared*sh; unsigned char*sh_arena,*sh_copy;
static char*g_mark; static int n_samples; static std::vector<u64> g_dist; static long n_cases;

static void*shmap(size_t n){ void*p=mmap(0,n,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); if(p==MAP_FAILED) _exit(98); return p; }
int ev_id(const char*name){
  if(!ev_tab) ev_tab=(EvTab*)shmap(sizeof(EvTab));
  for(int i=0;i<ev_tab->n;i++) if(!strcmp(ev_tab->name[i],name)) return i;
  if(ev_tab->n>=512){ fprintf(stderr,"too many events\n"); _exit(99); }
  snprintf(ev_tab->name[ev_tab->n],56,"%s",name); return ev_tab->n++;
}
static void wr(const char*b,size_t n){ while(n){ ssize_t k=write(g_out,b,n); if(k<=0) _exit(98); b+=k; n-=k; } }
void out_line(const char*fmt,...){
  static char b[8192]; va_list ap; va_start(ap,fmt); int n=vsnprintf(b,sizeof b-2,fmt,ap); va_end(ap);
  if(n>(int)sizeof b-2) n=sizeof b-2;
  for(int i=0;i<n;i++) if(b[i]=='\n') b[i]=' ';
  b[n]='\n'; wr(b,n+1);
}
void mark_open(const char*path){
  int fd=open(path,O_RDWR|O_CREAT|O_TRUNC,0644); if(fd<0||ftruncate(fd,4096)) _exit(98);
  g_mark=(char*)mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); close(fd);
  if(g_mark==(char*)MAP_FAILED) _exit(98);
}
void mark_case(u64 idx){ g_case=idx; n_cases++; g_what[0]=0; if(g_mark){ snprintf(g_mark,64,"%llu",(unsigned long long)idx); g_mark[64]=0; } }
void step(const char*fmt,...){
  va_list ap; va_start(ap,fmt); vsnprintf(g_what,sizeof g_what,fmt,ap); va_end(ap);
  if(g_mark) memcpy(g_mark+64,g_what,sizeof g_what);
  if(g_opt.verbose) out_line("TRACE\t%llu\t%s",(unsigned long long)g_case,g_what);
}
void viol(const char*key,const char*fmt,...){
  char b[2048]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap);
  for(char*c=b;*c;c++) if(*c=='\t'||*c=='\n') *c=' ';
  out_line("VIOL\t%s\t%llu\t%s [step: %s]",key,(unsigned long long)g_case,b,g_what);
  if(!g_child) finish_stats();
  _exit(77);
}
void inconclusive(const char*fmt,...){
  char b[1024]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap);
  out_line("INCONCLUSIVE\t%llu\t%s",(unsigned long long)g_case,b);
  if(!g_child) finish_stats();
  _exit(78);
}
void sample(const char*fmt,...){
  if(n_samples>=3||g_child) return; n_samples++;
  char b[1500]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap);
  out_line("SAMPLE\t%s",b);
}
void note_distinct(u64 h){ if(g_child){ out_line("DIST\t%016llx",(unsigned long long)h); return; } g_dist.push_back(h); }
void finish_stats(){
  out_line("CASES\t%ld",n_cases);
  if(ev_tab) for(int i=0;i<ev_tab->n;i++) out_line("EV\t%s\t%ld",ev_tab->name[i],ev_tab->count[i]);
  std::sort(g_dist.begin(),g_dist.end()); g_dist.erase(std::unique(g_dist.begin(),g_dist.end()),g_dist.end());
  char b[4096]; int n=0;
  for(size_t i=0;i<g_dist.size();i++){
    n+=snprintf(b+n,sizeof b-n,"%s%016llx",n?" ":"",(unsigned long long)g_dist[i]);
    if(n>3900||i+1==g_dist.size()){ out_line("DIST\t%s",b); n=0; }
  }
}

#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
#include <time.h>
static void shared_init(){ if(sh) return; sh=(Shared*)shmap(sizeof(Shared)); sh_arena=(unsigned char*)shmap(SH_SIZE); sh_copy=(unsigned char*)shmap(SH_SIZE); }
void*arena(size_t n,Rng&r){ size_t a=(sh->used+15)/16*16; if(a+n+64>SH_SIZE){ fprintf(stderr,"arena full\n"); _exit(99); } r.fill(sh_arena+a,n+32); sh->used=a+n+32; return sh_arena+a; }
static void slurp(int fd,std::vector<char>&v){ off_t n=lseek(fd,0,SEEK_END); if(n>65536) n=65536; v.assign(n+1,0); if(n&&pread(fd,v.data(),n,0)!=n) _exit(98); close(fd); }
const char*first_line(const ChildEnd&e){ static char b[300]; const std::vector<char>&v=e.err.size()>1?e.err:e.out; snprintf(b,sizeof b,"%s",v.data()); for(char*c=b;*c;c++) if(*c=='\n') *c=' '; return b; }
static bool contains(const std::vector<char>&v,const char*s){ return strstr(v.data(),s)!=0; }
ChildEnd run_child(child_fn f,u64 seed,int cpu_s,int wall_s){
  shared_init(); memset((void*)sh,0,sizeof *sh); if(!ev_tab) ev_id("child processes"); EV("child processes");
  memset(sh_arena,0x11,4096);
  int fo=memfd_create("out",0),fe=memfd_create("err",0); if(fo<0||fe<0) _exit(98);
  fflush(0); pid_t p=fork(); if(p<0) _exit(98);
  if(!p){ g_child=1; dup2(fo,1); dup2(fe,2); rlimit l={(rlim_t)cpu_s,(rlim_t)cpu_s+2}; setrlimit(RLIMIT_CPU,&l); rlimit nc={0,0}; setrlimit(RLIMIT_CORE,&nc); f(seed); exit(0); }
  ChildEnd e; e.timeout=false; timespec t0,t; clock_gettime(CLOCK_MONOTONIC,&t0); useconds_t nap=50;
  for(;;){ int k=waitpid(p,&e.status,WNOHANG); if(k==p) break; if(k<0) _exit(98); clock_gettime(CLOCK_MONOTONIC,&t);
    if(t.tv_sec-t0.tv_sec>wall_s){ e.timeout=true; kill(p,SIGKILL); waitpid(p,&e.status,0); break; }
    usleep(nap); if(nap<2000) nap+=nap/4; }
  if(WIFSIGNALED(e.status)&&(WTERMSIG(e.status)==SIGXCPU)) e.timeout=true;
  slurp(fo,e.out); slurp(fe,e.err);
  if(WIFEXITED(e.status)){ int c=WEXITSTATUS(e.status); if(c==77||c==78){ finish_stats(); _exit(c); } if(c>=97&&c<=99){ (void)!write(2,e.err.data(),e.err.size()-1); _exit(c); } }
  return e;
}
void about_to(bool die,bool check_data,bool need_stderr,const char*fmt,...){
  va_list ap; va_start(ap,fmt); vsnprintf(sh->what,sizeof sh->what,fmt,ap); va_end(ap); step("%s",sh->what);
  sh->expect_die=die; sh->check_data=check_data; sh->need_stderr=need_stderr; memcpy(sh_copy,sh_arena,sh->used); sh->phase=1; }
void survived(){ sh->phase=2; }
void judge_child(const ChildEnd&e){
  int sig=WIFSIGNALED(e.status)?WTERMSIG(e.status):0, code=WIFEXITED(e.status)?WEXITSTATUS(e.status):-1;
  snprintf(g_what,sizeof g_what,"%s",sh->what);
  if(contains(e.err,"Sanitizer")||contains(e.err,"runtime error:")) viol("sanitizer","%s: %s",sh->what,first_line(e));
  if(e.timeout) viol("hang","%s: does not return%s",sh->what,sh->phase==1?"":" (outside the judged call)");
  if(sig==SIGSEGV||sig==SIGBUS||sig==SIGFPE||sig==SIGILL) viol("crash","%s: the process crashed with signal %d (phase %d)",sh->what,sig,sh->phase);
  if(sh->phase==0) viol("stopped","valid calls ended the process before the judged one (signal %d, exit %d): %s [step %s]",sig,code,first_line(e),sh->what);
  if(sh->expect_die){
    if(sh->phase==2) viol("not-stopped","%s: the call returned",sh->what);
    if(!sig&&code==0) viol("exit-zero","%s: the process ended with exit status 0",sh->what);
    if((sh->need_stderr?e.err.size():e.err.size()+e.out.size()-1)<2) viol("no-diagnostic","%s: the process ended without a diagnostic%s",sh->what,sh->need_stderr?" on standard error":"");
    if(sh->check_data&&memcmp(sh_arena,sh_copy,sh->used)){ size_t i=0; while(sh_arena[i]==sh_copy[i]) i++; viol("data-altered","%s: user data was altered before the process was stopped (arena offset %zu)",sh->what,i); }
    EV("calls that stopped the process");
  } else {
    if(sh->phase!=2||sig||code) viol("stopped","%s: the process was ended (signal %d, exit %d): %s",sh->what,sig,code,first_line(e));
    if(e.err.size()+e.out.size()>2) viol("noise","%s: wrote %s",sh->what,first_line(e));
    EV("calls that returned");
  }
  if(sh->hash) note_distinct(sh->hash);
}
