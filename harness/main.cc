#include "api.h"
void mark_open(const char*);
void threads_on(int);
#define ENGINES X(p2p) X(coll) X(pack) X(types) X(alg) X(handles) X(env) X(die) X(big) X(conserve) X(oom) X(thread)
#define X(n) void eng_##n();
ENGINES
#undef X
int main(int argc,char**argv){
  memset(&g_opt,0,sizeof g_opt); g_opt.profile="mixed"; g_opt.arg=""; g_opt.to=10; const char*out="/dev/stdout",*mark=0;
  if(argc<2) return 97; g_opt.engine=argv[1];
  for(int i=2;i<argc;i++){ const char*a=argv[i]; if(!strcmp(a,"-v")){ g_opt.verbose=1; continue; } if(i+1>=argc) return 97; const char*v=argv[++i];
    if(!strcmp(a,"--seed")) g_opt.seed=strtoull(v,0,0); else if(!strcmp(a,"--from")) g_opt.from=strtoull(v,0,0); else if(!strcmp(a,"--to")) g_opt.to=strtoull(v,0,0);
    else if(!strcmp(a,"--lang")) g_opt.lang=v[0]=='f'?LANG_F:v[0]=='m'?LANG_MIX:LANG_C; else if(!strcmp(a,"--profile")) g_opt.profile=v; else if(!strcmp(a,"--arg")) g_opt.arg=v;
    else if(!strcmp(a,"--out")) out=v; else if(!strcmp(a,"--mark")) mark=v; else return 97; }
  g_out=open(out,O_WRONLY|O_CREAT|O_APPEND|O_CLOEXEC,0644); if(g_out<0) return 98; if(mark) mark_open(mark);
  g_seed=g_opt.seed; g_lang=g_opt.lang; if(const char*t=getenv("MON_THREADS")) threads_on(atoi(t));
#define X(n) if(!strcmp(g_opt.engine,#n)){ eng_##n(); finish_stats(); out_line("END"); return 0; }
  ENGINES
#undef X
  fprintf(stderr,"unknown engine %s\n",g_opt.engine); return 97;
}
