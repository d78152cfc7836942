// Group/communicator algebra (profile alg), topology and intercommunicators (profile topo).
#include "types.h"
namespace {
struct G { int h; int set; };                    // set: 0 empty, 1 the process
struct C { int h; int parent; bool cart=false; std::vector<int> per; };
struct S { Rng r; std::vector<G> g; std::vector<C> c; u64 hist=0; S(u64 s):r(s){} };
S*Z;
void check_group(int h,int set,const char*how){
  if(h==MPI_GROUP_NULL) viol("group","%s gives the null group",how);
  if(set==0){ if(h!=MPI_GROUP_EMPTY) viol("group","%s gives %d, expected the empty group",how,h); }
  else if(h==MPI_GROUP_EMPTY) viol("group","%s gives the empty group, expected the process",how);
  EV("group results checked");
}
int world_group(){ int g; api::comm_group(MPI_COMM_WORLD,&g); return g; }
void self_traffic(int comm,const char*how){ // the communicator works and is isolated from the world
  i64 v=(i64)Z->r.next(),w=0; int a,b,flag=1; int tag=(int)Z->r.below(1000);
  api::isend(&v,8,MPI_BYTE,0,tag,comm,&a);
  for(auto&o:Z->c) if(o.h!=comm&&Z->r.chance(400)){ api::iprobe(MPI_ANY_SOURCE,MPI_ANY_TAG,o.h,&flag,MPI_STATUS_IGNORE); if(flag) viol("comm-isolation","%s: a message sent on communicator %d is visible on %d",how,comm,o.h); EV("isolation probes"); }
  api::iprobe(MPI_ANY_SOURCE,MPI_ANY_TAG,comm,&flag,MPI_STATUS_IGNORE); if(!flag) viol("comm-works","%s: a message sent on communicator %d is not visible on it",how,comm);
  api::irecv(&w,8,MPI_BYTE,0,MPI_ANY_TAG,comm,&b); api::wait(&b,MPI_STATUS_IGNORE); api::wait(&a,MPI_STATUS_IGNORE);
  if(v!=w) viol("comm-works","%s: wrong data through communicator %d",how,comm); EV("communicators exercised");
}
void add_comm(int h,const char*how,bool cart=false,std::vector<int> per={}){
  if(h==MPI_COMM_NULL) viol("comm-null","%s gives the null communicator",how);
  for(auto&o:Z->c) if(o.h==h) viol("comm-dup","%s gives %d, which is already in use",how,h);
  int sz=api::comm_size(h),rk=api::comm_rank(h); if(sz!=1||rk!=0) viol("comm-size","%s: size %d rank %d",how,sz,rk);
  int g; api::comm_group(h,&g); check_group(g,1,"group of a communicator"); api::group_free(&g); if(g!=MPI_GROUP_NULL) viol("group-free","freed group variable is %d",g);
  C c; c.h=h; c.cart=cart; c.per=per; Z->c.push_back(c); EV("communicators created"); self_traffic(h,how);
#ifndef ONLY_FORTRAN
  if(MPI_Comm_f2c(MPI_Comm_c2f(h))!=h) viol("f2c","communicator %d does not survive conversion",h);
#endif
}
void check_topo(C&c){
  int nd=(int)c.per.size(); int maxd=Z->r.chance(600)?nd:Z->r.chance(300)?nd+(int)Z->r.range(1,Z->r.chance(100)?300:20):(int)Z->r.below(nd+1); std::vector<int> d(maxd+1,-999),p(maxd+1,-999),x(maxd+1,-999);
  step("cart_get of %d dims, max %d",nd,maxd);
  api::cart_get(c.h,maxd,d.data(),p.data(),x.data());
  if(maxd>nd) EV("queries of more dimensions than there are");
  for(int i=0;i<maxd&&i<nd;i++){ if(d[i]!=1) viol("cart","dimension %d is %d",i,d[i]); if(x[i]!=0) viol("cart","coordinate %d is %d",i,x[i]); if((p[i]!=0)!=(c.per[i]!=0)) viol("cart-periods","period %d is %d, created with %d",i,p[i],c.per[i]); if(g_lang==LANG_F&&p[i]!=0&&p[i]!=1) viol("logical","period %d, a LOGICAL, is set to %d",i,p[i]); }
  if(d[maxd]!=-999||p[maxd]!=-999||x[maxd]!=-999) viol("cart","more than the requested entries were written");
  std::vector<int> y(maxd+1,-999); api::cart_coords(c.h,0,maxd,y.data()); for(int i=0;i<maxd&&i<nd;i++) if(y[i]!=0) viol("cart","coordinate %d of rank 0 is %d",i,y[i]); if(y[maxd]!=-999) viol("cart","more than the requested coordinates were written");
  EV("topologies queried");
}
void act(bool topo){
  Rng&r=Z->r; int k=topo?(int)r.range(20,27):(int)r.below(20); Z->hist=hcomb(Z->hist,k); int h=0x7abcdef1;
  G&a=Z->g[r.below(Z->g.size())],&b=Z->g[r.below(Z->g.size())]; C&c=Z->c[r.below(Z->c.size())];
  auto newg=[&](int v,int set,const char*how){ check_group(v,set,how); Z->g.push_back(G{v,set}); };
  switch(k){
   case 0: case 1: step("comm_group(%d)",c.h); api::comm_group(c.h,&h); newg(h,1,"group of a communicator"); break;
   case 2: step("comm_group(null)"); api::comm_group(MPI_COMM_NULL,&h); if(h!=MPI_GROUP_NULL) viol("group","group of the null communicator is %d",h); break;
   case 3: step("incl none of set %d",a.set); { int z=0; api::group_incl(a.h,0,&z,&h); newg(h,0,"including no rank"); } break;
   case 4: if(a.set){ int z=0; step("incl rank 0"); api::group_incl(a.h,1,&z,&h); newg(h,1,"including rank 0"); } break;
   case 5: { int z[1][3]={{0,0,1}}; step("range_incl none"); api::group_range_incl(a.h,0,z,&h); newg(h,0,"including no range"); } break;
   case 6: if(a.set){ int z[1][3]={{0,0,(int)(r.chance(500)?r.range(1,5):r.range(-5,-1))}}; step("range_incl 0:0:%d",z[0][2]); api::group_range_incl(a.h,1,z,&h); newg(h,1,"including range 0:0"); } break;
   case 7: case 8: step("union %d %d",a.set,b.set); api::group_union(a.h,b.h,&h); newg(h,a.set|b.set,"union"); break;
   case 9: case 10: step("intersection %d %d",a.set,b.set); api::group_intersection(a.h,b.h,&h); newg(h,a.set&b.set,"intersection"); break;
   case 11: case 12: step("difference %d %d",a.set,b.set); api::group_difference(a.h,b.h,&h); newg(h,a.set&!b.set,"difference"); break;
   case 13: { int n=a.set?(int)(r.chance(150)?r.chance(300)?r.magic(r.chance(100)?70000:600):r.range(6,400):r.range(0,5)):0; if(n>255) EV("long rank lists translated"); std::vector<int> z(n+1,0),o(n+1,-777); step("translate %d ranks of set %d to set %d",n,a.set,b.set); api::group_translate(a.h,n,z.data(),b.h,o.data());
     for(int i=0;i<n;i++) if(o[i]!=(b.set?0:MPI_UNDEFINED)) viol("group-translate","rank 0 translates to %d in a group of %d processes",o[i],b.set); if(o[n]!=-777) viol("group-translate","more than %d entries were written",n); EV("translations checked"); break; }
   case 14: if(Z->g.size()>3){ size_t i=r.below(Z->g.size()); int v=Z->g[i].h; step("group_free %d",v); api::group_free(&v); if(v!=MPI_GROUP_NULL) viol("group-free","freed group variable is %d",v); Z->g.erase(Z->g.begin()+i); EV("groups freed"); } break;
   case 15: step("comm_create from set %d",a.set); api::comm_create(c.h,a.h,&h); if(a.set) add_comm(h,"comm_create"); else if(h!=MPI_COMM_NULL) viol("comm-null","communicator of an empty group is %d",h); break;
   case 16: { bool und=r.chance(400); int col=und?MPI_UNDEFINED:(r.chance(300)?(int)r.below(1<<30):(int)r.below(4)); static const int KX[]={INT32_MIN,INT32_MAX,-1,0,INT32_MIN+1,65536,-65536}; int key=r.chance(200)?KX[r.below(7)]:(int)r.range(-1000,1000); if(!und&&r.chance(100)) col=INT32_MAX-(int)r.below(3); step("split color %d key %d",col,key); api::comm_split(c.h,col,key,&h); if(!und) add_comm(h,"split"); else if(h!=MPI_COMM_NULL) viol("comm-null","split with the undefined colour gives %d",h); break; }
   case 17: step("dup %d",c.h); { bool ca=c.cart; auto per=c.per; api::comm_dup(c.h,&h); add_comm(h,"dup",ca,per); } break;
   case 18: case 26: { std::vector<int> v; for(size_t i=1;i<Z->c.size();i++) v.push_back((int)i); if(v.empty()) break; int i=v[r.below(v.size())]; int x=Z->c[i].h; step("comm_free %d",x); api::comm_free(&x); if(x!=MPI_COMM_NULL) viol("comm-free","freed communicator variable is %d",x); Z->c.erase(Z->c.begin()+i); EV("communicators freed"); break; }
   case 19: step("use communicator %d",c.h); self_traffic(c.h,"later use");
#ifndef ONLY_FORTRAN
     { static const int ops[]={MPI_OP_NULL,MPI_MAX,MPI_MIN,MPI_SUM,MPI_PROD,MPI_LAND,MPI_BAND,MPI_LOR,MPI_BOR,MPI_LXOR,MPI_BXOR,MPI_MINLOC,MPI_MAXLOC}; MPI_Op o=ops[r.below(13)]; if(MPI_Op_f2c(MPI_Op_c2f(o))!=o) viol("f2c","operation %d does not survive conversion",(int)o); }
     if(MPI_Group_f2c(MPI_Group_c2f(a.h))!=a.h) viol("f2c","group %d does not survive conversion",a.h);
#endif
     break;
   case 20: case 21: { int nd=(int)r.below(r.chance(100)?r.chance(300)?400:40:7); if(r.chance(30)) nd=(int)r.magic(r.chance(60)?66000:600); if(nd>255) EV("grids of more than 255 dimensions"); std::vector<int> d(nd+1,1),p(nd+1); for(auto&x:p) x=(int)r.below(2); step("cart_create %d dims",nd); api::cart_create(c.h,nd,d.data(),p.data(),(int)r.below(2),&h); p.resize(nd); add_comm(h,"cart_create",true,p); check_topo(Z->c.back()); EV("topologies created"); break; }
   case 22: case 23: { std::vector<int> v; for(size_t i=0;i<Z->c.size();i++) if(Z->c[i].cart) v.push_back((int)i); if(v.size()) check_topo(Z->c[v[r.below(v.size())]]); break; }
   case 24: { int nd=(int)r.below(r.chance(100)?r.chance(400)?400:70:9); if(r.chance(30)) nd=(int)r.magic(r.chance(60)?66000:600); std::vector<int> d(nd+1); for(auto&x:d) x=(int)r.below(2); d[nd]=-999; step("dims_create 1 node %d dims",nd); api::dims_create(1,nd,d.data()); for(int i=0;i<nd;i++) if(d[i]!=1) viol("dims","suggested dimension %d is %d",i,d[i]); if(d[nd]!=-999) viol("dims","more than %d dimensions were written",nd); EV("dimension suggestions checked"); break; }
   case 25: { bool nul=r.chance(250); step("intercomm_create %s",nul?"null":"of two communicators"); C&p=Z->c[r.below(Z->c.size())];
     if(nul){ api::intercomm_create(MPI_COMM_NULL,0,MPI_COMM_NULL,0,1,&h); if(h!=MPI_COMM_NULL) viol("intercomm","intercommunicator of null communicators is %d",h); EV("null intercommunicators"); }
     else { api::intercomm_create(c.h,0,p.h,0,(int)r.below(100),&h); add_comm(h,"intercomm_create"); int m=0x7abcdef1; api::intercomm_merge(h,(int)r.below(2),&m); add_comm(m,"intercomm_merge"); EV("intercommunicators merged"); } break; }
   default: { if(r.chance(300)){ step("merge null"); api::intercomm_merge(MPI_COMM_NULL,0,&h); if(h!=MPI_COMM_NULL) viol("intercomm","merge of the null communicator gives %d",h); } else { step("dup of %d",c.h); bool ca=c.cart; auto per=c.per; api::comm_dup(c.h,&h); add_comm(h,"dup",ca,per); } }
  }
}
}
void alg_case(u64 seed,bool topo){
  S s(seed); Z=&s; s.g.push_back(G{MPI_GROUP_EMPTY,0}); s.g.push_back(G{world_group(),1}); if(MPI_GROUP_EMPTY==MPI_GROUP_NULL) viol("group","empty and null group are the same value"); check_group(s.g[1].h,1,"group of the world");
  C w; w.h=MPI_COMM_WORLD; s.c.push_back(w); int n=(int)s.r.range(8,60);
  std::vector<int> crowd; if(s.r.chance(50)){ crowd.resize(s.r.range(250,300)); for(int&x:crowd) api::comm_dup(MPI_COMM_WORLD,&x); EV("cases with more than 255 live handles"); }
  for(int i=0;i<n;i++){ act(topo); if(s.c.size()>25){ int x=s.c.back().h; api::comm_free(&x); s.c.pop_back(); } if(topo&&s.r.chance(60)) act(false); }
  for(auto&c:s.c) self_traffic(c.h,"at the end");
  while(s.c.size()>1){ int x=s.c.back().h; api::comm_free(&x); s.c.pop_back(); }
  for(int&x:crowd) api::comm_free(&x);
  note_distinct(s.hist); sample("case seed %llx: %d actions, %zu groups alive at the end",(unsigned long long)seed,n,s.g.size());
}
void eng_alg(){ bool topo=!strcmp(g_opt.profile,"topo"); api::init(); for(u64 i=g_opt.from;i<g_opt.to;i++){ mark_case(i); alg_case(mix64(g_opt.seed*0x1000193+i)^0xA16,topo); } api::finalize(); }
