// Datatype engine. Profiles: geom (nested derived types), named (every named datatype),
// huge (very large type descriptions, run under a small stack).
#include "types.h"
namespace {
enum { M_ISEND_FIRST,M_IRECV_FIRST,M_SENDRECV,M_GATHER,M_SCATTER,M_ALLTOALL,M_PACK,M_N };
// moves ca x A from a buffer into cb x B through one of the transfer paths
void move(Rng&r,const MT&A,i64 ca,const MT&B,i64 cb,const char*what,i64 extra=32){
  LBuf s,d; s.make(A,ca,r,extra); d.make(B,cb,r,extra); if(r.chance(100)) check_address(r.chance(500)?s.m.p():d.m.p()); i64 nel=std::min(ca*(i64)A.map.size(),cb*(i64)B.map.size());
  std::vector<unsigned char> p; model_read(s,A,nel,p); model_write(d,B,nel,p.data()); int w=(int)r.below(M_N); int na=(int)ca,nb=(int)cb; MPI_Status st; memset(&st,0x5A,sizeof st); bool have=false;
  step("%s: move %d x %s to %d x %s by path %d",what,na,A.desc,nb,B.desc,w);
  switch(w){
   case M_ISEND_FIRST:{ int q; api::isend(s.user(),na,A.h,0,7,MPI_COMM_WORLD,&q); api::recv(d.user(),nb,B.h,0,7,MPI_COMM_WORLD,&st); have=true; api::wait(&q,MPI_STATUS_IGNORE); break; }
   case M_IRECV_FIRST:{ int q; api::irecv(d.user(),nb,B.h,0,7,MPI_COMM_WORLD,&q); api::send((int)r.below(3),s.user(),na,A.h,0,7,MPI_COMM_WORLD); api::wait(&q,&st); have=true; break; }
   case M_SENDRECV: api::sendrecv(s.user(),na,A.h,0,3,d.user(),nb,B.h,0,3,MPI_COMM_WORLD,&st); have=true; break;
   case M_GATHER: api::gather(s.user(),na,A.h,d.user(),nb,B.h,0,MPI_COMM_WORLD); break;
   case M_SCATTER: api::scatter(s.user(),na,A.h,d.user(),nb,B.h,0,MPI_COMM_WORLD); break;
   case M_ALLTOALL: api::alltoall(s.user(),na,A.h,d.user(),nb,B.h,MPI_COMM_WORLD); break;
   case M_PACK:{ i64 sz=api::pack_size(na,A.h,MPI_COMM_WORLD); GMem m; m.alloc(sz); int pos=0; api::pack(s.user(),na,A.h,m.p(),(int)sz,&pos,MPI_COMM_WORLD); m.check("type-data","pack buffer"); int up=0;
     // unpack with the same datatype, then compare through it
     LBuf e; e.make(A,ca,r,extra); model_write(e,A,nel,p.data()); api::unpack(m.p(),pos,&up,e.user(),na,A.h,MPI_COMM_WORLD); if(up!=pos) viol("unpack-position","packed %d bytes, unpacked %d",pos,up);
     if(!A.overlaps(ca)) e.check("type-data","unpacked data"); e.release(); m.release(); d.shadow.assign(d.m.p(),d.m.p()+d.m.n); break; } }
  s.check("type-send","data being sent"); d.check("type-data",what); EVN("bytes compared",s.m.n+d.m.n); EV("transfers");
  if(have&&cb*(i64)B.map.size()==nel&&B.units>0&&nel>0){ int c=-77; api::get_count(&st,B.h,&c); if(c!=nb) viol("type-count","received %d items, the count query says %d (%s)",nb,c,B.desc); EV("counts checked"); }
  s.release(); d.release();
}
// the unit's elements laid out back to back, as a named or derived type
MT flat_unit(TypeGen&g){
  if(g.unit.size()==1) return g.base();
  std::vector<MT> parts; for(int u:g.unit) parts.push_back(mt_named(g_basic[u]));
  std::vector<Block> bs; std::vector<int> bl,hs; std::vector<i64> ds; i64 pos=0;
  for(auto&p:parts){ bs.push_back(Block{1,pos,&p,0}); bl.push_back(1); hs.push_back(p.h); ds.push_back(pos); pos+=p.extent(); }
  bs.push_back(Block{1,pos,0,2}); bl.push_back(1); hs.push_back(MPI_UB); ds.push_back(pos);
  bool amb; MT t=mt_struct(bs,amb); api::type_struct((int)bl.size(),bl.data(),ds.data(),hs.data(),&t.h); t.units=1; snprintf(t.desc,sizeof t.desc,"flat%zu",parts.size()); mt_verify(t,amb,"flat unit"); return t; }
void geom_case(u64 seed){
  Rng r(seed); TypeGen g(r); g.wide=r.chance(200); g.max_el=g.wide&&r.chance(400)?1500:r.chance(100)?400:64; g.max_span=g.wide?1<<17:1<<14; g.verify=true; g.negative=r.chance(400); g.pick_unit(true,r.chance(400));
  MT t; int depth=(int)r.range(1,5); t=g.gen(depth); MT f=flat_unit(g); ensure_committed(f);
  // a duplicate behaves like the original, also after the original is gone
  if(!t.named&&r.chance(250)){ MT d=t; api::type_dup(t.h,&d.h); mt_verify(d,false,"dup"); if(r.chance(600)){ free_type_h(t); t=d; } else { ensure_committed(d); free_type_h(d); } EV("duplicates checked"); }
  ensure_committed(t); mt_verify(t,false,"after commit");
  u64 h=hcomb(t.map.size(),t.extent()); for(auto&e:t.map) h=hcomb(h,(u64)e.disp*64+e.cls);
  for(int k=0;k<3;k++){ i64 c=r.range(0,4); if(g.wide&&r.chance(100)&&t.extent()<4096) c=r.range(5,600); i64 fu=c*t.units; if(c*(i64)t.map.size()>6000||fu*g.unit.size()>6000) c=fu=0; EVMAX("elements in one transfer",fu);
    if(!t.overlaps(c)) move(r,f,fu,t,c,"scattering into the type");
    move(r,t,c,f,fu,"gathering from the type"); }
  mt_verify(t,false,"after use");
  if(t.map.size()>1) note_distinct(h);
  sample("case seed %llx: %s, %zu elements, lb %ld ub %ld%s%s",(unsigned long long)seed,t.desc,t.map.size(),(long)t.lb,(long)t.ub,t.olb?" explicit lb":"",t.oub?" explicit ub":"");
  free_type_h(t); free_type_h(f); g.collect();
}
void named_case(u64 idx,u64 seed){
  basics_init(); Rng r(seed); const Basic&b=g_basic[idx%g_basic.size()]; MT t=mt_named(b); t.units=1; char nm[80]; snprintf(nm,sizeof nm,"%s",b.name);
  step("named type %s",nm); mt_verify(t,false,nm);
  i64 c=r.chance(150)?r.range(10,3000):r.range(1,9); move(r,t,c,t,c,nm); move(r,t,c,t,c,nm);
  MT d; api::type_contiguous((int)c,b.h,&d.h); { std::vector<Block> bs; for(i64 i=0;i<c;i++) bs.push_back(Block{1,i*t.extent(),&t,0}); int h=d.h; bool amb; d=mt_struct(bs,amb); d.h=h; d.units=(int)c; snprintf(d.desc,sizeof d.desc,"contig(%s)",b.name); mt_verify(d,false,"contiguous of a named type"); }
  ensure_committed(d); move(r,t,c,d,1,nm); move(r,d,1,t,c,nm); free_type_h(d);
  int hd; MT dd=t; api::type_dup(b.h,&hd); dd.h=hd; dd.named=false; mt_verify(dd,false,"dup of a named type"); dd.committed=true; move(r,t,c,dd,c,nm); free_type_h(dd);
  { // a run of this type with one element of another before or after it: either may decide how the whole is padded
    MT w=mt_named(g_basic[r.below(g_basic.size())]); i64 n=r.chance(200)?r.magic(3000):r.range(1,120),lo=r.range(-20,20),wa=r.chance(600)?lo+n*t.extent()+r.range(0,9):lo-w.extent()-r.range(0,9); bool first=r.chance(300);
    std::vector<Block> bs; bs.push_back(Block{(int)n,lo,&t,0}); bs.push_back(Block{1,wa,&w,0}); if(first) std::swap(bs[0],bs[1]); int bl[2],hs[2],h; i64 ds[2]; for(int i=0;i<2;i++){ bl[i]=bs[i].bl; hs[i]=bs[i].t->h; ds[i]=bs[i].disp; }
    bool amb; MT x=mt_struct(bs,amb); api::type_struct(2,bl,ds,hs,&h); x.h=h; x.units=1; snprintf(x.desc,sizeof x.desc,"%d of %.40s and one %.40s",(int)n,nm,w.desc); mt_verify(x,amb,"two named types"); if(n>40) EV("one element among many of another type");
    if(r.chance(300)){ ensure_committed(x); move(r,x,2,x,2,"two named types"); }
    free_type_h(x); }
  // commit of a named type is harmless
  int hc=b.h; api::type_commit(&hc); if(hc!=b.h) viol("commit-handle","commit changed a named handle");
  note_distinct(hcomb(idx%g_basic.size(),c)); EV("named types exercised");
  sample("%s: size %ld extent %ld, %ld items moved 5 ways",b.name,(long)t.size(),(long)t.extent(),(long)c);
}
#ifndef NO_FORTRAN
extern "C" void vf_named_types_(int*n,int*handles,int*bytes,int*max);
void fortran_storage(){ // real Fortran storage sizes and the handles the include file gives
  int n=0,h[64],b[64],mx=64; vf_named_types_(&n,h,b,&mx); if(n<15) inconclusive("only %d Fortran types reported",n);
  for(int i=0;i<n;i++){ step("Fortran type %d (handle %d)",i,h[i]); int s=api::type_size(h[i]); i64 e=api::type_extent(h[i]); if(s*8!=b[i]||e*8!=b[i]) viol("named-fortran","Fortran type number %d (handle %d): size %d extent %ld, the compiler stores it in %d bits",i,h[i],s,(long)e,b[i]);
    // the harness table must describe it with the same storage
    bool f=false; for(auto&x:g_basic) if(x.h==h[i]){ f=true; if(x.ext*8!=b[i]) viol("named-fortran","%s has handle %d, whose storage is %d bits",x.name,h[i],b[i]); } if(!f) viol("named-fortran","Fortran handle %d is not a C datatype handle",h[i]);
    EV("Fortran storage sizes compared"); }
}
#endif
void huge_case(u64 idx,u64 seed){
  Rng r(seed); int n=(int)r.range(100000,400000); int k=(int)(idx%7); int h; MT b=mt_named(g_basic[r.below(11)]); i64 ext=b.extent(); std::vector<int> bl(n),di(n),hs(n); std::vector<i64> d(n); i64 cur=0; i64 total=0,mx=0;
  if(k==6) n/=4;
  for(int i=0;i<n;i++){ bl[i]=1+(int)(k!=3&&k!=0&&k!=1&&r.below(2)); di[i]=(int)cur; d[i]=cur*ext; hs[i]=b.h; total+=bl[i]; mx=d[i]+bl[i]*ext; cur+=bl[i]+(i64)r.below(3); }
  step("huge type kind %d with %d blocks of %s",k,n,b.desc);
  switch(k){ case 0: api::type_contiguous(n,b.h,&h); total=n; mx=n*ext; break; case 1: api::type_vector(n,1,2,b.h,&h); total=n; mx=(2*(i64)n-1)*ext; break;
   case 2: case 6: api::type_indexed(n,bl.data(),di.data(),b.h,&h); break; case 3: api::type_indexed_block(n,1,di.data(),b.h,&h); break; case 4: api::type_hindexed(n,bl.data(),d.data(),b.h,&h); break; default: api::type_struct(n,bl.data(),d.data(),hs.data(),&h); }
  int sz=api::type_size(h); i64 ex=api::type_extent(h); if(sz!=total*b.size()) viol("type-size","huge type: size %d, expected %ld",sz,(long)(total*b.size())); if(ex!=mx) viol("type-extent","huge type: extent %ld, expected %ld",(long)ex,(long)mx);
  int reps=1; if(k==6){ int h2; api::type_vector(3,1,1,h,&h2); api::type_free(&h); h=h2; reps=3; if(api::type_size(h)!=3*sz) viol("type-size","huge nested type: size %d, expected %d",api::type_size(h),3*sz); }
  api::type_commit(&h); GMem s,q; s.alloc(mx*reps); q.alloc(total*b.size()*reps); r.fill(s.p(),s.n); memset(q.p(),0,q.n);
  int rq; api::irecv(q.p(),(int)(total*reps),b.h,0,1,MPI_COMM_WORLD,&rq); api::isend(s.p(),1,h,0,1,MPI_COMM_WORLD,&hs[0]); if(r.chance(500)) { int t=h; api::type_free(&t); h=0; } api::wait(&rq,MPI_STATUS_IGNORE); api::wait(&hs[0],MPI_STATUS_IGNORE);
  i64 o=0; for(int rep=0;rep<reps;rep++) for(int i=0;i<n;i++){ int B=(k<=1||k==3)?1:bl[i]; i64 D=k==0?i*ext:k==1?2*i*ext:d[i]; i64 nb=B*ext; if(memcmp(q.p()+o,s.p()+rep*mx+D,nb)) viol("type-data","huge type: block %d of %d arrived wrong",i,n); o+=nb; }
  s.check("type-data","huge send buffer"); q.check("type-data","huge receive buffer"); s.release(); q.release(); if(h) api::type_free(&h); note_distinct(hcomb(k,n)); EVN("huge type blocks",n); sample("kind %d, %d blocks of %s, extent %ld",k,n,b.desc,(long)ex);
}
}
void types_run_one(int kind,u64 seed){ basics_init(); if(kind) named_case(seed%97,seed); else geom_case(seed); }
void eng_types(){
  basics_init(); api::init(); bool named=!strcmp(g_opt.profile,"named"), huge=!strcmp(g_opt.profile,"huge");
#ifndef NO_FORTRAN
  if(named){ mark_case(g_opt.from); fortran_storage(); }
#endif
  if(named) for(int h:{(int)MPI_LB,(int)MPI_UB}){ step("bound marker %d",h); int s=api::type_size(h); i64 e=api::type_extent(h); if(s||e) viol("named-marker","bound marker %d has size %d and extent %ld",h,s,(long)e); EV("markers sized"); }
  for(u64 i=g_opt.from;i<g_opt.to;i++){ mark_case(i); u64 s=mix64(g_opt.seed*0x1000193+i)^0x7E0; if(named) named_case(i,s); else if(huge) huge_case(i,s); else geom_case(s); }
  api::finalize();
}
