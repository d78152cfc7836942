// Collectives on one-process communicators: every buffer is compared whole with the model.
#include "types.h"
namespace {
struct Comms { std::vector<int> h; std::vector<int> own; };
struct Pair { MT a,b; i64 ca=0,cb=0; };
void out_of_place(Rng&r,Pair&p,int kind,int comm,int op,int root){
  bool one=(kind>=8&&kind<=11)||r.chance(150); MT&S=p.a; MT&R=one?p.a:p.b; i64 sn=p.ca, rn=one?p.ca:p.cb; // the same type on both sides
  // kinds: 0 gather 1 gatherv 2 allgather 3 allgatherv 4 scatter 5 scatterv 6 alltoall 7 alltoallv 8 reduce 9 allreduce 10 reduce_scatter 11 scan 12 alltoallw
  static const char*nm[]={"gather","gatherv","allgather","allgatherv","scatter","scatterv","alltoall","alltoallv","reduce","allreduce","reduce_scatter","scan","alltoallw"};
  i64 sd=0,rd=0; int sdi=0,rdi=0; bool hasS=kind==5||kind==7||kind==12, hasR=kind==1||kind==3||kind==7||kind==12;
  auto far=[&](const MT&t){ return r.chance(40)&&std::llabs((long long)t.extent())<=512?(int)r.range(-700,700):(int)r.range(-3,5); };
  if(hasS){ sdi=far(S); if(kind==12) sdi=(int)(r.chance(40)?r.range(-70000,70000):r.range(-40,60)); sd=kind==12?sdi:sdi*S.extent(); }
  if(hasR){ rdi=far(R); if(kind==12) rdi=(int)(r.chance(40)?r.range(-70000,70000):r.range(-40,60)); rd=kind==12?rdi:rdi*R.extent(); }
  auto mkbuf=[&](LBuf&b,const MT&t,i64 n,i64 d){ i64 lo,hi; t.span(n,lo,hi); lo+=d; hi+=d; if(hi==lo) lo=hi=0;
    if(r.chance(500)&&hi>lo){ lo=std::min<i64>(lo,lo-d); hi=std::max<i64>(hi,hi-d); lo-=(i64)r.below(33); hi+=(i64)r.below(33); } b.make_span(lo,hi,r); };
  LBuf s,q; mkbuf(s,S,sn,sd); mkbuf(q,R,rn,rd);
  step("%s send %ld x %s (extent %ld, displ %d) recv %ld x %s (extent %ld, displ %d) root %d",nm[kind],(long)sn,S.desc,(long)S.extent(),sdi,(long)rn,R.desc,(long)R.extent(),rdi,root);
  if(root!=MPI_ROOT){ i64 nel=sn*(i64)S.map.size(); std::vector<unsigned char> d; model_read(s,S,nel,d,sd); model_write(q,R,nel,d.data(),rd); EVN("elements contributed",nel); EVMAX("elements contributed at once",nel); }
  else EV("root-marker calls");
  int sni=(int)sn,rni=(int)rn; int*rc=sni==rni&&r.chance(500)?&sni:&rni,*rdp=sdi==rdi&&r.chance(500)?&sdi:&rdi; const void*sb=s.user(); /* one array may serve both sides */ void*rb=q.user();
  switch(kind){
   case 0: api::gather(sb,sni,S.h,rb,rni,R.h,root,comm); break;
   case 1: api::gatherv(sb,sni,S.h,rb,&rni,&rdi,R.h,root,comm); break;
   case 2: api::allgather(sb,sni,S.h,rb,rni,R.h,comm); break;
   case 3: api::allgatherv(sb,sni,S.h,rb,&rni,&rdi,R.h,comm); break;
   case 4: api::scatter(sb,sni,S.h,rb,rni,R.h,root,comm); break;
   case 5: api::scatterv(sb,&sni,&sdi,S.h,rb,rni,R.h,root,comm); break;
   case 6: api::alltoall(sb,sni,S.h,rb,rni,R.h,comm); break;
   case 7: api::alltoallv(sb,&sni,&sdi,S.h,rb,rc,rdp,R.h,comm); break;
   case 8: api::reduce(sb,rb,sni,S.h,op,root,comm); break;
   case 9: api::allreduce(sb,rb,sni,S.h,op,comm); break;
   case 10: api::reduce_scatter(sb,rb,&sni,S.h,op,comm); break;
   case 11: api::scan(sb,rb,sni,S.h,op,comm); break;
   case 12: { int st=S.h,rt=R.h; api::alltoallw(sb,&sni,&sdi,&st,rb,rc,rdp,st==rt&&r.chance(500)?&st:&rt,comm); break; }
  }
  s.check("coll-send","send buffer of a collective"); q.check("coll-recv","receive buffer of a collective"); EVN("collective bytes compared",s.m.n+q.m.n);
  s.release(); q.release();
}
void in_place(Rng&r,Pair&p,int kind,int comm,int op,int root){
  static const char*nm[]={"gather","gatherv","allgather","allgatherv","scatter","scatterv","alltoall","alltoallv","reduce","allreduce","reduce_scatter","scan","alltoallw"};
  MT&R=p.b; LBuf q; q.make(R,p.cb,r,40); int n=(int)p.cb,z=0,d=0; int it=r.chance(500)?R.h:MPI_DATATYPE_NULL; int ic=r.chance(500)?n:0; void*rb=q.user(); const void*ip=MPI_IN_PLACE;
  step("in-place %s %d x %s root %d",nm[kind],n,R.desc,root); EV("in-place calls"); int rt=R.h;
  switch(kind){
   case 0: api::gather(ip,ic,it,rb,n,rt,root,comm); break;
   case 1: api::gatherv(ip,ic,it,rb,&n,&d,rt,root,comm); break;
   case 2: api::allgather(ip,ic,it,rb,n,rt,comm); break;
   case 3: api::allgatherv(ip,ic,it,rb,&n,&d,rt,comm); break;
   case 4: api::scatter(rb,n,rt,(void*)ip,ic,it,root,comm); break;
   case 5: api::scatterv(rb,&n,&d,rt,(void*)ip,ic,it,root,comm); break;
   case 6: api::alltoall(ip,ic,it,rb,n,rt,comm); break;
   case 7: api::alltoallv(ip,&z,&z,it,rb,&n,&d,rt,comm); break;
   case 8: api::reduce(ip,rb,n,rt,op,root,comm); break;
   case 9: api::allreduce(ip,rb,n,rt,op,comm); break;
   case 10: api::reduce_scatter(ip,rb,&n,rt,op,comm); break;
   case 11: api::scan(ip,rb,n,rt,op,comm); break;
   case 12: { int zt=it; api::alltoallw(ip,&z,&z,&zt,rb,&n,&d,&rt,comm); break; }
  }
  q.check("coll-inplace","buffer of an in-place collective"); q.release();
}
// point-to-point traffic that is pending meanwhile: a collective neither takes nor disturbs it
struct Bystanders { int n=0,tag[6],q[6],comm[6]; bool send[6],wild[6]; i64 v[6],id[6];
  void post(Rng&r,const int*comms,int nc){
    bool flip=r.chance(500); n=(int)r.range(1,6); static const int T[]={0,1,2,3,5,77,100,999,1000,0x7fff,0x8000,0xffff,0x10000,1681915906}; step("%d operations pending around the collectives",n);
    for(int i=0;i<n;i++){ int k=(int)r.below(nc); send[i]=(k&1)?!flip:flip; comm[i]=comms[k]; wild[i]=!send[i]&&r.chance(500); tag[i]=T[r.below(14)]; id[i]=(i64)r.next(); v[i]=send[i]?id[i]:~id[i];
      if(send[i]) api::isend(&v[i],1,MPI_LONG,0,tag[i],comm[i],&q[i]); else api::irecv(&v[i],1,MPI_LONG,r.chance(500)?0:MPI_ANY_SOURCE,wild[i]?MPI_ANY_TAG:tag[i],comm[i],&q[i]); }
    EVN("operations pending around collectives",n); }
  void settle(Rng&r){
    for(int i=0;i<n;i++){ int f=1,h=q[i]; if(r.chance(500)){ api::test(&h,&f,MPI_STATUS_IGNORE); if(f||h!=q[i]) viol("bystander","a pending %s (tag %d) was completed by a collective",send[i]?"send":"receive",tag[i]); } if(v[i]!=(send[i]?id[i]:~id[i])) viol("bystander","the buffer of a pending %s was changed by a collective",send[i]?"send":"receive"); }
    for(int i=0;i<n;i++){ MPI_Status st; i64 x=0; int f=0; // in posting order, which is matching order on each communicator
      if(send[i]){ if(r.chance(300)){ api::iprobe(0,tag[i],comm[i],&f,&st); if(!f) viol("bystander","a pending send (tag %d) is gone after collectives",tag[i]); } api::recv(&x,1,MPI_LONG,0,tag[i],comm[i],&st); if(x!=id[i]) viol("bystander","a send that was pending during collectives delivered something else"); api::wait(&q[i],MPI_STATUS_IGNORE); }
      else { int s; api::isend(&id[i],1,MPI_LONG,0,tag[i],comm[i],&s); api::wait(&q[i],&st); if(v[i]!=id[i]||st.MPI_TAG!=tag[i]) viol("bystander","a receive that was pending during collectives got something else (tag %d, posted tag %d)",st.MPI_TAG,tag[i]); api::wait(&s,MPI_STATUS_IGNORE); } } n=0; }
};
}
// one collective with small items on a communicator that has traffic of its own
void coll_on(Rng&r,int comm){
  basics_init(); Pair p; do p.a=mt_named(g_basic[r.below(g_basic.size())]); while(!strcmp(p.a.desc,"PACKED")); p.a.units=1; p.b=p.a; p.ca=p.cb=r.range(0,5); int k=(int)r.below(15); static const int O[]={MPI_MAX,MPI_SUM,MPI_LAND,MPI_MINLOC}; int op=O[r.below(4)];
  if(k==13){ api::barrier(comm); EV("barriers"); } else if(k==14){ LBuf b; b.make(p.b,p.cb,r,40); api::bcast(b.user(),(int)p.cb,p.b.h,0,comm); b.check("coll-bcast","broadcast buffer"); b.release(); }
  else if(r.chance(200)) in_place(r,p,k,comm,op,0); else out_of_place(r,p,k,comm,op,0); EV("collectives among pending traffic"); }
void coll_case(u64 seed){
  Rng r(seed); TypeGen g(r); bool large=r.chance(60); g.max_el=24; g.max_span=2048; if(large){ g.wide=true; g.max_el=600; g.max_span=30000; EV("cases with large messages"); } g.verify=false; g.negative=r.chance(200); u64 h=0;
  g.pick_unit(true,r.chance(300));
  Pair p; int ok=0;
  for(int tries=0;tries<12&&!ok;tries++){
    p.a=g.gen((int)r.below(4)); p.b=r.chance(150)?g.base():g.gen((int)r.below(4));
    if(pair_counts(p.a,p.b,r,large?(r.chance(300)?24000:3000):120,p.ca,p.cb)&&!p.b.overlaps(p.cb)&&!p.a.overlaps(p.ca)) ok=1; else { free_type_h(p.a); free_type_h(p.b); }
  }
  if(!ok){ p.a=g.base(); p.b=g.base(); p.ca=p.cb=2; }
  if(large&&p.a.units&&p.b.units&&r.chance(250)){ i64 x=p.a.units,y=p.b.units; while(y){ i64 t=x%y; x=y; y=t; } i64 a=p.b.units/x,b=p.a.units/x,w=std::max<i64>(1,std::max(a*std::max<i64>((i64)p.a.map.size(),std::llabs((long long)p.a.extent())/8),b*std::max<i64>((i64)p.b.map.size(),std::llabs((long long)p.b.extent())/8)));
    i64 k=r.magic(std::max<i64>(1,66000/w)); if(!p.a.overlaps(a*k)&&!p.b.overlaps(b*k)){ p.ca=a*k; p.cb=b*k; EV("counts at a power of two"); } }
  ensure_committed(p.a); ensure_committed(p.b);
  int comms[4]={MPI_COMM_WORLD}; int nc=1; if(r.chance(600)){ api::comm_dup(MPI_COMM_WORLD,&comms[nc++]); } if(r.chance(300)){ api::comm_split(comms[nc-1],(int)r.below(3),(int)r.range(-2,2),&comms[nc++]); } if(r.chance(150)){ int d[2]={1,1},per[2]={1,0}; api::cart_create(comms[r.below(nc)],(int)r.below(3),d,per,0,&comms[nc++]); }
  int ops[]={MPI_MAX,MPI_MIN,MPI_SUM,MPI_PROD,MPI_LAND,MPI_BAND,MPI_LOR,MPI_BOR,MPI_LXOR,MPI_BXOR,MPI_MAXLOC,MPI_MINLOC,MPI_SUM}; int uop=MPI_OP_NULL; bool user=r.chance(400); if(user){ api::op_create(&uop,(int)r.below(2)); ops[12]=uop; }
  int n=(int)r.range(4,14); Bystanders by; if(r.chance(400)) by.post(r,comms,nc);
  for(int i=0;i<n;i++){
    int k=(int)r.below(16); int comm=comms[r.below(nc)]; int op=ops[r.below(13)]; if(user&&r.chance(300)) op=uop; h=hcomb(h,k);
    bool rooted=k==0||k==1||k==4||k==5||k==8; int root=rooted&&r.chance(120)?MPI_ROOT:0;
    if(k<=12){ bool ip=r.chance(220); if(ip) in_place(r,p,k,comm,op,root==MPI_ROOT?0:root); else out_of_place(r,p,k,comm,op,root); EV("collectives checked"); }
    else if(k==13){ step("barrier"); api::barrier(comm); EV("barriers"); }
    else { LBuf b; b.make(p.b,p.cb,r,40); root=r.chance(200)?MPI_ROOT:0; step("bcast %ld x %s root %d",(long)p.cb,p.b.desc,root); api::bcast(b.user(),(int)p.cb,p.b.h,root,comm); b.check("coll-bcast","broadcast buffer"); b.release(); EV("broadcasts"); }
  }
  by.settle(r);
  if(user){ api::op_free(&uop); if(uop!=MPI_OP_NULL) viol("free-null","a freed operation is %d, not the null operation",uop); }
  h=hcomb(h,hcomb((u64)p.a.map.size()*1000003+p.a.extent(),(u64)p.b.map.size()*7919+p.b.extent()));
  if(p.a.map.size()&&p.ca) note_distinct(h);
  sample("case seed %llx: send %ld x %s, receive %ld x %s, %d calls on %d communicators",(unsigned long long)seed,(long)p.ca,p.a.desc,(long)p.cb,p.b.desc,n,nc);
  for(int i=1;i<nc;i++) api::comm_free(&comms[i]);
  free_type_h(p.a); free_type_h(p.b); g.collect();
}
void eng_coll(){ api::init(); for(u64 i=g_opt.from;i<g_opt.to;i++){ mark_case(i); coll_case(mix64(g_opt.seed*0x1000193+i)^0xC011); } api::finalize(); }
