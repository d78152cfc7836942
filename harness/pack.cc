// Pack / unpack sequences: positions, promised sizes, contents, surroundings.
#include "types.h"
void pack_case(u64 seed){
  Rng r(seed); u64 h=0; int n=(int)r.range(1,6); struct It { MT t; i64 c; LBuf src; i64 promised; int adv; }; std::vector<It> it(n);
  int comm=MPI_COMM_WORLD; if(r.chance(300)) api::comm_dup(MPI_COMM_WORLD,&comm);
  i64 tot=0; std::vector<int> garbage;
  for(auto&x:it){ TypeGen g(r); g.max_el=32; g.max_span=2048; bool big=r.chance(60); if(big){ g.wide=true; g.max_el=600; g.max_span=20000; EV("large items"); } g.verify=false; g.negative=r.chance(200); g.pick_unit(true,r.chance(300));
    for(int k=0;;k++){ x.t=k<8?g.gen((int)r.below(4)):g.base(); x.c=r.range(0,4); if(big) x.c=(i64)r.below(20000/std::max<size_t>(1,x.t.map.size())+1); if(big&&r.chance(250)){ x.c=r.magic(66000/std::max<i64>(1,std::max<i64>((i64)x.t.map.size(),std::llabs((long long)x.t.extent())/8))); EV("counts at a power of two"); } if(!x.t.overlaps(x.c)) break; free_type_h(x.t); }
    for(int q:g.garbage) garbage.push_back(q);
    if(r.chance(700)) ensure_committed(x.t); ensure_committed(x.t);
    x.src.make(x.t,x.c,r,24); x.promised=api::pack_size((int)x.c,x.t.h,comm); if(x.promised<0) viol("pack-size","size query says %ld",(long)x.promised); tot+=x.promised; }
  int p0=r.chance(400)?(int)r.range(1,23):0; i64 room=p0+tot+(r.chance(500)?(i64)r.below(16):0);
  LBuf P; P.make_span(0,room,r); int pos=p0;
  for(int i=0;i<n;i++){ It&x=it[i]; int before=pos; step("pack %d of %d: %ld x %s at %d of %ld",i,n,(long)x.c,x.t.desc,pos,(long)room);
    api::pack(x.src.user(),(int)x.c,x.t.h,P.user(),(int)room,&pos,comm); x.adv=pos-before;
    if(x.adv<0||x.adv>x.promised) viol("pack-position","packing advanced by %d, the size query promised at most %ld",x.adv,(long)x.promised);
    x.src.check("pack-input","typed buffer being packed"); 
    if(x.adv){ memcpy(P.sh(before),P.at(before),x.adv); } // its contents are judged by unpacking
    P.check("pack-outside","packed buffer outside the region just packed"); EV("packs"); EVN("bytes packed",x.adv); h=hcomb(h,x.adv*31+x.c); }
  // the packed bytes are sometimes copied to an exactly sized buffer or sent as MPI_PACKED
  LBuf Q; Q.make_span(0,pos,r); int way=(int)r.below(3);
  if(way==0||pos==0){ if(pos) memcpy(Q.at(0),P.at(0),pos); EV("packed bytes copied"); }
  else if(way==1){ int rq1,rq2; step("send %d packed bytes",pos); api::irecv(Q.user(),pos,MPI_PACKED,0,5,comm,&rq1); api::isend(P.user(),pos,MPI_PACKED,0,5,comm,&rq2); api::wait(&rq1,MPI_STATUS_IGNORE); api::wait(&rq2,MPI_STATUS_IGNORE); EV("packed bytes sent"); }
  else { step("gather %d packed bytes",pos); api::gather(P.user(),pos,MPI_PACKED,Q.user(),pos,MPI_PACKED,0,comm); EV("packed bytes sent"); }
  if(pos&&memcmp(Q.at(0),P.at(0),pos)) viol("packed-transfer","packed bytes changed in transfer");
  if(pos) memcpy(Q.sh(0),Q.at(0),pos);
  P.check("pack-outside","packed buffer after transfer");
  int up=p0;
  for(int i=0;i<n;i++){ It&x=it[i]; LBuf d; d.make(x.t,x.c,r,24); std::vector<unsigned char> b; i64 nel=x.c*(i64)x.t.map.size(); model_read(x.src,x.t,nel,b); model_write(d,x.t,nel,b.data());
    int before=up; int in=r.chance(500)?pos:up+x.adv; // exactly enough is enough
    step("unpack %d of %d: %ld x %s at %d of %d",i,n,(long)x.c,x.t.desc,up,in);
    api::unpack(Q.user(),in,&up,d.user(),(int)x.c,x.t.h,comm);
    if(up-before!=x.adv) viol("unpack-position","unpacking advanced by %d, packing by %d",up-before,x.adv);
    d.check("unpack-data","typed buffer after unpacking"); Q.check("unpack-input","packed buffer while unpacking"); d.release(); EV("unpacks"); }
  // exactly enough room is enough
  { It&x=it[r.below(n)]; LBuf T; i64 base=(i64)r.below(9); T.make_span(0,base+x.adv,r); int q=(int)base; step("tight pack %ld x %s",(long)x.c,x.t.desc);
    api::pack(x.src.user(),(int)x.c,x.t.h,T.user(),(int)(base+x.adv),&q,comm); if(q!=base+x.adv) viol("pack-position","packing the same item advanced by %ld and by %d",(long)(q-base),x.adv);
    if(base){ bool same=!memcmp(T.at(0),T.sh(0),base); if(!same) viol("pack-outside","bytes before the start position changed"); } T.m.check("pack-outside","tight pack buffer"); EV("exact-fit packs"); T.release(); }
  if(n>1||it[0].t.map.size()>1) note_distinct(h);
  sample("case seed %llx: %d items, start %d, %d bytes packed of %ld promised, first %ld x %s",(unsigned long long)seed,n,p0,pos-p0,(long)tot,(long)it[0].c,it[0].t.desc);
  for(auto&x:it){ x.src.release(); free_type_h(x.t); } for(int q:garbage) api::type_free(&q);
  P.release(); Q.release(); if(comm!=MPI_COMM_WORLD) api::comm_free(&comm);
}
void eng_pack(){ api::init(); for(u64 i=g_opt.from;i<g_opt.to;i++){ mark_case(i); pack_case(mix64(g_opt.seed*0x1000193+i)^0x9ACC); } api::finalize(); }
