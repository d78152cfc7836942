#include "types.h"
#include <stddef.h>
std::vector<Basic> g_basic;

template<class T> struct AlignOf{ char c; T t; };
#define AL(T) ((int)offsetof(AlignOf<T>,t))
static int ncls;
static Basic one(const char*n,int h,int size,int align,bool f){ Basic b; memset(&b,0,sizeof b); b.name=n;b.h=h;b.nel=1;b.esize[0]=size;b.ealign[0]=align;b.ext=size;b.cls[0]=ncls++;b.fort=f; return b; }
static Basic two(const char*n,int h,int s0,int a0,int d1,int s1,int a1,int ext,bool f,int c0,int c1){ Basic b; memset(&b,0,sizeof b); b.name=n;b.h=h;b.nel=2;
  b.esize[0]=s0;b.ealign[0]=a0;b.esize[1]=s1;b.ealign[1]=a1;b.edisp[1]=d1;b.ext=ext;b.cls[0]=c0;b.cls[1]=c1;b.fort=f; return b; }
static int cls_of(const char*n){ for(auto&b:g_basic) if(!strcmp(b.name,n)) return b.cls[0]; abort(); }
// sizes of the Fortran kinds as compiled, gfortran defaults
#ifndef F_REAL
#define F_REAL 4
#endif
#ifndef F_DOUBLE
#define F_DOUBLE 8
#endif
struct SFI{float a;int b;}; struct SDI{double a;int b;}; struct SLI{long a;int b;}; struct SSI{short a;int b;}; struct SLDI{long double a;int b;};
void basics_init(){
  if(!g_basic.empty()) return;
  auto C=[&](const char*n,int h,int s,int a){ g_basic.push_back(one(n,h,s,a,false)); };
  auto F=[&](const char*n,int h,int s,int a){ g_basic.push_back(one(n,h,s,a,true)); };
#define CT(M,T) C(#M,M,(int)sizeof(T),AL(T))
  CT(MPI_CHAR,char); CT(MPI_SIGNED_CHAR,signed char); CT(MPI_WCHAR,wchar_t); CT(MPI_SHORT,short); CT(MPI_INT,int); CT(MPI_LONG,long);
  CT(MPI_UNSIGNED_CHAR,unsigned char); CT(MPI_UNSIGNED_SHORT,unsigned short); CT(MPI_UNSIGNED,unsigned); CT(MPI_UNSIGNED_LONG,unsigned long);
  CT(MPI_FLOAT,float); CT(MPI_DOUBLE,double); CT(MPI_LONG_DOUBLE,long double); CT(MPI_BYTE,char); CT(MPI_PACKED,char);
  CT(MPI_LONG_LONG_INT,long long); CT(MPI_UNSIGNED_LONG_LONG,unsigned long long); CT(MPI_OFFSET,MPI_Offset);
  F("MPI_INTEGER",MPI_INTEGER,4,4); F("MPI_REAL",MPI_REAL,F_REAL,F_REAL); F("MPI_DOUBLE_PRECISION",MPI_DOUBLE_PRECISION,F_DOUBLE,F_DOUBLE);
  F("MPI_COMPLEX",MPI_COMPLEX,2*F_REAL,F_REAL); F("MPI_DOUBLE_COMPLEX",MPI_DOUBLE_COMPLEX,2*F_DOUBLE,F_DOUBLE);
  F("MPI_LOGICAL",MPI_LOGICAL,4,4); F("MPI_CHARACTER",MPI_CHARACTER,1,1);
  F("MPI_INTEGER1",MPI_INTEGER1,1,1); F("MPI_INTEGER2",MPI_INTEGER2,2,2); F("MPI_INTEGER4",MPI_INTEGER4,4,4);
  F("MPI_INTEGER8",MPI_INTEGER8,8,8); F("MPI_INTEGER16",MPI_INTEGER16,16,16);
  F("MPI_REAL4",MPI_REAL4,4,4); F("MPI_REAL8",MPI_REAL8,8,8); F("MPI_REAL16",MPI_REAL16,16,16);
  F("MPI_COMPLEX8",MPI_COMPLEX8,8,4); F("MPI_COMPLEX16",MPI_COMPLEX16,16,8); F("MPI_COMPLEX32",MPI_COMPLEX32,32,16);
  int cI=cls_of("MPI_INT");
#define PT(M,S,A,AN) g_basic.push_back(two(#M,M,(int)sizeof(A),AL(A),(int)offsetof(S,b),4,4,(int)sizeof(S),false,cls_of(AN),cI))
  PT(MPI_FLOAT_INT,SFI,float,"MPI_FLOAT"); PT(MPI_DOUBLE_INT,SDI,double,"MPI_DOUBLE"); PT(MPI_LONG_INT,SLI,long,"MPI_LONG");
  PT(MPI_SHORT_INT,SSI,short,"MPI_SHORT"); PT(MPI_LONG_DOUBLE_INT,SLDI,long double,"MPI_LONG_DOUBLE");
  g_basic.push_back(two("MPI_2INT",MPI_2INT,4,4,4,4,4,8,false,cI,cI));
  g_basic.push_back(two("MPI_2REAL",MPI_2REAL,F_REAL,F_REAL,F_REAL,F_REAL,F_REAL,2*F_REAL,true,cls_of("MPI_REAL"),cls_of("MPI_REAL")));
  g_basic.push_back(two("MPI_2DOUBLE_PRECISION",MPI_2DOUBLE_PRECISION,F_DOUBLE,F_DOUBLE,F_DOUBLE,F_DOUBLE,F_DOUBLE,2*F_DOUBLE,true,cls_of("MPI_DOUBLE_PRECISION"),cls_of("MPI_DOUBLE_PRECISION")));
  g_basic.push_back(two("MPI_2INTEGER",MPI_2INTEGER,4,4,4,4,4,8,true,cls_of("MPI_INTEGER"),cls_of("MPI_INTEGER")));
}

void MT::span(i64 count,i64&lo,i64&hi)const{
  lo=hi=0; if(map.empty()||count<=0) return;
  i64 a=map[0].disp,b=map[0].disp+map[0].size;
  for(auto&e:map){ a=std::min(a,e.disp); b=std::max(b,e.disp+e.size); }
  i64 d=(count-1)*extent(); lo=a+std::min<i64>(0,d); hi=b+std::max<i64>(0,d);
}
bool MT::overlaps(i64 count)const{
  std::vector<std::pair<i64,i64>> v; v.reserve(map.size()*count);
  for(i64 c=0;c<count;c++) for(auto&e:map) v.push_back({e.disp+c*extent(),e.disp+c*extent()+e.size});
  std::sort(v.begin(),v.end());
  for(size_t i=1;i<v.size();i++) if(v[i].first<v[i-1].second) return true;
  return false;
}
MT mt_named(const Basic&b){ MT t; t.h=b.h; t.named=t.committed=true;
  for(int i=0;i<b.nel;i++) t.map.push_back(Elem{b.edisp[i],b.esize[i],b.ealign[i],b.cls[i]});
  t.lb=0; t.ub=b.ext; snprintf(t.desc,sizeof t.desc,"%s",b.name+4); return t; }

MT mt_struct(const std::vector<Block>&bs,bool&amb){
  MT t; bool have_l=false,have_u=false; i64 L=0,U=0; int al=1;
  for(auto&b:bs){
    if(b.marker){ if(b.bl<=0) continue; if(b.marker==1){ if(!have_l||b.disp<L) L=b.disp; have_l=true; } else { if(!have_u||b.disp>U) U=b.disp; have_u=true; } continue; }
    for(int j=0;j<b.bl;j++){
      i64 o=b.disp+(i64)j*b.t->extent();
      if(b.t->olb){ i64 x=b.t->lb+o; if(!have_l||x<L) L=x; have_l=true; }
      if(b.t->oub){ i64 x=b.t->ub+o; if(!have_u||x>U) U=x; have_u=true; }
      for(auto&e:b.t->map) t.map.push_back(Elem{e.disp+o,e.size,e.align,e.cls});
    }
  }
  t.olb=have_l; t.oub=have_u; amb=false;
  i64 mn=0,mx=0; bool first=true;
  for(auto&e:t.map){ al=std::max(al,e.align); if(first||e.disp<mn) mn=e.disp; if(first||e.disp+e.size>mx) mx=e.disp+e.size; first=false; }
  t.lb=have_l?L:mn;
  if(have_u) t.ub=U;
  else { i64 ex=mx-t.lb; i64 m=ex%al; if(m<0) m+=al; i64 pad=m?al-m:0; t.ub=mx+pad; if(have_l&&pad) amb=true; }
  return t;
}
void mt_verify(MT&t,bool amb,const char*how){
  int sz=api::type_size(t.h); i64 ex=api::type_extent(t.h), lb=api::type_lb(t.h), ub=api::type_ub(t.h);
  EV("geometry queries");
  if(sz!=t.size()) viol("type-size","%s: size is %d, the typemap has %ld bytes (%s)",how,sz,(long)t.size(),t.desc);
  if(t.map.empty()&&!(t.olb&&t.oub)){ // nothing to bound: only consistency is specified
    if(!t.olb&&!t.oub&&(ex!=0||lb!=0||ub!=0)) viol("type-empty","%s: an empty type has lb %ld ub %ld extent %ld (%s)",how,(long)lb,(long)ub,(long)ex,t.desc);
    t.lb=lb; t.ub=ub;
    if(ub-lb!=ex) viol("type-ub","%s: ub-lb is %ld but extent is %ld (%s)",how,(long)(ub-lb),(long)ex,t.desc);
    return; }
  if(lb!=t.lb) viol("type-lb","%s: lower bound is %ld, expected %ld (%s)",how,(long)lb,(long)t.lb,t.desc);
  if(amb){ // explicit lower bound only: padding of the upper bound is not pinned down
    i64 mx=t.lb; bool f=true; for(auto&e:t.map) if(f||e.disp+e.size>mx){ mx=e.disp+e.size; f=false; }
    if(ex!=t.ub-t.lb&&ex!=mx-t.lb) viol("type-extent","%s: extent is %ld, expected %ld or %ld (%s)",how,(long)ex,(long)(t.ub-t.lb),(long)(mx-t.lb),t.desc);
    t.ub=t.lb+ex;
  }
  if(ex!=t.ub-t.lb) viol("type-extent","%s: extent is %ld, expected %ld (%s)",how,(long)ex,(long)(t.ub-t.lb),t.desc);
  if(ub!=t.ub) viol("type-ub","%s: upper bound is %ld, expected %ld (%s)",how,(long)ub,(long)t.ub,t.desc);
}

void TypeGen::pick_unit(bool pairs_ok,bool single){
  basics_init(); unit.clear(); int n=single||r.chance(500)?1:(int)r.range(2,4);
  while((int)unit.size()<n){ int i=(int)r.below(g_basic.size()); if(!pairs_ok&&g_basic[i].nel==2) continue;
    if(!strcmp(g_basic[i].name,"MPI_PACKED")&&!single) continue; unit.push_back(i); }
}
MT TypeGen::base(){
  if(unit.size()==1){ MT t=mt_named(g_basic[unit[0]]); t.units=1; return t; }
  std::vector<MT> parts; for(int u:unit) parts.push_back(mt_named(g_basic[u]));
  std::vector<Block> bs; std::vector<int> bl; std::vector<i64> ds; std::vector<int> hs; i64 pos=r.chance(300)?r.range(-40,40):0;
  for(auto&p:parts){
    int al=1; for(auto&e:p.map) al=std::max(al,e.align);
    if(r.chance(700)) pos=(pos+al-1)/al*al; else pos+=r.range(0,7);
    bs.push_back(Block{1,pos,&p,0}); bl.push_back(1); ds.push_back(pos); hs.push_back(p.h); pos+=p.extent(); }
  bool amb; MT t=mt_struct(bs,amb); api::type_struct((int)bl.size(),bl.data(),ds.data(),hs.data(),&t.h); t.units=1;
  snprintf(t.desc,sizeof t.desc,"struct%zu",bl.size()); EV("type constructed");
  if(verify) mt_verify(t,amb,"struct of named types"); else if(amb) t.ub=t.lb+api::type_extent(t.h);
  return t;
}
static void add_desc(MT&t,const char*op,int n,const MT&o){ snprintf(t.desc,sizeof t.desc,"%s%d(%.100s)",op,n,o.desc); }
MT TypeGen::derive(const MT&old){
  i64 ext=old.extent(); int oel=(int)old.map.size(); int cap=oel?std::max(1,max_el/oel):6;
  int n=(int)r.range(allow_empty&&r.chance(60)?0:1,std::min(cap,r.chance(800)?6:cap));
  int kind=(int)r.below(9); bool cross=negative&&r.chance(150); if(cross) kind=7; std::vector<Block> bs; MT t; bool amb=false; int h=0; char nm[24];
  i64 olo,ohi; old.span(1,olo,ohi); i64 osp=std::max<i64>(ohi-olo,1);
  bool lg=wide&&r.chance(400); if(lg&&oel&&r.chance(600)) n=std::min(n,(int)r.range(1,3)); else if(lg&&r.chance(400)) n=(int)r.magic(cap);
  auto rbl=[&](int left){ int top=std::max(0,std::min(left,lg?100000:3)); if(top>3&&r.chance(250)) return (int)r.magic(top); if(top>3&&r.chance(500)) return top-(int)r.below(3); return (int)r.range(allow_empty&&r.chance(120)?0:(left>0?1:0),top); };
  switch(kind){
   case 0:{ snprintf(nm,sizeof nm,"contig"); for(int i=0;i<n;i++) bs.push_back(Block{1,i*ext,&old,0}); api::type_contiguous(n,old.h,&h); break; }
   case 1: case 2: case 3:{ int bl=std::max(rbl(n?cap/std::max(n,1):0),0); if(n*bl*std::max(oel,1)>max_el*2) bl=1;
     i64 st=r.chance(250)?r.range(-6,-1):r.range(r.chance(80)?0:bl,bl+4); if(wide&&r.chance(200)) st=r.range(-300,300);
     if(kind==1){ snprintf(nm,sizeof nm,"vector"); for(int i=0;i<n;i++) bs.push_back(Block{bl,i*st*ext,&old,0}); api::type_vector(n,bl,(int)st,old.h,&h); }
     else { i64 bst=r.chance(500)?st*ext:(r.chance(300)?-1:1)*(bl*std::max(std::llabs((long long)ext),(long long)osp)+r.range(0,40));
       snprintf(nm,sizeof nm,kind==2?"hvector":"chvector"); for(int i=0;i<n;i++) bs.push_back(Block{bl,i*bst,&old,0}); api::type_hvector(n,bl,bst,old.h,&h,kind==3); }
     break; }
   case 4: case 5: case 6: case 7:{ // block lists with non-overlapping slots mostly, shuffled order
     std::vector<int> bl(n); std::vector<i64> d(n); int tot=0; int bb=rbl(cap/std::max(n,1));
     i64 cur=r.chance(400)?r.range(-20,5):r.range(0,3); if(wide&&r.chance(250)) cur=r.range(-1200,1200); i64 unitb=(kind==4||kind==5)?1:0; // 4 indexed 5 indexed_block 6 hindexed 7 struct
     for(int i=0;i<n;i++){ bl[i]=(kind==5)?bb:rbl(cap-tot); tot+=bl[i]; if(tot>cap&&kind!=5){ bl[i]=0; }
       if(unitb){ i64 need=std::llabs((long long)ext)>=osp?1:(ext?osp/std::max<i64>(1,std::llabs((long long)ext))+1:1); d[i]=cur; cur+=std::max(1,bl[i])*1+need-1+r.range(0,3); }
       else { d[i]=cur; cur+=std::max<i64>(1,bl[i])*std::max<i64>(std::llabs((long long)ext),osp)+r.range(0,r.chance(500)?0:24); } }
     if(r.chance(120)&&n>1) d[r.below(n)]=d[r.below(n)];               // occasional overlap
     for(int i=n-1;i>0;i--) if(r.chance(500)){ int j=(int)r.below(i+1); std::swap(d[i],d[j]); if(kind!=5) std::swap(bl[i],bl[j]); }
     if(kind==4||kind==5){ std::vector<int> di(n); for(int i=0;i<n;i++){ di[i]=(int)d[i]; bs.push_back(Block{bl[i],d[i]*ext,&old,0}); }
       if(kind==4){ snprintf(nm,sizeof nm,"indexed"); api::type_indexed(n,bl.data(),di.data(),old.h,&h); }
       else { snprintf(nm,sizeof nm,"iblock"); api::type_indexed_block(n,bb,di.data(),old.h,&h); } }
     else if(kind==6){ snprintf(nm,sizeof nm,"hindexed"); for(int i=0;i<n;i++) bs.push_back(Block{bl[i],d[i],&old,0}); api::type_hindexed(n,bl.data(),d.data(),old.h,&h); }
     else { snprintf(nm,sizeof nm,"struct"); std::vector<int> hs; std::vector<int> b2; std::vector<i64> d2; i64 mlb=0,mub=0;
       bool anyel=false; for(int i=0;i<n;i++) if(bl[i]&&oel) anyel=true;
       int mk=(markers&&anyel&&r.chance(450))?(int)r.range(1,3):0; if(cross&&anyel) mk=3; // 1 LB 2 UB 3 both
       if(mk){ i64 a=0,b=0; bool f=true; for(int i=0;i<n;i++) if(bl[i]){ i64 x=d[i]+olo+std::min<i64>(0,(bl[i]-1)*ext), y=d[i]+ohi+std::max<i64>(0,(bl[i]-1)*ext); if(f||x<a)a=x; if(f||y>b)b=y; f=false; }
         mlb=a-r.range(-3,20); mub=b+r.range(-3,20);
         // keep the extent non-negative whatever is inherited
         i64 inner_l=a,inner_u=b; (void)inner_l;(void)inner_u; if(mub<mlb) std::swap(mub,mlb);
         if(old.olb||old.oub){ mlb=std::min(mlb,a+std::min<i64>(0,old.lb-olo)-8); mub=std::max(mub,b+std::max<i64>(0,old.ub-ohi)+8); }
         if(cross&&mk==3){ mlb=b+r.range(-2,20); mub=a-r.range(-2,20); EV("crossed markers"); } }
       int pos1=(mk&1)?(int)r.below(n+1):-1, pos2=(mk&2)?(int)r.below(n+1):-1, again1=(mk&1)&&r.chance(250)?(int)r.below(n+1):-1, again2=(mk&2)&&r.chance(250)?(int)r.below(n+1):-1;
       for(int i=0;i<=n;i++){
         auto mark=[&](int kind,i64 x){ int mb=r.chance(850)?1:(int)r.below(3); bs.push_back(Block{mb,x,0,kind}); hs.push_back(kind==1?MPI_LB:MPI_UB); b2.push_back(mb); d2.push_back(x); };
         for(int kk=1;kk<=2;kk++) if(i==(kk==1?pos1:pos2)||i==(kk==1?again1:again2)){ bool more=i!=(kk==1?pos1:pos2); i64 x=(kk==1?mlb:mub)+(more?r.range(-12,12):0); mark(kk,x); if(kk==1) EV("LB marker"); else EV("UB marker"); if(more) EV("repeated markers"); }
         if(i<n){ bs.push_back(Block{bl[i],d[i],&old,0}); hs.push_back(old.h); b2.push_back(bl[i]); d2.push_back(d[i]); } }
       api::type_struct((int)hs.size(),b2.data(),d2.data(),hs.data(),&h); }
     break; }
   default:{ snprintf(nm,sizeof nm,"dup"); n=1; api::type_dup(old.h,&h); t=old; t.h=h; t.named=false; t.units=old.units; t.committed=old.committed; add_desc(t,"dup",1,old); EV("type duplicated");
     if(verify) mt_verify(t,false,"dup"); return t; }
  }
  t=mt_struct(bs,amb); t.h=h; int items=0; for(auto&b:bs) if(!b.marker) items+=b.bl; t.units=items*old.units; add_desc(t,nm,n,old);
  EV("type constructed"); if(t.extent()<0) EV("negative extents"); if(t.map.empty()) EV("empty type constructed");
  if(verify||amb||t.map.empty()) mt_verify(t,amb,nm);
  return t;
}
// a structure of several different types, each of whole units, with bounds and extents of their own
MT TypeGen::mixture(const MT&old){
  std::vector<MT> mem; mem.push_back(old); int k=(int)r.range(1,3),left=max_el-(int)old.map.size(); for(int i=0;i<k;i++){ MT x=gen((int)r.below(3)); if((int)x.map.size()>left){ free_type_h(x); continue; } left-=(int)x.map.size(); mem.push_back(x); }
  if(r.chance(500)){ // one that looks like another: the same elements, with bounds made explicit, moved or not
    const MT&m=mem[r.below(mem.size())]; if((int)m.map.size()<=left&&!m.map.empty()){ i64 lo,hi; m.span(1,lo,hi); int mk=markers?(int)r.below(4):0; std::vector<Block> bs; bs.push_back(Block{1,0,&m,0}); if(mk&1) bs.push_back(Block{1,r.chance(700)?std::min(lo,m.lb):m.lb-r.range(0,3),0,1}); if(mk&2) bs.push_back(Block{1,r.chance(700)?std::max(hi,m.olb||m.oub?m.ub:hi):m.ub+r.range(0,3),0,2});
      std::vector<int> b(bs.size(),1),h; std::vector<i64> dd; for(auto&x:bs){ dd.push_back(x.disp); h.push_back(x.marker?(x.marker==1?MPI_LB:MPI_UB):x.t->h); } bool amb; MT x=mt_struct(bs,amb); api::type_struct((int)bs.size(),b.data(),dd.data(),h.data(),&x.h); x.units=m.units; snprintf(x.desc,sizeof x.desc,"like(%.60s)",m.desc); EV("look-alike types");
      if(verify||amb) mt_verify(x,amb,"look-alike"); if(x.extent()<0&&!negative) free_type_h(x); else { left-=(int)x.map.size(); mem.push_back(x); } } }
  for(int i=(int)mem.size()-1;i>0;i--) std::swap(mem[i],mem[r.below(i+1)]);
  int n=(int)r.range((int)mem.size(),(int)mem.size()+2),units=0; std::vector<int> bl,hs; std::vector<i64> d; std::vector<Block> bs; i64 cur=r.range(-30,30),a=0,b=0; bool any=false;
  std::vector<Block> w; for(int i=0;i<n;i++){ const MT&m=mem[i<(int)mem.size()?i:r.below(mem.size())]; int c=r.chance(150)&&allow_empty?0:1; if(i>=(int)mem.size()||r.chance(300)){ int room=m.map.empty()?3:left/(int)m.map.size()+1; c=std::min((int)r.range(allow_empty?0:1,3),std::max(1,room)); left-=(int)m.map.size()*(c-1); }
    i64 lo,hi; m.span(std::max(c,1),lo,hi); i64 at=cur-lo+(r.chance(500)?0:r.range(0,16)); if(r.chance(300)) at=(at+7)/8*8; w.push_back(Block{c,at,&m,0}); cur=at+hi; if(c&&!m.map.empty()){ if(!any||at+lo<a) a=at+lo; if(!any||at+hi>b) b=at+hi; any=true; } units+=c*m.units; }
  for(int i=n-1;i>0;i--) if(r.chance(600)) std::swap(w[i],w[r.below(i+1)]);
  for(int i=0;i<=n;i++){ for(int kk=1;kk<=2;kk++) if(markers&&any&&r.chance(60)){ i64 x=kk==1?a-r.range(-3,20):b+r.range(-3,20); bs.push_back(Block{1,x,0,kk}); if(kk==1) EV("LB marker"); else EV("UB marker"); } if(i<n) bs.push_back(w[i]); }
  for(auto&x:bs){ bl.push_back(x.bl); d.push_back(x.disp); hs.push_back(x.marker?(x.marker==1?MPI_LB:MPI_UB):x.t->h); }
  bool amb; MT t=mt_struct(bs,amb); api::type_struct((int)bs.size(),bl.data(),d.data(),hs.data(),&t.h); t.units=units; snprintf(t.desc,sizeof t.desc,"mix%d(%.40s|%.40s)",n,mem[0].desc,mem.back().desc); EV("type constructed"); EV("structures of different types"); if(t.extent()<0) EV("negative extents"); if(t.map.empty()) EV("empty type constructed");
  if(verify||amb||t.map.empty()) mt_verify(t,amb,"structure of different types");
  for(auto&x:mem) if(!x.named&&x.h!=old.h){ if(r.chance(500)) free_type_h(x); else garbage.push_back(x.h); }
  return t;
}
MT TypeGen::gen(int depth){
  MT t=base();
  for(int i=0;i<depth;i++){
    MT n=r.chance(130)?mixture(t):derive(t); i64 lo,hi; n.span(1,lo,hi);
    if((int)n.map.size()>max_el||hi-lo>max_span||(n.extent()<0&&!negative)||std::llabs((long long)n.extent())>max_span){ int h=n.h; api::type_free(&h); continue; }
    if(!t.named){ if(r.chance(500)){ int h=t.h; api::type_free(&h); if(h!=MPI_DATATYPE_NULL) viol("free-null","MPI_Type_free left the handle at %d",h); EV("inner type freed early"); } else garbage.push_back(t.h); }
    t=n;
  }
  if(depth>1&&r.chance(12)){ int k=(int)r.range(12,90); i64 far=0; EV("long chains of constructors"); EVMAX("constructors in one type",k);
    for(int i=0;i<k;i++){ MT n; int one=1,nil=0,h; i64 z=0; int w=(int)r.below(8); bool amb=false; char nm[8]="dup"; std::vector<Block> bs;
      if(w==0){ api::type_dup(t.h,&h); n=t; n.h=h; n.named=false; }
      else { if(w>5&&far<200){ z=r.range(-9,9); far+=9; }
        switch(w){ case 1: api::type_contiguous(1,t.h,&h); break; case 2: api::type_vector(1,1,(int)r.range(-3,3),t.h,&h); break; case 3: api::type_hvector(1,1,(i64)r.range(-30,30),t.h,&h,r.chance(500)); break;
         case 4: api::type_indexed(1,&one,&nil,t.h,&h); break; case 5: api::type_indexed_block(1,1,&nil,t.h,&h); break; case 6: api::type_hindexed(1,&one,&z,t.h,&h); break; default: api::type_struct(1,&one,&z,&t.h,&h); }
        bs.push_back(Block{1,z,&t,0}); int u=t.units; n=mt_struct(bs,amb); n.h=h; n.units=u; n.committed=false; snprintf(nm,sizeof nm,"w%d",w); add_desc(n,nm,i,t); EV("type constructed"); }
      if(verify||amb||n.map.empty()) mt_verify(n,amb,nm);
      if(!t.named){ if(r.chance(700)) free_type_h(t); else garbage.push_back(t.h); } t=n; } }
  return t;
}
void LBuf::make(const MT&t,i64 count,Rng&r,i64 extra){ i64 a,b; t.span(count,a,b); if(b>a){ a-=r.below(extra+1); b+=r.below(extra+1); } make_span(a,b,r); }
void LBuf::make_span(i64 a,i64 b,Rng&r){ lo=a; hi=b; m.alloc(hi-lo,512); r.fill(m.p(),m.n); shadow.assign(m.p(),m.p()+m.n); }
void LBuf::check(const char*key,const char*what){
  m.check(key,what);
  if(m.n&&memcmp(m.p(),shadow.data(),m.n)){ size_t i=0; while(m.p()[i]==shadow[i]) i++; size_t c=0; for(size_t k=0;k<m.n;k++) c+=m.p()[k]!=shadow[k];
    viol(key,"%s: byte at offset %ld is %02x, expected %02x (%zu of %zu bytes differ)",what,(long)(lo+(i64)i),m.p()[i],shadow[i],c,m.n); }
}
void model_read(const LBuf&b,const MT&t,i64 n,std::vector<unsigned char>&out,i64 base){
  out.clear(); for(i64 i=0;i<n;i++){ i64 o; const Elem&e=el_at(t,i,o); const unsigned char*p=b.shadow.data()+(o+base-b.lo); out.insert(out.end(),p,p+e.size); } }
void model_write(LBuf&b,const MT&t,i64 n,const unsigned char*in,i64 base){
  for(i64 i=0;i<n;i++){ i64 o; const Elem&e=el_at(t,i,o); memcpy(b.sh(o+base),in,e.size); in+=e.size; } }

bool pair_counts(const MT&a,const MT&b,Rng&r,i64 maxel,i64&ca,i64&cb){
  if(r.chance(60)){ ca=cb=0; return true; }
  if(!a.units||!b.units){ if(a.units==b.units){ ca=(i64)r.below(4); cb=(i64)r.below(4); return true; } ca=a.units?0:(i64)r.below(4); cb=b.units?0:(i64)r.below(4); return true; }
  i64 x=a.units,y=b.units; while(y){ i64 t=x%y; x=y; y=t; }
  ca=b.units/x; cb=a.units/x; i64 k=r.range(1,3); if(maxel>1000&&ca*(i64)a.map.size()<maxel&&r.chance(700)) k=r.range(1,std::max<i64>(1,maxel/std::max<i64>(1,ca*(i64)a.map.size())));
  while(k>1&&ca*k*(i64)a.map.size()>maxel) k--;
  if(ca*(i64)a.map.size()>maxel) return false;
  ca*=k; cb*=k; return true;
}
void ensure_committed(MT&t){ if(t.named||t.committed) return; int h=t.h; api::type_commit(&t.h); if(h!=t.h) viol("commit-handle","commit changed the handle"); t.committed=true; }
void free_type_h(MT&t){ if(t.named) return; api::type_free(&t.h); if(t.h!=MPI_DATATYPE_NULL) viol("free-null","MPI_Type_free left the handle at %d",t.h); }
