// One front for the C and the Fortran binding. Every output argument (and every array)
// lives in its own exactly sized guarded cell for the duration of the call.
#pragma once
#include "core.h"
extern "C" {
#include <mpi.h>
// defined by the library but not declared in mpi.h
int MPI_Address(void*,MPI_Aint*); int MPI_Get_address(void*,MPI_Aint*);
int MPI_Get_Version(int*,int*); int MPI_Info_free(MPI_Info*);
int MPI_Init_thread(int*,char***,int,int*);
}
struct FC { // constants of the Fortran side, read by compiled Fortran code including mpif.h
  int status_size, i_source, i_tag, i_error; int*status_ignore,*statuses_ignore,*in_place; int ok;
};
extern FC fc;
void fortran_side_init();

enum { LANG_C=0, LANG_F=1, LANG_MIX=2 };
extern int g_lang;
bool useF();                        // language of the next call
void check_ret(int rc,const char*name);

typedef struct { MPI_Status s; } St;   // what a call left in the status

namespace api {
  void init(); void init_thread(int required,int*provided); void finalize();
  // point to point
  void isend(const void*b,int c,int t,int d,int tag,int comm,int*req);
  void irsend(const void*b,int c,int t,int d,int tag,int comm,int*req);
  void send(int mode,const void*b,int c,int t,int d,int tag,int comm); // 0 send 1 ssend 2 rsend
  void irecv(void*b,int c,int t,int s,int tag,int comm,int*req);
  void recv(void*b,int c,int t,int s,int tag,int comm,MPI_Status*st);
  void sendrecv(const void*sb,int sc,int st_,int d,int stag,void*rb,int rc,int rt,int s,int rtag,int comm,MPI_Status*st);
  void iprobe(int s,int tag,int comm,int*flag,MPI_Status*st);
  void probe(int s,int tag,int comm,MPI_Status*st);
  // completion
  void test(int*req,int*flag,MPI_Status*st);
  void wait(int*req,MPI_Status*st);
  void testany(int n,int*reqs,int*index,int*flag,MPI_Status*st);      // index normalised to 0-based / MPI_UNDEFINED
  void waitany(int n,int*reqs,int*index,MPI_Status*st);
  void testall(int n,int*reqs,int*flag,MPI_Status*sts);
  void waitall(int n,int*reqs,MPI_Status*sts);
  void testsome(int n,int*reqs,int*outcount,int*idx,MPI_Status*sts);
  void waitsome(int n,int*reqs,int*outcount,int*idx,MPI_Status*sts);
  void request_free(int*req);
  void get_count(const MPI_Status*st,int t,int*n);
  void get_elements(const MPI_Status*st,int t,int*n);
  // types
  void type_contiguous(int n,int old,int*t);
  void type_vector(int n,int bl,int stride,int old,int*t);
  void type_hvector(int n,int bl,i64 stride,int old,int*t,bool create);
  void type_indexed(int n,const int*bl,const int*d,int old,int*t);
  void type_indexed_block(int n,int bl,const int*d,int old,int*t);
  void type_hindexed(int n,const int*bl,const i64*d,int old,int*t);
  void type_struct(int n,const int*bl,const i64*d,const int*old,int*t);
  void type_dup(int old,int*t);
  void type_commit(int*t); void type_free(int*t);
  int  type_size(int t); i64 type_extent(int t); i64 type_lb(int t); i64 type_ub(int t);
  i64 address(const void*p);
  // pack
  void pack(const void*in,int n,int t,void*out,int outsize,int*pos,int comm);
  void unpack(const void*in,int insize,int*pos,void*out,int n,int t,int comm);
  i64 pack_size(int n,int t,int comm);
  // communicators and groups
  void comm_dup(int c,int*n); void comm_free(int*c); void comm_split(int c,int color,int key,int*n);
  void comm_create(int c,int g,int*n); void comm_group(int c,int*g); int comm_size(int c); int comm_rank(int c);
  void intercomm_create(int lc,int ll,int pc,int rl,int tag,int*n); void intercomm_merge(int c,int high,int*n);
  void group_incl(int g,int n,const int*r,int*ng); void group_range_incl(int g,int n,const int (*r)[3],int*ng);
  void group_union(int a,int b,int*n); void group_intersection(int a,int b,int*n); void group_difference(int a,int b,int*n);
  void group_translate(int g1,int n,const int*r1,int g2,int*r2); void group_free(int*g);
  void cart_create(int c,int nd,const int*dims,const int*per,int reorder,int*n);
  void cart_get(int c,int maxd,int*dims,int*per,int*coords);   // arrays of maxd ints
  void cart_coords(int c,int rank,int maxd,int*coords);
  void dims_create(int nn,int nd,int*dims);
  // collectives (IN_PLACE given as the C constant; translated for Fortran)
  void barrier(int c);
  void bcast(void*b,int n,int t,int root,int c);
  void gather(const void*s,int sn,int st,void*r,int rn,int rt,int root,int c);
  void gatherv(const void*s,int sn,int st,void*r,const int*rn,const int*d,int rt,int root,int c);
  void allgather(const void*s,int sn,int st,void*r,int rn,int rt,int c);
  void allgatherv(const void*s,int sn,int st,void*r,const int*rn,const int*d,int rt,int c);
  void scatter(const void*s,int sn,int st,void*r,int rn,int rt,int root,int c);
  void scatterv(const void*s,const int*sn,const int*d,int st,void*r,int rn,int rt,int root,int c);
  void reduce(const void*s,void*r,int n,int t,int op,int root,int c);
  void allreduce(const void*s,void*r,int n,int t,int op,int c);
  void reduce_scatter(const void*s,void*r,const int*n,int t,int op,int c);
  void scan(const void*s,void*r,int n,int t,int op,int c);
  void alltoall(const void*s,int sn,int st,void*r,int rn,int rt,int c);
  void alltoallv(const void*s,const int*sn,const int*sd,int st,void*r,const int*rn,const int*rd,int rt,int c);
  void alltoallw(const void*s,const int*sn,const int*sd,const int*st,void*r,const int*rn,const int*rd,const int*rt,int c);
  void op_create(int*op,int commute); void op_free(int*op);
}
