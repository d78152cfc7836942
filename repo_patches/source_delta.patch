From 047211674446263042edda145eeaf68e97f0d572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:12 +0000
Subject: [PATCH 01/30] fix: make MPI_Aint signed so that negative
 displacements and bounds compare correctly

---
 mpi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpi.h b/mpi.h
index 82cff25..b66e48f 100644
--- a/mpi.h
+++ b/mpi.h
@@ -63,7 +63,7 @@ typedef int MPI_Group;
  * Data types etc.
  */
 
-typedef unsigned long int MPI_Aint;
+typedef long int MPI_Aint;
 #define MPI_BOTTOM (0)
 #define MPI_IN_PLACE (void *)(-1)
 typedef int MPI_Datatype;
-- 
2.43.0


From 59bbd1793d2965bf817fd5365bc84d452b86b865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:19 +0000
Subject: [PATCH 02/30] fix: initialise the bound override flags of a derived
 datatype

---
 type.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/type.c b/type.c
index 4e7d661..fb38299 100644
--- a/type.c
+++ b/type.c
@@ -359,6 +359,10 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
   //type is NOT committed
   temp->committed = 0;
 
+  //bounds are not overridden unless found below
+  temp->o_lb = 0;
+  temp->o_ub = 0;
+
   //assign upper and lower bounds here
   if (override_lower)
   {
-- 
2.43.0


From fcf4f353328b20ba6cd1f7da7779a43d34439b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:27 +0000
Subject: [PATCH 03/30] fix: compute datatype bounds at full width and give
 empty datatypes defined bounds

---
 type.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/type.c b/type.c
index fb38299..832a3cf 100644
--- a/type.c
+++ b/type.c
@@ -45,7 +45,7 @@ Datatype* mpi_handle_to_datatype(int handle)
 
 int calc_padding(Datatype datatype)
 {
-  long size_max = INT_MIN;
+  long size_max = 1;   //no padding needed for an empty typemap
   long type_len;
   int i;
   //find the largest datatype size.  The epsilon padding is (probably) based on this.
@@ -147,9 +147,12 @@ int Simpletype_length(Simpletype t)
 long calc_lb(Datatype type)
 {
   int i;
-  int min_disp = INT_MAX;
+  long min_disp = LONG_MAX;
   typepair * tp;
 
+  if (type->count == 0)   //empty typemap
+    return 0;
+
   for(i =0; i < type->count; i++)
   {
     tp =  type->pairs+i;
@@ -168,9 +171,12 @@ long calc_lb(Datatype type)
 long calc_ub(Datatype type)
 {
   int i;
-  long max_disp = INT_MIN;
+  long max_disp = LONG_MIN;
   typepair * tp;
 
+  if (type->count == 0)   //empty typemap
+    return 0;
+
   for(i = 0; i < type->count; i++)
   {
     tp = type->pairs+i;
-- 
2.43.0


From b1e2145a03fa248d3140ffe9654197ceb4d133b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:34 +0000
Subject: [PATCH 04/30] fix: handle empty blocks, empty component types and
 bare bound markers in datatype construction

---
 type.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/type.c b/type.c
index 832a3cf..2462540 100644
--- a/type.c
+++ b/type.c
@@ -133,6 +133,9 @@ int Simpletype_length(Simpletype t)
       return sizeof(unsigned long long); break;
     case SIMPLE_OFFSET:
       return sizeof(MPI_Offset); break;
+    case SIMPLE_LOWER:
+    case SIMPLE_UPPER:
+      return 0; break;
 
     default:
       printf("Invalid simple type\n");
@@ -256,6 +259,14 @@ int Copy_type(typepair *source, typepair *dest)
 
 }
 
+/* Whether a type is the named type MPI_LB or MPI_UB
+ * (an empty type has no first typemap entry to look at)
+ */
+static int is_marker(Datatype type, Simpletype marker)
+{
+  return type->count > 0 && type->pairs[0].type == marker;
+}
+
 /*******************************************************/
 /* MPI_Type_struct is the most general type constructor that
  * does the common work other constructors.
@@ -283,14 +294,18 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
     // cases and will be skipped over
 
     temp2 = oldtypes_ptr[i];
-    if (temp2->pairs[0].type == SIMPLE_LOWER)
+
+    if (blocklens[i] == 0)  //contributes nothing, not even its bounds
+      continue;
+
+    if (is_marker(temp2, SIMPLE_LOWER))
     {
       //found MPI_LB.  This is a candidate for the actual lb
       if (new_lb > displacements[i])
         new_lb = displacements[i];
       override_lower = 1;
     }
-    else if (temp2->pairs[0].type == SIMPLE_UPPER)
+    else if (is_marker(temp2, SIMPLE_UPPER))
     {
       //same as above, but ub
       if (new_ub < displacements[i])
@@ -330,8 +345,8 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
 
     //test for previous MPI_LB or MPI_UB in one of the comprising types.
     //If found, skip over.
-    if (!((temp2->pairs[0].type == SIMPLE_LOWER) ||
-          (temp2->pairs[0].type == SIMPLE_UPPER)))
+    if (!(is_marker(temp2, SIMPLE_LOWER) ||
+          is_marker(temp2, SIMPLE_UPPER)))
     {
       for (j = 0; j < blocklens[i]; j++)
       {
-- 
2.43.0


From 959ed126b4d91651bafa4bb0162033c237ad432d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:23 +0000
Subject: [PATCH 05/30] fix: keep datatype constructor scratch arrays off the
 stack and check their allocation

---
 handles.c |  7 +++---
 mpiP.h    |  2 +-
 type.c    | 70 ++++++++++++++++++++++++++++++++++++-------------------
 3 files changed, 51 insertions(+), 28 deletions(-)

diff --git a/handles.c b/handles.c
index 7618498..d17ffe4 100644
--- a/handles.c
+++ b/handles.c
@@ -76,15 +76,16 @@ static Handleitem *nextfree;
 
 /************************************************************************/
 
-void *mpi_malloc(int size)
+void *mpi_malloc(size_t size)
 {
   void *ret;
 
-  ret=malloc(size);
+  ret=malloc(size ? size : 1);
 
   if (!ret)
     {
-      fprintf(stderr,"mpi_malloc: failed to allocate %d bytes\n",size);
+      fprintf(stderr,"mpi_malloc: failed to allocate %lu bytes\n",
+	      (unsigned long)size);
       abort();
     }
 
diff --git a/mpiP.h b/mpiP.h
index b03794f..bcd8c01 100644
--- a/mpiP.h
+++ b/mpiP.h
@@ -109,7 +109,7 @@ typedef struct
 extern int copy_data2(void * source, int src_count, MPI_Datatype src_type,
                       void * dest, int dest_count, MPI_Datatype dest_type);
 
-extern void *mpi_malloc(int size);
+extern void *mpi_malloc(size_t size);
 extern void mpi_free(void *ptr);
 
 extern MPI_Comm mpi_comm_new(void);
diff --git a/type.c b/type.c
index 2462540..ea5e0bd 100644
--- a/type.c
+++ b/type.c
@@ -329,7 +329,7 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
       simpletype_count += blocklens[i] * oldtypes_ptr[i]->count;
     }
   }
-  temp = malloc(sizeof(Typestruct) +
+  temp = mpi_malloc(sizeof(Typestruct) +
                ((simpletype_count-1) * sizeof(typepair)));
 
   temp->count = simpletype_count;
@@ -428,8 +428,8 @@ int FC_FUNC( mpi_type_struct, MPI_TYPE_STRUCT )
 int MPI_Type_struct(int count, int * blocklens, MPI_Aint * displacements,
                     MPI_Datatype *oldtypes,     MPI_Datatype *newtype)
 {
-    int i;
-    Datatype oldtypes_ptr[count];
+    int i, ret;
+    Datatype *oldtypes_ptr = mpi_malloc(count * sizeof(Datatype));
     Datatype * newtype_ptr;
 
     for (i = 0; i < count; i++)
@@ -439,8 +439,11 @@ int MPI_Type_struct(int count, int * blocklens, MPI_Aint * displacements,
 
     mpi_alloc_handle(newtype, (void**) &newtype_ptr);
 
-    return Type_struct(count, blocklens, displacements,
-                       oldtypes_ptr, newtype_ptr);
+    ret = Type_struct(count, blocklens, displacements,
+                      oldtypes_ptr, newtype_ptr);
+
+    mpi_free(oldtypes_ptr);
+    return ret;
 }
 
 /*******************************************************/
@@ -451,10 +454,10 @@ int MPI_Type_struct(int count, int * blocklens, MPI_Aint * displacements,
 
 int Type_contiguous(int count, Datatype oldtype, Datatype *newtype)
 {
-    int i;
-    int blocklengths[count];
-    Datatype oldtypes[count];
-    MPI_Aint offsets[count];
+    int i, ret;
+    int *blocklengths = mpi_malloc(count * sizeof(int));
+    Datatype *oldtypes = mpi_malloc(count * sizeof(Datatype));
+    MPI_Aint *offsets = mpi_malloc(count * sizeof(MPI_Aint));
     MPI_Aint extent;
 
     //each copy is strided by the extent of the datatype.
@@ -466,7 +469,12 @@ int Type_contiguous(int count, Datatype oldtype, Datatype *newtype)
         offsets[i] = extent * i;
         oldtypes[i] = oldtype;
     }
-    return Type_struct(count, blocklengths, offsets, oldtypes, newtype);
+    ret = Type_struct(count, blocklengths, offsets, oldtypes, newtype);
+
+    mpi_free(blocklengths);
+    mpi_free(oldtypes);
+    mpi_free(offsets);
+    return ret;
 }
 
 int FC_FUNC( mpi_type_contiguous, MPI_TYPE_CONTIGUOUS )
@@ -491,10 +499,10 @@ int MPI_Type_contiguous(int count, MPI_Datatype old, MPI_Datatype * new)
 int Type_hvector(int count, int blocklen, MPI_Aint stride,
                  Datatype oldtype, Datatype *newtype)
 {
-    int i;
-    int blocklengths[count];
-    Datatype oldtypes[count];
-    MPI_Aint offsets[count];
+    int i, ret;
+    int *blocklengths = mpi_malloc(count * sizeof(int));
+    Datatype *oldtypes = mpi_malloc(count * sizeof(Datatype));
+    MPI_Aint *offsets = mpi_malloc(count * sizeof(MPI_Aint));
     MPI_Aint extent;
 
     Type_extent(oldtype, &extent);
@@ -505,7 +513,12 @@ int Type_hvector(int count, int blocklen, MPI_Aint stride,
         oldtypes[i] = oldtype;
     }
 
-    return Type_struct(count, blocklengths, offsets, oldtypes, newtype);
+    ret = Type_struct(count, blocklengths, offsets, oldtypes, newtype);
+
+    mpi_free(blocklengths);
+    mpi_free(oldtypes);
+    mpi_free(offsets);
+    return ret;
 }
 
 int FC_FUNC( mpi_type_hvector, MPI_TYPE_HVECTOR )
@@ -587,15 +600,18 @@ int MPI_Type_vector(int count, int blocklen, int stride,
 int Type_hindexed(int count, int *blocklens, MPI_Aint *displacements,
                   Datatype oldtype, Datatype *newtype)
 {
-    int i;
-    Datatype oldtypes[count];
+    int i, ret;
+    Datatype *oldtypes = mpi_malloc(count * sizeof(Datatype));
 
     for (i = 0; i < count; i++)
     {
         oldtypes[i] = oldtype;
     }
 
-    return Type_struct(count, blocklens, displacements, oldtypes, newtype);
+    ret = Type_struct(count, blocklens, displacements, oldtypes, newtype);
+
+    mpi_free(oldtypes);
+    return ret;
 }
 
 int FC_FUNC( mpi_type_hindexed, MPI_TYPE_HINDEXED )
@@ -623,9 +639,9 @@ int MPI_Type_hindexed(int count, int *blocklens, MPI_Aint * disps,
 int Type_indexed(int count, int *blocklens, int *displacements,
                  Datatype oldtype, Datatype *newtype)
 {
-    int i;
+    int i, ret;
     MPI_Aint extent;
-    MPI_Aint bdisps[count];
+    MPI_Aint *bdisps = mpi_malloc(count * sizeof(MPI_Aint));
 
     for (i = 0; i < count; i++)
     {
@@ -633,7 +649,10 @@ int Type_indexed(int count, int *blocklens, int *displacements,
         bdisps[i] = displacements[i] * extent;
     }
 
-    return Type_hindexed(count, blocklens, bdisps, oldtype, newtype);
+    ret = Type_hindexed(count, blocklens, bdisps, oldtype, newtype);
+
+    mpi_free(bdisps);
+    return ret;
 }
 
 int FC_FUNC( mpi_type_indexed, MPI_TYPE_INDEXED )
@@ -660,13 +679,16 @@ int MPI_Type_indexed(int count, int *blocklens, int *displacements,
 int Type_create_indexed_block(int count, int blocklen, int *displacements,
 			      Datatype oldtype, Datatype *newtype)
 {
-    int i;
-    int blocklens[count];
+    int i, ret;
+    int *blocklens = mpi_malloc(count * sizeof(int));
 
     for (i = 0; i < count; i++)
         blocklens[i] = blocklen;
 
-    return Type_indexed(count, blocklens, displacements, oldtype, newtype);
+    ret = Type_indexed(count, blocklens, displacements, oldtype, newtype);
+
+    mpi_free(blocklens);
+    return ret;
 }
 
 int FC_FUNC( mpi_type_create_indexed_block, MPI_TYPE_CREATE_INDEXED_BLOCK )
-- 
2.43.0


From 702f30b48e8f7e9a4cbbf0d58fab1a77949af73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:30 +0000
Subject: [PATCH 06/30] fix: provide MPI_Type_dup, declared in mpi.h but
 missing, as a complete copy

---
 type.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/type.c b/type.c
index ea5e0bd..f8049d3 100644
--- a/type.c
+++ b/type.c
@@ -716,7 +716,9 @@ int Type_dup(Datatype oldtype, Datatype *newtype)
 {
   int i;
   //create a deep copy of given Datatype
-  *newtype = malloc(sizeof(oldtype));
+  *newtype = mpi_malloc(sizeof(Typestruct) +
+                        ((oldtype->count-1) * sizeof(typepair)));
+  (*newtype)->count = oldtype->count;
   (*newtype)->committed = oldtype->committed;
   (*newtype)->lb = oldtype->lb;
   (*newtype)->ub = oldtype->ub;
@@ -731,6 +733,23 @@ int Type_dup(Datatype oldtype, Datatype *newtype)
   return MPI_SUCCESS;
 }
 
+int FC_FUNC( mpi_type_dup, MPI_TYPE_DUP )(int * oldtype, int * newtype, int * ierr)
+{
+  *ierr = MPI_Type_dup(*oldtype, newtype);
+  return MPI_SUCCESS;
+}
+
+int MPI_Type_dup(MPI_Datatype oldtype, MPI_Datatype * newtype)
+{
+  Datatype old_ptr = *(Datatype*) mpi_handle_to_datatype(oldtype);
+  Datatype * new_ptr;
+
+  mpi_alloc_handle(newtype, (void**) &new_ptr);
+  return Type_dup(old_ptr, new_ptr);
+}
+
+/*******************************************************/
+
 /* MPI_Type_size:  Returns the sum of the lengths of each simple
  * type that makes up the data type argument
  */
-- 
2.43.0


From 947c3aab9f87f2fc4ab4c8600c0e419647b2e1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:37 +0000
Subject: [PATCH 07/30] fix: pad datatypes holding complex numbers to the
 alignment of their components

---
 type.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/type.c b/type.c
index f8049d3..4d320a7 100644
--- a/type.c
+++ b/type.c
@@ -38,9 +38,30 @@ Datatype* mpi_handle_to_datatype(int handle)
     return (Datatype*) mpi_handle_to_ptr(handle);
 }
 
+/*
+ * Alignment requirement of a simple type
+ */
+
+static int Simpletype_alignment(Simpletype t)
+{
+  switch(t)
+  {
+    case SIMPLE_FCOMPLEX:
+    case SIMPLE_FDCOMPLEX:
+    case SIMPLE_FCOMPLEX8:
+    case SIMPLE_FCOMPLEX16:
+    case SIMPLE_FCOMPLEX32:
+      //aligned as the real and imaginary parts it is made of
+      return Simpletype_length(t)/2;
+
+    default:
+      return Simpletype_length(t);
+  }
+}
+
 /*
  * Calculate the epsilon value of typemap
- * using the largest element in the typemap
+ * using the most strictly aligned element in the typemap
  */
 
 int calc_padding(Datatype datatype)
@@ -52,7 +73,7 @@ int calc_padding(Datatype datatype)
 
   for (i = 0; i < datatype->count; i++)
   {
-    type_len = Simpletype_length(datatype->pairs[i].type);
+    type_len = Simpletype_alignment(datatype->pairs[i].type);
     size_max = type_len > size_max ? type_len : size_max;
   }
 
-- 
2.43.0


From a242abfeecde41b9b57314868ec4dd68e86919d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:45 +0000
Subject: [PATCH 08/30] fix: include the alignment padding in the upper bound
 reported by MPI_Type_ub

---
 type.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/type.c b/type.c
index 4d320a7..2de9cba 100644
--- a/type.c
+++ b/type.c
@@ -824,7 +824,11 @@ int MPI_Type_lb(MPI_Datatype type, MPI_Aint * lb)
  */
 int Type_ub(Datatype type, MPI_Aint * ub)
 {
-    *ub = type->ub;
+  MPI_Aint extent;
+
+  //includes the padding, as the extent does
+  Type_extent(type, &extent);
+  *ub = type->lb + extent;
   return MPI_SUCCESS;
 }
 
-- 
2.43.0


From a157443a2c8f651f169342726f310ae7ee28f2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:19 +0000
Subject: [PATCH 09/30] fix: read the Fortran block length of MPI_TYPE_HVECTOR
 and MPI_TYPE_CREATE_HVECTOR as INTEGER

---
 type.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/type.c b/type.c
index 2de9cba..b948905 100644
--- a/type.c
+++ b/type.c
@@ -543,7 +543,7 @@ int Type_hvector(int count, int blocklen, MPI_Aint stride,
 }
 
 int FC_FUNC( mpi_type_hvector, MPI_TYPE_HVECTOR )
-         (int * count,   long * blocklen, long * stride,
+         (int * count,   int * blocklen, MPI_Aint * stride,
           int * oldtype, int * newtype,   int * ierr)
 {
   *ierr = MPI_Type_hvector(*count, *blocklen, *stride, *oldtype, newtype);
@@ -561,7 +561,7 @@ int MPI_Type_hvector(int count, int blocklen, MPI_Aint stride,
 }
 
 int FC_FUNC( mpi_type_create_hvector, MPI_TYPE_CREATE_HVECTOR )
-         (int * count,   long * blocklen, long * stride,
+         (int * count,   int * blocklen, MPI_Aint * stride,
           int * oldtype, int * newtype,   int * ierr)
 {
   *ierr = MPI_Type_create_hvector(*count, *blocklen, *stride, *oldtype, newtype);
-- 
2.43.0


From 8152d74a6c440bd8d828e0c23ac12c7ab3fcd983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:27 +0000
Subject: [PATCH 10/30] fix: give MPI_SIGNED_CHAR, MPI_WCHAR and MPI_INTEGER16
 the datatype their names promise

---
 type.c       |  7 +++++++
 type.h       |  3 +++
 type_const.c | 11 ++++++++++-
 3 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/type.c b/type.c
index b948905..961cbaa 100644
--- a/type.c
+++ b/type.c
@@ -9,6 +9,7 @@
 #include <stdlib.h>
 #include <stdio.h>
 #include <limits.h>
+#include <stddef.h>
 
 #ifdef HAVE_CONFIG_H
 #include <config.h>
@@ -136,6 +137,8 @@ int Simpletype_length(Simpletype t)
       return 4; break;
     case SIMPLE_FINTEGER8:
       return 8; break;
+    case SIMPLE_FINTEGER16:
+      return 16; break;
     case SIMPLE_FREAL4:
       return 4; break;
     case SIMPLE_FREAL8:
@@ -154,6 +157,10 @@ int Simpletype_length(Simpletype t)
       return sizeof(unsigned long long); break;
     case SIMPLE_OFFSET:
       return sizeof(MPI_Offset); break;
+    case SIMPLE_SCHAR:
+      return sizeof(signed char); break;
+    case SIMPLE_WCHAR:
+      return sizeof(wchar_t); break;
     case SIMPLE_LOWER:
     case SIMPLE_UPPER:
       return 0; break;
diff --git a/type.h b/type.h
index f495289..069b9a2 100644
--- a/type.h
+++ b/type.h
@@ -79,6 +79,9 @@ typedef Typestruct* Datatype;
 
 #define SIMPLE_OFFSET      34
 
+#define SIMPLE_SCHAR       35
+#define SIMPLE_WCHAR       36
+
 //internal type functions
 int Simpletype_length(Simpletype s);
 int Type_extent(Datatype datatype, MPI_Aint * extent);
diff --git a/type_const.c b/type_const.c
index 6afa7f0..8a65808 100644
--- a/type_const.c
+++ b/type_const.c
@@ -1,4 +1,5 @@
 #include "type.h"
+#include <stddef.h>
 
   /* Here are the statically initialized structs for the predefined datatypes.
    */
@@ -162,6 +163,14 @@ Typestruct TSoffset = {.count = 1,   .lb = 0,   .ub=sizeof(MPI_Offset),
 			    {.disp = 0,   .type = (Simpletype) SIMPLE_OFFSET }};
 
 
+Typestruct TSschar = {.count=1,   .lb=0,   .ub=sizeof(signed char),
+                            .committed=1, .o_lb = 0, .o_ub = 0, .pairs[0]=
+			    {.disp = 0,   .type = (Simpletype) SIMPLE_SCHAR }};
+
+Typestruct TSwchar = {.count=1,   .lb=0,   .ub=sizeof(wchar_t),
+                            .committed=1, .o_lb = 0, .o_ub = 0, .pairs[0]=
+			    {.disp = 0,   .type = (Simpletype) SIMPLE_WCHAR }};
+
 
  /* RML NOTE: the order and numbering of the elements of simpletypes[] MUST match
   * the values for the MPI type constants e.g. MPI_INT
@@ -180,7 +189,7 @@ Typestruct TSoffset = {.count = 1,   .lb = 0,   .ub=sizeof(MPI_Offset),
                        &TSinteger2, &TSinteger4  , &TSinteger8   , &TSinteger16,  //32
                        &TSreal4	  , &TSreal8	 , &TSreal16     , &TScomplex8,   //36
                        &TScomplex16, &TScomplex32, &TSlonglong   , &TSulonglong,  //40
-                       &TSoffset
+                       &TSoffset  , &TSschar     , &TSwchar                       //44
                        };
 
 
-- 
2.43.0


From e6ea8c6a509e0e714af523420fcdd7a6ed571718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:34 +0000
Subject: [PATCH 11/30] fix: compute copy and displacement offsets at full
 address width

---
 collective.c | 10 +++++-----
 copy.c       | 10 ++++++----
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/collective.c b/collective.c
index 39c5361..607fd66 100644
--- a/collective.c
+++ b/collective.c
@@ -108,7 +108,7 @@ int MPI_Gatherv(void* sendbuf, int sendcount, MPI_Datatype sendtype,
 		void* recvbuf, int *recvcounts, int *displs,
 		MPI_Datatype recvtype, int root, MPI_Comm comm)
 {
-  int offset;
+  MPI_Aint offset;
   MPI_Aint rt_extent;
 
   if (sendbuf==MPI_IN_PLACE)
@@ -186,7 +186,7 @@ int MPI_Allgatherv(void* sendbuf, int sendcount, MPI_Datatype sendtype,
 		   void* recvbuf, int *recvcounts, int *displs,
                    MPI_Datatype recvtype, MPI_Comm comm)
 {
-  int offset;
+  MPI_Aint offset;
   MPI_Aint rt_extent;
 
   if (sendbuf==MPI_IN_PLACE)
@@ -266,7 +266,7 @@ int MPI_Scatterv(void* sendbuf, int *sendcounts, int *displs,
 		 MPI_Datatype sendtype, void* recvbuf, int recvcount,
 		 MPI_Datatype recvtype, int root, MPI_Comm comm)
 {
-  int offset;
+  MPI_Aint offset;
   MPI_Aint st_extent;
 
   if (recvbuf==MPI_IN_PLACE)
@@ -449,8 +449,8 @@ int MPI_Alltoallv(void *sendbuf, int *sendcounts,
                   MPI_Comm comm)
 
 {
-  int send_offset;
-  int recv_offset;
+  MPI_Aint send_offset;
+  MPI_Aint recv_offset;
   MPI_Aint st_extent;
   MPI_Aint rt_extent;
 
diff --git a/copy.c b/copy.c
index f231600..32b8196 100644
--- a/copy.c
+++ b/copy.c
@@ -42,8 +42,8 @@ int copy_data2(void *source, int src_count, MPI_Datatype src_type,
 int Pcopy_data2(void *source, int src_count, Datatype src_type,
                 void *dest, int dest_count, Datatype dest_type)
 {
-  int i;
-  int soffset, doffset;
+  long i, nelem;
+  MPI_Aint soffset, doffset;
   MPI_Aint src_extent, dest_extent;
 
   //commit checking here, since if any datatype is used in this function
@@ -58,7 +58,9 @@ int Pcopy_data2(void *source, int src_count, Datatype src_type,
   // A receive of less elements than sent
   // is valid, but the reverse is a violation
 
-  if (src_type->count * src_count < dest_type->count * dest_count)
+  nelem = (long)dest_type->count * dest_count;
+
+  if ((long)src_type->count * src_count < nelem)
   {
     printf("copy_data: Trying to over-receive\n");
     exit(1);
@@ -67,7 +69,7 @@ int Pcopy_data2(void *source, int src_count, Datatype src_type,
   Type_extent(src_type, &src_extent);
   Type_extent(dest_type, &dest_extent);
 
-  for (i = 0; i < dest_count * dest_type->count; i++)
+  for (i = 0; i < nelem; i++)
   {
 
 #ifdef TYPE_CHECKING
-- 
2.43.0


From b2131fae24c41624c9732b222cae78c9c05e8262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:41 +0000
Subject: [PATCH 12/30] fix: MPI_Pack_size must not print to standard output

---
 pack.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pack.c b/pack.c
index e7efba2..82719ed 100644
--- a/pack.c
+++ b/pack.c
@@ -70,7 +70,6 @@ int Pack_size(int incount, Datatype datatype,
         *size += Simpletype_length(datatype->pairs[i].type);
     }
     *size *= incount;
-    printf("Size = %d\n", *size);
   return MPI_SUCCESS;
 }
 
-- 
2.43.0


From 6fdab97f025763efa7d89a4130c43eaf3804dd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:48 +0000
Subject: [PATCH 13/30] fix: MPI_PACK_SIZE stores a default INTEGER, not an
 address-sized one

---
 pack.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pack.c b/pack.c
index 82719ed..643d7d1 100644
--- a/pack.c
+++ b/pack.c
@@ -74,9 +74,12 @@ int Pack_size(int incount, Datatype datatype,
 }
 
 int FC_FUNC( mpi_pack_size, MPI_PACK_SIZE )(int * incount, int * datatype,
-                                          int * comm, MPI_Aint * size, int *ierr)
+                                          int * comm, int * size, int *ierr)
 {
-  *ierr = MPI_Pack_size(*incount, *datatype, *comm, size);
+  MPI_Aint asize;
+
+  *ierr = MPI_Pack_size(*incount, *datatype, *comm, &asize);
+  *size = asize;   /* the Fortran argument is a default INTEGER */
   return MPI_SUCCESS;
 }
 
-- 
2.43.0


From f8f9a19c2a2573873838ab3fe22e4f9093049564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:57 +0000
Subject: [PATCH 14/30] fix: deliver what the sender sent, whether it was
 posted before or after the receive and however short

---
 copy.c | 36 +++++++++++++++++++++++++++++-------
 mpiP.h |  3 +++
 recv.c |  3 ++-
 send.c |  4 +++-
 4 files changed, 37 insertions(+), 9 deletions(-)

diff --git a/copy.c b/copy.c
index 32b8196..f042342 100644
--- a/copy.c
+++ b/copy.c
@@ -24,7 +24,8 @@
  */
 
 extern int Pcopy_data2(void *source, int src_count, Datatype src_type,
-		       void *dest, int dest_count, Datatype dest_type);
+		       void *dest, int dest_count, Datatype dest_type,
+		       int partial);
 
 
 int copy_data2(void *source, int src_count, MPI_Datatype src_type,
@@ -33,16 +34,31 @@ int copy_data2(void *source, int src_count, MPI_Datatype src_type,
   Datatype src_ptr = *(Datatype*) mpi_handle_to_datatype(src_type);
   Datatype dest_ptr = *(Datatype*) mpi_handle_to_datatype(dest_type);
 
-  return Pcopy_data2(source, src_count, src_ptr, dest, dest_count, dest_ptr);
+  return Pcopy_data2(source, src_count, src_ptr, dest, dest_count, dest_ptr, 0);
+}
+
+
+/*
+ * deliver a point-to-point message: unlike the contribution to a
+ * collective it may be shorter than what the receiver has room for
+ */
+int copy_message(void *source, int src_count, MPI_Datatype src_type,
+                 void *dest, int dest_count, MPI_Datatype dest_type)
+{
+  Datatype src_ptr = *(Datatype*) mpi_handle_to_datatype(src_type);
+  Datatype dest_ptr = *(Datatype*) mpi_handle_to_datatype(dest_type);
+
+  return Pcopy_data2(source, src_count, src_ptr, dest, dest_count, dest_ptr, 1);
 }
 
 
 
 
 int Pcopy_data2(void *source, int src_count, Datatype src_type,
-                void *dest, int dest_count, Datatype dest_type)
+                void *dest, int dest_count, Datatype dest_type,
+                int partial)
 {
-  long i, nelem;
+  long i, nelem, sent;
   MPI_Aint soffset, doffset;
   MPI_Aint src_extent, dest_extent;
 
@@ -57,13 +73,19 @@ int Pcopy_data2(void *source, int src_count, Datatype src_type,
 
   // A receive of less elements than sent
   // is valid, but the reverse is a violation
+  // (unless part of what the receiver has room for is acceptable)
 
   nelem = (long)dest_type->count * dest_count;
+  sent = (long)src_type->count * src_count;
 
-  if ((long)src_type->count * src_count < nelem)
+  if (sent < nelem)
   {
-    printf("copy_data: Trying to over-receive\n");
-    exit(1);
+    if (!partial)
+    {
+      printf("copy_data: Trying to over-receive\n");
+      exit(1);
+    }
+    nelem = sent;
   }
 
   Type_extent(src_type, &src_extent);
diff --git a/mpiP.h b/mpiP.h
index bcd8c01..66d38e9 100644
--- a/mpiP.h
+++ b/mpiP.h
@@ -109,6 +109,9 @@ typedef struct
 extern int copy_data2(void * source, int src_count, MPI_Datatype src_type,
                       void * dest, int dest_count, MPI_Datatype dest_type);
 
+extern int copy_message(void * source, int src_count, MPI_Datatype src_type,
+                        void * dest, int dest_count, MPI_Datatype dest_type);
+
 extern void *mpi_malloc(size_t size);
 extern void mpi_free(void *ptr);
 
diff --git a/recv.c b/recv.c
index 37aa2c4..d875d6d 100644
--- a/recv.c
+++ b/recv.c
@@ -78,7 +78,8 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
       AP_list_delete_item(mycomm->sendlist,match);
 
 //      memcpy(buf,sreq->buf,count * datatype);
-      copy_data2(sreq->buf, count, datatype, buf, count, datatype);
+      copy_message(sreq->buf, sreq->count, sreq->type,
+                   buf, count, datatype);
       rreq->complete=1;
       rreq->source=0;
       rreq->tag=sreq->tag;                   /* in case tag was MPI_ANY_TAG */
diff --git a/send.c b/send.c
index b2a0475..8670f10 100644
--- a/send.c
+++ b/send.c
@@ -67,7 +67,7 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
       rreq=(Req *)AP_listitem_data(match);
       AP_list_delete_item(mycomm->recvlist,match);
 
-      copy_data2(buf, count, datatype, rreq->buf, rreq->count, rreq->type);
+      copy_message(buf, count, datatype, rreq->buf, rreq->count, rreq->type);
       rreq->complete=1;
       rreq->source=0;
       rreq->tag=tag;                    /* in case rreq->tag was MPI_ANY_TAG */
@@ -83,6 +83,8 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
     }
 
   sreq->buf=buf;
+  sreq->count=count;
+  sreq->type=datatype;
   sreq->tag=tag;
   sreq->complete=0;
   sreq->listitem=AP_list_append(mycomm->sendlist,sreq);
-- 
2.43.0


From b7d3e1dfc1c6eb76aff56b49a3a0b79d8037b7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:30 +0000
Subject: [PATCH 15/30] fix: report the number of elements actually received in
 every status

---
 copy.c     | 23 +++++++++++++++--------
 getcount.c | 13 ++++++++++---
 mpi.h      |  2 +-
 mpiP.h     |  4 +++-
 probe.c    |  3 +++
 recv.c     |  6 ++----
 req.c      |  2 ++
 send.c     |  8 +++++---
 8 files changed, 41 insertions(+), 20 deletions(-)

diff --git a/copy.c b/copy.c
index f042342..1fdc7c3 100644
--- a/copy.c
+++ b/copy.c
@@ -25,7 +25,7 @@
 
 extern int Pcopy_data2(void *source, int src_count, Datatype src_type,
 		       void *dest, int dest_count, Datatype dest_type,
-		       int partial);
+		       int *elements);
 
 
 int copy_data2(void *source, int src_count, MPI_Datatype src_type,
@@ -34,29 +34,33 @@ int copy_data2(void *source, int src_count, MPI_Datatype src_type,
   Datatype src_ptr = *(Datatype*) mpi_handle_to_datatype(src_type);
   Datatype dest_ptr = *(Datatype*) mpi_handle_to_datatype(dest_type);
 
-  return Pcopy_data2(source, src_count, src_ptr, dest, dest_count, dest_ptr, 0);
+  return Pcopy_data2(source, src_count, src_ptr, dest, dest_count, dest_ptr, NULL);
 }
 
 
 /*
  * deliver a point-to-point message: unlike the contribution to a
- * collective it may be shorter than what the receiver has room for
+ * collective it may be shorter than what the receiver has room for.
+ * The number of basic elements delivered is reported in *elements.
  */
 int copy_message(void *source, int src_count, MPI_Datatype src_type,
-                 void *dest, int dest_count, MPI_Datatype dest_type)
+                 void *dest, int dest_count, MPI_Datatype dest_type,
+                 int *elements)
 {
   Datatype src_ptr = *(Datatype*) mpi_handle_to_datatype(src_type);
   Datatype dest_ptr = *(Datatype*) mpi_handle_to_datatype(dest_type);
 
-  return Pcopy_data2(source, src_count, src_ptr, dest, dest_count, dest_ptr, 1);
+  return Pcopy_data2(source, src_count, src_ptr, dest, dest_count, dest_ptr, elements);
 }
 
 
 
 
+// elements is NULL when all the receiver asks for must be there
+
 int Pcopy_data2(void *source, int src_count, Datatype src_type,
                 void *dest, int dest_count, Datatype dest_type,
-                int partial)
+                int *elements)
 {
   long i, nelem, sent;
   MPI_Aint soffset, doffset;
@@ -73,14 +77,14 @@ int Pcopy_data2(void *source, int src_count, Datatype src_type,
 
   // A receive of less elements than sent
   // is valid, but the reverse is a violation
-  // (unless part of what the receiver has room for is acceptable)
+  // (unless the caller wants to know how many there were)
 
   nelem = (long)dest_type->count * dest_count;
   sent = (long)src_type->count * src_count;
 
   if (sent < nelem)
   {
-    if (!partial)
+    if (!elements)
     {
       printf("copy_data: Trying to over-receive\n");
       exit(1);
@@ -88,6 +92,9 @@ int Pcopy_data2(void *source, int src_count, Datatype src_type,
     nelem = sent;
   }
 
+  if (elements)
+    *elements = nelem;
+
   Type_extent(src_type, &src_extent);
   Type_extent(dest_type, &dest_extent);
 
diff --git a/getcount.c b/getcount.c
index 565f107..2944234 100644
--- a/getcount.c
+++ b/getcount.c
@@ -18,7 +18,15 @@ int FC_FUNC( mpi_get_count , MPI_GET_COUNT )
 
 int MPI_Get_count(MPI_Status *status, MPI_Datatype datatype, int *count)
 {
-  *count = status->get_count;
+  Datatype dt_ptr = *(Datatype*)mpi_handle_to_datatype(datatype);
+
+  if (dt_ptr->count==0)
+    *count = 0;
+  else if (status->get_count % dt_ptr->count)
+    *count = MPI_UNDEFINED;
+  else
+    *count = status->get_count / dt_ptr->count;
+
   return(MPI_SUCCESS);
 }
 
@@ -36,8 +44,7 @@ int FC_FUNC( mpi_get_elements , MPI_GET_ELEMENTS )
 
 int MPI_Get_elements(MPI_Status *status, MPI_Datatype datatype, int *count)
 {
-  Datatype dt_ptr = *(Datatype*)mpi_handle_to_datatype(datatype);
-  *count = status->get_count * dt_ptr->count;
+  *count = status->get_count;
   return(MPI_SUCCESS);
 }
 
diff --git a/mpi.h b/mpi.h
index b66e48f..87ed0e1 100644
--- a/mpi.h
+++ b/mpi.h
@@ -185,7 +185,7 @@ typedef struct                  /* Fortran: INTEGER status(MPI_STATUS_SIZE) */
   MPI_Status_int MPI_SOURCE;    /* Fortran: status(MPI_SOURCE) */
   MPI_Status_int MPI_TAG;       /* Fortran: status(MPI_TAG) */
   MPI_Status_int MPI_ERROR;     /* Fortran: status(MPI_ERROR) */
-  int            get_count;     /* Number specified for send */
+  int            get_count;     /* Number of basic elements received */
 
 } MPI_Status;
 
diff --git a/mpiP.h b/mpiP.h
index 66d38e9..7d825f6 100644
--- a/mpiP.h
+++ b/mpiP.h
@@ -98,6 +98,7 @@ typedef struct
   int source;
   int tag;
   int complete;
+  int elements;     /* basic elements actually received */
   int count;
   MPI_Datatype type;  /* needed for test_simple_bindexed2 */
 } Req;
@@ -110,7 +111,8 @@ extern int copy_data2(void * source, int src_count, MPI_Datatype src_type,
                       void * dest, int dest_count, MPI_Datatype dest_type);
 
 extern int copy_message(void * source, int src_count, MPI_Datatype src_type,
-                        void * dest, int dest_count, MPI_Datatype dest_type);
+                        void * dest, int dest_count, MPI_Datatype dest_type,
+                        int * elements);
 
 extern void *mpi_malloc(size_t size);
 extern void mpi_free(void *ptr);
diff --git a/probe.c b/probe.c
index 8b66042..04dfb22 100644
--- a/probe.c
+++ b/probe.c
@@ -1,5 +1,6 @@
 //probe.c
 #include "mpiP.h"
+#include "type.h"
 
 static int mpi_match_send(void *r, void *tag)
 {
@@ -53,6 +54,8 @@ int MPI_Iprobe(int source, int tag, MPI_Comm comm, int *flag,
 	{
 	  status->MPI_SOURCE=0  ;
 	  status->MPI_TAG= sreq->tag;
+	  status->get_count= sreq->count *
+	    (*(Datatype*)mpi_handle_to_datatype(sreq->type))->count;
 	}
     }
 
diff --git a/recv.c b/recv.c
index d875d6d..3dd44aa 100644
--- a/recv.c
+++ b/recv.c
@@ -67,6 +67,7 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
       rreq->complete=1;
       rreq->source=MPI_PROC_NULL;
       rreq->tag=MPI_ANY_TAG;
+      rreq->elements=0;
 
       return(MPI_SUCCESS);
     }
@@ -79,7 +80,7 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
 
 //      memcpy(buf,sreq->buf,count * datatype);
       copy_message(sreq->buf, sreq->count, sreq->type,
-                   buf, count, datatype);
+                   buf, count, datatype, &rreq->elements);
       rreq->complete=1;
       rreq->source=0;
       rreq->tag=sreq->tag;                   /* in case tag was MPI_ANY_TAG */
@@ -135,9 +136,6 @@ int MPI_Recv(void *buf, int count, MPI_Datatype datatype, int source,
   MPI_Irecv(buf,count,datatype,source,tag,comm,&request);
   MPI_Wait(&request,status);
 
-  if (status!=MPI_STATUS_IGNORE)
-    status->get_count = count;   // rml: shouldn't this depend on send?
-
   return(MPI_SUCCESS);
 }
 
diff --git a/req.c b/req.c
index 6049663..ad6c4b9 100644
--- a/req.c
+++ b/req.c
@@ -26,6 +26,7 @@ int MPI_Test(MPI_Request *request, int *flag, MPI_Status *status)
 	{
 	  status->MPI_TAG= MPI_ANY_TAG;
 	  status->MPI_SOURCE= MPI_ANY_SOURCE;
+	  status->get_count= 0;
 	}
       *flag=1;
       return(MPI_SUCCESS);
@@ -42,6 +43,7 @@ int MPI_Test(MPI_Request *request, int *flag, MPI_Status *status)
 	{
 	  status->MPI_SOURCE= req->source;
 	  status->MPI_TAG= req->tag;
+	  status->get_count= req->elements;
 	}
 
       mpi_free_handle(*request);
diff --git a/send.c b/send.c
index 8670f10..9b46cce 100644
--- a/send.c
+++ b/send.c
@@ -55,7 +55,9 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
     }
 
   mpi_alloc_handle(request,(void **) &sreq);
-
+  sreq->source=0;
+  sreq->tag=tag;
+  sreq->elements=0;
 
   if (dest==MPI_PROC_NULL)
     {
@@ -67,7 +69,8 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
       rreq=(Req *)AP_listitem_data(match);
       AP_list_delete_item(mycomm->recvlist,match);
 
-      copy_message(buf, count, datatype, rreq->buf, rreq->count, rreq->type);
+      copy_message(buf, count, datatype,
+                   rreq->buf, rreq->count, rreq->type, &rreq->elements);
       rreq->complete=1;
       rreq->source=0;
       rreq->tag=tag;                    /* in case rreq->tag was MPI_ANY_TAG */
@@ -85,7 +88,6 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
   sreq->buf=buf;
   sreq->count=count;
   sreq->type=datatype;
-  sreq->tag=tag;
   sreq->complete=0;
   sreq->listitem=AP_list_append(mycomm->sendlist,sreq);
 
-- 
2.43.0


From 1d1e7fc736d3fe6ccefbbe96807f477042507bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:11 +0000
Subject: [PATCH 16/30] fix: probing the null process succeeds at once instead
 of aborting

---
 probe.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/probe.c b/probe.c
index 04dfb22..beadde1 100644
--- a/probe.c
+++ b/probe.c
@@ -36,6 +36,21 @@ int MPI_Iprobe(int source, int tag, MPI_Comm comm, int *flag,
 #endif
 
 
+  if (source==MPI_PROC_NULL)
+    {
+      /* nothing will ever be sent: same as a receive from PROC_NULL */
+      *flag=1;
+
+      if (status!=MPI_STATUS_IGNORE)
+	{
+	  status->MPI_SOURCE=MPI_PROC_NULL;
+	  status->MPI_TAG=MPI_ANY_TAG;
+	  status->get_count=0;
+	}
+
+      return(MPI_SUCCESS);
+    }
+
   if (source!=0 && source!=MPI_ANY_SOURCE)
     {
       fprintf(stderr,"MPI_Irecv: bad source %d\n",source);
-- 
2.43.0


From 4d9ccff0dcb74724b511c49cec047ab5cf2caaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:18 +0000
Subject: [PATCH 17/30] fix: honour MPI_STATUSES_IGNORE for more than one
 request

---
 req.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/req.c b/req.c
index ad6c4b9..babb645 100644
--- a/req.c
+++ b/req.c
@@ -7,6 +7,18 @@
 
 
 
+/* status to pass on for item i of an array of statuses, if there is one */
+
+static MPI_Status *item_status(MPI_Status *array_of_statuses, int i)
+{
+  if (array_of_statuses==MPI_STATUSES_IGNORE)
+    return(MPI_STATUS_IGNORE);
+
+  return(&array_of_statuses[i]);
+}
+
+
+
 int FC_FUNC( mpi_test , MPI_TEST)(int *request, int *flag, int *status,
                                 int *ierror)
 {
@@ -167,7 +179,7 @@ int MPI_Testall(int count, MPI_Request *array_of_requests,
 
   for (i=0; i<count && flag; i++)
   {
-      MPI_Test(&array_of_requests[i],&iflag,&array_of_statuses[i]);
+      MPI_Test(&array_of_requests[i],&iflag,item_status(array_of_statuses,i));
 
       if (!iflag)
         *flag=0;
@@ -200,7 +212,7 @@ int MPI_Waitall(int count, MPI_Request *array_of_requests,
 
   for (i=0; i<count; i++)
     {
-      MPI_Test(&array_of_requests[i],&flag,&array_of_statuses[i]);
+      MPI_Test(&array_of_requests[i],&flag,item_status(array_of_statuses,i));
 
       if (!flag)
         {
@@ -235,7 +247,7 @@ int MPI_Testsome(int incount, MPI_Request *array_of_requests, int *outcount,
   for (i=0; i<incount; i++)
   {
       flag=0;
-      MPI_Test(&array_of_requests[i],&flag,&array_of_statuses[i]);
+      MPI_Test(&array_of_requests[i],&flag,item_status(array_of_statuses,i));
       
       if (flag)
 	  (*outcount)++;
-- 
2.43.0


From 97eea8ebba2fe21c2fbc6f88e0fc502db4e15f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:25 +0000
Subject: [PATCH 18/30] fix: MPI_Testall must not release any request unless
 all are complete

---
 req.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/req.c b/req.c
index babb645..e1714d8 100644
--- a/req.c
+++ b/req.c
@@ -174,17 +174,25 @@ int MPI_Testall(int count, MPI_Request *array_of_requests,
 {
   int i;
   int iflag;
+  Req *req;
 
   *flag = 1;
 
-  for (i=0; i<count && flag; i++)
+  /* MPI_Test would release those that are complete,
+   * so make sure first that all are.
+   */
+
+  for (i=0; i<count; i++)
   {
-      MPI_Test(&array_of_requests[i],&iflag,item_status(array_of_statuses,i));
+      req=mpi_handle_to_ptr(array_of_requests[i]);
 
-      if (!iflag)
+      if (req && !req->complete)
         *flag=0;
   }
 
+  for (i=0; i<count && *flag; i++)
+      MPI_Test(&array_of_requests[i],&iflag,item_status(array_of_statuses,i));
+
   return(MPI_SUCCESS);
 }
 
-- 
2.43.0


From 67156890555f677044a27ab85817e6c78a7fe9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:33 +0000
Subject: [PATCH 19/30] fix: report which requests the any and some completion
 calls completed, and ignore null requests

---
 req.c | 58 +++++++++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 53 insertions(+), 5 deletions(-)

diff --git a/req.c b/req.c
index e1714d8..b5fb6b8 100644
--- a/req.c
+++ b/req.c
@@ -19,6 +19,19 @@ static MPI_Status *item_status(MPI_Status *array_of_statuses, int i)
 
 
 
+/* array indices count from one in Fortran */
+
+static void fort_indices(int count, int *indices)
+{
+  int i;
+
+  for (i=0; i<count; i++)
+    if (indices[i]!=MPI_UNDEFINED)
+      indices[i]++;
+}
+
+
+
 int FC_FUNC( mpi_test , MPI_TEST)(int *request, int *flag, int *status,
                                 int *ierror)
 {
@@ -99,6 +112,7 @@ int FC_FUNC( mpi_waitany , MPI_WAITANY )(int *count, int *requests,
 {
 
   *ierror=MPI_Waitany(*count, (void *)requests,index,mpi_c_status(status));
+  fort_indices(1,index);
   return MPI_SUCCESS;
 }
 
@@ -134,6 +148,7 @@ int FC_FUNC(mpi_testany, MPI_TESTANY)
 {
   *ierr = MPI_Testany(*count, array_of_requests, index,
                       flag, mpi_c_status(status));
+  fort_indices(1,index);
   return MPI_SUCCESS;
 }
 
@@ -141,13 +156,34 @@ int MPI_Testany(int count,  MPI_Request *array_of_requests,
                 int *index, int *flag, MPI_Status *status)
 {
   int i;
+  int active;
+  MPI_Request null_request;
+
+  active=0;
 
   for (i=0; i<count; i++)
     {
+      if (array_of_requests[i]==MPI_REQUEST_NULL)
+        continue;
+
+      active=1;
       MPI_Test(&array_of_requests[i],flag,status);
 
       if (*flag)
-        return(MPI_SUCCESS);
+        {
+          *index=i;
+          return(MPI_SUCCESS);
+        }
+    }
+
+  *index=MPI_UNDEFINED;
+
+  if (!active)
+    {
+      /* nothing to wait for: complete, with an empty status */
+
+      null_request=MPI_REQUEST_NULL;
+      return(MPI_Test(&null_request,flag,status));
     }
 
   /* none are completed */
@@ -242,6 +278,7 @@ int FC_FUNC(mpi_testsome, MPI_TESTSOME)
 {
   *ierr = MPI_Testsome(*incount, array_of_requests, outcount,
 		       array_of_indices, mpi_c_statuses(array_of_statuses));
+  fort_indices(*outcount,array_of_indices);
   return MPI_SUCCESS;
 }
 
@@ -250,17 +287,27 @@ int MPI_Testsome(int incount, MPI_Request *array_of_requests, int *outcount,
 {
   int i;
   int flag;
+  int active;
 
+  active = 0;
   *outcount = 0;
   for (i=0; i<incount; i++)
   {
+      if (array_of_requests[i]==MPI_REQUEST_NULL)
+	  continue;
+
+      active=1;
       flag=0;
-      MPI_Test(&array_of_requests[i],&flag,item_status(array_of_statuses,i));
-      
+      MPI_Test(&array_of_requests[i],&flag,
+	       item_status(array_of_statuses,*outcount));
+
       if (flag)
-	  (*outcount)++;
+	  array_of_indices[(*outcount)++]=i;
   }
 
+  if (!active)
+      *outcount = MPI_UNDEFINED;
+
   return(MPI_SUCCESS);
 
 }
@@ -275,6 +322,7 @@ int FC_FUNC(mpi_waitsome, MPI_WAITSOME)
 {
   *ierr = MPI_Waitsome(*incount, array_of_requests, outcount,
 		       array_of_indices, mpi_c_statuses(array_of_statuses));
+  fort_indices(*outcount,array_of_indices);
   return MPI_SUCCESS;
 }
 
@@ -284,7 +332,7 @@ int MPI_Waitsome(int incount, MPI_Request *array_of_requests, int *outcount,
   MPI_Testsome(incount, array_of_requests, outcount,
                array_of_indices, array_of_statuses);
 
-  if (!outcount)
+  if (*outcount==0)
   {
     fprintf(stderr,"Waitsome: No requests complete, deadlock\n");
     abort();
-- 
2.43.0


From 499409243b176dc806aeccb874a210a57c2dce38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:55 +0000
Subject: [PATCH 20/30] fix: MPI_Request_free on a pending request lets the
 operation still match

---
 mpiP.h |  2 ++
 recv.c |  3 ++-
 req.c  | 23 ++++++++++++++++++++++-
 send.c |  3 ++-
 4 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/mpiP.h b/mpiP.h
index 7d825f6..cbc419b 100644
--- a/mpiP.h
+++ b/mpiP.h
@@ -98,6 +98,7 @@ typedef struct
   int source;
   int tag;
   int complete;
+  int freed;        /* handle to release on completion (MPI_Request_free) */
   int elements;     /* basic elements actually received */
   int count;
   MPI_Datatype type;  /* needed for test_simple_bindexed2 */
@@ -123,6 +124,7 @@ extern void mpi_destroy_handles(void);
 extern void mpi_alloc_handle(int *handle, void **data);
 extern void *mpi_handle_to_ptr(int handle);
 extern void mpi_free_handle(int handle);
+extern void mpi_complete_req(Req *req);
 
 extern void FC_FUNC(mpi_get_fort_pointers,MPI_GET_FORT_POINTERS)(void);
 
diff --git a/recv.c b/recv.c
index 3dd44aa..ff94bd1 100644
--- a/recv.c
+++ b/recv.c
@@ -62,6 +62,7 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
   mpi_alloc_handle(request,(void **)&rreq);
   rreq->type = datatype;
   rreq->count = count;
+  rreq->freed = 0;
   if (source==MPI_PROC_NULL)
     {
       rreq->complete=1;
@@ -85,7 +86,7 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
       rreq->source=0;
       rreq->tag=sreq->tag;                   /* in case tag was MPI_ANY_TAG */
 
-      sreq->complete=1;
+      mpi_complete_req(sreq);
 
 #ifdef DEBUG
       printf("Completion(recv) value=%d tag=%d\n",
diff --git a/req.c b/req.c
index b5fb6b8..ed15828 100644
--- a/req.c
+++ b/req.c
@@ -341,6 +341,19 @@ int MPI_Waitsome(int incount, MPI_Request *array_of_requests, int *outcount,
   return MPI_SUCCESS;
 }
 
+/***********************/
+/* mark a pending request as completed, and release its handle
+ * if the user has freed the request in the meantime
+ */
+
+void mpi_complete_req(Req *req)
+{
+  req->complete=1;
+
+  if (req->freed)
+    mpi_free_handle(req->freed);
+}
+
 /***********************/
 /* Request_free:  Frees the handle and request
  */
@@ -354,7 +367,15 @@ int FC_FUNC(mpi_request_free, MPI_REQUEST_FREE)
 
 int MPI_Request_free(MPI_Request * req)
 {
-  mpi_free_handle(*req);
+  Req *rptr;
+
+  rptr=mpi_handle_to_ptr(*req);
+
+  if (rptr && !rptr->complete)
+    rptr->freed=*req;          /* still pending, released once matched */
+  else
+    mpi_free_handle(*req);
+
   *req = MPI_REQUEST_NULL;
   return (MPI_SUCCESS);
 }
diff --git a/send.c b/send.c
index 9b46cce..588fa2b 100644
--- a/send.c
+++ b/send.c
@@ -58,6 +58,7 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
   sreq->source=0;
   sreq->tag=tag;
   sreq->elements=0;
+  sreq->freed=0;
 
   if (dest==MPI_PROC_NULL)
     {
@@ -71,9 +72,9 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
 
       copy_message(buf, count, datatype,
                    rreq->buf, rreq->count, rreq->type, &rreq->elements);
-      rreq->complete=1;
       rreq->source=0;
       rreq->tag=tag;                    /* in case rreq->tag was MPI_ANY_TAG */
+      mpi_complete_req(rreq);
 
       sreq->complete=1;
 
-- 
2.43.0


From 4f5fd58bb1c1da14307eca8f52bf393c639be565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:39 +0000
Subject: [PATCH 21/30] fix: a datatype may be freed while pending
 communications use it; MPI_Type_free sets the null handle

---
 copy.c  |  9 +++------
 mpiP.h  | 16 +++++++++++++---
 probe.c |  3 +--
 recv.c  |  5 +++--
 send.c  |  5 +++--
 type.c  | 37 +++++++++++++++++++++++++++++++++++--
 type.h  |  4 +++-
 7 files changed, 61 insertions(+), 18 deletions(-)

diff --git a/copy.c b/copy.c
index 1fdc7c3..971aeea 100644
--- a/copy.c
+++ b/copy.c
@@ -43,14 +43,11 @@ int copy_data2(void *source, int src_count, MPI_Datatype src_type,
  * collective it may be shorter than what the receiver has room for.
  * The number of basic elements delivered is reported in *elements.
  */
-int copy_message(void *source, int src_count, MPI_Datatype src_type,
-                 void *dest, int dest_count, MPI_Datatype dest_type,
+int copy_message(void *source, int src_count, Datatype src_type,
+                 void *dest, int dest_count, Datatype dest_type,
                  int *elements)
 {
-  Datatype src_ptr = *(Datatype*) mpi_handle_to_datatype(src_type);
-  Datatype dest_ptr = *(Datatype*) mpi_handle_to_datatype(dest_type);
-
-  return Pcopy_data2(source, src_count, src_ptr, dest, dest_count, dest_ptr, elements);
+  return Pcopy_data2(source, src_count, src_type, dest, dest_count, dest_type, elements);
 }
 
 
diff --git a/mpiP.h b/mpiP.h
index cbc419b..5df597e 100644
--- a/mpiP.h
+++ b/mpiP.h
@@ -90,6 +90,9 @@ typedef struct
 
 
 
+struct Typestruct_s;         /* see type.h */
+
+
 typedef struct
 {
   pListitem listitem;        /* to allow Req to be removed from list */
@@ -101,7 +104,8 @@ typedef struct
   int freed;        /* handle to release on completion (MPI_Request_free) */
   int elements;     /* basic elements actually received */
   int count;
-  MPI_Datatype type;  /* needed for test_simple_bindexed2 */
+  struct Typestruct_s *type;  /* needed for test_simple_bindexed2;
+                               * held by mpi_hold_type() while pending */
 } Req;
 
 
@@ -111,10 +115,16 @@ typedef struct
 extern int copy_data2(void * source, int src_count, MPI_Datatype src_type,
                       void * dest, int dest_count, MPI_Datatype dest_type);
 
-extern int copy_message(void * source, int src_count, MPI_Datatype src_type,
-                        void * dest, int dest_count, MPI_Datatype dest_type,
+extern int copy_message(void * source, int src_count,
+                        struct Typestruct_s * src_type,
+                        void * dest, int dest_count,
+                        struct Typestruct_s * dest_type,
                         int * elements);
 
+extern struct Typestruct_s *mpi_type_ptr(MPI_Datatype type);
+extern struct Typestruct_s *mpi_hold_type(MPI_Datatype type);
+extern void mpi_release_type(struct Typestruct_s * type);
+
 extern void *mpi_malloc(size_t size);
 extern void mpi_free(void *ptr);
 
diff --git a/probe.c b/probe.c
index beadde1..f882a93 100644
--- a/probe.c
+++ b/probe.c
@@ -69,8 +69,7 @@ int MPI_Iprobe(int source, int tag, MPI_Comm comm, int *flag,
 	{
 	  status->MPI_SOURCE=0  ;
 	  status->MPI_TAG= sreq->tag;
-	  status->get_count= sreq->count *
-	    (*(Datatype*)mpi_handle_to_datatype(sreq->type))->count;
+	  status->get_count= sreq->count * sreq->type->count;
 	}
     }
 
diff --git a/recv.c b/recv.c
index ff94bd1..395eb78 100644
--- a/recv.c
+++ b/recv.c
@@ -60,7 +60,6 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
     }
 
   mpi_alloc_handle(request,(void **)&rreq);
-  rreq->type = datatype;
   rreq->count = count;
   rreq->freed = 0;
   if (source==MPI_PROC_NULL)
@@ -81,11 +80,12 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
 
 //      memcpy(buf,sreq->buf,count * datatype);
       copy_message(sreq->buf, sreq->count, sreq->type,
-                   buf, count, datatype, &rreq->elements);
+                   buf, count, mpi_type_ptr(datatype), &rreq->elements);
       rreq->complete=1;
       rreq->source=0;
       rreq->tag=sreq->tag;                   /* in case tag was MPI_ANY_TAG */
 
+      mpi_release_type(sreq->type);
       mpi_complete_req(sreq);
 
 #ifdef DEBUG
@@ -97,6 +97,7 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
     }
 
   rreq->buf=buf;
+  rreq->type=mpi_hold_type(datatype);
   rreq->tag=tag;
   rreq->complete=0;
   rreq->listitem=AP_list_append(mycomm->recvlist,rreq);
diff --git a/send.c b/send.c
index 588fa2b..5d5e223 100644
--- a/send.c
+++ b/send.c
@@ -70,10 +70,11 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
       rreq=(Req *)AP_listitem_data(match);
       AP_list_delete_item(mycomm->recvlist,match);
 
-      copy_message(buf, count, datatype,
+      copy_message(buf, count, mpi_type_ptr(datatype),
                    rreq->buf, rreq->count, rreq->type, &rreq->elements);
       rreq->source=0;
       rreq->tag=tag;                    /* in case rreq->tag was MPI_ANY_TAG */
+      mpi_release_type(rreq->type);
       mpi_complete_req(rreq);
 
       sreq->complete=1;
@@ -88,7 +89,7 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
 
   sreq->buf=buf;
   sreq->count=count;
-  sreq->type=datatype;
+  sreq->type=mpi_hold_type(datatype);
   sreq->complete=0;
   sreq->listitem=AP_list_append(mycomm->sendlist,sreq);
 
diff --git a/type.c b/type.c
index 961cbaa..3e7bf25 100644
--- a/type.c
+++ b/type.c
@@ -60,6 +60,31 @@ static int Simpletype_alignment(Simpletype t)
   }
 }
 
+/*
+ * Pending communications hold on to the type itself,
+ * so that the user may free the handle in the meantime
+ */
+Datatype mpi_type_ptr(MPI_Datatype type)
+{
+  return *(Datatype*) mpi_handle_to_datatype(type);
+}
+
+Datatype mpi_hold_type(MPI_Datatype type)
+{
+  Datatype type_ptr = mpi_type_ptr(type);
+
+  type_ptr->pending++;
+  return type_ptr;
+}
+
+void mpi_release_type(Datatype type)
+{
+  type->pending--;
+
+  if (type->pending == 0 && type->freed)
+    free(type);
+}
+
 /*
  * Calculate the epsilon value of typemap
  * using the most strictly aligned element in the typemap
@@ -412,6 +437,9 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
   temp->o_lb = 0;
   temp->o_ub = 0;
 
+  temp->pending = 0;
+  temp->freed = 0;
+
   //assign upper and lower bounds here
   if (override_lower)
   {
@@ -752,6 +780,8 @@ int Type_dup(Datatype oldtype, Datatype *newtype)
   (*newtype)->ub = oldtype->ub;
   (*newtype)->o_lb = oldtype->o_lb;
   (*newtype)->o_ub = oldtype->o_ub;
+  (*newtype)->pending = 0;
+  (*newtype)->freed = 0;
 
   for (i = 0; i < oldtype->count; i++)
   {
@@ -912,10 +942,13 @@ int FC_FUNC( mpi_type_free, MPI_TYPE_FREE )(int * datatype, int * ierr)
 int MPI_Type_free(MPI_Datatype * datatype)
 {
   Datatype type_ptr = *(Datatype*) mpi_handle_to_datatype(*datatype);
-  free(type_ptr);
-  type_ptr = MPI_DATATYPE_NULL;
+  if (type_ptr->pending)
+    type_ptr->freed = 1;    //pending communications still use it
+  else
+    free(type_ptr);
 
   mpi_free_handle(*datatype);
+  *datatype = MPI_DATATYPE_NULL;
 
   return MPI_SUCCESS;
 }
diff --git a/type.h b/type.h
index 069b9a2..1b969ab 100644
--- a/type.h
+++ b/type.h
@@ -20,7 +20,7 @@ typedef struct
   Simpletype type;
 } typepair;
 
-typedef struct
+typedef struct Typestruct_s
 {
   int count;
   long ub;
@@ -28,6 +28,8 @@ typedef struct
   int committed; //type has been committed
   int o_lb; //overridden lower/upper bound
   int o_ub; // "
+  int pending; //pending communications using the type
+  int freed;   //to be released when none is pending any more
   /* pairs[] is size 2 because of predefined types
    * such as MPI_2INT that have 2 typemap entries
    * upon initialization.
-- 
2.43.0


From 0a67bfebbb37360877196fdcc01958eb2ccca63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:17 +0000
Subject: [PATCH 22/30] fix: accept MPI_IN_PLACE in every reduction and
 all-to-all, in C and Fortran

---
 collective.c | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/collective.c b/collective.c
index 607fd66..1227c1c 100644
--- a/collective.c
+++ b/collective.c
@@ -300,7 +300,7 @@ int FC_FUNC( mpi_reduce , MPI_REDUCE )
 			 int *datatype, int *op, int *root, int *comm,
 			 int *ierror)
 {
-  *ierror=MPI_Reduce(sendbuf, recvbuf, *count,
+  *ierror=MPI_Reduce(mpi_c_in_place(sendbuf), recvbuf, *count,
 		     *datatype, *op, *root, *comm);
   return MPI_SUCCESS;
 }
@@ -317,6 +317,9 @@ int MPI_Reduce(void* sendbuf, void* recvbuf, int count,
       abort();
     }
 
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   copy_data2(sendbuf, count, datatype, recvbuf, count, datatype);
 //  memcpy(recvbuf,sendbuf,count * datatype);
 
@@ -331,7 +334,7 @@ int FC_FUNC( mpi_allreduce , MPI_ALLREDUCE )
                           ( void *sendbuf, void *recvbuf, int *count,
 			    int *datatype, int *op, int *comm, int *ierror)
 {
-  *ierror=MPI_Allreduce(sendbuf, recvbuf, *count,
+  *ierror=MPI_Allreduce(mpi_c_in_place(sendbuf), recvbuf, *count,
 			*datatype, *op, *comm);
   return MPI_SUCCESS;
 
@@ -364,7 +367,7 @@ int FC_FUNC(mpi_reduce_scatter, MPI_REDUCE_SCATTER)
                 (void * sendbuf, void * recvbuf, int *recvcounts,
                  int *datatype, int *op, int *comm, int *ierr)
 {
-  *ierr = MPI_Reduce_scatter(sendbuf, recvbuf, recvcounts, *datatype, *op, *comm);
+  *ierr = MPI_Reduce_scatter(mpi_c_in_place(sendbuf), recvbuf, recvcounts, *datatype, *op, *comm);
   return MPI_SUCCESS;
 }
 
@@ -372,6 +375,9 @@ int FC_FUNC(mpi_reduce_scatter, MPI_REDUCE_SCATTER)
 int MPI_Reduce_scatter(void* sendbuf, void* recvbuf, int *recvcounts,
                          MPI_Datatype datatype, MPI_Op op, MPI_Comm comm)
 {
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   copy_data2(sendbuf, recvcounts[0], datatype, recvbuf, recvcounts[0], datatype);
   return MPI_SUCCESS;
 }
@@ -385,7 +391,7 @@ int FC_FUNC( mpi_scan , MPI_SCAN)
                          int *datatype, int *op, int *comm,
                          int *ierror)
 {
-  *ierror=MPI_Scan( sendbuf, recvbuf, *count,
+  *ierror=MPI_Scan( mpi_c_in_place(sendbuf), recvbuf, *count,
                     *datatype, *op, *comm);
   return MPI_SUCCESS;
 }
@@ -395,6 +401,9 @@ int FC_FUNC( mpi_scan , MPI_SCAN)
 int MPI_Scan(void* sendbuf, void* recvbuf, int count,
              MPI_Datatype datatype, MPI_Op op, MPI_Comm comm )
 {
+    if (sendbuf==MPI_IN_PLACE)
+      return(MPI_SUCCESS);
+
     copy_data2(sendbuf, count, datatype, recvbuf, count, datatype);
 
     return(MPI_SUCCESS);
@@ -408,7 +417,7 @@ int FC_FUNC( mpi_alltoall , MPI_ALLTOALL )
 			  void *recvbuf, int *recvcount, int *recvtype,
                           int *comm, int *ierror )
 {
-  *ierror=MPI_Alltoall(sendbuf, *sendcount, *sendtype,
+  *ierror=MPI_Alltoall(mpi_c_in_place(sendbuf), *sendcount, *sendtype,
 		       recvbuf, *recvcount, *recvtype,
 		       *comm);
   return MPI_SUCCESS;
@@ -419,6 +428,9 @@ int MPI_Alltoall(void *sendbuf, int sendcount, MPI_Datatype sendtype,
 		 void *recvbuf, int recvcount, MPI_Datatype recvtype,
 		 MPI_Comm comm)
 {
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   copy_data2(sendbuf, sendcount, sendtype, recvbuf, recvcount, recvtype);
 //  memcpy(recvbuf,sendbuf,sendcount * sendtype);
 
@@ -435,7 +447,7 @@ int FC_FUNC( mpi_alltoallv , MPI_ALLTOALLV )
              int *comm, int *ierror )
 {
 
-  *ierror=MPI_Alltoallv(sendbuf, sendcounts, sdispls, *sendtype,
+  *ierror=MPI_Alltoallv(mpi_c_in_place(sendbuf), sendcounts, sdispls, *sendtype,
 			recvbuf, recvcounts, rdispls, *recvtype,
 			*comm);
 
@@ -454,6 +466,9 @@ int MPI_Alltoallv(void *sendbuf, int *sendcounts,
   MPI_Aint st_extent;
   MPI_Aint rt_extent;
 
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   MPI_Type_extent(sendtype, &st_extent);
   MPI_Type_extent(recvtype, &rt_extent);
 
@@ -480,7 +495,7 @@ int FC_FUNC( mpi_alltoallw , MPI_ALLTOALLW )
              int *comm, int *ierror )
 {
 
-  *ierror=MPI_Alltoallw(sendbuf, sendcounts, sdispls, sendtypes,
+  *ierror=MPI_Alltoallw(mpi_c_in_place(sendbuf), sendcounts, sdispls, sendtypes,
 			recvbuf, recvcounts, rdispls, recvtypes,
 			*comm);
 
@@ -496,6 +511,9 @@ int MPI_Alltoallw(void *sendbuf, int *sendcounts,
 
 {
 
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   copy_data2((char*)sendbuf+sdispls[0], sendcounts[0], sendtypes[0],
              (char*)recvbuf+rdispls[0], recvcounts[0], recvtypes[0]);
 
-- 
2.43.0


From 3910b7a21bbbe710d452b5250da1a8962946be7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:24 +0000
Subject: [PATCH 23/30] fix: MPI_Reduce accepts MPI_ROOT as the other rooted
 collectives do

---
 collective.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/collective.c b/collective.c
index 1227c1c..538c72f 100644
--- a/collective.c
+++ b/collective.c
@@ -311,6 +311,9 @@ int MPI_Reduce(void* sendbuf, void* recvbuf, int count,
 	       MPI_Datatype datatype, MPI_Op op, int root, MPI_Comm comm)
 
 {
+  if (root==MPI_ROOT)
+    return(MPI_SUCCESS);
+
   if (root!=0)
     {
       fprintf(stderr,"MPI_Reduce: bad root = %d\n",root);
-- 
2.43.0


From 74cad2b313386674481c5c5226f0c59440d880c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:32 +0000
Subject: [PATCH 24/30] fix: MPI_Intercomm_merge must return a communicator

---
 ic_merge.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ic_merge.c b/ic_merge.c
index e6465c1..57ca959 100644
--- a/ic_merge.c
+++ b/ic_merge.c
@@ -4,12 +4,17 @@
 /*
  * MPI_Intercomm_merge - Creates an intracommunicator from an intercommunicator
  * This is just a stub for now to support mpi function calls even in Serial
- * applications. In the case of a serial program, this function is a no-op and
- * only ever returns MPI_SUCCESS
+ * applications. In the case of a serial program, there is nothing to merge, so
+ * the result is simply a new communicator
  */
 
 int MPI_Intercomm_merge( MPI_Comm intercomm, int high, MPI_Comm *newintracomm )
 {
-  newintracomm =  &intercomm;
-  return(MPI_SUCCESS);
+  if (intercomm==MPI_COMM_NULL)
+    {
+      *newintracomm = MPI_COMM_NULL;
+      return(MPI_SUCCESS);
+    }
+
+  return(MPI_Comm_dup(intercomm, newintracomm));
 }
-- 
2.43.0


From 62365dfbc438fcb343e80f4f747e85ba310e5d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:39 +0000
Subject: [PATCH 25/30] fix: MPI_Init_thread must not promise
 MPI_THREAD_MULTIPLE, which is not supported

---
 fort.F90 | 3 ++-
 mpi.c    | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/fort.F90 b/fort.F90
index d8da36b..f5cc8e0 100644
--- a/fort.F90
+++ b/fort.F90
@@ -1,8 +1,9 @@
         subroutine mpi_init_thread(required, provided, ierror)
           implicit none
+          include "mpif.h"
           integer, intent(in) :: required
           integer, intent(out) :: provided, ierror
-          provided = required
+          provided = min(required, MPI_THREAD_SERIALIZED)
           call mpi_init(ierror)
           return
         end subroutine mpi_init_thread
diff --git a/mpi.c b/mpi.c
index 08417cf..9cdb23c 100644
--- a/mpi.c
+++ b/mpi.c
@@ -157,7 +157,9 @@ int FC_FUNC( mpi_init_fort , MPI_INIT_FORT)
 
 int MPI_Init_thread(int *argc, char **argv[], int required, int *provided)
 {
-    *provided = required;
+    /* calls must not overlap, as nothing in here is locked */
+    *provided = required < MPI_THREAD_SERIALIZED ? required
+                                                 : MPI_THREAD_SERIALIZED;
     return MPI_Init(argc, argv);
 }
 
-- 
2.43.0


From 56e24b41ae8977ee96695e7b80ad8afeca658780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:09 +0000
Subject: [PATCH 26/30] fix: MPI_Cart_get reports the periods given to
 MPI_Cart_create

---
 cart.c | 10 +++++++++-
 comm.c | 27 +++++++++++++++++++++++++++
 mpiP.h |  4 ++++
 3 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/cart.c b/cart.c
index ee8ea0b..2e14d66 100644
--- a/cart.c
+++ b/cart.c
@@ -28,7 +28,10 @@ int MPI_Cart_create( MPI_Comm comm_old, int ndims, int *dims, int *periods,
       abort();
     }
 
-  MPI_Comm_dup(comm_old, comm_cart);
+  *comm_cart = mpi_comm_new();
+
+  if (ndims > 0)
+    mpi_comm_set_periods(*comm_cart, ndims, periods);
 
   return MPI_SUCCESS;
 }
@@ -58,9 +61,14 @@ int MPI_Cart_get(MPI_Comm comm, int maxdims, int *dims,
                  int *periods, int *coords)
 {
   int i;
+  Comm *mycomm;
+
+  mycomm=mpi_handle_to_ptr(comm);
+
   for (i=0;i<maxdims;i++)
   {
     dims[i]=1;
+    periods[i]= (mycomm && i<mycomm->ndims) ? mycomm->periods[i] : 0;
     coords[i]=0;
   }
   return(MPI_SUCCESS);
diff --git a/comm.c b/comm.c
index c9c1ecb..233b710 100644
--- a/comm.c
+++ b/comm.c
@@ -23,10 +23,29 @@ MPI_Comm mpi_comm_new(void)
 
   cptr->num=num++;
 
+  cptr->ndims=0;
+  cptr->periods=NULL;
+
   return(chandle);
 }
 
 
+/*
+ * remember the cartesian topology of a new communicator
+ */
+
+void mpi_comm_set_periods(MPI_Comm comm, int ndims, int *periods)
+{
+  Comm *cptr;
+
+  cptr=mpi_handle_to_ptr(comm);
+
+  cptr->periods=mpi_malloc(ndims*sizeof(int));
+  memcpy(cptr->periods,periods,ndims*sizeof(int));
+  cptr->ndims=ndims;
+}
+
+
 /*********/
 
 
@@ -71,6 +90,8 @@ int MPI_Comm_free(MPI_Comm *comm)
 	    size);
   AP_list_free(recvlist);
 
+  mpi_free(mycomm->periods);
+
   mpi_free_handle(*comm);            /* free(mycomm); */
   *comm=MPI_COMM_NULL;
 
@@ -131,8 +152,14 @@ int FC_FUNC( mpi_comm_dup , MPI_COMM_DUP )(int *comm, int *newcomm, int *ierror)
 
 int MPI_Comm_dup(MPI_Comm comm, MPI_Comm *newcomm)
 {
+  Comm *mycomm;
+
   *newcomm= mpi_comm_new();
 
+  mycomm=mpi_handle_to_ptr(comm);
+  if (mycomm && mycomm->ndims>0)
+    mpi_comm_set_periods(*newcomm,mycomm->ndims,mycomm->periods);
+
 #ifdef INFO
   fflush(stdout);
   fprintf(stderr,"MPI_Comm_dup: new comm handle=%d\n",*newcomm);
diff --git a/mpiP.h b/mpiP.h
index 5df597e..e42809b 100644
--- a/mpiP.h
+++ b/mpiP.h
@@ -86,6 +86,9 @@ typedef struct
 
   int num;
 
+  int ndims;                 /* cartesian topology, if any (MPI_Cart_create) */
+  int *periods;
+
 } Comm;
 
 
@@ -129,6 +132,7 @@ extern void *mpi_malloc(size_t size);
 extern void mpi_free(void *ptr);
 
 extern MPI_Comm mpi_comm_new(void);
+extern void mpi_comm_set_periods(MPI_Comm comm, int ndims, int *periods);
 
 extern void mpi_destroy_handles(void);
 extern void mpi_alloc_handle(int *handle, void **data);
-- 
2.43.0


From 4184c0d79b144741f3d1fa98bcaa08e941bb626f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:25 +0000
Subject: [PATCH 27/30] fix: report topology misuse on standard error, where
 abort() does not lose it

---
 cart.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cart.c b/cart.c
index 2e14d66..a4e4187 100644
--- a/cart.c
+++ b/cart.c
@@ -24,7 +24,7 @@ int MPI_Cart_create( MPI_Comm comm_old, int ndims, int *dims, int *periods,
   for (i = 0; i < ndims; i++)
     if (dims[i] > 1)
     {
-      printf("MPI_Cart_create: Greater dimension than no. of procs\n");
+      fprintf(stderr,"MPI_Cart_create: Greater dimension than no. of procs\n");
       abort();
     }
 
@@ -98,7 +98,7 @@ int MPI_Cart_coords(MPI_Comm comm, int rank, int maxdims, int *coords)
 
   if (rank != 0)
   {
-    printf("MPI_Cart_coords: Rank != 0\n");
+    fprintf(stderr,"MPI_Cart_coords: Rank != 0\n");
     abort();
   }
 
@@ -130,7 +130,7 @@ int MPI_Dims_create(int nnodes, int ndims, int *dims)
 
   if (nnodes > 1)
   {
-    printf("MPI_Dims_create: More nodes than procs specified.\n");
+    fprintf(stderr,"MPI_Dims_create: More nodes than procs specified.\n");
     abort();
   }
 
-- 
2.43.0


From 5eb0bb26c4dbd46dc3bccd002842aa10d4aac1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:00 +0000
Subject: [PATCH 28/30] fix: pack buffer bound check must not overflow near
 INT_MAX

---
 pack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pack.c b/pack.c
index 643d7d1..5c5ec43 100644
--- a/pack.c
+++ b/pack.c
@@ -46,7 +46,7 @@ int Pack(void *inbuf, int incount, Datatype type,
   {
     for (j = 0; j < type->count; j++)
     {
-      if ((*position) + Simpletype_length(type->pairs[j].type) > outsize)
+      if (Simpletype_length(type->pairs[j].type) > outsize - (*position))
       {
         printf("MPI_Pack: data exceeds buffer size\n");
         exit(1);
@@ -137,7 +137,7 @@ int Unpack(void * inbuf, int insize, int * position, void *outbuf,
   {
     for (j = 0; j < type->count; j++)
     {
-      if ((*position) + Simpletype_length(type->pairs[j].type) > insize)
+      if (Simpletype_length(type->pairs[j].type) > insize - (*position))
       {
         printf("MPI_Unpack: Data exceeds buffer size\n");
 	exit(1);
-- 
2.43.0


From 426affd0b97c4a6ac89aff258d80e44987ac38f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 29/30] fix: count the elements of messages longer than 2^31-1
 basic elements

---
 copy.c     |  6 +++---
 getcount.c | 38 +++++++++++++++++++++++++++++++++++---
 mpi.h      |  3 ++-
 mpiP.h     |  6 ++++--
 mpif.h     |  4 ++--
 probe.c    |  4 ++--
 req.c      |  4 ++--
 7 files changed, 50 insertions(+), 15 deletions(-)

diff --git a/copy.c b/copy.c
index 971aeea..04986ba 100644
--- a/copy.c
+++ b/copy.c
@@ -25,7 +25,7 @@
 
 extern int Pcopy_data2(void *source, int src_count, Datatype src_type,
 		       void *dest, int dest_count, Datatype dest_type,
-		       int *elements);
+		       long *elements);
 
 
 int copy_data2(void *source, int src_count, MPI_Datatype src_type,
@@ -45,7 +45,7 @@ int copy_data2(void *source, int src_count, MPI_Datatype src_type,
  */
 int copy_message(void *source, int src_count, Datatype src_type,
                  void *dest, int dest_count, Datatype dest_type,
-                 int *elements)
+                 long *elements)
 {
   return Pcopy_data2(source, src_count, src_type, dest, dest_count, dest_type, elements);
 }
@@ -57,7 +57,7 @@ int copy_message(void *source, int src_count, Datatype src_type,
 
 int Pcopy_data2(void *source, int src_count, Datatype src_type,
                 void *dest, int dest_count, Datatype dest_type,
-                int *elements)
+                long *elements)
 {
   long i, nelem, sent;
   MPI_Aint soffset, doffset;
diff --git a/getcount.c b/getcount.c
index 2944234..c185c24 100644
--- a/getcount.c
+++ b/getcount.c
@@ -6,6 +6,36 @@
 
 #include "type.h"
 #include "mpiP.h"
+#include <limits.h>
+
+
+/*
+ * A message can consist of more basic elements than an int can count,
+ * so the status holds them in two parts.
+ */
+
+void mpi_set_elements(MPI_Status *status, long elements)
+{
+  status->get_count = elements & INT_MAX;
+  status->get_count_high = elements >> 31;
+}
+
+
+static long get_elements(MPI_Status *status)
+{
+  return(((long)status->get_count_high << 31) | status->get_count);
+}
+
+
+/* what the caller gets: MPI_UNDEFINED if an int cannot hold it */
+
+static int representable(long n)
+{
+  return(n > INT_MAX ? MPI_UNDEFINED : (int)n);
+}
+
+
+/********/
 
 
 int FC_FUNC( mpi_get_count , MPI_GET_COUNT )
@@ -20,12 +50,14 @@ int MPI_Get_count(MPI_Status *status, MPI_Datatype datatype, int *count)
 {
   Datatype dt_ptr = *(Datatype*)mpi_handle_to_datatype(datatype);
 
+  long elements = get_elements(status);
+
   if (dt_ptr->count==0)
     *count = 0;
-  else if (status->get_count % dt_ptr->count)
+  else if (elements % dt_ptr->count)
     *count = MPI_UNDEFINED;
   else
-    *count = status->get_count / dt_ptr->count;
+    *count = representable(elements / dt_ptr->count);
 
   return(MPI_SUCCESS);
 }
@@ -44,7 +76,7 @@ int FC_FUNC( mpi_get_elements , MPI_GET_ELEMENTS )
 
 int MPI_Get_elements(MPI_Status *status, MPI_Datatype datatype, int *count)
 {
-  *count = status->get_count;
+  *count = representable(get_elements(status));
   return(MPI_SUCCESS);
 }
 
diff --git a/mpi.h b/mpi.h
index 87ed0e1..a2bca4d 100644
--- a/mpi.h
+++ b/mpi.h
@@ -185,7 +185,8 @@ typedef struct                  /* Fortran: INTEGER status(MPI_STATUS_SIZE) */
   MPI_Status_int MPI_SOURCE;    /* Fortran: status(MPI_SOURCE) */
   MPI_Status_int MPI_TAG;       /* Fortran: status(MPI_TAG) */
   MPI_Status_int MPI_ERROR;     /* Fortran: status(MPI_ERROR) */
-  int            get_count;     /* Number of basic elements received */
+  int            get_count;     /* Number of basic elements received: */
+  int            get_count_high; /* get_count_high * 2^31 + get_count */
 
 } MPI_Status;
 
diff --git a/mpiP.h b/mpiP.h
index e42809b..392f727 100644
--- a/mpiP.h
+++ b/mpiP.h
@@ -105,7 +105,7 @@ typedef struct
   int tag;
   int complete;
   int freed;        /* handle to release on completion (MPI_Request_free) */
-  int elements;     /* basic elements actually received */
+  long elements;    /* basic elements actually received */
   int count;
   struct Typestruct_s *type;  /* needed for test_simple_bindexed2;
                                * held by mpi_hold_type() while pending */
@@ -122,7 +122,9 @@ extern int copy_message(void * source, int src_count,
                         struct Typestruct_s * src_type,
                         void * dest, int dest_count,
                         struct Typestruct_s * dest_type,
-                        int * elements);
+                        long * elements);
+
+extern void mpi_set_elements(MPI_Status *status, long elements);
 
 extern struct Typestruct_s *mpi_type_ptr(MPI_Datatype type);
 extern struct Typestruct_s *mpi_hold_type(MPI_Datatype type);
diff --git a/mpif.h b/mpif.h
index aa0009c..355ec79 100644
--- a/mpif.h
+++ b/mpif.h
@@ -132,11 +132,11 @@ parameter (MPI_BOTTOM=0)
 
 
   INTEGER MPI_STATUS_SIZE
-  PARAMETER (MPI_STATUS_SIZE=4)
+  PARAMETER (MPI_STATUS_SIZE=5)
 
   INTEGER MPI_SOURCE, MPI_TAG, MPI_ERROR
   PARAMETER(MPI_SOURCE=1, MPI_TAG=2, MPI_ERROR=3)
-  ! There is a 4th value only used internally
+  ! There are a 4th and 5th value only used internally
 
   INTEGER MPI_STATUS_IGNORE(MPI_STATUS_SIZE)
   INTEGER MPI_STATUSES_IGNORE(MPI_STATUS_SIZE,1)
diff --git a/probe.c b/probe.c
index f882a93..e1e705e 100644
--- a/probe.c
+++ b/probe.c
@@ -45,7 +45,7 @@ int MPI_Iprobe(int source, int tag, MPI_Comm comm, int *flag,
 	{
 	  status->MPI_SOURCE=MPI_PROC_NULL;
 	  status->MPI_TAG=MPI_ANY_TAG;
-	  status->get_count=0;
+	  mpi_set_elements(status,0);
 	}
 
       return(MPI_SUCCESS);
@@ -69,7 +69,7 @@ int MPI_Iprobe(int source, int tag, MPI_Comm comm, int *flag,
 	{
 	  status->MPI_SOURCE=0  ;
 	  status->MPI_TAG= sreq->tag;
-	  status->get_count= sreq->count * sreq->type->count;
+	  mpi_set_elements(status,(long)sreq->count * sreq->type->count);
 	}
     }
 
diff --git a/req.c b/req.c
index ed15828..24e6685 100644
--- a/req.c
+++ b/req.c
@@ -51,7 +51,7 @@ int MPI_Test(MPI_Request *request, int *flag, MPI_Status *status)
 	{
 	  status->MPI_TAG= MPI_ANY_TAG;
 	  status->MPI_SOURCE= MPI_ANY_SOURCE;
-	  status->get_count= 0;
+	  mpi_set_elements(status,0);
 	}
       *flag=1;
       return(MPI_SUCCESS);
@@ -68,7 +68,7 @@ int MPI_Test(MPI_Request *request, int *flag, MPI_Status *status)
 	{
 	  status->MPI_SOURCE= req->source;
 	  status->MPI_TAG= req->tag;
-	  status->get_count= req->elements;
+	  mpi_set_elements(status,req->elements);
 	}
 
       mpi_free_handle(*request);
-- 
2.43.0


From 7b1bf4089fdbd7b9cdd105e1e57458b26d7d2230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:11 +0000
Subject: [PATCH 30/30] fix: check the root of in-place gather and scatter
 calls too

---
 collective.c | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/collective.c b/collective.c
index 538c72f..0ad2d6a 100644
--- a/collective.c
+++ b/collective.c
@@ -69,9 +69,6 @@ int MPI_Gather(void* sendbuf, int sendcount, MPI_Datatype sendtype,
 	       void* recvbuf, int recvcount, MPI_Datatype recvtype,
 	       int root, MPI_Comm comm)
 {
-  if (sendbuf==MPI_IN_PLACE)
-    return(MPI_SUCCESS);
-
   if (root==MPI_ROOT)
     return(MPI_SUCCESS);
 
@@ -81,6 +78,9 @@ int MPI_Gather(void* sendbuf, int sendcount, MPI_Datatype sendtype,
       abort();
     }
 
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   copy_data2(sendbuf, sendcount, sendtype,
              recvbuf, recvcount, recvtype);
 //  memcpy(recvbuf,sendbuf,sendcount*sendtype);
@@ -111,9 +111,6 @@ int MPI_Gatherv(void* sendbuf, int sendcount, MPI_Datatype sendtype,
   MPI_Aint offset;
   MPI_Aint rt_extent;
 
-  if (sendbuf==MPI_IN_PLACE)
-    return(MPI_SUCCESS);
-
   if (root==MPI_ROOT)
     return(MPI_SUCCESS);
 
@@ -123,6 +120,9 @@ int MPI_Gatherv(void* sendbuf, int sendcount, MPI_Datatype sendtype,
       abort();
     }
 
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   MPI_Type_extent(recvtype, &rt_extent);
   offset=displs[0]*rt_extent;
 
@@ -226,9 +226,6 @@ int MPI_Scatter(void * sendbuf, int sendcount, MPI_Datatype sendtype,
 		void * recvbuf, int recvcount, MPI_Datatype recvtype,
 		int root, MPI_Comm comm)
 {
-  if (recvbuf==MPI_IN_PLACE)
-    return(MPI_SUCCESS);
-
   if (root==MPI_ROOT)
     return(MPI_SUCCESS);
 
@@ -238,6 +235,9 @@ int MPI_Scatter(void * sendbuf, int sendcount, MPI_Datatype sendtype,
       abort();
     }
 
+  if (recvbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   copy_data2(sendbuf, sendcount, sendtype,
              recvbuf, recvcount, recvtype);
 
@@ -269,9 +269,6 @@ int MPI_Scatterv(void* sendbuf, int *sendcounts, int *displs,
   MPI_Aint offset;
   MPI_Aint st_extent;
 
-  if (recvbuf==MPI_IN_PLACE)
-    return(MPI_SUCCESS);
-
   if (root==MPI_ROOT)
     return(MPI_SUCCESS);
 
@@ -280,6 +277,10 @@ int MPI_Scatterv(void* sendbuf, int *sendcounts, int *displs,
       fprintf(stderr,"MPI_Scatterv: bad root = %d\n",root);
       abort();
     }
+
+  if (recvbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   MPI_Type_extent(sendtype, &st_extent);
   offset=displs[0]*st_extent;
 
-- 
2.43.0

