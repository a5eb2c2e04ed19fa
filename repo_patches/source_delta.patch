From 8ed52309ed827ef908d28bd13bbdfa36fd6cbd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:14 +0000
Subject: [PATCH 01/89] fix: neutral elements of min and max reductions were
 swapped

---
 src/type.c | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/type.c b/src/type.c
index d55f755..7027f97 100644
--- a/src/type.c
+++ b/src/type.c
@@ -63,8 +63,8 @@ void laik_char_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0; break;
     case LAIK_RO_Prod: v = 1; break;
     case LAIK_RO_And:  v = ~0; break;
-    case LAIK_RO_Min:  v = INT8_MIN; break;
-    case LAIK_RO_Max:  v = INT8_MAX; break;
+    case LAIK_RO_Min:  v = INT8_MAX; break;
+    case LAIK_RO_Max:  v = INT8_MIN; break;
     default:
         assert(0);
     }
@@ -139,8 +139,8 @@ void laik_uchar_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0; break;
     case LAIK_RO_Prod: v = 1; break;
     case LAIK_RO_And:  v = 255; break;
-    case LAIK_RO_Min:  v = 0; break;
-    case LAIK_RO_Max:  v = UINT8_MAX; break;
+    case LAIK_RO_Min:  v = UINT8_MAX; break;
+    case LAIK_RO_Max:  v = 0; break;
     default:
         assert(0);
     }
@@ -214,8 +214,8 @@ void laik_int32_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0; break;
     case LAIK_RO_Prod: v = 1; break;
     case LAIK_RO_And:  v = ~0; break;
-    case LAIK_RO_Min:  v = INT32_MIN; break;
-    case LAIK_RO_Max:  v = INT32_MAX; break;
+    case LAIK_RO_Min:  v = INT32_MAX; break;
+    case LAIK_RO_Max:  v = INT32_MIN; break;
     default:
         assert(0);
     }
@@ -289,8 +289,8 @@ void laik_uint32_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0; break;
     case LAIK_RO_Prod: v = 1; break;
     case LAIK_RO_And:  v = ~0; break;
-    case LAIK_RO_Min:  v = 0; break;
-    case LAIK_RO_Max:  v = UINT32_MAX; break;
+    case LAIK_RO_Min:  v = UINT32_MAX; break;
+    case LAIK_RO_Max:  v = 0; break;
     default:
         assert(0);
     }
@@ -364,8 +364,8 @@ void laik_int64_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0l; break;
     case LAIK_RO_Prod: v = 1l; break;
     case LAIK_RO_And:  v = ~0l; break;
-    case LAIK_RO_Min:  v = INT64_MIN; break;
-    case LAIK_RO_Max:  v = INT64_MAX; break;
+    case LAIK_RO_Min:  v = INT64_MAX; break;
+    case LAIK_RO_Max:  v = INT64_MIN; break;
     default:
         assert(0);
     }
@@ -439,8 +439,8 @@ void laik_uint64_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0l; break;
     case LAIK_RO_Prod: v = 1l; break;
     case LAIK_RO_And:  v = ~0l; break;
-    case LAIK_RO_Min:  v = 0; break;
-    case LAIK_RO_Max:  v = UINT64_MAX; break;
+    case LAIK_RO_Min:  v = UINT64_MAX; break;
+    case LAIK_RO_Max:  v = 0; break;
     default:
         assert(0);
     }
@@ -512,8 +512,8 @@ void laik_double_init(void* base, int count, Laik_ReductionOperation o)
     switch(o) {
     case LAIK_RO_Sum:  v = 0.0; break;
     case LAIK_RO_Prod: v = 1.0; break;
-    case LAIK_RO_Min:  v = -DBL_MAX; break;
-    case LAIK_RO_Max:  v = DBL_MAX; break;
+    case LAIK_RO_Min:  v = DBL_MAX; break;
+    case LAIK_RO_Max:  v = -DBL_MAX; break;
     default:
         assert(0);
     }
@@ -575,8 +575,8 @@ void laik_float_init(void* base, int count, Laik_ReductionOperation o)
     switch(o) {
     case LAIK_RO_Sum:  v = 0.0; break;
     case LAIK_RO_Prod: v = 1.0; break;
-    case LAIK_RO_Min:  v = -FLT_MAX; break;
-    case LAIK_RO_Max:  v = FLT_MAX; break;
+    case LAIK_RO_Min:  v = FLT_MAX; break;
+    case LAIK_RO_Max:  v = -FLT_MAX; break;
     default:
         assert(0);
     }
-- 
2.43.0


From 94451eab2dbc55dd2a00b8db44f5f02e61e65f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:14 +0000
Subject: [PATCH 02/89] fix: reduction without input used element size and
 neutral element of another type

---
 src/type.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/type.c b/src/type.c
index 7027f97..8775c24 100644
--- a/src/type.c
+++ b/src/type.c
@@ -159,7 +159,7 @@ void laik_uchar_reduce(void* out, const void* in1, const void* in2,
         else if (in2)
             memcpy(out, in2, count * sizeof(unsigned char));
         else
-            laik_char_init(out, count, o);
+            laik_uchar_init(out, count, o);
         return;
     }
 
@@ -234,7 +234,7 @@ void laik_int32_reduce(void* out, const void* in1, const void* in2,
         else if (in2)
             memcpy(out, in2, count * sizeof(int32_t));
         else
-            laik_char_init(out, count, o);
+            laik_int32_init(out, count, o);
         return;
     }
 
@@ -309,7 +309,7 @@ void laik_uint32_reduce(void* out, const void* in1, const void* in2,
         else if (in2)
             memcpy(out, in2, count * sizeof(uint32_t));
         else
-            laik_char_init(out, count, o);
+            laik_uint32_init(out, count, o);
         return;
     }
 
@@ -384,7 +384,7 @@ void laik_int64_reduce(void* out, const void* in1, const void* in2,
         else if (in2)
             memcpy(out, in2, count * sizeof(int64_t));
         else
-            laik_char_init(out, count, o);
+            laik_int64_init(out, count, o);
         return;
     }
 
@@ -459,7 +459,7 @@ void laik_uint64_reduce(void* out, const void* in1, const void* in2,
         else if (in2)
             memcpy(out, in2, count * sizeof(uint64_t));
         else
-            laik_char_init(out, count, o);
+            laik_uint64_init(out, count, o);
         return;
     }
 
-- 
2.43.0


From d1bc3c2b45233f2c5086061ffc9e262ffd2a0cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:29 +0000
Subject: [PATCH 03/89] fix: assertion when freezing an empty range list with
 merging

---
 src/rangelist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rangelist.c b/src/rangelist.c
index 69de503..cf5d564 100644
--- a/src/rangelist.c
+++ b/src/rangelist.c
@@ -410,8 +410,8 @@ static void sortRanges(Laik_RangeList* list)
 
 static void mergeSortedRanges(Laik_RangeList* list)
 {
-    assert(list->trange); // this is for generic ranges
     if (list->count == 0) return;
+    assert(list->trange); // this is for generic ranges
 
     assert(list->space->dims == 1); // current algorithm only works for 1d
 
-- 
2.43.0


From 181cb9533e251430ededb4f52603d59af9c5ab2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:29 +0000
Subject: [PATCH 04/89] fix: null dereference when switching a container to no
 partitioning

---
 src/data.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/data.c b/src/data.c
index fb077bd..0b6686a 100644
--- a/src/data.c
+++ b/src/data.c
@@ -743,6 +743,10 @@ void initMaps(Laik_Transition* t,
 static
 void allocateMappings(Laik_MappingList* toList, Laik_SwitchStat* ss)
 {
+    // nothing to allocate if not switching to a partitioning
+    // or if this process is not part of its process group
+    if (toList == 0) return;
+
     for(int i = 0; i < toList->count; i++) {
         Laik_Mapping* map = &(toList->map[i]);
         if (map->base) continue;
@@ -789,7 +793,7 @@ void doTransition(Laik_Data* d, Laik_Transition* t, Laik_ActionSeq* as,
         // no transition to exec, just free old mappings
 
         // only free mappings if not part of a reservation
-        if (fromList->res == 0)
+        if (fromList && (fromList->res == 0))
             freeMappingList(fromList, d->stat);
         return;
     }
-- 
2.43.0


From bf8a285330d3dfbe9f5e16fe3204de7d86d36264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:33 +0000
Subject: [PATCH 05/89] fix: range borders were sorted wrongly for large
 indexes

---
 src/space.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/space.c b/src/space.c
index 9fc04e2..27bc6bf 100644
--- a/src/space.c
+++ b/src/space.c
@@ -833,8 +833,8 @@ static int rb_cmp(const void *p1, const void *p2)
     if (sb1->b == sb2->b) {
         return sb1->isStart - sb2->isStart;
     }
-    return sb1->b - sb2->b;
-
+    // borders are 64 bit: the difference may not fit into an int
+    return (sb1->b < sb2->b) ? -1 : 1;
 }
 
 static bool addTask(TaskGroup* g, int task, int maxTasks)
-- 
2.43.0


From 20b7e52587093e8a2bb55e73f95cd203b2f46b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:33 +0000
Subject: [PATCH 06/89] fix: assertion in transition calculation for indexes
 without previous owner

---
 src/space.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/space.c b/src/space.c
index 27bc6bf..7edc857 100644
--- a/src/space.c
+++ b/src/space.c
@@ -1290,6 +1290,11 @@ void calcAddReductions(int tflags,
 
                 } // one input
 
+                // no action if nobody wants the result, or if there is nothing
+                // to reduce and no neutral value was requested
+                if (outputGroup.count == 0) continue;
+                if ((inputGroup.count == 0) && (redOp == LAIK_RO_None)) continue;
+
                 // add reduction operation
                 int in = getTaskGroup(&inputGroup);
                 int out = getTaskGroup(&outputGroup);
-- 
2.43.0


From ef10171acfb712244b61005cf76ea0ce1e83703a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:21 +0000
Subject: [PATCH 07/89] fix: group reductions failed for unknown mappings and
 for more than one dimension

---
 src/action.c                   |  4 +-
 src/backend-mpi.c              | 68 ++++++++++++++++++++++++++++++++--
 src/backends/tcp/backend-tcp.c | 68 ++++++++++++++++++++++++++++++++--
 3 files changed, 131 insertions(+), 9 deletions(-)

diff --git a/src/action.c b/src/action.c
index 90b8892..212d661 100644
--- a/src/action.c
+++ b/src/action.c
@@ -1988,8 +1988,10 @@ bool laik_aseq_flattenPacking(Laik_ActionSeq* as)
 
         case LAIK_AT_MapGroupReduce:
 
+            // only possible if all mappings are already known, as all
+            // processes involved need to do the same transformation.
             // TODO: for >1 dims, use pack/unpack with buffer
-            if (ba->range->space->dims == 1) {
+            if ((ba->range->space->dims == 1) && tc->fromList && tc->toList) {
                 char *fromBase, *toBase;
 
                 // if current task is input, fromBase should be allocated
diff --git a/src/backend-mpi.c b/src/backend-mpi.c
index b0e9cbb..172ae32 100644
--- a/src/backend-mpi.c
+++ b/src/backend-mpi.c
@@ -579,19 +579,22 @@ void laik_mpi_exec_groupReduce(Laik_TransitionContext* tc,
     MPI_Status st;
     int count, err;
 
+    // do not mix with messages from async actions, which use tag 1
+    const int tag = 2;
+
     if (myid != reduceTask) {
         // not the reduce task: eventually send input and recv result
 
         if (laik_trans_isInGroup(t, a->inputGroup, myid)) {
             laik_log(1, "        exec MPI_Send to T%d", reduceTask);
             err = MPI_Send(a->fromBuf, (int) a->count, dataType,
-                           reduceTask, 1, comm);
+                           reduceTask, tag, comm);
             if (err != MPI_SUCCESS) laik_mpi_panic(err);
         }
         if (laik_trans_isInGroup(t, a->outputGroup, myid)) {
             laik_log(1, "        exec MPI_Recv from T%d", reduceTask);
             err = MPI_Recv(a->toBuf, (int) a->count, dataType,
-                           reduceTask, 1, comm, &st);
+                           reduceTask, tag, comm, &st);
             if (err != MPI_SUCCESS) laik_mpi_panic(err);
             // check that we received the expected number of elements
             err = MPI_Get_count(&st, dataType, &count);
@@ -632,7 +635,7 @@ void laik_mpi_exec_groupReduce(Laik_TransitionContext* tc,
 
         bufOff[ii++] = off;
         err = MPI_Recv(packbuf + off, (int) a->count, dataType,
-                       inTask, 1, comm, &st);
+                       inTask, tag, comm, &st);
         if (err != MPI_SUCCESS) laik_mpi_panic(err);
         // check that we received the expected number of elements
         err = MPI_Get_count(&st, dataType, &count);
@@ -672,11 +675,64 @@ void laik_mpi_exec_groupReduce(Laik_TransitionContext* tc,
         }
 
         laik_log(1, "        exec MPI_Send result to T%d", outTask);
-        err = MPI_Send(a->toBuf, (int) a->count, dataType, outTask, 1, comm);
+        err = MPI_Send(a->toBuf, (int) a->count, dataType, outTask, tag, comm);
         if (err != MPI_SUCCESS) laik_mpi_panic(err);
     }
 }
 
+// group reduction given by map numbers: mappings were not known when the
+// sequence was prepared, or the range to reduce may not be consecutive in
+// memory (>1 dimensions). Thus, do the reduction on a packed buffer
+static
+void laik_mpi_exec_mapGroupReduce(Laik_TransitionContext* tc,
+                                  Laik_BackendAction* a,
+                                  MPI_Datatype dataType, MPI_Comm comm)
+{
+    assert(a->h.type == LAIK_AT_MapGroupReduce);
+    Laik_Transition* t = tc->transition;
+    int myid = t->group->myid;
+    unsigned int elemsize = tc->data->elemsize;
+    bool isInput  = laik_trans_isInGroup(t, a->inputGroup, myid);
+    bool isOutput = laik_trans_isInGroup(t, a->outputGroup, myid);
+    if (!isInput && !isOutput) return;
+
+    char* buf = malloc((size_t) a->count * elemsize);
+    if (!buf) {
+        laik_panic("Out of memory allocating buffer for reduction");
+        exit(1); // not actually needed, laik_panic never returns
+    }
+
+    // work on copy of action, with buffer as source and target
+    Laik_BackendAction ra = *a;
+    ra.h.type = LAIK_AT_GroupReduce;
+    ra.fromBuf = buf;
+    ra.toBuf = buf;
+
+    if (isInput) {
+        assert(tc->fromList && (a->fromMapNo < tc->fromList->count));
+        laik_exec_pack(&ra, &(tc->fromList->map[a->fromMapNo]));
+    }
+
+    // do reduction in slices: all inputs of a slice need to fit into <packbuf>
+    int inCount = laik_trans_groupCount(t, a->inputGroup);
+    unsigned int maxCount = (PACKBUFSIZE - 1) / elemsize / (inCount + 1);
+    for(unsigned int off = 0; off < a->count; off += ra.count) {
+        ra.count = a->count - off;
+        if (ra.count > maxCount) ra.count = maxCount;
+        ra.fromBuf = buf + (size_t) off * elemsize;
+        ra.toBuf = ra.fromBuf;
+        laik_mpi_exec_groupReduce(tc, &ra, dataType, comm);
+    }
+
+    if (isOutput) {
+        ra.count = a->count;
+        ra.fromBuf = buf;
+        assert(tc->toList && (a->toMapNo < tc->toList->count));
+        laik_exec_unpack(&ra, &(tc->toList->map[a->toMapNo]));
+    }
+    free(buf);
+}
+
 static
 void laik_mpi_exec(Laik_ActionSeq* as)
 {
@@ -928,6 +984,10 @@ void laik_mpi_exec(Laik_ActionSeq* as)
             laik_mpi_exec_groupReduce(tc, ba, dataType, comm);
             break;
 
+        case LAIK_AT_MapGroupReduce:
+            laik_mpi_exec_mapGroupReduce(tc, ba, dataType, comm);
+            break;
+
         case LAIK_AT_RBufLocalReduce:
             assert(ba->bufID < ASEQ_BUFFER_MAX);
             assert(ba->dtype->reduce != 0);
diff --git a/src/backends/tcp/backend-tcp.c b/src/backends/tcp/backend-tcp.c
index c740880..76b18ac 100644
--- a/src/backends/tcp/backend-tcp.c
+++ b/src/backends/tcp/backend-tcp.c
@@ -398,19 +398,22 @@ void laik_mpi_exec_groupReduce(Laik_TransitionContext* tc,
     MPI_Status st;
     int count, err;
 
+    // do not mix with messages from async actions, which use tag 1
+    const int tag = 2;
+
     if (myid != reduceTask) {
         // not the reduce task: eventually send input and recv result
 
         if (laik_trans_isInGroup(t, a->inputGroup, myid)) {
             laik_log(1, "        exec MPI_Send to T%d", reduceTask);
             err = MPI_Send(a->fromBuf, (int) a->count, dataType,
-                           reduceTask, 1, comm);
+                           reduceTask, tag, comm);
             if (err != MPI_SUCCESS) laik_tcp_panic(err);
         }
         if (laik_trans_isInGroup(t, a->outputGroup, myid)) {
             laik_log(1, "        exec MPI_Recv from T%d", reduceTask);
             err = MPI_Recv(a->toBuf, (int) a->count, dataType,
-                           reduceTask, 1, comm, &st);
+                           reduceTask, tag, comm, &st);
             if (err != MPI_SUCCESS) laik_tcp_panic(err);
             // check that we received the expected number of elements
             err = MPI_Get_count(&st, dataType, &count);
@@ -451,7 +454,7 @@ void laik_mpi_exec_groupReduce(Laik_TransitionContext* tc,
 
         bufOff[ii++] = off;
         err = MPI_Recv(packbuf + off, (int) a->count, dataType,
-                       inTask, 1, comm, &st);
+                       inTask, tag, comm, &st);
         if (err != MPI_SUCCESS) laik_tcp_panic(err);
         // check that we received the expected number of elements
         err = MPI_Get_count(&st, dataType, &count);
@@ -491,11 +494,64 @@ void laik_mpi_exec_groupReduce(Laik_TransitionContext* tc,
         }
 
         laik_log(1, "        exec MPI_Send result to T%d", outTask);
-        err = MPI_Send(a->toBuf, (int) a->count, dataType, outTask, 1, comm);
+        err = MPI_Send(a->toBuf, (int) a->count, dataType, outTask, tag, comm);
         if (err != MPI_SUCCESS) laik_tcp_panic(err);
     }
 }
 
+// group reduction given by map numbers: mappings were not known when the
+// sequence was prepared, or the range to reduce may not be consecutive in
+// memory (>1 dimensions). Thus, do the reduction on a packed buffer
+static
+void laik_mpi_exec_mapGroupReduce(Laik_TransitionContext* tc,
+                                  Laik_BackendAction* a,
+                                  MPI_Datatype dataType, MPI_Comm comm)
+{
+    assert(a->h.type == LAIK_AT_MapGroupReduce);
+    Laik_Transition* t = tc->transition;
+    int myid = t->group->myid;
+    unsigned int elemsize = tc->data->elemsize;
+    bool isInput  = laik_trans_isInGroup(t, a->inputGroup, myid);
+    bool isOutput = laik_trans_isInGroup(t, a->outputGroup, myid);
+    if (!isInput && !isOutput) return;
+
+    char* buf = malloc((size_t) a->count * elemsize);
+    if (!buf) {
+        laik_panic("Out of memory allocating buffer for reduction");
+        exit(1); // not actually needed, laik_panic never returns
+    }
+
+    // work on copy of action, with buffer as source and target
+    Laik_BackendAction ra = *a;
+    ra.h.type = LAIK_AT_GroupReduce;
+    ra.fromBuf = buf;
+    ra.toBuf = buf;
+
+    if (isInput) {
+        assert(tc->fromList && (a->fromMapNo < tc->fromList->count));
+        laik_exec_pack(&ra, &(tc->fromList->map[a->fromMapNo]));
+    }
+
+    // do reduction in slices: all inputs of a slice need to fit into <packbuf>
+    int inCount = laik_trans_groupCount(t, a->inputGroup);
+    unsigned int maxCount = (PACKBUFSIZE - 1) / elemsize / (inCount + 1);
+    for(unsigned int off = 0; off < a->count; off += ra.count) {
+        ra.count = a->count - off;
+        if (ra.count > maxCount) ra.count = maxCount;
+        ra.fromBuf = buf + (size_t) off * elemsize;
+        ra.toBuf = ra.fromBuf;
+        laik_mpi_exec_groupReduce(tc, &ra, dataType, comm);
+    }
+
+    if (isOutput) {
+        ra.count = a->count;
+        ra.fromBuf = buf;
+        assert(tc->toList && (a->toMapNo < tc->toList->count));
+        laik_exec_unpack(&ra, &(tc->toList->map[a->toMapNo]));
+    }
+    free(buf);
+}
+
 static
 void laik_tcp_exec(Laik_ActionSeq* as)
 {
@@ -704,6 +760,10 @@ void laik_tcp_exec(Laik_ActionSeq* as)
             laik_mpi_exec_groupReduce(tc, ba, dataType, comm);
             break;
 
+        case LAIK_AT_MapGroupReduce:
+            laik_mpi_exec_mapGroupReduce(tc, ba, dataType, comm);
+            break;
+
         case LAIK_AT_RBufLocalReduce:
             assert(ba->bufID < ASEQ_BUFFER_MAX);
             assert(ba->dtype->reduce != 0);
-- 
2.43.0


From ad57977fac4854724610cd43479be1229f32f76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:41 +0000
Subject: [PATCH 08/89] fix: and/or reductions were done as logical operation
 with MPI collectives

---
 src/backend-mpi.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend-mpi.c b/src/backend-mpi.c
index 172ae32..db439b7 100644
--- a/src/backend-mpi.c
+++ b/src/backend-mpi.c
@@ -462,8 +462,8 @@ MPI_Op getMPIOp(Laik_ReductionOperation redOp)
     case LAIK_RO_Prod: mpiRedOp = MPI_PROD; break;
     case LAIK_RO_Min:  mpiRedOp = MPI_MIN; break;
     case LAIK_RO_Max:  mpiRedOp = MPI_MAX; break;
-    case LAIK_RO_And:  mpiRedOp = MPI_LAND; break;
-    case LAIK_RO_Or:   mpiRedOp = MPI_LOR; break;
+    case LAIK_RO_And:  mpiRedOp = MPI_BAND; break;
+    case LAIK_RO_Or:   mpiRedOp = MPI_BOR; break;
     default: assert(0);
     }
     return mpiRedOp;
-- 
2.43.0


From fd987a0af2f62f80bdffc9bbd59651a957323169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:11 +0000
Subject: [PATCH 09/89] fix: async sends must complete before a later round
 changes the buffer

---
 src/backend-mpi.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/backend-mpi.c b/src/backend-mpi.c
index db439b7..771bd64 100644
--- a/src/backend-mpi.c
+++ b/src/backend-mpi.c
@@ -212,7 +212,7 @@ bool laik_mpi_log_action(Laik_Action* a)
 }
 
 // transformation: split send/recv actions into isend/irecv + wait
-// - replace send with isend and wait for completion at end
+// - replace send with isend and wait for completion before the next round
 // - replace recv with irecv at begin and wait at original position
 bool laik_mpi_asyncSendRecv(Laik_ActionSeq* as)
 {
@@ -220,19 +220,19 @@ bool laik_mpi_asyncSendRecv(Laik_ActionSeq* as)
     assert(as->newActionCount == 0);
 
     unsigned int count = 0;
-    int maxround = 0;
     Laik_Action* a = as->action;
     for(unsigned int i = 0; i < as->actionCount; i++, a = nextAction(a)) {
-        if (a->round > maxround) maxround = a->round;
         if ((a->type == LAIK_AT_BufRecv) || (a->type == LAIK_AT_BufSend))
             count++;
     }
 
     if (count == 0) return false;
 
-    // add 2 new rounds: 0 and maxround+2
-    // - round 0 gets MpiReq and all MpiIrecv actions
-    // - round maxround+2 gets Waits from MpiISend actions
+    // add new round 0 for MpiReq and all MpiIrecv actions.
+    // Waits for MpiISend actions go to the begin of the next round, as actions
+    // of later rounds (local reductions) may change the content of the buffer.
+    // They need to be added before other actions of that round, which is the
+    // case as actions are visited in the order of rounds
 
     MPI_Request* buf = malloc(count * sizeof(MPI_Request));
     laik_mpi_addMpiReq(as, 0, count, buf);
@@ -245,7 +245,7 @@ bool laik_mpi_asyncSendRecv(Laik_ActionSeq* as)
             Laik_A_BufSend* aa = (Laik_A_BufSend*) a;
             laik_mpi_addMpiIsend(as, a->round + 1,
                                  aa->buf, aa->count, aa->to_rank, req_id);
-            laik_mpi_addMpiWait(as, maxround + 2, req_id);
+            laik_mpi_addMpiWait(as, a->round + 2, req_id);
             req_id++;
             break;
         }
-- 
2.43.0


From 08dcda5b299b6703efe68458c78bf3b49c6853ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:11 +0000
Subject: [PATCH 10/89] fix: values were lost when changing tags within a
 reservation

---
 src/data.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/data.c b/src/data.c
index 0b6686a..1b582d2 100644
--- a/src/data.c
+++ b/src/data.c
@@ -554,9 +554,6 @@ void copyMaps(Laik_Transition* t,
     assert(fromList != 0);
     assert(toList != 0);
 
-    // no copy required if we stay in same reservation
-    if ((fromList->res != 0) && (fromList->res == toList->res)) return;
-
     for(int i = 0; i < t->localCount; i++) {
         struct localTOp* op = &(t->local[i]);
         assert(op->fromMapNo < fromList->count);
@@ -574,6 +571,10 @@ void copyMaps(Laik_Transition* t,
             continue;
         }
 
+        // no copy required if both are part of same allocation in a reservation
+        if ((fromMap->baseMapping != 0) &&
+            (fromMap->baseMapping == toMap->baseMapping)) continue;
+
         Laik_Data* d = toMap->data;
         Laik_Range* s = &(op->range);
 
-- 
2.43.0


From 5ddb085505a0d076a6e9ae7fec21fb5b25901563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:19 +0000
Subject: [PATCH 11/89] fix: send/recv mismatch for overlapping or multiple
 ranges with more than one dimension

---
 src/space.c | 117 ++++++++++++++++++++++++----------------------------
 1 file changed, 53 insertions(+), 64 deletions(-)

diff --git a/src/space.c b/src/space.c
index 7edc857..4ae1174 100644
--- a/src/space.c
+++ b/src/space.c
@@ -1334,6 +1334,20 @@ void calcAddReductions(int tflags,
     freeBorderList();
 }
 
+// is <range> completely part of one of the ranges of <task>?
+// used to detect that the receiver already has the values of a potential
+// message locally, and thus there is no need to send it
+// FIXME: should print out a Warning/Error as the App may request
+//        overwriting of values!
+static
+bool isWithinTaskRange(Laik_Range* range, Laik_RangeList* list, int task)
+{
+    for(unsigned int o = list->off[task]; o < list->off[task+1]; o++)
+        if (laik_range_within_range(range, &(list->trange[o].range)))
+            return true;
+    return false;
+}
+
 static int trans_id = 0;
 
 // Calculate communication required for transitioning between partitionings
@@ -1426,23 +1440,6 @@ do_calc_transition(Laik_Space* space,
                 exit(1); // not actually needed, laik_panic never returns
             }
 
-            // determine local ranges to keep
-            // (may need local copy if from/to mappings are different).
-            // reductions are not handled here, but by backend
-            for(o1 = fromRL->off[myid]; o1 < fromRL->off[myid+1]; o1++) {
-                for(o2 = toRL->off[myid]; o2 < toRL->off[myid+1]; o2++) {
-                    range = laik_range_intersect(&(fromRL->trange[o1].range),
-                                               &(toRL->trange[o2].range));
-                    if (range == 0) continue;
-
-                    appendLocalTOp(range,
-                                   o1 - fromRL->off[myid],
-                                   o2 - toRL->off[myid],
-                                   fromRL->trange[o1].mapNo,
-                                   toRL->trange[o2].mapNo);
-                }
-            }
-
             // something to reduce?
             if (laik_is_reduction(redOp)) {
                 // special case: reduction on full space involving everyone with
@@ -1485,66 +1482,58 @@ do_calc_transition(Laik_Space* space,
             }
             else { // no reduction
 
+                // determine local ranges to keep
+                // (may need local copy if from/to mappings are different)
+                for(o1 = fromRL->off[myid]; o1 < fromRL->off[myid+1]; o1++) {
+                    for(o2 = toRL->off[myid]; o2 < toRL->off[myid+1]; o2++) {
+                        range = laik_range_intersect(&(fromRL->trange[o1].range),
+                                                   &(toRL->trange[o2].range));
+                        if (range == 0) continue;
+
+                        appendLocalTOp(range,
+                                       o1 - fromRL->off[myid],
+                                       o2 - toRL->off[myid],
+                                       fromRL->trange[o1].mapNo,
+                                       toRL->trange[o2].mapNo);
+                    }
+                }
+
                 // something to receive not coming from a reduction?
+                // the sender has to come to the same decisions on what to
+                // send, and messages between two tasks must be in same order:
+                // both go over ranges of the sender first
                 for(int task = 0; task < taskCount; task++) {
                     if (task == myid) continue;
-                    for(o1 = toRL->off[myid]; o1 < toRL->off[myid+1]; o1++) {
-
-                        // everything we have local will not have been sent
-                        // TODO: we only check for exact match to catch All
-                        // FIXME: should print out a Warning/Error as the App
-                        //        was requesting for overwriting of values!
-                        range = &(toRL->trange[o1].range);
-                        for(o2 = fromRL->off[myid]; o2 < fromRL->off[myid+1]; o2++) {
-                            if (laik_range_isEqual(range,
-                                                   &(fromRL->trange[o2].range))) {
-                                range = 0;
-                                break;
-                            }
-                        }
-                        if (range == 0) continue;
-
-                        for(o2 = fromRL->off[task]; o2 < fromRL->off[task+1]; o2++) {
+                    for(o1 = fromRL->off[task]; o1 < fromRL->off[task+1]; o1++) {
+                        for(o2 = toRL->off[myid]; o2 < toRL->off[myid+1]; o2++) {
 
-                            range = laik_range_intersect(&(fromRL->trange[o2].range),
-                                                       &(toRL->trange[o1].range));
+                            range = laik_range_intersect(&(fromRL->trange[o1].range),
+                                                       &(toRL->trange[o2].range));
                             if (range == 0) continue;
+                            if (isWithinTaskRange(range, fromRL, myid)) continue;
 
-                            appendRecvTOp(range, o1 - toRL->off[myid],
-                                          toRL->trange[o1].mapNo, task);
+                            appendRecvTOp(range, o2 - toRL->off[myid],
+                                          toRL->trange[o2].mapNo, task);
                         }
                     }
                 }
-            }
-
-            // something to send?
-            for(int task = 0; task < taskCount; task++) {
-                if (task == myid) continue;
-                for(o1 = fromRL->off[myid]; o1 < fromRL->off[myid+1]; o1++) {
 
-                    // everything the receiver has local, no need to send
-                    // TODO: we only check for exact match to catch All
-                    // FIXME: should print out a Warning/Error as the App
-                    //        requests overwriting of values!
-                    range = &(fromRL->trange[o1].range);
-                    for(o2 = fromRL->off[task]; o2 < fromRL->off[task+1]; o2++) {
-                        if (laik_range_isEqual(range,
-                                               &(fromRL->trange[o2].range))) {
-                            range = 0;
-                            break;
-                        }
-                    }
-                    if (range == 0) continue;
+                // something to send?
+                for(int task = 0; task < taskCount; task++) {
+                    if (task == myid) continue;
+                    for(o1 = fromRL->off[myid]; o1 < fromRL->off[myid+1]; o1++) {
 
-                    // we may send multiple messages to same task
-                    for(o2 = toRL->off[task]; o2 < toRL->off[task+1]; o2++) {
+                        // we may send multiple messages to same task
+                        for(o2 = toRL->off[task]; o2 < toRL->off[task+1]; o2++) {
 
-                        range = laik_range_intersect(&(fromRL->trange[o1].range),
-                                                   &(toRL->trange[o2].range));
-                        if (range == 0) continue;
+                            range = laik_range_intersect(&(fromRL->trange[o1].range),
+                                                       &(toRL->trange[o2].range));
+                            if (range == 0) continue;
+                            if (isWithinTaskRange(range, fromRL, task)) continue;
 
-                        appendSendTOp(range, o1 - fromRL->off[myid],
-                                      fromRL->trange[o1].mapNo, task);
+                            appendSendTOp(range, o1 - fromRL->off[myid],
+                                          fromRL->trange[o1].mapNo, task);
+                        }
                     }
                 }
             }
-- 
2.43.0


From db215907006fa953d9f1287167a86ee4a7c45664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:36 +0000
Subject: [PATCH 12/89] fix: wrong strides when copying/packing ranges of other
 than the first map

---
 src/layout_lex.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/layout_lex.c b/src/layout_lex.c
index 6f7d429..0285dbc 100644
--- a/src/layout_lex.c
+++ b/src/layout_lex.c
@@ -180,8 +180,8 @@ void copy_lex(Laik_Range* range,
     Laik_Layout_Lex* toLayout = laik_is_layout_lex(to->layout);
     assert(fromLayout != 0);
     assert(toLayout != 0);
-    Lex_Entry* fromLayoutEntry = &(fromLayout->e[0]);
-    Lex_Entry* toLayoutEntry = &(toLayout->e[0]);
+    Lex_Entry* fromLayoutEntry = &(fromLayout->e[from->layoutSection]);
+    Lex_Entry* toLayoutEntry = &(toLayout->e[to->layoutSection]);
 
     unsigned int elemsize = from->data->elemsize;
     assert(elemsize == to->data->elemsize);
@@ -239,7 +239,7 @@ unsigned int pack_lex(Laik_Mapping* m, Laik_Range* s,
 {
     unsigned int elemsize = m->data->elemsize;
     Laik_Layout_Lex* layout = laik_is_layout_lex(m->layout);
-    Lex_Entry* layoutEntry = &(layout->e[0]);
+    Lex_Entry* layoutEntry = &(layout->e[m->layoutSection]);
     int dims = m->layout->dims;
 
     if (laik_index_isEqual(dims, idx, &(s->to))) {
@@ -362,7 +362,7 @@ unsigned int unpack_lex(Laik_Mapping* m, Laik_Range* s,
 {
     unsigned int elemsize = m->data->elemsize;
     Laik_Layout_Lex* layout = laik_is_layout_lex(m->layout);
-    Lex_Entry* layoutEntry = &(layout->e[0]);
+    Lex_Entry* layoutEntry = &(layout->e[m->layoutSection]);
     int dims = m->layout->dims;
 
     // there should be something to unpack
-- 
2.43.0


From 09fd9a5b8e21d5cc9b00285d3f47eaa8816d6c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:52 +0000
Subject: [PATCH 13/89] fix: block partitioner asserted with less indexes than
 parts

---
 src/partitioner.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/partitioner.c b/src/partitioner.c
index a285f7c..5b52f64 100644
--- a/src/partitioner.c
+++ b/src/partitioner.c
@@ -616,7 +616,8 @@ void runBlockPartitioner(Laik_RangeReceiver* r, Laik_PartitionerParams* p)
         }
         if ((task+1 == count) && (cycle+1 == cycles)) break;
     }
-    assert((task+1 == count) && (cycle+1 == cycles));
+    // remaining indexes go to the current task. There may be no indexes left for
+    // last tasks/cycles, e.g. with less indexes than number of parts
     range.to.i[pdim] = s->range.to.i[pdim];
     laik_append_range(r, task, &range, 0, 0);
 }
-- 
2.43.0


From 7e200959d31f88375a193b9086dce4dc55fea65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:36 +0000
Subject: [PATCH 14/89] fix: bisection partitioner generated empty ranges with
 less indexes than tasks

---
 src/partitioner.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/partitioner.c b/src/partitioner.c
index 5b52f64..b43ccc8 100644
--- a/src/partitioner.c
+++ b/src/partitioner.c
@@ -410,7 +410,9 @@ static void doBisection(Laik_RangeReceiver* r, Laik_PartitionerParams* p,
     Laik_Range s1 = *s, s2 = *s;
     s1.to.i[splitDim] = s->from.i[splitDim] + w;
     s2.from.i[splitDim] = s->from.i[splitDim] + w;
-    doBisection(r, p, &s1, fromTask, midTask);
+    // with less indexes than tasks, first part may be empty
+    if (w > 0)
+        doBisection(r, p, &s1, fromTask, midTask);
     doBisection(r, p, &s2, midTask, toTask);
 }
 
-- 
2.43.0


From f3527996a489d72ce8f6249f7712f66a9eff544f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:37 +0000
Subject: [PATCH 15/89] fix: grid partitioner lost indexes due to rounding

---
 src/partitioner.c | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/partitioner.c b/src/partitioner.c
index b43ccc8..aa7bc19 100644
--- a/src/partitioner.c
+++ b/src/partitioner.c
@@ -447,9 +447,9 @@ void runGridPartitioner(Laik_RangeReceiver* r, Laik_PartitionerParams* p)
     assert(p->group->size >= blocks);
 
     Laik_Range* ss = &(p->space->range);
-    double xStep = (ss->to.i[0] - ss->from.i[0]) / (double) data->xblocks;
-    double yStep = (ss->to.i[1] - ss->from.i[1]) / (double) data->yblocks;
-    double zStep = (ss->to.i[2] - ss->from.i[2]) / (double) data->zblocks;
+    int64_t xSize = ss->to.i[0] - ss->from.i[0];
+    int64_t ySize = ss->to.i[1] - ss->from.i[1];
+    int64_t zSize = ss->to.i[2] - ss->from.i[2];
 
     Laik_Range range;
     int64_t from, to;
@@ -457,26 +457,23 @@ void runGridPartitioner(Laik_RangeReceiver* r, Laik_PartitionerParams* p)
     range.space = p->space;
     int task = 0;
     for(int z = 0; z < data->zblocks; z++) {
-        from = ss->from.i[2] + z * zStep;
-        to   = ss->from.i[2] + (z+1) * zStep;
+        from = ss->from.i[2] + zSize * z / data->zblocks;
+        to   = ss->from.i[2] + zSize * (z+1) / data->zblocks;
         if (from == to) continue;
-        if (to > ss->to.i[2]) to = ss->to.i[2];
         range.from.i[2] = from;
         range.to.i[2]   = to;
 
         for(int y = 0; y < data->yblocks; y++) {
-            from = ss->from.i[1] + y * yStep;
-            to   = ss->from.i[1] + (y+1) * yStep;
+            from = ss->from.i[1] + ySize * y / data->yblocks;
+            to   = ss->from.i[1] + ySize * (y+1) / data->yblocks;
             if (from == to) continue;
-            if (to > ss->to.i[1]) to = ss->to.i[1];
             range.from.i[1] = from;
             range.to.i[1]   = to;
 
             for(int x = 0; x < data->xblocks; x++) {
-                from = ss->from.i[0] + x * xStep;
-                to   = ss->from.i[0] + (x+1) * xStep;
+                from = ss->from.i[0] + xSize * x / data->xblocks;
+                to   = ss->from.i[0] + xSize * (x+1) / data->xblocks;
                 if (from == to) continue;
-                if (to > ss->to.i[0]) to = ss->to.i[0];
                 range.from.i[0] = from;
                 range.to.i[0]   = to;
 
-- 
2.43.0


From fb8ed547abaa2594a5e00b9fc8b2d7cfa0b61277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:45 +0000
Subject: [PATCH 16/89] fix: coverage check asserted with more than 100
 uncovered parts

---
 src/rangelist.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/rangelist.c b/src/rangelist.c
index cf5d564..84c235c 100644
--- a/src/rangelist.c
+++ b/src/rangelist.c
@@ -163,14 +163,20 @@ Laik_TaskRange* laik_rangelist_tidrange(Laik_RangeList* list, int tid, int n)
 // print verbose debug output?
 //#define DEBUG_COVERSPACE 1
 
-// TODO: use dynamic list
-#define COVERLIST_MAX 100
-static Laik_Range notcovered[COVERLIST_MAX];
-static int notcovered_count;
+static Laik_Range* notcovered = 0;
+static int notcovered_count, notcovered_size = 0;
 
+// may move <notcovered>, thus <s> must not point into it
 static void appendToNotcovered(Laik_Range* s)
 {
-    assert(notcovered_count < COVERLIST_MAX);
+    if (notcovered_count == notcovered_size) {
+        notcovered_size = (notcovered_size + 50) * 2;
+        notcovered = realloc(notcovered, notcovered_size * sizeof(Laik_Range));
+        if (!notcovered) {
+            laik_panic("Out of memory allocating memory for coversSpace");
+            exit(1); // not actually needed, laik_panic never returns
+        }
+    }
     notcovered[notcovered_count] = *s;
     notcovered_count++;
 }
@@ -246,7 +252,8 @@ bool laik_rangelist_coversSpace(Laik_RangeList* list)
 
         int count = notcovered_count; // number of ranges to visit
         for(int j = 0; j < count; j++) {
-            Laik_Range* orig = &(notcovered[j]);
+            Laik_Range origRange = notcovered[j]; // copy: list may move
+            Laik_Range* orig = &origRange;
 
             if (laik_range_intersect(orig, toRemove) == 0) {
                 // range to remove does not overlap with orig: keep original
-- 
2.43.0


From ff0012e2af692f53cb408de9ebc90a7c351022e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:31 +0000
Subject: [PATCH 17/89] fix: halo partitioner skipped halos closer to the
 border than its depth

---
 src/partitioner.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/partitioner.c b/src/partitioner.c
index aa7bc19..06359b5 100644
--- a/src/partitioner.c
+++ b/src/partitioner.c
@@ -312,43 +312,55 @@ void runHaloPartitioner(Laik_RangeReceiver* r, Laik_PartitionerParams* p)
         Laik_Range range = *s;
         laik_append_range(r, task, &range, tag, 0);
 
-        if (range.from.i[0] > sp.from.i[0] + depth) {
+        if (range.from.i[0] > sp.from.i[0]) {
             range.to.i[0] = range.from.i[0];
             range.from.i[0] -= depth;
+            if (range.from.i[0] < sp.from.i[0])
+                range.from.i[0] = sp.from.i[0];
             laik_append_range(r, task, &range, tag, 0);
         }
         range = *s;
-        if (range.to.i[0] < sp.to.i[0] - depth) {
+        if (range.to.i[0] < sp.to.i[0]) {
             range.from.i[0] = range.to.i[0];
             range.to.i[0] += depth;
+            if (range.to.i[0] > sp.to.i[0])
+                range.to.i[0] = sp.to.i[0];
             laik_append_range(r, task, &range, tag, 0);
         }
 
         if (dims > 1) {
             range = *s;
-            if (range.from.i[1] > sp.from.i[1] + depth) {
+            if (range.from.i[1] > sp.from.i[1]) {
                 range.to.i[1] = range.from.i[1];
                 range.from.i[1] -= depth;
+                if (range.from.i[1] < sp.from.i[1])
+                    range.from.i[1] = sp.from.i[1];
                 laik_append_range(r, task, &range, tag, 0);
             }
             range = *s;
-            if (range.to.i[1] < sp.to.i[1] - depth) {
+            if (range.to.i[1] < sp.to.i[1]) {
                 range.from.i[1] = range.to.i[1];
                 range.to.i[1] += depth;
+                if (range.to.i[1] > sp.to.i[1])
+                    range.to.i[1] = sp.to.i[1];
                 laik_append_range(r, task, &range, tag, 0);
             }
 
             if (dims > 2) {
                 range = *s;
-                if (range.from.i[2] > sp.from.i[2] + depth) {
+                if (range.from.i[2] > sp.from.i[2]) {
                     range.to.i[2] = range.from.i[2];
                     range.from.i[2] -= depth;
+                    if (range.from.i[2] < sp.from.i[2])
+                        range.from.i[2] = sp.from.i[2];
                     laik_append_range(r, task, &range, tag, 0);
                 }
                 range = *s;
-                if (range.to.i[2] < sp.to.i[2] - depth) {
+                if (range.to.i[2] < sp.to.i[2]) {
                     range.from.i[2] = range.to.i[2];
                     range.to.i[2] += depth;
+                    if (range.to.i[2] > sp.to.i[2])
+                        range.to.i[2] = sp.to.i[2];
                     laik_append_range(r, task, &range, tag, 0);
                 }
             }
-- 
2.43.0


From e23a4600b8ae3d68be83e3995b1701dc7c872ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:52 +0000
Subject: [PATCH 18/89] fix: buffer overflow describing a layout with many maps

---
 src/layout_lex.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/layout_lex.c b/src/layout_lex.c
index 0285dbc..c4a5e56 100644
--- a/src/layout_lex.c
+++ b/src/layout_lex.c
@@ -123,6 +123,11 @@ char* describe_lex(Laik_Layout* l)
     o = sprintf(s, "lex (%dd, %d maps, strides ",
                 l->dims, l->map_count);
     for(int i = 0; i < l->map_count; i++) {
+        // an entry needs at most 64 chars: abbreviate if it may not fit
+        if (o > 200 - 64 - 5) {
+            o += sprintf(s+o, "...");
+            break;
+        }
         Lex_Entry* e = &(ll->e[i]);
         o += sprintf(s+o, "%s%llu/%llu/%llu",
              (i == 0) ? "":", ",
-- 
2.43.0


From 734cfba08d981116ad4401a71002bd7c959686a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:37 +0000
Subject: [PATCH 19/89] verif: allow to set size of pack buffer
 (LAIK_VERIF_PACKBUFSIZE)

---
 src/backend-mpi.c              | 5 +++++
 src/backends/tcp/backend-tcp.c | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/backend-mpi.c b/src/backend-mpi.c
index 771bd64..d193515 100644
--- a/src/backend-mpi.c
+++ b/src/backend-mpi.c
@@ -79,7 +79,12 @@ static int mpi_async = 1;
 //----------------------------------------------------------------
 // buffer space for messages if packing/unpacking from/to not-1d layout
 // is necessary
+#ifdef LAIK_VERIF_PACKBUFSIZE
+// small buffer for checks, to get transfers in multiple messages
+#define PACKBUFSIZE LAIK_VERIF_PACKBUFSIZE
+#else
 #define PACKBUFSIZE (10*1024*1024)
+#endif
 //#define PACKBUFSIZE (10*800)
 static char packbuf[PACKBUFSIZE];
 
diff --git a/src/backends/tcp/backend-tcp.c b/src/backends/tcp/backend-tcp.c
index 76b18ac..3aef7cc 100644
--- a/src/backends/tcp/backend-tcp.c
+++ b/src/backends/tcp/backend-tcp.c
@@ -87,7 +87,12 @@ static int tcp_reduce = 1;
 //----------------------------------------------------------------
 // buffer space for messages if packing/unpacking from/to not-1d layout
 // is necessary
+#ifdef LAIK_VERIF_PACKBUFSIZE
+// small buffer for checks, to get transfers in multiple messages
+#define PACKBUFSIZE LAIK_VERIF_PACKBUFSIZE
+#else
 #define PACKBUFSIZE (10*1024*1024)
+#endif
 //#define PACKBUFSIZE (10*800)
 static char packbuf[PACKBUFSIZE];
 
-- 
2.43.0


From 2ee6d4f761406eca0afef3e919db694e9bafc286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:23 +0000
Subject: [PATCH 20/89] fix: reductions asserted with more than 32 inputs

---
 src/action.c                   | 6 ++----
 src/backend-mpi.c              | 3 +--
 src/backends/tcp/backend-tcp.c | 3 +--
 3 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/action.c b/src/action.c
index 212d661..21e8660 100644
--- a/src/action.c
+++ b/src/action.c
@@ -2115,8 +2115,7 @@ void laik_aseq_addReduce3Rounds(Laik_ActionSeq* as,
         bufID = laik_aseq_addBufReserve(as, bufSize, -1);
 
     // collect values from tasks in input group
-    unsigned int bufOff[32], off = 0;
-    assert(inCount <= 32); // TODO: support more than 32 partitial inputs
+    unsigned int bufOff[inCount + 1], off = 0;
 
     // always put this task in front: we use toBuf to calculate
     // our results, but there may be input from us, which would
@@ -2231,8 +2230,7 @@ void laik_aseq_addReduce2Rounds(Laik_ActionSeq* as,
         bufID = laik_aseq_addBufReserve(as, bufSize, -1);
 
     // collect values from tasks in input group
-    unsigned int bufOff[32], off = 0;
-    assert(inCount <= 32); // TODO: support more than 32 partitial inputs
+    unsigned int bufOff[inCount + 1], off = 0;
 
     // always put this task in front: we use toBuf to calculate
     // our results, but there may be input from us, which would
diff --git a/src/backend-mpi.c b/src/backend-mpi.c
index d193515..16fbeb2 100644
--- a/src/backend-mpi.c
+++ b/src/backend-mpi.c
@@ -620,8 +620,7 @@ void laik_mpi_exec_groupReduce(Laik_TransitionContext* tc,
     assert(bufSize < PACKBUFSIZE);
 
     // collect values from tasks in input group
-    int bufOff[32], off = 0;
-    assert(inCount <= 32);
+    int bufOff[inCount + 1], off = 0;
 
     // always put this task in front: we use toBuf to calculate
     // our results, but there may be input from us, which would
diff --git a/src/backends/tcp/backend-tcp.c b/src/backends/tcp/backend-tcp.c
index 3aef7cc..a007d08 100644
--- a/src/backends/tcp/backend-tcp.c
+++ b/src/backends/tcp/backend-tcp.c
@@ -439,8 +439,7 @@ void laik_mpi_exec_groupReduce(Laik_TransitionContext* tc,
     assert(bufSize < PACKBUFSIZE);
 
     // collect values from tasks in input group
-    int bufOff[32], off = 0;
-    assert(inCount <= 32);
+    int bufOff[inCount + 1], off = 0;
 
     // always put this task in front: we use toBuf to calculate
     // our results, but there may be input from us, which would
-- 
2.43.0


From b1dd4db3b2cbb15a31a891e4fcc10c5c7cf9064d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:49 +0000
Subject: [PATCH 21/89] fix: async receives were started while an earlier round
 still used the buffer

---
 src/backend-mpi.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/backend-mpi.c b/src/backend-mpi.c
index 16fbeb2..4e7e0f4 100644
--- a/src/backend-mpi.c
+++ b/src/backend-mpi.c
@@ -218,7 +218,9 @@ bool laik_mpi_log_action(Laik_Action* a)
 
 // transformation: split send/recv actions into isend/irecv + wait
 // - replace send with isend and wait for completion before the next round
-// - replace recv with irecv at begin and wait at original position
+// - replace recv with irecv at end of previous round and wait at original
+//   position. Irecvs must not be started earlier, as actions of previous
+//   rounds may still use or change the content of the buffer
 bool laik_mpi_asyncSendRecv(Laik_ActionSeq* as)
 {
     // must not have new actions, we want to start a new build
@@ -233,7 +235,7 @@ bool laik_mpi_asyncSendRecv(Laik_ActionSeq* as)
 
     if (count == 0) return false;
 
-    // add new round 0 for MpiReq and all MpiIrecv actions.
+    // add new round 0 for MpiReq and MpiIrecv actions of first round.
     // Waits for MpiISend actions go to the begin of the next round, as actions
     // of later rounds (local reductions) may change the content of the buffer.
     // They need to be added before other actions of that round, which is the
@@ -257,7 +259,7 @@ bool laik_mpi_asyncSendRecv(Laik_ActionSeq* as)
 
         case LAIK_AT_BufRecv: {
             Laik_A_BufRecv* aa = (Laik_A_BufRecv*) a;
-            laik_mpi_addMpiIrecv(as, 0,
+            laik_mpi_addMpiIrecv(as, a->round,
                                  aa->buf, aa->count, aa->from_rank, req_id);
             laik_mpi_addMpiWait(as, a->round + 1, req_id);
             req_id++;
-- 
2.43.0


From fa00c19a20a00c7228b008e64657c305dc1d984d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:26 +0000
Subject: [PATCH 22/89] fix: buffer overflows logging long messages

---
 src/logging.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/logging.c b/src/logging.c
index 14e49a1..a7c3d9e 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -223,8 +223,9 @@ void log_append(const char *format, va_list ap)
     // does it fit into buffer? (len is without terminating zero byte)
     if (len >= left) {
         int size = 2 * current_logSize;
-        if (size < len + 1) size = len + 1;
+        if (size < current_logPos + len + 1) size = current_logPos + len + 1;
         current_logBuffer = realloc(current_logBuffer, size);
+        assert(current_logBuffer); // cannot call laik_panic
         current_logSize = size;
         // printf("Enlarging log buffer to %d bytes ...\n", size);
 
@@ -279,12 +280,22 @@ void log_flush()
     counter++;
 
 #define LINE_LEN 100
-    // enough for prefix plus one line of log message
-    static char buf2[150 + LINE_LEN];
     int off1 = 0, off, off2;
 
     char* buf1 = current_logBuffer;
 
+    // a line may get longer than LINE_LEN: it is only broken at spaces.
+    // Thus, use buffer large enough for prefix, indent and complete message
+    static char* buf2 = 0;
+    static int buf2_size = 0;
+    int size = 200 + 2 * (int) strlen(buf1);
+    if (laik_log_mylocation) size += (int) strlen(laik_log_mylocation);
+    if (size > buf2_size) {
+        buf2 = realloc(buf2, size);
+        assert(buf2); // cannot call laik_panic
+        buf2_size = size;
+    }
+
     int spaces = 0, last_break = 0;
     bool at_newline = true;
 
@@ -357,7 +368,7 @@ void log_flush()
         off2 += sprintf(buf2+off2, "%s\n", buf1 + off1);
         off1 = off;
 
-        assert(off2 < 150 + LINE_LEN);
+        assert(off2 < buf2_size);
 
         // TODO: allow to go to debug file
         fprintf(stderr, "%s", buf2);
-- 
2.43.0


From 539f26f3ebe8d63955224f44f30fc82b1919c8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:23 +0000
Subject: [PATCH 23/89] fix: async receives could overwrite buffers of sends
 still in progress

---
 src/backend-mpi.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/backend-mpi.c b/src/backend-mpi.c
index 4e7e0f4..8936b2c 100644
--- a/src/backend-mpi.c
+++ b/src/backend-mpi.c
@@ -235,9 +235,9 @@ bool laik_mpi_asyncSendRecv(Laik_ActionSeq* as)
 
     if (count == 0) return false;
 
-    // add new round 0 for MpiReq and MpiIrecv actions of first round.
-    // Waits for MpiISend actions go to the begin of the next round, as actions
-    // of later rounds (local reductions) may change the content of the buffer.
+    // add new round 0 for MpiReq action.
+    // Waits go to the begin of the next round, as actions of later rounds
+    // (local reductions, receives) may change the content of a send buffer.
     // They need to be added before other actions of that round, which is the
     // case as actions are visited in the order of rounds
 
@@ -259,9 +259,9 @@ bool laik_mpi_asyncSendRecv(Laik_ActionSeq* as)
 
         case LAIK_AT_BufRecv: {
             Laik_A_BufRecv* aa = (Laik_A_BufRecv*) a;
-            laik_mpi_addMpiIrecv(as, a->round,
+            laik_mpi_addMpiIrecv(as, a->round + 1,
                                  aa->buf, aa->count, aa->from_rank, req_id);
-            laik_mpi_addMpiWait(as, a->round + 1, req_id);
+            laik_mpi_addMpiWait(as, a->round + 2, req_id);
             req_id++;
             break;
         }
-- 
2.43.0


From b3fc5a79a3376c3eb5cd9781a4af579052b8dc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:03 +0000
Subject: [PATCH 24/89] fix: block partitioner assigned everything to the first
 processes with small index weights

The border shift of half an index was fixed to 0.5 in units of weight. With
weights scaled such that the total is small, no border was found at all.
---
 src/partitioner.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/partitioner.c b/src/partitioner.c
index 06359b5..1446042 100644
--- a/src/partitioner.c
+++ b/src/partitioner.c
@@ -583,7 +583,10 @@ void runBlockPartitioner(Laik_RangeReceiver* r, Laik_PartitionerParams* p)
 
     int cycles = data ? data->cycles : 1;
     double perPart = totalW / count / cycles;
-    double w = -0.5;
+    // shift borders by half an index, but not more than half of the average
+    // index weight, as weights may be arbitrarily scaled
+    double shift = 0.5 * totalW / size;
+    double w = (shift < 0.5) ? -shift : -0.5;
     int task = 0;
     int cycle = 0;
 
-- 
2.43.0


From 72ae76585bb837fd3962ff371968bbffd2017fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:23 +0000
Subject: [PATCH 25/89] fix: intersection and containment of empty ranges

laik_range_intersect returned an empty range instead of 0 when an empty range
lies inside the other one, and laik_range_within_range was false for empty
multi-dimensional ranges outside in a non-empty dimension.
---
 src/space.c | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/src/space.c b/src/space.c
index 4ae1174..e1c0f39 100644
--- a/src/space.c
+++ b/src/space.c
@@ -170,7 +170,7 @@ bool intersectRange(int64_t from1, int64_t to1, int64_t from2, int64_t to2,
     if (from2 >= to1) return false;
     *resFrom = (from1 > from2) ? from1 : from2;
     *resTo = (to1 > to2) ? to2 : to1;
-    return true;
+    return *resFrom < *resTo;
 }
 
 // get the intersection of two ranges; return 0 if intersection is empty
@@ -234,24 +234,13 @@ bool laik_range_within_range(const Laik_Range* r1, const Laik_Range* r2)
     assert(r1->space == r2->space);
 
     int dims = r1->space->dims;
-    if (r1->from.i[0] < r1->to.i[0]) {
-        // not empty
-        if (r1->from.i[0] < r2->from.i[0]) return false;
-        if (r1->to.i[0] > r2->to.i[0]) return false;
-    }
-    if (dims == 1) return true;
-
-    if (r1->from.i[1] < r1->to.i[1]) {
-        // not empty
-        if (r1->from.i[1] < r2->from.i[1]) return false;
-        if (r1->to.i[1] > r2->to.i[1]) return false;
+    for(int d = 0; d < dims; d++) {
+        // an empty range is contained in any other
+        if (r1->from.i[d] >= r1->to.i[d]) return true;
     }
-    if (dims == 2) return true;
-
-    if (r1->from.i[2] < r1->to.i[2]) {
-        // not empty
-        if (r1->from.i[2] < r2->from.i[2]) return false;
-        if (r1->to.i[2] > r2->to.i[2]) return false;
+    for(int d = 0; d < dims; d++) {
+        if (r1->from.i[d] < r2->from.i[d]) return false;
+        if (r1->to.i[d] > r2->to.i[d]) return false;
     }
     return true;
 }
-- 
2.43.0


From 0f1a7dbe277fbd1b6b69ed27def013258034f53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:34 +0000
Subject: [PATCH 26/89] fix: memory areas of a range list could only be queried
 for one process

---
 src/rangelist.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rangelist.c b/src/rangelist.c
index 84c235c..efd768f 100644
--- a/src/rangelist.c
+++ b/src/rangelist.c
@@ -574,11 +574,14 @@ void laik_updateMapOffsets(Laik_RangeList* list, int tid)
 {
     // already calculated?
     if (list->map_tid == tid) return;
-    assert(list->map_tid < 0);
-    list->map_tid = tid;
 
     assert((tid >= 0) && (tid < (int) list->tid_count));
 
+    // forget offsets calculated for another process id
+    free(list->map_off);
+    list->map_off = 0;
+    list->map_tid = tid;
+
     unsigned int firstOff = list->off[tid];
     unsigned int lastOff = list->off[tid + 1];
     if (lastOff > firstOff)
-- 
2.43.0


From 719e8c35cb22ba862cbde3b3fea322db19de6321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:56 +0000
Subject: [PATCH 27/89] fix: migration of partitionings renumbered memory areas
 and kept stale offsets

Range lists built from single indexes have one memory area per process, which
was changed into one area per range by a migration. Offsets of memory areas
calculated before migration were used for the wrong process id afterwards, and
own ranges of a process not part of a group resulted in an invalid access.
---
 src/partitioning.c |  5 +++--
 src/rangelist.c    | 18 +++++++++++++++++-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/partitioning.c b/src/partitioning.c
index ef0af90..b591b27 100644
--- a/src/partitioning.c
+++ b/src/partitioning.c
@@ -617,8 +617,9 @@ void laik_partitioning_migrate(Laik_Partitioning* p, Laik_Group* newg)
     RangeList_Entry* e = p->rangeList;
     while(e) {
         if (e->info == LAIK_RI_SINGLETASK) {
-            assert(e->filter_tid < oldg->size);
-            e->filter_tid = fromOld[e->filter_tid];
+            // always filtered for own process, which may be not in a group
+            assert(e->filter_tid == oldg->myid);
+            e->filter_tid = newg->myid;
         }
         laik_rangelist_migrate(e->ranges, fromOld, (unsigned int) newg->size);
         e = e->next;
diff --git a/src/rangelist.c b/src/rangelist.c
index efd768f..75d417b 100644
--- a/src/rangelist.c
+++ b/src/rangelist.c
@@ -709,6 +709,22 @@ void laik_rangelist_migrate(Laik_RangeList* list, int* idmap, unsigned int new_c
         }
     }
     list->tid_count = new_count;
+
+    // map offsets have to be recalculated for new ids
+    free(list->map_off);
+    list->map_off = 0;
+    list->map_count = 0;
+    list->map_tid = -1;
+
+    // order of ranges for same process does not change with migration, and so
+    // map numbers are still valid: only offsets need to be updated.
     sortRanges(list);
-    updateOffsets(list);
+    unsigned int off = 0;
+    for(unsigned int task = 0; task < list->tid_count; task++) {
+        list->off[task] = off;
+        while((off < list->count) && (list->trange[off].task == (int) task))
+            off++;
+    }
+    list->off[list->tid_count] = off;
+    assert(off == list->count);
 }
-- 
2.43.0


From cd2a28049e4036895d3b551c632d1041b4f56339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:00 +0000
Subject: [PATCH 28/89] fix: intersection filter lost ranges with several
 memory areas or overlapping own ranges

---
 src/partitioning.c | 44 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/src/partitioning.c b/src/partitioning.c
index b591b27..c67b5bd 100644
--- a/src/partitioning.c
+++ b/src/partitioning.c
@@ -59,6 +59,8 @@ Laik_RangeFilter* laik_rangefilter_new()
 
 void laik_rangefilter_free(Laik_RangeFilter* sf)
 {
+    if (sf->pfilter1) free(sf->pfilter1->ts);
+    if (sf->pfilter2) free(sf->pfilter2->ts);
     free(sf->pfilter1);
     free(sf->pfilter2);
     free(sf);
@@ -153,6 +155,15 @@ bool idxfilter(Laik_RangeFilter* sf, int task, const Laik_Range* s)
     return false;
 }
 
+// helper for laik_rangefilter_add_idxfilter: sort by start index
+static int filterrange_cmp(const void* p1, const void* p2)
+{
+    int64_t from1 = ((const Laik_TaskRange_Gen*) p1)->range.from.i[0];
+    int64_t from2 = ((const Laik_TaskRange_Gen*) p2)->range.from.i[0];
+    if (from1 == from2) return 0;
+    return (from1 < from2) ? -1 : 1;
+}
+
 // add filter to only keep ranges intersecting with ranges in <list> for task <tid>
 void laik_rangefilter_add_idxfilter(Laik_RangeFilter* sf, Laik_RangeList* list, int tid)
 {
@@ -161,18 +172,34 @@ void laik_rangefilter_add_idxfilter(Laik_RangeFilter* sf, Laik_RangeList* list,
     assert(list->space->dims == 1); // TODO: only for 1d for now
 
     assert((tid >= 0) && (tid < (int) list->tid_count));
+    // install filter function: without any ranges to intersect, nothing is kept
+    sf->filter_func = idxfilter;
+
     // no own ranges?
     unsigned mycount = list->off[tid+1] - list->off[tid];
     if (mycount == 0) return;
 
-    Laik_TaskRange_Gen* ts1 = list->trange + list->off[tid];
-    Laik_TaskRange_Gen* ts2 = list->trange + list->off[tid+1]-1;
-
+    // binary search needs sorted ranges without overlap, but ranges in the list
+    // are sorted by tag first. Thus, use a sorted copy with merged ranges
     PFilterPar* par = malloc(sizeof(PFilterPar));
-    par->len = mycount;
-    par->from = ts1->range.from.i[0];
-    par->to   = ts2->range.to.i[0];
-    par->ts = ts1;
+    Laik_TaskRange_Gen* ts = malloc(mycount * sizeof(Laik_TaskRange_Gen));
+    if (!par || !ts) {
+        laik_panic("Out of memory allocating filter for ranges");
+        exit(1); // not actually needed, laik_panic never returns
+    }
+    memcpy(ts, list->trange + list->off[tid], mycount * sizeof(Laik_TaskRange_Gen));
+    qsort(ts, mycount, sizeof(Laik_TaskRange_Gen), filterrange_cmp);
+    unsigned len = 1;
+    for(unsigned i = 1; i < mycount; i++) {
+        if (ts[i].range.from.i[0] > ts[len-1].range.to.i[0])
+            ts[len++] = ts[i];
+        else if (ts[i].range.to.i[0] > ts[len-1].range.to.i[0])
+            ts[len-1].range.to.i[0] = ts[i].range.to.i[0];
+    }
+    par->len = len;
+    par->from = ts[0].range.from.i[0];
+    par->to   = ts[len-1].range.to.i[0];
+    par->ts = ts;
 
     if      (sf->pfilter1 == 0) sf->pfilter1 = par;
     else if (sf->pfilter2 == 0) sf->pfilter2 = par;
@@ -180,9 +207,6 @@ void laik_rangefilter_add_idxfilter(Laik_RangeFilter* sf, Laik_RangeList* list,
 
     laik_log(1,"Set pfilter to intersection with %d ranges between [%lld;%lld[",
              par->len, (long long) par->from, (long long) par->to);
-
-    // install filter function
-    sf->filter_func = idxfilter;
 }
 
 
-- 
2.43.0


From 03a7dc4e35d633a2d6193099c88e5554fa3af88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:00 +0000
Subject: [PATCH 29/89] fix: element addresses were wrong in reused and
 reserved memory areas

---
 src/data.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data.c b/src/data.c
index 1b582d2..e23d0ff 100644
--- a/src/data.c
+++ b/src/data.c
@@ -1417,7 +1417,8 @@ char* laik_get_map_addr(Laik_Data* d, int n, Laik_Index* idx)
     if (!m) return 0;
 
     int64_t off = laik_offset(m->layout, m->layoutSection, idx);
-    return m->base + off * d->elemsize;
+    // offsets are relative to start of allocation
+    return m->start + off * d->elemsize;
 }
 
 
-- 
2.43.0


From 514b01ae516f45399ef24c19e58f527a5ca8dc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:00 +0000
Subject: [PATCH 30/89] fix: initialisation used truncated indexes

---
 src/data.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/data.c b/src/data.c
index e23d0ff..b8035a3 100644
--- a/src/data.c
+++ b/src/data.c
@@ -716,9 +716,9 @@ void initMaps(Laik_Transition* t,
         assert(dims == 1); // only for 1d now
         Laik_Data* d = toMap->data;
         Laik_Range* s = &(op->range);
-        int from = s->from.i[0];
-        int to = s->to.i[0];
-        int elemCount = to - from;
+        int64_t from = s->from.i[0];
+        int64_t to = s->to.i[0];
+        int64_t elemCount = to - from;
 
         char* toBase = toMap->base;
         assert(from >= toMap->requiredRange.from.i[0]);
@@ -736,8 +736,9 @@ void initMaps(Laik_Transition* t,
             assert(0);
         }
 
-        laik_log(1, "init map for '%s' range/map %d/%d: %d entries in [%d;%d[ from %p\n",
-                 d->name, op->rangeNo, op->mapNo, elemCount, from, to, (void*) toBase);
+        laik_log(1, "init map for '%s' range/map %d/%d: %d entries in [%lld;%lld[ from %p\n",
+                 d->name, op->rangeNo, op->mapNo, (int) elemCount,
+                 (long long) from, (long long) to, (void*) toBase);
     }
 }
 
-- 
2.43.0


From 0e0c111b91ec21f1ef7d1400be6f916d411a0e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:03 +0000
Subject: [PATCH 31/89] fix: provided memory was used for two memory areas at
 the same time

---
 src/data.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/data.c b/src/data.c
index b8035a3..7596607 100644
--- a/src/data.c
+++ b/src/data.c
@@ -332,6 +332,17 @@ Laik_Range* coveringRanges(int n, Laik_RangeList* list, int myid)
 // forward decl
 static void laik_map_set_allocation(Laik_Mapping*, char*, uint64_t, Laik_Allocator*);
 
+// helper for prepareMaps
+// is memory starting at <start> used by an active mapping of container <d>?
+static
+bool usesMemory(Laik_Data* d, char* start)
+{
+    if (!d->activeMappings) return false;
+    for(int i = 0; i < d->activeMappings->count; i++)
+        if (d->activeMappings->map[i].start == start) return true;
+    return false;
+}
+
 static
 Laik_MappingList* prepareMaps(Laik_Data* d, Laik_Partitioning* p)
 {
@@ -383,7 +394,7 @@ Laik_MappingList* prepareMaps(Laik_Data* d, Laik_Partitioning* p)
         m->layout = layout;       // all maps use same layout
         m->layoutSection = mapNo; // but different sections of it
 
-        if ((mapNo == 0) && (d->map0_base != 0)) {
+        if ((mapNo == 0) && (d->map0_base != 0) && !usesMemory(d, d->map0_base)) {
             laik_log(1, "  using provided memory (%lld bytes at %p with layout %s)",
                      (unsigned long long int) d->map0_size, d->map0_base,
                      layout->describe(m->layout));
@@ -651,6 +662,7 @@ void checkMapReuse(Laik_MappingList* toList, Laik_MappingList* fromList)
 
     for(int i = 0; i < toList->count; i++) {
         Laik_Mapping* toMap = &(toList->map[i]);
+        if (toMap->base) continue; // already backed by provided memory
 
         Laik_Mapping* fromMap = 0;
         int sNo;
-- 
2.43.0


From 9f8a5ff4906d6a4a6d310c9833803ed86c29385a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:03 +0000
Subject: [PATCH 32/89] fix: memory of reservations was never freed

---
 src/data.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/data.c b/src/data.c
index 7596607..774f2a1 100644
--- a/src/data.c
+++ b/src/data.c
@@ -972,7 +972,9 @@ void laik_reservation_free(Laik_Reservation* r)
 
     laik_log(1, "reservation '%s' (data '%s'): freed %llu bytes\n",
                  r->name, r->data->name, (unsigned long long) bytesFreed);
-                
+
+    free(r->entry);
+    free(r->name);
     free(r);
 }
 
@@ -1190,7 +1192,11 @@ void laik_reservation_alloc(Laik_Reservation* res)
             m->layout = m->baseMapping->layout;
             m->layoutSection = m->baseMapping->layoutSection;
 
+            // memory is owned by the base mapping and freed with reservation
+            Laik_Allocator* a = m->baseMapping->allocator;
             initEmbeddedMapping(m, m->baseMapping);
+            m->baseMapping->allocator = a;
+            m->allocator = 0;
 
             if (laik_log_begin(1)) {
                 laik_log_append("  [%d] ", m->mapNo);
-- 
2.43.0


From 67cc5319313f010f71f56533fafd17ab6058a204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:03 +0000
Subject: [PATCH 33/89] fix: laik_free leaked memory and left a dangling
 pointer in the instance

---
 include/laik/core-internal.h |  1 +
 src/core.c                   | 12 ++++++++++++
 src/data.c                   | 19 ++++++++++++++++++-
 3 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/include/laik/core-internal.h b/include/laik/core-internal.h
index 7b3d204..1ad9b70 100644
--- a/include/laik/core-internal.h
+++ b/include/laik/core-internal.h
@@ -117,6 +117,7 @@ void laik_addSpaceForInstance(Laik_Instance* inst, Laik_Space* s);
 void laik_removeSpaceFromInstance(Laik_Instance* inst, Laik_Space* s);
 
 void laik_addDataForInstance(Laik_Instance* inst, Laik_Data* d);
+void laik_removeDataFromInstance(Laik_Instance* inst, Laik_Data* d);
 
 // synchronize location strings via KVS among processes in current world
 void laik_sync_location(Laik_Instance *instance);
diff --git a/src/core.c b/src/core.c
index 4150c81..85da26e 100644
--- a/src/core.c
+++ b/src/core.c
@@ -281,6 +281,18 @@ void laik_addDataForInstance(Laik_Instance* inst, Laik_Data* d)
     inst->data_count++;
 }
 
+void laik_removeDataFromInstance(Laik_Instance* inst, Laik_Data* d)
+{
+    int i = 0;
+    while((i < inst->data_count) && (inst->data[i] != d)) i++;
+    if (i == inst->data_count) return;
+
+    // keep order of other containers
+    inst->data_count--;
+    for(; i < inst->data_count; i++)
+        inst->data[i] = inst->data[i+1];
+}
+
 
 // create a group to be used in this LAIK instance
 Laik_Group* laik_create_group(Laik_Instance* i, int maxsize)
diff --git a/src/data.c b/src/data.c
index 774f2a1..a9e9b2a 100644
--- a/src/data.c
+++ b/src/data.c
@@ -214,7 +214,9 @@ void laik_data_set_name(Laik_Data* d, char* n)
 {
     laik_log(1, "data '%s' renamed to '%s'", d->name, n);
 
-    d->name = n;
+    char* name = strdup(n);
+    free(d->name);
+    d->name = name;
 }
 
 // get space used for data
@@ -955,8 +957,15 @@ void laik_reservation_add(Laik_Reservation* r, Laik_Partitioning* p)
 // free reservation and the memory space allocated
 void laik_reservation_free(Laik_Reservation* r)
 {
+    Laik_Data* d = r->data;
+    if (d->activeReservation == r)
+        d->activeReservation = 0;
+
     for(int i = 0; i < r->count; i++) {
         assert(r->entry[i].mList != 0);
+        // mappings still active in container become invalid
+        if (d->activeMappings == r->entry[i].mList)
+            d->activeMappings = 0;
         free(r->entry[i].mList);
         r->entry[i].mList = 0;
     }
@@ -1643,6 +1652,14 @@ void laik_free(Laik_Data* d)
 {
     // TODO: free space, partitionings
 
+    // never free mappings which are part of a reservation
+    if (d->activeMappings && (d->activeMappings->res == 0))
+        freeMappingList(d->activeMappings, d->stat);
+
+    laik_removeDataFromInstance(d->space->inst, d);
+
+    free(d->stat);
+    free(d->name);
     free(d);
 }
 
-- 
2.43.0


From cad94aab3c6e0475a69711c238b7066aee3b4673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:46 +0000
Subject: [PATCH 34/89] fix: group reductions mismatched with processes outside
 of the old group

---
 src/data.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/data.c b/src/data.c
index a9e9b2a..13b8c25 100644
--- a/src/data.c
+++ b/src/data.c
@@ -351,7 +351,11 @@ Laik_MappingList* prepareMaps(Laik_Data* d, Laik_Partitioning* p)
     if (!p) return 0; // without partitioning borders there are no mappings
 
     int myid = laik_myid(p->group);
-    if (myid == -1) return 0; // this task is not part of the task group
+    if (myid == -1) {
+        // this task is not part of the task group: without any mappings.
+        // use an empty list, as no list means that mappings are not known
+        return laik_mappinglist_new(d, 0, 0);
+    }
     assert(myid < p->group->size);
 
     // reserved and already allocated?
-- 
2.43.0


From c685fcb94ef4d7fbe070915d01e4ebc6860b2f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:12 +0000
Subject: [PATCH 35/89] fix: setting a KVS value which is a prefix of the old
 one was ignored, longer ones were over-read

---
 src/kvs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kvs.c b/src/kvs.c
index d42061c..2d01e09 100644
--- a/src/kvs.c
+++ b/src/kvs.c
@@ -371,7 +371,7 @@ Laik_KVS_Entry* laik_kvs_set(Laik_KVStore* kvs, char* key, unsigned int size, ch
     bool created;
     if (e) {
         if (e->value) {
-            if (memcmp(e->value, value, (size_t) size) == 0) {
+            if ((e->vlen == size) && (memcmp(e->value, value, (size_t) size) == 0)) {
                 laik_log(1, "KVS '%s': entry '%s' (size %d, '%.20s') already existing",
                          kvs->name, key, size, value);
                 return e;
-- 
2.43.0


From 0193b816a2fc378d7c93ed66ecbb1b41c51eeb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:12 +0000
Subject: [PATCH 36/89] fix: conflicting binary KVS changes compared only up to
 the first zero byte

---
 src/kvs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kvs.c b/src/kvs.c
index 2d01e09..14b01cc 100644
--- a/src/kvs.c
+++ b/src/kvs.c
@@ -243,7 +243,7 @@ void laik_kvs_changes_merge(Laik_KVS_Changes* dst,
             off2++;
         }
         else {
-            if ((e1->vlen != e2->vlen) || (strncmp(e1->value, e2->value, e1->vlen) != 0)) {
+            if ((e1->vlen != e2->vlen) || (memcmp(e1->value, e2->value, e1->vlen) != 0)) {
                 laik_log(LAIK_LL_Panic,
                          "Merging KV changes at key '%s': update inconsistency\n",
                          e1->key);
-- 
2.43.0


From 91e2414741c281ab6e8d192ef39b0712b533f134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:12 +0000
Subject: [PATCH 37/89] fix: synchronising a KVS without changes or with short
 keys failed an assertion

---
 src/backend-mpi.c              | 2 +-
 src/backends/tcp/backend-tcp.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend-mpi.c b/src/backend-mpi.c
index 8936b2c..a39eda3 100644
--- a/src/backend-mpi.c
+++ b/src/backend-mpi.c
@@ -1237,7 +1237,7 @@ static void laik_mpi_sync(Laik_KVStore* kvs)
     // send merged changes to all others: may be 0 entries
     count[0] = dst->offUsed;
     count[1] = dst->dataUsed;
-    assert(count[1] > count[0]); // more byte than offsets
+    assert((count[0] == 0) == (count[1] == 0));
     for(int i = 1; i < world->size; i++) {
         laik_log(1, "MPI sync: sending %d changes (total %d chars) to T%d",
                  count[0] / 2, count[1], i);
diff --git a/src/backends/tcp/backend-tcp.c b/src/backends/tcp/backend-tcp.c
index a007d08..ea9a794 100644
--- a/src/backends/tcp/backend-tcp.c
+++ b/src/backends/tcp/backend-tcp.c
@@ -966,7 +966,7 @@ static void laik_tcp_sync(Laik_KVStore* kvs)
     // send merged changes to all others: may be 0 entries
     count[0] = dst->offUsed;
     count[1] = dst->dataUsed;
-    assert(count[1] > count[0]); // more byte than offsets
+    assert((count[0] == 0) == (count[1] == 0));
     for(int i = 1; i < world->size; i++) {
         laik_log(1, "MPI sync: sending %d changes (total %d chars) to T%d",
                  count[0] / 2, count[1], i);
-- 
2.43.0


From 1fa01df8001081cd1590ce464af6fee195b12b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:24 +0000
Subject: [PATCH 38/89] fix: changing a KVS key repeatedly before
 synchronisation failed an assertion

---
 src/kvs.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/kvs.c b/src/kvs.c
index 14b01cc..db60fd2 100644
--- a/src/kvs.c
+++ b/src/kvs.c
@@ -177,6 +177,24 @@ void laik_kvs_changes_add(Laik_KVS_Changes* c,
     e->updated = false;
 }
 
+// drop the change for <key> from journal, if there is one.
+// only allowed as long as changes are not sorted/merged yet
+static void changes_drop(Laik_KVS_Changes* c, char* key)
+{
+    assert(c->entryUsed == 0);
+    for(int i = 0; i + 2 < c->offUsed; i += 2) {
+        if (strcmp(c->data + c->off[i], key) != 0) continue;
+
+        int from = c->off[i], to = c->off[i + 2];
+        memmove(c->data + from, c->data + to, (size_t) (c->dataUsed - to));
+        c->dataUsed -= to - from;
+        for(int j = i + 2; j < c->offUsed; j++)
+            c->off[j - 2] = c->off[j] - (to - from);
+        c->offUsed -= 2;
+        return;
+    }
+}
+
 // for qsort in laik_kvs_changes_sort and laik_kvs_sort
 static int entrycmp(const void * v1, const void * v2)
 {
@@ -427,6 +445,9 @@ Laik_KVS_Entry* laik_kvs_set(Laik_KVStore* kvs, char* key, unsigned int size, ch
     }
 
     if (kvs->in_sync) return e;
+
+    // only the last change of a key since last sync is to be propagated
+    if (e->updated) changes_drop(&(kvs->changes), key);
     e->updated = true;
 
     laik_kvs_changes_add(&(kvs->changes), key, size, value, true, false);
-- 
2.43.0


From fbf07d8e68cedd47bf610f4206b1563ca8de5875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:21 +0000
Subject: [PATCH 39/89] fix: KVS removals failed assertions, were not
 propagated and removed keys still counted

---
 include/laik/core-internal.h |  1 +
 src/kvs.c                    | 73 +++++++++++++++++++++++++++---------
 2 files changed, 57 insertions(+), 17 deletions(-)

diff --git a/include/laik/core-internal.h b/include/laik/core-internal.h
index 1ad9b70..f7cc855 100644
--- a/include/laik/core-internal.h
+++ b/include/laik/core-internal.h
@@ -181,6 +181,7 @@ struct _Laik_KVStore {
     // KV array
     Laik_KVS_Entry* entry;
     unsigned int size, used;
+    unsigned int removed; // entries removed since last sync, still in <entry>
     // new entries are unsorted, call laik_kvs_sort to enable binary search
     unsigned int sorted_upto;
 
diff --git a/src/kvs.c b/src/kvs.c
index db60fd2..2b5fb96 100644
--- a/src/kvs.c
+++ b/src/kvs.c
@@ -155,7 +155,7 @@ void laik_kvs_changes_add(Laik_KVS_Changes* c,
     c->dataUsed += klen;
     c->off[c->offUsed] = c->dataUsed;
     char* newdata = c->data + c->dataUsed;
-    memcpy(newdata, data, (size_t) dlen);
+    if (dlen > 0) memcpy(newdata, data, (size_t) dlen);
     c->dataUsed += dlen;
     c->off[c->offUsed + 1] = c->dataUsed;
     c->offUsed += 2;
@@ -220,7 +220,7 @@ void laik_kvs_changes_sort(Laik_KVS_Changes* c)
         c->entryUsed++;
 
         assert(c->off[off] < c->off[off + 1]); // key range
-        assert(c->off[off + 1] < c->off[off + 2]); // value range
+        assert(c->off[off + 1] <= c->off[off + 2]); // value range, empty if removed
         assert(c->off[off + 2] <= c->dataUsed);
         // key must be terminated by 0
         assert(c->data[c->off[off + 1] - 1] == 0);
@@ -294,11 +294,11 @@ void laik_kvs_changes_apply(Laik_KVS_Changes* c, Laik_KVStore *kvs)
     assert(c->data != 0);
     for(int i = 0; i + 1 < c->offUsed; i += 2) {
         assert(c->off[i+1] > c->off[i]);
-        assert(c->off[i+2] > c->off[i+1]);
+        assert(c->off[i+2] >= c->off[i+1]);
+        int dlen = c->off[i+2] - c->off[i+1]; // data size, 0 if removed
         laik_kvs_set(kvs,
-                     c->data + c->off[i],
-                     (unsigned)(c->off[i+2] - c->off[i+1]), // data size
-                     c->data + c->off[i+1]);
+                     c->data + c->off[i], (unsigned) dlen,
+                     (dlen > 0) ? c->data + c->off[i+1] : 0);
     }
 }
 
@@ -317,6 +317,7 @@ Laik_KVStore* laik_kvs_new(const char* name, Laik_Instance *inst)
     kvs->size = 1000;
     kvs->entry = (Laik_KVS_Entry*) malloc(kvs->size * sizeof(Laik_KVS_Entry));
     kvs->used = 0;
+    kvs->removed = 0;
     kvs->sorted_upto = 0;
 
     kvs->created_func = 0;
@@ -339,9 +340,12 @@ void laik_kvs_free(Laik_KVStore* kvs)
     free(kvs);
 }
 
+// search entry for <key>, also returns removed entries (with empty data)
+static Laik_KVS_Entry* find_entry(Laik_KVStore* kvs, char* key);
+
 static void remove_entry(Laik_KVStore* kvs, Laik_KVS_Entry* e)
 {
-    assert(e);
+    assert(e && e->value);
     if (kvs->in_sync && kvs->removed_func)
         (kvs->removed_func)(kvs, e->key);
 
@@ -351,8 +355,15 @@ static void remove_entry(Laik_KVStore* kvs, Laik_KVS_Entry* e)
     e->vlen = 0;
     e->data = 0;
 
-    if (!kvs->in_sync)
-        laik_kvs_changes_add(&(kvs->changes), e->key, 0, 0, true, false);
+    kvs->removed++;
+
+    if (kvs->in_sync) return;
+
+    // only the last change of a key since last sync is to be propagated
+    if (e->updated) changes_drop(&(kvs->changes), e->key);
+    e->updated = true;
+
+    laik_kvs_changes_add(&(kvs->changes), e->key, 0, 0, true, false);
 }
 
 // remove all entries
@@ -379,13 +390,13 @@ bool laik_kvs_remove(Laik_KVStore* kvs, char* key)
 // returns new/updated entry
 Laik_KVS_Entry* laik_kvs_set(Laik_KVStore* kvs, char* key, unsigned int size, char* value)
 {
-    if (value == 0) {
-        // remove entry
+    if ((value == 0) || (size == 0)) {
+        // remove entry (empty data is used to mark removed entries)
         laik_kvs_remove(kvs, key);
         return 0;
     }
 
-    Laik_KVS_Entry* e = laik_kvs_entry(kvs, key);
+    Laik_KVS_Entry* e = find_entry(kvs, key);
     bool created;
     if (e) {
         if (e->value) {
@@ -399,6 +410,7 @@ Laik_KVS_Entry* laik_kvs_set(Laik_KVStore* kvs, char* key, unsigned int size, ch
         }
         else {
             // existing key with empty data: was removed, gets new created
+            kvs->removed--;
             created = true;
         }
     }
@@ -477,8 +489,19 @@ void laik_kvs_sync(Laik_KVStore* kvs)
     // all queued entries sent, remove
     laik_kvs_changes_set_size(&(kvs->changes), 0, 0);
 
-    for(unsigned int i = 0; i < kvs->used; i++)
-        kvs->entry[i].updated = false;
+    // forget about removed entries, as all processes know about the removal
+    unsigned int used = 0;
+    for(unsigned int i = 0; i < kvs->used; i++) {
+        if (kvs->entry[i].value == 0) {
+            free(kvs->entry[i].key);
+            continue;
+        }
+        kvs->entry[used] = kvs->entry[i];
+        kvs->entry[used].updated = false;
+        used++;
+    }
+    kvs->used = used;
+    kvs->removed = 0;
 
     laik_log(1, "  sync done (now %d entries).", kvs->used);
 
@@ -486,6 +509,14 @@ void laik_kvs_sync(Laik_KVStore* kvs)
 }
 
 Laik_KVS_Entry* laik_kvs_entry(Laik_KVStore* kvs, char* key)
+{
+    Laik_KVS_Entry* e = find_entry(kvs, key);
+    if (e && (e->value == 0)) return 0; // removed
+
+    return e;
+}
+
+static Laik_KVS_Entry* find_entry(Laik_KVStore* kvs, char* key)
 {
     Laik_KVS_Entry* e;
 
@@ -534,14 +565,22 @@ char* laik_kvs_get(Laik_KVStore* kvs, char* key, unsigned int* psize)
 unsigned int laik_kvs_count(Laik_KVStore* kvs)
 {
     assert(kvs);
-    return kvs->used;
+    return kvs->used - kvs->removed;
 }
 
 Laik_KVS_Entry* laik_kvs_getn(Laik_KVStore* kvs, unsigned int n)
 {
     assert(kvs);
-    if (n >= kvs->used) return 0;
-    return &(kvs->entry[n]);
+    if (kvs->removed == 0)
+        return (n < kvs->used) ? &(kvs->entry[n]) : 0;
+
+    // skip removed entries
+    for(unsigned int i = 0; i < kvs->used; i++) {
+        if (kvs->entry[i].value == 0) continue;
+        if (n == 0) return &(kvs->entry[i]);
+        n--;
+    }
+    return 0;
 }
 
 char* laik_kvs_key(Laik_KVS_Entry* e)
-- 
2.43.0


From 8f7aff3e684ecc82c0cbfe8e0c9fa02547644408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:21 +0000
Subject: [PATCH 40/89] fix: logging KVS changes read beyond binary values

---
 src/kvs.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/kvs.c b/src/kvs.c
index 2b5fb96..aee5c89 100644
--- a/src/kvs.c
+++ b/src/kvs.c
@@ -396,13 +396,16 @@ Laik_KVS_Entry* laik_kvs_set(Laik_KVStore* kvs, char* key, unsigned int size, ch
         return 0;
     }
 
+    // number of bytes to show in log output (value may not be terminated)
+    int shown = (size < 20) ? (int) size : 20;
+
     Laik_KVS_Entry* e = find_entry(kvs, key);
     bool created;
     if (e) {
         if (e->value) {
             if ((e->vlen == size) && (memcmp(e->value, value, (size_t) size) == 0)) {
-                laik_log(1, "KVS '%s': entry '%s' (size %d, '%.20s') already existing",
-                         kvs->name, key, size, value);
+                laik_log(1, "KVS '%s': entry '%s' (size %d, '%.*s') already existing",
+                         kvs->name, key, size, shown, value);
                 return e;
             }
             free(e->value);
@@ -444,14 +447,14 @@ Laik_KVS_Entry* laik_kvs_set(Laik_KVStore* kvs, char* key, unsigned int size, ch
     e->vlen = size;
 
     if (created) {
-        laik_log(1, "KVS '%s': set new entry '%s' (size %d) to '%.20s'",
-                 kvs->name, key, size, value);
+        laik_log(1, "KVS '%s': set new entry '%s' (size %d) to '%.*s'",
+                 kvs->name, key, size, shown, value);
 
         if (kvs->in_sync && kvs->created_func) (kvs->created_func)(kvs, e);
     }
     else {
-        laik_log(1, "KVS '%s': changed entry '%s' (size %d) to '%.20s'",
-                 kvs->name, key, size, value);
+        laik_log(1, "KVS '%s': changed entry '%s' (size %d) to '%.*s'",
+                 kvs->name, key, size, shown, value);
 
         if (kvs->in_sync && kvs->changed_func) (kvs->changed_func)(kvs, e);
     }
-- 
2.43.0


From 2a2f906ca5e7bca39e88073652cdc6a696fc54fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:21 +0000
Subject: [PATCH 41/89] fix: keys and values of a KVS were leaked when freeing
 it

---
 src/kvs.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kvs.c b/src/kvs.c
index aee5c89..4d9c968 100644
--- a/src/kvs.c
+++ b/src/kvs.c
@@ -335,6 +335,10 @@ void laik_kvs_free(Laik_KVStore* kvs)
 {
     assert(kvs);
 
+    for(unsigned int i = 0; i < kvs->used; i++) {
+        free(kvs->entry[i].key);
+        free(kvs->entry[i].value);
+    }
     free(kvs->entry);
     laik_kvs_changes_free(&(kvs->changes));
     free(kvs);
-- 
2.43.0


From 175f0da0c7c039389a2d14a6cf9c0418f114ca6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:46 +0000
Subject: [PATCH 42/89] fix: publishing a 3d space with large bounds overflowed
 a buffer

---
 src/space.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/space.c b/src/space.c
index e1c0f39..b289c4c 100644
--- a/src/space.c
+++ b/src/space.c
@@ -405,7 +405,7 @@ void laik_set_space_name(Laik_Space* s, char* n)
 
 char* laik_space_serialize(Laik_Space* s, unsigned* psize)
 {
-    static char buf[100];
+    static char buf[160]; // enough for 6 64-bit values
 
     int off = -1;
     if (s->dims == 1)
-- 
2.43.0


From fcfe5aeb7fc3e00523a343f53740700b3d506c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:46 +0000
Subject: [PATCH 43/89] fix: index spaces got from the space store were
 unusable for partitionings

---
 src/space.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/space.c b/src/space.c
index b289c4c..c535803 100644
--- a/src/space.c
+++ b/src/space.c
@@ -429,6 +429,7 @@ bool laik_space_set(Laik_Space* s, char* v)
 {
     if ((v[0] < '1') || (v[0] > '3')) return false;
     s->dims = v[0] - '0';
+    s->range.space = s;
     if (s->dims == 1) {
         if (sscanf(v+1, "(%" SCNd64 "/%" SCNd64 ")",
                    &(s->range.from.i[0]), &(s->range.to.i[0]) ) != 2) return false;
-- 
2.43.0


From 999d17033840337221e49ba5b1a65cb3ec669031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:46 +0000
Subject: [PATCH 44/89] fix: default names of index spaces were leaked when
 renaming them

---
 src/space.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/space.c b/src/space.c
index c535803..48a28dd 100644
--- a/src/space.c
+++ b/src/space.c
@@ -400,6 +400,7 @@ void laik_set_space_name(Laik_Space* s, char* n)
 {
     // name only can be changed if not attached yet to space store yet
     assert(s->kvs == 0);
+    free(s->name);
     s->name = strdup(n);
 }
 
@@ -453,7 +454,7 @@ static void update_space(Laik_KVStore* kvs, Laik_KVS_Entry* e)
     Laik_Space* s = (Laik_Space*) e->data;
     if (!s) {
         s = laik_new_space(kvs->inst);
-        s->name = strdup(e->key);
+        laik_set_space_name(s, e->key);
         s->kvs = kvs;
         e->data = s;
     }
@@ -494,7 +495,7 @@ Laik_Space* laik_spacestore_get(Laik_Instance* i, char* name)
     Laik_Space* s = (Laik_Space*) e->data;
     if (!s) {
         s = laik_new_space(i);
-        s->name = strdup(name);
+        laik_set_space_name(s, name);
         s->kvs = i->spaceStore;
         bool res = laik_space_set(s, e->value);
         assert(res);
-- 
2.43.0


From a5570a17584252bb475a51bb17ccf7d5fd9283e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:46 +0000
Subject: [PATCH 45/89] fix: cloned groups could not be used for communication
 with the MPI backends

---
 src/core.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/core.c b/src/core.c
index 85da26e..e4b23af 100644
--- a/src/core.c
+++ b/src/core.c
@@ -370,8 +370,8 @@ void laik_set_world(Laik_Instance* i, Laik_Group* newworld)
 }
 
 // create a clone of <g>, derived from <g>
-// helper for laik_new_shrinked_group, does not call into backend to track new group
-Laik_Group* laik_clone_group(Laik_Group* g)
+// does not call into backend to track new group
+static Laik_Group* clone_group(Laik_Group* g)
 {
     Laik_Group* g2 = laik_create_group(g->inst, g->size);
     g2->parent = g;
@@ -387,6 +387,18 @@ Laik_Group* laik_clone_group(Laik_Group* g)
     return g2;
 }
 
+// create a clone of <g>, derived from <g> (collective)
+Laik_Group* laik_clone_group(Laik_Group* g)
+{
+    Laik_Group* g2 = clone_group(g);
+
+    // allow the backend to track the new created group g2
+    if (g->inst->backend->updateGroup)
+        (g->inst->backend->updateGroup)(g2);
+
+    return g2;
+}
+
 // helpers for laik_new_union_group
 
 struct lididx
@@ -504,7 +516,7 @@ Laik_Group* laik_new_union_group(Laik_Group* g1, Laik_Group* g2)
 // Shrinking (collective)
 Laik_Group* laik_new_shrinked_group(Laik_Group* g, int len, int* list)
 {
-    Laik_Group* g2 = laik_clone_group(g);
+    Laik_Group* g2 = clone_group(g);
 
     for(int i = 0; i < g->size; i++)
         g2->fromParent[i] = 0; // init
-- 
2.43.0


From eafa85633bb467cd5f649b5fd85d2cc673609d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:59 +0000
Subject: [PATCH 46/89] fix: print the name of the other partitioning when
 logging intersection-filtered lists

laik_log_Partitioning passed the pointer to the partitioning object to %s.
---
 src/debug.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/debug.c b/src/debug.c
index b10d07f..26892c3 100644
--- a/src/debug.c
+++ b/src/debug.c
@@ -290,7 +290,7 @@ void laik_log_Partitioning(Laik_Partitioning* p)
             break;
         case LAIK_RI_INTERSECT:
             laik_log_append("(run filtered with intersection with part '%s'): ",
-                            e->other);
+                            e->other->name);
             break;
         }
         laik_log_RangeList(e->ranges);
-- 
2.43.0


From 9291c04d8e638096f7aee9517ae8ff886a37ef59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:15 +0000
Subject: [PATCH 47/89] fix: keep logging to a log file usable on errors and
 after finalization

If LAIK_LOG_FILE could not be opened, stdout was closed and stderr set to NULL:
already the error message about it crashed. Messages written before a panic were
lost as the file was fully buffered. Output done after laik_finalize (including
messages to stderr) went to a closed stream.
---
 src/logging.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/logging.c b/src/logging.c
index a7c3d9e..b6918f3 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -84,12 +84,21 @@ void laik_log_init_internal()
 
     str = getenv("LAIK_LOG_FILE");
     if(str){
-        laik_logfile = freopen(str, "a+", stdout);
+        // freopen closes stdout on failure: check first if we can open the file
+        FILE* f = fopen(str, "a+");
+        if (f) {
+            fclose(f);
+            laik_logfile = freopen(str, "a+", stdout);
+        }
         if(!laik_logfile){
             laik_log(LAIK_LL_Error, "Cannot Initialize File for print output.\n");
         }
-        stderr = laik_logfile;
-        stdout = laik_logfile;
+        else {
+            // write out each line, for messages not to get lost on panic
+            setvbuf(laik_logfile, NULL, _IOLBF, BUFSIZ);
+            stderr = laik_logfile;
+            stdout = laik_logfile;
+        }
     }
 
 }
@@ -128,8 +137,9 @@ void laik_log_cleanup(Laik_Instance* i)
 
     laik_log_flush(0);
 
+    // the log file replaced stdout/stderr, which still may get used: do not close
     if (laik_logfile)
-        fclose(laik_logfile);
+        fflush(laik_logfile);
 }
 
 // reset start time for log output
-- 
2.43.0


From 4914bb3619dc9c883cac4fd232c8e5aeadf817a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:31 +0000
Subject: [PATCH 48/89] fix: panics were hidden by the process filter of the
 log and then did not stop the program

---
 src/logging.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/logging.c b/src/logging.c
index b6918f3..9fdded1 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -195,7 +195,8 @@ bool laik_log_begin(int l)
         current_logLevel = LAIK_LL_None;
         return false;
     }
-    if ((laik_log_fromLID >= 0) && (laik_loginst != 0)) {
+    // never hide panics: they terminate the process
+    if ((l < LAIK_LL_Panic) && (laik_log_fromLID >= 0) && (laik_loginst != 0)) {
         assert(laik_log_toLID >= laik_log_fromLID);
         if ((laik_loginst->mylocationid < laik_log_fromLID) ||
             (laik_loginst->mylocationid > laik_log_toLID)) {
@@ -269,7 +270,11 @@ static
 void log_flush()
 {
     if (current_logLevel == LAIK_LL_None) return;
-    if ((current_logPos == 0) || (current_logBuffer == 0)) return;
+    if ((current_logPos == 0) || (current_logBuffer == 0)) {
+        // also stop on panic without text
+        if (current_logLevel == LAIK_LL_Panic) assert(0);
+        return;
+    }
 
     const char* lstr = 0;
     switch(current_logLevel) {
-- 
2.43.0


From ad3110ae00876cd77f754113cc63ae10f3825028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:44 +0000
Subject: [PATCH 49/89] fix: profiling never measured the total time and missed
 KVS synchronisation

---
 include/laik/profiling-internal.h |  6 ++++++
 src/data.c                        | 32 ++++++++++++++++++-------------
 src/kvs.c                         |  4 ++++
 src/profiling.c                   | 26 +++++++++++++++++++++++++
 4 files changed, 55 insertions(+), 13 deletions(-)

diff --git a/include/laik/profiling-internal.h b/include/laik/profiling-internal.h
index 6fa8fb2..edda12c 100644
--- a/include/laik/profiling-internal.h
+++ b/include/laik/profiling-internal.h
@@ -36,4 +36,10 @@ struct _Laik_Profiling_Controller
     void* profile_file;
 };
 
+// measure time spent in LAIK / in the backend (used around calls)
+void laik_profiling_total_start(Laik_Instance* i);
+void laik_profiling_total_stop(Laik_Instance* i);
+void laik_profiling_backend_start(Laik_Instance* i);
+void laik_profiling_backend_stop(Laik_Instance* i);
+
 #endif // LAIK_PROFILING_INTERNAL
diff --git a/src/data.c b/src/data.c
index 13b8c25..82e1a1a 100644
--- a/src/data.c
+++ b/src/data.c
@@ -863,14 +863,9 @@ void doTransition(Laik_Data* d, Laik_Transition* t, Laik_ActionSeq* as,
         // let backend do send/recv/reduce actions
 
         Laik_Instance* inst = d->space->inst;
-        if (inst->profiling->do_profiling)
-            inst->profiling->timer_backend = laik_wtime();
-
+        laik_profiling_backend_start(inst);
         (inst->backend->exec)(as);
-
-        if (inst->profiling->do_profiling)
-            inst->profiling->time_backend += laik_wtime() - inst->profiling->timer_backend;
-
+        laik_profiling_backend_stop(inst);
     }
 
     if (d->stat)
@@ -1237,12 +1232,16 @@ void laik_exec_transition(Laik_Data* d, Laik_Transition* t)
         exit(1);
     }
 
+    laik_profiling_total_start(d->space->inst);
+
     Laik_MappingList* toList = prepareMaps(d, t->toPartitioning);
     doTransition(d, t, 0, d->activeMappings, toList);
 
     // set new mapping/partitioning active
     d->activePartitioning = t->toPartitioning;
     d->activeMappings = toList;
+
+    laik_profiling_total_stop(d->space->inst);
 }
 
 Laik_ActionSeq* laik_calc_actions(Laik_Data* d,
@@ -1304,6 +1303,8 @@ void laik_exec_actions(Laik_ActionSeq* as)
         exit(1);
     }
 
+    laik_profiling_total_start(d->space->inst);
+
     Laik_MappingList* toList = prepareMaps(d, t->toPartitioning);
 
     if (tc->prepFromList && (tc->prepFromList != d->activeMappings)) {
@@ -1324,6 +1325,8 @@ void laik_exec_actions(Laik_ActionSeq* as)
     // set new mapping/partitioning active
     d->activePartitioning = t->toPartitioning;
     d->activeMappings = toList;
+
+    laik_profiling_total_stop(d->space->inst);
 }
 
 
@@ -1332,6 +1335,13 @@ void laik_switchto_partitioning(Laik_Data* d,
                                 Laik_Partitioning* toP, Laik_DataFlow flow,
                                 Laik_ReductionOperation redOp)
 {
+    if (!d->activePartitioning && !toP) {
+        // nothing to switch from/to
+        return;
+    }
+
+    laik_profiling_total_start(d->space->inst);
+
     // calculate actions to be done for switching
 
     Laik_Group *toGroup = 0, *fromGroup = 0, *commonGroup = 0;
@@ -1345,12 +1355,6 @@ void laik_switchto_partitioning(Laik_Data* d,
             laik_partitioning_migrate(toP, commonGroup);
         }
     }
-    else {
-        if (!toP) {
-            // nothing to switch from/to
-            return;
-        }
-    }
 
     Laik_MappingList* toList = prepareMaps(d, toP);
     Laik_Transition* t = do_calc_transition(d->space,
@@ -1368,6 +1372,8 @@ void laik_switchto_partitioning(Laik_Data* d,
     // set new mapping/partitioning active
     d->activePartitioning = toP;
     d->activeMappings = toList;
+
+    laik_profiling_total_stop(d->space->inst);
 }
 
 
diff --git a/src/kvs.c b/src/kvs.c
index 4d9c968..16ae5e7 100644
--- a/src/kvs.c
+++ b/src/kvs.c
@@ -490,7 +490,11 @@ void laik_kvs_sync(Laik_KVStore* kvs)
     laik_log(1, "sync KVS '%s' (progagating %d/%d entries) ...",
              kvs->name, kvs->changes.offUsed / 2, kvs->used);
     kvs->in_sync = true;
+    laik_profiling_total_start(kvs->inst);
+    laik_profiling_backend_start(kvs->inst);
     (b->sync)(kvs);
+    laik_profiling_backend_stop(kvs->inst);
+    laik_profiling_total_stop(kvs->inst);
     kvs->in_sync = false;
 
     // all queued entries sent, remove
diff --git a/src/profiling.c b/src/profiling.c
index 48502c4..99da4b7 100644
--- a/src/profiling.c
+++ b/src/profiling.c
@@ -141,6 +141,32 @@ void laik_reset_profiling(Laik_Instance* i)
     }
 }
 
+// LAIK total time: start/stop on entering/leaving LAIK
+void laik_profiling_total_start(Laik_Instance* i)
+{
+    if (i->profiling->do_profiling)
+        i->profiling->timer_total = laik_wtime();
+}
+
+void laik_profiling_total_stop(Laik_Instance* i)
+{
+    if (i->profiling->do_profiling)
+        i->profiling->time_total += laik_wtime() - i->profiling->timer_total;
+}
+
+// LAIK backend time: start/stop around calls into the backend
+void laik_profiling_backend_start(Laik_Instance* i)
+{
+    if (i->profiling->do_profiling)
+        i->profiling->timer_backend = laik_wtime();
+}
+
+void laik_profiling_backend_stop(Laik_Instance* i)
+{
+    if (i->profiling->do_profiling)
+        i->profiling->time_backend += laik_wtime() - i->profiling->timer_backend;
+}
+
 // start user-time measurement
 void laik_profile_user_start(Laik_Instance* i)
 {
-- 
2.43.0


From d64c89a06c9bc589720f2ed5a56a5eb9ef92500d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:56 +0000
Subject: [PATCH 50/89] fix: profiling output files were not opened, written
 via null pointers, or used after being freed

---
 src/profiling.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/profiling.c b/src/profiling.c
index 99da4b7..9aa1634 100644
--- a/src/profiling.c
+++ b/src/profiling.c
@@ -103,9 +103,11 @@ double laik_wtime()
 }
 
 // called by laik_finalize
-// FIXME: should close any open file if output-to-file is enabled
 void laik_free_profiling(Laik_Instance* i)
 {
+    laik_close_profiling_file(i);
+    if (laik_profinst == i)
+        laik_profinst = 0;
     free(i->profiling);
 }
 
@@ -200,21 +202,19 @@ void laik_profile_user_stop(Laik_Instance* i)
 // enable output-to-file mode for use of laik_writeout_profile()
 void laik_enable_profiling_file(Laik_Instance* i, const char* filename)
 {
-    if (laik_profinst) {
-        if (laik_profinst == i) return;
-        laik_profinst->profiling->do_profiling = false;
-    }
-
-    laik_profinst = i;
+    laik_enable_profiling(i);
     if (!i) return;
 
-    i->profiling->do_profiling = true;
+    // only one output file at a time
+    laik_close_profiling_file(i);
+
     i->profiling->time_backend = 0.0;
     i->profiling->time_total = 0.0;
     snprintf(i->profiling->filename, MAX_FILENAME_LENGTH, "t%s.%s", i->guid, filename);
     i->profiling->profile_file = fopen(filename, "a+");
     if (i->profiling->profile_file == NULL) {
         laik_log(LAIK_LL_Error, "Unable to start file based profiling");
+        return;
     }
 
     fprintf((FILE*)i->profiling->profile_file, "======MEASUREMENT START AT: %lu======\n", 
@@ -275,7 +275,7 @@ void laik_close_profiling_file(Laik_Instance* i)
 // print arbitrary text to file in output-to-file mode
 void laik_profile_printf(const char* msg, ...)
 {
-    if (laik_profinst->profiling->profile_file) {
+    if (laik_profinst && laik_profinst->profiling->profile_file) {
         va_list args;
         va_start(args, msg);
         vfprintf((FILE*)laik_profinst->profiling->profile_file, msg, args);
-- 
2.43.0


From 9f25e11936f0184e204c1b874adc22c2d48c6284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:25 +0000
Subject: [PATCH 51/89] fix: library handles of agents were stored under the
 next agent's number

---
 src/external.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/external.c b/src/external.c
index e1f7645..e3e6b4a 100644
--- a/src/external.c
+++ b/src/external.c
@@ -120,7 +120,7 @@ void laik_ext_load_agent_from_file (
     ctrl = instance->repart_ctrl;
 
     //ensure less than MAX_AGENT
-    assert(ctrl->num_agents <= MAX_AGENTS);
+    assert(ctrl->num_agents < MAX_AGENTS);
 
     handle = dlopen(path, RTLD_LAZY);
     if(!handle){
@@ -135,8 +135,8 @@ void laik_ext_load_agent_from_file (
     assert(agent);
 
     ctrl->agents[ctrl->num_agents] = agent;
-    ctrl->num_agents++;
     ctrl->handles[ctrl->num_agents] = handle;
+    ctrl->num_agents++;
     laik_log(LAIK_LL_Debug, "laik_ext_load_agent done ! L:2 \n");
 }
 
@@ -169,15 +169,15 @@ void laik_ext_loadagent (
     ctrl = instance->repart_ctrl;
 
     //ensure less than MAX_AGENT
-    assert(ctrl->num_agents <= MAX_AGENTS);
+    assert(ctrl->num_agents < MAX_AGENTS);
 
     agent = init(argc, argv);
 
     assert(agent);
 
     ctrl->agents[ctrl->num_agents] = agent;
-    ctrl->num_agents++;
     ctrl->handles[ctrl->num_agents] = NULL;
+    ctrl->num_agents++;
 }
 
 /** 
-- 
2.43.0


From 5029e4d9afdc620d9414b54b800741277e9d3ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:25 +0000
Subject: [PATCH 52/89] fix: function to load an agent from a function was
 declared but not defined

---
 src/external.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/external.c b/src/external.c
index e3e6b4a..adab3c4 100644
--- a/src/external.c
+++ b/src/external.c
@@ -149,7 +149,7 @@ void laik_ext_load_agent_from_file (
  * @param  argv: arguments to pass to the agent
  * @retval None
  */
-void laik_ext_loadagent (
+void laik_ext_load_agent_from_function (
     Laik_Instance* instance,
     laik_agent_init init,
     int argc, 
-- 
2.43.0


From 6b0fed369896aa94d116ca402410f36d64dd2dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:25 +0000
Subject: [PATCH 53/89] fix: agents were never detached

---
 src/external.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/external.c b/src/external.c
index adab3c4..62a689e 100644
--- a/src/external.c
+++ b/src/external.c
@@ -195,8 +195,10 @@ void laik_ext_cleanup(
     assert(ctrl);
 
     for(int i=0; i<ctrl->num_agents; i++){
-        //Laik_Agent* agent = ctrl->agents[i];
-        //agent->detach();
+        Laik_Agent* agent = ctrl->agents[i];
+        if(agent->detach){
+            agent->detach();
+        }
         if(ctrl->handles[i]){
             dlclose(ctrl->handles[i]);
         }
-- 
2.43.0


From 2533b5c2de84ea4b667b60eb2519a5c165fda624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:42 +0000
Subject: [PATCH 54/89] fix: failed nodes reported by several agents overwrote
 each other

---
 src/external.c | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/external.c b/src/external.c
index 62a689e..2d35163 100644
--- a/src/external.c
+++ b/src/external.c
@@ -227,15 +227,14 @@ void laik_get_failed (
     int max_failed
 ){
 
-    (void) max_failed;
     Laik_RepartitionControl* ctrl;
-    int i, n; //, count;
+    int i, n, count;
     assert(instance);    
     ctrl = instance->repart_ctrl;
     assert(ctrl);
     
 
-    //count = 0;
+    *num_failed = 0;
     for(i=0; i < ctrl -> num_agents; i++){
         Laik_Agent* agent = ctrl->agents[i];
 
@@ -254,14 +253,29 @@ void laik_get_failed (
             // (1) Get a list of node_uids
 
 
-            fta->getfail(num_failed, failed_ranks);
+            // agents do not know the size of our field: use own buffer
+            int bufsize = (n > MAX_FAILED_BUFFER) ? n : MAX_FAILED_BUFFER;
+            node_uid_t* buf = calloc(bufsize, sizeof(node_uid_t));
+            assert(buf);
 
-            //printf("fta-> getfail: %d \n", *num_failed);
-            for(int k = 0 ; k < *num_failed; k++ )
+            count = 0;
+            fta->getfail(&count, buf);
+            assert(count <= bufsize);
+
+            // append to the nodes reported by other agents
+            for(int k = 0 ; k < count; k++ )
 			{
-				laik_log(LAIK_LL_Debug, " Buf: %s   - % d \n",(failed_ranks + k)->uid, k);
-				fflush(stdout);
+				laik_log(LAIK_LL_Debug, " Buf: %s   - % d \n", buf[k].uid, k);
+				if (*num_failed == max_failed) {
+					laik_log(LAIK_LL_Error,
+					         "laik_get_failed: no space for failed node %s",
+					         buf[k].uid);
+					continue;
+				}
+				failed_ranks[*num_failed] = buf[k];
+				(*num_failed)++;
 			}
+			free(buf);
 
             // (2) Map the failed nodes to ranks
             //for(j=0;j<n;j++){
-- 
2.43.0


From 123b42eadf303f421015ef8a5e28e12a3c38901f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:42 +0000
Subject: [PATCH 55/89] fix: the simple agent wrote to a wild pointer when
 reporting a failed node

---
 external/simple/simple-agent.c | 7 +++----
 external/simple/simple-agent.h | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/external/simple/simple-agent.c b/external/simple/simple-agent.c
index 8fe8a8e..c3ea923 100644
--- a/external/simple/simple-agent.c
+++ b/external/simple/simple-agent.c
@@ -61,9 +61,9 @@ void sa_set_iter(
 
 void sa_getfailed(
     int* n_failed,
-    node_uid_t** l_failed
+    node_uid_t* l_failed
 ){
-    char* buf = (*l_failed[0]).uid;
+    char* buf = l_failed[0].uid;
 #ifdef __DEBUG__
     printf("Simple Agent: Get Failed, fail_iter = %d, aIter = %d\n", fail_iter, aIter);    
 #endif
@@ -114,8 +114,7 @@ Laik_Agent* agent_init(
     myBase->detach = sa_detach;
     myBase->reset = sa_reset;
 
-    // FIXME: the cast suppresses a warning: wrong types! (JW)
-    me->getfail = (laik_agent_get_failed) sa_getfailed;
+    me->getfail = sa_getfailed;
     me->peekfail = sa_peekfailed;
     me->setiter = sa_set_iter;
 #ifdef __DEBUG__
diff --git a/external/simple/simple-agent.h b/external/simple/simple-agent.h
index f11ab0b..ed07852 100644
--- a/external/simple/simple-agent.h
+++ b/external/simple/simple-agent.h
@@ -28,7 +28,7 @@ Laik_Agent* agent_init(
 
 void sa_getfailed(
     int* n_failed,
-    node_uid_t** l_failed
+    node_uid_t* l_failed
 );
 
 void sa_set_iter(
-- 
2.43.0


From 7edf13dcd9477402753ce7d7c41fde94492c2820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:52 +0000
Subject: [PATCH 56/89] fix: the single backend ignored ranges, maps and
 dimensions in reductions

---
 src/backend-single.c | 56 ++++++++++++++++++++++++++------------------
 1 file changed, 33 insertions(+), 23 deletions(-)

diff --git a/src/backend-single.c b/src/backend-single.c
index 5e04196..d704704 100644
--- a/src/backend-single.c
+++ b/src/backend-single.c
@@ -82,31 +82,41 @@ void laik_single_exec(Laik_ActionSeq* as)
     Laik_MappingList* fromList = tc->fromList;
     Laik_MappingList* toList = tc->toList;
 
-    if (t->redCount > 0) {
-        assert(fromList->count == 1);
-        assert(toList->count == 1);
-        Laik_Mapping* fromMap = &(fromList->map[0]);
-        Laik_Mapping* toMap = &(toList->map[0]);
-        char* fromBase = fromMap ? fromMap->base : 0;
-        char* toBase = toMap ? toMap->base : 0;
-
-        for(int i=0; i < t->redCount; i++) {
+    int myid = t->group->myid;
+    for(int i=0; i < t->redCount; i++) {
+        struct redTOp* op = &(t->red[i]);
+        assert(laik_trans_isInGroup(t, op->outputGroup, myid));
+        assert(toList && (op->myOutputMapNo >= 0) && (op->myOutputMapNo < toList->count));
+        Laik_Mapping* toMap = &(toList->map[op->myOutputMapNo]);
+        assert(toMap->base != 0);
+
+        if (!laik_trans_isInGroup(t, op->inputGroup, myid)) {
+            // reduction without any input: result is the neutral element
             assert(d->space->dims == 1);
-            struct redTOp* op = &(t->red[i]);
-            int64_t from = op->range.from.i[0];
-            int64_t to   = op->range.to.i[0];
-            assert(fromBase != 0);
-            assert(laik_trans_isInGroup(t, op->outputGroup, t->group->myid));
-            assert(toBase != 0);
-            assert(to > from);
-
-            laik_log(1, "Single reduce: "
-                        "from %lld, to %lld, elemsize %d, base from/to %p/%p\n",
-                     (long long int) from, (long long int) to,
-                     d->elemsize, (void*) fromBase, (void*) toBase);
-
-            memcpy(toBase, fromBase, (to-from) * fromMap->data->elemsize);
+            assert(d->type->init);
+            int64_t from = op->range.from.i[0] - toMap->requiredRange.from.i[0];
+            int64_t to   = op->range.to.i[0] - toMap->requiredRange.from.i[0];
+            assert((from >= 0) && (to > from));
+            (d->type->init)(toMap->base + from * d->elemsize, to - from, op->redOp);
+            continue;
         }
+
+        assert(fromList && (op->myInputMapNo >= 0) && (op->myInputMapNo < fromList->count));
+        Laik_Mapping* fromMap = &(fromList->map[op->myInputMapNo]);
+        assert(fromMap->base != 0);
+
+        laik_log(1, "Single reduce: map %d => %d, %llu elements, elemsize %d, base from/to %p/%p\n",
+                 op->myInputMapNo, op->myOutputMapNo,
+                 (unsigned long long) laik_range_size(&(op->range)),
+                 d->elemsize, (void*) fromMap->base, (void*) toMap->base);
+
+        // nothing to copy if memory is reused for same indexes
+        int64_t fromOff = laik_offset(fromMap->layout, fromMap->layoutSection, &(op->range.from));
+        int64_t toOff = laik_offset(toMap->layout, toMap->layoutSection, &(op->range.from));
+        if (fromMap->start + fromOff * d->elemsize ==
+            toMap->start + toOff * d->elemsize) continue;
+
+        laik_data_copy(&(op->range), fromMap, toMap);
     }
 
     // the single backend should never need to do send/recv actions
-- 
2.43.0


From 7724d865dda6841f61d74a62227370f4896fbe87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:52 +0000
Subject: [PATCH 57/89] fix: freeing an action sequence without backend cleanup
 crashed

---
 src/action.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/action.c b/src/action.c
index 21e8660..6abdce0 100644
--- a/src/action.c
+++ b/src/action.c
@@ -86,7 +86,7 @@ void laik_aseq_free(Laik_ActionSeq* as)
     laik_log(1, "free action seq '%s' (%d actions, %d buffers)",
              as->name, as->actionCount, as->bufferCount);
 
-    if (as->backend) {
+    if (as->backend && as->backend->cleanup) {
         // ask backend to do its own cleanup for this action sequence
         (as->backend->cleanup)(as);
     }
-- 
2.43.0


From a746e4882e928509989f3d9af46c8b5108712e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:41 +0000
Subject: [PATCH 58/89] fix: reductions without input returned garbage with the
 tcp2 backend

---
 src/backend-tcp2.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 7eef485..6e7d969 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -2293,6 +2293,16 @@ void exec_reduce(Laik_TransitionContext* tc,
         }
     }
     int inCount = laik_trans_groupCount(t, a->inputGroup);
+    if (inCount == 0) {
+        // no input: result is the neutral element of the reduction
+        Laik_Type* type = m->data->type;
+        assert(type->init != 0);
+        Laik_Index idx = a->range->from;
+        do {
+            int64_t off = m->layout->offset(m->layout, m->layoutSection, &idx);
+            (type->init)(m->start + off * m->data->elemsize, 1, a->redOp);
+        } while(next_lex(a->range, &idx));
+    }
     for(int i = 0; i < inCount; i++) {
         int inTask = laik_trans_taskInGroup(t, a->inputGroup, i);
         if (inTask == myid) continue;
-- 
2.43.0


From e8f2248cbbb71cf2a0765431528278419ed6c25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:24 +0000
Subject: [PATCH 59/89] fix: the tcp backend only supported sum as native
 reduction

---
 src/backends/tcp/backend-tcp.c |  4 +--
 src/backends/tcp/minimpi.c     | 60 ++++++++++++++++++++++------------
 src/backends/tcp/minimpi.h     |  2 ++
 src/backends/tcp/mpi.h         |  2 ++
 4 files changed, 45 insertions(+), 23 deletions(-)

diff --git a/src/backends/tcp/backend-tcp.c b/src/backends/tcp/backend-tcp.c
index ea9a794..d9d6272 100644
--- a/src/backends/tcp/backend-tcp.c
+++ b/src/backends/tcp/backend-tcp.c
@@ -286,8 +286,8 @@ MPI_Op getMPIOp(Laik_ReductionOperation redOp)
     case LAIK_RO_Prod: mpiRedOp = MPI_PROD; break;
     case LAIK_RO_Min:  mpiRedOp = MPI_MIN; break;
     case LAIK_RO_Max:  mpiRedOp = MPI_MAX; break;
-    case LAIK_RO_And:  mpiRedOp = MPI_LAND; break;
-    case LAIK_RO_Or:   mpiRedOp = MPI_LOR; break;
+    case LAIK_RO_And:  mpiRedOp = MPI_BAND; break;
+    case LAIK_RO_Or:   mpiRedOp = MPI_BOR; break;
     default: assert(0);
     }
     return mpiRedOp;
diff --git a/src/backends/tcp/minimpi.c b/src/backends/tcp/minimpi.c
index f2eb846..5656e4a 100644
--- a/src/backends/tcp/minimpi.c
+++ b/src/backends/tcp/minimpi.c
@@ -165,40 +165,58 @@ static void laik_tcp_minimpi_combine (void* buffer, const void* data, const size
     laik_tcp_always (data);
     laik_tcp_always (errors);
 
+// Run the given statement for all elements, with b/d being the buffers to combine
+#define do_combine(TYPE, STMT) { TYPE* b = buffer; \
+                                 const TYPE* d = data; \
+                                 for (size_t i = 0; i < elements; i++) { STMT; } } break;
+
+#define combine_integers(STMT) case LAIK_TCP_MINIMPI_INT64:  do_combine(int64_t, STMT)  \
+                               case LAIK_TCP_MINIMPI_INT32:  do_combine(int32_t, STMT)  \
+                               case LAIK_TCP_MINIMPI_INT8:   do_combine(int8_t, STMT)   \
+                               case LAIK_TCP_MINIMPI_UINT64: do_combine(uint64_t, STMT) \
+                               case LAIK_TCP_MINIMPI_UINT32: do_combine(uint32_t, STMT) \
+                               case LAIK_TCP_MINIMPI_UINT8:  do_combine(uint8_t, STMT)  \
+                               default: \
+                                   laik_tcp_errors_push (errors, __func__, 0, "Invalid MPI datatype %d", datatype); \
+                                   break;
+
+#define combine_numbers(STMT)  case LAIK_TCP_MINIMPI_DOUBLE: do_combine(double, STMT) \
+                               case LAIK_TCP_MINIMPI_FLOAT:  do_combine(float, STMT)  \
+                               combine_integers(STMT)
+
     switch (op) {
         case LAIK_TCP_MINIMPI_SUM:
-        switch (datatype) {
-
-#define do_sum(TYPE) TYPE* b = buffer; \
-                     const TYPE* d = data; \
-                     for (size_t i = 0; i < elements; i++) \
-                         b[i] += d[i];
-
-            case LAIK_TCP_MINIMPI_DOUBLE: { do_sum(double)   } break;
-            case LAIK_TCP_MINIMPI_FLOAT:  { do_sum(float)    } break;
-            case LAIK_TCP_MINIMPI_INT64:  { do_sum(int64_t)  } break;
-            case LAIK_TCP_MINIMPI_INT32:  { do_sum(int32_t)  } break;
-            case LAIK_TCP_MINIMPI_INT8:   { do_sum(int8_t)   } break;
-            case LAIK_TCP_MINIMPI_UINT64: { do_sum(uint64_t) } break;
-            case LAIK_TCP_MINIMPI_UINT32: { do_sum(uint32_t) } break;
-            case LAIK_TCP_MINIMPI_UINT8:  { do_sum(uint8_t)  } break;
-#undef do_sum
-            default:
-                    laik_tcp_errors_push (errors, __func__, 0, "Invalid MPI datatype %d", datatype);
-                    break;
-            }
+            switch (datatype) { combine_numbers (b[i] += d[i]) }
             break;
         case LAIK_TCP_MINIMPI_PROD:
+            switch (datatype) { combine_numbers (b[i] *= d[i]) }
+            break;
         case LAIK_TCP_MINIMPI_MIN:
+            switch (datatype) { combine_numbers (if (d[i] < b[i]) b[i] = d[i]) }
+            break;
         case LAIK_TCP_MINIMPI_MAX:
+            switch (datatype) { combine_numbers (if (d[i] > b[i]) b[i] = d[i]) }
+            break;
         case LAIK_TCP_MINIMPI_LAND:
+            switch (datatype) { combine_integers (b[i] = b[i] && d[i]) }
+            break;
         case LAIK_TCP_MINIMPI_LOR:
-            laik_tcp_errors_push (errors, __func__, 1, "Unimplemented MPI operation %d", op);
+            switch (datatype) { combine_integers (b[i] = b[i] || d[i]) }
+            break;
+        case LAIK_TCP_MINIMPI_BAND:
+            switch (datatype) { combine_integers (b[i] &= d[i]) }
+            break;
+        case LAIK_TCP_MINIMPI_BOR:
+            switch (datatype) { combine_integers (b[i] |= d[i]) }
             break;
         default:
             laik_tcp_errors_push (errors, __func__, 1, "Invalid MPI operation %d", op);
             break;
     }
+
+#undef combine_numbers
+#undef combine_integers
+#undef do_combine
 }
 
 static void* laik_tcp_minimpi_run_async_split (void* input, __attribute__ ((unused)) Laik_Tcp_Errors* errors) {
diff --git a/src/backends/tcp/minimpi.h b/src/backends/tcp/minimpi.h
index 48c08ca..b54eceb 100644
--- a/src/backends/tcp/minimpi.h
+++ b/src/backends/tcp/minimpi.h
@@ -37,6 +37,8 @@ typedef enum {
     LAIK_TCP_MINIMPI_MAX,
     LAIK_TCP_MINIMPI_LAND,
     LAIK_TCP_MINIMPI_LOR,
+    LAIK_TCP_MINIMPI_BAND,
+    LAIK_TCP_MINIMPI_BOR,
 } Laik_Tcp_MiniMpiOp;
 
 typedef size_t Laik_Tcp_MiniMpiStatus;
diff --git a/src/backends/tcp/mpi.h b/src/backends/tcp/mpi.h
index 485cdeb..8c0b823 100644
--- a/src/backends/tcp/mpi.h
+++ b/src/backends/tcp/mpi.h
@@ -37,6 +37,8 @@ typedef Laik_Tcp_MiniMpiType MPI_Datatype;
 #define MPI_MAX  LAIK_TCP_MINIMPI_MAX
 #define MPI_LAND LAIK_TCP_MINIMPI_LAND
 #define MPI_LOR  LAIK_TCP_MINIMPI_LOR
+#define MPI_BAND LAIK_TCP_MINIMPI_BAND
+#define MPI_BOR  LAIK_TCP_MINIMPI_BOR
 typedef Laik_Tcp_MiniMpiOp MPI_Op;
 
 typedef Laik_Tcp_MiniMpiStatus MPI_Status;
-- 
2.43.0


From 9e819d6eb51adec33acc1656b4fa7d6860891118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:24 +0000
Subject: [PATCH 60/89] fix: the tcp backend checked an uninitialised buffer
 for the host name

---
 src/backends/tcp/minimpi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backends/tcp/minimpi.c b/src/backends/tcp/minimpi.c
index 5656e4a..265fcf8 100644
--- a/src/backends/tcp/minimpi.c
+++ b/src/backends/tcp/minimpi.c
@@ -582,7 +582,7 @@ int laik_tcp_minimpi_get_processor_name (char* name, int* result_length) {
     g_autoptr (Laik_Tcp_Errors) errors = laik_tcp_errors_new ();
 
     char hostname[1024];
-    if (gethostname (hostname, sizeof (hostname)) != 0 || strnlen (name, sizeof (hostname)) == sizeof (hostname)) {
+    if (gethostname (hostname, sizeof (hostname)) != 0 || strnlen (hostname, sizeof (hostname)) == sizeof (hostname)) {
         laik_tcp_errors_push (errors, __func__, 0, "Failed to determine hostname");
         return laik_tcp_minimpi_error (errors);
     }
-- 
2.43.0


From 659adcfdbb3b7952700470338b7da474d6a41644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:34 +0000
Subject: [PATCH 61/89] fix: overlapping groups mixed up messages with the tcp
 backend

---
 src/backends/tcp/minimpi.c | 67 ++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 25 deletions(-)

diff --git a/src/backends/tcp/minimpi.c b/src/backends/tcp/minimpi.c
index 265fcf8..fbf9fba 100644
--- a/src/backends/tcp/minimpi.c
+++ b/src/backends/tcp/minimpi.c
@@ -34,9 +34,10 @@
 // Type definitions
 
 struct Laik_Tcp_MiniMpiComm {
-    GArray*  tasks;      // Mapping from per-communicator ranks to world ranks
-    size_t   rank;       // Our own rank in this communicator
-    size_t   generation; // The number of generations to the world communicator
+    GArray*   tasks;    // Mapping from per-communicator ranks to world ranks
+    size_t    rank;     // Our own rank in this communicator
+    uint64_t  context;  // Identifies messages of this communicator
+    uint64_t* children; // Number of communicators derived from this one
 };
 
 typedef struct __attribute__ ((packed)) {
@@ -71,18 +72,34 @@ static void laik_tcp_minimpi_destroy (void* data) {
 }
 
 __attribute__ ((warn_unused_result))
-static Laik_Tcp_MiniMpiComm* laik_tcp_minimpi_new (GArray* tasks, size_t rank, size_t generation) {
+static Laik_Tcp_MiniMpiComm* laik_tcp_minimpi_new (GArray* tasks, size_t rank, uint64_t context) {
     Laik_Tcp_MiniMpiComm* this = g_new0 (Laik_Tcp_MiniMpiComm, 1);
 
     *this = (Laik_Tcp_MiniMpiComm) {
-        .tasks      = tasks,
-        .rank       = rank,
-        .generation = generation,
+        .tasks    = tasks,
+        .rank     = rank,
+        .context  = context,
+        .children = g_new0 (uint64_t, 1),
     };
 
     return this;
 }
 
+// Get the context of a new communicator derived from an existing one. As this
+// is a collective operation, all tasks of the existing communicator come to the
+// same result. Different communicators must use different contexts: tasks may
+// be part of overlapping ones, so their messages can not be told apart otherwise
+__attribute__ ((warn_unused_result))
+static uint64_t laik_tcp_minimpi_derive (const Laik_Tcp_MiniMpiComm* comm) {
+    laik_tcp_always (comm);
+
+    uint64_t context = comm->context + ++*comm->children * UINT64_C (0x9e3779b97f4a7c15);
+    context = (context ^ (context >> 30)) * UINT64_C (0xbf58476d1ce4e5b9);
+    context = (context ^ (context >> 27)) * UINT64_C (0x94d049bb133111eb);
+
+    return context ^ (context >> 31);
+}
+
 __attribute__ ((warn_unused_result))
 static size_t laik_tcp_minimpi_lookup (const Laik_Tcp_MiniMpiComm* comm, size_t rank) {
     laik_tcp_always (comm);
@@ -93,7 +110,7 @@ static size_t laik_tcp_minimpi_lookup (const Laik_Tcp_MiniMpiComm* comm, size_t
 }
 
 __attribute__ ((warn_unused_result))
-static GBytes* laik_tcp_minimpi_header (uint64_t generation, uint64_t type, uint64_t sender, uint64_t receiver, uint64_t tag) {
+static GBytes* laik_tcp_minimpi_header (uint64_t context, uint64_t type, uint64_t sender, uint64_t receiver, uint64_t tag) {
     laik_tcp_always (flows);
 
     // We are mutating a global variable here, so let's make sure that there's
@@ -102,7 +119,7 @@ static GBytes* laik_tcp_minimpi_header (uint64_t generation, uint64_t type, uint
     LAIK_TCP_LOCK (&lock);
 
     const uint64_t data[] = {
-        GUINT64_TO_LE (generation),
+        GUINT64_TO_LE (context),
         GUINT64_TO_LE (type),
         GUINT64_TO_LE (sender),
         GUINT64_TO_LE (receiver),
@@ -228,7 +245,7 @@ static void* laik_tcp_minimpi_run_async_split (void* input, __attribute__ ((unus
     // Send our split info structure all other peers
     for (size_t receiver = 0; receiver < info->comm->tasks->len; receiver++) {
         if (receiver != info->comm->rank) {
-            g_autoptr (GBytes) header = laik_tcp_minimpi_header (info->comm->generation, TYPE_SPLIT, info->comm->rank, receiver, 0);
+            g_autoptr (GBytes) header = laik_tcp_minimpi_header (info->comm->context, TYPE_SPLIT, info->comm->rank, receiver, 0);
             laik_tcp_messenger_push (messenger, laik_tcp_minimpi_lookup (info->comm, receiver), header, info->body);
         }
     }
@@ -274,7 +291,7 @@ int laik_tcp_minimpi_barrier (const Laik_Tcp_MiniMpiComm* comm) {
     if (comm->rank == master) {
         // Receive the ping message from all slaves
         for (size_t slave = 1; slave < comm->tasks->len; slave++) {
-            g_autoptr (GBytes) ping_header = laik_tcp_minimpi_header (comm->generation, TYPE_BARRIER, slave, master, 0);
+            g_autoptr (GBytes) ping_header = laik_tcp_minimpi_header (comm->context, TYPE_BARRIER, slave, master, 0);
 
             __attribute__ ((unused)) g_autoptr (GBytes) ping_body = laik_tcp_messenger_get (messenger, laik_tcp_minimpi_lookup (comm, slave), ping_header, errors);
             if (laik_tcp_errors_present (errors)) {
@@ -287,7 +304,7 @@ int laik_tcp_minimpi_barrier (const Laik_Tcp_MiniMpiComm* comm) {
 
         // Synchronously (!) send the pong to all slaves
         for (size_t slave = 1; slave < comm->tasks->len; slave++) {
-            g_autoptr (GBytes) pong_header = laik_tcp_minimpi_header (comm->generation, TYPE_BARRIER, master, slave, 0);
+            g_autoptr (GBytes) pong_header = laik_tcp_minimpi_header (comm->context, TYPE_BARRIER, master, slave, 0);
             g_autoptr (GBytes) pong_body   = g_bytes_new (NULL, 0);
 
             laik_tcp_messenger_send (messenger, laik_tcp_minimpi_lookup (comm, slave), pong_header, pong_body, errors);
@@ -300,13 +317,13 @@ int laik_tcp_minimpi_barrier (const Laik_Tcp_MiniMpiComm* comm) {
         }
     } else {
         // Send the ping message to the master
-        g_autoptr (GBytes) ping_header = laik_tcp_minimpi_header (comm->generation, TYPE_BARRIER, comm->rank, master, 0);
+        g_autoptr (GBytes) ping_header = laik_tcp_minimpi_header (comm->context, TYPE_BARRIER, comm->rank, master, 0);
         g_autoptr (GBytes) ping_body   = g_bytes_new (NULL, 0);
         laik_tcp_messenger_push (messenger, laik_tcp_minimpi_lookup (comm, master), ping_header, ping_body);
         laik_tcp_debug ("Slave %zu sent ping to master", comm->rank);
 
         // Receive the pong message from the master
-        g_autoptr (GBytes) pong_header = laik_tcp_minimpi_header (comm->generation, TYPE_BARRIER, master, comm->rank, 0);
+        g_autoptr (GBytes) pong_header = laik_tcp_minimpi_header (comm->context, TYPE_BARRIER, master, comm->rank, 0);
 
         __attribute__ ((unused)) g_autoptr (GBytes) pong_body = laik_tcp_messenger_get (messenger, laik_tcp_minimpi_lookup (comm, master), pong_header, errors);
         if (laik_tcp_errors_present (errors)) {
@@ -342,13 +359,13 @@ int laik_tcp_minimpi_bcast (void* buffer, const int elements, const Laik_Tcp_Min
 
         for (size_t receiver = 0; receiver < comm->tasks->len; receiver++) {
             if (receiver != comm->rank) {
-                g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm->generation, TYPE_BROADCAST, root, receiver, 0);
+                g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm->context, TYPE_BROADCAST, root, receiver, 0);
 
                 laik_tcp_messenger_push (messenger, laik_tcp_minimpi_lookup (comm, receiver), header, body);
             }
         }
     } else {
-        g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm->generation, TYPE_BROADCAST, root, comm->rank, 0);
+        g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm->context, TYPE_BROADCAST, root, comm->rank, 0);
 
         g_autoptr (GBytes) body = laik_tcp_messenger_get (messenger, laik_tcp_minimpi_lookup (comm, root), header, errors);
         if (laik_tcp_errors_present (errors)) {
@@ -371,7 +388,7 @@ int laik_tcp_minimpi_bcast (void* buffer, const int elements, const Laik_Tcp_Min
 int laik_tcp_minimpi_comm_dup (const Laik_Tcp_MiniMpiComm* comm, Laik_Tcp_MiniMpiComm** new_communicator) {
     laik_tcp_always (comm);
 
-    *new_communicator = laik_tcp_minimpi_new (g_array_ref (comm->tasks), comm->rank, comm->generation + 1);
+    *new_communicator = laik_tcp_minimpi_new (g_array_ref (comm->tasks), comm->rank, laik_tcp_minimpi_derive (comm));
 
     return LAIK_TCP_MINIMPI_SUCCESS;
 }
@@ -431,7 +448,7 @@ int laik_tcp_minimpi_comm_split (const Laik_Tcp_MiniMpiComm* comm, const int col
         for (size_t sender = 0; sender < comm->tasks->len; sender++) {
             if (sender != comm->rank) {
                 // It's not our turn to send, instead we should receive data
-                g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm->generation, TYPE_SPLIT, sender, comm->rank, 0);
+                g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm->context, TYPE_SPLIT, sender, comm->rank, 0);
 
                 g_autoptr (GBytes) body = laik_tcp_messenger_get (messenger, laik_tcp_minimpi_lookup (comm, sender), header, errors);
                 if (laik_tcp_errors_present (errors)) {
@@ -461,13 +478,13 @@ int laik_tcp_minimpi_comm_split (const Laik_Tcp_MiniMpiComm* comm, const int col
                 // It's our turn to send our split info structure all other peers
                 for (size_t receiver = 0; receiver < comm->tasks->len; receiver++) {
                     if (receiver != comm->rank) {
-                        g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm->generation, TYPE_SPLIT, sender, receiver, 0);
+                        g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm->context, TYPE_SPLIT, sender, receiver, 0);
                         laik_tcp_messenger_push (messenger, laik_tcp_minimpi_lookup (comm, receiver), header, split_bytes);
                     }
                 }
             } else {
                 // It's not our turn to send, instead we should receive data
-                g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm->generation, TYPE_SPLIT, sender, comm->rank, 0);
+                g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm->context, TYPE_SPLIT, sender, comm->rank, 0);
 
                 g_autoptr (GBytes) body = laik_tcp_messenger_get (messenger, laik_tcp_minimpi_lookup (comm, sender), header, errors);
                 if (laik_tcp_errors_present (errors)) {
@@ -514,7 +531,7 @@ int laik_tcp_minimpi_comm_split (const Laik_Tcp_MiniMpiComm* comm, const int col
     laik_tcp_always (new_local_rank < tasks->len);
 
     // Construct the new communicator
-    *new_communicator = laik_tcp_minimpi_new (g_steal_pointer (&tasks), new_local_rank, comm->generation + 1);
+    *new_communicator = laik_tcp_minimpi_new (g_steal_pointer (&tasks), new_local_rank, laik_tcp_minimpi_derive (comm));
 
     return LAIK_TCP_MINIMPI_SUCCESS;
 }
@@ -672,7 +689,7 @@ int laik_tcp_minimpi_recv (void* buffer, const int elements, Laik_Tcp_MiniMpiTyp
         return laik_tcp_minimpi_error (errors);
     }
 
-    g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm->generation, TYPE_SEND_RECEIVE, sender, comm->rank, tag);
+    g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm->context, TYPE_SEND_RECEIVE, sender, comm->rank, tag);
 
     g_autoptr (GBytes) body = laik_tcp_messenger_get (messenger, laik_tcp_minimpi_lookup (comm, sender), header, errors);
     if (laik_tcp_errors_present (errors)) {
@@ -715,7 +732,7 @@ int laik_tcp_minimpi_reduce (const void* input_buffer, void* output_buffer, cons
          // Collect the result from all other peers and laik_tcp_minimpi_combine
         for (size_t sender = 0; sender < comm->tasks->len; sender++) {
             if (sender != comm->rank) {
-                g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm->generation, TYPE_REDUCE, sender, root, 0);
+                g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm->context, TYPE_REDUCE, sender, root, 0);
 
                 g_autoptr (GBytes) body = laik_tcp_messenger_get (messenger, laik_tcp_minimpi_lookup (comm, sender), header, errors);
                 if (laik_tcp_errors_present (errors)) {
@@ -738,7 +755,7 @@ int laik_tcp_minimpi_reduce (const void* input_buffer, void* output_buffer, cons
     } else {
         const void* input = input_buffer == LAIK_TCP_MINIMPI_IN_PLACE ? output_buffer : input_buffer;
 
-        g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm->generation, TYPE_REDUCE, comm->rank, root, 0);
+        g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm->context, TYPE_REDUCE, comm->rank, root, 0);
         g_autoptr (GBytes) body   = g_bytes_new (input, size);
 
         laik_tcp_messenger_push (messenger, laik_tcp_minimpi_lookup (comm, root), header, body);
@@ -763,7 +780,7 @@ int laik_tcp_minimpi_send (const void* buffer, const int elements, const Laik_Tc
         return laik_tcp_minimpi_error (errors);
     }
 
-    g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm->generation, TYPE_SEND_RECEIVE, comm->rank, receiver, tag);
+    g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm->context, TYPE_SEND_RECEIVE, comm->rank, receiver, tag);
     g_autoptr (GBytes) body   = g_bytes_new (buffer, size);
 
     laik_tcp_messenger_push (messenger, laik_tcp_minimpi_lookup (comm, receiver), header, body);
-- 
2.43.0


From 4099e1f85d15c9dbcfcf356427998f0c9d3b3d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:08 +0000
Subject: [PATCH 62/89] fix: KVS entries were truncated, overflowed buffers or
 got lost with the tcp2 backend

---
 src/backend-tcp2.c | 218 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 158 insertions(+), 60 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 6e7d969..01dd2da 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -300,6 +300,11 @@ struct _InstData {
     char *kvs_name;  // non-null if sending changes of KVS with given name allowed
     int kvs_changes; // number of changes expected
     int kvs_received; // counter for incoming changes
+    Laik_KVS_Changes kvs_recvd; // changes received
+    // key and value (concatenated) of change currently being received
+    char* kvs_entry;
+    int kvs_entry_klen, kvs_entry_vlen;
+    int kvs_entry_got; // bytes already received
 
     int init_wsize;   // for master in startup: initial world size
     int peers;        // number of known peers (= valid entries in peer entry)
@@ -1041,7 +1046,8 @@ void got_help(InstData* d, int fd, int lid)
     send_cmd(d, lid, "#  id <id> <loc> <host> <port> <flags> : announce location id info");
     send_cmd(d, lid, "#  kvs allow <name>             : allow to send changes for KVS");
     send_cmd(d, lid, "#  kvs changes <count>          : announce number of changes for KVS");
-    send_cmd(d, lid, "#  kvs data <key> <value>       : send changed KVS entry");
+    send_cmd(d, lid, "#  kvs entry <klen> <vlen>      : announce lengths of key/value of KVS change");
+    send_cmd(d, lid, "#  kvs data <bytes>             : send part of key/value (escaped: %xx)");
     send_cmd(d, lid, "#  myid <id>                    : identify your location id");
     send_cmd(d, lid, "#  ok                           : positive response to a request");
     send_cmd(d, lid, "#  phase <phase> <epoch>        : announce current phase/epoch");
@@ -1317,11 +1323,12 @@ void got_kvs_allow(InstData* d, int lid, char* msg)
     }
 
     char cmd[21];
-    char name[30];
-    if (sscanf(msg, "%20s %29s", cmd, name) < 2) {
+    int off = 0;
+    if ((sscanf(msg, "%20s %n", cmd, &off) < 1) || (off == 0) || (msg[off] == 0)) {
         laik_log(LAIK_LL_Warning, "cannot parse 'kvs allow' command '%s'; ignoring", msg);
         return;
     }
+    char* name = msg + off;
 
     laik_log(1, "TCP2 allowed to send changes for KVS '%s'", name);
     assert(d->kvs_name == 0);
@@ -1333,37 +1340,81 @@ void got_kvs_changes(InstData* d, int lid, char* msg)
 {
     char cmd[21];
     int changes = 0;
-    if (sscanf(msg, "%20s %d", cmd, &changes) < 2) {
+    if ((sscanf(msg, "%20s %d", cmd, &changes) < 2) || (changes < 0)) {
         laik_log(LAIK_LL_Warning, "cannot parse 'kvs changes' command '%s'; ignoring", msg);
         return;
     }
+    if ((d->kvs == 0) || (d->kvs_changes != -1)) {
+        laik_log(LAIK_LL_Warning, "unexpected 'kvs changes' from LID %d; ignoring", lid);
+        return;
+    }
 
     laik_log(1, "TCP2 got %d changes announced for KVS '%s' from LID %d",
              changes, d->kvs->name, lid);
-    assert(d->kvs_changes == -1);
     assert(d->kvs_received == 0);
     d->kvs_changes = changes;
     if (changes == 0)
         d->exit = 1;
 }
 
+void got_kvs_entry(InstData* d, int lid, char* msg)
+{
+    char cmd[21];
+    int klen, vlen;
+    if ((sscanf(msg, "%20s %d %d", cmd, &klen, &vlen) < 3) || (klen < 1) || (vlen < 0)) {
+        laik_log(LAIK_LL_Warning, "cannot parse kvs entry command '%s'; ignoring", msg);
+        return;
+    }
+    if ((d->kvs == 0) || (d->kvs_received >= d->kvs_changes) || d->kvs_entry) {
+        laik_log(LAIK_LL_Warning, "unexpected 'kvs entry' from LID %d; ignoring", lid);
+        return;
+    }
+
+    d->kvs_entry = malloc((size_t) klen + vlen);
+    if (!d->kvs_entry) {
+        laik_panic("TCP2 Out of memory allocating KVS entry");
+        exit(1); // not actually needed, laik_panic never returns
+    }
+    d->kvs_entry_klen = klen;
+    d->kvs_entry_vlen = vlen;
+    d->kvs_entry_got = 0;
+}
+
 void got_kvs_data(InstData* d, int lid, char* msg)
 {
-    char cmd[21], key[31], value[101];
-    if (sscanf(msg, "%20s %30s %100[^\n]", cmd, key, value) < 3) {
+    char cmd[21];
+    int off = 0;
+    if ((sscanf(msg, "%20s %n", cmd, &off) < 1) || (off == 0)) {
         laik_log(LAIK_LL_Warning, "cannot parse kvs data command '%s'; ignoring", msg);
         return;
     }
+    if (d->kvs_entry == 0) {
+        laik_log(LAIK_LL_Warning, "unexpected 'kvs data' from LID %d; ignoring", lid);
+        return;
+    }
 
-    laik_log(1, "TCP2 got KVS data from LID %d for key '%s': '%s'", lid, key, value);
-    assert(d->kvs != 0);
-    assert(d->kvs_changes > 0);
-    assert(d->kvs_received < d->kvs_changes);
+    int klen = d->kvs_entry_klen, vlen = d->kvs_entry_vlen;
+    for(char* p = msg + off; *p && (d->kvs_entry_got < klen + vlen); p++) {
+        unsigned int c = (unsigned char) *p;
+        if (c == '%') {
+            // escaped byte
+            if (sscanf(p, "%%%2x", &c) < 1) {
+                laik_log(LAIK_LL_Warning, "cannot parse kvs data command '%s'; ignoring", msg);
+                return;
+            }
+            p += 2;
+        }
+        d->kvs_entry[d->kvs_entry_got++] = (char) c;
+    }
+    if (d->kvs_entry_got < klen + vlen) return;
 
-    Laik_KVS_Entry* e = laik_kvs_sets(d->kvs, key, value);
-    // simply mark it as updated
-    //  this may send unneeded updates, but we do not use change journal in TCP2
-    e->updated = true;
+    // key and value complete
+    char* key = d->kvs_entry;
+    key[klen-1] = 0; // should be terminated anyway
+    laik_log(1, "TCP2 got KVS data from LID %d for key '%s' (%d bytes)", lid, key, vlen);
+    laik_kvs_changes_add(&(d->kvs_recvd), key, vlen, key + klen, true, false);
+    free(d->kvs_entry);
+    d->kvs_entry = 0;
 
     d->kvs_received++;
     if (d->kvs_received == d->kvs_changes)
@@ -1382,6 +1433,7 @@ void got_kvs(InstData* d, int lid, char* msg)
     switch(*msg) {
     case 'a': got_kvs_allow(d, lid, msg); break;
     case 'c': got_kvs_changes(d, lid, msg); break;
+    case 'e': got_kvs_entry(d, lid, msg); break;
     case 'd': got_kvs_data(d, lid, msg); break;
     default:
         laik_log(LAIK_LL_Warning, "cannot parse kvs command '%s'; ignoring", msg);
@@ -1732,6 +1784,8 @@ InstData* new_inst_data(char* host, char* location)
     d->kvs_changes = 0;
     d->kvs_received = 0;
     d->kvs_name = 0;
+    d->kvs_entry = 0;
+    laik_kvs_changes_init(&(d->kvs_recvd));
 
     return d;
 }
@@ -2392,17 +2446,54 @@ void tcp2_exec(Laik_ActionSeq* as)
     }
 }
 
+// send KVS changes to process <lid>
+static
+void send_kvs_changes(InstData* d, int lid, Laik_KVS_Changes* c)
+{
+    char msg[3100];
+    sprintf(msg, "kvs changes %d\n", c->offUsed / 2);
+    send_cmd(d, lid, msg);
+
+    for(int i = 0; i + 2 < c->offUsed; i += 2) {
+        sprintf(msg, "kvs entry %d %d\n",
+                c->off[i+1] - c->off[i], c->off[i+2] - c->off[i+1]);
+        send_cmd(d, lid, msg);
+
+        // key and value may contain arbitrary data: send in escaped form,
+        // using multiple commands as the length of a command is limited
+        int pos = c->off[i];
+        while(pos < c->off[i+2]) {
+            int o = sprintf(msg, "kvs data ");
+            for(int n = 0; (n < 1000) && (pos < c->off[i+2]); n++, pos++) {
+                int v = ((unsigned char*) c->data)[pos];
+                if ((v > 32) && (v < 127) && (v != '%'))
+                    msg[o++] = (char) v;
+                else
+                    o += sprintf(msg + o, "%%%02x", v);
+            }
+            sprintf(msg + o, "\n");
+            send_cmd(d, lid, msg);
+        }
+    }
+}
+
+// wait for KVS changes sent by another process
+static
+void recv_kvs_changes(InstData* d)
+{
+    laik_kvs_changes_set_size(&(d->kvs_recvd), 0, 0); // fresh reuse
+    d->kvs_changes = -1;
+    d->kvs_received = 0;
+    while((d->kvs_changes < 0) || (d->kvs_received < d->kvs_changes))
+        run_loop(d);
+}
+
 void tcp2_sync(Laik_KVStore* kvs)
 {
-    char msg[100];
     InstData* d = (InstData*)instance->backend_data;
 
-    int count = 0;
-    for(unsigned int i = 0; i < kvs->used; i++) {
-        if (!kvs->entry[i].updated) continue;
-        count++;
-    }
-    laik_log(1, "TCP2 syncing KVS '%s' with %d own changes", kvs->name, count);
+    laik_log(1, "TCP2 syncing KVS '%s' with %d own changes",
+             kvs->name, kvs->changes.offUsed / 2);
 
     // must not be in middle of another sync
     assert(d->kvs == 0);
@@ -2418,62 +2509,69 @@ void tcp2_sync(Laik_KVStore* kvs)
         // this must be allowance to send changes for same KVS
         assert(strcmp(kvs->name, d->kvs_name) == 0);
 
-        sprintf(msg, "kvs changes %d", count);
-        send_cmd(d, 0, msg);
-        for(unsigned int i = 0; i < kvs->used; i++) {
-            if (!kvs->entry[i].updated) continue;
-            sprintf(msg, "kvs data %s %s",
-                    kvs->entry[i].key, kvs->entry[i].value);
-            send_cmd(d, 0, msg);
-        }
-        // all changes sent, remove own permission
-        // (needs to be done here, as we may receive next allowance
-        //  before end of sync, which would trigger assertion)
+        // remove own permission before sending our changes, as we may
+        // receive next allowance before end of sync
         free(d->kvs_name);
         d->kvs_name = 0;
+        send_kvs_changes(d, 0, &(kvs->changes));
+
         // wait for all changes being send by LID 0
-        d->kvs_changes = -1;
-        d->kvs_received = 0;
-        while((d->kvs_changes < 0) || (d->kvs_received < d->kvs_changes))
-            run_loop(d);
+        recv_kvs_changes(d);
+        laik_kvs_changes_apply(&(d->kvs_recvd), kvs);
         laik_log(1, "TCP2 synced %d changes for KVS %s",
                 d->kvs_changes, kvs->name);
         d->kvs = 0;
         return;
     }
 
-    // master
+    // master: receive changes from all others, merge, send back
+
+    // first sort own changes, as preparation for merging
+    laik_kvs_changes_sort(&(kvs->changes));
+
+    Laik_KVS_Changes changes; // temporary changes struct
+    laik_kvs_changes_init(&changes);
+
+    Laik_KVS_Changes *src, *dst, *tmp;
+    // after merging, result should be in dst;
+    dst = &(kvs->changes);
+    src = &changes;
 
+    char* msg = malloc(strlen(kvs->name) + 20);
+    if (!msg) {
+        laik_panic("TCP2 Out of memory allocating KVS message");
+        exit(1); // not actually needed, laik_panic never returns
+    }
+    sprintf(msg, "kvs allow %s\n", kvs->name);
     for(int lid = 1; lid <= d->maxid; lid++) {
-        sprintf(msg, "kvs allow %s", kvs->name);
+        if (d->peer[lid].state == PS_Dead) continue;
         send_cmd(d, lid, msg);
 
         // wait for changes from LID <lid>
-        d->kvs_changes = -1;
-        d->kvs_received = 0;
-        while((d->kvs_changes < 0) || (d->kvs_received < d->kvs_changes))
-            run_loop(d);
+        recv_kvs_changes(d);
         laik_log(1, "TCP2 got %d changes for KVS %s from LID %d",
                 d->kvs_changes, kvs->name, lid);
+        if (d->kvs_changes == 0) continue;
+
+        // for merging, both inputs need to be sorted
+        laik_kvs_changes_sort(&(d->kvs_recvd));
+
+        // swap src/dst: now merging can overwrite dst
+        tmp = src; src = dst; dst = tmp;
+
+        laik_kvs_changes_merge(dst, src, &(d->kvs_recvd));
     }
-    count = 0;
-    for(unsigned int i = 0; i < kvs->used; i++) {
-        if (!kvs->entry[i].updated) continue;
-        count++;
-    }
-    laik_log(1, "TCP2 with %d merged changes", count);
-    sprintf(msg, "kvs changes %d", count);
-    for(int lid = 1; lid <= d->maxid; lid++)
-        send_cmd(d, lid, msg);
-    for(unsigned int i = 0; i < kvs->used; i++) {
-        if (!kvs->entry[i].updated) continue;
-        sprintf(msg, "kvs data %s %s",
-                kvs->entry[i].key, kvs->entry[i].value);
-        for(int lid = 1; lid <= d->maxid; lid++)
-            send_cmd(d, lid, msg);
+    free(msg);
+
+    for(int lid = 1; lid <= d->maxid; lid++) {
+        if (d->peer[lid].state == PS_Dead) continue;
+        send_kvs_changes(d, lid, dst);
     }
-    laik_log(1, "TCP2 synced %d changes for KVS %s",
-            count, kvs->name);
+    laik_kvs_changes_apply(dst, kvs);
+    laik_log(1, "TCP2 synced %d merged changes for KVS %s",
+            dst->offUsed / 2, kvs->name);
+
+    laik_kvs_changes_free(&changes);
     d->kvs = 0;
 }
 
-- 
2.43.0


From cc56f102de3ac3052996c7c6d9c3f539261f006f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:08 +0000
Subject: [PATCH 63/89] fix: large elements and indexes overflowed buffers of
 the tcp2 backend

---
 src/backend-tcp2.c | 47 +++++++++++++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 01dd2da..a07bf4a 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -181,8 +181,8 @@
 
 #define MAX_PEERS 256
 #define MAX_FDS 256
-// receive buffer length
-#define RBUF_LEN 8*1024
+// initial receive buffer length
+#define RBUF_LEN (8*1024)
 
 // forward decl
 void tcp2_exec(Laik_ActionSeq* as);
@@ -272,6 +272,7 @@ typedef struct {
 
     // receive buffer
     int rbuf_used;
+    int rbuf_len;
     char* rbuf;
     // if > 0 we are in binary data receive mode, outstanding bytes
     int outstanding_bin;
@@ -340,7 +341,7 @@ bool next_lex(Laik_Range* range, Laik_Index* idx)
 static
 char* istr(int dims, Laik_Index* idx)
 {
-    static char str[50];
+    static char str[70];
 
     if (dims == 1)
         sprintf(str, "%llu", (unsigned long long) idx->i[0]);
@@ -466,6 +467,7 @@ void add_rfd(InstData* d, int fd, loop_cb_t cb)
     d->fds[fd].lid = -1;
     d->fds[fd].cmd = 0; // no unprocessed command
     d->fds[fd].rbuf = malloc(RBUF_LEN);
+    d->fds[fd].rbuf_len = RBUF_LEN;
     d->fds[fd].rbuf_used = 0;
     d->fds[fd].outstanding_bin = 0;
 }
@@ -725,7 +727,7 @@ int got_binary_data(InstData* d, int lid, char* buf, int len)
             (t->reduce)(idxPtr, idxPtr, buf, 1, p->rro);
         }
         if ((esize == 8) && laik_log_begin(1)) {
-            char pstr[70];
+            char pstr[100];
             int dims = p->rcv_range->space->dims;
             sprintf(pstr, "(%d:%s)", p->roff, istr(dims, &(p->rcv_idx)));
             laik_log(1, " pos %s: in %f res %f\n", pstr, *((double*)buf), *((double*)idxPtr));
@@ -772,7 +774,7 @@ void got_data(InstData* d, int lid, char* msg)
     char* idxPtr = m->start + off * p->relemsize;
 
     // position string for check
-    char pstr[70];
+    char pstr[100];
     int dims = p->rcv_range->space->dims;
     int s = sprintf(pstr, "(%d:%s)", p->roff, istr(dims, &(p->rcv_idx)));
 
@@ -782,8 +784,11 @@ void got_data(InstData* d, int lid, char* msg)
         while(msg[i] && (msg[i] == ' ')) i++;
     }
 
-    char data_in[100];
-    assert(len < 100);
+    char* data_in = malloc(len);
+    if (!data_in) {
+        laik_panic("TCP2 Out of memory allocating buffer for element");
+        exit(1); // not actually needed, laik_panic never returns
+    }
     int l = 0;
 
     // parse hex bytes
@@ -814,6 +819,7 @@ void got_data(InstData* d, int lid, char* msg)
     }
 
     if (len == 8) laik_log(1, " pos %s: in %f res %f\n", pstr, *((double*)data_in), *((double*)idxPtr));
+    free(data_in);
 
     p->roff++;
     bool inTraversal = next_lex(p->rcv_range, &(p->rcv_idx));
@@ -1651,14 +1657,18 @@ void got_bytes(InstData* d, int fd)
     assert((fd >= 0) && (fd < MAX_FDS));
     int used = d->fds[fd].rbuf_used;
 
-    if (used == RBUF_LEN) {
-        // buffer not large enough for even 1 command: should not happen
-        laik_panic("TCP2 receive buffer too small for 1 command");
-        exit(1);
+    if (used == d->fds[fd].rbuf_len) {
+        // buffer not large enough for even 1 command (e.g. with large elements)
+        d->fds[fd].rbuf_len *= 2;
+        d->fds[fd].rbuf = realloc(d->fds[fd].rbuf, d->fds[fd].rbuf_len);
+        if (!d->fds[fd].rbuf) {
+            laik_panic("TCP2 Out of memory allocating receive buffer");
+            exit(1); // not actually needed, laik_panic never returns
+        }
     }
 
     char* rbuf = d->fds[fd].rbuf;
-    int len = read(fd, rbuf + used, RBUF_LEN - used);
+    int len = read(fd, rbuf + used, d->fds[fd].rbuf_len - used);
     if (len == -1) {
         int e = errno;
         laik_log(1, "TCP2 warning: read error on FD %d: %s\n",
@@ -2142,7 +2152,12 @@ Laik_Instance* laik_init_tcp2(int* argc, char*** argv)
 static
 void send_data(int n, int dims, Laik_Index* idx, int toLID, void* p, int s)
 {
-    char str[100];
+    // position and 3 characters per byte
+    char* str = malloc(150 + 3 * (size_t) s);
+    if (!str) {
+        laik_panic("TCP2 Out of memory allocating data command");
+        exit(1); // not actually needed, laik_panic never returns
+    }
     int o = 0;
     o += sprintf(str, "data %d (%d:%s)", s, n, istr(dims, idx));
     for(int i = 0; i < s; i++) {
@@ -2159,11 +2174,12 @@ void send_data(int n, int dims, Laik_Index* idx, int toLID, void* p, int s)
     }
 
     send_cmd((InstData*)instance->backend_data, toLID, str);
+    free(str);
 }
 
 // send
 
-#define SBUF_LEN 8*1024
+#define SBUF_LEN (8*1024)
 int sbuf_used = 3; // reserve space for header
 int sbuf_toLID = -1;
 char sbuf[SBUF_LEN];
@@ -2229,7 +2245,8 @@ void send_range(Laik_Mapping* fromMap, Laik_Range* range, int toLID)
     assert(p->scount == (int) laik_range_size(range));
     assert(p->selemsize == esize);
 
-    bool send_binary_data = p->accepts_bin_data;
+    // elements not fitting into the buffer have to be sent as text
+    bool send_binary_data = p->accepts_bin_data && (esize <= SBUF_LEN - 3);
     Laik_Index idx = range->from;
     int ecount = 0;
     while(1) {
-- 
2.43.0


From 28fc7ec1790d90079846700ffacc955ecef989aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:48 +0000
Subject: [PATCH 64/89] fix: requests arriving during a resize of the world got
 lost

---
 src/core.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core.c b/src/core.c
index e4b23af..fae311c 100644
--- a/src/core.c
+++ b/src/core.c
@@ -592,9 +592,9 @@ Laik_Group* laik_allow_world_resize(Laik_Instance* instance, int phase)
                        jcount, rcount);
     }
 
+    // requests processed by the backend are removed from the list; further
+    // requests may arrive during the resize, to be handled in the next one
     Laik_Group* g = (instance->backend->resize)(reqs);
-    if (reqs)
-        reqs->used = 0;
 
     if (g) {
         laik_set_world(instance, g);
@@ -632,8 +632,10 @@ static
 void laik_add_resize_req(Laik_Instance* instance, bool is_join_req, void* backend_data)
 {
     if (instance->resizeRequests == 0) {
-        // reserve space for 100 join requests
-        instance->resizeRequests = laik_new_resize_reqs(100);
+        // reserve space for requests: pointer to list must not change as a
+        // backend may add requests while processing the list. It is enough
+        // to cover one request per process and per connection
+        instance->resizeRequests = laik_new_resize_reqs(1000);
     }
 
     Laik_ResizeRequests* reqs = instance->resizeRequests;
-- 
2.43.0


From 309a9645980321156ea43a29db57e133eb2f97f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:07 +0000
Subject: [PATCH 65/89] fix: arbitrary clients could crash or block processes
 using the tcp2 backend

---
 src/backend-tcp2.c | 124 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 95 insertions(+), 29 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index a07bf4a..8c2990b 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -484,6 +484,8 @@ void rm_rfd(InstData* d, int fd)
     d->fds[fd].state = PS_Invalid;
     free(d->fds[fd].rbuf);
     d->fds[fd].rbuf = 0;
+    free(d->fds[fd].cmd);
+    d->fds[fd].cmd = 0;
 }
 
 // run event loop until an event handler asks to exit
@@ -505,9 +507,9 @@ void run_loop(InstData* d)
 // handle queued input and return immediatly
 void check_loop(InstData* d)
 {
-    struct timeval tv = {0,0}; // zero timeout: do not block
-
-    while(1) {
+    // limit the number of rounds: must return even if input never stops
+    for(int round = 0; round < 1000; round++) {
+        struct timeval tv = {0,0}; // zero timeout: do not block
         fd_set rset = d->rset;
         int ready = select(d->maxfds+1, &rset, 0, 0, &tv);
         if (ready >= 0) {
@@ -638,7 +640,21 @@ void ensure_conn(InstData* d, int lid)
 void send_cmd(InstData* d, int lid, char* cmd)
 {
     int fd = -lid;
-    if (lid >= 0) {
+    if (lid < 0) {
+        // a client which is not part of the computation must not disturb us:
+        // never block, and give up the connection if it does not accept data.
+        // With shutdown, the event loop gets notified and closes the connection
+        char* nl = "\n";
+        int len = strlen(cmd);
+        laik_log(1, "TCP2 Sent '%s' (len %d) to FD %d\n", cmd, len, fd);
+        if ((send(fd, cmd, len, MSG_DONTWAIT | MSG_NOSIGNAL | MSG_MORE) != len) ||
+            (send(fd, nl, 1, MSG_DONTWAIT | MSG_NOSIGNAL) != 1)) {
+            laik_log(1, "TCP2 cannot send to FD %d, giving up connection\n", fd);
+            shutdown(fd, SHUT_RDWR);
+        }
+        return;
+    }
+    else {
         ensure_conn(d, lid);
         if (d->peer[lid].state == PS_Error) {
             laik_log(1, "TCP2 Send cmd '%s' to LID %d: Cannot send, broken connection\n",
@@ -854,7 +870,10 @@ void got_register(InstData* d, int fd, int lid, char* msg)
     if ((d->mystate != PS_InStartup) &&
         (d->mystate != PS_InResize1)) {
         // after startup: process later in resize()
-        assert(d->fds[fd].cmd == 0);
+        if (d->fds[fd].cmd != 0) {
+            laik_log(LAIK_LL_Warning, "already got command to be processed later; ignoring '%s'", msg);
+            return;
+        }
 
         d->fds[fd].state = PS_RegReceived;
         d->fds[fd].cmd = strdup(msg);
@@ -884,6 +903,11 @@ void got_register(InstData* d, int fd, int lid, char* msg)
         p = -1;
     }
 
+    if (d->maxid + 1 >= MAX_PEERS) {
+        laik_log(LAIK_LL_Warning, "too many processes; ignoring register command '%s'", msg);
+        return;
+    }
+
     bool accepts_bin_data = false;
     if (res == 5) {
         // parse optional flags
@@ -951,22 +975,32 @@ void got_myid(InstData* d, int fd, int lid, char* msg)
         return;
     }
 
+    // must already be known, announced by master
     lid = peerid;
-    assert((lid >= 0) && (lid < MAX_PEERS));
-    assert(lid <= d->maxid);
+    if ((lid < 0) || (lid > d->maxid) ||
+        (d->peer[lid].location == 0) || (d->peer[lid].port < 0)) {
+        laik_log(LAIK_LL_Warning, "got ID %d from unknown peer; ignoring", peerid);
+        return;
+    }
+    assert(d->peer[lid].host != 0);
     d->peer[lid].fd = fd;
     assert(fd >= 0);
     d->fds[fd].lid = lid;
 
-    // must already be known, announced by master
-    assert(d->peer[lid].location != 0);
-    assert(d->peer[lid].host != 0);
-    assert(d->peer[lid].port >= 0);
-
     laik_log(1, "TCP2 seen LID %d (location %s) at FD %d",
              lid, d->peer[lid].location, fd);
 }
 
+// is there already a request in the queue for given backend data?
+static
+bool already_requested(void* backend_data)
+{
+    Laik_ResizeRequests* reqs = instance->resizeRequests;
+    for(int i = 0; reqs && (i < reqs->used); i++)
+        if (reqs->req[i].backend_data == backend_data) return true;
+    return false;
+}
+
 // the pattern is parsed as extended POSIX regular expression
 // (similar to PERL regexp, but no back-refs)
 void got_cutoff(InstData* d, int fd, char* msg)
@@ -975,7 +1009,10 @@ void got_cutoff(InstData* d, int fd, char* msg)
 
     if (instance == 0) {
         // no instance yet to queue remove requests, need to replay
-        assert(d->fds[fd].cmd == 0);
+        if ((d->fds[fd].lid >= 0) || (d->fds[fd].cmd != 0)) {
+            laik_log(LAIK_LL_Warning, "cannot process command later; ignoring '%s'", msg);
+            return;
+        }
 
         d->fds[fd].state = PS_CutoffReceived;
         d->fds[fd].cmd = strdup(msg);
@@ -1010,8 +1047,15 @@ void got_cutoff(InstData* d, int fd, char* msg)
             case PS_RegAccepted:
             case PS_RegReceived:
             case PS_RegReceived2:
+            case PS_Error:
                 // dead or about to join, no candidate for removal
                 continue;
+            case PS_ReadyRemove:
+            case PS_InResizeRemove:
+            case PS_InResizeRemove2:
+            case PS_InResizeRemove3:
+                // already being removed
+                continue;
             default:
                 break;
         }
@@ -1022,6 +1066,7 @@ void got_cutoff(InstData* d, int fd, char* msg)
             continue;
         }
         Peer* peer = &(d->peer[lid]);
+        if (already_requested(peer)) continue;
         laik_log(1, "TCP2 LID %d ('%s') matched for removal", lid, peer->location);
         laik_add_remove_req(instance, peer);
         rcount++;
@@ -1081,7 +1126,7 @@ void got_quit(InstData* d, int fd, int lid)
     assert(fd >= 0);
     close(fd);
     rm_rfd(d, fd);
-    if (lid >= 0) d->peer[lid].fd = -1;
+    if ((lid >= 0) && (d->peer[lid].fd == fd)) d->peer[lid].fd = -1;
 }
 
 void got_status(InstData* d, int fd, int lid)
@@ -1089,12 +1134,13 @@ void got_status(InstData* d, int fd, int lid)
     // status command
     laik_log(1, "TCP2 Sending status becaue of status command");
 
-    char msg[200];
+    char msg[300];
     assert(fd > 0);
     if (lid == -1) lid = -fd;
 
     send_cmd(d, lid, "# Known peers:");
     for(int i = 0; i <= d->maxid; i++) {
+        if (d->peer[i].state == PS_Invalid) continue; // nothing known (yet)
         sprintf(msg, "#  LID%2d loc '%s' at host '%s' port %d flags %c", i,
                     d->peer[i].location, d->peer[i].host, d->peer[i].port,
                     d->peer[i].accepts_bin_data ? 'b':'-');
@@ -1120,7 +1166,7 @@ void got_status(InstData* d, int fd, int lid)
                 get_statestring(d->fds[i].state));
         send_cmd(d, lid, msg);
         if (d->fds[i].cmd) {
-            sprintf(msg, "#        queued for processing: '%s'", d->fds[i].cmd);
+            snprintf(msg, sizeof(msg), "#        queued for processing: '%s'", d->fds[i].cmd);
             send_cmd(d, lid, msg);
         }
     }
@@ -1611,8 +1657,8 @@ void process_rbuf(InstData* d, int fd)
             pos2 = pos1;
             continue;
         }
-        // start of bin mode?
-        if (rbuf[pos1] == 'B') {
+        // start of bin mode? Only used between processes of the computation
+        if ((rbuf[pos1] == 'B') && (fds->lid >= 0)) {
             // 3 bytes header: 'B' + 2 bytes count (up to 64k of binary)
             if (pos1 + 2 >= used) {
                 // not enough bytes to cover header: stop
@@ -1629,7 +1675,7 @@ void process_rbuf(InstData* d, int fd)
 
         if (rbuf[pos2] == 4) { // Ctrl+D: same as "quit"
             got_cmd(d, fd, "quit", 5);
-            pos1 = pos2+1;
+            return; // connection and receive buffer do not exist any more
         }
         if (rbuf[pos2] == 13) {
             // change CR to whitespace (sent by telnet)
@@ -1638,6 +1684,7 @@ void process_rbuf(InstData* d, int fd)
         if (rbuf[pos2] == '\n') {
             rbuf[pos2] = 0;
             got_cmd(d, fd, rbuf + pos1, pos2 - pos1);
+            if (fds->rbuf == 0) return; // command closed connection
             pos1 = pos2+1;
         }
         pos2++;
@@ -1659,6 +1706,11 @@ void got_bytes(InstData* d, int fd)
 
     if (used == d->fds[fd].rbuf_len) {
         // buffer not large enough for even 1 command (e.g. with large elements)
+        if (d->fds[fd].lid < 0) {
+            laik_log(LAIK_LL_Warning, "TCP2 command from FD %d too long, closing connection", fd);
+            got_quit(d, fd, -1);
+            return;
+        }
         d->fds[fd].rbuf_len *= 2;
         d->fds[fd].rbuf = realloc(d->fds[fd].rbuf, d->fds[fd].rbuf_len);
         if (!d->fds[fd].rbuf) {
@@ -1683,6 +1735,7 @@ void got_bytes(InstData* d, int fd)
             rbuf[used] = '\n';
             d->fds[fd].rbuf_used++;
             process_rbuf(d, fd);
+            if (d->fds[fd].rbuf == 0) return; // closed by left-over command
         }
 
         int lid = d->fds[fd].lid;
@@ -1690,10 +1743,12 @@ void got_bytes(InstData* d, int fd)
                  fd, lid, d->fds[fd].rbuf_used);
 
         if (lid >= 0) {
-            assert(d->peer[lid].fd == fd);
             // peer may still be alive and just have closed connection to avoid
-            // too many open connections: thus, only mark as "not connected"
-            d->peer[lid].fd = -1;
+            // too many open connections: thus, only mark as "not connected".
+            // With peers connecting to each other at the same time, there may
+            // be two connections, with this one not being used
+            if (d->peer[lid].fd == fd)
+                d->peer[lid].fd = -1;
         }
 
         close(fd);
@@ -1723,8 +1778,14 @@ void got_connect(InstData* d, int fd)
     socklen_t len = sizeof(saddr);
     int newfd = accept(fd, &saddr, &len);
     if (newfd < 0) {
-        laik_panic("TCP2 Error in accept\n");
-        exit(1);
+        // e.g. connection already closed by other side
+        laik_log(LAIK_LL_Warning, "TCP2 cannot accept connection: %s\n", strerror(errno));
+        return;
+    }
+    if (newfd >= MAX_FDS) {
+        laik_log(LAIK_LL_Warning, "TCP2 too many connections, closing new one");
+        close(newfd);
+        return;
     }
 
     add_rfd(d, newfd, got_bytes);
@@ -2613,6 +2674,7 @@ void tcp2_make_progress()
                 got_cutoff(d, fd, d->fds[fd].cmd);
                 free(d->fds[fd].cmd);
                 d->fds[fd].cmd = 0;
+                d->fds[fd].state = PS_Unknown;
                 break;
             default:
                 break;
@@ -2767,9 +2829,11 @@ Laik_Group* tcp2_resize(Laik_ResizeRequests* resizeReqs)
                 FDState* fds = (FDState*) req->backend_data;
                 int fd = fds - d->fds;
                 assert(&(d->fds[fd]) == fds);
-                assert(fds->state == PS_RegReceived2);
-                assert(fds->lid < 0);
-                assert(fds->cmd);
+                if ((fds->state != PS_RegReceived2) ||
+                    (fds->lid >= 0) || (fds->cmd == 0)) {
+                    laik_log(1, "TCP2 resize: connection of join req lost (FD %d)", fd);
+                    continue;
+                }
 
                 laik_log(1, "TCP2 resize: replay join req '%s' from FD %d",
                         fds->cmd, fd);
@@ -2780,8 +2844,10 @@ Laik_Group* tcp2_resize(Laik_ResizeRequests* resizeReqs)
             else {
                 Peer* peer = (Peer*) req->backend_data;
                 laik_log(1, "TCP2 resize: remove process '%s'", peer->location);
-                // expected to be active
-                assert(peer->state == PS_InResize);
+                if (peer->state != PS_InResize) {
+                    laik_log(1, "TCP2 resize: process not active; ignoring");
+                    continue;
+                }
                 peer->state = PS_InResizeRemove;
             }
         }
-- 
2.43.0


From 6783f74e5f700ac9e74411342f14482d55ab5bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:08 +0000
Subject: [PATCH 66/89] fix: requests to remove processes got lost during
 startup with the tcp2 backend

---
 src/backend-tcp2.c | 43 ++++++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 8c2990b..b58b97d 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -181,6 +181,8 @@
 
 #define MAX_PEERS 256
 #define MAX_FDS 256
+// max number of removal requests queued during initialization
+#define MAX_EARLY_CUTOFFS 100
 // initial receive buffer length
 #define RBUF_LEN (8*1024)
 
@@ -210,7 +212,6 @@ static Laik_Instance* instance = 0;
 typedef enum _PeerState {
     PS_Invalid = 0,
     PS_Unknown,        // accepted connection, may be active peer or not registered
-    PS_CutoffReceived, // peer/master: cutoff command received, queued
     PS_BeforeReg,      // peer/master: about to register
     PS_RegReceived,    // master peer: received registration request, not yet processed
     PS_RegReceived2,   // master peer: received registration request, in wait queue
@@ -268,7 +269,7 @@ typedef struct {
     PeerState state;  // state if no LID assigned
     int lid;          // LID (location id) of peer
     loop_cb_t cb;
-    char* cmd;        // unprocessed command, can be 'register' or 'remove'
+    char* cmd;        // unprocessed command, can be 'register'
 
     // receive buffer
     int rbuf_used;
@@ -296,6 +297,10 @@ struct _InstData {
     int exit;         // set to exit event loop
     FDState fds[MAX_FDS];
 
+    // cutoff commands received before initialization was done
+    int early_cutoffs;
+    char* early_cutoff[MAX_EARLY_CUTOFFS];
+
     // currently synced KVS (usually NULL)
     Laik_KVStore* kvs;
     char *kvs_name;  // non-null if sending changes of KVS with given name allowed
@@ -367,10 +372,6 @@ char* get_statestring(PeerState st)
         // accepted connection, may be active peer or not registered
         return "unknown";
 
-    case PS_CutoffReceived:
-        // master/peer: received cutoff request, in wait queue
-        return "cutoff command queued, waiting";
-
     case PS_BeforeReg:
         // peer/master: about to register
         return "about to register";
@@ -1003,19 +1004,19 @@ bool already_requested(void* backend_data)
 
 // the pattern is parsed as extended POSIX regular expression
 // (similar to PERL regexp, but no back-refs)
-void got_cutoff(InstData* d, int fd, char* msg)
+void got_cutoff(InstData* d, char* msg)
 {
     // cutoff <location pattern>
 
     if (instance == 0) {
         // no instance yet to queue remove requests, need to replay
-        if ((d->fds[fd].lid >= 0) || (d->fds[fd].cmd != 0)) {
-            laik_log(LAIK_LL_Warning, "cannot process command later; ignoring '%s'", msg);
+        // (independent from connection, which may get closed before)
+        if (d->early_cutoffs == MAX_EARLY_CUTOFFS) {
+            laik_log(LAIK_LL_Warning, "too many commands to process later; ignoring '%s'", msg);
             return;
         }
 
-        d->fds[fd].state = PS_CutoffReceived;
-        d->fds[fd].cmd = strdup(msg);
+        d->early_cutoff[d->early_cutoffs++] = strdup(msg);
         laik_log(1, "TCP2 queued for later processing: '%s'", msg);
         return;
     }
@@ -1585,7 +1586,7 @@ void got_cmd(InstData* d, int fd, char* msg, int len)
     switch(msg[0]) {
     case 'r': got_register(d, fd, lid, msg); return; // register <location> <host> <port>
     case 'm': got_myid(d, fd, lid, msg); return; // myid <lid>
-    case 'c': got_cutoff(d, fd, msg); return; // cutoff <location pattern>
+    case 'c': got_cutoff(d, msg); return; // cutoff <location pattern>
     case 'h': got_help(d, fd, lid); return;
     case 't': got_terminate(d, fd, lid); return;
     case 'q': got_quit(d, fd, lid); return;
@@ -1841,6 +1842,7 @@ InstData* new_inst_data(char* host, char* location)
         d->fds[i].cb = 0;
     }
 
+    d->early_cutoffs = 0;
     d->host = strdup(host);
     d->location = strdup(location);
     d->listenfd = -1; // not bound yet
@@ -2667,19 +2669,18 @@ void tcp2_make_progress()
                 d->fds[fd].state = PS_RegReceived2;
                 laik_add_join_req(instance, &(d->fds[fd]));
                 break;
-            case PS_CutoffReceived:
-                // replay
-                laik_log(1, "TCP2 make progress: replay cutoff '%s' from FD %d",
-                        d->fds[fd].cmd, fd);
-                got_cutoff(d, fd, d->fds[fd].cmd);
-                free(d->fds[fd].cmd);
-                d->fds[fd].cmd = 0;
-                d->fds[fd].state = PS_Unknown;
-                break;
             default:
                 break;
         }
     }
+
+    // replay removal requests received before initialization was done
+    for(int i = 0; i < d->early_cutoffs; i++) {
+        laik_log(1, "TCP2 make progress: replay '%s'", d->early_cutoff[i]);
+        got_cutoff(d, d->early_cutoff[i]);
+        free(d->early_cutoff[i]);
+    }
+    d->early_cutoffs = 0;
 }
 
 void tcp2_finish_resize()
-- 
2.43.0


From ff01640f604f39adc8ab3a0976c8b6f1ba580e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:14 +0000
Subject: [PATCH 67/89] fix: joining while more processes leave overflowed the
 new world group

---
 src/backend-tcp2.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index b58b97d..9daad01 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -2146,7 +2146,8 @@ Laik_Instance* laik_init_tcp2(int* argc, char*** argv)
     world_size -= remove;
 
     // create initial world group
-    Laik_Group* world = laik_create_group(instance, world_size);
+    // (also needs space to map processes of the parent group)
+    Laik_Group* world = laik_create_group(instance, d->maxid + 1);
     world->size = world_size;
     if (old == 0) {
         // we are part of initial processes: no parent
-- 
2.43.0


From 0725ce32db90e34ad7ecf63179ab66420c56302a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:39 +0000
Subject: [PATCH 68/89] fix: processes on hosts with long names could not join
 with the tcp2 backend

---
 src/backend-tcp2.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 9daad01..a3557bf 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -882,9 +882,9 @@ void got_register(InstData* d, int fd, int lid, char* msg)
         return;
     }
 
-    char cmd[21], l[51], h[51], flags[5];
+    char cmd[21], l[101], h[101], flags[5];
     int p, res;
-    res = sscanf(msg, "%20s %50s %50s %d %4s", cmd, l, h, &p, flags);
+    res = sscanf(msg, "%20s %100s %100s %d %4s", cmd, l, h, &p, flags);
     if (res < 2) {
         laik_log(LAIK_LL_Warning, "cannot parse register command '%s'; ignoring", msg);
         return;
@@ -921,7 +921,7 @@ void got_register(InstData* d, int fd, int lid, char* msg)
     d->fds[fd].lid = lid;
     assert(lid < MAX_PEERS);
 
-    char loc[70];
+    char loc[120];
     sprintf(loc, "L%d:%s", lid, l);
 
     laik_log(1, "TCP2 registered new LID %d: location %s (at host %s, port %d, flags %c)",
@@ -939,7 +939,7 @@ void got_register(InstData* d, int fd, int lid, char* msg)
     d->peer[lid].scount = 0;
 
     // send response to registering process: notify about assigned LID
-    char str[150];
+    char str[300];
     sprintf(str, "id %d %s %s %d %s", lid, loc, h, p, accepts_bin_data ? "b":"-");
     send_cmd(d, lid, str);
 
@@ -1184,9 +1184,9 @@ void got_id(InstData* d, int from_lid, char* msg)
         return;
     }
 
-    char cmd[21], l[51], h[51], flags[5];
+    char cmd[21], l[101], h[101], flags[5];
     int lid, p;
-    if (sscanf(msg, "%20s %d %50s %50s %d %4s", cmd, &lid, l, h, &p, flags) < 6) {
+    if (sscanf(msg, "%20s %d %100s %100s %d %4s", cmd, &lid, l, h, &p, flags) < 6) {
         laik_log(LAIK_LL_Warning, "cannot parse id command '%s'; ignoring", msg);
         return;
     }
@@ -1892,7 +1892,7 @@ int startup_master(InstData* d)
     assert(d->mystate == PS_InStartup2);
 
     // broadcast location ID infos to all non-masters
-    char msg[150];
+    char msg[300];
     for(int lid = 0; lid <= d->maxid; lid++) {
         sprintf(msg, "newid %d %s %s %d %s", lid,
                 d->peer[lid].location, d->peer[lid].host, d->peer[lid].port,
@@ -1930,8 +1930,8 @@ static
 int startup_non_master(InstData* d)
 {
     // register with master, get world size
-    char msg[100];
-    sprintf(msg, "register %.30s %.30s %d %s",
+    char msg[300];
+    sprintf(msg, "register %.90s %.90s %d %s",
             d->location, d->host, d->listenport, d->accept_bin_data ? "bin":"");
     send_cmd(d, 0, msg);
 
@@ -1972,13 +1972,13 @@ Laik_Instance* laik_init_tcp2(int* argc, char*** argv)
     signal(SIGPIPE, SIG_IGN);
 
     // my location string: "<hostname>:<pid>" (may be extended by master)
-    char hostname[50];
-    if (gethostname(hostname, 50) != 0) {
+    char hostname[70];
+    if (gethostname(hostname, 70) != 0) {
         // logging not initilized yet
         fprintf(stderr, "TCP2 cannot get host name");
         exit(1);
     }
-    char location[70];
+    char location[100];
     sprintf(location, "%s:%d", hostname, getpid());
 
     // enable early logging
@@ -2086,7 +2086,7 @@ Laik_Instance* laik_init_tcp2(int* argc, char*** argv)
         d->mystate = PS_InStartup;
 
         // add LID tag to my location
-        char loc[100];
+        char loc[120];
         sprintf(loc, "L0:%s", d->location);
         free(d->location);
         d->location = strdup(loc);
@@ -2707,7 +2707,7 @@ void tcp2_finish_resize()
 // return new group on process size change (global sync)
 Laik_Group* tcp2_resize(Laik_ResizeRequests* resizeReqs)
 {
-    char msg[150];
+    char msg[300];
 
     // any previous resize must be finished
     assert(instance->world && (instance->world->parent == 0));
-- 
2.43.0


From 5894d3490f6f27b3206d2b9194061dfebdf2710d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:32 +0000
Subject: [PATCH 69/89] fix: process id written with profiles was not
 initialised for some backends

---
 src/core.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core.c b/src/core.c
index fae311c..3c78a9a 100644
--- a/src/core.c
+++ b/src/core.c
@@ -213,6 +213,7 @@ Laik_Instance* laik_new_instance(const Laik_Backend* b,
     instance->locations = size;    // initial number of locations
     instance->mylocationid = myid; // initially, myid is my locationid
     instance->mylocation = strdup(location);
+    sprintf(instance->guid, "%d", myid); // backend may change this
     instance->world = 0;           // still invalid, gets set by backend
 
     instance->resizeRequests = 0;
-- 
2.43.0


From 46006801091676401174e22afc78e871e75ecbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:34 +0000
Subject: [PATCH 70/89] fix: location synchronization after growth of the world
 overflowed and missed processes

---
 include/laik/core-internal.h |  4 +++-
 src/core.c                   | 13 +++++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/laik/core-internal.h b/include/laik/core-internal.h
index f7cc855..f4ed8c8 100644
--- a/include/laik/core-internal.h
+++ b/include/laik/core-internal.h
@@ -74,9 +74,11 @@ struct _Laik_Instance {
 
     // KV store for exchanging location information
     Laik_KVStore* locationStore;
-    // direct access to synchronized location strings (array of size <size>)
+    // direct access to synchronized location strings (array of size
+    // <synced_locations>, the number of locations at last synchronization)
     // null if not synced yet; for removed processes entries are null
     char** location;
+    int synced_locations;
 
     // KV stores for LAIK objects
     Laik_KVStore* spaceStore;
diff --git a/src/core.c b/src/core.c
index 3c78a9a..114c905 100644
--- a/src/core.c
+++ b/src/core.c
@@ -220,6 +220,7 @@ Laik_Instance* laik_new_instance(const Laik_Backend* b,
 
     instance->locationStore = 0;
     instance->location = 0; // set at location sync
+    instance->synced_locations = 0;
 
     instance->spaceStore = 0;
 
@@ -695,12 +696,22 @@ static void remove_location(Laik_KVStore* s, char* key)
 // TODO: only sync new locations after growth of instance
 void laik_sync_location(Laik_Instance *instance)
 {
+    if (instance->locationStore &&
+        (instance->synced_locations != instance->locations)) {
+        // processes joined: they do not know about previously synced entries.
+        // As this gets detected by all processes, start with an empty store
+        laik_kvs_free(instance->locationStore);
+        free(instance->location);
+        instance->locationStore = NULL;
+    }
+
     if (instance->locationStore == NULL) {
         instance->locationStore = laik_kvs_new("location", instance);
         instance->location = (char**) malloc((unsigned)instance->locations * sizeof(char*));
         assert(instance->location != 0);
         for(int i = 0; i < instance->locations; i++)
             instance->location[i] = 0;
+        instance->synced_locations = instance->locations;
 
         // register function to update direct access to location
         laik_kvs_reg_callbacks(instance->locationStore,
@@ -726,6 +737,8 @@ char* laik_group_location(Laik_Group *group, int id)
 
     int lid = laik_group_locationid(group, id);
     assert(lid >= 0 && lid < group->inst->locations);
+    if (lid >= group->inst->synced_locations)
+        return NULL; // joined after last synchronization
     return group->inst->location[lid];
 }
 
-- 
2.43.0


From 34568042e1f6ec17a9edcedc1e14b9f35d6bfc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:47 +0000
Subject: [PATCH 71/89] fix: markov examples failed with indirection or an
 initial state on multiple processes

---
 examples/markov.c  |  4 +++-
 examples/markov2.c | 11 +++++------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/examples/markov.c b/examples/markov.c
index f10cf5e..3a52f8d 100644
--- a/examples/markov.c
+++ b/examples/markov.c
@@ -317,6 +317,8 @@ int main(int argc, char* argv[])
         // this is called whenever the partitioning is changing
         // FIXME: add API to specify function for init
         laik_switchto_partitioning(idata, pWrite, LAIK_DF_None, LAIK_RO_None);
+        // local indexes needed are the ones valid when accessing incoming states
+        laik_switchto_partitioning(data1, pRead, LAIK_DF_None, LAIK_RO_None);
         // TODO: move to inititialization function
         int* iarray;
         uint64_t icount, ioff;
@@ -325,7 +327,7 @@ int main(int argc, char* argv[])
             int gi = laik_local2global_1d(idata, i);
             for(int j = 0; j <= in; j++) {
                 int gidx = mg.cm[gi * (in + 1) + j];
-                assert(laik_global2local_1d(idata, gidx, &ioff) != 0);
+                assert(laik_global2local_1d(data1, gidx, &ioff) != 0);
                 iarray[i * (in + 1) + j] = ioff;
             }
         }
diff --git a/examples/markov2.c b/examples/markov2.c
index 571c23c..d8296a0 100644
--- a/examples/markov2.c
+++ b/examples/markov2.c
@@ -377,6 +377,8 @@ int main(int argc, char* argv[])
         // this is called whenever the partitioning is changing
         // FIXME: add API to specify function for init
         laik_switchto_partitioning(idata, pRead, LAIK_DF_None, LAIK_RO_None);
+        // local indexes needed are the ones valid when accessing outgoing states
+        laik_switchto_partitioning(data1, pWrite, LAIK_DF_None, LAIK_RO_None);
         // TODO: move to inititialization function
         int* iarray;
         uint64_t icount, ioff;
@@ -385,7 +387,7 @@ int main(int argc, char* argv[])
             int gi = laik_local2global_1d(idata, i);
             for(int j = 0; j <= out; j++) {
                 int gidx = mg.cm[gi * (out + 1) + j];
-                assert(laik_global2local_1d(idata, gidx, &ioff) != 0);
+                assert(laik_global2local_1d(data1, gidx, &ioff) != 0);
                 iarray[i * (out + 1) + j] = ioff;
             }
         }
@@ -408,12 +410,9 @@ int main(int argc, char* argv[])
     for(uint64_t i = 0; i < count; i++)
         v[i] = p;
     if (onestate >= 0) {
-        // set state <phase> to probability 1
-        if (laik_global2local_1d(data1, onestate, &off)) {
-            // if global index 0 is local, it must be at local index 0
-            assert(off == (uint64_t) onestate);
+        // set state <onestate> to probability 1, if it is local
+        if (laik_global2local_1d(data1, onestate, &off))
             v[off] = 1.0;
-        }
     }
 
     laik_profile_user_stop(inst);
-- 
2.43.0


From 4bbb47ec0719192fc99c9aef3edb493a2994f956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:54 +0000
Subject: [PATCH 72/89] fix: empty ranges added by a partitioner made layouts
 and reservations fail

---
 src/partitioner.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/partitioner.c b/src/partitioner.c
index 1446042..532939a 100644
--- a/src/partitioner.c
+++ b/src/partitioner.c
@@ -110,6 +110,10 @@ Laik_RangeList* laik_run_partitioner(Laik_PartitionerParams* params,
 void laik_append_range(Laik_RangeReceiver* r,
                        int task, const Laik_Range *s, int tag, void* data)
 {
+    // an empty range does not give access to any index: nothing to add
+    Laik_Range range = *s;
+    if (laik_range_isEmpty(&range)) return;
+
     // if filter is installed, check if we should store the range
     Laik_RangeFilter* sf = r->filter;
     if (sf) {
-- 
2.43.0


From c5197fc852b32ba2fac2cc4b4d44188fccbe3e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:54 +0000
Subject: [PATCH 73/89] fix: propagation1d example used ranges of the wrong
 space

---
 examples/propagation1d.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/examples/propagation1d.c b/examples/propagation1d.c
index 4990554..fd9b0ad 100644
--- a/examples/propagation1d.c
+++ b/examples/propagation1d.c
@@ -27,6 +27,7 @@ void runMyParter(Laik_RangeReceiver* r, Laik_PartitionerParams* p)
         // does a private copy of original range which can be modified
         Laik_Range range = *laik_taskrange_get_range(ts);
         // extend 1d range of elements by 1 at end for corresponding node partition
+        range.space = p->space;
         range.to.i[0]++;
         laik_append_range(r, laik_taskrange_get_task(ts), &range, 0, 0);
     }
-- 
2.43.0


From dd2176be1d0151e8db26a891418e10cc4ceadacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:54 +0000
Subject: [PATCH 74/89] fix: spmv2 example tried to remove a process no longer
 in the group

---
 examples/spmv2.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/spmv2.c b/examples/spmv2.c
index 1dbffa2..82c60a2 100644
--- a/examples/spmv2.c
+++ b/examples/spmv2.c
@@ -312,7 +312,7 @@ int main(int argc, char* argv[])
         Laik_Group* g = laik_partitioning_get_group(p);
         bool doShrink = (iter == nextshrink) && (iter +1 < maxiter) &&
                         (laik_size(g) > 1) &&
-                        (laik_size(g) >= removeTask);
+                        (laik_size(g) > removeTask);
         if (doShrink) {
             nextshrink += shrink;
 
-- 
2.43.0


From f62a879dc3755d89e104344fdcc328381bc360f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:35 +0000
Subject: [PATCH 75/89] fix: KVS sync waited for processes removed from the
 world if the resize was not finished yet

---
 src/backend-tcp2.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index a3557bf..5f4697a 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -2626,6 +2626,8 @@ void tcp2_sync(Laik_KVStore* kvs)
     sprintf(msg, "kvs allow %s\n", kvs->name);
     for(int lid = 1; lid <= d->maxid; lid++) {
         if (d->peer[lid].state == PS_Dead) continue;
+        // removed from world, but resize not finished yet
+        if (d->peer[lid].state == PS_ReadyRemove) continue;
         send_cmd(d, lid, msg);
 
         // wait for changes from LID <lid>
@@ -2646,6 +2648,7 @@ void tcp2_sync(Laik_KVStore* kvs)
 
     for(int lid = 1; lid <= d->maxid; lid++) {
         if (d->peer[lid].state == PS_Dead) continue;
+        if (d->peer[lid].state == PS_ReadyRemove) continue;
         send_kvs_changes(d, lid, dst);
     }
     laik_kvs_changes_apply(dst, kvs);
-- 
2.43.0


From e8da46d3e7652d0c5d8e0f8f54b53ff5526443d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:42 +0000
Subject: [PATCH 76/89] fix: removal requests with complex patterns could crash
 or block processes using the tcp2 backend

---
 src/backend-tcp2.c | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 5f4697a..fe17faf 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -1002,6 +1002,36 @@ bool already_requested(void* backend_data)
     return false;
 }
 
+// Patterns may come from arbitrary clients. Reject patterns which can need
+// an excessive amount of time or memory: back-references (not part of extended
+// regular expressions, but supported by some implementations), and large
+// repetition counts, as they usually get expanded
+static
+bool pattern_allowed(const char* pattern)
+{
+    long copies = 1;
+    for(const char* p = pattern; *p; p++) {
+        if ((p[0] == '\\') && p[1]) {
+            p++;
+            if ((*p >= '1') && (*p <= '9')) return false;
+            continue;
+        }
+        if (p[0] != '{') continue;
+
+        // nested repetitions multiply: find maximum in "{n}", "{n,}", "{n,m}"
+        long max = 1;
+        while(p[1] && (p[1] != '}')) {
+            p++;
+            long n = strtol(p, 0, 10);
+            if (n > max) max = n;
+        }
+        if (max > 1000) return false;
+        copies *= max;
+        if (copies > 1000) return false;
+    }
+    return true;
+}
+
 // the pattern is parsed as extended POSIX regular expression
 // (similar to PERL regexp, but no back-refs)
 void got_cutoff(InstData* d, char* msg)
@@ -1035,6 +1065,11 @@ void got_cutoff(InstData* d, char* msg)
 
     laik_log(1, "TCP2 got cutoff, pattern '%s'", pattern);
 
+    if (!pattern_allowed(pattern)) {
+        laik_log(LAIK_LL_Warning, "regex pattern '%s' too complex; ignoring", pattern);
+        return;
+    }
+
     regex_t re;
     if (regcomp(&re, pattern, REG_EXTENDED|REG_NOSUB) != 0) {
         laik_log(LAIK_LL_Warning, "cannot compile regex pattern '%s'; ignoring", pattern);
-- 
2.43.0


From 24c6a58ea01d8c60597c180a87f35d5b101c94a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:42 +0000
Subject: [PATCH 77/89] fix: many connections from clients blocked startup with
 the tcp2 backend

---
 src/backend-tcp2.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index fe17faf..1e1fb06 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -181,6 +181,8 @@
 
 #define MAX_PEERS 256
 #define MAX_FDS 256
+// maximal number of open connections from not (yet) registered clients
+#define MAX_CLIENTS 100
 // max number of removal requests queued during initialization
 #define MAX_EARLY_CUTOFFS 100
 // initial receive buffer length
@@ -268,6 +270,7 @@ typedef void (*loop_cb_t)(InstData* d, int fd);
 typedef struct {
     PeerState state;  // state if no LID assigned
     int lid;          // LID (location id) of peer
+    int conn_no;      // sequence number if accepted connection
     loop_cb_t cb;
     char* cmd;        // unprocessed command, can be 'register'
 
@@ -295,6 +298,7 @@ struct _InstData {
     int maxfds;       // highest fd in rset
     fd_set rset;      // read set for select
     int exit;         // set to exit event loop
+    int conn_count;   // number of accepted connections
     FDState fds[MAX_FDS];
 
     // cutoff commands received before initialization was done
@@ -1808,6 +1812,26 @@ void got_bytes(InstData* d, int fd)
     process_rbuf(d, fd);
 }
 
+// clients which are not part of the computation must not use up all FDs, as
+// these are needed for peers: give up connection of longest-waiting client.
+// With shutdown, the event loop gets notified and closes the connection
+static
+void limit_clients(InstData* d)
+{
+    int clients = 0, oldest = -1;
+    for(int fd = 0; fd < MAX_FDS; fd++) {
+        FDState* fds = &(d->fds[fd]);
+        if ((fds->state != PS_Unknown) || (fds->lid >= 0)) continue;
+        clients++;
+        if ((oldest < 0) || (fds->conn_no < d->fds[oldest].conn_no)) oldest = fd;
+    }
+    if (clients <= MAX_CLIENTS) return;
+
+    laik_log(1, "TCP2 too many clients, giving up FD %d\n", oldest);
+    shutdown(oldest, SHUT_RDWR);
+    d->fds[oldest].state = PS_Error;
+}
+
 void got_connect(InstData* d, int fd)
 {
     struct sockaddr saddr;
@@ -1826,6 +1850,8 @@ void got_connect(InstData* d, int fd)
 
     add_rfd(d, newfd, got_bytes);
     d->fds[newfd].state = PS_Unknown;
+    d->fds[newfd].conn_no = d->conn_count++;
+    limit_clients(d);
 
     char str[20];
     if (saddr.sa_family == AF_INET)
@@ -1872,6 +1898,7 @@ InstData* new_inst_data(char* host, char* location)
     FD_ZERO(&d->rset);
     d->maxfds = 0;
     d->exit = 0;
+    d->conn_count = 0;
     for(int i = 0; i < MAX_FDS; i++) {
         d->fds[i].state = PS_Invalid;
         d->fds[i].cb = 0;
-- 
2.43.0


From 2805ecc5671917d87a468d2b337ddcace08854f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:25 +0000
Subject: [PATCH 78/89] Revert "fix: spmv2 example tried to remove a process no
 longer in the group"

This reverts commit dd2176be1d0151e8db26a891418e10cc4ceadacc.
---
 examples/spmv2.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/spmv2.c b/examples/spmv2.c
index 82c60a2..1dbffa2 100644
--- a/examples/spmv2.c
+++ b/examples/spmv2.c
@@ -312,7 +312,7 @@ int main(int argc, char* argv[])
         Laik_Group* g = laik_partitioning_get_group(p);
         bool doShrink = (iter == nextshrink) && (iter +1 < maxiter) &&
                         (laik_size(g) > 1) &&
-                        (laik_size(g) > removeTask);
+                        (laik_size(g) >= removeTask);
         if (doShrink) {
             nextshrink += shrink;
 
-- 
2.43.0


From 08ece51ec74ac97ec7de221a49f64e66a6ac0a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:25 +0000
Subject: [PATCH 79/89] Revert "fix: propagation1d example used ranges of the
 wrong space"

This reverts commit c5197fc852b32ba2fac2cc4b4d44188fccbe3e41.
---
 examples/propagation1d.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/examples/propagation1d.c b/examples/propagation1d.c
index fd9b0ad..4990554 100644
--- a/examples/propagation1d.c
+++ b/examples/propagation1d.c
@@ -27,7 +27,6 @@ void runMyParter(Laik_RangeReceiver* r, Laik_PartitionerParams* p)
         // does a private copy of original range which can be modified
         Laik_Range range = *laik_taskrange_get_range(ts);
         // extend 1d range of elements by 1 at end for corresponding node partition
-        range.space = p->space;
         range.to.i[0]++;
         laik_append_range(r, laik_taskrange_get_task(ts), &range, 0, 0);
     }
-- 
2.43.0


From 87f758f70fb3b52a071deb409b151a92a5518264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:25 +0000
Subject: [PATCH 80/89] Revert "fix: markov examples failed with indirection or
 an initial state on multiple processes"

This reverts commit 34568042e1f6ec17a9edcedc1e14b9f35d6bfc1b.
---
 examples/markov.c  |  4 +---
 examples/markov2.c | 11 ++++++-----
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/examples/markov.c b/examples/markov.c
index 3a52f8d..f10cf5e 100644
--- a/examples/markov.c
+++ b/examples/markov.c
@@ -317,8 +317,6 @@ int main(int argc, char* argv[])
         // this is called whenever the partitioning is changing
         // FIXME: add API to specify function for init
         laik_switchto_partitioning(idata, pWrite, LAIK_DF_None, LAIK_RO_None);
-        // local indexes needed are the ones valid when accessing incoming states
-        laik_switchto_partitioning(data1, pRead, LAIK_DF_None, LAIK_RO_None);
         // TODO: move to inititialization function
         int* iarray;
         uint64_t icount, ioff;
@@ -327,7 +325,7 @@ int main(int argc, char* argv[])
             int gi = laik_local2global_1d(idata, i);
             for(int j = 0; j <= in; j++) {
                 int gidx = mg.cm[gi * (in + 1) + j];
-                assert(laik_global2local_1d(data1, gidx, &ioff) != 0);
+                assert(laik_global2local_1d(idata, gidx, &ioff) != 0);
                 iarray[i * (in + 1) + j] = ioff;
             }
         }
diff --git a/examples/markov2.c b/examples/markov2.c
index d8296a0..571c23c 100644
--- a/examples/markov2.c
+++ b/examples/markov2.c
@@ -377,8 +377,6 @@ int main(int argc, char* argv[])
         // this is called whenever the partitioning is changing
         // FIXME: add API to specify function for init
         laik_switchto_partitioning(idata, pRead, LAIK_DF_None, LAIK_RO_None);
-        // local indexes needed are the ones valid when accessing outgoing states
-        laik_switchto_partitioning(data1, pWrite, LAIK_DF_None, LAIK_RO_None);
         // TODO: move to inititialization function
         int* iarray;
         uint64_t icount, ioff;
@@ -387,7 +385,7 @@ int main(int argc, char* argv[])
             int gi = laik_local2global_1d(idata, i);
             for(int j = 0; j <= out; j++) {
                 int gidx = mg.cm[gi * (out + 1) + j];
-                assert(laik_global2local_1d(data1, gidx, &ioff) != 0);
+                assert(laik_global2local_1d(idata, gidx, &ioff) != 0);
                 iarray[i * (out + 1) + j] = ioff;
             }
         }
@@ -410,9 +408,12 @@ int main(int argc, char* argv[])
     for(uint64_t i = 0; i < count; i++)
         v[i] = p;
     if (onestate >= 0) {
-        // set state <onestate> to probability 1, if it is local
-        if (laik_global2local_1d(data1, onestate, &off))
+        // set state <phase> to probability 1
+        if (laik_global2local_1d(data1, onestate, &off)) {
+            // if global index 0 is local, it must be at local index 0
+            assert(off == (uint64_t) onestate);
             v[off] = 1.0;
+        }
     }
 
     laik_profile_user_stop(inst);
-- 
2.43.0


From 48bb0d8b0f27e0da144dfc74debcf0fbee5827d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:18 +0000
Subject: [PATCH 81/89] fix: split of a tcp communicator ordered equal keys
 arbitrarily

The order of ranks with equal hints was not defined, and differences of
hints could overflow.
---
 src/backends/tcp/minimpi.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/backends/tcp/minimpi.c b/src/backends/tcp/minimpi.c
index fbf9fba..19cee3f 100644
--- a/src/backends/tcp/minimpi.c
+++ b/src/backends/tcp/minimpi.c
@@ -156,7 +156,11 @@ static int laik_tcp_split_compare (const void* a, const void* b) {
     const Laik_Tcp_Split* x = a;
     const Laik_Tcp_Split* y = b;
 
-    return x->hint - y->hint;
+    // Equal hints keep the order of the ranks in the existing communicator
+    if (x->hint != y->hint) {
+        return x->hint < y->hint ? -1 : 1;
+    }
+    return (x->rank > y->rank) - (x->rank < y->rank);
 }
 
 static size_t laik_tcp_minimpi_sizeof (const Laik_Tcp_MiniMpiType datatype, Laik_Tcp_Errors* errors) {
@@ -505,7 +509,7 @@ int laik_tcp_minimpi_comm_split (const Laik_Tcp_MiniMpiComm* comm, const int col
     // Create a new task list
     g_autoptr (GArray) tasks = g_array_new (false, false, sizeof (size_t));
 
-    // Sort all the split info structures (including our own!) by hint
+    // Sort all the split info structures (including our own!) by hint and rank
     g_array_sort (splits, laik_tcp_split_compare);
 
     // Initialize our new rank with something invalid
-- 
2.43.0


From a056a891fb711ee419d4199246efd68020253c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:18 +0000
Subject: [PATCH 82/89] fix: shutdown flag of the tcp server was read and
 written without synchronisation

---
 src/backends/tcp/server.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/backends/tcp/server.c b/src/backends/tcp/server.c
index 2197e87..f0cc617 100644
--- a/src/backends/tcp/server.c
+++ b/src/backends/tcp/server.c
@@ -28,7 +28,7 @@
 #include "socketqueue.h"  // for laik_tcp_socket_queue_push, laik_tcp_socket...
 
 struct Laik_Tcp_Server {
-    bool                     shutdown;
+    gint                     shutdown;
     GAsyncQueue*             returned;
     GPtrArray*               threads;
     Laik_Tcp_Lock*           lock;
@@ -46,7 +46,7 @@ static Laik_Tcp_Socket* laik_tcp_server_accept (Laik_Tcp_Server* this) {
     // Get the configuration
     g_autoptr (Laik_Tcp_Config) config = laik_tcp_config ();
 
-    while (!this->shutdown) {
+    while (!g_atomic_int_get (&this->shutdown)) {
         // Add all returned sockets to the socket queue
         while (true) {
             Laik_Tcp_Socket* socket = g_async_queue_try_pop (this->returned);
@@ -130,7 +130,7 @@ void laik_tcp_server_free (Laik_Tcp_Server* this) {
     }
 
     // Signal the worker threads that we are shutting down
-    this->shutdown = true;
+    g_atomic_int_set (&this->shutdown, true);
     laik_tcp_socket_queue_cancel (this->sockets);
 
     // Wait for the worker threads to complete
-- 
2.43.0


From 3a509258fbbe3eda6959b2033a353770dbb03f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:18 +0000
Subject: [PATCH 83/89] fix: messages of the tcp backend got lost when a
 connection timed out

A message was removed from the outbox as soon as it was handed to the
kernel, whether or not it arrived at the peer. Now the receiver confirms
the arrival. Also, an interrupted poll was taken as connection error.
---
 src/backends/tcp/messenger.c | 45 +++++++++++++++++++++++++++++++-----
 src/backends/tcp/socket.c    |  8 ++++++-
 2 files changed, 46 insertions(+), 7 deletions(-)

diff --git a/src/backends/tcp/messenger.c b/src/backends/tcp/messenger.c
index 8eaf59c..64574a2 100644
--- a/src/backends/tcp/messenger.c
+++ b/src/backends/tcp/messenger.c
@@ -41,6 +41,7 @@ typedef enum {
     MESSAGE_ADD = 0,
     MESSAGE_GET = 1,
     MESSAGE_TRY = 2,
+    MESSAGE_ACK = 3,
 } MessageType;
 
 #define CHECK(exp) {\
@@ -52,6 +53,34 @@ typedef enum {
     } \
 }
 
+// Send a request and receive the response, with another connection if the one
+// used gets closed or timed out. For requests which may arrive multiple times,
+// and must not get lost as long as the peer accepts connections.
+__attribute__ ((warn_unused_result))
+static Laik_Tcp_Socket* laik_tcp_messenger_request (Laik_Tcp_Messenger* this, uint64_t type, size_t peer, GBytes* header, GBytes* body, uint64_t* response) {
+    laik_tcp_always (this);
+    laik_tcp_always (header);
+    laik_tcp_always (response);
+
+    g_autoptr (Laik_Tcp_Config) config = laik_tcp_config ();
+
+    for (size_t attempt = 0; attempt < config->send_attempts; attempt++) {
+        g_autoptr (Laik_Tcp_Socket) socket = laik_tcp_client_connect (this->client, peer);
+        if (!socket) {
+            break;
+        }
+
+        if (laik_tcp_socket_send_uint64 (socket, type) &&
+            laik_tcp_socket_send_bytes (socket, header) &&
+            (!body || laik_tcp_socket_send_bytes (socket, body)) &&
+            laik_tcp_socket_receive_uint64 (socket, response)) {
+            return g_steal_pointer (&socket);
+        }
+    }
+
+    return NULL;
+}
+
 __attribute__ ((warn_unused_result))
 static bool laik_tcp_messenger_client (Laik_Tcp_Messenger* this, Laik_Tcp_Task* job) {
     laik_tcp_always (this);
@@ -84,16 +113,16 @@ static bool laik_tcp_messenger_client (Laik_Tcp_Messenger* this, Laik_Tcp_Task*
             if (response) {
                 CHECK ((body = laik_tcp_socket_receive_bytes (socket)));
                 laik_tcp_map_add (this->inbox, task->header, body);
+
+                // Now that the message arrived, the peer can discard it
+                laik_tcp_client_store (this->client, task->peer, g_steal_pointer (&socket));
+                CHECK ((socket = laik_tcp_messenger_request (this, MESSAGE_ACK, task->peer, task->header, NULL, &response)));
             }
             break;
 
         case MESSAGE_TRY:
             CHECK ((body = laik_tcp_map_get (this->outbox, task->header, 0)));
-            CHECK ((socket = laik_tcp_client_connect (this->client, task->peer)));
-            CHECK (laik_tcp_socket_send_uint64 (socket, task->type));
-            CHECK (laik_tcp_socket_send_bytes (socket, task->header));
-            CHECK (laik_tcp_socket_send_bytes (socket, body));
-            CHECK (laik_tcp_socket_receive_uint64 (socket, &response));
+            CHECK ((socket = laik_tcp_messenger_request (this, task->type, task->peer, task->header, body, &response)));
             if (response) {
                 laik_tcp_map_discard (this->outbox, task->header);
             }
@@ -146,7 +175,6 @@ static bool laik_tcp_messenger_server (Laik_Tcp_Messenger* this, Laik_Tcp_Socket
             if ((body = laik_tcp_map_get (this->outbox, header, 0))) {
                 CHECK (laik_tcp_socket_send_uint64 (socket, 1));
                 CHECK (laik_tcp_socket_send_bytes (socket, body));
-                laik_tcp_map_discard (this->outbox, header);
             } else {
                 CHECK (laik_tcp_socket_send_uint64 (socket, 0));
             }
@@ -158,6 +186,11 @@ static bool laik_tcp_messenger_server (Laik_Tcp_Messenger* this, Laik_Tcp_Socket
             CHECK (laik_tcp_socket_send_uint64 (socket, response));
             break;
 
+        case MESSAGE_ACK:
+            laik_tcp_map_discard (this->outbox, header);
+            CHECK (laik_tcp_socket_send_uint64 (socket, 1));
+            break;
+
         default:
             return false;
     }
diff --git a/src/backends/tcp/socket.c b/src/backends/tcp/socket.c
index f3721fa..efa9fdd 100644
--- a/src/backends/tcp/socket.c
+++ b/src/backends/tcp/socket.c
@@ -396,5 +396,11 @@ bool laik_tcp_socket_wait (Laik_Tcp_Socket* this, const short events, const doub
 
     struct pollfd pollfd = laik_tcp_socket_get_pollfd (this, events);
 
-    return poll (&pollfd, 1, seconds * 1000) == 1;
+    // A signal does not mean that there is anything wrong with the connection
+    int result;
+    do {
+        result = poll (&pollfd, 1, seconds * 1000);
+    } while (result < 0 && errno == EINTR);
+
+    return result == 1;
 }
-- 
2.43.0


From 808f7dad0f67a18d14038aaab468604feeab44a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:18 +0000
Subject: [PATCH 84/89] fix: threads of the tcp backend shared a static dummy
 buffer

---
 src/backends/tcp/socketqueue.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/backends/tcp/socketqueue.c b/src/backends/tcp/socketqueue.c
index 855332e..2039bcf 100644
--- a/src/backends/tcp/socketqueue.c
+++ b/src/backends/tcp/socketqueue.c
@@ -25,8 +25,6 @@
 #include "socket.h"      // for Laik_Tcp_Socket, laik_tcp_socket_get_pollfd
 #include "socketpair.h"  // for laik_tcp_socket_pair_new, Laik_Tcp_SocketPair
 
-static char laik_tcp_socket_queue_dummy[1024];
-
 struct Laik_Tcp_SocketQueue {
     GPtrArray*           sockets;
     GArray*              pollfds;
@@ -36,7 +34,8 @@ struct Laik_Tcp_SocketQueue {
 void laik_tcp_socket_queue_cancel (Laik_Tcp_SocketQueue* this) {
     laik_tcp_always (this);
 
-    __attribute__ ((unused)) ssize_t result = laik_tcp_socket_try_send (this->signal->primary, laik_tcp_socket_queue_dummy, 1);
+    const char dummy = 0;
+    __attribute__ ((unused)) ssize_t result = laik_tcp_socket_try_send (this->signal->primary, &dummy, 1);
 }
 
 void laik_tcp_socket_queue_free (Laik_Tcp_SocketQueue* this) {
@@ -106,7 +105,8 @@ Laik_Tcp_Socket* laik_tcp_socket_queue_pop (Laik_Tcp_SocketQueue* this) {
                     // The signal socket pair has an event ready, which means
                     // we got cancelled, so drain all the data, reset the
                     // "revents" field and return NULL
-                    while (laik_tcp_socket_try_receive (this->signal->secondary, laik_tcp_socket_queue_dummy, sizeof (laik_tcp_socket_queue_dummy)) > 0);
+                    char dummy[1024];
+                    while (laik_tcp_socket_try_receive (this->signal->secondary, dummy, sizeof (dummy)) > 0);
                     pollfd->revents = 0;
                     return NULL;
                 } else {
-- 
2.43.0


From 82f715c4cd406357541b3ca22b349cd4bde9b196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:18 +0000
Subject: [PATCH 85/89] fix: default names of objects overflowed their buffer

This happened with large object ids and for clones of partitionings
with long names.
---
 src/action.c       |  5 +++--
 src/data.c         | 10 ++++++----
 src/partitioning.c |  5 +++--
 src/space.c        | 10 ++++++----
 src/type.c         |  5 +++--
 5 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/action.c b/src/action.c
index 6abdce0..434cea9 100644
--- a/src/action.c
+++ b/src/action.c
@@ -36,8 +36,9 @@ Laik_ActionSeq* laik_aseq_new(Laik_Instance *inst)
         exit(1); // not actually needed, laik_panic never returns
     }
     as->id = aseq_id++;
-    as->name = strdup("aseq-0     ");
-    sprintf(as->name, "aseq-%d", as->id);
+    char name[20]; // long enough for any id
+    snprintf(name, sizeof(name), "aseq-%d", as->id);
+    as->name = strdup(name);
 
     as->inst = inst;
     as->backend = 0;
diff --git a/src/data.c b/src/data.c
index 82e1a1a..a58b10f 100644
--- a/src/data.c
+++ b/src/data.c
@@ -165,8 +165,9 @@ Laik_Data* laik_new_data(Laik_Space* space, Laik_Type* type)
     }
 
     d->id = data_id++;
-    d->name = strdup("data-0     ");
-    sprintf(d->name, "data-%d", d->id);
+    char name[20]; // long enough for any id
+    snprintf(name, sizeof(name), "data-%d", d->id);
+    d->name = strdup(name);
 
     d->space = space;
     d->type = type;
@@ -914,8 +915,9 @@ Laik_Reservation* laik_reservation_new(Laik_Data* d)
     }
 
     r->id = res_id++;
-    r->name = strdup("res-0     ");
-    sprintf(r->name, "res-%d", r->id);
+    char name[20]; // long enough for any id
+    snprintf(name, sizeof(name), "res-%d", r->id);
+    r->name = strdup(name);
 
     r->data = d;
     r->count = 0;
diff --git a/src/partitioning.c b/src/partitioning.c
index c67b5bd..4466904 100644
--- a/src/partitioning.c
+++ b/src/partitioning.c
@@ -271,8 +271,9 @@ Laik_Partitioning* laik_partitioning_new(char* name,
     }
 
     p->id = partitioning_id++;
-    p->name = strdup("            ");
-    sprintf(p->name, "%.10s-%d", name ? name : "part", p->id);
+    char pname[30]; // long enough for shortened name and any id
+    snprintf(pname, sizeof(pname), "%.10s-%d", name ? name : "part", p->id);
+    p->name = strdup(pname);
 
     p->group = g;
     p->space = s;
diff --git a/src/space.c b/src/space.c
index 48a28dd..be625a9 100644
--- a/src/space.c
+++ b/src/space.c
@@ -325,8 +325,9 @@ Laik_Space* laik_new_space(Laik_Instance* inst)
     }
 
     space->id = space_id++;
-    space->name = strdup("space-0     ");
-    sprintf(space->name, "space-%d", space->id);
+    char name[20]; // long enough for any id
+    snprintf(name, sizeof(name), "space-%d", space->id);
+    space->name = strdup(name);
 
     space->inst = inst;
     space->dims = 0; // invalid
@@ -1563,8 +1564,9 @@ do_calc_transition(Laik_Space* space,
     }
 
     t->id = trans_id++;
-    t->name = strdup("trans-0     ");
-    sprintf(t->name, "trans-%d", t->id);
+    char name[20]; // long enough for any id
+    snprintf(name, sizeof(name), "trans-%d", t->id);
+    t->name = strdup(name);
 
     t->flags = tflags;
     t->space = space;
diff --git a/src/type.c b/src/type.c
index 8775c24..1964084 100644
--- a/src/type.c
+++ b/src/type.c
@@ -643,8 +643,9 @@ Laik_Type* laik_type_new(char* name, Laik_TypeKind kind, int size,
     if (name)
         t->name = name;
     else {
-        t->name = strdup("type-0     ");
-        sprintf(t->name, "type-%d", t->id);
+        char tname[20]; // long enough for any id
+        snprintf(tname, sizeof(tname), "type-%d", t->id);
+        t->name = strdup(tname);
     }
 
     t->kind = kind;
-- 
2.43.0


From 87aeb897d65f2e46c6e344327ed6cc97b933b9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:18 +0000
Subject: [PATCH 86/89] fix: switching partitionings leaked the transition and
 names

---
 src/action.c | 1 +
 src/data.c   | 1 +
 src/space.c  | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/action.c b/src/action.c
index 434cea9..72ab126 100644
--- a/src/action.c
+++ b/src/action.c
@@ -113,6 +113,7 @@ void laik_aseq_free(Laik_ActionSeq* as)
     free(as->action);
     free(as->newAction);
 
+    free(as->name);
     free(as);
 }
 
diff --git a/src/data.c b/src/data.c
index a58b10f..c9d721f 100644
--- a/src/data.c
+++ b/src/data.c
@@ -1364,6 +1364,7 @@ void laik_switchto_partitioning(Laik_Data* d,
                                             flow, redOp);
 
     doTransition(d, t, 0, d->activeMappings, toList);
+    laik_free_transition(t);
 
     // if we migrated to common group before, migrate back
     if (commonGroup) {
diff --git a/src/space.c b/src/space.c
index be625a9..4613839 100644
--- a/src/space.c
+++ b/src/space.c
@@ -1652,6 +1652,7 @@ void laik_free_transition(Laik_Transition* t)
     if (!t) return;
 
     laik_log(1, "free transition '%s'", t->name);
+    free(t->name);
     free(t);
 }
 
-- 
2.43.0


From fd4fb2f218c27b4bb561fbb1aa1b752f16b73cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:18 +0000
Subject: [PATCH 87/89] fix: laik_free_partitioning and laik_rangelist_free
 leaked memory

---
 src/partitioning.c | 9 +++++++--
 src/rangelist.c    | 1 +
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/partitioning.c b/src/partitioning.c
index 4466904..6d685c5 100644
--- a/src/partitioning.c
+++ b/src/partitioning.c
@@ -321,8 +321,11 @@ void laik_free_partitioning(Laik_Partitioning* p)
     RangeList_Entry* e = p->rangeList;
     while(e) {
         laik_rangelist_free(e->ranges);
-        e = e->next;
+        RangeList_Entry* next = e->next;
+        free(e);
+        e = next;
     }
+    free(p->name);
     free(p);
 }
 
@@ -767,5 +770,7 @@ Laik_TaskRange* laik_my_range_3d(Laik_Partitioning* p, int n,
 // give an access phase a name, for debug output
 void laik_partitioning_set_name(Laik_Partitioning* p, char* n)
 {
-    p->name = strdup(n);
+    char* name = strdup(n);
+    free(p->name);
+    p->name = name;
 }
diff --git a/src/rangelist.c b/src/rangelist.c
index 75d417b..2b3be8a 100644
--- a/src/rangelist.c
+++ b/src/rangelist.c
@@ -57,6 +57,7 @@ void laik_rangelist_free(Laik_RangeList* list)
     free(list->tss1d);
     free(list->off);
     free(list->map_off);
+    free(list);
 }
 
 // does this cover the full space with one range for each process?
-- 
2.43.0


From 2507322f692bc795abc25276e3b5fa76eaf4004c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:18 +0000
Subject: [PATCH 88/89] fix: laik_free_space leaked the space and left a
 dangling pointer in the store

A later synchronisation, or getting a space with the same name, used the
name already freed.
---
 src/space.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/space.c b/src/space.c
index 4613839..b52c562 100644
--- a/src/space.c
+++ b/src/space.c
@@ -391,9 +391,18 @@ Laik_Space* laik_new_space_3d(Laik_Instance* i,
 // free a space with all resources depending on it (e.g. paritionings)
 void laik_free_space(Laik_Space* s)
 {
-    free(s->name);
     laik_removeSpaceFromInstance(s->inst, s);
-    // TODO
+
+    // entry in space store must not reference the space any more
+    if (s->kvs) {
+        Laik_KVS_Entry* e = laik_kvs_entry(s->kvs, s->name);
+        if (e && (e->data == s))
+            e->data = 0;
+    }
+
+    free(s->name);
+    free(s);
+    // TODO: free resources depending on this space
 }
 
 // give a space a name, for debugging or referencing in space store
-- 
2.43.0


From 7683a6d2eec3e0da27c0cab27c38ecbd57a89b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:18 +0000
Subject: [PATCH 89/89] fix: use after free when setting a value taken from the
 same store entry

---
 src/kvs.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kvs.c b/src/kvs.c
index 16ae5e7..41a7ec6 100644
--- a/src/kvs.c
+++ b/src/kvs.c
@@ -412,7 +412,6 @@ Laik_KVS_Entry* laik_kvs_set(Laik_KVStore* kvs, char* key, unsigned int size, ch
                          kvs->name, key, size, shown, value);
                 return e;
             }
-            free(e->value);
             created = false;
         }
         else {
@@ -445,10 +444,14 @@ Laik_KVS_Entry* laik_kvs_set(Laik_KVStore* kvs, char* key, unsigned int size, ch
         exit(1);
     }
 
+    // <value> may be part of the old value: free only after copying
+    char* oldvalue = e->value;
     e->value = (char*) malloc(size);
     assert(e->value);
     memcpy(e->value, value, size);
     e->vlen = size;
+    free(oldvalue);
+    value = e->value;
 
     if (created) {
         laik_log(1, "KVS '%s': set new entry '%s' (size %d) to '%.*s'",
-- 
2.43.0

